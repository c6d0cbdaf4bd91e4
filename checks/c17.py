"""Monomial bases of all small degrees; exact linear algebra over a prime field decides spanning."""
from itertools import product

import numpy as np

from cyverif import geometry as geo, refpoly as rp

REQUIRED = ['full.powers', 'full.indices', 'full.size', 'full.object', 'reduced.subset', 'reduced.basis',
            'reduced.function', 'reduced.size', 'reduced.low-degree', 'reduced.degree-zero', 'parameter-values',
            'vanishing-parameter', 'order-free', 'fails-never']

P = 1000000009
I_MOD = next(pow(g, (P - 1) // 4, P) for g in range(2, 50) if pow(g, (P - 1) // 2, P) == P - 1)


def monomials(n, k):
    return sorted(e for e in product(range(k + 1), repeat=n) if sum(e) == k)


def mod(c):
    c = complex(c)
    assert c == complex(round(c.real), round(c.imag))
    return (round(c.real) + I_MOD * round(c.imag)) % P


def rank(rows):
    rows = [list(r) for r in rows]
    r = 0
    for col in range(len(rows[0]) if rows else 0):
        piv = next((i for i in range(r, len(rows)) if rows[i][col]), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        inv = pow(rows[r][col], P - 2, P)
        for i in range(r + 1, len(rows)):
            f = rows[i][col] * inv % P
            if f:
                rows[i] = [(a - f * b) % P for a, b in zip(rows[i], rows[r])]
        r += 1
        if r == len(rows):
            break
    return r


def judge(m, basis, n, k, poly, name='reduced.basis'):
    """basis: power matrix; poly: {exponents: integer coefficient}."""
    full = monomials(n, k)
    basis = [tuple(int(i) for i in e) for e in np.asarray(basis).tolist()]
    m.ok('reduced.subset', len(set(basis)) == len(basis) and set(basis) <= set(full),
         f'not distinct monomials of degree {k}: {basis}')
    d = sum(next(iter(poly)))
    mult = monomials(n, k - d) if k >= d else []
    m.equal('reduced.size', len(basis), len(full) - len(mult))
    if k < d:
        m.equal('reduced.low-degree', sorted(basis), full)
        return
    removed = {e: i for i, e in enumerate(e for e in full if e not in set(basis))}
    rows = []
    for r in mult:
        row = [0] * len(removed)
        for e, c in poly.items():
            t = tuple(a + b for a, b in zip(e, r))
            if t in removed:
                row[removed[t]] = mod(c)
        rows.append(row)
    got = rank(rows)
    m.ok(name, got == len(removed) == len(mult),
         f'rank {got}, {len(removed)} monomials removed, {len(mult)} relations', key=basis)


def full(m):
    from cyjax import donaldson
    sizes = [(d, k) for d in range(1, 6) for k in range(0, 7) if (d <= 3 or k <= 4)]
    for (dim, k), rng in m.each('full', m.pick([s for s in sizes if s[0] <= 3 and s[1] <= 5 or s[1] <= 3], sizes)):
        want = monomials(dim + 1, k)
        pw = np.asarray(donaldson.monomial_basis(dim, k))
        m.equal('full.powers', sorted(map(tuple, pw.tolist())), want)
        if k > 0:
            idx = np.asarray(donaldson.monomial_basis_indices(dim, k))
            m.equal('full.indices', idx.shape, (len(want), k))
            conv = [tuple(int(np.sum(row == i)) for i in range(dim + 1)) for row in idx]
            m.equal('full.indices', sorted(conv), want)
        m.equal('full.size', int(donaldson.monomial_basis_size(dim, k)), len(want))
        d = dim + 1
        red = len(want) - (len(monomials(d, k - d)) if k >= d else 0)
        m.equal('full.size', int(donaldson.monomial_basis_size(dim, k, True)), red)
        m.equal('full.size', int(donaldson.monomial_basis_size(dim, k, reduced=False)), len(want))
        obj = donaldson.MonomialBasisFull(dim, k)
        m.equal('full.object', (obj.size, obj.degree), (len(want), k))
        m.equal('full.object', sorted(map(tuple, np.asarray(obj.power_matrix).tolist())), want)


def gauss(rng, zero=False):
    while True:
        c = complex(rng.integers(-3, 4), rng.integers(-3, 4) if rng.integers(2) else 0)
        if c != 0 or zero:
            return c


def function(m):
    """Power matrices of arbitrary homogeneous polynomials in arbitrary order."""
    from cyjax import donaldson
    for rng in m.cases('function', 14, 150):
        n = int(rng.integers(2, 5))
        d = int(rng.integers(1, 5))
        mons = monomials(n, d)
        take = rng.permutation(len(mons))[:int(rng.integers(1, min(len(mons), 9) + 1))]
        poly = {mons[i]: gauss(rng) for i in take}
        m.note(f'{poly}')
        for k in sorted({0, d - 1, d, d + 1, d + 2, d + int(rng.integers(3, 9))}):
            if k < 0 or len(monomials(n, k)) > 130:
                continue
            pows = np.array(list(poly))
            got = donaldson.reduced_monomial_basis(k, pows)
            judge(m, got, n, k, poly, 'reduced.function')
            perm = donaldson.reduced_monomial_basis(k, pows[rng.permutation(len(pows))])
            judge(m, perm, n, k, poly, 'order-free')
            m.ok('fails-never', True, key=(poly, k))


def objects(m, name):
    """Reduced bases of varieties, with and without vanishing parameters."""
    from cyjax import donaldson
    for rng in m.cases(name, 8, 60):
        kind = rng.integers(3)
        if kind == 0:
            v = geo.dwork(int(rng.integers(3, 5)), [True, False, 3.][rng.integers(3)])
        elif kind == 1:
            v = geo.fermat(int(rng.integers(3, 5)))
        else:
            n, d = int(rng.integers(3, 5)), int(rng.integers(2, 5))
            mons = monomials(n, d)
            npar = int(rng.integers(0, 3))
            terms = {}
            for i in rng.permutation(len(mons))[:int(rng.integers(2, min(len(mons), 8) + 1))]:
                par = np.zeros(npar, int)
                if npar and rng.integers(2):
                    par[rng.integers(npar)] = 1
                terms[mons[i] + tuple(int(p) for p in par)] = gauss(rng)
            if all(sum(e[n:]) for e in terms):
                terms[mons[0] + (0,) * npar] = 1.
            # every coordinate and parameter has to appear
            for j in range(n):
                if not any(e[j] for e in terms):
                    terms[tuple(d if i == j else 0 for i in range(n)) + (0,) * npar] = gauss(rng)
            for j in range(npar):
                if not any(e[n + j] for e in terms):
                    e = mons[int(rng.integers(len(mons)))]
                    terms[e + tuple(int(i == j) for i in range(npar))] = gauss(rng)
            v = geo.RefVariety(rp.RefPoly([('z', list(range(n)))], ['a', 'b'][:npar], terms))
        n, d = v.n, v.degree
        variety = v.build()
        for attempt in range(2):
            par = np.array([gauss(rng) for _ in v.params], complex)
            zero = bool(len(par)) and bool(attempt)
            if zero:
                par[rng.integers(len(par))] = 0
            poly = {}
            for e, c in v.ref.terms.items():
                poly[e[:n]] = poly.get(e[:n], 0) + c * np.prod(par ** np.array(e[n:], int))
            poly = {e: c for e, c in poly.items() if c != 0}
            if not poly:
                continue
            m.note(f'{v.text} at {par}')
            for k in sorted({0, 1, d - 1, d, d + 1, d + int(rng.integers(2, 7))}):
                if len(monomials(n, k)) > 90:
                    continue
                obj = donaldson.MonomialBasisReduced(variety, k, par)
                m.equal('reduced.object', obj.degree, k)
                m.equal('reduced.object', obj.size, len(np.asarray(obj.power_matrix)))
                judge(m, obj.power_matrix, n, k, poly)
                if k == 0:
                    m.equal('reduced.degree-zero', np.asarray(obj.power_matrix).tolist(), [[0] * n])
                if len(par):
                    m.ok('vanishing-parameter' if zero else 'parameter-values', True, key=(v.text, par, k))


WORKLOADS = {'full': full, 'function': function, 'objects1': lambda m: objects(m, 'objects1'),
             'objects2': lambda m: objects(m, 'objects2'), 'objects3': lambda m: objects(m, 'objects3')}
