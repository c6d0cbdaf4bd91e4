"""Random polynomials split with respect to each of their variables."""
import numpy as np
import sympy

from checks.c01 import shuffled
from cyverif import refpoly as rp

REQUIRED = ['length', 'reassemble', 'coefficient', 'independent', 'line', 'unchanged']


def split(m, rng, ref, poly, n, k):
    from cyjax.polynomial import univariate_coefficients, Poly
    s = n if k is None else f'{n}{k}'
    u = s if k is None else f'{n}_{k}'
    var = [s, u, sympy.Symbol(s), sympy.Symbol(u), np.array(sympy.Symbol(s))][rng.integers(5)]
    m.note(f'{ref.text()} by {var}')
    before = (str(poly()), str(poly.variable_names), str(poly.variable_indices))
    coeffs = univariate_coefficients(poly, var)
    m.equal('unchanged', (str(poly()), str(poly.variable_names), str(poly.variable_indices)), before)
    p = ref.symbols.index(s)
    degree = max(e[p] for e in ref.terms)
    m.equal('length', len(coeffs), degree + 1)
    # inputs of the coefficients are the remaining variables
    rest = [(a, i if i is None or a != n else [j for j in i if j != k])
            for a, i in ref.variables if not (a == n and (i is None or i == [k]))]
    for _ in range(2):
        vals, par = rp.random_values(rng, ref)
        flat = ref.flat(vals, par)
        x = flat[p]
        args = []
        for (a, i), v in zip(ref.variables, vals):
            if a != n:
                args.append(v)
            elif i is not None and i != [k]:
                args.append(np.delete(v, i.index(k)))
        total = 0
        for d, c in enumerate(coeffs):
            power = degree - d
            want = rp.RefPoly(ref.variables, ref.params, {
                tuple(0 if q == p else y for q, y in enumerate(e)): z
                for e, z in ref.terms.items() if e[p] == power})
            if isinstance(c, Poly):
                m.ok('independent', s not in map(str, sympy.sympify(c()).free_symbols),
                     f'coefficient contains {s}')
                m.equal('independent', [(a, None if i is None else list(i)) for a, i in
                                        zip(c.variable_names, c.variable_indices)], rest)
                got = c(*args, params=par)
            else:
                got = complex(np.asarray(c))
            m.close('coefficient', got, want.value_flat(flat), 1e-9, ref.size_flat(flat))
            total = total + got * x ** power
        m.close('reassemble', total, ref.value_flat(flat), 1e-8, ref.size_flat(flat))


def generic(m):
    for rng in m.cases('generic', 200, 2000):
        ref = shuffled(rng, rp.random_poly(rng, min_symbols=2, large=.08))
        from cyjax.polynomial import Poly
        poly = Poly.from_sympy(ref.text(rng), [n for n, _ in ref.variables], ref.params,
                               variable_indices=[i for _, i in ref.variables])
        for n, i in ref.variables:
            for k in ([None] if i is None else i):
                split(m, rng, ref, poly, n, k)


def gaps(m):
    """Powers with gaps, vanishing constant term, degree zero in a variable."""
    from cyjax.polynomial import Poly
    for rng in m.cases('gaps', 60, 600):
        powers = sorted(int(x) for x in rng.choice(9, int(rng.integers(1, 4)), replace=False))
        terms = {}
        for p in powers:
            for _ in range(int(rng.integers(1, 3))):
                terms[(p, *map(int, rng.integers(0, 3, 2)), int(rng.integers(2)))] = rp.random_coeff(rng)
        ref = rp.RefPoly([('x', None), ('z', [2, 11])], ['c'], terms)
        poly = Poly.from_sympy(ref.text(rng), ['x', 'z'], ['c'], variable_indices=[None, [2, 11]])
        for n, k in (('x', None), ('z', 2), ('z', 11)):
            split(m, rng, ref, poly, n, k)


def line(m):
    """The use in intersecting with a line: coefficients of q(p + t q)."""
    from cyjax.polynomial import HomPoly, Poly, univariate_coefficients
    for rng in m.cases('line', 40, 300):
        size, deg = int(rng.integers(2, 5)), int(rng.integers(1, 5))
        ref = rp.random_hompoly(rng, [deg], [size], names=['z'], indices=[list(range(size))])
        m.note(ref.text())
        poly = HomPoly.from_sympy(ref.text(rng), ['z'], ref.params, [size])
        a, b = sympy.symarray('aa', size), sympy.symarray('bb', size)
        t = np.array(sympy.Symbol('tt'))
        expr = poly(a + t * b, np.array([sympy.Symbol(p) for p in ref.params]))
        coeffs = univariate_coefficients(
            Poly.from_sympy(expr, [t, a, b], ref.params), t)
        m.equal('length', len(coeffs), deg + 1)
        _, par = rp.random_values(rng, ref, kind='complex')
        va, vb = rng.normal(size=(2, size)) + 1j * rng.normal(size=(2, size))
        vt = complex(rng.normal(), rng.normal())
        got = sum((c(va, vb, par) if isinstance(c, Poly) else complex(np.asarray(c))) * vt ** (deg - i)
                  for i, c in enumerate(coeffs))
        m.close('line', got, ref.value([va + vt * vb], par), 1e-8,
                ref.size([np.abs(va) + np.abs(vt * vb)], par))


WORKLOADS = {'generic': generic, 'gaps': gaps, 'line': line}
