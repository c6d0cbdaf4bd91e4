"""Random homogeneous polynomials in homogeneous coordinates and in all affine patches."""
import itertools

import numpy as np
import sympy

from cyverif import refpoly as rp
from checks.c01 import shuffled

REQUIRED = ['hom', 'affine', 'affine.poly', 'evaluator', 'evaluator.mixed', 'scaling',
            'dwork', 'fermat', 'symbolic', 'variety', 'gradient']


def build(rng, ref):
    from cyjax.polynomial import HomPoly
    return HomPoly.from_sympy(ref.text(rng), [n for n, _ in ref.variables], ref.params,
                              variable_indices=[i for _, i in ref.variables])


def full(zs, patch):
    return [np.insert(z, p, 1., axis=-1) for z, p in zip(zs, patch)]


def draw(rng, sizes, patch=None, batch=()):
    return [rng.normal(size=(*batch, s - (patch is not None)))
            + 1j * rng.normal(size=(*batch, s - (patch is not None))) for s in sizes]


def direct(m):
    for rng in m.cases('direct', 100, 1000):
        nv = int(rng.integers(1, 4))
        sizes = [int(rng.integers(2, 5 if nv == 1 else 4)) for _ in range(nv)]
        degrees = [int(rng.integers(1, 5 if nv == 1 else 3)) for _ in range(nv)]
        ref = shuffled(rng, rp.random_hompoly(rng, degrees, sizes))
        m.note(f'{ref.text()} of {ref.variables}')
        poly = build(rng, ref)
        par = rp.random_values(rng, ref, kind='complex')[1]
        zs = draw(rng, sizes)
        m.close('hom', poly(*zs, params=par), ref.value(zs, par), 1e-9, ref.size(zs, par))
        lam = [complex(*rng.normal(size=2)) for _ in sizes]
        factor = np.prod([x ** d for x, d in zip(lam, degrees)])
        m.close('scaling', poly(*[x * z for x, z in zip(lam, zs)], params=par),
                factor * ref.value(zs, par), 1e-8, abs(factor) * ref.size(zs, par))
        patches = list(itertools.product(*map(range, sizes)))
        rng.shuffle(patches)
        for patch in patches:
            zs = draw(rng, sizes, patch)
            if rng.integers(3) == 0:
                zs = [z * (rng.random(z.shape) < .5) for z in zs]
            p = patch if nv > 1 else [patch, patch[0]][rng.integers(2)]
            p = tuple(map(int, patch)) if nv > 1 else (int(patch[0]) if p is not patch else (int(patch[0]),))
            want, scale = ref.value(full(zs, patch), par), ref.size(full(zs, patch), par)
            m.close('affine', poly(*zs, params=par, patch=p), want, 1e-9, scale)
            aff = poly.affine_poly(p)
            m.close('affine.poly', aff(*zs, params=par), want, 1e-9, scale)
            m.equal('affine.poly', [len(i) for i in aff.variable_indices], [s - 1 for s in sizes])
            # in the result, the remaining subscripts are kept
            m.equal('affine.indices', [[int(k) for k in i] for i in aff.variable_indices],
                    [[k for j, k in enumerate(i) if j != q] for (_, i), q in zip(ref.variables, patch)])


def evaluator(m):
    import jax
    for rng in m.cases('evaluator', 16, 120):
        s = int(rng.integers(2, 6))
        d = int(rng.integers(1, 5))
        ref = shuffled(rng, rp.random_hompoly(rng, [d], [s]))
        m.note(ref.text())
        poly = build(rng, ref)
        fn = poly.transform_eval()
        par = rp.random_values(rng, ref, kind='complex')[1]
        (z,) = draw(rng, [s], batch=(3,))
        m.close('evaluator', fn(z, params=par, patch=None), ref.value([z], par), 1e-9, ref.size([z], par))
        for p in range(s):
            (z,) = draw(rng, [s], 0, (2,))
            h = full([z], [p])
            m.close('evaluator', fn(z, params=par, patch=p), ref.value(h, par), 1e-9, ref.size(h, par))
        batch = [(7,), (2, 4)][rng.integers(2)]
        (z,) = draw(rng, [s], 0, batch)
        patch = rng.integers(0, s, batch)
        h = np.empty((*batch, s), complex)
        for i in np.ndindex(batch):
            h[i] = np.insert(z[i], patch[i], 1.)
        m.close('evaluator.mixed', fn(z, params=par, patch=patch), ref.value([h], par), 1e-9,
                ref.size([h], par))
        # patch of the last batch axis only, different parameters per element
        pars = rp.random_values(rng, ref, batch, kind='complex')[1]
        last = rng.integers(0, s, batch[-1:])
        for i in np.ndindex(batch):
            h[i] = np.insert(z[i], last[i[-1]], 1.)
        m.close('evaluator.mixed', jax.jit(fn)(z, params=pars, patch=last), ref.value([h], pars), 1e-9,
                ref.size([h], pars))
        # derivative in a patch
        p = int(rng.integers(s))
        z0 = z.reshape(-1, s - 1)[0]
        g = jax.grad(lambda x: fn(x, params=par, patch=p), holomorphic=True)(z0)
        hz = np.insert(z0, p, 1.)
        syms = [t for j, t in enumerate(ref.var_symbols) if j != p]
        m.close('gradient', g, np.array([ref.diff(t).value([hz], par) for t in syms]), 1e-8,
                max(float(ref.diff(t).size([hz], par)) for t in syms) + 1e-30)


def multi(m):
    """Generated evaluation for several projective factors."""
    for rng in m.cases('multi', 10, 60):
        nv = int(rng.integers(2, 4))
        sizes = [int(rng.integers(2, 4)) for _ in range(nv)]
        ref = rp.random_hompoly(rng, [1 + int(rng.integers(2)) for _ in sizes], sizes)
        m.note(ref.text())
        fn = build(rng, ref).transform_eval()
        par = rp.random_values(rng, ref, kind='complex')[1]
        for patch in itertools.product(*map(range, sizes)):
            zs = draw(rng, sizes, patch)
            h = full(zs, patch)
            m.close('evaluator', fn(*zs, params=par, patch=tuple(patch)),
                    ref.value(h, par), 1e-9, ref.size(h, par))


def known_ref(degree, factor=None):
    terms = {tuple(degree if i == j else 0 for i in range(degree))
             + (() if factor is None else (0,)): 1. for j in range(degree)}
    if factor is not None:
        terms[(1,) * degree + (1,)] = factor
    return rp.RefPoly([('z', list(range(degree)))], [] if factor is None else ['psi'], terms)


def builtin(m):
    import cyjax
    from cyjax.polynomial import DworkPoly, FermatPoly
    cases = [('dwork', n, f) for n in (2, 3, 4, 5, 6) for f in (True, False, 2.5, -1 + .5j)]
    cases += [('fermat', n, None) for n in (2, 3, 4, 5, 6)]
    cases += [('dwork', None, True), ('fermat', None, None)]  # everything left at its default
    for (kind, n, f), rng in m.each('builtin', cases):
        if n is None:
            n = 5
            poly, variety = (DworkPoly(), cyjax.Dwork()) if kind == 'dwork' else (FermatPoly(), cyjax.Fermat())
            ref = known_ref(n, -5. if kind == 'dwork' else None)
        elif kind == 'dwork':
            poly = DworkPoly(n) if f is True else DworkPoly(n, f)
            ref = known_ref(n, {True: -5., False: 1.}[f] if isinstance(f, bool) else f)
            variety = None if n == 2 else cyjax.Dwork(n - 2) if f is True else cyjax.Dwork(n - 2, f)
        else:
            poly, ref = FermatPoly(n), known_ref(n)
            variety = cyjax.Fermat(n - 2) if n > 2 else None
        par = rp.random_values(rng, ref, kind='complex')[1]
        generic = build(rng, ref)
        for patch in [None, *range(n)]:
            (z,) = draw(rng, [n], patch)
            h = [z] if patch is None else full([z], [patch])
            want, scale = ref.value(h, par), ref.size(h, par)
            m.close(kind, poly(z, params=par, patch=patch), want, 1e-9, scale)
            m.close(kind, generic(z, params=par, patch=patch), want, 1e-9, scale)
            if variety is not None:
                m.close('variety', variety.defining(z, par, patch), want, 1e-9, scale)
                m.close('variety', variety.defining_poly(z, params=par, patch=patch), want, 1e-9, scale)
            sym = np.array([sympy.Symbol(f'y{i}') for i in range(len(z))])
            ps = np.array([sympy.Symbol(p) for p in ref.params])
            e = sympy.sympify(poly(sym, ps, patch=patch) if kind == 'dwork' else poly(sym, patch=patch))
            val = e.subs({**dict(zip(sym, map(complex, z))), **dict(zip(ps, map(complex, par)))})
            m.close('symbolic', complex(val), want, 1e-8, scale)
        if variety is not None:
            m.equal('variety', (variety.dim_complex, variety.dim_projective, variety.dim_variety,
                                variety.dim, variety.par_count, [str(p) for p in variety.parameters]),
                    (n, n - 1, n - 2, n - 2, len(ref.params), ref.params))


def varieties(m):
    """Defining equation of a variety given as text."""
    import cyjax
    for rng in m.cases('varieties', 12, 80):
        s, d = int(rng.integers(3, 6)), int(rng.integers(1, 5))
        ref = rp.random_hompoly(rng, [d], [s], indices=[list(range(s))])
        m.note(ref.text())
        v = cyjax.VarietySingle.from_sympy(ref.text(rng), ref.variables[0][0], s, ref.params)
        batch = (4,)
        par = rp.random_values(rng, ref, batch, kind='complex')[1]
        (z,) = draw(rng, [s], None, batch)
        m.close('variety', v.defining(z, par), ref.value([z], par), 1e-9, ref.size([z], par))
        (z,) = draw(rng, [s], 0, batch)
        patch = rng.integers(0, s, batch)
        h = np.array([np.insert(a, p, 1.) for a, p in zip(z, patch)])
        m.close('variety', v.defining(z, par, patch), ref.value([h], par), 1e-9, ref.size([h], par))


WORKLOADS = {'direct': direct, 'evaluator': evaluator, 'multi': multi,
             'builtin': builtin, 'varieties': varieties}
