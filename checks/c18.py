"""Sections of full and reduced bases at random, zero and batched points against numpy powers."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['value.hom', 'value.affine', 'zero', 'log', 'scaling', 'transition', 'batched', 'conjugate',
            'derivative', 'derivative.zero', 'compiled', 'inputs-unchanged', 'integers', 'order']


def ref(pw, h):
    return np.prod(np.asarray(h)[..., None, :] ** pw, -1)


def run(m, name):
    import jax
    from cyjax import donaldson
    from cyverif.core import freeze
    for rng in m.cases(name, 5, 40):
        n = int(rng.integers(2, 6))
        k = int(rng.integers(0, {2: 13, 3: 9, 4: 6, 5: 4}[n]))
        if n >= 3 and rng.integers(2):
            v = geo.random_variety(rng, n, int(rng.integers(1, 4)))
            b = donaldson.MonomialBasisReduced(v.build(), k, geo.random_params(rng, v))
            m.note(f'reduced basis of degree {k} for {v.text}')
        else:
            b = donaldson.MonomialBasisFull(n - 1, k)
            m.note(f'full basis of degree {k} in {n} coordinates')
        pw = np.asarray(b.power_matrix)
        for _ in range(3):
            h = (rng.normal(size=n) + 1j * rng.normal(size=n)) * rng.choice([.1, 1, 1, 3])
            if rng.integers(2):  # coordinates of very different size
                h[rng.integers(n)] *= 10 ** rng.uniform(-7, -2)
            want = ref(pw, h)
            before = freeze(h)
            m.close('value.hom', np.asarray(b(h, None)), want, 1e-10)
            m.close('log', np.asarray(b(h, None, precompute=False)), want, 1e-9)
            s = rng.normal() + 1j * rng.normal()
            m.close('scaling', np.asarray(b(s * h, None)), s ** k * want, 1e-9)
            m.ok('inputs-unchanged', freeze(h) == before)
            p = int(rng.integers(n))
            for patch in range(n):
                z = geo.to_affine(h, patch)
                want = ref(pw, geo.insert(z, patch))
                got = np.asarray(b(z, patch))
                m.close('value.affine', got, want, 1e-10)
                # each entry on its own, so that the order is seen
                m.close('order', got / want, np.ones(len(pw)), 1e-8, key=want)
                m.close('log', np.asarray(b(z, patch, precompute=False)), want, 1e-9)
                other = np.asarray(b(geo.to_affine(h, p), p))
                m.close('transition', got, other * (h[p] / h[patch]) ** k, 1e-8)
                m.close('conjugate', np.asarray(b(z.conj(), patch, conj=True)), want.conj(), 1e-10)
        # zero coordinates
        h = rng.normal(size=n) + 1j * rng.normal(size=n)
        patch = int(rng.integers(n))
        zero = rng.integers(0, 2, n).astype(bool)
        zero[(patch + 1) % n] = True
        zero[patch] = False
        h[zero] = 0
        z = geo.to_affine(h, patch)
        m.close('zero', np.asarray(b(z, patch)), ref(pw, geo.insert(z, patch)), 1e-10)
        m.close('zero', np.asarray(b(h, None)), ref(pw, h), 1e-10)
        # real integer points
        hi = rng.integers(-3, 4, n)
        m.close('integers', np.asarray(b(hi.astype(float), None)), ref(pw, hi.astype(float)), 1e-10)
        # derivatives by coordinates, also at zero
        rm = geo.RefMetric(None, pw, k, np.eye(len(pw)))
        for name_, zz in [('derivative', geo.to_affine(rng.normal(size=n) + 1j * rng.normal(size=n), patch)),
                          ('derivative.zero', z)]:
            jac = jax.jacfwd(lambda x: b(x, patch), holomorphic=True)(zz)
            m.close(name_, np.asarray(jac), rm.s_1(zz, patch), 1e-9)
        # batches with individual patches
        shape = [(4,), (2, 3), (1,)][rng.integers(3)]
        hs = rng.normal(size=(*shape, n)) + 1j * rng.normal(size=(*shape, n))
        ps = rng.integers(0, n, shape)
        zs = geo.to_affine(hs, ps)
        want = ref(pw, geo.insert(zs, ps))
        m.close('batched', np.asarray(b(zs, ps)), want, 1e-10)
        m.close('batched', np.asarray(b(zs, ps, precompute=False)), want, 1e-8)
        m.close('batched', np.asarray(b(hs, None)), ref(pw, hs), 1e-10)
        m.close('compiled', np.asarray(jax.jit(b.__call__)(zs, ps)), want, 1e-10)


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(4)}
