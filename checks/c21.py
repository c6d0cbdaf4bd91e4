"""Curvature for random H against finite differences, exact spaces and Gauss-Bonnet sums."""
from math import factorial

import numpy as np

from cyverif import geometry as geo, refpoly as rp

REQUIRED = ['ricci', 'hermitian', 'scalar', 'scalar.real', 'scale-free', 'quadric', 'quadric.scalar', 'projective',
            'projective.scalar', 'gauss-bonnet', 'power']


def run(m, name):
    import jax
    for rng in m.cases(name, 2, 20):
        s = geo.setting(rng, spread=float(rng.choice([.3, 1.5])))
        v, par, ref, met, h, k = (s[i] for i in ('v', 'par', 'ref', 'metric', 'h', 'k'))
        m.note(s['text'])
        f = jax.jit(lambda h, z, q, d: (met.ricci(h, z, par, q, d)[0], met.ricci_scalar(h, z, par, q, d)))
        for z, patch, dep in v.points(rng, par, m.pick(3, 5), gap=.4):
            r, sc = map(np.asarray, f(h, z, patch, dep))
            x = np.delete(z, dep)
            num = -geo.d_mixed(lambda y: ref.logdet_local(y, par, patch, dep, z[dep]), x, .01)
            g = ref.g(z, par, patch, dep)
            size = max(np.abs(num).max(), 1.)
            m.close('ricci', r, num, 3e-4, max(size, 1e5 * geo.d_mixed.error))
            m.close('hermitian', r, r.conj().T, 1e-7, size)
            want = np.trace(r @ np.linalg.inv(g))
            big = size * np.abs(np.linalg.inv(g)).max()
            m.close('scalar', sc, want, 1e-7, big)
            m.close('scalar.real', sc.imag, np.zeros(()), 1e-7, big, key=sc)
            r2, sc2 = map(np.asarray, f(h * 3.7, z, patch, dep))
            m.close('scale-free', r2, r, 1e-7, size)
            m.close('scale-free', sc2, sc, 1e-7, big)


def bilinear(b, d=2):
    """Polynomial sum (b z)_i ^ 2."""
    a = b.T @ b
    n = len(a)
    terms = {}
    for i in range(n):
        for j in range(i, n):
            e = np.zeros(n, int)
            e[i] += 1
            e[j] += 1
            terms[tuple(int(q) for q in e)] = complex(a[i, j] * (1 if i == j else 2))
    return geo.RefVariety(rp.RefPoly([('z', list(range(n)))], [], terms))


def quadric(m):
    from cyjax import donaldson
    none = np.zeros(0)
    for rng in m.cases('quadric', 3, 20):
        n = int(rng.integers(3, 6))
        b = np.eye(n) + .4 * (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
        v = bilinear(b)
        m.note(v.text)
        met = donaldson.AlgebraicMetric(v.build(), donaldson.MonomialBasisFull(n - 1, 1))
        pw = np.asarray(met.sections.power_matrix)
        perm = [int(np.argmax(p)) for p in pw]
        h = (b.T @ b.conj())[np.ix_(perm, perm)]
        for z, q, d in v.points(rng, none, 2):
            g = np.asarray(met.metric(h, z, none, q, d)[0])
            r = np.asarray(met.ricci(h, z, none, q, d)[0])
            m.close('quadric', r, (n - 2) * np.pi * g, 1e-6)
            m.close('quadric.scalar', np.asarray(met.ricci_scalar(h, z, none, q, d)),
                    np.array((n - 2) ** 2 * np.pi + 0j), 1e-6, key=z)


def projective(m):
    from cyjax import donaldson
    none = np.zeros(0)
    for rng in m.cases('projective', 3, 20):
        n = int(rng.integers(3, 6))
        terms = {tuple(int(i == j) for i in range(n)): complex(rng.normal(), rng.normal()) for j in range(n)}
        v = geo.RefVariety(rp.RefPoly([('z', list(range(n)))], [], terms))
        m.note(v.text)
        met = donaldson.AlgebraicMetric(v.build(), donaldson.MonomialBasisFull(n - 1, 1))
        h = geo.random_h(rng, n)
        for z, q, d in v.points(rng, none, 2):
            g = np.asarray(met.metric(h, z, none, q, d)[0])
            r = np.asarray(met.ricci(h, z, none, q, d)[0])
            dim = n - 2
            m.close('projective', r, (dim + 1) * np.pi * g, 1e-6)
            m.close('projective.scalar', np.asarray(met.ricci_scalar(h, z, none, q, d)),
                    np.array(dim * (dim + 1) * np.pi + 0j), 1e-6, key=z)


def power(m):
    """Symmetric powers of the same norm have the same curvature."""
    from cyjax import donaldson
    for rng in m.cases('power', 2, 12):
        n, k = 3, int(rng.integers(2, 4))
        v = geo.random_variety(rng, n, int(rng.integers(2, 4)))
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        variety = v.build()
        one = donaldson.AlgebraicMetric(variety, donaldson.MonomialBasisFull(n - 1, 1))
        two = donaldson.AlgebraicMetric(variety, donaldson.MonomialBasisFull(n - 1, k))
        diag = np.exp(rng.normal(size=n))
        perm = [int(np.argmax(p)) for p in np.asarray(one.sections.power_matrix)]
        h2 = np.array([factorial(k) * np.prod([diag[i] ** e / factorial(e) for i, e in enumerate(p)])
                       for p in np.asarray(two.sections.power_matrix).tolist()])
        for z, q, d in v.points(rng, par, 2):
            a = np.asarray(one.ricci(np.diag(diag[perm] + 0j), z, par, q, d)[0])
            b = np.asarray(two.ricci(np.diag(h2 + 0j), z, par, q, d)[0])
            m.close('power', a, b, 1e-6)


def gauss_bonnet(m, name):
    """Mean of the curvature form over the Fubini-Study form is 3 - degree."""
    import jax
    for rng in m.cases(name, 2, 10):
        s = geo.setting(rng, n=3, max_size=10, spread=.7)
        v, par, met, h = (s[i] for i in ('v', 'par', 'metric', 'h'))
        m.note(s['text'])
        count = m.pick(6000, 30000)
        hom = v.sample(rng, par, count)
        patch = geo.best_patch(hom)
        zs = geo.to_affine(hom, patch)
        grads = np.array([v.grad_affine(z, par, p) for z, p in zip(zs, patch)])
        dep = np.argmax(np.abs(grads), -1)
        g, q, d = jax.jit(lambda z, p, d: met.metric(h, z, par, p, d))(zs, patch, dep)
        sc = jax.jit(lambda z, p, d: met.ricci_scalar(h, z, par, p, d))(zs, patch, dep)
        g, sc = np.asarray(g)[:, 0, 0].real, np.asarray(sc).real
        jac = np.array([geo.jacobian(x, int(e)) for x, e in zip(grads, dep)])
        fs = np.einsum('pri,pij,psj->p', jac, geo.fs_metric(zs), jac.conj()).real
        x = sc * g / fs
        err = x.std() * np.sqrt(v.degree / count)
        m.below('gauss-bonnet', abs(x.mean() - (3 - v.degree)) / err, 6.5)


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(4)}
WORKLOADS.update(quadric=quadric, projective=projective, power=power)
WORKLOADS['gauss-bonnet'] = lambda m: gauss_bonnet(m, 'gauss-bonnet')
