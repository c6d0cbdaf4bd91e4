"""Kahler potentials and metrics for random H, varieties and bases against numpy and finite differences."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['kahler', 'kahler.hom', 'metric', 'metric.hom', 'hessian', 'hermitian', 'positive', 'scale-free',
            'diagonal', 'fubini-study', 'eta', 'reported', 'supplied-gradient', 'inputs-unchanged', 'real-h']


def run(m, name):
    import jax
    from cyjax import donaldson
    from cyverif.core import freeze
    for rng in m.cases(name, 3, 25):
        s = geo.setting(rng)
        v, par, ref, met, h, k = (s[i] for i in ('v', 'par', 'ref', 'metric', 'h', 'k'))
        m.note(s['text'])
        f_met = jax.jit(lambda h, z, p, q, d: met.metric(h, z, p, q, d))
        f_kah = jax.jit(lambda h, z, p, q: met.kahler_potential(h, z, p, q))
        f_eta = jax.jit(lambda h, z, p, q, d: met.eta(h, z, p, q, d))
        before = freeze(h, par)
        for z, patch, dep in v.points(rng, par, m.pick(3, 5)):
            rk = ref.kahler(z, patch)
            m.close('kahler', np.asarray(f_kah(h, z, par, patch)), rk, 1e-9, 1.)
            c = float(10 ** rng.uniform(-8, 8))
            m.close('kahler', np.asarray(f_kah(c * h, z, par, patch)), rk + np.log(c) / np.pi / k, 1e-9, 1.)
            g, q, d = map(np.asarray, f_met(h, z, par, patch, dep))
            m.equal('reported', (int(q), int(d)), (patch, dep))
            rg = ref.g(z, par, patch, dep)
            m.close('metric', g, rg, 1e-7)
            x = np.delete(z, dep)
            num = geo.d_mixed(lambda y: ref.kahler_local(y, par, patch, dep, z[dep]), x, .01)
            m.close('hessian', g, num, 1e-4, max(np.abs(num).max(), 3e5 * geo.d_mixed.error))
            m.close('hermitian', g, g.conj().T, 1e-9)
            if np.linalg.cond(rg) < 1e7:
                m.ok('positive', np.linalg.eigvalsh(g).min() > 0, f'{g}')
            m.close('scale-free', np.asarray(f_met(c * h, z, par, patch, dep)[0]), g, 1e-8)
            e = ref.eta(z, par, patch, dep)
            m.close('eta', np.asarray(f_eta(h, z, par, patch, dep)), e, 1e-7)
            dh = np.exp(rng.normal(size=len(h)))
            obj = donaldson.GeometricObjects(dh, z, par, s['variety'], s['sections'], patch, dependent=dep)
            mat = donaldson.GeometricObjects(np.diag(dh), z, par, s['variety'], s['sections'], patch, dependent=dep)
            rd = geo.RefMetric(v, ref.p, k, dh)
            m.close('diagonal', np.asarray(obj.g_loc), np.asarray(mat.g_loc), 1e-9)
            m.close('diagonal', np.asarray(obj.g_loc), rd.g(z, par, patch, dep), 1e-7)
            m.close('diagonal', np.asarray(obj.kahler), rd.kahler(z, patch), 1e-9, 1.)
            m.close('real-h', np.asarray(f_met(np.diag(dh), z, par, patch, dep)[0]), rd.g(z, par, patch, dep), 1e-7)
        # homogeneous input
        for hom in v.sample(rng, par, 2):
            q0 = int(geo.best_patch(hom))
            z = geo.to_affine(hom, q0)
            hom = hom * (rng.normal() + 1j * rng.normal())
            m.close('kahler.hom', np.asarray(met.kahler_potential(h, hom, par)), ref.kahler(z, q0), 1e-8, 1.)
            g, q, d = met.metric(h, hom, par)
            m.equal('reported', int(q), q0)
            m.close('metric.hom', np.asarray(g), ref.g(z, par, q0, int(d)), 1e-7)
            m.close('eta', np.asarray(met.eta(h, hom, par)), ref.eta(z, par, q0, int(d)), 1e-7)
            grad = v.grad_affine(z, par, q0)
            g2, _, d2 = met.metric(h, z, par, q0, grad_def=grad)
            m.close('supplied-gradient', np.asarray(g2), ref.g(z, par, q0, int(d2)), 1e-7)
            g2, _, d2 = met.metric(h, z, par, q0, int(d), grad)
            m.close('supplied-gradient', np.asarray(g2), ref.g(z, par, q0, int(d)), 1e-7)
        m.ok('inputs-unchanged', freeze(h, par) == before)


def fubini(m):
    from cyjax import donaldson
    for rng in m.cases('fubini', 6, 40):
        v = geo.any_variety(rng)
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        met = donaldson.AlgebraicMetric(v.build(), donaldson.MonomialBasisFull(v.n - 1, 1))
        for z, patch, dep in v.points(rng, par, 2):
            g = np.asarray(met.metric(np.eye(v.n) * (1 + 0j), z, par, patch, dep)[0])
            j = v.jac(z, par, patch, dep)
            m.close('fubini-study', g, j @ geo.fs_metric(z) @ j.conj().T / np.pi, 1e-8)
            # the same metric from a symmetric power with multinomial weights
            k = 2
            b = donaldson.MonomialBasisFull(v.n - 1, k)
            from math import factorial
            h = np.array([factorial(k) / np.prod([factorial(i) for i in p]) for p in np.asarray(b.power_matrix)])
            g2 = np.asarray(donaldson.AlgebraicMetric(v.build(), b).metric(np.diag(h + 0j), z, par, patch, dep)[0])
            m.close('fubini-study', g2, g, 1e-8)


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(4)}
WORKLOADS['fubini'] = fubini
