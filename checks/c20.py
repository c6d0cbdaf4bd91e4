"""Metrics, curvature, eta and potentials of one point in all coordinate systems compared with each other."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['eta', 'eta.hom', 'ricci-scalar', 'ricci-scalar.hom', 'metric', 'ricci', 'kahler', 'reported', 'reported.hom',
            'metric.hom', 'ricci.hom', 'default-dependent', 'sampled']


def chart_jacobian(v, h, par, a, b):
    """Rows: derivative of the local coordinates b by the local coordinates a."""
    (p, d), (q, e) = a, b
    z = geo.to_affine(h, p)
    hom = geo.insert(z, p)
    # homogeneous coordinates hom(z) normalised by coordinate q
    n = v.n
    full = np.zeros((n - 1, n), complex)
    rest = [i for i in range(n) if i != p]
    for i, r in enumerate(rest):
        full[i, r] = 1 / hom[q]
        if r == q:
            full[i] -= hom / hom[q] ** 2
    dz = np.delete(full, q, 1)  # derivative of affine coordinates in q by those in p
    return np.delete(v.jac(z, par, p, d) @ dz, e, 1)


def run(m, name):
    import jax
    for rng in m.cases(name, 2, 16):
        s = geo.setting(rng, cy=True)
        v, par, met, h = (s[i] for i in ('v', 'par', 'metric', 'h'))
        m.note(s['text'])
        n = v.n
        f_met = jax.jit(lambda z, q, d: met.metric(h, z, par, q, d))
        f_ric = jax.jit(lambda z, q, d: met.ricci(h, z, par, q, d))
        f_all = jax.jit(lambda z, q, d: (met.eta(h, z, par, q, d), met.ricci_scalar(h, z, par, q, d)))
        f_kah = jax.jit(lambda z, q: met.kahler_potential(h, z, par, q))
        pts = v.sample(rng, par, m.pick(2, 4))
        if rng.random() < .7:  # a vanishing coordinate
            pts = [*pts[1:], v.sample(rng, par, 1, int(rng.integers(n)) if rng.integers(2) else 0)[0]]
        for hom in pts:
            choices, values = [], []
            for q in range(n):
                if abs(hom[q]) < .2 * abs(hom).max():
                    continue
                z = geo.to_affine(hom, q)
                g = np.abs(v.grad_affine(z, par, q))
                for d in range(n - 1):
                    if g[d] > .1 * g.max():
                        choices.append((q, d))
                        gm, q1, d1 = f_met(z, q, d)
                        rc, q2, d2 = f_ric(z, q, d)
                        m.equal('reported', tuple(int(i) for i in (q1, d1, q2, d2)), (q, d, q, d))
                        eta, sc = f_all(z, q, d)
                        values.append([np.asarray(i) for i in (gm, rc, eta, sc, f_kah(z, q))])
            base = int(rng.integers(len(choices)))
            g0, r0, e0, s0, k0 = values[base]
            rscale = np.abs(r0).max() * np.abs(np.linalg.inv(g0)).max()
            for c, (g, r, e, sc, k) in zip(choices, values):
                jac = chart_jacobian(v, hom, par, choices[base], c)
                m.close('metric', jac @ g @ jac.conj().T, g0, 1e-6)
                m.close('ricci', jac @ r @ jac.conj().T, r0, 1e-5, max(np.abs(r0).max(), np.abs(g0).max()))
                m.close('eta', e / e0, np.ones(()), 1e-6, key=(e * 1., 0 * e + c[0]))
                m.close('ricci-scalar', sc, s0, 1e-5, max(1., rscale))
                m.close('kahler', k - k0, np.log(abs(hom[choices[base][0]] / hom[c[0]]) ** 2) / np.pi, 1e-8, 1.)
            # homogeneous coordinates of any scale
            for t in (1., 10 ** rng.uniform(-3, 3) * np.exp(2j * np.pi * rng.uniform())):
                x = hom * t
                m.close('eta.hom', np.asarray(met.eta(h, x, par)) / e0, np.ones(()), 1e-6, key=e0)
                m.close('ricci-scalar.hom', np.asarray(met.ricci_scalar(h, x, par)), s0, 1e-5, max(1., rscale))
                g, q, d = met.metric(h, x, par)
                jac = chart_jacobian(v, hom, par, choices[base], (int(q), int(d)))
                m.close('metric.hom', jac @ np.asarray(g) @ jac.conj().T, g0, 1e-6)
                r, q, d = met.ricci(h, x, par)
                jac = chart_jacobian(v, hom, par, choices[base], (int(q), int(d)))
                m.close('ricci.hom', jac @ np.asarray(r) @ jac.conj().T, r0, 1e-5,
                        max(np.abs(r0).max(), np.abs(g0).max()))
            # homogeneous coordinates with a chosen dependent coordinate
            for (q, d), (g, *_) in zip(choices, values):
                if q == np.argmax(np.abs(hom)) and np.sort(np.abs(hom))[-2] < abs(hom[q]) * (1 - 1e-6):
                    g1, q1, d1 = met.metric(h, hom * t, par, dependent=d)
                    m.equal('reported.hom', (int(q1), int(d1)), (q, d))
                    m.close('metric.hom', np.asarray(g1), g, 1e-6)
                    m.close('eta.hom', np.asarray(met.eta(h, hom * t, par, dependent=d)) / e0, np.ones(()), 1e-6)
            # dependent coordinate left to the library
            q = choices[base][0]
            g, q1, d = met.metric(h, geo.to_affine(hom, q), par, q)
            m.equal('reported', int(q1), q)
            jac = chart_jacobian(v, hom, par, choices[base], (q, int(d)))
            m.close('default-dependent', jac @ np.asarray(g) @ jac.conj().T, g0, 1e-6)


def sampled(m):
    """Whole samples in affine and homogeneous form."""
    import jax
    for rng in m.cases('sampled', 2, 12):
        s = geo.setting(rng, cy=True, n=int(rng.integers(3, 5)))
        m.note(s['text'])
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        hom = s['variety'].sample_intersect(key, s['par'], 20)
        zs, patch = s['variety'].sample_intersect(key, s['par'], 20, affine=True)
        a = np.asarray(s['metric'].eta(s['h'], hom, s['par']))
        b = np.asarray(s['metric'].eta(s['h'], zs, s['par'], patch))
        m.close('sampled', a / b, np.ones(20), 1e-6, key=a)


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(5)}
WORKLOADS['sampled'] = sampled
