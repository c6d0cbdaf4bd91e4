"""Sigma accuracies with recorded sample points; numpy etas and weights of these points decide."""
import numpy as np

from cyverif import geometry as geo
from checks.c24 import make, record

REQUIRED = ['formula', 'real', 'range', 'scale-free', 'points.count', 'points.on-variety', 'batch.h', 'batch.params',
            'batch.both', 'deterministic', 'keys-differ', 'compiled', 'inputs-unchanged', 'estimates',
            'indefinite', 'negative-eta']


def etas(v, powers, k, h, hom, par):
    ref = geo.RefMetric(v, powers, k, h)
    out = np.empty(len(hom))
    patch = geo.best_patch(hom)
    for i, (x, p) in enumerate(zip(hom, patch)):
        z = geo.to_affine(x, int(p))
        d = int(np.argmax(np.abs(v.grad_affine(z, par, int(p)))))
        out[i] = ref.eta(z, par, int(p), d).real
    return out


def sigma(v, powers, k, h, hom, par):
    e, w = etas(v, powers, k, h, hom, par), geo.weights(v, hom, par)
    vol = w.mean()
    return np.mean(w * np.abs(1 - e * vol / np.mean(w * e))) / vol


def run(m, name):
    import jax
    from cyverif.core import freeze
    for rng in m.cases(name, 2, 16):
        v, par, variety, sec, met, k = make(rng)
        m.note(f'{v.text} at {par}, basis of degree {k} and size {sec.size}')
        pw = np.asarray(sec.power_matrix)
        n = sec.size
        h = geo.random_h(rng, n, float(rng.choice([.3, 1.5, 3.])))
        count = int(rng.integers(10, 40) if v.n > 3 or rng.random() < .5 else rng.integers(300, 1200))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        rec = record(variety, par)
        before = freeze(h, par, key)
        got = np.asarray(met.sigma_accuracy(key, par, h, count))
        jax.effects_barrier()
        hom = rec[0] if rec else np.asarray(type(variety).sample_intersect(variety, key, par, count))
        m.equal('points.count', (hom.shape, len(rec) in (0, 1)), ((count, v.n), True))
        m.below('points.on-variety', v.residual(hom, par).max(), 1e-8)
        want = sigma(v, pw, k, h, hom, par)
        m.close('formula', got, want, 1e-6, 1.)
        m.ok('real', np.isrealobj(got), f'{got.dtype}', key=got)
        m.ok('range', 0 <= got <= 2, f'{got}', key=got)
        m.ok('inputs-unchanged', freeze(h, par, key) == before)
        f = jax.jit(lambda key, par, h: met.sigma_accuracy(key, par, h, count))
        m.close('compiled', np.asarray(f(key, par, h)), got, 1e-8, 1.)
        m.close('scale-free', np.asarray(f(key, par, h * float(10 ** rng.uniform(-8, 8)))), got, 1e-8, 1.)
        m.bitwise('deterministic', np.asarray(f(key, par, h)), np.asarray(f(key, par, h)))
        other = np.asarray(f(jax.random.split(key)[0], par, h))
        m.ok('keys-differ', abs(other - got) > 1e-9, 'same value for another key')
        # the formula holds for any H, also where the metric is not positive
        bad = geo.random_h(rng, n, 1.)
        bad = bad - np.linalg.eigvalsh(bad)[int(rng.integers(n))] * rng.uniform(.8, 1.2) * np.eye(n)
        e, w = etas(v, pw, k, bad, hom, par), geo.weights(v, hom, par)
        if abs(np.mean(w * e)) > .05 * np.mean(w * np.abs(e)):
            want = sigma(v, pw, k, bad, hom, par)
            m.close('indefinite', np.asarray(f(key, par, bad)), want, 1e-5, 1.)
            if (e < 0).any():
                m.ok('negative-eta', True, key=e)
        # batches: each element on its own
        hs = np.array([geo.random_h(rng, n, .8) for _ in range(3)])
        pars = geo.random_params(rng, v, (3,)) * .5
        m.close('batch.h', np.asarray(met.sigma_accuracy(key, par, hs, count)),
                np.array([f(key, par, x) for x in hs]), 1e-7, 1.)
        m.close('batch.both', np.asarray(met.sigma_accuracy(key, pars, hs, count)),
                np.array([f(key, q, x) for q, x in zip(pars, hs)]), 1e-7, 1.)
        if len(v.params):
            b = np.asarray(met.sigma_accuracy(key, pars, h, count))
            m.close('batch.params', b, np.array([f(key, q, h) for q in pars]), 1e-7, 1.)


def estimate(m):
    """Values for large samples agree with an independent sample."""
    import jax
    for rng in m.cases('estimate', 2, 8):
        v, par, variety, sec, met, k = make(rng, 3)
        m.note(f'{v.text} at {par}, basis of degree {k} and size {sec.size}')
        h = geo.random_h(rng, sec.size, .7)
        count = m.pick(3000, 10000)
        got = float(met.sigma_accuracy(jax.random.PRNGKey(int(rng.integers(2 ** 31))), par, h, count))
        hom = v.sample(rng, par, count // 3 * 3)
        e, w = etas(v, np.asarray(sec.power_matrix), k, h, hom, par), geo.weights(v, hom, par)
        want = sigma(v, np.asarray(sec.power_matrix), k, h, hom, par)
        # jackknife error of the reference, both samples contribute
        blocks = np.array_split(np.arange(len(hom)), 20)
        vals = []
        for b in blocks:
            keep = np.setdiff1d(np.arange(len(hom)), b)
            ee, ww = e[keep], w[keep]
            vals.append(np.mean(ww * np.abs(1 - ee * ww.mean() / np.mean(ww * ee))) / ww.mean())
        err = np.sqrt(19 / 20 * np.sum((np.array(vals) - np.mean(vals)) ** 2) * 2 * v.degree)
        m.below('estimates', abs(got - want) / max(err, 1e-4), 6.5)


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(4)}
WORKLOADS['estimate'] = estimate
