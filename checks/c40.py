"""Weighted means of eta and curvature over sampled points against the topological numbers they must converge to."""
from math import factorial

import numpy as np

from cyverif import geometry as geo

TECHNIQUE = 'statistical monitors compare means over sampled points with topological invariants'
REQUIRED = ['volume', 'volume.exact', 'volume.equal', 'curvature', 'curvature.flat', 'precision']


def batches(v, par, f, seed, count, size):
    """Means of f over independent batches of sampled points."""
    import jax

    @jax.jit
    def one(key):
        (zs, patch), w = v.sample_intersect(key, par, size, affine=True, weights=True)
        return f(zs, patch, w)
    out = [np.asarray(one(k)) for k in jax.random.split(jax.random.PRNGKey(seed), count)]
    return np.stack(out)


def verdict(m, name, means, want, scale, key):
    """Mean of batch means against the exact value; no verdict if the error is too large to tell anything."""
    mean, se = means.mean(0), means.std(0, ddof=1) / np.sqrt(len(means))
    if np.isfinite(mean) and se < .1 * scale:
        m.below(name, abs(mean - want) / (se + 1e-6 * scale), 8, key=key)
        m.ok('precision', True, key=float(se))
    else:
        m.ok(name, np.isfinite(mean), f'mean {mean}', key=key)


def smooth(rng, n, degree):
    """Sum of powers with generic coefficients and few other terms."""
    from cyverif import refpoly as rp
    terms = {}
    for i in range(n):
        e = [0] * n
        e[i] = degree
        terms[tuple(e)] = complex(rng.uniform(.5, 1.5) * np.exp(2j * np.pi * rng.uniform()))
    for _ in range(int(rng.integers(1, 4))):
        e = np.bincount(rng.integers(0, n, degree), minlength=n)
        if e.max() < degree:
            terms[tuple(int(x) for x in e)] = complex(rng.normal(), rng.normal()) * .4
    return geo.RefVariety(rp.RefPoly([('z', list(range(n)))], [], terms))


def volume(m, name):
    import jax.numpy as jnp
    from cyjax import donaldson
    for rng in m.cases(name, 3, 12):
        n = int(rng.choice([3, 4, 5], p=[.4, .35, .25]))
        v = geo.any_variety(rng, n=n) if rng.integers(2) else geo.dwork(n)
        par = geo.random_params(rng, v)
        var = v.build()
        k = int(rng.integers(1, {3: 7, 4: 5, 5: 3}[n]))
        red = bool(rng.integers(2))
        sec = donaldson.MonomialBasisReduced(var, k, par) if red else donaldson.MonomialBasisFull(n - 1, k)
        met = donaldson.AlgebraicMetric(var, sec)
        first = donaldson.AlgebraicMetric(var, donaldson.MonomialBasisFull(n - 1, 1))
        hs = jnp.asarray(np.stack([geo.random_h(rng, sec.size, .4), geo.random_h(rng, sec.size, 1.2)]))
        m.note(f'{v.text} at {par}, {"reduced" if red else "full"} basis of degree {k}')

        def f(zs, patch, w):
            one = first.eta(jnp.eye(n) + 0j, zs, par, patch).real * w
            out = [jnp.mean(met.eta(h, zs, par, patch).real * w) for h in hs]
            return jnp.array([jnp.nanmin(one), jnp.nanmax(one), *out])
        got = batches(var, par, f, int(rng.integers(2 ** 31)), m.pick(40, 60), m.pick(1200, 2000))
        want = 1 / factorial(n - 2)
        # the Fubini-Study metric has this ratio at every point
        m.close('volume.exact', got[:, 0], np.full(len(got), want), 1e-6)
        m.close('volume.exact', got[:, 1], np.full(len(got), want), 1e-6)
        for i in range(len(hs)):
            verdict(m, 'volume', got[:, 2 + i], want, want, got[:, 2 + i])
        verdict(m, 'volume.equal', got[:, 2] - got[:, 3], 0., want, got[:, 3])


def curvature(m, name, flat):
    import jax.numpy as jnp
    from cyjax import donaldson
    for rng in m.cases(name, 3, 10):
        n = int(rng.choice([3, 4, 5], p=[.4, .4, .2]))
        degree = n if flat else int(rng.choice([d for d in (2, 3, 4) if d != n]))
        v = geo.dwork(n) if flat and rng.integers(2) else smooth(rng, n, degree)
        par = geo.random_params(rng, v) * .5
        var = v.build()
        k = int(rng.integers(1, {3: 6, 4: 4, 5: 3}[n]))
        sec = donaldson.MonomialBasisFull(n - 1, k)
        met = donaldson.AlgebraicMetric(var, sec)
        h = jnp.asarray(geo.random_h(rng, sec.size, .3))
        m.note(f'{v.text} at {par}, full basis of degree {k}')

        def f(zs, patch, w):
            vol = met.eta(h, zs, par, patch).real * w
            return jnp.array([jnp.mean(vol * met.ricci_scalar(h, zs, par, patch).real), jnp.mean(vol)])
        got = batches(var, par, f, int(rng.integers(2 ** 31)), m.pick(40, 60), m.pick(800, 1200))
        dim = n - 2
        want = np.pi * dim * (n - degree) / factorial(dim)
        scale = np.pi * dim * n / factorial(dim)
        verdict(m, 'curvature.flat' if flat else 'curvature', got[:, 0], want, scale, got[:, 0])
        verdict(m, 'volume', got[:, 1], 1 / factorial(dim), 1 / factorial(dim), got[:, 1])


WORKLOADS = {f'flat{i}': (lambda m, i=i: curvature(m, f'flat{i}', True)) for i in range(2)}
WORKLOADS.update({f'curved{i}': (lambda m, i=i: curvature(m, f'curved{i}', False)) for i in range(2)})
WORKLOADS.update({f'volume{i}': (lambda m, i=i: volume(m, f'volume{i}')) for i in range(3)})
