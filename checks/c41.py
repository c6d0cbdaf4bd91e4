"""Balanced metrics from Donaldson's iteration: uniqueness, symmetry, change of coordinates and accuracy."""
import numpy as np

from cyverif import geometry as geo
from cyverif import refpoly as rp

TECHNIQUE = 'iterations from different starts and on equivalent varieties are compared, with errors from independent runs'
REQUIRED = ['unique', 'start-matters-not', 'coordinates', 'charges', 'permutations', 'real', 'accuracy', 'curvature']


def reference(rng, n, generic=True):
    """Smooth Calabi-Yau: powers and a few further terms."""
    terms = {}
    for i in range(n):
        e = [0] * n
        e[i] = n
        terms[tuple(e)] = complex(np.exp(2j * np.pi * rng.uniform()) * rng.uniform(.8, 1.25)) if generic else 1.
    for _ in range(int(rng.integers(2, 4))):
        e = np.bincount(rng.integers(0, n, n), minlength=n)
        if e.max() < n:
            c = rng.normal() * .35
            terms[tuple(int(x) for x in e)] = complex(c, rng.normal() * .35) if generic else float(c)
    return terms


def variety(terms, n):
    return geo.RefVariety(rp.RefPoly([('z', list(range(n)))], [], terms))


def iterate(met, par, steps, batches, size):
    """Jitted iteration with one key; H normalised to trace one."""
    import jax
    import jax.numpy as jnp

    @jax.jit
    def run(key, h):
        def body(_, h):
            h = met.donaldson_step(key, h, par, 1., batches, size)
            return h / jnp.trace(h).real
        return jax.lax.fori_loop(0, steps, body, h + 0j)
    return run


def several(rng, run, size, count, scale=.5):
    import jax
    key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
    return np.stack([np.asarray(run(k, geo.random_h(rng, size, scale))) for k in jax.random.split(key, count)])


def small(m, name, values, scale, key):
    """Whether the mean of independent values vanishes within the error of their spread."""
    values = np.asarray(values)
    mean = values.mean(0)
    se = np.sqrt((np.abs(values - mean) ** 2).sum(0) / (len(values) - 1) / len(values))
    # errors from few runs are pooled, as single ones are too uncertain
    se = np.maximum(se, np.sqrt(np.mean(se ** 2)))
    m.below(name, np.max(np.abs(mean) / (se + 1e-4 * scale)), 10, key=key)


def unit(h):
    d = np.sqrt(np.abs(np.diagonal(h, axis1=-2, axis2=-1)))
    return h / d[..., :, None] / d[..., None, :]


def unique(m):
    import jax
    from cyjax import donaldson
    for rng in m.cases('unique', 4, 16):
        n = 3 + int(m.case[1] % 2)
        v = variety(reference(rng, n), n)
        var = v.build()
        k = int(rng.integers(1, 5 if n == 3 else 3))
        sec = donaldson.MonomialBasisReduced(var, k, ())
        met = donaldson.AlgebraicMetric(var, sec)
        m.note(f'{v.text}, degree {k}')
        run = iterate(met, (), 30, 2, 2000)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        starts = [geo.random_h(rng, sec.size, s) for s in (.3, 1.)]
        ends = [np.asarray(run(key, h)) for h in starts]
        starts = [h / np.trace(h).real for h in starts]
        diff = np.abs(unit(ends[0]) - unit(ends[1])).max()
        first = np.abs(unit(starts[0]) - unit(starts[1])).max()
        m.below('unique', diff, .02 * first + 1e-6, key=ends[0])
        again = np.asarray(run(key, ends[0]))
        m.below('start-matters-not', np.abs(unit(again) - unit(ends[1])).max(), .02 * first + 1e-6, key=again)


def coordinates(m, name):
    """The balanced metric of the same variety in scaled and permuted coordinates."""
    from cyjax import donaldson
    for rng in m.cases(name, 2, 6):
        n = int(rng.integers(3, 5))
        k = int(rng.integers(1, 3))
        terms = reference(rng, n)
        perm = rng.permutation(n)
        d = np.exp(.35 * rng.normal(size=n) + 2j * np.pi * rng.uniform(size=n))
        # q(w) = p(z) with z_i = d_i w_perm(i)
        other = {}
        for e, c in terms.items():
            f = [0] * n
            for i in range(n):
                f[perm[i]] = e[i]
            other[tuple(f)] = complex(c * np.prod(d ** np.array(e)))
        hs = []
        for t in (terms, other):
            v = variety(t, n)
            var = v.build()
            sec = donaldson.MonomialBasisFull(n - 1, k)
            met = donaldson.AlgebraicMetric(var, sec)
            hs.append(several(rng, iterate(met, (), 12, 4, 1500), sec.size, 10))
        m.note(f'{v.text}, degree {k}')
        pw = [tuple(int(x) for x in p) for p in np.asarray(sec.power_matrix)]
        idx, fac = [], []
        for e in pw:
            f = [0] * n
            for i in range(n):
                f[perm[i]] = e[i]
            idx.append(pw.index(tuple(f)))
            fac.append(np.prod(d ** np.array(e)))
        idx, fac = np.array(idx), np.array(fac)
        # s_a(z) = fac_a s_idx(a)(w)
        got = hs[1][:, idx][:, :, idx]
        want = hs[0] * fac[:, None] * fac.conj()[None]
        got, want = [x / np.trace(x, axis1=1, axis2=2)[:, None, None] for x in (got, want)]
        scale = np.sqrt(np.abs(np.diagonal(want.mean(0))))
        scale = scale[:, None] * scale
        small(m, 'coordinates', (got - want) / scale, 1., hs[1])


def symmetric(m):
    """Phases, permutations and complex conjugation which leave the variety unchanged."""
    import itertools
    from cyjax import donaldson
    for rng in m.cases('symmetric', 4, 14):
        n = 3 + int(rng.integers(2))
        k = int(rng.integers(2, 5 if n == 3 else 4))
        kind = m.case[1] % 3
        if kind == 2:
            v, par = variety(reference(rng, n, generic=False), n), ()
        elif kind == 1:
            v = geo.dwork(n)
            par = geo.random_params(rng, v) * .4
        else:
            v, par = geo.fermat(n), ()
        var = v.build()
        sec = donaldson.MonomialBasisFull(n - 1, k) if k < n else donaldson.MonomialBasisReduced(var, k, par)
        met = donaldson.AlgebraicMetric(var, sec)
        m.note(f'{v.text} at {par}, degree {k}')
        hs = unit(several(rng, iterate(met, par, 12, 4, 1200), sec.size, 10))
        if kind == 2:
            small(m, 'real', hs.imag, 1., hs)
            continue
        pw = np.asarray(sec.power_matrix).astype(int)
        diff = (pw[:, None] - pw[None]) % n
        if kind == 1:
            # phases of product one: charges are defined up to a common shift
            diff = (diff - diff[..., :1]) % n
        charged = diff.any(-1)
        if charged.any():
            small(m, 'charges', hs[:, charged], 1., hs)
        if k < n:
            rows = [tuple(p) for p in pw]
            for perm in itertools.islice(itertools.permutations(range(n)), 1, 6):
                idx = [rows.index(tuple(p[list(perm)])) for p in pw]
                small(m, 'permutations', hs[:, idx][:, :, idx] - hs, 1., hs)


def accuracy(m, name, n, ks):
    """Higher degrees come closer to the Ricci-flat metric."""
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson
    for rng in m.cases(name, 1, 5):
        v = variety(reference(rng, n), n) if m.seed % 2 else geo.dwork(n)
        par = geo.random_params(rng, v) * .25 if len(v.build().parameters) else ()
        var = v.build()
        sig, cur = [], []
        for k in ks:
            met = donaldson.AlgebraicMetric(var, donaldson.MonomialBasisReduced(var, k, par))
            h = several(rng, iterate(met, par, 15, 4, m.pick(3000, 6000)), met.sections.size, 1, .3)[0]
            key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
            sig.append(float(met.sigma_accuracy(key, par, h, 4000)))
            (zs, patch), w = var.sample_intersect(key, par, 2000, affine=True, weights=True)
            r = np.abs(np.asarray(met.ricci_scalar(h, zs, par, patch)))
            cur.append(float(np.sum(r * w) / np.sum(w)))
        m.note(f'{v.text} at {par}: degrees {ks}, sigma {sig}, curvature {cur}')
        m.ok('accuracy', sig[-1] < max(.6 * sig[0], .04), f'sigma {sig}', key=np.array(sig))
        m.ok('accuracy', all(b < a + .03 for a, b in zip(sig, sig[1:])), f'sigma {sig}', key=np.array(sig))
        m.ok('curvature', cur[-1] < .8 * cur[0], f'curvature {cur}', key=np.array(cur))


WORKLOADS = {
    'unique': unique,
    'coordinates0': lambda m: coordinates(m, 'coordinates0'),
    'coordinates1': lambda m: coordinates(m, 'coordinates1'),
    'symmetric': symmetric,
    'curves': lambda m: accuracy(m, 'curves', 3, (1, 2, 3)),
    'surfaces': lambda m: accuracy(m, 'surfaces', 4, (1, 2, 4)),
}
