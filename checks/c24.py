"""Donaldson steps with recorded sample points; numpy moments of these points decide."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['formula', 'points.count', 'points.distinct', 'points.on-variety', 'hermitian', 'positive', 'scale',
            'volume', 'deterministic', 'keys-differ', 'compiled', 'batches', 'converges', 'fixed-point', 'real-h',
            'inputs-unchanged', 'single-batch', 'large-weights']


def record(variety, par):
    """Record homogeneous coordinates of all points the variety samples."""
    import jax
    import cyjax
    orig = type(variety).sample_intersect
    rec = []

    def spy(key, params, count, affine=False, weights=False):
        out = orig(variety, key, params, count, affine, weights)
        pts = out[0] if weights else out
        hom = cyjax.affine_to_hom(*pts) if affine else pts
        jax.debug.callback(lambda h: rec.append(np.array(h)), hom)
        return out
    variety.sample_intersect = spy
    return rec


def step(v, powers, hom, par, h, vol):
    """The T operator on homogeneous points."""
    s = np.prod(hom[:, None, :] ** powers, -1)
    w = geo.weights(v, hom, par)
    den = np.einsum('pa,ab,pb->p', s, h, s.conj()).real
    t = np.einsum('pa,pb,p->ab', s, s.conj(), w / den) / len(hom)
    return np.linalg.inv(t * len(h) / vol).T


def make(rng, n=None):
    from cyjax import donaldson
    n = n or int(rng.integers(3, 5))
    v = [geo.dwork, lambda n: geo.fermat(n), lambda n: geo.rescaled(rng, geo.random_variety(rng, n, n, density=.3))][rng.integers(3)](n)
    par = geo.random_params(rng, v) * .5
    variety = v.build()
    k = int(rng.integers(1, 3 if n == 4 else 5))
    sec = donaldson.MonomialBasisReduced(variety, k, par) if k >= n or rng.integers(2) \
        else donaldson.MonomialBasisFull(n - 1, k)
    return v, par, variety, sec, donaldson.AlgebraicMetric(variety, sec), k


def run(m, name):
    import jax
    from cyverif.core import freeze
    for rng in m.cases(name, 3, 20):
        v, par, variety, sec, met, k = make(rng)
        m.note(f'{v.text} at {par}, basis of degree {k} and size {sec.size}')
        pw = np.asarray(sec.power_matrix)
        n = sec.size
        h = geo.random_h(rng, n, float(rng.choice([.3, 1.5])))
        vol = float(rng.uniform(.3, 4))
        size = int(rng.integers(8, 20)) + 3 * n
        batches = int(rng.integers(2, 5))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        rec = record(variety, par)
        before = freeze(h, par, key)
        got = np.asarray(met.donaldson_step(key, h, par, vol, batches, size))
        jax.effects_barrier()
        pts = [r for r in rec]
        if not pts:  # points obtained in another way
            pts = [np.asarray(type(variety).sample_intersect(variety, q, par, size))
                   for q in jax.random.split(key, batches)]
        m.equal('points.count', [p.shape for p in pts], [(size, v.n)] * batches)
        m.ok('points.distinct', len({p.tobytes() for p in pts}) == batches, 'batches repeat')
        hom = np.concatenate(pts)
        m.below('points.on-variety', v.residual(hom, par).max(), 1e-8)
        want = step(v, pw, hom, par, h, vol)
        cond = np.linalg.cond(want)
        if cond > 1e7:
            continue
        tol = 1e-8 * max(1, cond / 1e2)
        m.close('formula', got, want, tol)
        m.close('hermitian', got, got.conj().T, tol)
        m.ok('positive', np.linalg.eigvalsh((got + got.conj().T) / 2).min() > 0, f'{got}')
        m.ok('inputs-unchanged', freeze(h, par, key) == before)
        # every batch counts
        part = step(v, pw, pts[0], par, h, vol) if size > n else None
        m.ok('batches', part is None or np.abs(part - got).max() > 1e-6 * np.abs(got).max(), 'only one batch used')
        f = jax.jit(lambda key, h, vol: met.donaldson_step(key, h, par, vol, batches, size))
        c = float(10 ** rng.uniform(-14, 14))
        m.close('compiled', np.asarray(f(key, h, vol)), got, tol)
        m.close('scale', np.asarray(f(key, c * h, vol)), c * got, tol)
        m.close('volume', np.asarray(f(key, h, c * vol)), c * got, tol)
        m.bitwise('deterministic', np.asarray(f(key, h, vol)), np.asarray(f(key, h, vol)))
        other = np.asarray(f(jax.random.split(key)[0], h, vol))
        m.ok('keys-differ', np.abs(other - got).max() > 1e-6 * np.abs(got).max(), 'same result for another key')
        # one batch
        rec.clear()
        got = np.asarray(met.donaldson_step(key, h, par, vol, 1, size))
        jax.effects_barrier()
        if len(rec) == 1:
            want = step(v, pw, rec[0], par, h, vol)
            if np.linalg.cond(want) < 1e7:
                m.close('single-batch', got, want, 1e-8 * max(1, np.linalg.cond(want) / 1e2))
        # a real matrix is a valid H
        rec.clear()
        got = np.asarray(met.donaldson_step(key, np.eye(n), par, vol, 2, size))
        jax.effects_barrier()
        if len(rec) == 2:
            want = step(v, pw, np.concatenate(rec), par, np.eye(n), vol)
            if np.linalg.cond(want) < 1e7:
                m.close('real-h', got, want, 1e-8 * max(1, np.linalg.cond(want) / 1e2))


def singular(m):
    """Almost singular varieties, where few points carry most of the weight."""
    import jax
    from cyjax import donaldson
    for rng in m.cases('singular', 3, 12):
        n = int(rng.integers(3, 5))
        v = geo.dwork(n)
        par = np.array([n / 5 * np.exp(2j * np.pi * rng.integers(n) / n) * (1 + 10 ** rng.uniform(-4, -2))])
        variety = v.build()
        sec = donaldson.MonomialBasisFull(n - 1, int(rng.integers(1, 3)))
        met = donaldson.AlgebraicMetric(variety, sec)
        h = geo.random_h(rng, sec.size, .5)
        rec = record(variety, par)
        batches, size = int(rng.integers(1, 4)), int(rng.integers(700, 1500))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        m.note(f'{v.text} at {par}, degree {sec.degree}, {batches} batches of {size}')
        got = np.asarray(met.donaldson_step(key, h, par, 1., batches, size))
        jax.effects_barrier()
        pts = list(rec) or [np.asarray(type(variety).sample_intersect(variety, q, par, size))
                            for q in jax.random.split(key, batches)]
        hom = np.concatenate(pts)
        w = geo.weights(v, hom, par)
        if w.max() > 3 * w.mean():
            m.ok('large-weights', True, key=w)
        want = step(v, np.asarray(sec.power_matrix), hom, par, h, 1.)
        m.close('formula', got, want, 1e-5)


def converge(m):
    """Iterations approach the balanced metric and reduce sigma."""
    import jax
    from cyjax import donaldson
    for rng in m.cases('converge', 2, 8):
        v = geo.dwork(3)
        par = geo.random_params(rng, v) * .4
        variety = v.build()
        k = int(rng.integers(3, 5))
        met = donaldson.AlgebraicMetric(variety, donaldson.MonomialBasisReduced(variety, k, par))
        m.note(f'cubic at {par}, degree {k}')
        f = jax.jit(lambda key, h: met.donaldson_step(key, h, par, 1., 4, m.pick(1500, 5000)))
        s = jax.jit(lambda h: met.sigma_accuracy(jax.random.PRNGKey(5), par, h, 3000))
        n = met.sections.size
        h = geo.random_h(rng, n, 1.2)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        sig, change = [float(s(h))], []
        for _ in range(m.pick(10, 20)):
            new = np.asarray(f(key, h))
            change.append(np.linalg.norm(new / np.linalg.norm(new) - h / np.linalg.norm(h)))
            h = new
            sig.append(float(s(h)))
        m.ok('converges', sig[-1] < .5 * sig[0], f'sigma {sig}', key=np.array(sig))
        # no coarse increase at any step (sampling noise allowed)
        m.ok('converges', max(b - a for a, b in zip(sig, sig[1:])) < .05, f'sigma {sig}', key=np.array(sig))
        m.ok('fixed-point', change[-1] < .1 * change[0], f'change of H {change}', key=np.array(change))


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(3)}
WORKLOADS['singular'] = singular
WORKLOADS['converge'] = converge
