"""Recording samplers and integrands; numpy statistics of the recorded batches decide."""
import numpy as np

REQUIRED = ['mean', 'variance', 'mean.only', 'batched.mean', 'batched.variance', 'batch.count', 'batch.size',
            'keys.distinct', 'deterministic', 'integrand-input', 'compiled', 'volume', 
            'inputs-unchanged', 'converges']

SHAPES = [(), (3,), (2, 2), (1,)]


def make(rng):
    """Sampler and integrand with random form; both record concrete values."""
    import jax
    import jax.numpy as jnp
    dim = int(rng.integers(1, 5))
    shape = SHAPES[rng.integers(len(SHAPES))]
    cplx = bool(rng.integers(2))
    wtype = int(rng.integers(3))
    coef = rng.normal(size=(dim, *shape))
    offset = rng.normal() * rng.choice([0, 1, 10])
    log = []

    def sample(key, count):
        k1, k2 = jax.random.split(jax.random.fold_in(key, 7))
        zs = jax.random.normal(k1, (count, dim))
        if cplx:
            zs = zs + 1j * jax.random.normal(k2, (count, dim))
        w = [jnp.ones(count), jnp.exp(zs[:, 0].real), 1 / (1 + jnp.abs(zs[:, -1]) ** 2)][wtype]
        jax.debug.callback(lambda k, z, w: log.append((np.array(k), np.array(z), np.array(w))), key, zs, w)
        return zs, w.reshape((count,) + (1,) * len(shape))

    def fn(zs):
        return jnp.tensordot(jnp.abs(zs) ** 2, coef, 1) + offset + jnp.sum(zs, -1).real.reshape(
            (-1,) + (1,) * len(shape))

    def terms(zs, w):
        zs = np.asarray(zs)
        f = np.tensordot(np.abs(zs) ** 2, coef, 1) + offset + np.sum(zs, -1).real.reshape(
            (-1,) + (1,) * len(shape))
        return f * np.asarray(w).reshape((-1,) + (1,) * len(shape))
    return sample, fn, terms, log


def single(m):
    import cyjax
    import jax
    from cyverif.core import freeze
    for rng in m.cases('single', 20, 200):
        sample, fn, terms, log = make(rng)
        count = int(rng.choice([1, 2, 7, 64, 501]))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        before = freeze(key)
        got = np.asarray(cyjax.util.mc_integrate(key, count, fn, sample))
        jax.effects_barrier()
        m.equal('batch.count', len(log), 1)
        t = terms(*log[0][1:])
        m.equal('batch.size', len(t), count)
        m.array('integrand-input', log[0][0], np.asarray(key))
        scale = np.abs(t).max()
        m.close('mean.only', got, t.mean(0), 1e-10, scale)
        mean, var = map(np.asarray, cyjax.util.mc_integrate(key, count, fn, sample, var=True))
        m.close('mean', mean, t.mean(0), 1e-10, scale)
        m.close('variance', var, t.var(0) / count, 1e-9, scale ** 2 / count)
        jit = jax.jit(lambda k: cyjax.util.mc_integrate(k, count, fn, sample, var=True))
        a, b = map(np.asarray, jit(key))
        m.close('compiled', a, mean, 1e-10, scale)
        m.close('compiled', b, var, 1e-9, scale ** 2 / count)
        m.ok('inputs-unchanged', freeze(key) == before)


def batched(m, name):
    import cyjax
    import jax
    from cyverif.core import freeze
    for rng in m.cases(name, 9, 80):
        sample, fn, terms, log = make(rng)
        size = int(rng.choice([1, 2, 7, 64]))
        batches = int(rng.choice([1, 2, 3, 9, 30]))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        before = freeze(key)
        mean, var = map(np.asarray, cyjax.util.mc_integrate_batched(key, batches, size, fn, sample, True))
        jax.effects_barrier()
        rec = list(log)
        m.equal('batch.count', len(rec), batches)
        keys = {tuple(np.ravel(k)) for k, _, _ in rec}
        m.equal('keys.distinct', len(keys), batches)
        m.ok('keys.distinct', len({z.tobytes() for _, z, _ in rec}) == batches, 'batches repeat')
        ts = [terms(z, w) for _, z, w in rec]
        for t in ts:
            m.equal('batch.size', len(t), size)
        t = np.concatenate(ts)
        scale = np.abs(t).max()
        m.close('batched.mean', mean, t.mean(0), 1e-10, scale)
        m.close('batched.variance', var, t.var(0) / len(t), 1e-9, scale ** 2 / len(t))
        log.clear()
        only = np.asarray(cyjax.util.mc_integrate_batched(key, batches, size, fn, sample, False))
        jax.effects_barrier()
        m.close('deterministic', only, mean, 1e-12, scale)
        m.equal('deterministic', sorted(k.tolist() for k, _, _ in log), sorted(k.tolist() for k, _, _ in rec))
        jit = jax.jit(lambda k: cyjax.util.mc_integrate_batched(k, batches, size, fn, sample, True))
        a, b = map(np.asarray, jit(key))
        m.close('compiled', a, mean, 1e-10, scale)
        m.close('compiled', b, var, 1e-9, scale ** 2 / len(t))
        log.clear()
        cyjax.util.mc_integrate_batched(jax.random.split(key)[0], batches, size, fn, sample, False)
        jax.effects_barrier()
        m.ok('keys.distinct', not {z.tobytes() for _, z, _ in log} & {z.tobytes() for _, z, _ in rec}, 'other key, same batch')
        m.ok('inputs-unchanged', freeze(key) == before)


def exact(m):
    """Known integrals, and the volume of a variety from its recorded samples."""
    import cyjax
    import jax
    import jax.numpy as jnp
    for rng in m.cases('exact', 4, 30):
        p = int(rng.integers(1, 6))
        scale = float(rng.uniform(.5, 3))

        def sample(key, count):
            x = jax.random.uniform(key, (count,)) ** 2
            return x, 2 * jnp.sqrt(x) * scale  # density of x is 1/(2 sqrt x)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        want = scale / (p + 1)
        for mean, var in [cyjax.util.mc_integrate(key, 20000, lambda x: x ** p, sample, True),
                          cyjax.util.mc_integrate_batched(key, 20, 1000, lambda x: x ** p, sample, True)]:
            m.below('converges', abs(float(mean) - want) / np.sqrt(float(var)), 6.5)
    for rng in m.cases('volume', 2, 6):
        v = cyjax.Fermat(1) if rng.integers(2) else cyjax.Dwork(1)
        par = rng.normal(size=v.par_count) + 0j
        rec = []
        orig = v.sample_intersect

        def spy(key, *a, **kw):
            out = orig(key, *a, **kw)
            w = out[1] if isinstance(out, tuple) else v.sample_intersect_weights(
                *cyjax.hom_to_affine(out)[:1], par, cyjax.hom_to_affine(out)[1])
            jax.debug.callback(lambda k, w: rec.append((np.array(k), np.array(w))), key, w)
            return out
        v.sample_intersect = spy
        batches, size = int(rng.integers(2, 6)), int(rng.integers(5, 40))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        mean, var = map(np.asarray, v.compute_vol(key, par, batches, size, True))
        only = np.asarray(v.compute_vol(key, par, batches, size))
        jax.effects_barrier()
        m.close('volume', only, mean, 1e-10)
        if len(rec) == 2 * batches:
            w = np.concatenate([w for _, w in rec[:batches]])
            m.equal('volume.count', len(w), batches * size)
            m.close('volume', mean, w.mean(), 1e-10)
            m.close('volume', var, w.var() / len(w), 1e-8)


WORKLOADS = {'single': single, 'batched1': lambda m: batched(m, 'batched1'),
             'batched2': lambda m: batched(m, 'batched2'), 'exact': exact}
