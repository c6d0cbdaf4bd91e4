"""Histories of draws from batch samplers; a trace specification over delivered and generated batches decides."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['shape', 'on-variety', 'weights', 'patch', 'stream', 'buffer-free', 'distinct', 'no-batch-lost',
            'unchanged', 'seed', 'seed.key', 'interleaved', 'iterable', 'params-sampler', 'points.distinct', 'equal-moduli']


def param_sampler(npar, log=None):
    import jax
    import cyjax

    def f(key, n):
        x = cyjax.random.uniform_components(key, (n, npar)) * 2
        if log is not None:
            jax.debug.callback(lambda k, p: log.append((np.array(k), np.array(p))), key, x)
        return x
    return f


def prints(batch):
    return tuple(np.asarray(a).tobytes() for a in batch)


def judge(m, v, batch, npar, size):
    params, zs, patch, w = (np.asarray(a) for a in batch)
    m.equal('shape', (params.shape, zs.shape, patch.shape, w.shape),
            ((npar, len(v.params)), (npar, size, v.n - 1), (npar, size), (npar, size)))
    m.ok('patch', np.all((patch >= 0) & (patch < v.n)) and np.all(np.abs(zs) <= 1 + 1e-9), 'not in best patch',
         key=patch)
    for i in range(npar):
        hom = geo.insert(zs[i], patch[i])
        m.below('on-variety', v.residual(hom, params[i]).max(), 1e-8)
        ref = np.array([geo.weight(v, z, params[i], int(p),
                                   int(np.argmax(np.abs(v.grad_affine(z, params[i], int(p))))))[0]
                        for z, p in zip(zs[i], patch[i])])
        m.close('weights', w[i] / ref, np.ones(size), 1e-6, key=ref)
    u = geo.insert(zs.reshape(-1, v.n - 1), patch.reshape(-1))
    u /= np.linalg.norm(u, axis=-1, keepdims=True)
    ov = np.abs(u @ u.conj().T) - 2 * np.eye(len(u))
    m.ok('points.distinct', ov.max() < 1 - 1e-12, 'repeated points', key=u)


def stream(m, name):
    import jax
    from cyjax import ml
    for rng in m.cases(name, 2, 10):
        v = geo.dwork(3) if rng.integers(3) == 0 else geo.random_variety(rng, 3, 3, max_params=2)
        while not v.params:
            v = geo.random_variety(rng, 3, 3, max_params=2)
        v = geo.rescaled(rng, v, .8)
        m.note(v.text)
        variety = v.build()
        npar, size = int(rng.integers(1, 4)), int(rng.integers(4, 9))
        if rng.random() < .5:
            npar = int(rng.integers(5, 12))
        seed = int(rng.integers(2 ** 31))
        length = int(rng.integers(13, 18))
        streams = {}
        buffers = [1, 2, 3, 5, 7, 20]
        for buf in [buffers[i] for i in rng.permutation(len(buffers))[:m.pick(3, 6)]]:
            log = []
            s = ml.BatchSampler(seed, variety, param_sampler(len(v.params), log), npar, size, buf)
            got, marks = [], []
            for i in range(length):
                b = next(s)
                got.append(b)
                marks.append(prints(b))
                if i in (0, length - 1):
                    judge(m, v, b, npar, size)
            jax.effects_barrier()
            # later draws do not change what was handed out
            for i, b in enumerate(got):
                m.ok('unchanged', prints(b) == marks[i], f'batch {i} changed after it was handed out')
            m.equal('distinct', len(set(marks)), length)
            m.equal('distinct', len({k[0] for k in marks}), length)
            # generated batches are delivered in order and none is skipped
            made = [p.tobytes() for _, p in log]
            m.ok('no-batch-lost', made[:length] == [k[0] for k in marks],
                 'delivered parameters are not those generated, in order', key=(length, buf))
            m.equal('params-sampler', len({k.tobytes() for k, _ in log}), len(log))
            streams[buf] = marks
        base = next(iter(streams.values()))
        for buf, s in streams.items():
            m.ok('buffer-free', s == base, f'buffer size {buf} changes the stream', key=(seed, buf))
        m.ok('stream', True, key=base[0])


def history(m, name):
    """Interleaved draws from several samplers."""
    import jax
    import cyjax
    from cyjax import ml
    for rng in m.cases(name, 2, 10):
        v = geo.dwork(3)
        variety = v.build()
        ps = param_sampler(1)
        seeds = [int(i) for i in rng.integers(2 ** 31, size=2)]

        def new(seed, buf):
            return ml.BatchSampler(seed, variety, ps, 2, 5, buf)
        a, a2 = new(seeds[0], 2), new(jax.random.PRNGKey(seeds[0]), 3)
        b = new(seeds[1], 4)
        m.note(f'seeds {seeds}')
        alone = [prints(next(a)) for _ in range(11)]
        # the same stream again, in between everything else
        c = new(seeds[0], 3)
        seen = {'a2': [], 'b': [], 'c': []}
        held = []
        for _ in range(30):
            k = ['a2', 'b', 'c', 'other'][rng.integers(4)]
            if k == 'other':
                cyjax.random.uniform_components(jax.random.PRNGKey(int(rng.integers(99))), (3,))
                variety.sample_intersect(jax.random.PRNGKey(1), np.array([.1 + 0j]), 4)
                continue
            s = {'a2': a2, 'b': b, 'c': c}[k]
            x = next(s)
            held.append((x, prints(x)))
            seen[k].append(prints(x))
        for x, p in held:
            m.ok('unchanged', prints(x) == p, 'batch changed after it was handed out')
        k = min(11, len(seen['c']))
        m.ok('interleaved', seen['c'][:k] == alone[:k], 'interleaving changes the stream', key=(seeds, k))
        k = min(11, len(seen['a2']))
        m.ok('seed.key', seen['a2'][:k] == alone[:k], 'integer and key seed differ', key=(seeds, k))
        m.ok('seed', not set(seen['b']) & set(alone), 'different seeds share batches', key=seeds)
        # equal moduli, still independent points
        npar = int(rng.integers(5, 15))
        value = complex(*rng.normal(size=2))
        same = ml.BatchSampler(seeds[0], variety, lambda key, n: jax.numpy.full((n, 1), value), npar, 4, 2)
        for _ in range(3):
            judge(m, v, next(same), npar, 4)
            m.ok('equal-moduli', True, key=(value, npar))
        m.ok('iterable', iter(c) is c or next(iter(c)) is not None)
        it = [prints(x) for x, _ in zip(iter(new(seeds[0], 4)), range(6))]
        m.ok('iterable', it == alone[:6], 'iteration differs from next', key=seeds)


WORKLOADS = {'stream1': lambda m: stream(m, 'stream1'), 'stream2': lambda m: stream(m, 'stream2'),
             'stream3': lambda m: stream(m, 'stream3'), 'history1': lambda m: history(m, 'history1'),
             'history2': lambda m: history(m, 'history2')}
