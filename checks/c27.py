"""Histories of draws from key sequences; distinctness and equality of all keys seen decide."""
import numpy as np

REQUIRED = ['reproducible', 'integer-or-key', 'distinct', 'start', 'across', 'interleaved', 'valid-key', 'no-global',
            'values']


def tup(k):
    return tuple(int(i) for i in np.ravel(np.asarray(k)))


def run(m):
    import jax
    from cyjax.util import PRNGSequence
    for rng in m.cases('draws', 12, 100):
        seed = [0, 1, 42, 2 ** 31 - 1, int(rng.integers(2 ** 31)), -1, -int(rng.integers(2, 2 ** 31)), 2 ** 31,
                2 ** 32 + 1, int(rng.integers(2 ** 32, 2 ** 60))][rng.integers(10)]
        n = int(rng.integers(20, 60))
        m.note(f'seed {seed}')
        start = jax.random.PRNGKey(seed)
        a = PRNGSequence(seed)
        ka = [next(a) for _ in range(n)]
        keys = [tup(k) for k in ka]
        b = PRNGSequence(start)
        m.equal('integer-or-key', [tup(next(b)) for _ in range(n)], keys)
        m.equal('distinct', len(set(keys)), n)
        m.ok('start', tup(start) not in keys and tup(start) == tup(jax.random.PRNGKey(seed)), 'start key handed out')
        for k in ka[:3]:
            m.ok('valid-key', np.shape(k) == np.shape(start) and k.dtype == start.dtype, f'{k}', key=tup(k))
        # continuing, interleaved with another sequence and unrelated draws
        c, d = PRNGSequence(seed), PRNGSequence([seed + 1, -seed or 7, seed ^ 2 ** 31, (seed or 9) + 2 ** 33][rng.integers(4)])
        kc, kd = [], []
        while len(kc) < n:
            r = rng.integers(3)
            if r == 0:
                kc.append(tup(next(c)))
            elif r == 1:
                kd.append(tup(next(d)))
            else:
                np.random.seed(int(rng.integers(9)))
                jax.random.split(start)
                PRNGSequence()
        m.equal('interleaved', kc, keys)
        m.ok('across', not set(kd) & set(kc), 'two seeds share keys', key=seed)
        m.equal('reproducible', [tup(next(a)) for _ in range(5)], [tup(next(c)) for _ in range(5)])
        m.ok('no-global', tup(next(PRNGSequence(seed))) == keys[0], 'first key changed', key=seed)
        # draws made with the keys are different too
        x = [float(jax.random.uniform(k)) for k in ka[:20]]
        m.equal('values', len(set(x)), 20)


def many(m):
    import jax
    from cyjax.util import PRNGSequence
    for rng in m.cases('many', 1, 4):
        seen = {}
        for seed in [int(i) for i in rng.permutation(5000)[:m.pick(150, 1000)]]:
            s = PRNGSequence(seed)
            for i in range(8):
                k = tup(next(s))
                m.ok('across', k not in seen, f'key of {seed} at {i} equals {seen.get(k)}', key=k)
                seen[k] = (seed, i)
    for rng in m.cases('long', 1, 3):
        s = PRNGSequence(int(rng.integers(2 ** 31)))
        n = m.pick(5000, 50000)
        m.equal('distinct', len({tup(next(s)) for _ in range(n)}), n)


WORKLOADS = {'run': run, 'many': many}
