"""Overlap samples for all pairs of patches: bounds and equality of distributions from both sides."""
import itertools

import numpy as np

from cyverif import stats

REQUIRED = ['shape', 'pure', 'bound.this', 'bound.other', 'symmetric', 'symmetric.joint', 'phase',
            'phase.independent', 'independent', 'independent.rows', 'spread', 'relabel']


def chart(z, a, b):
    h = np.insert(z, a, 1., axis=1)
    return np.delete(h / h[:, b:b + 1], b, axis=1)


def loc(a, b):
    return b - (a < b)


def statistics(z, a, b, rng):
    """Real statistics of points given in patch a with other patch b."""
    h = np.insert(z, a, 1., axis=1)
    rest = [i for i in range(h.shape[1]) if i not in (a, b)]
    s = {'ratio': np.log(np.abs(h[:, b]))}
    for i in rest:
        s[f'abs{i}'] = np.abs(h[:, i])
        s[f'joint{i}'] = np.abs(h[:, i]) * np.abs(h[:, b]) ** .5
        s[f'quot{i}'] = np.abs(h[:, i]) / np.abs(h[:, b])
    for i, j in itertools.combinations(rest, 2):
        s[f'prod{i}{j}'] = np.abs(h[:, i] * h[:, j])
    return s


def small(m):
    """Bounds for many sizes and keys."""
    import jax
    from cyjax.random import projective_overlap
    for rng in m.cases('bounds', 80, 800):
        d = int(rng.integers(1, 6))
        a, b = map(int, rng.choice(d + 1, 2, replace=False))
        size = float(rng.choice([1, 1.0001, 1.2, 1.5, 2, 3, 5, 10, 100]))
        n = int(rng.choice([0, 1, 2, 50]))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        m.note(f'dim {d} {a}->{b} size {size} count {n}')
        z = np.asarray(projective_overlap(key, n, d, a, b, size))
        m.equal('shape', z.shape, (n, d))
        if n == 0:
            continue
        m.bitwise('pure', projective_overlap(key, n, d, a, b, size), z)
        m.below('bound.this', np.abs(z).max(), size * (1 + 1e-6))
        m.below('bound.other', np.abs(chart(z, a, b)).max(), size * (1 + 1e-6))
        if n > 10:
            m.ok('pure.keys', not np.any(z == np.asarray(projective_overlap(
                jax.random.split(key)[0], n, d, a, b, size))), 'keys repeat values')


def pairs():
    out = []
    for d in (1, 2, 3, 4):
        for a, b in itertools.combinations(range(d + 1), 2):
            out.append((d, a, b))
    return out


def distribution(m, todo):
    import jax
    from cyjax.random import projective_overlap
    n = m.pick(8000, 60000)
    for (d, a, b), rng in m.each('distribution', todo):
        size = float(rng.choice([1.3, 2., 4., 9., 30.]))
        k1, k2 = (jax.random.PRNGKey(int(s)) for s in rng.integers(2 ** 31, size=2))
        x = np.asarray(projective_overlap(k1, n, d, a, b, size))
        y = np.asarray(projective_overlap(k2, n, d, b, a, size))
        m.note(f'dim {d} {a}<->{b} size {size}')
        for p, q, u, v in ((a, b, x, chart(y, b, a)), (b, a, y, chart(x, a, b))):
            m.below('bound.this', np.abs(u).max(), size * (1 + 1e-6))
            su, sv = statistics(u, p, q, rng), statistics(v, p, q, rng)
            for k in su:
                m.below('symmetric' if k == 'ratio' else 'symmetric.joint',
                        stats.ks2(su[k], sv[k]), stats.KS_LIMIT, k)
        for p, q, u in ((a, b, x), (b, a, y)):
            o = loc(p, q)
            m.below('spread', .2, np.abs(np.log(np.abs(u[:, o]))).max() / np.log(size))
            r0 = np.log(np.abs(u[:, o]))
            m.below('independent.rows', stats.dependence(r0[:-1], r0[1:]), stats.Z_LIMIT)
            bound = np.minimum(size, size * np.abs(u[:, o]))
            rel = np.abs(u) / bound[:, None]
            for i in range(d):
                m.below('phase', stats.ks(stats.phase01(u[:, i])), stats.KS_LIMIT, i)
                m.below('phase.independent', stats.dependence(np.angle(u[:, i]), np.abs(u[:, i])), stats.Z_LIMIT, i)
                if i != o:
                    m.below('independent', stats.dependence(rel[:, i], r0), stats.Z_LIMIT, i)
                    m.below('independent.rows', stats.dependence(rel[:-1, i], rel[1:, i]), stats.Z_LIMIT)
                for j in range(i):
                    m.below('phase.independent', stats.dependence(np.angle(u[:, i]), np.angle(u[:, j])), stats.Z_LIMIT)
                    if o not in (i, j):
                        m.below('independent', stats.dependence(rel[:, i], rel[:, j]), stats.Z_LIMIT, (i, j))
        # the law of the remaining coordinates does not depend on which patches are used
        if d > 1:
            c = [i for i in range(d + 1) if i not in (a, b)][0]
            w = np.asarray(projective_overlap(k2, n, d, a, c, size))
            m.below('relabel', stats.ks2(np.abs(w[:, loc(a, c)]), np.abs(x[:, loc(a, b)])), stats.KS_LIMIT)
            m.below('relabel', stats.ks2(np.abs(w[:, loc(a, b)]), np.abs(x[:, loc(a, c)])), stats.KS_LIMIT)


def part(k):
    return lambda m: distribution(m, pairs()[k::3])


WORKLOADS = {'small': small, 'dist0': part(0), 'dist1': part(1), 'dist2': part(2)}
