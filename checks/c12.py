"""Large samples on varieties with known Fubini-Study averages and volumes."""
from math import lgamma

import numpy as np

from cyverif import geometry as geo, refpoly as rp, stats

REQUIRED = ['hyperplane.law', 'conic.law', 'moments', 'moments.hidden', 'fermat.volume', 'cubic.volume',
            'weighted.symmetry', 'independent', 'independent.weighted', 'variance.scale', 'volume.converges', 'volume.few',
            'lines-independent', 'few.count', 'few.last', 'few.mean']
ASSUMPTIONS = ['statistics accept deviations up to 6.5 standard errors']


def unitary(rng, n):
    return np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]


def linear(ref, a):
    """Polynomial z -> ref(a z), as a reference polynomial."""
    n = a.shape[0]
    forms = []
    for i in range(n):
        t = {}
        for j in range(n):
            if a[i, j] != 0:
                t[tuple(int(k == j) for k in range(n))] = a[i, j]
        forms.append(t)

    def mul(x, y):
        out = {}
        for e, c in x.items():
            for f, d in y.items():
                k = tuple(p + q for p, q in zip(e, f))
                out[k] = out.get(k, 0) + c * d
        return out
    total = {}
    for e, c in ref.terms.items():
        prod = {(0,) * n: c}
        for i in range(n):
            for _ in range(e[i]):
                prod = mul(prod, forms[i])
        for k, v in prod.items():
            total[k] = total.get(k, 0) + v
    total = {k: complex(v) for k, v in total.items() if abs(v) > 1e-13}
    return geo.RefVariety(rp.RefPoly(ref.variables, [], total))


def simple(n, terms):
    return rp.RefPoly([('z', list(range(n)))], [], terms)


def diagonal(n, d):
    return simple(n, {tuple(d if i == j else 0 for i in range(n)): 1. for j in range(n)})


def draw(v, rng, count, par=None, weights=False):
    import jax
    variety = v.build()
    par = np.zeros(0) if par is None else par
    fn = jax.jit(lambda k: variety.sample_intersect(k, par, count, weights=weights))
    out = fn(jax.random.PRNGKey(int(rng.integers(2 ** 31))))
    if weights:
        h, w = map(np.asarray, out)
        return h / np.linalg.norm(h, axis=-1, keepdims=True), w
    h = np.asarray(out)
    return h / np.linalg.norm(h, axis=-1, keepdims=True)


def block_z(x, want, blocks=40):
    """z-score of the mean from block means, safe for dependent neighbours."""
    x = np.asarray(x)
    k = len(x) // blocks
    b = x[:k * blocks].reshape(blocks, k, *x.shape[1:]).mean(1)
    err = b.std(0, ddof=1) / np.sqrt(blocks)
    return np.abs(b.mean(0) - want) / np.maximum(err, 1e-12)


BLOCK_LIMIT = 8.  # Student distribution with 39 degrees of freedom


def laws(m):
    n_pts = m.pick(20000, 100000)
    for rng in m.cases('hyperplane', 3, 12):
        n = int(rng.integers(3, 6))
        u = unitary(rng, n)
        # the hyperplane orthogonal to the conjugate of the last row
        v = geo.RefVariety(simple(n, {tuple(int(i == j) for i in range(n)): u[-1, j] for j in range(n)}))
        m.note(v.text)
        h = draw(v, rng, n_pts) @ u.T
        m.below('hyperplane.on', np.abs(h[:, -1]).max(), 1e-8)
        for i in range(n - 1):
            m.below('hyperplane.law', stats.ks(np.abs(h[:, i]) ** 2, stats.beta_cdf(1, n - 2)), stats.KS_LIMIT)
        m.below('hyperplane.law', stats.ks(stats.phase01(h[:, 0] * h[:, 1].conj()), lambda x: x), stats.KS_LIMIT)
    for rng in m.cases('conic', 3, 12):
        u = unitary(rng, 3)
        v = linear(diagonal(3, 2), u)
        m.note(v.text)
        z = draw(v, rng, 2 * n_pts) @ u.T
        lim = stats.KS_LIMIT * np.sqrt(2)
        for i, j, k in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]:
            a, b = z[:, i] - 1j * z[:, j], z[:, i] + 1j * z[:, j]
            t = np.abs(a) / (np.abs(a) + np.abs(b))
            m.below('conic.law', stats.ks(t, lambda x: x), lim)
            m.below('conic.law', stats.ks(stats.phase01(a * b.conj()), lambda x: x), lim)


def symmetry(m):
    n_pts = m.pick(24000, 120000)
    cases = [(3, 2), (3, 3), (3, 4), (4, 2), (4, 3), (4, 4), (5, 3), (5, 5)]
    for (n, d), rng in m.each('symmetry', m.pick(cases[1::2], cases)):
        m.note(f'Fermat degree {d} in {n} coordinates')
        hide = rng.integers(2) and d < 4
        u = unitary(rng, n) if hide else np.eye(n)
        v = linear(diagonal(n, d), u) if hide else geo.RefVariety(diagonal(n, d))
        h, w = draw(v, rng, d * (n_pts // d), weights=True)
        h = h @ u.T
        name = 'moments.hidden' if hide else 'moments'
        mom = h[:, :, None] * h[:, None, :].conj()
        m.below(name, block_z(mom.real, np.eye(n) / n).max(), BLOCK_LIMIT)
        off = ~np.eye(n, dtype=bool)
        m.below(name, block_z(mom.imag, 0)[off].max(), BLOCK_LIMIT)
        if n == d:
            for i in range(n):
                x = w * (np.abs(h[:, i]) ** 2 - 1 / n)
                m.below('weighted.symmetry', block_z(x, 0), BLOCK_LIMIT)
        lines = np.abs(np.einsum('li,mi->lm', h[::d][:60], h[::d][:60].conj()))
        m.ok('lines-independent', lines[np.triu_indices(60, 1)].max() < 1 - 1e-9, 'repeated lines')


def hidden(m):
    n_pts = m.pick(24000, 120000)
    for rng in m.cases('hidden', 2, 10):
        n, d = int(rng.integers(3, 5)), 3
        u = unitary(rng, n)
        v = linear(diagonal(n, d), u)
        m.note(v.text)
        h = draw(v, rng, d * (n_pts // d)) @ u.T
        mom = h[:, :, None] * h[:, None, :].conj()
        m.below('moments.hidden', block_z(mom.real, np.eye(n) / n).max(), BLOCK_LIMIT)
        m.below('moments.hidden', block_z(mom.imag, 0)[~np.eye(n, dtype=bool)].max(), BLOCK_LIMIT)


def fermat_volume(n):
    """Holomorphic volume over degree, from complex beta integrals."""
    def lg(x):
        return lgamma(x) - lgamma(1 - x)
    log = -2 * np.log(n) - (n - 2) * np.log(n)
    b = 1 / n
    for _ in range(n - 2):
        log += np.log(np.pi) + lg(1 / n) + lg(b) + lg(1 - 1 / n - b)
        b += 1 / n
    return np.exp(log)


def agm(a, b):
    """Arithmetic-geometric mean with the right choice of roots."""
    for _ in range(60):
        a1, g = (a + b) / 2, np.sqrt(complex(a * b))
        if abs(a1 - g) > abs(a1 + g):
            g = -g
        a, b = a1, g
        if abs(a - b) < 1e-15 * abs(a):
            break
    return a


def cubic_area(e):
    """Area of the period lattice of dx / (2 y), y^2 = 4 prod(x - e)."""
    def right(a, b):
        return b if abs(a - b) <= abs(a + b) else -b
    r = np.sqrt(np.asarray([e[0] - e[2], e[0] - e[1], e[1] - e[2]], complex))
    w1 = np.pi / agm(r[0], right(r[0], r[1]))
    w2 = 1j * np.pi / agm(r[0], right(r[0], r[2]))
    return abs((w1.conjugate() * w2).imag) / 4


def volumes(m, name):
    import jax
    reps, batches, size = 10, m.pick(4, 10), m.pick(4000, 10000)
    for rng in m.cases(name, 3, 10):
        if name == 'fermat':
            n = int(rng.choice(m.pick([3, 4], [3, 4, 5])))
            v = geo.fermat(n) if rng.integers(2) else geo.dwork(n)
            want, mon = fermat_volume(n), 'fermat.volume'
            par = np.zeros(len(v.params), complex)
        else:
            e = rng.normal(size=3) + 1j * rng.normal(size=3)
            while min(abs(e[0] - e[1]), abs(e[0] - e[2]), abs(e[1] - e[2])) < .4:
                e = rng.normal(size=3) + 1j * rng.normal(size=3)
            e -= e.mean()
            g2 = -4 * (e[0] * e[1] + e[0] * e[2] + e[1] * e[2])
            g3 = 4 * e[0] * e[1] * e[2]
            ref = simple(3, {(1, 2, 0): 1., (0, 0, 3): -4., (2, 0, 1): g2, (3, 0, 0): g3})
            a = unitary(rng, 3) * rng.uniform(.7, 1.4) if rng.integers(2) else np.eye(3)
            v = linear(ref, a)
            want = cubic_area(e) / 3 / np.abs(np.linalg.det(a)) ** 2
            par, mon, n = np.zeros(0), 'cubic.volume', 3
        m.note(f'{v.text} volume {want}')
        variety = v.build()
        fn = jax.jit(lambda k: variety.compute_vol(k, par, batches, size, True))
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), reps)
        out = np.array([fn(k) for k in keys])
        vol, var = out[:, 0], out[:, 1]
        m.ok('finite', np.all(np.isfinite(out)) and np.all(var > 0), f'{out}')
        # standard error from the reported variance; neighbours on a line are
        # dependent, at most a factor of the degree
        err = np.sqrt(var.mean() / reps * v.degree)
        m.below(mon, abs(vol.mean() - want) / err, stats.Z_LIMIT, key=vol)
        m.below('volume.converges', abs(vol.mean() / want - 1), .12, key=vol)
        ratio = np.sqrt(np.mean((vol - want) ** 2 / var))
        m.below('variance.scale', max(ratio / 4, .2 / ratio), 1., key=vol)
        # the same with batches of few points, each from its own line
        few = int(rng.integers(1, n + 1))
        fn = jax.jit(lambda k: variety.compute_vol(k, par, m.pick(1500, 5000), few))
        out = np.array([fn(k) for k in keys[:6]])
        m.ok('finite', np.all(np.isfinite(out)), f'{out}', key=out)
        m.below('volume.few', abs(out.mean() - want), 7 * out.std(ddof=1) / np.sqrt(6) + .03 * want, key=out)


def independent(m):
    n_pts = m.pick(12000, 30000)
    for rng in m.cases('independent', 3, 12):
        v = geo.any_variety(rng, n=int(rng.integers(3, 5)))
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        d = v.degree
        k = d * (n_pts // d)
        h, w = draw(v, rng, k, par, weights=True)
        r = v.sample(rng, par, k // 2 // d * d)
        mat = geo.random_h(rng, v.n)

        def obs(x):
            return np.stack([np.abs(x[:, i]) ** 2 for i in range(v.n)]
                            + [(x[:, 0] * x[:, 1].conj()).real, (x[:, -1] * x[:, 1].conj()).imag,
                               np.einsum('pi,ij,pj->p', x, mat, x.conj()).real,
                               np.abs(x[:, 0] * x[:, 2]) ** 2], -1)
        # draw of the reference is shuffled, so the plain error applies up to
        # the dependence of points on one line
        a, b = obs(h), obs(r)
        err = np.sqrt(d * (a.var(0) / len(a) + b.var(0) / len(b)))
        m.below('independent', (np.abs(a.mean(0) - b.mean(0)) / err).max(), stats.Z_LIMIT)
        wr = geo.weights(v, r, par)
        top = np.quantile(wr, .98)  # bounded observable of the weights
        a, b = np.minimum(w, top)[:, None] * a, np.minimum(wr, top)[:, None] * b
        err = np.sqrt(d * (a.var(0) / len(a) + b.var(0) / len(b)))
        m.below('independent.weighted', (np.abs(a.mean(0) - b.mean(0)) / err).max(), stats.Z_LIMIT)


def few(m):
    """Samples smaller than the number of points on one line, for many keys."""
    import jax
    n_keys = m.pick(30000, 100000)
    for rng in m.cases('few', 3, 12):
        n, d = 3, int(rng.integers(3, 5))
        basis = [e for e in np.ndindex(*(d + 1,) * n) if sum(e) == d]
        pure = [tuple(d * (i == j) for j in range(n)) for i in range(n)]
        terms = {e: 10 ** rng.uniform(-1, 1) * np.exp(2j * np.pi * rng.random())
                 for e in basis if e in pure[1:] or (e not in pure and rng.random() < .5)}
        v = geo.RefVariety(simple(n, terms))
        variety = v.build()
        count = int(rng.integers(1, d)) + (d if rng.random() < .3 else 0)
        m.note(f'{v.text}, {count} points per key')
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n_keys)
        par = np.zeros(0)
        h = np.asarray(jax.jit(jax.vmap(lambda k: variety.sample_intersect(k, par, count)))(keys))
        m.equal('few.count', h.shape, (n_keys, count, n))
        full = draw(v, rng, d * n_keys).reshape(n_keys, d, n)

        def obs(x):
            x = x / np.linalg.norm(x, axis=-1, keepdims=True)
            a = np.abs(x) ** 2
            return np.concatenate([a, a ** 2, a[..., :1] * a[..., 1:]], -1)
        # the last point, which belongs to an incomplete line, and all points
        for part, x in (('few.last', obs(h)[:, -1]), ('few.mean', obs(h).mean(1))):
            y = obs(full).mean(1)
            err = np.sqrt((x.var(0) + y.var(0)) / n_keys)
            m.below(part, (np.abs(x.mean(0) - y.mean(0)) / err).max(), stats.Z_LIMIT)


WORKLOADS = {'few': few, 'laws': laws, 'symmetry': symmetry, 'hidden': hidden, 'independent': independent,
             'fermat': lambda m: volumes(m, 'fermat'), 'cubic': lambda m: volumes(m, 'cubic')}
