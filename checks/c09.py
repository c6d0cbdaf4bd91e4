"""Large samples of all random generators compared with their exact distributions."""
import numpy as np

from cyverif import geometry as geo, stats

REQUIRED = ['shape', 'support', 'pure', 'keys-differ', 'square.uniform', 'disk.radius', 'disk.angle',
            'disk.joint', 'circle.angle', 'sphere.law', 'sphere.moment', 'csphere.law', 'csphere.phase',
            'projective.law', 'projective.affine', 'independent.entries', 'independent.rows', 'gaps']


def generators():
    import cyjax.random as r
    return {
        'square': lambda k, s: r.uniform_components(k, s),
        'disk': lambda k, s: r.uniform_angle(k, s),
        'annulus': lambda k, s: r.uniform_angle(k, s, .5, 2.),
        'maxrad': lambda k, s: r.uniform_angle(k, s, maxrad=3.),
        'circle': lambda k, s: r.uniform_angle_unit(k, s),
        'sphere': lambda k, s: r.real_sphere(k, s),
        'csphere': lambda k, s: r.complex_sphere(k, s)}


def inside(name, x):
    e = 1e-5
    a = np.abs(x)
    if name == 'square':
        return np.all(np.abs(x.real) <= 1) and np.all(np.abs(x.imag) <= 1)
    if name in ('disk', 'annulus', 'maxrad'):
        lo, hi = {'disk': (0, 1), 'annulus': (.5, 2), 'maxrad': (0, 3)}[name]
        return np.all(a >= lo - e) and np.all(a <= hi + e)
    if name == 'circle':
        return np.all(np.abs(a - 1) < e)
    return np.all(np.abs(np.sum(a ** 2, -1) - 1) < e)


def shapes(m):
    import jax
    import cyjax.random as r
    gens = generators()
    for rng in m.cases('shapes', 35, 400):
        name = list(gens)[rng.integers(len(gens))]
        nd = int(rng.integers(1 if 'sphere' in name else 0, 4))
        shape = tuple(int(x) for x in rng.integers(1, 5, nd))
        if rng.random() < .1 and nd > 1:
            shape = (0, *shape[1:])
        seed = int(rng.integers(2 ** 31))
        key = jax.random.PRNGKey(seed)
        m.note(f'{name} {shape} seed {seed}')
        x = np.asarray(gens[name](key, shape))
        m.equal('shape', x.shape, shape)
        m.equal('dtype', np.iscomplexobj(x), name != 'sphere')
        m.ok('support', np.all(np.isfinite(x)) and inside(name, x), f'outside of support: {x}')
        m.bitwise('pure', gens[name](key, shape), x)
        y = np.asarray(gens[name](jax.random.PRNGKey(seed + 1), shape))
        if x.size > 1 and 'sphere' not in name:
            m.ok('keys-differ', not np.any(x == y), 'different keys give equal values')
        n, d = int(rng.integers(0, 6)), int(rng.integers(1, 6))
        h = np.asarray(r.uniform_projective(key, n, d, False))
        m.equal('shape', h.shape, (n, d + 1))
        z, p = r.uniform_projective(key, n, d)
        m.equal('shape', (z.shape, p.shape), ((n, d), (n,)))
        m.ok('support', np.all(np.abs(z) <= 1 + 1e-6), 'affine coordinate exceeds one')
        m.ok('support', np.all((np.asarray(p) >= 0) & (np.asarray(p) <= d)), 'invalid patch')
    x = np.asarray(r.real_sphere(jax.random.PRNGKey(0), ()))
    m.close('support', abs(x), 1.)
    x = np.asarray(r.complex_sphere(jax.random.PRNGKey(0), ()))
    m.close('support', abs(x), 1.)


def entries(m, x):
    """Independence of entries and rows of a sample of scalar values."""
    flat = x.reshape(len(x), -1)
    m.below('independent.rows', stats.dependence(flat[:-1, 0], flat[1:, 0]), stats.Z_LIMIT)
    if flat.shape[1] > 1:
        m.below('independent.entries', stats.dependence(flat[:, 0], flat[:, 1]), stats.Z_LIMIT)
        m.ok('independent.entries', len(np.unique(flat)) > .99 * flat.size, 'repeated values')


def lags(m, a, b):
    """Independence of one part of an entry from another part of nearby entries."""
    a, b = a.ravel(), b.ravel()
    for k in range(1, 7):
        m.below('independent.entries', stats.dependence(a[:-k], b[k:]), stats.Z_LIMIT, ('later', k))
        m.below('independent.entries', stats.dependence(a[k:], b[:-k]), stats.Z_LIMIT, ('earlier', k))


def uniform(m, name, u, key=()):
    """Law of a variable uniform on the unit interval, all of which is covered."""
    m.below(name, stats.ks(u), stats.KS_LIMIT, key)
    m.below('gaps', stats.gap(u), stats.GAP_LIMIT, (name, key))


def planar(m):
    import jax
    import cyjax.random as r
    n = m.pick(120000, 600000)
    for rng in m.cases('planar', 6, 24):
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        shape = [(n,), (n // 2, 2), (n // 6, 2, 3)][rng.integers(3)]
        m.note(f'{shape}')
        x = np.asarray(r.uniform_components(key, shape))
        u, v = (x.real + 1) / 2, (x.imag + 1) / 2
        uniform(m, 'square.uniform', u, 're')
        uniform(m, 'square.uniform', v, 'im')
        m.below('square.uniform', stats.dependence(u, v), stats.Z_LIMIT, 'joint')
        entries(m, u)
        entries(m, v)
        lags(m, u, v)
        lags(m, u, u)
        for lo, hi in ((0, 1), (float(rng.uniform(0, 1)), float(rng.uniform(1.2, 3))), (0, 5.),
                       (float(rng.uniform(.01, .05)), 1)):
            kw = {'minrad': lo, 'maxrad': hi}
            kw = {k: v for k, v in kw.items() if v != {'minrad': 0, 'maxrad': 1}[k]}  # else the default
            x = np.asarray(r.uniform_angle(key, shape, lo, hi) if rng.random() < .3 and len(kw) > 1
                           else r.uniform_angle(key, shape, **kw))
            a = (np.abs(x) ** 2 - lo ** 2) / (hi ** 2 - lo ** 2)
            uniform(m, 'disk.radius', a, (lo, hi))
            # no value is taken by several points
            rad = np.sort(np.abs(x).ravel())
            m.ok('disk.atoms', np.max(rad[5:] - rad[:-5] > 1e-12 * hi) and np.sum(rad[1:] == rad[:-1]) < 20 + n // 5000,
                 f'{np.sum(rad[1:] == rad[:-1])} equal radii', key=(lo, hi))
            uniform(m, 'disk.angle', stats.phase01(x), (lo, hi))
            m.below('disk.joint', stats.dependence(a, np.angle(x)), stats.Z_LIMIT, (lo, hi))
            entries(m, a)
            entries(m, np.angle(x))
            lags(m, a, np.angle(x))
        x = np.asarray(r.uniform_angle_unit(key, shape))
        uniform(m, 'circle.angle', stats.phase01(x))
        entries(m, np.angle(x))


def spheres(m):
    import jax
    import cyjax.random as r
    n = m.pick(150000, 600000)
    for rng in m.cases('spheres', 12, 40):
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        d = int(rng.integers(1, 7))
        m.note(f'dimension {d}')
        lead = (n,) if rng.integers(2) else (n // 3, 3)
        x = np.asarray(r.real_sphere(key, (*lead, d)))
        if d > 1:
            for _ in range(2):
                w = rng.normal(size=d)
                w /= np.linalg.norm(w)
                uniform(m, 'sphere.law', stats.beta_cdf((d - 1) / 2, (d - 1) / 2)((1 + x @ w) / 2), w.tobytes())
            entries(m, x[..., 0])
            i, j = rng.choice(d, 2, replace=False)
            m.below('sphere.moment', stats.mean_z(x[..., i] * x[..., j], 0), stats.Z_LIMIT)
            m.below('sphere.moment', stats.mean_z(x[..., i] ** 2, 1 / d), stats.Z_LIMIT)
            if len(lead) == 2:
                m.below('independent.entries', stats.dependence(x[:, 0, 0], x[:, 1, 0]), stats.Z_LIMIT)
        else:
            m.below('sphere.moment', stats.mean_z(x, 0), stats.Z_LIMIT)
        z = np.asarray(r.complex_sphere(key, (*lead, d)))
        w = rng.normal(size=d) + 1j * rng.normal(size=d)
        w /= np.linalg.norm(w)
        for c in (z @ w.conj(), z[..., int(rng.integers(d))]):
            uniform(m, 'csphere.phase', stats.phase01(c))
            if d > 1:
                uniform(m, 'csphere.law', stats.beta_cdf(1, d - 1)(np.abs(c) ** 2))
                m.below('csphere.law', stats.dependence(np.abs(c), np.angle(c)), stats.Z_LIMIT)
        if d > 1:
            i, j = rng.choice(d, 2, replace=False)
            for k, f in enumerate((z[..., i] * z[..., j].conj(), z[..., i] * z[..., j])):
                m.below('csphere.law', stats.mean_z(f.real, 0), stats.Z_LIMIT, ('re', k))
                m.below('csphere.law', stats.mean_z(f.imag, 0), stats.Z_LIMIT, ('im', k))
            m.below('independent.rows', stats.dependence(np.abs(z.reshape(-1, d)[:-1, 0]),
                                                         np.abs(z.reshape(-1, d)[1:, 0])), stats.Z_LIMIT)


def projective(m):
    import jax
    import cyjax.random as r
    n = m.pick(60000, 150000)
    for rng in m.cases('projective', 10, 40):
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        d = int(rng.integers(1, 6))
        m.note(f'P^{d}')
        h = np.asarray(r.uniform_projective(key, n, d, affine=False))
        z, p = map(np.asarray, r.uniform_projective(key, n, d, affine=True))
        hom = geo.insert(z, p)
        m.below('projective.affine', stats.ks(
            (np.bincount(p, minlength=d + 1).cumsum() / n)[p] - rng.random(n) * (np.bincount(p, minlength=d + 1) / n)[p]), stats.KS_LIMIT)
        counts = np.bincount(p, minlength=d + 1)
        m.below('projective.affine', float(np.max(np.abs(counts - n / (d + 1)))), 7 * np.sqrt(n / (d + 1)))
        for name, x in (('projective.law', h), ('projective.law', hom)):
            x = x / np.linalg.norm(x, axis=1, keepdims=True)
            for _ in range(2):
                w = rng.normal(size=d + 1) + 1j * rng.normal(size=d + 1)
                w /= np.linalg.norm(w)
                uniform(m, name, stats.beta_cdf(1, d)(np.abs(x @ w.conj()) ** 2), w.tobytes())
            i, j = rng.choice(d + 1, 2, replace=False)
            uniform(m, name, stats.phase01(x[:, i] * x[:, j].conj()), 'phase')
        a, b = np.abs(hom[:-1, 0]), np.abs(hom[1:, 1])
        ok = (p[:-1] != 0) & (p[1:] != 1)
        m.below('independent.rows', stats.dependence(a[ok], b[ok]), stats.Z_LIMIT)


WORKLOADS = {'shapes': shapes, 'planar': planar, 'spheres': spheres, 'projective': projective}
