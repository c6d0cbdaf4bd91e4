"""Random points moved through random sequences of charts of projective space."""
import numpy as np

REQUIRED = ['to-affine', 'to-hom', 'roundtrip', 'chart', 'chart.back', 'chart.compose',
            'chart.identity', 'best-patch', 'best-patch.bound', 'index', 'index.coordinate', 'history']


def point(rng, dim, batch=()):
    kind = rng.integers(5)
    z = rng.normal(size=(*batch, dim + 1)) + 1j * rng.normal(size=(*batch, dim + 1))
    if kind == 1:
        z *= 10. ** rng.uniform(-6, 6, z.shape)
    elif kind == 2:  # ties of the modulus, real and negative entries
        z = np.sign(rng.normal(size=z.shape)) * rng.integers(1, 3, z.shape) + 0j
    elif kind == 3:
        z *= 10. ** rng.uniform(-100, 100)
    return z


def affine(z, p):
    """Reference conversion for arrays with any batch shape."""
    p = np.broadcast_to(p, z.shape[:-1])
    out = np.empty((*z.shape[:-1], z.shape[-1] - 1), complex)
    for i in np.ndindex(z.shape[:-1]):
        out[i] = np.delete(z[i] / z[i][p[i]], p[i])
    return out


def batches(rng):
    return [(), (), (5,), (2, 3), (1,)][rng.integers(5)]


def rel(m, name, got, want):
    """Componentwise relative agreement, as coordinates may differ in scale."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        m.fail(name, f'shape {got.shape} instead of {want.shape}')
    safe = np.where(want == 0, 1., want)
    m.close(name, np.where(want == 0, got + 1, got / safe), np.ones(want.shape), 1e-9, key=want)


def conversions(m):
    import cyjax
    for rng in m.cases('conversions', 110, 1000):
        dim, batch = int(rng.integers(1, 7)), batches(rng)
        z = point(rng, dim, batch)
        p = rng.integers(0, dim + 1, batch)
        m.note(f'dim {dim} batch {batch} patch {p.tolist()}')
        if rng.random() < .3:  # zero in another coordinate
            q = (p + 1) % (dim + 1)
            for i in np.ndindex(batch):
                z[i][q[i]] = 0
        want = affine(z, p)
        pp = int(p) if batch == () else p
        aff = cyjax.hom_to_affine(z, pp)
        rel(m, 'to-affine', aff, want)
        hom = cyjax.affine_to_hom(want, pp)
        full = np.empty((*batch, dim + 1), complex)
        for i in np.ndindex(batch):
            full[i] = np.insert(want[i], p[i], 1.)
        m.array('to-hom', np.asarray(hom), full)
        rel(m, 'roundtrip', cyjax.hom_to_affine(hom, pp), want)
        # automatic patch, also for points on coordinate hyperplanes
        z = point(rng, dim, batch)
        if rng.random() < .4:
            keep = rng.random(z.shape) < .5
            np.put_along_axis(keep, rng.integers(0, dim + 1, (*batch, 1)), True, -1)
            z = np.where(keep, z, 0)
        aff, best = cyjax.hom_to_affine(z)
        best = np.asarray(best)
        m.equal('best-patch', best.shape, batch)
        chosen = np.take_along_axis(np.abs(z), best[..., None], -1)[..., 0]
        m.ok('best-patch', np.all(chosen >= np.abs(z).max(-1) * (1 - 1e-12)),
             f'patch {best} is not of largest modulus for {z}')
        m.ok('best-patch.bound', np.all(np.abs(np.asarray(aff)) <= 1 + 1e-12), 'coordinate exceeds one')
        rel(m, 'to-affine', aff, affine(z, best))
        # one patch for a batch and one point for many patches
        if batch:
            z = point(rng, dim, batch)
            q = int(rng.integers(dim + 1))
            rel(m, 'to-affine', cyjax.hom_to_affine(z, q), affine(z, q))
            one = z[(0,) * len(batch)]
            allp = np.arange(dim + 1)
            rel(m, 'to-affine', cyjax.hom_to_affine(one, allp),
                np.stack([affine(one, k) for k in allp]))


def charts(m):
    import cyjax
    for rng in m.cases('charts', 110, 1000):
        dim, batch = int(rng.integers(1, 7)), batches(rng)
        z = point(rng, dim, batch)
        a, b, c = rng.integers(0, dim + 1, (3, *batch))
        m.note(f'dim {dim} batch {batch} {a.tolist()} {b.tolist()} {c.tolist()}')
        conv = (lambda x: int(x)) if batch == () else (lambda x: x)
        start = affine(z, a)
        ab = cyjax.change_chart(start, conv(a), conv(b))
        rel(m, 'chart', ab, affine(z, b))
        rel(m, 'chart.back', cyjax.change_chart(ab, conv(b), conv(a)), start)
        rel(m, 'chart.compose', cyjax.change_chart(ab, conv(b), conv(c)),
            np.asarray(cyjax.change_chart(start, conv(a), conv(c))))
        rel(m, 'chart.identity', cyjax.change_chart(start, conv(a), conv(a)), start)
        if batch:
            p, q = map(int, rng.integers(0, dim + 1, 2))
            rel(m, 'chart', cyjax.change_chart(affine(z, p), p, q), affine(z, q))
            rel(m, 'chart', cyjax.change_chart(affine(z, p), p, conv(b)), affine(z, b))
    # identity at the origin of a chart
    for (dim, p), rng in m.each('origin', [(d, p) for d in (1, 2, 4) for p in range(d + 1)]):
        zero = np.zeros(dim, complex)
        m.array('chart.identity', cyjax.change_chart(zero, p, p), zero)


def histories(m):
    """Random walks through charts return to the start with the same point."""
    import cyjax
    import jax
    change = jax.jit(cyjax.change_chart)
    for rng in m.cases('history', 40, 400):
        dim = int(rng.integers(1, 7))
        z = point(rng, dim)
        p = int(rng.integers(dim + 1))
        path = [p]
        x = affine(z, p)
        for _ in range(int(rng.integers(2, 12))):
            q = int(rng.integers(dim + 1))
            mode = rng.integers(3)
            if mode == 0:
                x = cyjax.change_chart(x, path[-1], q)
            elif mode == 1:
                x = change(x, path[-1], q)
            else:
                x = cyjax.hom_to_affine(cyjax.affine_to_hom(x, path[-1])
                                        * complex(*rng.normal(size=2)), q)
            path.append(q)
            m.note(f'dim {dim} path {path}')
            rel(m, 'history', x, affine(z, q))


def indices(m):
    import cyjax
    for dim, rng in m.each('index', list(range(1, 9))):
        for p in range(dim + 1):
            hom = rng.normal(size=dim + 1) + 1j * rng.normal(size=dim + 1)
            aff = np.asarray(cyjax.hom_to_affine(hom, p))
            for i in range(dim):
                h = int(cyjax.index_affine_to_hom(p, i))
                m.equal('index', h, i + (i >= p))
                m.equal('index', int(cyjax.index_hom_to_affine(p, h)), i)
                m.close('index.coordinate', aff[i], hom[h] / hom[p], 1e-12)
            others = np.array([h for h in range(dim + 1) if h != p])
            m.array('index', cyjax.index_hom_to_affine(p, others), np.arange(dim))
            m.array('index', cyjax.index_affine_to_hom(p, np.arange(dim)), others)


WORKLOADS = {'conversions': conversions, 'charts': charts, 'histories': histories, 'indices': indices}
