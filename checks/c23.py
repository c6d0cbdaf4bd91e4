"""Functions called with random batch layouts; every element compared with its single call."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['projective', 'polynomial', 'variety', 'sections', 'metric', 'sigma', 'geometry', 'compiled', 'vmap',
            'mixed', 'gradient', 'network']


def tree(x):
    import jax
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(x)]


def check(m, name, fn, args, rng, layouts=4, tol=1e-8, always=(), compiled=False, loop=True):
    """args: name -> (array with two batch dimensions, core rank)."""
    import jax
    single = jax.jit(fn)
    names = list(args)
    for k in range(layouts):
        dims = {a: int(rng.integers(3)) for a in names}
        if k == 0:
            dims = {a: 1 for a in names}      # everything batched
        if k == 1 and len(names) > 1:
            dims = {a: 0 for a in names}
            dims[names[int(rng.integers(len(names)))]] = int(rng.integers(1, 3))
        for a in always:
            dims[a] = max(dims[a], 1)
        call = {a: x[(0,) * (2 - dims[a])] for a, (x, _) in args.items()}
        top = max(dims.values())
        shape = next(x.shape for a, (x, _) in args.items())[2 - top:2] if top else ()
        got = tree(fn(**call))
        parts = []
        for i in np.ndindex(shape):
            parts.append(tree(single(**{a: call[a][i[len(i) - dims[a]:]] for a in names})))
        for j, g in enumerate(got):
            want = np.array([p[j] for p in parts]).reshape((*shape, *parts[0][j].shape))
            m.close(name, g, want, tol, max(np.abs(want).max(), 1e-8))
            if sorted(set(dims.values())) not in ([0], [1], [2]):
                m.close('mixed', g, want, tol, max(np.abs(want).max(), 1e-8))
        if compiled or k == layouts - 1:
            for g, w in zip(tree(jax.jit(fn)(**call)), got):
                m.close('compiled', g, w, tol, max(np.abs(w).max(), 1e-8))
        if k == 0:
            x = {a: v[0] for a, (v, _) in args.items()}
            for g, w in zip(tree(jax.vmap(lambda d: fn(**d))(x)), tree(fn(**x))):
                m.close('vmap', g, w, tol, max(np.abs(w).max(), 1e-8))


def cplx(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


B = (2, 3)


def projective(m):
    import cyjax
    for rng in m.cases('projective', 5, 40):
        n = int(rng.integers(2, 6))
        hom = cplx(rng, *B, n)
        p, q = rng.integers(0, n, B), rng.integers(0, n, B)
        aff = cplx(rng, *B, n - 1)
        check(m, 'projective', lambda hom: cyjax.hom_to_affine(hom), {'hom': (hom, 1)}, rng, 3)
        check(m, 'projective', lambda hom, patch: cyjax.hom_to_affine(hom, patch), {'hom': (hom, 1), 'patch': (p, 0)}, rng)
        check(m, 'projective', lambda z, patch: cyjax.affine_to_hom(z, patch), {'z': (aff, 1), 'patch': (p, 0)}, rng)
        check(m, 'projective', lambda z, p, q: cyjax.change_chart(z, p, q),
              {'z': (aff, 1), 'p': (p, 0), 'q': (q, 0)}, rng)
        check(m, 'projective', lambda z: cyjax.fs_metric(z), {'z': (aff, 1)}, rng, 3)
        check(m, 'projective', lambda z: cyjax.fs_potential(z), {'z': (aff, 1)}, rng, 3)
        check(m, 'projective', lambda z: cyjax.fs_potential(z, hom=True), {'z': (hom, 1)}, rng, 3)
        a = np.asarray(cyjax.fs_metric(aff, aff.conj()))
        m.close('projective', a, np.asarray(cyjax.fs_metric(aff)), 1e-10)
        check(m, 'projective', lambda p, q: cyjax.index_affine_to_hom(p, q), {'p': (p, 0), 'q': (q % (n - 1), 0)}, rng)
        q2 = (p + 1 + q % (n - 1)) % n
        check(m, 'projective', lambda p, q: cyjax.index_hom_to_affine(p, q), {'p': (p, 0), 'q': (q2, 0)}, rng)
        # embeddings and pullbacks
        g, d = cplx(rng, *B, n), rng.integers(0, n, B)
        met = cplx(rng, *B, n, n)
        if n > 1:
            check(m, 'geometry', lambda g, d: cyjax.jacobian_embed(g, d), {'g': (g, 1), 'd': (d, 0)}, rng)
            check(m, 'geometry', lambda a, g, d: cyjax.induced_metric(a, g, d),
                  {'a': (met, 2), 'g': (g, 1), 'd': (d, 0)}, rng)
            check(m, 'geometry', lambda a, g, d, gc: cyjax.induced_metric(a, g, d, gc),
                  {'a': (met, 2), 'g': (g, 1), 'd': (d, 0), 'gc': (cplx(rng, *B, n), 1)}, rng)


def variety(m, name):
    import cyjax
    import jax
    for rng in m.cases(name, 2, 20):
        v = geo.any_variety(rng, n=int(rng.integers(3, 5)))
        n = v.n
        par = geo.random_params(rng, v, B)
        m.note(f'{v.text}')
        var = v.build()
        hom = cplx(rng, *B, n)
        p = rng.integers(0, n, B)
        d = rng.integers(0, n - 1, B)
        z = cplx(rng, *B, n - 1)
        a = {'z': (z, 1), 'par': (par, 1), 'p': (p, 0)}
        check(m, 'polynomial', lambda z, par: var.defining(z, par), {'z': (hom, 1), 'par': (par, 1)}, rng)
        check(m, 'polynomial', lambda z, par, p: var.defining(z, par, p), a, rng)
        check(m, 'variety', lambda z, par: var.grad_defining(z, par), {'z': (hom, 1), 'par': (par, 1)}, rng)
        check(m, 'variety', lambda z, par, p: var.grad_defining(z, par, p), a, rng)
        check(m, 'variety', lambda z, par, p: var.best_dependent(z, par, p), a, rng)
        check(m, 'variety', lambda z, par, p: var.jacobian_embed(z, par, p), a, rng)
        check(m, 'variety', lambda z, par, p, d: var.jacobian_embed(z, par, p, d), {**a, 'd': (d, 0)}, rng)
        check(m, 'variety', lambda z, par, p: var.induced_fs(z, par, p), a, rng)
        check(m, 'variety', lambda z, par, p, d: var.induced_fs(z, par, p, dependent=d), {**a, 'd': (d, 0)}, rng)
        check(m, 'variety', lambda z, par, p, d: var.sample_intersect_weights(z, par, p, d), {**a, 'd': (d, 0)}, rng,
              tol=1e-6)
        check(m, 'variety', lambda z, par, p: var.sample_intersect_weights(z, par, p, vol=2., separate=True), a, rng, tol=1e-6)
        x = cplx(rng, *B, n - 2)
        # the polynomial is split symbolically, so indices are common; equal
        # roots may be listed in another order
        q, e = int(p.flat[0]), int(d.flat[0])
        got = np.asarray(var.solve_defining(x, par, e, q))
        for i in np.ndindex(B):
            one = np.asarray(var.solve_defining(x[i], par[i], e, q))
            order = [int(np.argmin(np.abs(one[:, e] - y))) for y in got[i][:, e]]
            m.equal('variety', sorted(order), list(range(len(one))))
            m.close('variety', got[i], one[order], 1e-7)
        # vmap over keys and parameters from outside
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), B[1])
        f = lambda k, q: var.sample_intersect(k, q, 5)
        got = np.asarray(jax.vmap(f)(keys, par[0]))
        want = np.array([np.asarray(f(k, q)) for k, q in zip(keys, par[0])])
        m.close('vmap', geo.to_affine(got, geo.best_patch(want)), geo.to_affine(want, geo.best_patch(want)), 1e-6, 1.)


def metric(m, name, half):
    import jax
    for rng in m.cases(name, 1, 12):
        s = geo.setting(rng, max_size=10, n=int(rng.integers(3, 5)))
        v, met = s['v'], s['metric']
        m.note(s['text'])
        n = v.n
        par = geo.random_params(rng, v, B)
        hom, z = cplx(rng, *B, n), cplx(rng, *B, n - 1)
        p, d = rng.integers(0, n, B), rng.integers(0, n - 1, B)
        nb = len(s['h'])
        h = np.array([geo.random_h(rng, nb, .5) for _ in range(6)]).reshape(*B, nb, nb)
        a = {'h': (h, 2), 'z': (z, 1), 'par': (par, 1), 'p': (p, 0)}
        lay = m.pick(2, 4)
        tol = 1e-7
        if half:
            check(m, 'metric', lambda h, z, par, p: met.ricci(h, z, par, p), a, rng, lay, 1e-6)
            check(m, 'metric', lambda h, z, par, p: met.ricci_scalar(h, z, par, p), a, rng, lay, 1e-6)
            # gradient handed in
            a.update(d=(d, 0), g=(np.asarray(s['variety'].grad_defining(z, par, p)), 1))
            check(m, 'metric', lambda h, z, par, p, d, g: met.ricci(h, z, par, p, d, g), a, rng, 1, 1e-6)
            check(m, 'metric', lambda h, z, par, p, d, g: met.ricci_scalar(h, z, par, p, d, g), a, rng, 1, 1e-6)
            continue
        check(m, 'sections', lambda z, p: s['sections'](z, p), {'z': (z, 1), 'p': (p, 0)}, rng)
        check(m, 'sections', lambda z: s['sections'](z, None), {'z': (hom, 1)}, rng, 3)
        check(m, 'metric', lambda h, z, par, p: met.kahler_potential(h, z, par, p), a, rng, lay, tol)
        check(m, 'metric', lambda h, z, par, p, d: met.metric(h, z, par, p, d), {**a, 'd': (d, 0)}, rng, lay + 1, tol)
        check(m, 'metric', lambda h, z, par, p: met.eta(h, z, par, p), a, rng, lay + 1, tol)
        check(m, 'metric', lambda h, z, par: met.eta(h, z, par), {'h': (h, 2), 'z': (hom, 1), 'par': (par, 1)},
              rng, lay, tol)
        g = cplx(rng, *B, n - 1)
        a = {**a, 'd': (d, 0), 'g': (g, 1)}
        check(m, 'metric', lambda h, z, par, p, d, g: met.eta(h, z, par, p, d, g), a, rng, lay, tol)
        check(m, 'metric', lambda h, z, par, p, d, g: met.metric(h, z, par, p, d, g), a, rng, 2, tol)
        check(m, 'metric', lambda h, z, par, p, d, g: met.kahler_potential(h, z, par, p, d, g), a, rng, 2, tol)
        # gradient by H from outside, through the batch and one by one
        jg = jax.jit(jax.grad(lambda x: met.eta(x, z[0], par[0], p[0]).real.sum()))
        one = jax.jit(jax.grad(lambda x, z, par, p: met.eta(x, z, par, p).real))
        want = sum(np.asarray(one(h[0, 0], z[0, i], par[0, i], p[0, i])) for i in range(3))
        m.close('gradient', np.asarray(jg(h[0, 0])), want, 1e-7)


def sigma(m):
    import jax
    from cyjax import donaldson, ml
    for rng in m.cases('sigma', 2, 12):
        v = geo.dwork(3) if rng.integers(2) else geo.random_variety(rng, 3, 3)
        var = v.build()
        met = donaldson.AlgebraicMetric(var, donaldson.MonomialBasisFull(2, 1))
        h = np.array([geo.random_h(rng, 3, .5) for _ in range(6)]).reshape(*B, 3, 3)
        par = geo.random_params(rng, v, B)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        check(m, 'sigma', lambda par, h: met.sigma_accuracy(key, par, h, 11), {'par': (par, 1), 'h': (h, 2)}, rng,
              m.pick(3, 5), 1e-6)
        x = rng.normal(size=(*B, 9))
        f = lambda x: ml.cholesky_from_param(x)
        for g, w in zip(np.asarray(jax.vmap(f)(x[0])), x[0]):
            m.close('network', g, np.asarray(f(w)), 1e-10)
        net = ml.HNetMLP(3, (5,))
        mod = cplx(rng, 4, 2)
        pr = net.init({'params': jax.random.PRNGKey(1), 'dropout': jax.random.PRNGKey(2)}, mod)
        out = np.asarray(net.apply(pr, mod))
        for i in range(4):
            m.close('network', np.asarray(net.apply(pr, mod[i:i + 1]))[0], out[i], 1e-9, 1.)
        m.close('compiled', np.asarray(jax.jit(net.apply)(pr, mod)), out, 1e-9, 1.)


WORKLOADS = {'projective': projective, 'variety1': lambda m: variety(m, 'variety1'),
             'variety2': lambda m: variety(m, 'variety2'), 'metric1': lambda m: metric(m, 'metric1', False),
             'metric2': lambda m: metric(m, 'metric2', False), 'curvature1': lambda m: metric(m, 'curvature1', True),
             'curvature2': lambda m: metric(m, 'curvature2', True), 'sigma': sigma}
