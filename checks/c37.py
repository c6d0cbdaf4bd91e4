"""Forward, reverse and nested derivatives of all smooth functions against extrapolated finite differences."""
import numpy as np

from checks import c31
from cyverif import geometry as geo

TECHNIQUE = 'derivatives taken by JAX are compared with finite differences of observed values along random directions'

# functions of the table of C31 and the inputs with respect to which they are smooth
INPUTS = {
    'poly.call': 'x y cd', 'poly.transform': 'x y cd', 'hom.call': 'hom par', 'hom.patch': 'z par',
    'hom.transform': 'hom par', 'chart': 'z', 'affine': 'hom', 'homog': 'z', 'monomials': 'x y', 'fs': 'z hom',
    'hessian': 'z', 'pop': 'arr', 'insert': 'arr vec', 'shuffle': 'arr', 'prod': 'arr', 'flatten': 'z',
    'defining': 'z par', 'grad': 'z par', 'jacobian': 'z par', 'induced': 'z par', 'weights': 'z par',
    'sections': 'z', 'kahler': 'h z par', 'metric': 'h z par', 'eta': 'h z par', 'ricci': 'h z par', 'sigma': 'h',
    'donaldson': 'h', 'cholesky': 'hpar', 'network': 'mod', 'geometry': 'h z par'}
NESTED = ['poly.call', 'hom.patch', 'chart', 'fs', 'grad', 'weights', 'sections', 'kahler', 'metric', 'eta', 'cholesky',
          'network']
REQUIRED = ['forward', 'reverse', 'nested', 'compiled', 'batched', 'finite', 'zeros', 'single-input', 'weights',
            'setting', 'moduli', 'cholesky', 'sampled']


def floats(x):
    import jax
    import jax.numpy as jnp
    return [v for v in jax.tree_util.tree_leaves(x) if jnp.issubdtype(jnp.asarray(v).dtype, jnp.inexact)]


def direction(rng, a, names):
    """Random tangents of the named inputs, of their size."""
    out = {}
    for k in names:
        v = np.asarray(a[k])
        d = rng.normal(size=v.shape) + (1j * rng.normal(size=v.shape) if v.dtype.kind == 'c' else 0)
        if k == 'h':
            d = (d + d.conj().T) / 2
        out[k] = d * .3
    return out


def numeric(f, a, d):
    """Derivative of the float results of f along d and its error estimate."""
    def at(t):
        return [np.asarray(v) for v in f({k: a[k] + t * d[k] for k in d})]

    def central(h):
        return [(x - y) / 2 / h for x, y in zip(at(h), at(-h))]
    est = []
    for h in (3e-3, 1e-3, 3e-4):
        c, c2 = central(h), central(h / 2)
        est.append([(4 * y - x) / 3 for x, y in zip(c, c2)])
    value, error = [], []
    for cand in zip(*est):
        diff = [np.abs(x - y).max() if x.size else 0. for x, y in zip(cand, cand[1:])]
        k = int(np.argmin(diff))
        value.append(cand[k + 1])
        error.append(diff[k])
    return value, error


def judge(m, name, got, want, error, values, key):
    m.equal(name, len(got), len(want))
    for i, (g, x, e, v) in enumerate(zip(got, want, error, values)):
        g = np.asarray(g)
        scale = max(np.abs(x).max() if x.size else 0., 1e-3 * np.abs(v).max() if v.size else 0., 1e-8)
        m.ok('finite', np.isfinite(g).all(), f'derivative {g}', key=x)
        if e < 1e-3 * scale:  # else no verdict
            m.close(name, g, x, 1e-6, max(scale, 3e7 * e), key=x)


def derivative(m, rng, name, f, a, d, modes=('forward', 'reverse')):
    """f: dictionary of the inputs d -> list of float results."""
    import jax
    import jax.numpy as jnp
    x0 = {k: jnp.asarray(a[k]) for k in d}
    tan = {k: jnp.asarray(v, x0[k].dtype) for k, v in d.items()}
    values, got = jax.jvp(f, (x0,), (tan,))
    values = [np.asarray(v) for v in values]
    want, error = numeric(f, a, d)
    for mode in modes:
        if mode != 'reverse':
            judge(m, mode, got, want, error, values, name)
    if 'reverse' in modes:
        out, pull = jax.vjp(f, x0)
        ct = [jnp.asarray(rng.normal(size=v.shape) + (1j * rng.normal(size=v.shape) if v.dtype.kind == 'c' else 0),
                          v.dtype) for v in values]
        back = pull(ct)[0]
        for k in d:
            m.ok('finite', np.isfinite(np.asarray(back[k])).all(), f'reverse derivative by {k}: {back[k]}',
                 key=np.asarray(back[k]))
        left = sum(complex(np.sum(np.asarray(c) * np.asarray(g))).real for c, g in zip(ct, got))
        right = sum(complex(np.sum(np.asarray(back[k]) * d[k])).real for k in d)
        size = sum(float(np.sum(np.abs(np.asarray(c) * np.asarray(g)))) for c, g in zip(ct, got)) \
            + sum(float(np.sum(np.abs(np.asarray(back[k]) * d[k]))) for k in d)
        m.close('reverse', right, left, 1e-7, size + 1e-12, key=left)
    return got, want


def table(m, name, part, parts):
    import jax
    import jax.numpy as jnp
    fns = c31.table()
    for rng in m.cases(name, 1, 6):
        w = c31.World(int(rng.integers(4)), int(rng.integers(10 ** 6)))
        for fn in sorted(INPUTS)[part::parts]:
            names = INPUTS[fn].split()
            a = dict(w.a)
            m.note(f'{fn} by {names}')

            def f(x, fn=fn):
                return floats(fns[fn][1](w, {**{k: jnp.asarray(v) for k, v in a.items()}, **x}))
            d = direction(rng, a, names)
            derivative(m, rng, fn, f, a, d)
            if len(names) > 1:
                k = names[rng.integers(len(names))]
                m.note(f'{fn} by {k}')
                derivative(m, rng, fn, f, a, direction(rng, a, [k]), ('single-input',))
            x0 = {k: jnp.asarray(a[k]) for k in d}
            tan = {k: jnp.asarray(v, x0[k].dtype) for k, v in d.items()}

            def push(x):
                return jax.jvp(f, (x,), (tan,))[1]
            m.note(f'{fn} by {names}, compiled')
            for x, y in zip(jax.jit(push)(x0), push(x0)):
                y = np.asarray(y)
                m.close('compiled', np.asarray(x), y, 1e-8, max(1e-8, np.abs(y).max() if y.size else 0))
            if fn in NESTED:
                m.note(f'{fn} by {names}, twice')
                derivative(m, rng, fn + '2', push, a, direction(rng, a, names), ('nested',))


def zeros(m, name):
    """Points with vanishing coordinates."""
    import jax.numpy as jnp
    from cyjax import change_chart
    fns = c31.table()
    for rng in m.cases(name, 1, 6):
        w = c31.World(int(rng.integers(4)), int(rng.integers(10 ** 6)))
        a = dict(w.a)
        a['z'], a['hom'], a['x'] = a['z'].copy(), a['hom'].copy(), a['x'].copy()
        a['z'][:, rng.integers(w.n - 1)] = 0
        a['hom'][:, rng.integers(w.n)] = 0
        a['x'][rng.integers(2)] = 0
        if rng.integers(2):
            a['par'] = a['par'] * 0
        for fn in ('poly.call', 'hom.call', 'hom.patch', 'hom.transform', 'chart', 'affine', 'fs', 'defining', 'grad',
                   'sections', 'kahler', 'metric', 'eta', 'weights', 'induced', 'jacobian', 'ricci', 'homog'):
            if fn == 'chart' and np.any((a['patch'] > 0) & (a['z'][:, 0] == 0)):
                continue  # no such chart
            names = [k for k in INPUTS[fn].split()]
            m.note(f'{fn} by {names} at zeros')

            def f(x, fn=fn):
                return floats(fns[fn][1](w, {**{k: jnp.asarray(v) for k, v in a.items()}, **x}))
            derivative(m, rng, fn, f, a, direction(rng, a, names), ('zeros', 'reverse'))
        for patch in range(w.n):
            # the transition from a patch to itself, and to those where the point lies
            z = np.array(a['z'][0])
            for other in range(w.n):
                k = other - (other > patch)
                if other != patch and z[k] == 0:
                    continue
                m.note(f'chart {patch} to {other} of {z}')

                def f(x, patch=patch, other=other):
                    return [change_chart(x['z'], patch, other)]
                derivative(m, rng, 'chart', f, {'z': z}, direction(rng, {'z': z}, ['z']), ('zeros', 'reverse'))


def settings(m, name):
    """Random varieties, bases and batches."""
    import jax
    import jax.numpy as jnp
    for rng in m.cases(name, 2, 12):
        s = geo.setting(rng, max_size=10)
        v, par, met, h = (s[i] for i in ('v', 'par', 'metric', 'h'))
        m.note(s['text'])
        pts = v.points(rng, par, 2, gap=.4)
        if not pts:
            continue
        z, patch, dep = pts[0]
        a = dict(z=np.asarray(z), par=np.asarray(par) + 0j, h=np.asarray(h) + 0j)
        names = ['z', 'h'] + (['par'] if len(par) else [])
        var = s['variety']
        fns = {
            'metric': lambda x: met.metric(x['h'], x['z'], x.get('par', a['par']), patch, dep),
            'eta': lambda x: met.eta(x['h'], x['z'], x.get('par', a['par']), patch, dep),
            'kahler': lambda x: met.kahler_potential(x['h'], x['z'], x.get('par', a['par']), patch),
            'ricci': lambda x: met.ricci_scalar(x['h'], x['z'], x.get('par', a['par']), patch, dep),
            'weights': lambda x: var.sample_intersect_weights(x['z'], x.get('par', a['par']), patch),
            'gradient': lambda x: var.grad_defining(x['z'], x.get('par', a['par']), patch),
            'induced': lambda x: var.induced_fs(x['z'], x.get('par', a['par']), patch, dependent=dep)}
        for fn, f in fns.items():
            if fn == 'weights' and len(pts) and np.sort(np.abs(v.grad_affine(z, par, patch)))[-1] < 1e-6:
                continue
            m.note(f'{fn}, {s["text"]}')

            def g(x, f=f):
                return floats(f(x))
            use = names if fn in ('metric', 'eta', 'kahler', 'ricci') else [k for k in names if k != 'h']
            d = direction(rng, a, use)
            derivative(m, rng, fn, g, a, d, ('setting', 'reverse'))
            if fn in ('metric', 'eta', 'weights'):
                # a batch of points has the derivatives of its points
                zs = np.stack([z, z * (1 + .01j), z * .98])

                def one(y):
                    return g({**{k: jnp.asarray(a[k]) for k in use}, 'z': y})

                def push(y, t):
                    return jax.jvp(one, (y,), (t,))[1]
                t = rng.normal(size=zs.shape) + 0j
                many = push(jnp.asarray(zs), jnp.asarray(t))
                for i in range(3):
                    for p, q in zip(many, push(jnp.asarray(zs[i]), jnp.asarray(t[i]))):
                        m.close('batched', np.asarray(p)[i], np.asarray(q), 1e-8, max(np.abs(q).max(), 1e-8))


def learning(m):
    """Gradients by network weights and by Cholesky parameters."""
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    for i, rng in enumerate(m.cases('learning', 3, 12)):
        w = c31.World(int(rng.integers(4)), int(rng.integers(10 ** 6)))
        m.note(f'{w.expr}')
        leaves, tree = jax.tree_util.tree_flatten(w.net_par)
        size = [.3, 1.5, 6.][i % 3]
        leaves = [np.asarray(rng.normal(size=x.shape) * size, np.float64) for x in leaves]
        a = {f'w{i}': x for i, x in enumerate(leaves)}
        mod = jnp.asarray(w.a['mod'])

        def net(x):
            out = w.net.apply(jax.tree_util.tree_unflatten(tree, [x[f'w{i}'] for i in range(len(leaves))]), mod,
                              deterministic=True)
            return [out]
        derivative(m, rng, 'network', net, a, direction(rng, a, list(a)), ('weights', 'reverse'))
        # weights of a new network give no dependence on moduli
        flags = [bool(x) for x in rng.permutation([True, rng.integers(2), rng.integers(2)])]
        model = ml.HNetMLP(3, (4, 3), powers=[1, int(rng.integers(2, 4))], sig_suppress=bool(rng.integers(2)),
                           feature_angle=flags[0], feature_abs=flags[1], feature_parts=flags[2])
        mod2 = np.asarray((rng.normal(size=(3, 2)) + 1j * rng.normal(size=(3, 2))) * .7)
        par = jax.tree_util.tree_map(lambda x: jnp.asarray(rng.normal(size=x.shape)),
                                     model.init(jax.random.PRNGKey(0), jnp.asarray(mod2), deterministic=True))
        derivative(m, rng, 'network by moduli', lambda x: [model.apply(par, x['mod'], deterministic=True)],
                   {'mod': mod2}, direction(rng, {'mod': mod2}, ['mod']), ('moduli', 'reverse'))
        # parameters of any size, also vanishing ones
        p = rng.normal(size=25) * 10. ** rng.integers(-4, 3, 25) * rng.integers(0, 2, 25)
        derivative(m, rng, 'cholesky', lambda x: [ml.cholesky_from_param(x['p'])], {'p': p},
                   direction(rng, {'p': p}, ['p']), ('cholesky', 'reverse'))

        def etas(x):
            h = ml.cholesky_from_param(x['p'])
            return [w.metric.eta(h, jnp.asarray(w.a['z']), jnp.asarray(w.a['par']), jnp.asarray(w.a['patch']))]
        n = w.full.size
        p = np.concatenate([rng.uniform(.5, 1.5, n), rng.normal(size=n * n - n) * .1])
        derivative(m, rng, 'eta by parameters', etas, {'p': p}, direction(rng, {'p': p}, ['p']), ('weights', 'reverse'))


def sampled(m, name):
    """Sampled points and accuracies for one key as functions of the moduli."""
    import jax
    from cyjax import donaldson
    for rng in m.cases(name, 1, 5):
        n = int(rng.integers(3, 5))
        v = geo.dwork(n) if rng.integers(2) else geo.any_variety(rng, n=n)
        while not len(v.params):
            v = geo.any_variety(rng, n=n)
        par = np.asarray(geo.random_params(rng, v)) + 0j
        var = v.build()
        sec = donaldson.MonomialBasisFull(n - 1, int(rng.integers(1, 3)))
        met = donaldson.AlgebraicMetric(var, sec)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        a = dict(par=par, h=np.asarray(geo.random_h(rng, sec.size, .4)),
                 z=rng.normal(size=n - 2) + 1j * rng.normal(size=n - 2))
        patch, dep = int(rng.integers(n)), int(rng.integers(n - 1))
        fns = {
            'solutions': lambda x: var.solve_defining(x['z'], x['par'], dep, patch),
            'points': lambda x: var.sample_intersect(key, x['par'], 7, affine=True, weights=True),
            'sigma': lambda x: met.sigma_accuracy(key, x['par'], x['h'], 9)}
        for fn, f in fns.items():
            m.note(f'{fn} of {v.text} at {par}')
            names = {'sigma': ['par', 'h'], 'points': ['par'], 'solutions': ['z', 'par']}[fn]

            def g(x, f=f):
                return floats(f(x))
            d = {k: x * .1 for k, x in direction(rng, a, names).items()}
            derivative(m, rng, fn, g, a, d, ('sampled', 'reverse'))


WORKLOADS = {f'zeros{i}': (lambda m, i=i: zeros(m, f'zeros{i}')) for i in range(2)}
WORKLOADS.update({f'setting{i}': (lambda m, i=i: settings(m, f'setting{i}')) for i in range(3)})
WORKLOADS.update({f'table{i}': (lambda m, i=i: table(m, f'table{i}', i, 8)) for i in range(8)})
WORKLOADS.update(learning=learning)
WORKLOADS.update({f'sampled{i}': (lambda m, i=i: sampled(m, f'sampled{i}')) for i in range(3)})
