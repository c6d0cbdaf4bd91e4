"""Random networks and moduli; invariances, linear regression on the documented features and batch checks decide."""
import itertools

import numpy as np

REQUIRED = ['shape', 'init', 'init.fluctuation', 'batch', 'batch.independent', 'scalar', 'features.span',
            'dropout.single', 'dropout.layer', 'features.rank', 'features.abs', 'features.angle',
            'features.angle.used', 'powers.symmetry',
            'depends', 'dropout.off', 'dropout.on', 'dropout.key', 'gradient', 'rank', 'jit',
            'deterministic', 'zero-moduli', 'activation', 'suppressed']


def rand_tree(rng, tree, scale=.5):
    import jax
    leaves, d = jax.tree_util.tree_flatten(tree)
    return jax.tree_util.tree_unflatten(
        d, [jax.numpy.asarray(rng.normal(size=x.shape) * scale, x.dtype) for x in leaves])


def moduli(rng, shape):
    """Nonzero, away from the branch cut of the angle."""
    return rng.uniform(.3, 1.6, size=shape) * np.exp(1j * rng.uniform(-3, 3, size=shape))


def config(rng, npar, **kw):
    from cyjax import ml
    powers = [(1, 2, 3), (1,), (2,), (1, 3), (3, 1), (2, 4), (1, 2.5), (0, 1, 2), (-1, 1), (.25, 1.33), (-2, 1, 2)
              ][rng.integers(6 if 'p' in kw else 11)]
    kw.pop('p', None)
    if npar > 2:
        powers = (1, 2)
    cfg = dict(basis_size=int(rng.integers(1, 6)),
               layer_sizes=[(), (6,), (5, 7), (8, 4, 6), (5, 6, 4, 7, 3)][rng.integers(5)],
               powers=powers, sig_suppress=bool(rng.integers(2)),
               feature_angle=bool(rng.integers(2)), feature_abs=bool(rng.integers(2)),
               feature_parts=bool(rng.integers(2)))
    if not (cfg['feature_angle'] or cfg['feature_abs'] or cfg['feature_parts']):
        cfg['feature_parts'] = True
    cfg.update(kw)
    return ml.HNetMLP(**cfg), cfg


def products(psi, powers):
    """All products of powers (zero included for several moduli) but the constant one."""
    pw = sorted({0, *powers})
    out = []
    for ex in itertools.product(pw, repeat=psi.shape[-1]):
        if any(ex):
            out.append(np.prod(psi ** np.array(ex), axis=-1))
    return np.stack(out, -1)


def differs(rng, net, par, x, y):
    """Whether the outputs at x and y differ for some of several weights."""
    import jax.numpy as jnp
    for _ in range(20):
        a, b = (np.asarray(net.apply(par, jnp.array(t), deterministic=True)) for t in (x, y))
        if np.abs(a - b).max() > 1e-4:
            return True
        par = rand_tree(rng, par, 1.)
    return False


def general(m, name):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    for rng in m.cases(name, 4, 30):
        npar = int(rng.integers(1, 4))
        fl = float(rng.choice([0, 1e-3, 1e-2]))
        net, cfg = config(rng, npar, init_fluctuation=fl)
        m.note(f'{npar} moduli {cfg}')
        n = cfg['basis_size']
        x = moduli(rng, (7, npar))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        par = net.init(key, jnp.array(x[:1]), deterministic=True)
        # fresh network
        out = np.asarray(net.apply(par, jnp.array(x), deterministic=True))
        m.equal('shape', out.shape, (7, n * n))
        hs = np.stack([np.asarray(ml.cholesky_from_param(jnp.array(o))) for o in out])
        c = np.trace(hs[0]).real / n
        m.ok('init', c > 0, 'initial H not positive', key=hs)
        m.below('init', np.abs(hs / c - np.eye(n)).max(), max(14 * fl * 2, 1e-6))
        par1 = net.init(key, jnp.array(x[0]), deterministic=True)
        m.ok('deterministic', all(np.array_equal(a, b) for a, b in zip(
            jax.tree_util.tree_leaves(par), jax.tree_util.tree_leaves(par1))), 'init differs', key=key)
        # arbitrary weights
        par = rand_tree(rng, par)
        call = lambda y, **k: np.asarray(net.apply(par, jnp.array(y), deterministic=True, **k))
        out = call(x)
        sc = 1 + np.abs(out).max()
        m.equal('shape', out.shape, (7, n * n))
        for i in range(3):
            m.close('batch', call(x[i]), out[i], 1e-5, scale=sc)
            m.close('batch', call(x[i:i + 1]), out[i:i + 1], 1e-5, scale=sc)
        perm = rng.permutation(7)
        m.close('batch', call(x[perm]), out[perm], 1e-5, scale=sc)
        y = x.copy()
        y[3:] = moduli(rng, (4, npar)) * 3
        m.close('batch.independent', call(y)[:3], out[:3], 1e-5, scale=sc)
        m.close('jit', np.asarray(jax.jit(lambda y: net.apply(par, y, deterministic=True))(jnp.array(x))), out, 1e-5,
                scale=sc)
        if npar == 1:
            m.close('scalar', call(x[0, 0]), out[0], 1e-5, scale=sc)
        with m.raises('rank', Exception):
            call(x[None])
        # the output depends on every modulus
        for i in range(npar):
            y = x.copy()
            y[:, i] = moduli(rng, 7)
            m.ok('depends', differs(rng, net, par, x, y), f'no dependence on modulus {i}', key=(i, out))
        # gradients with respect to weights and moduli
        g = jax.grad(lambda p, y: jnp.sum(net.apply(p, y, deterministic=True) ** 2))(par, jnp.array(x))
        m.ok('gradient', all(np.isfinite(np.asarray(a)).all() for a in jax.tree_util.tree_leaves(g)), 'not finite',
             key=out)
        d = rng.normal(size=x.shape) + 1j * rng.normal(size=x.shape)
        _, tan = jax.jvp(lambda y: net.apply(par, y, deterministic=True), (jnp.array(x),), (jnp.array(d),))
        m.ok('gradient', np.isfinite(np.asarray(tan)).all(), 'not finite', key=tan)
        z = x.copy()
        z[0] = 0
        if min(cfg['powers']) >= 0:
            m.ok('zero-moduli', np.isfinite(call(z)).all(), 'not finite at zero moduli', key=out)


def features(m, name):
    """Networks without hidden layers are linear in the features."""
    import jax
    import jax.numpy as jnp
    for rng in m.cases(name, 5, 40):
        npar = int(rng.integers(1, 3))
        which = rng.integers(1, 4)
        net, cfg = config(rng, npar, layer_sizes=(), sig_suppress=False, feature_angle=False,
                          feature_abs=bool(which & 1), feature_parts=bool(which & 2))
        m.note(f'{npar} moduli {cfg}')
        x = moduli(rng, (150, npar))
        f = products(x, cfg['powers'])
        want = np.concatenate(([np.abs(f)] if which & 1 else []) + ([f.real, f.imag] if which & 2 else []), axis=1)
        rank = np.linalg.matrix_rank(want - want.mean(0), tol=1e-8)
        net = net.clone(basis_size=int(np.ceil(np.sqrt(want.shape[1]))) + 1)
        par = net.init(jax.random.PRNGKey(0), jnp.array(x[:1]), deterministic=True)
        par = rand_tree(rng, par, 1.)
        out = np.asarray(net.apply(par, jnp.array(x), deterministic=True))
        a = np.concatenate([np.ones((len(x), 1)), want], axis=1)
        res = out - a @ np.linalg.lstsq(a, out, rcond=None)[0]
        m.below('features.span', np.abs(res).max() / np.abs(out).max(), 1e-4)
        got = np.linalg.svd(out - out.mean(0))[1]
        m.ok('features.rank', got[min(rank, len(got)) - 1] > 1e-6 * got[0], f'fewer than {rank} features used',
             key=got)
        # conversely each expected feature is recovered from the output
        b = np.concatenate([np.ones((len(x), 1)), out], axis=1)
        res = want - b @ np.linalg.lstsq(b, want, rcond=1e-10)[0]
        m.below('features.rank', np.abs(res).max() / np.abs(want).max(), 1e-2)


def invariance(m, name):
    import jax
    import jax.numpy as jnp
    for rng in m.cases(name, 5, 40):
        npar = int(rng.integers(1, 3))
        x = moduli(rng, (5, npar))

        def make(**kw):
            net, cfg = config(rng, npar, p=1, **kw)
            par = rand_tree(rng, net.init(jax.random.PRNGKey(0), jnp.array(x[:1]), deterministic=True))
            return (cfg, lambda y: np.asarray(net.apply(par, jnp.array(y), deterministic=True)),
                    lambda y: differs(rng, net, par, x, y))
        cfg, call, moved = make(feature_abs=True, feature_angle=False, feature_parts=False)
        m.note(f'{npar} moduli {cfg}')
        out = call(x)
        sc = 1 + np.abs(out).max()
        m.close('features.abs', call(x * np.exp(1j * rng.uniform(0, 6, size=x.shape))), out, 1e-5, scale=sc)
        m.ok('features.abs', moved(x * 1.3), 'modulus not used', key=out)
        cfg, call, moved = make(feature_abs=False, feature_angle=True, feature_parts=False)
        out = call(x)
        sc = 1 + np.abs(out).max()
        m.close('features.angle', call(x * rng.uniform(.5, 2, size=x.shape)), out, 1e-5, scale=sc)
        for i in range(npar):
            y = x.copy()
            y[:, i] = np.abs(y[:, i]) * np.exp(.5j * np.angle(y[:, i]))
            m.ok('features.angle.used', moved(y), f'angle {i} not used', key=(i, out))
        # only the configured powers enter
        p = int(rng.integers(2, 5))
        cfg, call, moved = make(feature_abs=True, feature_angle=False, feature_parts=True, powers=(p, 2 * p))
        out = call(x)
        sc = 1 + np.abs(out).max()
        y = x * np.exp(2j * np.pi * rng.integers(p, size=x.shape) / p)
        m.close('powers.symmetry', call(y), out, 1e-4, scale=sc)
        m.ok('powers.symmetry', moved(x * np.exp(1j * np.pi / p / 2)), 'phase not used', key=out)


def dropout(m):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    for rng in m.cases('dropout', 5, 30):
        npar = int(rng.integers(1, 3))
        x = jnp.array(moduli(rng, (4, npar)))
        rates = [[.5, None], [None, .5], [.3, .6], [.02, None], [None, .05]][rng.integers(5)]
        net = ml.HNetMLP(4, (300, 200), dropout_rates=rates, sig_suppress=bool(rng.integers(2)))
        plain = ml.HNetMLP(4, (300, 200), dropout_rates=None, sig_suppress=net.sig_suppress)
        m.note(f'{npar} moduli, rates {rates}')
        par = rand_tree(rng, net.init(jax.random.PRNGKey(0), x, deterministic=True))
        k1, k2 = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))))
        det = np.asarray(net.apply(par, x, deterministic=True))
        m.close('dropout.off', np.asarray(plain.apply(par, x)), det, 1e-5)
        m.close('dropout.off', np.asarray(net.apply(par, x, deterministic=True, rngs={'dropout': k1})), det, 1e-6)
        m.close('dropout.off', np.asarray(plain.apply(par, x, rngs={'dropout': k1})), det, 1e-5)
        a = np.asarray(net.apply(par, x, rngs={'dropout': k1}))
        b = np.asarray(net.apply(par, x, rngs={'dropout': k1}))
        c = np.asarray(net.apply(par, x, rngs={'dropout': k2}))
        m.ok('dropout.on', np.abs(a - det).max() > 1e-3, 'dropout has no effect', key=a)
        m.ok('dropout.key', np.array_equal(a, b) and np.abs(a - c).max() > 1e-3, 'not a function of the key', key=c)
        # also for a single value, and in the configured layer
        for y in (x[0], x[:1]) + ((x[0, 0],) if npar == 1 else ()):
            m.ok('dropout.single', np.abs(np.asarray(net.apply(par, y, rngs={'dropout': k1}))
                                          - np.asarray(net.apply(par, y, deterministic=True))).max() > 1e-3,
                 'dropout has no effect', key=y)
        for i in range(3):
            seen = []
            one = ml.HNetMLP(2, (5, 6, 7), dropout_rates=[.97 if j == i else None for j in range(3)],
                             activation=lambda y: (seen.append(np.asarray(y)), jnp.tanh(y))[1])
            p3 = rand_tree(rng, one.init(jax.random.PRNGKey(0), x, deterministic=True))
            seen.clear()
            one.apply(p3, x, deterministic=True)
            one.apply(p3, x, rngs={'dropout': k2})
            first = [j for j in range(3) if not np.allclose(seen[j], seen[3 + j], atol=1e-5)]
            m.equal('dropout.layer', first, list(range(i + 1, 3)))
        # without hidden suppression the mean over keys of a linear network is the deterministic value
        rate = float(rng.choice([.03, .1, .5, .9]))
        lin = ml.HNetMLP(2, (400,), dropout_rates=[rate], sig_suppress=False, activation=lambda y: y)
        par = rand_tree(rng, lin.init(jax.random.PRNGKey(0), x, deterministic=True), .1)
        det = np.asarray(lin.apply(par, x, deterministic=True))
        many = np.stack([np.asarray(v) for v in jax.jit(jax.vmap(
            lambda k: lin.apply(par, x, rngs={'dropout': k})))(jax.random.split(k1, 400))])
        m.below('dropout.on', (np.abs(many.mean(0) - det) / (many.std(0) / 20 + 1e-6)).max(), 7)


def misc(m):
    """Activation and initial fluctuation."""
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    for rng in m.cases('misc', 4, 20):
        npar, n = int(rng.integers(1, 3)), int(rng.integers(2, 5))
        x = jnp.array(moduli(rng, (6, npar)))
        m.note(f'{npar} moduli, basis size {n}')
        # the activation is applied in every hidden layer
        for layers in ((3,), (3, 4), (2, 3, 4), (4, 3, 5, 2, 6)):
            seen = []
            net = ml.HNetMLP(n, layers, activation=lambda y: (seen.append(y.shape[-1]), jnp.tanh(y))[1])
            par = net.init(jax.random.PRNGKey(1), x, deterministic=True)
            seen.clear()
            net.apply(par, x, deterministic=True)
            m.equal('activation', tuple(seen), layers)
        # suppressed elements vanish, others keep the weight of the only feature
        net = ml.HNetMLP(n + 5, (), powers=(1,), feature_angle=False, feature_parts=False)
        par = rand_tree(rng, net.init(jax.random.PRNGKey(1), x[:, :1], deterministic=True), 2.)
        slope = np.asarray(net.apply(par, jnp.array([[1e5 + 0j]]), deterministic=True))[0] / 1e5
        weights = np.concatenate([np.ravel(a) for a in jax.tree_util.tree_leaves(par)] + [[0.]])
        m.below('suppressed', np.abs(slope[:, None] - weights).min(1).max(), 2e-3)
        m.ok('suppressed', np.any(np.abs(slope) > 1e-3), 'everything suppressed', key=slope)
        fl = 10 ** rng.uniform(-3, -1.5)
        diag = []
        for i in range(12):
            for sup in (True, False):
                net = ml.HNetMLP(8, (4,), sig_suppress=sup, init_fluctuation=fl)
                par = net.init(jax.random.PRNGKey(int(rng.integers(2 ** 31))), x, deterministic=True)
                h = np.asarray(ml.cholesky_from_param(net.apply(par, x[0], deterministic=True)))
                d = np.sqrt(np.diag(h).real)
                diag.append(d / d.mean() - 1)
        diag = np.array(diag) / fl
        m.ok('init.fluctuation', .3 < diag.std() < 2 and abs(diag.mean()) < .6, f'{diag.mean()} {diag.std()}',
             key=diag)


WORKLOADS = {'general1': lambda m: general(m, 'general1'), 'general2': lambda m: general(m, 'general2'),
             'features1': lambda m: features(m, 'features1'), 'invariance1': lambda m: invariance(m, 'invariance1'),
             'dropout': dropout, 'misc': misc}
