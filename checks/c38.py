"""Weight updates of recorded training runs against updates replayed from the delivered batches."""
import numpy as np

from checks import c32

TECHNIQUE = 'offline checking of recorded training runs by replaying every step'
REQUIRED = ['plain', 'scaled', 'schedule', 'momentum', 'adam', 'dropout', 'frozen', 'start', 'unaffected', 'loss']


def steps(model, out):
    """Weights before each step where they were saved, and the batch of the step."""
    rec = out['record']
    saved = {n: model.load(f['final.params']) for n, f in rec['files'] if 'final.params' in f}
    return saved, rec['batches']


def gradient(model):
    import jax
    import jax.numpy as jnp
    from cyjax import ml

    def loss(params, batch):
        h = jax.vmap(ml.cholesky_from_param)(model.net.apply(params, batch[0], deterministic=True))
        return jnp.mean(jax.vmap(lambda h, s: ml.variance_eta_loss(h, s, model.metric))(h, batch))
    return jax.jit(jax.value_and_grad(loss))


def flat(tree):
    import jax
    return np.concatenate([np.asarray(x, float).ravel() for x in jax.tree_util.tree_leaves(tree)])


def replay(model, out, m=None):
    """Observed change of the weights and gradient for all steps which can be replayed."""
    import jax.numpy as jnp
    saved, batches = steps(model, out)
    grad = gradient(model)
    rows = []
    for i in sorted(saved):
        if i + 1 in saved and i < len(batches):
            val, g = grad(saved[i], tuple(jnp.asarray(b) for b in batches[i]))
            if m is not None:
                m.close('loss', out['losses'][i], float(val), 2e-3)
            rows.append((i, flat(saved[i + 1]) - flat(saved[i]), flat(g), flat(saved[i])))
    return rows


def match(m, name, got, want, at, key, tol=2e-3):
    """Equal up to rounding of weights and of gradients."""
    scale = np.abs(want).max()
    err = np.abs(got - want) - 3e-7 * np.abs(at)
    m.below(name, err.max() / max(scale, 1e-12), tol, key=key)


def rate(i, **s):
    return s['init_value'] * s['decay_rate'] ** (i / s['transition_steps'])


def opts(kind, **s):
    base = {'training__opt___target_': f'optax.{kind}'}
    for k, v in s.items():
        base[f'training__opt__learning_rate__{k}'] = v
    return base


def sgd(m):
    """Plain gradient steps, with constant and with decaying learning rate."""
    for rng in m.cases('sgd', 1, 4):
        two = bool(rng.integers(2))
        base, model, bound = (c32.TWO, c32.Model(2), '[0.8,0.5]') if two else (c32.ONE, c32.Model(1), '[0.9]')
        const = dict(init_value=round(float(rng.uniform(.4, .8)), 4), decay_rate=1., transition_steps=1000, end_value=9.)
        fall = dict(init_value=round(float(rng.uniform(.03, .06)), 4), decay_rate=.5,
                    transition_steps=int(rng.integers(4, 8)), end_value=1e-9)
        runs = []
        for k, s in enumerate((const, fall)):
            cfg = c32.common(rng, 14, 1, sampling__param_bounds=bound, evaluation__run='false', **opts('sgd', **s))
            m.note(f'{cfg}')
            runs.append((c32.launch(f'sgd{m.case[1]}{k}', base, **cfg), s))
        for (run, s), name in zip(runs, ('plain', 'schedule')):
            out = c32.finish(m, run)
            rows = replay(model, out, m)
            m.ok(name, len(rows) > 8, f'{len(rows)} steps could be replayed')
            for i, change, g, at in rows:
                match(m, name, change, -rate(i, **s) * g, at, i)


def scaled(m):
    """Large and small losses, from defining equations multiplied by a constant."""
    for rng in m.cases('scaled', 1, 3):
        runs = []
        for k, c in enumerate((.05, 20.)):
            poly = f'{c}*z0**3 + {c}*z1**3 + {c}*z2**3 + {c}*alpha1*z0*z1*z2 + {c}*alpha2*z0*z1**2'
            base = ['--config-name=quintic', 'variety.poly_degree=3', f'variety.poly="{poly}"']
            s = dict(init_value=.3 * c ** 2, decay_rate=1., transition_steps=1000, end_value=9e9)
            cfg = c32.common(rng, 12, 1, sampling__param_bounds='[0.8,0.5]', evaluation__run='false', **opts('sgd', **s))
            m.note(f'{poly}: {cfg}')
            runs.append((c32.launch(f'scaled{m.case[1]}{k}', base, **cfg), s, c32.Model(2, poly=poly)))
        for run, s, model in runs:
            out = c32.finish(m, run)
            rows = replay(model, out, m)
            m.ok('scaled', len(rows) > 6, f'{len(rows)} steps could be replayed', key=np.array(out['losses']))
            for i, change, g, at in rows:
                match(m, 'scaled', change, -rate(i, **s) * g, at, i)


def momentum(m):
    """The state of the optimiser is carried along."""
    for rng in m.cases('momentum', 1, 3):
        s = dict(init_value=.02, decay_rate=1., transition_steps=1000, end_value=9.)
        model = c32.Model(1)
        cfg = c32.common(rng, 14, 1, sampling__param_bounds='[0.9]', evaluation__run='false', **opts('sgd', **s))
        cfg['+training__opt__momentum'] = .8
        m.note(f'{cfg}')
        out = c32.finish(m, c32.launch(f'mom{m.case[1]}', c32.ONE, **cfg))
        rows = replay(model, out, m)
        for (i, before, _, _), (j, change, g, at) in zip(rows, rows[1:]):
            if j == i + 1:
                match(m, 'momentum', change, -.02 * g + .8 * before, at, j)


def adam(m):
    """Adaptive steps with short memory, so that the unobserved first gradient is forgotten."""
    for rng in m.cases('adam', 1, 3):
        s = dict(init_value=.01, decay_rate=.7, transition_steps=15, end_value=1e-9)
        b1, b2 = .5, .6
        model = c32.Model(1)
        cfg = c32.common(rng, 30, 1, sampling__param_bounds='[0.9]', evaluation__run='false', **opts('adam', **s))
        cfg['+training__opt__b1'], cfg['+training__opt__b2'] = b1, b2
        m.note(f'{cfg}')
        out = c32.finish(m, c32.launch(f'adam{m.case[1]}', c32.ONE, **cfg))
        rows = replay(model, out, m)
        first = second = 0
        for i, change, g, at in rows:
            first, second = b1 * first + (1 - b1) * g, b2 * second + (1 - b2) * g ** 2
            if i > 22:
                want = -rate(i, **s) * first / (np.sqrt(second) + 1e-8)
                # entries whose gradient is rounding error only have no definite step
                big = np.sqrt(second) > 1e-3 * np.sqrt(second).max()
                match(m, 'adam', change[big], want[big], at[big], i, 2e-2)


def frozen(m):
    """Without learning the weights stay those of the initialisation."""
    import jax
    for rng in m.cases('frozen', 1, 3):
        s = dict(init_value=0., decay_rate=1., transition_steps=1000, end_value=9.)
        model = c32.Model(1)
        cfg = c32.common(rng, 5, 1, sampling__param_bounds='[0.9]', evaluation__run='false', **opts('sgd', **s))
        other = dict(cfg, random_seed=cfg['random_seed'] + 7)
        m.note(f'{cfg}')
        runs = [c32.launch(f'frozen{m.case[1]}{k}', c32.ONE, **c) for k, c in enumerate((cfg, other))]
        weights = []
        for out in [c32.finish(m, r) for r in runs]:
            saved, batches = steps(model, out)
            for i in sorted(saved):
                m.equal('frozen', flat(saved[i]).tobytes(), flat(saved[max(saved)]).tobytes())
            weights.append(saved[max(saved)])
            h = np.asarray(model.h(weights[-1], batches[0][0]))
            d = h[0, 0, 0].real
            m.close('start', h, np.broadcast_to(np.eye(len(h[0])) * d, h.shape), .03, d)
            m.ok('start', d > 0, 'H matrix not positive', key=d)
            # hidden weights are random
            kernels = [x for x in jax.tree_util.tree_leaves(weights[-1]) if np.ndim(x) == 2]
            m.ok('start', max(np.std(np.asarray(k)) for k in kernels) > .01, 'weights not random', key=flat(weights[-1]))
        m.ok('start', not np.allclose(flat(weights[0]), flat(weights[1]), atol=1e-4), 'seed does not change the weights',
             key='seed')


def dropout(m):
    """Dropout acts on training steps."""
    import jax
    for rng in m.cases('dropout', 1, 3):
        s = dict(init_value=.03, decay_rate=1., transition_steps=1000, end_value=9.)
        model = c32.Model(1, (20,), [.5])
        cfg = c32.common(rng, 12, 1, sampling__param_bounds='[0.9]', evaluation__run='false', network__layer_sizes='[20]',
                         sampling__sizes__batch_size_params=1, network__dropout_rates='[0.5]', **opts('sgd', **s))
        m.note(f'{cfg}')
        out = c32.finish(m, c32.launch(f'dropout{m.case[1]}', c32.ONE, **cfg))
        for i, change, g, at in replay(model, out):
            err = np.abs(change + .03 * g).max() / np.abs(.03 * g).max()
            m.ok('dropout', err > 1e-2, 'step without dropout', key=(i, err))
        # the outgoing weights of a dropped unit do not change
        saved, _ = steps(model, out)
        masks = []
        for i in sorted(saved):
            if i + 1 in saved:
                for x, y in zip(jax.tree_util.tree_leaves(saved[i]), jax.tree_util.tree_leaves(saved[i + 1])):
                    if np.ndim(x) == 2 and np.shape(x)[0] == 20:
                        d = np.abs(np.asarray(y) - np.asarray(x)).max(1)
                        masks.append(d > 1e-4 * d.max())
        m.ok('dropout', len({x.tobytes() for x in masks}) > 4, 'same units dropped in all steps', key=len(masks))
        m.below('dropout', abs(np.mean(masks) - .5), .3, key='rate')


def unaffected(m):
    """Logging, validation and buffering do not change the training."""
    for rng in m.cases('unaffected', 1, 3):
        cfg = c32.common(rng, 16, 1, sampling__param_bounds='[0.9]', evaluation__run='false',
                         training__opt__learning_rate__init_value=.01, sampling__sizes__buffer_size=3)
        m.note(f'{cfg}')
        others = [dict(cfg, training__log_every=6, sampling__sizes__buffer_size=5),
                  dict(cfg, evaluation__validation_count=7, evaluation__sample_size=60, training__log_every=4)]
        runs = [c32.launch(f'unaffected{m.case[1]}{k}', c32.ONE, **c) for k, c in enumerate([cfg] + others)]
        outs = [c32.finish(m, r) for r in runs]
        for o in outs[1:]:
            n = min(len(o['losses']), len(outs[0]['losses']))
            m.ok('unaffected', n >= 12, f'{n} losses')
            m.close('unaffected', o['losses'][:n], outs[0]['losses'][:n], 1e-3)
            for x, y in zip(o['record']['batches'], outs[0]['record']['batches']):
                m.close('unaffected', x[0], y[0], 1e-6)


WORKLOADS = {'sgd': sgd, 'adam': adam, 'frozen': frozen, 'unaffected': unaffected, 'momentum': momentum,
             'dropout': dropout, 'scaled': scaled}
