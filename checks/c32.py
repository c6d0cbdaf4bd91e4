"""Runs of the training program with a stepped clock; an offline checker over recorded batches and files decides."""
import io
import os
import pickle
import subprocess
import sys

import numpy as np

TECHNIQUE = 'offline checking of recorded training runs'
REQUIRED = ['finished', 'finite', 'losses.count', 'losses.value', 'losses.first', 'validation.count',
            'validation.value', 'validation_params', 'batches', 'grid', 'grid.value',
            'reproducible', 'seed', 'final.params', 'growing', 'lowers-loss', 'prefix',
            'dropout.reproducible', 'batches.points']

ONE = ['--config-name=dwork', 'variety.dim_variety=1']
TWO = ['--config-name=quintic', 'variety.poly_degree=3',
       'variety.poly="z0**3 + z1**3 + z2**3 + alpha1*z0*z1*z2 + 2*alpha2*z0*z1**2"']


def launch(tag, base, **cfg):
    """Start one run; nested names use double underscores."""
    d = os.path.join(os.environ['CYVERIF_SCRATCH'], tag)
    os.makedirs(d)
    import cyjax
    repo = os.path.dirname(os.path.dirname(os.path.realpath(cyjax.__file__)))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    args = [f'{k.replace("__", ".")}={v}' for k, v in cfg.items()]
    p = subprocess.Popen(
        [sys.executable, os.path.join(here, 'cyverif', 'trainrun.py'), repo, os.path.join(d, 'record.pkl'), *base,
         f'hydra.run.dir={d}/run', f'hydra.sweep.dir={d}/sweep', *args],
        cwd=d, stdout=open(os.path.join(d, 'log'), 'w'), stderr=subprocess.STDOUT)
    return p, d


def finish(m, run):
    p, d = run
    try:
        code = p.wait(timeout=500)
    finally:
        p.kill()
    text = open(os.path.join(d, 'log')).read()
    m.ok('finished', code == 0, f'training failed: {text[-600:]}', key=d.split('/')[-1])
    out = {'record': pickle.load(open(os.path.join(d, 'record.pkl'), 'rb'))}
    r = os.path.join(d, 'run')
    for n in ('losses', 'validation', 'validation_params'):
        out[n] = np.load(os.path.join(r, n + '.npy'))
    out['params'] = open(os.path.join(r, 'final.params'), 'rb').read()
    if os.path.exists(os.path.join(r, 'sigma_final.npz')):
        z = np.load(os.path.join(r, 'sigma_final.npz'))
        out['sigmas'], out['grid'] = z['sigmas'], z['moduli_grid']
    return out


def common(rng, steps, log_every, **kw):
    cfg = dict(random_seed=int(rng.integers(1, 10 ** 6)), training__train_minutes=(steps - .5) / 60,
               training__log_every=log_every, sampling__sizes__batch_size=50, sampling__sizes__batch_size_params=3,
               sampling__sizes__buffer_size=int(rng.integers(2, 6)), network__layer_sizes='[7]',
               network__powers='[1,2]', evaluation__validation_count=4, evaluation__sample_size=1500,
               evaluation__batch_size=30, algebraic_metric__sections__degree=2)
    cfg.update(kw)
    return cfg


class Model:
    """The objects of a run, for the offline checker."""

    def __init__(self, npar, layers=(7,), dropout=None, poly=None):
        import jax
        import jax.numpy as jnp
        import cyjax
        from cyjax import donaldson, ml
        if npar == 1:
            self.variety = cyjax.Dwork(1)
        else:
            self.variety = cyjax.VarietySingle.from_sympy(
                poly or 'z0**3 + z1**3 + z2**3 + alpha1*z0*z1*z2 + 2*alpha2*z0*z1**2', 'z', 3, ['alpha1', 'alpha2'])
        self.metric = donaldson.AlgebraicMetric(self.variety, donaldson.MonomialBasisFull(2, 2))
        self.net = ml.HNetMLP(6, layers, powers=(1, 2), dropout_rates=dropout)
        self.init = self.net.init(jax.random.PRNGKey(0), jnp.ones((1, npar), 'complex64'), deterministic=True)
        self.sig = jax.jit(jax.vmap(jax.vmap(
            lambda k, par, h: self.metric.sigma_accuracy(k, par, h, 1500), (0, None, None)), (None, 0, 0)))
        self.lossfn = jax.jit(jax.vmap(lambda h, s: ml.variance_eta_loss(h, s, self.metric)))

    def load(self, data):
        import flax.serialization
        return flax.serialization.from_bytes(self.init, data)

    def h(self, params, moduli):
        import jax
        import jax.numpy as jnp
        from cyjax import ml
        out = self.net.apply(params, jnp.array(moduli), deterministic=True)
        return jax.vmap(ml.cholesky_from_param)(out)

    def sigma(self, rng, params, moduli):
        """Mean and standard deviation of single estimates."""
        import jax
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), 24)
        s = np.asarray(self.sig(keys, np.asarray(moduli, complex), self.h(params, moduli)))
        sd = s.std(1)
        return s.mean(1), np.maximum(sd, np.median(sd))

    def loss(self, params, batch):
        import jax.numpy as jnp
        h = self.h(params, batch[0])
        return float(np.mean(np.asarray(self.lossfn(h, tuple(jnp.array(a) for a in batch)))))


def judge(m, rng, out, model, cfg, bounds, log_every, exact=True):
    npar = len(bounds)
    rec = out['record']
    steps = len(rec['batches'])
    m.ok('batches', steps > 0, 'no batch drawn')
    npb, size = cfg['sampling__sizes__batch_size_params'], cfg['sampling__sizes__batch_size']
    for i, b in enumerate(rec['batches']):
        m.equal('batches', [a.shape for a in b], [(npb, npar), (npb, size, 2), (npb, size), (npb, size)])
        lim = np.abs(np.stack([b[0].real, b[0].imag])).max((0, 1))
        m.ok('batches', np.all(lim <= np.array(bounds) * (1 + 1e-6)), 'moduli out of range', key=lim)
        if i % 10 == 0:
            f = np.asarray(model.variety.defining(b[1].astype(complex), 
                                                  np.repeat(b[0][:, None].astype(complex), size, 1), b[2]))
            m.below('batches.points', np.median(np.abs(f)), 1e-4, key=i)
    allpar = np.concatenate([b[0] for b in rec['batches']])
    if steps >= 10:
        spread = np.abs(np.stack([allpar.real, allpar.imag])).max((0, 1))
        m.ok('batches', np.all(spread > .6 * np.array(bounds)), f'moduli do not fill the range: {spread}', key=spread)
    # saved values
    logged = 1 + (len(out['losses']) - 1) // log_every
    m.ok('losses.count', out['losses'].shape in ((steps,), (steps - 1,)), f'{len(out["losses"])} losses', key=steps)
    m.equal('validation.count', out['validation'].shape, (logged, 4))
    vp = out['validation_params']
    m.equal('validation_params', vp.shape, (4, npar))
    m.ok('validation_params', np.all(np.abs(np.stack([vp.real, vp.imag])).max((0, 1)) <= np.array(bounds) * (1 + 1e-6))
         and len(set(vp.ravel().tolist())) == vp.size, 'validation moduli', key=vp)
    for k in ('losses', 'validation', 'validation_params', 'sigmas', 'grid'):
        if k in out:
            m.ok('finite', np.isfinite(out[k]).all(), f'{k} not finite', key=(k, out[k]))
    # files grow with the run and never rewrite history
    prev = np.zeros(0)
    for drawn, files in rec['files']:
        if 'losses.npy' in files:
            cur = np.load(io.BytesIO(files['losses.npy']))
            m.ok('growing', len(cur) <= drawn and np.array_equal(cur[:len(prev)], prev), 'loss history changed',
                 key=(drawn, len(cur)))
            m.ok('growing', drawn - len(cur) <= log_every, 'loss list behind the log', key=(drawn, len(cur)))
            m.ok('growing', np.array_equal(out['losses'][:len(cur)], cur), 'final losses differ', key=len(cur))
            prev = cur
    params = [model.load(f['final.params']) for _, f in rec['files'] if 'final.params' in f]
    steps_of = [n for n, f in rec['files'] if 'final.params' in f]
    # losses are those of the network on the delivered batches
    if exact and log_every == 1:
        first = model.loss(model.init, rec['batches'][0])
        m.close('losses.first', out['losses'][0], first, 3e-2)
        by_step = dict(zip(steps_of, params))
        for i in range(1, steps):
            if i in by_step and (i < 6 or i % 5 == 0):
                m.close('losses.value', out['losses'][i], model.loss(by_step[i], rec['batches'][i]), 1e-3)
    # accuracies of the network at logged steps for the saved moduli
    at = {}
    for n, p in zip(steps_of, params):
        at.setdefault((n - 1) // log_every, p)
    picks = sorted({0, logged - 1, int(rng.integers(logged))})
    for i in picks:
        if i in at and out['record']['files']:
            want, sd = model.sigma(rng, at[i], vp)
            m.below('validation.value', (np.abs(out['validation'][i] - want) / (sd + 1e-4)).max(), 8, key=i)
            if np.ptp(want) > 10 * sd.max():
                m.ok('validation.sensitive', True, key=(i, want))
    m.ok('final.params', len(params) and out['params'] is not None, 'no parameters saved', key=steps)
    if 'sigmas' in out:
        g = cfg['evaluation__grid_points']
        axes = [np.linspace(-b, b, g) for b in bounds for _ in range(2)]
        mesh = np.stack(np.meshgrid(*axes, indexing='ij'))
        m.close('grid', out['grid'], mesh, 1e-6)
        m.equal('grid', out['sigmas'].shape, mesh.shape[1:])
        flat = out['grid'].reshape(npar, 2, -1)
        moduli = (flat[:, 0] + 1j * flat[:, 1]).T
        want, sd = model.sigma(rng, model.load(out['params']), moduli)
        dev = np.abs(out['sigmas'].ravel() - want) / (sd + 1e-4)
        m.below('grid.value', dev.max(), 8)
        # positions are told apart
        t = np.swapaxes(out['sigmas'], -1, -2).ravel()
        if (np.abs(t - want) / (sd + 1e-4)).max() > 8:
            m.ok('grid.sensitive', True, key=want)


def one(m):
    for rng in m.cases('one', 1, 3):
        cfg = common(rng, int(rng.integers(24, 31)), 1, sampling__param_bounds='[1.1]', evaluation__grid_points=5)
        m.note(f'{cfg}')
        tag = f'one{m.case[1]}'
        runs = [launch(tag + 'a', ONE, **cfg), launch(tag + 'b', ONE, **cfg)]
        other = dict(cfg, random_seed=cfg['random_seed'] + 1, evaluation__run='false')
        runs.append(launch(tag + 'c', ONE, **other))
        a, b, c = [finish(m, r) for r in runs]
        for k in ('losses', 'validation', 'validation_params', 'sigmas', 'grid'):
            m.ok('reproducible', np.array_equal(a[k], b[k]), f'{k} differs between equal runs', key=a[k])
        m.ok('reproducible', a['params'] == b['params'], 'parameters differ between equal runs', key='params')
        m.ok('seed', not np.array_equal(a['losses'], c['losses'])
             and not np.array_equal(a['validation_params'], c['validation_params']), 'seed has no effect', key=1)
        m.ok('seed', 'sigmas' not in c, 'evaluation not switched off', key=2)
        judge(m, rng, a, Model(1), cfg, [1.1], 1)


def two(m):
    for rng in m.cases('two', 1, 3):
        cfg = common(rng, int(rng.integers(15, 21)), 1, sampling__param_bounds='[1.2,0.5]',
                     evaluation__grid_points=3, evaluation__batch_size=25)
        m.note(f'{cfg}')
        a = finish(m, launch(f'two{m.case[1]}', TWO, **cfg))
        judge(m, rng, a, Model(2), cfg, [1.2, .5], 1)


def sparse(m):
    """Logging every few steps."""
    for rng in m.cases('sparse', 1, 3):
        every = int(rng.integers(4, 8))
        steps = every * 3 + int(rng.integers(2, every))
        cfg = common(rng, steps, every, sampling__param_bounds='[1.1]', evaluation__grid_points=4,
                     training__opt__learning_rate__init_value=.01)
        m.note(f'{cfg}')
        long = dict(cfg, training__train_minutes=(steps + every * 3 - .5) / 60, evaluation__run='false')
        runs = [launch(f'sparse{m.case[1]}{k}', ONE, **c) for k, c in enumerate((cfg, long))]
        a, b = [finish(m, r) for r in runs]
        judge(m, rng, a, Model(1), cfg, [1.1], every)
        n, k = len(a['losses']), len(a['validation'])
        m.ok('prefix', np.array_equal(b['losses'][:n], a['losses']) and len(b['losses']) > n,
             'a longer run does not start like the shorter one', key=a['losses'])
        m.ok('prefix', np.array_equal(b['validation'][:k], a['validation']), 'validation differs', key=a['validation'])


def learn(m):
    """Longer training with and without dropout."""
    for rng in m.cases('learn', 1, 3):
        cfg = common(rng, 240, 50, sampling__param_bounds='[0.4]', evaluation__run='false',
                     training__opt__learning_rate__init_value=.03, network__layer_sizes='[20]')
        drop = dict(cfg, network__dropout_rates='[0.3]', training__train_minutes=12.5 / 60, training__log_every=5)
        m.note(f'{cfg}')
        tag = f'learn{m.case[1]}'
        runs = [launch(tag + 'a', ONE, **cfg), launch(tag + 'b', ONE, **drop), launch(tag + 'c', ONE, **drop)]
        a, b, c = [finish(m, r) for r in runs]
        first, last = np.mean(a['losses'][:20]), np.mean(a['losses'][-40:])
        m.ok('lowers-loss', last < .8 * first, f'loss {first} -> {last}', key=(first, last))
        v = a['validation'].mean(1)
        m.ok('lowers-loss', v[-1] < .95 * v[0], f'accuracy {v}', key=v)
        judge(m, rng, a, Model(1, (20,)), cfg, [.4], 50)
        m.ok('dropout.reproducible', np.array_equal(b['losses'], c['losses']) and b['params'] == c['params'],
             'runs with dropout differ', key=b['losses'])
        judge(m, rng, b, Model(1, (20,), [.3]), drop, [.4], 5, exact=False)


WORKLOADS = {'one': one, 'two': two, 'sparse': sparse, 'learn': learn}
