"""Artists of accuracy plots, of random accuracies and of training runs, against marginals computed directly."""
import os
import sys

import numpy as np

from checks import c32
from cyverif import plots

TECHNIQUE = 'monitors read the artists of every drawn figure and compare them with the data'
REQUIRED = ['image', 'image.count', 'colours', 'line', 'area', 'range', 'label', 'input', 'saved']


def program():
    """The training program as a module."""
    import importlib.util
    import cyjax
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(cyjax.__file__))), 'scripts', 'train.py')
    spec = importlib.util.spec_from_file_location('cyverif_train', path)
    mod = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(mod)
    return mod


def judge(m, seen, acc, ranges, marg, lim, name='image'):
    """Compare a drawn figure with the accuracies."""
    comp = [r for r in ranges for _ in range(2)]
    n = acc.ndim
    grid = [np.linspace(-r, r, k) for r, k in zip(comp, acc.shape)]
    found = {}
    for ax in seen:
        for im in ax['images']:
            found.setdefault(ax['at'], []).append((im, ax))
    for i in range(n):
        for j in range(i + 1, n):
            m.ok('image.count', len(found.get((j, i), [])) == 1, f'{len(found.get((j, i), []))} images at {j}, {i}',
                 key=(i, j, n))
            im, ax = found[j, i][0]
            want = marg(acc, axis=tuple(a for a in range(n) if a not in (i, j)))
            got = np.array([[plots.value(im, x, y) for y in grid[j]] for x in grid[i]])
            m.close(name, got, want, 1e-6, np.abs(acc).max(), key=want)
            m.close('colours', im[3], lim, 1e-6, np.abs(lim).max())
            left, right, bottom, top = im[1]
            for got, r in ((left, -comp[i]), (right, comp[i]), (bottom, -comp[j]), (top, comp[j])):
                # up to one pixel, by which an image is wider
                m.ok('range', r - .6 * abs(r) <= got <= r + 1.2 * abs(r) and np.sign(got) == np.sign(r),
                     f'extent {im[1]} for {comp[i]}, {comp[j]}', key=(got, r))
    for i in range(n):
        axs = [ax for ax in seen if ax['at'] == (i, i)]
        m.ok('line', len(axs) == 1, f'{len(axs)} axes for component {i}', key=(i, n))
        rest = tuple(a for a in range(n) if a != i)
        ax = axs[0]
        lines = [x for x in ax['lines'] if len(x) == acc.shape[i]]
        m.ok('line', any(np.allclose(x[:, 0], grid[i]) and np.allclose(x[:, 1], acc.mean(rest)) for x in lines),
             f'no line of means for component {i}', key=acc.mean(rest))
        low, high = acc.min(rest), acc.max(rest)
        good = False
        for v in ax['areas']:
            at = [v[np.isclose(v[:, 0], x, atol=1e-9 * comp[i]), 1] for x in grid[i]]
            good |= all(len(a) for a in at) and np.allclose([a.min() for a in at], low) \
                and np.allclose([a.max() for a in at], high)
        m.ok('area', good, f'no area between minimum and maximum for component {i}', key=low)
        m.close('range', ax['ylim'], lim, 1e-6, np.abs(lim).max())


def drawn(m, name):
    import matplotlib.pyplot as plt
    import sympy
    mod = program()
    for rng in m.cases(name, 5, 25):
        count = 1 + m.case[1] % 2
        ranges = rng.choice([.3, 1., 2.5, 10.], count) * rng.uniform(.8, 1.2, count)
        size = int(rng.integers(3, 7))
        shape = [size] * (2 * count) if rng.integers(2) else [int(k) for k in rng.integers(3, 7, 2 * count)]
        acc = rng.uniform(.01, 1.5, shape)
        if rng.integers(2):
            acc = acc * np.linspace(1, 3, shape[0]).reshape(-1, *[1] * (2 * count - 1))
        marg = [np.mean, np.min, np.max, np.median][rng.integers(4)]
        syms = [sympy.Symbol(s) for s in rng.permutation(['psi', 'alpha1', 'b'])[:count]]
        kw, lim = {}, [acc.min(), acc.max()]
        if rng.integers(2):
            kw['vmin'] = lim[0] = float(acc.min() * .5)
        if rng.integers(2):
            kw['vmax'] = lim[1] = float(acc.max() * 1.3)
        m.note(f'shape {shape} ranges {ranges} {marg.__name__} {kw}')
        before = acc.copy()
        given = plt.figure(figsize=(5, 5)) if rng.integers(2) else None
        if given is not None:
            kw['fig'] = given
        fig = mod.plot_accuracies(acc, list(ranges), syms, marg2d=marg, **kw)
        m.ok('input', np.array_equal(acc, before) and (given is None or fig is given), 'input modified', key=acc)
        seen = plots.shown(fig)
        judge(m, seen, acc, ranges, marg, np.array(lim))
        last = [ax for ax in seen if ax['at'] == (2 * count - 1, 2 * count - 1)]
        m.ok('label', len(last) == 1 and sympy.latex(syms[-1]) in last[0]['xlabel'] and 'Im' in last[0]['xlabel'],
             f'label {[ax["xlabel"] for ax in last]}', key=str(syms[-1]))
        plt.close('all')


def saved(m):
    """Figures saved after training."""
    for rng in m.cases('saved', 1, 3):
        cfg = c32.common(rng, 4, 2, sampling__param_bounds='[1.2,0.5]', evaluation__grid_points=3,
                         evaluation__sample_size=60)
        m.note(f'{cfg}')
        run = c32.launch(f'saved{m.case[1]}', c32.TWO, **cfg)
        out = c32.finish(m, run)
        acc = out['sigmas']
        for name, fn in (('min', np.min), ('max', np.max), ('mean', np.mean)):
            file = f'final-{name}.pdf'
            m.ok('saved', file in out['record']['plots'], f'{file} not saved', key=name)
            path = os.path.join(run[1], 'run', file)
            m.ok('saved', os.path.exists(path) and os.path.getsize(path) > 1000, f'{file} missing', key=(name, 'file'))
            judge(m, out['record']['plots'][file], acc, [1.2, .5], fn, np.array([acc.min(), acc.max()]), 'saved')


WORKLOADS = {'saved': saved}
WORKLOADS.update({f'drawn{i}': (lambda m, i=i: drawn(m, f'drawn{i}')) for i in range(3)})
