"""The same calls in single and in double precision, compared up to measured sensitivity to rounding."""
import os
import subprocess
import sys

import numpy as np

from checks import c31
from cyverif import geometry as geo

TECHNIQUE = 'one execution per precision mode, compared value by value; type sanitizer on all results'
REQUIRED = ['double.smooth', 'double.roots', 'single.value', 'single.finite', 'single.type', 'double.type', 'double.value', 'single.integers',
            'quintic.value', 'sampled.residual', 'sampled.unit']

# results depending on random bits of the working precision: only type and finiteness
RANDOM = {'integrate', 'random', 'sample', 'sample.dwork', 'volume', 'sigma', 'donaldson', 'init', 'shuffle', 'network'}
SMOOTH = {'donaldson', 'network'}  # of these, smooth in the inputs
UNORDERED = {'solve'}  # roots in no particular order
SINGLE = {'float32', 'complex64', 'int32', 'uint32', 'bool'}
DOUBLE = {'float64', 'complex128', 'int64', 'int32', 'uint32', 'bool'}

CHILD = '''
import sys, warnings
warnings.filterwarnings('ignore')
sys.path[:0] = {path!r}
import jax
import numpy as np
assert not jax.config.read('jax_enable_x64')
from checks import c35
c35.single({kind!r}, {which}, {names!r}, {dir!r}, {count})
'''


def leaves(x):
    import jax
    return [np.array(v) for v in jax.tree_util.tree_leaves(x) if not isinstance(v, str)]


def functions(kind, which):
    """World and functions of one kind of setting."""
    if kind == 'world':
        w = c31.World(which, 5)
        return w, {k: f for k, (_, f) in c31.table().items()}
    return quintic(which)


def quintic(which):
    import cyjax
    from cyjax import donaldson

    class Q:
        pass
    w = Q()
    w.variety = cyjax.Dwork(3) if which else cyjax.VarietySingle.from_sympy(
        'z0**5 + z1**5 + z2**5 + z3**5 + z4**5 - 5*a*z0*z1*z2*z3*z4 + b*z0**3*z1**2', 'z', 5, ['a', 'b'])
    w.basis = donaldson.MonomialBasisFull(4, 2)
    w.metric = donaldson.AlgebraicMetric(w.variety, w.basis)
    t = {
        'defining': lambda w, a: w.variety.defining(a['z'], a['par'], a['patch']),
        'grad': lambda w, a: w.variety.grad_defining(a['z'], a['par'], a['patch']),
        'dependent': lambda w, a: w.variety.best_dependent(a['z'], a['par'], a['patch']),
        'induced': lambda w, a: w.variety.induced_fs(a['z'], a['par'], a['patch']),
        'weights': lambda w, a: w.variety.sample_intersect_weights(a['z'], a['par'], a['patch']),
        'sections': lambda w, a: w.basis(a['z'], a['patch']),
        'kahler': lambda w, a: w.metric.kahler_potential(a['h'], a['z'], a['par'], a['patch']),
        'metric': lambda w, a: w.metric.metric(a['h'], a['z'], a['par'], a['patch']),
        'eta': lambda w, a: w.metric.eta(a['h'], a['z'], a['par'], a['patch']),
        'ricci': lambda w, a: w.metric.ricci_scalar(a['h'], a['z'], a['par'], a['patch'])}
    return w, t


def world_arrays(which, rng):
    """Arrays of a world with other points, representable in single precision."""
    w = c31.World(which, int(rng.integers(1000)))
    return {k: single_valued(v) for k, v in w.a.items()}


def quintic_arrays(which, rng):
    n, size = 5, 15
    eye = {tuple(5 * (i == j) for j in range(n)): 1. for i in range(n)}
    if which:
        ref = geo.rp.RefPoly([('z', list(range(n)))], ['psi'],
                             {**{e + (0,): c for e, c in eye.items()}, (1,) * 6: -5.})
        par = rng.normal(size=1) + 1j * rng.normal(size=1)
    else:
        ref = geo.rp.RefPoly([('z', list(range(n)))], ['a', 'b'],
                             {**{e + (0, 0): c for e, c in eye.items()}, (1,) * 5 + (1, 0): -5.,
                              (3, 2, 0, 0, 0, 0, 1): 1.})
        par = rng.normal(size=2) + 1j * rng.normal(size=2)
    hom = geo.RefVariety(ref).sample(rng, par, 4)
    patch = geo.best_patch(hom)
    a = rng.normal(size=(size, size)) + 1j * rng.normal(size=(size, size))
    h = a @ a.conj().T / size + np.eye(size)
    return {k: single_valued(v) for k, v in
            {'par': par, 'z': geo.to_affine(hom, patch), 'patch': patch, 'h': h}.items()}


def single_valued(v):
    v = np.asarray(v)
    if v.dtype.kind == 'c':
        return v.astype('complex64').astype('complex128')
    if v.dtype.kind == 'f':
        return v.astype('float32').astype('float64')
    return v


def single(kind, which, names, path, count):
    """In the child process: evaluate in single precision."""
    import jax.numpy as jnp
    w, t = functions(kind, which)
    for i in range(count):
        a = {k: jnp.array(v) for k, v in np.load(f'{path}/in{i}.npz').items()}
        for n in names:
            np.savez(f'{path}/out{i}-{n}.npz', *leaves(t[n](w, a)))


def perturbed(rng, a):
    out = {}
    for k, v in a.items():
        if v.dtype.kind in 'cf':
            v = v * (1 + 2e-7 * rng.normal(size=v.shape))
            if v.dtype.kind == 'c':
                v = v + 2e-7j * v * rng.normal(size=v.shape)
        out[k] = v
    if 'h' in out:
        out['h'] = (out['h'] + out['h'].conj().T) / 2
    return out


def direction(rng, a):
    out = {k: rng.normal(size=v.shape) + (1j * rng.normal(size=v.shape) if v.dtype.kind == 'c' else 0)
           for k, v in a.items() if v.dtype.kind in 'cf'}
    if 'h' in out:
        out['h'] = (out['h'] + out['h'].conj().T) / 2
    return {k: v * (np.abs(a[k]).max() if a[k].size else 1.) for k, v in out.items()}


def matched(y, x):
    """Rows of y in the order of the closest rows of x."""
    if y.ndim < 2 or y.shape != x.shape:
        return y
    if y.ndim > 2:
        return np.array([matched(a, b) for a, b in zip(y, x)])
    left, order = list(range(len(y))), []
    for row in x:
        order.append(left.pop(int(np.argmin([np.abs(y[j] - row).max() for j in left]))))
    return y[order]


def smooth(m, f, w, a, n, rng):
    """Second differences reveal rounding to less than double precision."""
    import jax.numpy as jnp
    d = direction(rng, a)

    def at(t):
        out = leaves(f(w, {k: jnp.array(v + t * d[k] if k in d else v) for k, v in a.items()}))
        return [matched(y, x) for y, x in zip(out, values)] if n in UNORDERED and values else out

    def second(h):
        return [np.abs(x - 2 * y + z).max() if x.dtype.kind in 'cf' and x.size else 0.
                for x, y, z in zip(at(h), at(0.), at(-h))]
    values = None
    values = at(0.)
    for k, (small, large, x) in enumerate(zip(second(1e-6), second(3e-5), values)):
        if x.dtype.kind in 'cf' and x.size:
            m.below('double.smooth', small / (large * .1 + 1e-10 * np.abs(x).max() + 1e-13), 1.,
                    key=(n, k, x.tobytes()))


def compare(m, name, kind, names_of, arrays_of):
    import jax.numpy as jnp
    for rng in m.cases(name, 1, 4):
        which = int(rng.integers(2))
        w, t = functions(kind, which)
        names = names_of(sorted(t))
        count = m.pick(2, 4)
        d = os.path.join(os.environ['CYVERIF_SCRATCH'], f'{name}-{m.case[1]}')
        os.makedirs(d, exist_ok=True)
        inputs = [arrays_of(which, rng) for _ in range(count)]
        for i, a in enumerate(inputs):
            np.savez(f'{d}/in{i}.npz', **a)
        p = subprocess.Popen([sys.executable, '-c', CHILD.format(
            path=sys.path[:2], kind=kind, which=which, names=names, dir=d, count=count)],
            env=dict(os.environ), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        results = []
        for a in inputs:
            res = {}
            ja = {k: jnp.array(v) for k, v in a.items()}
            others = [{k: jnp.array(v) for k, v in perturbed(rng, a).items()} for _ in range(3)]
            for n in names:
                res[n] = leaves(t[n](w, ja)), [] if n in RANDOM else [leaves(t[n](w, o)) for o in others]
            results.append(res)
        for n in names:
            if n not in RANDOM or n in SMOOTH:
                m.note(f'{n}, setting {which}, smoothness')
                smooth(m, t[n], w, inputs[0], n, rng)
        err = p.communicate(timeout=900)[1]
        m.note(f'single precision process, setting {which}')
        m.ok('single.finite', p.returncode == 0, f'failed in single precision: {err[-600:]}')
        for i, res in enumerate(results):
            for n in names:
                m.note(f'{n}, setting {which}, input {i}')
                z = np.load(f'{d}/out{i}-{n}.npz')
                want, moved = res[n]
                m.equal('single.value' if kind == 'world' else 'quintic.value', len(z.files), len(want))
                for k, x in enumerate(want):
                    y = z[f'arr_{k}']
                    if n == 'poly.arrays':  # plain numpy arrays
                        m.close('single.value', y, x, 1e-7)
                        continue
                    m.ok('single.type', y.dtype.name in SINGLE, f'{y.dtype} in single precision', key=(n, k))
                    m.ok('double.type', x.dtype.name in DOUBLE, f'{x.dtype} in double precision', key=(n, k))
                    m.ok('single.finite', np.all(np.isfinite(y)), f'not finite: {y}', key=y.tobytes())
                    m.equal('single.value' if kind == 'world' else 'quintic.value', y.shape, x.shape)
                    if n in RANDOM:
                        continue
                    if x.dtype.kind not in 'cf':
                        m.array('single.integers', y, x)
                        continue
                    if n in UNORDERED:
                        y, moved = matched(y, x), [[matched(v, x) if j == k else v for j, v in enumerate(o)]
                                                   for o in moved]
                    move = max(np.abs(o[k] - x).max() if x.size else 0. for o in moved)
                    scale = np.abs(x).max() if x.size else 1.
                    tol = 50 * move + 5e-5 * scale + 1e-6
                    err = np.abs(y - x).max() if x.size else 0.
                    m.below('single.value' if kind == 'world' else 'quintic.value', err / tol, 1.,
                            key=(n, k, y.tobytes()))


def world_part(part, parts):
    def fn(m):
        compare(m, f'world{part}', 'world', lambda names: names[part::parts], world_arrays)
    return fn


def quintic_part(part, parts):
    def fn(m):
        compare(m, f'quintic{part}', 'quintic', lambda names: names[part::parts], quintic_arrays)
    return fn


def double(m):
    """Double precision inputs give results exact to double precision."""
    import jax
    import jax.numpy as jnp
    import cyjax
    from cyjax import donaldson
    for rng in m.cases('double', 3, 20):
        s = geo.setting(rng, cy=True, n=int(rng.integers(3, 5)))
        v, par, h = s['v'], s['par'], np.asarray(s['h'])
        m.note(s['text'])
        hom = v.sample(rng, par, 3)
        patch = geo.best_patch(hom)
        z = geo.to_affine(hom, patch)
        x = geo.insert(z, patch)
        m.close('double.value', s['variety'].defining(z, par, patch), v.value(x, par), 1e-13, v.size(x, par))
        g = np.stack([v.grad_affine(z[i], par, patch[i]) for i in range(3)])
        m.close('double.value', s['variety'].grad_defining(z, par, patch), g, 1e-12, np.abs(g).max())
        m.close('double.value', cyjax.affine_to_hom(z, jnp.array(patch)), x, 1e-15, 1.)
        m.close('double.value', cyjax.hom_to_affine(hom)[0], z, 1e-14, 1.)
        fs = np.log(np.sum(np.abs(x) ** 2, -1))
        k = np.asarray(cyjax.fs_potential(z))
        m.close('double.value', k - k[0], (fs - fs[0]) * (k[0] - k[1]) / (fs[0] - fs[1]), 1e-10, 1.)
        n = v.n
        for dep in range(n):
            try:
                sol = np.asarray(s['variety'].solve_defining(np.delete(hom[0], dep), par, dep))
            except Exception:
                continue  # judged elsewhere: constant in this coordinate
            m.below('double.roots', v.residual(sol, par).max(), 1e-9, key=sol)
        pts = np.asarray(s['variety'].sample_intersect(jax.random.PRNGKey(int(rng.integers(2 ** 31))), par, 30))
        res = v.residual(pts, par)
        m.below('double.roots', res.max(), 1e-9, key=pts)
        m.below('double.roots', np.median(res), 1e-12, key=pts)
        full = donaldson.MonomialBasisFull(n - 1, 2)
        sec = np.prod(x[:, None, :] ** np.asarray(full.power_matrix)[None], -1)
        m.close('double.value', full(z, jnp.array(patch)), sec, 1e-13, 1.)


def sampled(m):
    """Points drawn in the default precision lie on the variety up to its rounding."""
    import jax
    import cyjax
    for rng in m.cases('sampled', 4, 20):
        s = geo.setting(rng, cy=True, n=int(rng.integers(3, 6)))
        m.note(s['text'])
        v, par = s['v'], s['par']
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        hom = np.asarray(s['variety'].sample_intersect(key, par, 40))
        m.ok('single.type', hom.dtype.name in SINGLE, f'{hom.dtype}', key='sample')
        res = v.residual(hom, np.asarray(par))
        m.below('sampled.residual', res.max(), 1e-3)
        m.below('sampled.residual', np.median(res), 3e-5)
        (zs, patch), w = s['variety'].sample_intersect(key, par, 40, affine=True, weights=True)
        w = np.asarray(w)
        m.ok('single.finite', np.all(np.isfinite(w)) and np.all(w > 0), f'weights {w}', key=w.tobytes())
        m.below('sampled.unit', np.abs(np.asarray(zs)).max(), 1 + 1e-5)


sampled.x64 = False

WORKLOADS = {f'world{i}': world_part(i, 6) for i in range(6)}
WORKLOADS.update({f'quintic{i}': quintic_part(i, 3) for i in range(3)})
WORKLOADS.update(double=double, sampled=sampled)
