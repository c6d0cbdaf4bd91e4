"""Random histories of library calls on shared objects; every result, input and object state is fingerprinted."""
import json
import os
import subprocess
import sys

import numpy as np

from cyverif import core

REQUIRED = ['repeat', 'inputs', 'objects', 'fresh-objects', 'compiled', 'eager-after-compiled', 'leak',
            'other-process', 'mutable-result', 'containers', 'global-random']

EXPR = [('z0**3 + z1**3 + z2**3 + b*z0*z1*z2 + (1+2*I)*a*z0*z1**2', ['b', 'a'], 3),
        ('z0**3 + 2*z1**3 + z2**3 - z3**3 + a*z0*z1*z3 + b*z2**2*z3', ['a', 'b'], 4),
        # twins of the above: same names, dimensions and parameters, other values
        ('z0**3 - 2*z1**3 + 3*z2**3 + b*z0*z1**2 + (2-I)*a*z0*z1*z2', ['b', 'a'], 3),
        ('z0**3 + z1**3 + 3*z2**3 + z3**3 + a*z0*z1*z2 - b*z2*z3**2', ['a', 'b'], 4)]


class World:
    """Objects and arrays built the same way every time."""

    def __init__(self, which, seed):
        import jax
        import jax.numpy as jnp
        import sympy
        import cyjax
        from cyjax import donaldson, ml
        expr, pars, n = EXPR[which]
        rng = np.random.default_rng([seed, which % 2])
        self.n, self.expr = n, expr
        twin = which // 2
        self.poly = cyjax.Poly.from_sympy(['x1**2*y + 3*x2*c - I*y**3 + x1*x2*d',
                                           'x1*y**2 + 4*x2*c - y**3 + x1*x2*d'][twin], ['x', 'y'], ['d', 'c'])
        self.poly2 = cyjax.Poly.from_sympy(['x2**2 + (2-I)*y*c + x3*e', 'x3**2 + 2*y*c + x2*e'][twin],
                                           ['x', 'y'], ['c', 'e'])
        self.hom = cyjax.HomPoly.from_sympy(expr, ['z'], pars)
        self.variety = cyjax.VarietySingle(self.hom)
        self.dwork = cyjax.Dwork(n - 2, factor=[-3, 2][twin])
        self.par = np.array([.4 - .3j, .2 + .6j])
        self.full = donaldson.MonomialBasisFull(n - 1, 2)
        self.reduced = donaldson.MonomialBasisReduced(self.variety, 2, self.par)
        self.metric = donaldson.AlgebraicMetric(self.variety, self.full)
        self.net = ml.HNetMLP(self.full.size, (5,), powers=[1, 2 + twin])
        size = self.full.size

        def c(*s):
            return rng.normal(size=s) + 1j * rng.normal(size=s)
        # points on the variety: last coordinate from the equation
        pts, patch = [], []
        for _ in range(3):
            z = c(n)
            f = np.array([complex(self.hom(np.append(z[:-1], t), self.par)) for t in (0, 1, -1, 2)])
            k = np.linalg.solve(np.vander([0, 1, -1, 2], 4), f)
            z[-1] = np.roots(k)[0]
            p = int(np.argmax(np.abs(z)))
            pts.append(np.delete(z / z[p], p))
            patch.append(p)
        a = c(size, size)
        self.a = {
            'par': self.par, 'z': np.array(pts), 'patch': np.array(patch), 'hom': c(3, n),
            'h': a @ a.conj().T + size * np.eye(size), 'x': c(2), 'y': np.array(1.3 - .2j),
            'cd': c(2), 'arr': rng.normal(size=(5, 4)), 'vec': c(4),
            'hpar': rng.normal(size=size ** 2), 'mod': c(3, 2), 'w': rng.uniform(.5, 2, size=3),
            'key': np.asarray(jax.random.PRNGKey(7 + which))}
        self.net_par = self.net.init(jax.random.PRNGKey(3), jnp.array(self.a['mod']), deterministic=True)
        self.sym = list(sympy.symarray('z', n))

    def state(self):
        return repr((self.poly, self.poly2, self.hom, self.variety, self.dwork, self.poly.variable_names,
                     self.poly.variable_indices, self.poly.parameters, self.hom.variable_indices,
                     self.hom.parameters, self.poly.sympy_poly, self.hom.sympy_poly, self.net)) \
            + str(core.freeze(self.full.power_matrix, self.reduced.power_matrix, self.net_par)) \
            + repr((self.full.size, self.full.degree, self.reduced.degree, self.variety.dim_projective,
                    self.variety.par_count, [str(p) for p in self.variety.parameters]))


def table():
    """name -> (traceable, function of world and arrays)."""
    import jax
    import jax.numpy as jnp
    import sympy
    import cyjax
    from cyjax import donaldson, ml, polynomial, random, util
    t = {}

    def add(name, trace=True):
        def deco(f):
            t[name] = (trace, f)
            return f
        return deco
    add('poly.call')(lambda w, a: w.poly(a['x'], a['y'], a['cd']))
    add('poly.transform')(lambda w, a: w.poly.transform_eval()(a['x'], a['y'], a['cd']))
    add('poly.symbolic', 0)(lambda w, a: str(sympy.expand(w.poly(sympy.symarray('x', 2), sympy.Symbol('u'), [2, 3]))))
    add('poly.mul', 0)(lambda w, a: repr(w.poly * w.poly2))
    add('poly.add', 0)(lambda w, a: repr((w.poly + w.poly2, w.poly + 3, w.poly - w.poly2)))
    add('poly.symbol', 0)(lambda w, a: repr((w.poly * sympy.Symbol('x3'), w.poly + sympy.Symbol('x_0'),
                                             w.poly2 - sympy.Symbol('x7'), w.poly * sympy.Symbol('new'),
                                             w.hom * sympy.Symbol('z9'), w.hom + sympy.Symbol('a'))))
    add('hom.diff', 0)(lambda w, a: repr([w.hom.diff(f'z{i}') for i in range(2)]))
    add('poly.diff', 0)(lambda w, a: str(w.poly.diff('x1')))
    add('poly.arrays', 0)(lambda w, a: jax.tree_util.tree_map(
        lambda q: q if isinstance(q, str) else np.asarray(q), w.hom.to_coeffs_and_powers()[0]))
    add('poly.uni', 0)(lambda w, a: repr(polynomial.univariate_coefficients(w.poly, 'y')))
    add('hom.call')(lambda w, a: w.hom(a['hom'][0], a['par']))
    add('hom.patch')(lambda w, a: w.hom.transform_eval()(a['z'], a['par'], patch=a['patch']))
    add('hom.affine', 0)(lambda w, a: repr([w.hom.affine_poly(i) for i in range(w.n)]))
    add('chart')(lambda w, a: cyjax.change_chart(a['z'], a['patch'], 0))
    add('affine')(lambda w, a: cyjax.hom_to_affine(a['hom']))
    add('homog')(lambda w, a: cyjax.affine_to_hom(a['z'], a['patch']))
    add('hom.transform')(lambda w, a: w.hom.transform_eval()(a['hom'], a['par'], patch=None))
    add('monomials')(lambda w, a: polynomial.compute_monomials(
        [a['x'], a['y']], jnp.array([1., 2j]), [jnp.array([[1, 0], [0, 2]]), jnp.array([[0], [3]])]))
    add('fs')(lambda w, a: (cyjax.fs_metric(a['z']), cyjax.fs_potential(a['hom'], hom=True)))
    add('hessian')(lambda w, a: cyjax.complex_hessian(lambda z, zc, q: jnp.log(1 + z @ zc) * q)(
        a['z'][0], a['z'][0].conj(), 2.))
    add('pop')(lambda w, a: util.pop(a['arr'], 2))
    add('insert')(lambda w, a: (util.insert_1d(a['vec'], 3., 1), util.insert_col(a['arr'], a['arr'][:, 0], 2)))
    add('shuffle')(lambda w, a: util.shuffle_axis(a['key'], a['arr'], 1))
    add('prod')(lambda w, a: util.prod([a['arr'], a['arr'], a['arr'] * 2]))
    add('flatten')(lambda w, a: util.unflatten_coord(util.flatten_coord(a['z'])[0], (3,)))
    add('integrate')(lambda w, a: util.mc_integrate(
        a['key'], 9, lambda z: z ** 2, lambda k, n: (jax.random.uniform(k, (n,)), jnp.ones(n)), True))
    add('random')(lambda w, a: (
        random.uniform_components(a['key'], (3, 2)), random.uniform_angle(a['key'], (3,), .2, 2),
        random.uniform_angle_unit(a['key'], (2,)), random.complex_sphere(a['key'], (3, 2)),
        random.uniform_projective(a['key'], 3, 2), random.projective_overlap(a['key'], 3, 3, 0, 2, 2.)))
    add('defining')(lambda w, a: w.variety.defining(a['z'], a['par'], a['patch']))
    add('grad')(lambda w, a: w.variety.grad_defining(a['z'], a['par'], a['patch']))
    add('dependent')(lambda w, a: w.variety.best_dependent(a['z'], a['par'], a['patch']))
    add('jacobian')(lambda w, a: w.variety.jacobian_embed(a['z'], a['par'], a['patch']))
    add('induced')(lambda w, a: w.variety.induced_fs(a['z'], a['par'], a['patch']))
    add('weights')(lambda w, a: w.variety.sample_intersect_weights(a['z'], a['par'], a['patch']))
    add('sample')(lambda w, a: w.variety.sample_intersect(a['key'], a['par'], 5, affine=True, weights=True))
    add('sample.dwork')(lambda w, a: w.dwork.sample_intersect(a['key'], a['par'][:1], 4))
    add('volume')(lambda w, a: w.variety.compute_vol(a['key'], a['par'], 2, 5, var=True))
    add('solve', 0)(lambda w, a: w.variety.solve_defining(a['z'][:, 1:], a['par'], 0, 1))
    add('basis', 0)(lambda w, a: (np.asarray(donaldson.monomial_basis(w.n - 1, 2)),
                                  np.asarray(donaldson.MonomialBasisReduced(w.variety, 3, a['par']).power_matrix)))
    add('sections')(lambda w, a: (w.full(a['z'], a['patch']), w.reduced(a['z'], a['patch'])))
    add('kahler')(lambda w, a: w.metric.kahler_potential(a['h'], a['z'], a['par'], a['patch']))
    add('metric')(lambda w, a: w.metric.metric(a['h'], a['z'], a['par'], a['patch']))
    add('eta')(lambda w, a: w.metric.eta(a['h'], a['z'], a['par'], a['patch']))
    add('ricci')(lambda w, a: w.metric.ricci_scalar(a['h'], a['z'][0], a['par'], a['patch'][0]))
    add('sigma')(lambda w, a: w.metric.sigma_accuracy(a['key'], a['par'], a['h'], 6))
    add('donaldson')(lambda w, a: w.metric.donaldson_step(a['key'], a['h'], a['par'], 1., 2, 30))
    add('cholesky')(lambda w, a: ml.cholesky_from_param(a['hpar']))
    add('init')(lambda w, a: ml.hermitian_param_init(a['key'], 3, .1))
    add('network')(lambda w, a: w.net.apply(w.net_par, a['mod'], deterministic=True))
    add('loss')(lambda w, a: ml.variance_eta_loss(a['h'], (a['par'], a['z'], a['patch'], a['w']), w.metric))

    @add('keys', 0)
    def _(w, a):
        s = util.PRNGSequence(jnp.array(a['key']))
        return [np.asarray(next(s)) for _ in range(3)]

    @add('geometry')
    def _(w, a):
        g = donaldson.GeometricObjects(a['h'], a['z'][0], a['par'], w.variety, w.full, a['patch'][0])
        return g.g_loc, g.psi_hha, g.eta, g.kahler

    @add('from_sympy', 0)
    def _(w, a):
        return repr(cyjax.Poly.from_sympy(w.expr))
    return t


def arrays(w, tree):
    import jax
    import jax.numpy as jnp
    return {k: jnp.array(v) for k, v in w.a.items()} if tree == 'jax' else w.a


def out(x):
    import jax
    return jax.tree_util.tree_map(lambda v: v if isinstance(v, str) else np.array(v), x)


def same(x, y):
    import jax
    a, ta = jax.tree_util.tree_flatten(x)
    b, tb = jax.tree_util.tree_flatten(y)
    return ta == tb and all(
        p == q if isinstance(p, str) or isinstance(q, str) else
        p.dtype == q.dtype and p.shape == q.shape and p.tobytes() == q.tobytes() for p, q in zip(a, b))


def history(m, name, which, second):
    import jax
    t = table()
    for rng in m.cases(name, 1, 5):
        worlds = [World(which, 5), World(second, 5)]
        other = World(which, 5)
        base, state = {}, [w.state() for w in worlds]
        order = [n for n in rng.permutation(sorted(t))]
        calls = [(str(n), k) for n in order for k in (0, 1)] + \
            [(str(rng.choice(order)), int(rng.integers(2))) for _ in range(m.pick(60, 300))]
        fast = [c for c in calls if c[0] not in ('donaldson', 'volume', 'ricci', 'sigma')]
        np.random.seed(3)
        npstate = np.random.get_state()[1].tobytes()
        for i, (fn, k) in enumerate(calls):
            if i > 2 * len(order) and (fn, k) not in fast and rng.random() < .7:
                continue
            w = worlds[k]
            m.note(f'history step {i}: {fn} on world {k}')
            a = arrays(w, 'jax')
            before = core.freeze(a, w.a, w.net_par)
            r = out(t[fn][1](w, a))
            m.ok('inputs', core.freeze(a, w.a, w.net_par) == before, f'{fn} modified its inputs', key=(fn, k))
            if (fn, k) in base:
                m.ok('repeat', same(r, base[fn, k]), f'{fn} changed: {r} before {base[fn, k]}', key=(fn, k, i))
            base.setdefault((fn, k), r)
            if i % 10 == 0:
                m.ok('objects', worlds[k].state() == state[k], f'objects changed after {fn}', key=(fn, k))
        for k in (0, 1):
            m.ok('objects', worlds[k].state() == state[k], 'objects changed', key=k)
        m.ok('global-random', np.random.get_state()[1].tobytes() == npstate, 'global random state changed', key=name)
        # objects never used before give the same
        for fn in order[::2]:
            m.note(f'{fn} on fresh objects')
            m.ok('fresh-objects', same(out(t[fn][1](other, arrays(other, 'jax'))), base[fn, 0]),
                 f'{fn} differs on fresh objects', key=fn)


def compiled(m, name, which, sl):
    """Objects used in compiled code first, with the leak checker of jax."""
    import jax
    t = table()
    for rng in m.cases(name, 1, 3):
        plain, used = World(which, 6), World(which, 6)
        names = [str(n) for n in rng.permutation(sorted(n for n in t if t[n][0]))]
        names = sorted(t for t in names)[sl::3]
        for fn in [str(n) for n in rng.permutation(names)]:
            m.note(f'{fn} compiled first')
            a = arrays(plain, 'jax')
            want = out(t[fn][1](plain, a))
            if fn in ('donaldson', 'volume', 'ricci'):
                got = out(jax.jit(lambda a: t[fn][1](used, a))(a))
            else:
                with jax.checking_leaks():
                    got = out(jax.jit(lambda a: t[fn][1](used, a))(a))
                m.ok('leak', True, key=fn)
            for x, y in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
                m.close('compiled', x, y, 1e-7, scale=max(np.abs(y).max(), 1e-3) if y.size else 1)
            m.ok('eager-after-compiled', same(out(t[fn][1](used, a)), want), f'{fn} differs after compiled use',
                 key=fn)
        # all of them again, on objects that have been through compilation
        for fn in names:
            m.ok('eager-after-compiled', same(out(t[fn][1](used, a)), out(t[fn][1](plain, a))), f'{fn} differs',
                 key=fn)


CHILD = '''
import sys, warnings
warnings.filterwarnings('ignore')
sys.path[:0] = {path!r}
import jax
jax.config.update('jax_enable_x64', True)
import numpy as np
from checks import c31
t = c31.table()
w = c31.World({which}, 5)
for name in {names!r}:
    leaves = jax.tree_util.tree_leaves(c31.out(t[name][1](w, c31.arrays(w, 'jax'))))
    if any(isinstance(x, str) for x in leaves):
        continue
    np.savez({dir!r} + '/' + name, *leaves)
'''


def process(m, name, half):
    """The same calls in another process, in another order and with another hash seed."""
    import jax
    t = table()
    for rng in m.cases(name, 1, 4):
        which = int(rng.integers(2))
        # two runs share the functions
        names = [str(n) for n in m.rng_for('process', 0).permutation(sorted(t))]
        names = names[half::2]
        d = os.path.join(os.environ['CYVERIF_SCRATCH'], f'{name}-{m.case[1]}')
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))))
        p = subprocess.Popen([sys.executable, '-c', CHILD.format(path=sys.path[:2], which=which, names=names, dir=d)],
                             env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        # here after the same calls on objects that look alike
        twin, w = World(which + 2, 5), World(which, 5)
        for n in names:
            t[n][1](twin, arrays(twin, 'jax'))
        mine = {n: jax.tree_util.tree_leaves(out(t[n][1](w, arrays(w, 'jax')))) for n in reversed(names)}
        err = p.communicate(timeout=600)[1]
        m.ok('other-process', p.returncode == 0, f'child failed: {err[-300:]}')
        for n in names:
            if any(isinstance(x, str) for x in mine[n]):
                continue
            m.note(f'{n} in another process')
            z = np.load(f'{d}/{n}.npz')
            m.equal('other-process', len(z.files), len(mine[n]))
            for i, x in enumerate(mine[n]):
                m.close('other-process', z[f'arr_{i}'], x, 1e-9, scale=max(np.abs(x).max(), 1e-3) if x.size else 1)


def containers(m, name):
    """Lists and arrays handed in or out are not shared with internal state."""
    import sympy
    import cyjax
    from cyjax import donaldson, ml, polynomial, util
    for rng in m.cases(name, 2, 10):
        w = World(int(rng.integers(2)), 8)
        a = w.a
        # arguments given as plain containers
        dims, params, var = [2, 0], ['d', 'c'], ['x', 'y']
        values = [a['arr'].copy(), a['arr'] * 2, a['arr'] * 3]
        idx = [[1, 2], None]
        coeffs, powers = np.array([1., 2j]), [np.array([[1, 0], [0, 2]]), np.array([[0], [3]])]
        args = [dims, params, var, values, idx, coeffs, powers, a]
        before = repr(args[:3]) + str(core.freeze(*args))
        cyjax.Poly.from_sympy('x1**2*y + 3*x2*c - y**3 + x1*x2*d', var, params)
        cyjax.Poly.from_sympy('x1**2*y + 3*x2*c - y**3 + x1*x2*d')
        util.prod(values)
        util.prod(iter(values))
        np.asarray(polynomial.compute_monomials([a['x'], a['y']], coeffs, powers))
        donaldson.reduced_monomial_basis(3, np.asarray(donaldson.monomial_basis(2, 2)))
        w.net.apply(w.net_par, a['mod'], deterministic=True)
        m.ok('containers', repr(args[:3]) + str(core.freeze(*args)) == before, 'arguments modified', key=w.n)
        # results can be modified by the caller without consequences
        state = w.state()
        r = w.hom.to_coeffs_and_powers()
        for x in r[0] if isinstance(r[0], (tuple, list)) else [r[0]]:
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = 0
        r = w.poly.all_symbols()
        for x in r:
            if isinstance(x, np.ndarray) and x.ndim:
                x[...] = sympy.Symbol('q')
        r = polynomial.univariate_coefficients(w.poly, 'y')
        r.clear()
        for d in (w.poly.parameter_position, w.poly.variable_position, w.poly.variable_index_dict):
            d.clear()
        b = donaldson.monomial_basis(w.n - 1, 2)
        want = np.array(b)
        if isinstance(b, np.ndarray) and b.flags.writeable:
            b[...] = 7
        b = donaldson.monomial_basis_indices(w.n - 1, 2)
        if isinstance(b, np.ndarray) and b.flags.writeable:
            b[...] = 1
        m.array('mutable-result', np.asarray(donaldson.monomial_basis(w.n - 1, 2)), want)
        m.array('mutable-result', np.asarray(donaldson.MonomialBasisFull(w.n - 1, 2).power_matrix),
                np.asarray(w.full.power_matrix))
        m.ok('mutable-result', w.state() == state, 'state changed through a returned object', key=w.n)
        fresh = World(w.n - 3, 8)
        t = table()
        for fn in ('poly.call', 'hom.call', 'hom.patch', 'poly.arrays', 'poly.uni', 'sections', 'poly.mul', 'basis'):
            m.ok('mutable-result', same(out(t[fn][1](w, a)), out(t[fn][1](fresh, fresh.a))), f'{fn} changed', key=fn)


WORKLOADS = {
    'history0': lambda m: history(m, 'history0', 0, 1), 'history1': lambda m: history(m, 'history1', 1, 3),
    'compiled0': lambda m: compiled(m, 'compiled0', 0, 0), 'compiled1': lambda m: compiled(m, 'compiled1', 1, 1),
    'compiled2': lambda m: compiled(m, 'compiled2', 0, 2),
    'process0': lambda m: process(m, 'process0', 0), 'process1': lambda m: process(m, 'process1', 1), 'containers': lambda m: containers(m, 'containers')}
