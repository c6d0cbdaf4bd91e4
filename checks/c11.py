"""Random varieties sampled with all options; points judged by the reference polynomial."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['count', 'finite', 'on-variety', 'on-variety.affine', 'same-points', 'affine.bound',
            'weights', 'weights.formats', 'pure', 'keys-differ', 'compiled', 'naming', 'distinct',
            'inputs-unchanged', 'float32']


def judge(m, v, variety, key, par, count, tol=1e-8, name='on-variety', light=False):
    import jax
    from cyverif.core import freeze
    before = freeze(key, par)
    hom = np.asarray(variety.sample_intersect(key, par, count))
    m.equal('count', hom.shape, (count, v.n))
    if not np.all(np.isfinite(hom)):
        m.fail('finite', f'non-finite points {hom}')
    m.ok('finite', np.all(np.linalg.norm(hom, axis=-1) > 1e-12), 'zero vector sampled')
    if count:
        m.below(name, v.residual(hom, par).max(), tol)
        # points are distinct
        u = hom / np.linalg.norm(hom, axis=-1, keepdims=True)
        ov = np.abs(u @ u.conj().T) - np.eye(count)
        m.ok('distinct', np.all(ov < 1 - 1e-12), 'repeated points')
    m.ok('inputs-unchanged', freeze(key, par) == before)
    if light:
        return hom
    zs, patch = map(np.asarray, variety.sample_intersect(key, par, count, affine=True))
    m.equal('count', (zs.shape, patch.shape), ((count, v.n - 1), (count,)))
    m.ok('affine.bound', np.all(np.abs(zs) <= 1 + 1e-9), 'affine coordinate exceeds one')
    m.close('same-points', zs, geo.to_affine(hom, patch), 1e-8, 1.)
    (z2, p2), w2 = variety.sample_intersect(key, par, count, affine=True, weights=True)
    m.close('same-points', np.asarray(z2), zs, 1e-8, 1.)
    m.array('same-points', np.asarray(p2), patch)
    h3, w3 = variety.sample_intersect(key, par, count, weights=True)
    m.close('same-points', np.asarray(h3), hom, 1e-8)
    m.equal('count', (np.shape(w2), np.shape(w3)), ((count,), (count,)))
    if count:
        m.below('on-variety.affine', v.residual(geo.insert(zs, patch), par).max(), tol)
        ref = geo.weights(v, hom, par)
        m.close('weights', np.asarray(w2) / ref, np.ones(count), 1e-6, key=ref)
        m.close('weights.formats', np.asarray(w3) / ref, np.ones(count), 1e-6, key=ref)
    return hom


def random(m, name):
    import jax
    for rng in m.cases(name, 4, 30):
        v = geo.any_variety(rng, pure=bool(rng.integers(4)))
        par = geo.random_params(rng, v) * rng.choice([.1, 1, 5])
        m.note(f'{v.text} at {par}')
        variety = v.build()
        d = v.degree
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        count = int(rng.choice([1, d, d + 1, 3 * d - 1, 20]))
        hom = judge(m, v, variety, key, par, count)
        for c in (d - 1, 2 * d + 1):
            judge(m, v, variety, key, par, max(c, 1), light=True)
        m.bitwise('pure', variety.sample_intersect(key, par, count), hom)
        other = np.asarray(variety.sample_intersect(jax.random.split(key)[0], par, count))
        u = hom / np.linalg.norm(hom, axis=-1, keepdims=True)
        w = other / np.linalg.norm(other, axis=-1, keepdims=True)
        m.ok('keys-differ', np.all(np.abs(u @ w.conj().T) < 1 - 1e-10), 'equal points for different keys')
        jit = jax.jit(lambda k, p: variety.sample_intersect(k, p, count))
        m.close('compiled', geo.to_affine(np.asarray(jit(key, par)), geo.best_patch(hom)),
                geo.to_affine(hom, geo.best_patch(hom)), 1e-6, 1.)


def special(m):
    """Parameter values where coefficients vanish, and many parameter names."""
    import jax
    names = [('t',), ('p',), ('q',), ('x',), ('xp', 'xq'), ('a', 'b'), ('xt', 'x'), ('t1', 'p2'),
             ('q0',), ('p0', 'q1'), ('xx', 'xxp'), ('psi', 'phi'), ('dummy',)]
    for par, rng in m.each('naming', m.pick(names[:8:2] + names[1::3], names)):
        n = int(rng.integers(3, 5))
        d = int(rng.integers(2, 5))
        v = geo.random_variety(rng, n, d, 0)
        ref = v.ref
        terms = {e + (0,) * len(par): c for e, c in ref.terms.items()}
        keys = list(terms)
        for i in range(len(par)):
            e = np.zeros(n, int)
            for _ in range(d):
                e[rng.integers(n)] += 1
            terms[tuple(map(int, e)) + tuple(int(i == j) for j in range(len(par)))] = 1.5 - .5j
        ref = type(ref)(ref.variables, list(par), terms)
        v = geo.RefVariety(ref)
        value = geo.random_params(rng, v)
        m.note(f'{v.text} at {value}')
        judge(m, v, v.build(), jax.random.PRNGKey(int(rng.integers(2 ** 31))), value, 7,
              name='naming', light=True)
        zero = np.zeros(len(par), complex)
        judge(m, v, v.build(), jax.random.PRNGKey(int(rng.integers(2 ** 31))), zero, 5, light=True)


def builtin(m):
    import jax
    cases = [('d', 3), ('d', 4), ('d', 5), ('f', 3), ('f', 4), ('f', 5), ('d', 6)]
    for (kind, n), rng in m.each('builtin', m.pick(cases[:5], cases)):
        v = geo.dwork(n) if kind == 'd' else geo.fermat(n)
        par = geo.random_params(rng, v) * 2
        judge(m, v, v.build(), jax.random.PRNGKey(int(rng.integers(2 ** 31))), par, m.pick(40, 300))


def single(m):
    import jax
    for rng in m.cases('float32', 4, 20):
        v = geo.any_variety(rng, n=int(rng.integers(3, 5)))
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        hom = np.asarray(v.build().sample_intersect(
            jax.random.PRNGKey(int(rng.integers(2 ** 31))), par, 30))
        m.below('float32', np.median(v.residual(hom, par)), 1e-4)


single.x64 = False


WORKLOADS = {'random1': lambda m: random(m, 'random1'), 'random2': lambda m: random(m, 'random2'),
             'special': special, 'builtin': builtin, 'single': single}
