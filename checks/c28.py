"""Random Cholesky parameters of all sizes, scales and dtypes; an independent numpy decoding decides."""
import numpy as np

REQUIRED = ['decode', 'from-param', 'hermitian', 'positive', 'onto', 'init.identity', 'init.fluctuate', 'init.spread',
            'vmap', 'jit', 'sign', 'zero-diagonal', 'gradient', 'pure', 'shape', 'init.dtype']


def ref_decode(diag, upper):
    n = len(diag)
    mat = np.zeros((n, n), complex)
    k = 0
    for i in range(n):
        mat[i, i] = diag[i]
        for j in range(i + 1, n):
            mat[i, j] = upper[k]
            k += 1
    return mat @ mat.conj().T, mat


def ref_param(par):
    n = int(round(np.sqrt(len(par))))
    k = n * (n - 1) // 2
    return ref_decode(par[:n], par[n:n + k] + 1j * par[n + k:])


def encode(h):
    """Parameters of a given Hermitian positive matrix (upper times lower factorisation)."""
    f = np.linalg.cholesky(h[::-1, ::-1])[::-1, ::-1]
    up = f[np.triu_indices(len(h), 1)]
    return np.concatenate([np.diag(f).real, up.real, up.imag])


def decode(m):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    for rng in m.cases('decode', 14, 80):
        n = int(rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 21, 53, 70])) if rng.random() < .85 else 101
        sc = 10. ** rng.uniform(-5, 5)
        diag = rng.normal(size=n) * sc
        k = n * (n - 1) // 2
        upper = (rng.normal(size=k) + 1j * rng.normal(size=k)) * sc
        m.note(f'n={n} scale={sc:.3g}')
        tol = 1e-11
        want, mat = ref_decode(diag, upper)
        size = np.abs(want).max()
        got = np.asarray(ml.cholesky_decode(jnp.array(diag), jnp.array(upper)))
        m.equal('shape', got.shape, (n, n))
        m.close('decode', got, want, tol, scale=size)
        par = np.concatenate([diag, upper.real, upper.imag])
        got = np.asarray(ml.cholesky_from_param(jnp.array(par)))
        m.close('from-param', got, want, tol, scale=size)
        m.close('hermitian', got, got.conj().T, 1e-13, scale=size)
        m.ok('pure', np.array_equal(got, np.asarray(ml.cholesky_from_param(jnp.array(par)))), 'repeated call differs')
        # moderate entries: strictly positive, lowest eigenvalue as in exact arithmetic
        q = par.copy()
        q[:n] = np.sign(diag) * rng.uniform(.5, 2, size=n)
        q[n:] *= .3 / sc / np.sqrt(n)
        ev = np.linalg.eigvalsh(np.asarray(ml.cholesky_from_param(jnp.array(q))))
        m.ok('positive', ev[0] > 0, f'{ev}', key=ev)
        m.close('positive', ev, np.linalg.svd(ref_param(q)[1])[1][::-1] ** 2, 1e-9, scale=ev[-1])
        # the signs of a row... of columns of M do not matter: flip a whole column
        mm = ref_param(q)[1]
        s = rng.choice([-1, 1], size=n)
        mm = mm * s
        up = mm[np.triu_indices(n, 1)]
        got2 = np.asarray(ml.cholesky_decode(jnp.array(np.diag(mm).real), jnp.array(up)))
        m.close('sign', got2, ref_param(q)[0], 1e-11, scale=ev[-1])
        # a vanishing diagonal entry is still Hermitian and non-negative
        q[rng.integers(n)] = 0
        ev = np.linalg.eigvalsh(np.asarray(ml.cholesky_from_param(jnp.array(q))))
        m.ok('zero-diagonal', ev[0] > -1e-12 * (1 + ev[-1]) and ev[0] < 1e-9 * (1 + ev[-1]), f'{ev}', key=ev)
        # every positive matrix is reached
        a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        h = a @ a.conj().T + .1 * np.eye(n)
        m.close('onto', np.asarray(ml.cholesky_from_param(jnp.array(encode(h)))), h, 1e-11,
                scale=np.abs(h).max())
        # batches
        ps = rng.normal(size=(3, n * n))
        want3 = np.stack([ref_param(p)[0] for p in ps])
        m.close('vmap', np.asarray(jax.vmap(ml.cholesky_from_param)(jnp.array(ps))), want3, 1e-11,
                scale=np.abs(want3).max())
        m.close('jit', np.asarray(jax.jit(ml.cholesky_from_param)(jnp.array(ps[0]))), want3[0], 1e-11,
                scale=np.abs(want3).max())
        # derivative along a random direction (finite difference of a quadratic is exact)
        d = rng.normal(size=n * n)
        _, tan = jax.jvp(ml.cholesky_from_param, (jnp.array(ps[0]),), (jnp.array(d),))
        fd = (ref_param(ps[0] + d)[0] - ref_param(ps[0] - d)[0]) / 2
        m.close('gradient', np.asarray(tan), fd, 1e-10, scale=1 + np.abs(fd).max())


def types(m):
    import jax.numpy as jnp
    from cyjax import ml
    for rng in m.cases('types', 6, 30):
        n = int(rng.integers(1, 8))
        k = n * (n - 1) // 2
        diag = rng.integers(1, 4, size=n)
        up = rng.integers(-3, 4, size=k) + 1j * rng.integers(-3, 4, size=k)
        want = ref_decode(diag, up)[0]
        for dd in (float, 'int32', 'float32'):
            for du in (complex, 'complex64'):
                got = ml.cholesky_decode(jnp.array(diag.astype(dd)), jnp.array(up.astype(du)))
                m.close('decode', np.asarray(got), want, 1e-5)
        got = ml.cholesky_decode(jnp.array(diag.astype(float)), jnp.array(up.real))
        m.close('decode', np.asarray(got), ref_decode(diag, up.real)[0], 1e-11)
        par = np.concatenate([diag, up.real, up.imag]).astype('float32')
        m.close('from-param', np.asarray(ml.cholesky_from_param(jnp.array(par))), want, 1e-5)


def init(m):
    import jax
    from cyjax import ml
    for rng in m.cases('init', 8, 40):
        n = int(rng.choice([1, 2, 3, 5, 10, 35]))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        par = ml.hermitian_param_init(key, n)
        m.equal('shape', np.shape(par), (n * n,))
        m.close('init.identity', np.asarray(ml.cholesky_from_param(par)), np.eye(n), 1e-14)
        for dt in ('float32', 'float64'):
            m.equal('init.dtype', str(ml.hermitian_param_init(key, n, dtype=dt).dtype), dt)
        fl = 10 ** rng.uniform(-4, -1.2)
        m.note(f'n={n} fluctuate={fl:.3g}')
        par = np.asarray(ml.hermitian_param_init(key, n, fl))
        h = np.asarray(ml.cholesky_from_param(par))
        m.close('init.fluctuate', h, np.diag(np.diag(h)), 1e-15)
        m.ok('init.fluctuate', np.diag(h).real.min() > 0, 'not positive', key=h)
        m.below('init.fluctuate', np.abs(np.sqrt(np.diag(h).real) - 1).max() / fl, 7)
        m.ok('pure', np.array_equal(par, np.asarray(ml.hermitian_param_init(key, n, fl))), 'not deterministic')
        big = np.asarray(ml.hermitian_param_init(key, 400, fl))[:400]
        # centred at one, independent entries, of the requested size
        m.below('init.spread', abs(big.mean() - 1) / fl, 6 / 20)
        m.ok('init.spread', .3 * fl < big.std() < 2 * fl, f'spread {big.std() / fl}', key=big)
        m.ok('init.spread', len(set(big.tolist())) > 350, 'repeated fluctuations', key=big)


WORKLOADS = {'decode': decode, 'types': types, 'init': init}
