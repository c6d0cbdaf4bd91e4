"""Random arrays passed through the array helpers and compared with numpy list semantics."""
import math

import numpy as np

REQUIRED = ['pop.value', 'pop.rest', 'pop.traced', 'insert', 'insert.traced', 'insert-col',
            'insert-col.traced', 'shuffle.perm', 'shuffle.uniform', 'shuffle.independent',
            'flatten', 'unflatten', 'binomial', 'prod', 'prod.unchanged', 'inputs-unchanged', 'inverse']

DTYPES = [np.float64, np.complex128, np.int64, np.float32, np.complex64, np.int32]


def array(rng, shape, dtype=None):
    dtype = dtype or DTYPES[rng.integers(len(DTYPES))]
    a = rng.normal(size=shape) * 10
    if np.issubdtype(dtype, np.complexfloating):
        a = a + 1j * rng.normal(size=shape)
    return a.astype(dtype)


def popping(m):
    import jax
    from cyjax.util import pop, insert_1d
    from cyverif.core import freeze
    for rng in m.cases('pop', 70, 700):
        n = int(rng.integers(1, 9))
        shape = (n, *rng.integers(1, 4, int(rng.integers(0, 3))))
        a = array(rng, shape)
        before = freeze(a)
        m.note(f'shape {shape} {a.dtype}')
        for i in range(n):
            v, rest = pop(a, i)
            m.array('pop.value', v, a[i])
            m.array('pop.rest', rest, np.delete(a, i, axis=0))
            m.equal('pop.dtype', str(rest.dtype), str(a.dtype))
        idx = rng.integers(0, n, 4)
        v, rest = jax.vmap(pop, (None, 0))(a, idx)
        m.array('pop.traced', v, np.stack([a[i] for i in idx]))
        m.array('pop.traced', rest, np.stack([np.delete(a, i, axis=0) for i in idx]))
        m.ok('inputs-unchanged', freeze(a) == before)
        if len(shape) == 1:
            i = int(rng.integers(n))
            v, rest = pop(a, i)
            m.array('inverse', insert_1d(rest, v, i), a)


def inserting(m):
    import jax
    from cyjax.util import insert_1d, insert_col, pop
    from cyverif.core import freeze
    for rng in m.cases('insert', 60, 600):
        n, k = int(rng.integers(0, 8)), int(rng.integers(1, 4))
        dtype = DTYPES[rng.integers(len(DTYPES))]
        a = array(rng, (n,), dtype)
        val = array(rng, () if rng.integers(2) else (k,), dtype)
        k = max(val.size, 1)
        before = freeze(a, val)
        m.note(f'insert {val.shape} into {n}')

        def want(i):
            pos = i if i >= 0 else n + 1 + i
            return np.concatenate([a[:pos], np.atleast_1d(val), a[pos:]])
        for i in range(-(n + 1), n + 1):
            m.array('insert', insert_1d(a, val, i), want(i))
        idx = rng.integers(-(n + 1), n + 1, 4)
        m.array('insert.traced', jax.vmap(insert_1d, (None, None, 0))(a, val, idx),
                np.stack([want(i) for i in idx]))
        m.ok('inputs-unchanged', freeze(a, val) == before)

        rows, cols, c = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(1, 3))
        mat = array(rng, (rows, cols), dtype)
        col = array(rng, (rows,) if rng.integers(2) else (rows, c), dtype)
        c2 = col.reshape(rows, -1)
        m.note(f'insert column {col.shape} into {mat.shape}')

        def wantc(i):
            pos = i if i >= 0 else cols + 1 + i
            return np.concatenate([mat[:, :pos], c2, mat[:, pos:]], 1)
        for i in range(-(cols + 1), cols + 1):
            m.array('insert-col', insert_col(mat, col, i), wantc(i))
        idx = rng.integers(-(cols + 1), cols + 1, 4)
        m.array('insert-col.traced', jax.vmap(insert_col, (None, None, 0))(mat, col, idx),
                np.stack([wantc(i) for i in idx]))


def shuffling(m):
    import jax
    from cyjax.util import shuffle_axis
    for rng in m.cases('shuffle', 50, 400):
        nd = int(rng.integers(1, 5))
        shape = tuple(int(x) for x in rng.integers(1, 6, nd))
        axis = int(rng.integers(nd))
        x = np.arange(np.prod(shape)).reshape(shape)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        m.note(f'shape {shape} axis {axis}')
        y = np.asarray(shuffle_axis(key, x, axis))
        m.equal('shuffle.perm', y.shape, shape)
        for i in np.ndindex(shape[:axis]):
            old = [s.tobytes() for s in np.ascontiguousarray(x[i])]
            new = [s.tobytes() for s in np.ascontiguousarray(y[i]).astype(x.dtype)]
            m.ok('shuffle.perm', sorted(old) == sorted(new),
                 f'slices along axis {axis} are not permuted: {x[i]} -> {y[i]}', key=(shape, axis, i))
        m.array('shuffle.pure', shuffle_axis(key, x, axis), y)
    # statistics: all permutations of each row equally likely, rows independent
    for (shape, axis), rng in m.each('uniform', [((3000, 3), 1), ((50, 60, 3, 2), 2), ((2, 4000, 4), 2)]):
        x = np.broadcast_to(np.arange(shape[axis]).reshape([-1 if i == axis else 1 for i in range(len(shape))]),
                            shape).copy()
        y = np.asarray(shuffle_axis(jax.random.PRNGKey(int(rng.integers(2 ** 31))), x, axis))
        rows = np.moveaxis(y, axis, -1)
        if len(shape) == 4:
            rows = rows[:, :, 0]
        rows = rows.reshape(-1, shape[axis])
        perms, counts = np.unique(rows, axis=0, return_counts=True)
        k = math.factorial(shape[axis])
        m.equal('shuffle.uniform', len(perms), k)
        chi = float(((counts - len(rows) / k) ** 2 / (len(rows) / k)).sum())
        m.below('shuffle.uniform', chi, (k - 1) + 8 * math.sqrt(2 * (k - 1)) + 20)
        same = np.mean(np.all(rows[1:] == rows[:-1], axis=1))
        m.below('shuffle.independent', abs(same - 1 / k), 7 * math.sqrt(1 / k / len(rows)))


def flattening(m):
    from cyjax.util import flatten_coord, unflatten_coord
    for rng in m.cases('flatten', 60, 500):
        shape = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 5))))
        z = array(rng, shape, np.complex128)
        m.note(f'shape {shape}')
        flat, old = flatten_coord(z)
        m.array('flatten', flat, z.reshape(-1, shape[-1]))
        m.equal('flatten', tuple(old), shape[:-1])
        m.array('unflatten', unflatten_coord(flat, old), z)
        (a, b), old = flatten_coord(z, need_c=True)
        m.array('flatten', b, z.reshape(-1, shape[-1]).conj())
        c = array(rng, shape, np.complex128)
        (a, b), old = flatten_coord(z, c, True)
        m.array('flatten', a, z.reshape(-1, shape[-1]))
        m.array('flatten', b, c.reshape(-1, shape[-1]))
        n = int(np.prod(shape[:-1]))
        mats = rng.normal(size=(n, 2, 3))
        m.array('unflatten', unflatten_coord(mats, old), mats.reshape(*shape[:-1], 2, 3))
        t = unflatten_coord((mats, mats[:, 0]), old)
        m.array('unflatten', t[0], mats.reshape(*shape[:-1], 2, 3))
        m.array('unflatten', t[1], mats[:, 0].reshape(*shape[:-1], 3))


def numbers(m):
    from cyjax.util import binomial, prod
    from cyverif.core import freeze
    for n, rng in m.each('binomial', list(range(0, 70, 3)) + [1, 2, 4, 5, 100, 200]):
        for k in range(0, n + 1):
            m.equal('binomial', binomial(n, k), math.comb(n, k))
    for rng in m.cases('prod', 60, 500):
        k = int(rng.integers(0, 6))
        shape = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
        fs = [array(rng, shape, np.float64) for _ in range(k)]
        before = freeze(fs)
        m.note(f'{k} factors of shape {shape}')
        want = np.ones(()) if k == 0 else math.prod(fs[1:], start=fs[0])
        m.close('prod', prod(fs), want, 1e-12)
        m.close('prod', prod(f for f in fs), want, 1e-12)
        m.ok('prod.unchanged', freeze(fs) == before, 'product modified its factors')
        ints = [int(x) for x in rng.integers(1, 50, 12)]
        m.equal('prod', int(prod(ints)), math.prod(ints))


WORKLOADS = {'popping': popping, 'inserting': inserting, 'shuffling': shuffling,
             'flattening': flattening, 'numbers': numbers}
