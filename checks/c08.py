"""Random points in all charts: Fubini-Study metric and potential against closed forms and tensor laws."""
import numpy as np

REQUIRED = ['metric', 'potential', 'hermitian', 'positive', 'hessian', 'hessian.numeric', 'chart', 'unitary',
            'potential.hom', 'potential.scale', 'continued.metric', 'continued.potential',
            'generic-hessian', 'generic-hessian.args', 'inputs-unchanged']


def points(rng, dim, batch=(), big=True):
    z = rng.normal(size=(*batch, dim)) + 1j * rng.normal(size=(*batch, dim))
    k = rng.integers(5)
    if k == 0:
        z = z * 10. ** rng.uniform(-6, 0)
    elif k == 1 and big:
        z = z * 10. ** rng.uniform(0, 3)
    elif k == 2:
        z = z * (rng.random(z.shape) < .5)
    elif k == 3 and big:
        z = z * 10. ** rng.uniform(-3, 3, z.shape)
    return z


def metric_ref(z, zc=None):
    zc = z.conj() if zc is None else zc
    n = 1 + np.sum(z * zc, -1)[..., None, None]
    return np.eye(z.shape[-1]) / n - zc[..., :, None] * z[..., None, :] / n ** 2


def values(m):
    import cyjax
    from cyverif.core import freeze
    for rng in m.cases('values', 90, 900):
        dim = int(rng.integers(1, 7))
        batch = [(), (4,), (2, 3), (1, 1, 2)][rng.integers(4)]
        z = points(rng, dim, batch)
        m.note(f'dim {dim} batch {batch} |z| up to {np.abs(z).max():.3g}')
        before = freeze(z)
        g = np.asarray(cyjax.fs_metric(z))
        ref = metric_ref(z)
        for i in np.ndindex(batch):
            m.close('metric', g[i], ref[i], 1e-7)
            m.close('hermitian', g[i], g[i].conj().T, 1e-8)
            ev = np.linalg.eigvalsh(g[i])
            n = 1 + np.sum(np.abs(z[i]) ** 2)
            m.ok('positive', ev[0] > 0 or n > 1e6, f'eigenvalues {ev}')
        k = np.asarray(cyjax.fs_potential(z))
        m.close('potential', k, np.log(1 + np.sum(np.abs(z) ** 2, -1)), 1e-9, 1e-6)
        m.ok('inputs-unchanged', freeze(z) == before)
        # homogeneous coordinates
        h = points(rng, dim + 1, batch, False) + .1
        p = int(rng.integers(dim + 1))
        aff = np.delete(h / h[..., p:p + 1], p, -1)
        kh = np.asarray(cyjax.fs_potential(h, hom=True))
        m.close('potential.hom', kh, np.asarray(cyjax.fs_potential(aff)) + 2 * np.log(np.abs(h[..., p])), 1e-9, 1.)
        lam = complex(*rng.normal(size=2))
        m.close('potential.scale', np.asarray(cyjax.fs_potential(lam * h, hom=True)), kh + 2 * np.log(abs(lam)), 1e-9, 1.)
        # continued to independent conjugate coordinates
        zc = z.conj() * (1 + .2 * (rng.normal(size=z.shape) + 1j * rng.normal(size=z.shape)) / 3)
        n = 1 + np.sum(z * zc, -1)
        if np.all(n.real > .1):
            gc = np.asarray(cyjax.fs_metric(z, zc))
            rc = metric_ref(z, zc)
            for i in np.ndindex(batch):
                m.close('continued.metric', gc[i], rc[i], 1e-7)
            m.close('continued.potential', np.asarray(cyjax.fs_potential(z, zc)), np.log(n), 1e-8, 1e-3)
        hc = h.conj() * (1 + .1j * rng.normal(size=h.shape))
        nh = np.sum(h * hc, -1)
        if np.all(nh.real > .1):
            m.close('continued.potential', np.asarray(cyjax.fs_potential(h, hc, hom=True)), np.log(nh), 1e-9, 1.)


def derivatives(m):
    import cyjax
    hess = cyjax.complex_hessian(cyjax.fs_potential)
    for rng in m.cases('derivatives', 25, 200):
        dim = int(rng.integers(1, 6))
        z = points(rng, dim, (), False)
        m.note(f'{z}')
        m.close('hessian', hess(z, z.conj()), metric_ref(z), 1e-9)
        zc = z.conj() * (1 + .1j * rng.normal(size=dim))
        m.close('hessian', hess(z, zc), metric_ref(z, zc), 1e-8)
        # second differences of observed potential values
        g = np.asarray(cyjax.fs_metric(z))
        v = rng.normal(size=(3, dim)) + 1j * rng.normal(size=(3, dim))
        v /= np.linalg.norm(v, axis=1, keepdims=True)
        roots = np.exp(2j * np.pi * np.arange(16) / 16)
        for d in v:
            r = .02
            pts = z + r * roots[:, None] * d
            k0 = float(np.asarray(cyjax.fs_potential(z)).real)
            m2 = (np.mean(np.asarray(cyjax.fs_potential(pts)).real) - k0) / r ** 2
            pts = z + 2 * r * roots[:, None] * d
            m4 = (np.mean(np.asarray(cyjax.fs_potential(pts)).real) - k0) / (4 * r ** 2)
            m.close('hessian.numeric', (4 * m2 - m4) / 3, (d @ g @ d.conj()).real, 1e-4)


def tensor(m):
    import cyjax
    for rng in m.cases('tensor', 60, 600):
        dim = int(rng.integers(1, 6))
        h = rng.normal(size=dim + 1) + 1j * rng.normal(size=dim + 1)
        p, q = map(int, rng.integers(0, dim + 1, 2))
        h = h / h[p]
        z = np.delete(h, p)
        w = np.asarray(cyjax.change_chart(z, p, q))
        m.note(f'{p}->{q} {z}')
        eye = np.eye(dim + 1)
        jac = eye / h[q] - np.outer(h, eye[q]) / h[q] ** 2  # d(h_a / h_q) / d h_i
        jac = np.delete(np.delete(jac, q, 0), p, 1)
        gz, gw = np.asarray(cyjax.fs_metric(z)), np.asarray(cyjax.fs_metric(w))
        m.close('chart', jac.T @ gw @ jac.conj(), gz, 1e-9)
        # unitary rotation
        u = np.linalg.qr(rng.normal(size=(dim + 1,) * 2) + 1j * rng.normal(size=(dim + 1,) * 2))[0]
        hu = u @ h
        jac = u / hu[q] - np.outer(hu, u[q]) / hu[q] ** 2
        jac = np.delete(np.delete(jac, q, 0), p, 1)
        w = np.asarray(cyjax.hom_to_affine(hu, q))
        m.close('unitary', jac.T @ np.asarray(cyjax.fs_metric(w)) @ jac.conj(), gz, 1e-8)


def generic(m):
    """Mixed Hessian of other potentials with the arguments in any position."""
    import cyjax
    import jax.numpy as jnp
    for rng in m.cases('generic', 30, 250):
        n, k = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        a = rng.normal(size=(k, n)) + 1j * rng.normal(size=(k, n))
        b = rng.normal(size=k) + 1j * rng.normal(size=k)
        s = float(rng.uniform(.5, 2))
        z = rng.normal(size=n) + 1j * rng.normal(size=n)
        zc = z.conj() if rng.integers(2) else z.conj() * (1 + .05j)
        pos = rng.permutation(4)
        iz, ic, ia, ib = map(int, pos)
        m.note(f'positions {pos} n {n} k {k}')

        def potential(*args):
            """Documented potential."""
            x, xc, mat, off = args[iz], args[ic], args[ia], args[ib]
            return jnp.log(s + jnp.sum((mat @ x + off) * (mat.conj() @ xc + off.conj())))
        f, fc = a @ z + b, a.conj() @ zc + b.conj()
        nn = s + f @ fc
        want = (a.T @ a.conj()) / nn - np.outer(a.T @ fc, a.conj().T @ f) / nn ** 2
        args = [None] * 4
        args[iz], args[ic], args[ia], args[ib] = z, zc, a, b
        name = 'generic-hessian' if (iz, ic) == (0, 1) else 'generic-hessian.args'
        m.close(name, cyjax.complex_hessian(potential, iz, ic)(*args), want, 1e-8)
        # default positions

        def default(x, xc, mat, off):
            return jnp.log(s + jnp.sum((mat @ x + off) * (mat.conj() @ xc + off.conj())))
        m.close('generic-hessian', cyjax.complex_hessian(default)(z, zc, a, b), want, 1e-8)
        # not log: non-symmetric under exchange of the two arguments
        c = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        m.close('generic-hessian', cyjax.complex_hessian(lambda x, xc: x @ c @ xc + jnp.sum(x ** 3))(z, zc), c, 1e-9)


WORKLOADS = {'values': values, 'derivatives': derivatives, 'tensor': tensor, 'generic': generic}
