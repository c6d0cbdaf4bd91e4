"""Gradients, embeddings and pullbacks of random varieties against dictionary derivatives and Newton steps."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['defining', 'gradient.hom', 'gradient.affine', 'euler', 'jacobian', 'tangent', 'implicit',
            'best-dependent', 'jacobian.default', 'induced', 'induced.default', 'induced.fs', 'hermitian',
            'positive', 'functions', 'separate-conjugate', 'batched', 'inputs-unchanged', 'poly']


def scale_of(v, h, par):
    """Bound of the gradient terms, relative scale of rounding errors."""
    x = v._flat(h, par)
    return max(float(np.max(d.size_flat(x))) for d in v._diff) + 1e-30


def run(m, name):
    import cyjax
    from cyverif.core import freeze
    for rng in m.cases(name, 4, 30):
        v = geo.any_variety(rng, pure=bool(rng.integers(4)))
        n = v.n
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        variety = v.build()
        m.equal('poly', (variety.dim_complex, variety.dim_projective, variety.dim, variety.dim_variety,
                         variety.par_count, len(variety.parameters), variety.num_defining),
                (n, n - 1, n - 2, n - 2, len(v.params), len(v.params), 1))
        # homogeneous coordinates, off the variety too
        hs = np.concatenate([v.sample(rng, par, 2), rng.normal(size=(2, n)) + 1j * rng.normal(size=(2, n)),
                             [np.eye(n)[rng.integers(n)] + 0j]])
        for h in hs:
            h = h * rng.uniform(.5, 3)
            before = freeze(h, par)
            g = np.asarray(variety.grad_defining(h, par))
            sc = scale_of(v, h, par)
            m.close('gradient.hom', g, v.grad(h, par), 1e-9, sc)
            val = np.asarray(variety.defining(h, par))
            m.close('defining', val, v.value(h, par), 1e-9, float(v.size(h, par)) + 1e-30)
            m.close('euler', g @ h, v.degree * v.value(h, par), 1e-8, sc * np.abs(h).sum())
            m.ok('inputs-unchanged', freeze(h, par) == before)
        # affine points
        for h in hs[:4]:
            order = np.argsort(-np.abs(h))
            for patch in order[:2]:
                patch = int(patch)
                z = geo.to_affine(h, patch)
                sc = scale_of(v, geo.insert(z, patch), par)
                ref = v.grad_affine(z, par, patch)
                g = np.asarray(variety.grad_defining(z, par, patch))
                m.close('gradient.affine', g, ref, 1e-9, sc)
                m.close('defining', np.asarray(variety.defining(z, par, patch)), v.value(geo.insert(z, patch), par),
                        1e-9, float(v.size(geo.insert(z, patch), par)) + 1e-30)
                best = int(np.argmax(np.abs(ref)))
                top = np.sort(np.abs(ref))[::-1]
                clear = top[0] > top[1] * (1 + 1e-8)
                if clear:
                    m.equal('best-dependent', int(variety.best_dependent(z, par, patch)), best)
                jac, dep = variety.jacobian_embed(z, par, patch)
                if clear:
                    m.equal('best-dependent', int(dep), best)
                m.close('jacobian.default', np.asarray(jac), geo.jacobian(ref, int(dep)), 1e-8)
                a = geo.random_h(rng, n - 1) + 0j
                gi, dep = variety.induced_metric(a, z, par, patch)
                j = geo.jacobian(ref, int(dep))
                m.close('induced.default', np.asarray(gi), j @ a @ j.conj().T, 1e-8)
                gi, dep = variety.induced_fs(z, par, patch)
                j = geo.jacobian(ref, int(dep))
                m.close('induced.default', np.asarray(gi), j @ geo.fs_metric(z) @ j.conj().T, 1e-8)
                for dep in range(n - 1):
                    if abs(ref[dep]) < 1e-3 * top[0]:
                        continue
                    j = np.asarray(variety.jacobian_embed(z, par, patch, dep))
                    rj = geo.jacobian(ref, dep)
                    m.close('jacobian', j, rj, 1e-8)
                    m.close('tangent', j @ ref, np.zeros(n - 2), 1e-8, np.abs(j).max() * top[0])
                    m.close('functions', np.asarray(cyjax.jacobian_embed(ref, dep)), rj, 1e-8)
                    fs = np.asarray(variety.induced_fs(z, par, patch, dependent=dep))
                    rfs = rj @ geo.fs_metric(z) @ rj.conj().T
                    m.close('induced.fs', fs, rfs, 1e-8)
                    m.close('hermitian', fs, fs.conj().T, 1e-10)
                    if np.linalg.cond(rfs) < 1e8:
                        m.ok('positive', np.linalg.eigvalsh(fs).min() > 0, f'{fs}')
                    met = rng.normal(size=(n - 1, n - 1)) + 1j * rng.normal(size=(n - 1, n - 1))
                    want = rj @ met @ rj.conj().T
                    m.close('induced', np.asarray(variety.induced_metric(met, z, par, patch, dependent=dep)),
                            want, 1e-8)
                    m.close('functions', np.asarray(cyjax.induced_metric(met, ref, dep)), want, 1e-8)
                    m.close('functions', np.asarray(cyjax.induced_metric(met, ref, dep, ref.conj())), want, 1e-8)
        # the Jacobian is the derivative of the implicit embedding
        for z, patch, dep in v.points(rng, par, 2):
            x = np.delete(z, dep)
            num = geo.d_hol(lambda y: v.complete(y, par, patch, dep, z[dep]), x, .01).T
            j = np.asarray(variety.jacobian_embed(z, par, patch, dep))
            m.close('implicit', j, num, 1e-5, max(np.abs(num).max(), 3e6 * geo.d_hol.error))
        # one call with different patches
        patch = geo.best_patch(hs[:4])
        zs = geo.to_affine(hs[:4], patch)
        ref = np.array([v.grad_affine(z, par, p) for z, p in zip(zs, patch)])
        m.close('batched', np.asarray(variety.grad_defining(zs, par, patch)), ref, 1e-8)
        gi, dep = variety.induced_fs(zs, par, patch)
        dep = np.asarray(dep)
        want = [geo.jacobian(r, int(d)) @ geo.fs_metric(z) @ geo.jacobian(r, int(d)).conj().T
                for r, d, z in zip(ref, dep, zs)]
        m.close('batched', np.asarray(gi), want, 1e-8)


def separate(m):
    """Conjugate coordinates passed as independent argument."""
    import jax
    for rng in m.cases('separate', 6, 40):
        v = geo.rescaled(rng, geo.random_variety(rng)) if rng.integers(3) else geo.dwork(int(rng.integers(3, 6)))
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        variety = v.build()
        for h in v.sample(rng, par, 2):
            patch = int(geo.best_patch(h))
            z = geo.to_affine(h, patch)
            grad = v.grad_affine(z, par, patch)
            dep = int(np.argmax(np.abs(grad)))
            a = np.asarray(variety.induced_fs(z, par, patch, z.conj(), dep))
            b = np.asarray(variety.induced_fs(z, par, patch, dependent=dep))
            m.close('separate-conjugate', a, b, 1e-9)
            # an independent second argument enters antiholomorphically
            w = z + .1 * (rng.normal(size=v.n - 1) + 1j * rng.normal(size=v.n - 1))
            gw = v.grad_affine(w, par, patch)
            n = 1 + np.sum(z * w.conj())
            fs = np.eye(v.n - 1) / n - np.outer(w.conj(), z) / n ** 2
            want = geo.jacobian(grad, dep) @ fs @ geo.jacobian(gw, dep).conj().T
            m.close('separate-conjugate', np.asarray(variety.induced_fs(z, par, patch, w.conj(), dep)), want, 1e-8)
        # and can be differentiated on its own
        f = jax.jit(lambda c: variety.induced_fs(z, par, patch, c, dep)[0, 0])
        d = np.asarray(jax.grad(f, holomorphic=True)(z.conj() + 0j))
        e = np.eye(v.n - 1) * 1e-4
        c = np.asarray(z).conj()
        num = np.array([(8 * (f(c + x) - f(c - x)) - f(c + 2 * x) + f(c - 2 * x)) / 12e-4 for x in e])
        m.close('separate-conjugate', d, num, 1e-6, max(np.abs(d).max(), np.abs(a).max()))


WORKLOADS = {'random1': lambda m: run(m, 'random1'), 'random2': lambda m: run(m, 'random2'),
             'random3': lambda m: run(m, 'random3'), 'separate': separate}
