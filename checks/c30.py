"""Random varieties, H matrices (also indefinite) and samples; an independent reference of eta and the loss decides."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['value', 'value.penalty', 'non-negative', 'constant', 'scale', 'permutation', 'gradient',
            'gradient.penalty', 'duplicate', 'symmetric', 'real', 'vmap', 'weights.scale', 'unweighted', 'positive']


def ref_loss(eta, w, mean=None):
    mean = np.mean(w * eta) / np.mean(w) if mean is None else mean
    return np.mean(w * (eta / mean - 1) ** 2) + np.mean(np.log(np.where(eta < 0, eta, 0) ** 2 + 1)), mean


def sample(rng, s, count):
    v, par = s['v'], s['par']
    hom = v.sample(rng, par, count)
    pts = []
    for z in hom:
        patch = geo.best_patch(z)
        pts.append((geo.to_affine(z, patch), patch))
    return np.array([p[0] for p in pts]), np.array([p[1] for p in pts])


def etas(s, h, zs, patch):
    ref = geo.RefMetric(s['v'], s['ref'].p, s['k'], h)
    out = []
    for z, p in zip(zs, patch):
        dep = int(np.argmax(np.abs(s['v'].grad_affine(z, s['par'], int(p)))))
        out.append(np.real(ref.eta(z, s['par'], int(p), dep)))
    return np.array(out)


def hermitian(rng, n):
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return (a + a.conj().T) / 2


def loss(m, name, indefinite):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    for rng in m.cases(name, 3, 25):
        s = geo.setting(rng, max_size=10)
        m.note(s['text'])
        metric, n = s['metric'], len(s['h'])
        zs, patch = sample(rng, s, int(rng.integers(3, 9)))
        w = rng.uniform(.1, 3, size=len(zs))
        h = s['h']
        if indefinite:
            # mix until some but not all etas are negative
            for _ in range(60):
                h = np.eye(n) + rng.uniform(.3, 1.5) * hermitian(rng, n)
                e = etas(s, h, zs, patch)
                if (e < -1e-3).any() and abs(np.mean(w * e)) > .05 * np.mean(w * np.abs(e)) \
                        and ref_loss(e, w)[0] < 50:
                    break
            else:
                continue
        e = etas(s, h, zs, patch)
        want, mean = ref_loss(e, w)
        tag = '.penalty' if indefinite else ''
        par = jnp.array(s['par'])

        def f(h, zs=zs, patch=patch, w=w, par=par):
            return ml.variance_eta_loss(jnp.array(h), (par, jnp.array(zs), jnp.array(patch), jnp.array(w)), metric)
        got = f(h)
        tol = 1e-7
        m.equal('real', (np.shape(got), np.iscomplexobj(np.asarray(got))), ((), False))
        m.close('value' + tag, float(got), want, tol, scale=1 + want)
        m.ok('non-negative', float(got) >= 0, f'{got}', key=e)
        if np.ptp(e) > 1e-3 * np.abs(e).max():
            m.ok('positive', float(got) > 1e-12, 'zero for varying eta', key=e)
        m.close('scale', float(f(h * 10 ** rng.uniform(-8, 8))), want, tol, scale=1 + want)
        p = rng.permutation(len(zs))
        m.close('permutation', float(f(h, zs[p], patch[p], w[p])), want, tol, scale=1 + want)
        c = rng.uniform(.2, 5)
        m.close('weights.scale', float(f(h, w=w * c)), ref_loss(e, w * c)[0], tol, scale=1 + c * want)
        m.close('unweighted', float(f(h, w=np.ones(len(zs)))), ref_loss(e, np.ones(len(zs)))[0], tol, scale=1 + want)
        # all points equal: constant eta
        i = int(np.argmax(e))
        if e[i] > 0:
            k = np.full(4, i)
            m.close('constant', float(f(h, zs[k], patch[k], w[:3][[0, 1, 2, 0]])), 0., 1e-9)
        # doubling the sample changes nothing
        k = np.concatenate([np.arange(len(zs))] * 2)
        m.close('duplicate', float(f(h, zs[k], patch[k], w[k])), want, tol, scale=1 + want)
        # gradient with the mean held fixed
        d = hermitian(rng, n)
        _, tan = jax.jvp(lambda t: f(jnp.array(h) + t * d), (0.,), (1.,))
        fd = []
        for eps in (2e-5, 4e-5, 8e-5):
            a, b = (ref_loss(etas(s, h + t * d, zs, patch), w, mean)[0] for t in (eps, -eps))
            fd.append((a - b) / 2 / eps)
        fd, coarse = (4 * fd[0] - fd[1]) / 3, (4 * fd[1] - fd[2]) / 3
        if abs(fd - coarse) < 1e-6 * (1 + abs(fd)):  # not next to a zero of the norm
            m.close('gradient' + tag, float(tan), fd, 1e-5, scale=1 + abs(fd))
        # batches over parameters and H, as used in training
        hs = np.stack([h, np.eye(n), s['h']])
        got = jax.vmap(ml.variance_eta_loss, (0, 0, None))(
            jnp.array(hs), tuple(jnp.stack([jnp.array(a)] * 3) for a in (s['par'], zs, patch, w)), metric)
        want3 = [ref_loss(etas(s, a, zs, patch), w)[0] for a in hs]
        m.close('vmap', np.asarray(got), np.array(want3), tol, scale=1 + np.max(want3))


def symmetric(m):
    """Points related by symmetries of variety and metric have constant eta."""
    import jax.numpy as jnp
    import cyjax
    from cyjax import ml, donaldson
    for rng in m.cases('symmetric', 3, 12):
        n = int(rng.choice([3, 4]))
        v = geo.fermat(n)
        variety = v.build()
        k = int(rng.integers(1, 3))
        sec = donaldson.MonomialBasisFull(n - 1, k)
        metric = donaldson.AlgebraicMetric(variety, sec)
        h = np.diag(rng.uniform(.5, 2, size=sec.size)).astype(complex)
        z = v.sample(rng, np.zeros(0), 1)[0]
        pts = z * np.exp(2j * np.pi * rng.integers(n, size=(6, n)) / n)
        zs, patch = (np.asarray(a) for a in cyjax.hom_to_affine(jnp.array(pts)))
        w = rng.uniform(.1, 3, size=6)
        m.note(f'Fermat {n}, degree {k}')
        got = ml.variance_eta_loss(jnp.array(h), (None, jnp.array(zs), jnp.array(patch), jnp.array(w)), metric)
        m.close('symmetric', float(got), 0., 1e-9)
        m.ok('symmetric', True, key=pts)


WORKLOADS = {'definite1': lambda m: loss(m, 'definite1', False), 'definite2': lambda m: loss(m, 'definite2', False),
             'indefinite1': lambda m: loss(m, 'indefinite1', True),
             'indefinite2': lambda m: loss(m, 'indefinite2', True), 'symmetric': symmetric}
