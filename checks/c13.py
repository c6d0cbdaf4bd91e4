"""Weights of points on random varieties for all patches and dependents against numpy determinants."""
from math import factorial

import numpy as np

from cyverif import geometry as geo

REQUIRED = ['value', 'positive', 'separate', 'dependent-free', 'patch-free', 'vol', 'vol.separate',
            'default-dependent', 'batched', 'unnormalised']


def cy_variety(rng, n):
    """Degree equal to the number of coordinates."""
    k = rng.integers(4)
    if k == 0:
        return geo.dwork(n, [True, False, 2.][rng.integers(3)])
    if k == 1:
        return geo.fermat(n)
    return geo.rescaled(rng, geo.random_variety(rng, n, n, density=.2 if n > 4 else .4), .5)


def run(m, name, quick, thorough, cy):
    for rng in m.cases(name, quick, thorough):
        n = int(rng.integers(3, 6))
        v = cy_variety(rng, n) if cy else geo.any_variety(rng, n=n)
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        variety = v.build()
        w_fn = variety.sample_intersect_weights
        pts = v.sample(rng, par, 4)
        for h in pts[:m.pick(2, 4)]:
            per_patch = []
            for patch in range(n):
                if abs(h[patch]) < .05 * abs(h).max():
                    continue
                z = geo.to_affine(h, patch)
                vals = []
                grad = np.abs(v.grad_affine(z, par, patch))
                if grad.max() < 1e-3 * v.height:
                    continue
                for dep in range(n - 1):
                    if grad[dep] < .02 * grad.max():
                        continue
                    w = np.asarray(w_fn(z, par, patch, dep))
                    rw, rvol, rdet = geo.weight(v, z, par, patch, dep)
                    m.close('value', w / rw, np.ones(()), 1e-7, key=rw)
                    m.ok('positive', np.isrealobj(w) and w > 0, f'{w}')
                    vol, det = map(np.asarray, w_fn(z, par, patch, dep, separate=True))
                    m.close('separate', [vol / rvol, det / rdet], np.ones(2), 1e-7, key=rvol)
                    vals.append(w)
                vals = np.array(vals)
                m.close('dependent-free', vals / vals[0], np.ones(len(vals)), 1e-6, key=vals)
                w0 = np.asarray(w_fn(z, par, patch))
                m.close('default-dependent', w0 / vals[0], np.ones(()), 1e-6, key=vals)
                per_patch.append(w0)
                factor = float(rng.choice([2., .25, 7.5]))
                dep = int(np.argmax(grad))
                m.close('vol', np.asarray(w_fn(z, par, patch, vol=factor)) / w0, np.asarray(factor), 1e-6,
                        key=w0)
                rw, rvol, rdet = geo.weight(v, z, par, patch, dep, factor)
                vol, det = map(np.asarray, w_fn(z, par, patch, dep, factor, True))
                m.close('vol.separate', [vol / rvol, det / rdet], np.ones(2), 1e-7, key=rvol)
            if cy and len(per_patch) > 1:
                p = np.array(per_patch)
                m.close('patch-free', p / p[0], np.ones(len(p)), 1e-5, key=p)
        # points with individual patches in one call
        patch = np.array([int(np.argmax(np.abs(h) * rng.uniform(.5, 1, n))) for h in pts])
        zs = geo.to_affine(pts, patch)
        w = np.asarray(w_fn(zs, par, patch))
        ref = [geo.weight(v, z, par, p, int(np.argmax(np.abs(v.grad_affine(z, par, p)))))[0]
               for z, p in zip(zs, patch)]
        m.close('batched', w / ref, np.ones(len(ref)), 1e-6, key=ref)
        dep = np.array([int(np.argmax(np.abs(v.grad_affine(z, par, p)))) for z, p in zip(zs, patch)])
        pars = np.tile(par, (len(zs), 1))
        w = np.asarray(w_fn(zs, pars, patch, dep))
        m.close('batched', w / ref, np.ones(len(ref)), 1e-6, key=ref)
        # vol=None: plain densities without normalisation
        z, p, d = zs[0], int(patch[0]), int(dep[0])
        rw, rvol, rdet = geo.weight(v, z, par, p, d)
        vol, det = map(np.asarray, w_fn(z, par, p, d, None, True))
        dim = v.dim
        m.close('unnormalised', [vol / rvol, det / rdet * factorial(dim) / np.pi ** dim], np.ones(2), 1e-6,
                key=rw)


WORKLOADS = {
    'cy1': lambda m: run(m, 'cy1', 3, 25, True), 'cy2': lambda m: run(m, 'cy2', 3, 25, True),
    'general1': lambda m: run(m, 'general1', 3, 25, False),
    'general2': lambda m: run(m, 'general2', 3, 25, False)}
