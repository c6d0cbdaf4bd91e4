"""All completions of random partial points against numpy roots of dictionary coefficients."""
import numpy as np

from cyverif import geometry as geo

REQUIRED = ['count', 'given-kept', 'on-variety', 'all-roots', 'batched', 'homogeneous', 'known-point', 'small-root',
            'inputs-unchanged']


def univariate(v, h, i, par):
    """Coefficients (highest first) in coordinate i, other entries from h."""
    d = v.degree
    rad = 1.
    t = rad * np.exp(2j * np.pi * np.arange(d + 1) / (d + 1))
    pts = np.tile(h, (d + 1, 1))
    pts[:, i] = t
    vals = v.value(pts, par)
    return np.array([np.mean(vals * t ** -k) for k in range(d + 1)])[::-1]


def match(a, b):
    """Largest distance in a greedy matching of two sets of numbers."""
    b = list(b)
    worst = 0.
    for x in a:
        k = int(np.argmin([abs(x - y) for y in b]))
        worst = max(worst, abs(x - b.pop(k)))
    return worst


def run(m, name, quick, thorough):
    from cyverif.core import freeze
    for rng in m.cases(name, quick, thorough):
        v = geo.any_variety(rng, pure=bool(rng.integers(2)))
        n = v.n
        # degree in each coordinate
        degs = [max(e[i] for e in v.ref.terms) for i in range(n)]
        par = geo.random_params(rng, v)
        m.note(f'{v.text} at {par}')
        variety = v.build()
        combos = [(p, k) for p in range(n) for k in range(n - 1)] + [(None, k) for k in range(n)]
        pick = [combos[i] for i in rng.permutation(len(combos))[:m.pick(6, 12)]]
        if not any(p is None for p, _ in pick):
            pick.append((None, int(rng.integers(n))))
        for patch, dep in pick:
            hdep = dep if patch is None or dep < patch else dep + 1
            d = degs[hdep]
            if d == 0:
                continue
            known = v.sample(rng, par, 1)[0] * rng.uniform(.5, 2)
            full = geo.to_affine(known, patch) if patch is not None else known
            use_known = rng.integers(2) and np.abs(full).max() < 5
            if not use_known:
                full = rng.normal(size=full.shape) + 1j * rng.normal(size=full.shape)
            given = np.delete(full, dep)
            co = univariate(v, full if patch is None else geo.insert(full, patch), hdep, par)[-d - 1:]
            if np.abs(co[0]) < 1e-6 * np.abs(co).max() or np.abs(co).max() < 1e-6 * v.height:
                continue  # equation degenerates at this point
            before = freeze(given, par)
            got = np.asarray(variety.solve_defining(given, par, dep, patch))
            m.equal('count', got.shape, (d, len(full)))
            m.ok('inputs-unchanged', freeze(given, par) == before)
            m.close('given-kept', np.delete(got, dep, 1), np.tile(given, (d, 1)), 1e-12, 1.)
            hom = got if patch is None else geo.insert(got, patch)
            m.below('homogeneous' if patch is None else 'on-variety', v.residual(hom, par).max(), 1e-8)
            roots = np.roots(co)
            # sensitivity of the roots
            der = np.abs(np.polyval(np.polyder(co), roots))
            size = np.polyval(np.abs(co), np.abs(roots))
            tol = 1e-9 * max(1., float(np.max(size / np.maximum(der, 1e-300))))
            if tol < 1e-5 and len(roots) == d:
                m.below('all-roots', match(got[:, dep], roots) / (1 + np.abs(roots).max()), 10 * tol)
                if use_known:
                    m.below('known-point', np.abs(got[:, dep] - full[dep]).min() / (1 + np.abs(full[dep])), 10 * tol)
        # solutions close to zero
        for _ in range(3):
            i = int(rng.integers(n))
            if all(e[i] for e in v.ref.terms):
                continue  # contains the hyperplane
            eps = 10 ** rng.uniform(-11, -4) * np.exp(2j * np.pi * rng.uniform())
            full = v.sample(rng, par, 1, zero=i)[0]
            full = full / np.abs(full).max()
            full[i] = eps
            g = v.grad(full, par)
            j = int(np.argmax(np.abs(g) * (np.arange(n) != i)))
            if np.abs(g[j]) < 1e-2 * v.height:
                continue
            for _ in range(4):
                full[j] -= v.value(full, par) / v.grad(full, par)[j]
            co = univariate(v, full, i, par)[-degs[i] - 1:] if degs[i] else np.zeros(2)
            if np.abs(co[-2]) < .03 * v.height or np.abs(co[0]) < 1e-2 * np.abs(co).max():
                continue
            patch = None if rng.integers(2) else int(rng.choice([q for q in range(n) if q != i and abs(full[q]) > .3]))
            x, dep = (full, i) if patch is None else (geo.to_affine(full, patch), i - (patch < i))
            got = np.asarray(variety.solve_defining(np.delete(x, dep), par, dep, patch))[:, dep]
            m.below('small-root', np.abs(got - x[dep]).min(), .05 * np.abs(eps) + 1e-12 * np.abs(co).max() / v.height,
                    key=eps)
        # a batch of points with common indices
        p, k = int(rng.integers(n)), int(rng.integers(n - 1))
        d = degs[k if k < p else k + 1]
        if d == 0:
            continue
        zs = rng.normal(size=(3, n - 2)) + 1j * rng.normal(size=(3, n - 2))
        got = np.asarray(variety.solve_defining(zs, par, k, p))
        m.equal('count', got.shape, (3, d, n - 1))
        for i in range(3):
            m.close('batched', np.delete(got[i], k, 1), np.tile(zs[i], (d, 1)), 1e-12, 1.)
            hom = geo.insert(got[i], p)
            m.below('batched', v.residual(hom, par).max(), 1e-8)


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}', 4, 30)) for i in range(4)}
