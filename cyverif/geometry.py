"""Reference geometry of hypersurfaces, written with numpy only."""
from functools import wraps

import numpy as np

from . import refpoly as rp


# -- coordinates ------------------------------------------------------------
def insert(z, patch):
    """Affine to homogeneous coordinates, patch scalar or per point."""
    z = np.asarray(z)
    patch = np.broadcast_to(patch, z.shape[:-1])
    out = np.empty((*z.shape[:-1], z.shape[-1] + 1), complex)
    for i in np.ndindex(z.shape[:-1]):
        out[i] = np.insert(z[i], patch[i], 1.)
    return out


def to_affine(h, patch):
    h = np.asarray(h)
    patch = np.broadcast_to(patch, h.shape[:-1])
    out = np.empty((*h.shape[:-1], h.shape[-1] - 1), complex)
    for i in np.ndindex(h.shape[:-1]):
        out[i] = np.delete(h[i] / h[i][patch[i]], patch[i])
    return out


def best_patch(h):
    return np.argmax(np.abs(h), -1)


# -- varieties --------------------------------------------------------------
class RefVariety:
    def __init__(self, ref, make=None):
        self.ref = ref
        self.n = ref.nvar                 # homogeneous coordinates
        self.degree = ref.degree()
        self.dim = self.n - 2
        self.params = ref.params
        self._diff = [ref.diff(s) for s in ref.var_symbols]
        self._diff2 = None
        self._make = make
        self.height = max(map(abs, ref.terms.values()))

    @property
    def text(self):
        return self.ref.text()

    def build(self):
        import cyjax
        if self._make is not None:
            return self._make()
        return cyjax.VarietySingle.from_sympy(
            self.ref.text(), self.ref.variables[0][0], self.n, self.params)

    def _flat(self, h, par):
        h = np.asarray(h, complex)
        if not self.params:
            return h
        par = np.broadcast_to(np.asarray(par), (*h.shape[:-1], len(self.params)))
        return np.concatenate([h, par], -1)

    def value(self, h, par=None):
        return self.ref.value_flat(self._flat(h, par))

    def size(self, h, par=None):
        return self.ref.size_flat(self._flat(h, par))

    def residual(self, h, par=None):
        """Defining equation relative to the size its terms could have."""
        h = np.asarray(h, complex)
        big = max(1., float(np.max(np.abs(par)))) if self.params else 1.
        bound = big * sum(abs(c) for c in self.ref.terms.values()) * np.max(np.abs(h), -1) ** self.degree
        return np.abs(self.value(h, par)) / bound

    def grad(self, h, par=None):
        x = self._flat(h, par)
        return np.stack([d.value_flat(x) for d in self._diff], -1)

    def hess(self, h, par=None):
        if self._diff2 is None:
            self._diff2 = [[d.diff(s) for s in self.ref.var_symbols] for d in self._diff]
        x = self._flat(h, par)
        return np.stack([np.stack([d.value_flat(x) for d in row], -1) for row in self._diff2], -2)

    # affine patch, scalar patch index
    def grad_affine(self, z, par, patch):
        return np.delete(self.grad(insert(z, patch), par), patch, -1)

    def jac(self, z, par, patch, dep):
        """Rows: derivative of the affine by the local coordinates."""
        return jacobian(self.grad_affine(z, par, patch), dep)

    def complete(self, x, par, patch, dep, start, steps=30):
        """Solve for the dependent coordinate near start (arrays)."""
        x = np.asarray(x, complex)
        w = np.broadcast_to(np.asarray(start, complex), x.shape[:-1]).copy()
        dh = dep + (dep >= patch)
        for _ in range(steps):
            z = np.concatenate([x[..., :dep], w[..., None], x[..., dep:]], -1)
            h = insert(z, patch)
            step = self.value(h, par) / self.grad(h, par)[..., dh]
            w = w - step
            if np.all(np.abs(step) <= 1e-15 * (1 + np.abs(w))):
                break
        return np.concatenate([x[..., :dep], w[..., None], x[..., dep:]], -1)

    def sample(self, rng, par, count, zero=None):
        """Points by intersection with random lines (homogeneous, unit norm).

        The coordinate with index zero vanishes.
        """
        pts = []
        d = self.degree
        roots = np.exp(2j * np.pi * np.arange(d + 1) / (d + 1))
        while len(pts) < count:
            p, q = rng.normal(size=(2, self.n)) + 1j * rng.normal(size=(2, self.n))
            if zero is not None:
                p[zero] = q[zero] = 0
            vals = self.value(p + roots[:, None] * q, par)
            coeffs = np.array([np.mean(vals * roots ** -k) for k in range(d + 1)])
            for t in np.roots(coeffs[::-1]):
                h = p + t * q
                for _ in range(3):  # Newton along the line
                    g = self.grad(h, par) @ q
                    h = h - q * self.value(h, par) / g
                pts.append(h / np.linalg.norm(h))
        pts = [pts[i] for i in rng.permutation(len(pts))]
        return np.array(pts[:count])

    def points(self, rng, par, count, patch=None, dep=None, gap=.25):
        """Well conditioned affine points: list of (z, patch, dependent).

        The gradient component of the dependent coordinate is not small.
        """
        out = []
        for h in self.sample(rng, par, 12 * count + 20):
            p = int(rng.integers(self.n)) if patch is None else patch
            if np.abs(h[p]) < .3 * np.abs(h).max():
                continue
            z = to_affine(h, p)
            g = np.abs(self.grad_affine(z, par, p))
            good = [i for i in range(self.n - 1) if g[i] > gap * g.max() and (dep is None or dep == i)]
            if good and g.max() > 1e-3 * self.height:
                out.append((z, p, int(good[rng.integers(len(good))])))
            if len(out) == count:
                return out
        return out


def jacobian(grad, dep):
    """Jacobian for gradients (..., m) with scalar dependent index."""
    grad = np.asarray(grad)
    m = grad.shape[-1]
    out = np.zeros((*grad.shape[:-1], m - 1, m), complex)
    rest = [i for i in range(m) if i != dep]
    for r, i in enumerate(rest):
        out[..., r, i] = 1
        out[..., r, dep] = -grad[..., i] / grad[..., dep]
    return out


def random_variety(rng, n=None, degree=None, max_params=2, name='z', coeff=None, density=.5,
                   pure=True):
    n = n or int(rng.integers(3, 6))
    degree = degree or int(rng.integers(2, 5))
    ref = rp.random_hompoly(rng, [degree], [n], [name], [list(range(n))], max_params, coeff, density, pure)
    return RefVariety(ref)


def dwork(n, factor=True):
    import cyjax
    f = {True: -5., False: 1.}[factor] if isinstance(factor, bool) else factor
    terms = {tuple(n if i == j else 0 for i in range(n)) + (0,): 1. for j in range(n)}
    terms[(1,) * n + (1,)] = f
    ref = rp.RefPoly([('z', list(range(n)))], ['psi'], terms)
    return RefVariety(ref, lambda: cyjax.Dwork(n - 2, factor))


def fermat(n):
    import cyjax
    terms = {tuple(n if i == j else 0 for i in range(n)): 1. for j in range(n)}
    return RefVariety(rp.RefPoly([('z', list(range(n)))], [], terms), lambda: cyjax.Fermat(n - 2))


def rescaled(rng, v, chance=.5):
    """Occasionally the same variety with a rescaled defining polynomial."""
    if v._make is not None or rng.random() > chance:
        return v
    c = 10 ** (rng.choice([-1, 1]) * rng.uniform(2, 8)) * np.exp(2j * np.pi * rng.random())
    return RefVariety(type(v.ref)(v.ref.variables, v.ref.params, {e: c * x for e, x in v.ref.terms.items()}))


def any_variety(rng, **kw):
    k = rng.integers(6)
    if k == 0 and not kw.get('degree'):
        return dwork(kw.get('n') or int(rng.integers(3, 6)), [True, False, -2.][rng.integers(3)])
    if k == 1 and not kw.get('degree'):
        return fermat(kw.get('n') or int(rng.integers(3, 6)))
    return rescaled(rng, random_variety(rng, **kw))


def random_params(rng, v, batch=()):
    return rng.normal(size=(*batch, len(v.params))) + 1j * rng.normal(size=(*batch, len(v.params)))


# -- metrics ----------------------------------------------------------------
def fs_metric(z):
    n = 1 + np.sum(np.abs(z) ** 2, -1)[..., None, None]
    return np.eye(z.shape[-1]) / n - z.conj()[..., :, None] * z[..., None, :] / n ** 2


def weight(v, z, par, patch, dep, vol=1.):
    """Ratio of holomorphic volume form and normalised FS volume form."""
    from math import factorial
    g = v.grad_affine(z, par, patch)
    j = jacobian(g, dep)
    ind = j @ fs_metric(z) @ np.swapaxes(j.conj(), -1, -2)
    det = np.linalg.det(ind).real * factorial(v.dim) / np.pi ** v.dim
    dvol = vol / np.abs(g[..., dep]) ** 2
    return dvol / det, dvol, det


def weights(v, h, par, vol=1.):
    """Weights of homogeneous points in their best patch."""
    h = np.asarray(h)
    patch = best_patch(h)
    out = np.empty(h.shape[:-1])
    for p in range(v.n):
        sel = patch == p
        if np.any(sel):
            z = to_affine(h[sel], p)
            g = np.abs(v.grad_affine(z, par if np.ndim(par) < 2 else par[sel], p))
            w = np.empty(len(z))
            dep = np.argmax(g, -1)
            for d in range(v.n - 1):
                s2 = dep == d
                if np.any(s2):
                    w[s2] = weight(v, z[s2], par, p, d, vol)[0]
            out[sel] = w
    return out


class RefMetric:
    """Algebraic metric given by powers of monomials and H."""

    def __init__(self, v, powers, degree, h):
        self.v, self.p, self.k = v, np.asarray(powers, int), degree
        h = np.asarray(h)
        self.h = np.diag(h) if h.ndim == 1 else h

    def s(self, hom):
        return np.prod(np.asarray(hom)[..., None, :] ** self.p, -1)

    def _d(self, hom, order):
        """Derivatives of sections by homogeneous coordinates."""
        hom = np.asarray(hom)
        n = hom.shape[-1]
        out = np.empty((*hom.shape[:-1], len(self.p), *(n,) * order), complex)
        for idx in np.ndindex(*(n,) * order):
            p, c = self.p.copy(), np.ones(len(self.p))
            for i in idx:
                c = c * p[:, i]
                p[:, i] = np.maximum(p[:, i] - 1, 0)
            out[(..., *idx)] = c * np.prod(hom[..., None, :] ** p, -1)
        return out

    def s_1(self, z, patch):
        return np.delete(self._d(insert(z, patch), 1), patch, -1)

    def s_2(self, z, patch):
        return np.delete(np.delete(self._d(insert(z, patch), 2), patch, -1), patch, -2)

    def psi(self, z, patch):
        s = self.s(insert(z, patch))
        return np.einsum('...a,ab,...b->...', s, self.h, s.conj())

    def kahler(self, z, patch):
        return np.log(self.psi(z, patch).real) / (np.pi * self.k)

    def g_proj(self, z, patch):
        s, s1 = self.s(insert(z, patch)), self.s_1(z, patch)
        psi = self.psi(z, patch)[..., None, None]
        ph = np.einsum('...ai,ab,...b->...i', s1, self.h, s.conj())
        pa = np.einsum('...a,ab,...bj->...j', s, self.h, s1.conj())
        pha = np.einsum('...ai,ab,...bj->...ij', s1, self.h, s1.conj())
        return (pha / psi - ph[..., :, None] * pa[..., None, :] / psi ** 2) / (np.pi * self.k)

    def g(self, z, par, patch, dep):
        j = self.v.jac(z, par, patch, dep)
        return j @ self.g_proj(z, patch) @ np.swapaxes(j.conj(), -1, -2)

    def eta(self, z, par, patch, dep):
        g = self.v.grad_affine(z, par, patch)[..., dep]
        return np.linalg.det(self.g(z, par, patch, dep)) * np.abs(g) ** 2

    def logdet_local(self, x, par, patch, dep, start):
        z = self.v.complete(x, par, patch, dep, start)
        return np.log(np.abs(np.linalg.det(self.g(z, par, patch, dep))))

    def kahler_local(self, x, par, patch, dep, start):
        return self.kahler(self.v.complete(x, par, patch, dep, start), patch)


def random_h(rng, n, spread=1.5):
    """Random Hermitian positive matrix with eigenvalues exp(+-spread)."""
    q = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    ev = np.exp(rng.uniform(-spread, spread, n))
    h = (q * ev) @ q.conj().T
    return (h + h.conj().T) / 2


# -- derivatives by averages over circles -----------------------------------
_M = 12
_W = np.exp(2j * np.pi * np.arange(_M) / _M)


def _extrapolate(values, radii):
    """Value at radius zero of a polynomial in the squared radius."""
    x = np.asarray(radii) ** 2
    out = 0
    for i in range(len(x)):
        c = np.prod([x[j] / (x[j] - x[i]) for j in range(len(x)) if j != i])
        out = out + c * values[i]
    return out


_SCALES = np.array([1., .75, .5])


def _circle(f, x, v, r):
    pts = x + r * _W[:, None] * v
    return np.asarray(f(pts))


def _adaptive(d):
    """Try several radii and keep the steadiest value; d.error estimates its error."""
    @wraps(d)
    def best(f, x, r=.01):
        vals = [d(f, x, r * c) for c in (1., .4, .16, .064)]
        diffs = [float(np.max(np.abs(a - b), initial=0.)) for a, b in zip(vals, vals[1:])]
        k = int(np.argmin(diffs))
        best.error = diffs[k]
        return vals[k + 1]
    return best


@_adaptive
def d_hol(f, x, r=.02):
    """Holomorphic derivative; the index of the derivative comes last."""
    out = []
    for i in range(len(x)):
        v = np.eye(len(x))[i]
        vals = [np.tensordot(_W.conj(), _circle(f, x, v, r * c), 1) / (_M * r * c) for c in _SCALES]
        out.append(_extrapolate(vals, r * _SCALES))
    return np.stack(out, -1)


@_adaptive
def d_anti(f, x, r=.02):
    """Antiholomorphic derivative."""
    out = []
    for i in range(len(x)):
        v = np.eye(len(x))[i]
        vals = [np.tensordot(_W, _circle(f, x, v, r * c), 1) / (_M * r * c) for c in _SCALES]
        out.append(_extrapolate(vals, r * _SCALES))
    return np.stack(out, -1)


@_adaptive
def d_mixed(f, x, r=.02):
    """Mixed derivatives d_i dbar_j f, indices i, j last."""
    x = np.asarray(x, complex)
    f0 = np.asarray(f(x[None]))[0]

    def quad(v):
        vals = [(np.mean(_circle(f, x, v, r * c), 0) - f0) / (r * c) ** 2 for c in _SCALES]
        return _extrapolate(vals, r * _SCALES)
    n = len(x)
    e = np.eye(n, dtype=complex)
    diag = [quad(e[i]) for i in range(n)]
    out = np.zeros((*np.shape(f0), n, n), complex)
    for i in range(n):
        out[..., i, i] = diag[i]
        for j in range(i):
            a = quad(e[i] + e[j]) - diag[i] - diag[j]
            b = quad(e[i] + 1j * e[j]) - diag[i] - diag[j]
            out[..., i, j] = (a + 1j * b) / 2
            out[..., j, i] = (a - 1j * b) / 2
    return out


# -- settings shared by the checks of metrics --------------------------------
def setting(rng, max_size=16, degree=None, n=None, kind=None, spread=None, cy=False):
    """Random variety, parameters, sections and H: dictionary of both worlds."""
    import cyjax
    from cyjax import donaldson
    while True:
        nn = n or int(rng.integers(3, 6))
        k = degree or int(rng.integers(1, 4))
        if donaldson.monomial_basis_size(nn - 1, k) <= max_size:
            break
    if cy:
        v = [dwork, lambda n: fermat(n), lambda n: rescaled(rng, random_variety(rng, n, n, density=.3))][rng.integers(3)](nn)
    else:
        v = any_variety(rng, n=nn)
    par = random_params(rng, v)
    variety = v.build()
    reduced = rng.integers(2) if kind is None else kind == 'reduced'
    sections = donaldson.MonomialBasisReduced(variety, k, par) if reduced \
        else donaldson.MonomialBasisFull(nn - 1, k)
    powers = np.asarray(sections.power_matrix)
    h = random_h(rng, len(powers), float(rng.choice([.3, 1.5, 3.])) if spread is None else spread)
    return dict(v=v, par=par, variety=variety, sections=sections, h=h, k=k,
                metric=donaldson.AlgebraicMetric(variety, sections),
                ref=RefMetric(v, powers, k, h),
                text=f'{v.text} at {par}, {"reduced" if reduced else "full"} basis of degree {k}')
