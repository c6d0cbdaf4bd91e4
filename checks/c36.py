"""One variety written down in many ways; all geometry computed for each and compared."""
import numpy as np

from cyverif import geometry as geo
from cyverif import refpoly as rp

TECHNIQUE = 'metamorphic monitors: results for equivalent descriptions of one variety must correspond'
REQUIRED = ['names', 'numbers', 'absent-terms', 'builtin', 'scaled', 'permuted', 'unitary', 'linear',
            'conjugated', 'subscripts', 'sample.points', 'sample.volume', 'sample.sigma', 'sample.donaldson']

NAMES = ['x', 'y', 'w', 'coord', 'u', 'q']
PARS = ['lam', 'mu', 'a', 'b', 't', 'alpha1', 'c0']


def powers_of(n, k):
    return np.array(sorted(rp.all_exponents(n, k)), int)


def hom_h(h_form, powers):
    """H matrix in the order of the given basis of a form in own order."""
    own, h = h_form
    index = {tuple(p): i for i, p in enumerate(own.tolist())}
    sel = [index[tuple(p)] for p in np.asarray(powers).astype(int).tolist()]
    return h[np.ix_(sel, sel)]


def representation(n, k, mat):
    """Matrix R with s(M y) = R s(y) for all monomials s of degree k."""
    own = powers_of(n, k)
    rng = np.random.default_rng(7)
    y = rng.normal(size=(4 * len(own), n)) + 1j * rng.normal(size=(4 * len(own), n))

    def s(x):
        return np.prod(x[:, None, :] ** own, -1)
    return np.linalg.lstsq(s(y), s(y @ mat.T), rcond=None)[0].T


def substitute(ref, mat):
    """Polynomial Q(M y) as dictionary."""
    n = ref.nvar
    forms = []
    for i in range(n):
        e = np.eye(n, dtype=int)
        forms.append({tuple(e[j]) + (0,) * len(ref.params): mat[i, j] for j in range(n) if mat[i, j] != 0})

    def mul(a, b):
        out = {}
        for e, c in a.items():
            for f, d in b.items():
                g = tuple(x + y for x, y in zip(e, f))
                out[g] = out.get(g, 0) + c * d
        return out
    total = {}
    for e, c in ref.terms.items():
        term = {(0,) * n + tuple(e[n:]): c}
        for i in range(n):
            for _ in range(e[i]):
                term = mul(term, forms[i])
        for g, d in term.items():
            total[g] = total.get(g, 0) + d
    big = max(abs(c) for c in total.values())
    return rp.RefPoly(ref.variables, ref.params, {g: c for g, c in total.items() if abs(c) > 1e-14 * big})


def build(ref, rng=None, indices=None):
    import cyjax
    (name, idx), = ref.variables
    return cyjax.VarietySingle(cyjax.HomPoly.from_sympy(
        ref.text(rng), [name], ref.params, variable_indices=[idx]))


class Form:
    """A description of the variety: object, parameters and where its points and H are."""

    def __init__(self, variety, par, k, h_form):
        from cyjax import donaldson
        self.variety, self.par = variety, np.asarray(par, complex)
        self.sections = donaldson.MonomialBasisFull(variety.dim_projective, k)
        self.metric = donaldson.AlgebraicMetric(variety, self.sections)
        self.h = hom_h(h_form, self.sections.power_matrix)

    def observe(self, hom):
        import jax
        hom = np.asarray(hom)
        patch = geo.best_patch(hom)
        z = geo.to_affine(hom, patch)
        met = self.metric

        @jax.jit
        def f(h, z, hom, par, patch):
            return (met.eta(h, hom, par), met.eta(h, z, par, patch), met.ricci_scalar(h, hom, par),
                    self.variety.sample_intersect_weights(z, par, patch),
                    met.kahler_potential(h, z, par, patch))
        eta, eta2, ricci, weight, kahler = (np.asarray(x) for x in f(self.h, z, hom, self.par, patch))
        norm = np.log(np.abs(np.take_along_axis(hom, patch[:, None], -1)[:, 0]) ** 2) / np.pi
        return dict(eta=eta, eta2=eta2, ricci=ricci, weight=weight, kahler=kahler + norm)


def compare(m, name, base, other, eta=1., weight=1.):
    """Judge all invariants, with known factors for eta and weights."""
    e0 = base['eta']
    m.close(name, other['eta'] / (eta * e0), np.ones(len(e0)), 1e-6, key=other['eta'])
    m.close(name, other['eta2'] / (eta * e0), np.ones(len(e0)), 1e-6, key=other['eta2'])
    m.close(name, other['ricci'], base['ricci'], 1e-5, 1.)
    m.close(name, other['kahler'], base['kahler'], 1e-8, 1.)
    if weight is not None:
        m.close(name, other['weight'] / (weight * base['weight']), np.ones(len(e0)), 1e-6,
                key=other['weight'])


def random_matrix(rng, n, unitary):
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q = np.linalg.qr(a)[0]
    return q if unitary else q * np.exp(rng.uniform(-.4, .4, n)) @ np.linalg.qr(a.T)[0]


def renamed(rng, ref):
    """Other names, other order of the parameters; returns the order too."""
    n = ref.nvar
    order = [int(i) for i in rng.permutation(len(ref.params))]
    name = str(rng.choice(NAMES))
    params = [str(p) for p in rng.choice(PARS, len(order), replace=False)]
    terms = {e[:n] + tuple(e[n + i] for i in order): c for e, c in ref.terms.items()}
    return rp.RefPoly([(name, list(range(n)))], params, terms), order


def points(v, rng, par, count):
    return np.array([geo.insert(z, p) * np.exp(rng.normal() + 1j * rng.uniform(0, 6))
                     for z, p, _ in v.points(rng, par, count)])


def equivalent(m, name):
    for rng in m.cases(name, 1, 8):
        n = int(rng.choice([3, 4], p=[.6, .4]))
        v = geo.random_variety(rng, n, n, max_params=2, density=.5)
        par = geo.random_params(rng, v)
        k = int(rng.integers(1, 3 if n == 3 else 2))
        own = powers_of(n, k)
        h_form = own, geo.random_h(rng, len(own), 1.)
        hom = points(v, rng, par, 3)
        if len(hom) < 3:
            continue
        m.note(f'{v.text} at {par}, degree {k}')
        base = Form(build(v.ref, rng), par, k, h_form).observe(hom)

        ref, order = renamed(rng, v.ref)
        m.note(f'{v.text} as {ref.text()}')
        compare(m, 'names', base, Form(build(ref, rng), par[order], k, h_form).observe(hom))

        idx = rp.random_indices(rng, n)
        ref = rp.RefPoly([('z', idx)], v.ref.params, v.ref.terms)
        m.note(f'{v.text} as {ref.text()}')
        compare(m, 'subscripts', base, Form(build(ref, rng), par, k, h_form).observe(hom))

        ref = rp.RefPoly(v.ref.variables, [], {})
        for e, c in v.ref.terms.items():
            c = c * np.prod(par ** np.array(e[n:], int))
            ref.terms[e[:n]] = ref.terms.get(e[:n], 0) + c
        m.note(f'{v.text} at {par} as {ref.text()}')
        compare(m, 'numbers', base, Form(build(ref, rng), [], k, h_form).observe(hom))

        # one more parameter, of value zero, somewhere in the list
        pos = int(rng.integers(len(par) + 1))
        terms = {e[:n + pos] + (0,) + e[n + pos:]: c for e, c in v.ref.terms.items()}
        extra = rp.all_exponents(n, n)[int(rng.integers(len(rp.all_exponents(n, n))))]
        terms[extra + tuple(int(i == pos) for i in range(len(par) + 1))] = rp.random_coeff(rng)
        ref = rp.RefPoly(v.ref.variables, v.params[:pos] + ['zero'] + v.params[pos:], terms)
        m.note(f'{v.text} as {ref.text()}')
        compare(m, 'absent-terms', base, Form(build(ref, rng), np.insert(par, pos, 0), k, h_form).observe(hom))

        lam = 10 ** rng.uniform(-6, 6) * np.exp(1j * rng.uniform(0, 6))
        ref = rp.RefPoly(v.ref.variables, v.params, {e: c * lam for e, c in v.ref.terms.items()})
        m.note(f'{v.text} times {lam}')
        compare(m, 'scaled', base, Form(build(ref, rng), par, k, h_form).observe(hom),
                abs(lam) ** 2, abs(lam) ** -2)

        ref = rp.RefPoly(v.ref.variables, v.params, {e: c.conjugate() for e, c in v.ref.terms.items()})
        m.note(f'{v.text} at {par} conjugated')
        compare(m, 'conjugated', base, Form(build(ref, rng), par.conj(), k, (own, h_form[1].conj())).observe(hom.conj()))

        for kind in ('permuted', 'unitary', 'linear'):
            mat = np.eye(n)[rng.permutation(n)] if kind == 'permuted' else \
                random_matrix(rng, n, kind == 'unitary')
            ref = substitute(v.ref, mat)
            r = representation(n, k, mat)
            h = r.T @ h_form[1] @ r.conj()
            y = np.linalg.solve(mat, hom.T).T
            m.note(f'{v.text} at {par}, {kind} coordinates {mat}')
            det = abs(np.linalg.det(mat)) ** 2
            compare(m, kind, base, Form(build(ref, rng), par, k, (own, (h + h.conj().T) / 2)).observe(y),
                    det, None if kind == 'linear' else 1.)


def builtin(m):
    import cyjax
    for rng in m.cases('builtin', 2, 10):
        n = int(rng.integers(3, 5))
        which = int(rng.integers(4))
        v = geo.fermat(n) if which == 3 else geo.dwork(n, [True, False, 2.5][which])
        par = geo.random_params(rng, v)
        k = int(rng.integers(1, 3 if n == 3 else 2))
        own = powers_of(n, k)
        h_form = own, geo.random_h(rng, len(own), 1.)
        hom = points(v, rng, par, 3)
        if len(hom) < 3:
            continue
        m.note(f'{v.text} at {par} degree {k}')
        base = Form(v.build(), par, k, h_form).observe(hom)
        ref, order = renamed(rng, v.ref)
        compare(m, 'builtin', base, Form(build(ref, rng), par[order], k, h_form).observe(hom))


def distance(a, b):
    """Projective distances between two lists of points."""
    a = a / np.linalg.norm(a, axis=-1, keepdims=True)
    b = b / np.linalg.norm(b, axis=-1, keepdims=True)
    return np.sqrt(np.maximum(0, 1 - np.abs(a @ b.conj().T) ** 2))


def sampling(m, name):
    """Random keys: what is drawn depends on the variety only."""
    import jax
    for rng in m.cases(name, 1, 6):
        n = int(rng.integers(3, 5))
        v = geo.any_variety(rng, n=n, degree=None) if rng.random() < .5 else geo.random_variety(rng, n, n)
        par = geo.random_params(rng, v)
        d = v.degree
        k = 1
        own = powers_of(n, k)
        h_form = own, geo.random_h(rng, len(own), .5)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        ref, order = renamed(rng, v.ref)
        lam = 10 ** rng.uniform(-6, 6) * np.exp(1j * rng.uniform(0, 6))
        scaled = rp.RefPoly(v.ref.variables, v.params, {e: c * lam for e, c in v.ref.terms.items()})
        forms = [(Form(v.build(), par, k, h_form), 1.), (Form(build(ref, rng), par[order], k, h_form), 1.),
                 (Form(build(scaled, rng), par, k, h_form), abs(lam) ** -2)]
        m.note(f'{v.text} as {ref.text()} and times {lam}')
        first = None
        for form, factor in forms:
            var, met = form.variety, form.metric
            pts = np.asarray(var.sample_intersect(key, form.par, 6 * d))
            vol, _ = var.compute_vol(key, form.par, 3, 4 * d, var=True)
            out = dict(vol=float(vol) / factor)
            if d == n:
                out['sigma'] = float(met.sigma_accuracy(key, form.par, form.h, 6 * d))
                h = np.asarray(met.donaldson_step(key, form.h, form.par, vol, 2, 6 * d))
                out['h'] = h
            if first is None:
                first = pts, out
                continue
            dist = distance(first[0], pts)
            m.below('sample.points', max(dist.min(0).max(), dist.min(1).max()), 1e-5)
            m.close('sample.volume', out['vol'], first[1]['vol'], 1e-6)
            if d == n:
                m.close('sample.sigma', out['sigma'], first[1]['sigma'], 1e-6)
                m.close('sample.donaldson', out['h'], first[1]['h'], 1e-6)


WORKLOADS = {f'equivalent{i}': (lambda m, i=i: equivalent(m, f'equivalent{i}')) for i in range(5)}
WORKLOADS['builtin'] = builtin
WORKLOADS.update({f'sampling{i}': (lambda m, i=i: sampling(m, f'sampling{i}')) for i in range(3)})
