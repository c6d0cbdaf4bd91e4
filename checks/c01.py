"""Random polynomials evaluated numerically in all supported ways."""
import numpy as np

from cyverif import refpoly as rp

REQUIRED = ['call', 'call.keyword', 'evaluator', 'evaluator.batch', 'evaluator.broadcast',
            'evaluator.partial', 'gradient', 'float32', 'monomials', 'inputs-unchanged', 'twins']


def build(rng, ref):
    """Construct the cyjax polynomial with every input declared."""
    from cyjax.polynomial import Poly
    return Poly.from_sympy(
        ref.text(rng), [n for n, _ in ref.variables], ref.params,
        variable_indices=[i for _, i in ref.variables])


def shuffled(rng, ref):
    """Same polynomial with the components of its variables in another order."""
    variables = [(n, i if i is None or rng.random() < .7 else [i[k] for k in rng.permutation(len(i))])
                 for n, i in ref.variables]
    return ref.lift(variables, ref.params)


def as_input(rng, x):
    """Same values as numpy array, jax array, or (scalars) plain number."""
    import jax.numpy as jnp
    c = rng.integers(3)
    if x.ndim == 0 and c == 0:
        return x.item()
    return jnp.asarray(x) if c == 1 else np.array(x)


def direct(m):
    from cyverif.core import freeze
    for rng in m.cases('direct', 300, 4000):
        ref = shuffled(rng, rp.random_poly(rng, large=.12))
        m.note(f'{ref.text()} of {ref.variables}')
        poly = build(rng, ref)
        for _ in range(3):
            vals, par = rp.random_values(rng, ref)
            scale = ref.size(vals, par)
            ins = [as_input(rng, v) for v in vals]
            p = as_input(rng, par)
            before = freeze(ins, p)
            args = (*ins, p) if ref.params or rng.random() < .5 else tuple(ins)
            m.close('call', poly(*args), ref.value(vals, par), 1e-12, scale)
            m.ok('inputs-unchanged', freeze(ins, p) == before, 'inputs modified by evaluation')
            names = [n for n, _ in ref.variables]
            k = int(rng.integers(0, len(names) + 1))
            kw = {n: v for n, v in list(zip(names, ins))[k:]}
            kw['params'] = p
            kw = {n: kw[n] for n in (list(kw)[i] for i in rng.permutation(len(kw)))}
            m.close('call.keyword', poly(*ins[:k], **kw), ref.value(vals, par), 1e-12, scale)
            m.close('call.list', poly(*ins, params=list(par)),
                    ref.value(vals, par), 1e-12, scale)


def evaluator(m):
    import jax.numpy as jnp
    for rng in m.cases('evaluator', 60, 500):
        ref = shuffled(rng, rp.random_poly(rng, max_terms=5, large=.12))
        m.note(f'{ref.text()} of {ref.variables}')
        poly = build(rng, ref)
        fn = poly.transform_eval()
        vals, par = rp.random_values(rng, ref)
        m.close('evaluator', fn(*vals, params=par), ref.value(vals, par), 1e-12, ref.size(vals, par))
        # same batch for all inputs
        batch = [(3,), (2, 3), (1,)][rng.integers(3)]
        vals, par = rp.random_values(rng, ref, batch)
        m.close('evaluator.batch', fn(*vals, par), ref.value(vals, par), 1e-12, ref.size(vals, par))
        # each input has its own number of leading batch dimensions
        full = (2, 3)
        ins = []
        for _, idx in ref.variables:
            b = full[int(rng.integers(0, 3)):]
            v, _ = rp.random_values(rng, rp.RefPoly([('x', idx)], [], {}), b)
            ins.append(v[0])
        _, p = rp.random_values(rng, ref, full[int(rng.integers(0, 3)):])
        names = [n for n, _ in ref.variables]
        want = ref.value(ins, p if ref.params else None)
        got = fn(**dict(zip(names, ins)), params=p)
        if not ref.params:
            want = np.broadcast_to(want, np.broadcast_shapes(want.shape, p.shape[:-1]))
        m.close('evaluator.broadcast', got, want, 1e-12, ref.size(ins, p if ref.params else None))
        p0 = par[(0,) * (par.ndim - 1)]
        fixed = poly.transform_eval(params=jnp.asarray(p0))
        m.close('evaluator.partial', fixed(*vals), ref.value(vals, p0), 1e-12, ref.size(vals, p0))


def gradient(m):
    import jax
    for rng in m.cases('gradient', 60, 500):
        ref = shuffled(rng, rp.random_poly(rng, max_terms=5, large=.08))
        m.note(f'{ref.text()} of {ref.variables}')
        poly = build(rng, ref)
        vals, par = rp.random_values(rng, ref, kind=rng.choice(['complex', 'zeros']))
        vals = [v.astype(complex) for v in vals]
        par = par.astype(complex)
        n = len(vals)
        target = poly.transform_eval() if rng.random() < .5 else poly
        f = lambda *a: target(*a[:n], params=a[n]) + 0j
        grads = jax.grad(f, argnums=tuple(range(n + 1)), holomorphic=True)(*vals, par)
        flat = np.concatenate([np.atleast_1d(np.asarray(g)) for g in grads])
        want = np.array([ref.diff(s).value(vals, par) for s in ref.symbols])
        scale = max(float(ref.diff(s).size(vals, par)) for s in ref.symbols)
        m.close('gradient', flat, want, 1e-11, scale)


def twins(m):
    """The same expression with other declarations, evaluated in turns in one process."""
    for rng in m.cases('twins', 30, 300):
        ref = rp.random_poly(rng, max_terms=5)
        text = ref.text(rng)
        m.note(text)
        made = []
        for _ in range(3):
            variables = [ref.variables[i] for i in rng.permutation(len(ref.variables))]
            variables = [(n, i if i is None else
                          [*i, *rng.choice(np.setdiff1d(np.arange(15), i), int(rng.integers(0, 3)), replace=False)])
                         for n, i in variables]
            variables = [(n, i if i is None else [int(i[k]) for k in rng.permutation(len(i))])
                         for n, i in variables]
            params = [ref.params[i] for i in rng.permutation(len(ref.params))]
            new = ref.lift(variables, params)
            from cyjax.polynomial import Poly
            poly = Poly.from_sympy(text, [n for n, _ in variables], params,
                                   variable_indices=[i for _, i in variables])
            made.append((new, poly, poly.transform_eval()))
        for k in rng.permutation(2 * len(made)):
            new, poly, fn = made[k % len(made)]
            vals, par = rp.random_values(rng, new)
            f = fn if rng.random() < .3 else poly
            m.close('twins', f(*vals, params=par), new.value(vals, par), 1e-12, new.size(vals, par))


def single(m):
    """Default single precision, and real inputs given as integers."""
    import jax.numpy as jnp
    for rng in m.cases('float32', 60, 400):
        ref = rp.random_poly(rng, max_terms=4, max_degree=4)
        m.note(ref.text())
        poly = build(rng, ref)
        vals, par = rp.random_values(rng, ref, (2,))
        got = poly.transform_eval()(*vals, params=par)
        m.close('float32', got, ref.value(vals, par), 2e-4, ref.size(vals, par))
        vals, par = rp.random_values(rng, ref, kind='int')
        ints = [np.asarray(v).astype(int) for v in vals]
        m.close('float32', poly(*[jnp.asarray(v) for v in ints], params=jnp.asarray(par)),
                ref.value(vals, par), 2e-4, ref.size(vals, par))


single.x64 = False


def monomials(m):
    """Monomial terms from arrays of powers, by each evaluation strategy."""
    from cyjax.polynomial import compute_monomials
    import jax
    import jax.numpy as jnp
    import sympy
    for rng in m.cases('monomials', 50, 400):
        nv = int(rng.integers(1, 4))
        big = rng.random() < .15
        sizes = [int(rng.integers(1, 13 if big else 5)) for _ in range(nv)]
        n = int(rng.integers(1, 31 if big else 6))
        powers = [rng.integers(0, 5, (n, s)) for s in sizes]
        if rng.random() < .3:
            powers[0][0, 0] = rng.integers(8, 200)
        coeffs = rng.normal(size=n) + 1j * rng.normal(size=n)
        vals = [rng.uniform(.7, 1.3, s) * np.exp(2j * np.pi * rng.random(s)) for s in sizes]
        opt, log = bool(rng.integers(2)), bool(rng.integers(2))
        if not log:
            vals = [v * (rng.random(v.shape) < .7) for v in vals]
        m.note(f'powers {[p.tolist() for p in powers]} opt={opt} log={log}')
        want = coeffs * np.prod([np.prod(v ** p, -1) for v, p in zip(vals, powers)], 0)
        args = [v[0] if v.size == 1 and rng.random() < .6 else v for v in vals]  # scalars
        got = compute_monomials([jnp.asarray(v) for v in args], jnp.asarray(coeffs),
                                tuple(p.tolist() for p in powers), opt=opt, log=log)
        m.close('monomials', got, want, 1e-9)
        if powers[0][0, 0] > 7:
            got = compute_monomials([jnp.asarray(v) for v in args], jnp.asarray(coeffs),
                                    tuple(p.tolist() for p in powers), opt=not opt, log=False)
            m.close('monomials', got, want, 1e-9)
            got = compute_monomials([jnp.asarray(v) for v in args], jnp.asarray(coeffs),
                                    tuple(p.tolist() for p in powers), opt=opt, log=False)
            m.close('monomials', got, want, 1e-9)
        if rng.random() < .4:  # compiled, with the default strategy
            f = jax.jit(lambda a, c: compute_monomials(a, c, tuple(p.tolist() for p in powers)))
            full = [v + (v == 0) * (.5 - .2j) for v in vals]
            m.close('monomials', f([jnp.asarray(v) for v in full], jnp.asarray(coeffs)),
                    coeffs * np.prod([np.prod(v ** p, -1) for v, p in zip(full, powers)], 0), 1e-9)
        if rng.random() < .5:  # variable that does not take part
            got = compute_monomials([*map(jnp.asarray, args), None], jnp.asarray(coeffs),
                                    (*[p.tolist() for p in powers], None), opt=opt, log=log)
            m.close('monomials', got, want, 1e-9)
        if rng.random() < .4:
            syms = [sympy.symarray(f'x{k}', s) for k, s in enumerate(sizes)]
            extra = ([None], [None]) if rng.random() < .5 else ([], [])
            got = compute_monomials([sy[0] if np.ndim(a) == 0 else sy for sy, a in zip(syms, args)] + extra[0],
                                    coeffs, [p.tolist() for p in powers] + extra[1], symbolic=True)
            subs = {a: complex(b) for sy, v in zip(syms, vals) for a, b in zip(sy, v)}
            m.close('monomials.symbolic', [complex(sympy.sympify(g).subs(subs)) for g in got], want, 1e-9)


WORKLOADS = {'twins': twins, 'direct': direct, 'evaluator': evaluator, 'gradient': gradient,
             'single': single, 'monomials': monomials}
