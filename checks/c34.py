"""Valid random declarations and calls, each next to versions with one contradiction."""
import numpy as np
import sympy

from cyverif import refpoly as rp

TECHNIQUE = 'contradictory inputs are generated from valid ones and the outcome of each call is recorded'
REQUIRED = ['valid', 'declare.undeclared', 'declare.index', 'declare.mixed-subscript', 'declare.no-names',
            'declare.mixed-kinds', 'declare.not-polynomial', 'operate.mixed-subscript', 'call.surplus',
            'call.missing', 'call.params', 'call.symbolic-length', 'split.parameter', 'diff.unknown',
            'variety.several-spaces', 'variety.point-size', 'objects-unchanged']


def rejected(m, monitor, fn, what):
    try:
        out = fn()
    except Exception as e:
        m.ok(monitor, True, key=(m.case, what))
        return e
    m.fail(monitor, f'{what} accepted, result {out!r:.200}')


def args_of(ref):
    return [n for n, _ in ref.variables], ref.params, [i for _, i in ref.variables]


def arrays_of(ref):
    out = []
    for n, idx in ref.variables:
        syms = [sympy.Symbol(n)] if idx is None else [sympy.Symbol(f'{n}{i}') for i in idx]
        out.append(np.array(syms))
    return out


def judge(m, rng, ref, poly):
    vals, par = rp.random_values(rng, ref)
    m.close('valid', poly(*vals, params=par), ref.value(vals, par), 1e-8, ref.size(vals, par))


def state(poly):
    return (str(poly()), list(poly.variable_names), repr(poly.variable_indices), str(poly.parameters))


def fresh(rng, ref, names):
    used = {n for n, _ in ref.variables} | set(ref.params)
    return str(rng.choice([n for n in names if n not in used]))


def declarations(m):
    from cyjax.polynomial import Poly, HomPoly
    for rng in m.cases('declarations', 150, 1500):
        ref = rp.random_poly(rng)
        cls = Poly if rng.random() < .7 or any(i is None for _, i in ref.variables) else HomPoly
        m.note(f'{cls.__name__} {ref.text()}')
        make = cls.from_sympy
        text = ref.text(rng)
        expr = text if rng.random() < .5 else ref.expr()
        names, params, indices = args_of(ref)
        judge(m, rng, ref, make(expr, names, params, variable_indices=indices))
        judge(m, rng, ref, make(expr, arrays_of(ref), params))

        # a symbol which is neither variable nor parameter
        other = fresh(rng, ref, ['g', 'h', 'lam', 'r1', 's_2', 'X0'])
        more = f'{text} + {rp.random_coeff(rng, "real")}*{other}*{ref.symbols[0]}'
        what = f'undeclared {other}'
        rejected(m, 'declare.undeclared', lambda: make(more, names, params), what)
        rejected(m, 'declare.undeclared', lambda: make(more, names, params, variable_indices=indices), what)
        rejected(m, 'declare.undeclared', lambda: make(more, arrays_of(ref), params), what + ' (arrays)')
        if params:
            k = int(rng.integers(len(params)))
            rejected(m, 'declare.undeclared', lambda: make(expr, names, params[:k] + params[k + 1:]),
                     f'missing parameter {params[k]}')

        # subscripts outside the declared ones
        vectors = [k for k, i in enumerate(indices) if i is not None]
        if vectors:
            k = vectors[rng.integers(len(vectors))]
            drop = int(rng.integers(len(indices[k])))
            fewer = [i if j != k else i[:drop] + i[drop + 1:] for j, i in enumerate(indices)]
            what = f'{names[k]}{indices[k][drop]} not in {fewer}'
            rejected(m, 'declare.index', lambda: make(expr, names, params, variable_indices=fewer), what)
            short = arrays_of(ref)
            if len(indices[k]) > 1:
                short[k] = np.delete(short[k], drop)
                rejected(m, 'declare.index', lambda: make(expr, short, params), what + ' (arrays)')
            if len(vectors) == len(names):
                dims = [max(i) + 1 for i in indices]
                judge_dims = make(expr, names, params, variable_dim=dims)
                m.equal('valid', [list(map(int, i)) for i in judge_dims.variable_indices],
                        [list(range(d)) for d in dims])
                dims[k] -= 1
                rejected(m, 'declare.index', lambda: make(expr, names, params, variable_dim=dims),
                         f'dimensions {dims}')
            bare = [i if j != k else None for j, i in enumerate(indices)]
            rejected(m, 'declare.index', lambda: make(expr, names, params, variable_indices=bare),
                     f'{names[k]} declared as scalar')
            # the same name without subscript
            mixed = f'{text} + {names[k]}*{ref.symbols[-1]}'
            what = f'{names[k]} with and without subscript'
            rejected(m, 'declare.mixed-subscript', lambda: make(mixed, names, params), what)
            rejected(m, 'declare.mixed-subscript',
                     lambda: make(mixed, names, params, variable_indices=indices), what)
            rejected(m, 'declare.mixed-subscript', lambda: make(mixed, parameters=params), what)

        # subscripts or dimensions without names
        rejected(m, 'declare.no-names', lambda: make(expr, None, params, variable_indices=indices),
                 'indices without names')
        rejected(m, 'declare.no-names', lambda: make(expr, variable_dim=[4] * len(names)),
                 'dimensions without names')
        if len(names) > 1:
            k = int(rng.integers(len(names)))
            mix = [a if (j == k) else n for j, (a, n) in enumerate(zip(arrays_of(ref), names))]
            rejected(m, 'declare.mixed-kinds', lambda: make(expr, mix, params), 'names mixed with arrays')

        # not a polynomial in its variables
        s = str(rng.choice(ref.symbols[:ref.nvar]))
        form = str(rng.choice(['1/{}', '{}**(-2)', 'sqrt({})', '{}**(3/2)', 'sin({})', 'exp({})',
                               'Abs({})', 'conjugate({})', '2**{}', '1/(1+{})']))
        bad = f'{text} + {form.format(s)}'
        rejected(m, 'declare.not-polynomial', lambda: make(bad, names, params), form.format(s))
        rejected(m, 'declare.not-polynomial',
                 lambda: make(bad, names, params, variable_indices=indices), form.format(s))


def calls(m):
    from cyjax.polynomial import Poly, univariate_coefficients
    for rng in m.cases('calls', 150, 1500):
        ref = rp.random_poly(rng)
        m.note(ref.text())
        names, params, indices = args_of(ref)
        poly = Poly.from_sympy(ref.text(rng), names, params, variable_indices=indices)
        before = state(poly)
        vals, par = rp.random_values(rng, ref, kind='complex')
        rejected(m, 'call.surplus', lambda: poly(*vals, par, 1., 2.), 'surplus positional arguments')
        k = int(rng.integers(len(names)))
        kw = {n: v for j, (n, v) in enumerate(zip(names, vals)) if j != k}
        rejected(m, 'call.missing', lambda: poly(params=par, **kw), f'no value for {names[k]}')
        if len(names) > 1:
            rejected(m, 'call.missing', lambda: poly(*vals[:-1], params=par), f'no value for {names[-1]}')
        if params:
            rejected(m, 'call.params', lambda: poly(*vals), 'no parameters')
        for n in {len(params) + 1, len(params) + 3, len(params) - 1} - {-1}:
            if not params and n == 0:
                continue
            wrong = rng.normal(size=n)
            rejected(m, 'call.params', lambda: poly(*vals, params=wrong), f'{n} parameters')
            syms = np.array([sympy.Symbol(f'p{i}') for i in range(n)] or [], dtype=object)
            objs = [np.array([sympy.Symbol(f'q{j}_{i}') for i in range(len(idx))], dtype=object)
                    if idx is not None else sympy.Symbol(f'q{j}') for j, idx in enumerate(indices)]
            rejected(m, 'call.params', lambda: poly(*objs, params=syms), f'{n} symbolic parameters')
        for j, idx in enumerate(indices):
            if idx is None:
                continue
            for n in (len(idx) + 1, len(idx) - 1):
                objs = [sympy.Symbol(f'q{i}') if x is None else
                        np.array([sympy.Symbol(f'q{i}x{l}') for l in range(len(x))], dtype=object)
                        for i, x in enumerate(indices)]
                objs[j] = np.array([sympy.Symbol(f'u{l}') for l in range(n)], dtype=object)
                if n:
                    rejected(m, 'call.symbolic-length', lambda: poly(*objs, params=list(par)),
                             f'{names[j]} with {n} entries')
        if params:
            p = str(rng.choice(params))
            rejected(m, 'split.parameter', lambda: univariate_coefficients(poly, sympy.Symbol(p)), p)
            rejected(m, 'diff.unknown', lambda: poly.diff(sympy.Symbol(p)), p)
        other = fresh(rng, ref, ['g', 'h', 'lam'])
        rejected(m, 'diff.unknown', lambda: poly.diff(sympy.Symbol(other)), other)

        # partner with the other kind of subscript
        name, idx = ref.variables[k]
        text = f'{name}1*{name}2 + 1' if idx is None else f'{name}**2 + 3'
        partner = Poly.from_sympy(text, [name], [])
        pstate = state(partner)
        for op in (lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b):
            rejected(m, 'operate.mixed-subscript', lambda: op(poly, partner), text)
            rejected(m, 'operate.mixed-subscript', lambda: op(partner, poly), text)
        sym = sympy.Symbol(f'{name}1' if idx is None else name)
        rejected(m, 'operate.mixed-subscript', lambda: poly + sym, str(sym))
        rejected(m, 'operate.mixed-subscript', lambda: poly * sym, str(sym))
        m.equal('objects-unchanged', (state(poly), state(partner)), (before, pstate))
        judge(m, rng, ref, poly)


def varieties(m):
    import cyjax
    for rng in m.cases('varieties', 40, 400):
        sizes = [int(s) for s in rng.integers(2, 4, rng.integers(2, 4))]
        degrees = [int(rng.integers(1, 3)) for _ in sizes]
        ref = rp.random_hompoly(rng, degrees, sizes, max_params=1)
        m.note(ref.text())
        names, params, indices = args_of(ref)
        hom = cyjax.HomPoly.from_sympy(ref.text(rng), names, params, variable_indices=indices)
        judge(m, rng, ref, hom)
        rejected(m, 'variety.several-spaces', lambda: cyjax.VarietySingle(hom), str(sizes))
        # built-in varieties and points of the wrong size
        dim = int(rng.integers(1, 5))
        var = cyjax.Dwork(dim) if rng.random() < .6 else cyjax.Fermat(dim)
        par = rng.normal(size=var.par_count)
        for size, patch in ((dim + 2, None), (dim + 1, int(rng.integers(dim + 2)))):
            z = rng.normal(size=size + 1) + 1j
            good = var.defining(z[:size], par, patch=patch)
            m.ok('valid', np.isfinite(good), 'not finite', key=(dim, size, patch, par.sum()))
            for n in (size - 1, size + 1):
                rejected(m, 'variety.point-size', lambda: var.defining(z[:n], par, patch=patch),
                         f'{n} coordinates, patch {patch}, dimension {dim}')


WORKLOADS = {'declarations': declarations, 'calls': calls, 'varieties': varieties}
