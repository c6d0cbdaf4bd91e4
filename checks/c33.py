"""Text, expression and LaTeX forms read back independently and compared with the object."""
import re

import numpy as np
import sympy

from checks.c01 import shuffled
from cyverif import refpoly as rp

TECHNIQUE = 'printed forms are parsed again and evaluated next to the object they describe'
REQUIRED = ['text.value', 'text.names', 'text.integers', 'expression', 'expression.integers',
            'variety.text', 'variety.sizes', 'variety.value']


def near_integer(rng):
    """Coefficients for which rounding for display would be visible."""
    c = float(rng.choice([2., 3., -1., 12., 1., 0.]))
    d = float(rng.choice([0., 1e-9, -1e-7, .5, .25, 1e-4, 1e-12]))
    big = float(rng.choice([1., 1., 1., 1e6, 2. ** 40]))
    return c * big + d if c + d else 1.


def build(rng, ref):
    from cyjax.polynomial import Poly
    return Poly.from_sympy(ref.text(rng), [n for n, _ in ref.variables], ref.params,
                           variable_indices=[i for _, i in ref.variables])


def reader(ref):
    """Local names under which the symbols of a polynomial may be printed."""
    syms = {s: sympy.Symbol(s) for s in ref.symbols}
    out = dict(syms)
    for n, idx in ref.variables:
        for i in idx or []:
            out[f'{n}_{i}'] = syms[f'{n}{i}']
    return out


def float_literals(text):
    return re.findall(r'(?<![\w.])\d+\.\d*(?:[eE][+-]?\d+)?', text)


def judge_terms(m, name, expr, ref):
    """Same terms, each coefficient up to the digits printed."""
    got = rp.expr_terms(expr, ref.symbols)
    want = {e: c for e, c in ref.terms.items() if c}
    scale = max([abs(c) for c in want.values()], default=1.)
    for e in set(got) | set(want):
        a, b = got.get(e, 0), want.get(e, 0)
        m.ok(name, abs(a - b) <= 1e-12 * abs(b) + 1e-15 * scale,
             f'coefficient of {e} reads {a}, is {b}', key=(e, b))


def fractional(ref):
    """Parts of coefficients which are no integers, even if printed rounded."""
    parts = [abs(x) for c in ref.terms.values() for x in (complex(c).real, complex(c).imag)]
    return [x for x in parts if not float(x).is_integer()]


def rounded(x, ref):
    return any(abs(float(x) - f) <= 1e-12 * f for f in fractional(ref))


def check_text(m, text, ref, exact=True):
    lhs, rhs = text.rsplit('=', 1)
    judge_terms(m, 'text.value', sympy.sympify(rhs, locals=reader(ref)), ref)
    bad = [t for t in float_literals(rhs) if float(t).is_integer() and not rounded(t, ref)]
    m.ok('text.integers', not bad or not exact, f'integer numbers printed as {bad} in {rhs}', key=rhs)
    inner = lhs[lhs.index('('):]
    idents = [w for w in re.findall(r'[A-Za-z]\w*', inner) if w not in ('params', 'parameters')]
    want = ref.symbols
    m.equal('text.names', [str(reader(ref).get(w, w)) for w in idents], list(want))


def parse_latex(text, ref):
    """Expression written in a LaTeX formula, None if of unknown layout."""
    for old, new in ((r'\left(', '('), (r'\right)', ')'), (r'\cdot', '·'), (r'\,', ' ')):
        text = text.replace(old, new)
    forms = {}
    for name, s in reader(ref).items():
        forms[sympy.latex(sympy.Symbol(name))] = s
        forms[sympy.latex(s)] = s
    table = []
    for form in sorted(forms, key=len, reverse=True):
        text = text.replace(form, f'⟦{len(table)}⟧')
        table.append(forms[form])
    text = re.sub(r'(?<![A-Za-z\\])i(?![A-Za-z])', f'⟦{len(table)}⟧', text)
    table.append(sympy.I)
    text = re.sub(r'\^\{(-?\d+)\}', r'**(\1)', text).replace('^', '**')
    out, operand = [], False
    for tok in re.findall(r'\s+|⟦\d+⟧|\*\*\(-?\d+\)|\*\*\d|\d+\.?\d*|[-+()·]|.', text):
        if tok.isspace():
            continue
        if tok.startswith('**'):
            out.append(tok)
            continue
        if tok in '+-)·':
            out.append('*' if tok == '·' else tok)
            operand = tok == ')'
            continue
        if operand:
            out.append('*')
        if tok == '(':
            out.append(tok)
            operand = False
        elif tok[0] == '⟦':
            out.append(f'__t[{tok[1:-1]}]')
            operand = True
        elif tok[0].isdigit():
            out.append(f'__f("{tok}")')
            operand = True
        else:
            return None
    try:
        return eval(''.join(out), {'__t': table, '__f': sympy.Float})
    except (SyntaxError, TypeError):
        return None


def check_latex(m, obj, ref):
    if not hasattr(obj, '_repr_latex_'):
        return
    text = obj._repr_latex_().strip().strip('$')
    lhs, rhs = text.rsplit('=', 1)
    shown = re.findall(r'\d+', lhs)
    want = re.findall(r'\d+', ' '.join(ref.symbols))
    if len(shown) == len(want):  # the arguments are listed with their subscripts
        m.equal('latex.names', shown, want)
    expr = parse_latex(rhs, ref)
    if expr is not None:
        judge_terms(m, 'latex.value', expr, ref)


def check_expression(m, expr, ref, exact=True):
    judge_terms(m, 'expression', expr, ref)
    floats = [f for f in sympy.sympify(expr).atoms(sympy.Float) if float(f).is_integer()]
    m.ok('expression.integers', not floats or not exact, f'integer numbers given as {floats}', key=str(expr))


def polynomials(m):
    from cyjax.polynomial import HomPoly
    for rng in m.cases('polynomials', 300, 3000):
        if rng.random() < .3:
            sizes = [int(rng.integers(2, 5)) for _ in range(rng.integers(1, 3))]
            degrees = [int(rng.integers(1, 5)) for _ in sizes]
            ref = rp.random_hompoly(rng, degrees, sizes)
            m.note(ref.text())
            poly = HomPoly.from_sympy(ref.text(rng), [n for n, _ in ref.variables], ref.params,
                                      variable_indices=[i for _, i in ref.variables])
        else:
            ref = shuffled(rng, rp.random_poly(rng, param_power=1 if rng.random() < .7 else 2))
            if rng.random() < .5:
                ref.terms = {e: near_integer(rng) * (1 if rng.random() < .6 else 1j) for e in ref.terms}
            m.note(ref.text())
            poly = build(rng, ref)
        which = rng.integers(4)
        exact = which != 2  # products of fractions may be integers up to rounding
        if which == 1:
            name, idx = ref.variables[rng.integers(len(ref.variables))]
            i = None if idx is None else idx[rng.integers(len(idx))]
            sym = name if i is None else f'{name}{i}'
            poly, ref = poly.diff(sympy.Symbol(sym)), ref.diff(sym)
            m.note(f'd/d{sym} = {ref.text()}')
        elif which == 2:
            other = rp.random_poly(rng, max_terms=3)
            kinds = dict(ref.variables)
            if all((kinds.get(n, i) is None) == (i is None) for n, i in other.variables) \
                    and all(i is None or i == sorted(i) for i in kinds.values()):
                m.note(f'({ref.text()}) * ({other.text()})')
                poly, ref = poly * build(rng, other), ref * other
        check_text(m, repr(poly), ref, exact)
        if rng.random() < .3:
            m.equal('text.str', str(poly), repr(poly))
        check_latex(m, poly, ref)
        check_expression(m, poly(), ref, exact)


def varieties(m):
    from cyjax import HomPoly, VarietySingle, Dwork, Fermat
    for rng in m.cases('varieties', 80, 800):
        mode = rng.integers(4)
        if mode <= 1:
            n = int(rng.integers(3, 7))
            deg = int(rng.integers(1, 5))
            ref = rp.random_hompoly(rng, [deg], [n])
            m.note(ref.text())
            name = ref.variables[0][0]
            idx = ref.variables[0][1]
            if mode == 0 and idx == list(range(n)):
                var = VarietySingle.from_sympy(ref.text(rng), name, n, ref.params)
            else:
                var = VarietySingle(HomPoly.from_sympy(
                    ref.text(rng), [name], ref.params, variable_indices=[idx]))
        else:
            n = int(rng.integers(3, 8))
            deg = n
            eye = [tuple(n * (i == j) for j in range(n)) for i in range(n)]
            if mode == 2:
                factor = [True, False, 3., -2, 1.5][rng.integers(5)]
                f = {True: -5., False: 1.}[factor] if isinstance(factor, bool) else factor
                m.note(f'Dwork {n - 2} {factor}')
                var = Dwork(n - 2, factor)
                terms = {e + (0,): 1. for e in eye}
                terms[(1,) * n + (1,)] = f
                ref = rp.RefPoly([('z', list(range(n)))], ['psi'], terms)
            else:
                m.note(f'Fermat {n - 2}')
                var = Fermat(n - 2)
                ref = rp.RefPoly([('z', list(range(n)))], [], {e: 1. for e in eye})
        sizes = (var.dim, var.dim_variety, var.dim_projective, var.dim_complex,
                 var.num_defining, var.par_count, [str(p) for p in var.parameters])
        m.equal('variety.sizes', sizes, (n - 2, n - 2, n - 1, n, 1, len(ref.params), ref.params))
        text = repr(var)
        numbers = [int(k) for k in re.findall(r'\d+', text.rsplit('=', 1)[0].split(':')[0])]
        m.equal('variety.text', numbers, [n - 2, n - 1])
        check_text(m, text.split(':', 1)[1], ref)
        check_latex(m, var, ref)
        # the reported sizes are those of the arrays in use
        z = rng.normal(size=var.dim_complex) + 1j * rng.normal(size=var.dim_complex)
        par = rng.normal(size=var.par_count)
        m.close('variety.value', var.defining(z, par), ref.value([z], par), 1e-9, ref.size([z], par))
        zl = z[:var.dim_projective]
        full = np.insert(zl, 0, 1.)
        m.close('variety.value', var.defining(zl, par, patch=0), ref.value([full], par), 1e-9,
                ref.size([full], par))


WORKLOADS = {'polynomials': polynomials, 'varieties': varieties}
