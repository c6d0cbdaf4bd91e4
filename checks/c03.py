"""Random operands combined by chains of algebraic operations and substitutions."""
import numpy as np
import sympy

from checks.c01 import shuffled
from cyverif import refpoly as rp

REQUIRED = ['add', 'sub', 'mul', 'diff', 'number', 'symbol', 'chain', 'result-inputs',
            'subs', 'subs.permuted', 'subs.mixed', 'operands-unchanged']


def build(rng, ref):
    from cyjax.polynomial import Poly
    return Poly.from_sympy(ref.text(rng), [n for n, _ in ref.variables], ref.params,
                           variable_indices=[i for _, i in ref.variables])


def partner(rng, ref):
    """Second operand sharing some variables and parameters."""
    while True:
        other = shuffled(rng, rp.random_poly(rng, max_terms=4))
        kinds = dict(ref.variables)
        if all((kinds[n] is None) == (i is None) for n, i in other.variables if n in kinds) \
                and any(n in kinds for n, _ in other.variables) | (rng.random() < .2):
            return other


def judge(m, name, rng, ref, poly, ordered=True):
    m.equal('result-inputs', list(poly.variable_names), [n for n, _ in ref.variables])
    indices = [None if i is None else [int(k) for k in i] for i in poly.variable_indices]
    if not ordered:  # operands with subscripts in an unusual order: any order which is reported
        m.equal('result-inputs', [i and sorted(i) for i in indices], [i and sorted(i) for _, i in ref.variables])
        ref = ref.lift([(n, i) for (n, _), i in zip(ref.variables, indices)], ref.params)
    m.equal('result-inputs', indices, [i for _, i in ref.variables])
    m.equal('result-inputs', [str(p) for p in poly.parameters], ref.params)
    vals, par = rp.random_values(rng, ref)
    m.close(name, poly(*vals, params=par), ref.value(vals, par), 1e-10, ref.size(vals, par))


def state(poly):
    return (str(poly()), list(poly.variable_names), repr(poly.variable_indices), str(poly.parameters))


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}


def constant(ref, c):
    return rp.RefPoly(ref.variables, ref.params, {(0,) * len(ref.symbols): c})


def binary(m):
    for rng in m.cases('binary', 220, 2200):
        r1 = shuffled(rng, rp.random_poly(rng, max_terms=4))
        r2 = partner(rng, r1)
        m.note(f'({r1.text()}) . ({r2.text()})')
        p1, p2 = build(rng, r1), build(rng, r2)
        before = state(p1), state(p2)
        ordered = all(i is None or i == sorted(i) for _, i in r1.variables + r2.variables)
        for name, op in OPS.items():
            judge(m, name, rng, op(r1, r2), op(p1, p2), ordered)
        c = rp.random_coeff(rng)
        if rng.random() < .3:  # parts of very different size
            c = complex(c) * 10. ** rng.integers(-6, 7) + 1j * rng.normal() * 10. ** rng.integers(-8, 3)
        num = [c, np.array(c), sympy.sympify(c)][rng.integers(3)]
        for op in OPS.values():
            judge(m, 'number', rng, op(r1, constant(r1, c)), op(p1, num), ordered)
        # a symbol: own variable, new subscript of own variable, new or own parameter
        n, i = r1.variables[rng.integers(len(r1.variables))]
        kind = rng.integers(3)
        if kind == 0 and r1.params:
            s = r1.params[rng.integers(len(r1.params))]
            other = rp.RefPoly([], [s], {(1,): 1.})
        elif kind == 1:
            s = 'omega'
            other = rp.RefPoly([], [s], {(1,): 1.})
        elif i is None:
            s = n
            other = rp.RefPoly([(n, None)], [], {(1,): 1.})
        else:
            k = int(rng.integers(0, 15))
            s = f'{n}_{k}' if rng.integers(2) else f'{n}{k}'
            other = rp.RefPoly([(n, [k])], [], {(1,): 1.})
        m.note(f'({r1.text()}) . {s}')
        for op in OPS.values():
            judge(m, 'symbol', rng, op(r1, other), op(p1, sympy.Symbol(s)), ordered)
        m.equal('operands-unchanged', (state(p1), state(p2)), before)


def derivative(m):
    for rng in m.cases('diff', 220, 2200):
        ref = shuffled(rng, rp.random_poly(rng))
        poly = build(rng, ref)
        before = state(poly)
        for n, i in ref.variables:
            for k in ([None] if i is None else i):
                s = n if k is None else f'{n}{k}'
                u = n if k is None else f'{n}_{k}'
                m.note(f'd/d{s} {ref.text()}')
                arg = [s, u, sympy.Symbol(s), sympy.Symbol(u)][rng.integers(4)]
                judge(m, 'diff', rng, ref.diff(s), poly.diff(arg))
        m.equal('operands-unchanged', state(poly), before)


def chain(m):
    for rng in m.cases('chain', 80, 800):
        ref = rp.random_poly(rng, max_terms=3, max_degree=3, max_params=2)
        poly = build(rng, ref)
        log = []
        for _ in range(4):
            kind = ['add', 'sub', 'mul', 'diff', 'number'][rng.integers(5)]
            log.append(kind)
            if kind == 'diff':
                s = ref.var_symbols[rng.integers(ref.nvar)]
                ref, poly = ref.diff(s), poly.diff(s)
            elif kind == 'number':
                c = rp.random_coeff(rng)
                ref, poly = ref * constant(ref, c), poly * c
            else:
                while True:
                    o = rp.random_poly(rng, max_vars=2, max_terms=2, max_degree=2, max_params=1)
                    kinds = dict(ref.variables)
                    if all((kinds[n] is None) == (i is None) for n, i in o.variables if n in kinds):
                        break
                q = build(rng, o)
                ref, poly = OPS[kind](ref, o), OPS[kind](poly, q)
            if len(ref.terms) > 60:
                break
            m.note(f'{log} -> {ref.text()}')
            judge(m, 'chain', rng, ref, poly)


def _numeric(expr, env):
    """Value of a symbolic result at numbers assigned to symbols."""
    expr = sympy.sympify(expr)
    syms = sorted(expr.free_symbols, key=str)
    unknown = [s for s in syms if str(s) not in env]
    if unknown:
        raise ValueError(f'unexpected symbols {unknown}')
    return complex(sympy.lambdify(syms, expr, 'numpy')(*[env[str(s)] for s in syms]))


def substitution(m):
    for rng in m.cases('subs', 160, 1600):
        ref = shuffled(rng, rp.random_poly(rng, max_terms=5))
        m.note(ref.text())
        poly = build(rng, ref)
        m.ok('subs.none', rp.terms_equal(rp.expr_terms(poly(), ref.symbols), ref.terms),
             'expression differs')
        own = ref.symbols
        pool = own + ['n1', 'n2', 'n_3']
        env = {s: complex(rng.normal(), rng.normal()) for s in pool}

        def term(kind):
            if kind == 'new':
                s = pool[rng.integers(len(pool))]
                return sympy.Symbol(s), env[s]
            if kind == 'expr':
                a, b = pool[rng.integers(len(pool))], pool[rng.integers(len(pool))]
                c = complex(rp.random_coeff(rng, 'int')).real
                return sympy.Symbol(a) * c + sympy.Symbol(b) ** 2, env[a] * c + env[b] ** 2
            c = complex(rp.random_coeff(rng, 'real')).real
            return c, c

        for mode in ('permuted', 'mixed', 'numbers+symbol'):
            if mode == 'permuted':
                perm = rng.permutation(len(own))
                items = [(sympy.Symbol(own[k]), env[own[k]]) for k in perm]
            else:
                items = [term(['new', 'expr', 'num'][rng.integers(3)]) for _ in own]
                if mode == 'mixed':
                    items = [term('expr')] + items[1:]
                else:
                    items = [term('num') for _ in own]
                    items[int(rng.integers(len(own)))] = term('new')
            args, numeric, pos = [], [], 0
            for n, i in ref.variables:
                if i is None:
                    args.append(items[pos][0])
                    numeric.append(np.array(items[pos][1]))
                    pos += 1
                else:
                    part = items[pos:pos + len(i)]
                    args.append(np.array([t for t, _ in part], dtype=object))
                    numeric.append(np.array([v for _, v in part]))
                    pos += len(i)
            par = np.array([t for t, _ in items[pos:]], dtype=object)
            npar = np.array([v for _, v in items[pos:]])
            m.note(f'{ref.text()} at {args} {par}')
            if rng.integers(2):
                res = poly(*args, params=par)
            else:
                res = poly(**{n: a for (n, _), a in zip(ref.variables, args)}, params=par)
            name = {'permuted': 'subs.permuted', 'mixed': 'subs'}.get(mode, 'subs.mixed')
            m.close(name, _numeric(res, env), ref.value(numeric, npar), 1e-12, ref.size(numeric, npar))


WORKLOADS = {'binary': binary, 'derivative': derivative, 'chain': chain,
             'substitution': substitution}
