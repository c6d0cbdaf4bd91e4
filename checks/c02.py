"""Random expressions passed through all construction routes, in processes with different hash seeds."""
import json
import os
import subprocess
import sys

import numpy as np
import sympy

from checks.c01 import shuffled
from cyverif import refpoly as rp

REQUIRED = ['route.string', 'route.expr', 'route.poly', 'route.arrays', 'route.detect-params',
            'route.detect-vars', 'route.dim', 'route.notation', 'roundtrip', 'from-arrays', 'order',
            'inputs-unchanged', 'hash-order']


def judge(m, name, rng, ref, poly, exact_params=True, variables=None):
    """Meta data, expression and value of a constructed polynomial."""
    variables = ref.variables if variables is None else variables
    m.equal('order', list(poly.variable_names), [n for n, _ in variables])
    m.equal('order', [None if i is None else [int(k) for k in i] for i in poly.variable_indices],
            [i for _, i in variables])
    params = [str(p) for p in poly.parameters]
    want = ref.params if exact_params else sorted(ref.params)
    m.equal('order', params, want)
    full = ref.lift(variables, params)
    got = rp.expr_terms(poly(), full.symbols)
    m.ok(name, rp.terms_equal(got, full.terms), f'represents {got} instead of {full.terms}')
    vals, par = rp.random_values(rng, full, kind='complex')
    m.close(name, poly(*vals, params=par), full.value(vals, par), 1e-9, full.size(vals, par))


def routes(m):
    from cyjax.polynomial import Poly
    for rng in m.cases('routes', 160, 1600):
        ref = rp.random_poly(rng, param_power=2, large=.05)
        m.note(ref.text())
        names = [n for n, _ in ref.variables]
        indices = [None if i is None else list(i) for _, i in ref.variables]
        judge(m, 'route.string', rng, ref, Poly.from_sympy(ref.text(rng), names, ref.params))
        m.equal('inputs-unchanged', (names, indices), ([n for n, _ in ref.variables],
                                                     [i for _, i in ref.variables]))
        judge(m, 'route.notation', rng, ref, Poly.from_sympy(
            ref.text(rng, underscore=True), list(names), list(ref.params)))
        pars = [sympy.Symbol(p) if rng.random() < .5 else p for p in ref.params]
        judge(m, 'route.expr', rng, ref, Poly.from_sympy(
            sympy.parse_expr(ref.text(rng, underscore=bool(rng.integers(2))),
                             {s: sympy.Symbol(s) for s in ref.symbols}),
            names, pars, variable_indices=indices))
        m.equal('inputs-unchanged', indices, [i for _, i in ref.variables])
        gens = [sympy.Symbol(s) for s in ref.var_symbols]
        dom = sympy.CC[tuple(sympy.Symbol(p) for p in ref.params)] if ref.params else sympy.CC
        judge(m, 'route.poly', rng, ref, Poly.from_sympy(
            sympy.Poly(ref.expr(), *gens, domain=dom)))
        # declared by arrays of symbols, possibly permuted
        arrays, variables = [], []
        for n, i in ref.variables:
            if i is None:
                arrays.append(np.array(sympy.Symbol(n)))
                variables.append((n, None))
            else:
                i = [i[k] for k in rng.permutation(len(i))]
                u = '_' if rng.integers(2) else ''
                arrays.append(np.array([sympy.Symbol(f'{n}{u}{k}') for k in i]))
                variables.append((n, i))
        judge(m, 'route.arrays', rng, ref, Poly.from_sympy(ref.text(rng), arrays, ref.params),
              variables=variables)
        judge(m, 'route.detect-params', rng, ref, Poly.from_sympy(ref.text(rng), names),
              exact_params=False)
        auto = Poly.from_sympy(ref.text(rng), parameters=list(ref.params))
        m.equal('route.detect-vars', sorted(auto.variable_names), sorted(names))
        judge(m, 'route.detect-vars', rng, ref, auto,
              variables=[(n, dict(ref.variables)[n]) for n in auto.variable_names])
        # order of the names is that of the declaration
        perm = rng.permutation(len(names))
        judge(m, 'route.string', rng, ref, Poly.from_sympy(
            ref.text(rng), [names[k] for k in perm], ref.params),
            variables=[ref.variables[k] for k in perm])
        if all(i is not None for i in indices):
            dims = [max(i) + 1 + int(rng.integers(3)) for i in indices]
            judge(m, 'route.dim', rng, ref, Poly.from_sympy(
                ref.text(rng), names, ref.params, variable_dim=dims),
                variables=[(n, list(range(d))) for n, d in zip(names, dims)])
            more = [sorted({*i, *map(int, rng.integers(0, 12, 2))}) for i in indices]
            judge(m, 'route.dim', rng, ref, Poly.from_sympy(
                ref.text(rng), names, ref.params, variable_indices=more),
                variables=list(zip(names, more)))


def extra(m):
    """Declared but unused variables and parameters keep their place."""
    from cyjax.polynomial import Poly
    for rng in m.cases('unused', 60, 600):
        ref = rp.random_poly(rng, max_vars=2, max_params=2)
        names = [n for n, _ in ref.variables]
        k = int(rng.integers(0, len(ref.params) + 1))
        params = ref.params[:k] + ['unused'] + ref.params[k:]
        j = int(rng.integers(0, len(names) + 1))
        idx = rp.random_indices(rng, 2) if rng.integers(2) else None
        variables = ref.variables[:j] + [('gap', idx)] + ref.variables[j:]
        m.note(f'{ref.text()} {variables} {params}')
        full = ref.lift(variables, params)
        poly = Poly.from_sympy(ref.text(rng), [n for n, _ in variables], params,
                               variable_indices=[i for _, i in variables])
        judge(m, 'route.string', rng, full, poly)
        roundtrip(m, rng, full, poly)


def roundtrip(m, rng, ref, poly):
    from cyjax.polynomial import Poly
    coeffs, cpar, powers = poly.to_coeffs_and_powers()
    total = {}
    for k, c in enumerate(coeffs):
        e = []
        for (n, i), p in zip(ref.variables, powers):
            e += [0] * (1 if i is None else len(i)) if p is None else list(p[k])
        e += [sum(1 for q in cpar[k] if str(q) == s) for s in ref.params]
        m.equal('roundtrip.params', {str(q) for q in cpar[k]} - set(ref.params), set())
        total[tuple(int(x) for x in e)] = total.get(tuple(int(x) for x in e), 0) + complex(c)
    m.ok('roundtrip', rp.terms_equal(total, ref.terms), f'{total} instead of {ref.terms}')
    back = Poly.from_coeffs_and_powers(
        coeffs, powers, cpar, [n for n, _ in ref.variables],
        [i for _, i in ref.variables], list(poly.parameters))
    judge(m, 'roundtrip', rng, ref, back)


def arrays(m):
    from cyjax.polynomial import Poly
    for rng in m.cases('roundtrip', 100, 1000):
        ref = shuffled(rng, rp.random_poly(rng, large=.08))
        m.note(ref.text())
        roundtrip(m, rng, ref, Poly.from_sympy(
            ref.text(rng), [n for n, _ in ref.variables], ref.params,
            variable_indices=[i for _, i in ref.variables]))
        # powers and coefficients to polynomial with default names
        nv = int(rng.integers(1, 4) if rng.random() < .7 else rng.integers(4, 9))
        sizes = [int(rng.integers(1, 4)) for _ in range(nv)]
        n = int(rng.integers(1, 5) if rng.random() < .8 else rng.integers(5, 25))
        powers = [rng.integers(0, 4, (n, s)).tolist() for s in sizes]
        coeffs = [rp.random_coeff(rng) for _ in range(n)]
        pars = ['k', 'psi', 't']
        # a parameter may appear several times in a term
        cpar = [[pars[i] for i in rng.choice(3, int(rng.integers(0, 4)), replace=bool(rng.random() < .4))]
                for _ in range(n)]
        m.note(f'{coeffs} {cpar} {powers}')
        terms = {}
        for k in range(n):
            e = tuple(int(x) for p in powers for x in p[k]) + tuple(
                cpar[k].count(s) for s in pars)
            terms[e] = terms.get(e, 0) + coeffs[k]
        if all(abs(c) > 1e-9 for c in terms.values()):
            ref = rp.RefPoly([(chr(97 + i), list(range(s))) for i, s in enumerate(sizes)], pars, terms)
            if rng.integers(2):
                poly = Poly.from_coeffs_and_powers(coeffs, powers, cpar, parameters=pars)
            else:
                used = sorted({q for c in cpar for q in c})
                poly = Poly.from_coeffs_and_powers(coeffs, powers, cpar)
                ref = rp.RefPoly(ref.variables, used, {
                    e[:-3] + tuple(e[len(e) - 3 + pars.index(q)] for q in used): c
                    for e, c in terms.items()})
            judge(m, 'from-arrays', rng, ref, poly)


def _orders(seed, count):
    """Argument orders of a list of polynomials (executed in children)."""
    from cyjax.polynomial import Poly, univariate_coefficients
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(count):
        ref = rp.random_poly(rng, max_vars=3, max_params=3, coeff='int')
        a = Poly.from_sympy(ref.text(rng), [n for n, _ in ref.variables])
        b = Poly.from_sympy(ref.text(rng), parameters=ref.params)
        cpar = [[p] for p in ref.params] or [[]]
        n = len(cpar)
        c = Poly.from_coeffs_and_powers([1.] * n, [[[1, 2]] * n], cpar)
        d = a * a + sympy.Symbol('zeta')
        for p in (a, b, c, d):
            out.append([list(p.variable_names), [list(map(int, i)) if i is not None else None
                                                 for i in p.variable_indices],
                        [str(s) for s in p.parameters]])
        vals, par = rp.random_values(rng, ref, kind='real')
        vb = [vals[[n for n, _ in ref.variables].index(k)] for k in b.variable_names]
        out.append(f'{complex(b(*vb, params=par)):.8e}')
    return out


def hashing(m):
    seeds = m.pick(['0', '1', '2', 'random', '77'], [str(i) for i in range(12)] + ['random'] * 4)
    count = m.pick(40, 150)
    procs = []
    code = ('import sys, json; sys.path[:0] = json.loads(sys.argv[1]); import jax; '
            'jax.config.update("jax_enable_x64", True); from checks import c02; '
            'print(json.dumps(c02._orders(int(sys.argv[2]), int(sys.argv[3]))))')
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=s)
        procs.append(subprocess.Popen(
            [sys.executable, '-c', code, json.dumps(sys.path[:2]), str(m.seed), str(count)],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    results = []
    for p in procs:
        o, e = p.communicate(timeout=300)
        if p.returncode:
            m.fail('hash-order', f'construction failed: {e[-800:]}')
        results.append(json.loads(o.strip().splitlines()[-1]))
    for (s, r), _ in m.each('hash-order', list(zip(seeds, results))):
        for i, (x, y) in enumerate(zip(r, results[0])):
            m.note(f'hash seed {s}: {x}')
            m.equal('hash-order', x, y)


WORKLOADS = {'routes': routes, 'extra': extra, 'arrays': arrays, 'hashing': hashing}
