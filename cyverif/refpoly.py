"""Reference model of parametrised polynomials, independent of cyjax.

A polynomial is a dictionary {(exponents of all scalar symbols)}: coefficient,
where the scalar symbols are the flattened variables followed by parameters.
"""
from itertools import combinations_with_replacement

import numpy as np
import sympy


class RefPoly:
    def __init__(self, variables, params, terms):
        self.variables = [(n, None if i is None else list(i)) for n, i in variables]
        self.params = list(params)
        self.terms = {k: complex(v) for k, v in terms.items() if v != 0}

    # -- symbols -----------------------------------------------------------
    @property
    def var_symbols(self):
        out = []
        for n, idx in self.variables:
            out += [n] if idx is None else [f'{n}{i}' for i in idx]
        return out

    @property
    def symbols(self):
        return self.var_symbols + self.params

    @property
    def nvar(self):
        return len(self.var_symbols)

    def sizes(self):
        return [1 if i is None else len(i) for _, i in self.variables]

    # -- evaluation --------------------------------------------------------
    def flat(self, values, params):
        """Stack inputs to one array with the symbols on the last axis."""
        cols = []
        for (n, idx), v in zip(self.variables, values):
            v = np.asarray(v)
            cols.append(v[..., None] if idx is None else v)
        if self.params:
            cols.append(np.asarray(params))
        shape = np.broadcast_shapes(*(c.shape[:-1] for c in cols))
        cols = [np.broadcast_to(c, shape + c.shape[-1:]) for c in cols]
        return np.concatenate(cols, axis=-1).astype(complex)

    def value_flat(self, x):
        x = np.asarray(x, dtype=complex)
        out = np.zeros(x.shape[:-1], complex)
        for e, c in self.terms.items():
            out = out + c * np.prod(x ** np.array(e, int), axis=-1)
        return out

    def size_flat(self, x):
        """Sum of the moduli of all terms, the natural scale for errors."""
        x = np.abs(np.asarray(x, dtype=complex))
        out = np.zeros(x.shape[:-1])
        for e, c in self.terms.items():
            out = out + abs(c) * np.prod(x ** np.array(e, int), axis=-1)
        return out

    def value(self, values, params=None):
        return self.value_flat(self.flat(values, params))

    def size(self, values, params=None):
        return self.size_flat(self.flat(values, params))

    # -- algebra -----------------------------------------------------------
    def diff(self, symbol):
        k = self.symbols.index(symbol)
        terms = {}
        for e, c in self.terms.items():
            if e[k]:
                f = list(e)
                f[k] -= 1
                terms[tuple(f)] = terms.get(tuple(f), 0) + c * e[k]
        return RefPoly(self.variables, self.params, terms)

    def lift(self, variables, params):
        """Express in terms of a larger set of symbols."""
        new = RefPoly(variables, params, {})
        pos = [new.symbols.index(s) for s in self.symbols]
        for e, c in self.terms.items():
            f = [0] * len(new.symbols)
            for p, x in zip(pos, e):
                f[p] = x
            new.terms[tuple(f)] = new.terms.get(tuple(f), 0) + c
        return new

    @staticmethod
    def union(a, b):
        variables = [(n, None if i is None else list(i)) for n, i in a.variables]
        names = [n for n, _ in variables]
        for n, idx in b.variables:
            if n in names:
                k = names.index(n)
                if idx is not None:
                    variables[k] = (n, sorted(set(variables[k][1]) | set(idx)))
            else:
                variables.append((n, idx))
                names.append(n)
        params = a.params + [p for p in b.params if p not in a.params]
        return variables, params

    def _binary(self, other, op):
        u = self.union(self, other)
        a, b = self.lift(*u), other.lift(*u)
        terms = {}
        if op == '*':
            for e, c in a.terms.items():
                for f, d in b.terms.items():
                    k = tuple(x + y for x, y in zip(e, f))
                    terms[k] = terms.get(k, 0) + c * d
        else:
            terms = dict(a.terms)
            for f, d in b.terms.items():
                terms[f] = terms.get(f, 0) + (d if op == '+' else -d)
        return RefPoly(*u, terms)

    def __add__(self, o):
        return self._binary(o, '+')

    def __sub__(self, o):
        return self._binary(o, '-')

    def __mul__(self, o):
        return self._binary(o, '*')

    # -- writing out -------------------------------------------------------
    def text(self, rng=None, underscore=False):
        """Python expression; symbol notation and term order optionally mixed."""
        syms = []
        for n, idx in self.variables:
            if idx is None:
                syms.append(n)
            else:
                syms += [f'{n}_{i}' if underscore else f'{n}{i}' for i in idx]
        syms += self.params
        parts = []
        for e, c in self.terms.items():
            if c.imag == 0:
                coeff = f'({c.real!r})'
            elif c.real == 0:
                coeff = f'({c.imag!r}*I)'
            else:
                coeff = f'({c.real!r}+({c.imag!r})*I)'
            f = [coeff] + [s if k == 1 else f'{s}**{k}' for s, k in zip(syms, e) if k]
            if rng is not None:
                f = [f[i] for i in rng.permutation(len(f))]
            parts.append('*'.join(f))
        if rng is not None:
            parts = [parts[i] for i in rng.permutation(len(parts))]
        return ' + '.join(parts) if parts else '0'

    def expr(self):
        return sympy.sympify(self.text(), locals={s: sympy.Symbol(s) for s in self.symbols})

    def degree(self):
        return max(sum(e[:self.nvar]) for e in self.terms)


def expr_terms(expr, symbols):
    """Coefficient dictionary of a sympy expression in the given symbol names."""
    syms = [sympy.Symbol(s) if isinstance(s, str) else s for s in symbols]
    expr = sympy.sympify(expr)
    extra = expr.free_symbols - set(syms)
    if extra:
        raise ValueError(f'unexpected symbols {extra}')
    if not syms:
        return {(): complex(expr)} if complex(expr) != 0 else {}
    poly = sympy.Poly(sympy.expand(expr), *syms)
    return {m: complex(c) for m, c in poly.terms() if complex(c) != 0}


def terms_equal(a, b, tol=1e-12):
    """Equality of coefficient dictionaries, relative to the largest one."""
    scale = max([abs(c) for c in list(a.values()) + list(b.values())], default=0) or 1.
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * scale for k in set(a) | set(b))


# -- generation -------------------------------------------------------------
VAR_NAMES = ['z', 'x', 'y', 'w', 'u', 'v', 'xx', 'coord']
PAR_NAMES = ['a', 'b', 'psi', 'alpha1', 'alpha2', 't', 'p', 'q', 'c0', 'k', 'phi', 'm10', 'm2']


def random_coeff(rng, kind=None):
    kind = kind or rng.choice(['one', 'int', 'real', 'imag', 'complex'], p=[.25, .25, .2, .1, .2])
    if kind == 'one':
        return 1.
    if kind == 'int':
        return float(rng.choice([-5, -3, -2, -1, 2, 3, 7]))
    r, i = rng.uniform(.2, 3, 2) * rng.choice([-1, 1], 2)
    if rng.random() < .6:
        r, i = np.round((r, i), 3)
    r, i = float(r), float(i)
    return {'real': r, 'imag': 1j * i, 'complex': r + 1j * i}[kind]


def random_indices(rng, size):
    mode = rng.integers(3)
    if mode == 0:
        return list(range(size))
    if mode == 1:
        s = int(rng.integers(1, 4))
        return list(range(s, s + size))
    return sorted(int(i) for i in rng.choice(max(13, size + 3), size, replace=False))


def random_poly(rng, max_vars=3, max_params=3, max_degree=5, max_terms=6,
                coeff=None, indices=None, scalars=True, min_symbols=1, param_power=1, large=0.):
    """Random polynomial in which every symbol appears at least once.

    With probability large one with many components, terms and high powers.
    """
    max_size = 4
    if rng.random() < large:
        max_size, max_terms, max_degree = 12, 24, 14
    while True:
        nv = int(rng.integers(1, max_vars + 1))
        names = list(rng.choice(VAR_NAMES, nv, replace=False))
        variables = []
        for n in names:
            if scalars and rng.random() < .35:
                variables.append((str(n), None))
            else:
                size = int(rng.integers(1, max_size + 1))
                variables.append((str(n), random_indices(rng, size)
                                  if indices is None else list(range(size))))
        ref = RefPoly(variables, [], {})
        if ref.nvar >= min_symbols:
            break
    params = [str(p) for p in rng.choice(PAR_NAMES, int(rng.integers(0, max_params + 1)), replace=False)]
    ref = RefPoly(variables, params, {})
    n = len(ref.symbols)
    terms = {}
    for _ in range(int(rng.integers(1, max_terms + 1))):
        e = np.zeros(n, int)
        for _ in range(int(rng.integers(0, max_degree + 1))):
            e[rng.integers(ref.nvar)] += 1
        for k in range(ref.nvar, n):
            if rng.random() < .4:
                e[k] = rng.integers(1, param_power + 1)
        terms[tuple(int(i) for i in e)] = random_coeff(rng, coeff)
    for k in range(n):  # make every symbol appear
        if not any(e[k] for e in terms):
            e = np.zeros(n, int)
            e[k] = 1
            if rng.random() < .5:
                e[rng.integers(ref.nvar)] += 1
            if k >= ref.nvar and e[k] > param_power:
                e[k] = param_power
            terms[tuple(int(i) for i in e)] = random_coeff(rng, coeff)
    return RefPoly(variables, params, terms)


def random_values(rng, ref, batch=(), kind=None):
    """Random inputs: list of variable arrays and the parameter array."""
    kind = kind or rng.choice(['complex', 'real', 'zeros', 'neg', 'int'])

    def draw(shape):
        if kind == 'real':
            return rng.uniform(-2, 2, shape)
        if kind == 'neg':
            return -rng.uniform(.1, 2, shape)
        if kind == 'int':
            return rng.integers(-3, 4, shape).astype(float)
        z = rng.uniform(-1.5, 1.5, shape) + 1j * rng.uniform(-1.5, 1.5, shape)
        if kind == 'zeros':
            z = z * (rng.random(shape) < .6)
        return z
    vals = [draw(batch if idx is None else (*batch, len(idx))) for _, idx in ref.variables]
    return vals, draw((*batch, len(ref.params)))


def all_exponents(n, degree):
    """All exponent tuples of n symbols with given total degree."""
    out = []
    for c in combinations_with_replacement(range(n), degree):
        e = [0] * n
        for i in c:
            e[i] += 1
        out.append(tuple(e))
    return out


def random_hompoly(rng, degrees, sizes, names=None, indices=None, max_params=2,
                   coeff=None, density=.5, pure=True):
    """Random (multi-)homogeneous polynomial."""
    names = names or [str(n) for n in rng.choice(VAR_NAMES, len(sizes), replace=False)]
    indices = indices or [random_indices(rng, s) for s in sizes]
    params = [str(p) for p in rng.choice(PAR_NAMES, int(rng.integers(0, max_params + 1)), replace=False)]
    variables = list(zip(names, indices))
    blocks = [all_exponents(s, d) for s, d in zip(sizes, degrees)]
    combos = [()]
    for b in blocks:
        combos = [c + e for c in combos for e in b]
    terms = {}
    for e in combos:
        is_pure = pure and max(e) == max(degrees) and sum(1 for i in e if i) == len(sizes)
        if is_pure or rng.random() < density * min(1, 8 / len(combos)):
            par = [0] * len(params)
            if params and not is_pure and rng.random() < .5:
                par[rng.integers(len(params))] = 1
            terms[e + tuple(par)] = random_coeff(rng, coeff)
    for k in range(len(params)):
        if not any(e[len(e) - len(params) + k] for e in terms):
            par = [0] * len(params)
            par[k] = 1
            terms[combos[int(rng.integers(len(combos)))] + tuple(par)] = random_coeff(rng, coeff)
    return RefPoly(variables, params, terms)
