"""C29: fitting a function."""
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error, expect_rejection, expect_value_error

R = Registry('C29', 'the six quadratures with 2 to 25 states, intervals with either end between 0 and 1000 and lengths from 1e-6 to 1000, the default interval, functions of the values and of the indices (polynomials, densities, indicators, tables with null rows); oracle: independent nodes and weights (interpolatory weights, Legendre roots, midpoints, multiples of the square root of two), recorded evaluation points, exactness on polynomials; non-trivial: weights or nodes which are not symmetric under the function')

TYPES = ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']


def quadrature(t, n, a, b):
    h = (b - a) / 2
    m = (b + a) / 2
    if t == 'gauss-chebyshev':  # first Fejer rule: interpolatory on the zeros of the Chebyshev polynomial
        th = [(k + 0.5) * math.pi / n for k in range(n)]
        x = [m - h * math.cos(q) for q in th]
        w = [h * 2.0 / n * (1 - 2 * sum(math.cos(2 * j * q) / (4 * j * j - 1) for j in range(1, (n - 1) // 2 + 1))) for q in th]
    elif t == 'gauss-legendre':
        z, w = np.polynomial.legendre.leggauss(n)
        x, w = [m + h * q for q in z], [h * q for q in w]
    elif t == 'niederreiter':
        x = []
        for k in range(1, n + 1):  # fractional part of k sqrt(2), in integers
            r = math.isqrt(2 * k * k * 10 ** 60)
            x.append(a + (b - a) * float(F(r % 10 ** 30, 10 ** 30)))
        w = [(b - a) / n] * n
    elif t == 'newton-cotes':
        x = [a + (b - a) * (2 * k + 1) / (2 * n) for k in range(n)]
        w = [(b - a) / n] * n
    elif t == 'simpson-rule':
        x = [a + (b - a) * k / (n - 1) for k in range(n)]
        w = [(b - a) / (n - 1) / 3 * (1 if k in (0, n - 1) else (4 if k % 2 else 2)) for k in range(n)]
    else:
        x = [a + (b - a) * k / (n - 1) for k in range(n)]
        w = [(b - a) / (n - 1) * (0.5 if k in (0, n - 1) else 1) for k in range(n)]
    return x, w


@st.composite
def interval(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return None
    a = draw(st.one_of(st.just(0.0), st.integers(0, 100).map(float), st.floats(0, 1000).map(lambda x: round(x, 6))))
    d = draw(st.one_of(st.integers(1, 50).map(float), st.sampled_from([1e-6, 1e-3, 0.1, 0.5, 1000.0]), st.floats(0.01, 100).map(lambda x: round(x, 6) + 0.001)))
    return [a, a + d]


@st.composite
def cases(draw):
    t = draw(st.sampled_from(TYPES))
    n = draw(st.one_of(st.integers(2, 8), st.integers(2, 25)))
    if t == 'simpson-rule' and n % 2 == 0:
        n += 1
    f = draw(st.sampled_from(['poly', 'poly', 'gauss', 'table', 'table', 'indicator', 'sum', 'half', 'constant']))
    return {'type': t, 'n': n, 'interval': draw(interval()), 'f': f, 'coef': draw(st.lists(st.integers(0, 9), min_size=6, max_size=6)), 'table': draw(st.lists(st.integers(0, 3), min_size=n, max_size=n * n)) if f == 'table' else None,
            'ints': draw(st.booleans()), 'scale': draw(st.sampled_from([1.0] * 6 + [1e-250, 1e-100, 1e-20, 1e20, 1e100, 1e300, 1.5e306]))}


def function(case, a, b):
    c, n, kind = case['coef'], case['n'], case['f']
    u = lambda x: (x - a) / (b - a)  # noqa
    if kind == 'poly':
        return lambda i, x, j, y: (c[0] + c[1] * u(x) + c[2] * u(y) + c[3] * u(x) * u(y) + c[4] * u(y) ** 2 + (c[5] + 1) * u(x) ** 2 * u(y))
    if kind == 'gauss':
        return lambda i, x, j, y: math.exp(-((u(y) - c[0] / 9 * u(x) - 0.1) * (1 + c[1])) ** 2)
    if kind == 'table':
        t = case['table']
        return lambda i, x, j, y: t[(i * n + j) % len(t)] if not (i % 3 == c[0] % 3 and c[1] % 2) else 0
    if kind == 'indicator':
        return lambda i, x, j, y: 1.0 if abs(i - j) <= c[0] % 3 and i % (c[1] + 2) else 0.0
    if kind == 'sum':
        return lambda i, x, j, y: x + 2 * y + i + 3 * j
    if kind == 'half':
        return lambda i, x, j, y: 1.0 if y >= x + c[0] / 9 * (b - a) else 0.0
    return lambda i, x, j, y: 1 + c[0]


def fit(case, f, L=None):
    from pydtmc import MarkovChain
    L = L or [f's{i}' for i in range(case['n'])]
    if case['interval'] is None:
        return MarkovChain.fit_function(case['type'], L, f)
    return MarkovChain.fit_function(case['type'], L, f, tuple(int(x) if case['ints'] and x == int(x) else x for x in case['interval']))


@R.law(cases(), 4000, 40000)
def values(case, ctx):
    """Normalised values times weights, at the nodes in increasing or declared order, each evaluated with its own indices; null rows uniform."""
    n = case['n']
    a, b = case['interval'] or (0.0, 1.0)
    x, w = quadrature(case['type'], n, a, b)
    base, c = function(case, a, b), min(case.get('scale', 1.0), 1e300 if case['f'] == 'sum' else 1e307)
    g = base if c == 1.0 else (lambda i, x, j, y: float(base(i, x, j, y)) * (c if a <= x <= b and a <= y <= b else 1.0))  # the validation calls it outside of the interval
    calls = []

    def f(x_index, x_value, y_index, y_value):
        calls.append((x_index, x_value, y_index, y_value))
        return g(x_index, x_value, y_index, y_value)
    L = [f'{"zyx"[i % 3]}{i}' for i in range(n)]
    mc = fit(case, f, L)
    what = f'fit_function({case["type"]}, {n} states, {case["interval"]}, {case["f"]} {case["coef"]} {case["table"]})'
    same(mc.states, L, f'{what}: names')
    seen = {}
    for i, xi, j, yj in calls:  # an earlier call is the one of the validation
        seen[(i, j)] = (xi, yj)
    same(sorted(seen), [(i, j) for i in range(n) for j in range(n)], f'{what}: evaluations')
    tol = 1e-9 * (b - a) + 1e-13 * b
    for (i, j), (xi, yj) in seen.items():
        require(abs(xi - x[i]) <= tol and abs(yj - x[j]) <= tol, f'{what}: the function is evaluated at {(xi, yj)} for the nodes {(i, j)} instead of {(x[i], x[j])}')
    ref = []
    for i in range(n):
        # the oracle uses the points at which the function was evaluated, so that the indicators do not depend on rounding
        r = [base(i, seen[(i, j)][0], j, seen[(i, j)][1]) * w[j] for j in range(n)]
        s = math.fsum(r)
        ref.append([v / s for v in r] if s else [1.0 / n] * n)
    close(mc.p, ref, what, rtol=1e-6 if case['type'] == 'gauss-legendre' else 1e-8, atol=1e-9)
    ctx.interesting(case['f'] != 'constant')
    ctx.tag(case['type'], case['f'], 'default' if case['interval'] is None else ('a=0' if a == 0 else 'a>0'), 'null row' if any(len(set(r)) == 1 for r in ref) else 'no null row')


@R.law(cases(), 800, 8000)
def exactness(case, ctx):
    """The implied weights integrate exactly the polynomials that the quadrature integrates."""
    n, t = case['n'], case['type']
    a, b = case['interval'] or (0.0, 1.0)
    deg = {'gauss-chebyshev': n - 1, 'gauss-legendre': min(2 * n - 1, 12), 'niederreiter': 0, 'newton-cotes': 1, 'simpson-rule': 3 if n >= 3 else 1, 'trapezoid-rule': 1}[t]
    deg = min(deg, 12)
    mc = fit(case, lambda x_index, x_value, y_index, y_value: 1.0)
    w = mc.p[0]
    nodes = {}

    def f(x_index, x_value, y_index, y_value):
        nodes[y_index] = y_value
        return 1.0
    fit(case, f)
    u = np.array([(nodes[k] - a) / (b - a) for k in range(n)])
    require(np.all((u >= -1e-9) & (u <= 1 + 1e-9)), f'{t}, {n} states, {case["interval"]}: nodes outside of the interval: {[nodes[k] for k in range(n)]}')
    for d in range(deg + 1):
        close(float(w @ u ** d), 1.0 / (d + 1), f'{t}, {n} states, interval {case["interval"]}: integral of the monomial of degree {d}', rtol=1e-6, atol=1e-7)
    for i in range(1, n):
        close(mc.p[i], w, 'equal rows for a constant function', rtol=0, atol=1e-12)
    ctx.interesting(deg > 0)
    ctx.tag(t)


@R.law(cases(), 800, 8000)
def rejected(case, ctx):
    """Functions which raise or return a negative, infinite or undefined value anywhere, even numbers of states for the Simpson rule, wrong intervals, signatures and names."""
    from pydtmc import MarkovChain
    n, t, c = case['n'], case['type'], case['coef']
    L = [f's{i}' for i in range(n)]
    I = None if case['interval'] is None else tuple(case['interval'])
    I0, J0 = c[0] % n, c[1] % n
    ctx.interesting(True)
    for bad in (-1.0, -1e-9, float('nan'), float('inf'), None, 'x', 1j):
        if (I0, J0) == (1, 1):
            J0 = 0
        n_calls = [0]

        def f(x_index, x_value, y_index, y_value):
            n_calls[0] += 1
            return bad if (x_index, y_index) == (I0, J0) and n_calls[0] > 1 else 1.0
        expect_value_error(lambda: MarkovChain.fit_function(t, L, f, I), f'fit_function {t} with {bad} at {(I0, J0)}')
    ok = lambda x_index, x_value, y_index, y_value: 1.0  # noqa
    for v in ((1.0, 1.0), (2.0, 1.0), (-1.0, 1.0), (0.0, float('inf')), (float('nan'), 1.0), (0.0,), (0.0, 1.0, 2.0), [0.0, 1.0], 1.0, ('a', 'b')):
        expect_validation_error(lambda: MarkovChain.fit_function(t, L, ok, v), f'fit_function with the interval {v}')
    expect_validation_error(lambda: MarkovChain.fit_function('x', L, ok), 'quadrature')
    expect_validation_error(lambda: MarkovChain.fit_function(t, L[:1], ok), 'one state')
    expect_validation_error(lambda: MarkovChain.fit_function(t, L + L[:1], ok), 'duplicated states')
    expect_validation_error(lambda: MarkovChain.fit_function(t, None, ok), 'no states')
    expect_validation_error(lambda: MarkovChain.fit_function(t, L, None), 'no function')
    expect_validation_error(lambda: MarkovChain.fit_function(t, L, 1.0), 'not a function')
    expect_validation_error(lambda: MarkovChain.fit_function(t, L, lambda x, y: 1.0), 'two arguments')
    expect_validation_error(lambda: MarkovChain.fit_function(t, L, lambda a, b, c, d: 1.0), 'names of the arguments')
    if n % 2:
        expect_validation_error(lambda: MarkovChain.fit_function('simpson-rule', L + ['even'], ok), 'even number of states')
