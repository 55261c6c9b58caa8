"""C25: chains of named models."""
from fractions import Fraction as F
from math import comb
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error

R = Registry('C25', 'every model with parameters from corner values, decimals and generic floats; sizes from the smallest; reference: the transition law of the model in exact arithmetic; non-trivial: parameters which are not all at a corner')


def check(mc, rows, names, what, atol=1e-12):
    close(mc.p, [[float(x) for x in r] for r in rows], what, rtol=1e-9, atol=atol)
    same([[bool(x > 0) for x in r] for r in mc.p], [[bool(x > 0) for x in r] for r in rows], f'{what}: support')
    same(mc.states, names, f'{what}: names')
    same(mc.size, len(rows), f'{what}: size')


@st.composite
def birth_death(draw):
    n = draw(gen.mostly(st.integers(2, 10), st.integers(11, 40)))
    den = draw(st.sampled_from([10, 64, 100, 1000, 10 ** 7, 2 ** 30]))
    a = draw(st.lists(st.integers(0, den), min_size=n, max_size=n))
    b = draw(st.lists(st.integers(0, den), min_size=n, max_size=n))
    tiny = draw(st.integers(0, 3)) == 0
    p = [x / den for x in a]
    q = []
    for x, y in zip(a, b):
        q.append((y % (den - x + 1)) / den)
    if draw(st.integers(0, 2)) == 0:  # a small probability of staying
        for i in range(n):
            if a[i] % 3:
                q[i] = max(0.0, 1.0 - p[i] - 2.0 ** -(4 + b[i] % 44))
    elif tiny:
        p = [x * 1e-6 for x in p]
    p[-1] = 0.0
    q[0] = 0.0
    return {'p': p, 'q': q, 'states': draw(gen.labels(n))}


@R.law(birth_death(), 1200, 12000)
def birth_and_death(case, ctx):
    """Up with probability p, down with probability q, else stay."""
    from pydtmc import MarkovChain
    p, q, L = case['p'], case['q'], case['states']
    n = len(p)
    if not all(x + y <= 1.0 for x, y in zip(p, q)):
        expect_validation_error(lambda: MarkovChain.birth_death(p, q), 'birth_death with sums above one')
        return
    ctx.interesting(any(0 < x < 1 for x in p) and any(0 < x < 1 for x in q))
    rows = []
    for i in range(n):
        r = [F(0)] * n
        stay = 1 - F(p[i]) - F(q[i])
        r[i] = stay if stay > F(1, 10 ** 15) else F(0)
        if i + 1 < n:
            r[i + 1] = F(p[i])
        if i > 0:
            r[i - 1] = F(q[i])
        s = sum(r)
        rows.append([x / s for x in r])
    kw = {} if L is None else {'states': L}
    check(MarkovChain.birth_death(np.array(p), np.array(q), **kw), rows, L or [str(i + 1) for i in range(n)], f'birth_death({p}, {q})')
    check(MarkovChain.birth_death(list(p), list(q), **kw), rows, L or [str(i + 1) for i in range(n)], f'birth_death({p}, {q}) from lists')
    bad = list(p)
    bad[-1] = 0.25
    expect_validation_error(lambda: MarkovChain.birth_death(bad, q), 'birth in the last state')
    bad = list(q)
    bad[0] = 0.25
    expect_validation_error(lambda: MarkovChain.birth_death(p, bad), 'death in the first state')
    expect_validation_error(lambda: MarkovChain.birth_death(p, [0.0] + q), 'vectors of different lengths')
    bad = list(p)
    bad[0] = 1.5
    expect_validation_error(lambda: MarkovChain.birth_death(bad, q), 'probability above one')
    bad[0] = -0.1
    expect_validation_error(lambda: MarkovChain.birth_death(bad, q), 'negative probability')
    if n > 2:
        pp, qq = list(p), list(q)
        pp[1], qq[1] = 0.6, 0.5
        expect_validation_error(lambda: MarkovChain.birth_death(pp, qq), 'sum above one')


@R.law(st.fixed_dictionaries({'n': gen.mostly(st.integers(3, 12), st.integers(13, 60)), 'w': st.one_of(st.integers(1, 99).map(lambda x: x / 100), st.floats(1e-6, 1 - 1e-6)), 'salt': st.integers(0, 3)}).flatmap(
    lambda c: gen.labels(c['n']).map(lambda L: dict(c, states=L))), 500, 5000)
def gamblers_ruin(case, ctx):
    """Win with probability w, lose otherwise, stop at both ends."""
    from pydtmc import MarkovChain
    n, w, L = case['n'], case['w'], case['states']
    ctx.interesting(w != 0.5)
    rows = [[F(0)] * n for _ in range(n)]
    rows[0][0] = rows[-1][-1] = F(1)
    for i in range(1, n - 1):
        rows[i][i + 1], rows[i][i - 1] = F(w), 1 - F(w)
    check(MarkovChain.gamblers_ruin(n, w, L), rows, L or [str(i + 1) for i in range(n)], f'gamblers_ruin({n}, {w})')
    for a in ((2, w), (1, w), (0, w), (n, 0.0), (n, 1.0), (n, -w), (n, 1 + w), (n, float('nan')), (n + 0.5, w)):
        expect_validation_error(lambda a=a: MarkovChain.gamblers_ruin(*a), f'gamblers_ruin{a}')
    expect_validation_error(lambda: MarkovChain.gamblers_ruin(n, w, [str(i) for i in range(n + 1)]), 'wrong number of names')


@R.law(st.tuples(st.sampled_from(['ehrenfest', 'bernoulli-laplace']), gen.mostly(st.integers(1, 6), st.integers(7, 25))).flatmap(lambda t: gen.labels(2 * t[1] + 1).map(lambda L: {'model': t[0], 'n': t[1], 'states': L})), 240, 2000)
def urns(case, ctx):
    """One ball changes urn (Ehrenfest), or one ball of each urn is exchanged (Bernoulli-Laplace)."""
    from pydtmc import MarkovChain
    m, n, L = case['model'], case['n'], case['states']
    ctx.interesting(n > 1)
    N = 2 * n
    rows = [[F(0)] * (N + 1) for _ in range(N + 1)]
    for i in range(N + 1):
        x = F(i, N)
        for j, v in ((i - 1, x if m == 'ehrenfest' else x * x), (i + 1, 1 - x if m == 'ehrenfest' else (1 - x) ** 2), (i, F(0) if m == 'ehrenfest' else 2 * x * (1 - x))):
            if v:
                rows[i][j] = v
    mc = MarkovChain.urn_model(m, n) if L is None else MarkovChain.urn_model(m, n, L)
    check(mc, rows, L or [str(i + 1) for i in range(N + 1)], f'urn_model({m}, {n})')
    expect_validation_error(lambda: MarkovChain.urn_model(m, 0), 'no balls')
    expect_validation_error(lambda: MarkovChain.urn_model('urn', n), 'unknown model')
    expect_validation_error(lambda: MarkovChain.urn_model(m, n, [str(i) for i in range(N)]), 'wrong number of names')


rates = st.one_of(st.just(0.0), st.just(1e-9), st.integers(0, 100).map(lambda x: x / 100), st.floats(0, 1).map(lambda x: round(x, 9)), st.just(1.0))
selection = st.one_of(st.just(0.0), st.integers(-100, 100).map(lambda x: x / 100), st.sampled_from([-1.0, 1.0, -0.5, 0.999]))


@st.composite
def genetics(draw):
    model = draw(st.sampled_from(['moran', 'wright-fisher']))
    n = draw(st.one_of(st.integers(2, 14), st.integers(2, 14), st.integers(15, 30), st.integers(31, 60)))
    s = draw(selection)
    if model == 'wright-fisher':
        s = draw(st.one_of(st.just(s), st.floats(0, 4).map(lambda x: round(x, 6))))
    u, v = draw(rates), draw(rates)
    if model == 'wright-fisher':
        u, v = u / (4.0 * n), v / (4.0 * n)
    return {'model': model, 'n': n, 's': s, 'u': u, 'v': v, 'states': draw(gen.labels(n + 1)), 'short': draw(st.booleans())}


@R.law(genetics(), 1200, 12000)
def population(case, ctx):
    """Moran: one birth (fitness 1 - s, mutations) and one death; Wright-Fisher: binomial resampling (fitness 1 + s, mutations); both ends absorbing."""
    from pydtmc import MarkovChain
    m, n, L = case['model'], case['n'], case['states']
    s, u, v = case['s'], case['u'], case['v']
    what = f'population_genetics_model({m}, {n}, {s}, {u}, {v})'
    S, U, V = F(s), F(u), F(v)
    kw = {'s': s, 'u': u, 'v': v}
    if case['short']:
        for k, x in (('s', 0.0), ('u', 1e-9), ('v', 1e-9)):
            if kw[k] == x:
                del kw[k]
    if L is not None:
        kw['states'] = L
    if m == 'wright-fisher' and 4.0 * n * max(u, v) > 1.0:
        return
    ctx.interesting(s != 0 and u != v)
    ctx.tag(m)
    rows = [[F(0)] * (n + 1) for _ in range(n + 1)]
    rows[0][0] = rows[n][n] = F(1)
    for i in range(1, n):
        if m == 'moran':
            w = (1 - S) * i + (n - i)
            up = F(n - i, n) * ((1 - S) * i * (1 - U) + (n - i) * V) / w
            # known finding: the library uses V here, which the stored results of its tests pin
            back = U if case.get('__known__') else V
            down = F(i, n) * ((1 - S) * i * back + (n - i) * (1 - V)) / w
            rows[i][i + 1], rows[i][i - 1], rows[i][i] = up, down, 1 - up - down
        else:
            k = F(i, n)
            a = k * (1 - U) + (1 - k) * V
            x = a * (1 + S) / (a * (1 + S) + 1 - a)
            for j in range(n + 1):
                rows[i][j] = comb(n, j) * x ** j * (1 - x) ** (n - j)
    mc = MarkovChain.population_genetics_model(m, n, **kw)
    close(mc.p, [[float(x) for x in r] for r in rows], what, rtol=1e-7, atol=1e-13)
    same(mc.states, L or [str(i + 1) for i in range(n + 1)], f'{what}: names')
    require(np.allclose(mc.p.sum(axis=1), 1, rtol=0, atol=1e-12), f'{what}: rows')


@R.law(genetics(), 120, 1200)
def population_rejected(case, ctx):
    """Out of range parameters are rejected, the highest accepted ones are not."""
    from pydtmc import MarkovChain
    m, n = case['model'], case['n']
    f = MarkovChain.population_genetics_model
    ctx.interesting(True)
    for a in ((m, 1), (m, 0), (m, 501), (m, n, -1.01), (m, n, 0.0, -0.01), (m, n, 0.0, 1.01), (m, n, 0.0, 0.0, -0.01), (m, n, 0.0, 0.0, 1.01), ('wright', n), (m, n, float('inf')), (m, n + 0.5)):
        expect_validation_error(lambda a=a: f(*a), f'population_genetics_model{a}')
    expect_validation_error(lambda: f('moran', n, 1.25), 'negative fitness')
    hi = 0.25 / n
    expect_validation_error(lambda: f('wright-fisher', n, 0.0, hi * 1.001, 0.0), 'mutation rate')
    expect_validation_error(lambda: f('wright-fisher', n, 0.0, 0.0, hi * 1.001), 'mutation rate')
    f('wright-fisher', n, 0.0, hi * 0.999, hi * 0.999)
    f('moran', n, 1.0, 1.0, 1.0)
    expect_validation_error(lambda: f(m, n, states=[str(i) for i in range(n)]), 'wrong number of names')


@R.law(gen.mostly(st.integers(2, 12), st.integers(13, 60)).flatmap(lambda n: gen.labels(n).map(lambda L: {'n': n, 'states': L})), 80, 800)
def identity(case, ctx):
    """Every state stays where it is."""
    from pydtmc import MarkovChain
    n, L = case['n'], case['states']
    ctx.interesting(n > 2)
    check(MarkovChain.identity(n) if L is None else MarkovChain.identity(n, L), [[F(int(i == j)) for j in range(n)] for i in range(n)], L or [str(i + 1) for i in range(n)], f'identity({n})')
    for a in ((1,), (0,), (-n,), (n, [str(i) for i in range(n + 1)]), (n, ['x'] * n), ('2',), (n + 0.5,)):
        expect_validation_error(lambda a=a: MarkovChain.identity(*a), f'identity{a}')
