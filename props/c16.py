"""C16: forward evolution: transition and conditional probabilities, redistribution, expected rewards and transitions."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, close, same, require, Discard

R = Registry('C16', 'chains of every layout, start as index, name, vector or default, horizons 1..60 (and up to 10^4 for transitions); oracle: exact powers and partial sums; non-trivial: at least three steps and a chain which is not deterministic')


@st.composite
def cases(draw, nmin=2, nmax=6, steps=16, small=False, kinds=None):
    c = draw(gen.chain(nmin, nmax, kinds=gen.KINDS + gen.SMALL * 3 if small else kinds, schemes=['tiny', 'tiny', 'dyadic'] if small else None))
    n = len(c['p'])
    c['steps'] = draw(st.integers(1, steps) if steps < 100 else st.one_of(st.integers(1, steps), st.integers(100, steps), st.integers(2, 9).map(lambda k: steps // k)))
    c['start'] = draw(st.integers(0, n - 1))
    c['dist'] = draw(gen.distribution(n, schemes=('dyadic', 'decimal', 'onehot', 'sparse')))
    c['mode'] = draw(st.sampled_from(['none', 'index', 'name', 'vector', 'array']))
    c['rewards'] = draw(st.lists(st.integers(-40, 40).map(lambda x: x / 8), min_size=n, max_size=n))
    return c


def status(case):
    n = len(case['p'])
    m = case['mode']
    if m == 'none':
        return None, [Fraction(1, n)] * n
    if m in ('index', 'name'):
        v = [Fraction(int(i == case['start'])) for i in range(n)]
        return (case['start'] if m == 'index' else gen.names(case)[case['start']]), v
    return (list(case['dist']) if m == 'vector' else np.array(case['dist'])), [Fraction(x) for x in case['dist']]


def arithmetic(case, P, *vectors):
    """Long horizons: in floating point, whose relative error on non-negative terms stays below 1e-12 per 1000 steps."""
    if case['steps'] <= 16:
        return (P,) + vectors
    return tuple(O.floats(x) for x in (P,) + vectors)


def check(case, ctx):
    """redistribute returns the exact distributions d, dP, ..., dP^N (or only the last); P(target|origin), conditional distributions and rewards follow the matrix."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n, N = len(p), case['steps']
    ctx.interesting(N > 2 and any(0 < x < 1 for r in p for x in r))
    ctx.tag('mode=' + case['mode'])
    P = O.exact(p)
    arg, v = status(case)
    s = sum(v)
    P, first = arithmetic(case, P, [x / s for x in v])
    dists = [first]
    for _ in range(N):
        dists.append(O.vecmat(dists[-1], P))
    mc = gen.build(case)
    close(mc.redistribute(N, arg), O.floats(dists[-1]), f'redistribute({N}, {arg!r})', rtol=1e-9, atol=1e-200)
    got = mc.redistribute(N, arg, output_last=False)
    same(len(got), N + 1, 'number of distributions')
    for k in range(N + 1):
        close(got[k], O.floats(dists[k]), f'redistribute({N}, {arg!r}, output_last=False)[{k}]', rtol=1e-9, atol=1e-200)
    for i in range(n):
        close(mc.conditional_probabilities(i), p[i], f'conditional_probabilities({i})', rtol=0, atol=0)
        for name in ('conditional_probabilities', 'conditional_distribution', 'cd', 'cp'):
            close(getattr(mc, name)(L[i]), p[i], f'{name}({L[i]!r})', rtol=0, atol=0)
        j = (i * 7 + N) % n
        close(mc.transition_probability(j, i), p[i][j], f'transition_probability(target={j}, origin={i})', rtol=0, atol=0)
        close(mc.transition_probability(L[j], L[i]), p[i][j], f'transition_probability(target={L[j]!r}, origin={L[i]!r})', rtol=0, atol=0)
    exact = O.exact(p)
    Q, r = arithmetic(case, exact, [Fraction(x) for x in case['rewards']])
    scale = max(abs(float(x)) for x in r) * (N + 1)
    acc = list(r)
    for _ in range(N):
        acc = [a + b for a, b in zip(r, O.matvec(Q, acc))]
    for name in ('expected_rewards', 'er'):
        close(getattr(mc, name)(N, case['rewards']), O.floats(acc), f'{name}({N}, {case["rewards"]})', rtol=1e-9, atol=1e-11 * scale)


def transitions(P, v, N):
    n = len(P)
    acc, d = [0] * n, list(v)
    for _ in range(N):
        acc = [a + b for a, b in zip(acc, d)]
        d = O.vecmat(d, P)
    return [[float(acc[i] * P[i][j]) for j in range(n)] for i in range(n)]


def check_transitions(case, ctx, N):
    p = case['p']
    n = len(p)
    if N > n and O.complex_spectrum(p) and not case.get('__known__'):
        ctx.tag('excluded: known finding K1')
        raise Discard()
    ctx.interesting(N > 2 and any(0 < x < 1 for r in p for x in r))
    ctx.tag('N<=n' if N <= n else 'N>n')
    arg, v = status(dict(case, mode='vector' if case['mode'] in ('index', 'name') else case['mode']))
    s = sum(v)
    P, w = arithmetic(dict(case, steps=N), O.exact(p), v)
    exp = transitions(P, w, N)
    mc = gen.build(case)
    keep = None if arg is None else np.array(arg, dtype=float)
    for name in ('expected_transitions', 'et'):
        close(getattr(mc, name)(N, arg), exp, f'{name}({N}, {arg!r})', rtol=1e-6, atol=1e-8 * N)
    if keep is not None:
        require(np.array_equal(np.array(arg, dtype=float), keep), 'the initial distribution was modified')


@R.law(cases(), 2400, 30000)
def redistribution(case, ctx):
    """redistribute returns the exact distributions d, dP, ..., dP^N (or only the last); P(target|origin), conditional distributions and rewards follow the matrix."""
    check(case, ctx)


@R.law(cases(2, 5, 3000, True), 400, 5000)
def redistribution_long(case, ctx):
    """Same over up to 3000 steps, with transition probabilities down to 2^-50, in relative accuracy."""
    check(case, ctx)


@R.law(cases(2, 5, 20000, True), 320, 3000)
def rewards_long(case, ctx):
    """Expected rewards over up to 20000 steps."""
    gen.tag_chain(case, ctx)
    P, r = arithmetic(dict(case, steps=10 ** 9), O.exact(case['p']), [Fraction(x) for x in case['rewards']])
    ctx.interesting(case['steps'] > 100)
    acc = list(r)
    for _ in range(case['steps']):
        acc = [a + b for a, b in zip(r, O.matvec(P, acc))]
    scale = max(abs(x) for x in r) * (case['steps'] + 1)
    close(gen.build(case).expected_rewards(case['steps'], case['rewards']), acc, f'expected_rewards({case["steps"]}, {case["rewards"]})', rtol=1e-9, atol=1e-11 * scale)


@R.law(cases(2, 6, 4000, True), 400, 5000)
def expected_transitions_long(case, ctx):
    """Expected transitions over up to 4000 steps, with transition probabilities down to 2^-50."""
    gen.tag_chain(case, ctx)
    check_transitions(case, ctx, case['steps'])


@R.law(cases(2, 6, 14), 1600, 25000)
def expected_transitions(case, ctx):
    """Entry (i, j) is the expected number of transitions from i to j during the first N steps."""
    gen.tag_chain(case, ctx)
    check_transitions(case, ctx, case['steps'])


@R.law(cases(3, 6, 200, kinds=['defective']), 320, 5000)
def expected_transitions_defective(case, ctx):
    """Same for chains without a basis of eigenvectors, up to 200 steps."""
    gen.tag_chain(case, ctx)
    check_transitions(case, ctx, case['steps'])


@R.law(cases(5, 12, 12), 600, 10000)
def expected_transitions_short(case, ctx):
    """Same with horizons up to the number of states."""
    gen.tag_chain(case, ctx)
    check_transitions(case, ctx, min(case['steps'], len(case['p'])))


@R.law(cases(8, 24, 20), 240, 3000)
def redistribution_large(case, ctx):
    """The evolution over 17 to 36 steps of chains of 8 to 24 states."""
    check(dict(case, steps=16 + case['steps']), ctx)


@R.law(cases(13, 24, 24), 160, 2000)
def expected_transitions_large(case, ctx):
    """Expected transitions of chains of 13 to 24 states."""
    check_transitions(case, ctx, min(case['steps'], len(case['p'])))
