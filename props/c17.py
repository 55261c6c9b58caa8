"""C17: time correlations and time relaxations."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, close, same, require, is_none, Discard

R = Registry('C17', 'chains with one or several stationary distributions, one or two observed walks (index or name), unordered lists of time points below and above the number of states; oracle: exact matrix powers; sequences of up to 3600 elements; non-trivial: at least two distinct time points with the largest at least 2')


@st.composite
def cases(draw, tmax=14, small=False, nmin=2, nmax=6, kinds=None):
    c = draw(gen.chain(nmin, nmax, kinds=gen.KINDS + gen.SMALL * 3 if small else kinds, schemes=['tiny', 'tiny', 'dyadic'] if small else None))
    n = len(c['p'])
    c['s1'] = draw(gen.indices(n, 2, 12))
    c['s2'] = draw(st.one_of(st.none(), gen.indices(n, 2, 12)))
    rep = st.sampled_from([1, 1, 1, 1, 2, 20, 130, 300])
    c['r1'], c['r2'] = draw(rep), draw(rep)
    small = st.integers(0, n)
    t = st.one_of(small, small, st.integers(0, tmax), st.integers(tmax // 2, tmax))
    c['times'] = draw(st.one_of(t, st.lists(t, min_size=1, max_size=5, unique=True), st.lists(small, min_size=2, max_size=5, unique=True)))
    c['dist'] = draw(st.one_of(st.none(), gen.distribution(n, schemes=('dyadic', 'decimal', 'onehot', 'sparse'))))
    c['byname'] = draw(st.booleans())
    return c


def check(case, ctx):
    """With o1, o2 the state counts of the walks, the correlation at t is sum_i o1_i pi_i (P^t o2)_i and the relaxation at t is d P^t o; sorted by time, a scalar for a single time point, None with several stationary distributions."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    case = dict(case, s1=case['s1'] * case.get('r1', 1), s2=None if case['s2'] is None else case['s2'] * case.get('r2', 1))  # long sequences
    times = case['times'] if isinstance(case['times'], list) else [case['times']]
    scalar = not isinstance(case['times'], list)
    if max(times) > n and O.complex_spectrum(p) and not case.get('__known__'):
        ctx.tag('excluded: known finding K1')
        raise Discard()
    P = O.exact(p)
    rec = O.recurrent_classes(p)
    mc = gen.build(case)
    s1 = [L[i] for i in case['s1']] if case['byname'] else list(case['s1'])
    s2 = None if case['s2'] is None else ([L[i] for i in case['s2']] if case['byname'] else list(case['s2']))
    if len(rec) > 1:
        ctx.tag('several stationary distributions')
        is_none(mc.time_correlations(s1, s2, case['times']), 'time_correlations with several stationary distributions')
        is_none(mc.time_relaxations(s1, case['dist'], case['times']), 'time_relaxations with several stationary distributions')
        return
    ctx.interesting(len(times) > 1 and max(times) > 1)
    ctx.tag('scalar' if scalar else 'list', 'beyond n' if max(times) > n else 'up to n', 'cross' if s2 else 'auto', 'long' if max(len(case['s1']), len(case['s2'] or [])) > 250 else 'short')
    pi = O.stationary_of_class(P, rec[0])
    o1 = [Fraction(case['s1'].count(i)) for i in range(n)]
    o2 = o1 if case['s2'] is None else [Fraction(case['s2'].count(i)) for i in range(n)]
    d = [Fraction(1, n)] * n if case['dist'] is None else [Fraction(x) for x in case['dist']]
    tc, tr = [], []
    far = max(times) > 40
    for t in sorted(times):
        if far:  # non-negative terms: in floating point
            M = np.linalg.matrix_power(np.array(O.floats(P)), t)
            tc.append(float(np.dot(np.array(O.floats(o1)) * np.array(O.floats(pi)), np.dot(M, O.floats(o2)))))
            tr.append(float(np.dot(O.floats(d), np.dot(M, O.floats(o1)))))
            continue
        v, w = list(o2), list(o1)
        for _ in range(t):
            v, w = O.matvec(P, v), O.matvec(P, w)
        tc.append(float(sum(a * b * c for a, b, c in zip(o1, pi, v))))
        tr.append(float(sum(a * b for a, b in zip(d, w))))
    # the code evaluates the powers beyond n through eigenvectors: allow for their conditioning
    tol = 1e-9 if max(times) <= n else 1e-7
    ctx.tag('far' if far else '')
    for name in ('time_correlations', 'tc'):
        got = getattr(mc, name)(s1, s2, case['times'])
        close(got, tc[0] if scalar else tc, f'{name}({s1[:40]}, {None if s2 is None else s2[:40]}, {case["times"]})', rtol=tol, atol=tol)
    for name in ('time_relaxations', 'tr'):
        got = getattr(mc, name)(s1, case['dist'], case['times'])
        close(got, tr[0] if scalar else tr, f'{name}({s1[:40]}, {case["dist"]}, {case["times"]})', rtol=tol, atol=tol)
    if scalar:
        require(isinstance(mc.time_correlations(s1, s2, case['times']), float), 'time_correlations of one time point must be a float')
        require(isinstance(mc.time_relaxations(s1, case['dist'], case['times']), float), 'time_relaxations of one time point must be a float')


@R.law(cases(), 4000, 50000)
def correlations_relaxations(case, ctx):
    """With o1, o2 the state counts of the walks, the correlation at t is sum_i o1_i pi_i (P^t o2)_i and the relaxation at t is d P^t o; sorted by time, a scalar for a single time point, None with several stationary distributions."""
    check(case, ctx)


@R.law(cases(4000, True), 2400, 30000)
def far_times(case, ctx):
    """Same at times up to 4000, with transition probabilities down to 2^-50."""
    check(case, ctx)


@R.law(cases(300, kinds=['defective'], nmin=3), 480, 8000)
def defective(case, ctx):
    """Same for chains without a basis of eigenvectors, up to time 300."""
    check(case, ctx)


@R.law(cases(60, False, 7, 20), 240, 3000)
def large(case, ctx):
    """Same for 7 to 20 states, up to time 60."""
    check(case, ctx)
