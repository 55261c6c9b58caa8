"""C15: first passage probabilities and rewards."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, close, same, require, expect_validation_error, expect_value_error, Discard

R = Registry('C15', 'chains of every layout, generated start, passage set (index or name), steps up to 25 and rewards; oracle: taboo-probability recursion in exact arithmetic, and path enumeration for short horizons; non-trivial: at least three steps and a passage probability strictly between 0 and 1')


@st.composite
def cases(draw, nmax=6, steps=12, schemes=None, nmin=2, kinds=None):
    c = draw(gen.chain(nmin, nmax, kinds=kinds or (None if schemes is None else gen.KINDS + gen.SMALL), schemes=schemes))
    n = len(c['p'])
    c['steps'] = draw(st.integers(1, steps))
    c['start'] = draw(st.integers(0, n - 1))
    c['set'] = draw(gen.subset(n))
    c['rset'] = draw(gen.subset(n, max_size=n - 1))
    c['rewards'] = draw(st.lists(st.integers(-40, 40).map(lambda x: x / 8), min_size=n, max_size=n))
    c['byname'] = draw(st.booleans())
    return c


def arithmetic(case):
    """Long horizons: non-negative floating point terms only, whose relative error stays below 1e-12."""
    P = O.exact(case['p'])
    return O.floats(P) if case['steps'] > 15 else P


def first_passage(P, start, j, steps):
    """f[k] = P_start(first visit to j at times >= 1 happens at time k), k = 1..steps."""
    n = len(P)
    v = [0] * n
    v[start] = P[0][0] * 0 + 1
    out = []
    for _ in range(steps):
        w = O.vecmat(v, P)
        out.append(w[j])
        w[j] = 0
        v = w
    return out


def check(case, ctx):
    """Row k of the result holds, for each state, the probability that the first visit after time 0 happens at step k; for a set of states, the sum over its states."""
    gen.tag_chain(case, ctx)
    L = gen.names(case)
    n, steps, s = len(case['p']), case['steps'], case['start']
    P = arithmetic(case)
    F = [first_passage(P, s, j, steps) for j in range(n)]
    ctx.interesting(steps > 2 and any(0 < x < 1 for f in F for x in f))
    ctx.tag(f'steps={steps}', f'set={len(case["set"])}')
    start = L[s] if case['byname'] else s
    S = [L[i] for i in case['set']] if case['byname'] else case['set']
    mc = gen.build(case)
    for name in ('first_passage_probabilities', 'fpp'):
        close(getattr(mc, name)(steps, start), [[float(F[j][k]) for j in range(n)] for k in range(steps)], f'{name}({steps}, {start!r})', rtol=1e-9, atol=1e-290)
        close(getattr(mc, name)(steps, start, S), [float(sum(F[j][k] for j in case['set'])) for k in range(steps)], f'{name}({steps}, {start!r}, {S!r})', rtol=1e-9, atol=1e-290)
        j = case['set'][0]
        close(getattr(mc, name)(steps, start, L[j] if case['byname'] else j), [float(F[j][k]) for k in range(steps)], f'{name}({steps}, {start!r}, single {j})', rtol=1e-9, atol=1e-290)


def check_reward(case, ctx):
    """The first passage reward is the expected sum of the rewards collected at steps 1..N in the states outside of the passage set, before entering it."""
    gen.tag_chain(case, ctx)
    L = gen.names(case)
    p = case['p']
    n, steps, s, T, r = len(p), case['steps'], case['start'], case['rset'], case['rewards']
    start = L[s] if case['byname'] else s
    S = [L[i] for i in T] if case['byname'] else list(T)
    mc = gen.build(case)

    def call(name='first_passage_reward'):
        return getattr(mc, name)(steps, start, S, r if case['byname'] else np.array(r))
    if n == 2:
        ctx.tag('two states')
        expect_value_error(call, 'first_passage_reward on two states')
        return
    if s in T:
        ctx.tag('start in set')
        expect_validation_error(call, 'first_passage_reward with the initial state in the set')
        return
    if len(T) == n - 1:
        ctx.tag('set too large')
        expect_validation_error(call, 'first_passage_reward with every other state in the set')
        return
    ctx.tag('value')
    ctx.interesting(steps > 2)
    P = arithmetic(case)
    v = [0] * n
    v[s] = P[0][0] * 0 + 1
    total = Fraction(0)
    scale = 0.0
    for _ in range(steps):
        v = O.vecmat(v, P)
        for t in T:
            v[t] = 0
        total += sum(v[i] * type(P[0][0])(r[i]) for i in range(n))
        scale += float(sum(v[i] * abs(type(P[0][0])(r[i])) for i in range(n)))
    for name in ('first_passage_reward', 'fpr'):
        close(call(name), float(total), f'{name}({steps}, {start!r}, {S!r}, {r})', rtol=1e-9, atol=1e-11 * (1 + scale))


@R.law(cases(), 2400, 30000)
def passage_probabilities(case, ctx):
    """Row k of the result holds, for each state, the probability that the first visit after time 0 happens at step k; for a set of states, the sum over its states."""
    check(case, ctx)


@R.law(cases(6, 12, ['tiny']), 1600, 20000)
def passage_probabilities_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50, in relative accuracy."""
    check(case, ctx)


@R.law(cases(4, 220), 240, 3000)
def passage_probabilities_long(case, ctx):
    """Same over up to 220 steps."""
    check(case, ctx)


@R.law(cases(7, 15), 2400, 30000)
def passage_reward(case, ctx):
    """The first passage reward is the expected sum of the rewards collected at steps 1..N in the states outside of the passage set, before entering it."""
    check_reward(case, ctx)


@R.law(cases(6, 200, ['tiny', 'dyadic']), 600, 8000)
def passage_reward_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50, over up to 200 steps."""
    check_reward(case, ctx)


@R.law(cases(24, 40, gen.PLAINLY, 9, gen.KINDS), 160, 2400)
def passage_large(case, ctx):
    """Probabilities and rewards for 9 to 24 states, over up to 40 steps."""
    case = dict(case, steps=max(16, case['steps']))
    check(case, ctx)
    check_reward(case, ctx)
