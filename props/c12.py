"""C12: mean first passage times and mean recurrence times."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, is_none, Discard

R = Registry('C12', 'ergodic chains (and non-ergodic controls), generated origin and target sets by index or name; oracle: exact rational solution of the first-passage equations; non-trivial: ergodic and at least three states')


@st.composite
def cases(draw, nmin, nmax, kinds, schemes=None):
    c = draw(gen.chain(nmin, nmax, kinds=kinds, schemes=schemes))
    n = len(c['p'])
    c['targets'] = draw(gen.subset(n))
    c['origins'] = draw(gen.subset(n, max_size=n - 1))
    c['btargets'] = draw(gen.subset(n, max_size=n - 1))
    c['byname'] = draw(st.booleans())
    return c


def check(case, ctx):
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    mc = gen.build(case)

    def ref(s):
        return [L[i] for i in s] if case['byname'] else list(s)

    t, o, bt = case['targets'], case['origins'], case['btargets']
    cls = O.classes(p)
    if len(cls) > 1 or O.period_of(p, cls[0]) != 1:
        ctx.tag('not ergodic')
        for what, v in (('mfpt_to()', mc.mean_first_passage_times_to()), ('mfpt_to(targets)', mc.mean_first_passage_times_to(ref(t))), ('mfpt_between', mc.mean_first_passage_times_between(ref(o), ref(bt))),
                        ('mean_recurrence_times', mc.mean_recurrence_times())):
            is_none(v, f'{what} of a chain which is not ergodic')
        return
    ctx.tag('ergodic')
    P = O.exact(p)
    pi = O.stationaries(P)[0]
    M = [[None] * n for _ in range(n)]
    for j in range(n):
        h = O.hitting_times(P, [j])
        for i in range(n):
            M[i][j] = h[i]
    big = float(max(x for r in M for x in r))
    pmin = float(min(pi))
    if big > 1e12:
        raise Discard()
    ctx.interesting(n > 2)
    ctx.tag('slow' if big > 1e6 else 'fast')
    tol = 1e-9 + 1e-13 * n * big
    for name in ('mean_first_passage_times_to', 'mfpt_to', 'mfptt'):
        close(getattr(mc, name)(), O.floats(M), f'{name}()', rtol=tol * 10, atol=tol * big)
        close(getattr(mc, name)(ref(t)), O.floats(O.hitting_times(P, t)), f'{name}({ref(t)!r})', rtol=tol, atol=tol * big)
    h = O.hitting_times(P, bt)
    w = sum(pi[i] for i in o)
    for name in ('mean_first_passage_times_between', 'mfpt_between', 'mfptb'):
        close(getattr(mc, name)(ref(o), ref(bt)), float(sum(pi[i] * h[i] for i in o) / w), f'{name}({ref(o)!r}, {ref(bt)!r})', rtol=tol, atol=tol * big)
    for name in ('mean_recurrence_times', 'mrt'):
        close(getattr(mc, name)(), O.floats([1 / x for x in pi]), name, rtol=1e-9)


ERG = ['ergodic', 'ergodic', 'ergodic', 'dense', 'irreducible', 'reversible', 'birthdeath', 'slow', 'layout', 'periodic', 'symmetric', 'doubly', 'rank1']


@R.law(cases(2, 8, ERG), 1600, 25000)
def first_passage_times(case, ctx):
    """Mean first passage times to every state, to a set and between sets (origins weighted by the stationary distribution) and mean recurrence times equal the exact ones; None when not ergodic."""
    check(case, ctx)


@R.law(cases(2, 7, ['slow', 'rare', 'rare', 'ergodic', 'irreducible', 'reversible', 'birthdeath'], ['tiny']), 1200, 16000)
def first_passage_times_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50: passage times up to 10^12."""
    check(case, ctx)


@R.law(cases(9, 14, ['ergodic', 'ergodic', 'dense', 'reversible']), 64, 1200)
def first_passage_times_large(case, ctx):
    """Same for 9 to 14 states."""
    check(case, ctx)


@st.composite
def rare(draw):
    c = draw(gen.chain(2, 6, kinds=['birthdeath', 'ergodic', 'reversible', 'dense']))
    c['rare'] = draw(st.integers(0, len(c['p']) - 1))
    c['exponent'] = draw(st.integers(2, 13))
    p, r = c['p'], c['rare']
    for i, row in enumerate(p):
        if i != r and 0.0 < row[r] < 1.0:
            v = row[r] * 10.0 ** -c['exponent']
            big = max((j for j in range(len(p)) if j != r), key=lambda j: row[j])
            row[big] += row[r] - v
            row[r] = v
    return c


@R.law(rare(), 600, 9000)
def rare_states(case, ctx):
    """The mean recurrence time is the reciprocal of the stationary probability, also for very rare states."""
    p = case['p']
    cls = O.classes(p)
    if len(cls) > 1 or O.period_of(p, cls[0]) != 1:
        raise Discard()
    pi = O.stationaries(O.exact(p))[0]
    ctx.interesting(min(pi) < 1e-6)
    ctx.tag('below 1e-8' if min(pi) < 1e-8 else 'moderate')
    close(gen.build(case).mean_recurrence_times(), O.floats([1 / x for x in pi]), 'mean_recurrence_times', rtol=1e-8)
