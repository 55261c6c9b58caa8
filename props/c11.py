"""C11: hitting probabilities and hitting times."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, Discard

R = Registry('C11', 'chains of every class layout with a generated target set given by index, name, or lists; oracle: minimal non-negative solution in exact arithmetic; non-trivial: some probability is 0, or strictly between 0 and 1')


@st.composite
def cases(draw, nmin, nmax, kinds=None, schemes=None):
    c = draw(gen.chain(nmin, nmax, kinds=kinds, schemes=schemes))
    n = len(c['p'])
    how = draw(st.sampled_from(['class', 'class', 'class', 'small', 'any', 'none']))
    if how == 'class':  # some states of one class: with several recurrent classes, the probabilities lie between 0 and 1
        cls = O.recurrent_classes(c['p'])
        k = draw(st.integers(0, len(cls) - 1))
        pick = draw(st.lists(st.sampled_from(cls[k]), min_size=1, max_size=2, unique=True))
        c['targets'] = pick
    else:
        c['targets'] = None if how == 'none' else draw(gen.subset(n, max_size=min(2, n) if how == 'small' else n))
    c['byname'] = draw(st.booleans())
    return c


def target_arg(case):
    t = case['targets']
    if t is None:
        return None
    L = gen.names(case)
    if case['byname']:
        return L[t[0]] if len(t) == 1 and t[0] % 2 else [L[i] for i in t]
    return t[0] if len(t) == 1 and t[0] % 2 else list(t)


def check(case, ctx):
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    P = O.exact(p)
    T = case['targets'] if case['targets'] is not None else list(range(n))
    h = O.hitting_probabilities(P, T)
    k = O.hitting_times(P, T)
    # conditioning: time spent in the states outside of the targets which can reach them
    R_ = O.reachable(P)
    can = [i for i in range(n) if i not in T and R_[i] & set(T)]
    Tm = float(max((sum(r) for r in O.fundamental(P, can)), default=1)) if can else 1.0
    if Tm > 1e12:
        raise Discard()
    ctx.interesting(any(0 < x < 1 for x in h) or any(x == 0 for x in h))
    ctx.tag('partial' if any(0 < x < 1 for x in h) else 'zero-one', 'some infinite' if any(x == math.inf for x in k) else 'all finite', f'targets={min(len(T), 4)}')
    ctx.tag('slow' if Tm > 1e6 else 'fast')
    tol = 1e-9 + 1e-13 * n * Tm
    mc = gen.build(case)
    arg = target_arg(case)
    for name in ('hitting_probabilities', 'hp'):
        close(getattr(mc, name)(arg), O.floats(h), f'{name}({arg!r})', rtol=tol, atol=1e-12 + tol * 1e-3)
    kmax = max([float(x) for x in k if x != math.inf] + [1.0])
    for name in ('hitting_times', 'ht'):
        close(getattr(mc, name)(arg), O.floats(k), f'{name}({arg!r})', rtol=tol, atol=tol * kmax)


@R.law(cases(2, 7, kinds=['layout', 'layout', 'layout', 'absorbing', 'absorbing', 'competing', 'competing', 'competing', 'sparse', 'sparse', 'slow', 'leaky', 'closed', 'birthdeath', 'functional', 'ergodic', 'dense', 'periodic', 'identity']), 3200, 40000)
def hitting(case, ctx):
    """Hitting probabilities and times equal the exact minimal non-negative solutions, 1 and 0 on the targets, infinite times exactly where the probability is below one."""
    check(case, ctx)


@R.law(cases(2, 7, kinds=['leaky', 'leaky', 'leaky', 'slow', 'rare', 'absorbing', 'competing', 'competing', 'competing', 'layout', 'sparse'], schemes=['tiny']), 3200, 25000)
def hitting_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50: hitting times up to 10^12, hitting probabilities down to 2^-50."""
    check(case, ctx)


@R.law(cases(8, 20, kinds=['layout', 'sparse', 'ergodic', 'periodic', 'absorbing', 'closed', 'functional', 'birthdeath', 'slow', 'competing', 'competing'], schemes=['dyadic', 'coarse', 'norm', 'decimal']), 160, 3000)
def hitting_large(case, ctx):
    """Same for 8 to 20 states."""
    check(case, ctx)
