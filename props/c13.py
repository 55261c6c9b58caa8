"""C13: mean number of visits."""
import math
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, Discard

R = Registry('C13', 'chains of every class layout; oracle: return probabilities from exact hitting probabilities; non-trivial: the matrix has both finite positive and infinite (or zero) entries')


def check(case, ctx):
    gen.tag_chain(case, ctx)
    p = case['p']
    P = O.exact(p)
    V = O.mean_visits(P)
    flat = [x for r in V for x in r]
    fin = [float(x) for x in flat if x != math.inf]
    if fin and max(fin) > 1e12:
        raise Discard()
    kinds = {'inf' if x == math.inf else 'zero' if x == 0 else 'finite' for x in flat}
    ctx.tag(*sorted(kinds))
    ctx.interesting('finite' in kinds and len(kinds) > 1)
    T = max(fin + [1.0])
    ctx.tag('slow' if T > 1e6 else 'fast')
    tol = 1e-9 + 1e-13 * T
    mc = gen.build(case)
    for name in ('mean_number_visits', 'mnv'):
        close(getattr(mc, name)(), O.floats(V), name, rtol=tol, atol=1e-15 * len(p) * (1 + T))


@R.law(gen.chain(2, 7), 3200, 40000)
def visits(case, ctx):
    """Entry (i, j) is the expected number of visits to j at times 1, 2, ... starting from i: 0 where unreachable, infinite where j is recurrent and reachable."""
    check(case, ctx)


@R.law(gen.chain(3, 7, kinds=['absorbing', 'layout', 'slow', 'sparse'], schemes=['skew', 'dyadic']), 600, 10000)
def visits_transient(case, ctx):
    """Same, concentrated on chains with (possibly slowly escaping) transient states."""
    check(case, ctx)


@R.law(gen.chain(2, 7, kinds=['leaky', 'leaky', 'leaky', 'leaky', 'layout', 'absorbing', 'competing'], schemes=['tiny']), 2400, 30000)
def visits_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50: the mean numbers of visits go up to 10^12."""
    check(case, ctx)


@R.law(gen.chain(8, 20, kinds=['layout', 'absorbing', 'sparse'], schemes=['dyadic', 'coarse', 'decimal']), 160, 2400)
def visits_large(case, ctx):
    """Same for 8 to 20 states."""
    check(case, ctx)
