"""C06: periodicity, cyclic classes, aperiodicity, ergodicity, regularity."""
import math
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, require

R = Registry('C06', 'chains built by class layout with explicit cyclic groups per class, plus random sparse, functional and birth-death patterns, 2 to 30 states, custom labels; non-trivial: some recurrent class has period above 1, or the chain has several classes')


def check(case, ctx):
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    mc = gen.build(case)
    cls, rec = O.classes(p), O.recurrent_classes(p)
    pers = [O.period_of(p, c) if c in rec else None for c in cls]
    rp = [x for x in pers if x is not None]
    irreducible = len(cls) == 1
    ctx.interesting(max(rp) > 1 or len(cls) > 1)
    ctx.tag(f'maxperiod={min(max(rp), 6)}', f'classes={min(len(cls), 4)}')

    got = mc.periods
    same(len(got), len(cls), 'len(periods)')
    same(list(mc.communicating_classes), [[L[i] for i in c] for c in cls], 'communicating_classes')
    for c, g, e in zip(cls, got, pers):
        if e is not None:
            same(g, e, f'period of the recurrent class {[L[i] for i in c]} (periods are listed in the order of communicating_classes)')
    aper = math.gcd(*rp) == 1
    same(bool(mc.is_aperiodic), aper, 'is_aperiodic')
    same(int(mc.period), 1 if aper else math.lcm(*rp), 'period')
    same(bool(mc.is_ergodic), irreducible and aper, 'is_ergodic')
    same(bool(mc.is_regular), irreducible and aper, 'is_regular')
    if irreducible:
        cyc = O.cyclic_partition(p, cls[0])
        same(sorted(map(sorted, mc.cyclic_classes)), sorted(sorted(L[i] for i in c) for c in cyc), 'cyclic_classes')
        same(sorted(mc.cyclic_states), sorted(L), 'cyclic_states')
    else:
        same(mc.cyclic_classes, [], 'cyclic_classes')
        same(mc.cyclic_states, [], 'cyclic_states')
    for i in range(n):
        same(bool(mc.is_cyclic_state(i)), irreducible, f'is_cyclic_state({i})')
        same(bool(mc.is_cyclic_state(L[i])), irreducible, f'is_cyclic_state({L[i]!r})')


@R.law(gen.chain(2, 9, kinds=['layout', 'layout', 'periodic', 'irreducible', 'closed', 'functional', 'sparse', 'birthdeath', 'ergodic', 'symmetric', 'identity', 'absorbing']), 2400, 40000)
def periodicity(case, ctx):
    """Periods, the chain period (least common multiple over the recurrent classes), cyclic classes, is_aperiodic, is_ergodic and is_regular equal the gcd-of-cycle-lengths reference."""
    check(case, ctx)


@R.law(gen.chain(10, 30, kinds=['layout', 'periodic', 'irreducible', 'closed', 'functional', 'sparse', 'birthdeath', 'ergodic']), 200, 4000)
def periodicity_large(case, ctx):
    """Same for 10 to 30 states."""
    check(case, ctx)


@R.law(gen.chain(2, 9, kinds=['layout', 'periodic', 'periodic', 'irreducible', 'closed', 'sparse', 'birthdeath', 'leaky', 'slow', 'rare'], schemes=['tiny']), 1200, 16000)
def periodicity_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50."""
    check(case, ctx)


@st.composite
def long_cycle(draw):
    """A cycle of n states with one chord: the slowest primitive pattern (Wielandt), or a periodic one."""
    n = draw(st.integers(3, 24))
    skip = draw(st.integers(2, min(n, 7)))
    at = draw(st.integers(0, n - 1))
    p = [[0.0] * n for _ in range(n)]
    for i in range(n):
        p[i][(i + 1) % n] = 1.0
    w = draw(st.sampled_from([0.5, 0.1, 0.25, 1e-3, 1e-7, 2.0 ** -30, 1e-12, 2.0 ** -50]))
    j = (at + skip) % n
    if j != (at + 1) % n:
        p[at][(at + 1) % n] = 1.0 - w
        p[at][j] = w
    perm = draw(st.permutations(range(n)))
    return {'p': gen.permute(p, perm), 'kind': 'longcycle', 'scheme': 'x', 'states': draw(gen.labels(n))}


@R.law(long_cycle(), 300, 5000)
def wielandt(case, ctx):
    """Same on long cycles with one chord, which are as slowly mixing in the combinatorial sense as possible."""
    check(case, ctx)
