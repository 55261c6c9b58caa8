"""C19: mixing time."""
import math
from fractions import Fraction
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, is_none, Discard, require

R = Registry('C19', 'ergodic chains (and controls), generated initial distributions, jumps and both cutoffs; oracle: exact distance sequence; non-trivial: more than one step is needed')


@st.composite
def cases(draw, kinds=('ergodic', 'ergodic', 'ergodic', 'reversible', 'slow', 'birthdeath', 'irreducible', 'dense', 'layout', 'symmetric', 'periodic'), schemes=None, nmin=2, nmax=7):
    c = draw(gen.chain(nmin, nmax, kinds=list(kinds), schemes=schemes))
    n = len(c['p'])
    c['dist'] = draw(st.one_of(st.none(), gen.distribution(n, schemes=('dyadic', 'decimal', 'onehot', 'onehot', 'sparse'))))
    c['jump'] = draw(st.integers(1, 5))
    c['cutoff'] = draw(st.sampled_from(['natural', 'traditional', 'default']))
    return c


@R.law(cases(), 1200, 20000)
def mixing_time(case, ctx):
    """For jump 1 the mixing time is the first step k >= 1 whose L1 distance from the stationary distribution is within the cutoff (1/4, or 1/2e), j times that for jump j; None when not ergodic."""
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    mc = gen.build(case)
    kw = {} if case['cutoff'] == 'default' else {'cutoff_type': case['cutoff']}
    if case['dist'] is not None:
        kw['initial_distribution'] = case['dist']
    cls = O.classes(p)
    if len(cls) > 1 or O.period_of(p, cls[0]) != 1:
        ctx.tag('not ergodic')
        is_none(mc.mixing_time(jump=case['jump'], **kw), 'mixing_time of a chain which is not ergodic')
        return
    cutoff = 0.25 if case['cutoff'] == 'traditional' else 1 / (2 * math.e)
    P = O.floats(O.exact(p))
    pi = O.floats(O.stationaries(O.exact(p))[0])
    d = [1.0 / n] * n if case['dist'] is None else list(case['dist'])
    k, res = 0, None
    while k < 200:
        k += 1
        # known finding: the library propagates the distribution by one step per jump, which the stored results of its tests pin
        for _ in range(case['jump'] if case.get('__known__') else 1):
            d = [math.fsum(d[i] * P[i][j] for i in range(n)) for j in range(n)]
        t = math.fsum(abs(x - y) for x, y in zip(d, pi))
        if abs(t - cutoff) < 1e-12:
            raise Discard()
        if t <= cutoff:
            res = k
            break
    ctx.interesting(res is not None and res > 1)
    if res is not None and res >= 100:
        if res <= 101:
            raise Discard()
        res = None
    ctx.tag('none' if res is None else 'one' if res == 1 else 'more')
    for name in ('mixing_time', 'mt'):
        got = getattr(mc, name)(jump=case['jump'], **kw)
        if res is None:
            is_none(got, f'{name} beyond 100 iterations')
        else:
            require(got is not None, f'{name} is None, expected {res * case["jump"]}')
            same(int(got), res * case['jump'], f'{name}(jump={case["jump"]}, {kw})')
            if case['jump'] == 1:
                same(int(getattr(mc, name)(**kw)), res, f'{name}({kw}) with the default jump')


@R.law(cases(('slow', 'rare', 'rare', 'ergodic', 'reversible', 'birthdeath', 'irreducible'), ['tiny']), 1200, 16000)
def magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50."""
    mixing_time(case, ctx)


@R.law(cases(('ergodic', 'reversible', 'birthdeath', 'dense', 'layout', 'irreducible'), gen.PLAINLY, 8, 20), 120, 1600)
def large(case, ctx):
    """Same for 8 to 20 states."""
    mixing_time(case, ctx)


@st.composite
def ties(draw):
    a = draw(st.sampled_from([0.25, 0.75, 0.125, 0.375, 0.625, 0.875]))
    return {'a': a, 'w': draw(st.sampled_from([0.0, 1.0, 0.75, 0.25, 0.875, 0.625])), 'jump': draw(st.integers(1, 4)), 'block': draw(st.booleans())}


@R.law(ties(), 240, 2000)
def at_the_cutoff(case, ctx):
    """Chains in exact binary arithmetic whose distance from equilibrium meets the traditional cutoff exactly: the distance does not exceed it."""
    a, w = case['a'], case['w']
    p, d, pi = [[1 - a, a], [a, 1 - a]], [w, 1 - w], [0.5, 0.5]
    if case['block']:  # two copies of each state
        p = [[p[i // 2][j // 2] / 2 for j in range(4)] for i in range(4)]
        d, pi = [d[i // 2] / 2 for i in range(4)], [0.25] * 4
    n = len(p)
    k = 0
    v = d
    while True:
        k += 1
        v = [sum(v[i] * p[i][j] for i in range(n)) for j in range(n)]
        t = sum(abs(x - y) for x, y in zip(v, pi))
        if t <= 0.25:
            break
    ctx.tag('exactly' if t == 0.25 else 'below')
    ctx.interesting(t == 0.25)
    mc = gen.build({'p': p, 'states': None})
    if mc.pi[0].tolist() != pi:
        raise Discard()
    same(int(mc.mixing_time(d, case['jump'], 'traditional')), k * case['jump'], f'mixing_time({d}, {case["jump"]}, traditional) of {p}')
