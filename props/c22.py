"""C22: derived chains: lazy, nth order, merged, bounded, canonical form, subchain."""
from decimal import Decimal, localcontext
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, expect_rejection, expect_validation_error

R = Registry('C22', 'chains of every layout with scalar and vector weights, orders 2..40 and up to a million, both orders of merging, the three kinds of boundary condition, every set of states by index, name or single value; oracle: exact reference derivations; non-trivial: the derived matrix differs from the original one')


@st.composite
def cases(draw):
    c = draw(gen.mostly(st.one_of(gen.chain(2, 7), gen.chain(2, 7), gen.chain(2, 6, kinds=gen.KINDS + gen.SMALL, schemes=['tiny'])), gen.chain(8, 16, schemes=gen.PLAINLY), 15))
    n = len(c['p'])
    c['q'] = draw(gen.matrix(n, n))
    extreme = st.integers(5, 50).flatmap(lambda e: st.sampled_from([2.0 ** -e, 1.0 - 2.0 ** -e]))
    unit = st.one_of(st.integers(0, 16).map(lambda x: x / 16), st.integers(0, 16).map(lambda x: x / 16), extreme)
    c['weight'] = draw(unit)
    c['weights'] = draw(st.lists(unit, min_size=n, max_size=n))
    c['order'] = draw(st.one_of(st.integers(2, 6), st.integers(2, 40)))
    c['gamma'] = draw(st.one_of(st.integers(1, 31).map(lambda x: x / 32), st.integers(1, 31).map(lambda x: x / 32), extreme))
    c['boundary'] = draw(st.one_of(unit, st.sampled_from(['absorbing', 'reflecting', 0, 1, 0.3])))
    c['sub'] = draw(gen.subset(n))
    c['bynames'] = draw(st.booleans())
    return c


def valid(mc, n, what):
    p = mc.p
    same(p.shape, (n, n), f'{what}: shape')
    require(np.all(p >= 0.0) and np.all(p <= 1.0 + 1e-12) and np.allclose(p.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'{what}: not a stochastic matrix: {p.tolist()}')
    same(mc.size, n, f'{what}: size')
    same(len(mc.states), n, f'{what}: number of names')


@R.law(cases(), 2400, 36000)
def lazy_and_powers(case, ctx):
    """to_lazy_chain mixes with the identity by the given weight(s), to_nth_order is the matrix power, names kept."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    P = O.exact(p)
    mc = gen.build(case)
    ctx.interesting(any(0 < x < 1 for r in p for x in r))
    for what, arg, w in (('default', None, [0.5] * n), ('scalar', case['weight'], [case['weight']] * n), ('list', list(case['weights']), case['weights']), ('array', np.array(case['weights']), case['weights'])):
        exp = [[(1 - w[i]) * p[i][j] + (w[i] if i == j else 0.0) for j in range(n)] for i in range(n)]
        lc = mc.to_lazy_chain() if arg is None else mc.to_lazy_chain(arg)
        valid(lc, n, f'to_lazy_chain({arg})')
        close(lc.p, exp, f'to_lazy_chain({arg})', rtol=1e-12, atol=3e-16)
        same(lc.states, L, f'names of to_lazy_chain({arg})')
    same(mc.to_lazy(list(case['weights'])), mc.to_lazy_chain(list(case['weights'])), 'to_lazy')
    k = case['order']
    ctx.tag('order=2' if k == 2 else 'order>2')
    for name in ('to_nth_order', 'to_nth'):
        nc = getattr(mc, name)(k)
        close(nc.p, [O.floats(r) for r in O.mpow(P, k)], f'{name}({k})', rtol=1e-9, atol=1e-290)
        same(nc.states, L, f'names of {name}({k})')
    close(mc.to_nth_order().p, [O.floats(r) for r in O.matmul(P, P)], 'to_nth_order()', rtol=1e-9, atol=1e-290)


@st.composite
def distant_cases(draw):
    c = draw(gen.mostly(st.one_of(gen.chain(2, 5), gen.chain(2, 5, kinds=gen.KINDS + gen.SMALL, schemes=['tiny'])), gen.chain(6, 9, schemes=gen.PLAINLY), 15))
    c['order'] = draw(st.one_of(st.integers(41, 5000), st.integers(6, 20).map(lambda e: 2 ** e), st.integers(41, 10 ** 6)))
    return c


def decimal_power(p, k):
    """p to the k with 60 digits: sums of nonnegative products, nothing cancels."""
    n = len(p)

    def product(a, b):
        return [[sum((a[i][x] * b[x][j] for x in range(n) if a[i][x] and b[x][j]), Decimal(0)) for j in range(n)] for i in range(n)]

    with localcontext() as context:
        context.prec = 60
        square = [[Decimal(x) for x in r] for r in p]
        result = None
        while k:
            if k & 1:
                result = square if result is None else product(result, square)
            k >>= 1
            if k:
                square = product(square, square)
        return [[float(x) for x in r] for r in result]


@R.law(distant_cases(), 500, 8000)
def distant_orders(case, ctx):
    """to_nth_order(k) is the k-th power of the matrix for k in the hundreds, thousands and up to a million."""
    gen.tag_chain(case, ctx)
    p, k = case['p'], case['order']
    n = len(p)
    ctx.tag(f'order~2**{k.bit_length()}')
    q = gen.build(case).to_nth_order(k)
    e = decimal_power(p, k)
    ctx.interesting(any(abs(a - b) > 1e-6 for a, b in zip(sum(e, []), sum(decimal_power(p, k // 2), []))))
    close(q.p, e, f'to_nth_order({k})', rtol=max(1e-9, 8 * k * n * 2.3e-16), atol=1e-290)
    same(q.states, gen.names(case), f'names of to_nth_order({k})')


@R.law(cases(), 1600, 24000)
def merged_and_bounded(case, ctx):
    """merge_with is (1 - gamma) times this chain plus gamma times the other; to_bounded_chain only replaces the first and the last row."""
    from pydtmc import MarkovChain
    gen.tag_chain(case, ctx)
    p, q, L = case['p'], case['q']['p'], gen.names(case)
    n = len(p)
    mc = gen.build(case)
    g = case['gamma']
    ctx.interesting(p != q)
    other = MarkovChain(np.array(q))
    for a, b, pa, pb in ((mc, other, p, q), (other, mc, q, p), (mc, mc, p, p)):
        m = a.merge_with(b, g)
        valid(m, n, f'merge_with(gamma={g})')
        close(m.p, [[(1 - g) * pa[i][j] + g * pb[i][j] for j in range(n)] for i in range(n)], f'merge_with(gamma={g})', rtol=1e-12, atol=3e-16)
        same(m.states, [f'M{i + 1}' for i in range(n)], 'names of the merged chain')
    b = case['boundary']
    ctx.tag(f'boundary={b if isinstance(b, str) else "number"}')
    first, last = [0.0] * n, [0.0] * n
    if b == 'absorbing':
        first[0] = last[-1] = 1.0
    elif b == 'reflecting':
        first[1] = last[-2] = 1.0
    else:
        first[0], first[1] = 1.0 - b, float(b)
        last[-1], last[-2] = float(b), 1.0 - b
    for name in ('to_bounded_chain', 'to_bounded'):
        bc = getattr(mc, name)(b)
        close(bc.p, [first] + p[1:-1] + [last], f'{name}({b!r})', rtol=0, atol=1e-15)
        same(bc.states, L, f'names of {name}({b!r})')


@R.law(cases(), 2400, 36000)
def canonical_and_sub(case, ctx):
    """to_canonical_form lists the transient states, then the recurrent ones, each in their original order; to_subchain is the chain on the states reachable from the given ones."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    mc = gen.build(case)
    rec = sorted(s for c in O.recurrent_classes(p) for s in c)
    order = [s for s in range(n) if s not in rec] + rec
    ctx.interesting(order != list(range(n)))
    ctx.tag('already canonical' if order == list(range(n)) else 'reordered')
    for name in ('to_canonical_form', 'to_canonical'):
        cc = getattr(mc, name)()
        close(cc.p, [[p[i][j] for j in order] for i in order], name, rtol=0, atol=0)
        same(cc.states, [L[i] for i in order], f'names of {name}')
    require(mc.to_canonical_form().is_canonical, 'the canonical form is not canonical')
    sub = case['sub']
    arg = [L[i] for i in sub] if case['bynames'] else list(sub)
    if len(sub) == n:
        expect_validation_error(lambda: mc.to_subchain(arg), f'to_subchain({arg}) with all the states')
        return
    reach = O.reachable(p)
    keep = sorted(set(sub) .union(*(reach[i] for i in sub)))
    forms = [arg] + ([arg[0]] if len(sub) == 1 else []) + [list(reversed(arg))]
    ctx.tag(f'closure={"single" if len(keep) == 1 else ("all" if len(keep) == n else "proper")}')
    for a in forms:
        if len(keep) == 1:
            expect_rejection(lambda: mc.to_subchain(a), f'to_subchain({a!r}) reduced to an absorbing state')
            continue
        for name in ('to_subchain', 'to_sub'):
            sc = getattr(mc, name)(list(a) if isinstance(a, list) else a)
            close(sc.p, [[p[i][j] for j in keep] for i in keep], f'{name}({a!r})', rtol=1e-12, atol=1e-15)
            same(sc.states, [L[i] for i in keep], f'names of {name}({a!r})')
            valid(sc, len(keep), f'{name}({a!r})')
