"""C07: stationary distributions."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require

R = Registry('C07', 'chains of every class layout, including nearly decoupled and strongly skewed ones, 2 to 25 states; oracle: exact rational solution per recurrent class; non-trivial: not uniform and at least one zero entry in p or several recurrent classes or a component below 1e-6')


def check(case, ctx, rtol=1e-9):
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    P = O.exact(p)
    exp = [O.floats(v) for v in O.stationaries(P)]
    rec = O.recurrent_classes(p)
    mc = gen.build(case)
    L = gen.names(case)
    ctx.interesting(len(rec) > 1 or any(x == 0 for r in p for x in r) or any(0 < x < 1e-6 for v in exp for x in v))
    ctx.tag(f'recurrent={min(len(rec), 4)}', 'tiny' if any(0 < x < 1e-6 for v in exp for x in v) else 'moderate')
    for name in ('pi', 'stationary_distributions', 'steady_states'):
        got = getattr(mc, name)
        require(isinstance(got, list), f'{name} is not a list')
        same(len(got), len(exp), f'number of stationary distributions in {name} (one per recurrent class)')
        for g, e, c in zip(got, exp, rec):
            require(isinstance(g, np.ndarray) and g.shape == (n,), f'{name}: wrong shape')
            # high relative accuracy in each component, exact zeros outside of the class
            close(g, e, f'{name} for the recurrent class {[L[i] for i in c]}', rtol=rtol, atol=0.0)
    for g in mc.pi:
        close(np.dot(g, np.array(p)), g, 'pi p = pi', rtol=1e-9, atol=1e-12)


@R.law(gen.chain(2, 8, kinds=gen.KINDS + ['slow', 'reversible', 'irreducible', 'slow']), 2400, 40000)
def stationary(case, ctx):
    """pi lists, in the order of the recurrent classes, the exact stationary distribution of each class (componentwise relative accuracy 1e-9), zero elsewhere; aliases agree."""
    check(case, ctx)


@R.law(gen.chain(9, 25, kinds=['irreducible', 'periodic', 'layout', 'sparse', 'birthdeath', 'slow', 'closed', 'functional']), 160, 3000)
def stationary_large(case, ctx):
    """Same for 9 to 25 states."""
    check(case, ctx)


@st.composite
def extreme(draw):
    """Weights spread over 10^-0 .. 10^-120: no subtraction may be involved in an accurate algorithm."""
    c = draw(gen.chain(2, 6, kinds=['irreducible', 'closed', 'birthdeath', 'layout'], schemes=['dyadic']))
    n = len(c['p'])
    es = draw(st.lists(st.integers(0, 40), min_size=n * n, max_size=n * n))
    rows = []
    for i in range(n):
        w = [c['p'][i][j] * 10.0 ** -es[i * n + j] if i != j else c['p'][i][j] for j in range(n)]
        if not any(w[j] for j in range(n) if j != i) or c['p'][i][i] == 0.0:
            w[max(range(n), key=lambda j: c['p'][i][j])] = 1.0
        s = sum(w)
        rows.append([x / s for x in w])
    return dict(c, p=rows, scheme='extreme')


@R.law(extreme(), 800, 12000)
def stationary_extreme(case, ctx):
    """Relative accuracy is kept when transition probabilities span many orders of magnitude."""
    p = case['p']
    # the diagonal carries the rounding: renormalise the reference from the off-diagonal entries
    check(case, ctx, rtol=1e-8)
