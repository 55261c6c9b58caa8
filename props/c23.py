"""C23: closest reversible chain."""
import numpy as np
import scipy.optimize as spo
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, expect_validation_error, Discard

R = Registry('C23', 'chains of every layout and strictly positive distributions (default, dyadic, normalised, stationary), plain and weighted norm; oracle: detailed balance, fixed points, and an independent high accuracy optimum over all the chains in detailed balance with the distribution, certified by its duality gap (linear program); non-trivial: an input chain which is not reversible, at least three states')


@st.composite
def cases(draw, nmin=2, nmax=6):
    c = draw(gen.chain(nmin, nmax, kinds=['dense', 'dense', 'ergodic', 'ergodic', 'irreducible', 'layout', 'sparse', 'periodic', 'functional', 'doubly', 'reversible', 'symmetric', 'rank1', 'birthdeath', 'identity', 'absorbing'],
                       schemes=['dyadic', 'coarse', 'decimal', 'norm', 'uniform']))
    n = len(c['p'])
    c['dist'] = draw(st.one_of(st.none(), st.just('pi'), gen.distribution(n, positive=True)))
    c['weighted'] = draw(st.booleans())
    if not c['weighted'] and draw(st.integers(0, 3)) == 0:
        c['dist'] = draw(gen.distribution(n, schemes=('sparse',)))
    return c


def variables(d):
    """Free off-diagonal parameters of the chains in detailed balance with d: each is a list of (row, column, coefficient)."""
    n = len(d)
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            if d[i] > 0 and d[j] > 0:
                out.append([(i, j, 1 / d[i]), (j, i, 1 / d[j])])
            else:
                if d[i] == 0:
                    out.append([(i, j, 1.0)])
                if d[j] == 0:
                    out.append([(j, i, 1.0)])
    return out


def weights(d, w):
    n = len(d)
    return np.array([[d[i] / d[j] for j in range(n)] for i in range(n)]) if w else np.ones((n, n))


def gap(p, d, q, w):
    """f(q) - min f is at most this, f being the squared (weighted) distance to p over the chains in detailed balance with d."""
    n = len(p)
    grad = 2 * weights(d, w) * (q - p)
    V = variables(d)
    cost = [sum(x * (grad[i, j] - grad[i, i]) for i, j, x in v) for v in V]
    C = np.zeros((n, len(V)))
    for k, v in enumerate(V):
        for i, _, x in v:
            C[i, k] += x
    r = spo.linprog(cost, A_ub=C, b_ub=np.ones(n), bounds=(0, None), method='highs')
    if r.status != 0:
        raise Discard()
    return float((grad * q).sum() - r.fun - sum(grad[i, i] for i in range(n)))


def best(p, d, w):
    """An independent high accuracy solution: (matrix, certified lower bound of the squared distance, width of the certificate)."""
    n = len(p)
    W = weights(d, w)
    V = variables(d)
    L = np.zeros((n * n, len(V)))
    C = np.zeros((n, len(V)))
    for k, v in enumerate(V):
        for i, j, x in v:
            L[i * n + j, k] += x
            L[i * n + i, k] -= x
            C[i, k] += x
    M = L * np.sqrt(W).ravel()[:, None]
    b = (p - np.eye(n)).ravel() * np.sqrt(W).ravel()
    r = spo.minimize(lambda s: ((M @ s - b) ** 2).sum(), np.zeros(len(V)), jac=lambda s: 2 * M.T @ (M @ s - b), bounds=[(0, None)] * len(V),
                     constraints=[{'type': 'ineq', 'fun': lambda s: 1 - C @ s, 'jac': lambda s: -C}], method='SLSQP', options={'ftol': 1e-15, 'maxiter': 2000})
    q = np.eye(n) + (L @ np.clip(r.x, 0, None)).reshape(n, n)
    g = gap(p, d, q, w)
    return q, distance(p, d, q, w) - max(g, 0.0), g


def distance(p, d, q, w):
    return float((weights(d, w) * (q - p) ** 2).sum())


@R.law(cases(), 6400, 60000)
def closest(case, ctx):
    """The result keeps the names, is in detailed balance with the distribution, is the input itself when that is reversible, and is optimal."""
    gen.tag_chain(case, ctx)
    p, L = np.array(case['p']), gen.names(case)
    n = len(p)
    mc = gen.build(case)
    d = case['dist']
    if d == 'pi':
        d = [float(x) for x in mc.pi[0]]
        if len(mc.pi) > 1 or min(d) < 1e-3:
            raise Discard()
    w = case['weighted']
    kw = {} if d is None else {'initial_distribution': list(d)}
    what = f'closest_reversible({d}, weighted={w})'
    if mc.is_reversible:
        ctx.tag('already reversible')
        r = mc.closest_reversible(weighted=w, **kw)
        close(r.p, p, f'{what} of a reversible chain', rtol=0, atol=0)
        same(r.states, L, f'names of {what}')
        return
    ctx.interesting(n > 2)
    dd = np.full(n, 1.0 / n) if d is None else np.array(d)
    if min(dd[dd > 0]) < 0.02:
        raise Discard()
    ref, low, width = best(p, dd, w)
    f0 = distance(p, dd, ref, w)
    if not width <= 5e-5 * max(1.0, f0):
        ctx.tag('no certificate')
        raise Discard()
    try:
        r = mc.closest_reversible(weighted=w, **kw)
    except ValueError as e:
        if 'could not be computed' not in str(e):
            raise
        # documented: the closest one has several stationary distributions, hence is not reversible
        require(len(O.recurrent_classes((ref > 2e-3).tolist())) > 1, f'{what}: {e}, although {ref.tolist()} is reversible and the closest')
        ctx.tag('the closest is reducible')
        return
    q = r.p
    same(r.states, L, f'names of {what}')
    require(np.all(q >= 0.0) and np.allclose(q.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'{what}: not stochastic {q.tolist()}')
    flow = dd[:, None] * q
    require(np.allclose(flow, flow.T, rtol=0, atol=1e-7), f'{what}: not in detailed balance with the distribution: flows {flow.tolist()}')
    f = distance(p, dd, q, w)
    ctx.tag('weighted' if w else 'plain', 'null probabilities' if min(dd) == 0 else 'positive')
    require(f - low <= 1e-3 * max(1.0, f0), f'{what}: {q.tolist()} is at squared distance {f}, but {ref.tolist()} is at {f0}')


@R.law(cases(7, 14), 64, 800)
def closest_large(case, ctx):
    """Same for 7 to 14 states."""
    closest(case, ctx)


@R.law(gen.chain(2, 5), 64, 600)
def rejected(case, ctx):
    """The weighted norm needs a strictly positive distribution; the distribution must be stochastic and of the right length."""
    n = len(case['p'])
    mc = gen.build(case)
    ctx.interesting(True)
    expect_validation_error(lambda: mc.closest_reversible([1.0] + [0.0] * (n - 1), True), 'weighted norm with null probabilities')
    expect_validation_error(lambda: mc.closest_reversible([1.0 / (n + 1)] * (n + 1)), 'distribution of another length')
    expect_validation_error(lambda: mc.closest_reversible([0.9 / n] * n), 'distribution which does not sum to one')
