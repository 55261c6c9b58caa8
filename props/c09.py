"""C09: spectral quantities and entropies."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, is_none, require, Discard

R = Registry('C09', 'ergodic chains with known or independently computed spectrum (random, reversible, rank-one, circulant, two-state, nearly decoupled) and non-ergodic controls; non-trivial: ergodic with at least three states and a second eigenvalue modulus above 1e-3')


def moduli(p):
    """Eigenvalue moduli of p, ascending, with an estimate of their uncertainty from independently rounded computations."""
    A = np.array(p)
    n = len(A)
    e1 = np.sort(np.abs(np.linalg.eigvals(A.T)))
    perm = np.arange(n)[::-1]
    e2 = np.sort(np.abs(np.linalg.eigvals(A[np.ix_(perm, perm)])))
    e3 = np.sort(np.abs(np.linalg.eigvals(A)))
    perm = np.argsort(np.arange(n) % 2 * n + np.arange(n))
    e4 = np.sort(np.abs(np.linalg.eigvals(A[np.ix_(perm, perm)].T)))
    return e1, float(max(np.max(np.abs(e1 - e)) for e in (e2, e3, e4)))


def log_radius(adj):
    """log of the spectral radius of a 0/1 matrix: max over its strongly connected classes, by high-order trace growth on integers."""
    best = 0.0
    for c in O.classes(adj):
        sub = np.array([[adj[i][j] for j in c] for i in c], dtype=float)
        if len(c) == 1:
            r = sub[0, 0]
        else:
            r = float(np.max(np.abs(np.linalg.eigvals(sub))))
        best = max(best, r)
    return math.log(best)


def simple_top(adj):
    """Whether a single class attains the spectral radius (otherwise the top eigenvalue may be defective)."""
    rs = []
    for c in O.classes(adj):
        sub = np.array([[adj[i][j] for j in c] for i in c], dtype=float)
        rs.append(float(np.max(np.abs(np.linalg.eigvals(sub)))))
    top = max(rs)
    return sum(1 for r in rs if r > top - 0.05) == 1


def check_entropy(case, ctx, mc):
    p = case['p']
    n = len(p)
    adj = [[int(x > 0) for x in r] for r in p]
    P = O.exact(p)
    pis = O.stationaries(P)
    lr = log_radius(adj)
    tol = 1e-7 if simple_top(adj) else 5e-3
    close(mc.topological_entropy, lr, 'topological_entropy', rtol=tol, atol=tol)
    if len(pis) > 1:
        ctx.tag('several stationary distributions')
        is_none(mc.entropy_rate, 'entropy_rate with several stationary distributions')
        is_none(mc.entropy_rate_normalized, 'entropy_rate_normalized with several stationary distributions')
        return
    h = 0.0
    for i in range(n):
        for j in range(n):
            if p[i][j] > 0:
                h -= float(pis[0][i]) * float(P[i][j]) * math.log(P[i][j])
    got = mc.entropy_rate
    close(got, h, 'entropy_rate', rtol=1e-8, atol=1e-14)
    require(got >= 0.0, lambda: f'entropy_rate: negative, {got}')
    if h == 0.0:
        close(mc.entropy_rate_normalized, 0.0, 'entropy_rate_normalized', rtol=0, atol=0)
    elif lr > 0.01:
        close(mc.entropy_rate_normalized, min(1.0, h / lr), 'entropy_rate_normalized', rtol=10 * tol, atol=1e-12)
    ctx.tag('zero entropy' if h < 1e-7 else 'positive entropy')


def check_spectral(case, ctx, mc, known=None):
    p = case['p']
    n = len(p)
    cls = O.classes(p)
    if len(cls) > 1 or O.period_of(p, cls[0]) != 1:
        ctx.tag('not ergodic')
        for name in ('mixing_rate', 'relaxation_rate', 'spectral_gap', 'implied_timescales'):
            is_none(getattr(mc, name), f'{name} of a chain which is not ergodic')
        return
    ctx.tag('ergodic')
    ev, err = moduli(p)
    if known is not None:
        ev = np.sort(np.array(known))
    slem = ev[-2]
    if slem > 1.0 - 1e-12:  # not to be told from 1
        ctx.tag('beyond precision')
        return
    tol = max(3e-11, 50 * err)
    it = mc.implied_timescales
    require(isinstance(it, np.ndarray) and it.shape == (n,), 'implied_timescales: wrong shape')
    require(math.isinf(it[0]) and it[0] > 0, lambda: f'the first implied timescale must be infinite, got {it}')
    with np.errstate(all='ignore'):
        back = np.exp(-1.0 / np.array(it[1:], dtype=float))
    close(np.where(np.array(it[1:]) == 0, 0.0, back), ev[:-1][::-1], 'exp(-1/implied_timescales) must be the moduli of the other eigenvalues, in decreasing order', rtol=0, atol=max(tol, 1e-6))
    require(bool(np.all(np.diff(np.array(it[1:])) <= 1e-9)), lambda: f'implied timescales are not in decreasing order: {it}')
    if slem < 1e-9 and err < 1e-12 and known is None and np.linalg.matrix_rank(np.array(p)) == 1:
        ctx.tag('null slem')
        for name in ('mixing_rate', 'relaxation_rate', 'spectral_gap'):
            is_none(getattr(mc, name), f'{name} when the second largest eigenvalue modulus is null')
        return
    if slem < (3e-8 if known is not None else 1e-6 if err < 1e-12 else 1e-3) or err > 1e-7:
        ctx.tag('ill-conditioned')
        return
    ctx.interesting(n > 2)
    ctx.tag('slow' if slem > 0.999 else 'fast')
    gap = 1.0 - slem
    close(mc.spectral_gap, gap, 'spectral_gap', rtol=1e-8, atol=tol)
    if gap > 1e3 * tol:
        r = max(1e-7, 10 * tol / gap)
        close(mc.relaxation_rate, 1.0 / gap, 'relaxation_rate', rtol=r)
        close(mc.mixing_rate, -1.0 / math.log(slem), 'mixing_rate', rtol=max(r, 10 * tol / slem / -math.log(slem)))
        close(it[1], -1.0 / math.log(slem), 'the second implied timescale', rtol=max(r, 10 * tol / slem / -math.log(slem)))


@R.law(gen.chain(2, 8, kinds=gen.KINDS + ['ergodic', 'ergodic', 'reversible', 'slow', 'rank1', 'dense', 'irreducible']), 4000, 40000)
def spectrum_and_entropy(case, ctx):
    """Spectral gap, mixing and relaxation rates, implied timescales, entropy rates and topological entropy equal the reference; None exactly when undefined."""
    gen.tag_chain(case, ctx)
    mc = gen.build(case)
    check_entropy(case, ctx, mc)
    check_spectral(case, ctx, mc)


@R.law(gen.chain(2, 7, kinds=gen.SMALL + ['slow', 'rare', 'ergodic', 'reversible', 'birthdeath', 'irreducible', 'layout', 'competing'], schemes=['tiny']), 3200, 30000)
def magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50."""
    spectrum_and_entropy(case, ctx)


@R.law(gen.chain(9, 20, kinds=['ergodic', 'ergodic', 'reversible', 'dense', 'layout', 'birthdeath', 'periodic', 'closed'], schemes=gen.PLAINLY), 120, 2000)
def spectrum_and_entropy_large(case, ctx):
    """Same for 9 to 20 states."""
    spectrum_and_entropy(case, ctx)


@st.composite
def circulant(draw):
    n = draw(st.one_of(st.integers(3, 9), st.integers(3, 9), st.integers(10, 30)))
    w = gen.fill_row('dyadic', list(draw(st.binary(min_size=n, max_size=n))))
    if n in (4, 8, 16) and draw(st.booleans()):  # nearly uniform
        e = 2.0 ** -draw(st.integers(1, 22))
        w = [(1 - e) / n + e * x for x in w]
    return {'p': [[w[(j - i) % n] for j in range(n)] for i in range(n)], 'kind': 'circulant', 'scheme': 'dyadic', 'states': None, 'w': w}


@R.law(circulant(), 300, 4000)
def circulant_spectrum(case, ctx):
    """On circulant chains the eigenvalues are known in closed form (discrete Fourier transform of the row)."""
    gen.tag_chain(case, ctx)
    n = len(case['w'])
    known = [abs(sum(case['w'][j] * complex(math.cos(2 * math.pi * j * k / n), math.sin(2 * math.pi * j * k / n)) for j in range(n))) for k in range(n)]
    check_spectral(case, ctx, gen.build(case), known)


@st.composite
def two_state(draw):
    a = draw(st.one_of(st.integers(1, 1023).map(lambda x: x / 1024), st.integers(1, 60).map(lambda e: 2.0 ** -e)))
    b = draw(st.one_of(st.integers(1, 1023).map(lambda x: x / 1024), st.integers(1, 60).map(lambda e: 2.0 ** -e)))
    if a < 2.0 ** -30 and b < 2.0 ** -30:
        a = 0.25
    if draw(st.integers(0, 3)) == 0 and 0.1 < a < 0.9:  # nearly independent steps
        b = 1 - a + draw(st.sampled_from([1, -1])) * draw(st.integers(5, 7)) * 2.0 ** -draw(st.integers(7, 26))
    return [a, b]


@R.law(two_state(), 400, 5000)
def two_states(case, ctx):
    """The two-state chain [[1-a, a], [b, 1-b]] has second eigenvalue 1-a-b, however slow it is."""
    a, b = case
    mc = gen.build({'p': [[1 - a, a], [b, 1 - b]], 'states': None})
    s = abs(1 - a - b)
    ctx.interesting(s > 1e-3)
    if s < 3e-8:
        raise Discard()
    ctx.tag('very slow' if s > 1 - 1e-5 else 'nearly independent' if s < 1e-3 else 'moderate')
    gap = 1 - s
    close(mc.spectral_gap, gap, 'spectral_gap', rtol=1e-9, atol=1e-14)
    if gap > 1e-9:
        close(mc.relaxation_rate, 1 / gap, 'relaxation_rate', rtol=1e-13 / gap + 1e-9)
        close(mc.mixing_rate, -1 / math.log1p(-gap), 'mixing_rate', rtol=1e-13 / gap + 1e-9 + 1e-13 / s)


@st.composite
def nearly_independent(draw):
    """Steps which nearly forget the previous state: a common row plus a small multiple of another chain."""
    c = draw(gen.chain(3, 7, schemes=gen.PLAINLY))
    n = len(c['p'])
    w = gen.fill_row('random', [1 + x for x in draw(st.binary(min_size=n, max_size=n))])
    e = 2.0 ** -draw(st.integers(4, 18))
    rows = [[(1 - e) * w[j] + e * c['p'][i][j] for j in range(n)] for i in range(n)]
    return {'p': rows, 'kind': 'nearly independent', 'scheme': 'mixed', 'states': None}


@R.law(nearly_independent(), 400, 6000)
def small_second_eigenvalue(case, ctx):
    """Chains with a small second eigenvalue: the other eigenvalues are those of the differences from the first row, which are of the same magnitude."""
    p = case['p']
    n = len(p)
    P = O.exact(p)
    d = np.array([[float(P[i][j] - P[0][j]) for j in range(1, n)] for i in range(1, n)])
    w, v = np.linalg.eig(d)
    slem = float(np.max(np.abs(w)))
    cond = float(np.linalg.cond(v))
    if slem < 3e-8 or not cond < 1e3:
        raise Discard()
    ctx.interesting(slem < 1e-3)
    ctx.tag(f'slem~1e{math.floor(math.log10(slem))}')
    mc = gen.build(case)
    err = 1e-13 * cond
    close(mc.spectral_gap, 1 - slem, 'spectral_gap', rtol=1e-12, atol=err)
    close(mc.relaxation_rate, 1 / (1 - slem), 'relaxation_rate', rtol=1e-12, atol=4 * err / (1 - slem) ** 2)
    for what, got in (('mixing_rate', mc.mixing_rate), ('the second implied timescale', mc.implied_timescales[1])):
        close(got, -1 / math.log(slem), what, rtol=min(0.5, 1e-9 + 4 * err / slem / -math.log(slem)))


@R.law(gen.mostly(st.one_of(gen.chain(2, 8, kinds=['absorbing', 'absorbing', 'competing', 'layout', 'birthdeath', 'ergodic', 'identity', 'sparse']), gen.chain(2, 6, kinds=['absorbing', 'competing', 'leaky'], schemes=['tiny'])), gen.chain(9, 20, kinds=['absorbing', 'competing', 'layout'], schemes=gen.PLAINLY), 12), 1200, 16000)
def fundamental(case, ctx):
    """The fundamental matrix is the inverse of I - Q over the transient states, in their order, and the Kemeny constant is its trace; both are undefined when the chain is not absorbing or has no transient states."""
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    reach = O.reachable(p)
    absb = {i for i in range(n) if all(p[i][j] == 0 for j in range(n) if j != i)}
    tra = sorted(i for c in O.transient_classes(p) for i in c)
    mc = gen.build(case)
    if not tra or not absb or not all(reach[i] & absb for i in range(n)):
        ctx.tag('undefined')
        is_none(mc.fundamental_matrix, 'fundamental_matrix of a chain which is not absorbing or has no transient states')
        is_none(mc.kemeny_constant, 'kemeny_constant of a chain which is not absorbing or has no transient states')
        return
    N = O.fundamental(O.exact(p), tra)
    T = float(max(sum(r) for r in N))
    if T > 1e12:
        raise Discard()
    ctx.interesting(len(tra) > 1)
    ctx.tag('fast' if T < 100 else 'slow')
    tol = 1e-9 + 1e-13 * n * T
    got = mc.fundamental_matrix
    close(got, O.floats(N), 'fundamental_matrix', rtol=tol, atol=tol * T)
    close(mc.kemeny_constant, float(sum(N[i][i] for i in range(len(tra)))), 'kemeny_constant', rtol=tol, atol=tol * T)
    got[:] = 0.0
    close(mc.fundamental_matrix, O.floats(N), 'fundamental_matrix after its copy was overwritten', rtol=tol, atol=tol * T)
