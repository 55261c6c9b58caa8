"""C24: spectral aggregation."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, expect_validation_error, expect_value_error

R = Registry('C24', 'ergodic chains of 3 to 7 states (dense, sparse, symmetric, slow, with ties), every admissible number of groups, the three methods; reference: every partition of the states, aggregated with the exact stationary distribution; non-trivial: the aggregated chain has at least two states with different rows')


def partitions(n, s):
    """All the partitions of range(n) into s blocks, as restricted growth strings."""
    def rec(i, prefix, m):
        if i == n:
            if m == s:
                yield prefix
            return
        if m + (n - i) < s:
            return
        for b in range(min(m + 1, s)):
            yield from rec(i + 1, prefix + [b], max(m, b + 1))
    yield from rec(0, [], 0)


def aggregated(p, pi, labels, s):
    phi = np.zeros((len(p), s))
    for i, b in enumerate(labels):
        phi[i, b] = 1.0
    num = phi.T @ (pi[:, None] * p) @ phi
    return num / num.sum(axis=1, keepdims=True)


def match(q, r, tol):
    """A permutation carrying r onto q."""
    s = len(q)

    def rec(perm):
        k = len(perm)
        if k == s:
            return perm
        for c in range(s):
            if c in perm:
                continue
            new = perm + [c]
            if all(abs(q[k, j] - r[c, new[j]]) <= tol and abs(q[j, k] - r[new[j], c]) <= tol for j in range(k + 1)):
                out = rec(new)
                if out is not None:
                    return out
        return None
    return rec([])


@st.composite
def cases(draw):
    c = draw(gen.chain(3, 7, kinds=['dense', 'dense', 'ergodic', 'ergodic', 'ergodic', 'reversible', 'rank1', 'symmetric', 'doubly', 'slow', 'birthdeath'], schemes=['dyadic', 'coarse', 'decimal', 'norm', 'uniform']))
    c['s'] = draw(st.integers(2, len(c['p']) - 1))
    c['method'] = draw(st.sampled_from(['spectral-bottom-up', 'spectral-top-down', 'adaptive']))
    return c


def ergodic(rows):
    c = O.classes(rows)
    return len(c) == 1 and O.period_of(rows, c[0]) == 1


@R.law(cases(), 4800, 60000)
def aggregation(case, ctx):
    """The result is the stationary aggregation of the chain along one of the partitions of the states."""
    gen.tag_chain(case, ctx)
    n, s, method = len(case['p']), case['s'], case['method']
    mc = gen.build(case)
    what = f'aggregate({s}, {method})'
    if not ergodic(case['p']):
        ctx.tag('not ergodic')
        expect_value_error(lambda: mc.aggregate(s, method), what)
        return
    r = mc.aggregate(s, method)
    require(r.size == s, f'{what}: {r.size} states')
    prefix = 'ASBU' if method == 'spectral-bottom-up' else 'ASTD'
    same(r.states, [f'{prefix}{i}' for i in range(1, s + 1)], f'{what}: names')
    q = r.p
    require(np.all(np.isfinite(q)) and np.all(q >= 0) and np.allclose(q.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'{what}: not stochastic: {q.tolist()}')
    P = O.exact(case['p'])
    pi = np.array(O.floats(O.stationaries(P)[0]))
    p = np.array(O.floats(P))
    diag = np.sort(np.diag(q))
    for labels in partitions(n, s):
        a = aggregated(p, pi, labels, s)
        if np.allclose(np.sort(np.diag(a)), diag, rtol=0, atol=1e-6) and match(q, a, 1e-6) is not None:
            break
    else:
        require(False, f'{what}: {q.tolist()} is not the aggregation of the chain along a partition of its states')
    ctx.interesting(not np.allclose(q, q[0]))
    ctx.tag(method, f's={s}')
    if method != 'adaptive':
        again = gen.build(case).aggregate(s, method)
        close(again.p, q, f'{what} again', rtol=0, atol=0)


@R.law(gen.chain(2, 5, kinds=['dense', 'ergodic', 'periodic', 'absorbing', 'closed']), 160, 1600)
def rejected(case, ctx):
    """Two states, chains which are not ergodic, wrong sizes and unknown methods."""
    n = len(case['p'])
    mc = gen.build(case)
    ctx.interesting(True)
    if n == 2:
        expect_validation_error(lambda: mc.aggregate(2), 'aggregate(2) of two states')
        return
    for s in (0, 1, n, n + 1, -2):
        expect_validation_error(lambda s=s: mc.aggregate(s), f'aggregate({s}) of {n} states')
    expect_validation_error(lambda: mc.aggregate(2, 'spectral'), 'unknown method')

GAP = 1e-5


class Ambiguous(Exception):
    pass


def divergence(p, pi, labels, q):
    """The divergence, in bits per step, of the chain from the aggregated one lifted back to the states."""
    groups = np.zeros(len(q))
    for i, b in enumerate(labels):
        groups[b] += pi[i]
    out = 0.0
    for i, a in enumerate(labels):
        out -= pi[i] * np.log2(pi[i] / groups[a])
        for j, b in enumerate(labels):
            if p[i, j] > 0:
                out += pi[i] * p[i, j] * np.log2(p[i, j] / q[a, b])
    return out


def signs(p, pi):
    """The two parts given by the signs of the second eigenvector of the symmetrised matrix (the first one, after the leading, whose signs differ)."""
    n = len(p)
    r = np.sqrt(np.outer(pi, 1 / pi)) * p
    values, vectors = np.linalg.eigh((r + r.T) / 2)
    order = np.argsort(-np.abs(values), kind='stable')
    moduli = np.abs(values)[order]
    if n > 1 and moduli[0] - moduli[1] < GAP:
        raise Ambiguous('eigenvalues')
    for i in list(range(1, n)) + [0]:
        if i + 1 < n and moduli[i] - moduli[i + 1] < GAP:
            raise Ambiguous('eigenvalues')
        u = vectors[:, order[i]]
        if np.min(np.abs(u)) < GAP:
            raise Ambiguous('components')
        if 0 < np.count_nonzero(u > 0) < n:
            return np.flatnonzero(u > 0), np.flatnonzero(u < 0)
    raise Ambiguous('no signs')


def lowest(found, p, pi):
    """The partition with the lowest divergence, unless two of them are too close."""
    out = sorted((divergence(p, pi, lab, aggregated(p, pi, lab, max(lab) + 1)), lab) for lab in set(found))
    if len(out) > 1 and out[1][0] - out[0][0] < 1e-9 * (1 + out[0][0]):
        raise Ambiguous('divergence')
    return out[0][1]


def canonical(labels):
    names = {}
    return tuple(names.setdefault(x, len(names)) for x in labels)


def bottom_up(p, pi, s):
    labels = (0,) * len(p)
    while max(labels) + 1 < s:
        found = []
        for g in range(max(labels) + 1):
            members = [i for i, x in enumerate(labels) if x == g]
            if len(members) == 1:
                continue
            a, _ = signs(p[np.ix_(members, members)], pi[members])
            new = list(labels)
            for x in a:
                new[members[x]] = 's'
            found.append(canonical(new))
        labels = lowest(found, p, pi)
    return labels


def top_down(p, pi, s):
    labels = tuple(range(len(p)))
    while max(labels) + 1 > s:
        k = max(labels) + 1
        q = aggregated(p, pi, labels, k)
        if sorted(np.abs(np.linalg.eigvals(q)))[-2] > 0.97:
            raise Ambiguous('slow')
        qpi = np.array([sum(pi[i] for i, x in enumerate(labels) if x == g) for g in range(k)])
        pairs, rest = [], [list(range(k))]
        while rest:
            g = rest.pop()
            if len(g) == 2:
                pairs.append(g)
            elif len(g) > 2:
                for part in signs(q[np.ix_(g, g)], qpi[g]):
                    rest.append([g[x] for x in part])
        labels = lowest([canonical([a if x == b else x for x in labels]) for a, b in pairs], p, pi)
    return labels


@st.composite
def procedures(draw, nmin=3, nmax=9):
    c = draw(gen.chain(nmin, nmax, kinds=['dense', 'dense', 'dense', 'ergodic', 'slow'], schemes=['norm', 'uniform', 'norm']))
    c['s'] = draw(st.integers(2, len(c['p']) - 1))
    c['method'] = draw(st.sampled_from(['spectral-bottom-up', 'spectral-top-down']))
    return c


@R.law(procedures(), 3000, 40000)
def choice(case, ctx):
    """The partition is the one with the lowest divergence among those proposed, at every step, by the signs of the second eigenvectors."""
    gen.tag_chain(case, ctx)
    s, method = case['s'], case['method']
    if not ergodic(case['p']):
        return
    P = O.exact(case['p'])
    pi = np.array(O.floats(O.stationaries(P)[0]))
    p = np.array(O.floats(P))
    if pi.min() < 1e-9:
        return
    try:
        labels = (bottom_up if method == 'spectral-bottom-up' else top_down)(p, pi, s)
    except Ambiguous as ex:
        ctx.tag(f'ambiguous: {ex}')
        return
    q = gen.build(case).aggregate(s, method).p
    a = aggregated(p, pi, labels, s)
    require(match(q, a, 1e-6) is not None, f'aggregate({s}, {method}): {q.tolist()} is not the aggregation along {labels}, {a.tolist()}')
    ctx.interesting(not np.allclose(q, q[0], rtol=0, atol=1e-6))
    ctx.tag(method, f's={s}')


@R.law(procedures(10, 18), 120, 2000)
def choice_large(case, ctx):
    """Same for 10 to 18 states."""
    choice(case, ctx)


@st.composite
def blocks(draw):
    """Nearly decomposable chains: blocks of states which mix at once, rarely left."""
    n = draw(st.integers(4, 9))
    s = 2  # with more blocks the second eigenvector may vanish on one of them, and cut it
    labels = list(range(s)) * 2 + draw(st.lists(st.integers(0, s - 1), min_size=n - 2 * s, max_size=n - 2 * s))
    labels = draw(st.permutations(labels))
    e = draw(st.sampled_from([2.0**-7, 2.0**-10, 2.0**-14]))
    w = [[draw(st.integers(4, 8)) for _ in range(n)] for _ in range(n)]
    p = [[w[i][j] * (1.0 if labels[i] == labels[j] else e) for j in range(n)] for i in range(n)]
    p = [[x / sum(row) for x in row] for row in p]
    return {'p': p, 'labels': list(labels), 's': s, 'method': draw(st.sampled_from(['spectral-bottom-up', 'spectral-top-down', 'adaptive']))}


@st.composite
def large(draw):
    c = draw(gen.chain(28, 33, kinds=['dense', 'ergodic'], schemes=['norm', 'dyadic'], plain=True))
    c['s'] = draw(st.sampled_from([2, 5, 8, 9, 10, 11, 12, 15, 20, 25]))
    return c


@R.law(large(), 64, 400)
def adaptive(case, ctx):
    """The adaptive method is the top-down one below 30 states, and above it the bottom-up one for s/n at most 0.3."""
    n, s = len(case['p']), case['s']
    mc = gen.build(case)
    if not ergodic(case['p']):
        return
    ctx.interesting(True)
    r = mc.aggregate(s)
    method = 'spectral-bottom-up' if n >= 30 and s / n <= 0.3 else 'spectral-top-down'
    prefix = 'ASBU' if method == 'spectral-bottom-up' else 'ASTD'
    ctx.tag(method)
    same(r.states, [f'{prefix}{i}' for i in range(1, s + 1)], f'aggregate({s}) of {n} states: names')
    q = r.p
    require(q.shape == (s, s) and np.all(q >= 0) and np.allclose(q.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'aggregate({s}): not stochastic: {q.tolist()}')
    close(q, gen.build(case).aggregate(s, method).p, f'aggregate({s}) of {n} states, adaptive and {method}', rtol=0, atol=0)
    x = np.array(r.pi[0])
    close(x @ q, x, 'stationarity of the aggregated chain', atol=1e-9)


@R.law(blocks(), 1200, 20000)
def nearly_decomposable(case, ctx):
    """The two blocks of a nearly decomposable chain are found."""
    s, method = case['s'], case['method']
    P = O.exact(case['p'])
    pi = np.array(O.floats(O.stationaries(P)[0]))
    p = np.array(O.floats(P))
    import pydtmc
    q = pydtmc.MarkovChain(case['p']).aggregate(s, method).p
    a = aggregated(p, pi, case['labels'], s)
    require(match(q, a, 1e-6) is not None, f'aggregate({s}, {method}): {q.tolist()} is not the aggregation along the blocks {case["labels"]}, {a.tolist()}')
    ctx.interesting(True)
    ctx.tag(method, f's={s}')
