"""C33: hidden models: queries, restriction and conversions."""
import random
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, expect_validation_error, expect_rejection

R = Registry('C33', 'hidden models of 2 to 6 states and 2 to 6 symbols, with structural zeros, symbols never emitted and every naming; subsets in any order by index or name; weights from 1e-12 to 1e9 with null rows; dictionaries and graphs in any order, incomplete or invalid; oracle: the matrices of the case, exact rank and exact normalisation; non-trivial: structural zeros')


def exact_rank(rows):
    m = [[F(x) for x in r] for r in rows]
    rank = 0
    for c in range(len(m[0])):
        piv = next((r for r in range(rank, len(m)) if m[r][c] != 0), None)
        if piv is None:
            continue
        m[rank], m[piv] = m[piv], m[rank]
        for r in range(rank + 1, len(m)):
            f = m[r][c] / m[rank][c]
            if f:
                m[r] = [x - f * y for x, y in zip(m[r], m[rank])]
        rank += 1
    return rank


def ergodic(p):
    C = O.classes(p)
    return len(C) == 1 and O.period_of(p, C[0]) == 1


def tags(case, ctx):
    ctx.tag(f'kind={case["kind"]}', f'n={len(case["p"])}', f'k={len(case["e"][0])}', 'named' if case['states'] else 'default names')
    ctx.interesting(any(x == 0 for r in case['p'] + case['e'] for x in r))


@R.law(gen.mostly(gen.hmm(), gen.hmm(2, 14, 7, 14)), 2400, 30000)
def queries(case, ctx):
    """Entries of the matrices by name and index, size, names, ergodicity, regularity, summary."""
    h = gen.build_hmm(case)
    p, e, S, Y = case['p'], case['e'], gen.hmm_states(case), gen.hmm_symbols(case)
    n, k = len(p), len(e[0])
    same((h.n, h.k, tuple(h.size)), (n, k, (n, k)), 'size')
    same((h.states, h.symbols), (S, Y), 'names')
    same(np.array_equal(h.p, p) and np.array_equal(h.e, e), True, 'matrices')
    m = h.to_matrices()
    same(len(m) == 2 and np.array_equal(m[0], p) and np.array_equal(m[1], e), True, 'to_matrices')
    for i in range(n):
        for j in range(n):
            same([float(h.transition_probability(j, i)), float(h.transition_probability(S[j], S[i])), float(h.transition_probability(S[j], i)), float(h.transition_probability(j, S[i]))], [p[i][j]] * 4, f'transition_probability({S[j]}, {S[i]})')
        for j in range(k):
            same([float(h.emission_probability(j, i)), float(h.emission_probability(Y[j], S[i])), float(h.emission_probability(Y[j], i)), float(h.emission_probability(j, S[i]))], [e[i][j]] * 4, f'emission_probability({Y[j]}, {S[i]})')
    positive = all(x > 0 for r in e for x in r)
    erg = ergodic(p) and positive
    same(bool(h.is_ergodic), erg, f'is_ergodic of {p} {e}')
    sv = np.linalg.svd(np.array(e), compute_uv=False)
    full = exact_rank([[F(x).limit_denominator(10 ** 6) for x in r] for r in e]) == k if case['scheme'] not in ('norm', 'skew') else None
    clear = not (1e-13 < sv.min() / sv.max() < 1e-7)
    if n < k:
        same(bool(h.is_regular), False, f'is_regular of {e}')
    elif clear:
        same(bool(h.is_regular), sv.min() / sv.max() > 1e-10, f'is_regular of {e}')
        if full is not None:
            same(bool(h.is_regular), full, f'is_regular of {e} in exact arithmetic')
    lines = [x.strip() for x in str(h).splitlines()]
    for text in (f'STATES:  {n}', f'SYMBOLS: {k}', f'ERGODIC: {"YES" if erg else "NO"}', f'REGULAR: {"YES" if h.is_regular else "NO"}'):
        require(text in lines, lambda: f'the summary lacks "{text}": {lines}')
    tags(case, ctx)


@R.law(st.tuples(gen.mostly(gen.hmm(), gen.hmm(2, 14, 7, 14)), st.integers(0, 2 ** 32)).map(lambda t: dict(t[0], order=t[1])), 2400, 30000)
def roundtrips(case, ctx):
    """Dictionary (in any key order) bit for bit; graph and matrices up to the rounding of the normalisation, with the same null entries."""
    import networkx as nx
    from pydtmc import HiddenMarkovModel as H
    h = gen.build_hmm(case)
    p, e, S, Y = np.array(case['p']), np.array(case['e']), gen.hmm_states(case), gen.hmm_symbols(case)
    n, k = e.shape
    d = h.to_dictionary()
    expected = {('P', S[i], S[j]): p[i, j] for i in range(n) for j in range(n)}
    expected.update({('E', S[i], Y[j]): e[i, j] for i in range(n) for j in range(k)})
    same({a: float(b) for a, b in d.items()}, expected, 'dictionary')
    b = H.from_dictionary(d)
    same(b == h and b.states == S and b.symbols == Y, True, f'from its dictionary {d}')
    rng = random.Random(case['order'])
    keys = list(d)
    rng.shuffle(keys)
    x = {a: int(d[a]) if d[a] in (0.0, 1.0) and rng.random() < 0.5 else d[a] for a in keys}
    b = H.from_dictionary(x)
    same(sorted(b.states) == sorted(S) and sorted(b.symbols) == sorted(Y), True, f'names from {x}: {b.states} {b.symbols}')
    si, yi = [b.states.index(s) for s in S], [b.symbols.index(s) for s in Y]
    same(np.array_equal(b.p[np.ix_(si, si)], p) and np.array_equal(b.e[np.ix_(si, yi)], e), True, f'from the dictionary {x}: {b.p.tolist()} {b.e.tolist()} {b.states} {b.symbols}')
    g = h.to_graph()
    same(dict(g.nodes(data='layer')), {**{s: 1 for s in S}, **{y: 0 for y in Y}}, 'nodes of the graph')
    same(list(g.nodes), S + Y, 'order of the nodes')
    got = {(a, b): (t, float(w)) for (a, b, t), (_, _, w) in zip(g.edges(data='type'), g.edges(data='weight'))}
    ref = {(S[i], S[j]): ('P', p[i, j]) for i in range(n) for j in range(n) if p[i, j] > 0}
    ref.update({(S[i], Y[j]): ('E', e[i, j]) for i in range(n) for j in range(k) if e[i, j] > 0})
    same(got, ref, 'edges of the graph')
    exact = all(sum(r) == 1.0 for r in case['p'] + case['e'])
    g2 = nx.DiGraph()
    nodes = [(s, 1) for s in S] + [(y, 0) for y in Y]
    rng.shuffle(nodes)
    for a, l in nodes:
        g2.add_node(a, layer=l)
    edges = list(g.edges(data=True))
    rng.shuffle(edges)
    for a, c, data in edges:
        g2.add_edge(a, c, **data)
    for name, y in (('matrices', H.from_matrices(*h.to_matrices(), S, Y)), ('graph', H.from_graph(g)), ('multigraph', H.from_graph(nx.MultiDiGraph(g))), ('shuffled graph', H.from_graph(g2))):
        if name != 'shuffled graph':
            same((y.states, y.symbols), (S, Y), f'names from its {name}')
        else:
            same((y.states, y.symbols), ([a for a, l in nodes if l == 1], [a for a, l in nodes if l == 0]), 'names from the shuffled graph')
        si, yi = [y.states.index(s) for s in S], [y.symbols.index(s) for s in Y]
        yp, ye = y.p[np.ix_(si, si)], y.e[np.ix_(si, yi)]
        close(yp, p, f'transitions from its {name}', rtol=2e-15 * n if exact else 1e-8, atol=0)
        close(ye, e, f'emissions from its {name}', rtol=2e-15 * k if exact else 1e-8, atol=0)
        same(np.array_equal(yp > 0, p > 0) and np.array_equal(ye > 0, e > 0), True, f'support from its {name}')
    y = H.from_matrices(p.tolist(), e.tolist())
    same((y.states, y.symbols), ([f'P{i + 1}' for i in range(n)], [f'E{i + 1}' for i in range(k)]), 'default names')
    tags(case, ctx)


@st.composite
def weights(draw):
    n, k = draw(st.integers(2, 5)), draw(st.integers(2, 6))

    def mat(m):
        rows = []
        for _ in range(n):
            w = draw(st.lists(st.integers(0, 9), min_size=m, max_size=m))
            f = 10.0 ** draw(st.sampled_from([-12, -9, -3, 0, 0, 0, 3, 9, -320, 307]))
            rows.append([0] * m if draw(st.integers(0, 5)) == 0 else [a * f for a in w])
        return rows
    case = {'m': mat(n), 'e': mat(k), 'order': draw(st.integers(0, 2 ** 32)), 'p': [[1.0] * n] * n}
    case['states'] = draw(gen.labels(n, prefix='s'))
    case['symbols'] = draw(gen.labels(k, prefix='y'))
    if case['states'] and case['symbols'] and set(case['states']) & set(case['symbols']):
        case['states'] = case['symbols'] = None
    return case


def normal(m):
    out = []
    for r in m:
        s = sum(F(x) for x in r)
        out.append([float(F(x) / s) for x in r] if s else [1.0 / len(r)] * len(r))
    return out


@R.law(weights(), 1600, 20000)
def normalised(case, ctx):
    """Matrices and graphs of nonnegative weights: rows divided by their sums, null rows uniform, the arguments as they were."""
    import networkx as nx
    import scipy.sparse as sp
    import pandas as pd
    from pydtmc import HiddenMarkovModel as H
    m, e = case['m'], case['e']
    n, k = len(m), len(e[0])
    pm, pe = normal(m), normal(e)
    forms = [lambda a: [list(r) for r in a], np.array, lambda a: np.asfortranarray(a), sp.csr_matrix, pd.DataFrame, lambda a: np.array(np.array(a).T.tolist()).T]
    f1, f2 = forms[case['order'] % len(forms)], forms[case['order'] // 7 % len(forms)]
    a, b = f1(m), f2(e)
    h = H.from_matrices(a, b, case['states'], case['symbols'])
    close(h.p, pm, f'transitions of from_matrices({m}, {e})', rtol=1e-13, atol=0)
    close(h.e, pe, f'emissions of from_matrices({m}, {e})', rtol=1e-13, atol=0)
    for x, y in ((a, m), (b, e)):
        x = x.toarray() if hasattr(x, 'toarray') else np.array(x)
        same(np.array_equal(x, np.array(y, dtype=float)), True, 'the argument after the call')
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    same((h.states, h.symbols), (S, Y), 'names')
    rng = random.Random(case['order'])
    g = nx.DiGraph()
    for s in S:
        g.add_node(s, layer=1)
    for y in Y:
        g.add_node(y, layer=0)
    edges = [(S[i], S[j], 'P', m[i][j]) for i in range(n) for j in range(n)] + [(S[i], Y[j], 'E', e[i][j]) for i in range(n) for j in range(k)]
    edges = [x for x in edges if x[3] > 0 or rng.random() < 0.3]
    rng.shuffle(edges)
    for u, v, t, w in edges:
        g.add_edge(u, v, type=t, weight=w)
    h = H.from_graph(g)
    same((h.states, h.symbols), (S, Y), 'names from the graph')
    close(h.p, pm, f'transitions of from_graph: {m}', rtol=1e-13, atol=0)
    close(h.e, pe, f'emissions of from_graph: {e}', rtol=1e-13, atol=0)
    ctx.interesting(any(not any(r) for r in m + e))
    ctx.tag('null row' if any(not any(r) for r in m + e) else 'no null row')


@st.composite
def restrictions(draw, small=False):
    c = draw(gen.hmm(3, 6, 3, 6, kinds=['leaky', 'leaky', 'slow', 'rare', 'layout', 'dense'], schemes=['tiny']) if small else gen.mostly(gen.hmm(2, 6, 2, 6), gen.hmm(2, 14, 7, 14)))
    n, k = len(c['p']), len(c['e'][0])
    c['sub'] = draw(gen.subset(n, 2, n - 1)) if n > 2 and draw(st.integers(0, 3)) else None
    c['sym'] = draw(gen.subset(k, 2, k - 1)) if k > 2 and draw(st.integers(0, 3)) else None
    c['byname'] = draw(st.booleans())
    return c


@R.law(restrictions(), 3200, 40000)
def restriction(case, ctx):
    """The rows and columns of the given states and symbols, in the order of the model, normalised; null rows uniform."""
    h = gen.build_hmm(case)
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    sub, sym = case['sub'], case['sym']
    a = None if sub is None else [S[i] for i in sub] if case['byname'] else sub
    b = None if sym is None else [Y[i] for i in sym] if case['byname'] else sym
    what = f'restrict({a}, {b}) of {case["p"]} {case["e"]}'
    if a is None and b is None:
        expect_validation_error(lambda: h.restrict(), 'restrict()')
        ctx.tag('nothing')
        return
    r = h.restrict(a, b)
    i = list(range(len(S))) if sub is None else sorted(sub)
    j = list(range(len(Y))) if sym is None else sorted(sym)
    same((r.states, r.symbols), ([S[x] for x in i], [Y[x] for x in j]), f'{what}: names')
    p, e = normal([[case['p'][x][y] for y in i] for x in i]), normal([[case['e'][x][y] for y in j] for x in i])
    if sub is None:
        p = case['p']
    close(r.p, p, f'{what}: transitions', rtol=1e-12, atol=0)
    close(r.e, e, f'{what}: emissions', rtol=1e-12 if sub is not None or sym is not None else 0, atol=0)
    same(gen.build_hmm(case) == h, True, f'{what}: the model after the call')
    tags(case, ctx)
    ctx.tag('states and symbols' if sub and sym else 'states' if sub else 'symbols')
    # restricting in two steps is restricting at once
    if sub and sym:
        r2 = h.restrict(a, None).restrict(None, b)
        close(r2.p, r.p, f'{what}: in two steps', rtol=1e-12, atol=1e-15)
        close(r2.e, r.e, f'{what}: in two steps', rtol=1e-12, atol=1e-15)


@R.law(restrictions(True), 1200, 16000)
def restriction_magnitudes(case, ctx):
    """Same with probabilities down to 2^-50."""
    restriction(case, ctx)


@R.law(st.tuples(gen.hmm(2, 5, 2, 5), st.integers(0, 2 ** 20)).map(lambda t: dict(t[0], at=t[1])), 800, 8000)
def rejected(case, ctx):
    """Invalid restrictions, queries, dictionaries, graphs and matrices."""
    import networkx as nx
    from pydtmc import HiddenMarkovModel as H
    h = gen.build_hmm(case)
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    n, k = len(S), len(Y)
    at = case['at']
    i, j, q = at % n, (at // n) % n, (at // 7) % k
    ctx.interesting(True)
    for bad in ([S[0]], S[0], 0, [0], [], [0, 0], [S[0], S[0]], list(range(n)), list(S), [0, n], [-1, 0], ['?unknown?', S[0]], [0, S[1]], (0, 1), 1.0, n, -1, True):
        expect_validation_error(lambda: h.restrict(bad), f'restrict({bad!r}) with {n} states')
        expect_validation_error(lambda: h.restrict(bad, [0, 1] if k > 2 else None), f'restrict({bad!r}, ...)')
    for bad in ([Y[0]], Y[0], 0, [0], [], [0, 0], list(range(k)), list(Y), [0, k], [-1, 0], ['?unknown?', Y[0]], [0, Y[1]], S[:2], (0, 1), 1.0, k, -1):
        expect_validation_error(lambda: h.restrict(None, bad), f'restrict(None, {bad!r}) with {k} symbols')
    for bad in (n, -1, '?unknown?', Y[q], None, 1.0, True, [0], ''):
        expect_validation_error(lambda: h.transition_probability(bad, i), f'transition_probability({bad!r}, {i})')
        expect_validation_error(lambda: h.transition_probability(i, bad), f'transition_probability({i}, {bad!r})')
        expect_validation_error(lambda: h.emission_probability(q, bad), f'emission_probability({q}, {bad!r})')
    for bad in (k, -1, '?unknown?', S[i], None, 1.0, True, [0], ''):
        expect_validation_error(lambda: h.emission_probability(bad, i), f'emission_probability({bad!r}, {i})')
    d = h.to_dictionary()
    fd, fm, fg = H.from_dictionary, H.from_matrices, H.from_graph
    for key in (('P', S[i], S[j]), ('E', S[i], Y[q])):
        e = dict(d)
        del e[key]
        expect_rejection(lambda: fd(e), f'dictionary without {key}')
        for v in (-0.1, 1.1, float('nan'), float('inf'), None, '0.5', 1j, True):
            expect_rejection(lambda: fd({**d, key: v}), f'dictionary with {v!r} at {key}')
        expect_rejection(lambda: fd({**d, key: d[key] + 0.1 if d[key] <= 0.5 else d[key] - 0.1}), f'dictionary whose row does not sum to one at {key}')
    for key in (('P', '?unknown?', S[j]), ('P', '?unknown?', '?unknown?'), ('E', '?unknown?', Y[q]), ('E', S[i], '?unknown?'), ('X', S[i], S[j]), (S[i], S[j]), ('P', S[i], 1), ('P', Y[q], Y[q]), ('E', Y[q], Y[q]), S[i], ('P', S[i], S[j], S[j])):
        expect_rejection(lambda: fd({**d, key: 0.0}), f'dictionary with the key {key}')
    # a symbol named as a state
    same_name = {(a, b, (S[i] if a == 'E' and c == Y[q] else c)): v for (a, b, c), v in d.items()}
    expect_rejection(lambda: fd(same_name), f'dictionary with a symbol named {S[i]} as a state')
    for bad in ({}, None, [], list(d.items()), {key: v for key, v in d.items() if key[0] == 'P'}, {key: v for key, v in d.items() if key[0] == 'E'}):
        expect_rejection(lambda: fd(bad), f'from_dictionary({str(bad)[:100]})')
    for v in (-1.0, -1e-9, float('nan'), float('inf')):
        p, e = h.to_matrices()
        p[i, j] = v
        expect_validation_error(lambda: fm(p, e), f'transitions with {v}')
        p, e = h.to_matrices()
        e[i, q] = v
        expect_validation_error(lambda: fm(p, e), f'emissions with {v}')
        g = h.to_graph()
        g.add_edge(S[i], S[j], type='P', weight=v)
        expect_validation_error(lambda: fg(g), f'graph with the weight {v}')
    p, e = h.to_matrices()
    for a, b in ((p[:-1], e), (p[:, :-1], e), (p, e[:-1]), (p, e[:, :1]), (p, e.ravel()), (p.ravel(), e), (None, e), (p, None), (p, 'x'), (p, np.vstack((e, e[:1]))), (p > 0, e), (p, e > 0), ([[1.0]], [[0.5, 0.5]])):
        expect_validation_error(lambda: fm(a, b), f'from_matrices with shapes {np.shape(a)} {np.shape(b)}')
    for a, b in ((S[:-1], None), (S + ['?unknown?'], None), ([S[0]] * n, None), ([1] * n, None), (tuple(S), None), (None, Y[:-1]), (None, Y + ['?unknown?']), (None, [Y[0]] * k), (None, [1] * k), (None, [''] * k), (None, tuple(Y)),
                 (S, [S[0]] + [f'?{x}' for x in range(k - 1)]), ([f'E{x + 1}' for x in range(n)], None), (None, [f'P{x + 1}' for x in range(k)])):
        expect_validation_error(lambda: fm(p, e, a, b), f'from_matrices with the names {a} {b}')
        expect_validation_error(lambda: H(p, e, a, b), f'model with the names {a} {b}')
    for edit in ('no layer', 'layer 2', 'layer text', 'no type', 'type X', 'no weight', 'integer node', 'undirected', 'one symbol', 'one state', 'E to a state', 'P to a symbol', 'from a symbol', 'E from a symbol'):
        g = h.to_graph()
        if edit == 'no layer':
            g.add_node('?other?')
        elif edit == 'layer 2':
            g.add_node('?other?', layer=2)
        elif edit == 'layer text':
            g.add_node('?other?', layer='1')
        elif edit == 'no type':
            g.remove_edges_from([(S[i], S[j])])
            g.add_edge(S[i], S[j], weight=0.5)
        elif edit == 'type X':
            g.add_edge(S[i], S[j], weight=0.5, type='X')
        elif edit == 'no weight':
            g.remove_edges_from([(S[i], S[j])])
            g.add_edge(S[i], S[j], type='P')
        elif edit == 'integer node':
            g.add_node(3, layer=1)
        elif edit == 'undirected':
            g = nx.Graph(g)
        elif edit == 'one symbol':
            g.remove_nodes_from(Y[1:])
        elif edit == 'one state':
            g.remove_nodes_from(S[1:])
        elif edit == 'E to a state':
            g.add_edge(S[i], S[j], type='E', weight=0.5)
        elif edit == 'P to a symbol':
            g.add_edge(S[i], Y[q], type='P', weight=0.5)
        elif edit == 'from a symbol':
            g.add_edge(Y[q], S[i], type='P', weight=0.5)
        elif edit == 'E from a symbol':
            g.add_edge(Y[q], Y[q], type='E', weight=0.5)
        expect_rejection(lambda: fg(g), f'graph with {edit}')
    for bad in (nx.DiGraph(), None, d):
        expect_validation_error(lambda: fg(bad), f'from_graph({type(bad)})')
