"""C31: dictionary, graph and matrix conversions of chains."""
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error, expect_rejection

R = Registry('C31', 'chains of 2 to 9 states of every kind and naming; weights from 1e-12 to 1e9, and of the extreme magnitudes from 1e-320 to 1.7e308, integers and floats, null rows, lists, arrays (any layout and type), sparse matrices and frames; dictionaries in any key order, incomplete, with extra or invalid entries; directed graphs and multigraphs built in any edge order; oracle: exact normalisation in rationals; non-trivial: a null entry and rows of different scales')


@R.law(gen.mostly(gen.chain(2, 9), gen.chain(10, 24)), 2400, 30000)
def roundtrips(case, ctx):
    """Dictionary: bit for bit. Graph and matrix: up to the rounding of the normalisation, with the same null entries."""
    from pydtmc import MarkovChain
    import networkx as nx
    mc = gen.build(case)
    p, L = np.array(case['p']), gen.names(case)
    n = len(L)
    what = f'{case["p"]} {L}'
    d = mc.to_dictionary()
    same(list(d.keys()), [(a, b) for a in L for b in L], f'{what}: keys of the dictionary')
    same([float(x) for x in d.values()], p.ravel().tolist(), f'{what}: values of the dictionary')
    x = MarkovChain.from_dictionary(d)
    same(x == mc and x.states == L, True, f'{what}: from its dictionary')
    m = mc.to_matrix()
    same(np.array_equal(m, p), True, f'{what}: matrix')
    g = mc.to_graph()
    same(list(g.nodes), L, f'{what}: nodes')
    edges = {(a, b): w for a, b, w in g.edges(data='weight')}
    same({k: float(v) for k, v in edges.items()}, {(L[i], L[j]): p[i, j] for i in range(n) for j in range(n) if p[i, j] > 0}, f'{what}: edges of the graph')
    same(g.is_directed() and not g.is_multigraph() and g.number_of_edges() == int((p > 0).sum()), True, f'{what}: kind of graph')
    for name, y in (('matrix', MarkovChain.from_matrix(m, L)), ('graph', MarkovChain.from_graph(g)), ('multigraph', MarkovChain.from_graph(nx.MultiDiGraph(g)))):
        same(y.states, L, f'{what}: names from its {name}')
        close(y.p, p, f'{what}: from its {name}', rtol=2e-15 * n if all(sum(r) == 1.0 for r in case['p']) else 1e-8, atol=0)
        same(np.array_equal(y.p > 0, p > 0), True, f'{what}: support from its {name}')
        close(MarkovChain.from_matrix(y.to_matrix(), L).p, y.p, f'{what}: twice from its {name}', rtol=2e-15 * n, atol=0)
    same(MarkovChain.from_matrix(m).states, [str(i + 1) for i in range(n)], 'default names')
    gen.tag_chain(case, ctx)
    ctx.interesting(np.any(p == 0) and case['states'] is not None)


@st.composite
def weights(draw):
    n = draw(gen.mostly(st.integers(2, 8), st.integers(9, 20), 15))
    scale = draw(st.sampled_from(['int', 'int', 'float', 'tiny', 'huge', 'mixed', 'count', 'extreme']))
    rows = []
    for _ in range(n):
        if draw(st.integers(0, 4)) == 0:
            rows.append([0] * n)
            continue
        w = draw(st.lists(st.integers(0, 9), min_size=n, max_size=n))
        keep = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        w = [a if k else 0 for a, k in zip(w, keep)]
        f = {'int': 1, 'float': 0.37, 'tiny': 10.0 ** -draw(st.integers(6, 12)), 'huge': 10.0 ** draw(st.integers(5, 9)), 'mixed': 10.0 ** draw(st.integers(-12, 9)), 'count': 1000, 'extreme': draw(st.sampled_from([1e-320, 1e-310, 1e-300, 1e-200, 1e200, 1e300, 1.9e307])) if scale == 'extreme' else 1}[scale]
        rows.append([a * f for a in w])
    return {'m': rows, 'scale': scale, 'states': draw(gen.labels(n)), 'form': draw(st.integers(0, 7)), 'order': draw(st.randoms(use_true_random=False)).randrange(2 ** 32)}


def shape(m, form, integer):
    import pandas as pd
    import scipy.sparse as sp
    a = np.array(m, dtype=int if integer else float)
    return [lambda: [list(r) for r in m], lambda: a, lambda: np.asfortranarray(a), lambda: np.array(a.T.tolist()).T, lambda: sp.csr_matrix(a), lambda: sp.coo_matrix(a), lambda: pd.DataFrame(a), lambda: a.astype(np.float32) if np.array_equal(a.astype(np.float32), a) else np.ascontiguousarray(a[::-1])[::-1]][form]()


def normal(m):
    n = len(m[0])
    out = []
    for r in m:
        s = sum(F(x) for x in r)
        out.append([float(F(x) / s) for x in r] if s else [1.0 / n] * n)
    return out


@R.law(weights(), 2400, 30000)
def normalised(case, ctx):
    """Matrices and graphs of nonnegative weights: every row divided by its sum, null rows uniform; scaling the rows changes nothing; the argument is left as it was."""
    from pydtmc import MarkovChain
    import networkx as nx
    import random
    m, n, L = case['m'], len(case['m']), case['states']
    ref = normal(m)
    integer = case['scale'] in ('int', 'count')
    x = shape(m, case['form'], integer)
    mc = MarkovChain.from_matrix(x, L)
    names = L or [str(i + 1) for i in range(n)]
    same(mc.states, names, 'names')
    close(mc.p, ref, f'from_matrix({m}) as form {case["form"]}', rtol=1e-13, atol=0)
    y = shape(m, case['form'], integer)
    back = x.toarray() if hasattr(x, 'toarray') else np.array(x)
    same(np.array_equal(back, y.toarray() if hasattr(y, 'toarray') else np.array(y)), True, 'the argument after the call')
    rng = random.Random(case['order'])
    # graph, edges in any order, null weights present or not
    for kind in (nx.DiGraph, nx.MultiDiGraph):
        g = kind()
        g.add_nodes_from(names)
        edges = [(i, j) for i in range(n) for j in range(n) if m[i][j] > 0 or rng.random() < 0.3]
        rng.shuffle(edges)
        for i, j in edges:
            g.add_edge(names[i], names[j], weight=m[i][j] if not rng.random() < 0.2 else np.float64(m[i][j]))
        size = g.number_of_edges()
        z = MarkovChain.from_graph(g)
        same(z.states, names, 'names of the nodes')
        close(z.p, ref, f'from_graph of {m}', rtol=1e-13, atol=0)
        same(g.number_of_edges(), size, 'the graph after the call')
    # nodes in the order of appearance
    g = nx.DiGraph()
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        g.add_node(names[i])
    for i, j in edges:
        g.add_edge(names[i], names[j], weight=m[i][j])
    z = MarkovChain.from_graph(g)
    same(z.states, [names[i] for i in order], 'order of the nodes')
    close(z.p, np.array(normal([[m[i][j] for j in order] for i in order])), f'from_graph of {m} in the order {order}', rtol=1e-13, atol=0)
    ctx.interesting(any(not any(r) for r in m) or case['scale'] not in ('int',))
    ctx.tag(case['scale'], f'form={case["form"]}', 'null row' if any(not any(r) for r in m) else 'no null row')


@R.law(st.tuples(gen.mostly(gen.chain(2, 7), gen.chain(8, 16), 15), st.integers(0, 2 ** 32)).map(lambda t: dict(t[0], order=t[1])), 1600, 20000)
def dictionaries(case, ctx):
    """Any key order defines the same law, named in the order of the diagonal keys; integers are accepted."""
    from pydtmc import MarkovChain
    import random
    L, n = gen.names(case), len(case['p'])
    rng = random.Random(case['order'])
    keys = [(i, j) for i in range(n) for j in range(n)]
    rng.shuffle(keys)
    d = {}
    for i, j in keys:
        v = case['p'][i][j]
        d[(L[i], L[j])] = int(v) if v in (0.0, 1.0) and rng.random() < 0.5 else (np.float64(v) if rng.random() < 0.3 else v)
    before = dict(d)
    mc = MarkovChain.from_dictionary(d)
    same(sorted(mc.states), sorted(L), 'names')
    same(list(d.items()) == list(before.items()), True, 'the dictionary after the call')
    perm = [mc.states.index(s) for s in L]
    same(np.array_equal(mc.p[np.ix_(perm, perm)], np.array(case['p'])), True, f'law of {d}: {mc.p.tolist()} {mc.states}')
    same(mc.states, [a for a, b in d if a == b], f'order of the states of {d}')
    ctx.interesting(n > 2)
    gen.tag_chain(case, ctx)


@R.law(st.tuples(gen.chain(2, 6), st.integers(0, 2 ** 20)).map(lambda t: dict(t[0], at=t[1])), 800, 8000)
def rejected(case, ctx):
    """Incomplete or invalid dictionaries, graphs and matrices."""
    from pydtmc import MarkovChain
    import networkx as nx
    mc = gen.build(case)
    L, n = gen.names(case), len(case['p'])
    i, j = case['at'] % n, (case['at'] // n) % n
    ctx.interesting(True)
    d = mc.to_dictionary()
    key = (L[i], L[j])
    fd, fm, fg = MarkovChain.from_dictionary, MarkovChain.from_matrix, MarkovChain.from_graph

    def without():
        e = dict(d)
        del e[key]
        return e
    expect_rejection(lambda: fd(without()), f'incomplete dictionary, without {key}')
    for v in (-0.1, 1.1, float('nan'), float('inf'), None, '0.5', 1j, True):
        expect_rejection(lambda: fd({**d, key: v}), f'dictionary with {v!r} at {key}')
    expect_rejection(lambda: fd({**d, key: (d[key] + 0.1 if d[key] <= 0.5 else d[key] - 0.1)}), f'dictionary whose row {L[i]} does not sum to one')
    expect_rejection(lambda: fd({**d, ('?unknown?', L[j]): 0.0}), 'dictionary with one more state')
    expect_rejection(lambda: fd({**d, ('?unknown?', '?unknown?'): 1.0}), 'dictionary with one more diagonal state')
    expect_rejection(lambda: fd({**d, (L[i], L[j], L[i]): 0.0}), 'dictionary with a longer key')
    expect_rejection(lambda: fd({**d, (L[i], 1): 0.0}), 'dictionary with an integer in a key')
    expect_rejection(lambda: fd({**d, L[i]: 0.0}), 'dictionary with a string key')
    for bad in ({}, None, [], list(d.items()), {('A', 'A'): 1.0}):
        expect_rejection(lambda: fd(bad), f'from_dictionary({bad!r})')
    for v in (-1.0, -1e-9, float('nan'), float('inf')):
        m = mc.to_matrix() * 3
        m[i, j] = v
        expect_validation_error(lambda: fm(m), f'matrix with {v} at {(i, j)}')
        g = mc.to_graph()
        g.add_edge(L[i], L[j], weight=v)
        expect_validation_error(lambda: fg(g), f'graph with the weight {v} at {key}')
    for v in (None, 'x', [1.0]):
        g = mc.to_graph()
        g.add_edge(L[i], L[j], weight=v)
        expect_validation_error(lambda: fg(g), f'graph with the weight {v} at {key}')
    g = nx.DiGraph(mc.to_graph())
    g.add_node('?other?')
    g.add_edge('?other?', L[i])
    expect_validation_error(lambda: fg(g), 'graph with an edge without weight')
    g = mc.to_graph()
    g.add_node(3)
    expect_validation_error(lambda: fg(g), 'graph with a node which is not a string')
    expect_validation_error(lambda: fg(nx.Graph(mc.to_graph())), 'undirected graph')
    one = nx.DiGraph()
    one.add_edge('A', 'A', weight=1.0)
    for bad in (nx.DiGraph(), one, None, d, mc.p.tolist()):
        expect_validation_error(lambda: fg(bad), f'from_graph({type(bad)})')
    P = mc.to_matrix()
    for bad in (P[:-1], P[:, :-1], P[:1, :1], P.ravel(), [P.tolist()], None, 'x', 1.0, [], [[]], [['a'] * n] * n, [[True] * n] * n, P > 0, d, tuple(map(tuple, P.tolist()))):
        expect_validation_error(lambda: fm(bad), f'from_matrix({str(bad)[:100]})')
    for S in (L[:-1], L + ['?unknown?'], [L[0]] * n, [1] * n, [''] * n, 'ab', tuple(L), dict.fromkeys(L)):
        expect_validation_error(lambda: fm(P, S), f'from_matrix with the names {S!r}')
