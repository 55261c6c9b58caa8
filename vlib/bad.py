"""Invalid values of every kind of argument, by name (a case holds the name), and valid values at the boundary."""
import pathlib
import networkx as nx
import numpy as np
import scipy.sparse as sp

NAN, INF = float('nan'), float('inf')


class Odd:
    """An object of no known type."""


def scalars(*, integers=(), floats=(), strings=(), none=True):
    """Values of the wrong type: each of the basic types which is not excluded, and some values out of range."""
    out = {f'int {x}': x for x in integers}
    out.update({f'float {x}': x for x in floats})
    out.update({f'string {x!r}': x for x in strings})
    if none:
        out['none'] = None
    out.update({'empty tuple': (), 'tuple': (0,), 'dict': {}, 'set': {0}, 'object': Odd(), 'class': Odd, 'bytes': b'0', 'complex': 1 + 0j})
    return out


def vectors(n, low=0.0, high=1.0, total=1.0):
    """Bad vectors of n numbers within [low, high] (None: no limit) with the given total (None: any)."""
    base = [(total if total is not None else (low if low is not None else 0.5))] + [0.0] * (n - 1)
    short, long = base[:-1], base + [0.0]

    def put(v, i=n - 1):
        x = list(base)
        x[i] = v
        return x
    out = {'short': short, 'long': long, 'empty': [], 'nan': put(NAN), 'inf': put(INF), 'minus inf': put(-INF), 'column': np.array(base).reshape(-1, 1), 'square': np.tile(np.array(base), (n, 1)), 'three dimensions': np.array(base).reshape(1, 1, -1), 'strings': ['a'] * n, 'strings of numbers': [str(x) for x in base],
           'nones': [None] * n, 'tuple': tuple(base), 'complex': np.array(base) + 1j, 'ragged': [base, short], 'none inside': put(None), 'zero dimensions': np.array(0.5), 'objects': np.array([Odd()] * n), 'short array': np.array(short), 'long sparse': sp.csr_matrix([long]), 'empty array': np.zeros(0), 'dict': {i: x for i, x in enumerate(base)}, 'bools': [True] + [False] * (n - 1), 'bool array': np.array([True] + [False] * (n - 1)), 'generator of numbers': range(n), 'dates': np.array(['2020-01-01'] * n, dtype='datetime64[D]')}
    if low is not None:
        out['negative'] = [1.25, -0.25] + [0.0] * (n - 2) if total is not None else put(low - 0.25)
        out['slightly negative'] = [1.0, -1e-6] + [0.0] * (n - 2) if total is not None else put(low - 1e-6)
        out['negative last'] = put(-0.25)
    if high is not None:
        out['high'] = [1.25] + [0.0] * (n - 1) if total is not None else put(high + 0.25)
        out['slightly high'] = put(high + 1e-6, 0)
    if total is not None:
        out['low total'] = [0.5] + [0.0] * (n - 1)
        out['slightly low total'] = [1.0 - 1e-3] + [0.0] * (n - 1)
        out['high total'] = [0.75, 0.75] + [0.0] * (n - 2)
        out['zeros'] = [0.0] * n
    return out


def matrices(r, c, stochastic=True, low=0.0, high=1.0, nan=False):
    base = [[1.0] + [0.0] * (c - 1) for _ in range(r)]

    def put(v, i=None, j=None, w=None):
        x = [list(y) for y in base]
        x[r - 1 if i is None else i][c - 1 if j is None else j] = v
        if w is not None:
            x[r - 1][0] = w
        return x
    out = {'rows missing': base[:-1], 'columns missing': [y[:-1] for y in base], 'rows more': base + base[:1], 'columns more': [y + [0.0] for y in base], 'empty': [], 'empty rows': [[]] * r, 'ragged': base[:-1] + [base[-1][:-1]], 'vector': [x for y in base for x in y], 'three dimensions': [base], 'inf': put(INF), 'minus inf': put(-INF),
           'strings': [['a'] * c] * r, 'strings of numbers': [[str(x) for x in y] for y in base], 'nones': [[None] * c] * r, 'complex': np.array(base) + 1j, 'none': None, 'number': 0.5, 'string': 'a', 'object': Odd(), 'tuple of tuples': tuple(tuple(y) for y in base), 'bools': [[x > 0 for x in y] for y in base], 'dict': {0: base}, 'one row': base[:1] if r > 1 else []}
    if low is not None:
        out['negative'] = put(-0.25, w=1.25) if stochastic else put(low - 0.25)
        out['slightly negative'] = put(low - 1e-6)
    if high is not None:
        out['high'] = put(1.25, 0, 0)
        out['slightly high'] = put(1.0 + 1e-6, 0, 0)
    if stochastic:
        out['low total'] = put(0.5, r - 1, 0)
        out['slightly low total'] = put(1.0 - 1e-3, r - 1, 0)
        out['high total'] = put(0.5)
        out['null row'] = base[:-1] + [[0.0] * c]
        out['columns sum'] = [[1.0] * c] + [[0.0] * c] * (r - 1)
    if not nan:
        out['nan'] = put(NAN)
    return out


def labelled(L, strict=None, minimum=1):
    """Bad sets of labels; strict: the full set is not allowed."""
    n = len(L)
    out = {'empty': [], 'high': [0, n], 'negative': [-1, 0], 'unknown': [L[0], absent(L)], 'unknown first': [absent(L), L[0]], 'mixed': [0, L[-1]], 'mixed names first': [L[0], n - 1], 'twice': [0, 1, 0], 'twice by name': [L[0], L[-1], L[0]], 'floats': [0.0, 1.0], 'tuple': (0, 1), 'set': {0, 1}, 'array': np.array([0, 1]), 'none inside': [0, None], 'bools': [True, False], 'nested': [[0, 1]],
           'blank': [L[0], ' '], 'empty string': [L[0], ''], 'dict': {0: 1}, 'object': Odd(), 'float': 1.0, 'nan': NAN, 'bool': True, 'high number': n, 'negative number': -1, 'unknown name': absent(L), 'blank name': ' ', 'empty name': '', 'numpy float': np.float64(0.0), 'generator': range(2)}
    if strict:
        out['all'] = list(range(n))
        out['all by name'] = list(L)
    if minimum > 1:
        out.update({'one': [0], 'one by name': [L[-1]], 'one number': 0, 'one name': L[0]})
    return out


def absent(L):
    x = '?'
    while x in L:
        x += '?'
    return x


def sequence(L):
    n = len(L)
    return {'empty': [], 'one': [0], 'one by name': [L[0]], 'none': None, 'tuple': (0, 1), 'array': np.array([0, 1]), 'high': [0, n, 0], 'high first': [n, 0], 'negative': [0, -1, 0], 'unknown': [L[0], absent(L)], 'unknown first': [absent(L), L[0]], 'mixed': [0, L[1]], 'mixed names first': [L[0], 1, L[1]], 'floats': [0.0, 1.0], 'float last': [0, 1, 1.0], 'bools': [False, True], 'string': L[0] + L[1], 'number': 1, 'nested': [[0, 1], [1, 0]],
            'none inside': [0, None, 1], 'blank': [L[0], ' '], 'empty string': ['', L[0]], 'dict': {0: 1, 1: 0}, 'nan': [0, NAN], 'set': {0, 1}, 'generator': range(2), 'object': Odd()}


def names(L, size=None):
    n = len(L)
    out = {'one': L[:1], 'empty': [], 'tuple': tuple(L), 'array': np.array(L), 'twice': L[:-1] + [L[0]], 'all the same': [L[0]] * n, 'numbers': list(range(n)), 'number last': L[:-1] + [n], 'blank': L[:-1] + [' '], 'empty string': [''] + L[1:], 'tab': L[:-1] + ['\t'], 'none inside': L[:-1] + [None], 'string': ''.join(L), 'number': n, 'bytes': [x.encode() for x in L], 'nested': [L], 'dict': {x: 1 for x in L}, 'object': Odd(), 'nan': L[:-1] + [NAN], 'true': True}
    if size is not None:
        out.update({'short': L[:-1], 'long': L + [absent(L)]})
    else:
        out['none'] = None
    return out


def integer(lo, hi):
    out = scalars(integers=[lo - 1, lo - 10], floats=[float(lo), lo + 0.5, NAN, INF], strings=['', 'x', str(lo)])
    out.update({'list': [lo], 'bool': True, 'numpy float': np.float64(lo), 'array': np.array([lo]), 'low numpy': np.int64(lo - 1)})
    if hi is not None:
        out.update({'high': hi + 1, 'very high': hi + 1000, 'high numpy': np.int64(hi + 1)})
    return out


def floating(lo, lostrict, hi, histrict):
    some = lo + 0.5 if lo is not None else 0.5
    out = scalars(floats=[NAN, INF, -INF], strings=['', 'x', str(some)])
    out.update({'int': 1, 'numpy int': np.int64(1), 'list': [some], 'bool': True, 'array': np.array([some])})
    if lo is not None:
        out.update({'low': lo - 0.5, 'slightly low': lo - 1e-9, 'low numpy': np.float64(lo - 1.0)})
        if lostrict:
            out['lower limit'] = lo
    if hi is not None:
        out.update({'high': hi + 0.5, 'slightly high': hi + 1e-9})
        if histrict:
            out['upper limit'] = hi
    return out


def parts(L):
    n = len(L)
    x = list(range(n))
    return {'none': None, 'empty': [], 'one group': [x], 'one group by name': [list(L)], 'all the states apart': [[i] for i in x], 'a state missing': [x[:1], x[1:-1]] if n > 2 else [x[:1]], 'a state more': [x[:1], x[1:] + [n]], 'a state twice': [x[:2], x[1:]], 'order': [x[1:], x[:1]], 'order within': [x[:1], x[:0:-1]] if n > 2 else [x], 'negative': [[-1], x[1:]], 'names and numbers': [[L[0]], x[1:]], 'unknown': [[absent(L)], L[1:]], 'tuples': [tuple(x[:1]), tuple(x[1:])], 'tuple': (x[:1], x[1:]), 'floats': [[0.0], [float(i) for i in x[1:]]],
            'flat': x, 'none inside': [[None], x[1:]], 'bools': [[False], [True] + x[2:]], 'number': 2, 'string': 'ab', 'object': Odd(), 'dict': {0: x}, 'arrays': [np.array(x[:1]), np.array(x[1:])], 'more groups than states': [[i] for i in x] + [[0]], 'nested': [[[0]], x[1:]]}


def path(tmp, write):
    out = {'none': None, 'empty': '', 'blank': ' ', 'number': 5, 'float': 1.5, 'list': ['model.csv'], 'bytes': b'model.csv', 'object': Odd(), 'bool': True, 'extension': tmp + '/model.docx', 'no extension': tmp + '/model', 'hidden': tmp + '/.csv', 'path extension': pathlib.Path(tmp) / 'model.pkl', 'final dot': tmp + '/model.csv.', 'near extension': tmp + '/model.csvx', 'two extensions': tmp + '/model.csv.gz'}
    if write:
        out.update({'directory missing': tmp + '/missing/model.csv', 'path directory missing': pathlib.Path(tmp) / 'missing' / 'model.json', 'directory': tmp + '/folder.csv'})
    else:
        out.update({'missing': tmp + '/missing.csv', 'directory': tmp + '/folder.csv', 'empty file': tmp + '/empty.json'})
    return out


def chains(n, other=None):
    from pydtmc import MarkovChain, HiddenMarkovModel
    out = {'none': None, 'matrix': np.eye(n), 'list': np.eye(n).tolist(), 'hidden': HiddenMarkovModel(np.eye(2), np.eye(2)), 'number': 1.0, 'string': 'chain', 'class': MarkovChain, 'chains': [MarkovChain(np.eye(n))], 'object': Odd(), 'dict': {}}
    if other:
        out.update({'larger': MarkovChain(np.eye(n + 1)), 'smaller': MarkovChain(np.eye(n - 1)) if n > 2 else MarkovChain(np.eye(4))})
    return out


def function():
    return {'none': None, 'number': 1.0, 'string': 'f', 'class': Odd, 'no arguments': lambda: 1.0, 'three arguments': lambda x_index, x_value, y_index: 1.0, 'five arguments': lambda x_index, x_value, y_index, y_value, z: 1.0, 'other names': lambda a, b, c, d: 1.0, 'one other name': lambda x_index, x_value, y_index, y: 1.0, 'raises': lambda x_index, x_value, y_index, y_value: 1 / 0, 'gives none': lambda x_index, x_value, y_index, y_value: None, 'gives nan': lambda x_index, x_value, y_index, y_value: NAN,
            'gives inf': lambda x_index, x_value, y_index, y_value: INF, 'gives a string': lambda x_index, x_value, y_index, y_value: '1', 'gives complex': lambda x_index, x_value, y_index, y_value: 1j, 'list': [1], 'object': Odd(), 'gives an array': lambda x_index, x_value, y_index, y_value: np.array([1.0, 2.0])}


def dictionary(attributes, S, Y):
    if attributes is None:
        k = lambda a, b: (a, b)  # noqa
        base = {(a, b): (1.0 if a == b else 0.0) for a in S[:2] for b in S[:2]}
    else:
        k = lambda a, b: ('P', a, b)  # noqa
        base = {('P', a, b): (1.0 if a == b else 0.0) for a in S[:2] for b in S[:2]}
        base.update({('E', a, b): (1.0 if b == Y[0] else 0.0) for a in S[:2] for b in Y[:2]})

    def put(key, v):
        d = dict(base)
        d[key] = v
        return d

    def drop(key):
        d = dict(base)
        del d[key]
        return d
    a, b = S[:2]
    out = {'none': None, 'empty': {}, 'list': list(base.items()), 'number': 1.0, 'string': 'x', 'matrix': np.eye(2), 'missing': drop(k(a, b)), 'missing diagonal': drop(k(b, b)), 'other name': put(k(a, absent(S)), 0.0), 'negative': put(k(a, b), -0.25), 'high': put(k(a, a), 1.25), 'nan': put(k(a, b), NAN), 'inf': put(k(a, b), INF), 'string value': put(k(a, b), '0'), 'none value': put(k(a, b), None), 'complex value': put(k(a, b), 0j), 'list value': put(k(a, b), [0.0]), 'bool value': put(k(a, b), False),
           'flat keys': {x: 0.5 for x in S[:2]}, 'number keys': {k(0, 0): 1.0, k(0, 1): 0.0, k(1, 0): 0.0, k(1, 1): 1.0}, 'empty name': put(k(a, ''), 0.0), 'blank name': put(k(' ', a), 0.0), 'long key': put(k(a, b) + (a,), 0.0), 'short key': put(k(a, b)[:-1], 0.0), 'number key': put(0, 0.0), 'low total': put(k(a, a), 0.5), 'high total': put(k(a, b), 0.5), 'one state': {k(a, a): 1.0}, 'object': Odd()}
    if attributes is not None:
        out.update({'unknown attribute': put(('X', a, b), 0.0), 'missing emission': drop(('E', a, Y[0])), 'negative emission': put(('E', a, Y[1]), -0.25), 'emission total': put(('E', a, Y[1]), 0.5), 'no emissions': {x: v for x, v in base.items() if x[0] == 'P'}, 'no transitions': {x: v for x, v in base.items() if x[0] == 'E'}, 'one symbol': {x: v for x, v in base.items() if x[0] == 'P' or x[2] == Y[0]}, 'emission of an unknown state': put(('E', absent(S), Y[0]), 0.0)})
    return out


def graph(layers, S, Y):
    def new(cls=nx.DiGraph):
        g = cls()
        if layers:
            g.add_nodes_from(S[:2], layer=1)
            g.add_nodes_from(Y[:2], layer=0)
            g.add_edge(S[0], Y[0], weight=1.0, type='E')
            g.add_edge(S[1], Y[1], weight=1.0, type='E')
            g.add_edge(S[0], S[1], weight=1.0, type='P')
            g.add_edge(S[1], S[0], weight=1.0, type='P')
        else:
            g.add_weighted_edges_from([(S[0], S[1], 1.0), (S[1], S[0], 1.0)])
        return g

    def edge(**d):
        g = new()
        g.add_edge(S[0], S[1], **d)
        return g

    def without(key):
        g = new()
        del g[S[0]][S[1]][key]
        return g
    single = nx.DiGraph()
    single.add_edge(S[0], S[0], weight=1.0, type='P')
    numbers = nx.DiGraph()
    numbers.add_weighted_edges_from([(0, 1, 1.0), (1, 0, 1.0)])
    blank = new()
    blank.add_node(' ', layer=1)
    out = {'none': None, 'empty': nx.DiGraph(), 'undirected': new(nx.Graph), 'undirected multiple': new(nx.MultiGraph), 'class': nx.DiGraph, 'matrix': np.eye(2), 'number': 1, 'string': 'graph', 'dict': {S[0]: {S[1]: 1.0}}, 'one node': single, 'numbers': numbers, 'blank name': blank, 'negative': edge(weight=-1.0), 'nan': edge(weight=NAN), 'inf': edge(weight=INF), 'no weight': without('weight'), 'string weight': edge(weight='1'), 'none weight': edge(weight=None), 'list weight': edge(weight=[1.0]), 'complex weight': edge(weight=1j), 'object': Odd()}
    if layers:
        nolayer, third, text, one, nosymbol = new(), new(), new(), new(), new()
        del nolayer.nodes[S[0]]['layer']
        third.add_node('other', layer=2)
        text.add_node('other', layer='1')
        one.remove_node(Y[1])
        nosymbol.remove_nodes_from(Y[:2])
        out.update({'no layer': nolayer, 'third layer': third, 'text layer': text, 'one symbol': one, 'no symbols': nosymbol, 'no type': without('type'), 'unknown type': edge(type='X'), 'none type': edge(type=None)})
    return out


def values(t, n, k, S, Y, tmp, static=False):
    """Invalid values for an argument of that kind (of vlib.calls or vlib.statics)."""
    h = t[0]
    if h in ('state', 'symbol'):
        L = S if h == 'state' else Y
        out = scalars(integers=[len(L), -1, 10 ** 6, -10 ** 6], floats=[0.0, 1.0, NAN], strings=['', ' ', absent(L)])
        out.update({'list': [0], 'list by name': [L[0]], 'bool': True, 'false': False, 'array': np.array([0]), 'numpy float': np.float64(0), 'numpy high': np.int64(len(L))})
        return out
    if h == 'states':
        return dict(labelled(S, t[1]), none=None)
    if h in ('states2', 'symbols2'):
        return labelled(S if h == 'states2' else Y, True, 2)
    if h in ('seq', 'symseq'):
        L = (S if t[1] == 'S' else Y) if len(t) > 1 else (S if h == 'seq' else Y)
        return sequence(L)
    if h == 'seqs':
        L = S if t[1] == 'S' else Y
        good = [0, 1, 1]
        out = {f'second {a}': [good, x] for a, x in sequence(L).items()}
        out.update({f'first {a}': [x, good] for a, x in sequence(L).items() if a in ('empty', 'one', 'high', 'unknown', 'mixed', 'tuple', 'none')})
        out.update({'empty': [], 'one': [good], 'none': None, 'tuple': (good, good), 'number': 1, 'string': 'ab', 'array': np.array([good, good]), 'object': Odd(), 'dict': {0: good, 1: good}})
        if t[2]:
            out.update({a: x for a, x in sequence(L).items() if a not in ('nested', 'tuple', 'array')})
        else:
            out.update({'flat': good, 'flat by name': [L[0], L[1]]})
        return out
    if h == 'dist':
        return dict(vectors(n), string='a', number=1.0, name=S[0], object=Odd())
    if h == 'status':
        L = S
        return dict(vectors(len(L)), float=1.0, nanvalue=NAN, high_state=len(L), negative_state=-1, unknown=absent(L), blank=' ', empty_name='', bool=True, object=Odd(), one=[0] if len(L) != 1 else [])
    if h == 'rewards':
        return dict(vectors(n, None, None, None), none=None, number=1.0, string='a', object=Odd())
    if h == 'vector':
        out = dict(vectors(n, 0.0, 1.0, None), none=None, number=1.0, string='a', object=Odd())
        first = t[1] == 'annihilation'
        out['end'] = ([0.5] + [0.0] * (n - 1)) if first else ([0.0] * (n - 1) + [0.5])
        for a in ('short', 'long', 'short array', 'long sparse'):
            out[a] = [0.0] * (n - 1 if 'short' in a else n + 1)
        return out
    if h == 'weights' and len(t) == 1:
        out = dict(vectors(n, 0.0, 1.0, None), none=None, string='a', object=Odd(), negative_number=-0.25, high_number=1.25, nan_number=NAN, inf_number=INF, two=2, minus=-1, bool=True)
        del out['zero dimensions']
        return dict(out, complex_number=1j)
    if h == 'int':
        return integer(t[1], n - 1 if t[2] == 'n-1' else t[2])
    if h == 'float':
        return floating(*t[1:]) if len(t) == 5 else floating(t[1], True, t[2], True)
    if h == 'bool':
        return dict(scalars(integers=[0, 1], floats=[0.0, 1.0], strings=['', 'True', 'x']), list=[True], array=np.array([True, False]))
    if h == 'enum':
        out = scalars(integers=[0, 1], floats=[1.0], strings=['', ' ', 'x', t[1].upper(), t[1] + ' ', t[1][:-1]])
        return dict(out, list=[t[1]], bool=True)
    if h == 'seed':
        out = scalars(integers=[-1, 2 ** 32, 2 ** 40], floats=[1.0, 1.5, NAN], strings=['', 'x', '1'], none=False)
        return dict(out, list=[1], bool=True, array=np.array([1]), generator=np.random.RandomState(1))
    if h == 'times':
        return {'none': None, 'negative': -1, 'negative inside': [1, -1], 'empty': [], 'twice': [0, 1, 0], 'float': 1.0, 'float inside': [0, 1.0], 'string': '1', 'string inside': ['1'], 'tuple': (0, 1), 'array': np.array([0, 1]), 'bool': True, 'bool inside': [True], 'nan': NAN, 'none inside': [None], 'nested': [[0]], 'set': {1}, 'generator': range(3), 'object': Odd(), 'dict': {1: 1}}
    if h == 'partitions':
        return parts(S)
    if h == 'chain':
        return chains(n, not static)
    if h == 'boundary':
        return dict(scalars(integers=[2, -1], floats=[-0.25, 1.25, 1 + 1e-9, -1e-9, NAN, INF, -INF], strings=['', ' ', 'x', 'Absorbing', 'reflect', '0.5']), list=[0.5], bool=True, array=np.array([0.5]), numpy=np.float64(1.5))
    if h == 'path':
        return path(tmp, True)
    if h == 'file':
        return path(tmp, False)
    if h == 'names':
        return names((S if t[2] == 'S' else Y)[:t[1]], t[1])
    if h == 'matrix':
        out = matrices(n, n)
        return out if t[1] is not None else {a: x for a, x in out.items()}
    if h == 'emission':
        out = matrices(t[1], k)
        if t[2] is None:
            out = {a: x for a, x in out.items() if a not in ('columns more',) and not (a == 'columns missing' and k > 2)}
        return out
    if h == 'hyper':
        out = matrices(n, n, stochastic=False, low=None, high=None)
        out = {a: (np.array(x) + 1.0 if a in ('rows missing', 'columns missing', 'rows more', 'columns more', 'one row') else x) for a, x in out.items()}
        one = [[1.0] * n for _ in range(n)]
        for a, v in (('zero', 0.0), ('half', 1.5), ('negative', -1.0), ('nan', NAN), ('inf', INF)):
            x = [list(r) for r in one]
            x[n - 1][0] = v
            out[a] = x
        return dict(out, bool=True)
    if h == 'mask':
        out = matrices(t[1], t[2], stochastic=False, nan=True)
        free = [[NAN] * t[2] for _ in range(t[1])]
        x = [list(r) for r in free]
        x[0][0], x[0][-1] = 0.75, 0.75
        y = [list(r) for r in free]
        y[-1] = [0.5] + [0.0] * (t[2] - 1)
        return dict(out, high_total=x, low_total=y)
    if h == 'weights':
        return matrices(t[1] or n, (t[2] or k) if t[1] else n, stochastic=False, high=None) if t[1] is None else {a: x for a, x in matrices(t[1], k, stochastic=False, high=None).items() if a != 'columns more' and not (a == 'columns missing' and k > 2)}
    if h == 'function':
        return function()
    if h == 'interval':
        return {'list': [0.0, 1.0], 'one': (0.0,), 'three': (0.0, 1.0, 2.0), 'empty': (), 'order': (1.0, 0.0), 'equal': (1.0, 1.0), 'negative': (-1.0, 1.0), 'nan': (0.0, NAN), 'inf': (0.0, INF), 'strings': ('0', '1'), 'number': 1.0, 'none inside': (None, 1.0), 'array': np.array([0.0, 1.0]), 'string': 'ab', 'bools': (False, True), 'object': Odd(), 'complex': (0j, 1j)}
    if h == 'distribution':
        return {'none': None, 'empty': '', 'unknown': 'unknown', 'not a distribution': 'seed', 'not a distribution either': 'shuffle', 'choice': 'choice', 'private': '_bit_generator', 'number': 1, 'function': abs, 'lambda': (lambda x: x), 'list': ['normal'], 'other function': np.random.seed, 'object': Odd()}
    if h == 'dictionary':
        return dictionary(t[1], S, Y)
    if h == 'graph':
        return graph(t[1], S, Y)
    raise KeyError(t)


def edges(t, n, k, S, Y, static=False):
    """Valid values at the boundary of the admissible ones."""
    h = t[0]
    L = Y if h in ('symbol', 'symbols2', 'symseq') or len(t) > 1 and t[1] == 'Y' else S
    m = len(L) if L else 0
    if h in ('state', 'symbol'):
        return {'first': 0, 'last': m - 1, 'first name': L[0], 'last name': L[-1], 'numpy': np.int32(m - 1), 'numpy unsigned': np.uint8(0)}
    if h == 'states':
        out = {'one': 0, 'last': m - 1, 'name': L[-1], 'list of one': [m - 1], 'most': list(range(m - 1, 0, -1)), 'numpy': [np.int64(0)], 'numpy one': np.int64(m - 1)}
        if not t[1]:
            out.update({'all': list(range(m)), 'all by name': L[::-1]})
        return out
    if h in ('states2', 'symbols2'):
        return {} if m < 3 else {'two': [m - 1, 0], 'most': L[1:]}
    if h in ('seq', 'symseq'):
        return {'two': [0, 0], 'two last': [m - 1, m - 1], 'names': [L[-1], L[0]], 'numpy': [np.int64(0), np.int16(m - 1)], 'long': [0, m - 1] * 100}
    if h in ('dist', 'status'):
        out = {'unit': [1.0] + [0.0] * (n - 1), 'unit last': [0] * (n - 1) + [1], 'uniform': [1.0 / n] * n, 'nearly one': [1.0 - 1e-9] + [0.0] * (n - 1), 'row': np.array([[1.0] + [0.0] * (n - 1)])}
        if h == 'status':
            out.update({'first': 0, 'last': n - 1, 'name': S[-1], 'numpy': np.int64(n - 1)})
        return out
    if h == 'rewards':
        return {'zeros': [0] * n, 'large': [1e10, -1e10] + [0.0] * (n - 2), 'row': np.ones((1, n))}
    if h == 'weights' and len(t) == 1:
        return {'zero': 0, 'one': 1, 'float zero': 0.0, 'float one': 1.0, 'numpy': np.float32(0.5), 'vector': [0.0] + [1.0] * (n - 1)}
    if h == 'int':
        hi = n - 1 if t[2] == 'n-1' else t[2]
        out = {'low': t[1], 'numpy': np.int8(t[1]), 'unsigned': np.uint16(t[1])}
        if hi is not None:
            out['high'] = hi
        return out
    if h == 'float':
        lo, ls, hi, hs = t[1:] if len(t) == 5 else (t[1], True, t[2], True)
        out = {}
        if lo is not None:
            out.update({'low': lo + 1e-6, 'numpy': np.float64(lo + 1e-6)} if ls else {'lower limit': lo, 'numpy': np.float64(lo)})
        if hi is not None:
            out.update({'high': hi - 1e-6} if hs else {'upper limit': hi})
        return out
    if h == 'bool':
        return {'true': True, 'false': False}
    if h == 'enum':
        return {x: x for x in t[1:]}
    if h == 'seed':
        return {'zero': 0, 'high': 2 ** 32 - 1, 'numpy': np.uint32(2 ** 32 - 1)}
    if h == 'times':
        return {'zero': 0, 'list of zero': [0], 'numpy': np.int64(2), 'order': [5, 0, 2], 'numpy inside': [np.int64(1), 0]}
    if h == 'boundary':
        return {'zero': 0, 'one': 1, 'float zero': 0.0, 'float one': 1.0, 'numpy': np.float64(0.5), 'absorbing': 'absorbing', 'reflecting': 'reflecting'}
    if h == 'interval':
        return {'zero': (0, 1), 'close': (1.0, 1.0 + 1e-6), 'numpy': (np.float64(0.5), np.int64(2))}
    if h == 'partitions':
        return {'two': [[0], list(range(1, n))], 'most': [[i] for i in range(n - 2)] + [[n - 2, n - 1]], 'names': [S[:-1], S[-1:]]} if n > 2 else {}
    return {}
