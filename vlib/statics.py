"""The static operations (constructors by name, fits, random models, assessments) as a grammar of calls, like vlib.calls: a case holds, for each
argument given, its kind and value, so that it can be realised by name or index, in any container, with other names, or be corrupted."""
import os
import networkx as nx
import numpy as np
from hypothesis import strategies as st
from vlib import forms, gen

OPERATIONS = {
    'mc': ['approximation', 'birth_death', 'dirichlet_process', 'fit_function', 'fit_sequence', 'from_dictionary', 'from_file', 'from_graph', 'from_matrix', 'gamblers_ruin', 'identity', 'population_genetics_model', 'random', 'random_distribution', 'urn_model', 'MarkovChain'],
    'hmm': ['estimate', 'fit', 'from_dictionary', 'from_file', 'from_graph', 'from_matrices', 'random', 'HiddenMarkovModel'],
    'fn': ['assess_first_order', 'assess_homogeneity', 'assess_markov_property', 'assess_stationarity', 'assess_theoretical_compatibility'],
}
ALL = [(c, op) for c in OPERATIONS for op in OPERATIONS[c]]
FUNCTIONS = {
    'gauss': lambda x_index, x_value, y_index, y_value: float(np.exp(-(y_value - 0.5 * x_value) ** 2)),
    'index': lambda x_index, x_value, y_index, y_value: 1.0 + x_index + 2.0 * y_index,
    'step': lambda x_index, x_value, y_index, y_value: 1.0 if y_value >= x_value else 0.0,
    'lower': lambda x_index, x_value, y_index, y_value: max(0.0, y_value - 0.5),
}
DISTRIBUTIONS = {'uniform': {}, 'normal': {'loc': 0.0, 'scale': 2.0}, 'exponential': {'scale': 3.0}, 'gamma': {'shape': 2.0}, 'beta': {'a': 2.0, 'b': 5.0}, 'poisson': {'lam': 3.0}, 'binomial': {'n': 6, 'p': 0.5}}


def _arr(draw, v):
    return draw(st.sampled_from(forms.forms(np.array(v, dtype=float), forms.MATRIX)))


def _vec(draw, v):
    return draw(st.sampled_from(forms.forms(np.array(v, dtype=float), forms.VECTOR)))


def _mask(draw, r, c):
    out = []
    for _ in range(r):
        row, left = [], 4
        for _ in range(c):
            x = draw(st.sampled_from([None, None, None, 0, 1]))
            if x is not None and x <= left:
                left -= x
                row.append(x / 4)
            else:
                row.append(None)
        if all(x is not None for x in row):
            row[draw(st.integers(0, c - 1))] = None
        out.append(row)
    return out


def _positive(draw, r, c):
    v = draw(st.lists(st.lists(st.integers(1, 5), min_size=c, max_size=c), min_size=r, max_size=r))
    return [[x / sum(row) for x in row] for row in v]


def _weights(draw, r, c):
    return draw(st.lists(st.lists(st.sampled_from([0.0, 0.0, 0.25, 1.0, 2.0, 3.5, 1e-3, 40.0]), min_size=c, max_size=c), min_size=r, max_size=r))


@st.composite
def call(draw, cls=None, op=None, exclude=()):
    """A static call."""
    if op is None:
        cls, op = draw(st.sampled_from([x for x in ALL if x not in exclude and (cls is None or x[0] == cls)]))
    opt = lambda: draw(st.integers(0, 3)) > 0  # noqa
    A = {}
    n = draw(st.integers(2, 5))
    k = draw(st.integers(2, 4))
    by = draw(st.booleans())
    S = draw(gen.labels(max(n + 4, 9), none=False))  # some operations need more names than n
    Y = draw(gen.labels(k, none=False, prefix=draw(st.sampled_from(['y', 'y', '']))))
    if set(S) & set(Y) or cls == 'hmm' and set(Y) & {f'P{i}' for i in range(9)} or cls == 'hmm' and set(S) & {f'E{i}' for i in range(9)}:
        Y = ['y' + y for y in Y]
        S = ['x' + x for x in S]

    def put(arg, kind, v, **how):
        A[arg] = dict({'kind': kind, 'v': v}, **how)

    def names(name='states', size=None, required=False):
        if required or opt():
            put(name, ['names', size or n, 'S'], S[:size or n])
            return
    seq = lambda m: draw(gen.indices(m, 2, 10))  # noqa
    seed = lambda: put('seed', ['seed'], draw(st.integers(0, 2 ** 32 - 1)))  # noqa
    if cls == 'mc':
        if op == 'approximation':
            t = draw(st.sampled_from(['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey']))
            put('size', ['int', 2, None], n)
            put('approximation_type', ['enum', 'adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'], t)
            put('alpha', ['float', None, False, None, False], draw(st.sampled_from([0.0, 0.5, -2.0])))
            put('sigma', ['float', 0.0, True, None, False], draw(st.sampled_from([0.25, 1.0, 3.0])))
            more = t.startswith('tauchen') and opt()
            strict = t == 'adda-cooper' or t == 'tauchen-hussey' and not more
            put('rho', ['float', -1.0, strict, 1.0, strict], draw(st.sampled_from([0.0, 0.5, -0.75, 0.9])))
            names()
            if more:
                put('k', ['float', 1.0, False, None, False] if t == 'tauchen' else ['float', 0.0, True, None, False], draw(st.sampled_from([1.0, 1.5, 3.0])))
        elif op == 'birth_death':
            p = draw(st.lists(st.sampled_from([0.0, 0.25, 0.5]), min_size=n, max_size=n))
            q = draw(st.lists(st.sampled_from([0.0, 0.25, 0.5]), min_size=n, max_size=n))
            p[-1] = q[0] = 0.0
            put('p', ['vector', 'creation', n], p, form=_vec(draw, p))
            put('q', ['vector', 'annihilation', n], q, form=_vec(draw, q))
            names()
        elif op == 'dirichlet_process':
            put('size', ['int', 2, None], n)
            put('diffusion_factor', ['int', 1, n], draw(st.integers(1, n)))
            names()
            if opt():
                put('diagonal_bias_factor', ['float', 0.0, True, None, False], draw(st.sampled_from([0.5, 1.0, 3.0])))
            if opt():
                put('shift_concentration', ['bool'], draw(st.booleans()))
            seed()
        elif op == 'fit_function':
            t = draw(st.sampled_from(['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']))
            n = 2 * ((n - 1) // 2) + 3 if t == 'simpson-rule' else n
            put('quadrature_type', ['enum', 'gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule'], t)
            names('possible_states', n, required=True)
            put('f', ['function'], draw(st.sampled_from(sorted(FUNCTIONS))))
            if opt():
                a = draw(st.sampled_from([0, 0.0, 1.0, 2]))
                put('quadrature_interval', ['interval'], [a, a + draw(st.sampled_from([1, 0.5, 3.0]))])
        elif op == 'fit_sequence':
            t = draw(st.sampled_from(['map', 'mle']))
            put('fitting_type', ['enum', 'map', 'mle'], t)
            names('possible_states', required=True)
            put('sequence', ['seq', 'S'], seq(n), name=by)
            if opt():
                if t == 'mle':
                    put('fitting_param', ['bool'], draw(st.booleans()))
                else:
                    v = [[float(x) for x in r] for r in draw(st.lists(st.lists(st.integers(1, 5), min_size=n, max_size=n), min_size=n, max_size=n))]
                    put('fitting_param', ['hyper', n], v, form=_arr(draw, v))
        elif op == 'from_dictionary':
            put('d', ['dictionary', None], draw(gen.matrix(n, n))['p'])
        elif op == 'from_file':
            put('file_path', ['file'], draw(gen.matrix(n, n))['p'], ext=draw(st.sampled_from(['.csv', '.json', '.txt', '.xml'])))
        elif op == 'from_graph':
            put('graph', ['graph', None], _weights(draw, n, n), multi=draw(st.booleans()))
        elif op == 'from_matrix':
            v = _weights(draw, n, n)
            put('m', ['weights', None, None], v, form=_arr(draw, v))
            names()
        elif op == 'gamblers_ruin':
            n = max(3, n)
            put('size', ['int', 3, None], n)
            put('w', ['float', 0.0, True, 1.0, True], draw(st.sampled_from([0.25, 0.5, 0.9])))
            names(size=n)
        elif op == 'identity':
            put('size', ['int', 2, None], n)
            names()
        elif op == 'population_genetics_model':
            put('model', ['enum', 'moran', 'wright-fisher'], draw(st.sampled_from(['moran', 'wright-fisher'])))
            put('n', ['int', 2, 500], n)
            if opt():
                put('s', ['float', -1.0, False, None, False], draw(st.sampled_from([0.0, -1.0, 0.5, 2.0])))
            if opt():
                put('u', ['float', 0.0, False, 1.0, False], draw(st.sampled_from([0.0, 1e-3, 0.5, 1.0])))
            if opt():
                put('v', ['float', 0.0, False, 1.0, False], draw(st.sampled_from([0.0, 1e-3, 0.5, 1.0])))
            names(size=n + 1)
        elif op == 'random':
            put('size', ['int', 2, None], n)
            names()
            if opt():
                put('zeros', ['int', 0, None], draw(st.integers(0, n)))
            if opt():
                v = _mask(draw, n, n)
                put('mask', ['mask', n, n], v, form=draw(st.sampled_from(['list', 'array', 'fortran', 'frame'])))
            seed()
        elif op == 'random_distribution':
            put('size', ['int', 2, None], n)
            f = draw(st.sampled_from(sorted(DISTRIBUTIONS)))
            put('f', ['distribution'], f)
            names()
            seed()
        elif op == 'urn_model':
            n = draw(st.integers(1, 4))
            put('model', ['enum', 'bernoulli-laplace', 'ehrenfest'], draw(st.sampled_from(['bernoulli-laplace', 'ehrenfest'])))
            put('n', ['int', 1, None], n)
            names(size=2 * n + 1)
        elif op == 'MarkovChain':
            v = draw(gen.matrix(n, n))['p']
            put('p', ['matrix', None], v, form=_arr(draw, v))
            names()
    elif cls == 'hmm':
        symbols = lambda required=False: put('possible_symbols' if required else 'symbols', ['names', k, 'Y'], Y) if required or opt() else None  # noqa
        if op == 'estimate':
            names('possible_states', required=True)
            symbols(True)
            m = draw(st.integers(2, 10))
            put('sequence_states', ['seq', 'S'], draw(gen.indices(n, m, m)), name=by)
            put('sequence_symbols', ['seq', 'Y'], draw(gen.indices(k, m, m)), name=draw(st.booleans()))
        elif op == 'fit':
            put('fitting_type', ['enum', 'baum-welch', 'map', 'mle', 'viterbi'], draw(st.sampled_from(['baum-welch', 'map', 'mle', 'viterbi'])))
            names('possible_states', required=True)
            symbols(True)
            h = draw(gen.hmm(n, n, k, k))
            if draw(st.integers(0, 3)):
                h = {'p': _positive(draw, n, n), 'e': _positive(draw, n, k)}
            put('p_guess', ['matrix', n], h['p'], form=_arr(draw, h['p']))
            put('e_guess', ['emission', n, k], h['e'], form=_arr(draw, h['e']))
            many = draw(st.booleans())
            put('symbols', ['seqs', 'Y', True], [seq(k) for _ in range(draw(st.integers(2, 3)))] if many else seq(k), name=draw(st.booleans()))
            if opt():
                v = draw(gen.distribution(n))
                put('initial_status', ['status', 'S'], v, form=_vec(draw, v))
        elif op == 'from_dictionary':
            put('d', ['dictionary', ['P', 'E']], [(h := draw(gen.hmm(n, n, k, k)))['p'], h['e']])
        elif op == 'from_file':
            h = draw(gen.hmm(n, n, k, k))
            put('file_path', ['file'], [h['p'], h['e']], ext=draw(st.sampled_from(['.csv', '.json', '.txt', '.xml'])))
        elif op == 'from_graph':
            put('graph', ['graph', 2], [_weights(draw, n, n), _weights(draw, n, k)], multi=draw(st.booleans()))
        elif op == 'from_matrices':
            v, w = _weights(draw, n, n), _weights(draw, n, k)
            put('mp', ['weights', None, None], v, form=_arr(draw, v))
            put('me', ['weights', n, None], w, form=_arr(draw, w))
            names()
            symbols()
        elif op == 'random':
            put('n', ['int', 2, None], n)
            put('k', ['int', 2, None], k)
            names()
            if opt():
                put('p_zeros', ['int', 0, None], draw(st.integers(0, n)))
            if opt():
                v = _mask(draw, n, n)
                put('p_mask', ['mask', n, n], v, form=draw(st.sampled_from(['list', 'array', 'fortran', 'frame'])))
            symbols()
            if opt():
                put('e_zeros', ['int', 0, None], draw(st.integers(0, n)))
            if opt():
                v = _mask(draw, n, k)
                put('e_mask', ['mask', n, k], v, form=draw(st.sampled_from(['list', 'array', 'fortran', 'frame'])))
            seed()
        elif op == 'HiddenMarkovModel':
            h = draw(gen.hmm(n, n, k, k))
            put('p', ['matrix', None], h['p'], form=_arr(draw, h['p']))
            put('e', ['emission', n, None], h['e'], form=_arr(draw, h['e']))
            names()
            symbols()
    else:
        if op == 'assess_theoretical_compatibility':
            put('mc', ['chain'], draw(gen.matrix(n, n))['p'])
        else:
            names('possible_states', required=True)
        long = lambda: draw(gen.indices(n, 8, 30))  # noqa
        if op == 'assess_homogeneity':
            put('sequences', ['seqs', 'S', False], [long() for _ in range(draw(st.integers(2, 3)))], name=by)
        else:
            put('sequence', ['seq', 'S'], long(), name=by)
        if op == 'assess_stationarity' and opt():
            put('blocks', ['int', 1, None], draw(st.integers(1, 3)))
        if opt():
            put('significance', ['float', 0.0, True, 0.2, False], draw(st.sampled_from([0.05, 0.1, 0.2, 1e-6])))
    return {'cls': cls, 'op': op, 'n': n, 'k': k, 'S': S, 'Y': Y, 'args': A}


def target(case):
    import pydtmc
    c = {'mc': pydtmc.MarkovChain, 'hmm': pydtmc.HiddenMarkovModel, 'fn': pydtmc}[case['cls']]
    return c if case['op'] == c.__name__ else getattr(c, case['op'])


def nan(v):
    return [[np.nan if x is None else x for x in r] for r in v]


def make(case, name, tmp=None, S=None, Y=None, by=None, form=None):
    """The Python object for an argument of a case; S, Y are other names, by and form other ways to give it."""
    from pydtmc import MarkovChain, HiddenMarkovModel
    x = case['args'][name]
    t, v = x['kind'], x['v']
    S, Y = S or case['S'], Y or case['Y']
    by = x.get('name') if by is None else by
    form = x.get('form') if form is None else form
    if t[0] == 'names':
        return list((S if t[2] == 'S' else Y)[:len(v)])
    if t[0] == 'seq':
        return [(S if t[1] == 'S' else Y)[i] for i in v] if by else list(v)
    if t[0] == 'seqs':
        L = S if t[1] == 'S' else Y
        f = lambda s: [L[i] for i in s] if by else list(s)  # noqa
        return [f(s) for s in v] if isinstance(v[0], list) else f(v)
    if t[0] in ('matrix', 'emission', 'hyper', 'weights', 'vector', 'status'):
        return forms.form(form, v)
    if t[0] == 'mask':
        return forms.form(form, nan(v))
    if t[0] == 'function':
        return FUNCTIONS[v]
    if t[0] == 'interval':
        return tuple(v)
    if t[0] == 'chain':
        return MarkovChain(np.array(v), list(S[:len(v)]))
    if t[0] == 'dictionary':
        if t[1] is None:
            return {(S[i], S[j]): v[i][j] for i in range(len(v)) for j in range(len(v))}
        p, e = v
        d = {('P', S[i], S[j]): p[i][j] for i in range(len(p)) for j in range(len(p))}
        d.update({('E', S[i], Y[j]): e[i][j] for i in range(len(e)) for j in range(len(e[0]))})
        return d
    if t[0] == 'graph':
        g = nx.MultiDiGraph() if x.get('multi') else nx.DiGraph()
        if t[1] is None:
            g.add_nodes_from(S[:len(v)])
            g.add_weighted_edges_from([(S[i], S[j], v[i][j]) for i in range(len(v)) for j in range(len(v)) if v[i][j] > 0])
            return g
        p, e = v
        names = [y for y in Y[:len(e[0])]]
        g.add_nodes_from(S[:len(p)], layer=1)
        g.add_nodes_from(names, layer=0)
        for i in range(len(p)):
            for j in range(len(p)):
                if p[i][j] > 0:
                    g.add_edge(S[i], S[j], weight=p[i][j], type='P')
            for j in range(len(names)):
                if e[i][j] > 0:
                    g.add_edge(S[i], names[j], weight=e[i][j], type='E')
        return g
    if t[0] == 'file':
        path = os.path.join(tmp, 'input' + x['ext'])
        m = MarkovChain(np.array(v), list(S[:len(v)])) if case['cls'] == 'mc' else HiddenMarkovModel(np.array(v[0]), np.array(v[1]), list(S[:len(v[0])]), list(Y[:len(v[1][0])]))
        try:
            m.to_file(path)
        except ValueError:  # names which the format cannot hold
            path = os.path.join(tmp, 'input.json')
            m.to_file(path)
        return path
    return v


def arguments(case, tmp=None, **how):
    out = {name: make(case, name, tmp, **how) for name in case['args']}
    if case['op'] == 'random_distribution':
        out.update(DISTRIBUTIONS[case['args']['f']['v']])
    return out


def perform(case, args):
    try:
        return target(case)(**args)
    except Exception as e:  # noqa
        return e
