"""The public operations of the models as a grammar of calls: generation of arguments, realisation by name or index and in any container, and comparison of results."""
import math
import os
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from vlib import forms, gen

REQ = '<required>'
PROPERTIES = {
    'mc': ['absorbing_states', 'accessibility_matrix', 'adjacency_matrix', 'communicating_classes', 'communication_matrix', 'cyclic_classes', 'cyclic_states', 'density', 'determinant', 'entropy_rate', 'entropy_rate_normalized', 'fundamental_matrix', 'implied_timescales', 'incidence_matrix', 'is_absorbing', 'is_aperiodic', 'is_canonical',
           'is_doubly_stochastic', 'is_ergodic', 'is_irreducible', 'is_regular', 'is_reversible', 'is_stochastically_monotone', 'is_symmetric', 'kemeny_constant', 'lumping_partitions', 'mixing_rate', 'n', 'p', 'period', 'periods', 'pi', 'rank', 'recurrent_classes', 'recurrent_states', 'relaxation_rate', 'size', 'spectral_gap', 'states',
           'topological_entropy', 'transient_classes', 'transient_states'],
    'hmm': ['e', 'is_ergodic', 'is_regular', 'k', 'n', 'p', 'size', 'states', 'symbols'],
}
STEPS = ('int', 1, None, 10)
METHODS = {
    'mc': {
        'absorption_probabilities': [],
        'aggregate': [('s', ('int', 2, 'n-1', None), REQ), ('method', ('enum', 'adaptive', 'spectral-bottom-up', 'spectral-top-down'), 'adaptive')],
        'are_communicating': [('state1', ('state',), REQ), ('state2', ('state',), REQ)],
        'closest_reversible': [('initial_distribution', ('dist',), None), ('weighted', ('bool',), False)],
        'committor_probabilities': [('committor_type', ('enum', 'backward', 'forward'), REQ), ('states1', ('states', True), REQ), ('states2', ('states', True), REQ)],
        'conditional_probabilities': [('state', ('state',), REQ)],
        'expected_rewards': [('steps', STEPS, REQ), ('rewards', ('rewards',), REQ)],
        'expected_transitions': [('steps', STEPS, REQ), ('initial_distribution', ('dist',), None)],
        'first_passage_probabilities': [('steps', STEPS, REQ), ('initial_state', ('state',), REQ), ('first_passage_states', ('states', False), None)],
        'first_passage_reward': [('steps', STEPS, REQ), ('initial_state', ('state',), REQ), ('first_passage_states', ('states', True), REQ), ('rewards', ('rewards',), REQ)],
        'hitting_probabilities': [('targets', ('states', False), None)],
        'hitting_times': [('targets', ('states', False), None)],
        'is_absorbing_state': [('state', ('state',), REQ)],
        'is_accessible': [('state_target', ('state',), REQ), ('state_origin', ('state',), REQ)],
        'is_cyclic_state': [('state', ('state',), REQ)],
        'is_recurrent_state': [('state', ('state',), REQ)],
        'is_transient_state': [('state', ('state',), REQ)],
        'lump': [('partitions', ('partitions',), REQ)],
        'mean_absorption_times': [],
        'mean_first_passage_times_between': [('origins', ('states', True), REQ), ('targets', ('states', True), REQ)],
        'mean_first_passage_times_to': [('targets', ('states', False), None)],
        'mean_number_visits': [],
        'mean_recurrence_times': [],
        'merge_with': [('other', ('chain',), REQ), ('gamma', ('float', 0.0, 1.0), REQ)],
        'mixing_time': [('initial_distribution', ('dist',), None), ('jump', ('int', 1, None, 4), 1), ('cutoff_type', ('enum', 'natural', 'traditional'), 'natural')],
        'next': [('initial_state', ('state',), REQ), ('output_index', ('bool',), False), ('seed', ('seed',), None)],
        'predict': [('steps', STEPS, REQ), ('initial_state', ('state',), REQ), ('output_indices', ('bool',), False)],
        'redistribute': [('steps', STEPS, REQ), ('initial_status', ('status',), None), ('output_last', ('bool',), True)],
        'sensitivity': [('state', ('state',), REQ)],
        'sequence_probability': [('sequence', ('seq',), REQ)],
        'simulate': [('steps', ('int', 2, None, 12), REQ), ('initial_state', ('state',), None), ('final_state', ('state',), None), ('output_indices', ('bool',), False), ('seed', ('seed',), None)],
        'time_correlations': [('sequence1', ('seq',), REQ), ('sequence2', ('seq',), None), ('time_points', ('times',), 1)],
        'time_relaxations': [('sequence', ('seq',), REQ), ('initial_distribution', ('dist',), None), ('time_points', ('times',), 1)],
        'to_bounded_chain': [('boundary_condition', ('boundary',), REQ)],
        'to_canonical_form': [],
        'to_dictionary': [],
        'to_file': [('file_path', ('path',), REQ)],
        'to_graph': [],
        'to_lazy_chain': [('inertial_weights', ('weights',), 0.5)],
        'to_matrix': [],
        'to_nth_order': [('order', ('int', 2, None, 6), 2)],
        'to_subchain': [('states', ('states', True), REQ)],
        'transition_probability': [('state_target', ('state',), REQ), ('state_origin', ('state',), REQ)],
        '__str__': [],
        '__repr__': [],
    },
    'hmm': {
        'decode': [('symbols', ('symseq',), REQ), ('initial_status', ('status',), None), ('use_scaling', ('bool',), True)],
        'emission_probability': [('symbol', ('symbol',), REQ), ('state', ('state',), REQ)],
        'next': [('initial_state', ('state',), REQ), ('target', ('enum', 'both', 'state', 'symbol'), 'both'), ('output_index', ('bool',), False), ('seed', ('seed',), None)],
        'predict': [('prediction_type', ('enum', 'map', 'mle', 'viterbi'), REQ), ('symbols', ('symseq',), REQ), ('initial_status', ('status',), None), ('output_indices', ('bool',), False)],
        'restrict': [('states', ('states2',), None), ('symbols', ('symbols2',), None)],
        'simulate': [('steps', ('int', 2, None, 12), REQ), ('initial_state', ('state',), None), ('final_state', ('state',), None), ('final_symbol', ('symbol',), None), ('output_indices', ('bool',), False), ('seed', ('seed',), None)],
        'to_dictionary': [],
        'to_file': [('file_path', ('path',), REQ)],
        'to_graph': [],
        'to_matrices': [],
        'transition_probability': [('state_target', ('state',), REQ), ('state_origin', ('state',), REQ)],
        '__str__': [],
        '__repr__': [],
    },
}
ALIASES = {
    'is_stochastically_monotone': ['is_monotone'], 'pi': ['stationary_distributions', 'steady_states'], 'committor_probabilities': ['crp'], 'conditional_probabilities': ['conditional_distribution', 'cd', 'cp'], 'expected_rewards': ['er'], 'expected_transitions': ['et'], 'first_passage_probabilities': ['fpp'],
    'first_passage_reward': ['fpr'], 'hitting_probabilities': ['hp'], 'hitting_times': ['ht'], 'mean_absorption_times': ['mat'], 'mean_first_passage_times_between': ['mfpt_between', 'mfptb'], 'mean_first_passage_times_to': ['mfpt_to', 'mfptt'], 'mean_number_visits': ['mnv'], 'mean_recurrence_times': ['mrt'], 'mixing_time': ['mt'],
    'time_correlations': ['tc'], 'time_relaxations': ['tr'], 'to_bounded_chain': ['to_bounded'], 'to_canonical_form': ['to_canonical'], 'to_lazy_chain': ['to_lazy'], 'to_nth_order': ['to_nth'], 'to_subchain': ['to_sub'],
}
MINIMUM = {'aggregate': 3, 'lump': 3}


def operations(kind, n=None, k=None, exclude=()):
    """The names of the operations which a model of that size has arguments for."""
    out = [x for x in PROPERTIES[kind] + list(METHODS[kind]) if x not in exclude]
    if n is not None:
        out = [x for x in out if MINIMUM.get(x, 2) <= n and not (x == 'lumping_partitions' and n > 6)]
    return out


def parameters(kind, op):
    return METHODS[kind].get(op, [])


# ------------------------------------------------------------------ arguments

def vector_form(draw, v):
    return draw(st.sampled_from(forms.forms(np.array(v, dtype=float), forms.VECTOR)))


def draw_value(draw, kind, n, k, plain=False):
    """A JSON value for an argument of that kind: what it holds and how it is to be given."""
    t = kind[0]
    by = draw(st.booleans())
    form = lambda v: 'list' if plain else vector_form(draw, v)  # noqa
    if t in ('state', 'symbol'):
        return {'v': draw(st.integers(0, (n if t == 'state' else k) - 1)), 'name': by}
    if t == 'states':
        return {'v': draw(gen.subset(n, 1, n - 1 if kind[1] else n)), 'name': by, 'single': draw(st.booleans())}
    if t in ('states2', 'symbols2'):
        m = n if t == 'states2' else k
        return None if m < 3 else {'v': draw(gen.subset(m, 2, m - 1)), 'name': by}
    if t in ('seq', 'symseq'):
        return {'v': draw(gen.indices(n if t == 'seq' else k, 2, 8)), 'name': by}
    if t == 'dist':
        v = draw(gen.distribution(n))
        return {'v': v, 'form': form(v)}
    if t == 'status':
        if draw(st.booleans()):
            return {'v': draw(st.integers(0, n - 1)), 'name': by}
        v = draw(gen.distribution(n))
        return {'v': v, 'form': form(v)}
    if t == 'rewards':
        v = draw(st.lists(st.one_of(st.integers(-9, 9), st.floats(-10, 10, allow_subnormal=False)), min_size=n, max_size=n))
        v = [float(x) for x in v]
        return {'v': v, 'form': form(v)}
    if t == 'int':
        lo, hi = kind[1], kind[2] if kind[2] is not None else kind[3]
        return {'v': draw(st.integers(lo, n - 1 if hi == 'n-1' else hi)), 'np': draw(st.booleans())}
    if t == 'float':
        return {'v': draw(st.floats(0.001, 0.999)), 'np': draw(st.booleans())}
    if t == 'bool':
        return {'v': draw(st.booleans())}
    if t == 'enum':
        return {'v': draw(st.sampled_from(kind[1:]))}
    if t == 'seed':
        return {'v': draw(st.integers(0, 2 ** 32 - 1)), 'np': draw(st.booleans())}
    if t == 'times':
        if draw(st.booleans()):
            return {'v': draw(st.integers(0, 8))}
        return {'v': draw(st.lists(st.integers(0, 8), min_size=1, max_size=4, unique=True))}
    if t == 'partitions':
        cuts = sorted(draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=n - 2, unique=True)))
        bounds = [0] + cuts + [n]
        return {'v': [list(range(a, b)) for a, b in zip(bounds, bounds[1:])], 'name': by}
    if t == 'chain':
        return {'v': draw(gen.matrix(n, n))['p']}
    if t == 'weights':
        if draw(st.booleans()):
            return {'v': draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 0, 1]))}
        v = draw(st.lists(st.floats(0, 1, allow_subnormal=False), min_size=n, max_size=n))
        return {'v': v, 'form': form(v)}
    if t == 'boundary':
        return {'v': draw(st.sampled_from(['absorbing', 'reflecting', 0.0, 1.0, 0.25, 0, 1]))}
    if t == 'path':
        return {'v': draw(st.sampled_from(['.csv', '.json', '.txt', '.xml']))}
    raise KeyError(t)


def draw_call(draw, kind, n, k, op=None, exclude=(), plain=False):
    """A call: {'op', 'args'}; an omitted optional argument is missing, so the later ones are given by keyword."""
    op = op or draw(st.sampled_from(operations(kind, n, k, exclude)))
    args = {}
    for name, t, default in parameters(kind, op):
        if default is REQ or (t[0] == 'seed') or draw(st.integers(0, 3)) > 0:
            v = draw_value(draw, t, n, k, plain)
            if v is not None:
                args[name] = v
    if op == 'committor_probabilities' and draw(st.integers(0, 3)) > 0:  # mostly disjoint sets
        a = args['states1']['v']
        rest = [x for x in args['states2']['v'] if x not in a]
        args['states2']['v'] = rest or [x for x in range(n) if x not in a]
    if kind == 'hmm' and op in ('simulate',) and 'final_state' in args and 'final_symbol' in args and draw(st.booleans()):
        del args['final_symbol']
    return {'op': op, 'args': args}


def make(t, x, S, Y, tmp=None, name=None, form=None, single=None):
    """The Python object for a value; name, form, single override how it is given."""
    v = x['v']
    k = t[0]
    named = x.get('name', False) if name is None else name
    if k in ('state', 'symbol'):
        return (S if k == 'state' else Y)[v] if named else v
    if k in ('states', 'states2', 'symbols2', 'seq', 'symseq'):
        L = Y if k in ('symbols2', 'symseq') else S
        out = [L[i] for i in v] if named else list(v)
        if k == 'states' and len(out) == 1 and (x.get('single', False) if single is None else single):
            return out[0]
        return out
    if k == 'status' and not isinstance(v, list):
        return S[v] if named else v
    if k in ('dist', 'status', 'rewards') or k == 'weights' and isinstance(v, list):
        return forms.form(x['form'] if form is None else form, v)
    if k == 'int' or k == 'seed':
        return np.int64(v) if x.get('np') else v
    if k == 'float':
        return np.float64(v) if x.get('np') else v
    if k == 'partitions':
        return [[S[i] for i in g] if named else list(g) for g in v]
    if k == 'times':
        return list(v) if isinstance(v, list) else v
    if k == 'chain':
        from pydtmc import MarkovChain
        return MarkovChain(np.array(v))
    if k == 'path':
        return os.path.join(tmp, 'model' + v)
    return v


def arguments(kind, call, S, Y, tmp=None, **how):
    return {name: make(t, call['args'][name], S, Y, tmp, **how) for name, t, _ in parameters(kind, call['op']) if name in call['args']}


def perform(m, kind, op, args):
    """The result of a call, or the exception it raises."""
    try:
        if op in PROPERTIES[kind] or op in [a for x in PROPERTIES[kind] for a in ALIASES.get(x, [])]:
            return getattr(m, op)
        r = getattr(m, op)(**args)
        if op == 'to_file':
            with open(args['file_path'], 'rb') as f:
                return f.read()
        return r
    except Exception as e:  # noqa
        return e


# ------------------------------------------------------------------ results

class View:
    """A snapshot of a result: nothing in it is shared with the result."""

    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __repr__(self):
        return f'{self.tag}:{self.value!r}'


def view(x):
    from pydtmc import MarkovChain, HiddenMarkovModel
    import networkx as nx
    if isinstance(x, BaseException):
        return View('exception', type(x).__name__)
    if isinstance(x, (bool, np.bool_)):
        return View('bool', bool(x))
    if isinstance(x, (int, np.integer)):
        return View('int', int(x))
    if isinstance(x, (float, np.floating)):
        return View('float', float(x))
    if isinstance(x, (str, bytes)) or x is None:
        return View('atom', x)
    if sp.issparse(x):
        x = np.array(x.todense())
    if isinstance(x, np.ndarray):
        return View('array', np.array(x))
    if isinstance(x, (list, tuple)):
        return View('list' if isinstance(x, list) else 'tuple', [view(y) for y in x])
    if isinstance(x, (dict,)):
        return View('dict', [(view(k), view(v)) for k, v in x.items()])
    if isinstance(x, MarkovChain):
        return View('chain', [view(x.p), view(x.states)])
    if isinstance(x, HiddenMarkovModel):
        return View('hidden', [view(x.p), view(x.e), view(x.states), view(x.symbols)])
    if isinstance(x, nx.Graph):
        return View('graph', [view([(str(k), dict(d)) for k, d in x.nodes(data=True)]), view([(a, b, dict(d)) for a, b, d in x.edges(data=True)])])
    raise TypeError(type(x))


def renamed(v, f):
    """The view with its names replaced."""
    if v.tag == 'atom':
        return View('atom', f(v.value) if isinstance(v.value, str) else v.value)
    if v.tag in ('list', 'tuple', 'chain', 'hidden', 'graph'):
        return View(v.tag, [renamed(y, f) for y in v.value])
    if v.tag == 'dict':
        return View('dict', [(renamed(a, f), renamed(b, f)) for a, b in v.value])
    return v


def difference(a, b, tol=1e-9, where=''):
    """None when the views agree (floats within tol), or what differs."""
    if a.tag != b.tag:
        return f'{where}: {short(a)} and {short(b)}'
    if a.tag in ('bool', 'int', 'atom', 'exception'):
        return None if a.value == b.value else f'{where}: {short(a)} and {short(b)}'
    if a.tag == 'float':
        x, y = a.value, b.value
        ok = x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= tol * (1 + abs(x))
        return None if ok else f'{where}: {x} and {y}'
    if a.tag == 'array':
        x, y = a.value, b.value
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return f'{where}: arrays {x.shape} {x.dtype} and {y.shape} {y.dtype}'
        with np.errstate(all='ignore'):
            ok = np.array_equal(x, y) or (x.dtype.kind in 'fc' and bool(np.all(np.isclose(x, y, rtol=tol, atol=tol, equal_nan=True))))
        return None if ok else f'{where}: {x.tolist()} and {y.tolist()}'
    if len(a.value) != len(b.value):
        return f'{where}: {short(a)} and {short(b)}'
    for i, (x, y) in enumerate(zip(a.value, b.value)):
        if a.tag == 'dict':
            d = difference(x[0], y[0], tol, f'{where}[key {i}]') or difference(x[1], y[1], tol, f'{where}[{x[0].value if x[0].tag == "atom" else i}]')
        else:
            d = difference(x, y, tol, f'{where}[{i}]')
        if d:
            return d
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + '...'


def spoil(x, depth=0):
    """Overwrites a result in place, as far as it can be."""
    from pydtmc import MarkovChain, HiddenMarkovModel
    import networkx as nx
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 1 if x.dtype.kind in 'iub' else 0.125
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x[:] = ['spoiled']
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x.clear()
    elif isinstance(x, nx.Graph):
        for _, d in list(x.nodes(data=True)):
            d.clear()
        for _, _, d in list(x.edges(data=True)):
            d.clear()
            d['weight'] = 77.0
        x.remove_nodes_from(list(x.nodes)[:1])
        x.graph['spoiled'] = True
    elif isinstance(x, (MarkovChain, HiddenMarkovModel)) and depth == 0:
        for name in ('p', 'e', 'states', 'symbols', 'pi', 'communicating_classes', 'recurrent_states', 'to_graph', 'to_dictionary', 'to_matrix', 'to_matrices', 'mean_recurrence_times'):
            y = getattr(x, name, None)
            spoil(y() if callable(y) else y, 1)
    elif sp.issparse(x) or hasattr(x, 'iloc'):
        forms.spoil(x)
