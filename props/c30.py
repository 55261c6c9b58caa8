"""C30: results depend neither on the names nor on the order of the states."""
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import calls, forms, gen, statics
from vlib.core import Registry, require, Discard

R = Registry('C30', 'every public operation of the grammar of calls, and every static one, on a model and on the same model with other names (including names which are those of other states, digits, blanks, unicode), by name and by index; every operation with a result which follows the states, on a chain or hidden model of 2 to 6 states and on the same one in another order; oracle: the result of the other one, renamed or reordered; non-trivial: the names or the order differ and the operation gives a result')

RESERVED = {'P', 'E', 'weight', 'type', 'layer'}
SAFE = ['dyadic', 'coarse', 'decimal', 'norm', 'uniform']


# ------------------------------------------------------------------ names

@st.composite
def two_namings(draw, n, other=None):
    a = draw(gen.labels(n, none=False))
    kind = draw(st.sampled_from(['permuted', 'shifted', 'other', 'other', 'default']))
    if kind == 'permuted':
        b = draw(st.permutations(a))
    elif kind == 'shifted':
        b = a[1:] + a[:1]
    elif kind == 'default':
        b = [str(i + 1) for i in range(n)]
    else:
        b = draw(gen.labels(n, none=False))
    clean = lambda L: [x + '_' if x in RESERVED else x for x in L]  # noqa
    a, b = clean(a), clean(b)
    if len(set(a)) < n or len(set(b)) < n:
        a, b = [f'{x}.{i}' for i, x in enumerate(a)], [f'{x}.{i}' for i, x in enumerate(b)]
    return a, list(b)


@st.composite
def renamings(draw, kind):
    c = draw(gen.mostly(gen.chain(2, 6), gen.chain(7, 12)) if kind == 'mc' else gen.mostly(gen.hmm(2, 4, 2, 4), gen.hmm(2, 9, 5, 9)))
    n, k = len(c['p']), len(c['e'][0]) if kind == 'hmm' else None
    c['S1'], c['S2'] = draw(two_namings(n))
    if kind == 'hmm':
        y1, y2 = draw(two_namings(k))
        c['Y1'], c['Y2'] = ['y' + y for y in y1], ['y' + y for y in y2]
        c['S1'], c['S2'] = ['x' + y for y in c['S1']], ['x' + y for y in c['S2']]
    ops = [x for x in calls.operations(kind, n, k) if x not in ('to_file', 'closest_reversible')]
    c['call'] = calls.draw_call(draw, kind, n, k, op=draw(st.sampled_from(ops)))
    return c


def build(case, S, Y):
    from pydtmc import MarkovChain, HiddenMarkovModel
    if 'e' in case:
        return HiddenMarkovModel(np.array(case['p']), np.array(case['e']), list(S), list(Y))
    return MarkovChain(np.array(case['p']), list(S))


def mapping(case):
    f = dict(zip(case['S1'], case['S2']))
    if 'e' in case:
        f.update(zip(case['Y1'], case['Y2']))
    s = case['call']
    if s['op'] == 'lump':  # the names of a lump are those of its states
        for g in s['args']['partitions']['v']:
            f.setdefault(','.join(case['S1'][i] for i in g), ','.join(case['S2'][i] for i in g))
    if s['op'] == 'aggregate':  # new names
        f = {}
    return f


def renaming(case, ctx, kind):
    s = case['call']
    op = s['op']
    if op == 'lump' and any(',' in x for x in case['S1'] + case['S2']):
        raise Discard()
    m1, m2 = build(case, case['S1'], case.get('Y1')), build(case, case['S2'], case.get('Y2'))
    f = mapping(case)
    results = {}
    for by in (True, False):
        r1 = calls.perform(m1, kind, op, calls.arguments(kind, s, case['S1'], case.get('Y1'), name=by))
        r2 = calls.perform(m2, kind, op, calls.arguments(kind, s, case['S2'], case.get('Y2'), name=by))
        v1, v2 = calls.view(r1), calls.view(r2)
        results[by] = v1
        d = calls.difference(calls.renamed(v1, lambda x: f.get(x, x)), v2, 0.0)
        require(d is None, lambda: f'{op}({s["args"]}) {"by name" if by else "by index"}: with the names {case["S1"]} and {case["S2"]}: {d} (matrix {case["p"]})')
    d = calls.difference(results[True], results[False], 0.0)
    require(d is None, lambda: f'{op}({s["args"]}) by name and by index with the names {case["S1"]}: {d} (matrix {case["p"]})')
    ctx.tag(op)
    ctx.interesting(case['S1'] != case['S2'] and results[True].tag != 'exception')


@R.law(renamings('mc'), 4800, 60000)
def chain_names(case, ctx):
    """The result of an operation on a renamed chain is the renamed result, by name and by index."""
    renaming(case, ctx, 'mc')


@R.law(renamings('hmm'), 1600, 20000)
def hidden_names(case, ctx):
    """The result of an operation on a renamed hidden model is the renamed result, by name and by index."""
    renaming(case, ctx, 'hmm')


@st.composite
def static_renamings(draw):
    c = draw(statics.call(exclude=[('mc', 'from_file'), ('hmm', 'from_file')]))
    if c['cls'] == 'hmm' or draw(st.booleans()):
        other = draw(st.permutations(c['S'])), draw(st.permutations(c['Y']))
    else:
        other = draw(gen.labels(len(c['S']), none=False)), draw(gen.labels(len(c['Y']), none=False))
    c['S2'], c['Y2'] = [list(x) for x in other]
    return c


@R.law(static_renamings(), 2400, 30000)
def static_names(case, ctx):
    """The result of a static operation with other names is the renamed result, by name and by index."""
    if RESERVED & set(case['S'] + case['Y'] + case['S2'] + case['Y2']):
        raise Discard()
    f = {}
    given = any(x['kind'][0] in ('dictionary', 'graph') for x in case['args'].values())
    if given or 'states' in case['args'] or 'possible_states' in case['args']:
        f.update(zip(case['S'], case['S2']))
    if given or 'symbols' in case['args'] or 'possible_symbols' in case['args']:
        f.update(zip(case['Y'], case['Y2']))
    if case['cls'] == 'fn':
        f = {}
    for by in (True, False):
        r1 = statics.perform(case, statics.arguments(case, by=by))
        r2 = statics.perform(case, statics.arguments(case, S=case['S2'], Y=case['Y2'], by=by))
        d = calls.difference(calls.renamed(calls.view(r1), lambda x: f.get(x, x)), calls.view(r2), 0.0)
        require(d is None, lambda: f'{case["cls"]}.{case["op"]} {"by name" if by else "by index"} with the names {case["S"]} {case["Y"]} and {case["S2"]} {case["Y2"]}: {d} ({case["args"]})')
    ctx.tag(f'{case["cls"]}.{case["op"]}')
    ctx.interesting(not isinstance(r1, Exception))


# ------------------------------------------------------------------ order

def by_state(L, v):
    return {x: float(y) for x, y in zip(L, v)}


def by_pair(L, M, K=None):
    return {(a, b): float(M[i][j]) for i, a in enumerate(L) for j, b in enumerate(K or L)}


def classes(cs):
    return {frozenset(c) for c in cs}


def transient(m):
    return list(m.transient_states)


SCALAR = ['density', 'determinant', 'entropy_rate', 'entropy_rate_normalized', 'is_absorbing', 'is_aperiodic', 'is_doubly_stochastic', 'is_ergodic', 'is_irreducible', 'is_regular', 'is_reversible', 'is_symmetric', 'kemeny_constant', 'mixing_rate', 'n', 'period', 'rank', 'relaxation_rate', 'size', 'spectral_gap', 'topological_entropy',
          'are_communicating', 'first_passage_reward', 'is_absorbing_state', 'is_accessible', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'mean_first_passage_times_between', 'sequence_probability', 'time_correlations', 'time_relaxations', 'transition_probability', 'predict']
SETS = ['absorbing_states', 'cyclic_states', 'recurrent_states', 'transient_states', 'states']
CLASSES = ['communicating_classes', 'cyclic_classes', 'recurrent_classes', 'transient_classes']
VECTORS = ['committor_probabilities', 'conditional_probabilities', 'expected_rewards', 'hitting_probabilities', 'hitting_times', 'mean_recurrence_times']
MATRICES = ['accessibility_matrix', 'adjacency_matrix', 'communication_matrix', 'expected_transitions', 'mean_number_visits', 'p', 'sensitivity', 'to_matrix']
CHAINS = ['merge_with', 'to_lazy_chain', 'to_nth_order', 'to_subchain']
ORDERED = SCALAR + SETS + CLASSES + VECTORS + MATRICES + CHAINS + ['implied_timescales', 'periods', 'pi', 'fundamental_matrix', 'absorption_probabilities', 'mean_absorption_times', 'mean_first_passage_times_to', 'first_passage_probabilities', 'redistribute', 'to_dictionary', 'to_graph']


def canonical(op, r, m, args):
    """The result as something which does not depend on the order of the states: names to numbers."""
    if r is None or isinstance(r, Exception):
        return type(r).__name__
    L = list(m.states)
    if op in SETS:
        return set(r)
    if op in CLASSES:
        return classes(r)
    if op == 'periods':
        return {(frozenset(c), int(x)) for c, x in zip(m.communicating_classes, r)} if len(r) == len(m.communicating_classes) else {'length': len(r)}
    if op == 'pi':
        return {frozenset(x for x, y in zip(L, v) if y > 0): by_state(L, v) for v in r}
    if op in VECTORS:
        return by_state(L, r)
    if op in MATRICES:
        return by_pair(L, r)
    if op == 'fundamental_matrix':
        return by_pair(transient(m), r)
    if op == 'absorption_probabilities':
        return by_pair(list(m.absorbing_states), r, transient(m))
    if op == 'mean_absorption_times':
        return by_state(transient(m), r)
    if op == 'mean_first_passage_times_to':
        return by_pair(L, r) if np.ndim(r) == 2 else by_state(L, r)
    if op in CHAINS:
        return by_pair(L if op == 'merge_with' else list(r.states), r.p)
    if op == 'first_passage_probabilities' and np.ndim(r) == 2 or op == 'redistribute' and isinstance(r, list):
        return {k: by_state(L, row) for k, row in enumerate(r)}
    if op == 'redistribute':
        return by_state(L, r)
    if op == 'first_passage_probabilities':
        return {k: float(x) for k, x in enumerate(np.ravel(r))}
    if op == 'implied_timescales':
        return {k: float(np.exp(-1.0 / x)) / 1e3 for k, x in enumerate(r)}  # the moduli of the eigenvalues: null and multiple ones are found up to a root of the rounding
    if op == 'to_graph':
        return dict({(a, b): float(d['weight']) for a, b, d in r.edges(data=True)}, nodes=set(r.nodes))
    if op in ('time_correlations', 'time_relaxations'):
        return {k: float(x) for k, x in enumerate(np.ravel(r))}
    if op == 'predict':
        return [L[x] if isinstance(x, (int, np.integer)) else x for x in r]
    return r


def differ(a, b, tol):
    if type(a) is not type(b):
        return f'{a} and {b}'
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{set(a)} and {set(b)}'
        for k in a:
            d = differ(a[k], b[k], tol)
            if d:
                return f'{k}: {d}'
        return None
    if isinstance(a, (float, np.floating)):
        ok = a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * (1 + abs(a))
        return None if ok else f'{a} and {b}'
    return None if a == b else f'{a} and {b}'


@st.composite
def orders(draw):
    c = draw(gen.mostly(gen.chain(2, 6, none=False, schemes=SAFE), gen.chain(7, 12, none=False, schemes=SAFE), 15))
    n = len(c['p'])
    c['call'] = calls.draw_call(draw, 'mc', n, None, op=draw(st.sampled_from(ORDERED)))
    c['order'] = draw(st.permutations(range(n)))
    return c


def reorder(kind, t, x, order, S, Y=None):
    """The argument for the reordered model: names stay, vectors and matrices follow the states."""
    v = x['v']
    if t[0] in ('dist', 'rewards') or t[0] in ('status', 'weights') and isinstance(v, list):
        return forms.form('list', [v[i] for i in order])
    if t[0] == 'chain':
        from pydtmc import MarkovChain
        return MarkovChain(np.array([[v[i][j] for j in order] for i in order]))
    return calls.make(t, x, S, Y, None, name=True)


@R.law(orders(), 6400, 80000)
def chain_order(case, ctx):
    """A result for the reordered chain, asked by name, is that of the original one."""
    from pydtmc import MarkovChain
    S, order, s = list(case['states']), case['order'], case['call']
    p = np.array(case['p'])
    m1 = MarkovChain(p, S)
    m2 = MarkovChain(p[np.ix_(order, order)], [S[i] for i in order])
    if s['op'] in ('expected_transitions', 'time_correlations', 'time_relaxations'):
        steps = s['args'].get('steps', s['args'].get('time_points', {})).get('v', 1)
        if np.max(steps) > len(S) and any(np.iscomplexobj(np.linalg.eig(m.p)[0]) for m in (m1, m2)):
            ctx.tag('excluded: known finding K1')
            raise Discard()
    a1 = {name: calls.make(t, s['args'][name], S, None, None, name=True) for name, t, _ in calls.parameters('mc', s['op']) if name in s['args']}
    a2 = {name: reorder('mc', t, s['args'][name], order, S) for name, t, _ in calls.parameters('mc', s['op']) if name in s['args']}
    r1, r2 = calls.perform(m1, 'mc', s['op'], a1), calls.perform(m2, 'mc', s['op'], a2)
    c1, c2 = canonical(s['op'], r1, m1, a1), canonical(s['op'], r2, m2, a2)
    d = differ(c1, c2, 1e-6)
    require(d is None, lambda: f'{s["op"]}({s["args"]}) with the states {S} and in the order {order}: {d} (matrix {case["p"]})')
    ctx.tag(s['op'])
    ctx.interesting(list(order) != sorted(order) and not isinstance(c1, str))


HIDDEN = ['decode', 'emission_probability', 'e', 'p', 'is_ergodic', 'is_regular', 'n', 'k', 'size', 'predict', 'restrict', 'to_dictionary', 'to_matrices', 'transition_probability', 'to_graph']


@st.composite
def hidden_orders(draw):
    c = draw(gen.mostly(gen.hmm(2, 4, 2, 4, none=False), gen.hmm(2, 9, 5, 9, none=False)))
    n, k = len(c['p']), len(c['e'][0])
    c['call'] = calls.draw_call(draw, 'hmm', n, k, op=draw(st.sampled_from(HIDDEN + ['decode', 'predict', 'restrict'])))
    c['order'], c['symbol_order'] = draw(st.permutations(range(n))), draw(st.permutations(range(k)))
    return c


def hidden_canonical(op, r, m, args):
    if r is None or isinstance(r, Exception):
        return type(r).__name__
    S, Y = list(m.states), list(m.symbols)
    if op == 'decode':
        out = {'log': float(r[0])}
        for name, x in zip(('posterior', 'backward', 'forward'), r[1:4]):
            out[name] = {(a, t): float(np.asarray(x)[i][t]) for i, a in enumerate(S) for t in range(np.shape(x)[1])}
        if len(r) > 4 and r[4] is not None:
            out['scaling'] = {t: float(x) for t, x in enumerate(np.ravel(r[4]))}
        return out
    if op == 'e':
        return by_pair(S, r, Y)
    if op == 'p':
        return by_pair(S, r)
    if op == 'to_matrices':
        return {'p': by_pair(S, r[0]), 'e': by_pair(S, r[1], Y)}
    if op == 'predict':  # the path itself may be any of the best ones
        return {'length': len(r[1]), 'log': float(r[0]) if args['prediction_type'] != 'map' else 0.0}
    if op == 'restrict':
        return {'p': by_pair(list(r.states), r.p), 'e': by_pair(list(r.states), r.e, list(r.symbols))}
    if op == 'to_graph':
        return {(a, b): float(d['weight']) for a, b, d in r.edges(data=True)}
    return r


@R.law(hidden_orders(), 2400, 30000)
def hidden_order(case, ctx):
    """A result for the hidden model with reordered states and symbols, asked by name, is that of the original one."""
    from pydtmc import HiddenMarkovModel
    S, Y, o, q, s = list(case['states']), list(case['symbols']), case['order'], case['symbol_order'], case['call']
    p, e = np.array(case['p']), np.array(case['e'])
    m1 = HiddenMarkovModel(p, e, S, Y)
    m2 = HiddenMarkovModel(p[np.ix_(o, o)], e[np.ix_(o, q)], [S[i] for i in o], [Y[i] for i in q])
    params = [(name, t) for name, t, _ in calls.parameters('hmm', s['op']) if name in s['args']]
    a1 = {name: calls.make(t, s['args'][name], S, Y, None, name=True) for name, t in params}
    a2 = {name: reorder('hmm', t, s['args'][name], o, S, Y) for name, t in params}
    r1, r2 = calls.perform(m1, 'hmm', s['op'], a1), calls.perform(m2, 'hmm', s['op'], a2)
    c1, c2 = hidden_canonical(s['op'], r1, m1, a1), hidden_canonical(s['op'], r2, m2, a2)
    d = differ(c1, c2, 1e-6)
    require(d is None, lambda: f'{s["op"]}({s["args"]}) with the states {S} and symbols {Y} and in the orders {o} and {q}: {d} (matrices {case["p"]} {case["e"]})')
    ctx.tag(s['op'])
    ctx.interesting((list(o) != sorted(o) or list(q) != sorted(q)) and not isinstance(c1, str))
