"""C03: equality and hashing."""
import copy
import pickle
import numpy as np
from hypothesis import strategies as st
from vlib import gen, forms
from vlib.core import Registry, same, require, Discard

R = Registry('C03', 'pairs of chains of 2 to 10 states and of hidden models of 2 to 6 states and symbols: rebuilt in every way, or apart by one unit in the last place, by the sign of zeros, by one name, two names swapped, or one size; oracle: entries and names; non-trivial: all pairs')


def negate_zeros(a, bits):
    a = a.copy()
    for t, (i, j) in enumerate(np.argwhere(a == 0.0)):
        if bits >> (t % 16) & 1:
            a[i, j] = -0.0
    return a


def nudge(a, i, how):
    """The same rows but for one unit in the last place of one entry."""
    b = a.copy()
    pos = [int(j) for j in np.flatnonzero(b[i] > 0)]
    j = pos[how % len(pos)]
    b[i, j] = np.nextafter(b[i, j], 0.0)
    return b


def verdict(x, y, expected, what):
    require(isinstance(x == y, bool) and isinstance(x != y, bool), f'{what}: types of the comparison')
    require((x == y) is expected and (y == x) is expected, f'{what}: == gives {x == y} and {y == x} instead of {expected}')
    require((x != y) is (not expected) and (y != x) is (not expected), f'{what}: != gives {x != y} instead of {not expected}')
    require(isinstance(hash(x), int) and hash(x) == hash(x), f'{what}: unstable hash')
    if expected:
        require(hash(x) == hash(y), f'{what}: equal models with different hashes')
    require(len({x, y}) == (1 if expected else 2), f'{what}: in a set')
    require(({x: 1}.get(y) == 1) is expected and (y in [x]) is expected, f'{what}: in a dictionary and in a list')


def others(x, a, names):
    for o in (None, 0, 1.0, 'MarkovChain', a, a.tolist(), names, object(), type(x), (a, names), {1: 2}, repr(x), str(x), hash(x)):
        r = x.__eq__(o)
        require(r is False or r is NotImplemented, f'comparison with {type(o)}: {r!r}')
        require((x != o) is True or isinstance(o, np.ndarray), f'difference with {type(o)}')


@st.composite
def pairs(draw, hidden=False):
    c = draw(gen.mostly(gen.hmm(2, 5, 2, 5, none=False), gen.hmm(2, 12, 6, 12, none=False)) if hidden else gen.mostly(gen.chain(2, 10, none=False), gen.chain(11, 24, none=False)))
    n = len(c['p'])
    c['change'] = draw(st.sampled_from(['none', 'none', 'zeros', 'entry', 'name', 'swap', 'order', 'case', 'size'] + (['e entry', 'e zeros', 'symbol', 'symbol swap', 'exchange', 'e size'] if hidden else [])))
    c['at'] = [draw(st.integers(0, n - 1)), draw(st.integers(0, 9)), draw(st.integers(1, 2 ** 16 - 1))]
    c['form'] = draw(st.sampled_from(forms.forms(np.array(c['p']), forms.MATRIX)))
    return c


def change_names(L, what, at):
    L = list(L)
    i = at[0] % len(L)
    j = (i + 1 + at[1] % (len(L) - 1)) % len(L)
    if what.endswith('swap'):
        L[i], L[j] = L[j], L[i]
    elif what == 'case':
        L[i] = L[i].swapcase() if L[i].swapcase() != L[i] and L[i].swapcase() not in L else L[i] + ' '
    else:
        L[i] = L[i] + "'"
    if len(set(L)) < len(L) or any(not x.strip() for x in L):
        raise Discard()
    return L


def used(m):
    """Some operations, whose cached results must not matter."""
    m.is_ergodic, str(m)
    if hasattr(m, 'pi'):
        m.pi, m.communicating_classes, m.mean_recurrence_times(), m.absorption_probabilities(), m.mean_absorption_times()
        m.redistribute(2)
    return m


@R.law(pairs(), 4000, 60000)
def chains(case, ctx):
    """Two chains are equal exactly when their entries and names are, and then have one hash."""
    from pydtmc import MarkovChain
    p, S, w = np.array(case['p']), case['states'], case['change']
    x = MarkovChain(p, S)
    i, j, bits = case['at']
    expected, q, T = w in ('none', 'zeros'), p, list(S)
    if w == 'zeros':
        q = negate_zeros(p, bits)
    elif w == 'entry':
        q = nudge(p, i, j)
        if np.array_equal(p, q):
            raise Discard()
    elif w == 'order':  # the same transition law, in another order
        o = list(range(len(S)))
        o[0], o[1 + j % (len(S) - 1)] = o[1 + j % (len(S) - 1)], o[0]
        q, T = p[np.ix_(o, o)], [S[t] for t in o]
    elif w == 'size':
        q, T = np.pad(p, ((0, 1), (0, 1))), S + ['?unknown?']
        q[-1, -1] = 1.0
    elif w != 'none':
        T = change_names(S, w, case['at'])
    y = MarkovChain(forms.form(case['form'], q) if w == 'none' else q, T)
    what = f'chains {p.tolist()} {S} and {q.tolist()} {T} ({w})'
    ctx.tag(w)
    ctx.interesting(True)
    verdict(x, y, expected, what)
    h = hash(x)
    verdict(used(x), y, expected, what + ' after use')
    require(hash(x) == h, f'{what}: the hash changed with use')
    for z, how in ((MarkovChain(x.p, x.states), 'rebuilt'), (MarkovChain.from_dictionary(x.to_dictionary()), 'from its dictionary'), (copy.deepcopy(x), 'deep copy'), (copy.copy(x), 'copy'), (pickle.loads(pickle.dumps(x)), 'pickled'), (x, 'itself')):
        if how == 'from its dictionary' and z.states != x.states:
            continue
        verdict(x, z, True, f'{what}: {how}')
        verdict(z, y, expected, f'{what}: {how} against the second')
    others(x, p, S)


@R.law(pairs(True), 3200, 40000)
def hidden_models(case, ctx):
    """Two hidden models are equal exactly when their entries and names are, and then have one hash."""
    from pydtmc import HiddenMarkovModel, MarkovChain
    p, e, S, Y, w = np.array(case['p']), np.array(case['e']), case['states'], case['symbols'], case['change']
    n, k = e.shape
    x = HiddenMarkovModel(p, e, S, Y)
    i, j, bits = case['at']
    expected, q, f, T, Z = w in ('none', 'zeros', 'e zeros'), p, e, list(S), list(Y)
    if w == 'zeros':
        q = negate_zeros(p, bits)
    elif w == 'e zeros':
        f = negate_zeros(e, bits)
    elif w == 'entry':
        q = nudge(p, i, j)
    elif w == 'e entry':
        f = nudge(e, i, j)
    elif w == 'order':
        o = list(range(n))
        o[0], o[1 + j % (n - 1)] = o[1 + j % (n - 1)], o[0]
        q, f, T = p[np.ix_(o, o)], e[o], [S[t] for t in o]
    elif w == 'size':
        q, f, T = np.pad(p, ((0, 1), (0, 1))), np.vstack((e, e[-1:])), S + ['?unknown?']
        q[-1, -1] = 1.0
    elif w == 'e size':
        f, Z = np.hstack((e, np.zeros((n, 1)))), Y + ['?unknown?']
    elif w == 'exchange':  # the names of the states as symbols
        if n != k:
            raise Discard()
        T, Z = list(Y), list(S)
    elif w.startswith('symbol'):
        Z = change_names(Y, w, case['at'])
    elif w != 'none':
        T = change_names(S, w, case['at'])
    if set(T) & set(Z):
        raise Discard()
    y = HiddenMarkovModel(q, f, T, Z)
    what = f'models {p.tolist()} {e.tolist()} {S} {Y} and {q.tolist()} {f.tolist()} {T} {Z} ({w})'
    ctx.tag(w)
    ctx.interesting(True)
    verdict(x, y, expected, what)
    verdict(used(x), y, expected, what + ' after use')
    for z, how in ((HiddenMarkovModel(x.p, x.e, x.states, x.symbols), 'rebuilt'), (copy.deepcopy(x), 'deep copy'), (copy.copy(x), 'copy'), (pickle.loads(pickle.dumps(x)), 'pickled'), (x, 'itself')):
        verdict(x, z, True, f'{what}: {how}')
        verdict(z, y, expected, f'{what}: {how} against the second')
    c = MarkovChain(p, S)
    require((x == c) is False and (c == x) is False and x != c and c != x, f'{what}: against the chain of its states')
    others(x, p, S)


@R.law(st.lists(gen.chain(2, 3, kinds=['sparse', 'identity', 'layout'], schemes=['uniform', 'dyadic'], none=True, plain=True), min_size=2, max_size=8).map(lambda x: {'chains': x}), 800, 10000)
def collections(case, ctx):
    """Chains in sets and dictionaries behave as their matrices and names do: many small chains, often equal."""
    from pydtmc import MarkovChain
    models, keys = [], []
    for c in case['chains']:
        m = gen.build(c)
        models.append(m)
        keys.append((tuple(np.array(c['p']).ravel().tolist()), tuple(m.states)))
    same(len(set(models)), len(set(keys)), 'number of distinct chains')
    d = {}
    for i, m in enumerate(models):
        d.setdefault(m, i)
    for i, (m, key) in enumerate(zip(models, keys)):
        same(d[m], keys.index(key), 'dictionary of chains')
        same([m == o for o in models], [key == o for o in keys], 'comparisons of chains')
    ctx.interesting(len(set(keys)) < len(keys))
