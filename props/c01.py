"""C01: construction stores exactly the given model."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import gen, forms
from vlib.core import Registry, same, require, expect_validation_error, Discard

R = Registry('C01', 'chains of 2 to 12 states and hidden models of 2 to 6 states and symbols in every container (lists, arrays of every layout and type, sparse matrices, frames), any names; every kind of corruption of matrices and names; calls from functions named as the methods; oracle: the numbers themselves; non-trivial: a container other than a plain list, or a corruption')


def exact(got, expected, what):
    require(isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == expected.shape and np.array_equal(got, expected), f'{what}: {got!r} instead of {expected.tolist()}')


def callers():
    """Ways of calling the constructor: the name of the calling function must not matter."""
    def plain(f, *a):
        return f(*a)

    def random(f, *a):
        return f(*a)

    def from_matrix(f, *a):
        return f(*a)

    def fit(f, *a):
        return f(*a)

    def to_lazy_chain(f, *a):
        return f(*a)
    return [plain, random, from_matrix, fit, to_lazy_chain]


CALLERS = callers()


def yes(x):
    return 'YES' if x else 'NO'


@st.composite
def chains(draw):
    c = draw(st.one_of(gen.chain(2, 6), gen.chain(2, 6), gen.chain(7, 12), gen.chain(7, 24)))
    c['form'] = draw(st.sampled_from(forms.forms(np.array(c['p']), forms.MATRIX)))
    c['caller'] = draw(st.integers(0, len(CALLERS) - 1))
    c['explicit'] = draw(st.booleans())
    return c


@R.law(chains(), 4000, 60000)
def chain(case, ctx):
    """The numbers, names, sizes, summary and views of a chain, which shares nothing with what it was given."""
    from pydtmc import MarkovChain
    p = np.array(case['p'])
    n = len(p)
    given = forms.form(case['form'], p)
    labels = None if case['states'] is None else list(case['states'])
    expected = [str(i + 1) for i in range(n)] if labels is None else list(labels)
    before, labels_before = forms.value(given), None if labels is None else list(labels)
    what = f'MarkovChain({p.tolist()} as {case["form"]}, {labels})'
    args = (given,) if labels is None and not case['explicit'] else (given, labels)
    m = CALLERS[case['caller']](MarkovChain, *args)
    require(forms.unchanged(before, forms.value(given)) and labels == labels_before, f'{what}: changed its arguments')
    ctx.tag(case['form'], 'default names' if labels is None else 'names')
    ctx.interesting(case['form'] != 'list')

    def check(what):
        exact(m.p, p, f'{what}: p')
        exact(m.to_matrix(), p, f'{what}: to_matrix')
        same(m.states, expected, f'{what}: states')
        require(all(type(x) is str for x in m.states), f'{what}: types of the names {m.states}')
        same((m.size, m.n), (n, n), f'{what}: size')
        same(m.to_dictionary(), {(a, b): float(p[i, j]) for i, a in enumerate(expected) for j, b in enumerate(expected)}, f'{what}: dictionary')
        for i, a in enumerate(expected):
            exact(m.conditional_probabilities(a), p[i], f'{what}: row {a!r}')
            same(m.transition_probability(expected[0], a), float(p[i, 0]), f'{what}: transition {a!r} to {expected[0]!r}')
    check(what)
    forms.spoil(given)
    if labels is not None:
        labels[:] = ['x'] * (n + 1)
    check(what + ' after its arguments were overwritten')
    m.p[...] = 5
    m.to_matrix()[...] = 5
    m.states[:] = []
    check(what + ' after its results were overwritten')
    lines = [x.strip() for x in str(m).splitlines() if x.strip()]
    summary = ['DISCRETE-TIME MARKOV CHAIN', f'SIZE:           {n}', f'RANK:           {m.rank}', f'CLASSES:        {len(m.communicating_classes)}', f'> RECURRENT:   {len(m.recurrent_classes)}', f'> TRANSIENT:   {len(m.transient_classes)}', f'ERGODIC:        {yes(m.is_ergodic)}',
               '> APERIODIC:   ' + ('YES' if m.is_aperiodic else f'NO ({m.period})'), f'> IRREDUCIBLE: {yes(m.is_irreducible)}', f'ABSORBING:      {yes(m.is_absorbing)}', f'MONOTONE:       {yes(m.is_stochastically_monotone)}', f'REGULAR:        {yes(m.is_regular)}', f'REVERSIBLE:     {yes(m.is_reversible)}', f'SYMMETRIC:      {yes(m.is_symmetric)}']
    same(lines, summary, f'{what}: summary')
    same(repr(m), 'MarkovChain', f'{what}: repr')


@st.composite
def hidden(draw):
    c = draw(gen.mostly(gen.hmm(2, 6, 2, 6), gen.hmm(2, 14, 7, 14)))
    c['pf'] = draw(st.sampled_from(forms.forms(np.array(c['p']), forms.MATRIX)))
    c['ef'] = draw(st.sampled_from(forms.forms(np.array(c['e']), forms.MATRIX)))
    c['caller'] = draw(st.integers(0, len(CALLERS) - 1))
    return c


@R.law(hidden(), 2400, 30000)
def hidden_model(case, ctx):
    """The numbers, names, sizes, summary and views of a hidden model, which shares nothing with what it was given."""
    from pydtmc import HiddenMarkovModel
    p, e = np.array(case['p']), np.array(case['e'])
    n, k = e.shape
    gp, ge = forms.form(case['pf'], p), forms.form(case['ef'], e)
    S, Y = [None if x is None else list(x) for x in (case['states'], case['symbols'])]
    ES = [f'P{i + 1}' for i in range(n)] if S is None else list(S)
    EY = [f'E{i + 1}' for i in range(k)] if Y is None else list(Y)
    if set(ES) & set(EY):
        raise Discard()
    what = f'HiddenMarkovModel({p.tolist()} as {case["pf"]}, {e.tolist()} as {case["ef"]}, {S}, {Y})'
    before = forms.value(gp), forms.value(ge)
    m = CALLERS[case['caller']](HiddenMarkovModel, gp, ge, S, Y)
    require(forms.unchanged(before[0], forms.value(gp)) and forms.unchanged(before[1], forms.value(ge)) and (S is None or S == ES) and (Y is None or Y == EY), f'{what}: changed its arguments')
    ctx.tag(case['pf'], case['ef'])
    ctx.interesting(case['pf'] != 'list' or case['ef'] != 'list')

    def check(what):
        exact(m.p, p, f'{what}: p')
        exact(m.e, e, f'{what}: e')
        exact(m.to_matrices()[0], p, f'{what}: to_matrices p')
        exact(m.to_matrices()[1], e, f'{what}: to_matrices e')
        same((m.states, m.symbols), (ES, EY), f'{what}: names')
        same((m.size, m.n, m.k), ((n, k), n, k), f'{what}: sizes')
        for i, a in enumerate(ES):
            for j, b in enumerate(ES):
                same(m.transition_probability(b, a), float(p[i, j]), f'{what}: transition {a!r} to {b!r}')
            for j, b in enumerate(EY):
                same(m.emission_probability(b, a), float(e[i, j]), f'{what}: emission {b!r} by {a!r}')
    check(what)
    forms.spoil(gp)
    forms.spoil(ge)
    for x in (S, Y):
        if x is not None:
            x[:] = []
    check(what + ' after its arguments were overwritten')
    for x in (m.p, m.e) + tuple(m.to_matrices()):
        x[...] = 5
    m.states[:] = []
    m.symbols[:] = []
    check(what + ' after its results were overwritten')
    same([x.strip() for x in str(m).splitlines() if x.strip()], ['HIDDEN MARKOV MODEL', f'STATES:  {n}', f'SYMBOLS: {k}', f'ERGODIC: {yes(m.is_ergodic)}', f'REGULAR: {yes(m.is_regular)}'], f'{what}: summary')
    same(repr(m), 'HiddenMarkovModel', f'{what}: repr')


# ------------------------------------------------------------------ corruptions

ENTRIES = [-1e-3, -1e-12, 1.0 + 1e-9, 2.0, float('nan'), float('inf'), -float('inf'), complex(0.5, 1e-3), '0.5', None, 1e300]
MATRIX = ['entry'] * 6 + ['sum', 'sum', 'moved', 'moved', 'null row', 'drop row', 'drop column', 'extra row', 'extra column', 'ragged', 'empty', 'none', 'number', 'text', 'tuple', 'dictionary', 'iterator', 'bool', 'object', 'strings', 'bytes', 'one', '1d', '3d', 'scalar', 'transposed sums', 'set', 'chain']
NAMES = ['short', 'long', 'duplicate', 'blank', 'empty name', 'integer', 'none inside', 'text', 'tuple', 'empty', 'dictionary', 'number', 'array', 'bytes', 'nested', 'boolean']


@st.composite
def corruptions(draw):
    c = draw(st.one_of(gen.hmm(2, 5, 2, 5, none=False)))
    c['target'] = draw(st.sampled_from(['chain', 'chain', 'hidden p', 'hidden e']))
    c['what'] = draw(st.sampled_from(MATRIX))
    c['entry'] = draw(st.integers(0, len(ENTRIES) - 1))
    c['at'] = [draw(st.integers(0, 4)), draw(st.integers(0, 4))]
    c['amount'] = draw(st.sampled_from([1e-4, -1e-4, 1e-3, -0.01, 0.25, -0.25]))
    c['form'] = draw(st.sampled_from(['list', 'array', 'fortran', 'strided', 'csr', 'lil', 'frame', 'longdouble', 'complex', 'readonly']))
    c['caller'] = draw(st.integers(0, len(CALLERS) - 1))
    return c


def corrupt(a, case):
    n, k = a.shape
    i, j = case['at'][0] % n, case['at'][1] % k
    w = case['what']
    f = lambda x: forms.form(case['form'], x)  # noqa
    if w == 'entry':
        x = ENTRIES[case['entry']]
        b = a.copy()
        if isinstance(x, float):
            # the rest of the row still sums to one with it, when that is possible
            rest = [t for t in range(k) if t != j]
            b[i, j] = x
            if math.isfinite(x) and abs(x) < 10:
                b[i, rest[0]] += 1 - b[i].sum()
            return f(b)
        b = a.tolist()
        b[i][j] = complex(a[i, j], x.imag) if isinstance(x, complex) else x
        return np.array(b) if isinstance(x, complex) and case['form'] != 'list' else b
    if w == 'sum':
        b = a.copy()
        j = int(np.argmax(b[i]))
        b[i, j] += case['amount'] if b[i, j] + case['amount'] <= 1 else -abs(case['amount'])
        return f(b)
    if w == 'moved':  # from a row to another one: the total stays
        b, o = a.copy(), (i + 1 + case['at'][1] % (n - 1)) % n
        j = int(np.argmax(b[i]))
        t = int(np.argmin(b[o]))
        x = min(abs(case['amount']), b[i, j], 1 - b[o, t])
        b[i, j] -= x
        b[o, t] += x
        return f(b)
    if w == 'null row':
        b = a.copy()
        b[i] = 0
        return f(b)
    if w == 'drop row':
        return f(np.delete(a, i, 0))
    if w == 'drop column':
        b = np.delete(a, j, 1)
        s = b.sum(axis=1, keepdims=True)
        return f(np.where(s > 0, b / np.where(s > 0, s, 1), 1 / max(1, k - 1)))
    if w == 'extra row':
        return f(np.vstack((a, a[i])))
    if w == 'extra column':
        return f(np.hstack((a, np.zeros((n, 1)))))
    if w == 'ragged':
        b = a.tolist()
        b[i] = b[i][:-1]
        return b
    if w == 'transposed sums':
        b = np.zeros((n, k))
        b[0] = 1.0
        return f(b)
    if w == 'chain':
        from pydtmc import MarkovChain
        return MarkovChain([[0.5, 0.5], [0.5, 0.5]])
    return {'empty': [], 'none': None, 'number': 1, 'text': 'x', 'tuple': tuple(tuple(r) for r in a.tolist()), 'dictionary': {i: r for i, r in enumerate(a.tolist())}, 'iterator': iter(a.tolist()), 'bool': np.eye(max(n, k))[:n, :k].astype(bool),
            'object': a.astype(object), 'strings': a.astype(str), 'bytes': a.astype('S'), 'one': np.ones((1, 1)), '1d': a[0], '3d': a[None, :, :], 'scalar': np.array(1.0), 'set': {1.0}}[w]


@R.law(corruptions(), 4800, 60000)
def corrupted_matrix(case, ctx):
    """Every corruption of a matrix is rejected."""
    from pydtmc import MarkovChain, HiddenMarkovModel
    p, e = np.array(case['p']), np.array(case['e'])
    t, w = case['target'], case['what']
    bad = corrupt(e if t == 'hidden e' else p, case)
    if t == 'hidden e' and w in ('drop column', 'extra column'):
        if w == 'extra column' or e.shape[1] > 2:
            raise Discard()
    call = CALLERS[case['caller']]
    ctx.tag(t, w)
    ctx.interesting(True)
    if t == 'chain':
        expect_validation_error(lambda: call(MarkovChain, bad), f'MarkovChain({bad!r}), {w}')
        expect_validation_error(lambda: call(MarkovChain, bad, list(case['states'])), f'MarkovChain({bad!r}, {case["states"]}), {w}')
        return
    a = (bad, e) if t == 'hidden p' else (p, bad)
    expect_validation_error(lambda: call(HiddenMarkovModel, *a), f'HiddenMarkovModel({a[0]!r}, {a[1]!r}), {w} of {t}')


@st.composite
def name_corruptions(draw):
    c = draw(gen.hmm(2, 5, 2, 5, none=False))
    c['target'] = draw(st.sampled_from(['chain', 'states', 'symbols', 'common']))
    c['what'] = draw(st.sampled_from(NAMES))
    c['at'] = [draw(st.integers(0, 4)), draw(st.integers(1, 4))]
    c['caller'] = draw(st.integers(0, len(CALLERS) - 1))
    return c


@R.law(name_corruptions(), 2400, 30000)
def corrupted_names(case, ctx):
    """Every corruption of the names is rejected, and names common to states and symbols as well."""
    from pydtmc import MarkovChain, HiddenMarkovModel
    t, w = case['target'], case['what']
    L = list(case['symbols'] if t == 'symbols' else case['states'])
    i = case['at'][0] % len(L)
    j = (i + case['at'][1]) % len(L)
    if i == j:
        j = (i + 1) % len(L)

    def put(x):
        return L[:i] + [x] + L[i + 1:]
    bad = {'short': L[:-1], 'long': L + ['?unknown?'], 'duplicate': put(L[j]), 'blank': put('  \t'), 'empty name': put(''), 'integer': put(1), 'none inside': put(None), 'text': 'ABCDEFGH'[:len(L)], 'tuple': tuple(L), 'empty': [], 'dictionary': {x: 1 for x in L},
           'number': len(L), 'array': np.array(L), 'bytes': put(b'A'), 'nested': put([L[i]]), 'boolean': put(True)}[w]
    call = CALLERS[case['caller']]
    ctx.interesting(True)
    ctx.tag(t, w)
    if t == 'chain':
        expect_validation_error(lambda: call(MarkovChain, case['p'], bad), f'MarkovChain({case["p"]}, {bad!r}), {w}')
    elif t == 'common':
        Y = list(case['symbols'])
        Y[case['at'][0] % len(Y)] = L[i]
        if len(set(Y)) == len(Y):
            expect_validation_error(lambda: call(HiddenMarkovModel, case['p'], case['e'], L, Y), f'HiddenMarkovModel with the states {L} and the symbols {Y}')
    else:
        a = (bad, case['symbols']) if t == 'states' else (case['states'], bad)
        expect_validation_error(lambda: call(HiddenMarkovModel, case['p'], case['e'], *a), f'HiddenMarkovModel({case["p"]}, {case["e"]}, {a[0]!r}, {a[1]!r}), {w} of {t}')


@R.law(st.tuples(gen.chain(2, 8), st.floats(1e-12, 5e-9), st.booleans()).map(lambda t: dict(t[0], eps=t[1], up=t[2])), 800, 10000)
def tolerance(case, ctx):
    """Rows which sum to one but for rounding are accepted and stored as they are."""
    from pydtmc import MarkovChain
    p = np.array(case['p'])
    for i in range(len(p)):
        j = int(np.argmax(p[i]))
        p[i, j] += case['eps'] if case['up'] and p[i, j] + case['eps'] <= 1 else -case['eps']
    exact(MarkovChain(p).p, p, f'MarkovChain({p.tolist()}).p')
    ctx.interesting(True)
