"""C28: fitting a sequence."""
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error

R = Registry('C28', '2 to 8 possible states, sequences from 2 to 300 observations, repeated up to 75000 (by name, by index, by numpy index; all states, a few, one only, cycles, last state seen once), both estimators, prior counts as lists, arrays, frames and sparse matrices, smoothing given, denied and omitted; oracle: exact rational estimates; non-trivial: at least two distinct transitions')


@st.composite
def sequence(draw, n):
    kind = draw(st.sampled_from(['any', 'any', 'few', 'cycle', 'constant', 'long', 'end']))
    if kind == 'any':
        return draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=30))
    if kind == 'few':
        keep = draw(gen.subset(n, 1, max(1, n - 1)))
        return [keep[x % len(keep)] for x in draw(st.lists(st.integers(0, 20), min_size=2, max_size=30))]
    if kind == 'cycle':
        perm = draw(st.permutations(range(n)))
        return [perm[i % n] for i in range(draw(st.integers(2, 3 * n + 1)))]
    if kind == 'constant':
        return [draw(st.integers(0, n - 1))] * draw(st.integers(2, 12))
    if kind == 'long':
        b = draw(st.binary(min_size=100, max_size=300))
        return [x % n for x in b]
    z = draw(st.integers(0, n - 1))  # the last state is seen for the first time
    return [x if x != z else (x + 1) % n for x in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=30))] + [z]


@st.composite
def cases(draw):
    n = draw(gen.mostly(st.integers(2, 8), st.integers(9, 24)))
    kind = draw(st.sampled_from(['map', 'mle']))
    param = None
    if kind == 'mle':
        param = draw(st.sampled_from([None, True, False, True]))
    elif draw(st.integers(0, 2)):
        top = draw(st.sampled_from([1, 2, 9, 1000]))
        param = [draw(st.lists(st.integers(1, top), min_size=n, max_size=n)) for _ in range(n)]
        for i in range(n):
            if draw(st.integers(0, 3)) == 0:
                param[i] = [1] * n
    return {'states': draw(gen.labels(n, none=False)), 'kind': kind, 'param': param, 'seq': draw(sequence(n)), 'rep': draw(st.sampled_from([1] * 12 + [20, 300, 6000])), 'form': draw(st.sampled_from(['names', 'names', 'ints', 'numpy'])), 'pform': draw(st.integers(0, 4))}


def repeated(case):
    seq = case['seq']
    return seq * min(case.get('rep', 1), max(1, 75000 // len(seq)))


def reference(n, seq, kind, param):
    f = [[0] * n for _ in range(n)]
    for a, b in zip(seq[:-1], seq[1:]):
        f[a][b] += 1
    out = []
    for i in range(n):
        if kind == 'map':  # mode of the Dirichlet posterior of parameters counts + hyperparameters
            w = [F(f[i][j] + (1 if param is None else param[i][j]) - 1) for j in range(n)]
        else:
            w = [F(f[i][j]) + (F(1, 1000) if param else 0) for j in range(n)]
        s = sum(w)
        out.append([float(x / s) if s else 1.0 / n for x in w])
    return f, out


def shape_param(param, form):
    import pandas as pd
    import scipy.sparse as sp
    if not isinstance(param, list):
        return param
    if form == 0:
        return [list(r) for r in param]
    if form == 1:
        return np.array(param, dtype=float)
    if form == 2:
        return np.asfortranarray(np.array(param))
    if form == 3:
        return pd.DataFrame(param)
    return sp.csr_matrix(np.array(param))


def shape_seq(seq, L, form):
    if form == 'names':
        return [L[x] for x in seq]
    if form == 'ints':
        return list(seq)
    return [np.int64(x) for x in seq]


@R.law(cases(), 4000, 60000)
def fit(case, ctx):
    """The estimate of every row, for every estimator, prior and form of the sequence; the names are the possible states in the given order."""
    from pydtmc import MarkovChain
    L, n, seq = case['states'], len(case['states']), repeated(case)
    f, ref = reference(n, seq, case['kind'], case['param'])
    given, s = list(L), shape_seq(seq, L, case['form'])
    before = list(s)
    param = shape_param(case['param'], case['pform'])
    if case['param'] is None and case['pform'] % 2:
        mc = MarkovChain.fit_sequence(case['kind'], given, s)
    else:
        mc = MarkovChain.fit_sequence(case['kind'], given, s, param)
    what = f'fit_sequence({case["kind"]}, {L}, {case["seq"]} {case.get("rep", 1)} times, {case["param"]})'
    same(mc.states, L, f'{what}: names')
    close(mc.p, ref, what, rtol=1e-9, atol=1e-12)
    z = np.array(ref) == 0.0
    require(np.array_equal(mc.p == 0.0, z), f'{what}: the null probabilities are {mc.p.tolist()} instead of {ref}')
    same(s, before, f'{what}: the sequence after the call')
    same(given, L, f'{what}: the possible states after the call')
    if isinstance(case['param'], list) and case['pform'] in (0, 1):
        same(np.array(param).tolist(), np.array(case['param']).tolist(), f'{what}: the prior after the call')
    ctx.interesting(sum(1 for r in f for x in r if x) > 1)
    ctx.tag(case['kind'], 'prior' if isinstance(case['param'], list) else f'param={case["param"]}', 'never left' if any(not any(r) for r in f) else 'all left', f'n={n}', f'repetitions={case.get("rep", 1)}')


@R.law(st.tuples(cases(), st.randoms(use_true_random=False)).map(lambda t: dict(t[0], perm=t[1].sample(range(len(t[0]['states'])), len(t[0]['states'])))), 800, 10000)
def relations(case, ctx):
    """Reordering the possible states reorders the estimate; the default prior is the maximum likelihood; a sequence followed by its own repetition."""
    from pydtmc import MarkovChain
    L, n, seq, perm = case['states'], len(case['states']), case['seq'], case['perm']
    names = [L[x] for x in seq]
    a = MarkovChain.fit_sequence('mle', L, list(names))
    b = MarkovChain.fit_sequence('map', L, list(names))
    close(b.p, a.p, f'default prior on {seq}', rtol=1e-12, atol=1e-14)
    c = MarkovChain.fit_sequence('mle', L, list(names), False)
    same(np.array_equal(a.p, c.p), True, 'no smoothing by default')
    d = MarkovChain.fit_sequence('mle', [L[i] for i in perm], list(names))
    close(d.p, a.p[np.ix_(perm, perm)], f'reordered states on {seq}', rtol=1e-12, atol=1e-14)
    if seq[0] == seq[-1]:
        e = MarkovChain.fit_sequence('mle', L, names + names[1:])
        close(e.p, a.p, f'doubled {seq}', rtol=1e-12, atol=1e-14)
        ctx.tag('closed walk')
    ctx.interesting(len(set(seq)) > 1)


@R.law(cases(), 400, 4000)
def rejected(case, ctx):
    """Invalid sequences, states, estimators and priors."""
    from pydtmc import MarkovChain
    f = MarkovChain.fit_sequence
    L, n, seq = case['states'], len(case['states']), [case['states'][x] for x in case['seq']]
    ctx.interesting(True)
    one = [[1] * n for _ in range(n)]

    def bad(what, *args):
        expect_validation_error(lambda: f(*args), f'fit_sequence: {what}: {args}')
    for k in ('map', 'mle'):
        bad('one observation', k, L, seq[:1])
        bad('no observation', k, L, [])
        bad('unknown state', k, L, seq + ['?unknown?'])
        bad('mixed', k, L, seq + [0])
        bad('index out of range', k, L, case['seq'] + [n])
        bad('negative index', k, L, case['seq'] + [-1])
        bad('floats', k, L, [float(x) for x in case['seq']])
        bad('not a list', k, L, 'abc')
        bad('null', k, L, None)
        bad('duplicated states', k, L + L[:1], seq)
        bad('one state', k, L[:1], [L[0], L[0]])
        bad('states', k, None, seq)
        bad('empty name', k, L[:-1] + [''], case['seq'])
    bad('estimator', 'mlx', L, seq)
    bad('smoothing', 'mle', L, seq, 1)
    bad('smoothing', 'mle', L, seq, 'yes')
    bad('smoothing', 'mle', L, seq, one)
    bad('prior', 'map', L, seq, True)
    bad('prior size', 'map', L, seq, [r + [1] for r in one])
    bad('prior size', 'map', L, seq, one + [[1] * n])
    for x in (0, -1, 1.5, float('nan'), float('inf')):
        w = [list(map(float, r)) for r in one]
        w[n - 1][case['seq'][0]] = x
        bad(f'prior of {x}', 'map', L, seq, w)
