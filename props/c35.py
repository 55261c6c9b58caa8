"""C35: predictions and simulations of hidden models."""
import itertools
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, is_none, expect_validation_error, Discard
from props.c34 import cases as decode_cases, status_arg, status_vector, Tables, flog

R = Registry('C35', 'hidden models of 2 to 6 states and 2 to 6 symbols with structural zeros; sequences of 2 to 30 symbols (long ones up to 300), every initial status; walks of 2 to 60 steps with every start, stop and seed, walks of 3000 steps for the frequencies; oracle: dynamic programming and enumeration of the hidden paths in rationals, walk invariants; non-trivial: a null transition or emission')


def best_path(p, e, d, seq):
    """The largest probability of a hidden path x_1..x_T together with the best x_0 (not emitting), in rationals."""
    P, E = [[F(x) for x in r] for r in p], [[F(x) for x in r] for r in e]
    n = len(p)
    w = list(d)
    for s in seq:
        w = [max(w[i] * P[i][j] for i in range(n)) * E[j][s] for j in range(n)]
    return max(w)


def viterbi_start(d, e, seq, true=False):
    """The code weighs the initial status by the emission of the first symbol, which is emitted again at the first step: pinned by the fixtures, see the known findings."""
    return list(d) if true else [x * F(r[seq[0]]) for x, r in zip(d, e)]


def path_log(p, e, d, seq, path):
    n = len(p)
    first = max(d[i] * F(p[i][path[0]]) for i in range(n))
    factors = [first, F(e[path[0]][seq[0]])]
    for t in range(1, len(seq)):
        factors += [F(p[path[t - 1]][path[t]]), F(e[path[t]][seq[t]])]
    return -math.inf if any(x == 0 for x in factors) else math.fsum(flog(x) for x in factors)


def check(case, ctx):
    p, e, seq = case['p'], case['e'], case['seq']
    n, T = len(p), len(seq)
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    h = gen.build_hmm(case)
    d = status_vector(case['status'], n)
    arg, symbols = status_arg(case['status'], S), [Y[i] for i in seq] if case['byname'] else list(seq)
    what = f'predict(..., {symbols[:30]}, {arg}) of {p} {e}'
    ctx.interesting(any(x == 0 for row in p + e for x in row))
    R_ = Tables(p, e, d, seq)
    total = R_.total
    if R_.underflow():
        raise Discard()
    ctx.tag('impossible' if total == 0 else 'possible', case['status'][0])
    results = {k: h.predict(k, symbols, arg) for k in ('map', 'mle', 'viterbi')}
    indices = {k: h.predict(k, symbols, arg, True) for k in results}
    w = viterbi_start(d, e, seq, case.get('__known__'))
    best = best_path(p, e, w, seq)
    for k in list(results):
        if total == 0 or (best == 0 and k != 'map'):
            is_none(results[k], f'{k} {what} of an impossible sequence')
            is_none(indices[k], f'{k} {what} of an impossible sequence')
            del results[k]
    for k in results:
        require(results[k] is not None and indices[k] is not None, f'{k} {what}: none for a possible sequence')
        same(len(results[k]), 2, 'number of results')
        same(results[k][1], [S[i] for i in indices[k][1]], f'{k} {what}: names and indices')
        same(results[k][0] == indices[k][0], True, f'{k} {what}: log probability with names and indices')
        same(len(indices[k][1]), T, f'{k} {what}: length of the path')
    if not results:
        return
    # maximum a posteriori
    close(results['map'][0], R_.log_total(), f'map {what}: log probability', rtol=1e-9, atol=1e-8)
    for t, x in enumerate(indices['map'][1]):
        post = [R_.posterior(t, i) for i in range(n)]
        require(post[x] >= max(post) - 1e-9, lambda: f'map {what}: state {x} at {t} has the posterior {post[x]} of {post}')
    # maximum likelihood
    if best == 0:
        return
    same(results['mle'] == results['viterbi'], True, f'{what}: mle and viterbi')
    best = flog(best)
    got, path = indices['viterbi']
    close(got, best, f'viterbi {what}: log probability', rtol=1e-10, atol=1e-9)
    own = path_log(p, e, w, seq, path)
    require(own >= best - 1e-9 * (1 + abs(best)), lambda: f'viterbi {what}: the path {path} has the log probability {own}, the best one {best}')
    same(gen.build_hmm(case) == h, True, 'the model after the calls')


@R.law(decode_cases(), 3200, 40000)
def prediction(case, ctx):
    """Maximum likelihood and maximum a posteriori paths, none for impossible sequences."""
    check(case, ctx)


@R.law(decode_cases(2, 40, 5, True), 1600, 20000)
def magnitudes(case, ctx):
    """The same with transition and emission probabilities down to 2^-50."""
    check(case, ctx)


@R.law(decode_cases(30, 120, 4, True, ['identity', 'closed', 'competing', 'functional', 'slow']), 240, 3000)
def ruled_out(case, ctx):
    """The same for long sequences in separate classes."""
    check(case, ctx)


@R.law(decode_cases(2, 30, 14), 240, 3000)
def large(case, ctx):
    """The same for up to 14 states and symbols."""
    check(case, ctx)


@R.law(decode_cases(60, 300, 4), 160, 1600)
def long_prediction(case, ctx):
    """The same for long sequences."""
    check(case, ctx)


@R.law(decode_cases(2, 5, 4), 1200, 12000)
def enumeration(case, ctx):
    """No hidden path is more probable than the maximum likelihood one."""
    p, e, seq = case['p'], case['e'], case['seq']
    n = len(p)
    d = viterbi_start(status_vector(case['status'], n), e, seq)
    r = gen.build_hmm(case).predict('viterbi', list(seq), status_arg(case['status'], gen.hmm_states(case)), True)
    best = max(path_log(p, e, d, seq, x) for x in itertools.product(range(n), repeat=len(seq)))
    ctx.interesting(best > -math.inf)
    if best == -math.inf:
        is_none(r, f'viterbi({seq})')
        return
    require(r is not None, f'viterbi({seq}): none for a possible sequence')
    close(r[0], best, f'viterbi({seq})', rtol=1e-10, atol=1e-9)
    close(path_log(p, e, d, seq, r[1]), best, f'viterbi({seq}): its path {r[1]}', rtol=1e-10, atol=1e-9)


@st.composite
def walks(draw, smin=2, smax=60, nmax=6):
    c = draw(gen.mostly(gen.hmm(2, nmax, 2, nmax), gen.hmm(2, 12, 2, 12)) if nmax == 6 else gen.hmm(2, nmax, 2, nmax))
    n, k = len(c['p']), len(c['e'][0])
    c['steps'] = draw(st.integers(smin, smax))
    c['start'] = draw(st.one_of(st.none(), st.integers(0, n - 1), st.integers(0, n - 1)))
    c['final'] = draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1)))
    c['symbol'] = draw(st.one_of(st.none(), st.none(), st.integers(0, k - 1)))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['byname'] = draw(st.booleans())
    return c


def pick(names, i, byname):
    return None if i is None else names[i] if byname else i


@R.law(walks(), 3200, 40000)
def simulation(case, ctx):
    """Walks use possible transitions and emissions, have the asked length or stop at the first final state or symbol after the start, and depend on the seed only."""
    h = gen.build_hmm(case)
    p, e, S, Y = case['p'], case['e'], gen.hmm_states(case), gen.hmm_symbols(case)
    b = case['byname']
    a = (case['steps'], pick(S, case['start'], b), pick(S, case['final'], b), pick(Y, case['symbol'], b))
    what = f'simulate{a} of {p} {e}'
    x, y = h.simulate(*a, output_indices=True, seed=case['seed'])
    u, v = h.simulate(*a, output_indices=False, seed=case['seed'])
    same((u, v), ([S[i] for i in x], [Y[i] for i in y]), f'{what}: names and indices')
    z = h.simulate(case['steps'], case['start'], case['final'], case['symbol'], True, case['seed'])
    same((list(z[0]), list(z[1])), (list(x), list(y)), f'{what}: the same seed')
    require(len(x) == len(y), f'{what}: lengths {len(x)} {len(y)}')
    if case['start'] is not None:
        same(x[0], case['start'], f'{what}: start')
    for i, j in zip(x[:-1], x[1:]):
        require(p[i][j] > 0, lambda: f'{what}: impossible transition {i} -> {j} in {x}')
    for i, j in zip(x, y):
        require(e[i][j] > 0, lambda: f'{what}: impossible emission {j} from {i}')
    stop = [t for t in range(1, len(x)) if (case['final'] is not None and x[t] == case['final']) or (case['symbol'] is not None and y[t] == case['symbol'])]
    if stop:
        same(len(x), stop[0] + 1, f'{what}: stops at the first final state or symbol of {x} {y}')
    else:
        same(len(x), case['steps'] + 1, f'{what}: length of {x}')
    for target in ('state', 'symbol', 'both'):
        i = case['start'] or 0
        r = h.next(pick(S, i, b), target, True, case['seed'])
        q = h.next(i, target, False, case['seed'])
        st_, sy = (r if target == 'both' else (r, None) if target == 'state' else (None, r))
        same(q, (S[st_], Y[sy]) if target == 'both' else S[st_] if target == 'state' else Y[sy], f'next({i}, {target}): names and indices')
        if st_ is not None:
            require(p[i][st_] > 0, f'next({i}, {target}): impossible state {st_}')
            if sy is not None:
                require(e[st_][sy] > 0, f'next({i}, {target}): impossible symbol {sy} of the state {st_}')
        else:
            require(any(p[i][j] > 0 and e[j][sy] > 0 for j in range(len(p))), f'next({i}, {target}): impossible symbol {sy}')
    same(h.next(case['start'] or 0, seed=3) == h.next(case['start'] or 0, 'both', False, 3), True, 'next: defaults')
    ctx.tag('stopped' if stop else 'full', 'random start' if case['start'] is None else 'given start', 'final state' if case['final'] is not None else '', 'final symbol' if case['symbol'] is not None else '')
    ctx.interesting(any(w == 0 for row in p + e for w in row))


@R.law(walks(3000, 4000, 4), 160, 1600)
def frequencies(case, ctx):
    """The transitions and emissions of long walks have the frequencies of the model (6.5 standard deviations)."""
    h = gen.build_hmm(case)
    p, e = case['p'], case['e']
    n, k = len(p), len(e[0])
    x, y = h.simulate(case['steps'], case['start'], output_indices=True, seed=case['seed'])
    for i in range(n):
        nxt = [b for a, b in zip(x[:-1], x[1:]) if a == i]
        sym = [b for a, b in zip(x[1:], y[1:]) if a == i]
        for seq, row in ((nxt, p[i]), (sym, e[i])):
            for j, q in enumerate(row):
                N, c = len(seq), seq.count(j)
                require(abs(c - N * q) <= 6.5 * math.sqrt(N * q * (1 - q)) + 8, lambda: f'frequency of {j} from {i}: {c} of {N} instead of {q} in a walk of {p} {e}')
    # single steps, and the first symbol and state of walks
    i = case['start'] or 0
    two = [[sum(p[i][a] * e[a][b] for a in [a]) for b in range(k)] for a in range(n)]
    N = 400
    counts, first, starts = np.zeros((n, k)), np.zeros(k), np.zeros(n)
    for s in range(N):
        a, b = h.next(i, 'both', True, case['seed'] % 10 ** 6 + s)
        counts[a, b] += 1
        w = h.simulate(2, i, output_indices=True, seed=case['seed'] % 10 ** 6 + s)
        first[w[1][0]] += 1
        starts[h.simulate(2, output_indices=True, seed=case['seed'] % 10 ** 6 + s)[0][0]] += 1
    for got, ref in ((counts.ravel(), np.ravel(two)), (first, np.array(e[i])), (starts, np.full(n, 1 / n))):
        for c, q in zip(got, ref):
            require(abs(c - N * q) <= 6.5 * math.sqrt(max(0.0, N * q * (1 - q))) + 8, lambda: f'frequencies of single steps from {i}: {got.tolist()} of {N} instead of {ref.tolist()}')
    ctx.interesting(True)


@R.law(decode_cases(2, 4, 4), 800, 8000)
def rejected(case, ctx):
    """Invalid arguments of predictions and simulations."""
    h = gen.build_hmm(case)
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    n, k = len(S), len(Y)
    ctx.interesting(True)
    ok = [0, 1]
    for t in ('map', 'mle', 'viterbi'):
        for bad in ([], [0], None, 0, Y[0], [0, k], [-1, 0], [0, Y[1]], ['?unknown?', Y[0]], [S[0], S[1]], [0.0, 1.0], [True, False], (0, 1)):
            expect_validation_error(lambda: h.predict(t, bad), f'predict({t}, {bad!r})')
        for bad in (n, -1, '?unknown?', Y[0], 1.0, True, [1.0] * n, [0.5] * (n + 1), [1.5, -0.5] + [0.0] * (n - 2), [float('nan')] * n, []):
            expect_validation_error(lambda: h.predict(t, ok, bad), f'predict({t}, {ok}, {bad!r})')
        for bad in (0, 1, None, 'True', 1.0):
            expect_validation_error(lambda: h.predict(t, ok, None, bad), f'predict with output_indices={bad!r}')
    for bad in ('', 'MAP', 'x', None, 1, ['map']):
        expect_validation_error(lambda: h.predict(bad, ok), f'predict({bad!r})')
    for bad in (1, 0, -1, 2.0, '2', None, True, [2]):
        expect_validation_error(lambda: h.simulate(bad, 0), f'simulate({bad!r})')
    for bad in (n, -1, '?unknown?', Y[0], 1.0, True, [0], ''):
        expect_validation_error(lambda: h.simulate(2, bad), f'simulate(2, {bad!r})')
        expect_validation_error(lambda: h.simulate(2, 0, bad), f'simulate(2, 0, {bad!r})')
        expect_validation_error(lambda: h.next(bad), f'next({bad!r})')
    for bad in (k, -1, '?unknown?', S[0], 1.0, True, [0], ''):
        expect_validation_error(lambda: h.simulate(2, 0, None, bad), f'simulate(2, 0, None, {bad!r})')
    for bad in (0, None, 'x', 1.0):
        expect_validation_error(lambda: h.simulate(2, 0, None, None, bad), f'simulate with output_indices={bad!r}')
        expect_validation_error(lambda: h.next(0, 'both', bad), f'next with output_index={bad!r}')
    for bad in (-1, 1.5, 'x', True, [1]):
        expect_validation_error(lambda: h.simulate(2, 0, seed=bad), f'simulate with seed={bad!r}')
        expect_validation_error(lambda: h.next(0, seed=bad), f'next with seed={bad!r}')
    for bad in ('', 'states', None, 1):
        expect_validation_error(lambda: h.next(0, bad), f'next(0, {bad!r})')
