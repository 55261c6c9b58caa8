"""C36: hidden estimation, fitting and random generation."""
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error, expect_value_error, expect_rejection, Discard, Violation
from props.c26 import masks, analyse, as_array, check as check_random
from props.c34 import status, status_arg, status_vector

R = Registry('C36', 'estimation from sequences of 2 to 40 pairs over 2 to 6 states and symbols; fits by every method from dense and sparse guesses of 2 or 3 states, one or several sequences, by name and index, every initial status; random models of every size, zeros and masks; oracle: exact counts, an independent expectation-maximisation step and likelihood, re-estimation along the predicted paths, invariants of the arguments; non-trivial: unseen states or symbols, zeros in the guess, masks')


@st.composite
def observations(draw):
    size = gen.mostly(st.integers(2, 6), st.integers(7, 20))
    n, k = draw(size), draw(size)
    length = draw(st.integers(2, 40))
    hi = draw(st.integers(0, n - 1))
    hk = draw(st.integers(0, k - 1))
    c = {'n': n, 'k': k, 'x': draw(st.lists(st.integers(0, hi), min_size=length, max_size=length)), 'y': draw(st.lists(st.integers(0, hk), min_size=length, max_size=length)), 'rep': draw(st.sampled_from([1, 1, 1, 1, 20, 150])),
         'bx': draw(st.booleans()), 'by': draw(st.booleans()), 'reverse': draw(st.booleans())}
    c['p'], c['e'] = [[0] * n] * n, [[0] * k] * n
    c['states'] = draw(gen.labels(n, none=False))
    c['symbols'] = [s + '~' if s in c['states'] else s for s in draw(gen.labels(k, none=False))]
    if set(c['states']) & set(c['symbols']) or len(set(c['symbols'])) < k:
        c['symbols'] = [f'{s}~~{i}' for i, s in enumerate(c['symbols'])]
    return c


def normal(counts):
    out = []
    for r in counts:
        s = sum(r)
        out.append([x / s for x in r] if s else [1.0 / len(r)] * len(r))
    return out


@R.law(observations(), 3200, 40000)
def estimation(case, ctx):
    """The normalised counts of the transitions and emissions, uniform rows for states never left or seen."""
    from pydtmc import HiddenMarkovModel as H
    n, k, S, Y = case['n'], case['k'], case['states'], case['symbols']
    x, y = case['x'] * case['rep'], case['y'] * case['rep']
    if case['reverse']:
        x, y = [n - 1 - i for i in x], [k - 1 - i for i in y]
    P, E = [[0] * n for _ in range(n)], [[0] * k for _ in range(n)]
    for a, b in zip(x[:-1], x[1:]):
        P[a][b] += 1
    for a, b in zip(x, y):
        E[a][b] += 1
    a, b = [S[i] for i in x] if case['bx'] else list(x), [Y[i] for i in y] if case['by'] else list(y)
    what = f'estimate({S}, {Y}, {a[:40]}, {b[:40]})'
    S2, Y2, a2, b2 = list(S), list(Y), list(a), list(b)
    h = H.estimate(S2, Y2, a2, b2)
    same((S2, Y2, a2, b2), (S, Y, a, b), f'{what}: the arguments after the call')
    same((h.states, h.symbols), (S, Y), f'{what}: names')
    close(h.p, normal(P), f'{what}: transitions', rtol=1e-13, atol=0)
    close(h.e, normal(E), f'{what}: emissions', rtol=1e-13, atol=0)
    if len(x) > 2:
        expect_value_error(lambda: H.estimate(S, Y, a, b[:-1]), f'{what} with one symbol less')
        expect_value_error(lambda: H.estimate(S, Y, a[:-1], b), f'{what} with one state less')
    unseen = any(sum(r) == 0 for r in P + E)
    ctx.tag('unseen states' if unseen else 'all states', 'long' if len(x) > 256 else 'short')
    ctx.interesting(unseen or len(x) > 4)


# ------------------------------------------------------------------ fitting

@st.composite
def fits(draw):
    c = draw(gen.hmm(2, 3, 2, 4, kinds=['dense', 'dense', 'sparse', 'ergodic', 'layout', 'rank1'], none=False))
    n, k = len(c['p']), len(c['e'][0])
    c['method'] = draw(st.sampled_from(['baum-welch', 'baum-welch', 'map', 'mle', 'viterbi']))
    c['status'] = status(draw, n)
    if draw(st.integers(0, 2)) == 0:
        c['seqs'] = draw(gen.indices(k, 2, 12))
    else:
        c['seqs'] = draw(st.lists(gen.indices(k, 2, 8), min_size=2, max_size=4))
    c['byname'] = draw(st.booleans())
    return c


def loglik_step(p, e, d, seqs):
    """Log likelihood of the possible sequences and expected counts (silent start), in scaled floats from an independent recursion."""
    n, k = e.shape
    P, E, ll, used = np.zeros((n, n)), np.zeros((n, k)), 0.0, 0
    for seq in seqs:
        T = len(seq)
        f, s, ok = [np.array(d, dtype=float)], [1.0], True
        for y in seq:
            g = (f[-1] @ p) * e[:, y]
            t = g.sum()
            if t <= 0:
                ok = False
                break
            f.append(g / t)
            s.append(t)
        if not ok:
            continue
        used += 1
        ll += sum(math.log(t) for t in s)
        b = np.ones(n)
        for t in range(T, 0, -1):
            y = seq[t - 1]
            E[:, y] += f[t] * b
            w = e[:, y] * b / s[t]
            P += f[t - 1][:, None] * p * w[None, :]
            b = p @ w
    return ll, P, E, used


def em(p, e, d, seqs):
    ll, P, E, used = loglik_step(p, e, d, seqs)
    a, b = P.sum(axis=1, keepdims=True), E.sum(axis=1, keepdims=True)
    if used == 0 or np.any(a == 0) or np.any(b == 0):
        return ll, None, None, used
    return ll, P / a, E / b, used


def reestimate(h, method, seqs, arg):
    """One step of the fitting along the predicted paths: the sum over the sequences of the normalised counts of the path, normalised."""
    n, k = h.size
    P, E, paths = np.zeros((n, n)), np.zeros((n, k)), []
    for seq in seqs:
        r = h.predict(method, seq, arg, True)
        if r is None:
            continue
        x = [int(i) for i in r[1]]
        paths.append(x)
        for M, pairs in ((P, zip(x[:-1], x[1:])), (E, zip(x, seq))):
            C = np.zeros_like(M)
            for a, b in pairs:
                C[a, b] += 1
            t = C.sum(axis=1, keepdims=True)
            M += np.divide(C, t, out=np.zeros_like(C), where=t > 0)
    a, b = P.sum(axis=1, keepdims=True), E.sum(axis=1, keepdims=True)
    if np.any(a == 0) or np.any(b == 0):
        return None, None
    return P / a, E / b


@R.law(fits(), 1600, 20000)
def fitting(case, ctx):
    """A fitted model is valid, keeps the null entries of the guess, and is a fixed point of the re-estimation; for Baum-Welch, it is never less likely than the guess."""
    from pydtmc import HiddenMarkovModel as H
    p, e, S, Y, m = np.array(case['p']), np.array(case['e']), case['states'], case['symbols'], case['method']
    n, k = e.shape
    single = not isinstance(case['seqs'][0], list)
    seqs = [case['seqs']] if single else case['seqs']
    given = [[Y[i] for i in s] for s in seqs] if case['byname'] else [list(s) for s in seqs]
    given = given[0] if single else given
    copy = list(given) if single else [list(s) for s in given]
    arg, d = status_arg(case['status'], S), [float(x) for x in status_vector(case['status'], n)]
    what = f'fit({m}, {p.tolist()}, {e.tolist()}, {given}, {arg})'
    ctx.tag(m, 'one sequence' if single else 'several', case['status'][0])

    def call(sequences, method=m):
        return H.fit(method, list(S), list(Y), p.copy(), e.copy(), sequences, arg)
    try:
        h = call(given)
    except ValueError as ex:
        ctx.tag('failure')
        message = str(ex)
        require(type(ex) is ValueError, f'{what}: {ex!r}')
        if m == 'baum-welch':
            # the failure must be the one of the method: a state never used, or no convergence
            q, f = p, e
            for it in range(400):
                q1, f1 = em(q, f, d, seqs)[1:3]
                if q1 is None or q1.sum(axis=1).min() < 0.5:
                    return
                if np.abs(q1 - q).max() < 1e-9 and np.abs(f1 - f).max() < 1e-9 and it < 300:
                    ll, P, E, used = loglik_step(q, f, d, seqs)
                    if min(P.sum(axis=1).min(), E.sum(axis=1).min()) < 1e-6:
                        return  # a state almost never used: rounding decides
                    raise Violation(f'{what}: failed with "{message}", but the method converges in {it} iterations to {q.tolist()} {f.tolist()}')
                q, f = q1, f1
        return
    same(given, copy, f'{what}: the sequences after the call')
    same((h.states, h.symbols), (S, Y), f'{what}: names')
    q, f = h.p, h.e
    for a, what2 in ((q, 'transitions'), (f, 'emissions')):
        require(np.all(np.isfinite(a)) and np.all(a >= 0) and np.allclose(a.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'{what}: {what2} not stochastic: {a.tolist()}')
    ctx.interesting(True)
    # names and indices, one sequence alone
    other = [list(s) for s in seqs] if case['byname'] else [[Y[i] for i in s] for s in seqs]
    same(call(other[0] if single else other) == h, True, f'{what}: by name and by index')
    if m in ('mle', 'viterbi'):
        same(call(given, 'viterbi' if m == 'mle' else 'mle') == h, True, f'{what}: mle and viterbi')
    if m == 'baum-welch':
        require(not np.any((p == 0) & (q > 0)) and not np.any((e == 0) & (f > 0)), f'{what}: null entries of the guess are positive in {q.tolist()} {f.tolist()}')
        ll0, _, _, used0 = em(p, e, d, seqs)
        ll1, q1, f1, used1 = em(q, f, d, seqs)
        require(used1 >= used0, f'{what}: possible sequences became impossible')
        if used1 == used0:
            require(ll1 >= ll0 - 1e-6 * (1 + abs(ll0)), f'{what}: the log likelihood fell from {ll0} to {ll1}')
        if q1 is not None:
            _, P, E, _ = loglik_step(q, f, d, seqs)
            a, b = P.sum(axis=1) > 1e-9, E.sum(axis=1) > 1e-9  # the probabilities of the states almost never used hang on underflows
            close(q1[a], q[a], f'{what}: another step changes the transitions', rtol=0, atol=5e-6 * n)
            close(f1[b], f[b], f'{what}: another step changes the emissions', rtol=0, atol=5e-6 * k)
        ctx.tag('improved' if ll1 > ll0 + 1e-9 else 'same likelihood')
    else:
        q1, f1 = reestimate(h, m, seqs, arg)
        require(q1 is not None, f'{what}: {q.tolist()} {f.tolist()} is not a fixed point: its paths leave a state out')
        close(q1, q, f'{what}: another step changes the transitions', rtol=0, atol=1e-9)
        close(f1, f, f'{what}: another step changes the emissions', rtol=0, atol=1e-9)


@st.composite
def visible(draw):
    """Guesses whose symbols tell the states: the expectation-maximisation has a closed form."""
    n = draw(st.integers(2, 4))
    c = draw(gen.hmm(n, n, n, n, kinds=['dense'], none=False))
    c['perm'] = draw(st.permutations(range(n)))
    c['status'] = status(draw, n)
    c['seqs'] = draw(st.lists(gen.indices(n, 2, 12), min_size=2, max_size=4))
    return c


@R.law(visible(), 800, 8000)
def visible_fitting(case, ctx):
    """When every state emits its own symbol, the Baum-Welch fit solves p = normalised(counts of the sequences + posterior transitions of the silent start)."""
    from pydtmc import HiddenMarkovModel as H
    n, perm = len(case['p']), case['perm']
    p = np.array(case['p'])
    e = np.zeros((n, n))
    for i, j in enumerate(perm):
        e[i, j] = 1.0
    d = np.array([float(x) for x in status_vector(case['status'], n)])
    paths = [[perm.index(y) for y in s] for s in case['seqs']]
    if len({x for s in paths for x in s[:-1]}) < n:
        raise Discard()
    what = f'fit(baum-welch, {p.tolist()}, {e.tolist()}, {case["seqs"]}, {case["status"]})'
    try:
        h = H.fit('baum-welch', case['states'], case['symbols'], p, e, case['seqs'], status_arg(case['status'], case['states']))
    except ValueError:
        return
    q = h.p
    C = np.zeros((n, n))
    for s in paths:
        w = d * q[:, s[0]]
        C[:, s[0]] += w / w.sum()
        for a, b in zip(s[:-1], s[1:]):
            C[a, b] += 1
    close(h.e, e, f'{what}: emissions', rtol=0, atol=1e-9)
    close(q, C / C.sum(axis=1, keepdims=True), f'{what}: transitions', rtol=0, atol=1e-4)
    ctx.interesting(True)


# ------------------------------------------------------------------ random models

@st.composite
def randoms(draw):
    size = gen.mostly(st.integers(2, 6), st.integers(7, 12), 15)
    n, k = draw(size), draw(size)
    c = {'n': n, 'k': k, 'pm': draw(masks(n, n)), 'em': draw(masks(n, k)), 'pz': draw(st.one_of(st.just(0), st.integers(0, n * n), st.just(-1), st.just(-2))), 'ez': draw(st.one_of(st.just(0), st.integers(0, n * k), st.just(-1), st.just(-2))), 'seed': draw(st.integers(0, 2 ** 31 - 1))}
    c['p'], c['e'] = [[0] * n] * n, [[0] * k] * n
    c['states'] = draw(gen.labels(n, prefix='s'))
    c['symbols'] = draw(gen.labels(k, prefix='y'))
    return c


@R.law(randoms(), 3200, 40000)
def random(case, ctx):
    """Sizes, names, zeros, masks and seed are respected; impossible requests are rejected; the masks are not modified."""
    from pydtmc import HiddenMarkovModel as H
    n, k = case['n'], case['k']
    S, Y = case['states'], case['symbols']
    if set(gen.hmm_states(case)) & set(gen.hmm_symbols(case)):
        raise Discard()
    vp, _, rp = analyse(case['pm'], n, n)
    ve, _, re_ = analyse(case['em'], n, k)
    zeros = []
    for z, room in ((case['pz'], rp), (case['ez'], re_)):
        zeros.append(max(room, 0) if z == -1 else max(room, 0) + 1 if z == -2 else z)
    pz, ez = zeros
    what = f'random({n}, {k}, p_zeros={pz}, p_mask={case["pm"]}, e_zeros={ez}, e_mask={case["em"]}, seed={case["seed"]})'
    pm, em_ = [None if x is None else as_array(x) for x in (case['pm'], case['em'])]

    def call(seed=case['seed'], lists=False):
        a, b = pm, em_
        if lists:
            a, b = [None if x is None else x.tolist() for x in (pm, em_)]
        return H.random(n, k, S, pz, a, Y, ez, b, seed)
    if not (vp and ve) or pz > rp or ez > re_:
        ctx.tag('impossible')
        expect_validation_error(lambda: call(), what)
        return
    ctx.tag('p mask' if pm is not None else 'no p mask', 'e mask' if em_ is not None else 'no e mask', 'zeros' if pz or ez else 'no zeros')
    ctx.interesting(pm is not None or em_ is not None or pz or ez)
    h = call()
    for a, b in ((pm, case['pm']), (em_, case['em'])):
        if a is not None:
            close(a, as_array(b), f'{what}: the mask after the call', rtol=0, atol=0)
    same((h.states, h.symbols), (gen.hmm_states(case), gen.hmm_symbols(case)), f'{what}: names')
    check_random(h.p, case['pm'], n, n, pz, what + ' transitions')
    check_random(h.e, case['em'], n, k, ez, what + ' emissions')
    np.random.seed(7)
    for other in (call(), call(lists=True)):
        same(np.array_equal(other.p, h.p) and np.array_equal(other.e, h.e), True, f'{what}: same seed')
    if pm is None and em_ is None and not pz and not ez:
        x = call(seed=case['seed'] ^ 12345)
        require(not np.array_equal(x.p, h.p) and not np.array_equal(x.e, h.e), f'{what}: another seed gives the same model')


@R.law(st.tuples(gen.hmm(2, 4, 2, 4, none=False), st.integers(0, 100)).map(lambda t: dict(t[0], at=t[1])), 800, 8000)
def rejected(case, ctx):
    """Invalid arguments of estimations, fits and random models."""
    from pydtmc import HiddenMarkovModel as H
    S, Y, p, e = case['states'], case['symbols'], np.array(case['p']), np.array(case['e'])
    n, k = e.shape
    ctx.interesting(True)
    x, y = [0, 1, 0], [1, 0, 1]
    bad_names = lambda L, O: ([], L[:1], [L[0]] * 2, L + [L[0]], [1, 2], [''] + L[1:], None, tuple(L), 'AB', [O[0]] + L[1:])  # noqa
    for bad in bad_names(S, Y):
        expect_validation_error(lambda: H.estimate(bad, Y, x, y), f'estimate with the states {bad}')
        expect_validation_error(lambda: H.fit('mle', bad, Y, p, e, y), f'fit with the states {bad}')
    for bad in bad_names(Y, S):
        expect_validation_error(lambda: H.estimate(S, bad, x, y), f'estimate with the symbols {bad}')
        expect_validation_error(lambda: H.fit('mle', S, bad, p, e, y), f'fit with the symbols {bad}')
    for bad in ([], [0], None, 0, [0, n, 0], [-1, 0, 0], [0, S[1], 0], ['?unknown?', S[0], S[0]], [0.0, 1.0, 0.0], (0, 1, 0)):
        expect_validation_error(lambda: H.estimate(S, Y, bad, y), f'estimate with the sequence of states {bad}')
    for bad in ([], [0], None, 0, [0, k, 0], [-1, 0, 0], [0, Y[1], 0], ['?unknown?', Y[0], Y[0]], [0.0, 1.0, 0.0], (0, 1, 0)):
        expect_validation_error(lambda: H.estimate(S, Y, x, bad), f'estimate with the sequence of symbols {bad}')
    for m in ('baum-welch', 'map', 'mle', 'viterbi'):
        for bad in ([], [0], None, 0, [0, k, 0], [-1, 0, 0], [0, Y[1], 0], ['?unknown?', Y[0], Y[0]], [0.0, 1.0], (0, 1, 0), [[0, 1]], [[0, 1], [0]], [[0, 1], []], [[0, 1], 1], [[0, 1], [0, k]], [[0, 1], [Y[0], '?unknown?']]):
            expect_validation_error(lambda: H.fit(m, S, Y, p, e, bad), f'fit with the symbols {bad}')
        for bad in (p[:-1], p[:, :-1], p * 2, p - 1, None, 'x', np.full((n, n), np.nan), np.full((n + 1, n + 1), 1 / (n + 1))):
            expect_validation_error(lambda: H.fit(m, S, Y, bad, e, y), f'fit with the transitions {bad}')
        for bad in (e[:-1], e * 2, e - 1, None, 'x', np.full((n, k), np.nan), np.vstack((e, e[:1])), np.full((n, k + 1), 1 / (k + 1)), e[:, :1] * 0 + 1):
            expect_validation_error(lambda: H.fit(m, S, Y, p, bad, y), f'fit with the emissions {bad}')
        for bad in (n, -1, '?unknown?', Y[0], 1.0, True, [1.0] * n, [0.5] * (n + 1), [1.5, -0.5] + [0.0] * (n - 2), [float('nan')] * n, []):
            expect_validation_error(lambda: H.fit(m, S, Y, p, e, y, bad), f'fit with the initial status {bad}')
    for bad in ('', 'MLE', 'x', None, 1, ['mle']):
        expect_validation_error(lambda: H.fit(bad, S, Y, p, e, y), f'fit({bad!r})')
    for bad in (1, 0, -1, 2.0, '2', None, True):
        expect_validation_error(lambda: H.random(bad, 2), f'random({bad!r}, 2)')
        expect_validation_error(lambda: H.random(2, bad), f'random(2, {bad!r})')
    for bad in (-1, 1.0, '0', None, True):
        expect_validation_error(lambda: H.random(2, 3, p_zeros=bad), f'random with p_zeros={bad!r}')
        expect_validation_error(lambda: H.random(2, 3, e_zeros=bad), f'random with e_zeros={bad!r}')
    for bad in (S[:-1], S + ['?unknown?'], [S[0]] * n, [1] * n, tuple(S), [f'E{i + 1}' for i in range(n)]):
        expect_validation_error(lambda: H.random(n, k, bad), f'random with the states {bad}')
    for bad in (Y[:-1], Y + ['?unknown?'], [Y[0]] * k, [1] * k, tuple(Y), [f'P{i + 1}' for i in range(k)]):
        expect_validation_error(lambda: H.random(n, k, symbols=bad), f'random with the symbols {bad}')
    for bad in (p[:-1], p - 2, p + 0.5, 'x', np.full((n, n), np.inf), p.ravel()):
        expect_validation_error(lambda: H.random(n, k, p_mask=bad), f'random with p_mask={bad}')
    for bad in (e[:-1], e - 2, e + 0.6, 'x', np.full((n, k), np.inf), e.ravel(), np.hstack((e, e))):
        expect_validation_error(lambda: H.random(n, k, e_mask=bad), f'random with e_mask={bad}')
    for bad in (-1, 1.5, 'x', True, [1]):
        expect_validation_error(lambda: H.random(n, k, seed=bad), f'random with seed={bad!r}')
