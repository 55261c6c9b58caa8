"""C26: random generation."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error

R = Registry('C26', 'sizes from 2 to 8, any number of zeros up to and beyond the admissible one, masks of undefined, null and positive values with complete, incomplete and excessive rows, names, seeds, Dirichlet process parameters, numpy distributions with null, negative, infinite and undefined draws; oracle: invariants of the arguments and reproducibility; non-trivial: at least one zero, mask value or parameter out of its default')


@st.composite
def masks(draw, n, m):
    """None or a matrix; entries: None (undefined) or multiples of 1/8 (or tenths)."""
    if draw(st.booleans()):
        return None
    out = []
    den = draw(st.sampled_from([8, 10, 20]))
    for _ in range(n):
        kind = draw(st.sampled_from(['free', 'some', 'some', 'full', 'zeros', 'complete', 'short', 'over', 'tiny', 'tiny', 'nearly', 'nearly']) if draw(st.integers(0, 2)) == 0 else st.sampled_from(['free', 'some', 'zeros', 'complete', 'full']))
        if kind == 'free':
            out.append([None] * m)
        elif kind == 'zeros':
            row = [draw(st.sampled_from([None, 0.0])) for _ in range(m)]
            if all(x == 0.0 for x in row):
                row[draw(st.integers(0, m - 1))] = None
            out.append(row)
        elif kind == 'tiny':  # small probabilities, with room for the others
            row = [draw(st.sampled_from([None, 0.0, 2.0 ** -20, 2.0 ** -30, 2.0 ** -40, 1e-9, 1e-15, 1e-300])) for _ in range(m)]
            row[draw(st.integers(0, m - 1))] = None
            out.append(row)
        elif kind == 'nearly':  # almost everything is given
            row = [None] * m
            k = draw(st.integers(1, min(m - 1, 5)))
            for j in range(k):
                row[j] = 1.0 / 2 ** (j + 1) if j < k - 1 else 1.0 / 2 ** (k - 1) - 2.0 ** -draw(st.integers(6, 14))
            row = draw(st.permutations(row))
            out.append(list(row))
        else:
            w = draw(st.lists(st.integers(0, den), min_size=m, max_size=m))
            if kind in ('full', 'complete'):
                k = draw(st.integers(1, m))
                w = [x + 1 for x in w[:k]]
                vals = gen.alloc(w, den if den >= m else den * m)
                tot = den if den >= m else den * m
                row = [v / tot for v in vals] + [None if kind == 'full' else 0.0] * (m - k)
                perm = draw(st.permutations(range(m)))
                row = [row[p] for p in perm]
            else:
                tot = den * m
                row = [x / tot for x in w]
                if kind == 'some':
                    keep = draw(st.lists(st.booleans(), min_size=m, max_size=m))
                    keep[draw(st.integers(0, m - 1))] = False
                    row = [x if q else None for x, q in zip(row, keep)]
                elif kind == 'over':
                    row = [0.75 if i < 2 else None for i in range(m)]
            out.append(row)
    return out


@st.composite
def cases(draw):
    n = draw(gen.mostly(st.integers(2, 8), st.integers(9, 14), 15))
    return {'n': n, 'mask': draw(masks(n, n)), 'zeros': draw(st.one_of(st.just(0), st.integers(0, n * n), st.just(-1), st.just(-2))), 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'states': draw(gen.labels(n))}


def analyse(mask, n, m):
    """(valid, full rows, maximum number of zeros)."""
    M = mask or [[None] * m for _ in range(n)]
    full, room, valid = [], 0, True
    for r in M:
        s = sum(x for x in r if x is not None)
        und = sum(1 for x in r if x is None)
        if s > 1 + 1e-9:
            valid = False
        isfull = abs(s - 1) < 1e-9
        full.append(isfull)
        if not isfull:
            if und == 0:
                valid = False
            room += und - 1
    return valid, full, room


def as_array(mask):
    return np.array([[np.nan if x is None else x for x in r] for r in mask], dtype=float)


def check(p, mask, n, m, zeros, what):
    """The invariants of a random stochastic matrix."""
    M = mask or [[None] * m for _ in range(n)]
    _, full, _ = analyse(mask, n, m)
    require(p.shape == (n, m), f'{what}: shape {p.shape}')
    require(np.all(np.isfinite(p)) and np.all(p >= 0) and np.allclose(p.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'{what}: not stochastic {p.tolist()}')
    count = 0
    for i in range(n):
        for j in range(m):
            if M[i][j] is not None:
                require(p[i, j] == M[i][j], f'{what}: entry {(i, j)} is {p[i, j]} instead of the {M[i][j]} of the mask')
            elif full[i]:
                require(p[i, j] == 0.0, f'{what}: entry {(i, j)} is {p[i, j]}, but the mask leaves no probability to it')
            elif p[i, j] == 0.0:
                count += 1
    same(count, zeros, f'{what}: number of null probabilities outside of the mask ({p.tolist()})')


@R.law(cases(), 4000, 40000)
def random(case, ctx):
    """Size, names, zeros, mask and seed are respected; impossible requests are rejected; the mask is not modified."""
    from pydtmc import MarkovChain
    n, mask, L = case['n'], case['mask'], case['states']
    valid, full, room = analyse(mask, n, n)
    zeros = case['zeros']
    if zeros == -1:
        zeros = max(room, 0)
    elif zeros == -2:
        zeros = max(room, 0) + 1
    what = f'random({n}, zeros={zeros}, mask={mask}, seed={case["seed"]})'
    arr = None if mask is None else as_array(mask)

    def call(seed=case['seed'], m=None):
        return MarkovChain.random(n, L, zeros, (None if mask is None else as_array(mask)) if m is None else m, seed)
    if not valid or zeros > room:
        ctx.tag('impossible')
        expect_validation_error(lambda: call(), what)
        return
    ctx.tag('mask' if mask else 'no mask', 'zeros' if zeros else 'no zeros')
    ctx.interesting(bool(mask) or zeros > 0)
    mc = call(m=arr)
    if arr is not None:
        close(arr, as_array(mask), f'{what}: the mask after the call', rtol=0, atol=0)
    same(mc.states, L or [str(i + 1) for i in range(n)], f'{what}: names')
    check(mc.p, mask, n, n, zeros, what)
    np.random.seed(7)
    close(call().p, mc.p, f'{what}: same seed', rtol=0, atol=0)
    if mask is None and zeros == 0:
        require(not np.array_equal(call(seed=case['seed'] ^ 12345).p, mc.p), f'{what}: another seed gives the same chain')
    if mask is not None:
        close(MarkovChain.random(n, L, zeros, [[np.nan if x is None else x for x in r] for r in mask], case['seed']).p, mc.p, f'{what}: mask as a list', rtol=0, atol=0)
    # without a seed: the global generator of numpy
    np.random.seed(case['seed'] % 1000)
    a = MarkovChain.random(n, L, zeros, None if mask is None else as_array(mask))
    check(a.p, mask, n, n, zeros, what + ' without seed')


@st.composite
def dp(draw):
    n = draw(st.integers(2, 10))
    return {'n': n, 'f': draw(st.integers(1, n)), 'bias': draw(st.one_of(st.none(), st.integers(1, 60).map(lambda x: x / 10))), 'shift': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'states': draw(gen.labels(n))}


@R.law(dp(), 1200, 12000)
def dirichlet_process(case, ctx):
    """Stick-breaking rows: valid, reproducible, decreasing concentration mirrored by the shift, the bias only adds to the diagonal."""
    from pydtmc import MarkovChain
    n, f, bias, shift, seed, L = (case[k] for k in ('n', 'f', 'bias', 'shift', 'seed', 'states'))
    what = f'dirichlet_process({n}, {f}, bias={bias}, shift={shift}, seed={seed})'
    ctx.interesting(bias is not None or shift)
    mc = MarkovChain.dirichlet_process(n, f, L, bias, shift, seed)
    p = mc.p
    same(mc.states, L or [str(i + 1) for i in range(n)], f'{what}: names')
    require(p.shape == (n, n) and np.all(p >= 0) and np.allclose(p.sum(axis=1), 1, rtol=0, atol=1e-9), f'{what}: not stochastic {p.tolist()}')
    np.random.seed(3)
    close(MarkovChain.dirichlet_process(n, f, L, bias, shift, seed).p, p, f'{what}: same seed', rtol=0, atol=0)
    require(not np.array_equal(MarkovChain.dirichlet_process(n, f, L, bias, shift, seed ^ 1).p, p), f'{what}: another seed gives the same chain')
    # stick breaking: beta(1, f) draws by rows, then beta(bias, 1) on the diagonal
    rng = np.random.RandomState(seed)
    draws = rng.beta(1.0, float(f), (n, n))
    ref = np.zeros((n, n))
    for i in range(n):
        left = 1.0
        for j in range(n):
            ref[i, j] = left * draws[i, j]
            left *= 1 - draws[i, j]
    ref /= ref.sum(axis=1, keepdims=True)
    if shift:
        ref = ref[:, ::-1].copy()
    if bias is not None:
        ref[np.arange(n), np.arange(n)] += rng.beta(bias, 1.0, n)
        ref /= ref.sum(axis=1, keepdims=True)
    close(p, ref, f'{what}: stick breaking reference', rtol=1e-9, atol=1e-12)
    for a in ((1, 1), (n, 0), (n, n + 1), (n, f, None, 0.0), (n, f, None, -1.0), (n, f, None, None, 'x'), (n, f, None, None, False, 'x'), (n, f, ['x'] * n), (n, 1.5)):
        expect_validation_error(lambda a=a: MarkovChain.dirichlet_process(*a), f'dirichlet_process{a}')


DIST = [('normal', {}), ('normal', {'loc': 5.0, 'scale': 1.0}), ('uniform', {'low': 0.0, 'high': 2.0}), ('poisson', {'lam': 0.5}), ('poisson', {'lam': 3.0}), ('binomial', {'n': 4, 'p': 0.3}), ('exponential', {}), ('geometric', {'p': 0.5}),
        ('binomial', {'n': 1, 'p': 0.4}), ('binomial', {'n': 2, 'p': 0.2}), ('gamma', {'shape': 0.01}), ('pareto', {'a': 0.001}), ('pareto', {'a': 0.01}), ('lognormal', {'sigma': 300.0}), ('cauchy' if False else 'laplace', {}), ('uniform', {'low': -2.0, 'high': -1.0}),
        ('beta', {'a': 0.5, 'b': 0.5}), ('weibull', {'a': 0.01}), ('f', {'dfnum': 1.0, 'dfden': 0.001}), ('exponential', {'scale': 1e308})]


@R.law(st.fixed_dictionaries({'n': st.integers(2, 7), 'd': st.integers(0, len(DIST) - 1), 'seed': st.integers(0, 2 ** 31 - 1)}).flatmap(lambda c: gen.labels(c['n']).map(lambda L: dict(c, states=L))), 1600, 16000)
def random_distribution(case, ctx):
    """Draws by rows: undefined as null, infinite as finite, negative as null, rows without positive draws as uniform, then normalised."""
    import warnings
    warnings.simplefilter('ignore')
    from pydtmc import MarkovChain
    n, L, seed = case['n'], case['states'], case['seed']
    f, kw = DIST[case['d']]
    what = f'random_distribution({n}, {f}, seed={seed}, {kw})'
    with np.errstate(all='ignore'):
        x = np.asarray(getattr(np.random.RandomState(seed), f)(size=(n, n), **kw), dtype=float)
    ref = []
    for r in x:
        r = [0.0 if np.isnan(y) else (np.finfo(float).max if y == np.inf else max(y, 0.0)) for y in r]
        top = max(r)
        if top == 0:
            ref.append([1.0 / n] * n)
        else:
            r = [y / top for y in r]
            ref.append([y / sum(r) for y in r])
    ctx.interesting(bool((x <= 0).any() or not np.isfinite(x).all()))
    ctx.tag(f, 'finite' if np.isfinite(x).all() else 'infinite')
    for g in (f, getattr(np.random, f)):
        mc = MarkovChain.random_distribution(n, g, L, seed, **kw)
        require(np.allclose(mc.p.sum(axis=1), 1, rtol=0, atol=1e-9), f'{what}: rows {mc.p.tolist()}')
        close(mc.p, ref, what, rtol=1e-9, atol=1e-12)
        same(mc.states, L or [str(i + 1) for i in range(n)], f'{what}: names')
    expect_validation_error(lambda: MarkovChain.random_distribution(n, 'no_such_distribution'), 'unknown distribution')
    expect_validation_error(lambda: MarkovChain.random_distribution(n, max), 'a function which is not in numpy.random')
    expect_validation_error(lambda: MarkovChain.random_distribution(1, f), 'size 1')
    expect_validation_error(lambda: MarkovChain.random_distribution(n, f, ['x'] * n), 'duplicated names')
    expect_validation_error(lambda: MarkovChain.random_distribution(n, None), 'null distribution')


@R.law(cases(), 100, 1000)
def rejected(case, ctx):
    """Invalid sizes, zeros, masks, names and seeds."""
    from pydtmc import MarkovChain
    n = case['n']
    ctx.interesting(True)
    nan = float('nan')
    base = np.full((n, n), nan)

    def put(v, shape=None):
        m = np.full(shape or (n, n), nan)
        m[0, 0] = v
        return m
    for kw in ({'size': 1}, {'size': 0}, {'size': 2.5}, {'size': 'a'}, {'zeros': -1}, {'zeros': 0.5}, {'zeros': n * n - n + 1}, {'zeros': n * n}, {'mask': put(1.5)}, {'mask': put(-0.1)}, {'mask': put(float('inf'))}, {'mask': put(0.1, (n, n + 1))},
               {'mask': put(0.1, (n + 1, n + 1))}, {'mask': 'x'}, {'states': ['a'] * n}, {'states': [str(i) for i in range(n + 1)]}, {'seed': 'x'}, {'seed': 1.5}, {'mask': np.zeros((n, n))}):
        a = {'size': n, 'states': None, 'zeros': 0, 'mask': base.copy(), 'seed': 1}
        a.update(kw)
        expect_validation_error(lambda a=a: MarkovChain.random(**a), f'random with {kw}')
    r = MarkovChain.random(n, zeros=n * n - n, seed=3)
    check(r.p, None, n, n, n * n - n, 'random with the highest number of zeros')
