"""C20: simulation, single steps, prediction and sequence probabilities."""
import math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, is_none, Discard

R = Registry('C20', 'chains of every layout, walks of 2..60 and up to 1200 steps with and without start and final state, by index and by name, seeds of the whole 32 bit range; oracle: support and stopping rule, replay with equal seed, Freedman bound at 1e-12 on transition counts, exact products and greedy reference; non-trivial: a chain with a random transition or a sequence of at least three states')

LOG = math.log(2e13)


def bound(v):
    """|count - expectation| exceeds this with probability below 1e-13 (Freedman), v being the predictable variance."""
    return LOG / 3 + math.sqrt(LOG * LOG / 9 + 2 * LOG * v) + 1.0


@st.composite
def cases(draw):
    c = draw(gen.mostly(gen.chain(2, 8), gen.chain(9, 24)))
    n = len(c['p'])
    c['start'] = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    c['final'] = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    c['steps'] = draw(gen.mostly(st.integers(2, 60), st.integers(61, 1200), 12))
    c['seed'] = draw(st.one_of(st.integers(0, 50), st.integers(0, 2 ** 32 - 1)))
    c['bynames'] = draw(st.booleans())
    return c


@R.law(cases(), 2000, 30000)
def walks(case, ctx):
    """A walk has the requested length and start, uses only positive transitions, stops exactly at the first visit of the final state after the start; equal seeds give equal walks, by names or by indices, whatever the state of the global generator, which a seeded call leaves alone."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n, N, seed = len(p), case['steps'], case['seed']
    ctx.interesting(any(0 < x < 1 for r in p for x in r))
    mc = gen.build(case)

    def ref(i):
        return None if i is None else (L[i] if case['bynames'] else i)

    s, f = ref(case['start']), ref(case['final'])
    np.random.seed(12345)
    before = np.random.get_state()[1].copy()
    walk = mc.simulate(N, s, f, True, seed)
    what = f'simulate({N}, {s!r}, {f!r}, True, {seed})'
    require(np.array_equal(before, np.random.get_state()[1]), f'{what} changed the state of the global random generator')
    require(isinstance(walk, list) and all(isinstance(x, (int, np.integer)) and 0 <= x < n for x in walk), f'{what}: not a list of indices: {walk!r}')
    if case['start'] is not None:
        same(walk[0], case['start'], f'{what}: first state')
    for a, b in zip(walk[:-1], walk[1:]):
        require(p[a][b] > 0.0, f'{what}: impossible transition {a} -> {b} in {walk}')
    hit = [k for k in range(1, len(walk)) if walk[k] == case['final']] if case['final'] is not None else []
    if hit:
        ctx.tag('stopped')
        same(hit[0], len(walk) - 1, f'{what}: the walk must stop at the first visit of the final state: {walk}')
        require(len(walk) <= N + 1, f'{what}: {len(walk)} states')
    else:
        ctx.tag('full length')
        same(len(walk), N + 1, f'{what}: number of states')
    np.random.seed(777)
    np.random.rand(3)
    same(mc.simulate(N, s, f, True, seed), walk, f'{what}: repeated with the same seed')
    same(gen.build(case).simulate(steps=N, initial_state=s, final_state=f, seed=seed), [L[i] for i in walk], f'{what} by names')
    # omitted final state: the stopped walk is a prefix
    free = mc.simulate(N, s, None, True, seed)
    same(len(free), N + 1, f'simulate({N}, {s!r}, None): number of states')
    same(free[:len(walk)], walk, f'{what}: the walk with a final state must be the prefix of the free one')
    # unseeded: driven by the global generator
    np.random.seed(4242)
    a = mc.simulate(N, s, f, True)
    np.random.seed(4242)
    same(mc.simulate(N, s, f, True), a, f'simulate({N}, {s!r}, {f!r}) after the same global seed')
    i = case['start'] or 0
    nxt = mc.next(ref(i), True, seed)
    require(p[i][nxt] > 0.0, f'next({ref(i)!r}, seed={seed}) = {nxt} is impossible')
    same(mc.next(i, seed=seed), L[nxt], f'next({i}, seed={seed}) by name')
    same(mc.next(L[i], output_index=True, seed=seed), nxt, f'next({L[i]!r}, seed={seed})')


@st.composite
def freq_cases(draw):
    c = draw(gen.chain(2, 5, kinds=['dense', 'ergodic', 'sparse', 'layout', 'birthdeath', 'rank1', 'periodic']))
    c['start'] = draw(st.integers(0, len(c['p']) - 1))
    c['seed'] = draw(st.integers(0, 2 ** 31))
    return c


@R.law(freq_cases(), 96, 2400)
def frequencies(case, ctx):
    """The transition counts of a long walk, of single steps over many seeds, and of the random starts, are compatible with the chain (Freedman bound at 1e-13)."""
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    ctx.interesting(any(0 < x < 1 for r in p for x in r))
    mc = gen.build(case)
    N = 1500
    walk = mc.simulate(N, case['start'], None, True, case['seed'])
    counts = np.zeros((n, n))
    for a, b in zip(walk[:-1], walk[1:]):
        counts[a, b] += 1
    for i in range(n):
        m = counts[i].sum()
        for j in range(n):
            q = p[i][j]
            require(abs(counts[i, j] - m * q) <= bound(m * q * (1 - q)), f'{counts[i, j]:.0f} of {m:.0f} transitions {i} -> {j} of probability {q}')
    i = case['start']
    M = 300
    c = np.zeros(n)
    s = np.zeros(n)
    np.random.seed(case['seed'] % 2 ** 32)
    for k in range(M):
        c[mc.next(i, True)] += 1
        s[mc.simulate(2, output_indices=True)[0]] += 1
    for j in range(n):
        q = p[i][j]
        require(abs(c[j] - M * q) <= bound(M * q * (1 - q)), f'{c[j]:.0f} of {M} steps {i} -> {j} of probability {q}')
        require(abs(s[j] - M / n) <= bound(M / n * (1 - 1 / n)), f'{s[j]:.0f} of {M} random starts at {j}')


@st.composite
def predict_cases(draw, nmax=8, steps=20, length=20, small=False):
    c = draw(gen.chain(2, nmax) if nmax > 8 else gen.chain(2, nmax, kinds=gen.KINDS + gen.SMALL if small else None, schemes=['tiny', 'tiny', 'dyadic'] if small else None))
    n = len(c['p'])
    c['start'] = draw(st.integers(0, n - 1))
    c['steps'] = draw(st.integers(1, steps))
    seq = draw(gen.indices(n, 2, length))
    if draw(st.booleans()):  # a possible walk
        seq = seq[:1] + seq[1:]
        for k in range(1, len(seq)):
            nxt = [j for j in range(n) if c['p'][seq[k - 1]][j] > 0]
            seq[k] = nxt[seq[k] % len(nxt)]
    c['sequence'] = seq
    c['bynames'] = draw(st.booleans())
    return c


def check_prediction(case, ctx):
    """predict follows the unique largest transition at every step, None at a tie; the probability of a sequence is the product of its transitions."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    mc = gen.build(case)
    N, s = case['steps'], case['start']
    path, cur, near = [s], s, False
    for _ in range(N):
        row = p[cur]
        top = max(row)
        best = [j for j, x in enumerate(row) if x == top]
        near = near or any(x != top and abs(x - top) < 1e-9 for x in row)
        if len(best) > 1:
            path = None
            break
        cur = best[0]
        path.append(cur)
    ctx.interesting(len(case['sequence']) > 2 or path is not None)
    ctx.tag('tie' if path is None else 'path')
    ref = L[s] if case['bynames'] else s
    if not near:
        got = mc.predict(N, ref, True)
        if path is None:
            is_none(got, f'predict({N}, {ref!r}) with a tie')
            is_none(mc.predict(N, ref), f'predict({N}, {ref!r}) with a tie')
        else:
            same(list(got), path, f'predict({N}, {ref!r}, True)')
            same(mc.predict(N, ref), [L[i] for i in path], f'predict({N}, {ref!r})')
    seq = case['sequence']
    arg = [L[i] for i in seq] if case['bynames'] else list(seq)
    exact = Fraction(1)
    for a, b in zip(seq[:-1], seq[1:]):
        exact *= Fraction(p[a][b])
    ctx.tag('possible' if exact else 'impossible', 'below 1e-9' if 0 < exact < Fraction(1, 10 ** 9) else '')
    got = mc.sequence_probability(arg)
    if exact == 0:
        same(float(got), 0.0, f'sequence_probability({arg})')
    else:
        close(got, float(exact), f'sequence_probability({arg})', rtol=1e-9, atol=1e-290)


@R.law(predict_cases(), 3200, 36000)
def prediction(case, ctx):
    """predict follows the unique largest transition at every step, None at a tie; the probability of a sequence is the product of its transitions."""
    check_prediction(case, ctx)


@R.law(predict_cases(24, 60, 60), 320, 4000)
def prediction_large(case, ctx):
    """Same for up to 24 states."""
    check_prediction(case, ctx)


@st.composite
def long_paths(draw):
    """A hundred states or so: a path through most of them in a generated order, with the ties far along it."""
    n = draw(st.integers(30, 140))
    order = np.random.RandomState(draw(st.integers(0, 10 ** 6))).permutation(n).tolist()
    ties = [(n - 1) - x for x in draw(st.lists(st.integers(0, 8), max_size=2))]
    steps = draw(st.one_of(st.integers(1, n + 5), st.integers(n - 4, 2 * n)))
    return {'order': order, 'ties': sorted(set(ties)), 'back': draw(st.integers(0, n - 1)), 'steps': steps, 'share': draw(st.sampled_from([1.0, 0.625, 0.53125]))}


@R.law(long_paths(), 50, 800)
def prediction_long_path(case, ctx):
    """predict over a hundred different states: the path is followed to its end, and a tie met only there counts."""
    from pydtmc import MarkovChain
    order, n, q = case['order'], len(case['order']), case['share']
    p = np.zeros((n, n))
    for k, i in enumerate(order):
        j = order[k + 1] if k + 1 < n else order[case['back']]
        other = order[(k * 7 + 3) % n]
        if other == j:
            other = order[(k * 7 + 4) % n]
        w = 0.5 if k in case['ties'] else q
        p[i, j] += w
        p[i, other] += 1 - w
    path, cur = [order[0]], order[0]
    for _ in range(case['steps']):
        best = np.flatnonzero(p[cur] == p[cur].max())
        if len(best) > 1:
            path = None
            break
        cur = int(best[0])
        path.append(cur)
    ctx.tag('tie' if path is None else 'path', f'distinct states~{len(set(path or [])) // 20 * 20}')
    ctx.interesting(case['steps'] > 20)
    mc = MarkovChain(p)
    N = case['steps']
    got = mc.predict(N, order[0], True)
    if path is None:
        is_none(got, f'predict({N}) with a tie after many states')
    else:
        same(list(got), path, f'predict({N}) over many states')
        same(mc.predict(N, mc.states[order[0]]), [mc.states[i] for i in path], f'predict({N}) by name over many states')
        close(mc.sequence_probability(path), float(np.prod([p[a, b] for a, b in zip(path[:-1], path[1:])])), 'sequence_probability of a long path', rtol=1e-9, atol=1e-290)


@R.law(predict_cases(6, 300, 150, True), 2000, 24000)
def prediction_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50, sequences of up to 150 states and predictions of up to 300 steps."""
    check_prediction(case, ctx)


@st.composite
def rounded_cases(draw):
    c = draw(gen.chain(2, 6, kinds=['dense', 'sparse', 'rank1', 'layout'], schemes=['norm', 'uniform', 'skew']))
    c['digits'] = draw(st.integers(6, 9))
    c['seed'] = draw(st.integers(0, 1000))
    c['start'] = draw(st.integers(0, len(c['p']) - 1))
    return c


@R.law(rounded_cases(), 320, 5000)
def rounded_rows(case, ctx):
    """Whatever matrix is accepted by the constructor (rows rounded to a few digits, such as 0.333333), the chain can be simulated."""
    from pydtmc import ValidationError
    p = [[round(x, case['digits']) for x in r] for r in case['p']]
    try:
        mc = gen.build(dict(case, p=p))
    except ValidationError:
        raise Discard()
    off = max(abs(math.fsum(r) - 1.0) for r in p)
    ctx.interesting(off > 1e-12)
    ctx.tag('beyond 1.5e-8' if off > 1.5e-8 else 'within')
    walk = mc.simulate(40, case['start'], None, True, case['seed'])
    same(len(walk), 41, 'number of states')
    for a, b in zip(walk[:-1], walk[1:]):
        require(p[a][b] > 0.0, f'impossible transition {a} -> {b}')
    nxt = mc.next(case['start'], True, case['seed'])
    require(p[case['start']][nxt] > 0.0, 'impossible step')
