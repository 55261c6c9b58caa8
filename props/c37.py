"""C37: assessments of sequences."""
import math
import numpy as np
from fractions import Fraction as F
from hypothesis import strategies as st
import scipy.stats as sps
from vlib import gen
from vlib.core import Registry, same, require, close, expect_validation_error, Discard

R = Registry('C37', 'sequences of 2 to 60 entries over 2 to 6 states, repeated up to 200 times, biased and Markovian, by name and index, with names whose concatenations collide; all significances, 1 to 90 blocks, chains with structural zeros; oracle: the statistics computed anew from exact counts, chi-square survival function; non-trivial: a defined statistic with a p-value strictly between 0 and 1')


@st.composite
def seqs(draw, lo=3, hi=60):
    n = draw(gen.mostly(st.integers(2, 6), st.integers(7, 14), 15))
    kind = draw(st.sampled_from(['any', 'any', 'few', 'cycle', 'sticky', 'all']))
    length = draw(st.integers(lo, hi))
    if kind == 'all':  # every state in the middle of every pair: nothing undefined for two or three states
        n = draw(st.integers(2, 3))
        s = draw(st.lists(st.integers(0, n - 1), min_size=length, max_size=length))
        order = draw(st.permutations([(a, b, c) for a in range(n) for b in range(n) for c in range(n)]))
        s = s + [x for t in order for x in t]
    elif kind == 'cycle':
        m = draw(st.integers(1, n))
        s = [(i + draw(st.sampled_from([0, 0, 0, 1]))) % m for i in range(length)]
    elif kind == 'sticky':
        s, x = [], 0
        for _ in range(length):
            x = draw(st.sampled_from([x, x, x, draw(st.integers(0, n - 1))]))
            s.append(x)
    else:
        m = n if kind == 'any' else draw(st.integers(1, n))
        s = draw(st.lists(st.integers(0, m - 1), min_size=length, max_size=length))
    return n, s


SIG = st.one_of(st.sampled_from([0.01, 0.05, 0.1, 0.2, 1e-9]), st.floats(1e-4, 0.2))


def names(draw, n):
    if draw(st.integers(0, 2)) == 0:  # names whose concatenations collide
        return ['A' * (i + 1) for i in draw(st.permutations(range(n)))]
    return draw(gen.labels(n, none=False))


@st.composite
def cases(draw, lo=3, hi=60):
    n, s = draw(seqs(lo, hi))
    c = {'n': n, 's': s, 'rep': draw(st.sampled_from([1, 1, 1, 1, 1, 20, 200])), 'sig': draw(SIG), 'byname': draw(st.booleans()), 'default': draw(st.booleans())}
    c['names'] = names(draw, n)
    c['perm'] = draw(st.permutations(range(n)))
    return c


def contingency(t):
    """Chi-square of a table of fractions, with the continuity correction for the 2x2 tables; None when an expected value is null."""
    rows, cols = [sum(r) for r in t], [sum(c) for c in zip(*t)]
    total = sum(rows)
    if total == 0 or 0 in rows or 0 in cols:
        return None
    dof = (len(rows) - 1) * (len(cols) - 1)
    out = F(0)
    for i, r in enumerate(t):
        for j, x in enumerate(r):
            e = F(rows[i]) * cols[j] / total
            d = abs(x - e)
            if dof == 1:
                d -= min(F(1, 2), d)
            out += d * d / e
    return out


def verdict(got, chi2, dof, sig, what, p0=None):
    """Checks a result; chi2 None stands for an undefined statistic, p0 for the p-value without degrees of freedom."""
    require(isinstance(got, tuple) and len(got) == 3 and sorted(got[2]) == ['chi2', 'dof'], f'{what}: {got!r}')
    rejection, p, stats = got
    if chi2 is None:
        require(rejection is None and math.isnan(p) and math.isnan(stats['chi2']) and math.isnan(stats['dof']), f'{what}: {got!r} instead of an undefined result')
        return False
    if math.isinf(chi2):
        require(math.isinf(stats['chi2']), f'{what}: {got!r}, statistic inf')
    else:
        close(stats['chi2'], float(chi2), f'{what}: statistic', rtol=1e-9, atol=1e-7)
    require(stats['dof'] == dof, f'{what}: {got!r}, degrees of freedom {dof}')
    if dof > 0:
        expected = float(sps.chi2.sf(max(float(chi2), 0.0), dof))
        close(p, expected, f'{what}: p-value', rtol=0, atol=1e-6 if expected > 0.999 else 1e-9)
    elif dof == 0 and p0 is not None:
        require(p == p0, f'{what}: p-value {p} without degrees of freedom')
    else:
        require(math.isnan(p) and not rejection, f'{what}: {got!r}')
        return False
    require(rejection in (True, False) and bool(rejection) == bool(p < sig), f'{what}: rejection {rejection} for p-value {p} and significance {sig}')
    return 1e-9 < p < 1 - 1e-9


def variants(case, run, ctx):
    """Calls run(names, sequence converter): by index, by name, renamed, and with the states reordered."""
    n, N = case['n'], case['names']
    first = run(N, (lambda i: N[i]) if case['byname'] else (lambda i: i))
    other = run(N, (lambda i: i) if case['byname'] else (lambda i: N[i]))
    if first[0] is not None and 0 < first[1] < 0.2:  # the significance at the p-value itself, and just above
        for s in (first[1], math.nextafter(first[1], 1.0)):
            case['exactly'] = float(s)
            r = run(N, (lambda i: N[i]) if case['byname'] else (lambda i: i))
            del case['exactly']
            require(r[1] == first[1] and bool(r[0]) == (first[1] < s), f'p-value {r[1]}, significance {s}: rejection {r[0]}')
    plain = [f'{i}' for i in range(n)]
    require(repr(other) == repr(first), f'by name and by index: {first!r} and {other!r}')
    renamed = run(plain, lambda i: plain[i])
    require(repr(renamed) == repr(first), f'the result depends on the names {N}: {first!r}, but {renamed!r} with {plain}')
    q = case['perm']
    M = [None] * n
    for i, j in enumerate(q):
        M[j] = N[i]
    reordered = run(M, lambda i: N[i])
    require(first[0] is None and reordered[0] is None or math.isinf(first[2]['chi2']) and math.isinf(reordered[2]['chi2']) or abs(first[2]['chi2'] - reordered[2]['chi2']) <= 1e-9 * (1 + abs(first[2]['chi2'])) and first[2]['dof'] == reordered[2]['dof'], f'the result depends on the order of the states: {first!r} for {N}, {reordered!r} for {M}')
    return first


def args(case):
    if 'exactly' in case:
        return (case['exactly'],)
    return () if case['default'] else (case['sig'],)


def sig(case):
    return 0.05 if case['default'] else case['sig']


@R.law(cases(2), 1600, 20000)
def first_order(case, ctx):
    """Sum over the middle states of the chi-square of independence of the previous and next states."""
    from pydtmc import assess_first_order as f
    n, s = case['n'], case['s'] * case['rep']
    chi2 = F(0)
    tables = [[[0] * n for _ in range(n)] for _ in range(n)]
    for a, b, c in zip(s, s[1:], s[2:]):
        tables[b][a][c] += 1
    for t in tables:
        x = contingency(t)
        chi2 = None if x is None or chi2 is None else chi2 + x
    given = [case['names'][i] for i in s]
    got = variants(case, lambda N, w: f(list(N), [w(i) for i in s], *args(case)), ctx)
    ctx.tag('undefined' if chi2 is None else 'defined')
    ctx.interesting(verdict(got, chi2, n * (n - 1) ** 2, sig(case), f'assess_first_order({case["names"]}, {given[:80]}, {args(case)})'))


@R.law(cases(), 1600, 20000)
def markov_property(case, ctx):
    """Observed triples of consecutive states (the sequence being cut at a multiple of three) against the pairs times the maximum likelihood transitions."""
    from pydtmc import assess_markov_property as f
    n, s = case['n'], case['s'] * case['rep']
    pairs, out, cut = {}, {}, s[:len(s) - len(s) % 3]
    for a, b in zip(s, s[1:]):
        pairs[a, b] = pairs.get((a, b), 0) + 1
        out[a] = out.get(a, 0) + 1
    n2, n3 = {}, {}
    for t in zip(cut, cut[1:], cut[2:]):
        n3[t] = n3.get(t, 0) + 1
        n2[t[:2]] = n2.get(t[:2], 0) + 1
    chi2 = F(0)
    for (a, b, c), x in n3.items():
        e = F(n2[a, b] * pairs[b, c], out[b])
        chi2 += (x - e) ** 2 / e
    dof = len(set(zip(s, s[1:], s[2:]))) - len(set(zip(s, s[1:]))) + len(set(s)) - 1
    got = variants(case, lambda N, w: f(list(N), [w(i) for i in s], *args(case)), ctx)
    ctx.interesting(verdict(got, chi2, dof, sig(case), f'assess_markov_property({case["names"]}, {s[:80]}, {args(case)})', 0.0))


@st.composite
def blocked(draw):
    c = draw(cases(2))
    c['blocks'] = draw(st.one_of(st.integers(1, 4), st.integers(1, 90)))
    if draw(st.integers(0, 2)) == 0:  # transitions at the boundaries of the blocks
        c['rep'] = 1
        m = draw(st.integers(1, 9))
        c['s'] = (c['s'] * 28)[:m * draw(st.integers(1, 6)) if m > 1 else 28]
        if len(c['s']) < 2:
            c['s'] = [0, 1]
        c['blocks'] = draw(st.sampled_from([m * 5, m * 10, m * 15, m * 7, 20, 40]))
    return c


@R.law(blocked(), 2400, 30000)
def stationarity(case, ctx):
    """Sum over the states of the chi-square on the frequencies of their next states in each block (uniform when never left in it)."""
    from pydtmc import assess_stationarity as f
    n, s, blocks = case['n'], case['s'] * case['rep'], case['blocks']
    k = len(s)
    counts = [[[0] * n for _ in range(blocks)] for _ in range(n)]
    for i, (a, b) in enumerate(zip(s, s[1:])):
        counts[a][((i + 1) * blocks - 1) // k][b] += 1
    chi2 = F(0)
    for t in counts:
        q = [[F(x, sum(r)) if sum(r) else F(1, n) for x in r] for r in t]
        x = contingency(q) if blocks > 1 else sum((y - F(1, n)) ** 2 * n for y in q[0])
        chi2 = None if x is None or chi2 is None else chi2 + x
    first = case['default'] and blocks == 1
    got = variants(case, lambda N, w: f(list(N), [w(i) for i in s]) if first else f(list(N), [w(i) for i in s], blocks, *args(case)), ctx)
    ctx.tag('undefined' if chi2 is None else 'defined', 'one block' if blocks == 1 else 'more blocks than entries' if blocks > k else 'blocks')
    ctx.interesting(verdict(got, chi2, n * (n - 1) * (blocks - 1), sig(case), f'assess_stationarity({case["names"]}, {s[:80]}, {blocks}, {args(case)})', 0.0))


@st.composite
def several(draw):
    n = draw(st.integers(2, 6))
    k = draw(st.integers(2, 5))
    disjoint = draw(st.integers(0, 3)) == 0
    ss = []
    for i in range(k):
        pool = draw(st.sets(st.integers(0, n - 1), min_size=1)) if not disjoint else {draw(st.integers(0, n - 1))}
        ss.append(draw(st.lists(st.sampled_from(sorted(pool)), min_size=2, max_size=25)))
    c = {'n': n, 'ss': ss, 'rep': draw(st.sampled_from([1, 1, 1, 30])), 'sig': draw(SIG), 'byname': draw(st.booleans()), 'default': draw(st.booleans()), 'order': draw(st.permutations(range(k))), 'mixed': draw(st.booleans())}
    c['names'] = names(draw, n)
    c['perm'] = draw(st.permutations(range(n)))
    return c


@R.law(several(), 1600, 20000)
def homogeneity(case, ctx):
    """Twice the log likelihood ratio of the pairs of consecutive states of each sequence against the pooled ones; undefined when no two sequences share a state."""
    from pydtmc import assess_homogeneity as f
    n, ss = case['n'], [s * case['rep'] for s in case['ss']]
    defined = any(set(a) & set(b) for i, a in enumerate(ss) for b in ss[:i])
    cs, pooled = [], {}
    for s in ss:
        c = {}
        for t in zip(s, s[1:]):
            c[t] = c.get(t, 0) + 1
            pooled[t] = pooled.get(t, 0) + 1
        cs.append(c)
    total = sum(pooled.values())
    chi2 = math.fsum(2 * x * math.log(total * x / (sum(c.values()) * pooled[t])) for c in cs for t, x in c.items()) if defined else None

    def run(N, w, order=range(len(ss))):
        return f(list(N), [[w(x) for x in ss[i]] for i in order], *args(case))
    got = variants(case, run, ctx)
    what = f'assess_homogeneity({case["names"]}, {case["ss"]} x {case["rep"]}, {args(case)})'
    dof = n * (n - 1) * (len(ss) - 1)
    ctx.tag('undefined' if chi2 is None else 'defined')
    ctx.interesting(verdict(got, chi2, dof, sig(case), what))
    verdict(run(case['names'], lambda i: i, case['order']), chi2, dof, sig(case), what + ' with the sequences reordered')
    mixed = f(list(case['names']), [[case['names'][x] if i % 2 else x for x in s] for i, s in enumerate(ss)], *args(case))
    require(repr(mixed) == repr(got), f'{what}: {got!r}, but {mixed!r} with some sequences by name')


@st.composite
def theories(draw):
    c = draw(gen.mostly(st.one_of(gen.chain(2, 6, none=False), gen.chain(2, 6, none=False), gen.chain(2, 5, none=False, kinds=gen.KINDS + gen.SMALL, schemes=['tiny'])), gen.chain(7, 16, none=False)))
    p = np.array(c['p'])
    n = len(p)
    x = draw(st.integers(0, n - 1))
    s = [x]
    foreign = draw(st.integers(0, 5)) == 0
    for _ in range(draw(st.integers(1, 40))):
        if foreign and draw(st.integers(0, 9)) == 0:
            x = draw(st.integers(0, n - 1))
        else:
            x = draw(st.sampled_from([int(j) for j in np.flatnonzero(p[x] > 0)]))
        s.append(x)
    c.update({'s': s, 'n': n, 'sig': draw(SIG), 'default': draw(st.booleans()), 'byname': draw(st.booleans()), 'perm': draw(st.permutations(range(n)))})
    return c


@R.law(theories(), 1600, 20000)
def theoretical_compatibility(case, ctx):
    """Rejected when a transition is impossible; otherwise twice the log likelihood ratio of the transitions against the probabilities (the number of transitions of a state being those into it, as the stored results of the tests have it)."""
    from pydtmc import assess_theoretical_compatibility as f, MarkovChain
    p, s = np.array(case['p']), case['s']
    n = len(p)
    mc = gen.build(case)
    case = dict(case, names=mc.states)
    fm = np.zeros((n, n), dtype=int)
    for a, b in zip(s, s[1:]):
        fm[a, b] += 1
    margin = fm.sum(axis=1) if case.get('__known__') else fm.sum(axis=0)
    possible = not np.any(fm[p == 0.0])

    def run(N, w):
        q = p
        if set(N) == set(mc.states) and list(N) != list(mc.states):
            o = [mc.states.index(x) for x in N]
            q = p[np.ix_(o, o)]
        return f(MarkovChain(q, list(N)), [w(i) for i in s], *args(case))
    got = run(mc.states, (lambda i: mc.states[i]) if case['byname'] else (lambda i: i))
    what = f'assess_theoretical_compatibility({p.tolist()}, {s}, {args(case)})'
    if not possible:
        require(got[0] is True and got[1] == 0.0 and math.isnan(got[2]['chi2']) and math.isnan(got[2]['dof']), f'{what}: {got!r} for an impossible sequence')
        ctx.tag('impossible')
        ctx.interesting(True)
        return
    terms = [(int(fm[i, j]), int(margin[i]), F(float(p[i, j]))) for i in range(n) for j in range(n) if fm[i, j] > 0]
    chi2 = math.inf if any(m == 0 for _, m, _ in terms) else math.fsum(2 * x * (math.log(x / m) - math.log(q)) for x, m, q in terms)
    dof = n * (n - 1) - int((p == 0.0).sum())
    variants(case, run, ctx)
    if dof == 0:
        require(not got[0], f'{what}: {got!r}')
        return
    ctx.interesting(verdict(got, chi2, dof, sig(case), what))


@R.law(st.tuples(gen.chain(2, 5, none=False), st.integers(0, 100)).map(lambda t: dict(t[0], at=t[1])), 400, 4000)
def rejected(case, ctx):
    """Invalid names, sequences, blocks, chains and significances."""
    from pydtmc import assess_first_order, assess_homogeneity, assess_markov_property, assess_stationarity, assess_theoretical_compatibility
    mc = gen.build(case)
    S, n = mc.states, mc.size
    s = [0, 1, 1, 0, 1]
    ctx.interesting(True)
    singles = (assess_first_order, assess_markov_property, assess_stationarity)
    bad_seq = ([], [0], None, 0, [0, n, 0], [-1, 0, 0], [0, S[1], 0], ['?unknown?', S[0], S[0]], [0.0, 1.0, 0.0], (0, 1, 0), 'AB', [True, False, True], [0, None])
    bad_names = ([], S[:1], [S[0]] * 2, S + [S[0]], [1, 2], [''] + S[1:], None, tuple(S), 'AB')
    bad_sig = (0, 0.0, -0.01, 0.2000001, 1.0, float('nan'), float('inf'), None, '0.05', True, [0.05])
    for f in singles:
        for bad in bad_names:
            expect_validation_error(lambda: f(bad, s), f'{f.__name__} with the names {bad}')
        for bad in bad_seq:
            expect_validation_error(lambda: f(S, bad), f'{f.__name__} with the sequence {bad}')
        for bad in bad_sig:
            expect_validation_error(lambda: f(S, s, significance=bad), f'{f.__name__} with the significance {bad!r}')
        f(S, s, significance=0.2)
    for bad in (0, -1, 1.0, 2.5, '2', None, True, [1]):
        expect_validation_error(lambda: assess_stationarity(S, s, bad), f'assess_stationarity with {bad!r} blocks')
    f = assess_homogeneity
    for bad in bad_names:
        expect_validation_error(lambda: f(bad, [s, s]), f'assess_homogeneity with the names {bad}')
    for bad in bad_seq + ([s], s):
        expect_validation_error(lambda: f(S, bad), f'assess_homogeneity with the sequences {bad}')
        if bad is not s:
            expect_validation_error(lambda: f(S, [s, bad]), f'assess_homogeneity with one sequence {bad}')
    for bad in bad_sig:
        expect_validation_error(lambda: f(S, [s, s], bad), f'assess_homogeneity with the significance {bad!r}')
    f = assess_theoretical_compatibility
    for bad in (None, 1, 'x', mc.p, mc.p.tolist(), S):
        expect_validation_error(lambda: f(bad, s), f'assess_theoretical_compatibility with the chain {bad!r}')
    for bad in bad_seq:
        expect_validation_error(lambda: f(mc, bad), f'assess_theoretical_compatibility with the sequence {bad}')
    for bad in bad_sig:
        expect_validation_error(lambda: f(mc, s, bad), f'assess_theoretical_compatibility with the significance {bad!r}')
