"""C34: decoding of hidden models."""
import itertools
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, is_none, expect_validation_error, Discard

R = Registry('C34', 'hidden models of 2 to 6 states and 2 to 6 symbols with structural zeros, every initial status (none, index, name, distribution with zeros), symbol sequences of 2 to 30 (long ones up to 400) by index or name; oracle: forward and backward recursions in rationals, and for short sequences the enumeration of all hidden paths; non-trivial: a null transition or emission and a sequence of at least 3 symbols')


def status(draw, n):
    kind = draw(st.sampled_from(['none', 'index', 'name', 'dist', 'dist', 'array']))
    if kind == 'none':
        return ['none', None]
    if kind in ('index', 'name'):
        return [kind, draw(st.integers(0, n - 1))]
    return [kind, draw(gen.distribution(n, schemes=('dyadic', 'decimal', 'onehot', 'sparse')))]


def status_arg(s, names):
    kind, v = s
    return None if kind == 'none' else v if kind == 'index' else names[v] if kind == 'name' else list(v) if kind == 'dist' else np.array(v)


def status_vector(s, n):
    kind, v = s
    if kind == 'none':
        return [F(1, n)] * n
    if kind in ('index', 'name'):
        return [F(int(i == v)) for i in range(n)]
    return [F(x) for x in v]


@st.composite
def cases(draw, tmin=2, tmax=30, nmax=6, small=False, kinds=None):
    c = draw(gen.hmm(2, nmax, 2, nmax, kinds=(kinds or gen.KINDS + gen.SMALL) if small else None, schemes=['tiny', 'tiny', 'dyadic'] if small else None))
    n, k = len(c['p']), len(c['e'][0])
    c['status'] = status(draw, n)
    kind = draw(st.sampled_from(['walk', 'walk', 'walk', 'any', 'short'] if not small else ['walk', 'walk', 'rarest', 'rarest', 'any']))
    if kind in ('walk', 'rarest'):  # a possible sequence
        length = draw(st.integers(tmin, tmax))
        blob = draw(st.binary(min_size=2 * length, max_size=2 * length))
        v = status_vector(c['status'], n)
        start = [i for i in range(n) if v[i] > 0]
        x = start[blob[0] % len(start)]
        seq = []
        for t in range(length):
            nxt = [j for j in range(n) if c['p'][x][j] > 0]
            x = nxt[blob[2 * t] % len(nxt)]
            sym = [j for j in range(k) if c['e'][x][j] > 0]
            seq.append(sym[blob[2 * t + 1] % len(sym)] if kind == 'walk' or blob[2 * t + 1] > 239 else min(sym, key=lambda j: c['e'][x][j]))
        c['seq'] = seq
    else:
        c['seq'] = draw(gen.indices(k, tmin, max(4, tmin) if kind == 'short' else max(tmin, min(tmax, 12))))
    c['byname'] = draw(st.booleans())
    c['scaling'] = draw(st.booleans())
    return c


CEILING = 10 ** 300  # beyond, the entry is not representable


class Tables:
    """Exact forward (joint) and backward (conditional) tables as integers over a common scale per column; columns are times 0..T."""

    def __init__(self, p, e, d, seq):
        P, E = [[F(x) for x in r] for r in p], [[F(x) for x in r] for r in e]
        kp, ke, self.start = (math.lcm(*(x.denominator for r in m for x in r)) for m in (P, E, [list(d)]))
        self.unit = kp * ke  # one step
        P, E = [[int(x * kp) for x in r] for r in P], [[int(x * ke) for x in r] for r in E]
        n = self.n = len(p)
        self.T = len(seq)
        self.fwd = [[int(x * self.start) for x in d]]
        for s in seq:
            self.fwd.append([E[j][s] * sum(self.fwd[-1][i] * P[i][j] for i in range(n) if self.fwd[-1][i] and P[i][j]) for j in range(n)])
        self.bwd = [[1] * n]
        for s in reversed(seq):
            self.bwd.append([sum(P[i][j] * E[j][s] * self.bwd[-1][j] for j in range(n) if P[i][j] and E[j][s]) for i in range(n)])
        self.bwd.reverse()
        self.sums = [sum(c) for c in self.fwd]
        self.total = self.sums[-1]

    def log_total(self):
        return math.log(self.total) - math.log(self.start) - self.T * math.log(self.unit)

    def posterior(self, t, i):
        """At the time of symbol t = 0 .. T - 1."""
        return self.fwd[t + 1][i] * self.bwd[t + 1][i] / self.total

    def factor(self, t):
        return self.sums[t] / (self.sums[t - 1] * self.unit)

    def underflow(self):
        """A possible past of a probability too small to be represented."""
        low = 10 ** 280
        return any(0 < x * low < s for c, s in zip(self.fwd, self.sums) for x in c) or any(0 < b * low < a * self.unit for a, b in zip(self.sums[:-1], self.sums[1:]))


def flog(x):
    return math.log(x.numerator) - math.log(x.denominator)


def check(case, ctx):
    p, e, seq = case['p'], case['e'], case['seq']
    n, T = len(p), len(seq)
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    h = gen.build_hmm(case)
    d = status_vector(case['status'], n)
    arg, symbols = status_arg(case['status'], S), [Y[i] for i in seq] if case['byname'] else list(seq)
    what = f'decode({symbols[:30]}, {arg}, {case["scaling"]}) of {p} {e}'
    r = h.decode(symbols, arg, case['scaling'])
    R_ = Tables(p, e, d, seq)
    if R_.underflow():
        raise Discard()
    ctx.tag(case['status'][0], 'possible' if R_.total else 'impossible', 'scaled' if case['scaling'] else 'raw', 'by name' if case['byname'] else 'by index', 'T>100' if T > 100 else 'T<=100')
    ctx.interesting(T > 2 and any(x == 0 for row in p + e for x in row))
    if R_.total == 0:
        is_none(r, what)
        return
    require(r is not None, f'{what}: got None for a sequence of log probability {R_.log_total()}')
    same(len(r), 5, f'{what}: number of results')
    log_prob, posterior, backward, forward, factors = r
    close(log_prob, R_.log_total(), f'{what}: log probability', rtol=1e-9, atol=1e-9)
    close(posterior, [[R_.posterior(t, i) for t in range(T)] for i in range(n)], f'{what}: posterior', rtol=1e-8, atol=1e-290)
    times = range(T + 1)
    if case['scaling']:
        close(factors, [1.0] + [R_.factor(t) for t in times[1:]], f'{what}: scaling factors', rtol=1e-9, atol=1e-290)
        close(forward, [[R_.fwd[t][i] / R_.sums[t] for t in times] for i in range(n)], f'{what}: forward', rtol=1e-8, atol=1e-290)
        large = [[R_.bwd[t][i] * R_.sums[t] > R_.total * CEILING for t in times] for i in range(n)]
        last = max([t for row in large for t in times if row[t]], default=-1)
        ctx.tag('overflow' if last >= 0 else '')
        # the entries of the states which the past rules out are not representable before an overflow
        skip = [[t <= last and R_.fwd[t][i] == 0 for t in times] for i in range(n)]
        exp = [[0.0 if skip[i][t] else R_.bwd[t][i] * R_.sums[t] / R_.total for t in times] for i in range(n)]
        got = [[0.0 if skip[i][t] and not math.isnan(x) else x for t, x in enumerate(row)] for i, row in enumerate(backward)]
        close(got, exp, f'{what}: backward', rtol=1e-8, atol=1e-290)
    else:
        is_none(factors, f'{what}: scaling factors')
        if R_.log_total() > -575:
            close(forward, [[R_.fwd[t][i] / (R_.start * R_.unit ** t) for t in times] for i in range(n)], f'{what}: forward', rtol=1e-8, atol=0)
            close(backward, [[R_.bwd[t][i] / R_.unit ** (T - t) for t in times] for i in range(n)], f'{what}: backward', rtol=1e-8, atol=0)
    same(gen.build_hmm(case) == h, True, f'{what}: the model after the call')


@R.law(cases(), 3200, 40000)
def decoding(case, ctx):
    """Log probability, posterior, forward and backward tables, scaling factors; none for impossible sequences."""
    check(case, ctx)


@R.law(cases(2, 40, 5, True), 2400, 30000)
def magnitudes(case, ctx):
    """The same with transition and emission probabilities down to 2^-50, in relative accuracy."""
    check(case, ctx)


@R.law(cases(30, 150, 4, True, ['identity', 'closed', 'competing', 'functional', 'slow']), 400, 5000)
def ruled_out(case, ctx):
    """The same for long sequences in separate classes: the symbols would be far more probable from states they have ruled out."""
    check(case, ctx)


@R.law(cases(2, 30, 14), 240, 3000)
def large(case, ctx):
    """The same for up to 14 states and symbols."""
    check(case, ctx)


@R.law(cases(100, 400, 4), 160, 1600)
def long_sequences(case, ctx):
    """The same for sequences of hundreds of symbols."""
    check(case, ctx)


@R.law(cases(2, 5, 4), 1200, 12000)
def paths(case, ctx):
    """The log probability and the posterior are sums over all hidden paths."""
    p, e, seq = [[F(x) for x in r] for r in case['p']], [[F(x) for x in r] for r in case['e']], case['seq']
    n, T = len(p), len(seq)
    h = gen.build_hmm(case)
    d = status_vector(case['status'], n)
    start = [sum(d[i] * p[i][j] for i in range(n)) for j in range(n)]
    total, marg = F(0), [[F(0)] * T for _ in range(n)]
    for path in itertools.product(range(n), repeat=T):
        w = start[path[0]] * e[path[0]][seq[0]]
        for t in range(1, T):
            if not w:
                break
            w *= p[path[t - 1]][path[t]] * e[path[t]][seq[t]]
        if w:
            total += w
            for t, i in enumerate(path):
                marg[i][t] += w
    r = h.decode(list(seq), status_arg(case['status'], gen.hmm_states(case)))
    ctx.interesting(total > 0)
    if total == 0:
        is_none(r, f'decode({seq}) of an impossible sequence')
        return
    require(r is not None, f'decode({seq}): None for a possible sequence')
    close(r[0], flog(total), f'decode({seq}): log probability', rtol=1e-9, atol=1e-8)
    close(r[1], [[float(x / total) for x in row] for row in marg], f'decode({seq}): posterior', rtol=1e-8, atol=1e-12)
    # default of the scaling
    q = h.decode(list(seq), status_arg(case['status'], gen.hmm_states(case)), True)
    same(all(np.array_equal(a, b) for a, b in zip(r, q)), True, 'decode: default of use_scaling')


@R.law(cases(2, 4, 4), 800, 8000)
def rejected(case, ctx):
    """Invalid sequences, statuses and flags."""
    h = gen.build_hmm(case)
    S, Y = gen.hmm_states(case), gen.hmm_symbols(case)
    n, k = len(S), len(Y)
    ctx.interesting(True)
    ok = [0, 1]
    for bad in ([], [0], None, 0, Y[0], [0, k], [-1, 0], [0, Y[1]], ['?unknown?', Y[0]], [S[0], S[1]], [0.0, 1.0], [True, False], (0, 1), [[0, 1]], [None, 0]):
        expect_validation_error(lambda: h.decode(bad), f'decode({bad!r}) with {k} symbols')
    for bad in (n, -1, '?unknown?', Y[0], 1.0, True, [1.0] * n, [0.5] * (n + 1), [1.0] + [0.0] * n, [1.5, -0.5] + [0.0] * (n - 2), [float('nan')] * n, [], ['1'] * n, [1.0 / n] * (n - 1) + [2.0 / n]):
        expect_validation_error(lambda: h.decode(ok, bad), f'decode({ok}, {bad!r}) with {n} states')
    for bad in (0, 1, None, 'True', 1.0, [True]):
        expect_validation_error(lambda: h.decode(ok, None, bad), f'decode with use_scaling={bad!r}')
