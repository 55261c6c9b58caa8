"""C21: ordinary lumpability."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, expect_value_error, expect_rejection, Discard

R = Registry('C21', 'chains lumpable by construction over a generated ordered partition (lumped matrix and within-block weights generated), perturbed controls, and chains of every layout; oracle: exact block sums of every state; non-trivial: a lumpable partition with a block of at least two states')


def blocks_of(cuts, n):
    out, cur = [], [0]
    for i in range(1, n):
        if cuts[i - 1]:
            out.append(cur)
            cur = []
        cur.append(i)
    out.append(cur)
    return out


@st.composite
def cases(draw, nmin=3, nmax=7, schemes=None):
    kind = draw(st.sampled_from(['lumpable', 'lumpable', 'lumpable', 'perturbed', 'any']))
    if kind == 'any':
        c = draw(gen.chain(nmin, nmax, schemes=schemes))
        n = len(c['p'])
        cuts = draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1))
        if not 1 <= sum(cuts) <= n - 2:
            cuts = [True] + [False] * (n - 2)
    else:
        n = draw(st.integers(nmin, nmax))
        cuts = draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1))
        if not 1 <= sum(cuts) <= n - 2:
            cuts = [True] + [False] * (n - 2)
        bl = blocks_of(cuts, n)
        q = draw(gen.matrix(len(bl), len(bl), schemes=schemes))
        blob = draw(st.binary(min_size=n * n, max_size=n * n))
        scheme = draw(st.sampled_from(schemes or gen.SCHEMES))
        rows = [[0.0] * n for _ in range(n)]
        for a, A in enumerate(bl):
            for i in A:
                for b, B in enumerate(bl):
                    w = [blob[i * n + j] for j in B]
                    if blob[i * n + B[0]] % 3 == 0:  # all of it to one state
                        v = [1.0 if j == B[blob[i * n + B[-1]] % len(B)] else 0.0 for j in B]
                    else:
                        v = gen.fill_row(scheme, w)
                    for j, x in zip(B, v):
                        rows[i][j] = q['p'][a][b] * x
        for r in rows:
            s = sum(r)
            if s != 1.0:
                for j in range(n):
                    r[j] /= s
        if kind == 'perturbed':
            big = [A for A in bl if len(A) > 1]
            i = big[blob[0] % len(big)][0]
            j = max(range(n), key=lambda x: rows[i][x])
            own = next(B for B in bl if j in B)
            k = [x for x in range(n) if x not in own][blob[1] % (n - len(own))]
            d = rows[i][j] * draw(st.sampled_from([0.5, 0.125, 0.01]))
            if blob[2] % 2 and 0.0 < rows[i][k] < rows[i][j] / 8:  # several times as much as the rest of the block
                d = 3 * rows[i][k]
            rows[i][j] -= d
            rows[i][k] += d
        c = {'p': rows, 'kind': kind, 'scheme': scheme, 'states': draw(gen.labels(n, plain=True))}
    c['cuts'] = cuts
    c['bynames'] = draw(st.booleans())
    c['dist'] = draw(gen.distribution(n))
    return c


def sums(P, i, bl):
    return [sum(P[i][j] for j in B) for B in bl]


def verdict(P, bl):
    """True: lumpable up to rounding; False: not lumpable by a wide margin, relatively; None: in between."""
    result = True
    for A in bl:
        s = [sums(P, i, bl) for i in A]
        for b in range(len(bl)):
            v = [float(x[b]) for x in s]
            spread = max(v) - min(v)
            if spread > 1e-3 * max(v) + 1e-13:
                return False
            if spread > 1e-12 * max(v) and spread > 4e-16:
                result = None
    return result


@R.law(cases(), 2400, 36000)
def lumping(case, ctx):
    """lump accepts a partition exactly when the block sums agree within each block; the lumped chain has these sums, the joined names, and commutes with the evolution."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    P = O.exact(p)
    bl = blocks_of(case['cuts'], n)
    v = verdict(P, bl)
    ctx.tag(f'lumpable={v}')
    if v is None:
        raise Discard()
    ctx.interesting(v is True)
    mc = gen.build(case)
    arg = [[L[i] for i in B] for B in bl] if case['bynames'] else [list(B) for B in bl]
    if not v:
        expect_value_error(lambda: mc.lump(arg), f'lump({arg}) of a chain which is not lumpable')
        return
    lc = mc.lump(arg)
    q = [O.floats(sums(P, A[0], bl)) for A in bl]
    close(lc.p, q, f'matrix of lump({arg})', rtol=1e-9, atol=1e-11)
    got = lc.p
    for a, A in enumerate(bl):  # every state of the block has the same sum up to rounding, whichever the library reads
        for b in range(len(bl)):
            v = [float(sums(P, i, bl)[b]) for i in A]
            require(min(v) * (1 - 1e-12) - 1e-320 <= got[a, b] <= max(v) * (1 + 1e-12) + 1e-320, f'lump({arg}): the probability from group {a} to group {b} is {got[a, b]}, outside of those of its states {v}')
    same(lc.states, [','.join(L[i] for i in B) for B in bl], f'names of lump({arg})')
    same(lc.size, len(bl), f'size of lump({arg})')
    d = case['dist']
    for k in (1, 2, 5):
        full = mc.redistribute(k, list(d))
        close(lc.redistribute(k, [sum(d[i] for i in B) for B in bl]), [sum(full[i] for i in B) for B in bl], f'lumped evolution over {k} steps', rtol=1e-8, atol=1e-9)


@R.law(cases(3, 6, ['tiny']), 1200, 16000)
def lumping_magnitudes(case, ctx):
    """The law above with probabilities down to 2^-100: the lumped probabilities keep their relative accuracy."""
    lumping(case, ctx)


@R.law(cases(8, 20, gen.PLAINLY), 240, 3000)
def lumping_large(case, ctx):
    """The law above for 8 to 20 states."""
    lumping(case, ctx)


@R.law(gen.mostly(cases(3, 6), cases(7, 9)), 800, 12000)
def partitions(case, ctx):
    """lumping_partitions lists, once each and by index, exactly the ordered partitions for which the chain is lumpable."""
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    P = O.exact(p)
    expected, doubt = set(), set()
    # known finding K2: the comparison is exact, so that completeness is only demanded where the sums of probabilities are exact in floating point
    exact = all(float(x * 2 ** 30).is_integer() for r in p for x in r)
    ctx.tag(f'exact arithmetic={exact}')
    for bits in range(1, 2 ** (n - 1)):
        cuts = [(bits >> i) & 1 for i in range(n - 1)]
        if sum(cuts) > n - 2:
            continue
        bl = blocks_of(cuts, n)
        v = verdict(P, bl)
        key = tuple(map(tuple, bl))
        if v and (exact or case.get('__known__')):
            expected.add(key)
        elif v is not False:
            doubt.add(key)
    ctx.interesting(len(expected) > 0)
    ctx.tag(f'partitions={min(len(expected), 3)}')
    got = gen.build(case).lumping_partitions
    keys = [tuple(tuple(B) for B in part) for part in got]
    same(len(set(keys)), len(keys), 'lumping_partitions has duplicates: number of partitions')
    same(set(keys) - doubt, expected, 'lumping_partitions')


@st.composite
def dyadic_cases(draw):
    """Ten states or more, probabilities in units of 2^-20, lumpable over an ordered partition by construction."""
    n = draw(st.sampled_from([10, 10, 11, 12, 13]))
    cuts = draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1))
    bl = blocks_of(cuts, n)
    blob = draw(st.binary(min_size=2 * n * n, max_size=2 * n * n))
    same_rows = draw(st.booleans())

    def split(total, weights):
        """Nonnegative integers proportional, roughly, to the weights."""
        s = sum(weights)
        if s == 0:
            return [total] + [0] * (len(weights) - 1)
        v = [total * w // s for w in weights]
        v[max(range(len(v)), key=lambda x: weights[x])] += total - sum(v)
        return v
    rows = []
    for a, A in enumerate(bl):
        q = split(2 ** 20, [x % 5 for x in blob[(0 if same_rows else a * n):][:len(bl)]])
        for i in A:
            r = [0] * n
            for b, B in enumerate(bl):
                for j, x in zip(B, split(q[b], [blob[n * n + (0 if same_rows else i * n) + j] % 7 for j in B])):
                    r[j] = x
            rows.append(r)
    return {'units': rows, 'cuts': cuts}


@R.law(dyadic_cases(), 60, 600)
def partitions_many(case, ctx):
    """lumping_partitions is exact and complete over all the ordered partitions of ten to thirteen states."""
    from pydtmc import MarkovChain
    u = np.array(case['units'], dtype=np.int64)
    n = len(u)
    expected = set()
    for bits in range(1, 2 ** (n - 1)):
        cuts = [(bits >> i) & 1 for i in range(n - 1)]
        if sum(cuts) > n - 2:
            continue
        bl = blocks_of(cuts, n)
        starts = [B[0] for B in bl]
        s = np.add.reduceat(u, starts, axis=1)
        if all((s[B] == s[B[0]]).all() for B in bl if len(B) > 1):
            expected.add(tuple(map(tuple, bl)))
    ctx.tag(f'n={n}', f'partitions~2**{len(expected).bit_length()}')
    ctx.interesting(len(expected) > 0)
    got = MarkovChain(u / 2 ** 20).lumping_partitions
    keys = [tuple(tuple(B) for B in part) for part in got]
    same(len(set(keys)), len(keys), 'lumping_partitions has duplicates: number of partitions')
    same(set(keys), expected, f'lumping_partitions of {n} states')


@R.law(gen.chain(2, 2), 40, 400)
def two_states(case, ctx):
    """A chain of two states cannot be lumped."""
    ctx.interesting(True)
    same(gen.build(case).lumping_partitions, [], 'lumping_partitions of two states')
    expect_rejection(lambda: gen.build(case).lump([[0], [1]]), 'lump of two states')
    expect_rejection(lambda: gen.build(case).lump([[0, 1]]), 'lump of two states')
