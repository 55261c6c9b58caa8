"""C08: structural flags and matrix descriptors."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require

R = Registry('C08', 'chains with exactly representable rows of every kind including symmetric, doubly stochastic, reversible and rank-deficient ones and one-entry perturbations of them; non-trivial: at least one of the flags is true')


def agree(pairs):
    """True: equal up to rounding; False: different by a wide margin, relatively; None: in between."""
    result = True
    for a, b in pairs:
        if abs(a - b) > max(a, b) / 2000:
            return False
        if abs(a - b) * 10 ** 12 > max(a, b):
            result = None
    return result


@st.composite
def cases(draw, nmin=2, nmax=7, schemes=('dyadic', 'coarse', 'uniform')):
    c = draw(gen.chain(nmin, nmax, kinds=gen.KINDS + ['symmetric', 'doubly', 'reversible', 'reversible', 'birthdeath', 'rank1'], schemes=list(schemes)))
    mode = draw(st.sampled_from(['plain', 'plain', 'monotone', 'bump', 'duprow', 'canonical', 'revperiodic']))
    n = len(c['p'])
    p = c['p']
    if mode == 'monotone':  # sort the rows stochastically: cumulative tails become non-decreasing
        tails = [[sum(r[m:]) for m in range(n)] + [0.0] for r in p]
        cols = [sorted(t[m] for t in tails) for m in range(n + 1)]
        p = [[cols[m][i] - cols[m + 1][i] for m in range(n)] for i in range(n)]
    elif mode == 'bump':  # move 1/16 of mass inside of one row
        k = draw(st.integers(0, n ** 3 - 1))
        i, a, b = k % n, (k // n) % n, (k // n // n) % n
        p = [list(r) for r in p]
        if a != b and p[i][a] >= 0.0625 and p[i][b] <= 0.9375:
            p[i][a] -= 0.0625
            p[i][b] += 0.0625
    elif mode == 'canonical':  # transient states first, possibly but for one pair
        order = [i for k in (O.transient_classes(p), O.recurrent_classes(p)) for i in sorted(sum(map(list, k), []))]
        if draw(st.booleans()):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            order[a], order[b] = order[b], order[a]
        p = [[p[i][j] for j in order] for i in order]
    elif mode == 'duprow':
        p = [list(r) for r in p]
        p[n - 1] = list(p[0])
    return dict(c, p=p, mode=mode)


@R.law(cases(), 3000, 50000)
def flags(case, ctx):
    """Symmetry, double stochasticity, stochastic monotonicity, reversibility, canonical form, density, rank and determinant equal the exact reference."""
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    F = [[Fraction(x) for x in r] for r in p]
    mc = gen.build(case)
    exactrows = all(sum(r) == 1 for r in F)

    sym = agree((F[i][j], F[j][i]) for i in range(n) for j in range(i))
    if sym is not None:
        same(bool(mc.is_symmetric), sym, 'is_symmetric')
        ctx.interesting(sym)
        ctx.tag(f'symmetric={sym}')
    ds = max(abs(sum(F[i][j] for i in range(n)) - 1) for j in range(n))
    if ds < Fraction(1, 10**12) or ds > Fraction(1, 1000):
        same(bool(mc.is_doubly_stochastic), ds < Fraction(1, 1000), 'is_doubly_stochastic')
        ctx.interesting(ds < Fraction(1, 1000))
        ctx.tag(f'doubly={ds < Fraction(1, 1000)}')
    tails = [(sum(F[k][m:]), sum(F[k + 1][m:])) for m in range(1, n) for k in range(n - 1)]
    drop = max(Fraction(a - b, a) if a > b else 0 for a, b in tails)
    if drop < Fraction(n, 10 ** 15) or drop > Fraction(1, 10 ** 9):  # equal up to rounding, or not
        mono = drop < Fraction(n, 10 ** 15)
        same(bool(mc.is_stochastically_monotone), mono, 'is_stochastically_monotone')
        same(bool(mc.is_monotone), mono, 'is_monotone')
        ctx.interesting(mono)
        ctx.tag(f'monotone={mono}')
    P = O.exact(p)
    pis = O.stationaries(P)
    if len(pis) > 1:
        same(bool(mc.is_reversible), False, 'is_reversible with several stationary distributions')
    else:
        pi = pis[0]
        db = agree((pi[i] * P[i][j], pi[j] * P[j][i]) for i in range(n) for j in range(i))
        if db is not None:
            same(bool(mc.is_reversible), db, 'is_reversible')
            ctx.interesting(db)
            ctx.tag(f'reversible={db}')
    tra = [i for c in O.transient_classes(p) for i in c]
    rec = [i for c in O.recurrent_classes(p) for i in c]
    canonical = not tra or max(tra) < min(rec)
    same(bool(mc.is_canonical), canonical, 'is_canonical')
    ctx.tag(f'canonical={canonical}, transient={bool(tra)}')
    adj = np.asarray(mc.adjacency_matrix)
    same(adj.tolist(), [[int(x > 0) for x in r] for r in p], 'adjacency_matrix')
    dens = Fraction(sum(1 for i in range(n) for j in range(n) if i != j and p[i][j] > 0), n * (n - 1))
    close(mc.density, float(dens), 'density', rtol=1e-12, atol=1e-12)
    if exactrows and case['scheme'] != 'tiny':
        rank, det = rank_det(F)
        if int(np.sum(np.linalg.svd(np.array(p), compute_uv=False) > 1e-10)) == rank:  # otherwise the rank hangs on the rounding of the entries
            same(int(mc.rank), rank, 'rank')
        close(mc.determinant, float(det), 'determinant', rtol=1e-9, atol=1e-13)
        ctx.interesting(rank < n)
        ctx.tag(f'fullrank={rank == n}')
    same(mc.size, n, 'size')
    same(mc.n, n, 'n')
    same(mc.states, gen.names(case), 'states')
    close(mc.p, p, 'p', rtol=0, atol=0)


def rank_det(F):
    n = len(F)
    M = [list(r) for r in F]
    det, rank, row = Fraction(1), 0, 0
    for c in range(n):
        piv = next((r for r in range(row, n) if M[r][c] != 0), None)
        if piv is None:
            det = Fraction(0)
            continue
        if piv != row:
            M[row], M[piv] = M[piv], M[row]
            det = -det
        det *= M[row][c]
        for r in range(row + 1, n):
            f = M[r][c] / M[row][c]
            if f:
                M[r] = [x - f * y for x, y in zip(M[r], M[row])]
        row += 1
    return row, (det if row == n else Fraction(0))


@R.law(cases(8, 20, ('dyadic', 'coarse')), 160, 2400)
def flags_large(case, ctx):
    """Same for 8 to 20 states."""
    flags(case, ctx)


@R.law(gen.mostly(gen.chain(2, 9), gen.chain(10, 20)), 400, 6000)
def incidence(case, ctx):
    """One row per state and one column per ordered pair of states, row by row: the column of a pair of different states marks these two, the others are null."""
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    want = np.zeros((n, n * n), dtype=int)
    for i in range(n):
        for j in range(n):
            # known finding: the library marks the pairs which are not joined by a transition too, which the stored results of its tests pin
            if i != j and (p[i][j] > 0 or not case.get('__known__')):
                want[i, i * n + j] = want[j, i * n + j] = 1
    mc = gen.build(case)
    got = mc.incidence_matrix
    same(got.shape, want.shape, 'shape of the incidence matrix')
    require(np.issubdtype(got.dtype, np.integer) and np.array_equal(got, want), lambda: f'incidence matrix {got.tolist()} instead of {want.tolist()}')
    got[:] = 7
    require(np.array_equal(mc.incidence_matrix, want), 'the incidence matrix after its copy was overwritten')
    ctx.interesting(n > 2)


@R.law(cases(2, 6, ('tiny',)), 1000, 12000)
def flags_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50."""
    flags(case, ctx)


@st.composite
def single_defects(draw):
    """A chain which has a property everywhere but, possibly, in one generated place."""
    n = draw(st.one_of(st.integers(3, 8), st.integers(9, 16)))
    mode = draw(st.sampled_from(['monotone', 'monotone', 'flat', 'symmetric', 'circulating', 'doubly']))
    defect = draw(st.integers(0, 4)) > 0
    i = draw(st.integers(0, n - 2))
    m = draw(st.sampled_from([1, n - 1, draw(st.integers(1, n - 1))]))
    d = 2.0 ** -draw(st.integers(10, 28))
    if mode in ('monotone', 'flat'):
        tails = [[1.0] + [(n - k) / 32 + (x * d if mode == 'monotone' else 0.0) for k in range(1, n)] + [0.0] for x in range(n)]
        if defect and mode == 'monotone':
            tails[i][m], tails[i + 1][m] = tails[i + 1][m], tails[i][m]
        elif defect:
            for x in range(i + 1, n) if draw(st.booleans()) else [i + 1]:
                tails[x][m] -= d
        p = [[t[k] - t[k + 1] for k in range(n)] for t in tails]
    else:
        p = [[1 / 32] * n for _ in range(n)]
        for x in range(n):
            p[x][x] = 1 - (n - 1) / 32
        a, b, c = draw(st.permutations(range(n)))[:3]
        if defect and mode == 'symmetric':  # one pair differs
            p[a][b] += d
            p[a][a] -= d
        elif defect and mode == 'circulating':  # a uniform stationary distribution, one circulation
            for x, y in ((a, b), (b, c), (c, a)):
                p[x][y] += d
                p[y][x] -= d
        elif defect:  # one column more, one less
            p[a][b] += 1 / 64
            p[a][c] -= 1 / 64
    return {'p': p, 'kind': f'single defect: {mode if defect else "none"}', 'scheme': 'dyadic', 'states': None, 'mode': mode}


@R.law(single_defects(), 400, 6000)
def one_place(case, ctx):
    """Chains of 3 to 16 states whose symmetry, double stochasticity, monotonicity or detailed balance fails in one place only, by little."""
    flags(case, ctx)
