"""
Hypothesis strategies: Markov chains by construction (class layout, periodicity, sparsity, weight scheme, labels), queries on them, sequences.
Every strategy yields plain JSON-able values.
"""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import oracle as O


# ------------------------------------------------------------------ weights

def alloc(bytes_, total):
    """Positive integers proportional to bytes_, summing to total (total >= len)."""
    m = len(bytes_)
    free = total - m
    w = [b + 1 for b in bytes_]
    s = sum(w)
    out = [1 + (free * x) // s for x in w]
    rest = total - sum(out)
    # the leftover goes to the heaviest entry
    out[max(range(m), key=lambda i: w[i])] += rest
    return out


def fill_row(scheme, bytes_):
    m = len(bytes_)
    if m == 1:
        return [1.0]
    if scheme == 'dyadic':
        total = 64 if m <= 16 else 1024
        return [x / total for x in alloc(bytes_, total)]
    if scheme == 'coarse':  # few distinct values: ties, equal rows, symmetric patterns
        total = 4 if m <= 4 else (8 if m <= 8 else 64)
        return [x / total for x in alloc([b % 3 for b in bytes_], total)]
    if scheme == 'decimal':  # the way a user types it: 0.35, 0.05 ...
        total = 20 if m <= 12 else 200
        return [x / total for x in alloc(bytes_, total)]
    if scheme == 'uniform':
        return [1.0 / m] * m
    if scheme == 'tiny':  # one entry absorbs the rest, the others are 2^-4 ... 2^-50: the row adds up to 1 exactly
        w = [2.0 ** -(4 + 2 * (b % 24)) for b in bytes_]
        top = max(range(m), key=lambda i: bytes_[i])
        w[top] = 0.0
        w[top] = 1.0 - math.fsum(w)
        return w
    if scheme == 'skew':
        w = [10.0 ** -((b >> 3) % 5) * (1 + (b & 7) / 8.0) for b in bytes_]
    else:
        w = [b + 1.0 for b in bytes_]
    s = math.fsum(w)
    return [x / s for x in w]


SCHEMES = ['dyadic', 'coarse', 'decimal', 'norm', 'skew', 'uniform']
PLAINLY = ['dyadic', 'coarse', 'decimal', 'norm']  # for large chains


def mostly(small, large, k=9):
    """The first strategy, and once in k the second one."""
    return st.integers(1, k).flatmap(lambda i: large if i == k else small)


def fill(support, scheme, blob):
    """support: n x n booleans. Returns rows of floats."""
    n = len(support)
    rows = []
    k = 0
    for i in range(n):
        idx = [j for j in range(n) if support[i][j]]
        bs = [blob[(k + q) % len(blob)] for q in range(len(idx))]
        k += len(idx)
        vals = fill_row(scheme, bs)
        row = [0.0] * n
        for j, v in zip(idx, vals):
            row[j] = v
        rows.append(row)
    return rows


# ------------------------------------------------------------------ supports

def class_support(sup, members, groups, bits):
    """A strongly connected class over members whose period is exactly len(groups); groups partition members."""
    d = len(groups)
    for g in range(d):
        a, b = groups[g], groups[(g + 1) % d]
        for u in a:
            for v in b:
                if u == a[0] or v == b[0] or next(bits):
                    sup[u][v] = True


def bitstream(blob):
    i = 0
    while True:
        byte = blob[i % len(blob)]
        for k in range(8):
            yield bool((byte >> k) & 1)
        i += 1


@st.composite
def layout_support(draw, n, closed_only=False, one_class=False, aperiodic=False, periodic=False):
    blob = draw(st.binary(min_size=1 + (n * n) // 8, max_size=1 + (n * n) // 8))
    bits = bitstream(blob)
    # split range(n) into consecutive blocks
    blocks = []
    i = 0
    while i < n:
        m = (n - i) if one_class else draw(st.integers(1, n - i))
        blocks.append(list(range(i, i + m)))
        i += m
    sup = [[False] * n for _ in range(n)]
    for b, members in enumerate(blocks):
        last = b == len(blocks) - 1
        closed = last or closed_only or draw(st.booleans())
        if aperiodic:
            d = 1
        elif periodic:
            d = draw(st.integers(min(2, len(members)), min(len(members), 4)))
        else:
            d = draw(st.integers(1, min(len(members), 4)))
        groups = [members[k::d] for k in range(d)]
        if len(members) == 1 and not closed and draw(st.booleans()):
            pass  # a transient singleton without a self loop
        elif d == 1 and len(members) > 1 and draw(st.booleans()):
            # aperiodic without being the full bipartite pattern: a cycle, a chord and possibly self loops
            for x, y in zip(members, members[1:] + members[:1]):
                sup[x][y] = True
            if len(members) > 2:
                sup[members[-1]][members[1]] = True
            else:
                sup[members[0]][members[0]] = True
            for x in members:
                for y in members:
                    if next(bits) and next(bits):
                        sup[x][y] = True
        else:
            class_support(sup, members, groups, bits)
        if not closed:
            later = [s for blk in blocks[b + 1:] for s in blk]
            exits = 0
            for u in members:
                for v in later:
                    if next(bits) and next(bits):
                        sup[u][v] = True
                        exits += 1
            if not exits:
                sup[members[-1]][later[len(later) // 2]] = True
    return sup


@st.composite
def sparse_support(draw, n):
    blob = draw(st.binary(min_size=n, max_size=n))
    blob2 = draw(st.binary(min_size=1 + n * n // 8, max_size=1 + n * n // 8))
    bits = bitstream(blob2)
    sup = [[next(bits) and next(bits) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        sup[i][blob[i] % n] = True
    return sup


def permute(rows, perm):
    """new[perm[i]][perm[j]] = old[i][j]"""
    n = len(rows)
    out = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            out[perm[i]][perm[j]] = rows[i][j]
    return out


SMALL = ['leaky', 'leaky', 'slow', 'rare']  # kinds with probabilities of many magnitudes, to be used along with the scheme 'tiny'
KINDS = ['layout', 'layout', 'sparse', 'dense', 'ergodic', 'periodic', 'closed', 'absorbing', 'competing', 'functional', 'birthdeath', 'symmetric', 'doubly', 'rank1', 'identity']


@st.composite
def matrix(draw, nmin=2, nmax=8, kinds=None, schemes=None):
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(kinds or KINDS))
    scheme = draw(st.sampled_from(schemes or SCHEMES))
    k = min(n * n, 255)
    blob = draw(st.binary(min_size=k, max_size=k))
    if kind == 'layout':
        rows = fill(draw(layout_support(n)), scheme, blob)
    elif kind == 'sparse':
        rows = fill(draw(sparse_support(n)), scheme, blob)
    elif kind == 'dense':
        rows = fill([[True] * n for _ in range(n)], scheme, blob)
    elif kind == 'ergodic':
        rows = fill(draw(layout_support(n, one_class=True, aperiodic=True)), scheme, blob)
    elif kind == 'irreducible':
        rows = fill(draw(layout_support(n, one_class=True)), scheme, blob)
    elif kind == 'periodic':
        rows = fill(draw(layout_support(n, one_class=True, periodic=True)), scheme, blob)
    elif kind == 'closed':
        rows = fill(draw(layout_support(n, closed_only=True)), scheme, blob)
    elif kind == 'absorbing':
        a = draw(st.integers(1, n - 1))
        sup = draw(sparse_support(n))
        for i in range(n - a, n):
            sup[i] = [j == i for j in range(n)]
        for i in range(n - a):  # each transient state has a path towards a later state
            sup[i][i + 1] = True
        rows = fill(sup, scheme, blob)
    elif kind == 'functional':
        rows = [[1.0 if j == blob[i] % n else 0.0 for j in range(n)] for i in range(n)]
    elif kind == 'birthdeath':
        sup = [[abs(i - j) <= 1 for j in range(n)] for i in range(n)]
        if draw(st.booleans()):
            for i in range(n):
                sup[i][i] = False
        rows = fill(sup, scheme, blob)
    elif kind == 'symmetric':
        w = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                w[i][j] = w[j][i] = (blob[(i * n + j) % k] % 5)
        top = max(1, max(sum(r) for r in w))
        total = 1
        while total < top:
            total *= 2
        rows = [[(w[i][j] if i != j else total - sum(w[i])) / total for j in range(n)] for i in range(n)]
    elif kind == 'doubly':  # dyadic mixture of permutation matrices
        acc = [[0] * n for _ in range(n)]
        for q in range(4):
            perm = draw(st.permutations(range(n)))
            for i in range(n):
                acc[i][perm[i]] += (1 if q else 5)
        rows = [[x / 8 for x in r] for r in acc]
    elif kind == 'rank1':
        row = fill_row(scheme, list(blob[:n]))
        rows = [list(row) for _ in range(n)]
    elif kind == 'reversible':  # random walk on a weighted connected graph
        w = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                x = blob[(i * n + j) % k]
                w[i][j] = w[j][i] = (x % 7) if x % 3 else 0
        for i in range(n - 1):
            w[i][i + 1] = w[i + 1][i] = max(1, w[i][i + 1])
        w[0][0] += 1
        rows = [[x / sum(r) for x in r] for r in w]
    elif kind == 'slow':  # nearly decoupled blocks: cross-block mass 2^-e
        e = draw(st.integers(4, 42 if scheme == 'tiny' else 20))
        cut = draw(st.integers(1, n - 1))
        rows = []
        for i in range(n):
            own = list(range(cut)) if i < cut else list(range(cut, n))
            oth = [j for j in range(n) if j not in own]
            r = [0.0] * n
            base = alloc([blob[(i * n + j) % k] for j in own], 256)
            for j, v in zip(own, base):
                r[j] = v / 256.0
            t = oth[blob[i % k] % len(oth)]
            big = max(own, key=lambda j: r[j])
            r[big] -= 2.0 ** -e / 16
            r[t] += 2.0 ** -e / 16
            rows.append(r)
    elif kind == 'leaky':  # transient classes and states which are left with a probability of 2^-e only
        sup = draw(layout_support(n))
        rows = fill(sup, 'dyadic', blob)
        e = draw(st.integers(6, 40))
        R = O.reachable(rows)
        for i in range(n):
            own = [j for j in range(n) if sup[i][j] and i in R[j]]
            out = [j for j in range(n) if sup[i][j] and i not in R[j]]
            if own and out:
                row = [0.0] * n
                for j, v in zip(own, alloc([blob[(i * n + j) % k] for j in own], 256)):
                    row[j] = v / 256.0
                big = max(own, key=lambda j: row[j])
                for j in out:
                    x = 2.0 ** -(e + (blob[(i + j * n) % k] % 5))
                    row[j] = x
                    row[big] -= x
                rows[i] = row
    elif kind == 'competing':  # transient states with a way to several closed classes
        t = draw(st.integers(1, max(1, n - 2)))
        sup = draw(sparse_support(n))
        rest = list(range(t, n))
        size = draw(st.integers(1, 2))
        groups = [rest[q:q + size] for q in range(0, len(rest), size)]
        for g in groups:
            for i in g:
                sup[i] = [j in g for j in range(n)]
        for i in range(t):
            sup[i][i + 1] = True
        for q, g in enumerate(groups):  # one transient state at least has an arc to each class
            sup[blob[q % k] % t][g[0]] = True
        rows = fill(sup, scheme, blob)
    elif kind == 'rare':  # one state is entered with a probability of 2^-e only
        sup = draw(layout_support(n, one_class=True, aperiodic=True))
        rows = fill(sup, 'dyadic', blob)
        e = draw(st.integers(6, 40))
        r = blob[0] % n
        for i in range(n):
            if i != r and 0.0 < rows[i][r] < 1.0:
                big = max((j for j in range(n) if j != r), key=lambda j: rows[i][j])
                rows[i][big] += rows[i][r] - 2.0 ** -e
                rows[i][r] = 2.0 ** -e
    elif kind == 'defective':  # no basis of eigenvectors: a lazy run counter, its reversal, or a cascade of equal leaks
        a, e = draw(st.sampled_from([1, 2, 3])) / 4, 2.0 ** -draw(st.integers(0, 7))
        form = draw(st.sampled_from(['runs', 'resets', 'cascade']))
        rows = [[0.0] * n for _ in range(n)]
        for i in range(n):
            if form == 'runs':
                step = [(0, 1 - a), (min(i + 1, n - 1), a)]
            elif form == 'resets':
                step = [(i - 1, 1.0)] if i else [(j, (1 - a) * a ** j if j < n - 1 else a ** j) for j in range(n)]
            else:
                step = [(min(i + 1, n - 1), 1.0)]
            for j, x in step:
                rows[i][j] += e * x
            rows[i][i] += 1 - e
    elif kind == 'identity':
        rows = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    else:
        raise AssertionError(kind)
    if kind not in ('identity', 'dense', 'rank1'):
        perm = draw(st.permutations(range(n)))
        rows = permute(rows, perm)
    return {'p': rows, 'kind': kind, 'scheme': scheme}


# ------------------------------------------------------------------ labels

WEIRD = ['A', 'b', 'a', 'B', 'Z', '1', '11', '111', '1 1', '0', '-1', 'é', 'ß', 'Ω', 'état', '日本', '\U0001F600', 'a,b', 'a"b', "it's", 'x;y', 'C_1', 'None', 'nan', 'True', 'S', 'SS', 'P', '2', '12', '21', '10', '9',
         '<t>', '&amp;', '\\n', '#', '*', ' lead', 'tail ', '{}', '[0]', '%s', 'x->y', 'State A', 'state_a']
PLAIN = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'sunny', 'rainy', 'cloudy', 'n1', 'n2', 'n10', 'zz', 'aa', 'x', 'y', 'up', 'down', 'Left', 'right', 'q', 'r', 's', 't', 'u', 'v', 'w', 'k', 'm', 'o', 'z',
         'alpha', 'beta', 'gamma', 'delta']


@st.composite
def labels(draw, n, none=True, plain=False, prefix=''):
    kind = draw(st.sampled_from((['none', 'none'] if none else []) + ['plain', 'shuffled', 'digits'] + ([] if plain else ['weird', 'text'])))
    if kind == 'none':
        return None
    if kind == 'shuffled':  # the default names in another order: index and name disagree
        return [prefix + str(i + 1) for i in draw(st.permutations(range(n)))]
    if kind == 'digits':  # concatenations of those collide: '1'+'11' == '11'+'1'
        return [prefix + '1' * (i + 1) for i in draw(st.permutations(range(n)))]
    if kind == 'text':
        alphabet = st.characters(min_codepoint=33, max_codepoint=0x2FF, blacklist_categories=('Cs', 'Cc', 'Zs'))
        base = draw(st.lists(st.text(alphabet, min_size=1, max_size=4), min_size=n, max_size=n))
        seen, out = set(), []
        for b in base:
            while b in seen:
                b += '_'
            seen.add(b)
            out.append(prefix + b)
        return out
    pool = PLAIN if kind == 'plain' else WEIRD
    if len(pool) < n:
        return [prefix + f's{i}' for i in draw(st.permutations(range(n)))]
    offset = draw(st.integers(0, len(pool) - 1))
    step = draw(st.sampled_from([1, 2, 3, 5, 7, 11]))
    out = []
    i = offset
    while len(out) < n:
        c = pool[i % len(pool)]
        while c in out:
            i += 1
            c = pool[i % len(pool)]
        out.append(c)
        i += step
    return [prefix + o for o in out]


@st.composite
def chain(draw, nmin=2, nmax=8, kinds=None, schemes=None, plain=False, none=True):
    m = draw(matrix(nmin, nmax, kinds, schemes))
    m['states'] = draw(labels(len(m['p']), plain=plain, none=none))
    return m


# ------------------------------------------------------------------ vectors and sequences

@st.composite
def distribution(draw, n, schemes=('dyadic', 'decimal', 'norm', 'onehot', 'sparse'), positive=False):
    kind = draw(st.sampled_from([s for s in schemes if not (positive and s in ('onehot', 'sparse'))]))
    blob = draw(st.binary(min_size=n, max_size=n))
    if kind == 'onehot':
        i = blob[0] % n
        return [1.0 if j == i else 0.0 for j in range(n)]
    if kind == 'sparse':
        idx = [j for j in range(n) if blob[j] & 1] or [blob[0] % n]
        vals = fill_row('dyadic', [blob[j] for j in idx])
        out = [0.0] * n
        for j, v in zip(idx, vals):
            out[j] = v
        return out
    return fill_row(kind, list(blob))


def indices(n, min_size=0, max_size=12):
    return st.lists(st.integers(0, n - 1), min_size=min_size, max_size=max_size)


@st.composite
def subset(draw, n, min_size=1, max_size=None):
    max_size = n if max_size is None else max_size
    return draw(st.lists(st.integers(0, n - 1), min_size=min_size, max_size=max_size, unique=True))


def names(case):
    return case['states'] or [str(i + 1) for i in range(len(case['p']))]


def build(case):
    """The chain under test."""
    from pydtmc import MarkovChain
    return MarkovChain(np.array(case['p'], dtype=float), list(case['states']) if case['states'] is not None else None)


def tag_chain(case, ctx):
    ctx.tag(f'kind={case["kind"]}', f'scheme={case["scheme"]}', f'n={len(case["p"])}', 'labels=' + ('default' if case['states'] is None else 'custom'))


# ------------------------------------------------------------------ hidden models

@st.composite
def emission(draw, n, kmin=2, kmax=6, schemes=None):
    k = draw(st.integers(kmin, kmax))
    kind = draw(st.sampled_from(['dense', 'sparse', 'sparse', 'functional', 'partial', 'equal']))
    scheme = draw(st.sampled_from(schemes or SCHEMES))
    blob = draw(st.binary(min_size=n * k, max_size=n * k))
    if kind == 'dense':
        sup = [[True] * k for _ in range(n)]
    elif kind == 'functional':
        return [[1.0 if j == blob[i] % k else 0.0 for j in range(k)] for i in range(n)]
    elif kind == 'equal':  # the symbols carry no information
        return [fill_row(scheme, list(blob[:k])) for _ in range(n)]
    else:
        bits = bitstream(draw(st.binary(min_size=1 + n * k // 8, max_size=1 + n * k // 8)))
        sup = [[next(bits) for _ in range(k)] for _ in range(n)]
        never = blob[0] % k if kind == 'partial' else -1  # a symbol which is never emitted
        for i in range(n):
            if k > 1 and never >= 0:
                sup[i][never] = False
            if not any(sup[i]):
                sup[i][(blob[i] % k) if blob[i] % k != never else (never + 1) % k] = True
    out, q = [], 0
    for i in range(n):
        idx = [j for j in range(k) if sup[i][j]]
        vals = fill_row(scheme, [blob[(q + x) % len(blob)] for x in range(len(idx))])
        q += len(idx)
        row = [0.0] * k
        for j, v in zip(idx, vals):
            row[j] = v
        out.append(row)
    return out


@st.composite
def hmm(draw, nmin=2, nmax=6, kmin=2, kmax=6, kinds=None, plain=False, none=True, schemes=None):
    m = draw(matrix(nmin, nmax, kinds, schemes))
    n = len(m['p'])
    m['e'] = draw(emission(n, kmin, kmax, schemes))
    m['states'] = draw(labels(n, plain=plain, none=none))
    m['symbols'] = draw(labels(len(m['e'][0]), plain=plain, none=none))
    if m['symbols'] is not None:
        taken = set(hmm_states(m))
        syms = []
        for s in m['symbols']:
            while s in taken or s in syms:
                s += "'"
            syms.append(s)
        m['symbols'] = syms
    elif set(hmm_states(m)) & set(hmm_symbols(m)):
        m['states'] = None
    return m


def hmm_states(case):
    return case['states'] or [f'P{i + 1}' for i in range(len(case['p']))]


def hmm_symbols(case):
    return case['symbols'] or [f'E{i + 1}' for i in range(len(case['e'][0]))]


def build_hmm(case):
    from pydtmc import HiddenMarkovModel
    return HiddenMarkovModel(np.array(case['p'], dtype=float), np.array(case['e'], dtype=float), None if case['states'] is None else list(case['states']), None if case['symbols'] is None else list(case['symbols']))
