"""Reference semantics, written from the definitions, in exact rational arithmetic where the quantity is rational. Shares no code with pydtmc."""
from fractions import Fraction
from math import gcd

import numpy as np

INF = float('inf')


def exact(rows):
    """Rational rows, normalised exactly."""
    out = []
    for r in rows:
        f = [Fraction(x) for x in r]
        s = sum(f)
        out.append([x / s for x in f])
    return out


def succ(rows):
    n = len(rows)
    return [[j for j in range(n) if rows[i][j] > 0] for i in range(n)]


def reachable(rows):
    """R[i] = set of states reachable from i in zero or more steps."""
    nxt = succ(rows)
    out = []
    for i in range(len(rows)):
        seen = {i}
        stack = [i]
        while stack:
            u = stack.pop()
            for v in nxt[u]:
                if v not in seen:
                    seen.add(v)
                    stack.append(v)
        out.append(seen)
    return out


def by_size(classes):
    return sorted([sorted(c) for c in classes], key=lambda c: (-len(c), c[0]))


def classes(rows):
    R = reachable(rows)
    n = len(rows)
    done, out = set(), []
    for i in range(n):
        if i in done:
            continue
        c = [j for j in R[i] if i in R[j]]
        done |= set(c)
        out.append(sorted(c))
    return by_size(out)


def closed(rows, c):
    s = set(c)
    return all(j in s for i in c for j in succ(rows)[i])


def recurrent_classes(rows):
    R = reachable(rows)
    return by_size([c for c in classes(rows) if R[c[0]] == set(c)])


def transient_classes(rows):
    R = reachable(rows)
    return by_size([c for c in classes(rows) if R[c[0]] != set(c)])


def period_of(rows, c):
    """gcd of the lengths of all cycles inside of class c (0 if it has none)."""
    nxt = succ(rows)
    s = set(c)
    level = {c[0]: 0}
    queue = [c[0]]
    g = 0
    while queue:
        u = queue.pop(0)
        for v in nxt[u]:
            if v not in s:
                continue
            if v in level:
                g = gcd(g, level[u] + 1 - level[v])
            else:
                level[v] = level[u] + 1
                queue.append(v)
    return abs(g)


def cyclic_partition(rows, c):
    nxt = succ(rows)
    d = period_of(rows, c)
    level = {c[0]: 0}
    queue = [c[0]]
    while queue:
        u = queue.pop(0)
        for v in nxt[u]:
            if v in c and v not in level:
                level[v] = level[u] + 1
                queue.append(v)
    out = {}
    for i, l in level.items():
        out.setdefault(l % d, []).append(i)
    return by_size(out.values())


def solve(A, B):
    """Exact Gauss-Jordan: A (n x n Fractions), B (n x m). Raises ZeroDivisionError if singular."""
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    for c in range(n):
        piv = next((r for r in range(c, n) if M[r][c] != 0), None)
        if piv is None:
            raise ZeroDivisionError('singular')
        M[c], M[piv] = M[piv], M[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def matmul(A, B):
    Bt = list(zip(*B))
    return [[sum(x * y for x, y in zip(r, c) if x and y) for c in Bt] for r in A]


def vecmat(v, A):
    return [sum(v[i] * A[i][j] for i in range(len(v)) if v[i] and A[i][j]) for j in range(len(A[0]))]


def matvec(A, v):
    return [sum(a * b for a, b in zip(r, v) if a and b) for r in A]


def eye(n):
    return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]


def mpow(P, k):
    R = eye(len(P))
    B = P
    while k:
        if k & 1:
            R = matmul(R, B)
        k >>= 1
        if k:
            B = matmul(B, B)
    return R


def stationary_of_class(P, c):
    """Exact stationary distribution of the closed class c, as a full-length vector."""
    n, m = len(P), len(c)
    A = [[P[c[j]][c[i]] - (1 if i == j else 0) for j in range(m)] for i in range(m)]
    A[-1] = [Fraction(1)] * m
    b = [[Fraction(0)] for _ in range(m - 1)] + [[Fraction(1)]]
    x = solve(A, b)
    out = [Fraction(0)] * n
    for i, s in enumerate(c):
        out[s] = x[i][0]
    return out


def stationaries(P):
    return [stationary_of_class(P, c) for c in recurrent_classes(P)]


def hitting_probabilities(P, targets):
    """P_i(ever in targets), the minimal non-negative solution: 1 on the targets."""
    n = len(P)
    T = set(targets)
    # states which can reach T
    R = reachable(P)
    can = [i for i in range(n) if i not in T and R[i] & T]
    h = [Fraction(0)] * n
    for t in T:
        h[t] = Fraction(1)
    if can:
        A = [[(1 if i == j else 0) - P[i][j] for j in can] for i in can]
        b = [[sum(P[i][t] for t in T)] for i in can]
        x = solve(A, b)
        for k, i in enumerate(can):
            h[i] = x[k][0]
    return h


def hitting_times(P, targets):
    n = len(P)
    T = set(targets)
    h = hitting_probabilities(P, targets)
    fin = [i for i in range(n) if i not in T and h[i] == 1]
    out = [INF] * n
    for t in T:
        out[t] = Fraction(0)
    if fin:
        A = [[(1 if i == j else 0) - P[i][j] for j in fin] for i in fin]
        x = solve(A, [[Fraction(1)] for _ in fin])
        for k, i in enumerate(fin):
            out[i] = x[k][0]
    return out


def mean_visits(P):
    """E_i[number of n >= 1 with X_n = j]."""
    n = len(P)
    out = [[None] * n for _ in range(n)]
    for j in range(n):
        h = hitting_probabilities(P, [j])
        # h+ : probability of reaching j in one or more steps
        hp = [sum(P[i][k] * h[k] for k in range(n)) for i in range(n)]
        for i in range(n):
            if hp[i] == 0:
                out[i][j] = Fraction(0)
            elif hp[j] == 1:
                out[i][j] = INF
            else:
                out[i][j] = hp[i] / (1 - hp[j])
    return out


def mean_first_passage(P, targets):
    return hitting_times(P, targets)


def fundamental(P, transient):
    A = [[(1 if i == j else 0) - P[i][j] for j in transient] for i in transient]
    return solve(A, eye(len(transient)))


def floats(x):
    if isinstance(x, (list, tuple)):
        return [floats(y) for y in x]
    return float(x)


def complex_spectrum(p):
    """Complex eigenvalues with a basis of eigenvectors: the powers are then evaluated through them (known finding K1)."""
    w, v = np.linalg.eig(np.array(p, dtype=float))
    return np.iscomplexobj(w) and np.linalg.cond(v) < 2e6
