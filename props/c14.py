"""C14: committor probabilities."""
from fractions import Fraction
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, close, is_none, Discard, require
from vlib.core import expect_validation_error

R = Registry('C14', 'ergodic chains (and non-ergodic controls) with two generated disjoint state sets; oracle: exact boundary value problems for the chain and for its time reversal; non-trivial: some state outside of both sets')


@st.composite
def cases(draw, nmin, nmax, kinds, schemes=None):
    c = draw(gen.chain(nmin, nmax, kinds=kinds, schemes=schemes))
    n = len(c['p'])
    perm = draw(st.permutations(range(n)))
    a = draw(st.integers(1, n - 1))
    b = draw(st.integers(1, n - a))
    c['a'], c['b'] = sorted(perm[:a]), list(perm[a:a + b])
    c['byname'] = draw(st.booleans())
    return c


def committor(P, zero, one):
    """P(reach `one` before `zero`)."""
    n = len(P)
    inner = [i for i in range(n) if i not in zero and i not in one]
    h = [Fraction(int(i in one)) for i in range(n)]
    if inner:
        A = [[(1 if i == j else 0) - P[i][j] for j in inner] for i in inner]
        x = O.solve(A, [[sum(P[i][k] for k in one)] for i in inner])
        for k, i in enumerate(inner):
            h[i] = x[k][0]
    return h


def check(case, ctx):
    """The forward committor is the probability of reaching the second set before the first; the backward committor, the probability of coming last from the first set; None when not ergodic."""
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    a, b = case['a'], case['b']
    ra, rb = ([L[i] for i in a], [L[i] for i in b]) if case['byname'] else (list(a), list(b))
    mc = gen.build(case)
    cls = O.classes(p)
    if len(cls) > 1 or O.period_of(p, cls[0]) != 1:
        ctx.tag('not ergodic')
        for t in ('forward', 'backward'):
            is_none(mc.committor_probabilities(t, ra, rb), f'{t} committor of a chain which is not ergodic')
        return
    ctx.tag('ergodic')
    P = O.exact(p)
    pi = O.stationaries(P)[0]
    inner = [i for i in range(n) if i not in a and i not in b]
    ctx.interesting(bool(inner))
    if inner:
        A = [[(1 if i == j else 0) - P[i][j] for j in inner] for i in inner]
        T = float(max(sum(r) for r in O.solve(A, O.eye(len(inner)))))
    else:
        T = 1.0
    rev = [[pi[j] * P[j][i] / pi[i] for j in range(n)] for i in range(n)]
    if inner:
        A = [[(1 if i == j else 0) - rev[i][j] for j in inner] for i in inner]
        T = max(T, float(max(sum(r) for r in O.solve(A, O.eye(len(inner))))))
    if T > 1e12:
        raise Discard()
    tol = 1e-15 * n * T + 2e-15
    fwd, bwd = O.floats(committor(P, a, b)), O.floats(committor(rev, b, a))
    ctx.tag('slow' if T > 1e6 else 'fast', 'small component' if any(0 < x < 1e-5 for x in fwd + bwd) else '')
    for name in ('committor_probabilities', 'crp'):
        close(getattr(mc, name)('forward', ra, rb), fwd, f'{name}(forward, {ra}, {rb})', rtol=1e-9, atol=tol)
        close(getattr(mc, name)('backward', ra, rb), bwd, f'{name}(backward, {ra}, {rb})', rtol=1e-9, atol=tol)
        for t in ('forward', 'backward'):
            x = getattr(mc, name)(t, ra, rb)
            require(bool(((x >= 0) & (x <= 1)).all()), lambda: f'{name}({t}, {ra}, {rb}): values out of range in {x.tolist()}')
    expect_validation_error(lambda: mc.committor_probabilities('forward', ra, ra), 'committor_probabilities with intersecting sets')


@R.law(cases(2, 8, ['ergodic', 'ergodic', 'ergodic', 'dense', 'reversible', 'birthdeath', 'slow', 'irreducible', 'layout', 'periodic']), 3200, 40000)
def committors(case, ctx):
    """The forward committor is the probability of reaching the second set before the first; the backward committor, the probability of coming last from the first set; None when not ergodic."""
    check(case, ctx)


@R.law(cases(3, 7, ['slow', 'rare', 'rare', 'ergodic', 'reversible', 'birthdeath', 'irreducible'], ['tiny', 'tiny', 'skew']), 2400, 30000)
def committors_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50: small components, and stays of up to 10^12 steps outside of both sets."""
    check(case, ctx)


@R.law(cases(9, 14, ['ergodic', 'ergodic', 'dense', 'reversible', 'birthdeath', 'layout'], gen.PLAINLY), 80, 1200)
def committors_large(case, ctx):
    """Same for 9 to 14 states."""
    check(case, ctx)
