"""C18: sensitivity of the stationary distribution."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, close, is_none, Discard

R = Registry('C18', 'irreducible chains (periodic included) and reducible controls, every target state, generated mass-moving perturbations; oracle: exact fundamental matrix and exact finite differences of the stationary distribution; non-trivial: irreducible and not uniform')


@st.composite
def cases(draw, nmin, nmax, kinds, schemes=None):
    c = draw(gen.chain(nmin, nmax, kinds=kinds, schemes=schemes))
    n = len(c['p'])
    c['state'] = draw(st.integers(0, n - 1))
    c['row'] = draw(st.integers(0, n - 1))
    c['to'] = draw(st.integers(0, n - 1))
    return c


def check(case, ctx):
    gen.tag_chain(case, ctx)
    p, L, s = case['p'], gen.names(case), case['state']
    n = len(p)
    mc = gen.build(case)
    if len(O.classes(p)) > 1:
        ctx.tag('reducible')
        is_none(mc.sensitivity(s), 'sensitivity of a reducible chain')
        is_none(mc.sensitivity(L[s]), 'sensitivity of a reducible chain')
        return
    P = O.exact(p)
    pi = O.stationaries(P)[0]
    ctx.interesting(len(set(pi)) > 1)
    ctx.tag('irreducible')
    A = [[(1 if i == j else 0) - P[i][j] + pi[j] for j in range(n)] for i in range(n)]
    Z = O.solve(A, O.eye(n))
    exp = [[pi[i] * (Z[j][s] - pi[s]) for j in range(n)] for i in range(n)]
    scale = max(1.0, max(abs(float(x)) for r in Z for x in r))
    if scale > 1e11:
        raise Discard()
    ctx.tag('slow' if scale > 1e6 else 'fast')
    top = max(abs(float(x)) for r in exp for x in r)
    tol = 1e-9 + 1e-13 * scale
    for ref in (s, L[s]):
        close(mc.sensitivity(ref), O.floats(exp), f'sensitivity({ref!r})', rtol=tol, atol=tol * top + 1e-14)
    # exact finite difference
    i, b = case['row'], case['to']
    a = max(range(n), key=lambda j: P[i][j])
    if a != b:
        h = Fraction(1, 10**9 * (1 + int(scale)) ** 2)
        Q = [list(r) for r in P]
        Q[i][a] -= h
        Q[i][b] += h
        fd = (O.stationaries(Q)[0][s] - pi[s]) / h
        S = mc.sensitivity(s)
        close(S[i, b] - S[i, a], float(fd), f'directional derivative of pi[{s}] when mass moves in row {i} from {a} to {b}', rtol=1e-6 + tol, atol=(1e-8 + 3 * tol) * top + 1e-13)


@R.law(cases(2, 6, ['irreducible', 'irreducible', 'ergodic', 'periodic', 'dense', 'reversible', 'birthdeath', 'layout', 'symmetric']), 3200, 40000)
def sensitivity(case, ctx):
    """S moves with the derivative of the stationary probability: for any perturbation D of p with null row sums, d pi_state = sum D*S, with S normalised by S pi = 0; None when not irreducible."""
    check(case, ctx)


@R.law(cases(2, 6, ['slow', 'slow', 'rare', 'rare', 'ergodic', 'reversible', 'birthdeath', 'irreducible', 'periodic'], ['tiny']), 2400, 30000)
def sensitivity_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50: nearly decoupled chains and rare states."""
    check(case, ctx)


@R.law(cases(7, 14, ['irreducible', 'ergodic', 'periodic', 'dense', 'reversible', 'birthdeath', 'slow'], ['dyadic', 'coarse', 'decimal', 'norm']), 96, 1200)
def sensitivity_large(case, ctx):
    """Same for 7 to 14 states."""
    check(case, ctx)
