"""C10: absorbing chains: fundamental matrix, absorption probabilities and times, Kemeny constant."""
from fractions import Fraction
import numpy as np
from vlib import gen, oracle as O
from vlib.core import Registry, same, close, require, is_none, Discard

R = Registry('C10', 'absorbing chains by construction (one to several absorbing states, acyclic and cyclic transient parts) and non-absorbing controls; oracle: exact rational inverse and hitting probabilities; non-trivial: at least two transient states and at least one absorbing state')


def check(case, ctx):
    gen.tag_chain(case, ctx)
    p = case['p']
    n = len(p)
    reach = O.reachable(p)
    absb = [i for i in range(n) if all(p[i][j] == 0 for j in range(n) if j != i)]
    tra = sorted(i for c in O.transient_classes(p) for i in c)
    absorbing = bool(absb) and all(reach[i] & set(absb) for i in range(n))
    mc = gen.build(case)
    if not absorbing or not tra:
        ctx.tag('not absorbing' if not absorbing else 'no transient')
        for name, v in (('fundamental_matrix', mc.fundamental_matrix), ('kemeny_constant', mc.kemeny_constant), ('absorption_probabilities', mc.absorption_probabilities()), ('mean_absorption_times', mc.mean_absorption_times()), ('mat', mc.mat())):
            is_none(v, f'{name} of a chain which is not absorbing or has no transient states')
        return
    P = O.exact(p)
    N = O.fundamental(P, tra)
    times = [sum(r) for r in N]
    T = float(max(times))
    if T > 1e12:
        raise Discard()
    ctx.tag(f'absorbing={min(len(absb), 4)}', f'transient={min(len(tra), 6)}', 'fast' if T < 100 else 'slow')
    ctx.interesting(len(tra) > 1)
    tol = 1e-9 + 1e-13 * n * T
    close(mc.fundamental_matrix, O.floats(N), 'fundamental_matrix', rtol=tol, atol=tol * T)
    close(mc.kemeny_constant, float(sum(N[i][i] for i in range(len(tra)))), 'kemeny_constant', rtol=tol, atol=tol * T)
    close(mc.mean_absorption_times(), O.floats(times), 'mean_absorption_times', rtol=tol, atol=tol * T)
    close(mc.mat(), O.floats(times), 'mat', rtol=tol, atol=tol * T)
    exp = []
    for a in absb:
        h = O.hitting_probabilities(P, [a])
        exp.append([float(h[i]) for i in tra])
    close(mc.absorption_probabilities(), exp, 'absorption_probabilities (absorbing x transient)', rtol=tol, atol=tol)


@R.law(gen.chain(2, 8, kinds=['absorbing', 'absorbing', 'competing', 'competing', 'layout', 'sparse', 'functional', 'birthdeath', 'identity', 'ergodic']), 4000, 40000)
def absorption(case, ctx):
    """All four quantities equal the exact ones, in the order of the transient and absorbing states; None when undefined."""
    check(case, ctx)


@R.law(gen.chain(2, 8, kinds=['absorbing', 'absorbing', 'competing', 'competing', 'leaky', 'birthdeath'], schemes=['tiny']), 3200, 30000)
def absorption_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50: absorption times up to 10^12."""
    check(case, ctx)


@R.law(gen.chain(9, 20, kinds=['absorbing', 'competing', 'layout'], schemes=['dyadic', 'coarse', 'norm', 'decimal']), 120, 2500)
def absorption_large(case, ctx):
    """Same for 9 to 20 states."""
    check(case, ctx)
