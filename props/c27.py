"""C27: approximations of autoregressive processes."""
import math
from fractions import Fraction as F
from math import comb
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr
from vlib import gen
from vlib.core import Registry, same, close, require, expect_validation_error

R = Registry('C27', 'the four methods with 2 to 7 states (up to 30 for the closed forms and 301 for Tauchen), locations up to 1e100, scales from 1e-300 to 1e300, autocorrelations of both signs up to one (nearly unit roots included), default and explicit widths; oracle: binomial closed form, bivariate normal rectangles, cumulative normal on the grid, Gauss-Hermite quadrature in logarithms; non-trivial: a nonzero autocorrelation and at least three states')

ordinary = st.one_of(st.integers(-95, 95).map(lambda x: x / 100), st.sampled_from([0.0, 0.5, -0.5, 0.9, 0.99, -0.9, -0.99]), st.floats(-0.95, 0.95).map(lambda x: round(x, 7)))
# nearly unit roots, the largest at the clipping point of the Tauchen method
nearly = st.builds(lambda s, x: s * (1 - x), st.sampled_from([1, 1, -1]), st.sampled_from([1e-2, 1e-3, 1e-4, 1.1e-5, 9e-6, 1e-6, 1e-7, 1e-8]))
rhos = st.one_of(ordinary, ordinary, ordinary, nearly)
alphas = gen.mostly(st.one_of(st.just(0.0), st.integers(-50, 50).map(float), st.floats(-3, 3).map(lambda x: round(x, 6))), st.sampled_from([1e3, -1e6, 1e9, -1e12, 1e100]), 6)
sigmas = gen.mostly(st.one_of(st.sampled_from([1e-3, 0.01, 0.1, 0.5, 1.0, 2.0, 30.0, 1000.0]), st.integers(1, 400).map(lambda x: x / 100)), st.sampled_from([1e-300, 1e-160, 1e-20, 1e-10, 1e-6, 1e6, 1e20, 1e160, 1e300]), 6)


def base(n, rho=rhos):
    return st.fixed_dictionaries({'n': n, 'rho': rho, 'alpha': alphas, 'sigma': sigmas})


def check(case, ctx, kind, ref, k=None, atol=1e-9, rtol=1e-7):
    from pydtmc import MarkovChain
    n = case['n']
    what = f'approximation({n}, {kind}, {case["alpha"]}, {case["sigma"]}, {case["rho"]}, k={k})'
    L = [f's{i}' for i in range(n)] if n % 2 else None
    mc = MarkovChain.approximation(n, kind, case['alpha'], case['sigma'], case['rho'], k=k, states=L) if k is not None or L else MarkovChain.approximation(n, kind, case['alpha'], case['sigma'], case['rho'])
    p = mc.p
    same(mc.states, L or [str(i + 1) for i in range(n)], f'{what}: names')
    require(p.shape == (n, n) and np.all(np.isfinite(p)) and np.all(p >= 0) and np.allclose(p.sum(axis=1), 1.0, rtol=0, atol=1e-9), f'{what}: not stochastic: {p.tolist()}')
    close(p, ref, what, rtol=rtol, atol=atol)
    close(p, p[::-1, ::-1], f'{what}: symmetry of the process', rtol=max(rtol, 1e-6), atol=max(atol, 1e-8))
    ctx.interesting(n > 2 and case['rho'] != 0)
    ctx.tag(f'n={n}', 'rho<0' if case['rho'] < 0 else 'rho>=0')
    return p


@R.law(base(st.one_of(st.integers(2, 12), st.integers(13, 30)), st.one_of(rhos, st.sampled_from([1.0, -1.0]))), 480, 5000)
def rouwenhorst(case, ctx):
    """Sum of n - 1 independent two-state components, each staying with probability (1 + rho) / 2."""
    n, z = case['n'], (1 + F(case['rho'])) / 2
    N = n - 1
    pz = [z ** k for k in range(N + 1)]
    pc = [(1 - z) ** k for k in range(N + 1)]
    ref = [[sum(comb(i, a) * pz[a] * pc[i - a] * comb(N - i, j - a) * pc[j - a] * pz[N - i - j + a] for a in range(max(0, j - N + i), min(i, j) + 1)) for j in range(n)] for i in range(n)]
    p = check(case, ctx, 'rouwenhorst', [[float(x) for x in r] for r in ref], atol=1e-11)
    # the conditional mean of the state is linear with slope rho
    x = np.linspace(-1, 1, n)
    close(p @ x, case['rho'] * x, 'persistence of the Rouwenhorst approximation', atol=1e-9)


@R.law(st.tuples(base(st.integers(2, 15), st.one_of(rhos, st.sampled_from([1.0, -1.0]))), st.one_of(st.none(), st.integers(10, 60).map(lambda x: x / 10))).map(lambda t: dict(t[0], k=t[1])), 800, 8000)
def tauchen(case, ctx):
    """Equispaced grid of k unconditional deviations (3 by default), cumulative probabilities of the midpoints."""
    n, rho, k = case['n'], case['rho'], case['k']
    r = math.copysign(1 - 1e-8, rho) if abs(rho) == 1 else rho
    y = 1.0 / math.sqrt((1 - r) * (1 + r))
    w = (3.0 if k is None else k) * y
    x = -w + 2 * w * np.arange(n) / (n - 1)
    h = w / (n - 1)
    m = (x[None, :-1] + h) - r * x[:, None]
    # the smaller of the two tails
    e, c, o = ndtr(m), ndtr(-m), np.ones((n, 1))
    lower = np.hstack([e, o]) - np.hstack([0 * o, e])
    upper = np.hstack([o, c]) - np.hstack([c, 0 * o])
    ref = np.where(np.hstack([m, np.full((n, 1), np.inf)]) < 0, lower, upper)
    check(case, ctx, 'tauchen', ref, k, atol=1e-9)


@R.law(st.builds(lambda n, rho, k, alpha: {'n': n, 'rho': rho, 'alpha': alpha, 'sigma': 2.0, 'k': k}, st.sampled_from([150, 301]), st.sampled_from([0.98, 0.999, 1 - 1.1e-5, 1 - 9e-6, 1 - 3e-6, 9e-6 - 1]), st.sampled_from([None, 1.0, 2.5]), st.sampled_from([0.0, 5.0])), 20, 70)
def tauchen_fine(case, ctx):
    """Grids fine enough to tell nearly unit roots apart."""
    tauchen(case, ctx)


@R.law(base(st.integers(2, 7)), 240, 2400)
def adda_cooper(case, ctx):
    """Equiprobable intervals of the unconditional distribution, probabilities of bivariate normal rectangles."""
    from scipy.stats import multivariate_normal, norm
    n, rho = case['n'], case['rho']
    q = norm.ppf(np.arange(n + 1) / n)
    C = np.zeros((n + 1, n + 1))
    for i in range(1, n + 1):
        for j in range(1, n + 1):
            if i == n:
                C[i, j] = j / n
            elif j == n:
                C[i, j] = i / n
            else:
                C[i, j] = multivariate_normal.cdf([q[i], q[j]], cov=[[1.0, rho], [rho, 1.0]])
    ref = n * (C[1:, 1:] - C[:-1, 1:] - C[1:, :-1] + C[:-1, :-1])
    check(case, ctx, 'adda-cooper', ref, atol=2e-6, rtol=1e-5)


@R.law(st.tuples(base(st.one_of(st.integers(2, 12), st.integers(2, 30)), st.one_of(rhos, st.sampled_from([1.0, -1.0]))), st.one_of(st.none(), st.none(), st.integers(1, 60).map(lambda x: x / 10), st.integers(60, 900).map(lambda x: x / 10))).map(lambda t: dict(t[0], k=t[1])), 800, 8000)
def tauchen_hussey(case, ctx):
    """Gauss-Hermite nodes, weights times the ratio of the conditional density to the weighting one."""
    n, rho, alpha, sigma = case['n'], case['rho'], case['alpha'], case['sigma']
    k = None if case['k'] is None else case['k'] * sigma
    if k is None:
        if abs(rho) == 1:
            from pydtmc import MarkovChain
            expect_validation_error(lambda: MarkovChain.approximation(n, 'tauchen-hussey', alpha, sigma, rho), 'unit autocorrelation and no width')
            expect_validation_error(lambda: MarkovChain.approximation(n, 'adda-cooper', alpha, sigma, rho), 'unit autocorrelation')
            return
        w = 0.5 + rho / 4
        s = w * sigma + (1 - w) * sigma / math.sqrt(1 - rho * rho)
    else:
        s = k
    z, gw = np.polynomial.hermite.hermgauss(n)
    # known finding: the library places the nodes at 2 k z rather than at sqrt(2) k z; the stored results of its tests pin it
    d = (math.sqrt(2.0) if case.get('__known__') else 2.0) * s * z
    ref = np.zeros((n, n))
    for i in range(n):
        e = np.log(gw) - 0.5 * ((d - rho * d[i]) / sigma) ** 2 + 0.5 * (d / s) ** 2
        e = np.exp(e - e.max())
        ref[i] = e / e.sum()
    check(case, ctx, 'tauchen-hussey', ref, k, atol=1e-7, rtol=1e-5)


@R.law(base(st.integers(2, 6)), 48, 400)
def rejected(case, ctx):
    """Parameters out of range."""
    from pydtmc import MarkovChain
    f = MarkovChain.approximation
    n, a, s, r = case['n'], case['alpha'], case['sigma'], case['rho']
    ctx.interesting(True)
    for t in ('adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'):
        for x in ((1, t, a, s, r), (0, t, a, s, r), (n, t, a, 0.0, r), (n, t, a, -s, r), (n, t, a, s, 1.01), (n, t, a, s, -1.01), (n, t, float('nan'), s, r), (n, t, a, float('inf'), r), (n, t, a, s, float('nan')), (n + 0.5, t, a, s, r), (n, t, a, s, r, ['x'] * n), (n, t.upper() + 'x', a, s, r)):
            expect_validation_error(lambda x=x: f(*x), f'approximation{x}')
    expect_validation_error(lambda: f(n, 'tauchen', a, s, r, k=0.9), 'width below one deviation')
    expect_validation_error(lambda: f(n, 'tauchen-hussey', a, s, r, k=0.0), 'null width')
    f(n, 'tauchen', a, s, r, k=1.0)
