"""C05: classification of the states and communication structure."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, oracle as O
from vlib.core import Registry, same, require

R = Registry('C05', 'chains built by class layout / sparsity pattern / permutation with default or custom labels; non-trivial: at least two communicating classes or an irreducible chain with a zero entry')

chains = gen.chain(2, 9)
big = gen.chain(10, 40, kinds=['layout', 'sparse', 'dense', 'ergodic', 'periodic', 'absorbing', 'functional', 'birthdeath', 'closed', 'slow'])


def check_structure(case, ctx):
    gen.tag_chain(case, ctx)
    p, L = case['p'], gen.names(case)
    n = len(p)
    mc = gen.build(case)

    def lab(cs):
        return [[L[i] for i in c] for c in cs]

    cls, rec, tra, reach = O.classes(p), O.recurrent_classes(p), O.transient_classes(p), O.reachable(p)
    ctx.interesting(len(cls) > 1 or any(x == 0 for r in p for x in r))
    ctx.tag(f'classes={min(len(cls), 5)}', f'recurrent={min(len(rec), 4)}', f'transient={min(len(tra), 3)}')

    same(mc.adjacency_matrix.tolist(), [[int(x > 0) for x in r] for r in p], 'adjacency_matrix')
    acc = [[int(j in reach[i]) for j in range(n)] for i in range(n)]
    same(np.asarray(mc.accessibility_matrix).tolist(), acc, 'accessibility_matrix')
    com = [[int(acc[i][j] and acc[j][i]) for j in range(n)] for i in range(n)]
    same(np.asarray(mc.communication_matrix).tolist(), com, 'communication_matrix')
    same(mc.communicating_classes, lab(cls), 'communicating_classes')
    same(mc.recurrent_classes, lab(rec), 'recurrent_classes')
    same(mc.transient_classes, lab(tra), 'transient_classes')
    recs = sorted(i for c in rec for i in c)
    tras = sorted(i for c in tra for i in c)
    absb = [i for i in range(n) if all(p[i][j] == 0 for j in range(n) if j != i)]
    same(mc.recurrent_states, [L[i] for i in recs], 'recurrent_states')
    same(mc.transient_states, [L[i] for i in tras], 'transient_states')
    same(mc.absorbing_states, [L[i] for i in absb], 'absorbing_states')
    same(bool(mc.is_irreducible), len(cls) == 1, 'is_irreducible')
    same(bool(mc.is_absorbing), bool(absb) and all(reach[i] & set(absb) for i in range(n)), 'is_absorbing')
    canonical = not recs or not tras or max(tras) < min(recs)
    same(bool(mc.is_canonical), canonical, 'is_canonical')
    for i in range(n):
        for ref in (i, L[i]):
            same(bool(mc.is_absorbing_state(ref)), i in absb, f'is_absorbing_state({ref!r})')
            same(bool(mc.is_recurrent_state(ref)), i in recs, f'is_recurrent_state({ref!r})')
            same(bool(mc.is_transient_state(ref)), i in tras, f'is_transient_state({ref!r})')
    step = 1 if n <= 9 else 5
    for i in range(0, n, step):
        for j in range(0, n, step):
            same(bool(mc.is_accessible(j, i)), bool(acc[i][j]), f'is_accessible(target={j}, origin={i})')
            same(bool(mc.is_accessible(L[j], L[i])), bool(acc[i][j]), f'is_accessible(target={L[j]!r}, origin={L[i]!r})')
            same(bool(mc.are_communicating(i, L[j])), bool(com[i][j]), f'are_communicating({i}, {L[j]!r})')


@R.law(chains, 2400, 40000)
def structure(case, ctx):
    """Classes, recurrent/transient/absorbing states, accessibility and the per-state predicates equal those computed by graph search."""
    check_structure(case, ctx)


@R.law(big, 120, 2500)
def structure_large(case, ctx):
    """Same for 10 to 40 states."""
    check_structure(case, ctx)


@R.law(gen.chain(2, 9, kinds=gen.SMALL + ['layout', 'sparse', 'absorbing', 'closed'], schemes=['tiny']), 800, 10000)
def structure_magnitudes(case, ctx):
    """Same with transition probabilities down to 2^-50."""
    check_structure(case, ctx)


@R.law(gen.chain(2, 7, kinds=['slow', 'layout', 'ergodic'], schemes=['skew']).flatmap(lambda c: st.tuples(st.just(c), st.integers(0, 60), st.one_of(st.integers(1, 14), st.integers(15, 300)))), 600, 8000)
def tiny_probabilities(case, ctx):
    """A positive probability is an arc however small: moving a 10^-e share of a row to another state changes the classification accordingly."""
    c, k, e = case
    p = [list(r) for r in c['p']]
    n = len(p)
    i, j = k % n, (k // n) % n
    if p[i][j] == 0.0:
        s = max(range(n), key=lambda x: p[i][x])
        p[i][s] -= 10.0 ** -e / 2
        p[i][j] = 10.0 ** -e / 2
        ctx.interesting()
    check_structure(dict(c, p=p), ctx)
