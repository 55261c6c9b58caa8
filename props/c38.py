"""C38: plots show the data of the model."""
import contextlib
import json
import os
import shutil
import stat
import subprocess
import tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa
import numpy as np  # noqa
from fractions import Fraction  # noqa
from hypothesis import strategies as st  # noqa
from matplotlib.patches import FancyArrowPatch, Polygon  # noqa
from scipy.optimize import linear_sum_assignment  # noqa
from vlib import bad, gen, oracle as O  # noqa
from vlib.core import Registry, require, close, expect_validation_error, Discard  # noqa

R = Registry('C38', 'plots of chains and hidden models (2 to 6 states) with every option, read back from the artists of the figure (images, lines, polygons, texts, arrows) or, for the extended graphs, from the graph given to Graphviz and the image it gives; every invalid value of every argument; oracle: the data of the model (exact distributions, eigenvalues, classes, seeded walks, decodings), copies of the model and of the settings of matplotlib; non-trivial: the plot holds more than one value')

DOT = shutil.which('dot')
DPI = [75, 100, 150]
COLORS = 9
SAFE = ['dyadic', 'coarse', 'decimal', 'norm', 'uniform']


# ------------------------------------------------------------------ generation and side effects

def shown(L, extended=False):
    """Names which matplotlib and Graphviz display literally: no mathematics, no hidden labels, no character references."""
    out = []
    for i, x in enumerate(L):
        x = x.replace('$', 'S')
        if x.startswith('_'):
            x = 'u' + x
        if extended:
            x = x.replace('&', '+')
        out.append(x)
    return out if len(set(out)) == len(out) else [f'{x}.{i}' for i, x in enumerate(out)]


SPECIAL = ['a\\b', '\\N', '%s', 'a:1', 'a:2', 'node', 'edge', 'graph', 'x"y', '<b>c</b>', '"q"', 'a b', 'digraph', '->', '{a|b}', '0:30', 'strict', "it's", 'A;B', '[x]', '#1', '//c']


@st.composite
def models(draw, kind=None, nmax=5, schemes=SAFE):
    kind = kind or draw(st.sampled_from(['mc', 'mc', 'hmm']))
    c = draw(gen.chain(2, nmax, none=False, schemes=schemes) if kind == 'mc' else gen.hmm(2, min(nmax, 4), 2, 4, none=False))
    if draw(st.integers(0, 3)) == 0:
        special = draw(st.permutations(SPECIAL))
        c['states'] = special[:len(c['p'])]
        if kind == 'hmm':
            c['symbols'] = special[len(c['p']):len(c['p']) + len(c['e'][0])]
    c['dpi'] = draw(st.sampled_from(DPI))
    c['interactive'] = draw(st.integers(0, 7)) == 0
    return c


def build(c, extended=False):
    from pydtmc import MarkovChain, HiddenMarkovModel
    S = shown(c['states'], extended)
    if 'e' not in c:
        return MarkovChain(np.array(c['p']), S)
    Y = shown(c['symbols'], extended)
    if set(S) & set(Y):
        S, Y = ['x' + x for x in S], ['y' + x for x in Y]
    return HiddenMarkovModel(np.array(c['p']), np.array(c['e']), S, Y)


def snapshot(m):
    out = [m.p.tolist(), list(m.states)]
    if hasattr(m, 'e'):
        out += [m.e.tolist(), list(m.symbols)]
    return out


def draw_plot(f, models_, args, case, rng=True):
    """Calls the plotting function; returns the figure and the axes: nothing else may change."""
    models_ = models_ if isinstance(models_, list) else [models_]
    before = [snapshot(m) for m in models_]
    interactive = bool(case.get('interactive'))
    plt.close('all')
    plt.interactive(interactive)
    try:
        params = dict(matplotlib.rcParams)
        np.random.seed(7)
        state = np.random.get_state()
        r = f(**args)
        same_state = all(np.array_equal(a, b) for a, b in zip(state, np.random.get_state()))
        require(plt.isinteractive() is interactive, lambda: f'{f.__name__} changed the interactive mode of matplotlib')
        require(dict(matplotlib.rcParams) == params, lambda: f'{f.__name__} changed the settings of matplotlib')
        require([snapshot(m) for m in models_] == before, lambda: f'{f.__name__} modified the model')
        if rng:
            require(same_state, lambda: f'{f.__name__} used the global random generator')
        require(len(plt.get_fignums()) == 1, lambda: f'{f.__name__} left {len(plt.get_fignums())} figures')
        figure = plt.gcf()
        if interactive:
            require(r is None, lambda: f'{f.__name__} must return nothing in interactive mode')
            ax = figure.axes
        else:
            require(isinstance(r, tuple) and len(r) == 2 and r[0] is figure, lambda: f'{f.__name__} must return the figure and its axes')
            ax = r[1]
        require(figure.get_dpi() == args.get('dpi', 100), lambda: f'{f.__name__}: the resolution is {figure.get_dpi()}')
        return figure, list(ax) if isinstance(ax, (list, np.ndarray)) else [ax]
    finally:
        plt.interactive(False)


@contextlib.contextmanager
def figures():
    plt.close('all')
    try:
        yield
    finally:
        plt.close('all')


def picture(ax):
    require(len(ax.images) == 1, lambda: f'{len(ax.images)} images instead of 1')
    im = ax.images[0]
    require(im.get_clim() == (0.0, 1.0), lambda: f'the scale of the colors is {im.get_clim()}')
    return np.asarray(im.get_array(), dtype=float)


def ticks(ax, which):
    """The labels of the ticks and where they are."""
    axis = ax.xaxis if which == 'x' else ax.yaxis
    return list(axis.get_ticklocs()), [t.get_text() for t in axis.get_ticklabels()]


def label_ticks(ax, which, L, what):
    where, names = ticks(ax, which)
    require(names == list(L), lambda: f'{what}: the labels of the axis {which} are {names} instead of {list(L)}')
    close(where, list(range(len(L))), f'{what}: places of the labels of the axis {which}')


def step_ticks(ax, length, what):
    where, names = ticks(ax, 'x')
    require(all(float(n) == w for n, w in zip(names, where)) and 0.0 in where, lambda: f'{what}: the steps {names} are at {where}')
    lo, hi = ax.get_xlim()
    require(lo < 0 and hi > length - 1, lambda: f'{what}: the steps 0 to {length - 1} are not within the limits {lo} and {hi}')


# ------------------------------------------------------------------ comparison

@st.composite
def comparisons(draw):
    size = draw(st.integers(2, 5))
    kind = draw(st.sampled_from(['mc', 'hmm', 'hmm', 'mixed']))
    c = {'models': [draw(models(None if kind == 'mixed' else kind, 4)) for _ in range(size)], 'matrices': draw(st.sampled_from(['emission', 'transition', None] if kind == 'hmm' else ['transition', None])), 'dpi': draw(st.sampled_from(DPI + [None]))}
    c['names'] = draw(st.one_of(st.none(), st.permutations([f'model {i}' for i in range(size)])))
    c['interactive'] = draw(st.integers(0, 7)) == 0
    return c


@R.law(comparisons(), 240, 3000)
def comparison(case, ctx):
    """One image per model, in order, with its transition or emission matrix on a scale from 0 to 1, and its name or the default one."""
    from pydtmc import plot_comparison
    ms = [build(c) for c in case['models']]
    args = {'models': ms, 'underlying_matrices': case['matrices'], 'names': case['names'], 'dpi': case['dpi']}
    with figures():
        figure, ax = draw_plot(plot_comparison, ms, {k: v for k, v in args.items() if v is not None}, case)
        require(len(ax) >= len(ms), lambda: f'{len(ax)} axes for {len(ms)} models')
        norms = set()
        for i, (a, m) in enumerate(zip(ax, ms)):
            M = m.e if case['matrices'] == 'emission' else m.p
            got = picture(a)
            require(got.shape == M.shape and np.array_equal(got, M), lambda: f'plot_comparison: the image of the model {i} is {got.tolist()} instead of {M.tolist()}')
            norms.add(tuple(a.images[0].to_rgba(np.linspace(0, 1, 5)).ravel().tolist()))
            if case['names'] is not None:
                require(a.get_title() == case['names'][i], lambda: f'plot_comparison: title {a.get_title()!r} instead of {case["names"][i]!r}')
            else:
                kind = 'MC' if all('e' not in c for c in case['models']) else 'HMM' if all('e' in c for c in case['models']) else 'MODEL'
                title = a.get_title()
                require(kind in title.replace('{', ' ').replace('_', ' ').split() and str(i + 1) in title, lambda: f'plot_comparison: default title {title!r} of the model {i} ({kind})')
        require(len(norms) == 1, 'plot_comparison: the models have different colors')
        if not case['interactive']:
            require(not any(a.images for a in ax[len(ms):]), 'plot_comparison: image without model')
        ctx.interesting()
        ctx.tag(case['matrices'] or 'default', f'{len(ms)} models')


# ------------------------------------------------------------------ eigenvalues

@R.law(models(nmax=6), 480, 6000)
def eigenvalues(case, ctx):
    """The points are the eigenvalues of the transition matrix; the dashed circle is there for ergodic models only and has the second largest modulus."""
    from pydtmc import plot_eigenvalues
    m = build(case)
    p = case['p']
    ev = np.linalg.eigvals(np.array(p))
    with figures():
        figure, (ax,) = draw_plot(plot_eigenvalues, m, {'model': m, 'dpi': case['dpi']}, case)
        points = [line for line in ax.lines if line.get_linestyle() == 'None']
        circles = [line for line in ax.lines if line.get_linestyle() != 'None']
        require(len(points) == 1, lambda: f'plot_eigenvalues: {len(points)} series of points')
        z = np.array(points[0].get_xdata()) + 1j * np.array(points[0].get_ydata())
        for x in ev:
            require(np.min(np.abs(z - x)) < 1e-3, lambda: f'plot_eigenvalues: the eigenvalue {x} of {p} is missing from {z}')
        for x in z:
            require(np.min(np.abs(ev - x)) < 1e-3, lambda: f'plot_eigenvalues: {x} is not an eigenvalue of {p} ({ev})')
        radii = []
        for line in circles:
            r = np.hypot(line.get_xdata(), line.get_ydata())
            require(np.ptp(r) < 1e-9, 'plot_eigenvalues: a line is not a circle around the origin')
            require(np.ptp(line.get_xdata()) > 1.9 * r[0] and np.ptp(line.get_ydata()) > 1.9 * r[0], 'plot_eigenvalues: the circle is not complete')
            radii.append(float(np.mean(r)))
        require(sum(abs(r - 1) < 1e-9 for r in radii) >= 1, 'plot_eigenvalues: no unit circle')
        lo, hi = ax.get_xlim()
        blo, bhi = ax.get_ylim()
        require(lo < -1 and hi > 1 and blo < -1 and bhi > 1, 'plot_eigenvalues: the unit circle is not within the limits')
        ergodic = len(O.classes(p)) == 1 and O.period_of(p, range(len(p))) == 1
        moduli = np.sort(np.abs(ev))[:-1]
        names = [t.get_text() for t in ax.get_legend().get_texts()]
        if ergodic and 1e-2 < moduli[-1] < 1 - 1e-3:
            require(len(radii) == 2, lambda: f'plot_eigenvalues: circles {radii} for an ergodic model ({p})')
            require(min(abs(r - moduli[-1]) for r in radii) < 1e-6, lambda: f'plot_eigenvalues: circles {radii}, second largest modulus {moduli[-1]} ({p})')
            require(sorted(names) == ['Eigenvalues', 'Spectral Gap'], lambda: f'plot_eigenvalues: legend {names}')
            ctx.tag('gap')
        elif not ergodic:
            require(len(radii) == 1 and names == ['Eigenvalues'], lambda: f'plot_eigenvalues: circles {radii} and legend {names} for a model which is not ergodic ({p})')
            ctx.tag('not ergodic')
        ctx.interesting(len(z) > 1)


# ------------------------------------------------------------------ flow

@st.composite
def statuses(draw, n):
    kind = draw(st.sampled_from(['none', 'index', 'name', 'vector', 'vector']))
    return {'kind': kind, 'v': None if kind == 'none' else draw(gen.distribution(n)) if kind == 'vector' else draw(st.integers(0, n - 1))}


def status(s, m):
    n = len(m.states)
    if s['kind'] == 'none':
        return None, [1.0 / n] * n
    if s['kind'] == 'vector':
        v = list(s['v'])
        return v, v
    v = [0.0] * n
    v[s['v']] = 1.0
    return (m.states[s['v']] if s['kind'] == 'name' else s['v']), v


def evolution(p, v, steps):
    P, out = O.exact(p), [[Fraction(x) for x in v]]
    for _ in range(steps):
        out.append(O.vecmat(out[-1], P))
    return np.array([[float(x) for x in d] for d in out])


PALETTES = ['viridis', 'viridis', 'jet', 'plasma', 'hot', 'Blues', 'tab10', 'coolwarm', 'Set1', 'gray']


@st.composite
def flows(draw):
    c = draw(models(nmax=4))
    c['status'] = draw(statuses(len(c['p'])))
    c['steps'], c['interval'] = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    c['palette'] = draw(st.sampled_from(PALETTES))
    return c


def span(polygon, side):
    """The vertical extent of a polygon at its left or right end."""
    xy = np.asarray(polygon.get_xy())
    x = xy[:, 0].min() if side == 'left' else xy[:, 0].max()
    ys = xy[np.abs(xy[:, 0] - x) < 1e-9][:, 1]
    return float(ys.min()), float(ys.max())


@R.law(flows(), 320, 4000)
def flow(case, ctx):
    """At every step, one bar per state with its probability, labelled with it; from every bar, flows to the next ones with the probabilities of the transitions; all within the limits."""
    from pydtmc import plot_flow
    m = build(case)
    p, n, steps, interval = case['p'], len(case['p']), case['steps'], case['interval']
    arg, v = status(case['status'], m)
    d = evolution(p, v, steps * interval)[::interval]
    P = np.array([[float(x) for x in r] for r in O.mpow(O.exact(p), interval)])
    what = f'plot_flow({p}, {steps}, {interval}, {arg!r}, {case["palette"]})'
    with figures():
        args = {'model': m, 'steps': steps, 'interval': interval, 'initial_status': arg, 'palette': case['palette'], 'dpi': case['dpi']}
        figure, (ax,) = draw_plot(plot_flow, m, {k: x for k, x in args.items() if x is not None}, case)
        polygons = [x for x in ax.patches if isinstance(x, Polygon)]
        bars = [x for x in polygons if len(x.get_xy()) <= 5]
        streams = [x for x in polygons if len(x.get_xy()) > 5]
        require(len(bars) == n * (steps + 1) and len(streams) == n * n * steps, lambda: f'{what}: {len(bars)} bars and {len(streams)} flows')
        legend = ax.get_legend()
        names, handles = [t.get_text() for t in legend.get_texts()], legend.get_patches()
        require(names == list(m.states), lambda: f'{what}: legend {names} instead of {m.states}')
        colors = [h.get_facecolor()[:3] for h in handles]
        if case['palette'] == 'viridis':
            require(len(set(colors)) == n, lambda: f'{what}: two states have the same color')
        table = {}
        for b in bars:
            xs = np.asarray(b.get_xy())[:, 0]
            j = int(round((xs.min() + xs.max()) / 2))
            close((xs.min() + xs.max()) / 2, j, f'{what}: middle of a bar')
            table.setdefault(j, []).append(b)
        require(sorted(table) == list(range(steps + 1)) and all(len(x) == n for x in table.values()), lambda: f'{what}: bars at {sorted(table)}')
        lo, hi = ax.get_xlim()
        require(lo < 0 and hi > steps, lambda: f'{what}: the limits {lo} and {hi} cut some of the {steps + 1} distributions')
        require(sorted(ax.get_ylim()) == [0.0, 1.0], lambda: f'{what}: limits {ax.get_ylim()}')
        gap = 0.1 / (n - 1.0)
        place = np.zeros((steps + 1, n))
        for j in range(steps + 1):
            for i in range(n):
                place[j, i] = 0.9 * d[j, :i].sum() + gap * i
            for i, b in enumerate(sorted(table[j], key=lambda x: table[j].index(x))):
                y0, y1 = span(b, 'left')
                close([y0, y1], [place[j, i], place[j, i] + 0.9 * d[j, i]], f'{what}: bar of the state {m.states[i]} at the step {j}', rtol=0, atol=1e-9)
                require(np.allclose(b.get_facecolor()[:3], colors[i]), lambda: f'{what}: color of the bar of the state {m.states[i]} at the step {j}')
        expected = []
        for j in range(steps):
            for i in range(n):
                for z in range(n):
                    h = 0.9 * d[j, i] * P[i, z]
                    y0 = place[j, i] + 0.9 * d[j, i] * P[i, :z].sum()
                    y1 = place[j + 1, z] + 0.9 * float((d[j, :i] * P[:i, z]).sum())
                    expected.append((j, i, y0, y0 + h, y1, y1 + h))
        got = []
        for s in streams:
            xs = np.asarray(s.get_xy())[:, 0]
            j = int(np.floor((xs.min() + xs.max()) / 2))
            got.append((j, s.get_facecolor()[:3]) + span(s, 'left') + span(s, 'right'))
        left = list(got)
        for j, i, *ys in expected:
            k = next((k for k, x in enumerate(left) if x[0] == j and np.allclose(x[2:], ys, rtol=0, atol=1e-9) and np.allclose(x[1], colors[i])), None)
            require(k is not None, lambda: f'{what}: no flow from {m.states[i]} at the step {j} with the ends {ys}')
            left.pop(k)
        texts = {(round(float(t.get_position()[0]), 6), round(float(t.get_position()[1]), 6)): t.get_text() for t in ax.texts}
        for j in range(steps + 1):
            for i in range(n):
                t = next((texts[k] for k in texts if k[0] == j and abs(k[1] - (place[j, i] + 0.45 * d[j, i])) < 1e-5), None)
                if d[j, i] > 0.0501:
                    require(t is not None and abs(float(t) - d[j, i]) < 5.1e-4, lambda: f'{what}: the text of the state {m.states[i]} at the step {j} is {t} ({d[j, i]})')
        require(all(any(abs(float(t) - x) < 5.1e-4 for x in d[int(k[0])]) for k, t in texts.items()), lambda: f'{what}: texts {texts}')
        ctx.interesting(bool((d > 0).sum() > steps + 1))
        ctx.tag(case['status']['kind'], case['palette'], f'interval {interval}')


# ------------------------------------------------------------------ redistributions

@st.composite
def redistributions_cases(draw):
    c = draw(models(nmax=6))
    c['status'] = draw(statuses(len(c['p'])))
    c['n'] = draw(st.one_of(st.integers(1, 12), st.integers(9, 40)))
    c['type'] = draw(st.sampled_from(['heatmap', 'projection', None]))
    return c


@R.law(redistributions_cases(), 480, 6000)
def redistributions(case, ctx):
    """The heatmap holds the distributions by step, the projection has one line per state with its name."""
    from pydtmc import plot_redistributions
    m = build(case)
    p, n, N = case['p'], len(case['p']), case['n']
    arg, v = status(case['status'], m)
    d = evolution(p, v, N)
    what = f'plot_redistributions({p}, {N}, {arg!r}, {case["type"]})'
    with figures():
        args = {'model': m, 'redistributions': N, 'initial_status': arg, 'plot_type': case['type'], 'dpi': case['dpi']}
        figure, axes = draw_plot(plot_redistributions, m, {k: x for k, x in args.items() if x is not None}, case)
        ax = axes[0]
        step_ticks(ax, N + 1, what)
        if case['type'] == 'heatmap':
            close(picture(ax), d.T, what, rtol=0, atol=1e-9)
            label_ticks(ax, 'y', m.states, what)
        else:
            lines = [x for x in ax.lines if x.get_label() in m.states and len(x.get_xdata()) == N + 1]
            require([x.get_label() for x in lines] == list(m.states), lambda: f'{what}: lines of {[x.get_label() for x in ax.lines]}')
            for i, line in enumerate(lines):
                close(line.get_xdata(), np.arange(N + 1.0), f'{what}: steps of the state {m.states[i]}')
                close(line.get_ydata(), d[:, i], f'{what}: line of the state {m.states[i]}', rtol=0, atol=1e-9)
            names = [t.get_text() for t in ax.get_legend().get_texts()]
            require(names[:n] == list(m.states), lambda: f'{what}: legend {names}')
            colors = {x.get_color() for x in lines}
            require(len(colors) == min(n, COLORS), lambda: f'{what}: {len(colors)} colors for {n} states')
            rest = [x for x in ax.lines if x not in lines]
            uniform = np.allclose(v, 1.0 / n, rtol=0, atol=1e-6)
            if uniform:
                require(len(rest) == 1 and list(rest[0].get_xdata()) == [0.0] and abs(rest[0].get_ydata()[0] - 1.0 / n) < 1e-6, lambda: f'{what}: the mark of the start')
            elif np.max(np.abs(np.array(v) - 1.0 / n)) > 1e-3:
                require(not rest, lambda: f'{what}: a mark of the start without uniform start')
            lo, hi = ax.get_ylim()
            require(lo <= 0 and hi >= 1, lambda: f'{what}: limits {lo} and {hi}')
        ctx.interesting(bool((d[-1] > 0).sum() > 1))
        ctx.tag(case['type'] or 'default', case['status']['kind'], 'long' if N > 10 else 'short')


# ------------------------------------------------------------------ sequence

@st.composite
def sequences(draw):
    c = draw(models())
    c['steps'] = draw(st.one_of(st.integers(2, 12), st.integers(10, 60)))
    c['initial'] = draw(st.one_of(st.none(), st.integers(0, len(c['p']) - 1)))
    c['byname'], c['seed'] = draw(st.booleans()), draw(st.one_of(st.none(), st.integers(0, 2 ** 32 - 1)))
    c['type'] = draw(st.sampled_from(['heatmap', 'histogram', 'matrix', None]))
    return c


def walk(m, case):
    initial = case['initial'] if case['initial'] is None or not case['byname'] else m.states[case['initial']]
    if case['seed'] is None:
        np.random.seed(7)
    w = m.simulate(case['steps'], initial_state=initial, output_indices=True, seed=case['seed'])
    return initial, w


@R.law(sequences(), 480, 6000)
def sequence(case, ctx):
    """The plots hold the transitions, frequencies or positions of the seeded walk of the model, and of its symbols; with a seed, the global generator is not used."""
    from pydtmc import plot_sequence
    m = build(case)
    hidden = 'e' in case
    initial, w = walk(m, case)
    walks = [(m.states, w[0]), (m.symbols, w[1])] if hidden else [(m.states, w)]
    N = case['steps'] + 1
    what = f'plot_sequence({case["p"]}, {case["steps"]}, {initial!r}, {case["type"]}, {case["seed"]})'
    with figures():
        args = {'model': m, 'steps': case['steps'], 'initial_state': initial, 'plot_type': case['type'], 'seed': case['seed'], 'dpi': case['dpi']}
        figure, axes = draw_plot(plot_sequence, m, {k: x for k, x in args.items() if x is not None}, case, rng=case['seed'] is not None)
        require(len(axes) >= len(walks), lambda: f'{what}: {len(axes)} axes')
        for ax, (L, s), name in zip(axes, walks, ['States', 'Symbols']):
            require(len(s) == N, f'{what}: the walk has {len(s)} elements')
            if case['type'] == 'heatmap':
                M = np.zeros((len(L), len(L)))
                for a, b in zip(s, s[1:]):
                    M[a, b] += 1.0 / (N - 1)
                close(picture(ax), M, f'{what}: {name}', rtol=0, atol=1e-9)
                label_ticks(ax, 'x', L, what)
                label_ticks(ax, 'y', L, what)
                require(ax.get_xlabel() == name and ax.get_ylabel() == name, lambda: f'{what}: {ax.get_xlabel()}, {ax.get_ylabel()}')
            elif case['type'] == 'matrix':
                M = np.zeros((len(L), N))
                for t, x in enumerate(s):
                    M[x, t] = 1.0
                close(picture(ax), M, f'{what}: {name}', rtol=0, atol=0)
                label_ticks(ax, 'y', L, what)
                step_ticks(ax, N, what)
                require(ax.get_ylabel() == name, lambda: f'{what}: {ax.get_ylabel()}')
            else:
                h = [list(s).count(i) / N for i in range(len(L))]
                rects = sorted(ax.patches, key=lambda r: r.get_x())
                close([r.get_height() for r in rects], h, f'{what}: {name}', rtol=0, atol=1e-9)
                close([r.get_x() + r.get_width() / 2 for r in rects], list(range(len(L))), f'{what}: places of the bars')
                require(all(r.get_y() == 0 for r in rects), f'{what}: bars above the axis')
                label_ticks(ax, 'x', L, what)
                require(ax.get_xlabel() == name, lambda: f'{what}: {ax.get_xlabel()}')
                require(ax.get_ylim() == (0.0, 1.0), lambda: f'{what}: limits {ax.get_ylim()}')
        ctx.interesting(len(set(walks[0][1])) > 1)
        ctx.tag(case['type'] or 'default', 'hidden' if hidden else 'chain', 'seed' if case['seed'] is not None else 'global')


# ------------------------------------------------------------------ graphs

def shape(collection):
    """The kind of the marker of a node."""
    k = len(collection.get_paths()[0].vertices)
    return 'box' if k <= 5 else 'hexagon' if k <= 8 else 'ellipse'


def color(x):
    return tuple(round(float(y), 4) for y in matplotlib.colors.to_rgba(x))


def nodes_of(ax):
    """Positions, colors and shapes of the nodes of a drawn graph."""
    out = []
    for c in ax.collections:
        for i, xy in enumerate(np.asarray(c.get_offsets())):
            fc = c.get_facecolor()
            out.append((tuple(float(x) for x in xy), color(fc[i % len(fc)]) if len(fc) else None, shape(c)))
    return out


def nearest(positions, xy):
    return min(positions, key=lambda k: (positions[k][0] - xy[0]) ** 2 + (positions[k][1] - xy[1]) ** 2)


def arrows(ax):
    return [(tuple(float(y) for y in a._posA_posB[0]), tuple(float(y) for y in a._posA_posB[1]), color(a.get_edgecolor()), a) for a in ax.patches if isinstance(a, FancyArrowPatch)]


def value_of(text):
    """The number shown by a label and half a unit of its last digit."""
    t = text.strip()
    digits = len(t.split('.')[1]) if '.' in t else 0
    return float(t), 0.5 * 10.0 ** -digits + 1e-9


def legible(m):
    """The probabilities of the matrices without null entries: their labels must show a digit of theirs, down to the fourth."""
    out = {}
    for a, columns in [(m.p, m.states)] + ([(m.e, m.symbols)] if hasattr(m, 'e') else []):
        if (a > 0).all():
            out.update({(u, v): a[i, j] for i, u in enumerate(m.states) for j, v in enumerate(columns) if a[i, j] >= 1e-4})
    return out


def same_color(groups, what):
    """groups: (color, key): equal keys have equal colors, and other keys other ones while there are enough colors."""
    by = {}
    for c, k in groups:
        by.setdefault(k, set()).add(c)
    require(all(len(x) == 1 for x in by.values()), lambda: f'{what}: nodes of the same class have different colors {by}')
    if len(by) <= COLORS:
        require(len({next(iter(x)) for x in by.values()}) == len(by), lambda: f'{what}: nodes of different classes have the same color {by}')


@st.composite
def graph_cases(draw):
    c = draw(models())
    c['color'], c['shape'], c['label'] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    c['defaults'] = draw(st.integers(0, 4)) == 0
    return c


def graph_args(case, m, standard):
    if case['defaults']:
        return {'model': m, 'force_standard': standard}, True, True, True
    return {'model': m, 'nodes_color': case['color'], 'nodes_shape': case['shape'], 'edges_label': case['label'], 'force_standard': standard, 'dpi': case['dpi']}, case['color'], case['shape'], case['label']


def probabilities(m):
    """The edges of the graph and their probabilities."""
    out = {(a, b): float(m.p[i, j]) for i, a in enumerate(m.states) for j, b in enumerate(m.states) if m.p[i, j] > 0}
    if hasattr(m, 'e'):
        out.update({(a, b): float(m.e[i, j]) for i, a in enumerate(m.states) for j, b in enumerate(m.symbols) if m.e[i, j] > 0})
    return out


def side(A, B, x):
    """How far x is on the left of the line from A to B, in units of its length."""
    d, y = B - A, x - A
    return float(d[0] * y[1] - d[1] * y[0]) / float(d[0] ** 2 + d[1] ** 2)


def check_nodes(m, kinds, with_color, with_shape, what):
    """kinds: name -> (color, shape)."""
    if hasattr(m, 'e'):
        L = list(m.states) + list(m.symbols)
        form = {x: 'ellipse' for x in m.states}
        form.update({x: 'hexagon' for x in m.symbols})
        group = {x: x for x in m.states}
        group.update({x: '' for x in m.symbols})
    else:
        L = list(m.states)
        cs = [[m.states[i] for i in c] for c in O.classes(m.p.tolist())]
        recurrent = {m.states[i] for c in O.recurrent_classes(m.p.tolist()) for i in c}
        form = {x: 'ellipse' if x in recurrent else 'box' for x in L}
        group = {x: next(i for i, c in enumerate(cs) if x in c) for x in L}
    require(sorted(kinds) == sorted(L), lambda: f'{what}: the nodes are {sorted(kinds)} instead of {sorted(L)}')
    if with_color:
        same_color([(kinds[x][0], group[x]) for x in L], what)
    else:
        require(len({kinds[x][0] for x in L}) == 1, lambda: f'{what}: the nodes have several colors')
    for x in L:
        expected = form[x] if with_shape else None
        got = kinds[x][1]
        require(got == expected or not with_shape and got == 'ellipse', lambda: f'{what}: the node {x} is a {got}, it must be a {expected or "plain node"}')


@R.law(graph_cases(), 320, 5000)
def graph_standard(case, ctx):
    """A node with its name, color and shape per state and symbol, an arrow per positive probability from the right node to the right node, each with its label."""
    from pydtmc import plot_graph
    m = build(case)
    args, with_color, with_shape, with_label = graph_args(case, m, True)
    what = f'plot_graph({ {k: v for k, v in args.items() if k != "model"} }) of {case["p"]} {case.get("e")} {m.states}'
    with figures():
        figure, (ax,) = draw_plot(plot_graph, m, args, case, rng=False)
        nodes = nodes_of(ax)
        names = set(m.states) | set(getattr(m, 'symbols', []))
        labels = {}
        texts = list(ax.texts)
        for i, (xy, c, s) in enumerate(nodes):  # the label of a node is right on it
            t = next((t for t in texts if t.get_text() in names and np.allclose(t.get_position(), xy, rtol=0, atol=1e-9) and t.get_text() not in labels), None)
            require(t is not None, lambda: f'{what}: a node without name at {xy}')
            labels[t.get_text()] = (xy, c, s)
            texts.remove(t)
        require(len({tuple(np.round(x[0], 6)) for x in labels.values()}) == len(labels), lambda: f'{what}: two nodes in the same place')
        check_nodes(m, {k: v[1:] for k, v in labels.items()}, with_color, with_shape, what)
        positions = {k: v[0] for k, v in labels.items()}
        expected = probabilities(m)
        drawn, shown_digits = {}, legible(m)
        for a, b, c, patch in arrows(ax):
            u, v = nearest(positions, a), nearest(positions, b)
            require(np.allclose(a, positions[u]) and np.allclose(b, positions[v]), lambda: f'{what}: an arrow from {a} to {b}')
            require((u, v) not in drawn, lambda: f'{what}: two arrows from {u} to {v}')
            drawn[u, v] = (c, patch)
        require(set(drawn) == set(expected), lambda: f'{what}: the arrows are {sorted(drawn)} instead of {sorted(expected)}')
        if hasattr(m, 'e'):
            for (u, v), (c, patch) in drawn.items():
                hidden = v in m.symbols
                require((patch.get_linestyle() in ('dashed', '--')) == hidden, lambda: f'{what}: style of the arrow from {u} to {v}')
                if hidden and with_color:
                    require(c[:3] == labels[u][1][:3], lambda: f'{what}: color of the arrow from {u} to {v}')
        if not with_label:
            require(not texts, lambda: f'{what}: texts {[t.get_text() for t in texts]} without labels')
        else:
            require(len(texts) == len(expected), lambda: f'{what}: {len(texts)} labels for {len(expected)} arrows')
            display = ax.transData.transform
            fit = []
            size = max(1.0, float(np.hypot(*np.ptp([display(x) for x in positions.values()], axis=0))))
            for (u, v), prob in sorted(expected.items()):
                A, B = display(positions[u]), display(positions[v])
                f = 0.25 if hasattr(m, 'e') and v in m.symbols else 0.5
                if u != v and u in m.states and v in m.states:  # on the side of the curve
                    control = display(drawn[u, v][1].get_path().vertices[1])
                    bend = side(A, B, control)
                else:
                    bend = 0.0

                def fits(t):
                    x = display(t.get_position())
                    if abs(value_of(t.get_text())[0] - prob) > value_of(t.get_text())[1]:
                        return False
                    if value_of(t.get_text())[0] == 0 and (u, v) in shown_digits:
                        return False
                    if abs(bend) < 1e-3:
                        return np.hypot(*(x - f * A - (1 - f) * B)) < 0.02 * size
                    far = side(A, B, x)
                    return far * bend > 0 and abs(far) < 0.5 and abs(np.dot(x - A, B - A) / np.dot(B - A, B - A) - 0.5) < 0.05
                fit.append([fits(t) for t in texts])
                require(any(fit[-1]), lambda: f'{what}: no label with {prob} on the arrow from {u} to {v} ({[(t.get_text(), t.get_position()) for t in texts]}, positions {positions})')
            rows, columns = linear_sum_assignment(~np.array(fit))
            require(np.array(fit)[rows, columns].all(), lambda: f'{what}: the labels are not on their arrows')
        ctx.interesting(len(expected) > 1)
        ctx.tag('hidden' if hasattr(m, 'e') else 'chain', f'{int(with_color)}{int(with_shape)}{int(with_label)}')


WRAPPER = '''#!/bin/bash
base="{folder}/log.$$"
last="${{@: -1}}"
if [ -f "$last" ]; then
    cp "$last" "$base.gv"
    "{dot}" "$@" | tee "$base.out"
    exit "${{PIPESTATUS[0]}}"
fi
exec "{dot}" "$@"
'''


@contextlib.contextmanager
def graphviz():
    """Runs with a Graphviz which keeps its inputs and outputs; gives the list of (graph, image), in order."""
    if DOT is None:
        raise Discard()
    folder = tempfile.mkdtemp(prefix='vdot-')
    path = os.path.join(folder, 'dot')
    with open(path, 'w') as f:
        f.write(WRAPPER.format(folder=folder, dot=DOT))
    os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR)
    old = os.environ['PATH']
    os.environ['PATH'] = folder + ':' + old
    done = []

    def collect():
        os.environ['PATH'] = old
        for x in sorted((x for x in os.listdir(folder) if x.endswith('.gv')), key=lambda x: os.stat(os.path.join(folder, x)).st_mtime_ns):
            r = subprocess.run([DOT, '-Tjson', os.path.join(folder, x)], capture_output=True, text=True)
            require(r.returncode == 0, lambda: f'Graphviz rejects the graph: {r.stderr[:300]}')
            done.append((json.loads(r.stdout), os.path.join(folder, x[:-3] + '.out')))
        return done
    try:
        yield collect
    finally:
        os.environ['PATH'] = old
        shutil.rmtree(folder, ignore_errors=True)


def written(o, which='_ldraw_'):
    return ''.join(x['text'] for x in o.get(which, []) if x['op'] == 'T')


def same_image(a, path):
    img = plt.imread(path, format='png')
    a = np.asarray(a)
    return a.shape == img.shape and np.array_equal(a, img)


@R.law(graph_cases(), 240, 3000)
def graph_extended(case, ctx):
    """Same for the graph given to Graphviz: nodes with their names, colors and shapes, edges with their labels; the image is the one which it gives."""
    from pydtmc import plot_graph
    m = build(case, True)
    args, with_color, with_shape, with_label = graph_args(case, m, False)
    what = f'plot_graph({ {k: v for k, v in args.items() if k != "model"} }) of {case["p"]} {case.get("e")} {m.states}'
    with figures(), graphviz() as collect:
        figure, (ax,) = draw_plot(plot_graph, m, args, case)
        done = collect()
        require(len(done) == 1, lambda: f'{what}: {len(done)} graphs')
        g, image = done[0]
        images = list(figure.images) + list(ax.images)
        require(len(images) == 1 and same_image(images[0].get_array(), image), lambda: f'{what}: the image is not that of the graph')
        objects = [o for o in g.get('objects', []) if 'nodes' not in o and 'subgraphs' not in o and '_draw_' in o]
        by_id = {o['_gvid']: written(o) for o in objects}
        kinds = {}
        for o in objects:
            k = o.get('shape', 'ellipse')
            require(by_id[o['_gvid']] not in kinds, lambda: f'{what}: two nodes {by_id[o["_gvid"]]}')
            kinds[by_id[o['_gvid']]] = (o.get('fillcolor'), k)
        check_nodes(m, kinds, with_color, with_shape, what)
        expected = probabilities(m)
        drawn, shown_digits = {}, legible(m)
        for e in g.get('edges', []):
            u, v = by_id[e['tail']], by_id[e['head']]
            require((u, v) not in drawn, lambda: f'{what}: two edges from {u} to {v}')
            drawn[u, v] = e
        require(set(drawn) == set(expected), lambda: f'{what}: the edges are {sorted(drawn)} instead of {sorted(expected)}')
        for (u, v), e in drawn.items():
            t = written(e)
            if with_label:
                x, tol = value_of(t)
                require(x > 0 or (u, v) not in shown_digits, lambda: f'{what}: label {t!r} of the {expected[u, v]} from {u} to {v}')
                require(abs(x - expected[u, v]) <= tol, lambda: f'{what}: label {t!r} from {u} to {v} instead of {expected[u, v]}')
            else:
                require(t == '', lambda: f'{what}: label {t!r} without labels')
            if hasattr(m, 'e'):
                require((e.get('style') == 'dashed') == (v in m.symbols), lambda: f'{what}: style of the edge from {u} to {v}')
                if with_color and v in m.symbols:
                    require(e.get('color') == kinds[u][0], lambda: f'{what}: color of the edge from {u} to {v}')
        ctx.interesting(len(expected) > 1)
        ctx.tag('hidden' if hasattr(m, 'e') else 'chain', f'{int(with_color)}{int(with_shape)}{int(with_label)}')


# ------------------------------------------------------------------ trellis

@st.composite
def trellis_cases(draw):
    c = draw(models('hmm', 4))
    c['steps'] = draw(st.integers(2, 6))
    c['initial'] = draw(st.one_of(st.none(), st.integers(0, len(c['p']) - 1)))
    c['byname'], c['seed'] = draw(st.booleans()), draw(st.one_of(st.none(), st.integers(0, 2 ** 32 - 1)))
    return c


def trellis_data(m, case):
    """The initial status, the symbols, the backward and forward probabilities, the best path and the edges (state, step, next state)."""
    n = len(m.states)
    initial, (_, symbols) = walk(m, case)
    v = np.full(n, 1.0 / n) if case['initial'] is None else np.eye(n)[case['initial']]
    try:
        _, _, backward, forward, _ = m.decode(list(symbols[1:]), initial_status=v)
        _, path = m.predict('mle', list(symbols), initial_status=v, output_indices=True)
    except (ValueError, TypeError):
        raise Discard() from None
    N = len(symbols)
    edges = {(i, t, j) for t in range(N - 1) for i in range(n) for j in range(n) if m.p[i, j] > 0 and (t > 0 or v[i] > 0)}
    return initial, symbols, backward, forward, list(path), edges


def trellis_arguments(m, case, initial, standard):
    args = {'hmm': m, 'steps': case['steps'], 'initial_state': initial, 'seed': case['seed'], 'force_standard': standard, 'dpi': case['dpi']}
    return {k: x for k, x in args.items() if x is not None}


def two_decimals(text, x):
    return abs(float(text) - x) <= 0.005 + 1e-9


@R.law(trellis_cases(), 320, 4000)
def trellis_standard(case, ctx):
    """Backward and forward trellises: a row per state, a column for the start and each symbol, the probabilities in the nodes, the possible transitions and the most probable path in color."""
    from pydtmc import plot_trellis
    m = build(case)
    initial, symbols, backward, forward, path, edges = trellis_data(m, case)
    n, N = len(m.states), len(symbols)
    what = f'plot_trellis({case["p"]}, {case["e"]}, {case["steps"]}, {initial!r}, {case["seed"]})'
    with figures():
        figure, axes = draw_plot(plot_trellis, m, trellis_arguments(m, case, initial, True), case, rng=case['seed'] is not None)
        require([a.get_title() for a in axes] == ['Backward Trellis', 'Forward Trellis'], lambda: f'{what}: titles {[a.get_title() for a in axes]}')
        for ax, M, back in zip(axes, (backward, forward), (True, False)):
            side = 'backward' if back else 'forward'
            require(np.shape(M) == (n, N), lambda: f'{what}: {side} probabilities {np.shape(M)}')
            where = {(round(float(t.get_position()[0]), 6), round(float(t.get_position()[1]), 6)): t.get_text() for t in ax.texts}
            require(len(where) == len(ax.texts) == n * N + n + N, lambda: f'{what}: {len(ax.texts)} texts')
            colors = {(round(x[0], 6), round(x[1], 6)): c for x, c, _ in nodes_of(ax)}
            cell = {}
            for t in range(N):
                column = sorted((k for k in where if k[0] == t + 1.0), key=lambda k: -k[1])
                require(len(column) == n + 1, lambda: f'{what}: {len(column)} texts in the column {t}')
                header = where[column[0]]
                if t == 0:
                    require('T' in header and '0' in header, lambda: f'{what}: the first header is {header}')
                else:
                    require(header == m.symbols[symbols[t]], lambda: f'{what}: the header of the step {t} is {header} instead of {m.symbols[symbols[t]]}')
                for i, k in enumerate(column[1:]):
                    cell[k] = (i, t)
                    require(two_decimals(where[k], M[i, t]), lambda: f'{what}: {side} probability of {m.states[i]} at the step {t} {where[k]} instead of {M[i, t]}')
            rows = sorted((k for k in where if k[0] < 1.0), key=lambda k: -k[1])
            require([where[k] for k in rows] == list(m.states), lambda: f'{what}: the rows are {[where[k] for k in rows]}')
            require(all(k[1] == next(c[1] for c in cell if cell[c] == (i, 0)) for i, k in enumerate(rows)), f'{what}: the names are not on their rows')
            on = {colors[k] for k in cell if path[cell[k][1]] == cell[k][0]}
            off = {colors[k] for k in cell if path[cell[k][1]] != cell[k][0]}
            require(len(on) == 1 and len(off) <= 1 and not on & off, lambda: f'{what}: {side} nodes of the best path {path}: colors {on} and {off}')
            drawn, tones = set(), {}
            for a, b, c, _ in arrows(ax):
                u, v = [cell[min(cell, key=lambda k: (k[0] - x[0]) ** 2 + (k[1] - x[1]) ** 2)] for x in (a, b)]
                if back:
                    u, v = v, u
                require(v[1] == u[1] + 1, lambda: f'{what}: {side} edge from {u} to {v}')
                key = (u[0], u[1], v[0])
                require(key not in drawn, lambda: f'{what}: {side} edge {key} twice')
                drawn.add(key)
                tones.setdefault(c[:3], set()).add(key)
            require(drawn == edges, lambda: f'{what}: {side} edges {sorted(drawn ^ edges)} missing or added')
            best = {(path[t], t, path[t + 1]) for t in range(N - 1)} & edges
            got = tones.get(next(iter(on))[:3], set())
            require(got == best, lambda: f'{what}: the {side} edges in color are {sorted(got)} instead of {sorted(best)}')
        ctx.interesting()
        ctx.tag('uniform' if initial is None else 'initial', 'seed' if case['seed'] is not None else 'global')


@R.law(trellis_cases(), 160, 2000)
def trellis_extended(case, ctx):
    """Same for the graphs given to Graphviz, the backward one first."""
    from pydtmc import plot_trellis
    m = build(case, True)
    initial, symbols, backward, forward, path, edges = trellis_data(m, case)
    n, N = len(m.states), len(symbols)
    what = f'plot_trellis({case["p"]}, {case["e"]}, {case["steps"]}, {initial!r}, {case["seed"]})'
    with figures(), graphviz() as collect:
        figure, axes = draw_plot(plot_trellis, m, trellis_arguments(m, case, initial, False), case, rng=case['seed'] is not None)
        done = collect()
        require(len(done) == 2, lambda: f'{what}: {len(done)} graphs')
        require([a.get_title() for a in axes] == ['Backward Trellis', 'Forward Trellis'], lambda: f'{what}: titles {[a.get_title() for a in axes]}')
        for ax, M, back in zip(axes, (backward, forward), (True, False)):
            side = 'backward' if back else 'forward'
            require(len(ax.images) == 1, f'{what}: no image')
            candidates = [g for g, image in done if same_image(ax.images[0].get_array(), image)]
            require(candidates, lambda: f'{what}: the {side} image is not one of those of Graphviz')
            right = []
            for g in candidates:
                message = trellis_graph(g, m, symbols, M, back, path, edges)
                right.append(message)
            require(None in right, lambda: f'{what}: {side}: {right[0]}')
        ctx.interesting()
        ctx.tag('uniform' if initial is None else 'initial')


def trellis_graph(g, m, symbols, M, back, path, edges):
    """None if the graph is the trellis, otherwise what is wrong."""
    n, N = len(m.states), len(symbols)
    objects = {o['_gvid']: o for o in g['objects']}
    clusters = [o for o in g['objects'] if 'nodes' in o]
    clusters.sort(key=lambda o: o['_gvid'])  # in the order of the graph: their placement belongs to Graphviz
    if len(clusters) != N + 1:
        return f'{len(clusters)} columns instead of {N + 1}'

    def column(o):  # from top to bottom
        return sorted((objects[i] for i in o['nodes']), key=lambda x: -float(x['pos'].split(',')[1]))
    names = [written(x) for x in column(clusters[0])]
    if names != list(m.states):
        return f'the rows are {names} instead of {m.states}'
    cell, on, off = {}, set(), set()
    for t, o in enumerate(clusters[1:]):
        header = written(o)
        if t == 0 and not ('T' in header and '0' in header):
            return f'the first header is {header}'
        if t > 0 and header != m.symbols[symbols[t]]:
            return f'the header of the step {t} is {header} instead of {m.symbols[symbols[t]]}'
        c = column(o)
        if len(c) != n:
            return f'{len(c)} nodes at the step {t}'
        for i, x in enumerate(c):
            cell[x['_gvid']] = (i, t)
            if not two_decimals(written(x), M[i, t]):
                return f'the probability of {m.states[i]} at the step {t} is {written(x)} instead of {M[i, t]}'
            (on if path[t] == i else off).add(x.get('fillcolor'))
    if len(on) != 1 or len(off) > 1 or on & off:
        return f'the colors of the best path {path} are {on} and {off}'
    drawn, best = set(), set()
    for e in g['edges']:
        if e.get('style') == 'invis':
            continue
        u, v = cell[e['tail']], cell[e['head']]
        if e.get('dir') == 'back':
            u, v = v, u
        if back:
            u, v = v, u
        if v[1] != u[1] + 1:
            return f'edge from {u} to {v}'
        drawn.add((u[0], u[1], v[0]))
        if e.get('color') in on:
            best.add((u[0], u[1], v[0]))
    if drawn != edges:
        return f'edges {sorted(drawn ^ edges)} missing or added'
    expected = {(path[t], t, path[t + 1]) for t in range(N - 1)} & edges
    if best != expected:
        return f'the edges in color are {sorted(best)} instead of {sorted(expected)}'
    return None


# ------------------------------------------------------------------ invalid arguments

def wrong_dpi():
    return dict(bad.scalars(integers=[0, 1, -100, 99, 101, 96, 1200, 74], floats=[100.0, 72.5, bad.NAN], strings=['', '100', 'high']), list=[100], bool=True, array=np.array([100]), numpy=np.int64(99))


def wrong_model(extra=()):
    from pydtmc import MarkovChain, ValidationError, plot_graph
    return dict(bad.scalars(integers=[0, 1], floats=[1.0], strings=['', 'model']), matrix=np.eye(2), list=[[1.0, 0.0], [0.0, 1.0]], models=[MarkovChain(np.eye(2))], chain_class=MarkovChain, bool=True, error=ValidationError('x'), function=plot_graph)


def wrong(name, S, n, hidden):
    from pydtmc import MarkovChain, HiddenMarkovModel
    mc, hmm = MarkovChain(np.eye(2)), HiddenMarkovModel(np.eye(2), np.eye(2))
    if name == 'model':
        return wrong_model()
    if name == 'hmm':
        return dict(wrong_model(), chain=mc)
    if name == 'models':
        out = {'none': None, 'empty': [], 'one': [mc], 'tuple': (mc, mc), 'number': 1, 'model': mc, 'set': {mc}, 'string': 'ab', 'dict': {0: mc, 1: mc}, 'array': np.array([mc, mc], dtype=object)}
        out.update({f'second {k}': [mc, x] for k, x in wrong_model().items()})
        out.update({f'first {k}': [x, hmm] for k, x in wrong_model().items()})
        return out
    if name == 'names':  # of two models
        L = ['a', 'b']
        return {k: x for k, x in bad.names(L, 2).items() if k not in ('twice', 'all the same', 'none')}
    if name == 'dpi':
        return wrong_dpi()
    if name in ('steps2',):
        return bad.integer(2, None)
    if name in ('steps', 'interval', 'redistributions'):
        return bad.integer(1, None)
    if name == 'seed':
        return bad.values(('seed',), n, None, S, None, None)
    if name == 'initial_status':
        return bad.values(('status', 'S'), n, None, S, None, None)
    if name == 'initial_state':
        return {k: x for k, x in bad.values(('state',), n, None, S, None, None).items() if k != 'none'}
    if name in ('nodes_color', 'nodes_shape', 'edges_label', 'force_standard'):
        return bad.values(('bool',), n, None, S, None, None)
    return bad.values(('enum', {'palette': 'viridis', 'underlying_matrices': 'transition', 'redistributions_type': 'heatmap', 'sequence_type': 'histogram'}[name]), n, None, S, None, None)


FUNCTIONS = {
    'plot_comparison': {'models': None, 'underlying_matrices': None, 'names': None, 'dpi': None},
    'plot_eigenvalues': {'model': None, 'dpi': None},
    'plot_flow': {'model': None, 'steps': None, 'interval': None, 'initial_status': None, 'palette': None, 'dpi': None},
    'plot_graph': {'model': None, 'nodes_color': None, 'nodes_shape': None, 'edges_label': None, 'force_standard': None, 'dpi': None},
    'plot_redistributions': {'model': None, 'redistributions': None, 'initial_status': None, 'plot_type': 'redistributions_type', 'dpi': None},
    'plot_sequence': {'model': None, 'steps': 'steps2', 'initial_state': None, 'plot_type': 'sequence_type', 'seed': None, 'dpi': None},
    'plot_trellis': {'hmm': None, 'steps': 'steps2', 'initial_state': None, 'seed': None, 'force_standard': None, 'dpi': None},
}


@st.composite
def invalid_cases(draw):
    f = draw(st.sampled_from(sorted(FUNCTIONS)))
    c = draw(models('hmm' if f == 'plot_trellis' else None, 4))
    c['function'] = f
    c['argument'] = draw(st.sampled_from(sorted(FUNCTIONS[f])))
    return c


@R.law(invalid_cases(), 960, 12000)
def invalid_arguments(case, ctx):
    """Every invalid value of every argument is rejected with a ValidationError, and nothing is drawn."""
    import pydtmc
    m = build(case)
    f, name = case['function'], case['argument']
    base = {'models': [m, m], 'model': m, 'hmm': m, 'steps': 3, 'interval': 2, 'redistributions': 3, 'initial_status': 0, 'initial_state': 0}
    base = {k: v for k, v in base.items() if k in FUNCTIONS[f]}
    func = getattr(pydtmc, f)
    with figures():
        for label, value in wrong(FUNCTIONS[f][name] or name, list(m.states), len(m.states), 'e' in case).items():
            expect_validation_error(lambda: func(**dict(base, **{name: value})), f'{f}: {name} {label} ({value!r})')
            require(not plt.get_fignums(), lambda: f'{f}: a figure is left after the rejection of {name} {label}')
            plt.close('all')
        if f == 'plot_comparison' and 'e' not in case:
            expect_validation_error(lambda: func([m, m], 'emission'), 'plot_comparison of the emissions of chains')
            require(not plt.get_fignums(), 'plot_comparison: a figure is left')
        require(not plt.isinteractive(), f'{f} changed the interactive mode')
    ctx.tag(f'{f}.{name}')
    ctx.interesting()
