"""C39: aliases and redundant forms agree."""
import inspect
import os
import pathlib
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import calls, forms, gen, statics
from vlib.core import Registry, require

R = Registry('C39', 'every alias against its canonical operation; every call of the grammar given by names and by indices, one state alone and in a list, every vector and matrix in every container, by position and by keyword, with omitted and explicit defaults, python and numpy numbers; non-trivial: the two ways differ in at least one argument')

ALIASES = [(op, a) for op, names in calls.ALIASES.items() for a in names]
UNIFORM = {'initial_distribution', 'initial_status'}
DEFAULTS = {  # the value which None stands for
    'targets': lambda n: list(range(n)),
    'initial_distribution': lambda n: [1.0 / n] * n, 'initial_status': lambda n: [1.0 / n] * n,
}


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='c39-')
        self.count = 0
        return self

    def new(self):
        self.count += 1
        d = os.path.join(self.path, str(self.count))
        os.mkdir(d)
        return d

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def model(case):
    return gen.build_hmm(case) if 'e' in case else gen.build(case)


def agree(case, a, b, what, tol=0.0):
    d = calls.difference(calls.view(a), calls.view(b), tol)
    require(d is None, lambda: f'{what}: {d} (matrix {case["p"]})')


@st.composite
def alias_cases(draw):
    c = draw(gen.chain(2, 5))
    op, c['alias'] = draw(st.sampled_from(ALIASES))
    c['call'] = calls.draw_call(draw, 'mc', len(c['p']), None, op=op)
    c['positional'] = draw(st.booleans())
    return c


@R.law(alias_cases(), 2400, 30000)
def aliases(case, ctx):
    """An alias gives what the operation gives, with the same arguments, before or after it."""
    from pydtmc import MarkovChain
    op, alias, s = case['call']['op'], case['alias'], case['call']
    require(hasattr(MarkovChain, alias), f'the alias {alias} of {op} is missing')
    if op in calls.METHODS['mc']:
        require(str(inspect.signature(getattr(MarkovChain, op))) == str(inspect.signature(getattr(MarkovChain, alias))), f'{alias} does not have the parameters of {op}')
    m, other = model(case), model(case)
    S = list(m.states)
    args = lambda: calls.arguments('mc', s, S, None)  # noqa
    a = calls.perform(m, 'mc', op, args())
    b = calls.perform(m, 'mc', alias, args())
    c = calls.perform(other, 'mc', alias, args())
    agree(case, a, b, f'{op} and then {alias} with {s["args"]}')
    agree(case, a, c, f'{op} and {alias} with {s["args"]}')
    agree(case, a, calls.perform(other, 'mc', op, args()), f'{op} and {op} after {alias} with {s["args"]}')
    ctx.tag(alias)
    ctx.interesting(not isinstance(a, Exception))


@st.composite
def call_cases(draw):
    kind = draw(st.sampled_from(['mc', 'mc', 'mc', 'hmm']))
    c = draw(gen.mostly(gen.chain(2, 6), gen.chain(7, 11)) if kind == 'mc' else gen.mostly(gen.hmm(2, 4, 2, 4), gen.hmm(2, 9, 5, 9)))
    n, k = len(c['p']), len(c['e'][0]) if kind == 'hmm' else None
    ops = [x for x in calls.METHODS[kind] if calls.METHODS[kind][x] and calls.MINIMUM.get(x, 2) <= n and x != 'closest_reversible']
    c['call'] = calls.draw_call(draw, kind, n, k, op=draw(st.sampled_from(ops)))
    return c


@R.law(call_cases(), 4000, 50000)
def redundant_forms(case, ctx):
    """A call with names, indices, lists of one, other containers, by position, with numpy numbers: the same result."""
    kind = 'hmm' if 'e' in case else 'mc'
    s = case['call']
    params = calls.parameters(kind, s['op'])
    with Scratch() as tmp:
        m = model(case)
        S, Y = list(m.states), list(m.symbols) if kind == 'hmm' else None
        run = lambda args: calls.perform(m, kind, s['op'], args)  # noqa
        base = run(calls.arguments(kind, s, S, Y, tmp.new()))
        what = f'{s["op"]}({s["args"]})'
        for how in ({'name': True}, {'name': False}, {'single': True}, {'single': False}, {'name': True, 'single': True}):
            agree(case, base, run(calls.arguments(kind, s, S, Y, tmp.new(), **how)), f'{what} and the same with {how}')
        for name, t, _ in params:
            x = s['args'].get(name)
            if x is None:
                continue
            if 'form' in x and isinstance(x['v'], list):
                for f in forms.forms(np.array(x['v'], dtype=float), forms.VECTOR):
                    args = calls.arguments(kind, s, S, Y, tmp.new())
                    args[name] = forms.form(f, x['v'])
                    agree(case, base, run(args), f'{what} and the same with {name} as {f}', 1e-10)
                    ctx.interesting()
                if t[0] == 'status' and sum(y > 0 for y in x['v']) == 1:
                    args = calls.arguments(kind, s, S, Y, tmp.new())
                    args[name] = x['v'].index(max(x['v'])) if max(x['v']) == 1.0 else args[name]
                    agree(case, base, run(args), f'{what} and the same with {name} as an index', 1e-10)
            elif t[0] == 'status':
                args = calls.arguments(kind, s, S, Y, tmp.new())
                args[name] = [1.0 if i == x['v'] else 0.0 for i in range(len(S))]
                agree(case, base, run(args), f'{what} and the same with {name} as a vector', 1e-10)
                ctx.interesting()
            elif t[0] in ('int', 'seed'):
                for cast in (int, np.int64, np.uint32, np.int16, np.uint8):
                    if cast is int or x['v'] <= np.iinfo(cast).max:
                        args = calls.arguments(kind, s, S, Y, tmp.new())
                        args[name] = cast(x['v'])
                        agree(case, base, run(args), f'{what} and the same with {name} as {cast.__name__}')
                        ctx.interesting()
            elif t[0] in ('state', 'symbol'):
                for cast in (np.int64, np.uint8):
                    args = calls.arguments(kind, s, S, Y, tmp.new())
                    args[name] = cast(x['v'])
                    agree(case, base, run(args), f'{what} and the same with {name} as {cast.__name__}')
                    ctx.interesting()
            elif t[0] in ('states', 'states2', 'symbols2'):
                for v in (x['v'][::-1], sorted(x['v']), [np.int64(y) for y in x['v']]):
                    args = calls.arguments(kind, s, S, Y, tmp.new())
                    args[name] = v
                    agree(case, base, run(args), f'{what} and the same with {name} = {v}')
                    ctx.interesting()
            elif t[0] in ('seq', 'symseq'):
                args = calls.arguments(kind, s, S, Y, tmp.new())
                args[name] = [np.int64(y) for y in x['v']]
                agree(case, base, run(args), f'{what} and the same with {name} of numpy integers')
                ctx.interesting()
            elif t[0] == 'times':
                args = calls.arguments(kind, s, S, Y, tmp.new())
                if isinstance(x['v'], list):
                    args[name] = x['v'][::-1]
                    agree(case, base, run(args), f'{what} and the same with {name} in another order')
                else:
                    args[name] = np.int64(x['v'])
                    agree(case, base, run(args), f'{what} and the same with {name} as a numpy integer')
                ctx.interesting()
            elif t[0] == 'weights' and not isinstance(x['v'], list):
                for v in ([float(x['v'])] * len(S), float(x['v']), np.float64(x['v'])):
                    args = calls.arguments(kind, s, S, Y, tmp.new())
                    args[name] = v
                    agree(case, base, run(args), f'{what} and the same with {name} = {v}')
                ctx.interesting()
            elif t[0] == 'path':
                args = calls.arguments(kind, s, S, Y, tmp.new())
                args[name] = pathlib.Path(args[name])
                agree(case, base, run(args), f'{what} and the same with a path object')
                ctx.interesting()
            elif t[0] == 'boundary' and not isinstance(x['v'], str):
                for v in (float(x['v']), np.float64(x['v'])):
                    agree(case, base, run({name: v}), f'{what} and the same with {v!r}')
        args = calls.arguments(kind, s, S, Y, tmp.new())
        order = [x for x, _, _ in params]
        if 'path' not in [t[0] for _, t, _ in params] and list(args) == order[:len(args)]:
            try:
                r = getattr(m, s['op'])(*args.values())
            except Exception as e:  # noqa
                r = e
            agree(case, base, r, f'{what} by keyword and by position')
        ctx.tag(s['op'])


@R.law(call_cases(), 2400, 30000)
def defaults(case, ctx):
    """An omitted argument is its documented default."""
    kind = 'hmm' if 'e' in case else 'mc'
    s = case['call']
    params = calls.parameters(kind, s['op'])
    m = model(case)
    n = len(case['p'])
    S, Y = list(m.states), list(m.symbols) if kind == 'hmm' else None
    with Scratch() as tmp:
        signature = inspect.signature(getattr(type(m), s['op'])).parameters
        for name, t, default in params:
            if default is calls.REQ or t[0] == 'seed':
                continue
            without = calls.arguments(kind, s, S, Y, tmp.new())
            without.pop(name, None)
            base = calls.perform(m, kind, s['op'], without)
            require(name in signature and signature[name].default == default, f'{s["op"]}: the default of {name} is not {default!r}')
            agree(case, base, calls.perform(m, kind, s['op'], dict(without, **{name: default})), f'{s["op"]}({without}) and the same with {name} = {default!r}')
            if default is None and name in DEFAULTS and s['op'] != 'mean_first_passage_times_to':  # which gives all the pairs
                value = DEFAULTS[name](n)
                agree(case, base, calls.perform(m, kind, s['op'], dict(without, **{name: value})), f'{s["op"]}({without}) and the same with {name} = {value!r}', 1e-10)
            ctx.interesting()
        if s['op'] == 'time_correlations':  # the autocorrelation
            a = calls.arguments(kind, s, S, Y)
            a.pop('sequence2', None)
            agree(case, calls.perform(m, kind, s['op'], a), calls.perform(m, kind, s['op'], dict(a, sequence2=list(a['sequence1']))), 'the autocorrelation and the crosscorrelation of a sequence with itself', 1e-10)
        ctx.tag(s['op'])


STATIC_DEFAULTS = {
    'states': None, 'symbols': None, 'zeros': 0, 'p_zeros': 0, 'e_zeros': 0, 'mask': None, 'p_mask': None, 'e_mask': None, 's': 0.0, 'u': 1e-9, 'v': 1e-9, 'shift_concentration': False, 'diagonal_bias_factor': None, 'quadrature_interval': None, 'fitting_param': None, 'initial_status': None, 'significance': 0.05, 'blocks': 1, 'k': None,
}


@R.law(statics.call(exclude=[('mc', 'from_file'), ('hmm', 'from_file')]), 1400, 25000)
def static_forms(case, ctx):
    """A static operation with names or indices, in any container, by position or by keyword, with omitted or explicit defaults: the same result."""
    what = f'{case["cls"]}.{case["op"]}({({x: y["v"] for x, y in case["args"].items()})})'
    run = lambda args: statics.perform(case, args)  # noqa
    same = lambda a, b, why, tol=0.0: require((d := calls.difference(calls.view(a), calls.view(b), tol)) is None, lambda: f'{what}, {why}: {d}')  # noqa
    base = run(statics.arguments(case))
    same(base, run(statics.arguments(case, by=True)), 'by name')
    same(base, run(statics.arguments(case, by=False)), 'by index')
    f = statics.target(case)
    signature = inspect.signature(f).parameters
    for name, x in case['args'].items():
        t = x['kind']
        if 'form' in x:
            v = np.array(statics.nan(x['v']) if t[0] == 'mask' else x['v'], dtype=float)
            all_forms = forms.forms(v, forms.VECTOR if v.ndim == 1 else forms.MATRIX)
            if case['op'] in ('fit', 'approximation'):  # costly: some of the forms, others in other cases
                start = int(1000 * np.nansum(np.abs(v))) % len(all_forms)
                all_forms = (all_forms + all_forms)[start:start + 1]
            for form in all_forms:
                if t[0] == 'mask' and form in ('csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr'):
                    continue
                args = statics.arguments(case)
                args[name] = forms.form(form, v)
                same(base, run(args), f'{name} as {form}', 1e-10)
                ctx.interesting()
            if t[0] == 'status' and max(x['v']) == 1.0:
                i = x['v'].index(1.0)
                for value in (i, case['S'][i], np.int64(i)):
                    same(base, run(dict(statics.arguments(case), **{name: value})), f'{name} = {value!r}', 1e-10)
        elif t[0] in ('int', 'seed'):
            for cast in (np.int64, np.uint32, np.uint8):
                if x['v'] <= np.iinfo(cast).max:
                    same(base, run(dict(statics.arguments(case), **{name: cast(x['v'])})), f'{name} as {cast.__name__}')
                    ctx.interesting()
        elif t[0] == 'float':
            same(base, run(dict(statics.arguments(case), **{name: np.float64(x['v'])})), f'{name} as numpy float')
            ctx.interesting()
        elif t[0] == 'seqs' and t[2] and not isinstance(x['v'][0], list):
            pass
        elif t[0] == 'interval':
            same(base, run(dict(statics.arguments(case), **{name: tuple(np.float64(y) for y in x['v'])})), f'{name} of numpy floats')
    for name, default in STATIC_DEFAULTS.items():
        if name in signature and signature[name].default is not inspect.Parameter.empty:
            require(signature[name].default == default, f'{case["cls"]}.{case["op"]}: the default of {name} is not {default!r}')
            args = statics.arguments(case)
            args.pop(name, None)
            without = run(args)
            same(without, run(dict(args, **{name: default})), f'{name} omitted and {name} = {default!r}')
            explicit = None
            n = case['n']
            if name == 'states' and case['op'] not in ('fit_function',) and not isinstance(without, Exception):
                size = len(without.states)
                explicit = [f'{"P" if case["cls"] == "hmm" else ""}{i + 1}' for i in range(size)]
            elif name == 'symbols' and not isinstance(without, Exception):
                explicit = [f'E{i + 1}' for i in range(len(without.symbols))]
            elif name == 'mask' or name == 'p_mask':
                explicit = np.full((n, n), np.nan)
            elif name == 'e_mask':
                explicit = np.full((n, case['k']), np.nan)
            elif name == 'quadrature_interval':
                explicit = (0.0, 1.0)
            elif name == 'initial_status':
                explicit = [1.0 / n] * n
            elif name == 'fitting_param':
                explicit = False if case['args']['fitting_type']['v'] == 'mle' else np.ones((n, n))
            elif name == 'k' and case['args']['approximation_type']['v'] == 'tauchen':
                explicit = 3.0
            if explicit is not None:
                same(without, run(dict(args, **{name: explicit})), f'{name} omitted and {name} = {explicit!r}', 1e-10)
            ctx.interesting()
    args = statics.arguments(case)
    order = [x for x in signature if x != 'kwargs']
    if case['op'] != 'random_distribution':
        filled = {x: args.get(x, signature[x].default) for x in order}
        try:
            r = f(*filled.values())
        except Exception as e:  # noqa
            r = e
        same(base, r, 'by keyword and by position')
    ctx.tag(f'{case["cls"]}.{case["op"]}')


@st.composite
def files(draw):
    c = draw(statics.call(op='from_file', cls=draw(st.sampled_from(['mc', 'hmm']))))
    return c


@R.law(files(), 240, 3000)
def paths(case, ctx):
    """A path given as a string or as a path object."""
    with Scratch() as tmp:
        path = statics.make(case, 'file_path', tmp.path)
        f = statics.target(case)
        require(f(path) == f(pathlib.Path(path)), f'from_file({path}) as a string and as a path object')
        ctx.interesting()
