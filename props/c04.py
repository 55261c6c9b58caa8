"""C04: models are immutable values."""
import copy
import os
import pickle
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import calls, forms, gen, statics
from vlib.core import Registry, require

R = Registry('C04', 'histories of 3 to 14 calls of any public operation and property (with repetitions) on a chain of 2 to 7 states or a hidden model, and on the models derived from it, with every result or argument overwritten in place or kept at random; oracle: the same call on a newly built equal model; non-trivial: an operation called again after another one')

HEAVY = ('closest_reversible',)


def fresh(m, kind):
    from pydtmc import MarkovChain, HiddenMarkovModel
    if kind == 'mc':
        return MarkovChain(np.array(m['p']), list(m['names']))
    return HiddenMarkovModel(np.array(m['p']), np.array(m['e']), list(m['names']), list(m['symbols']))


def describe(model, kind):
    d = {'p': np.array(model.p), 'names': list(model.states)}
    if kind == 'hmm':
        d.update({'e': np.array(model.e), 'symbols': list(model.symbols)})
    return d


@st.composite
def histories(draw, kind):
    c = draw(gen.mostly(gen.chain(2, 6, none=False), gen.chain(7, 11, none=False)) if kind == 'mc' else gen.mostly(gen.hmm(2, 4, 2, 4, none=False), gen.hmm(2, 9, 5, 9, none=False)))
    n = len(c['p'])
    k = len(c['e'][0]) if kind == 'hmm' else None
    ops = calls.operations(kind, n, k)
    few = draw(st.lists(st.sampled_from(ops), min_size=1, max_size=5))
    c['steps'] = []
    for _ in range(draw(st.integers(3, 14))):
        op = draw(st.sampled_from(few)) if draw(st.integers(0, 2)) else draw(st.sampled_from(ops))
        if op in HEAVY and draw(st.integers(0, 4)):
            op = 'p'
        s = calls.draw_call(draw, kind, n, k, op=op)
        s['spoil'] = draw(st.sampled_from(['result', 'result', 'arguments', 'both', 'none']))
        s['on'] = draw(st.integers(0, 5))
        c['steps'].append(s)
    return c


def call(model, kind, s, names, symbols, tmp):
    os.makedirs(tmp, exist_ok=True)
    args = calls.arguments(kind, s, names, symbols, tmp)
    before = {a: forms.value(x) if isinstance(x, np.ndarray) or hasattr(x, 'iloc') or hasattr(x, 'todense') else calls.view(x) for a, x in args.items()}
    state = np.random.get_state()[1].copy(), np.random.get_state()[2]
    err = np.geterr()
    out = calls.perform(model, kind, s['op'], args)
    what = f'{s["op"]}({ {a: s["args"][a] for a in args} })'
    for a, x in args.items():
        if isinstance(before[a], tuple):
            require(forms.unchanged(before[a], forms.value(x)), f'{what}: changed its argument {a}')
        else:
            require(calls.difference(before[a], calls.view(x), 0.0) is None, f'{what}: changed its argument {a}')
    if s['op'] not in ('simulate', 'next') or 'seed' in s['args']:
        require(np.array_equal(np.random.get_state()[1], state[0]) and np.random.get_state()[2] == state[1], f'{what}: changed the state of the global generator of random numbers')
    require(np.geterr() == err, f'{what}: changed the handling of floating point errors')
    return args, out, what


def run(case, ctx, kind):
    tmp = tempfile.mkdtemp(prefix='c04-')
    try:
        base = describe(gen.build(case) if kind == 'mc' else gen.build_hmm(case), kind)
        models = [(fresh(base, kind), base, 'the model')]
        kept, done, again = [], [], False
        for t, s in enumerate(case['steps']):
            n, k = len(case['p']), len(case['e'][0]) if kind == 'hmm' else None
            fit = [m for m in models if len(m[1]['names']) == n and (k is None or len(m[1]['symbols']) == k)]
            model, desc, origin = fit[0] if s['on'] < 4 else fit[s['on'] % len(fit)]
            S, Y = desc['names'], desc.get('symbols')
            args, out, what = call(model, kind, s, S, Y, os.path.join(tmp, 'a'))
            _, expected, _ = call(fresh(desc, kind), kind, s, S, Y, os.path.join(tmp, 'b'))
            a, b = calls.view(out), calls.view(expected)
            d = calls.difference(a, b)
            require(d is None, lambda: f'{what} on {origin} after {done}: differs from the same call on a new model {d} ({desc})')
            again = again or any(s['op'] == x['op'] for x in case['steps'][:t - 1])
            done.append(what if len(what) < 200 else s['op'])
            if type(out) is type(model):
                models.append((out, describe(out, kind), f'the result of {what} on {origin}'))
            if s['spoil'] in ('arguments', 'both'):
                for x in args.values():
                    calls.spoil(x)
            if s['spoil'] in ('result', 'both'):
                calls.spoil(out)
                done.append('overwriting the result')
            elif not isinstance(out, Exception):
                kept.append((out, a, what))
        for out, a, what in kept:
            d = calls.difference(a, calls.view(out), 0.0)
            require(d is None, f'the result of {what} was changed by later calls: {d}')
        for model, desc, origin in models:
            new = fresh(desc, kind)
            d = calls.difference(calls.view(new), calls.view(model), 0.0)
            require(d is None, f'{origin} was changed by {done}: {d}')
            require(model == new and hash(model) == hash(new), f'{origin} is no more equal to itself after {done}')
        ctx.interesting(again or len(models) > 1)
        ctx.tag('derived models' if len(models) > 1 else 'one model')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@R.law(histories('mc'), 1600, 30000)
def chain_histories(case, ctx):
    """Every call on a used chain gives what it gives on a new one; nothing handed in or out is shared."""
    run(case, ctx, 'mc')


@R.law(histories('hmm'), 1200, 16000)
def hidden_histories(case, ctx):
    """Every call on a used hidden model gives what it gives on a new one; nothing handed in or out is shared."""
    run(case, ctx, 'hmm')


@st.composite
def twice(draw):
    """Every operation after every other one, on one chain."""
    c = draw(gen.chain(3, 5, none=False))
    n = len(c['p'])
    ops = [x for x in calls.operations('mc', n) if x not in HEAVY]
    first = draw(st.sampled_from(ops))
    c['first'] = calls.draw_call(draw, 'mc', n, None, op=first)
    c['rest'] = [calls.draw_call(draw, 'mc', n, None, op=x) for x in draw(st.permutations(ops))[:14]]
    return c


@R.law(twice(), 480, 8000)
def pairs(case, ctx):
    """One operation, its result overwritten, then a dozen others and the first one again."""
    tmp = tempfile.mkdtemp(prefix='c04-')
    try:
        desc = describe(gen.build(case), 'mc')
        model = fresh(desc, 'mc')
        _, out, _ = call(model, 'mc', case['first'], desc['names'], None, os.path.join(tmp, 'a'))
        calls.spoil(out)
        for s in case['rest'] + [case['first']]:
            _, out, what = call(model, 'mc', s, desc['names'], None, os.path.join(tmp, 'a'))
            _, expected, _ = call(fresh(desc, 'mc'), 'mc', s, desc['names'], None, os.path.join(tmp, 'b'))
            d = calls.difference(calls.view(out), calls.view(expected))
            require(d is None, f'{what} after {case["first"]}: {d} ({desc})')
        ctx.interesting(True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def copied(draw):
    kind = draw(st.sampled_from(['mc', 'mc', 'hmm']))
    c = draw(gen.mostly(gen.chain(2, 5), gen.chain(6, 14)) if kind == 'mc' else gen.mostly(gen.hmm(2, 4, 2, 4), gen.hmm(2, 9, 5, 9)))
    n, k = len(c['p']), len(c['e'][0]) if kind == 'hmm' else None
    c['before'] = [calls.draw_call(draw, kind, n, k, exclude=HEAVY) for _ in range(draw(st.integers(0, 4)))]
    c['after'] = [calls.draw_call(draw, kind, n, k, exclude=HEAVY) for _ in range(draw(st.integers(1, 4)))]
    c['how'] = draw(st.sampled_from(['copy', 'deepcopy', 'pickle']))
    c['model'] = kind
    return c


@R.law(copied(), 800, 10000)
def copies(case, ctx):
    """A used model which is copied or pickled behaves as a new one."""
    kind = case['model']
    tmp = tempfile.mkdtemp(prefix='c04-')
    try:
        model = gen.build(case) if kind == 'mc' else gen.build_hmm(case)
        desc = describe(model, kind)
        S, Y = desc['names'], desc.get('symbols')
        for s in case['before']:
            call(model, kind, s, S, Y, os.path.join(tmp, 'a'))
        other = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda m: pickle.loads(pickle.dumps(m))}[case['how']](model)
        for s in case['after']:
            _, out, what = call(other, kind, s, S, Y, os.path.join(tmp, 'a'))
            _, expected, _ = call(fresh(desc, kind), kind, s, S, Y, os.path.join(tmp, 'b'))
            d = calls.difference(calls.view(out), calls.view(expected))
            require(d is None, f'{what} on the {case["how"]} of a model used by {case["before"]}: {d} ({desc})')
            calls.spoil(out)
        require(model == fresh(desc, kind) and other == model, f'{case["how"]}: not equal any more')
        ctx.interesting(bool(case['before']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def snapshot(x):
    if isinstance(x, np.ndarray) or hasattr(x, 'iloc') or hasattr(x, 'todense'):
        return forms.value(x)
    return None if callable(x) else calls.view(x)


@R.law(statics.call(), 2400, 30000)
def static_calls(case, ctx):
    """Static operations leave their arguments as they are and share nothing with their results; repetitions agree."""
    tmp = tempfile.mkdtemp(prefix='c04-')
    try:
        what = f'{case["cls"]}.{case["op"]}'
        args = statics.arguments(case, tmp)
        before = {a: snapshot(x) for a, x in args.items()}
        state, err = np.random.get_state(), np.geterr()
        out = statics.perform(case, args)
        first = calls.view(out)
        for a, x in args.items():
            now = snapshot(x)
            ok = forms.unchanged(before[a], now) if isinstance(now, tuple) else now is None or calls.difference(before[a], now, 0.0) is None
            require(ok, f'{what}: changed its argument {a}: {before[a]} to {now}')
        after = np.random.get_state()
        require(np.array_equal(state[1], after[1]) and state[2] == after[2], f'{what}: changed the state of the global generator of random numbers')
        require(np.geterr() == err, f'{what}: changed the handling of floating point errors')
        again = calls.view(statics.perform(case, args))
        d = calls.difference(first, again, 0.0)
        require(d is None, f'{what}: the second call with the same arguments differs: {d}')
        for a, x in args.items():
            if not callable(x) and case['args'].get(a, {}).get('kind', [''])[0] not in ('file', 'chain'):
                calls.spoil(x)
        d = calls.difference(first, calls.view(out), 0.0)
        require(d is None, f'{what}: overwriting the arguments changed the result: {d}')
        calls.spoil(out)
        d = calls.difference(first, calls.view(statics.perform(case, statics.arguments(case, tmp))), 0.0)
        require(d is None, f'{what}: overwriting the result changed the next one: {d}')
        ctx.tag(what)
        ctx.interesting(first.tag != 'exception')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def members(cls):
    return sorted(a for a in dir(cls) if not a.startswith('_') and isinstance(getattr(cls, a), property))


@st.composite
def settings(draw):
    kind = draw(st.sampled_from(['mc', 'mc', 'hmm']))
    c = draw(gen.chain(2, 5, none=False) if kind == 'mc' else gen.hmm(2, 3, 2, 4, none=False))
    c.update(model=kind, read=draw(st.booleans()), pick=draw(st.lists(st.integers(0, 200), min_size=1, max_size=8)))
    return c


@R.law(settings(), 480, 6000)
def readonly(case, ctx):
    """No property can be set or deleted, before or after it was read, and the attempt changes nothing; the aliases of a property agree with it."""
    kind = case['model']
    model = gen.build(case) if kind == 'mc' else gen.build_hmm(case)
    desc = describe(model, kind)
    names = members(type(model))
    if case['read']:
        for a in names:
            try:
                getattr(model, a)
            except Exception:  # noqa
                pass
    for i in case['pick']:
        a = names[i % len(names)]
        for what, f in (('set', lambda: setattr(model, a, 0)), ('deleted', lambda: delattr(model, a))):
            try:
                f()
            except AttributeError:
                continue
            except Exception as ex:  # noqa
                require(False, f'{a} {what}: {ex!r} instead of an AttributeError')
            require(False, f'{a} can be {what}')
    new = fresh(desc, kind)
    d = calls.difference(calls.view(new), calls.view(model), 0.0)
    require(d is None, f'the model was changed by the attempts: {d}')
    for a in names:
        try:
            v = getattr(new, a)
        except Exception as ex:  # noqa
            v = ex
        try:
            w = getattr(model, a)
        except Exception as ex:  # noqa
            w = ex
        d = calls.difference(calls.view(v), calls.view(w), 0.0)
        require(d is None, f'{a} was changed by the attempts: {d}')
    ctx.interesting(True)
    ctx.tag(kind, 'read before' if case['read'] else 'new')
