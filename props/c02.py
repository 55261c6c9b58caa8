"""C02: invalid arguments are rejected with the validation error and change nothing."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import bad, calls, gen, statics
from vlib.core import Registry, require, expect_rejection, expect_validation_error, Violation

R = Registry('C02', 'every public method and static operation with one argument replaced by each of its classes of invalid values (wrong type, out of range, length, duplicated, unknown, not finite) and all the others valid, on chains of 2 to 6 states and hidden models; missing and unknown arguments; boundary values; non-trivial: a corrupted argument which is not the first one')
METHODS = {kind: [op for op in calls.METHODS[kind] if calls.METHODS[kind][op]] for kind in ('mc', 'hmm')}


def folder():
    tmp = tempfile.mkdtemp(prefix='c02-')
    os.mkdir(os.path.join(tmp, 'folder.csv'))
    open(os.path.join(tmp, 'empty.json'), 'w').close()
    return tmp


def contents(tmp):
    return sorted((x, os.path.getsize(os.path.join(tmp, x))) for x in os.listdir(tmp))


@st.composite
def corrupted(draw, kind):
    c = draw(gen.mostly(gen.chain(2, 6, none=False), gen.chain(7, 11, none=False)) if kind == 'mc' else gen.mostly(gen.hmm(2, 4, 2, 4, none=False), gen.hmm(2, 9, 5, 9, none=False)))
    n, k = len(c['p']), len(c['e'][0]) if kind == 'hmm' else None
    op = draw(st.sampled_from([x for x in METHODS[kind] if calls.MINIMUM.get(x, 2) <= n]))
    s = calls.draw_call(draw, kind, n, k, op=op)
    params = calls.parameters(kind, op)
    c['call'] = s
    c['arg'] = draw(st.integers(0, len(params) - 1))
    c['positional'] = draw(st.booleans())
    return c


def check(f, what, unchanged, reject=expect_validation_error):
    """The call is rejected; nothing else happens."""
    state = np.random.get_state()
    reject(f, what)
    after = np.random.get_state()
    require(np.array_equal(state[1], after[1]) and state[2] == after[2], f'{what}: the rejected call used the global generator of random numbers')
    unchanged(what)


def instance(case, ctx, kind):
    tmp = folder()
    try:
        m = gen.build(case) if kind == 'mc' else gen.build_hmm(case)
        before = gen.build(case) if kind == 'mc' else gen.build_hmm(case)
        n, k = len(case['p']), len(case['e'][0]) if kind == 'hmm' else None
        S, Y = list(m.states), list(m.symbols) if kind == 'hmm' else None
        s = case['call']
        params = calls.parameters(kind, s['op'])
        name, t, default = params[case['arg']]
        table = bad.values(t, n, k, S, Y, tmp)
        files = contents(tmp)
        valid = calls.arguments(kind, s, S, Y, tmp)
        given = {x: s['args'][x] for x in s['args'] if x != name}

        def unchanged(what):
            require(m == before, f'{what}: changed the model')
            require(contents(tmp) == files, f'{what}: changed the files')
        for label in sorted(table):
            if table[label] is None and default is None:
                continue
            args = {x: table[label] if x == name else valid[x] for x, _, _ in params if x in valid or x == name}
            what = f'{s["op"]}({name}: {label} {str(table[label])[:80]}; {given})'
            if case['positional'] and list(args) == [x for x, _, _ in params[:len(args)]]:
                check(lambda: getattr(m, s['op'])(*args.values()), what, unchanged)
            else:
                check(lambda: getattr(m, s['op'])(**args), what, unchanged)
        ctx.tag(f'{s["op"]} {name}', t[0])
        ctx.interesting(case['arg'] > 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@R.law(corrupted('mc'), 3200, 40000)
def chain_arguments(case, ctx):
    """A method of a chain with one invalid argument."""
    instance(case, ctx, 'mc')


@R.law(corrupted('hmm'), 1200, 12000)
def hidden_arguments(case, ctx):
    """A method of a hidden model with one invalid argument."""
    instance(case, ctx, 'hmm')


@st.composite
def corrupted_static(draw):
    c = draw(statics.call())
    c['arg'] = draw(st.integers(0, len(c['args']) - 1))
    return c


NONE_ALLOWED = {'states', 'symbols', 'k', 'diagonal_bias_factor', 'quadrature_interval', 'fitting_param', 'mask', 'p_mask', 'e_mask', 'initial_status', 'seed'}


@R.law(corrupted_static(), 3200, 30000)
def static_arguments(case, ctx):
    """A static operation with one invalid argument."""
    tmp = folder()
    try:
        name = sorted(case['args'])[case['arg']]
        t = case['args'][name]['kind']
        n = len(case['args'][name]['v']) if t[0] == 'vector' else case['n']
        S = list(case['S'])
        if t[0] in ('seq', 'seqs', 'status'):
            S = S[:len(case['args']['mc']['v']) if 'mc' in case['args'] else case['n']]
        table = bad.values(t, n, case['k'], S, case['Y'], tmp, static=True)
        if name in ('possible_states', 'possible_symbols'):
            del table['long']  # any number of names is fine
            del table['short']  # may leave out a state of the sequence, or not
            table['none'] = None
        allowed = name in NONE_ALLOWED and not (name == 'symbols' and t[0] == 'seqs')
        valid = statics.arguments(case, tmp)
        files = contents(tmp)
        given = {x: v['v'] for x, v in case['args'].items() if x != name}
        for label in sorted(table):
            if table[label] is None and allowed:
                continue
            args = dict(valid)
            args[name] = table[label]
            what = f'{case["cls"]}.{case["op"]}({name}: {label} {str(table[label])[:80]}; {given})'
            reject = expect_rejection if case['op'] == 'from_dictionary' else expect_validation_error  # the rows are documented to raise a ValueError
            check(lambda: statics.target(case)(**args), what, lambda what: require(contents(tmp) == files, f'{what}: changed the files'), reject)
        ctx.tag(f'{case["op"]} {name}', t[0])
        ctx.interesting(len(case['args']) > 1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def accepted(f, what):
    from pydtmc import ValidationError
    try:
        f()
    except ValidationError as e:
        raise Violation(f'{what}: rejected a valid value: {e}')
    except ValueError:
        pass  # the documented errors of some operations


def rejected(f):
    from pydtmc import ValidationError
    try:
        f()
    except ValidationError:
        return True
    except ValueError:
        pass
    return False


@R.law(st.one_of(corrupted('mc'), corrupted('mc'), corrupted('hmm')), 2400, 30000)
def boundaries(case, ctx):
    """Values at the boundary of the admissible ones are accepted by every method."""
    kind = 'hmm' if 'e' in case else 'mc'
    tmp = folder()
    try:
        m = gen.build(case) if kind == 'mc' else gen.build_hmm(case)
        n, k = len(case['p']), len(case['e'][0]) if kind == 'hmm' else None
        S, Y = list(m.states), list(m.symbols) if kind == 'hmm' else None
        s = case['call']
        name, t, default = calls.parameters(kind, s['op'])[case['arg']]
        if rejected(lambda: getattr(m, s['op'])(**calls.arguments(kind, s, S, Y, tmp))):
            return  # the combination of arguments is not valid
        for label, value in bad.edges(t, n, k, S, Y).items():
            if s['op'] == 'first_passage_reward' and name in ('initial_state', 'first_passage_states'):
                continue
            args = calls.arguments(kind, s, S, Y, tmp)
            args[name] = value
            if s['op'] == 'committor_probabilities' and name.startswith('states'):
                first = [value] if not isinstance(value, list) else value
                first = [x if not isinstance(x, str) else S.index(x) for x in first]
                args['states2' if name == 'states1' else 'states1'] = [x for x in range(n) if x not in first]
            elif s['op'] == 'committor_probabilities' and set(s['args']['states1']['v']) & set(s['args']['states2']['v']) or s['op'] == 'closest_reversible':
                continue
            accepted(lambda: getattr(m, s['op'])(**args), f'{s["op"]}({name}: {label} {value!r}; {({x: s["args"][x] for x in s["args"] if x != name})})')
            ctx.interesting(case['arg'] > 0)
        ctx.tag(t[0])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@R.law(corrupted_static(), 1600, 20000)
def static_boundaries(case, ctx):
    """Values at the boundary of the admissible ones are accepted by every static operation."""
    tmp = folder()
    try:
        name = sorted(case['args'])[case['arg']]
        x = case['args'][name]
        t = x['kind']
        if case['op'] in ('fit', 'random') and t[0] != 'seed' or name in ('size', 'n', 'k', 'diffusion_factor', 'sequence_states', 'sequence_symbols', 's', 'u', 'v', 'model', 'quadrature_type', 'blocks', 'fitting_type', 'approximation_type'):
            return  # the other arguments depend on those
        if rejected(lambda: statics.target(case)(**statics.arguments(case, tmp))):
            return
        used = len(case['args']['mc']['v']) if 'mc' in case['args'] else case['n']
        if t[0] == 'names':
            table = {'given': list((case['S'] if t[2] == 'S' else case['Y'])[:t[1]])}
        else:
            table = bad.edges(t, case['n'], case['k'], case['S'][:used], case['Y'])
        for label, value in table.items():
            args = statics.arguments(case, tmp)
            args[name] = value
            accepted(lambda: statics.target(case)(**args), f'{case["cls"]}.{case["op"]}({name}: {label} {value!r}; {({y: v["v"] for y, v in case["args"].items() if y != name})})')
            ctx.interesting(True)
        ctx.tag(t[0])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
