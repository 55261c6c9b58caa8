"""C32: file round trips."""
import json
import os
import re
import pathlib
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import Registry, Violation, same, close, require, expect_rejection, expect_validation_error

R = Registry('C32', 'chains and hidden models of 2 to 8 states in the four formats, plain names and names with separators, quotes, markup, blanks, line ends, control characters and any unicode; probabilities of every magnitude and bit pattern; existing target files, upper case and multiple extensions, path objects; files truncated, with lines removed, repeated, swapped or edited, foreign files; oracle: the written model; non-trivial: names which need quoting in some format, or a damaged file')

FORMATS = ['csv', 'json', 'txt', 'xml']
HARD = ['a,b', 'a"b', '"', '""', "'", ',', ';', '<', '<Item', '</Item>', '" />', '"/>', '?>', '<?xml ?>', '&', '&amp;', '&#10;', '<!--', ']]>', '{}', '[', '\\', '\\n', '\\u0041', '#', '%', 'P_', 'E_', 'P_A', 'E_A', 'P', 'E', '0.5', '1e-5', 'nan', '-', '_', '.',
        'null', 'true', 'probability', 'state_from', 'MarkovChain', 'Item', 'é', 'ß', 'Ω', '日本', '\U0001F600', '\ufeffx', 'a\u0301', '\u200b', 'ÿ', '￼', "d'un", 'a=b', 'a:b', '|', '`', '~', '!', '=1+1', '@', '00', '+1']
BLANK = [' a', 'a ', 'a b', ' ', 'a  b', 'a\tb', '\ta', 'a\n', '\nb', 'a\nb', 'a\r', 'a\r\nb', '\rb', 'a\u00a0b', '\u00a0', 'x\u2028y', 'a\x85b', '\u3000z', 'a\x0bb', 'a\x0cb', 'a\x1cb']
CONTROL = ['a\x00b', '\x01', 'b\x1f', '\x7f', '\uffff', 'a\ufffe', '\ud800', 'x\udfff']


@st.composite
def filenames(draw, n, avoid=()):
    kind = draw(st.sampled_from(['hard', 'hard', 'blank', 'control', 'text', 'mixed']))
    pool = {'hard': HARD, 'blank': HARD[:20] + BLANK, 'control': HARD[:20] + BLANK[:6] + CONTROL, 'mixed': HARD + BLANK, 'text': HARD}[kind]
    out = []
    for _ in range(n):
        s = draw(st.sampled_from(pool)) if kind != 'text' else draw(st.text(st.characters(blacklist_categories=('Cs',)), min_size=1, max_size=4))
        if not s.strip():
            s += 'x'
        while s in out or s in avoid:
            s += '_'
        out.append(s)
    return out


WILD = [5e-324, 1e-308, 2.2250738585072014e-308, 1e-300, 1e-17, 0.1 + 0.2, 1 / 3, 2 / 3, 1e-5, 123456789e-12, float(np.nextafter(1, 0)), float(np.nextafter(0.5, 1))]


@st.composite
def models(draw):
    hidden = draw(st.booleans())
    m = draw(gen.mostly(gen.hmm(2, 6, 2, 6), gen.hmm(2, 14, 7, 14), 15) if hidden else gen.mostly(gen.chain(2, 8), gen.chain(9, 20), 15))
    if draw(st.integers(0, 3)) == 0:  # bit patterns
        for row in m['p'] + (m['e'] if hidden else []):
            w = draw(st.sampled_from(WILD))
            k = max(range(len(row)), key=lambda j: row[j])
            o = draw(st.integers(0, len(row) - 1))
            if o != k:
                row[k], row[o] = row[k] + row[o] - min(w, 0.4), min(w, 0.4)
                if not (0 <= row[k] <= 1 and abs(sum(row) - 1) < 1e-9):
                    row[:] = [1.0 if j == k else 0.0 for j in range(len(row))]
    n = len(m['p'])
    if draw(st.booleans()):
        m['states'] = draw(filenames(n))
        if hidden:
            m['symbols'] = draw(filenames(len(m['e'][0]), m['states']))
    m['hidden'] = hidden
    return m


def representable(fmt, s):
    if any(0xD800 <= ord(c) <= 0xDFFF for c in s):
        return fmt == 'json'
    if fmt == 'txt':
        return s.split() == [s]
    if fmt == 'xml':
        return all(c in '\t\n\r' or (ord(c) >= 32 and ord(c) not in (0xFFFE, 0xFFFF)) for c in s)
    return True


def build(m):
    return gen.build_hmm(m) if m['hidden'] else gen.build(m)


def labels(m):
    return gen.hmm_states(m) + gen.hmm_symbols(m) if m['hidden'] else gen.names(m)


def check_same(a, b, what):
    """Bit for bit."""
    same(a.states, b.states, f'{what}: names of the states')
    if hasattr(b, 'symbols'):
        same(a.symbols, b.symbols, f'{what}: names of the symbols')
        require(np.array_equal(a.e, b.e), lambda: f'{what}: emissions {a.e.tolist()} instead of {b.e.tolist()}')
    require(np.array_equal(a.p, b.p), lambda: f'{what}: probabilities {a.p.tolist()} instead of {b.p.tolist()}')
    same(a == b and type(a) is type(b), True, f'{what}: equality')


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c32-')
        return self.d

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)


NAMES = ['m.{}', 'my model.{}', 'a.b.{}', 'v1.0.{}', 'données.{}', '.x.{}', 'M.csv.{}', 'm.tar.{}']


@R.law(st.fixed_dictionaries({'m': models(), 'fmt': st.sampled_from(FORMATS), 'name': st.sampled_from(NAMES), 'upper': st.booleans(), 'path': st.booleans(), 'old': st.sampled_from(['none', 'none', 'garbage', 'other', 'longer'])}), 2400, 40000)
def roundtrip(case, ctx):
    """Written and read back: equal, bit for bit; the file may have existed; writing again gives the same bytes."""
    m, fmt = case['m'], case['fmt']
    x = build(m)
    what = f'{"hidden " if m["hidden"] else ""}{fmt}, {labels(m)}'
    with Scratch() as d:
        f = os.path.join(d, case['name'].format(fmt.upper() if case['upper'] else fmt))
        if case['old'] == 'garbage':
            with open(f, 'wb') as h:
                h.write(b'\xff\x00garbage\n' * 50)
        elif case['old'] != 'none':
            with open(f, 'wb') as h:
                h.write(b'zz 1.0\n' * (3 if case['old'] == 'other' else 3000))
        g = pathlib.Path(f) if case['path'] else f
        bad = [s for s in labels(m) if not representable(fmt, s)]
        ctx.tag(fmt, 'hidden' if m['hidden'] else 'chain', 'unrepresentable' if bad else 'representable')
        ctx.interesting(any(not s.isalnum() or not s.isascii() for s in labels(m)))
        if bad:
            try:
                x.to_file(g)
                y = type(x).from_file(g)
            except Exception:  # noqa
                return
            check_same(y, x, what + ' (not representable, but read back)')
            return
        same(x.to_file(g), None, 'to_file')
        with open(f, 'rb') as h:
            first = h.read()
        y = type(x).from_file(g)
        check_same(y, x, what)
        with open(f, 'rb') as h:
            same(h.read() == first, True, f'{what}: reading leaves the file as it was')
        y.to_file(f)
        with open(f, 'rb') as h:
            same(h.read() == first, True, f'{what}: written again')
        same(sorted(os.listdir(d)), [os.path.basename(f)], f'{what}: files left')
        # the other kind of model cannot be read from it
        from pydtmc import MarkovChain, HiddenMarkovModel
        other = MarkovChain if m['hidden'] else HiddenMarkovModel
        expect_error(lambda: other.from_file(f), f'{what}: reading a {other.__name__}')


def expect_error(f, what):
    try:
        r = f()
    except Exception:  # noqa
        return
    raise Violation(f'{what}: expected an error, but the call returned {r!r} {r.p.tolist()}')


@st.composite
def damages(draw):
    m = draw(models())
    return {'m': m, 'fmt': draw(st.sampled_from(FORMATS)), 'kind': draw(st.sampled_from(['cut', 'cut', 'drop', 'repeat', 'conflict', 'edit', 'range', 'nan', 'bytes', 'swap', 'append', 'rename'])), 'pos': draw(st.integers(0, 10 ** 6)), 'val': draw(st.integers(0, 10 ** 6))}


def records(case, x):
    """The items of the model in an order, as [key..., probability]."""
    return [list(k) + [v] for k, v in x.to_dictionary().items()]


def write_records(fmt, hidden, recs, f, text=str):
    """An independent writer of the item formats, following the documentation."""
    from xml.sax.saxutils import quoteattr
    keys = ['reference', 'element_from', 'element_to', 'probability'] if hidden else ['state_from', 'state_to', 'probability']
    root = 'HiddenMarkovModel' if hidden else 'MarkovChain'
    with open(f, 'w', encoding='utf-8', newline='') as h:
        if fmt == 'json':
            json.dump([dict(zip(keys, r)) for r in recs], h)
        elif fmt == 'txt':
            for r in recs:
                h.write(' '.join([*r[:-1], repr(r[-1])]) + '\n')
        else:
            h.write(f'<?xml version="1.0" encoding="utf-8"?>\n<{root}>\n')
            for r in recs:
                h.write('  <Item ' + ' '.join(f'{k}={quoteattr(str(v), {chr(10): "&#10;", chr(13): "&#13;", chr(9): "&#9;"})}' for k, v in zip(keys, r)) + '/>\n')
            h.write(f'</{root}>\n')


def plain(m):
    """Names without blanks and separators, so that a line is a record."""
    n = len(m['p'])
    m = dict(m, states=[f's{(i * 7) % 23}' for i in range(n)])
    if m['hidden']:
        m['symbols'] = [f'y{(i * 5) % 23}' for i in range(len(m['e'][0]))]
    return m


@R.law(damages(), 4000, 60000)
def damaged(case, ctx):
    """A damaged file is rejected, unless what is left still says the same: then the very same model (up to the digits which were cut) is read."""
    m, fmt, kind, pos, val = plain(case['m']), case['fmt'], case['kind'], case['pos'], case['val']
    x = build(m)
    what = f'{"hidden " if m["hidden"] else ""}{fmt} damaged by {kind} {pos} {val}'
    ctx.interesting(True)
    ctx.tag(f'{fmt}: {kind}')
    with Scratch() as d:
        f = os.path.join(d, f'm.{fmt}')
        x.to_file(f)
        with open(f, 'rb') as h:
            data = h.read()
        must, tol = False, 1e-4 if kind == 'drop' else 0.0  # a missing probability which is negligible in its row
        if kind == 'cut':
            k = pos % len(data)
            if re.search(rb'[0-9.]$', data[:k]) and re.match(rb'[0-9.]*e', data[k:]):
                return  # without its exponent a number is still a number
            data, tol = data[:k], 1e-4
        elif kind in ('drop', 'repeat', 'swap', 'append', 'bytes') and fmt != 'json':
            lines = data.splitlines(keepends=True)
            k = pos % len(lines)
            if kind == 'drop':
                must = fmt == 'csv'
                lines = lines[:k] + lines[k + 1:]
            elif kind == 'repeat':
                must = True
                lines = lines[:k] + [lines[k]] + lines[k:]
            elif kind == 'append':
                must = fmt != 'xml'
                lines = lines + [b'zz\n']
            elif kind == 'swap':
                if fmt == 'csv':
                    return
                q = val % len(lines)
                lines[k], lines[q] = lines[q], lines[k]
            else:
                lines[k] = lines[k][:-1] + b'\xff\xfe\x00' + lines[k][-1:]
                must = True
            data = b''.join(lines)
        elif fmt == 'csv':  # one number replaced
            rows = [r.split(b',') for r in data.split(b'\r\n') if r]
            i, j = 1 + pos % (len(rows) - 1), val % len(rows[0])
            old = float(rows[i][j])
            new = {'range': [-0.5, 1.5, -1e-3, 2.0][val % 4], 'nan': [float('nan'), float('inf'), -float('inf')][val % 3]}.get(kind, (old + 0.25) % 1.0)
            rows[i][j] = repr(new).encode()
            if kind == 'range':
                rows[i][(j + 1) % len(m['p'])] = repr(1.0 - new - sum(float(v) for q, v in enumerate(rows[i][:len(m['p'])]) if q not in (j, (j + 1) % len(m['p'])))).encode()
            if kind == 'rename':
                rows[0][j] = rows[0][(j + 1) % len(rows[0])]
            must = True
            data = b'\r\n'.join(b','.join(r) for r in rows) + b'\r\n'
        else:
            recs = records(case, x)
            k = pos % len(recs)
            r = recs[k]
            if kind in ('drop', 'bytes', 'append'):
                must = kind != 'drop'
                if kind == 'drop':
                    recs = recs[:k] + recs[k + 1:]
                elif kind == 'append':
                    recs = recs + [['zz'] * len(r[:-1]) + [0.5]]
                else:
                    recs[k] = recs[k][:-2] + recs[k][-1:]
            elif kind == 'repeat':
                must = True
                recs = recs[:k] + [r] + recs[k:]
            elif kind == 'conflict':
                must = True
                recs = recs + [r[:-1] + [0.5 if r[-1] != 0.5 else 0.25]]
            elif kind == 'swap':
                q = val % len(recs)
                recs[k], recs[q] = recs[q], recs[k]
            elif kind == 'edit':
                must = True
                recs[k] = r[:-1] + [(r[-1] + 0.25) % 1.0 if r[-1] < 1.0 else 0.25]
            elif kind == 'nan':
                must = True
                recs[k] = r[:-1] + [[float('nan'), float('inf'), -float('inf')][val % 3]]
            elif kind == 'rename':
                must = True
                recs[k] = r[:-2] + ['unknown', r[-1]] if val % 2 else r[:-3] + ['unknown'] + r[-2:]
            else:  # out of range, but the rows still sum to one
                must = True
                row = [q for q, s in enumerate(recs) if s[:-2] == r[:-2]]
                new = [-0.5, 1.5, -1e-3, 2.0][val % 4]
                other = row[(row.index(k) + 1) % len(row)]
                rest = sum(recs[q][-1] for q in row if q not in (k, other))
                recs[k] = r[:-1] + [new]
                recs[other] = recs[other][:-1] + [1.0 - new - rest]
            write_records(fmt, m['hidden'], recs, f)
            with open(f, 'rb') as h:
                data = h.read()
        with open(f, 'wb') as h:
            h.write(data)
        try:
            y = type(x).from_file(f)
        except Exception:  # noqa
            ctx.tag('rejected')
            return
        require(not must, lambda: f'{what}: accepted as {y.p.tolist()} {y.states}: {data[:2000]!r}')
        ctx.tag('harmless')
        # what is left defines the same law, perhaps in another order
        L = labels(m)
        got = sorted(y.states + (y.symbols if m['hidden'] else []))
        same(got, sorted(L), f'{what}: names read from {data[:2000]!r}')
        perm = [y.states.index(s) for s in x.states]
        close(y.p[np.ix_(perm, perm)], x.p, f'{what}: read from {data[:2000]!r}', rtol=tol, atol=tol)
        if m['hidden']:
            cols = [y.symbols.index(s) for s in x.symbols]
            close(y.e[np.ix_(perm, cols)], x.e, f'{what}: read from {data[:2000]!r}', rtol=tol, atol=tol)


@R.law(st.tuples(models(), st.sampled_from(['json', 'txt', 'xml']), st.integers(0, 10 ** 6)).map(lambda t: {'m': t[0], 'fmt': t[1], 'seed': t[2]}), 800, 12000)
def documented(case, ctx):
    """Files written by another program, following the documented format, in any order of the items."""
    import random
    m, fmt = case['m'], case['fmt']
    if any(not representable(fmt, s) for s in labels(m)) or any(0xD800 <= ord(c) <= 0xDFFF for s in labels(m) for c in s):
        return
    x = build(m)
    recs = records(case, x)
    rng = random.Random(case['seed'])
    if case['seed'] % 3:
        rng.shuffle(recs)
    with Scratch() as d:
        f = os.path.join(d, f'm.{fmt}')
        write_records(fmt, m['hidden'], recs, f)
        y = type(x).from_file(f)
    what = f'{fmt} of another program, {labels(m)}'
    same(sorted(y.states), sorted(x.states), what)
    perm = [y.states.index(s) for s in x.states]
    same(np.array_equal(y.p[np.ix_(perm, perm)], x.p), True, what)
    if m['hidden']:
        same(sorted(y.symbols), sorted(x.symbols), what)
        same(np.array_equal(y.e[np.ix_(perm, [y.symbols.index(s) for s in x.symbols])], x.e), True, f'{what}: emissions')
    ctx.interesting(m['states'] is not None)
    ctx.tag(fmt)


CSV_KINDS = ['wider', 'narrower', 'blank field', 'text field', 'header twice', 'header short', 'header prefix', 'header blank', 'row more', 'row less', 'no header', 'blank line']
ITEM_KINDS = ['key more', 'key less', 'key other', 'blank name', 'blank key', 'type', 'reference', 'row missing', 'kinds mixed', 'nested', 'root', 'tag', 'wrapped', 'text probability']


@st.composite
def structures(draw):
    m = draw(models())
    fmt = draw(st.sampled_from(FORMATS))
    return {'m': m, 'fmt': fmt, 'kind': draw(st.sampled_from(CSV_KINDS if fmt == 'csv' else ITEM_KINDS)), 'pos': draw(st.integers(0, 10 ** 6)), 'val': draw(st.integers(0, 10 ** 6))}


def csv_structure(x, m, kind, pos, val):
    """The lines of the table, with the damage."""
    L = [f'P_{s}' for s in x.states] + [f'E_{s}' for s in x.symbols] if m['hidden'] else list(x.states)
    rows = [list(map(repr, list(map(float, x.p[i])) + (list(map(float, x.e[i])) if m['hidden'] else []))) for i in range(len(x.states))]
    i, j = pos % len(rows), val % len(L)
    if kind == 'wider':
        rows[i].append('0.0')
    elif kind == 'narrower':
        z = [(r, c) for r, row in enumerate(rows) for c in [len(row) - 1] if float(row[c]) == 0.0]
        if z:
            i = z[pos % len(z)][0]
        rows[i].pop()
    elif kind == 'blank field':
        rows[i][j] = ['', ' '][val % 2]
    elif kind == 'text field':
        rows[i][j] = ['x', '0,5', '1e', '0x1', '50%', '1/2', 'None'][val % 7]
    elif kind == 'header twice':
        same_kind = [q for q in range(len(L)) if q != j and (not m['hidden'] or L[q][:2] == L[j][:2])]
        if not same_kind:
            return None
        L[j] = L[same_kind[pos % len(same_kind)]]
    elif kind == 'header short':
        L[j] = 'P_' if m['hidden'] else ''
    elif kind == 'header prefix':
        if not m['hidden']:
            return None
        L[j] = ['X_a', 'a', 'p_a', 'PP_a', '_P_a'][val % 5]
    elif kind == 'header blank':
        L[j] = '   '
    elif kind == 'row more':
        rows.append(rows[i])
    elif kind == 'row less':
        rows.pop(i)
    elif kind == 'no header':
        return rows
    elif kind == 'blank line':
        rows.insert(i, [])
    return [L] + rows


@R.law(structures(), 4000, 60000)
def structure(case, ctx):
    """A file whose structure is not the documented one is rejected, whatever its numbers: fields added, removed, renamed or blank, wrong types, wrong elements."""
    import csv as csv_
    from xml.sax.saxutils import quoteattr
    m, fmt, kind, pos, val = plain(case['m']), case['fmt'], case['kind'], case['pos'], case['val']
    x = build(m)
    ctx.interesting(True)
    ctx.tag(f'{fmt}: {kind}')
    what = f'{"hidden " if m["hidden"] else ""}{fmt} with {kind}, {pos} {val}'
    with Scratch() as d:
        f = os.path.join(d, f'm.{fmt}')
        if fmt == 'csv':
            rows = csv_structure(x, m, kind, pos, val)
            if rows is None:
                return
            with open(f, 'w', encoding='utf-8', newline='') as h:
                csv_.writer(h).writerows(rows)
        else:
            keys = ['reference', 'element_from', 'element_to', 'probability'] if m['hidden'] else ['state_from', 'state_to', 'probability']
            root = 'HiddenMarkovModel' if m['hidden'] else 'MarkovChain'
            recs = [dict(zip(keys, r)) for r in records(case, x)]
            r = recs[pos % len(recs)]
            tag, wrap, inner = 'Item', None, None
            if kind == 'key more':
                r['comment'] = 'x'
            elif kind == 'key less':
                k = keys[val % len(keys)]
                del r[k]
            elif kind == 'key other':
                k = keys[val % len(keys)]
                for q in recs if pos % 2 else [r]:
                    q[k.upper()] = q.pop(k)
            elif kind == 'blank name':
                k = keys[val % (len(keys) - 1)]
                names_ = r[k]
                for q in recs:
                    for kk in keys[:-1]:
                        if q[kk] == names_:
                            q[kk] = ''
            elif kind == 'blank key':
                r[''] = 'x'
            elif kind == 'type':
                if fmt != 'json':
                    return
                k = keys[val % len(keys)]
                r[k] = [[r[k]], None, {}, str(r[k]) if k == 'probability' else 3, [], 2.5 if k != 'probability' else 'one'][pos % 6]
            elif kind == 'reference':
                if not m['hidden']:
                    return
                r['reference'] = ['X', 'p', 'e', 'PE', ''][val % 5]
            elif kind == 'row missing':
                who = r[keys[-3]]
                recs = [q for q in recs if q[keys[-3]] != who]
            elif kind == 'kinds mixed':
                recs[pos % len(recs)] = {'state_from': 'a', 'state_to': 'b', 'probability': 0.5} if m['hidden'] else {'reference': 'P', 'element_from': 'a', 'element_to': 'b', 'probability': 0.5}
            elif kind == 'root':
                root = ['Model', root.lower(), 'MarkovChains', 'MarkovChain' if m['hidden'] else 'HiddenMarkovModel'][val % 4]
            elif kind == 'tag':
                tag = ['item', 'Items', 'Element', 'MarkovChain'][val % 4]
                if tag == root:
                    return
            elif kind == 'wrapped':
                wrap = 'Items'
            elif kind == 'nested':
                inner = '<Note/>' if val % 2 else '<Note>text</Note>'
            elif kind == 'text probability':
                r['probability'] = ['one', '', '0,5', '50%', 'None', '1/2'][val % 6]
            if fmt == 'json':
                if kind in ('root', 'tag', 'wrapped', 'nested'):
                    recs = {'root': {root: recs}, 'tag': [{tag: q} for q in recs], 'wrapped': [recs], 'nested': recs[:1] + [[recs[0]]] + recs[1:]}[kind]
                with open(f, 'w', encoding='utf-8') as h:
                    json.dump(recs, h)
            elif fmt == 'txt':
                if kind in ('key other', 'root', 'tag', 'wrapped', 'nested', 'blank key'):
                    return
                with open(f, 'w', encoding='utf-8', newline='') as h:
                    for q in recs:
                        h.write(' '.join(repr(v) if isinstance(v, float) else str(v) for v in q.values()) + '\n')
            else:
                if kind == 'blank key':
                    return
                items = ''.join(f'<{tag if q is r or pos % 2 else "Item"} ' + ' '.join(f'{k}={quoteattr(str(v))}' for k, v in q.items()) + (f'>{inner}</{tag if q is r or pos % 2 else "Item"}>' if inner and q is r else '/>') for q in recs)
                with open(f, 'w', encoding='utf-8') as h:
                    h.write(f'<{root}>' + (f'<{wrap}>{items}</{wrap}>' if wrap else items) + f'</{root}>')
        with open(f, 'rb') as h:
            data = h.read()
        expect_error(lambda: type(x).from_file(f), f'{what}: {data[:2000]!r}')


FOREIGN = ['', ' ', '\n', '{}', '[]', '[1]', '[[1, 0], [0, 1]]', 'null', '[{"state_from": "A"}]', '[{"state_from": "A", "state_to": "A", "probability": "1"}]', '[{"state_from": "A", "state_to": "A", "probability": true, "x": 1}]',
           '<a/>', '<MarkovChain/>', '<HiddenMarkovModel/>', '<MarkovChain><X/></MarkovChain>', '<MarkovChain><Item/></MarkovChain>', '<MarkovChain><Item a="1"/></MarkovChain>', 'A,B\n', 'A,B\n1,0\n', 'A,A\n1,0\n0,1\n', 'A,B\n1,0\n0,x\n', 'A,B\n1,0\n0\n', 'A,B\n1,0\n0,1,0\n',
           '1,0\n0,1\n', 'A,B\n0.5,0.4\n0.5,0.5\n', 'A A 1.0\n', 'A A 1.0\nB B 0.5\n', 'A A 1.0 0\nB B 1.0 0\n', 'A A one\nB B 1\n', 'P_A,E_B\n1,1\n', 'P A A 1.0\nE A x 1.0\n', 'X A A 1\n', 'A\n1\n', '[{"state_from": "", "state_to": "A", "probability": 1}]', '\x00' * 20, 'A,\n1,0\n0,1\n']


@R.law(st.fixed_dictionaries({'text': st.one_of(st.sampled_from(FOREIGN), st.text(max_size=60)), 'fmt': st.sampled_from(FORMATS), 'ext': st.sampled_from(['dat', 'cs', 'jsonx', '', 'csv.bak', 'yaml'])}), 1600, 20000)
def foreign(case, ctx):
    """Files which are not of a model, missing or empty files, unsupported extensions, wrong arguments."""
    from pydtmc import MarkovChain, HiddenMarkovModel
    with Scratch() as d:
        f = os.path.join(d, f'm.{case["fmt"]}')
        with open(f, 'w', encoding='utf-8', errors='replace', newline='') as h:
            h.write(case['text'])
        ctx.interesting(case['text'] != '')
        for c in (MarkovChain, HiddenMarkovModel):
            if case['text'] == '':
                expect_validation_error(lambda: c.from_file(f), f'{c.__name__}: empty file')
            expect_error(lambda: c.from_file(f), f'{c.__name__}: {case["fmt"]} file with the text {case["text"]!r}')
            expect_validation_error(lambda: c.from_file(f + 'x'), f'{c.__name__}: wrong extension')
            expect_validation_error(lambda: c.from_file(os.path.join(d, 'missing.' + case['fmt'])), f'{c.__name__}: missing file')
            expect_validation_error(lambda: c.from_file(d), f'{c.__name__}: folder')
            for bad in (None, 1, b'm.csv', ['m.csv'], '', ' '):
                expect_validation_error(lambda: c.from_file(bad), f'{c.__name__}: reading the path {bad!r}')
        models_ = (MarkovChain([[0.5, 0.5], [0.25, 0.75]]), HiddenMarkovModel([[0.5, 0.5], [0.25, 0.75]], [[0.5, 0.5], [0.25, 0.75]]))
        for x in models_:
            g = os.path.join(d, 'keep' + ('.' + case['ext'] if case['ext'] else ''))
            with open(g, 'w') as h:
                h.write('precious')
            expect_validation_error(lambda: x.to_file(g), f'writing to the extension {case["ext"]!r}')
            with open(g) as h:
                same(h.read(), 'precious', 'a rejected path is not written')
            for bad in (None, 1, b'm.csv', '', ' ', os.path.join(d, 'no', 'm.csv')):
                expect_validation_error(lambda: x.to_file(bad), f'writing to the path {bad!r}')


CHILD = '''
import sys, json, os, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
d = sys.argv[2]
from pydtmc import MarkovChain, HiddenMarkovModel
out = []
for i, (fmt, m) in enumerate(json.loads(sys.stdin.buffer.read().decode('ascii'))):
    x = HiddenMarkovModel(m['p'], m['e'], m['states'], m['symbols']) if m['hidden'] else MarkovChain(m['p'], m['states'])
    try:
        x.to_file(os.path.join(d, f'child{i}.{fmt}'))
        y = type(x).from_file(os.path.join(d, f'parent{i}.{fmt}'))
        out.append(y == x)
    except Exception as e:
        out.append(repr(e))
sys.stdout.buffer.write(json.dumps(out).encode('ascii'))
'''


@R.law(st.lists(st.tuples(st.sampled_from(FORMATS), models()), min_size=10, max_size=30), 32, 320)
def locale(case, ctx):
    """The files do not depend on the locale: an interpreter whose locale is ASCII writes the same bytes, and reads what this one (UTF-8) writes."""
    import subprocess
    import sys
    from vlib import boot
    ms = [(f, m) for f, m in case if all(representable(f, s) and not any(0xD800 <= ord(c) <= 0xDFFF for c in s) for s in labels(m))]
    ctx.interesting(any(not s.isascii() for _, m in ms for s in labels(m)))
    with Scratch() as d:
        for i, (f, m) in enumerate(ms):
            build(m).to_file(os.path.join(d, f'parent{i}.{f}'))
        env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG'))}
        env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LC_ALL='C')
        r = subprocess.run([sys.executable, '-c', CHILD, boot.REPO, d], input=json.dumps(ms).encode('ascii'), capture_output=True, env=env)
        if r.returncode:
            raise Violation('another locale: ' + r.stderr.decode('utf-8', 'replace')[-1000:])
        for i, ((f, m), o) in enumerate(zip(ms, json.loads(r.stdout))):
            same(o, True, f'{f} file of {labels(m)} in a process whose locale is ASCII')
            a, b = (open(os.path.join(d, f'{who}{i}.{f}'), 'rb').read() for who in ('child', 'parent'))
            require(a == b, f'{f} file of {labels(m)}: {a[:300]!r} in a process whose locale is ASCII, {b[:300]!r} otherwise')
