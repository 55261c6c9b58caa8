"""Writes DESIGN.md: design_head.md, a section per property from the laws themselves and notes.json, design_tail.md with the lists of known_findings.json
and of seeded/. usage: . /opt/vp/env.sh; /opt/venv/bin/python -W ignore tools/mkdesign.py"""
import collections
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.join(ROOT, 'tools')
sys.path.insert(0, ROOT)
import vlib.boot  # noqa: E402
vlib.boot.setup()

notes = json.load(open(os.path.join(HERE, 'notes.json'), encoding='utf-8'))
out = [open(os.path.join(HERE, 'design_head.md'), encoding='utf-8').read().rstrip(), '']
for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    m = importlib.import_module('props.' + p['id'].lower())
    out.append(f"### {p['id']} {p['title']}\n\n{m.R.rule}\n\n| law | what it compares | cases quick / thorough |\n|---|---|---|")
    for law in m.R.laws:
        out.append(f"| `{law.name}` | {' '.join(law.rule.split()).replace('|', '/')} | {law.quick} / {law.thorough} |")
    if p['id'] in notes:
        out.append('\n' + notes[p['id']])
    out.append('')

data = json.load(open(os.path.join(ROOT, 'known_findings.json'), encoding='utf-8'))
by = collections.Counter(x.split('property=')[1].split()[0] for x in data['fixed'])
known = collections.OrderedDict()
for k in data['known']:
    known.setdefault(k['property'], []).append(k['what'])
missed = json.load(open(os.path.join(HERE, 'missed.json'), encoding='utf-8'))
rows = []
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json'), encoding='utf-8'))
    rows.append(f"| `{i}` | {meta['property']} | {meta['needs'].replace('|', '/')} | {missed.get(i, '')} |")
tail = open(os.path.join(HERE, 'design_tail.md'), encoding='utf-8').read()
tail = tail.replace('@FIXED@', str(len(data['fixed']))).replace('@FIXEDBY@', ', '.join(f'{k} {v}' for k, v in sorted(by.items())))
tail = tail.replace('@KNOWN@', '\n'.join(f'* {p}: {w}.' for p, ws in known.items() for w in ws)).replace('@PLANTED@', '\n'.join(rows))
tail = tail.replace('@MUT@', open(os.path.join(HERE, 'mutation.md'), encoding='utf-8').read().strip())
out.append(tail.rstrip())
open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out) + '\n')
