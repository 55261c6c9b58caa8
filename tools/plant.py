"""Confirms planted bugs and runs checks against them, in scratch copies of /repo.

plant.py make SPEC.json      write seeded/<id>/ from a specification: {"id", "property", "edits": [[file, old, new]], "demo": python source, "needs", "what_it_breaks"}
plant.py confirm ID...       patch applies, the stable tests pass with it, the demo passes without it and fails with it
plant.py check ID [PID...]   runs the check of its property (or the given ones) on a patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
ENV = '. /opt/vp/env.sh; '


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def make(spec):
    with open(spec, encoding='utf-8') as f:
        specs = json.load(f)
    for s in specs if isinstance(specs, list) else [specs]:
        d = copy()
        try:
            for name, old, new in s['edits']:
                path = os.path.join(d, name)
                text = open(path, encoding='utf-8', newline='').read()
                crlf = '\r\n' in text
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert text.count(old) == 1, (s['id'], name, text.count(old))
                with open(path, 'w', encoding='utf-8', newline='') as f:
                    f.write(text.replace(old, new))
            patch = subprocess.check_output(['git', '-C', d, 'diff', '--', *sorted({e[0] for e in s['edits']})])
        finally:
            shutil.rmtree(d)
        out = os.path.join(SEEDED, s['id'])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(patch)
        with open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8') as f:
            f.write(s['demo'].strip() + '\n')
        with open(os.path.join(out, 'demo.sh'), 'w', encoding='utf-8') as f:
            f.write('#!/bin/bash\n# cwd: the repository\n. /opt/vp/env.sh\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8') as f:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, f, indent=1)
            f.write('\n')
        print('made', s['id'])


def confirm(ids):
    for i in ids:
        b = os.path.join(SEEDED, i)
        d, demo = copy(), tempfile.mkdtemp(prefix='demo-')
        try:
            for f in os.listdir(b):
                if f not in ('meta.json', 'patch.diff'):
                    shutil.copy(os.path.join(b, f), demo)
            run = lambda: subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300)  # noqa
            before = run()
            subprocess.check_call(['git', '-C', d, 'apply', os.path.join(b, 'patch.diff')])
            after = run()
            t = subprocess.run(ENV + f'cd {d} && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --benchmark-skip --timeout=300 tests/ 2>/dev/null | grep -E "(passed|failed|error).* in " | tail -1', shell=True, capture_output=True, text=True).stdout
            ok = before.returncode == 0 and after.returncode != 0 and 'failed' not in t and 'error' not in t and 'passed' in t
            print('OK ' if ok else 'BAD', i, 'demo', before.returncode, after.returncode, '|', t.strip().splitlines()[-1] if t.strip() else t, '' if ok else before.stderr[-500:] + t[-400:], flush=True)
            print('    ', (after.stderr or after.stdout).strip().splitlines()[-1:] , flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(demo)


def check(i, pids):
    b = os.path.join(SEEDED, i)
    pids = pids or [json.load(open(os.path.join(b, 'meta.json')))['property']]
    d = copy()
    try:
        subprocess.check_call(['git', '-C', d, 'apply', os.path.join(b, 'patch.diff')])
        for pid in pids:
            r = subprocess.run([os.path.join(ROOT, 'run.sh'), pid, 'quick'], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            lines = r.stdout.strip().splitlines()
            hit = any(x.startswith('VIOLATION') for x in lines)
            print('CAUGHT' if r.returncode == 1 and hit else f'MISSED ({r.returncode})', i, pid, (lines[0][:180] if hit else '\n'.join(lines[-3:])[:600]) if lines else r.stderr[-400:], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args[0])
    elif cmd == 'confirm':
        confirm(args)
    else:
        check(args[0], args[1:])
