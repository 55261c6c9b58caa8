"""For a repair: reverts it in a scratch copy, lets the check of its property find and shrink the failure, and saves that case in corpus/ and the
repair in known_findings.json. usage: fixcorpus.py COMMIT PROPERTY 'what failed'"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    commit, pid, what = sys.argv[1:4]
    law = sys.argv[4] if len(sys.argv) > 4 else None
    commit = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', commit], text=True).strip()
    d = tempfile.mkdtemp(prefix='fixcorpus-')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', d])
        subprocess.check_call(['git', '-C', d, 'config', 'user.email', 'x@x'])
        subprocess.check_call(['git', '-C', d, 'config', 'user.name', 'x'])
        if os.environ.get('UNDO'):  # a shell command which undoes the repair, when it does not revert cleanly
            subprocess.check_call(os.environ['UNDO'], shell=True, cwd=d)
        else:
            subprocess.check_call(['git', '-C', d, 'revert', '-n', commit])
        env = dict(os.environ, VERIF_REPO=d)
        if law:
            env['VERIF_LAW'] = law
        corpus = os.path.join(ROOT, 'corpus', pid + '.jsonl')
        hidden = None
        out = subprocess.run([os.path.join(ROOT, 'run.sh'), pid, 'quick'], env=env, text=True, capture_output=True).stdout
    finally:
        shutil.rmtree(d)
    line = [x for x in out.splitlines() if x.startswith('VIOLATION')]
    if not line:
        print('NOT DETECTED', commit, pid, out[-1500:])
        sys.exit(1)
    replay = json.load(open(line[0].split('replay=')[1]))
    print(commit, pid, replay['law'], replay['message'][:200])
    os.makedirs(os.path.dirname(corpus), exist_ok=True)
    entry = json.dumps({'law': replay['law'], 'case': replay['case']})
    old = open(corpus).read().splitlines() if os.path.exists(corpus) else []
    if entry not in old:
        with open(corpus, 'a') as f:
            f.write(entry + '\n')
    kf = os.path.join(ROOT, 'known_findings.json')
    data = json.load(open(kf)) if os.path.exists(kf) else {'known': [], 'fixed': []}
    data['fixed'] = [x for x in data['fixed'] if f'property={pid} {commit} ' not in x] + [f'fixed: property={pid} {commit} {what}']
    json.dump(data, open(kf, 'w'), indent=1)


main()
