"""
Law registry, sharded runner, evidence and replay handling.

A check is a module props/<id>.py which registers "laws". A law is a Hypothesis strategy producing a plain, JSON-able case plus a
function which runs the real code on that case and compares it with an oracle. The case is all a law depends on: a replay file is the case.
"""
import collections
import hashlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
HARD_LIMIT = 840  # seconds: beyond this, the run is inconclusive (error exit), never a violation


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(Exception):
    """The machinery itself is broken."""


class Discard(Exception):
    """The case is outside of the domain of the law (counted)."""


Law = collections.namedtuple('Law', 'name strategy func quick thorough rule')


class Registry:

    def __init__(self, pid, title_rule, assumptions=()):
        self.pid = pid
        self.rule = title_rule
        self.assumptions = list(assumptions)
        self.laws = []
        self.known = []

    def law(self, strategy, quick, thorough=None, name=None, rule=''):
        def wrap(f):
            self.laws.append(Law(name or f.__name__, strategy, f, quick, thorough or quick * 12, rule or (f.__doc__ or '').strip()))
            return f
        return wrap


class Ctx:
    """Per-case context handed to the laws."""

    def __init__(self):
        self.tags = collections.Counter()
        self.nontrivial = False

    def tag(self, *names):
        for n in names:
            self.tags[n] += 1

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True


# ---------------------------------------------------------------- comparison helpers

def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(x):
    s = repr(x)
    return s if len(s) < 1500 else s[:1500] + '...'


def same(actual, expected, what):
    if isinstance(expected, bool) and not isinstance(actual, (bool, np.bool_)):
        raise Violation(f'{what}: expected a boolean {expected}, got {_short(actual)}')
    try:
        ok = (actual == expected)
        if isinstance(ok, np.ndarray):
            ok = ok.all() and np.shape(actual) == np.shape(expected)
        ok = bool(ok)
    except Exception as e:  # noqa
        raise Violation(f'{what}: cannot compare {_short(actual)} with {_short(expected)} ({e!r})')
    if not ok:
        raise Violation(f'{what}: got {_short(actual)}, expected {_short(expected)}')


def close(actual, expected, what, rtol=1e-7, atol=1e-9, shape=True):
    """Elementwise closeness, with inf == inf and nan == nan."""
    if actual is None:
        raise Violation(f'{what}: got None, expected {_short(expected)}')
    try:
        a = np.asarray(actual)
        if np.iscomplexobj(a):
            raise Violation(f'{what}: got complex numbers {_short(actual)}')
        a = a.astype(float)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f'{what}: got {_short(actual)} which is not numeric ({e!r})')
    e = np.asarray(expected, dtype=float)
    if shape and a.shape != e.shape:
        raise Violation(f'{what}: shape {a.shape} instead of {e.shape}: got {_short(actual)}, expected {_short(e)}')
    with np.errstate(all='ignore'):
        ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        with np.errstate(all='ignore'):
            d = np.abs(a - e)
        raise Violation(f'{what}: got {_short(a.tolist())}, expected {_short(e.tolist())} (max difference {np.nanmax(d) if d.size else 0})')


def is_none(actual, what):
    if actual is not None:
        raise Violation(f'{what}: expected None, got {_short(actual)}')


def expect_validation_error(f, what):
    """The call must be rejected, and cleanly: with the library's ValidationError (or its documented ValueError contract)."""
    from pydtmc import ValidationError
    try:
        r = f()
    except ValidationError:
        return
    except Exception as e:  # noqa
        raise Violation(f'{what}: expected ValidationError, got {type(e).__name__}: {e}')
    raise Violation(f'{what}: expected ValidationError, but the call returned {_short(r)}')


def expect_rejection(f, what):
    from pydtmc import ValidationError
    try:
        r = f()
    except (ValidationError, ValueError):
        return
    except Exception as e:  # noqa
        raise Violation(f'{what}: expected ValidationError or ValueError, got {type(e).__name__}: {e}')
    raise Violation(f'{what}: expected ValidationError or ValueError, but the call returned {_short(r)}')


def expect_value_error(f, what):
    try:
        r = f()
    except ValueError:
        return
    except Exception as e:  # noqa
        raise Violation(f'{what}: expected ValueError, got {type(e).__name__}: {e}')
    raise Violation(f'{what}: expected ValueError, but the call returned {_short(r)}')


# ---------------------------------------------------------------- running

def canonical(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def classify_exception(e):
    """'violation' or 'harness': an exception raised inside of the oracle or of the generators, without the code under test on the stack, is a harness error."""
    if isinstance(e, Violation):
        return 'violation'
    if isinstance(e, (HarnessError, MemoryError)):
        return 'harness'
    tb = e.__traceback__
    frames = []
    while tb is not None:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if any('/pydtmc/' in f for f in frames):
        return 'violation'
    if any(f.endswith(('/vlib/oracle.py', '/vlib/gen.py', '/vlib/core.py')) for f in frames[1:]) and not any(f.endswith('core.py') for f in frames[-1:]):
        return 'harness'
    return 'violation'


CPU_LIMIT = [90.0]  # seconds of processor time for one case; the cases take milliseconds


class cpu_limit:
    """A case which does not end is a violation: the code under test is in a loop."""

    def __enter__(self):
        def stop(*_):
            CPU_LIMIT[0] = 20.0  # while shrinking
            raise Violation('no answer: the call does not terminate')
        self.old = signal.signal(signal.SIGVTALRM, stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT[0])

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


def run_case(law, case):
    """Runs the law on one case. Returns (outcome, message, ctx): outcome is ok, discard, violation or harness."""
    ctx = Ctx()
    try:
        with cpu_limit():
            law.func(case, ctx)
        return 'ok', '', ctx
    except Discard:
        return 'discard', '', ctx
    except Exception as e:  # noqa
        kind = classify_exception(e)
        if isinstance(e, Violation):
            msg = str(e)
        else:
            msg = f'{type(e).__name__}: {e}\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        return kind, msg, ctx


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:6], 'big')


def run_law_shard(pid, law, seed, shard, count):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = 40

    out = {'law': law.name, 'evaluations': 0, 'discards': 0, 'nontrivial': set(), 'distinct': set(), 'tags': collections.Counter(), 'samples': [], 'failure': None, 'harness': None}
    state = {'failed': False, 'last': None}

    class Fail(Exception):
        pass

    def body(case):
        text = canonical(case)
        case = json.loads(text)
        outcome, msg, ctx = run_case(law, case)
        if outcome == 'harness':
            if out['harness'] is None:
                out['harness'] = {'case': case, 'message': msg}
            raise Fail(msg)
        if not state['failed']:
            out['evaluations'] += 1
            if outcome == 'discard':
                out['discards'] += 1
            else:
                digest = hashlib.blake2b(text.encode(), digest_size=8).digest()
                out['distinct'].add(digest)
                if ctx.nontrivial or outcome == 'violation':
                    out['nontrivial'].add(digest)
                    if len(out['samples']) < 2 and len(text) < 3000:
                        out['samples'].append(case)
                out['tags'].update(ctx.tags)
        if outcome == 'violation':
            state['failed'] = True
            state['last'] = {'case': case, 'message': msg}
            raise Fail(msg)

    phases = [Phase.generate, Phase.shrink]
    test = given(law.strategy)(body)
    test = settings(max_examples=count, deadline=None, database=None, phases=phases, derandomize=False, report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(derive_seed(seed, pid, law.name, shard))(test)
    try:
        test()
    except Exception as e:  # noqa
        if state['last'] is None and out['harness'] is None:
            out['harness'] = {'case': None, 'message': 'generator or engine: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])}
    if state['last'] is not None:
        out['failure'] = state['last']
    return out


def _worker(pid, laws, seed, shard, tier, queue):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        for law in laws:
            total = law.quick if tier == 'quick' else law.thorough
            count = total // SHARDS + (1 if shard < total % SHARDS else 0)
            if count == 0:
                continue
            t0 = time.time()
            out = run_law_shard(pid, law, seed, shard, count)
            out['seconds'] = time.time() - t0
            queue.put((shard, 'law', out))
            if out['failure'] or out['harness']:
                break
        queue.put((shard, 'done', None))
    except BaseException as e:  # noqa
        queue.put((shard, 'crash', ''.join(traceback.format_exception(type(e), e, e.__traceback__))))


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == pid]


def write_replay(pid, law, failure):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canonical(failure['case']).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{law}-{h}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': pid, 'law': law, 'case': failure['case'], 'message': failure['message']}, f, indent=1, default=_default)
    return path


def run(registry, seed, tier):
    pid = registry.pid
    t0 = time.time()
    status = 0

    # the known findings: each is re-run on its exact case
    for k in load_known(pid):
        law = next((x for x in registry.laws if x.name == k['law']), None)
        if law is None and os.environ.get('VERIF_LAW'):
            continue
        if law is None:
            print(f'ERROR known finding of unknown law {k["law"]}')
            return 2
        outcome, msg, _ = run_case(law, dict(k['case'], __known__=True))
        if outcome == 'violation':
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        else:
            print(f'note: the known finding "{k["what"]}" did not reproduce ({outcome})')

    # regression corpus: saved minimal cases of the defects which were repaired, replayed without Hypothesis
    corpus = os.path.join(ROOT, 'corpus', f'{pid}.jsonl')
    replayed = 0
    if os.path.exists(corpus):
        with open(corpus, encoding='utf-8') as f:
            for line in f:
                if not line.strip():
                    continue
                c = json.loads(line)
                law = next((x for x in registry.laws if x.name == c['law']), None)
                if law is None and os.environ.get('VERIF_LAW'):
                    continue
                if law is None:
                    print(f'ERROR corpus case of unknown law {c["law"]}')
                    return 2
                outcome, msg, _ = run_case(law, c['case'])
                replayed += 1
                if outcome == 'violation':
                    path = write_replay(pid, law.name, {'case': c['case'], 'message': msg})
                    print(f'{law.name}: {msg}')
                    print(f'VIOLATION property={pid} replay={path}')
                    status = 1
                    break
                if outcome == 'harness':
                    print('HARNESS ERROR', msg)
                    return 2

    merged = {}
    failures, harness = [], []
    if status == 0:
        mp = multiprocessing.get_context('fork')
        queue = mp.Queue()
        procs = [mp.Process(target=_worker, args=(pid, registry.laws, seed, i, tier, queue), daemon=True) for i in range(SHARDS)]
        for p in procs:
            p.start()
        pending = set(range(SHARDS))
        limit = HARD_LIMIT if tier == 'quick' else int(os.environ.get('VERIF_LIMIT', '7200'))
        grace = None
        import queue as q
        while pending:
            if time.time() - t0 > limit:
                harness.append(('runner', {'case': None, 'message': f'time limit of {limit} s reached: inconclusive'}))
                break
            if grace is not None and time.time() > grace:
                break
            try:
                shard, kind, payload = queue.get(timeout=1.0)
            except q.Empty:
                for i in list(pending):
                    if not procs[i].is_alive() and queue.empty():
                        time.sleep(0.5)
                        if queue.empty():
                            pending.discard(i)
                            harness.append(('runner', {'case': None, 'message': f'shard {i} died with exit code {procs[i].exitcode}'}))
                continue
            if kind == 'done':
                pending.discard(shard)
            elif kind == 'crash':
                pending.discard(shard)
                harness.append(('runner', {'case': None, 'message': payload}))
            else:
                m = merged.setdefault(payload['law'], {'evaluations': 0, 'discards': 0, 'nontrivial': set(), 'distinct': set(), 'tags': collections.Counter(), 'samples': [], 'seconds': 0.0})
                m['evaluations'] += payload['evaluations']
                m['discards'] += payload['discards']
                m['nontrivial'] |= payload['nontrivial']
                m['distinct'] |= payload['distinct']
                m['tags'].update(payload['tags'])
                m['seconds'] += payload['seconds']
                if len(m['samples']) < 2:
                    m['samples'] += payload['samples'][:1]
                if payload['failure']:
                    failures.append((payload['law'], payload['failure']))
                    grace = grace or time.time() + 3.0
                elif payload['harness']:
                    harness.append((payload['law'], payload['harness']))
                    grace = grace or time.time() + 20.0
        for p in procs:
            if p.is_alive():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
        for p in procs:
            p.join(5)

    if failures:
        law, failure = min(failures, key=lambda x: len(canonical(x[1]['case'])))
        path = write_replay(pid, law, failure)
        print(f'law {law}: {failure["message"]}')
        print('case:', canonical(failure['case'])[:4000])
        print(f'VIOLATION property={pid} replay={path}')
        status = 1
    elif harness:
        for law, h in harness[:3]:
            print(f'HARNESS ERROR in {law}: {h["message"]}')
            if h['case'] is not None:
                print('case:', canonical(h['case'])[:3000])
        status = 2

    evaluations = sum(m['evaluations'] for m in merged.values()) + replayed
    nontrivial = sum(len(m['nontrivial']) for m in merged.values())
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': registry.rule,
            'samples': [{'law': n, 'case': s} for n, m in merged.items() for s in m['samples'][:1]],
            'distinct': sum(len(m['distinct']) for m in merged.values()),
            'discarded': sum(m['discards'] for m in merged.values()),
            'regression_cases_replayed': replayed,
            'laws': {n: {'evaluations': m['evaluations'], 'discarded': m['discards'], 'distinct': len(m['distinct']), 'distinct_nontrivial': len(m['nontrivial']),
                         'classes': dict(sorted(m['tags'].items())), 'cpu_s': round(m['seconds'], 1)} for n, m in merged.items()},
        },
        'assumptions': registry.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures) if failures else (1 if status == 1 else 0),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', f'.{pid}.{os.getpid()}.tmp')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, default=_default)
    os.replace(tmp, os.path.join(ROOT, 'evidence', f'{pid}.json'))
    print(f'{pid} {tier} seed={seed}: {evaluations} cases, {nontrivial} distinct non-trivial, {len(merged)} laws, {evidence["wall_s"]} s, exit {status}')
    return status


def replay(registry, path):
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    law = next(x for x in registry.laws if x.name == data['law'])
    outcome, msg, _ = run_case(law, data['case'])
    print(outcome, msg)
    if outcome == 'violation':
        print(f'VIOLATION property={registry.pid} replay={path}')
        return 1
    return 0 if outcome in ('ok', 'discard') else 2
