"""The engine behind every check: runs a property's parts over generated
cases, in parallel shards, shrinks a failure, writes replay and evidence.

A check module defines
    PARTS = [Part(name, strategy, fn, quick, thorough, examples=[...]), ...]
    RULE  = how cases are made and which count as non-trivial
A case is a plain JSON value; fn(case, rec) raises Violation when the property
is broken on it.
"""
import hashlib
import importlib
import inspect
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
from contextlib import contextmanager

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHARDS = 8
SHRINK_SECS = float(os.environ.get('VERIF_SHRINK_SECS', '45'))
RLIMIT_MB = 3000
CASE_SECS = 150     # a case takes milliseconds, a batch of them seconds


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself could not run."""


class _StopShrinking(BaseException):
    pass


class _TimedOut(BaseException):
    pass


@contextmanager
def decoding(what):
    """Reading an output of the code under test: if it cannot be read at all,
    that is a violation and not an error of the check."""
    try:
        yield
    except Exception as e:
        if of_the_harness(e):
            raise
        raise Violation(
            f'{what}: unreadable output: {type(e).__name__}: {e}\n'
            + traceback.format_exc(limit=-4)) from e


def of_the_harness(e):
    """Whether an exception says nothing about the code under test."""
    if isinstance(e, FileNotFoundError):    # an output that is not there
        return not os.path.isabs(str(e.filename))
    if isinstance(e, (Violation, HarnessError, MemoryError, OSError,
                      ImportError)):
        return True
    if isinstance(e, AttributeError):       # an interface that is gone
        return isinstance(getattr(e, 'obj', None), types.ModuleType)
    return type(e).__module__.startswith('hypothesis')


def require(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def same(actual, expected, what):
    if actual != expected:
        raise Violation(f'{what}:\n  got      {_short(actual)}\n'
                        f'  expected {_short(expected)}')


def _short(v, n=1500):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def internal(module, name, nargs):
    """A helper function of the subject that a part calls directly, or None
    if the subject no longer has it (its effects are checked elsewhere
    through the public stages)."""
    try:
        f = getattr(importlib.import_module('acetimetools.' + module), name)
        inspect.signature(f).bind(*range(nargs))
    except (ImportError, AttributeError, TypeError, ValueError):
        return None
    return f


class Part:
    def __init__(self, name, strategy, fn, quick, thorough, examples=None,
                 cases=None):
        self.name = name
        self.strategy = strategy        # () -> hypothesis strategy, or None
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.examples = examples or []  # always run, before generation
        self.cases = cases              # tier -> finite list to enumerate


class Rec:
    """Per-case recorder."""

    def __init__(self):
        self.key = None
        self.labels = []

    def nontrivial(self, yes=True):
        self.key = bool(yes)

    def label(self, *names):
        self.labels.extend(names)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []

    def add(self, part, case, rec):
        self.evaluations += 1
        for n in rec.labels:
            self.labels[n] = self.labels.get(n, 0) + 1
        if rec.key:
            text = json.dumps([part, case], sort_keys=True)
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2:
                    self.samples.append(
                        {'part': part, 'case': case if len(text) < 3000
                         else text[:3000] + '...'})

    def dump(self):
        return (self.evaluations, self.hashes, self.labels, self.samples)


def setup_process():
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    for p in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'vlib', 'stub')):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.setrecursionlimit(5000)


_SCRATCH = None


def scratch():
    """A private directory of this process, removed when it ends."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH')
        _SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix='vchk.', dir=base))
    return _SCRATCH[1]


def fresh_dir(name='out'):
    """An empty directory under the scratch directory."""
    path = os.path.join(scratch(), name)
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def _drop_scratch():
    if _SCRATCH and _SCRATCH[0] == os.getpid():
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)


def seed_for(pid, part, shard):
    base = os.environ.get('VERIF_SEED', '1')
    text = f'{base}/{pid}/{part}/{shard}'
    return int.from_bytes(
        hashlib.blake2b(text.encode(), digest_size=6).digest(), 'big')


def _on_alarm(signum, frame):
    raise _TimedOut()


def decide(part, case, rec):
    """Run one case.  A result that the check cannot make sense of, or none
    within CASE_SECS, is a violation."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECS)
    try:
        part.fn(case, rec)
    except _TimedOut:
        raise Violation(f'no result within {CASE_SECS} s') from None
    except Exception as e:
        if of_the_harness(e):
            raise
        raise Violation(
            f'the result cannot be read: {type(e).__name__}: {e}\n'
            + traceback.format_exc(limit=-6)) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(part, case, stats):
    rec = Rec()
    try:
        decide(part, case, rec)
    finally:
        stats.add(part.name, case, rec)


def run_shard(pid, part, tier, shard, stats):
    """Return None, or (case, message) of a violation."""
    if shard == 0:
        for case in part.examples:
            try:
                run_case(part, case, stats)
            except Violation as v:
                return case, str(v)
    if part.cases is not None:
        for i, case in enumerate(part.cases(tier)):
            if i % SHARDS == shard:
                try:
                    run_case(part, case, stats)
                except Violation as v:
                    return case, str(v)
    total = part.quick if tier == 'quick' else part.thorough
    if part.strategy is None or total <= 0:
        return None
    n = -(-total // SHARDS)

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    best = [None]
    first = [None]

    @hypothesis.seed(seed_for(pid, part.name, shard))
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              report_multiple_bugs=False,
              phases=(Phase.generate, Phase.shrink))
    @given(part.strategy())
    def test(case):
        if first[0] is not None and time.time() - first[0] > SHRINK_SECS:
            raise _StopShrinking()
        try:
            run_case(part, case, stats)
        except Violation as v:
            if first[0] is None:
                first[0] = time.time()
            size = len(json.dumps(case))
            if best[0] is None or size <= best[0][0]:
                best[0] = (size, case, str(v))
            raise

    try:
        test()
    except _StopShrinking:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky as e:
        if best[0] is None:
            raise HarnessError(f'flaky: {e}')
    if best[0] is not None:
        return best[0][1], best[0][2]
    return None


def _worker(pid, module, tier, shard, only, conn):
    try:
        setup_process()
        import resource
        lim = RLIMIT_MB << 20
        resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
        stats = Stats()
        fail = None
        times = {}
        for part in module.PARTS:
            if only and part.name != only:
                continue
            t = time.time()
            f = run_shard(pid, part, tier, shard, stats)
            times[part.name] = round(time.time() - t, 1)
            if f is not None:
                fail = (part.name, f[0], f[1])
                break
        conn.send(('ok', fail, stats.dump(), times))
    except BaseException:
        conn.send(('error', traceback.format_exc(), None, None))
    finally:
        _drop_scratch()
        conn.close()


def run_property(pid, module, tier, only=None):
    t0 = time.time()
    # Import the module's dependencies once, in the parent.
    setup_process()
    prepare = getattr(module, 'prepare', None)
    if prepare:
        prepare(tier)
    base = tempfile.mkdtemp(prefix='vchk.')
    os.environ['VERIF_SCRATCH'] = base
    try:
        return _run_shards(pid, module, tier, only, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_shards(pid, module, tier, only, t0):
    ctx = multiprocessing.get_context('fork')
    jobs = []
    for shard in range(SHARDS):
        parent, child = ctx.Pipe(False)
        p = ctx.Process(target=_worker,
                        args=(pid, module, tier, shard, only, child))
        p.start()
        child.close()
        jobs.append((shard, p, parent))
    total = Stats()
    fails, errors = [], []
    times = {}
    pending = list(jobs)
    stop_at = None
    while pending:
        ready = multiprocessing.connection.wait(
            [j[2] for j in pending], timeout=1)
        for job in list(pending):
            if job[2] in ready:
                try:
                    kind, a, dump, tm = job[2].recv()
                except EOFError:
                    kind, a, dump = 'error', f'shard {job[0]} died', None
                if kind == 'error':
                    errors.append(a)
                else:
                    if a is not None:
                        fails.append((job[0],) + a)
                        if stop_at is None:
                            stop_at = time.time() + 5
                    total.evaluations += dump[0]
                    total.hashes |= dump[1]
                    for k, v in dump[2].items():
                        total.labels[k] = total.labels.get(k, 0) + v
                    total.samples.extend(dump[3])
                    for k, v in tm.items():
                        times[k] = max(times.get(k, 0), v)
                job[1].join()
                pending.remove(job)
        if stop_at is not None and time.time() > stop_at:
            for job in pending:
                job[1].terminate()
                job[1].join()
            break
    wall = time.time() - t0
    fails.sort(key=lambda f: (len(json.dumps(f[2])), f[0]))
    write_evidence(pid, module, tier, total, wall, len(fails), times)
    if fails:
        shard, part, case, message = fails[0]
        path = write_replay(pid, part, case, message)
        print(f'--- {pid}/{part} (shard {shard}) ---')
        print(message)
        print('case:', _short(case, 4000))
        print(f'VIOLATION property={pid} replay={path}')
        sys.stdout.flush()
        return 1
    if errors:
        sys.stderr.write(errors[0] + '\n')
        print(f'ERROR property={pid}: the check could not run')
        return 2
    print(f'OK property={pid} evaluations={total.evaluations} '
          f'distinct_nontrivial={len(total.hashes)} wall={wall:.1f}s '
          f'parts={times}')
    if os.environ.get('VERIF_LABELS'):
        for k in sorted(total.labels):
            print(f'  {k}: {total.labels[k]}')
    return 0


def write_replay(pid, part, case, message):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                        digest_size=4).hexdigest()
    path = os.path.join(d, f'{pid}-{part}-{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'part': part, 'message': message,
                   'case': case}, f, indent=1)
    return path


def write_evidence(pid, module, tier, stats, wall, violations, times):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'exploration',
        'coverage': {
            'evaluations': stats.evaluations,
            'distinct_nontrivial': len(stats.hashes),
            'rule': module.RULE,
            'samples': stats.samples[:4],
            'classes': dict(sorted(stats.labels.items())),
            'seconds_per_part': times},
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': violations}
    tmp = os.path.join(d, f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f'{pid}.json'))


def replay(pid, module, path):
    setup_process()
    with open(path) as f:
        data = json.load(f)
    if data['property'] != pid:
        raise HarnessError('the replay file is of another property')
    prepare = getattr(module, 'prepare', None)
    if prepare:
        prepare('quick')
    part = [p for p in module.PARTS if p.name == data['part']][0]
    try:
        decide(part, data['case'], Rec())
    except Violation as v:
        print(str(v))
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    finally:
        _drop_scratch()
    print(f'OK property={pid} replayed {path}')
    return 0
