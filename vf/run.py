"""Driver of every check: shards, worker processes, verdicts, evidence, replay.

  python -m vf C01 quick [--replay FILE] [--jobs N] [--shard K] [--seed N]

Exit codes: 0 held on everything observed, 1 violated (VIOLATION line), 2 inconclusive / harness error.
"""
import argparse
import array
import importlib
import json
import multiprocessing
import os
import queue
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VF_EVIDENCE') or os.path.join(HERE, 'evidence')
CASE_CPU_LIMIT = 45      # CPU seconds spent inside one case before it counts as "does not terminate"
WORKER_MEMORY = 3 << 30
MAX_VIOLATIONS_PER_SHARD = 3


class StopShard(Exception):
    """Raised by the monitor when a shard has seen enough violations"""


class Violation(Exception):
    """Raised by an oracle inside a case: the observed execution contradicts the property"""

    def __init__(self, what, known=None, **detail):
        super().__init__(what)
        self.what = what
        self.known = known
        self.detail = detail


def jsonable(value, depth=0):
    """A best-effort JSON rendition of anything an oracle wants to show"""
    if depth > 14:
        return '...'
    if value is None or isinstance(value, (bool, str)):
        return value if not isinstance(value, str) or len(value) <= 4000 else value[:4000] + '...'
    if isinstance(value, int):
        return value if abs(value) < 2 ** 53 else f'int:{hex(value) if value.bit_length() > 10000 else value}'
    if isinstance(value, float):
        return value if value == value and abs(value) != float('inf') else f'float:{value}'
    if isinstance(value, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(value.items())[:80]}
    if isinstance(value, (list, tuple)):
        return [jsonable(v, depth + 1) for v in value[:200]]
    try:
        return repr(value)[:400]
    except Exception:  # pylint: disable=broad-except
        return f'<{type(value).__name__}>'


class _Case:
    __slots__ = ('mon',)

    def __init__(self, mon):
        self.mon = mon

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        mon = self.mon
        if etype is None or etype is StopShard or issubclass(etype, (KeyboardInterrupt, SystemExit)):
            mon.after_case()
            return False
        if etype is Violation:
            mon.record(exc.what, exc.known, exc.detail)
        elif issubclass(etype, Exception):
            frames = traceback.extract_tb(tb)
            text = ''.join(traceback.format_exception(etype, exc, tb)[-6:])
            mon.record(f'unexpected {etype.__name__} while observing the case: {exc}', None,
                       {'traceback': text[-3000:], 'innermost': frames[-1].filename if frames else ''})
        else:
            return False
        mon.after_case()
        return True


class Monitor:
    """Collects what the oracles observed in one shard"""

    def __init__(self, prop, tier, seed, shard, progress=None, only=None):
        self.prop, self.tier, self.seed, self.shard = prop, tier, seed, shard
        self.counters = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.progress = progress
        self.only = only
        self.desc = None
        self._case = _Case(self)
        self.sample_every = 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, desc, key=None, nontrivial=True):
        """Begin a case. desc: what to show (any JSON-able object, or a thunk); key: distinctness key"""
        if self.progress is not None:
            self.progress[1] = self.evaluations
        self.evaluations += 1
        self.desc = desc
        if nontrivial:
            self.distinct.add(hash(key if key is not None else (desc if isinstance(desc, (str, tuple)) else repr(desc))))
            if len(self.samples) < 3 and self.evaluations % self.sample_every == 0:
                self.samples.append(self.describe())
                self.sample_every = self.sample_every * 11 + 3
        return self._case

    def after_case(self):
        if self.only is not None and self.evaluations - 1 >= self.only:
            raise StopShard()

    def describe(self):
        desc = self.desc() if callable(self.desc) else self.desc
        return jsonable(desc)

    def record(self, what, known, detail):
        if known is not None and known in KNOWN.get(self.prop, {}):
            self.known[known] = self.known.get(known, 0) + 1
            return
        self.violations.append({
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'shard': self.shard,
            'case_index': self.evaluations - 1, 'mechanism': known,
            'what': what, 'case': self.describe(), 'detail': jsonable(detail)
        })
        if len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise StopShard()

    def result(self):
        return {
            'shard': self.shard, 'counters': self.counters, 'evaluations': self.evaluations,
            'distinct': array.array('q', [h for h in self.distinct]).tobytes(), 'samples': self.samples,
            'violations': self.violations, 'known': self.known
        }


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<mechanism> <what>' and 'fixed: property=<id> <commit> <what>'"""
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                parts = line.strip().split(None, 3)
                if len(parts) >= 3 and parts[0] == 'finding:':
                    known.setdefault(parts[1].split('=', 1)[1], {})[parts[2].split('=', 1)[1]] = parts[3] if len(parts) > 3 else ''
    return known


KNOWN = load_known()


def shard_rng(seed, prop, shard_index):
    return random.Random(f'{seed}:{prop}:{shard_index}')


def run_one(module, prop, tier, seed, plan, index, progress=None, only=None):
    kind, spec = plan[index]
    mon = Monitor(prop, tier, seed, index, progress, only)
    try:
        module.shard(kind, spec, shard_rng(seed, prop, index), mon)
    except StopShard:
        pass
    return mon.result()


def worker(modname, prop, tier, seed, tasks, results, progress):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    module = importlib.import_module(modname)
    plan = module.plan(tier)
    while True:
        try:
            index = tasks.get_nowait()
        except queue.Empty:
            # Queue feeders can lag - the parent closes with None sentinels
            index = tasks.get()
        if index is None:
            break
        progress[0] = index
        progress[1] = -1
        try:
            results.put(('ok', run_one(module, prop, tier, seed, plan, index, progress)))
        except BaseException as exc:  # pylint: disable=broad-except
            results.put(('error', {'shard': index, 'error': ''.join(traceback.format_exception(exc))[-4000:]}))
        progress[0] = -1


def cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat', encoding='ascii') as fh:
            fields = fh.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return None


def run_parallel(modname, prop, tier, seed, plan, jobs, limit_s):
    ctx = multiprocessing.get_context('fork')
    tasks = ctx.Queue()
    results = ctx.Queue()
    order = sorted(range(len(plan)), key=lambda i: -plan[i][1].get('cost', 1))
    for index in order:
        tasks.put(index)
    procs = []

    def spawn():
        progress = ctx.Array('q', [-1, -1], lock=False)
        proc = ctx.Process(target=worker, args=(modname, prop, tier, seed, tasks, results, progress), daemon=True)
        proc.start()
        procs.append({'proc': proc, 'progress': progress, 'seen': (-1, -1), 'cpu': 0.0, 'done': False})

    jobs = min(jobs, len(plan))
    for _ in range(jobs):
        spawn()
    for _ in range(jobs + 64):
        tasks.put(None)
    done = {}
    errors = []
    extra = []
    lost = set()
    start = time.time()
    stop = False
    while len(done) + len(lost) + len(errors) < len(plan) and not stop:
        try:
            status, payload = results.get(timeout=0.5)
            if status == 'ok':
                done[payload['shard']] = payload
                # Enough evidence of a violation - no need to explore further
                if sum(len(r['violations']) for r in done.values()) >= 12:
                    stop = True
            else:
                errors.append(payload)
        except queue.Empty:
            pass
        for entry in procs:
            if entry['done']:
                continue
            proc, progress = entry['proc'], entry['progress']
            current = (progress[0], progress[1])
            if not proc.is_alive():
                entry['done'] = True
                if current[0] >= 0 and current[0] not in done and proc.exitcode != 0:
                    time.sleep(0.2)
                    lost.add(current[0])
                    crashed = proc.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS)
                    extra.append(('crash' if crashed else 'lost', current[0], current[1], f'worker ended with {proc.exitcode}'))
                    spawn()
                continue
            cpu = cpu_of(proc.pid)
            if cpu is None:
                continue
            if current != entry['seen']:
                entry['seen'] = current
                entry['cpu'] = cpu
            elif current[0] >= 0 and cpu - entry['cpu'] > CASE_CPU_LIMIT * (1 if current[1] >= 0 else 3):
                proc.kill()
                proc.join()
                entry['done'] = True
                lost.add(current[0])
                extra.append(('hang', current[0], current[1], f'one case used more than {CASE_CPU_LIMIT} s of CPU'))
                if sum(1 for e in extra if e[0] == 'hang') >= 2:
                    stop = True
                spawn()
        if time.time() - start > limit_s:
            errors.append({'shard': -1, 'error': f'time limit of {limit_s} s reached'})
            break
    for entry in procs:
        if entry['proc'].is_alive():
            entry['proc'].kill()
    return done, errors, extra


def main():
    if sys.argv[1:2] == ['--selftest']:
        from vf.selftest import main as selftest  # pylint: disable=import-outside-toplevel
        return selftest()
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('tier', choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument('--shard', type=int)
    parser.add_argument('--limit', type=float, default=None)
    args = parser.parse_args()
    start = time.time()
    prop = args.prop.upper()
    modname = f'vf.checks.{prop.lower()}'

    import bare_script  # pylint: disable=import-outside-toplevel
    repo = os.path.realpath(os.environ.get('VF_REPO', '/repo'))
    if not os.path.realpath(bare_script.__file__).startswith(repo + os.sep):
        print(f'harness error: bare_script imported from {bare_script.__file__}, not {repo}')
        return 2
    module = importlib.import_module(modname)

    if args.replay:
        with open(args.replay, encoding='utf-8') as fh:
            rec = json.load(fh)
        plan = module.plan(rec['tier'])
        result = run_one(module, prop, rec['tier'], rec['seed'], plan, rec['shard'], None, rec['case_index'])
        hits = [v for v in result['violations'] if v['case_index'] == rec['case_index']] or result['violations']
        for violation in hits:
            print(json.dumps(violation, indent=1)[:6000])
        print(f'VIOLATION property={prop} replay={args.replay}' if hits else 'replay: the case no longer violates the property')
        return 1 if hits else 0

    plan = module.plan(args.tier)
    if args.shard is not None:
        result = run_one(module, prop, args.tier, args.seed, plan, args.shard)
        print(json.dumps({k: v for k, v in result.items() if k != 'distinct'}, indent=1)[:8000])
        return 1 if result['violations'] else 0

    limit = args.limit or (840 if args.tier == 'quick' else 6 * 3600)
    done, errors, extra = run_parallel(modname, prop, args.tier, args.seed, plan, args.jobs, limit)

    violations = [v for index in sorted(done) for v in done[index]['violations']]
    inconclusive = [f'shard {e["shard"]}: {e["error"]}' for e in errors]
    for etype, shard, case_index, what in extra:
        if etype in ('hang', 'crash'):
            violations.append({'property': prop, 'tier': args.tier, 'seed': args.seed, 'shard': shard, 'case_index': max(case_index, 0),
                               'what': f'{etype}: {what}', 'case': list(plan[shard]), 'detail': {}})
        else:
            inconclusive.append(f'shard {shard} case {case_index}: {what}')

    counters = {}
    known = {}
    distinct = set()
    samples = []
    evaluations = 0
    for index in sorted(done):
        res = done[index]
        evaluations += res['evaluations']
        for key, value in res['counters'].items():
            counters[key] = max(counters.get(key, 0), value) if key.startswith('max_') else counters.get(key, 0) + value
        for key, value in res['known'].items():
            known[key] = known.get(key, 0) + value
        hashes = array.array('q')
        hashes.frombytes(res['distinct'])
        distinct.update(hashes)
        samples.extend(res['samples'])
    if not violations:
        for name in getattr(module, 'REQUIRED', ()):
            if not counters.get(name):
                inconclusive.append(f'monitor counter "{name}" observed nothing')
    rng = random.Random(args.seed)
    rng.shuffle(samples)

    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': module.RULE,
            'samples': samples[:8], 'shards': len(done), 'monitor_counters': dict(sorted(counters.items()))
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - start, 2), 'violations': len(violations)
    }
    if known:
        evidence['coverage']['known_finding_cases'] = known
    if inconclusive:
        evidence['coverage']['inconclusive'] = inconclusive[:20]
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w', encoding='utf-8') as fh:
        json.dump(evidence, fh, indent=1)

    for key, what in sorted(KNOWN.get(prop, {}).items()):
        print(f'KNOWN-FINDING: property={prop} {what} [{key}: {known.get(key, 0)} cases this run]')
    if violations:
        replay_dir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        for ix, violation in enumerate(violations[:5]):
            path = os.path.join(replay_dir, f'{prop}-{args.tier}-{args.seed}-{ix}.json')
            with open(path, 'w', encoding='utf-8') as fh:
                json.dump(violation, fh, indent=1)
            if ix < 3:
                print(f'  {violation["what"][:300]}')
                print('    case: ' + json.dumps(violation['case'])[:700])
                print('    detail: ' + json.dumps(violation['detail'])[:1200])
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop} {args.tier}: {evaluations} evaluations, {len(distinct)} distinct non-trivial, {len(done)}/{len(plan)} shards, '
          f'{time.time() - start:.1f} s')
    if inconclusive:
        for line in inconclusive[:10]:
            print(f'INCONCLUSIVE {line}')
        return 2
    return 0


