"""Bounded exhaustive exploration: work distribution, counting, reporting.

A property module (props/cXX.py) provides:

  ID, LEVEL, RULE, ASSUMPTIONS
  tasks(tier)          -> list of JSON-able task descriptors; together they
                          cover the bounded space exactly once
  run_task(task, ctx)  -> enumerates every case of the task
  replay(case, ctx)    -> executes exactly one recorded case

The enumeration is complete by construction: there is no time cap below which
cases are skipped.  VERIF_SEED only permutes the order in which tasks are
handed to the workers and selects which samples are written to the evidence.
"""
import array
import concurrent.futures
import concurrent.futures.process
import contextlib
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import env

MAX_FAILS_PER_TASK = 5
SHOWN = int(os.environ.get('MC_SHOW', '5'))
TASK_LIMIT_S = int(os.environ.get('MC_TASK_LIMIT', '600'))


class Hang(BaseException):
    pass


class Mismatch(AssertionError):
    """The implementation and the reference model disagree."""


class Ctx(object):
    """Counters and failures of one task."""

    def __init__(self):
        self.n_states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = {}
        self.fails = []
        self.samples = []
        self.current = None

    def state(self, key):
        self.n_states.add(hash(key))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, case):
        if len(self.samples) < 2:
            self.samples.append(case)

    def fail(self, case, message):
        if len(self.fails) < MAX_FAILS_PER_TASK:
            self.fails.append((case, message))

    @property
    def full(self):
        return len(self.fails) >= MAX_FAILS_PER_TASK

    @contextlib.contextmanager
    def case(self, case):
        """Run one case; any escaping exception is a violation."""
        self.current = case
        try:
            yield
        except Mismatch as exc:
            self.fail(case, str(exc))
        except Hang:
            raise
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.extract_tb(exc.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                for f in reversed(tb[-4:]))
            self.fail(case, 'unexpected %s: %s [%s]' % (
                type(exc).__name__, exc, where))

    def dump(self):
        return dict(states=array.array('q', self.n_states).tobytes(),
                    transitions=self.transitions, traces=self.traces,
                    evaluations=self.evaluations, outcomes=self.outcomes,
                    fails=self.fails, samples=self.samples)


def require(cond, fmt, *args):
    if not cond:
        raise Mismatch(fmt % args if args else fmt)


_MODULE = None


def _alarm(signum, frame):
    raise Hang()


def _work(task):
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_LIMIT_S)
    try:
        _MODULE.run_task(task, ctx)
    except Hang:
        ctx.fails.append((ctx.current, 'does not terminate (over %d s)'
                          % TASK_LIMIT_S))
    except Exception:
        # Outside of any single case (e.g. while preparing the task)
        ctx.fails.append((['task', task], 'the task cannot be explored: '
                          + traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
    return ctx.dump()


def _results(pool, tasks):
    """Results of all the tasks; a dead worker process is a failure."""
    if pool is None:
        for t in tasks:
            yield _work(t)
        return
    futures = {pool.submit(_work, t): t for t in tasks}
    for f in concurrent.futures.as_completed(futures):
        try:
            yield f.result()
        except concurrent.futures.process.BrokenProcessPool:
            ctx = Ctx()
            ctx.fails.append((['task', futures[f]],
                              'a process exploring the real code died'))
            yield ctx.dump()
            return


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)


def known_findings(prop):
    """{canonical case: description} of the findings listed for a property.

    Lines of known-findings.txt: "finding: property=ID case=JSON :: what".
    ("fixed:" lines are a record only: they suppress nothing.)
    """
    out = {}
    path = os.path.join(env.VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                prefix = 'finding: property=%s case=' % prop
                if line.startswith(prefix):
                    case, what = line[len(prefix):].strip().split(' :: ', 1)
                    out[canonical(json.loads(case))] = what
    return out


def main(module, tier, seed, replay_path=None, jobs=None):
    global _MODULE
    _MODULE = module
    start = time.time()
    if replay_path:
        with open(replay_path) as f:
            record = json.load(f)
        ctx = Ctx()
        with ctx.case(record['case']):
            if record['case'][0] == 'task':
                module.run_task(record['case'][1], ctx)
            elif record['case'][0] == 'tasks':
                list(module.tasks(record['case'][1]))
            else:
                module.replay(record['case'], ctx)
        for case, message in ctx.fails:
            print('replayed: %s' % message)
            print('VIOLATION property=%s replay=%s' % (module.ID, replay_path))
            return 1
        print('replayed without violation: %s' % canonical(record['case']))
        return 0

    fails = []
    try:
        tasks = list(module.tasks(tier))
    except Exception:
        tasks = []
        fails.append((['tasks', tier], 'the exploration cannot be prepared: '
                      + traceback.format_exc()[-1500:]))
    random.Random(seed).shuffle(tasks)
    jobs = jobs or int(os.environ.get('MC_JOBS', '0')) or min(
        8, os.cpu_count() or 1)
    states = set()
    totals = dict(transitions=0, traces=0, evaluations=0)
    outcomes = {}
    samples = []
    pool = None
    if jobs > 1:
        pool = concurrent.futures.ProcessPoolExecutor(
            jobs, mp_context=multiprocessing.get_context('fork'))
    results = _results(pool, tasks)
    for r in results:
        a = array.array('q')
        a.frombytes(r['states'])
        states.update(a)
        for k in totals:
            totals[k] += r[k]
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        fails.extend(r['fails'])
        samples.extend(r['samples'])
        if fails and os.environ.get('MC_FIRST'):
            # For development only: the remaining tasks are not explored
            for process in list(pool._processes.values()) if pool else []:
                process.kill()
            break
    if pool:
        pool.shutdown(cancel_futures=bool(os.environ.get('MC_FIRST')))

    known = known_findings(module.ID)
    seen_known, new = {}, []
    for case, message in fails:
        key = canonical(case)
        if key in known:
            seen_known[key] = known[key]
        else:
            new.append((case, message))
    new.sort(key=lambda cm: (len(canonical(cm[0])), canonical(cm[0])))

    rng = random.Random(seed)
    samples.sort(key=canonical)
    if len(samples) > 6:
        samples = rng.sample(samples, 6)
    coverage = dict(states=len(states), transitions=totals['transitions'],
                    traces_validated_against_impl=totals['traces'],
                    samples=samples, outcomes=outcomes, tasks=len(tasks),
                    rule=module.RULE, exhaustive=True)
    if totals['evaluations']:
        coverage['evaluations'] = totals['evaluations']
    evidence = dict(property=module.ID, tier=tier, seed=seed,
                    level=module.LEVEL, coverage=coverage,
                    assumptions=list(module.ASSUMPTIONS),
                    wall_s=round(time.time()-start, 2), violations=len(new))
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', module.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    print('%s %s: states=%d transitions=%d traces=%d outcomes=%s wall=%.1fs' % (
        module.ID, tier, len(states), totals['transitions'], totals['traces'],
        json.dumps(outcomes, sort_keys=True), time.time()-start))
    for key, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (module.ID, what))
    if not totals['traces'] and not new:
        print('vacuous exploration: nothing was checked')
        return 2
    if new:
        folder = os.path.join(env.VERIF, 'replays')
        os.makedirs(folder, exist_ok=True)
        for i, (case, message) in enumerate(new[:SHOWN]):
            digest = hashlib.sha1(canonical(case).encode()).hexdigest()[:12]
            path = os.path.join(folder, '%s-%s.json' % (module.ID, digest))
            with open(path, 'w') as f:
                json.dump(dict(property=module.ID, case=case, message=message,
                               replay='/opt/venv/bin/python /verif/check.py %s'
                               ' --replay %s' % (module.ID, path)),
                          f, indent=1, default=str)
                f.write('\n')
            print('%s' % message)
            print('  case: %s' % canonical(case))
            print('VIOLATION property=%s replay=%s' % (module.ID, path))
        return 1
    return 0
