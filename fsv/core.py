"""Shared plumbing: violations, check context, parallel tasks."""
import concurrent.futures
import contextlib
import multiprocessing
import os
import signal
import time
import traceback

from . import cnf


class Violation(Exception):
    def __init__(self, what, **data):
        super().__init__(what)
        self.what = what
        self.data = data

    def __reduce__(self):
        return _mk, (self.what, plain(self.data))


def _mk(what, data):
    return Violation(what, **data)


class Hang(Exception):
    """the code under test did not finish"""


@contextlib.contextmanager
def time_limit(seconds):
    """only in a main thread (worker processes are)"""
    def handler(*_):
        raise Hang(f'still running after {seconds} s')
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class NoAnswer(Exception):
    """the check could not decide (counterexample that does not replay, solver gave up, ...)"""


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obligations = 0
        self.witnesses = 0
        self.paths = 0
        self.configs = []
        self.functions = set()
        self.assumptions = []
        self.samples = []
        self.bounds = ''
        self.explanation = ''
        self.smt = {}
        self.violations = []
        self.findings = []
        self.errors = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def encoded(self, *names):
        self.functions.update(names)

    def assume(self, *texts):
        self.assumptions.extend(texts)

    def map(self, fn, tasks, workers=None, stop_on_violation=True):
        """run fn(task) -> Result in worker processes; merges the counters; raises the first violation"""
        tasks = list(tasks)
        workers = min(workers or int(os.environ.get('FSV_WORKERS', '8')), max(1, len(tasks)))
        done = []
        if workers == 1 or os.environ.get('FSV_SERIAL'):
            for t in tasks:
                done.append(self._merge(_call(fn, t), t))
            return done
        mp = multiprocessing.get_context('fork')
        with concurrent.futures.ProcessPoolExecutor(workers, mp_context=mp) as ex:
            futs = {ex.submit(_call, fn, t): t for t in tasks}
            try:
                for f in concurrent.futures.as_completed(futs):
                    done.append(self._merge(f.result(), futs[f]))
            except Violation:
                for f in futs:
                    f.cancel()
                for p in list((ex._processes or {}).values()):
                    p.kill()
                raise
        return done

    def _merge(self, out, task):
        kind, val, stats = out
        cnf.add_stats(stats)
        if kind == 'violation':
            val.data.setdefault('config', plain(task))
            raise val
        if kind == 'error':
            self.errors.append(f'task {task}: {val}')
            return None
        r = val or {}
        self.obligations += r.get('obligations', 0)
        self.witnesses += r.get('witnesses', 0)
        self.paths += r.get('paths', 0)
        if 'config' in r:
            self.configs.append(r['config'])
        if 'finding' in r:
            self.findings.append(r['finding'])
        for s in r.get('samples', []):
            self.samples.append(s)
        for k, v in r.get('smt', {}).items():
            self.smt[k] = self.smt.get(k, 0) + v
        self.functions.update(r.get('functions', ()))
        return r


def _call(fn, task):
    for k in cnf.STATS:
        cnf.STATS[k] = 0
    try:
        val = fn(task)
        return 'ok', val, dict(cnf.STATS)
    except Violation as v:
        return 'violation', Violation(v.what, **plain(v.data)), dict(cnf.STATS)
    except Exception:
        return 'error', traceback.format_exc(), dict(cnf.STATS)
