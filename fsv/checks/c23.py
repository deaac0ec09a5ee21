"""C23: the real `calculate_optimal compute` is executed with unknown recorded results, an unknown underground length, an
unknown completion order of the solver jobs, unknown answers of the jobs and a crash after any file operation.  The job
pool is a stand-in that finishes a job only when the event loop has nothing left to do; which one, and with which answer, are
solver variables.  After every open, write, flush, close and rename the database on disk is compared, over all recorded and
queried sizes of the path, with the results saved before and finished so far."""
import asyncio
import builtins
import concurrent.futures
import contextlib
import io
import itertools
import json
import os
import selectors
import tempfile

import z3

from ..core import Violation, NoAnswer, time_limit
from ..dse import Engine, Limit, _e
from ..tools import patched
from .. import symtile as st
from .c22 import NETS, Ref, network_shape
import factorio_sat.calculate_optimal as co

BOUNDS = {
    'quick': '1 network with up to 2 recorded results of unknown size, 2 networks with 1 each (width 3..4, length 0..1), underground length 0..2 (0..4 without records), '
             'up to 3 finished jobs (2 with records in both networks) in every completion order (two may finish at once), every answer, every crash point between file operations',
    'thorough': '2 or 3 networks, up to 2 recorded results each (width 3..5, length 0..3, any underground length 0..4), up to 4 finished jobs (3 with records), otherwise as quick',
}
DB = 'db.json'
LOST = 'gone-from-folder'


class Stop(BaseException):
    """the process is killed"""


class Picks:
    """nondeterminism of one run, symbolic"""

    def __init__(self, eng):
        self.eng, self.n = eng, 0

    def value(self, k):
        i, self.n = self.n, self.n + 1
        return int(self.eng.int(f's{i}', 0, k - 1)) if k > 1 else 0


class Replayed:
    def __init__(self, vals):
        self.vals, self.n = vals, 0

    def value(self, k):
        i, self.n = self.n, self.n + 1
        return self.vals.get(f's{i}', 0) if k > 1 else 0


class World:
    """one run of the tool"""

    def __init__(self, names, tmp, records, picks, max_jobs, tokens):
        self.names, self.tmp, self.picks, self.max_jobs = names, tmp, picks, max_jobs
        self.tokens = tokens                  # text -> symbolic integer
        self.path = os.path.join(tmp, DB)
        self.truth = {n: list(r) for n, r in records.items()}      # every finished result: (size, answer, solution)
        self.saved = {n: list(r) for n, r in records.items()}      # what the last idle point found on disk
        self.pending = []
        self.finished = 0
        self.obl = []                         # (condition, description)
        self.seen = None
        self.busy = False
        self.nets = {}
        self.buffered = None                  # whether writes stay in the process until a flush or close

    # --- jobs
    def submit(self, fn, *a, **kw):
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        self.pending.append((f, fn, a, kw))
        return f

    def solve(self, network, size, solver=None):
        """the answer of one job: anything consistent with the results so far"""
        name = self.current(network)
        size = tuple(size)
        ref = Ref([(s, v) for s, v, _ in self.truth[name]])
        if self.entails(ref.yes(size)):
            v = True
        elif self.entails(ref.no(size)):
            v = False
        else:
            v = self.picks.value(2) == 1
        sol = [[f'{name}#{self.finished}']] if v else None
        self.truth[name].append((size, v, sol))
        return sol

    def current(self, network):
        key = repr(network)
        if key not in self.nets:
            raise Violation('a job is started for a network that is not one of the networks', input=key)
        return self.nets[key]

    def entails(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return bool(self.picks.eng.branch(c))

    def idle(self):
        """the event loop has nothing to do: check the disk, then finish one or two jobs"""
        self.snapshot('at rest', rest=True)
        if not self.pending:
            raise Stop()
        if self.finished >= self.max_jobs:
            raise Stop()
        for again in range(2):
            f, fn, a, kw = self.pending.pop(self.picks.value(len(self.pending)))
            try:
                f.set_result(fn(*a, **kw))
            except Exception as e:
                f.set_exception(e)
            self.finished += 1
            if not self.pending or self.finished >= self.max_jobs or again or self.picks.value(2) == 0:
                break

    # --- disk
    def state(self):
        """content of the database on disk as {name: [(size, answer, solution)]}"""
        try:
            with _open(self.path, encoding='utf-8') as f:
                text = f.read()
        except FileNotFoundError:
            return None, None
        return text, self.parse(text)

    def parse(self, text):
        data = json.loads(text)
        out = {}

        def size(key):
            ds = tuple(self.tokens[p] if p in self.tokens else int(p) for p in key.split(','))
            if len(ds) != 3:
                raise ValueError(f'key {key!r}')
            return ds
        for n, item in data.items():
            out[n] = ([(size(k), v) for k, v in item['exist'].items()], [(size(k), v) for k, v in item['solutions'].items()])
            for k, v in out[n][0]:
                if v is not True and v is not False:
                    raise ValueError(f'record {v!r}')
        return out

    def snapshot(self, when, rest=False):
        if self.busy:
            return
        self.busy = True
        try:
            try:
                text, state = self.state()
            except Exception as e:
                self.obl.append((z3.BoolVal(False), f'the database on disk cannot be read {when}: {e!r}'))
                return
            key = (text, rest, self.finished)
            if key == self.seen:
                return
            self.seen = key
            if state is None:
                if any(self.saved.values()) or rest and any(self.truth.values()):
                    self.obl.append((z3.BoolVal(False), f'there is no database on disk {when}'))
                return
            q = (z3.Int('qu'), z3.Int('qw'), z3.Int('qh'))
            if set(state) - set(self.truth):
                self.obl.append((z3.BoolVal(False), f'the database on disk names an unknown network {when}'))
            low = self.truth if rest else self.saved
            for n in self.truth:
                exist, sols = state.get(n, ([], []))
                d, lo, hi = Ref(exist), Ref([r[:2] for r in low[n]]), Ref([r[:2] for r in self.truth[n]])
                self.obl.append((z3.And(z3.Implies(lo.yes(q), d.yes(q)), z3.Implies(lo.no(q), d.no(q))), f'a finished result of {n} is missing from the database {when}'))
                self.obl.append((z3.And(z3.Implies(d.yes(q), hi.yes(q)), z3.Implies(d.no(q), hi.no(q))), f'the database claims a result of {n} that was never found {when}'))
                for s, v, sol in low[n]:
                    if v:
                        self.obl.append((z3.Or([eq(s, s2) for s2, v2 in sols if v2 == sol] + [z3.BoolVal(False)]), f'the solution {sol} is not recorded under {n} and its size {when}'))
                for s2, v2 in sols:
                    self.obl.append((z3.Or([eq(s, s2) for s, v, sol in self.truth[n] if v and v2 == sol] + [z3.BoolVal(False)]), f'the solution recorded for a size of {n} belongs elsewhere {when}'))
            if rest:
                self.saved = {n: list(r) for n, r in self.truth.items()}
        finally:
            self.busy = False


def eq(a, b):
    return z3.And([_e(x) == _e(y) for x, y in zip(a, b)])


_open = builtins.open


class File:
    """a file opened for writing: every step is a crash point, and each write may have reached the disk"""

    def __init__(self, f, world):
        self.__dict__['f'], self.__dict__['world'] = f, world

    def __getattr__(self, name):
        return getattr(self.f, name)

    def step(self, when):
        if self.world.buffered is None:
            self.world.buffered = self.world.picks.value(2) == 1
        if not self.world.buffered:
            self.flushed()
        self.world.snapshot(when)

    def flushed(self):
        with contextlib.suppress(ValueError):
            self.f.flush()

    def flush(self):
        self.f.flush()
        self.world.snapshot('after a flush')

    def write(self, data):
        r = self.f.write(data)
        self.step('after a write')
        return r

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def truncate(self, *a):
        r = self.f.truncate(*a)
        self.step('after a truncation')
        return r

    def close(self):
        self.f.close()
        self.world.snapshot('after a close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)


class Selector(selectors.DefaultSelector):
    world = None

    def select(self, timeout=None):
        r = super().select(0)
        if r or timeout == 0:
            return r
        self.world.idle()
        return super().select(0)


class Policy(asyncio.DefaultEventLoopPolicy):
    world = None

    def new_event_loop(self):
        sel = Selector()
        sel.world = self.world
        return asyncio.SelectorEventLoop(sel)


@contextlib.contextmanager
def world_patches(world, shim):
    def opener(file, mode='r', *a, **kw):
        f = _open(file, mode, *a, **kw)
        if any(c in mode for c in 'wax+'):
            with contextlib.suppress(TypeError):
                if isinstance(file, int) or os.path.abspath(os.fsdecode(file)).startswith(world.tmp):
                    world.snapshot('after an open')
                    return File(f, world)
        return f

    def stepped(fn, name):
        def g(*a, **kw):
            world.snapshot(f'before {name}')
            r = fn(*a, **kw)
            world.snapshot(f'after {name}')
            return r
        return g

    class Pool:
        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def submit(self, fn, *a, **kw):
            return world.submit(fn, *a, **kw)

        def shutdown(self, *a, **kw):
            pass
    policy = Policy()
    policy.world = world
    old = asyncio.get_event_loop_policy()
    with contextlib.ExitStack() as st_:
        asyncio.set_event_loop_policy(policy)
        st_.callback(asyncio.set_event_loop_policy, old)
        st_.callback(asyncio.set_event_loop, None)
        for cls in ('ProcessPoolExecutor', 'ThreadPoolExecutor'):
            real = getattr(concurrent.futures, cls)
            st_.enter_context(patched(concurrent.futures, cls, Pool))
            for k, v in list(vars(co).items()):
                if v is real:
                    st_.enter_context(patched(co, k, Pool))
        st_.enter_context(patched(builtins, 'open', opener))
        st_.enter_context(patched(io, 'open', opener))
        for fn in ('replace', 'rename', 'remove', 'unlink', 'link', 'symlink', 'truncate', 'ftruncate'):
            st_.enter_context(patched(os, fn, stepped(getattr(os, fn), 'os.' + fn)))
        st_.enter_context(patched(co, 'solve_balancer', lambda *a, **kw: world.solve(*a, **kw)))
        if shim is not None:
            st_.enter_context(patched(co, 'int', shim))
        yield


def run_once(names, tmp, recs, lost, ul, obj, picks, max_jobs, tokens, ultext, keytext, shim, existing):
    """one run of the tool from the given records; returns the obligations"""
    recs = dict(recs)
    if existing:
        recs[LOST] = lost
    world = World(names, tmp, recs, picks, max_jobs, tokens)
    for n in names:
        world.nets[repr(co.open_network(os.path.join(tmp, 'networks', n)))] = n
    for f in os.listdir(tmp):
        if f != 'networks':
            os.unlink(os.path.join(tmp, f))
    if existing:
        data = {}
        for n, rs in recs.items():
            data[n] = {'exist': {keytext(s): v for s, v, _ in rs}, 'solutions': {keytext(s): sol for s, v, sol in rs if v}}
        with _open(world.path, 'w') as f:
            json.dump(data, f)
    here = os.getcwd()
    os.chdir(tmp)
    try:
        with world_patches(world, shim), time_limit(60):
            try:
                out, exc = st.run_cli(co, ['--database', DB, 'compute', ultext(ul), obj])
                if exc is not None:
                    world.obl.append((z3.BoolVal(False), f'compute fails: {exc!r}'))
                elif world.pending:
                    world.obl.append((z3.BoolVal(False), 'compute ends with jobs still running'))
            except Stop:
                pass
            except Violation as v:
                world.obl.append((z3.BoolVal(False), v.what))
        world.seen = None
        world.snapshot('at the end', rest=True)
    finally:
        os.chdir(here)
    return world.obl


def sym_records(eng, name, shape, flags, small=False):
    out = []
    minh, nodes = shape
    fresh = eng.depth >= len(eng.frames)
    for i, v in enumerate(flags):
        u, w, h = eng.int(f'{name}.u{i}', 0, 1 if small else 3), eng.int(f'{name}.w{i}', 3, 4 if small else 5), eng.int(f'{name}.h{i}', minh, minh + (not small))
        if v and fresh:
            eng.assume(z3.Or([z3.And(w.e == k, (k - 2) * h.e >= 2 * nodes) for k in range(3, 6)]))
        out.append(((u, w, h), v, [[f'{name}@{i}']] if v else None))
    if fresh:
        for (a, va, _), (b, vb, _) in itertools.combinations(out, 2):
            eng.assume(z3.Or([x.e != y.e for x, y in zip(a, b)]))
            if va and not vb:
                eng.assume(z3.Not(z3.And([x.e <= y.e for x, y in zip(a, b)])))
            if vb and not va:
                eng.assume(z3.Not(z3.And([x.e >= y.e for x, y in zip(a, b)])))
    return out


def conc_records(vals, name, flags):
    return [((vals.get(f'{name}.u{i}', 0), vals.get(f'{name}.w{i}', 3), vals.get(f'{name}.h{i}', 1)), v, [[f'{name}@{i}']] if v else None)
            for i, v in enumerate(flags)]


LOST_RECORD = [((2, 4, 2), True, [[LOST]]), ((0, 3, 1), False, None)]


def valid(cond):
    s = z3.Solver()
    s.add(z3.Not(cond))
    r = s.check()
    if r == z3.unknown:
        raise NoAnswer('z3 gave no answer')
    return r == z3.unsat


def task(t):
    names, flags, obj, max_jobs, existing, small = t
    shapes = {n: network_shape(NETS[n.split('-')[0]]) for n in names}
    eng = Engine(max_paths=400000)
    count = 0
    with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
        tmp = os.path.realpath(tmp)
        os.mkdir(os.path.join(tmp, 'networks'))
        for n in names:
            with open(os.path.join(tmp, 'networks', n), 'w') as f:
                f.write(NETS[n.split('-')[0]])

        def path_fn(eng):
            recs = {n: sym_records(eng, n, shapes[n], fl, small) for n, fl in zip(names, flags)}
            ul = eng.int('ul', 0, 2 if small else 4)
            eng.int('qu', 0), eng.int('qw', 1), eng.int('qh', 1)
            return run_once(names, tmp, recs, LOST_RECORD, ul, obj, Picks(eng), max_jobs, eng.tokens, eng.token,
                            lambda s: ','.join(str(d) for d in s), eng.int_shim(), existing)
        for obl in eng.explore(path_fn):
            for cond, what in obl:
                count += 1
                m = eng.prove(cond)
                if m is None:
                    continue
                vals = eng.inputs(m)
                recs = {n: conc_records(vals, n, fl) for n, fl in zip(names, flags)}
                real = None
                for c, w in run_once(names, tmp, recs, LOST_RECORD, vals['ul'], obj, Replayed(vals), max_jobs, {}, str,
                                     lambda s: ','.join(map(str, s)), None, existing):
                    if not valid(c):
                        real = w
                        break
                inp = {'networks': names, 'records': recs, 'underground length': vals['ul'], 'objective': obj,
                       'choices (job finishing, answer, another at once)': [v for k, v in sorted(vals.items()) if k[0] == 's' and k[1:].isdigit()]}
                if real:
                    raise Violation(real, input=inp)
                raise NoAnswer(f'counterexample does not replay: {what} {inp}')
    return {'obligations': count, 'paths': eng.paths, 'witnesses': 1 if eng.paths else 0}


def tasks(tier):
    th = tier == 'thorough'
    out = []
    a, b, c = '2x2-a', '1x2', '1x1'
    jobs = 4 if th else 3
    for obj in ('length', 'area'):
        out.append(((a, b), ((), ()), obj, jobs, False, False))
        out.append(((a, b), ((), ()), obj, jobs, True, False))
        for fl in itertools.product((True, False), repeat=2):
            out.append(((a, b), ((fl[0],), (fl[1],)), obj, 2, True, not th))
        out.append(((a,), ((True, False),), obj, jobs, True, not th))
        out.append(((a,), ((False,),), obj, jobs, True, False))
        if th:
            out.append(((a, b, c), ((), (), ()), obj, 4, False, False))
            for fl in itertools.product((True, False), repeat=2):
                out.append(((a, b), ((fl[0],), (fl[1],)), obj, 3, True, True))
                out.append(((a, b), (fl, (False,)), obj, 2, True, True))
    out.sort(key=lambda t: -sum(map(len, t[1])))
    return out


def run(ctx):
    ctx.encoded('calculate_optimal.main (compute)', 'NetworkSolutionStore.from_json', 'NetworkSolutionStore.to_json',
                'NetworkSolutionStore.add_solution', 'NetworkSolutionStore.clean', 'NetworkSolutionStore.does_balancer_exist',
                'LengthObjective.next_size', 'AreaObjective.next_size')
    ctx.assume('the process pool is a stand-in: a job may finish only between two steps of the event loop, in any order',
               'a job answers anything consistent with monotonicity; solve_balancer itself is the subject of C06 and C07',
               'a crash stops the process between two file operations; either every completed write has reached the disk or only flushed ones have; rename is atomic',
               'numbers pass through text as opaque tokens')
    ctx.map(task, tasks(ctx.tier))
