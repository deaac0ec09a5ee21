"""C15: the real tools run with a solver whose models are unknown.  The clause they add after a solution is captured with the
sign of every model literal symbolic; over two copies of the tool's own clauses a SAT solver shows that the clause excludes
every model with the same layout and no model with another one, which by induction makes an enumeration complete and free of
repeats.  The control flow around it (answers sat / unsat / interrupted / unknown, --all), the IPASIR wrapper and the reading
of an external solver's output are executed symbolically over all answer sequences within the bounds."""
import contextlib
import ctypes
import io
import itertools
import json
import os
import subprocess
import sys
import tempfile
import types
import warnings

import z3

from .. import env
env.quiet_imports()
from ..cnf import Builder, solve
from ..core import Violation, NoAnswer, plain, time_limit
from ..dse import Engine, Limit, SymInt, _e
from ..gridcheck import Case, Sound
from ..layout import show, kind_of, DIRS, REV
from ..tools import patched, ToolError
from .balancer import NETS
import factorio_sat.template as template
import factorio_sat.ipasir as ipasir

BOUNDS = {
    'quick': 'blocking clause: 5 tools on grids up to 6x4; control flow: every sequence of up to 4 solver answers; IPASIR: 3 variables with every value; '
             'external solver: every output of up to 4 lines from {comment, three statuses, value lines, blank, other text, end}',
    'thorough': 'blocking clause: 5 tools on grids up to 8x6; up to 6 solver answers; IPASIR: 5 variables; external solver output of up to 6 lines',
}


class NeedSign(Exception):
    pass


class Lit:
    """a model literal of unknown sign: `rel` tells whether it is the model's literal or its negation"""

    def __init__(self, var, rel=1):
        self.var, self.rel = var, rel

    @property
    def __class__(self):
        return int

    def __abs__(self):
        return self.var

    def __neg__(self):
        return Lit(self.var, -self.rel)

    def __eq__(self, o):
        if type(o) is Lit:
            if o.var != self.var:
                return False
            return o.rel == self.rel
        if isinstance(o, int) and abs(o) != self.var:
            return False
        raise NeedSign()

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.var)

    def __mul__(self, o):
        if o == 1:
            return self
        if o == -1:
            return -self
        raise NeedSign()

    __rmul__ = __mul__

    def __bool__(self):
        return True

    def _no(self, *a):
        raise NeedSign()

    __lt__ = __le__ = __gt__ = __ge__ = __int__ = __index__ = __add__ = __radd__ = __sub__ = __rsub__ = _no

    def __repr__(self):
        return f'{"" if self.rel > 0 else "not "}model[{self.var}]'


class Result:
    """stands for a decoded solution"""

    def __init__(self, tag):
        self.tag = tag

    def tolist(self):
        return self.tag


def asked_once_more(k):
    """an enumeration that goes on for ever must not take all memory"""
    if k > 200:
        raise RuntimeError('the solver is asked again and again after it has no more solutions')


class StubSolver:
    """plays the part of a pysat Solver (or, through FakeLib, of a shared library)"""

    def __init__(self, script, model):
        self.script, self.model = (script if isinstance(script, _Raw) else list(script)), model
        self.clauses, self.blocks = [], []
        self.solves = 0

    def __call__(self, name=None, bootstrap_with=None, **kw):
        self.clauses = [list(c) for c in bootstrap_with or []]
        self.name = name
        return self

    def solve(self, assumptions=(), **kw):
        k = self.solves
        asked_once_more(k)
        self.solves += 1
        return self.script[k] if k < len(self.script) else False

    solve_limited = solve

    def get_model(self):
        if not self.solves or self.script[self.solves - 1] is not True:
            return None
        return self.model(self)

    def nof_vars(self):
        return max((abs(l) for c in self.clauses for l in c), default=0)

    def add_clause(self, clause, no_return=True):
        clause = list(clause)
        if self.solves:
            self.blocks.append((self.solves, clause))
        else:
            self.clauses.append(clause)

    def append_formula(self, formula, no_return=True):
        for c in formula:
            self.add_clause(c)

    def delete(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Fn:
    def __init__(self, fn):
        self.fn = fn
        self.argtypes = self.restype = None

    def __call__(self, *a):
        return self.fn(*a)


class FakeLib:
    """an IPASIR library; answers come from a StubSolver"""

    def __init__(self, stub, val=None):
        self.stub = stub
        self.buf = []
        self.val = val

        def add(p, lit):
            if type(lit) is not Lit and lit == 0:
                stub.add_clause(self.buf)
                self.buf = []
            else:
                self.buf.append(lit)

        def solve_(p):
            return {True: 10, False: 20, None: 0}.get(stub.solve(), 99) if not isinstance(stub.script, _Raw) else stub.solve()
        for name, fn in {'signature': lambda: b'stub', 'init': lambda: 1, 'release': lambda p: None, 'add': add, 'assume': lambda p, l: None,
                         'solve': solve_, 'val': lambda p, v: (self.val or (lambda w: Lit(w)))(v), 'failed': lambda p, l: 0,
                         'set_terminate': lambda *a: None, 'set_learn': lambda *a: None}.items():
            setattr(self, 'ipasir_' + name, Fn(fn))


class _Raw(list):
    pass


@contextlib.contextmanager
def fake_library(lib):
    shim = types.ModuleType('ctypes')
    shim.__dict__.update(ctypes.__dict__)

    def load(name=None, *a, **k):
        lib.name = name
        return lib
    shim.cdll = types.SimpleNamespace(LoadLibrary=load)
    shim.CDLL = load
    with patched(ipasir, 'ctypes', shim):
        yield


def run_tool(module, argv, stub, lib=None, files=None, result=None):
    """module.main() with the stub solver; returns (printed lines, grid, exception)"""
    seen = []

    def parse_solution(self, solution):
        seen.append((self, solution))
        return Result(len(seen) - 1 if result is None else result(solution))
    with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
        args = []
        outfile = None
        for a in argv:
            if files and a in files:
                p = os.path.join(tmp, 'f%d' % len(args))
                if files[a] is None:
                    outfile = p
                else:
                    with open(p, 'w') as f:
                        f.write(files[a])
                a = p
            args.append(str(a))
        old = sys.argv, sys.stdin
        out = io.StringIO()
        exc = None
        try:
            sys.argv = ['prog'] + args
            sys.stdin = io.StringIO('')
            with contextlib.ExitStack() as es:
                es.enter_context(patched(template, 'Solver', stub))
                if lib is not None:
                    es.enter_context(fake_library(lib))
                es.enter_context(patched(template.BaseGrid, 'parse_solution', parse_solution))
                es.enter_context(contextlib.redirect_stdout(out))
                es.enter_context(contextlib.redirect_stderr(io.StringIO()))
                es.enter_context(warnings.catch_warnings())
                warnings.simplefilter('ignore')
                try:
                    module.main()
                except NeedSign:
                    raise
                except SystemExit as e:
                    if e.code not in (0, None):
                        exc = e
                except Exception as e:
                    exc = e
        finally:
            sys.argv, sys.stdin = old
        text = out.getvalue()
        if outfile:
            with open(outfile) as f:
                text += f.read()
    return text.splitlines(), seen, exc


def modules():
    from factorio_sat import belt_balancer, belt_balancer_net_free, belt_balancer_net_free_power_of_2, interchange, make_block
    return {'net': belt_balancer, 'free': belt_balancer_net_free, 'p2': belt_balancer_net_free_power_of_2, 'inter': interchange, 'block': make_block}


def argv_of(cfg):
    tool, args = cfg[0], list(cfg[1])
    files = {'NET': NETS[cfg[2]]} if len(cfg) > 2 and cfg[2] else {}
    return modules()[tool], args, files


# --- the blocking clause -----------------------------------------------------------------------------------------------------
def all_vars(grid):
    return sorted({v for row in grid.tiles for i in row for v in template.flatten(i)})


class Blocking:
    """entries of the blocking clause of a model: (var, literal if the model has var true, literal if false); a literal is
    +1 (var must be true), -1 (var must be false), 0 (absent)"""

    def __init__(self, cfg, backend):
        self.cfg, self.backend = cfg, backend
        module, argv, files = argv_of(cfg)
        argv = argv + ['--all']

        def once(model, val=None):
            stub = StubSolver([True, True, False], model)
            lib = FakeLib(stub, val) if backend == 'lib' else None
            lines, seen, exc = run_tool(module, argv + (['--solver', 'lib:stub'] if lib else []), stub, lib, files)
            if exc is not None:
                raise exc
            return stub, seen
        self.separable = False
        try:
            stub, seen = once(lambda s: [Lit(v) for v in self.space(s)])
            self.check(stub)
            self.clauses = []
            for n, c in stub.blocks:
                e = {}
                for l in c:
                    if type(l) is Lit:
                        t, f = e.get(l.var, (set(), set()))
                        t.add(l.rel)
                        f.add(-l.rel)
                        e[l.var] = t, f
                    else:
                        t, f = e.setdefault(abs(l), (set(), set()))
                        t.add(1 if l > 0 else -1)
                        f.add(1 if l > 0 else -1)
                self.clauses.append(e)
        except NeedSign:
            self.separable = True
            sides = []
            for sign in (1, -1):
                stub, seen = once(lambda s: [sign * v for v in self.space(s)], lambda v: sign * v)
                self.check(stub)
                sides.append([{v: {1 if l > 0 else -1 for l in c if abs(l) == v} for v in map(abs, c)} for n, c in stub.blocks])
            self.clauses = []
            for p, n in zip(*sides):
                self.clauses.append({v: (p.get(v, set()), n.get(v, set())) for v in set(p) | set(n)})
        self.grid = seen[0][0]
        self.given = stub.clauses
        if self.clauses[0] != self.clauses[1]:
            raise Violation('the second solution is excluded in another way than the first', config=cfg)
        self.entries = self.clauses[0]

    def space(self, stub):
        n = stub.nof_vars()
        return range(1, n + 1)

    def check(self, stub):
        per = [n for n, _ in stub.blocks]
        if per != [1, 2]:
            raise NoAnswer(f'expected one clause after each solution, got {per}')


def tool_case(cfg, backend):
    info = {}

    def make():
        bl = Blocking(cfg, backend)
        info['bl'] = bl
        g = bl.grid
        if sorted(map(sorted, bl.given)) != sorted(map(sorted, ([int(x) for x in c] for c in g.clauses))):
            raise Violation('the solver is not given the clauses of the grid', config=cfg)
        g._fsv = bl
        return g
    return Case(make, config=cfg)


def shift(clauses, n):
    return [[l + n if l > 0 else l - n for l in c] for c in clauses]


def blocking_task(t):
    cfg, backend = t
    case = tool_case(cfg, backend)
    s = Sound(case)
    bl = case.grid._fsv
    n = s.b.n
    b = Builder(2 * n + 1)

    def other(l):
        return l + n if l > 0 else l - n
    sat = []
    for v, (t_, f_) in bl.entries.items():
        for sign in t_:
            sat.append(b.and_(v, other(sign * v)))
        for sign in f_:
            sat.append(b.and_(-v, other(sign * v)))
    allowed = b.or_(sat) if sat else b.F
    parts = [l for p in s.dec.cells for l in s.lay.k[p].values()]
    # which splitter halves at the border are connected to the outside is part of the layout
    parts += [l for p in s.dec.cells for d in DIRS for x, e in ((s.lay.xout, d), (s.lay.xin, REV[d])) if s.lay.nb(p, e) is None for l in [x[p, d]]]
    same = b.and_([b.iff(l, other(l)) for l in parts if abs(l) != abs(s.b.T)])
    base = [case.grid.clauses, s.b.clauses, shift(case.grid.clauses, n), shift(s.b.clauses, n), b.clauses]
    nob = 0
    for lits, what in (([same, allowed], 'a layout is reported again'), ([-same, -allowed], 'an unseen layout is excluded with another one')):
        nob += 1
        m = solve(*base, assumptions=lits)
        if m is not None:
            replay_block(case, s, m, n, what, backend)
    # every reported value must come from the model: all template variables are known to the solver
    known = {abs(l) for c in case.real().clauses for l in c}
    nob += 1
    missing = [v for v in all_vars(case.real()) if v not in known]
    if missing and backend == 'lib':
        raise Violation('a reported value is not part of any constraint, so a shared library has no value for it', config=cfg, input=missing[:5])
    w = sum(solve(*base, assumptions=[x]) is not None for x in (same, -same))
    return {'obligations': nob, 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{cfg} {backend}'}


def replay_block(case, s, m, n, what, backend):
    """two models of the untouched clauses, driven through the real enumeration of the real tool"""
    tm = case.template_map()
    real = case.real()
    full = []
    for off in (0, n):
        f = solve(real.clauses, assumptions=[(tm[v] if m[v + off] else -tm[v]) for v in tm if v + off in m])
        if f is None:
            raise NoAnswer(f'counterexample does not replay: {what}')
        full.append(f)
    nv = max(max(f) for f in full)
    for f in full:
        for v in range(1, nv + 1):
            f.setdefault(v, False)
    kinds, ports = [], []
    for f in full:
        sol = real.parse_solution([v if x else -v for v, x in f.items()])
        kinds.append({(x, y): kind_of(sol[y, x]['tile']) for y in range(real.height) for x in range(real.width)})
        ports.append({p: (sol[p[1], p[0]]['input_direction'], sol[p[1], p[0]]['output_direction']) for p, k in kinds[-1].items() if k[0] == 'S'})
    # concrete run: the first model is the first answer; is the second one still allowed?
    module, argv, files = argv_of(case.info['config'])
    lits = [v if full[0][v] else -v for v in range(1, nv + 1)]
    stub = StubSolver([True, False], lambda s_: list(lits))
    lib = FakeLib(stub, lambda v: v if full[0][v] else -v) if backend == 'lib' else None
    run_tool(module, argv + ['--all'] + (['--solver', 'lib:stub'] if lib else []), stub, lib, files)
    second = [v if full[1][v] else -v for v in range(1, nv + 1)]
    ok = solve(real.clauses, [c for _, c in stub.blocks], assumptions=second) is not None
    # auxiliary variables of the second model are free
    tmv = set(tm.values())
    ok_any = solve(real.clauses, [c for _, c in stub.blocks], assumptions=[l for l in second if abs(l) in tmv]) is not None
    same = kinds[0] == kinds[1] and ports[0] == ports[1]
    if same and (ok or ok_any) or not same and not ok_any:
        raise Violation(what, layout=show(kinds[0]) + '\n--- and then\n' + show(kinds[1]), **case.info)
    raise NoAnswer(f'counterexample does not replay: {what}')


# --- control flow ------------------------------------------------------------------------------------------------------------
ANSWERS = [True, False, None]


def control_task(t):
    cfg, backend, every, outfile, length = t
    module, argv, files = argv_of(cfg)
    files = dict(files)
    if outfile:
        argv = argv + ['--output', 'OUT']
        files['OUT'] = None
    if every:
        argv = argv + ['--all']
    eng = Engine()
    count = 0

    def once(answers):
        stub = StubSolver([], lambda s: [v if (s.solves + v) % 2 else -v for v in range(1, s.nof_vars() + 1)])
        raw = backend == 'lib'
        stub.script = _Raw() if raw else []
        asked = []

        def solve_(assumptions=(), **kw):
            k = stub.solves
            asked_once_more(k)
            a = answers(k)
            asked.append(a)
            stub.solves += 1
            stub.script.append(True if a in (True, 10) else None)
            return a
        stub.solve = stub.solve_limited = solve_
        lib = FakeLib(stub, lambda v: v if (stub.solves + v) % 2 else -v) if raw else None
        tags = {}
        with time_limit(60):
            lines, seen, exc = run_tool(module, argv + (['--solver', 'lib:stub'] if lib else []), stub, lib, files,
                                        result=lambda sol: tags.setdefault(tuple(sorted(sol, key=abs)), len(tags)))
        return asked, lines, seen, exc, stub

    def verdict(res):
        asked, lines, seen, exc, stub = res
        good = 0
        for a in asked:
            if a in (True, 10) and a is not False:
                good += 1
            else:
                break
        bad = [a for a in asked if a not in (True, False, None, 10, 20, 0)]
        if exc is not None and not bad:
            return f'the tool fails: {exc!r}'
        if exc is None and bad:
            return f'the unknown solver answer {bad[0]} is taken as an answer'
        try:
            vals = [json.loads(l) for l in lines]
        except ValueError:
            return f'printed {lines}'
        want = good if every else min(good, 1)
        if len(vals) != want:
            return f'{want} solutions were found, {len(vals)} printed'
        if len(seen) < want:
            return 'a printed solution is not decoded from a model'
        for i in range(want):
            k = i + 1
            expect = {v: (k + v) % 2 == 1 for v in range(1, stub.nof_vars() + 1)}
            got = {abs(l): l > 0 for l in seen[i][1]}
            if any(expect.get(v) != x for v, x in got.items()):
                return f'solution {i} is not read from the model of the solver'
            missing = set(all_vars(seen[i][0])) & set(expect) - set(got)
            if missing and backend != 'lib':
                return f'solution {i} lacks model values'
        if every and good == len(asked):
            return 'the tool stops asking although the last answer was a solution'
        return None

    def path_fn(eng):
        picks = {}

        def answers(k):
            if k >= length:
                return 20 if backend == 'lib' else False
            if backend == 'lib':
                a = eng.int(f'a{k}', 0, 100)
                picks[k] = a
                for c in (10, 20, 0):
                    if a == c:
                        return c
                return 99 if not (a == 99) else 99
            return ANSWERS[int(eng.int(f'a{k}', 0, 2))]
        return verdict(once(answers))
    for v in eng.explore(path_fn):
        count += 1
        if v is not None:
            vals = eng.inputs()

            def concrete(k):
                if k >= length:
                    return 20 if backend == 'lib' else False
                a = vals.get(f'a{k}', 0)
                if backend == 'lib':
                    return a if a in (10, 20, 0) else 99
                return ANSWERS[a]
            real = verdict(once(concrete))
            if real is None:
                raise NoAnswer(f'counterexample does not replay: {v}')
            raise Violation(real, input={'solver answers': [vals[k] for k in sorted(vals)], 'tool': cfg, 'all': every}, config=t)
    return {'obligations': count, 'paths': eng.paths, 'witnesses': 1}


def grid_solve_task(t):
    """BaseGrid.solve / check on every kind of answer"""
    from factorio_sat.solver import Grid
    backend, = t
    count = 0
    for a in ([True, False, None] if backend != 'lib' else [10, 20, 0, 7, -1]):
        count += 1
        stub = StubSolver(_Raw([a]) if backend == 'lib' else [a], lambda s: [v if v % 3 else -v for v in range(1, s.nof_vars() + 1)])
        if backend == 'lib':
            stub.get_model = None
        g = Grid(2, 2, 1)
        g.prevent_intersection()
        lib = FakeLib(stub, lambda v: v if v % 3 else -v)
        seen = []

        def parse_solution(self, sol):
            seen.append({abs(l): l > 0 for l in sol})
            return 'layout'
        with patched(template, 'Solver', stub), fake_library(lib), patched(template.BaseGrid, 'parse_solution', parse_solution):
            try:
                r = g.solve('lib:x' if backend == 'lib' else 'g3')
            except Exception as e:
                r = e
        if a in (True, 10) and a is not False:
            ok = isinstance(r, str) and r == 'layout' and seen and all(x == bool(v % 3) for v, x in seen[0].items()) and set(all_vars(g)) <= set(seen[0])
        elif a in (False, None, 20, 0):
            ok = r is None
        else:
            ok = isinstance(r, Exception)
        if not ok:
            raise Violation(f'solve turns the solver answer {a} into {r!r}', input=a)
        if sorted(map(sorted, stub.clauses)) != sorted(map(sorted, g.clauses)):
            raise Violation('solve does not hand all clauses to the solver', input=a)
    return {'obligations': count, 'witnesses': 1}


def solver_choice_task(t):
    """the solver the user names is the one that gets all clauses and whose answer counts, in solve, check and itersolve"""
    from factorio_sat.solver import Grid
    method, = t
    eng = Engine()
    count = 0
    names = ['g3', 'Glucose4', 'cadical153', 'lib:./libsolver.so', 'lib:/opt/lib/s', 'cmd:prog -x', 'cmd:prog -a "b c" $FILE --end']
    for name in names:
        def once(a):
            stub = StubSolver([], lambda s: [v if v % 3 else -v for v in range(1, s.nof_vars() + 1)])
            stub.name = None
            def solve_(*_, **k):
                asked_once_more(stub.solves)
                stub.solves += 1
                return a if stub.solves == 1 else False
            stub.solve = stub.solve_limited = solve_
            stub.get_model = lambda: stub.model(stub)
            lib = FakeLib(stub, lambda v: v if v % 3 else -v)
            lib.name = None
            lib.ipasir_solve = Fn(lambda p: 10 if stub.solve() else 20)
            g = Grid(2, 2, 1)
            g.prevent_intersection()
            top = max(all_vars(g))
            seen, ran = [], {}

            def parse_solution(self, sol):
                seen.append({abs(l): l > 0 for l in sol})
                return 'layout'

            def popen(pieces, *_, **kw):
                lines = iter([b's SATISFIABLE\n', b'v ' + ' '.join(str(v if v % 3 else -v) for v in range(1, top + 1)).encode() + b' 0\n'] if a else [b's UNSATISFIABLE\n'])
                ran['pieces'], ran['proc'] = list(pieces), Proc(Pipe(lambda: next(lines, b'')), lambda: None)
                for piece in pieces:
                    if piece.endswith('.cnf'):
                        ran['text'] = open(piece).read()
                return ran['proc']
            sub = types.ModuleType('subprocess')
            sub.__dict__.update(subprocess.__dict__)
            sub.Popen = popen
            with patched(template, 'Solver', stub), fake_library(lib), patched(template.BaseGrid, 'parse_solution', parse_solution), patched(template, 'subprocess', sub), time_limit(60):
                r = getattr(g, method)(solver=name)
                if method == 'itersolve':
                    r = list(r)
            kind, _, rest = name.partition(':')
            if kind == 'cmd':
                import shlex
                want = shlex.split(rest)
                got = [w if w.endswith('.cnf') is False else '$FILE' for w in ran.get('pieces', [])]
                if got != want:
                    return f'the command run is {ran.get("pieces")}'
                _, clauses = parse_dimacs(ran.get('text') or ran['proc'].sent, int)
            else:
                if kind == 'lib' and (lib.name != rest or stub.name is not None):
                    return f'the library loaded is {lib.name}'
                if kind != 'lib' and (lib.name is not None or stub.name != name):
                    return f'the solver used is {stub.name}'
                clauses = stub.clauses
            if sorted(map(sorted, clauses)) != sorted(map(sorted, g.clauses)):
                return 'not all clauses reach the solver'
            want = {'solve': 'layout' if a else None, 'check': a, 'itersolve': ['layout'] if a else []}[method]
            if r != want or type(r) is not type(want):
                return f'the answer {"satisfiable" if a else "unsatisfiable"} gives {r!r}'
            if a and not (set(all_vars(g)) <= set(seen[0]) and all(x == bool(v % 3) for v, x in seen[0].items())):
                return 'the solution is not the one the solver found'
            return None
        for v in eng.explore(lambda e: once(True) if e.int('answer', 0, 1) == 1 else once(False)):
            count += 1
            if v is not None:
                raise Violation(f'{method} with solver {name!r}: {v}', input=eng.inputs())
    return {'obligations': count, 'paths': eng.paths, 'witnesses': 1}


# --- IPASIR wrapper ------------------------------------------------------------------------------------------------------------
def ipasir_task(t):
    nvars, = t
    eng = Engine()
    count = 0

    def once(lit, val, answer):
        """two clauses of unknown literals added both ways, then a model"""
        stub = StubSolver(_Raw([answer]), None)
        lib = FakeLib(stub, val)
        with fake_library(lib):
            s = ipasir.IPASIRLibrary('x').create_solver()
            s.add_clauses([[lit(0), lit(1)], [lit(2)]])
            s.add_clause([lit(i) for i in range(nvars)])
            with s:
                r = s.solve()
                model = s.get_model() if r else None
        return stub.clauses, r, model

    def path_fn(eng):
        # every variable with an unknown sign; the value the library reports is var, -var or 0
        lits = []
        for i in range(nvars):
            lits.append((i + 1) if eng.int(f'g{i}', 0, 1) == 1 else -(i + 1))
        vals = {}
        def val(v):
            k = eng.int(f'v{v}', -1, 1)
            for c in (-1, 0):
                if k == c:
                    return c * v
            return v
        ans = eng.int('ans', -5, 100)
        a = 10 if ans == 10 else 20 if ans == 20 else 0 if ans == 0 else 33
        try:
            res = once(lambda i: lits[i], val, a)
        except RuntimeError as e:
            res = e
        return judge(lits, a, res, lambda v: val(v))

    def judge(lits, a, res, val):
        if a == 33:
            return None if isinstance(res, RuntimeError) else f'unknown answer taken as {res[1]!r}'
        if isinstance(res, Exception):
            return f'fails: {res!r}'
        clauses, r, model = res
        want = [[lits[0], lits[1]], [lits[2]], lits]
        if clauses != want:
            return f'clauses {want} arrive as {clauses}'
        if (r is True) != (a == 10) or (r is False) != (a == 20) or (r is None) != (a == 0):
            return f'answer {a} is reported as {r}'
        if a == 10:
            if sorted(map(abs, model)) != list(range(1, nvars + 1)):
                return f'the model is {model}'
            for l in model:
                v = val(abs(l))
                if v != 0 and v != l:
                    return f'variable {abs(l)} has value {v} but is reported as {l}'
        return None
    for v in eng.explore(path_fn):
        count += 1
        if v is not None:
            raise Violation('IPASIR wrapper: ' + v, input=eng.inputs())
    return {'obligations': count, 'paths': eng.paths, 'witnesses': 1}


# --- external solver ---------------------------------------------------------------------------------------------------------------
LINES = ['c', 'sat', 'unsat', 'unknown', 'v', 'vv', 'v0', 'blank', 'junk', 'eof']


class Pipe(io.BufferedIOBase):
    """solver output, one line at a time, each decided when it is read"""

    def __init__(self, nxt):
        self.nxt, self.buf = nxt, b''

    def readable(self):
        return True

    def read1(self, n=-1):
        if not self.buf:
            self.buf = self.nxt()
        if n is None or n < 0:
            n = len(self.buf)
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def read(self, n=-1):
        if n is not None and n >= 0:
            return self.read1(n)
        out = b''
        while True:
            c = self.read1()
            if not c:
                return out
            out += c


class Proc:
    def __init__(self, pipe, polls):
        self.stdout = pipe
        self.stdin = io.BytesIO()
        self.sent = None
        real_close = self.stdin.close

        def close():
            if not self.stdin.closed:
                self.sent = self.stdin.getvalue().decode()
            real_close()
        self.stdin = _In(self)
        self.polls = polls
        self.returncode = 0

    def poll(self):
        return self.polls()

    def wait(self, timeout=None):
        return 0

    def communicate(self, data=None, timeout=None):
        if data is not None:
            self.stdin.write(data)
        self.stdin.close()
        return self.stdout.read(), b''

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _In(io.RawIOBase):
    def __init__(self, proc):
        self.proc, self.data = proc, b''
        proc.sent = ''

    def writable(self):
        return True

    def write(self, b):
        self.data += bytes(b)
        self.proc.sent = self.data.decode()
        return len(b)


def parse_dimacs(text, conv):
    clauses, head = [], None
    for line in text.splitlines():
        w = line.split()
        if not w or w[0] == 'c':
            continue
        if w[0] == 'p':
            head = w
            continue
        if w[-1] != '0':
            raise ValueError(line)
        clauses.append([conv(x) for x in w[:-1]])
    return head, clauses


def command_task(t):
    use_file, depth, first = t
    eng = Engine(max_paths=400000)
    count = 0

    def once(pick, number, shim, conv, lits):
        """pick(k, n) -> index; number(k) -> text of an unknown nonzero integer; returns (result or exception, script, sent)"""
        script, log = [], {'sent': None, 'polls': 0, 'n': 0}

        def nxt():
            k = len(script)
            if script and script[-1][0] == 'eof':
                return b''
            if k >= depth:
                kind = 'eof'
            elif k == 0:
                kind = first
            else:
                kind = LINES[pick(f'l{k}', len(LINES))]
            nums = []
            if kind in ('v', 'vv', 'v0'):
                for _ in range({'v': 1, 'vv': 2, 'v0': 1}[kind]):
                    nums.append(number(log['n']))
                    log['n'] += 1
            script.append((kind, [n[1] for n in nums]))
            text = {'c': 'c some text', 'sat': 's SATISFIABLE', 'unsat': 's UNSATISFIABLE', 'unknown': 's UNKNOWN', 'blank': '', 'junk': 'xyz 12'}.get(kind)
            if kind == 'eof':
                return b''
            if text is None:
                text = 'v ' + ' '.join(n[0] for n in nums) + (' 0' if kind == 'v0' else '')
            return (text + '\n').encode()

        def polls():
            log['polls'] += 1
            return 0 if log['polls'] > 1 or pick('poll', 2) else None

        def popen(pieces, *a, **kw):
            p = Proc(Pipe(nxt), polls)
            log['proc'], log['pieces'] = p, pieces
            if use_file:
                with open(pieces[1]) as f:
                    log['sent'] = f.read()
            return p
        sub = types.ModuleType('subprocess')
        sub.__dict__.update(subprocess.__dict__)
        sub.Popen = popen
        with contextlib.ExitStack() as es:
            es.enter_context(patched(template, 'subprocess', sub))
            if shim is not None:
                es.enter_context(patched(template, 'int', shim))
            es.enter_context(contextlib.redirect_stderr(io.StringIO()))
            es.enter_context(time_limit(30))
            try:
                r = template.run_command_solver('prog $FILE -x' if use_file else 'prog -x', lits)
            except Exception as e:
                if type(e).__name__ == 'Hang':
                    raise
                r = e
        if isinstance(r, Exception):
            while nxt():  # what the solver would still have said
                pass
        sent = log['sent'] if use_file else log['proc'].sent
        return r, script, sent, log['pieces']

    def judge(res, lits, conv):
        """[(condition, description)]"""
        r, script, sent, pieces = res
        out = []
        want = 'error'
        model = None
        it = iter(script)
        for kind, nums in it:
            if kind == 'eof':
                break
            if kind == 'unsat':
                want = 'none'
                break
            if kind == 'unknown':
                break
            if kind == 'sat':
                model = []
                for kind, nums in it:
                    if kind == 'c':
                        continue
                    if kind in ('v', 'vv', 'v0'):
                        model += nums
                        if kind == 'v0':
                            want = 'model'
                            break
                        continue
                    break
                break
        desc = [k for k, _ in script]
        if want == 'none':
            out.append((z3.BoolVal(r is None), f'output {desc} gives {type(r).__name__}'))
        elif want == 'error':
            out.append((z3.BoolVal(isinstance(r, Exception)), f'output {desc}, which is no answer, is taken as {"unsatisfiable" if r is None else "a solution"}'))
        else:
            if not isinstance(r, list) or len(r) != len(model):
                out.append((z3.BoolVal(False), f'output {desc} gives {r!r} instead of a solution of {len(model)} values'))
            else:
                out.append((z3.And([_e(a) == _e(x) for a, x in zip(r, model)] + [z3.BoolVal(True)]), f'output {desc}: the values differ'))
        try:
            head, got = parse_dimacs(sent, conv)
        except Exception as e:
            return out + [(z3.BoolVal(False), f'the formula given to the solver is malformed: {e!r}')]
        if len(got) != len(lits) or any(len(x) != len(y) for x, y in zip(got, lits)):
            out.append((z3.BoolVal(False), 'the formula given to the solver has other clauses'))
        else:
            out.append((z3.And([_e(a) == _e(x) for x, y in zip(got, lits) for a, x in zip(x, y)]), 'the formula given to the solver has other literals'))
            if head is None or head[:2] != ['p', 'cnf'] or conv(head[3]) != len(lits):
                out.append((z3.BoolVal(False), f'the formula given to the solver starts with {head}'))
            else:
                nv = _e(conv(head[2]))
                out.append((z3.And([z3.And(nv >= _e(x), nv >= -_e(x)) for c in lits for x in c]), 'the formula announces too few variables'))
        if pieces[0] != 'prog' or pieces[-1] != '-x':
            out.append((z3.BoolVal(False), f'the solver is started as {pieces}'))
        return out

    def path_fn(eng):
        def number(k):
            n = eng.int(f'n{k}')
            eng.assume(n.e != 0)
            return eng.token(n), n

        def conv(x):
            if x in eng.tokens:
                return eng.tokens[x]
            if x[:1] == '-' and x[1:] in eng.tokens:
                return -eng.tokens[x[1:]]
            return int(x)
        lits = [[eng.int('x0', 1, 9), -eng.int('x1', 1, 9)], [eng.int('x2', 1, 9)]]
        res = once(lambda name, n: int(eng.int(name, 0, n - 1)), number, eng.int_shim(), conv, lits)
        return judge(res, lits, conv)
    for obl in eng.explore(path_fn):
        for cond, what in obl:
            count += 1
            m = eng.prove(cond)
            if m is None:
                continue
            vals = eng.inputs(m)
            lits = [[vals['x0'], -vals['x1']], [vals['x2']]]

            def number(k):
                n = vals.get(f'n{k}', 1)
                return str(n), n
            real = None
            for c, w in judge(once(lambda name, n: vals.get(name, 0), number, None, int, lits), lits, int):
                if not z3.is_true(z3.simplify(c)):
                    real = w
                    break
            if real is None:
                raise NoAnswer(f'counterexample does not replay: {what}')
            raise Violation('external solver: ' + real, input={k: v for k, v in vals.items()}, config=t)
    return {'obligations': count, 'paths': eng.paths, 'witnesses': 1}


def dispatch(t):
    return {'block': blocking_task, 'control': control_task, 'solve': grid_solve_task, 'choice': solver_choice_task, 'ipasir': ipasir_task, 'cmd': command_task}[t[0]](t[1])


TOOLS = [
    ('net', ('NET', 4, 2), '2x2'), ('net', ('NET', 5, 3), '2x2'), ('net', ('NET', 5, 3, '--use-ends'), '2x2'), ('net', ('NET', 4, 4, '--90'), '1x2'),
    ('net', ('NET', 4, 5, '--180'), '1x2'), ('net', ('NET', 4, 3, '--custom'), '1x2'), ('net', ('NET', 6, 4, '--fast', '--aligned'), '4x4'),
    ('net', ('NET', 5, 3, '--break-symmetry'), '1x3'), ('net', ('NET', 4, 4, '--custom', '--underground-length', 1), 'loop'),
    ('free', (5, 2, 2, 2)), ('free', (4, 3, 1, 2)), ('free', (5, 4, 2, 3, '--aligned')), ('p2', (5, 4)), ('p2', (6, 4)),
    ('inter', (5, 4)), ('inter', (5, 4, '--alternating')), ('inter', (5, 4, '--rot-symmetry')), ('inter', (6, 2)),
    ('block', (3, 3)), ('block', (4, 3, '--tile')), ('block', (4, 4, '--allow-empty')), ('block', (4, 4, '--tile', '--allow-empty', '--no-parallel')),
    ('block', (3, 2, '--single-loop')), ('block', (4, 4, '--underground-length', 0)),
]
MORE = [
    ('net', ('NET', 6, 5), '2x2'), ('net', ('NET', 7, 4, '--use-ends'), '4x4'), ('net', ('NET', 6, 5, '--90', '--use-ends'), '2x4'), ('net', ('NET', 6, 6, '--180'), '2x2'),
    ('net', ('NET', 5, 5, '--custom'), '1x3r'), ('net', ('NET', 8, 5, '--fast'), '3x2'), ('free', (6, 4, 3, 3)), ('p2', (8, 4)),
    ('inter', (7, 6)), ('block', (6, 6)), ('block', (6, 5, '--tile', '--allow-empty')), ('block', (4, 4, '--single-loop', '--tile')),
]


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for i, cfg in enumerate(TOOLS + (MORE if th else [])):
        out.append(('block', (cfg, 'pysat')))
        if th or i % 3 == 0:
            out.append(('block', (cfg, 'lib')))
    small = [('net', ('NET', 4, 2), '2x2'), ('free', (4, 2, 2, 2)), ('p2', (4, 4)), ('inter', (3, 2)), ('block', (2, 2))]
    for cfg in small:
        for every in (False, True):
            for backend in ('pysat', 'lib'):
                out.append(('control', (cfg, backend, every, False, (6 if th else 4) if cfg[0] in ('inter', 'block') else 3)))
    for every in (False, True):
        out.append(('control', (('block', (2, 2)), 'pysat', every, True, 6 if th else 4)))
    out += [('choice', (m,)) for m in ('solve', 'check', 'itersolve')] + [('solve', ('pysat',)), ('solve', ('lib',)), ('ipasir', (5 if th else 3,))]
    for use_file in (False, True):
        for first in LINES:
            out.append(('cmd', (use_file, 6 if th else 4 if not use_file else 3, first)))
    return out


def run(ctx):
    ctx.encoded('template.BaseGrid.itersolve', 'template.BaseGrid.solve', 'solver.Grid.itersolve', 'template.run_command_solver', 'ipasir.IPASIRLibrary',
                'ipasir.IPASIRSolver.add_clause', 'ipasir.IPASIRSolver.add_clauses', 'ipasir.IPASIRSolver.solve', 'ipasir.IPASIRSolver.get_model',
                'main of belt_balancer, belt_balancer_net_free, belt_balancer_net_free_power_of_2, interchange, make_block')
    ctx.assume('the SAT solver used by the tool answers correctly about the clauses it was given',
               'an interrupted solver ends an enumeration',
               'an external command is asked once, so it yields at most one layout',
               'if the code inspects signs of model literals, the blocking clause is taken to treat each literal on its own')
    ctx.map(dispatch, tasks(ctx.tier))
