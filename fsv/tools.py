"""Run the real tools in-process up to the point where they hand their clauses to a SAT solver, and capture that."""
import contextlib
import io
import os
import sys
import tempfile
import warnings

from . import env
env.quiet_imports()
import factorio_sat.template as template
import factorio_sat.cardinality as cardinality


class Captured(BaseException):
    def __init__(self, grid, important):
        self.grid = grid
        self.important = important


class ToolError(Exception):
    pass


class CardStub:
    """Stands in for pysat's cardinality encoders: one fresh literal defined (by us) as the counting predicate."""

    def __init__(self):
        self.defs = []  # (lits, k, kind, var)

    def make(self, kind):
        stub = self

        def enc(lits=None, bound=1, top_id=None, vpool=None, encoding=1, **kw):
            lits = [int(l) for l in lits]
            v = vpool._next() if vpool is not None else max([top_id or 0] + [abs(l) for l in lits]) + 1
            stub.defs.append((list(lits), bound, kind, v))

            class R:
                clauses = [[v]]
                nv = v
            return R
        return staticmethod(enc)

    @contextlib.contextmanager
    def patch(self):
        import pysat.card
        real = pysat.card.CardEnc
        ns = {'equals': self.make('eq'), 'atmost': self.make('le'), 'atleast': self.make('ge')}
        new = type('CardEnc', (real,), ns)
        with contextlib.ExitStack() as es:
            es.enter_context(patched(pysat.card, 'CardEnc', new))
            for name, val in list(vars(cardinality).items()):
                if val is real:
                    es.enter_context(patched(cardinality, name, new))
            yield


@contextlib.contextmanager
def patched(obj, name, value):
    missing = object()
    old = obj.__dict__.get(name, missing)
    setattr(obj, name, value)
    try:
        yield
    finally:
        if old is missing:
            delattr(obj, name)
        else:
            setattr(obj, name, old)


@contextlib.contextmanager
def capture_patches():
    def itersolve(self, important_variables=(), *args, **kw):
        raise Captured(self, set(important_variables))

    def solve(self, *args, **kw):
        raise Captured(self, None)
    with patched(template.BaseGrid, 'itersolve', itersolve), patched(template.BaseGrid, 'solve', solve):
        yield


def run_main(module, argv, stdin='', files=None):
    """module.main() with argv; returns Captured.  files: {placeholder: text} written to scratch files."""
    with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
        args = []
        for a in argv:
            if files and a in files:
                p = os.path.join(tmp, 'f%d' % len(args))
                with open(p, 'w') as f:
                    f.write(files[a])
                a = p
            args.append(str(a))
        old = sys.argv, sys.stdin
        out, err = io.StringIO(), io.StringIO()
        try:
            sys.argv = ['prog'] + args
            sys.stdin = io.StringIO(stdin)
            with capture_patches(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    module.main()
                except Captured as c:
                    return c
                except SystemExit as e:
                    raise ToolError(f'exit {e.code}: {err.getvalue()[-300:]}')
        finally:
            sys.argv, sys.stdin = old
    raise ToolError('tool finished without asking for a solution')
