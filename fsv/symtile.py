"""Symbolic tiles for the forking engine: finite-domain objects over every tile kind, optionally under the rules of belt
physics, and symbolic values inside JSON text."""
import contextlib
import io
import json
import sys
import warnings

from . import env
env.quiet_imports()
import factorio_sat.tile as tile_mod
from factorio_sat.direction import Direction

from .cnf import Builder
from .dse import Engine, FD, SymInt
from .layout import KINDS, DIRS, Layout, tile_json, kind_of, show, REV, CCW, CW, VEC
from .tools import patched

EXTRA = [('F',)] + [('I', d, t) for d in DIRS for t in (0, 1)] + [('A', x, y) for x in range(3) for y in range(3)]
ALL = KINDS + EXTRA


def to_json(kind):
    k = kind[0]
    if k == 'F':
        return {'type': 'filler'}
    if k == 'I':
        return {'type': 'inserter', 'direction': kind[1], 'insert_type': kind[2]}
    if k == 'A':
        return {'type': 'assembling_machine', 'x': kind[1], 'y': kind[2]}
    return tile_json(kind)


def from_json(t):
    k = t['type']
    if k == 'filler':
        return ('F',)
    if k == 'inserter':
        return ('I', int(t['direction']), int(t['insert_type']))
    if k == 'assembling_machine':
        return ('A', int(t['x']), int(t['y']))
    if k == 'empty':
        return ('E',)
    return kind_of(t)


def to_tile(kind):
    """the real tile object"""
    k = kind[0]
    D = [Direction.RIGHT, Direction.UP, Direction.LEFT, Direction.DOWN]
    if k == 'E':
        return tile_mod.EmptyTile()
    if k == 'F':
        return tile_mod.FillerTile()
    if k == 'B':
        return tile_mod.Belt(D[kind[1]], D[kind[2]])
    if k in ('UI', 'UO'):
        return tile_mod.UndergroundBelt(D[kind[1]], k == 'UI')
    if k == 'S':
        return tile_mod.Splitter(D[kind[1]], bool(kind[2]))
    if k == 'I':
        return tile_mod.Inserter(D[kind[1]], kind[2])
    return tile_mod.AssemblingMachine(kind[1], kind[2])


def of_tile(t):
    """kind of a real tile object, through its documented JSON form"""
    return from_json(t.write())


def cells_engine(cells, kinds=ALL):
    """engine with one free finite-domain variable per cell; {cell: [(lit, kind)]}"""
    b = Builder()
    dom = {}
    for p in cells:
        vs = [b.var() for _ in kinds]
        b.add(vs)
        for i, a in enumerate(vs):
            for c in vs[:i]:
                b.add([-a, -c])
        dom[p] = list(zip(vs, kinds))
    return Engine(b.clauses), dom


def current(eng, key, vals):
    """the values of a finite-domain variable that are still possible on this path: exact, under the rules"""
    ids = eng.pathstate.get(key)
    return [vals[i] for i in (ids if ids is not None else range(len(vals)))]


def sat_kinds(eng, dom):
    """a concrete assignment of every cell, from a model of the path condition"""
    if not eng.scheck():
        raise AssertionError('path condition has no model')
    m = eng.satmodel
    out = {}
    for p, vals in dom.items():
        out[p] = next(k for l, k in vals if m[l - 1] > 0)
    return out


MARK = '\ue800'


@contextlib.contextmanager
def symbolic_json(eng, objects):
    """inside JSON text, the string MARK+name stands for objects[name]"""
    real_decode = json.JSONDecoder.decode
    real_default = json.JSONEncoder.default

    def subst(x):
        if isinstance(x, dict):
            return {k: subst(v) for k, v in x.items()}
        if isinstance(x, list):
            return [subst(v) for v in x]
        if isinstance(x, str):
            if x.startswith(MARK):
                return objects[x[1:]]
            if x in eng.tokens:
                return eng.tokens[x]
        return x

    def decode(self, *a, **kw):
        return subst(real_decode(self, *a, **kw))

    def default(self, o):
        if type(o) is SymInt:
            return eng.token(o)
        if type(o) is FD:
            return MARK + o._key if objects.get(o._key) is o else o._force()
        return real_default(self, o)
    json.JSONDecoder.decode = decode
    json.JSONEncoder.default = default
    try:
        yield
    finally:
        json.JSONDecoder.decode = real_decode
        json.JSONEncoder.default = real_default


def run_cli(module, argv, stdin=''):
    """module.main() in-process; returns (stdout, exception or None). End of input is the normal way such tools stop."""
    old = sys.argv, sys.stdin
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    err = io.StringIO()
    exc = None
    try:
        sys.argv = ['prog'] + [str(a) for a in argv]
        sys.stdin = io.StringIO(stdin)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                module.main()
            except EOFError:
                pass
            except SystemExit as e:
                if e.code not in (0, None):
                    exc = e
            except Exception as e:
                exc = e
    finally:
        sys.argv, sys.stdin = old
    out.flush()
    return raw.getvalue().decode('utf-8'), exc
