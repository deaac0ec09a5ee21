"""C22: NetworkSolutionStore, both objectives and the query / export-crosstable modes of the real tool are executed
symbolically on stores whose recorded sizes are unknown integers; every answer is compared, by z3 over all recorded sizes
and all queried sizes of a path, with the reference meaning of the records (monotonicity in each dimension)."""
import contextlib
import io
import itertools
import json
import operator
import os
import sys
import tempfile

import z3

from ..core import Violation, NoAnswer, time_limit
from ..dse import Engine, SymInt, Limit, _e
from ..tools import patched
from .. import symtile as st
import factorio_sat.calculate_optimal as co

NETS = {
    '2x2': '0 0 1 1\n',
    '1x2': '0 -1 1 1\n',
    '3x3': '0 0 1 2\n0 1 3 4\n3 4 2 5\n',
    '4x4': '0 0 1 2\n0 0 1 2\n1 2 3 3\n1 2 3 3\n',
    '1x1': '0 -1 1 2\n1 2 3 -1\n',
}
BOUNDS = {
    'quick': 'up to 3 recorded sizes (2 for next_size, query and export), any integers (next_size: width 3..7, height up to 2x+1, length 0..4), every query; networks 2x2, 1x2, 4x4',
    'thorough': 'up to 4 recorded sizes (3 for next_size, 2 for query and export), any integers (next_size: width 3..9), every query; 5 networks',
}


class Ref:
    """reference meaning of a list of records [(size, bool)] as z3 formulas"""

    def __init__(self, records):
        self.records = [(tuple(_e(d) for d in s), v) for s, v in records]

    def yes(self, q):
        q = [_e(d) for d in q]
        return z3.Or([z3.And([a >= b for a, b in zip(q, r)]) for r, v in self.records if v] + [z3.BoolVal(False)])

    def no(self, q):
        q = [_e(d) for d in q]
        return z3.Or([z3.And([a <= b for a, b in zip(q, r)]) for r, v in self.records if not v] + [z3.BoolVal(False)])

    def says(self, q, answer):
        if answer is True:
            return self.yes(q)
        if answer is False:
            return self.no(q)
        if answer is None:
            return z3.And(z3.Not(self.yes(q)), z3.Not(self.no(q)))
        return z3.BoolVal(False)


def network_shape(text):
    from ..netspec import Net
    n = Net(text)
    return max(n.in_count, n.out_count), len(n.nodes)


def records(eng, n, wmax=None, hmax=None, umax=None, physical=None):
    """n symbolic records: distinct sizes, consistent with monotonicity"""
    out = []
    for i in range(n):
        u = eng.int(f'u{i}', 0, umax)
        w = eng.int(f'w{i}', 1 if physical is None else 3, wmax)
        h = eng.int(f'h{i}', 1, hmax)
        v = bool(eng.choose(2))
        out.append(((u, w, h), v))
        if physical and v and eng.depth >= len(eng.frames):
            minh, nodes = physical
            eng.assume(h.e >= minh)
            eng.assume(z3.Or([z3.And(w.e == k, (k - 2) * h.e >= 2 * nodes) for k in range(3, wmax + 1)]))
    if eng.depth < len(eng.frames):
        return out  # re-execution: the assumptions are already in place
    for (a, va), (b, vb) in itertools.combinations(out, 2):
        eng.assume(z3.Or([x.e != y.e for x, y in zip(a, b)]))
        if va and not vb:
            eng.assume(z3.Not(z3.And([x.e <= y.e for x, y in zip(a, b)])))
        if vb and not va:
            eng.assume(z3.Not(z3.And([x.e >= y.e for x, y in zip(a, b)])))
    return out


def conc_records(vals, flags):
    return [((vals[f'u{i}'], vals[f'w{i}'], vals[f'h{i}']), f) for i, f in enumerate(flags)]


def fill(store, recs):
    for i, (size, v) in enumerate(recs):
        store.add_solution(size, f's{i}' if v else None)


def roundtrip(store, path, eng=None):
    text = json.dumps(store.to_json())
    other = co.NetworkSolutionStore(path)
    other.from_json(json.loads(text))
    return other


# --- scenarios: each runs on symbolic or concrete records and returns (formula or bool, description) ----------------------
def sc_exist(store, path, recs, q, ref):
    r = store.does_balancer_exist(q)
    return [(ref.says(q, r), f'does_balancer_exist reports {r}')]


def sc_clean(store, path, recs, q, ref):
    store.clean()
    r = store.does_balancer_exist(q)
    return [(ref.says(q, r), f'after clean, does_balancer_exist reports {r}')]


def sc_json(store, path, recs, q, ref):
    other = roundtrip(store, path)
    r = other.does_balancer_exist(q)
    out = [(ref.says(q, r), f'after saving and loading, does_balancer_exist reports {r}')]
    # solutions: the store must find each recorded solution again under its size
    for i, (size, v) in enumerate(recs):
        if v:
            got = other.best_current_solution(lambda s, t=size: 0 if _same(s, t[1:]) else 1, size[0])
            mine = [z3.And([_e(a) == _e(b) for a, b in zip(size[1:], s[1:])] + [_e(s[0]) <= _e(size[0])]) for s, w in recs if w]
            cand = [f's{j}' for j, (s, w) in enumerate(recs) if w]
            ok = z3.Or([m for m, c in zip(mine, cand) if c == got] + [z3.BoolVal(False)])
            out.append((ok, f'after saving and loading, the solution of record {i} is {got}'))
    return out


def _same(a, b):
    for x, y in zip(a, b):
        if not x == y:
            return False
    return True


def lex_lt(a, b):
    """z3: loss a < loss b; scalars or tuples"""
    if isinstance(a, tuple):
        if not a:
            return z3.BoolVal(False)
        return z3.Or(_e(a[0]) < _e(b[0]), z3.And(_e(a[0]) == _e(b[0]), lex_lt(a[1:], b[1:])))
    return _e(a) < _e(b)


def ref_loss(obj, size):
    """reference: shorter is better / smaller area is better (the two end columns are free)"""
    w, h = size
    return (h, w) if obj == 'length' else (w - 2) * h


def sc_best(obj):
    def f(store, path, recs, q, ref):
        o = co.LengthObjective() if obj == 'length' else co.AreaObjective()
        ul = q[0]
        got = store.best_current_solution(o.loss, ul)
        out = []
        elig = {f's{i}': (_e(s[0]) <= _e(ul), ref_loss(obj, s[1:])) for i, (s, v) in enumerate(recs) if v}
        if got is None:
            out.append((z3.Not(z3.Or([e for e, _ in elig.values()] + [z3.BoolVal(False)])), 'no best solution'))
        elif got not in elig:
            out.append((z3.BoolVal(False), f'best solution is {got!r}'))
        else:
            e, l = elig[got]
            out.append((z3.And([e] + [z3.Implies(e2, z3.Not(lex_lt(l2, l))) for e2, l2 in elig.values()]), f'best solution is {got}'))
        return out
    return f


def candidates(obj, minh, nodes, wmax):
    if obj == 'length':
        return [((w, minh), (minh, w)) for w in range(3, wmax + 1) if (w - 2) * minh >= 2 * nodes]
    return [((w + 2, h), w * h) for w in range(1, wmax - 1) for h in range(minh, 2 * minh + 1) if w * h >= 2 * nodes]


def sc_next(obj, shape, wmax):
    minh, nodes = shape

    def f(store, path, recs, q, ref):
        o = co.LengthObjective() if obj == 'length' else co.AreaObjective()
        ul = q[0]
        got = o.next_size(store, ul)
        out = []
        if got is not None:
            u, w, h = got
            w, h = operator.index(w), operator.index(h)
            cands = candidates(obj, minh, nodes, (w - 2) * h // minh + 4)
            mine = [l for s, l in cands if s == (w, h)]
            if not mine:
                return [(z3.BoolVal(False), f'next size {w}x{h} is not a candidate')]
            out.append((_e(u) == _e(ul), f'next size {w}x{h} has another underground length'))
            out.append((ref.says((ul, w, h), None), f'next size {w}x{h} is already decided'))
            out.append((z3.And([ref.no((ul,) + s) for s, l in cands if l < mine[0]] + [z3.BoolVal(True)]),
                        f'next size {w}x{h} skips a better undecided candidate'))
        else:
            # a candidate is known to exist and everything better is known not to
            cands = candidates(obj, minh, nodes, 2 * wmax + 4)
            terms = []
            for s, l in cands:
                terms.append(z3.And([ref.yes((ul,) + s)] + [ref.no((ul,) + s2) for s2, l2 in cands if l2 < l]))
            out.append((z3.Or(terms), 'the search ends before the best size is decided'))
            best = store.best_current_solution(o.loss, ul)
            idx = {f's{i}': s for i, (s, v) in enumerate(recs) if v}
            if best not in idx:
                out.append((z3.BoolVal(False), f'the search ends with {best!r} as the best solution'))
            else:
                s = idx[best]
                bl = ref_loss(obj, s[1:])
                out.append((z3.And([_e(s[0]) <= _e(ul)] + [z3.Implies(lex_lt(l2, bl), ref.no((ul,) + s2)) for s2, l2 in cands]),
                            f'the search ends but {best} is not the best possible'))
        return out
    return f


# --- tool level ---------------------------------------------------------------------------------------------------------
def run_tool(tmp, argv):
    old = os.getcwd()
    os.chdir(tmp)
    try:
        out, exc = st.run_cli(co, argv)
    finally:
        os.chdir(old)
    return out, exc


def db_text(recs, eng):
    def key(size):
        return ','.join(str(d) for d in size)
    return {'exist': {key(s): v for s, v in recs}, 'solutions': {key(s): [[f's{i}']] for i, (s, v) in enumerate(recs) if v}}


def sc_query(obj, shape, wmax, imperfect, ul, name):
    def f(store, path, recs, q, ref, eng=None):
        tmp = os.path.dirname(os.path.dirname(path))
        with open(os.path.join(tmp, 'db.json'), 'w') as fh:
            json.dump({name: db_text(recs, eng)}, fh)
        out, exc = run_tool(tmp, ['--database', 'db.json', 'query', ul, obj] + (['--allow-imperfect'] if imperfect else []))
        if exc is not None:
            return [(z3.BoolVal(False), f'query fails: {exc!r}')]
        lines = out.splitlines()
        elig = {f's{i}': (_e(s[0]) <= ul, ref_loss(obj, s[1:])) for i, (s, v) in enumerate(recs) if v}
        minh, nodes = shape
        cands = candidates(obj, minh, nodes, 2 * wmax + 4)
        optimal = z3.Or([z3.And([ref.yes((ul,) + s)] + [ref.no((ul,) + s2) for s2, l2 in cands if l2 < l]) for s, l in cands])
        # ties of area: a better or equal candidate may still be undecided, so only "printed implies optimal" is claimed
        if not lines:
            if imperfect:
                return [(z3.Not(z3.Or([e for e, _ in elig.values()] + [z3.BoolVal(False)])), 'query prints nothing although a solution is recorded')]
            if obj == 'length':
                return [(z3.Not(optimal), 'query prints nothing although the optimum is known')]
            return [(z3.BoolVal(True), '')]
        try:
            vals = [json.loads(l)[0][0] for l in lines]
        except Exception:
            return [(z3.BoolVal(False), f'query prints {lines}')]
        if len(vals) != 1 or vals[0] not in elig:
            return [(z3.BoolVal(False), f'query prints {vals}')]
        e, l = elig[vals[0]]
        res = [(z3.And([e] + [z3.Implies(e2, z3.Not(lex_lt(l2, l))) for e2, l2 in elig.values()]), f'query prints {vals[0]}, not the best recorded solution')]
        if not imperfect:
            res.append((z3.And([z3.Implies(lex_lt(l2, l), ref.no((ul,) + s2)) for s2, l2 in cands]), f'query prints {vals[0]} although it is not known to be optimal'))
        return res
    return f


LEVELS = [(4, '\U0001f7e8'), (6, '\U0001f7e5'), (8, '\U0001f7e6')]


def sc_table(shape, name):
    def f(store, path, recs, q, ref, eng=None):
        tmp = os.path.dirname(os.path.dirname(path))
        with open(os.path.join(tmp, 'db.json'), 'w') as fh:
            json.dump({name: db_text(recs, eng)}, fh)
        with open(os.path.join(tmp, 't.md'), 'w') as fh:
            fh.write('# Kept\ntext\n# Balancers\nold\n')
        out, exc = run_tool(tmp, ['--database', 'db.json', 'export-crosstable', 't.md'])
        if exc is not None:
            return [(z3.BoolVal(False), f'export-crosstable fails: {exc!r}')]
        text = open(os.path.join(tmp, 't.md')).read()
        if not text.startswith('# Kept\ntext\n# Balancers\n') or 'old' in text:
            return [(z3.BoolVal(False), 'the text before the table is not kept or the old table is')]
        res = []
        head = None
        for line in text.splitlines():
            cells = [c.strip() for c in line.strip().strip('|').split('|')]
            if not line.startswith('|') or set(line) <= set('|-'):
                continue
            if head is None:
                head = cells
                continue
            h = int(cells[0])
            for w, mark in zip(head[1:], cells[1:]):
                w = int(w)
                sizes = [(u, w + 2, h) for u, _ in LEVELS]
                yes = [ref.yes(s) for s in sizes]
                no = [ref.no(s) for s in sizes]
                for i, (u, ch) in enumerate(LEVELS):
                    if mark == ch:
                        res.append((z3.And(yes[i], *[z3.Not(y) for y in yes[:i]]), f'table shows {w}x{h} as solvable from underground length {u}'))
                        break
                else:
                    if mark == '\u274c':
                        res.append((z3.And(z3.Or(no), z3.Not(z3.Or(yes))), f'table shows {w}x{h} as impossible'))
                    else:
                        res.append((z3.And(z3.Not(z3.Or(no)), z3.Not(z3.Or(yes))), f'table shows {w}x{h} as unknown'))
        if recs and head is None:
            res.append((z3.BoolVal(False), 'no table'))
        return res
    return f


def make(kind, netname, tier):
    shape = network_shape(NETS[netname])
    wmax = 9 if tier == 'thorough' else 7 if netname != '4x4' else 6
    if kind[0] == 'next':
        return sc_next(kind[1], shape, wmax), dict(wmax=wmax, hmax=2 * shape[0] + 1, umax=4, physical=shape)
    if kind[0] == 'best':
        return sc_best(kind[1]), dict(wmax=6, hmax=6, umax=6)
    if kind[0] == 'query':
        return sc_query(kind[1], shape, 5, kind[2], 4, netname), dict(wmax=5, hmax=2 * shape[0] + 1, umax=5, physical=shape)
    if kind[0] == 'table':
        return sc_table(shape, netname), dict(wmax=5, hmax=shape[0] + 1, umax=9, physical=shape)
    return {'exist': sc_exist, 'clean': sc_clean, 'json': sc_json}[kind[0]], {}


def scratch(netname):
    tmp = tempfile.TemporaryDirectory(prefix='fsv')
    os.mkdir(os.path.join(tmp.name, 'networks'))
    path = os.path.join(tmp.name, 'networks', netname)
    with open(path, 'w') as f:
        f.write(NETS[netname])
    return tmp, path


def attempt(scen, path, recs, q, eng=None):
    store = co.NetworkSolutionStore(path)
    fill(store, recs)
    ref = Ref(recs)
    with time_limit(20):
        if scen.__qualname__.startswith(('sc_query', 'sc_table')):
            return scen(store, path, recs, q, ref, eng)
        return scen(store, path, recs, q, ref)


def replay(scen, path, recs, q):
    """concrete run on the untouched module; returns description of the failure or None"""
    try:
        for cond, what in attempt(scen, path, recs, q):
            if not z3.is_true(z3.simplify(cond)):
                return what
    except Exception as e:
        return f'fails: {e!r}'
    return None


def task(t):
    kind, netname, n, tier, flags = t
    scen, dims = make(kind, netname, tier)
    tmp, path = scratch(netname)
    count = 0
    try:
        for mode in ('pattern', 'concrete'):
            eng = Engine(max_paths=400000)
            eng.hash_mode = mode
            if mode == 'concrete':
                d2 = dict(dims)
                d2['wmax'], d2['hmax'], d2['umax'] = min(d2.get('wmax') or 5, 5), min(d2.get('hmax') or 3, 3), 2
                dims = d2
            spurious = None

            def path_fn(eng):
                eng.choices = list(flags)
                recs = records_with(eng, n, flags, dims)
                q = (eng.int('qu', 0, dims.get('umax')), eng.int('qw', 1), eng.int('qh', 1))
                try:
                    with patched(co, 'int', eng.int_shim()):
                        res = attempt(scen, path, recs, q, eng)
                except Limit:
                    raise
                except Exception as e:
                    return recs, q, [(z3.BoolVal(False), f'fails: {e!r}')]
                return recs, q, res
            for recs, q, res in eng.explore(path_fn):
                for cond, what in res:
                    count += 1
                    m = eng.prove(cond)
                    if m is None:
                        continue
                    vals = eng.inputs(m)
                    crecs = conc_records(vals, flags)
                    cq = (vals['qu'], vals['qw'], vals['qh'])
                    real = replay(scen, path, crecs, cq)
                    if real:
                        raise Violation(real, input={'network': netname, 'records': crecs, 'query': cq, 'scenario': kind})
                    spurious = what
            if spurious is None:
                break
            if mode == 'concrete':
                raise NoAnswer(f'counterexample does not replay: {spurious}')
    finally:
        tmp.cleanup()
    return {'obligations': count, 'paths': eng.paths, 'witnesses': 1}


def records_with(eng, n, flags, dims):
    it = iter(flags)
    real = eng.choose
    eng.choose = lambda k: int(next(it))
    try:
        return records(eng, n, **dims)
    finally:
        eng.choose = real


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(kind, net, top):
        for n in range(0, top + 1):
            for flags in itertools.product((True, False), repeat=n):
                out.append((kind, net, n, tier, flags))
    nets = list(NETS) if th else ['2x2', '1x2', '4x4']
    for k in ('exist', 'clean', 'json'):
        add((k,), '2x2', (4 if th else 3) if k != 'json' else (3 if th else 2))
    for obj in ('length', 'area'):
        add(('best', obj), '2x2', 3)
        for net in nets:
            add(('next', obj), net, 3 if th and net != '4x4' else 2)
        for imp in (False, True):
            add(('query', obj, imp), '2x2', 2)
    add(('table',), '2x2', 2)
    out.sort(key=lambda t: -t[2])
    return out


def run(ctx):
    ctx.encoded('NetworkSolutionStore.does_balancer_exist', 'NetworkSolutionStore.clean', 'NetworkSolutionStore.add_solution',
                'NetworkSolutionStore.to_json', 'NetworkSolutionStore.from_json', 'NetworkSolutionStore.best_current_solution',
                'LengthObjective.next_size', 'LengthObjective.loss', 'AreaObjective.next_size', 'AreaObjective.loss', 'factors',
                'export_crosstable', 'calculate_optimal.main (query, export-crosstable)')
    ctx.assume('recorded results are consistent: no solvable size is contained in an unsolvable one',
               'for next_size and query, recorded solutions are physically possible (enough height and area for the network)',
               'numbers pass through text as opaque tokens: decimal printing and parsing of integers is trusted',
               'in the exported table a cross means that some belt tier is known impossible and none is known possible')
    ctx.map(task, tasks(ctx.tier))
