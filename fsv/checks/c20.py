"""C20: the real network functions and the `network flip` command run symbolically on networks whose line colours are unknown
integers (any equality and order pattern) with any set of unconnected ports; results are compared with the input network
up to exactly the freedom the property grants."""
import collections
import itertools
import os
import tempfile

import z3

from ..core import Violation, NoAnswer, time_limit
from ..dse import Engine, Limit, SymInt
from ..tools import patched
from .. import symtile as st
import factorio_sat.network as nw

BOUNDS = {
    'quick': 'networks of 1 splitter (all ports) and 2 splitters (at most 2 unconnected ports; at most 4 distinct lines except for save/open/flip, 3 if all ports are connected), any integer colours; networks of 3..6 splitters (three of its own and the shipped ones) with one unknown port',
    'thorough': 'networks of 1 and 2 splitters, any unconnected ports, any integer colours; 3 splitters with at most 3 distinct lines and at most one unconnected port; networks of 3..8 splitters with one and some with two unknown ports',
}
NAMES = ['saveopen', 'flip', 'cliflip', 'dedup', 'fix', 'tidy', 'remap', 'inout', 'exterior', 'total']


# --- reference, plain Python (runs under the engine for symbolic colours, directly for concrete ones) ---------------------
class Classes:
    """equality classes of colours"""

    def __init__(self):
        self.reps = []

    def of(self, c):
        if c is None:
            return None
        for i, r in enumerate(self.reps):
            if c is r or c == r:
                return i
        self.reps.append(c)
        return len(self.reps) - 1


def classes(net, cl=None):
    cl = cl or Classes()
    return [(tuple(cl.of(c) for c in i), tuple(cl.of(c) for c in o)) for i, o in net], cl


def side(s):
    return tuple(sorted(s, key=lambda c: -1 if c is None else c))


def multiset(net):
    return collections.Counter((side(i), side(o)) for i, o in net)


def expand(counter):
    return [n for n, k in counter.items() for _ in range(k)]


def well_formed(net):
    for n in net:
        if not (isinstance(n, tuple) and len(n) == 2 and all(isinstance(s, tuple) and len(s) == 2 for s in n)):
            return False
    return True


def iso(a, b):
    """networks over class numbers equal up to renaming"""
    if len(a) != len(b):
        return False

    def go(rest, used, fwd, bwd):
        if not rest:
            return True
        (ai, ao) = rest[0]
        for j, (bi, bo) in enumerate(b):
            if j in used:
                continue
            for pi in (bi, bi[::-1]):
                for po in (bo, bo[::-1]):
                    f, g = dict(fwd), dict(bwd)
                    ok = True
                    for x, y in zip(ai + ao, pi + po):
                        if (x is None) != (y is None):
                            ok = False
                            break
                        if x is None:
                            continue
                        if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
                            ok = False
                            break
                    if ok and go(rest[1:], used | {j}, f, g):
                        return True
        return False
    return go(list(a), frozenset(), {}, {})


def same(net, got, what):
    """equal up to order of splitters and within pairs, colours kept"""
    if not well_formed(got):
        return f'{what}: malformed result'
    if _ids(net) == _ids(got):
        return None  # identical terms: equal for every value
    a, cl = classes(net)
    b, _ = classes(got, cl)
    return None if multiset(a) == multiset(b) else f'{what}: lines changed'


def _ids(net):
    def key(c):
        return -2 if c is None else (1, c.e.get_id()) if type(c) is SymInt else (0, c)
    return collections.Counter((tuple(sorted(map(key, i), key=repr)), tuple(sorted(map(key, o), key=repr))) for i, o in net)


def swapped(net):
    return [(o, i) for i, o in net]


def balance(net):
    """colour class -> (inputs - outputs)"""
    c, cl = classes(net)
    bal = collections.Counter()
    for i, o in c:
        for x in i:
            if x is not None:
                bal[x] += 1
        for x in o:
            if x is not None:
                bal[x] -= 1
    return bal, cl


def run_case(name, net, tmp, cmap=None):
    """None or a description of what is wrong"""
    keep = [tuple(n) for n in net]
    if name == 'saveopen':
        p = os.path.join(tmp, 'n')
        with open(p, 'w') as f:
            f.write('# comment\n\n')
            nw.save_network(f, net)
        for got, how in ((nw.open_network(p), 'path'), (_open_file(p), 'file')):
            bad = same(keep, got, f'save then open ({how})')
            if bad:
                return bad
            if len(got) != len(keep):
                return 'save then open: number of splitters changed'
        p2 = os.path.join(tmp, 'n2')
        nw.save_network(p2, net)
        return same(keep, nw.open_network(p2), 'save to a path then open')
    if name == 'flip':
        got = nw.flip_network(net)
        return same(swapped(keep), list(got), 'flip') or same(keep, list(nw.flip_network(got)), 'flip twice')
    if name == 'cliflip':
        p, q = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        with open(p, 'w') as f:
            for i, o in net:
                f.write(' '.join('-1' if c is None else str(c) for c in i + o) + '\n')
        out, exc = st.run_cli(nw, ['flip', p, q])
        if exc is not None:
            return f'flip command fails: {exc!r}'
        return same(swapped(keep), nw.open_network(q), 'flip command')
    if name == 'dedup':
        got = nw.deduplicate_network(net)
        bad = same(keep, expand(got), 'grouping')
        if bad:
            return bad
        c, _ = classes(list(got))
        if len(multiset(c)) != len(got) or any(v > 1 for v in multiset(c).values()):
            return 'grouping: two groups of identical splitters'
        return None
    if name in ('fix', 'tidy'):
        got = list((nw.fix_colours if name == 'fix' else nw.tidy_network)(list(net)))
        got = [tuple(tuple(s) for s in n) for n in got]
        if not well_formed(got):
            return f'{name}: malformed result'
        a, _ = classes(keep)
        b, cl = classes(got)
        if not iso(a, b):
            return f'{name}: not the same network'
        for r in cl.reps:
            if r < 0 or r >= len(cl.reps):
                return f'{name}: lines are not numbered from 0 without gaps'
        return None
    if name == 'remap':
        (k, v), = cmap.items()
        got = nw.remap_colours(net, cmap)
        want = [tuple(tuple(v if (c is not None and c == k) else c for c in s) for s in n) for n in keep]
        return same(want, got, 'renumbering one line')
    if name == 'inout':
        bal, cl = balance(keep)
        pos = [(c, n) for c, n in bal.items() if n > 0]
        neg = [(c, -n) for c, n in bal.items() if n < 0]
        if len(pos) != 1 or len(neg) != 1:
            return None  # not a network with one kind of each
        (ic, icount), (oc, ocount) = nw.get_input_output_colours(net)
        if ic is None or oc is None or cl.of(ic) != pos[0][0] or cl.of(oc) != neg[0][0]:
            return 'wrong input or output line'
        if icount != pos[0][1] or ocount != neg[0][1]:
            return 'wrong number of inputs or outputs'
        return None
    if name == 'exterior':
        c, cl = classes(keep)
        ins = {x for i, _ in c for x in i} - {None}
        outs = {x for _, o in c for x in o} - {None}
        gi, go = nw.get_exterior_colours(net)
        if {cl.of(x) for x in gi} != ins - outs or {cl.of(x) for x in go} != outs - ins or len(gi) != len(ins - outs) or len(go) != len(outs - ins):
            return 'wrong exterior lines'
        si, so = nw.calculate_network_size(net)
        if (si, so) != (len(ins - outs), len(outs - ins)):
            return 'wrong number of exterior lines'
        return None
    if name == 'total':
        c, cl = classes(keep)
        if nw.calculate_total_colours(net) != len(cl.reps):
            return 'wrong number of lines'
        return None
    raise AssertionError(name)


def _open_file(p):
    with open(p) as f:
        return nw.open_network(f)


def base_networks(th):
    """networks of more splitters, in which single ports become unknown"""
    from .. import env
    out = [[((0, 0), (1, 2)), ((1, 3), (4, None)), ((2, 4), (3, 5))],
           [((0, 0), (1, 2)), ((0, 0), (1, 2)), ((1, 1), (3, 3)), ((2, 2), (3, 3))],
           [((7, 9), (3, 3)), ((3, 2), (8, 8)), ((3, 8), (2, 5)), ((8, None), (5, 5))]]
    for f in sorted(os.listdir(os.path.join(env.REPO, 'networks'))):
        net = nw.open_network(os.path.join(env.REPO, 'networks', f))
        if 3 <= len(net) <= (8 if th else 6):
            out.append(net)
    return out


def build(ports, mask):
    if type(mask[0]) is list:   # a network with a tuple of unknown ports
        net, at = mask
        flat = [c for i, o in net for c in i + o]
        for p, v in zip(at, ports):
            flat[p] = v
        return [((flat[i], flat[i + 1]), (flat[i + 2], flat[i + 3])) for i in range(0, len(flat), 4)]
    it = iter(ports)
    n = len(mask) // 4
    vals = [None if m else next(it) for m in mask]
    return [((vals[4 * i], vals[4 * i + 1]), (vals[4 * i + 2], vals[4 * i + 3])) for i in range(n)]


def task(t):
    name, mask, maxcol = t
    free = list(range(len(mask[1]))) if type(mask[0]) is list else [i for i, m in enumerate(mask) if not m]
    paths = count = 0
    with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
        for mode in ('pattern', 'concrete'):
            eng = Engine()
            eng.hash_mode = mode
            hi = None
            if maxcol is not None:
                hi = maxcol - 1
            if mode == 'concrete':
                hi = 2

            def path(eng):
                ports = [eng.int(f'p{i}', 0, hi) for i in free]
                cmap = None
                if name == 'remap':
                    cmap = {eng.int('k', 0, hi): eng.int('v', 0, hi)}
                net = build(ports, mask)
                try:
                    with patched(nw, 'int', eng.int_shim()), time_limit(20):
                        return run_case(name, net, tmp, cmap)
                except Limit:
                    raise
                except Exception as e:
                    return f'fails: {e!r}'
            spurious = None
            for bad in eng.explore(path):
                count += 1
                if bad is None:
                    continue
                vals = eng.inputs()
                net = build([vals[f'p{i}'] for i in free], mask)
                try:
                    with time_limit(20):
                        real = run_case(name, net, tmp, {vals['k']: vals['v']} if name == 'remap' else None)
                except Exception as e:
                    real = f'fails: {e!r}'
                if real:
                    raise Violation(f'{name}: {real}', input=net)
                spurious = bad
            paths += eng.paths
            if spurious is None:
                break
            if mode == 'concrete':
                raise NoAnswer(f'counterexample does not replay: {spurious}')
    return {'obligations': count, 'paths': paths, 'witnesses': 1}


def masks(n, most):
    for m in itertools.product((0, 1), repeat=4 * n):
        if sum(m) <= most:
            yield m


def tasks(tier):
    out = []
    th = tier == 'thorough'
    for name in NAMES:
        for m in masks(1, 4):
            out.append((name, m, None))
        for m in masks(2, 8 if th else 2):
            linear = name in ('saveopen', 'flip', 'cliflip')
            out.append((name, m, None if th or linear else 3 if not any(m) else 4))
        if th:
            for m in masks(3, 1):
                out.append((name, m, 3 if name in ('inout', 'exterior', 'total', 'fix') else 2))
    out.sort(key=lambda t: (sum(t[1]), -len(t[1])))
    for net in base_networks(th):
        size = 4 * len(net)
        ats = [(i,) for i in range(size)]
        if th:
            ats += list(itertools.combinations(range(size), 2)) if len(net) <= 4 else [(i, (i * 5 + 3) % size) for i in range(size)]
        for name in NAMES:
            for at in ats:
                out.append((name, ([list(n) for n in net], at), None))
    return out


def run(ctx):
    ctx.encoded('network.open_network', 'network.save_network', 'network.flip_network', 'network.deduplicate_network', 'network.fix_colours',
                'network.tidy_network', 'network.remap_colours', 'network.get_input_output_colours', 'network.get_exterior_colours',
                'network.calculate_network_size', 'network.calculate_total_colours', 'network.main (flip)')
    ctx.assume('line numbers are not negative (-1 stands for an unconnected port in files)',
               'numbers pass through text as opaque tokens: decimal printing and parsing of integers is trusted')
    ctx.map(task, tasks(ctx.tier))
