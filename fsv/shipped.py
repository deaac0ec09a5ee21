"""The balancers shipped in books/, read and traced without the code under test."""
import base64
import json
import math
import os
import re
import time
import zlib

import z3

from . import cnf
from .cnf import Builder
from .core import NoAnswer
from .env import REPO
from .layout import Layout, VEC, CCW, REV, DIRS
from .laybox import lines, network_of, emits, accepts

FACTORIO = [2, 0, 6, 4]  # direction numbers used by the game, for right, up, left, down
TIERS = {
    'NORMAL': ('transport-belt', 'underground-belt', 'splitter'),
    'FAST': ('fast-transport-belt', 'fast-underground-belt', 'fast-splitter'),
    'EXPRESS': ('express-transport-belt', 'express-underground-belt', 'express-splitter'),
}
PLAIN = {'burner-inserter': 0, 'inserter': 0, 'fast-inserter': 0, 'filter-inserter': 0, 'stack-inserter': 0, 'stack-filter-inserter': 0, 'long-handed-inserter': 1}
REACH = {'NORMAL': 4, 'FAST': 6, 'EXPRESS': 8}


class Wiring:
    """exact physical wiring of a layout: every port of every splitter has its own wire"""

    def __init__(self, kinds):
        line = lines(kinds)
        self.nodes = []
        W = 1 + max(x for x, _ in kinds)
        for p, k in kinds.items():
            if k[0] == 'S' and k[2]:
                d = k[1]
                ins, outs = [], []
                for h in (p, (p[0] + VEC[CCW[d]][0], p[1] + VEC[CCW[d]][1])):
                    b = kinds.get((h[0] - VEC[d][0], h[1] - VEC[d][1]), ('E',))
                    f = kinds.get((h[0] + VEC[d][0], h[1] + VEC[d][1]), ('E',))
                    if b[0] == 'S' and b[1] == d:
                        ins.append(('half', h))
                    elif emits(b) == d:
                        ins.append(('line', line[h[0] - VEC[d][0], h[1] - VEC[d][1]]))
                    if f[0] == 'S' and f[1] == d:
                        outs.append(('half', (h[0] + VEC[d][0], h[1] + VEC[d][1])))
                    elif accepts(f) == d:
                        outs.append(('line', line[h[0] + VEC[d][0], h[1] + VEC[d][1]]))
                self.nodes.append((ins, outs))
        self.enter = [('line', line[p]) for p, k in kinds.items() if p[0] == 0 and accepts(k) == 0]
        self.leave = [('line', line[p]) for p, k in kinds.items() if p[0] == W - 1 and emits(k) == 0]

    def dangling(self):
        used = [x for i, _ in self.nodes for x in i] + self.leave
        made = [x for _, o in self.nodes for x in o] + self.enter
        if sorted(used) != sorted(made) or len(set(used)) != len(used):
            return 'a line starts or ends inside'
        return None

    def unequal(self):
        """None, or input rates for which the outputs differ"""
        wire = {}

        def v(w):
            return wire.setdefault(w, z3.Real(f'w{len(wire)}'))
        s = z3.Solver()
        made = set(self.enter)
        for ins, outs in self.nodes:
            total = z3.Sum([v(w) for w in ins]) if ins else z3.RealVal(0)
            for w in outs:
                s.add(v(w) * len(outs) == total)
                made.add(w)
        for w in list(wire):
            if w not in made:
                s.add(wire[w] == 0)
        xs = [v(w) for w in self.enter]
        ys = [v(w) for w in self.leave]
        s.add([x >= 0 for x in wire.values()])
        def ask(*extra):
            s.push()
            s.add(*extra)
            t = time.time()
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            cnf.STATS['queries'] += 1
            cnf.STATS['solver_s'] += time.time() - t
            if r == z3.unknown:
                raise NoAnswer('solver gave up')
            cnf.STATS['sat' if r == z3.sat else 'unsat'] += 1
            return m
        for x in xs:  # every input can flow: the equations are not contradictory
            if ask(x == 1, *[y == 0 for y in xs if y is not x]) is None:
                raise NoAnswer('no steady state')
        m = ask(z3.Not(z3.And([y * len(ys) == z3.Sum(xs) for y in ys])))
        if m is None:
            return None
        val = lambda a: m.eval(a, model_completion=True).as_fraction()
        rates = [val(x) for x in xs]
        out = self.simulate([float(r) for r in rates])
        if max(out) - min(out) < 1e-6 and abs(sum(out) - float(sum(rates))) < 1e-6:
            raise NoAnswer('the unbalanced flow does not replay')
        return {'in': [str(r) for r in rates], 'out': [str(val(y)) for y in ys]}

    def simulate(self, rates, steps=4000):
        """plain flow simulation, for replaying"""
        f = dict(zip(self.enter, rates))
        for _ in range(steps):
            g = dict(zip(self.enter, rates))
            for ins, outs in self.nodes:
                for w in outs:
                    g[w] = sum(f.get(x, 0.0) for x in ins) / len(outs)
            f = g
        return [f.get(w, 0.0) for w in self.leave]


def refine(net, rounds=6):
    """invariants of the nodes and lines of a network under renaming and reordering"""
    cols = {c: 0 for n in net for s in n for c in s if c is not None}
    node = [0] * len(net)
    for _ in range(rounds):
        node = [hash((node[i], tuple(sorted(-1 if c is None else cols[c] for c in n[0])), tuple(sorted(-1 if c is None else cols[c] for c in n[1]))))
                for i, n in enumerate(net)]
        cols = {c: hash((v, tuple(sorted((node[i], side, s.count(c)) for i, n in enumerate(net) for side, s in enumerate(n) if c in s)))) for c, v in cols.items()}
    return node, cols


def sat_iso(a, b):
    """networks over hashable wire names (None: unconnected) equal up to order and naming, by SAT"""
    if len(a) != len(b):
        return False
    (na, ka), (nb, kb) = refine(a), refine(b)
    if sorted(na) != sorted(nb) or sorted(ka.values()) != sorted(kb.values()):
        return False
    bl = Builder()
    m = {(i, j): bl.var() for i in range(len(a)) for j in range(len(b)) if na[i] == nb[j]}
    c = {(x, y): bl.var() for x in ka for y in kb if ka[x] == kb[y]}

    def bij(f):
        for k in (0, 1):
            groups = {}
            for pair, v in f.items():
                groups.setdefault(pair[k], []).append(v)
            for g in groups.values():
                bl.add(g)
                for i, u in enumerate(g):
                    for v in g[:i]:
                        bl.add([-u, -v])
    bij(m)
    bij(c)

    def eq(x, y):
        if x is None or y is None:
            return bl.T if x is None and y is None else bl.F
        return c.get((x, y), bl.F)
    for (i, j), l in m.items():
        for s, t in zip(a[i], b[j]):
            bl.assert_(bl.imp(l, bl.or_(bl.and_(eq(s[0], t[0]), eq(s[1], t[1])), bl.and_(eq(s[0], t[1]), eq(s[1], t[0])))))
    return cnf.solve(bl.clauses, name='g4') is not None


def parse_label(label):
    m = re.fullmatch(r'(\d+) to (\d+)', label or '')
    return (int(m[1]), int(m[2])) if m else None


def cells_of(name, pos, d, typ):
    """{cell: kind} an entity covers, by the game's conventions; belts straight for now"""
    fx, fy = int(math.floor(pos[0])), int(math.floor(pos[1]))
    for b, u, s in TIERS.values():
        if name == b:
            return {(fx, fy): ('B', d, d)}
        if name == u:
            return {(fx, fy): ('UI' if typ == 'input' else 'UO', d)}
        if name == s:
            dx, dy = VEC[CCW[d]]
            cell = lambda g: (int(math.floor(pos[0] + g * dx / 2)), int(math.floor(pos[1] + g * dy / 2)))
            return {cell(-1): ('S', d, 1), cell(1): ('S', d, 0)}
    if name in PLAIN:
        return {(fx, fy): ('I', REV[d], PLAIN[name])}
    if name == 'wooden-chest':
        return {(fx, fy): ('F',)}
    return {(fx - 1 + i, fy - 1 + j): ('A', i, j) for i in range(3) for j in range(3)}


def shaped(cells):
    """gives every belt the shape it has in the game: curved if its only feeder is at its side"""
    out = dict(cells)
    for (x, y), k in cells.items():
        if k[0] != 'B':
            continue
        o, feeders = k[2], []
        for i in DIRS:
            n = cells.get((x - VEC[i][0], y - VEC[i][1]), ('E',))
            if i != REV[o] and (n[0] in ('B', 'S', 'UO')) and (n[2] if n[0] == 'B' else n[1]) == i:
                feeders.append(i)
        out[x, y] = ('B', feeders[0] if len(feeders) == 1 else o, o)
    return out


def tier_of(entities):
    names = {e['name'] for e in entities}
    found = [t for t, n in TIERS.items() if names <= set(n)]
    return found[0] if len(found) == 1 else None


def reference_cells(entities):
    cells = {}
    for e in entities:
        new = cells_of(e['name'], (e['position']['x'], e['position']['y']), FACTORIO.index(e.get('direction', 0)), e.get('type'))
        if set(new) & set(cells):
            return None
        cells.update(new)
    return shaped(cells)


def fill(kinds):
    W, H = 1 + max(x for x, _ in kinds), 1 + max(y for _, y in kinds)
    return {(x, y): kinds.get((x, y), ('E',)) for y in range(H) for x in range(W)}, W, H


def physical(kinds, W, H, L):
    """None or the physical rule the layout breaks; nothing crosses the upper and lower side, inputs enter left, outputs leave right"""
    b = Builder()
    lay = Layout.free(b, W, H)
    for p, k in kinds.items():
        b.assert_(lay.k[p][k])
    rules = lay.rules_surface() + lay.rules_underground(L, (True,) * 4) + lay.rules_blocked_belts({1, 3})
    for y in range(H):
        rules.append((f'nothing leaves on the left at row {y}', -lay.conn_out((0, y), 2)))
        rules.append((f'nothing enters on the right at row {y}', -lay.conn_in((W - 1, y), 2)))
        for x in (0, W - 1):
            for d in (0, 2):
                rules.append((f'no splitter on the side at {(x, y)}', -lay.spl[(x, y), d]))
    m = cnf.solve(b.clauses)
    if m is None:
        raise NoAnswer('layout not encodable')
    for name, lit in rules:
        if not (m[lit] if lit > 0 else not m[-lit]):
            return name
    return None


def own_leaves(data, path=()):
    """[(path, labels of the books around, blueprint)] read without the code under test"""
    if 'blueprint_book' in data:
        b = data['blueprint_book']
        return [x for i, d in enumerate(b['blueprints']) for x in own_leaves(d, path + ((i, b.get('label')),))]
    return [(path, data)]


def decode_text(text):
    return json.loads(zlib.decompress(base64.b64decode(text.strip()[1:])))


def files():
    root = os.path.join(REPO, 'books')
    return sorted(os.path.join(root, f) for f in os.listdir(root) if f.endswith('.txt')) if os.path.isdir(root) else []


class Shipped:
    def __init__(self, file, path, data):
        self.file, self.path, self.data = file, path, data
        ents = data['blueprint']['entities']
        self.label = data['blueprint'].get('label')
        self.tier = tier_of(ents)
        cells = reference_cells(ents) if self.tier else None
        self.ok = cells is not None
        if self.ok:
            x0, y0 = min(x for x, _ in cells), min(y for _, y in cells)
            self.kinds, self.W, self.H = fill({(x - x0, y - y0): k for (x, y), k in cells.items()})
            self.L = REACH[self.tier]

    def network_text(self):
        """the physical network of the layout as a network file"""
        ids = {}
        return ''.join(' '.join('-1' if c is None else str(ids.setdefault(c, len(ids))) for s in n for c in s) + '\n'
                       for n in network_of(self.kinds, True))


def load(file):
    return [Shipped(file, path, data) for path, data in own_leaves(decode_text(open(file).read()))]


def usable(s):
    """a layout whose own network can be asked for"""
    return s.ok and physical(s.kinds, s.W, s.H, s.L) is None and Wiring(s.kinds).dangling() is None


def windows(s, size):
    """{position: cells} of free windows of size x size tiles covering the inside of the layout"""
    def starts(n):
        size_ = min(size, n)
        k = max(1, -(-(n - size_) // max(1, size_ - 1)) + (1 if n > size_ else 0))
        return sorted({round(i * (n - size_) / max(1, k - 1)) for i in range(k)}) if n > size_ else [0]
    out = []
    for y in starts(s.H):
        for x in starts(s.W - 2):
            out.append({(x + 1 + i, y + j) for i in range(min(size, s.W - 2)) for j in range(min(size, s.H))})
    return out


def near_tasks(thorough, count, shift=0):
    """('near', file, index, window size, window numbers)"""
    out = []
    for f in files():
        if 'all' in os.path.basename(f):
            continue
        n = len(own_leaves(decode_text(open(f).read())))
        out += [(f, i) for i in range(n)]
    if not thorough and out:
        step = len(out) / count
        out = [out[int(step * (k + 0.37)) + shift if int(step * (k + 0.37)) + shift < len(out) else -1] for k in range(count)]
    return out
