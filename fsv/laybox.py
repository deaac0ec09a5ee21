"""Every valid layout of a small window as symbolic tiles for the forking engine, and the plain reference geometry."""
import itertools

import numpy as np

from .cnf import Builder
from .dse import Engine, FD
from .layout import Layout, KINDS, DIRS, REV, CCW, VEC, show
from . import symtile as st


class Box:
    """W x H window; surface and underground rules; optional limits.  `first` fixes the kind of some cells (to share the
    work between processes)."""

    def __init__(self, W, H, L=2, min_splitters=0, max_splitters=None, max_used=None, kinds=KINDS, rules=True, first=None, min_under=0):
        b = Builder()
        lay = Layout.free(b, W, H, kinds=kinds)
        self.lay, self.W, self.H = lay, W, H
        self.cells = lay.cells
        if rules:
            for _, l in lay.rules_surface() + lay.rules_underground(L, blocked=(True,) * 4):
                b.assert_(l)
        heads = [lay.head(p) for p in lay.cells]
        if min_splitters:
            b.assert_(b.counts(heads, min_splitters, 'ge'))
        if max_splitters is not None:
            b.assert_(b.counts(heads, max_splitters, 'le'))
        if max_used is not None:
            b.assert_(b.counts([-lay.empty[p] for p in lay.cells], max_used, 'le'))
        if min_under:
            b.assert_(b.counts([lay.ui[p, d] for p in lay.cells for d in DIRS], min_under, 'ge'))
        for p, k in (first or {}).items():
            b.assert_(lay.k[p][k])
        self.dom = {p: [(lay.k[p][k], k) for k in kinds] for p in lay.cells}
        self.eng = Engine(b.clauses)
        # the finite domains as they are under the rules, so that impossible kinds are not asked for again and again
        self.alive = {}
        for p in lay.cells:
            self.alive[p] = [(l, k) for l, k in self.dom[p] if self.eng.scheck([l])]
            if not self.alive[p]:
                self.dead = True
                return
        self.dead = False

    def key(self, p):
        return 'c%d_%d' % p

    def tiles(self, eng):
        arr = np.empty((self.H, self.W), dtype=object)
        for p in self.cells:
            arr[p[1], p[0]] = FD(eng, self.key(p), [(l, TILE[k]) for l, k in self.alive[p]])
        return arr

    def json_cells(self, eng):
        """{name: symbolic JSON tile}"""
        return {self.key(p): FD(eng, self.key(p), [(l, st.to_json(k)) for l, k in self.alive[p]]) for p in self.cells}

    def force(self, eng):
        """decide what is left: one concrete layout per path from here on"""
        out = {}
        for p in self.cells:
            ids = eng.pathstate.get(self.key(p))
            vals = self.alive[p]
            if ids is None or len(ids) > 1:
                obj = FD(eng, self.key(p), [(l, TILE[k]) for l, k in vals])
                obj._force()
                ids = eng.pathstate.get(self.key(p), list(range(len(vals))))
            out[p] = vals[ids[0]][1]
        return out


TILE = {k: st.to_tile(k) for k in st.ALL}


def grid_of(kinds, W, H):
    arr = np.empty((H, W), dtype=object)
    for (x, y), k in kinds.items():
        arr[y, x] = st.to_tile(k)
    return arr


def emits(k):
    if k[0] == 'B':
        return k[2]
    if k[0] == 'UO':
        return k[1]
    return None


def accepts(k):
    if k[0] == 'B':
        return k[1]
    if k[0] == 'UI':
        return k[1]
    return None


def lines(kinds):
    """cell -> representative of the belt line through it (splitters excluded)"""
    parent = {p: p for p, k in kinds.items() if k[0] in ('B', 'UI', 'UO')}

    def find(p):
        while parent[p] != p:
            p = parent[p]
        return p
    for p in list(parent):
        k = kinds[p]
        d = emits(k)
        if d is not None:
            q = (p[0] + VEC[d][0], p[1] + VEC[d][1])
            if q in parent and accepts(kinds[q]) == d:
                parent[find(p)] = find(q)
        if k[0] == 'UI':
            q = p
            while True:
                q = (q[0] + VEC[k[1]][0], q[1] + VEC[k[1]][1])
                if q not in kinds:
                    break
                if kinds[q] == ('UO', k[1]):
                    parent[find(p)] = find(q)
                    break
                if kinds[q][0] in ('UI', 'UO') and kinds[q][1] % 2 == k[1] % 2:
                    break
    return {p: find(p) for p in parent}


def network_of(kinds, edge_connected):
    """reference splitter network: list of ((in, in), (out, out)) of wire names or None"""
    line = lines(kinds)
    nodes = []
    for p, k in kinds.items():
        if k[0] != 'S' or not k[2]:
            continue
        d = k[1]
        halves = [p, (p[0] + VEC[CCW[d]][0], p[1] + VEC[CCW[d]][1])]
        ins, outs = [], []
        for h in halves:
            b = (h[0] - VEC[d][0], h[1] - VEC[d][1])
            f = (h[0] + VEC[d][0], h[1] + VEC[d][1])
            if b not in kinds:
                ins.append(('ext', h, 'in') if edge_connected else None)
            elif kinds[b][0] == 'S':
                ins.append(('ss', b, h) if kinds[b][1] == d else None)
            else:
                ins.append(('line', line[b]) if emits(kinds[b]) == d else None)
            if f not in kinds:
                outs.append(('ext', h, 'out') if edge_connected else None)
            elif kinds[f][0] == 'S':
                outs.append(('ss', h, f) if kinds[f][1] == d else None)
            else:
                outs.append(('line', line[f]) if accepts(kinds[f]) == d else None)
        nodes.append((tuple(ins), tuple(outs)))
    consumed = {c for i, _ in nodes for c in i}
    produced = {c for _, o in nodes for c in o}
    res = []
    for i, o in nodes:
        res.append([list(i), list(o)])
    # treated as alike: outside inputs, outside outputs, and the outputs of one splitter
    name = {}
    for n, (_, o) in enumerate(nodes):
        for c in o:
            if c is not None:
                name[c] = ('of', n) if c in consumed else 'OUT'
    for i, _ in nodes:
        for c in i:
            if c is not None and c not in produced:
                name[c] = 'IN'
    name[None] = None
    return [(tuple(name[c] for c in i), tuple(name[c] for c in o)) for i, o in nodes]
