"""Symbolic reading of a grid's CNF as a tile layout, and the reference rules of belt physics over layouts.

`Decoded` runs the *real* parse code of the grid on symbolic models (forking on every variable read, pruned by the cell's own
clauses) and so expresses "cell (x, y) is tile k" as a formula over the CNF variables.  `Layout` holds one literal per
(cell, tile kind); the reference rules below are written over these only.
"""
import itertools

from pysat.solvers import Solver

from . import env
env.quiet_imports()
from factorio_sat.template import EdgeMode, flatten

# Own reference geometry, independent of the code under test. 0 right, 1 up, 2 left, 3 down; y grows downwards.
VEC = [(1, 0), (0, -1), (-1, 0), (0, 1)]
DIRS = range(4)
REV = [2, 3, 0, 1]
CCW = [1, 2, 3, 0]
CW = [3, 0, 1, 2]
INF = float('inf')

KINDS = [('E',)] + [('B', i, o) for i in DIRS for o in DIRS if REV[i] != o] + [('UI', d) for d in DIRS] + \
    [('UO', d) for d in DIRS] + [('S', d, h) for d in DIRS for h in (0, 1)]

TILE_FIELDS = ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out', 'is_splitter_head',
               'input_direction', 'output_direction')


class DecodeError(Exception):
    """The real decoding code failed on a model; carries the partial assignment."""

    def __init__(self, pos, cube, exc):
        super().__init__(f'decoding cell {pos} failed: {exc!r}')
        self.pos, self.cube, self.exc = pos, cube, exc


def kind_of(tile):
    """Key of a tile in the documented JSON form."""
    t = tile['type']
    if t in ('empty', 'filler'):
        return ('E',)
    if t == 'belt':
        return ('B', int(tile['input_direction']), int(tile['output_direction']))
    if t == 'underground_belt':
        return ('UI' if tile['is_input'] else 'UO', int(tile['direction']))
    if t == 'splitter':
        return ('S', int(tile['direction']), 1 if tile['is_head'] else 0)
    raise ValueError(f'unknown tile {tile}')


def tile_json(kind):
    k = kind[0]
    if k == 'E':
        return {'type': 'empty'}
    if k == 'B':
        return {'type': 'belt', 'input_direction': kind[1], 'output_direction': kind[2]}
    if k in ('UI', 'UO'):
        return {'type': 'underground_belt', 'direction': kind[1], 'is_input': k == 'UI'}
    if k == 'S':
        return {'type': 'splitter', 'direction': kind[1], 'is_head': bool(kind[2])}
    raise ValueError(kind)


CHARS = {('E',): '.'}
for _d, _c in enumerate('>^<v'):
    CHARS[('B', _d, _d)] = _c
CHARS.update({('B', 0, 1): 'h', ('B', 1, 2): 't', ('B', 2, 3): 'H', ('B', 3, 0): 'T',
              ('B', 0, 3): 'f', ('B', 3, 2): 'g', ('B', 2, 1): 'F', ('B', 1, 0): 'G'})
for _d, _c in enumerate('lijk'):
    CHARS[('UI', _d)] = _c
    CHARS[('UO', _d)] = _c.upper()
for _d, _c in enumerate('dwas'):
    CHARS[('S', _d, 1)] = _c
    CHARS[('S', _d, 0)] = _c.upper()


def show(kinds):
    """kinds: dict (x,y)->kind"""
    w = 1 + max(x for x, _ in kinds)
    h = 1 + max(y for _, y in kinds)
    return '\n'.join(' '.join(CHARS.get(kinds[x, y], '?') for x in range(w)) for y in range(h))


class _Fork(BaseException):
    pass


def explore(fn, choose_ok):
    """fn(read) where read(var) -> bool; all feasible paths. choose_ok(cube) prunes. Yields (cube, result or exception)."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        cube = {}
        pending = []
        pos = 0

        def read(var):
            nonlocal pos
            if var in cube:
                return cube[var]
            if pos < len(prefix):
                v = prefix[pos]
            else:
                base = [a if x else -a for a, x in cube.items()]
                t_ok, f_ok = choose_ok(base + [var]), choose_ok(base + [-var])
                if t_ok and f_ok:
                    pending.append(list(prefix) + [False])
                    v = True
                elif t_ok or f_ok:
                    v = t_ok
                else:
                    raise _Fork()
                prefix.append(v)
            pos += 1
            cube[var] = v
            return v
        try:
            res = fn(read)
        except _Fork:
            stack.extend(pending)
            continue
        except Exception as e:  # the code under test raised
            res = e
        stack.extend(pending)
        yield dict(cube), res


class _Map(dict):
    def __init__(self, read, sym, const):
        super().__init__()
        self.read, self.sym, self.const = read, sym, const

    def __missing__(self, var):
        if var in self.sym:
            return self.read(var)
        return self.const.get(var, False)

    def get(self, var, default=None):
        return self[var]

    def __contains__(self, var):
        return True


def field_vars(inst, names):
    d = inst._asdict()
    out = []
    for n in names:
        if n in d:
            out += flatten(d[n])
    return out


def cell_clauses(grid, varsets):
    """clauses local to each cell's variable set"""
    owner = {}
    for pos, vs in varsets.items():
        for v in vs:
            owner[v] = pos
    local = {pos: [] for pos in varsets}
    for c in grid.clauses:
        if not c:
            continue
        p = owner.get(abs(c[0]))
        if p is None:
            continue
        if all(owner.get(abs(l)) == p for l in c):
            local[p].append(c)
    return local


class Decoded:
    def __init__(self, grid, fields=TILE_FIELDS):
        self.grid = grid
        self.W, self.H = grid.width, grid.height
        self.cells = [(x, y) for y in range(self.H) for x in range(self.W)]
        self.inst = {p: grid.get_tile_instance(*p) for p in self.cells}
        self.tvars = {p: field_vars(self.inst[p], fields) for p in self.cells}
        local = cell_clauses(grid, self.tvars)
        self.local = local
        self.paths = {}   # pos -> list of (cube, kind, in_dir, out_dir)
        self.errors = []  # DecodeError candidates
        self.npaths = 0
        memo = {}
        for p in self.cells:
            # cells whose variables and local clauses are the same up to renaming decode the same way, but the real parse
            # runs on every distinct shape
            tv = self.tvars[p]
            index = {v: i for i, v in enumerate(tv)}
            key = (tuple(_shape(self.inst[p], index)),
                   frozenset(tuple(sorted((index[abs(l)] + 1) * (1 if l > 0 else -1) for l in c)) for c in local[p]))
            if key not in memo:
                memo[key] = (p, self._decode(p, local[p]))
            q, res = memo[key]
            qv = self.tvars[q]
            out = []
            for cube, r in res:
                cube2 = {tv[qv.index(v)]: x for v, x in cube.items()} if q != p else cube
                if isinstance(r, Exception):
                    self.errors.append(DecodeError(p, cube2, r))
                else:
                    out.append((cube2,) + r)
            self.paths[p] = out

    def _decode(self, p, local):
        sym = set(self.tvars[p])
        grid, inst = self.grid, self.inst[p]
        with Solver(name='m22', bootstrap_with=local) as s:
            def ok(lits):
                return s.solve(assumptions=lits)

            def run(read):
                cell = grid.parse_cell(_Map(read, sym, {}), inst)
                return kind_of(cell['tile']), cell['input_direction'], cell['output_direction']
            res = list(explore(run, ok))
        self.npaths += len(res)
        return res

    def empty_model(self, p):
        """an assignment of the tile variables under which the cell parses"""
        for cube, kind, *_ in self.paths[p]:
            if kind == ('E',):
                return cube
        return self.paths[p][0][0]


def _shape(inst, index):
    """structure of the instance with tile variables replaced by their index and others erased"""
    def rec(x):
        if isinstance(x, int):
            return index.get(x, -1)
        if hasattr(x, '_asdict'):
            return tuple((k, rec(v)) for k, v in x._asdict().items())
        return tuple(rec(v) for v in x)
    return rec(inst)


def number_bits(dec, getter_inst, getter_cell):
    """{pos: bit variables} of a number field, after checking through the real parse code that the reported value is the
    plain binary reading of those variables (all values on one cell, every single bit on the others)."""
    out = {}
    first = True
    for p in dec.cells:
        bits = list(getter_inst(dec.inst[p]))
        base = dec.empty_model(p)
        w = len(bits)
        values = range(1 << w) if first and w <= 12 else [0] + [1 << i for i in range(w)] + [(1 << w) - 1]
        first = False
        for v in values:
            const = dict(base)
            const.update({bits[i]: bool((v >> i) & 1) for i in range(w)})
            got = getter_cell(dec.grid.parse_cell(_Map(None, (), const), dec.inst[p]))
            if got != v:
                raise DecodeError(p, const, ValueError(f'number field read as {got}, expected {v}'))
        out[p] = bits
    return out


class Layout:
    """One literal per (cell, kind)."""

    def __init__(self, b, W, H, wrap, lits):
        self.b, self.W, self.H = b, W, H
        self.wrap = wrap
        self.k = lits  # pos -> {kind: lit}
        self.cells = [(x, y) for y in range(H) for x in range(W)]
        self._derive()

    @classmethod
    def from_decoded(cls, b, dec):
        lits = {}
        for p in dec.cells:
            d = {k: [] for k in KINDS}
            for cube, kind, *_ in dec.paths[p]:
                d.setdefault(kind, []).append(b.and_([v if x else -v for v, x in cube.items()]))
            lits[p] = {k: b.or_(v) if v else b.F for k, v in d.items()}
        return cls(b, dec.W, dec.H, wrap_of(dec.grid), lits)

    @classmethod
    def free(cls, b, W, H, wrap=(False, False), kinds=KINDS):
        lits = {}
        for y in range(H):
            for x in range(W):
                d = {k: (b.var() if k in kinds else b.F) for k in KINDS}
                b.add(list(d.values()))
                vs = [v for v in d.values() if v != b.F]
                for i, a in enumerate(vs):
                    for c in vs[:i]:
                        b.add([-a, -c])
                lits[x, y] = d
        return cls(b, W, H, wrap, lits)

    def nb(self, p, d, n=1):
        x, y = p[0] + VEC[d][0] * n, p[1] + VEC[d][1] * n
        if not 0 <= x < self.W:
            if not self.wrap[0]:
                return None
            x %= self.W
        if not 0 <= y < self.H:
            if not self.wrap[1]:
                return None
            y %= self.H
        return x, y

    def span(self, d):
        return self.W if d % 2 == 0 else self.H

    def wraps(self, d):
        return self.wrap[d % 2]

    def _derive(self):
        b = self.b
        self.emit = {}   # belt-like emits in direction d
        self.acc = {}    # belt-like accepts from direction d (moving d)
        self.spl = {}
        self.axis = {}   # any underground end on axis a
        self.empty = {}
        self.belt = {}
        self.ui, self.uo = {}, {}
        for p in self.cells:
            k = self.k[p]
            self.empty[p] = k[('E',)]
            self.belt[p] = b.or_([k[q] for q in KINDS if q[0] == 'B'])
            for d in DIRS:
                self.ui[p, d] = k[('UI', d)]
                self.uo[p, d] = k[('UO', d)]
                self.emit[p, d] = b.or_([k[('B', i, d)] for i in DIRS if REV[i] != d], k[('UO', d)])
                self.acc[p, d] = b.or_([k[('B', d, o)] for o in DIRS if REV[d] != o], k[('UI', d)])
                self.spl[p, d] = b.or_(k[('S', d, 0)], k[('S', d, 1)])
            for a in (0, 1):
                self.axis[p, a] = b.or_([k[(u, d)] for u in ('UI', 'UO') for d in (a, a + 2)])
        self.xin, self.xout = {}, {}  # off-grid connection of a splitter half, set by callers

    def isb(self, p, i, o):
        return self.k[p].get(('B', i, o), self.b.F)

    def anyspl(self, p):
        return self.b.or_([self.spl[p, d] for d in DIRS])

    def head(self, p):
        return self.b.or_([self.k[p][('S', d, 1)] for d in DIRS])

    # --- connectivity ------------------------------------------------------------------------
    def conn_out(self, p, d):
        """p hands items in direction d to the next tile (or off the grid)"""
        b = self.b
        q = self.nb(p, d)
        if q is None:
            return b.or_(self.emit[p, d], b.and_(self.spl[p, d], self.xout.get((p, d), b.F)))
        return b.or_(self.emit[p, d], b.and_(self.spl[p, d], b.or_(self.acc[q, d], self.spl[q, d])))

    def conn_in(self, p, d):
        b = self.b
        q = self.nb(p, REV[d])
        if q is None:
            return b.or_(self.acc[p, d], b.and_(self.spl[p, d], self.xin.get((p, d), b.F)))
        return b.or_(self.acc[p, d], b.and_(self.spl[p, d], b.or_(self.emit[q, d], self.spl[q, d])))

    # --- reference rules -----------------------------------------------------------------------
    def rules_surface(self):
        """list of (name, literal that must be true)"""
        b = self.b
        out = []
        for p in self.cells:
            out.append((f'one known tile kind at {p}', b.exactly_one([self.k[p][k] for k in self.k[p]])))
            for d in DIRS:
                q = self.nb(p, d)
                if q is not None:
                    out.append((f'belt end at {p} direction {d} must feed the tile it points at',
                                b.imp(self.emit[p, d], b.or_(self.acc[q, d], self.spl[q, d]))))
                    out.append((f'belt start at {q} direction {d} must be fed from behind',
                                b.imp(self.acc[q, d], b.or_(self.emit[p, d], self.spl[p, d]))))
                    # a splitter half that does not feed the tile in front of it must not be able to
                    takes = b.or_([self.isb(q, i, o) for i in DIRS for o in DIRS if o != REV[d]])
                    out.append((f'idle splitter output at {p} direction {d} must not leak into a belt',
                                b.imp(b.and_(self.spl[p, d], -self.conn_out(p, d)), -takes)))
                # halves pair up
                for head in (0, 1):
                    q = self.nb(p, CCW[d] if head else CW[d])
                    other = b.F if q is None else self.k[q][('S', d, 1 - head)]
                    out.append((f'splitter half at {p} direction {d} head {head} must have its other half',
                                b.imp(self.k[p][('S', d, head)], other)))
                out.append((f'splitter half at {p} direction {d} must be used',
                            b.imp(self.spl[p, d], b.or_(self.conn_in(p, d), self.conn_out(p, d)))))
        return out

    def _walk(self, p, d, limit=None):
        """cells strictly after p in direction d until the grid ends or a full turn"""
        res = []
        q = p
        n = self.span(d) - 1 if self.wraps(d) else None
        while n is None or len(res) < n:
            q = self.nb(q, d)
            if q is None:
                return res, True
            res.append(q)
        return res, False

    def pair_lits(self, p, d):
        """[(k, q, lit)]: UI at p direction d is connected to UO at q, k cells ahead; and literal: runs off the grid"""
        b = self.b
        cells, open_end = self._walk(p, d)
        res = []
        clear = b.T
        for k, q in enumerate(cells, 1):
            res.append((k, q, b.and_(clear, self.uo[q, d])))
            clear = b.and_(clear, -self.axis[q, d % 2])
        return res, (clear if open_end else b.F), len(cells)

    def back_lits(self, p, d):
        """as pair_lits, from a UO at p direction d back to its UI"""
        b = self.b
        cells, open_end = self._walk(p, REV[d])
        res = []
        clear = b.T
        for k, q in enumerate(cells, 1):
            res.append((k, q, b.and_(clear, self.ui[q, d])))
            clear = b.and_(clear, -self.axis[q, d % 2])
        return res, (clear if open_end else b.F), len(cells)

    def rules_underground(self, L, blocked=(False,) * 4, open_edges=True):
        """blocked: per direction d, True if undergrounds may not leave through the edge in direction d"""
        b = self.b
        out = []
        for p in self.cells:
            for d in DIRS:
                res, off, n = self.pair_lits(p, d)
                good = [lit for k, q, lit in res if 2 <= k <= L + 1]
                if open_edges and not blocked[d] and n <= L:
                    good.append(off)
                out.append((f'underground entrance at {p} direction {d} must reach its exit within length {L}',
                            b.imp(self.ui[p, d], b.or_(good) if good else b.F)))
                res, off, n = self.back_lits(p, d)
                good = [lit for k, q, lit in res if 2 <= k <= L + 1]
                if open_edges and not blocked[REV[d]] and n <= L:
                    good.append(off)
                out.append((f'underground exit at {p} direction {d} must have its entrance within length {L}',
                            b.imp(self.uo[p, d], b.or_(good) if good else b.F)))
        return out

    def rules_blocked_belts(self, edges):
        """edges: set of directions whose edge no belt may cross"""
        b = self.b
        out = []
        for p in self.cells:
            for d in edges:
                if self.nb(p, d) is not None and not self.wraps(d):
                    continue
                if self.wraps(d) and not self._at_edge(p, d):
                    continue
                out.append((f'nothing may cross the blocked edge at {p} side {d}',
                            b.and_(-self.emit[p, d], -self.acc[p, REV[d]], -self.ui[p, d], -self.uo[p, REV[d]],
                                   -self.spl[p, d], -self.spl[p, REV[d]])))
        return out

    def _at_edge(self, p, d):
        return {0: p[0] == self.W - 1, 1: p[1] == 0, 2: p[0] == 0, 3: p[1] == self.H - 1}[d]

    def covered(self, p, d, L=INF, blocked=(False,) * 4):
        """an underground connection in direction d passes below p"""
        b = self.b
        back, back_off, nb_ = self.back_lits(p, d)
        fwd, fwd_off, nf = self.pair_lits(p, d)
        from_behind = b.or_([lit for _, _, lit in back])
        to_front = b.or_([lit for _, _, lit in fwd])
        own = -self.axis[p, d % 2]
        terms = [b.and_(own, from_behind, to_front)]
        terms.append(b.and_(own, from_behind, fwd_off))
        terms.append(b.and_(own, back_off, to_front))
        return b.or_(terms)

    def line_colour(self, bits):
        """rules: colour numbers agree along every physical connection that is not through a splitter.
        bits: pos -> literals"""
        b = self.b
        out = []
        for p in self.cells:
            for d in DIRS:
                q = self.nb(p, d)
                if q is not None:
                    out.append((f'belt line {p}->{q} keeps its value', b.imp(self.emit[p, d], b.eq(bits[p], bits[q]))))
                for k, q, lit in self.pair_lits(p, d)[0]:
                    out.append((f'underground {p}->{q} keeps its value',
                                b.imp(b.and_(self.ui[p, d], lit), b.eq(bits[p], bits[q]))))
        return out

    def kinds(self, model):
        """concrete layout of a SAT model"""
        res = {}
        for p in self.cells:
            for k, l in self.k[p].items():
                if (model[l] if l > 0 else not model[-l]):
                    res[p] = k
                    break
            else:
                res[p] = None
        return res


def wrap_of(grid):
    return tuple(m == EdgeMode.WRAP for m in grid.edge_mode)


def mirror_kind(k, axis):
    """reflect: axis 0 flips x (left-right), axis 1 flips y"""
    def f(d):
        return REV[d] if d % 2 == axis else d
    if k[0] == 'E':
        return k
    if k[0] == 'B':
        return ('B', f(k[1]), f(k[2]))
    if k[0] in ('UI', 'UO'):
        return (k[0], f(k[1]))
    return ('S', f(k[1]), 1 - k[2])
