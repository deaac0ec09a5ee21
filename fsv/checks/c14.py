"""Symmetry breaking: for every model X of the clauses without the option, X's layout or its top-bottom mirror image is accepted
by the clauses with the option; both are accepted only if they show the same tiles on every row but the middle one."""
from ..core import NoAnswer, Violation
from ..cnf import solve, forced_definitions, falsified, Inconclusive, STATS
from ..gridcheck import Case, Sound, encode_from_layout
from ..layout import DIRS, REV, CW, CCW, INF, Layout, mirror_kind, field_vars, TILE_FIELDS, show, kind_of
from .balancer import NETS, cli
from .base import base_grid

BOUNDS = {
    'quick': 'plain grids up to 5x5 (heights 1..9, open and closed sides); balancers of 7 networks on grids up to 7x5 with default, aligned, use-ends, 180 degree and custom ends',
    'thorough': 'plain grids up to 6x7 and 8x4; balancers of 13 networks on grids up to 8x5, all end styles',
}


def plain(W, H, L, closed, broken):
    from factorio_sat import optimisations
    side = ('bool', (0, 1, 2, 3)) if closed else None
    g = base_grid((W, H, L, 'n', side, side))
    if broken:
        optimisations.break_vertical_symmetry(g)
    return g


def make(a, broken):
    if a[0] == 'plain':
        return lambda: plain(*a[1:], broken)
    _, net, W, H, L, opts = a
    return lambda: cli(net, W, H, L, tuple(opts) + (('--break-symmetry',) if broken else ()))


def mflip(p, H):
    return p[0], H - 1 - p[1]


def mdir(d):
    return REV[d] if d % 2 else d


class Pair:
    """X (a model of A) and its mirror image as partial assignments of B's variables"""

    def __init__(self, case_a, case_b):
        from factorio_sat.template import flatten
        self.s = s = Sound(case_a)
        self.cb = case_b
        b, lay = s.b, s.lay
        ga, gb = case_a.grid, case_b.grid
        H = lay.H
        self.same, self.mir = {}, {}
        self.fixed = set()
        mk = {p: {mirror_kind(k, 1): l for k, l in lay.k[mflip(p, H)].items()} for p in lay.cells}
        self.mlay = ml = Layout(b, lay.W, H, lay.wrap, mk)
        for p in lay.cells:
            for d in DIRS:
                for mine, his in ((ml.xin, lay.xin), (ml.xout, lay.xout)):
                    if (mflip(p, H), mdir(d)) in his:
                        mine[p, d] = his[mflip(p, H), mdir(d)]
        from ..layout import Decoded
        self.decb = Decoded(gb)
        tile = encode_from_layout(b, self.decb, ml)
        for p in lay.cells:
            x, y = p
            ia, ib = ga.get_tile_instance(x, y), gb.get_tile_instance(x, y)
            im = ga.get_tile_instance(*mflip(p, H))
            for va, vb in zip(flatten(ia), flatten(ib)):
                self.same[vb] = va
            self.fixed.update(field_vars(ib, TILE_FIELDS))
            for va, vb in zip(flatten(im), flatten(ib)):
                self.mir[vb] = va
            for v in self.decb.tvars[p]:
                self.mir[v] = tile[v]
            for name in ('underground',):
                if hasattr(ib, name):
                    for d in DIRS:
                        self.mir[getattr(ib, name)[d]] = getattr(im, name)[mdir(d)]
            if hasattr(ib, 'node'):
                for i, v in enumerate(ib.node):
                    terms = []
                    for d in DIRS:  # the head of the mirrored splitter lies where the original has its other half
                        q = lay.nb(mflip(p, H), CW[d])
                        if q is not None:
                            terms.append(b.and_(lay.k[mflip(p, H)][('S', d, 0)], ga.get_tile_instance(*q).node[i]))
                    self.mir[v] = b.or_(terms)

    def complete(self, known):
        b, gb, cards = self.s.b, self.cb.grid, self.cb.cards
        known = dict(known)
        defined = {v for *_, v in cards}
        allv = {abs(l) for c in gb.clauses for l in c} | {abs(l) for ls, *_ in cards for l in ls}
        order = sorted(v for v in allv if v not in known and v not in defined)
        forced_definitions(b, [c for c in gb.clauses if not any(abs(l) in defined for l in c)], known, order, {})
        for lits, k, kind, v in cards:
            known[v] = b.counts([known[l] if l > 0 else -known[-l] for l in lits], k, kind)
        return known

    def b_meaning(self):
        from ..cnf import Builder, max_var
        cards, clauses = self.cb.cards, self.cb.grid.clauses
        rb = Builder(max([max_var(clauses)] + [v for *_, v in cards] + [abs(l) for ls, *_ in cards for l in ls]) + 1)
        for lits, k, kind, v in cards:
            rb.assert_(rb.iff(v, rb.counts(lits, k, kind)))
        return rb.clauses


def check_kept(pr, a):
    """no X with both X and its mirror image rejected"""
    s, b = pr.s, pr.s.b
    gb, cards = pr.cb.grid, pr.cb.cards
    b.clauses += [list(c) for c in s.grid.clauses]
    b.cache.clear()
    sides = [pr.complete(pr.same), pr.complete(pr.mir)]
    meaning = pr.b_meaning()
    cardvars = {v for *_, v in cards}
    for known in sides:
        b.assert_(falsified(b, gb.clauses, known))
    for _ in range(200):
        m = solve(b.clauses)
        if m is None:
            return

        def val(l):
            return m[l] if l > 0 else not m[-l]
        again = False
        assigns = []
        for known in sides:
            assign = {v: val(known[v]) for v in pr.fixed}
            assigns.append(assign)
            r = solve(gb.clauses, meaning, assumptions=[v if x else -v for v, x in assign.items()])
            if r is None:
                continue
            again = True
            STATS['expansions'] = STATS.get('expansions', 0) + 1
            k2 = {v: (known[v] if v in pr.fixed or v in cardvars else (b.T if r.get(v, False) else b.F)) for v in known}
            for lits, k, kind, v in cards:
                k2[v] = b.counts([k2[l] if l > 0 else -k2[-l] for l in lits], k, kind)
            b.assert_(falsified(b, gb.clauses, k2))
            break
        if again:
            continue
        tma = s.case.template_map()
        _, full = s.case.extend({v: m[v] for v in tma if v in m})
        if full is None:
            raise NoAnswer('counterexample is not a solution without the option')
        for assign in assigns:
            if pr.cb.extend(assign)[1] is not None:
                raise NoAnswer('counterexample is accepted by the untouched clauses')
        raise Violation('symmetry breaking rejects a layout together with its mirror image', layout=show(s.lay.kinds(m)), config=a)
    raise Inconclusive('expansion limit reached')


def check_one_kept(a):
    """both kept only if equal on every row but the middle one: two models of B, one the mirror image of the other"""
    case = Case(make(a, True), config=a)
    s = Sound(case)
    b, lay = s.b, s.lay
    H = lay.H
    g = case.grid
    from ..cnf import max_var
    # second copy of B's clauses, with its own variables
    shift = {}

    def sh(l):
        v = abs(l)
        if v not in shift:
            shift[v] = b.var()
        return shift[v] if l > 0 else -shift[v]
    copy = [[sh(l) for l in c] for c in g.clauses]
    for lits, k, kind, v in case.cards:
        b.assert_(b.iff(sh(v), b.counts([sh(l) for l in lits], k, kind)))

    def md(d):
        return None if d is None else mdir(int(d))
    for p in lay.cells:  # tile and connections (a splitter half may or may not be connected across a side of the grid)
        one, two = {}, {}
        for cube, kind, i, o in s.dec.paths[p]:
            one.setdefault((kind, md(i), md(o)), []).append(s.cube(cube))
        for cube, kind, i, o in s.dec.paths[mflip(p, H)]:
            lit = b.and_([sh(v) if x else -sh(v) for v, x in cube.items()])
            two.setdefault((mirror_kind(kind, 1), None if i is None else int(i), None if o is None else int(o)), []).append(lit)
        for k in set(one) | set(two):
            b.assert_(b.iff(b.or_(one.get(k, [])), b.or_(two.get(k, []))))
    differ = []
    for p in lay.cells:
        if p[1] * 2 != H - 1:
            for k, l in lay.k[p].items():
                differ.append(b.and_(l, -lay.k[mflip(p, H)][mirror_kind(k, 1)]))
    m = solve(g.clauses, copy, b.clauses, [[b.or_(differ)]])
    w = solve(g.clauses, copy, b.clauses)
    if m is not None:
        real = case.real()
        tm = case.template_map()
        for tr in (lambda v: m[v], lambda v: m[shift[v]]):
            if case.extend({v: tr(v) for v in tm if (v in m and v in shift)})[1] is None:
                raise NoAnswer('counterexample does not replay')
        raise Violation('symmetry breaking keeps two different layouts that are mirror images', layout=show(lay.kinds(m)), config=a)
    return int(w is not None)


def task(t):
    what, a = t
    if what == 'kept':
        pr = Pair(Case(make(a, False), config=a), Case(make(a, True), config=a))
        w = int(pr.s.witness() is not None)
        check_kept(pr, a)
        return {'obligations': 2 * len(pr.cb.grid.clauses), 'witnesses': w, 'paths': pr.s.dec.npaths, 'config': f'{t} satisfiable={w}'}
    w = check_one_kept(a)
    return {'obligations': 1, 'witnesses': w, 'config': f'{t} mirrored pair exists={w}'}


def configs(th):
    out = []
    for W, H, L in [(3, 1, 1), (2, 2, 1), (3, 2, 2), (3, 3, 1), (4, 3, 2), (3, 4, 2), (4, 4, 1), (2, 5, 3), (3, 5, 2), (5, 5, 2), (2, 6, 4), (2, 7, 2), (3, 7, 1), (2, 8, 3), (2, 9, 1), (7, 3, 2)]:
        out.append(('plain', W, H, L, False))
        out.append(('plain', W, H, L, True))
    for net, W, H, L in [('2x2', 4, 2, 2), ('1x2', 4, 3, 2), ('2x1', 4, 3, 2), ('2x2', 5, 4, 4), ('1x3', 6, 4, 2), ('3x2', 6, 4, 2), ('4x4two', 4, 4, 2), ('2x2', 4, 5, 2)]:
        for o in [(), ('--aligned',), ('--use-ends',), ('--180',), ('--custom',)]:
            out.append(('cli', net, W, H, L, o))
    out.append(('cli', '2x2', 5, 4, 3, ('--edge-splitters', '--glue-splitters', '--expand-underground', '--prevent-mergeable-underground')))
    if th:
        for W, H, L in [(6, 6, 4), (8, 4, 6), (5, 7, 3), (4, 8, 4)]:
            out.append(('plain', W, H, L, False))
            out.append(('plain', W, H, L, True))
        for net in NETS:
            for o in [(), ('--aligned',), ('--use-ends',), ('--180',), ('--custom',)]:
                out.append(('cli', net, 7, 4, 4, o))
        out.append(('cli', '2x4', 8, 5, 4, ()))
    return out


def run(ctx):
    ctx.encoded('optimisations.break_vertical_symmetry', 'util.break_symmetry', 'belt_balancer.main', 'solver.Grid.*')
    ctx.assume('pysat\'s cardinality encoders count exactly (C02)', 'not combined with --prevent-bad-patterns, which the tool documents as sometimes unsound')
    cs = configs(ctx.thorough)
    ctx.map(task, [('kept', c) for c in cs] + [('one', c) for c in cs])
    if ctx.witnesses < 20:
        raise NoAnswer('too few satisfiable configurations')
