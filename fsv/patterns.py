"""Reference descriptions of the wasteful patterns the pruning rules name, over layout literals.

Each function returns [(name, literal: the pattern occurs)].  A frame is a travel direction d and a side t (left or right of it);
cells are addressed as p + i*d + j*t, so each description covers four orientations and their mirror images."""
from .layout import DIRS, REV, CCW, CW


def frames(sides=(CCW, CW)):
    for d in DIRS:
        for s in sides:
            yield d, s[d]


def at(lay, p, d, i, t=0, j=0):
    """the cell p + i*d + j*t or None"""
    q = p
    for dd, n in ((d, i), (t, j)):
        if n < 0:
            dd, n = REV[dd], -n
        for _ in range(n):
            q = lay.nb(q, dd)
            if q is None:
                return None
    return q


def occurs(lay, name, cells, build, sides=(CCW, CW), region=None):
    """cells: offsets (i, j); build(d, t, cell...) -> literals"""
    out = []
    for d, t in frames(sides):
        for p in lay.cells:
            cs = [at(lay, p, d, i, t, j) for i, j in cells]
            if any(c is None for c in cs) or (region and not all(region(c) for c in cs)):
                continue
            out.append((f'{name} at {p} (travel {d}, side {t})', lay.b.and_(build(d, t, *cs))))
    return out


def empty_underground(lay, L):
    b = lay.b
    out = []
    for p in lay.cells:
        for d in DIRS:
            cells, _ = lay._walk(p, d)
            for k, q, lit in lay.pair_lits(p, d)[0]:
                if 2 <= k <= L + 1:
                    out.append((f'underground {p}->{q} passes only below empty tiles',
                                b.and_(lay.ui[p, d], lit, [lay.empty[c] for c in cells[:k - 1]])))
    return out


def small_loops(lay):
    return occurs(lay, '2x2 loop', [(0, 0), (1, 0), (1, 1), (0, 1)], lambda d, t, a, c, e, f: [
        lay.isb(a, REV[t], d), lay.isb(c, d, t), lay.isb(e, t, REV[d]), lay.isb(f, REV[d], REV[t])])


def glue_splitters(lay):
    """a splitter with a straight belt behind each half; right-facing ones next to the left and right column may stay"""
    b = lay.b
    out = []
    for p in lay.cells:
        for d in DIRS:
            if d == 0 and p[0] in (1, lay.W - 2):
                continue
            q = lay.nb(p, CCW[d])
            bp = lay.nb(p, REV[d])
            bq = lay.nb(q, REV[d]) if q else None
            if bp is None or bq is None:
                continue
            out.append((f'splitter at {p} direction {d} with two straight belts behind it',
                        b.and_(lay.k[p][('S', d, 1)], lay.isb(bp, d, d), lay.isb(bq, d, d))))
    return out


def glue_partial_splitters(lay):
    """a splitter with a single input and straight belts on both outputs, clear of the last column"""
    b = lay.b
    out = []
    for p in lay.cells:
        for d in DIRS:
            q = lay.nb(p, CCW[d])
            fp = lay.nb(p, d)
            fq = lay.nb(q, d) if q else None
            if q is None or fp is None or fq is None or any(c[0] > lay.W - 2 for c in (p, q, fp, fq)):
                continue
            out.append((f'splitter at {p} direction {d} with one input and two straight outputs',
                        b.and_(lay.k[p][('S', d, 1)], b.xor(lay.conn_in(p, d), lay.conn_in(q, d)), lay.isb(fp, d, d), lay.isb(fq, d, d))))
    return out


def expandable(lay, L, x0=0, x1=None):
    """a straight belt directly before or after an underground that could still be longer, inside columns x0..x1"""
    b = lay.b
    x1 = lay.W - 1 if x1 is None else x1
    out = []
    unlimited = L == float('inf')

    def ok(*cells):
        return all(c is not None and x0 <= c[0] <= x1 for c in cells)
    for p in lay.cells:
        for d in DIRS:
            before = lay.nb(p, REV[d])
            if unlimited:
                if ok(before, p):
                    out.append((f'belt before underground entrance {p} direction {d}', b.and_(lay.isb(before, d, d), lay.ui[p, d])))
                after = lay.nb(p, d)
                if ok(after, p):
                    out.append((f'belt after underground exit {p} direction {d}', b.and_(lay.isb(after, d, d), lay.uo[p, d])))
                continue
            for k, q, lit in lay.pair_lits(p, d)[0]:
                if k < 2 or k - 1 > L - 1:
                    continue
                pair = b.and_(lay.ui[p, d], lit)
                if ok(before, p, q):
                    out.append((f'belt before underground {p}->{q}', b.and_(pair, lay.isb(before, d, d))))
                after = lay.nb(q, d)
                if ok(after, p, q):
                    out.append((f'belt after underground {p}->{q}', b.and_(pair, lay.isb(after, d, d))))
    return out


def hooks(lay):
    return occurs(lay, 'hook', [(0, 0), (1, 0), (1, 1), (0, 1)], lambda d, t, a, c, e, f: [
        lay.b.or_(lay.isb(a, d, d), lay.isb(a, t, d)), lay.isb(c, d, t), lay.isb(e, t, REV[d]),
        lay.b.or_(lay.isb(f, REV[d], t), lay.isb(f, REV[d], REV[d]))])


def mergeable(lay, L):
    b = lay.b
    out = []
    for p in lay.cells:
        for d in DIRS:
            for k, q, lit in lay.pair_lits(p, d)[0]:
                r = lay.nb(q, d)
                if k < 2 or r is None:
                    continue
                for k2, s, lit2 in lay.pair_lits(r, d)[0]:
                    if k2 >= 2 and k + 1 + k2 - 1 <= L:
                        out.append((f'undergrounds {p}->{q} and {r}->{s} fit into one',
                                    b.and_(lay.ui[p, d], lit, lay.ui[r, d], lit2)))
    return out


def semicircles(lay):
    return occurs(lay, 'semicircle', [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], lambda d, t, a, e, z, f, g, h: [
        lay.b.or_(lay.isb(a, d, t), lay.isb(a, t, t)), lay.empty[e], lay.b.or_(lay.isb(z, REV[t], REV[t]), lay.isb(z, REV[t], d)),
        lay.isb(f, t, d), lay.isb(g, d, d), lay.isb(h, d, REV[t])])


def underground_hooks(lay):
    """belts double back around an underground end whose first buried tile is free"""
    b = lay.b

    def entry(d, t, e, p, a, c, f):
        return [lay.empty[e], lay.covered(e, d), lay.ui[p, d], lay.isb(a, t, d), lay.isb(c, REV[d], t),
                b.or_(lay.isb(f, REV[d], REV[d]), lay.isb(f, t, REV[d]))]

    def leave(d, t, e, p, a, c, f):
        return [lay.empty[e], lay.covered(e, REV[d]), lay.uo[p, REV[d]], lay.isb(a, REV[d], REV[t]), lay.isb(c, REV[t], d),
                b.or_(lay.isb(f, d, d), lay.isb(f, d, REV[t]))]
    cells = [(1, 0), (0, 0), (-1, 0), (-1, -1), (0, -1)]
    return occurs(lay, 'hook into an underground', cells, entry) + occurs(lay, 'hook out of an underground', cells, leave)


def zigzags(lay):
    return occurs(lay, 'zigzag', [(0, 0), (1, 0), (0, 1), (1, 1)], lambda d, t, a, e, c, f: [
        lay.isb(a, d, t), lay.empty[e], lay.isb(c, t, d), lay.isb(f, d, t)])


def parallel_splitters(lay):
    """a belt runs along the back of a splitter that it could have entered: it passes behind the near half"""
    b = lay.b

    def build(d, t, a, near, far):
        head = 1 if t == CCW[d] else 0
        return [b.or_(lay.isb(a, d, d), lay.isb(a, t, d)), lay.k[near][('S', t, 1 - head)], lay.k[far][('S', t, head)], lay.conn_out(near, t)]
    return occurs(lay, 'belt along a splitter', [(0, 0), (0, 1), (1, 1)], build)


def double_edge_belts(lay):
    b = lay.b
    out = []
    for x in {1, max(lay.W - 2, 1)}:
        if x >= lay.W:
            continue
        for y in range(lay.H - 1):
            out.append((f'two straight belts side by side at ({x},{y})', b.and_(lay.isb((x, y), 0, 0), lay.isb((x, y + 1), 0, 0))))
    return out


def passing(lay, bits):
    """two neighbouring pairs of straight belts of one half running in opposite directions, the second on the left of the first"""
    b = lay.b

    def build(d, t, a, c, e, f):
        return [lay.isb(a, d, d), lay.isb(c, d, d), lay.isb(e, REV[d], REV[d]), lay.isb(f, REV[d], REV[d]),
                b.eq(bits[a], bits[c]), b.eq(bits[a], bits[e]), b.eq(bits[a], bits[f])]
    return occurs(lay, 'same half passing itself', [(0, 0), (1, 0), (0, 1), (1, 1)], build, sides=(CCW,))


def awkward_entry(lay):
    """an underground surfaces, turns left twice around a free tile and comes back"""
    def build(d, t, p, e, q, c, f, g, h):
        return [lay.empty[p], lay.covered(p, d), lay.uo[e, d], lay.empty[q], lay.isb(c, d, t), lay.conn_out(f, t), lay.conn_in(f, t),
                lay.isb(g, t, REV[d]), lay.conn_out(h, REV[d]), lay.conn_in(h, REV[d])]
    return occurs(lay, 'awkward underground', [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (1, 2)], build, sides=(CCW,))
