"""C16: the real rotate tool (argument parsing, JSON reading, grid operation, tile operation, writing) is executed
symbolically with a tile of unknown kind in each cell in turn; its output must be the reference image of the input."""
import json

from ..core import Violation, NoAnswer
from ..dse import FD
from ..layout import REV
from .. import symtile as st
import factorio_sat.rotate as rotate

BOUNDS = {
    'quick': 'grids up to 3x3, all 6 operations, one cell of any of the %d tile kinds at any position (the others a fixed mix), two grids per run; two unknown cells in 1x2 and 2x1; one unknown cell at a corner or in the middle of 7x2, 2x7, 12x1, 1x12, 5x6' % len(st.ALL),
    'thorough': 'grids up to 4x4 with one symbolic cell; up to 2x3 with two symbolic cells; corners and middle of grids up to 20x11; all 6 operations',
}
OPS = ['no_op', 'rot_90', 'rot_180', 'rot_270', 'flip_x', 'flip_y']


def turn(k, f, toggle):
    if k[0] in ('E', 'F', 'A'):
        return k
    if k[0] == 'B':
        return ('B', f(k[1]), f(k[2]))
    if k[0] in ('UI', 'UO'):
        return (k[0], f(k[1]))
    if k[0] == 'I':
        return ('I', f(k[1]), k[2])
    return ('S', f(k[1]), 1 - k[2] if toggle else k[2])


def ref_kind(op, k):
    if op.startswith('rot_'):
        n = int(op[4:]) // 90
        return turn(k, lambda d: (d + n) % 4, False)
    if op == 'no_op':
        return k
    axis = 0 if op == 'flip_x' else 1
    return turn(k, lambda d: REV[d] if d % 2 == axis else d, True)


def ref_pos(op, x, y, W, H):
    """position of cell (x, y) and the new size"""
    if op == 'rot_90':    # counter-clockwise: right becomes up
        return (y, W - 1 - x), (H, W)
    if op == 'rot_180':
        return (W - 1 - x, H - 1 - y), (W, H)
    if op == 'rot_270':
        return (H - 1 - y, x), (H, W)
    if op == 'flip_x':
        return (W - 1 - x, y), (W, H)
    if op == 'flip_y':
        return (x, H - 1 - y), (W, H)
    return (x, y), (W, H)


FIXED = [('S', 0, 1), ('B', 0, 1), ('UI', 3), ('A', 0, 2), ('S', 3, 0), ('I', 1, 1), ('UO', 2), ('F',), ('B', 2, 2), ('E',)]


def text(W, H, tiles):
    """tiles: (x,y) -> json value"""
    return json.dumps([[{'tile': tiles[x, y], 'id': y * W + x} for x in range(W)] for y in range(H)])


def judge(op, W, H, kinds, line):
    """kinds: (x,y) -> set of kinds the cell may have on this path; line: output text. None if right."""
    got = json.loads(line)
    expect = {}
    for (x, y), ks in kinds.items():
        q, size = ref_pos(op, x, y, W, H)
        expect[q] = (y * W + x, (x, y), ks)
    if len(got) != size[1] or any(len(r) != size[0] for r in got):
        return f'size of the result is not {size}'
    for (x, y), (ident, src, ks) in expect.items():
        cell = got[y][x]
        if cell.get('id') != ident:
            return f'cell {src} is not moved to {(x, y)}'
        t = cell['tile']
        for k in ks:
            r = k if isinstance(t, str) else st.from_json(t)
            if r != ref_kind(op, k):
                return f'tile {st.to_json(k)} at {src} becomes {st.to_json(r)}, expected {st.to_json(ref_kind(op, k))}'
    return None


def concrete(op, W, H, kinds):
    line = text(W, H, {p: st.to_json(k) for p, k in kinds.items()})
    line2 = text(1, 1, {(0, 0): st.to_json(FIXED[0])})
    out, exc = st.run_cli(rotate, [op], line + '\n' + line2 + '\n')
    if exc is not None:
        return f'the tool fails: {exc!r}'
    lines = out.splitlines()
    if len(lines) != 2:
        return f'{len(lines)} grids printed for 2'
    return judge(op, W, H, {p: [k] for p, k in kinds.items()}, lines[0]) or \
        judge(op, 1, 1, {(0, 0): [FIXED[0]]}, lines[1])


def task(t):
    op, W, H, free = t
    cells = [(x, y) for y in range(H) for x in range(W)]
    fixed = {p: FIXED[(i * 3 + W) % len(FIXED)] for i, p in enumerate(cells)}
    eng, dom = st.cells_engine(free)

    def path(eng):
        objs = {}
        for p in free:
            name = '%d_%d' % p
            objs[name] = FD(eng, name, [(l, st.to_json(k)) for l, k in dom[p]])
        tiles = {p: (st.MARK + '%d_%d' % p if p in free else st.to_json(fixed[p])) for p in cells}
        line2 = text(1, 1, {(0, 0): st.to_json(FIXED[0])})
        with st.symbolic_json(eng, objs):
            out, exc = st.run_cli(rotate, [op], text(W, H, tiles) + '\n' + line2 + '\n')
        kinds = {p: [fixed[p]] for p in cells}
        for p in free:
            kinds[p] = [k for _, k in st.current(eng, '%d_%d' % p, dom[p])]
        if exc is not None:
            return kinds, f'the tool fails: {exc!r}'
        lines = out.splitlines()
        if len(lines) != 2:
            return kinds, f'{len(lines)} grids printed for 2'
        return kinds, judge(op, W, H, kinds, lines[0]) or judge(op, 1, 1, {(0, 0): [FIXED[0]]}, lines[1])
    n = 0
    suspect = None
    for kinds, bad in eng.explore(path):
        n += 1
        if bad is None:
            continue
        # replay every kind of this path on the real tool
        import itertools
        for combo in itertools.product(*[kinds[p] for p in free]):
            ks = {p: kinds[p][0] for p in cells}
            ks.update(zip(free, combo))
            real = concrete(op, W, H, ks)
            if real:
                raise Violation(real, input=text(W, H, {p: st.to_json(k) for p, k in ks.items()}), operation=op)
        suspect = bad
    if suspect:
        # the symbolic run misread the code (e.g. it looks at the representation of a value): fall back to concrete kinds
        import itertools
        for combo in itertools.product(st.ALL, repeat=len(free)):
            ks = dict(fixed)
            ks.update(zip(free, combo))
            real = concrete(op, W, H, ks)
            if real:
                raise Violation(real, input=text(W, H, {p: st.to_json(k) for p, k in ks.items()}), operation=op)
    return {'obligations': n, 'paths': n, 'witnesses': 1}


def tasks(tier):
    out = []
    top = 4 if tier == 'thorough' else 3
    for W in range(1, top + 1):
        for H in range(1, top + 1):
            cells = [(x, y) for y in range(H) for x in range(W)]
            for op in OPS:
                for p in cells:
                    out.append((op, W, H, [p]))
                if W * H <= (6 if tier == 'thorough' else 2):
                    for i, p in enumerate(cells):
                        for q in cells[:i]:
                            out.append((op, W, H, [q, p]))
    big = [(7, 2), (2, 7), (12, 1), (1, 12), (5, 6)] + ([(20, 11), (9, 16)] if tier == 'thorough' else [])
    for W, H in big:
        for p in {(0, 0), (W - 1, 0), (0, H - 1), (W - 1, H - 1), (W // 2, H // 2)}:
            out += [(op, W, H, [p]) for op in OPS]
    return out


def run(ctx):
    ctx.encoded('rotate.main', 'rotate.Operation', 'BaseTile.read', 'tile.*.read', 'tile.*.write', 'TransformableTile.rotate_180',
                'TransformableTile.rotate_270', 'TransformableTile.flip_y', 'tile.*.rotate_90', 'tile.*.flip_x', 'flip_x_direction', 'Direction.add')
    ctx.assume('quarter turns are counter-clockwise (right becomes up), as numpy.rot90 turns the grid',
               'cells are independent of each other beyond the symbolic ones; numpy moves cells without looking into them')
    ctx.map(task, tasks(ctx.tier))
    if ctx.witnesses == 0:
        raise NoAnswer('no path')
