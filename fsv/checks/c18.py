"""C18: the real stringifier tool is executed symbolically in both modes, `decode` on what `encode` printed, with tiles of
unknown kind in the grid; what is read back must be the grid that was written."""
import itertools
import json

from ..core import Violation, NoAnswer
from ..dse import FD
from .. import symtile as st
import factorio_sat.stringifier as stringifier

KINDS = st.KINDS + [('F',)]
BOUNDS = {
    'quick': 'grids up to 4x4 with one cell of any of the %d printable tile kinds at any position, two symbolic cells in grids up to 2x2; others a fixed mix; two grids per run; one unknown cell at a corner or in the middle of 7x2, 2x7, 12x1, 1x12, 5x6' % len(KINDS),
    'thorough': 'grids up to 5x5 with one symbolic cell; up to 3x3 with two; corners and middle of grids up to 20x11; two grids per run',
}
FIXED = [('S', 0, 1), ('E',), ('B', 0, 1), ('UI', 3), ('F',), ('S', 3, 0), ('UO', 2), ('B', 2, 2)]
SECOND = {(0, 0): ('E',), (1, 0): ('S', 1, 0)}


def text(W, H, tiles):
    return json.dumps([[{'tile': tiles[x, y]} for x in range(W)] for y in range(H)])


def judge(W, H, kinds, line):
    got = json.loads(line)
    if len(got) != H or any(len(r) != W for r in got):
        return f'a {W}x{H} grid reads back with another size'
    for (x, y), ks in kinds.items():
        r = st.from_json(got[y][x]['tile'])
        for k in ks:
            if r != k:
                return f'{st.to_json(k)} at {(x, y)} reads back as {st.to_json(r)}'
    return None


def both(line, eng=None, objs=None):
    line2 = text(2, 1, {p: st.to_json(k) for p, k in SECOND.items()})
    if eng is not None:
        with st.symbolic_json(eng, objs):
            out, exc = st.run_cli(stringifier, ['encode'], line + '\n' + line2 + '\n')
    else:
        out, exc = st.run_cli(stringifier, ['encode'], line + '\n' + line2 + '\n')
    if exc is not None:
        return None, f'encode fails: {exc!r}'
    back, exc = st.run_cli(stringifier, ['decode'], out)
    if exc is not None:
        return None, f'decode fails: {exc!r}'
    lines = back.splitlines()
    if len(lines) != 2:
        return None, f'{len(lines)} grids read back instead of 2'
    return lines, None


def verdict(W, H, kinds, lines, bad):
    return bad or judge(W, H, kinds, lines[0]) or judge(2, 1, {p: [k] for p, k in SECOND.items()}, lines[1])


def concrete(W, H, kinds):
    lines, bad = both(text(W, H, {p: st.to_json(k) for p, k in kinds.items()}))
    return verdict(W, H, {p: [k] for p, k in kinds.items()}, lines, bad)


def task(t):
    W, H, free = t
    cells = [(x, y) for y in range(H) for x in range(W)]
    fixed = {p: FIXED[(i * 3 + W) % len(FIXED)] for i, p in enumerate(cells)}
    eng, dom = st.cells_engine(free, KINDS)

    def path(eng):
        objs = {}
        for p in free:
            name = '%d_%d' % p
            objs[name] = FD(eng, name, [(l, st.to_json(k)) for l, k in dom[p]])
        tiles = {p: (st.MARK + '%d_%d' % p if p in free else st.to_json(fixed[p])) for p in cells}
        lines, bad = both(text(W, H, tiles), eng, objs)
        kinds = {p: [fixed[p]] for p in cells}
        for p in free:
            kinds[p] = [k for _, k in st.current(eng, '%d_%d' % p, dom[p])]
        return kinds, verdict(W, H, kinds, lines, bad)
    n = 0
    suspect = False

    def replay(choices):
        for combo in itertools.product(*choices):
            ks = dict(fixed)
            ks.update(zip(free, combo))
            real = concrete(W, H, ks)
            if real:
                raise Violation(real, input=text(W, H, {p: st.to_json(k) for p, k in ks.items()}))
    for kinds, bad in eng.explore(path):
        n += 1
        if bad is not None:
            replay([kinds[p] for p in free])
            suspect = True
    if suspect:
        replay([KINDS] * len(free))
    return {'obligations': n, 'paths': n, 'witnesses': 1}


def tasks(tier):
    out = []
    one, two = (5, 3) if tier == 'thorough' else (4, 2)
    for W in range(1, one + 1):
        for H in range(1, one + 1):
            cells = [(x, y) for y in range(H) for x in range(W)]
            for p in cells:
                out.append((W, H, [p]))
            if W <= two and H <= two:
                out += [(W, H, [q, p]) for i, p in enumerate(cells) for q in cells[:i]]
    big = [(7, 2), (2, 7), (12, 1), (1, 12), (5, 6)] + ([(20, 11), (9, 16)] if tier == 'thorough' else [])
    for W, H in big:
        for p in {(0, 0), (W - 1, 0), (0, H - 1), (W - 1, H - 1), (W // 2, H // 2)}:
            out.append((W, H, [p]))
    return out


def run(ctx):
    ctx.encoded('stringifier.main', 'stringifier.encode', 'stringifier.decode', 'stringifier.encode_tile', 'stringifier.decode_char',
                'blueprint.read_tile', 'blueprint.write_tile', 'BaseTile.read', 'tile.*.read', 'tile.*.write')
    ctx.assume('inserters and assembling machines have no character (they print as U) and are outside the property')
    ctx.map(task, tasks(ctx.tier))
