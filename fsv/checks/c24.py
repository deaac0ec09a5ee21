"""C24: the real render code draws into a recording stand-in for OpenGL (no display exists here), with tiles of unknown kind,
unknown line numbers and underground flags, an unknown animation step and unknown key presses; what was drawn where, from
which part of which sprite sheet, in which tint and order, is compared with the layout."""
import contextlib
import io
import itertools
import json
import os

import z3

from ..core import Violation, NoAnswer, time_limit
from ..dse import Engine, FD, SymInt, SymReal, SymBool, Limit
from ..tools import patched
from .. import symtile as st
from .. import glemu
import numpy as np
import pygame
import ffmpeg
import factorio_sat.render as render
import factorio_sat.tilemaps as tilemaps
import factorio_sat.blueprint as blueprint

BOUNDS = {
    'quick': 'every tile kind in 1x1, 2x1, 1x2 layouts and at every place of a 3x3 one, every animation step (symbolic); 4 unknown line '
             'numbers (integers or none); all underground flags of two tiles; up to 40 lines; viewer: 3 layouts, 4 key presses; '
             'export of 2 layouts with one unknown tile; overlays of attributes on 2 tiles',
    'thorough': 'as quick, with 2x2 layouts of two unknown tiles, 5 unknown line numbers, up to 128 lines, 6 key presses',
}
R, U, L, D = range(4)
EPS = 0.02

# the sheets of the game: rows of the belt sheet
STRAIGHT = {R: 0, L: 1, U: 2, D: 3}
# (travelling in this direction, leaving in that one)
CURVE = {(L, U): 4, (D, R): 5, (R, U): 6, (D, L): 7, (U, R): 8, (L, D): 9, (U, L): 10, (R, D): 11}
# half belts, by the side of the tile they reach: towards the side they start at, or away from it
STARTING = {D: 12, L: 14, U: 16, R: 18}
ENDING = {D: 13, L: 15, U: 17, R: 19}
COLUMN = {U: 0, R: 1, D: 2, L: 3}
OPP = {R: L, L: R, U: D, D: U}


class Bad(Exception):
    pass


class Spec:
    """an expected sprite: file, frame (col, row) in cells of a size, allowed crop of the frame, place"""

    def __init__(self, file, cell, col, row, box=None, centre=None, crop=None, slack=0.25):
        self.file, self.cell, self.col, self.row = file, cell, col, row
        self.box, self.centre, self.crop, self.slack = box, centre, crop, slack


def specs(kind, x, y, a):
    """[(layer, Spec)] of a tile; layer 0 below 1"""
    k = kind[0]
    if k in ('E', 'F'):
        return []

    def belt(row):
        return 0, Spec('hr-transport-belt.png', (128, 128), a % 16, row, box=(x - .5, y - .5, x + 1.5, y + 1.5))
    if k == 'B':
        return [belt(STRAIGHT[kind[1]] if kind[1] == kind[2] else CURVE[kind[1], kind[2]])]
    if k in ('UI', 'UO'):
        d, inp = kind[1], k == 'UI'
        return [belt(ENDING[d] if inp else STARTING[OPP[d]]),
                (1, Spec('hr-underground-belt-structure.png', (192, 192), COLUMN[d if inp else OPP[d]], 1 if inp else 0,
                         box=(x - 1, y - 1, x + 2, y + 2)))]
    if k == 'S':
        d, head = kind[1], kind[2]
        col, row = a % 8, (a // 8) % 4
        c = (x + .5, y + .5)
        full = (0, 0, 0, 0)
        left, right = (0, 0, .35, .65), (.35, .65, 1, 1)
        if d == R:
            s = Spec('hr-splitter-east.png', (90, 84), col, row, centre=c) if head else \
                Spec('hr-splitter-east-top_patch.png', (90, 104), col, row, centre=c)
        elif d == L:
            s = Spec('hr-splitter-west-top_patch.png', (90, 96), col, row, centre=c) if head else \
                Spec('hr-splitter-west.png', (90, 86), col, row, centre=c)
        elif d == U:
            s = Spec('hr-splitter-north.png', (160, 70), col, row, centre=c, crop=right if head else left)
        else:
            s = Spec('hr-splitter-south.png', (164, 64), col, row, centre=c, crop=left if head else right)
        return [belt(STRAIGHT[d]), (1, s)]
    if k == 'I':
        f = 'hr-long-handed-inserter-platform.png' if kind[2] else 'hr-inserter-platform.png'
        return [(None, Spec(f, (105, 79), COLUMN[kind[1]], 0, centre=(x + .5, y + .5), slack=.4))]
    f = 'hr-assembling-machine-1.png'
    third = [(0, 0, .25, .45), (.25, .45, .55, .75), (.55, .75, 1, 1)]
    return [(None, Spec(f, (214, 226), a % 8, (a // 8) % 4, centre=(x + .5, y + .5), slack=.4,
                        crop=third[kind[1]] + third[kind[2]]))]


def number(v):
    return not isinstance(v, (SymReal, SymInt)) or type(v) not in (SymReal, SymInt)


class Conds:
    """numeric conditions: decided at once when concrete, otherwise collected for the solver"""

    def __init__(self):
        self.sym = []

    def need(self, cond, what):
        if isinstance(cond, SymBool) and type(cond) is SymBool:
            self.sym.append((cond.e, what))
        elif not cond:
            raise Bad(what)

    def near(self, a, b, eps, what):
        d = a - b
        if type(d) in (SymReal, SymInt):
            self.need(d <= eps, what)
            self.need(d >= -eps, what)
        elif not -eps <= d <= eps:
            raise Bad(what)

    def within(self, a, lo, hi, what):
        self.need(a >= lo, what)
        self.need(a <= hi, what)


def judge(draws, kinds, anim, px, conds, tinted=True, underground=None, grid=False, texts=None):
    """compare a picture with the layout {(x, y): kind}; px: window position -> tile units.
    Returns {('tile', cell) or ('ux', cell) ...: tint}."""
    sprites, lines, words = [], [], []
    for i, p in enumerate(draws):
        pts = [px(q) for q in p.pts]
        if p.kind == 'line':
            lines.append((i, p, pts))
        elif p.file:
            sprites.append((i, p, pts))
        elif p.text is not None:
            words.append((i, p, pts))
        else:
            raise Bad('a plain rectangle is drawn')
    tint = {}
    used = set()
    order = {0: [], 1: []}
    hands = {t for k in kinds.values() if k[0] == 'I' for t in [k[2]]}
    for (x, y), kind in sorted(kinds.items()):
        for layer, s in specs(kind, x, y, anim):
            found = None
            for i, p, pts in sprites:
                if i in used or p.file != s.file:
                    continue
                x0, y0 = min(q[0] for q in pts), min(q[1] for q in pts)
                x1, y1 = max(q[0] for q in pts), max(q[1] for q in pts)
                if s.box is not None:
                    if any(abs(u - v) > EPS for u, v in zip((x0, y0, x1, y1), s.box)):
                        continue
                elif abs((x0 + x1) / 2 - s.centre[0]) > s.slack or abs((y0 + y1) / 2 - s.centre[1]) > s.slack:
                    continue
                found = i, p, pts, (x0, y0, x1, y1)
                break
            if found is None:
                raise Bad(f'{kind} at {(x, y)}: no sprite of {s.file} on its tile')
            i, p, pts, (x0, y0, x1, y1) = found
            used.add(i)
            what = f'{kind} at {(x, y)}: wrong part of {s.file}'
            corner = {}
            for q, uv in zip(pts, p.uv):
                cx = 0 if abs(q[0] - x0) < EPS else 1 if abs(q[0] - x1) < EPS else None
                cy = 0 if abs(q[1] - y0) < EPS else 1 if abs(q[1] - y1) < EPS else None
                corner[cx, cy] = uv
            if set(corner) != set(itertools.product((0, 1), (0, 1))):
                raise Bad(f'{kind} at {(x, y)}: the sprite is not upright')
            u0, v0 = corner[0, 0]
            u1, v1 = corner[1, 1]
            conds.near(corner[1, 0][0], u1, EPS, what)
            conds.near(corner[1, 0][1], v0, EPS, what)
            conds.near(corner[0, 1][0], u0, EPS, what)
            conds.near(corner[0, 1][1], v1, EPS, what)
            cw, ch = s.cell
            bx, by = s.col * cw, s.row * ch
            if s.crop is None:
                want = (0, 0, 0, 0, 1, 1, 1, 1)
            else:
                c = s.crop if len(s.crop) == 8 else s.crop + (0, 0, 1, 1)
                want = (c[0], c[1], c[4], c[5], c[2], c[3], c[6], c[7])
            # crops are given as the range of the left, top, right and bottom edge, in parts of the frame
            conds.within(u0 - bx, want[0] * cw - EPS, want[1] * cw + EPS, what)
            conds.within(v0 - by, want[2] * ch - EPS, want[3] * ch + EPS, what)
            conds.within(u1 - bx, want[4] * cw - EPS, want[5] * cw + EPS, what)
            conds.within(v1 - by, want[6] * ch - EPS, want[7] * ch + EPS, what)
            if s.file != 'hr-assembling-machine-1.png':
                conds.near(u1 - u0, 64 * (x1 - x0), .5, f'{kind} at {(x, y)}: wrong scale')
                conds.near(v1 - v0, 64 * (y1 - y0), .5, f'{kind} at {(x, y)}: wrong scale')
            if layer is not None:
                order[layer].append(i)
            if tint.setdefault(('tile', (x, y)), p.colour) != p.colour:
                raise Bad(f'{kind} at {(x, y)}: parts have different tints')
    arms = {0: 0, 1: 0}
    for i, p, pts in sprites:
        if i in used:
            continue
        if '-hand-' in p.file and ('long' in p.file) in hands:
            arms['long' in p.file] += 1
            continue
        raise Bad(f'something else is drawn: {p.file} at {tuple(round(v, 3) for v in pts[0])}')
    for t in (0, 1):
        if arms[t] < sum(k[0] == 'I' and k[2] == t for k in kinds.values()):
            raise Bad('an inserter without an arm')
    if order[0] and order[1] and max(order[0]) > min(order[1]):
        raise Bad('a belt is drawn over a structure')
    # underground overlay
    want = {}
    for p, flags in (underground or {}).items():
        x, y = p
        if flags[0] or flags[2]:
            want['ux', p] = ((x, y + .5), (x + 1, y + .5))
        if flags[1] or flags[3]:
            want['uy', p] = ((x + .5, y), (x + .5, y + 1))
    top = max([i for i, _, _ in sprites], default=-1)
    seen = set()
    for i, p, pts in lines:
        for key, ends in want.items():
            if any(all(abs(a - b) < EPS for q, r in zip(pts, e) for a, b in zip(q, r)) for e in (ends, ends[::-1])):
                if p.text is not None:
                    raise Bad('an underground line is drawn with a texture')
                if i < top:
                    raise Bad('an underground line is hidden by a sprite')
                seen.add(key)
                if tint.setdefault(key, p.colour) != p.colour:
                    raise Bad('an underground line with two tints')
                break
        else:
            (ax, ay), (bx, by) = pts
            on = (abs(ax - bx) < EPS and abs(ax - round(ax)) < EPS) or (abs(ay - by) < EPS and abs(ay - round(ay)) < EPS)
            if not (grid and on):
                raise Bad(f'a line that belongs to nothing: {pts}')
    if seen != set(want):
        raise Bad(f'no underground line at {sorted(set(want) - seen)}')
    if not tinted:
        for key, c in tint.items():
            if any(abs(v - 1) > 1e-6 for v in c):
                raise Bad(f'{key} is tinted although colours are hidden')
    # attribute texts
    got = {}
    for i, p, pts in words:
        x0, y0 = min(q[0] for q in pts), min(q[1] for q in pts)
        x1, y1 = max(q[0] for q in pts), max(q[1] for q in pts)
        cell = (int(np.floor((x0 + x1) / 2)), int(np.floor((y0 + y1) / 2)))
        if x0 < cell[0] - EPS or y0 < cell[1] - EPS or x1 > cell[0] + 1 + EPS or y1 > cell[1] + 1 + EPS:
            raise Bad('a text leaves its tile')
        if i < top:
            raise Bad('a text is hidden by a sprite')
        if p.uv is not None:
            us, vs = [q[0] for q in p.uv], [q[1] for q in p.uv]
            for q, (u, v) in zip(pts, p.uv):
                if u != (min(us) if q[0] < (x0 + x1) / 2 else max(us)) or v != (min(vs) if q[1] < (y0 + y1) / 2 else max(vs)) or min(us) == max(us):
                    raise Bad('a text is not upright')
        got.setdefault(cell, []).append((y0, y1, p.text))
    if texts is not None:
        for cell, exp in texts.items():
            have = sorted(got.pop(cell, []))
            if any(a[1] > b[0] + EPS for a, b in zip(have, have[1:])):
                raise Bad(f'texts at {cell} overlap')
            if [t for _, _, t in have] != exp:
                raise Bad(f'{cell} shows {[t for _, _, t in have]}, expected {exp}')
    if got:
        raise Bad(f'text on {sorted(got)}')
    return tint


def same_value(a, b):
    """z3 condition / bool: two line values are the same"""
    if a is None or b is None:
        return a is None and b is None
    return a == b


def check_tints(tint, values, conds):
    """tints agree exactly when the line values do"""
    items = [(k, v, values[k]) for k, v in tint.items() if k in values]
    for (ka, ta, va), (kb, tb, vb) in itertools.combinations(items, 2):
        eq = max(abs(p - q) for p, q in zip(ta, tb)) < 1e-3
        s = same_value(va, vb)
        if eq:
            conds.need(s, f'{ka} and {kb} carry different lines but have the same tint')
        else:
            conds.need(not s if type(s) is bool else SymBool(s.eng, z3.Not(s.e)), f'{ka} and {kb} carry the same line but have different tints')


# --- direct calls with a symbolic animation step -------------------------------------------------------------------------
_session = None


class Session:
    """sprite sheets loaded once; a fresh picture for every call"""

    def __init__(self):
        self.emu = glemu.Emulator()
        self.emu.s.viewport = (0, 0, 64, 64)
        with glemu.installed(self.emu, render, tilemaps):
            tilemaps.init()

    def draw(self, solution, animation, **kw):
        s = self.emu.s
        h, w = solution.shape
        s.viewport = (0, 0, 64 * w, 64 * h)
        for k in s.stack:
            s.stack[k] = [np.eye(4)]
        s.mode = glemu.GL.GL_PROJECTION
        self.emu.glOrtho(0, w, h, 0, -1, 1)
        s.mode = glemu.GL.GL_MODELVIEW
        s.enabled, s.colour, s.begin = {glemu.GL.GL_BLEND}, (1.0, 1.0, 1.0), None
        s.fbos = {0: glemu.Picture((64 * w, 64 * h))}
        s.draw_fb = s.read_fb = 0
        s.fbos[0].draws = []
        render.render_solution(solution, animation, kw['colouring'], None, kw['underground'])
        if len(s.stack[glemu.GL.GL_MODELVIEW]) != 1 or not np.allclose(s.m, np.eye(4)):
            raise Bad('the drawing position is left changed')
        return s.fbos[0].draws


def session():
    """installed for the rest of this worker process"""
    global _session
    if _session is None:
        _session = Session()
        _session.patch = contextlib.ExitStack()
        _session.patch.enter_context(glemu.installed(_session.emu, render, tilemaps))
    return _session


def px64(q):
    return q[0] / 64, q[1] / 64


def grid_of(W, H, cell):
    a = np.empty((H, W), dtype=object)
    for y in range(H):
        for x in range(W):
            a[y, x] = cell(x, y)
    return a


def attempt(fn):
    """(result, None) or (None, what is wrong)"""
    try:
        with time_limit(60):
            return fn(), None
    except Bad as e:
        return None, str(e)
    except (glemu.Unsupported, Limit, NoAnswer):
        raise
    except Exception as e:
        return None, f'fails: {e!r}'


def length_of(kinds):
    return 32 if any(k[0] == 'S' for k in kinds.values()) else 16


PAIR = st.KINDS + [('F',), ('I', 2, 0), ('A', 1, 2)]
FIXED = [('S', 1, 1), ('E',), ('B', 0, 3), ('UI', 2), ('S', 0, 0), ('B', 3, 3), ('UO', 1), ('F',), ('I', 2, 0)]


def layout_case(W, H, kinds, a, values=None, flags=None, colouring=True, underground=False, shapes=None):
    """draw with the real code and judge; returns Conds.  values: {('tile'|'ux'|'uy', cell): line value}"""
    def cell(x, y):
        item = {'tile': st.to_json(kinds[x, y])}
        if values is not None:
            for key, name in (('tile', 'colour'), ('ux', 'colour_ux'), ('uy', 'colour_uy')):
                # (solvers always report all three; a missing one would count as line 0)
                v = values.get((key, (x, y)), values.get(('tile', (x, y))))
                item[name] = [v] if shapes and shapes.get((key, (x, y))) else v
        if flags is not None:
            item['underground'] = list(flags[x, y])
        return item
    sol = grid_of(W, H, cell)
    draws = list(session().draw(sol, a, colouring=colouring, underground=underground))
    conds = Conds()
    tint = judge(draws, kinds, a, px64, conds, tinted=colouring, underground=flags if underground else None)
    if colouring:
        check_tints(tint, values if values is not None else {k: 0 for k in tint}, conds)
    return conds


def decide(eng, W, H, kinds, a, conds, bad, **kw):
    """discharge a path; a counterexample is replayed with concrete numbers"""
    model = None
    if bad is None and conds.sym:
        if eng.prove(z3.And([c for c, _ in conds.sym])) is not None:
            model = eng.zmodel
            bad = 'x'
    if bad is None:
        return
    vals = eng.inputs(model)

    def conc(v):
        if type(v) is SymInt:
            m = z3.simplify(z3.substitute(v.e, *[(eng.names[n], z3.IntVal(k)) for n, k in vals.items()]))
            return m.as_long()
        return v
    ca = conc(a)
    ckw = dict(kw)
    if kw.get('values') is not None:
        ckw['values'] = {k: conc(v) for k, v in kw['values'].items()}
    _, real = attempt(lambda: layout_case(W, H, kinds, ca, **ckw))
    data = [[st.to_json(kinds[x, y]) for x in range(W)] for y in range(H)]
    if real is None:
        raise NoAnswer(f'did not replay: {bad} {data} {vals} {[w for _, w in conds.sym][:1] if conds else None}')
    raise Violation(real, input=json.dumps({'layout': data, 'animation': ca, 'lines': {str(k): v for k, v in (ckw.get('values') or {}).items()},
                                            'underground': {str(k): v for k, v in (kw.get('flags') or {}).items()},
                                            'colours': kw.get('colouring', True)}))


def kinds_task(t):
    """unknown tile kinds, unknown animation step"""
    W, H, free, given = t
    pool = st.ALL if not given else PAIR
    cells = [(x, y) for y in range(H) for x in range(W)]
    fixed = {p: FIXED[(i * 2 + W) % len(FIXED)] for i, p in enumerate(cells)}
    fixed.update(given)
    eng, dom = st.cells_engine(free, pool)
    eng.reals = True
    eng.max_paths = 200_000

    def path(eng):
        kinds = dict(fixed)
        for p in free:
            kinds[p] = FD(eng, '%d_%d' % p, [(l, Box(k)) for l, k in dom[p]])._force().kind
        a = eng.int('animation', 0, length_of(kinds) - 1)
        if any(k[0] == 'I' for k in kinds.values()):
            a = eng.concretise(a.e)    # the arm of an inserter needs trigonometry
        conds, bad = attempt(lambda: layout_case(W, H, kinds, a))
        decide(eng, W, H, kinds, a, conds, bad)
        return len(conds.sym) if conds else 0
    n = sum(1 for _ in eng.explore(path))
    return {'obligations': eng.obligations + n, 'paths': n, 'witnesses': 1}


class Box:
    """a tile kind as a finite-domain value"""
    __slots__ = ('kind',)

    def __init__(self, kind):
        self.kind = kind


def colours_task(t):
    """unknown line numbers (integers or none) on belts and underground lines"""
    W, H, keys, first = t
    keys = [(k, tuple(p)) for k, p in keys]
    cells = [(x, y) for y in range(H) for x in range(W)]
    kinds = {p: [('B', 0, 0), ('UI', 0), ('S', 3, 1), ('B', 1, 0), ('UO', 2)][i % 5] for i, p in enumerate(cells)}
    eng = Engine()
    eng.max_paths = 400_000
    flags = {p: [('ux', p) in keys, ('uy', p) in keys, False, False] for p in cells}
    over = any(k != 'tile' for k, _ in keys)

    def path(eng):
        values, shapes = {}, {}
        for i, k in enumerate(keys):
            c = first if i == 0 else eng.choose(2)
            values[k] = None if c == 0 else eng.int(f'line{i}')
        if eng.choose(2):
            shapes = {k: True for k in keys}
        # every tile has a line in a solution
        for p in cells:
            values.setdefault(('tile', p), next(iter(values.values())))
        kw = dict(values=values, flags=flags if over else None, underground=over, shapes=shapes)
        conds, bad = attempt(lambda: layout_case(W, H, kinds, 0, **kw))
        decide(eng, W, H, kinds, 0, conds, bad, **kw)
    n = sum(1 for _ in eng.explore(path))
    return {'obligations': eng.obligations, 'paths': n, 'witnesses': 1}


def flags_task(t):
    """unknown underground flags; overlay on or off; colours on or off"""
    W, H, kinds = t
    kinds = {tuple(p): tuple(k) for p, k in kinds}
    cells = sorted(kinds)
    eng = Engine()

    def path(eng):
        flags = {p: [bool(eng.int(f'u{p[0]}_{p[1]}_{d}', 0, 1) == 1) for d in range(4)] for p in cells}
        colouring = bool(eng.choose(2))
        under = bool(eng.choose(2))
        values = {(k, p): 0 for k in ('tile', 'ux', 'uy') for p in cells}
        kw = dict(values=values, flags=flags, underground=under, colouring=colouring)
        conds, bad = attempt(lambda: layout_case(W, H, kinds, 3, **kw))
        decide(eng, W, H, kinds, 3, conds, bad, **kw)
    n = sum(1 for _ in eng.explore(path))
    return {'obligations': n, 'paths': n, 'witnesses': 1}


def many_task(t):
    """any number of lines up to a bound: no two look alike"""
    lo, hi = t
    eng = Engine()

    def path(eng):
        n = eng.concretise(eng.int('lines', lo, hi).e)
        base = eng.int('first line', 0)
        kinds = {(x, 0): ('B', 0, 0) for x in range(n)}
        values = {('tile', (x, 0)): base + x for x in range(n)}
        conds, bad = attempt(lambda: layout_case(n, 1, kinds, 0, values=values))
        decide(eng, n, 1, kinds, 0, conds, bad, values=values)
    k = sum(1 for _ in eng.explore(path))
    return {'obligations': k, 'paths': k, 'witnesses': 1}


# --- the viewer ------------------------------------------------------------------------------------------------------------
class Event:
    def __init__(self, type, key=None):
        self.type = type
        self.key = key
        self.mod = 0
        self.unicode = ''


def run_viewer(argv, layouts, events, objs=None, eng=None, limit=2000):
    """main() on these layouts ({cell: JSON item} rows); returns (window, videos, emulator, stdout)"""
    emu = glemu.Emulator()
    win = glemu.Window(emu, events, limit)
    video = glemu.Video()
    text = ''.join(json.dumps(l) + '\n' for l in layouts)
    with contextlib.ExitStack() as s:
        s.enter_context(glemu.installed(emu, render, tilemaps))
        for obj, name, val in win.patches(pygame):
            s.enter_context(patched(obj, name, val))
        s.enter_context(patched(ffmpeg, 'input', video.input))
        if eng is not None:
            s.enter_context(st.symbolic_json(eng, objs or {}))
        try:
            out, exc = st.run_cli(render, argv, text)
        except glemu.Stop:
            raise Bad('the viewer does not stop')
    if isinstance(exc, glemu.Unsupported):
        raise exc
    if exc is not None:
        raise Bad(f'the viewer fails: {exc!r}')
    return win, video, emu, out


def rows(W, H, kinds, **extra):
    return [[dict({'tile': kinds[x, y] if isinstance(kinds[x, y], str) else st.to_json(kinds[x, y]), 'colour': x + W * y},
                  **{k: v(x, y) for k, v in extra.items()}) for x in range(W)] for y in range(H)]


def size_of(W, H, cell, pad):
    return W * cell + round(2 * pad * cell), H * cell + round(2 * pad * cell)


def judge_frame(pic, W, H, kinds, a, cell, pad, tinted, underground=None, texts=None):
    size = size_of(W, H, cell, pad)
    if pic.size is None or tuple(pic.size) != size:
        raise Bad(f'a {W}x{H} layout is shown in {pic.size} pixels, not {size}')
    if pic.draws is None:
        raise Bad('nothing is shown')
    sx, sy = (W + 2 * pad) / size[0], (H + 2 * pad) / size[1]

    def px(q):
        return q[0] * sx - pad, q[1] * sy - pad
    conds = Conds()
    return judge(pic.draws, kinds, a, px, conds, tinted=tinted, grid=True, underground=underground, texts=texts)


def which(pic, W, H, kinds, cell, pad, tinted, guess, **kw):
    """the animation step that a picture shows"""
    n = length_of(kinds)
    err = None
    for a in [guess % n] + [i for i in range(n) if i != guess % n]:
        try:
            judge_frame(pic, W, H, kinds, a, cell, pad, tinted, **kw)
            return a
        except Bad as e:
            err = err or e
    raise err


def check_video(stream, emu, W, H, kinds, cell, pad, tinted, fmt, index):
    name = os.path.basename(str(stream.name))
    if name != f'{index}.' + ('gif' if fmt == 'gif' else 'mp4'):
        raise Bad(f'layout {index} is written to {name}')
    if stream.kw.get('pix_fmt') != 'rgb24' or stream.kw.get('format') != 'rawvideo':
        raise glemu.Unsupported('another pixel format')
    frames = stream.frames(emu)
    n = length_of(kinds)
    if len(frames) != n:
        raise Bad(f'the video of layout {index} has {len(frames)} frames, not {n}')
    for i, (pic, upright) in enumerate(frames):
        if pic is None:
            raise Bad(f'frame {i} of layout {index} is not a picture of it')
        if not upright:
            raise Bad(f'frame {i} of layout {index} is upside down')
        pic = pic.copy()
        w, h = map(int, str(stream.kw['s']).split('x'))
        pic.size = (w, h)
        try:
            judge_frame(pic, W, H, kinds, i, cell, pad, tinted)
        except Bad as e:
            raise Bad(f'frame {i} of the video of layout {index}: {e}')


CLI = [[], ['--hide-colour', '--cell-size', '8', '--padding', '0.5'], ['--padding', '1', '--export-format', 'gif', '--cell-size', '16']]


def opts(argv):
    def val(n, d):
        return argv[argv.index(n) + 1] if n in argv else d
    return dict(cell=int(val('--cell-size', 32)), pad=float(val('--padding', 0)), tinted='--hide-colour' not in argv,
                fmt=val('--export-format', 'video'))


def export_case(argv, layouts, objs=None, eng=None):
    """layouts: [(W, H, kinds, JSON rows)]; kinds is a function (known after the run)"""
    o = opts(argv)
    win, video, emu, out = run_viewer(argv + ['--export-all'], [l[3] for l in layouts], lambda: [], objs, eng)
    if len(video.files) != len(layouts):
        raise Bad(f'{len(video.files)} videos of {len(layouts)} layouts')
    for i, ((W, H, kinds, _), f) in enumerate(zip(layouts, video.files)):
        check_video(f, emu, W, H, kinds() if callable(kinds) else kinds, o['cell'], o['pad'], o['tinted'], o['fmt'], i)


def export_task(t):
    argv, where, pick = t
    base = [(2, 1, {(0, 0): ('B', 0, 0), (1, 0): ('UI', 0)}), (1, 2, {(0, 0): ('B', 3, 3), (0, 1): ('B', 3, 0)}),
            (2, 2, {(0, 0): ('S', 0, 1), (0, 1): ('S', 0, 0), (1, 0): ('B', 0, 0), (1, 1): ('E',)})]
    kindset = [k for i, k in enumerate(st.ALL) if i % 4 == pick and k[0] not in ('I', 'A')]
    free = sorted(base[where][2])[0]
    eng, dom = st.cells_engine([free], kindset)

    def path(eng):
        fd = FD(eng, 'tile', [(l, st.to_json(k)) for l, k in dom[free]])
        layouts = []
        for i, (W, H, ks) in enumerate(base):
            js = dict(ks)
            if i == where:
                js[free] = st.MARK + 'tile'

            def kinds(i=i, ks=ks):
                return dict(ks, **{}) if i != where else {**ks, free: st.from_json(fd._force())}
            layouts.append((W, H, kinds, rows(W, H, js)))
        _, bad = attempt(lambda: export_case(argv, layouts, {'tile': fd}, eng))
        if bad is not None:
            real = [(W, H, ks if i != where else {**ks, free: st.from_json(fd._force())}) for i, (W, H, ks) in enumerate(base)]
            _, r = attempt(lambda: export_case(argv, [(W, H, ks, rows(W, H, ks)) for W, H, ks in real]))
            if r is None:
                raise NoAnswer(f'did not replay: {bad}')
            raise Violation(r, input=json.dumps([rows(W, H, ks) for W, H, ks in real]), config=['render'] + argv + ['--export-all'])
    n = sum(1 for _ in eng.explore(path))
    return {'obligations': n, 'paths': n, 'witnesses': 1}


VIEW = [(2, 1, {(0, 0): ('B', 0, 0), (1, 0): ('UI', 0)}), (1, 2, {(0, 0): ('S', 0, 1), (0, 1): ('S', 0, 0)}),
        (2, 1, {(0, 0): ('UO', 2), (1, 0): ('B', 2, 2)})]
KEYS = {'i': pygame.K_i, 'k': pygame.K_k, 's': pygame.K_s, 'e': pygame.K_e}


def view_case(keys, argv=(), count=3, idle=3, keep=None):
    """press these keys, one per poll (None: no key), then leave the viewer alone, then close it"""
    argv = list(argv)
    o = opts(argv)
    layouts = VIEW[:count]
    script = list(keys) + [None] * idle + ['quit']
    it = iter(script)

    def events():
        k = next(it, 'quit')
        if k == 'quit':
            return [Event(pygame.QUIT)]
        moved = Event(pygame.MOUSEMOTION)
        del moved.key
        return [Event(pygame.KEYDOWN, KEYS[k]), Event(pygame.KEYUP, KEYS[k])] if k else [moved]
    win, video, emu, out = run_viewer(argv, [rows(*l) for l in layouts], events)
    # the layouts as the user sees them: read on demand, in order; wraps around
    read, idx, done = 1, 0, False
    saves, prints = [], []
    expect = []
    wait = False
    seen_steps = set()
    for k in script:
        if k == 'i':
            idx += 1
            if idx >= read and not done:
                if read < count:
                    read += 1
                else:
                    done = True
            idx %= read
        elif k == 'k':
            idx = (idx - 1) % read
        elif k == 'e':
            prints.append(idx)
        expect.append(idx)
    if len(win.frames) != len(script):
        raise Bad(f'{len(win.frames)} pictures shown in {len(script)} rounds')
    prev = None
    for n, (pic, i) in enumerate(zip(win.frames, expect)):
        W, H, kinds = layouts[i]
        try:
            a = which(pic, W, H, kinds, o['cell'], o['pad'], o['tinted'], n // 2)
        except Bad as e:
            raise Bad(f'after {[k for k in script[:n + 1] if k]} layout {i} should be shown: {e}')
        if prev is not None and prev[0] == i and expect[n - 1] == i and script[n] not in ('i', 'k'):
            m = length_of(kinds)
            if (a - prev[1]) % m not in (0, 1):
                raise Bad(f'the animation jumps from step {prev[1]} to {a}')
        prev = (i, a)
    if idle > 70:
        W, H, kinds = layouts[expect[-1]]
        m = length_of(kinds)
        steps = {which(p, W, H, kinds, o['cell'], o['pad'], o['tinted'], n // 2) for n, p in enumerate(win.frames) if n >= len(keys)}
        if steps != set(range(m)):
            raise Bad(f'the animation of layout {expect[-1]} does not run through its {m} steps')
    got = [l for l in out.splitlines() if l.startswith('0')]
    codes = []
    for l in got:
        try:
            codes.append(blueprint.decode_blueprint(l))
        except Exception:
            pass
    want = [blueprint.make_blueprint(grid_of(layouts[i][0], layouts[i][1], lambda x, y: st.to_tile(layouts[i][2][x, y]))) for i in prints]
    if codes != want:
        raise Bad(f'{len(codes)} blueprints printed, expected those of layouts {prints}')
    # saving: the layout shown when all its steps have been drawn
    if 's' in keys and idle > 70:
        if len(video.files) != 1:
            raise Bad(f'{len(video.files)} videos saved after one key press')
        i = expect[-1]
        W, H, kinds = layouts[i]
        check_video(video.files[0], emu, W, H, kinds, o['cell'], o['pad'], o['tinted'], o['fmt'], i)
    elif 's' not in keys and video.files:
        raise Bad('a video nobody asked for')


def view_task(t):
    n, first, count, argv = t
    eng = Engine()

    def path(eng):
        keys = list(first)
        while len(keys) < n:
            keys.append([None, 'i', 'k', 'e'][eng.concretise(eng.int(f'key{len(keys)}', 0, 3).e)])
        _, bad = attempt(lambda: view_case(keys, argv, count))
        if bad is not None:
            raise Violation(bad, input=f'{count} layouts, keys {[k or "-" for k in keys]}', config=['render'] + list(argv))
    k = sum(1 for _ in eng.explore(path))
    return {'obligations': k, 'paths': k, 'witnesses': 1}


def save_task(t):
    n, argv, count = t
    eng = Engine()

    def path(eng):
        keys = []
        where = eng.concretise(eng.int('press', 0, n + 1).e)    # n + 1: not at all
        for i in range(n):
            keys.append([None, 'i', 'k'][eng.concretise(eng.int(f'key{i}', 0, 2).e)])
        if where <= n:
            keys.insert(where, 's')
        _, bad = attempt(lambda: view_case(keys, argv, count, idle=75))
        if bad is not None:
            raise Violation(bad, input=f'{count} layouts, keys {[k or "-" for k in keys]}', config=['render'] + list(argv))
    k = sum(1 for _ in eng.explore(path))
    return {'obligations': k, 'paths': k, 'witnesses': 1}


def lookup(item, name):
    for p in name.split('.'):
        item = item[int(p)] if p.isdigit() else item.get(p)
    return item


def raw_case(names, layout, kinds, W, H):
    it = iter([[], []])
    win, video, emu, out = run_viewer([a for n in names for a in ('--show-raw', n)] + ['--show-underground'], [layout],
                                      lambda: next(it, [Event(pygame.QUIT)]))
    texts = {}
    for y in range(H):
        for x in range(W):
            texts[x, y] = [l for n in names for l in str(np.array(lookup(layout[y][x], n))).split('\n')]
    flags = {(x, y): layout[y][x]['underground'] for y in range(H) for x in range(W)}
    for pic in win.frames:
        n = length_of(kinds)
        for a in range(n):
            try:
                judge_frame(pic, W, H, kinds, a, 32, 0, True, texts=texts, underground=flags)
                break
            except Bad as e:
                if a == 0:
                    err = e
        else:
            raise err


def raw_task(t):
    names, free = t
    W, H = 2, 1
    base = {(0, 0): ('B', 0, 0), (1, 0): ('UI', 0)}
    eng, dom = st.cells_engine([free], st.KINDS[::3])

    def path(eng):
        kinds = {**base, free: FD(eng, 'tile', [(l, Box(k)) for l, k in dom[free]])._force().kind}
        flags = [[False, bool(eng.choose(2)), False, False], [True, False, False, False]]
        lay = rows(W, H, kinds, underground=lambda x, y: flags[x], colour_ux=lambda x, y: None if x else 7)
        _, bad = attempt(lambda: raw_case(names, lay, kinds, W, H))
        if bad is not None:
            raise Violation(bad, input=json.dumps(lay), config=['render'] + [f'--show-raw {n}' for n in names])
    n = sum(1 for _ in eng.explore(path))
    return {'obligations': n, 'paths': n, 'witnesses': 1}


def dispatch(t):
    return globals()[t[0] + '_task'](t[1])


def tasks(tier):
    deep = tier == 'thorough'
    out = [('kinds', (1, 1, [(0, 0)], {}))]
    for k in (st.ALL if deep else PAIR):
        out.append(('kinds', (2, 1, [(1, 0)], {(0, 0): k})))
        out.append(('kinds', (1, 2, [(0, 1)], {(0, 0): k})))
        if deep:
            out += [('kinds', (2, 2, [p], {(0, 0): k})) for p in ((1, 0), (0, 1), (1, 1))]
    for x in range(3):
        for y in range(3):
            out.append(('kinds', (3, 3, [(x, y)], {})))
    for first in (0, 1):
        T = [('tile', (i, 0)) for i in range(5 if deep else 4)]
        out.append(('colours', (len(T), 1, T, first)))
        out.append(('colours', (2, 1, [('tile', (0, 0)), ('ux', (0, 0)), ('ux', (1, 0)), ('tile', (1, 0))], first)))
        out.append(('colours', (1, 2, [('uy', (0, 0)), ('ux', (0, 0)), ('uy', (0, 1)), ('tile', (0, 1))], first)))
    out.append(('flags', (2, 1, [((0, 0), ('E',)), ((1, 0), ('B', 0, 0))])))
    step = 8
    top = 128 if deep else 40
    out += [('many', (i, min(i + step - 1, top))) for i in range(1, top + 1, step)]
    for argv in CLI:
        for where in range(3):
            for pick in range(4):
                if deep or pick == 0 or argv is CLI[0]:
                    out.append(('export', (argv, where, pick)))
    n = 6 if deep else 4
    for a in (None, 'i', 'k', 'e'):
        for b in (None, 'i', 'k', 'e'):
            out.append(('view', (n, (a, b), 3, ())))
    out.append(('view', (3, (), 1, tuple(CLI[2]))))
    out.append(('save', (2 if deep else 1, (), 3)))
    out.append(('save', (2 if deep else 1, tuple(CLI[1]), 2)))
    for names in (['tile.type'], ['colour', 'tile'], ['underground', 'missing'], ['underground.1', 'colour_ux']):
        for free in ((0, 0), (1, 0)):
            out.append(('raw', (names, free)))
    return out


def run(ctx):
    ctx.encoded('render.main', 'render.render_solution', 'render.render_tile', 'render.render_attributes', 'render.create_palette',
                'render.HSVtoRGB', 'render.get_animation_length', 'render.export_video', 'render.render_to_framebuffer',
                'tilemaps.init', 'tilemaps.load_image', 'tilemaps.Tilemap.render', 'blueprint.read_tile')
    ctx.assume('OpenGL, the window system, the font and the video encoder are replaced by stand-ins that record (fsv/glemu.py)',
               'the sprite sheets have the layout of the game files that assets/fetch.py copies',
               'not claimed: the arm position of inserters, --colour-count, line width, order of sprites within a layer')
    ctx.map(dispatch, tasks(ctx.tier))
