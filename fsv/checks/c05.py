"""Fixing tiles: with the real clauses plus those added by set_tile / --partial, every model decodes to exactly the fixed tiles
there, and every model of the unfixed clauses having those tiles stays one (for all completions, decided by SAT)."""
import base64
import json
import zlib

from .. import env
env.quiet_imports()
from factorio_sat import belt_balancer, tile as T
from factorio_sat.direction import Direction
from ..core import Violation, NoAnswer
from ..gridcheck import Case, Sound, Refine
from ..layout import KINDS, tile_json, DIRS, VEC, CCW, show
from ..tools import run_main, ToolError
from .. import shipped
from .base import base_grid, INF

BOUNDS = {
    'quick': 'set_tile: every tile kind at corner/edge/centre cells of 3x3 (plain) and 3x3 wrapped grids; --partial: 14 partial layouts (JSON and blueprint text) chosen by the solver on 5x3..6x3 and 5x5 balancer grids, 10 shipped balancers (up to 14x10) whole and without a 4x4 window',
    'thorough': 'set_tile: every tile kind at every cell of 4x4 plain, wrapped and mixed grids; --partial: 60 partial layouts on 5x3..6x3 and 5x5 balancer grids, 40 shipped balancers whole and without a 4x4 window',
}

NET = '0 0 1 1\n'
NET1 = '-1 0 1 1\n'


def make_tile(kind):
    D = Direction
    if kind == 'filler':
        return T.FillerTile()
    if kind[0] == 'E':
        return T.EmptyTile()
    if kind[0] == 'B':
        return T.Belt(D(kind[1]), D(kind[2]))
    if kind[0] in ('UI', 'UO'):
        return T.UndergroundBelt(D(kind[1]), kind[0] == 'UI')
    return T.Splitter(D(kind[1]), bool(kind[2]))


def t_set(a):
    (W, H, L, mode), p = a
    cfg = (W, H, L, mode, None, None)
    n = w = 0
    base = Case(lambda: base_grid(cfg), config=a)
    for kind in KINDS + ['filler']:
        def make():
            g = base_grid(cfg)
            g.set_tile(p[0], p[1], make_tile(kind))
            return g
        try:
            fixed = Case(make, config=[a, str(kind)])
        except Exception as e:
            raise Violation(f'fixing a tile raised {e!r}', input=str([a, kind]))
        k = ('E',) if kind == 'filler' else kind
        s = Sound(fixed)
        s.check([(f'the tile fixed at {p} as {k} appears', s.lay.k[p][k])], 'fixed tile')
        w += s.witness() is not None
        r = Refine(base, fixed)
        r.check([r.a.lay.k[p][k]], f'fixing {k} at {p}')
        n += 2
    return {'obligations': n, 'witnesses': w, 'config': str(a)}


# --- partial layouts ---------------------------------------------------------------------------------------------------------

def blueprint_text(kinds):
    """own encoder of the game's format, independent of the code under test"""
    ents = []
    names = {'B': 'transport-belt', 'UI': 'underground-belt', 'UO': 'underground-belt', 'S': 'splitter'}
    for (x, y), k in sorted(kinds.items()):
        if k[0] == 'E' or (k[0] == 'S' and not k[2]):
            continue
        d = k[2] if k[0] == 'B' else k[1]
        e = {'entity_number': len(ents) + 1, 'name': names[k[0]], 'position': {'x': x + .5, 'y': y + .5}}
        fd = {0: 2, 1: 0, 2: 6, 3: 4}[d]
        if fd:
            e['direction'] = fd
        if k[0] in ('UI', 'UO'):
            e['type'] = 'input' if k[0] == 'UI' else 'output'
        if k[0] == 'S':
            v = VEC[CCW[d]]
            e['position']['x'] += v[0] / 2
            e['position']['y'] += v[1] / 2
        ents.append(e)
    data = {'blueprint': {'item': 'blueprint', 'version': 0, 'entities': ents}}
    return '0' + base64.b64encode(zlib.compress(json.dumps(data).encode())).decode()


def curved_from_outside(lay, W, H):
    # what feeds such a belt is not part of a blueprint
    for (x, y), k in lay.items():
        if k[0] == 'B' and k[1] != k[2]:
            v = VEC[k[1]]
            if not (0 <= x - v[0] < W and 0 <= y - v[1] < H):
                return True
    return False


def args_of(W, H, opts):
    return ['net', W, H] + list(opts)


def solver_layouts(case, count, seed):
    """varied complete layouts picked by the solver: ask for each tile kind at rotating cells"""
    s = Sound(case)
    out = []
    cells = s.dec.cells
    i = seed
    tries = 0
    while len(out) < count and tries < 200 + 20 * count:
        tries += 1
        k = KINDS[(i * 7) % len(KINDS)]
        p = cells[(i * 5) % len(cells)]
        i += 1
        m = s.witness([s.lay.k[p][k]])
        if m is not None:
            out.append(s.lay.kinds(m))
    return out


def t_partial(a):
    W, H, net, opts, form, count, seed = a
    base = Case(lambda: run_main(belt_balancer, args_of(W, H, opts), files={'net': net}).grid, config=a)
    lays = solver_layouts(base, count, seed)
    if not lays:
        raise NoAnswer('no layout to fix tiles from')
    n = w = 0
    for j, lay in enumerate(lays):
        keep = {p: k for i, (p, k) in enumerate(sorted(lay.items())) if form == 'full' or (i * 3 + j * 2 + seed) % 4 != 0}
        if form == 'blueprint':
            # blueprints drop empty margins: use those touching the top and left
            keep = dict(lay)
            x0 = min(x for (x, y), k in lay.items() if k[0] != 'E')
            y0 = min(y for (x, y), k in lay.items() if k[0] != 'E')
            if x0 or y0 or curved_from_outside(lay, W, H):
                continue
            text = blueprint_text(lay)
        else:
            rows = [[{'tile': tile_json(keep.get((x, y), ('E',)))} for x in range(W)] for y in range(H)]
            if form == 'cropped':
                rows = [r[:W - 1] for r in rows[:H - 1]]
                keep = {p: k for p, k in keep.items() if p[0] < W - 1 and p[1] < H - 1}
            text = json.dumps(rows)
        keep = {p: k for p, k in keep.items() if k[0] != 'E'}

        def make():
            return run_main(belt_balancer, args_of(W, H, list(opts) + ['--partial', 'part']), files={'net': net, 'part': text}).grid
        try:
            fixed = Case(make, config=[a[:2], opts, form], partial=text[:400])
        except ToolError:
            raise
        except Exception as e:
            raise Violation(f'a partial layout was refused: {e!r}', layout=show(lay), input=text[:300])
        s = Sound(fixed)
        s.check([(f'the partial layout\'s tile at {p} appears', s.lay.k[p][k]) for p, k in keep.items()], 'partial layout')
        w += s.witness() is not None
        r = Refine(base, fixed)
        r.check([r.a.lay.k[p][k] for p, k in keep.items()], f'partial layout ({form})')
        n += 2
    return {'obligations': n, 'witnesses': w, 'config': str(a[:2] + a[3:])}


def t_shipped(a):
    """the partial layout is a shipped balancer, whole (blueprint text) or without a window (solver output)"""
    _, file, i, size, win = a
    sh = shipped.load(file)[i]
    if not shipped.usable(sh):
        return {'obligations': 0}
    net = sh.network_text()
    args = ['net', sh.W, sh.H, '--underground-length', sh.L]
    free = shipped.windows(sh, size)
    free = free[win % len(free)]
    base = Case(lambda: run_main(belt_balancer, args, files={'net': net}).grid, config=a)
    n = w = 0
    for form in ('window', 'blueprint'):
        if form == 'blueprint':
            if curved_from_outside(sh.kinds, sh.W, sh.H):
                continue
            keep, text = dict(sh.kinds), blueprint_text(sh.kinds)
        else:
            keep = {p: k for p, k in sh.kinds.items() if p not in free}
            text = json.dumps([[{'tile': tile_json(keep.get((x, y), ('E',)))} for x in range(sh.W)] for y in range(sh.H)])
        keep = {p: k for p, k in keep.items() if k[0] != 'E'}
        try:
            fixed = Case(lambda: run_main(belt_balancer, args + ['--partial', 'part'], files={'net': net, 'part': text}).grid, config=[sh.label, form], partial=text[:400])
        except ToolError:
            raise
        except Exception as e:
            raise Violation(f'a partial layout was refused: {e!r}', layout=show(sh.kinds), input=text[:300])
        s = Sound(fixed)
        s.check([(f'the partial layout\'s tile at {p} appears', s.lay.k[p][k]) for p, k in keep.items()], 'partial layout')
        w += s.witness() is not None
        r = Refine(base, fixed)
        r.check([r.a.lay.k[p][k] for p, k in keep.items()], f'partial layout ({form}, {sh.label})')
        n += 2
    return {'obligations': n, 'witnesses': w, 'config': f'partial {sh.label} ({sh.tier}) {sh.W}x{sh.H}'}


def dispatch(t):
    return globals()[t[0]](t[1])


def run(ctx):
    ctx.encoded('solver.Grid.set_tile', 'solver.Grid.read_tile', 'belt_balancer.set_nonempty_tiles', 'blueprint.convert_to_tiles',
                'blueprint.read_tile', 'blueprint.import_blueprint', 'belt_balancer.main (--partial)')
    ctx.assume('a filler tile counts as empty in the solver', 'partial layouts are a solver-chosen set; all their completions are decided')
    tasks = []
    if ctx.thorough:
        for c in [(4, 4, 2, 'n'), (4, 4, 2, 'w'), (4, 4, 2, 'nw'), (3, 3, 1, 'wn')]:
            for x in range(c[0]):
                for y in range(c[1]):
                    tasks.append(('t_set', (c, (x, y))))
    else:
        for p in [(0, 0), (2, 0), (1, 0), (0, 1), (1, 1), (2, 2)]:
            tasks.append(('t_set', ((3, 3, 1, 'n'), p)))
        for p in [(0, 0), (2, 1)]:
            tasks.append(('t_set', ((3, 3, 1, 'w'), p)))
    m = 5 if ctx.thorough else 1
    for W, H, net, opts in [(5, 3, NET, ()), (5, 4, NET, ('--custom',)), (6, 3, NET, ('--use-ends',)), (5, 5, NET, ('--180',)), (5, 4, NET1, ())]:
        for form, cnt in (('some', 2), ('full', 1), ('cropped', 1), ('blueprint', 2)):
            tasks.append(('t_partial', (W, H, net, opts, form, cnt * m, 3)))
    for k, (f, i) in enumerate(shipped.near_tasks(False, 40 if ctx.thorough else 10, 1)):
        tasks.insert(0, ('t_shipped', ('near', f, i, 4, k)))
    ctx.map(dispatch, tasks)
