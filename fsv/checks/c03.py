"""Every assignment satisfying the grid's real clauses is decoded (by the real decoder, run symbolically) and must obey
reference rules of belt physics: both ends of every connection agree, undergrounds pair within range, splitter halves pair,
idle splitter outputs do not leak, blocked edges are not crossed, reported directions are the physical ones."""
from ..gridcheck import Case, Sound
from ..layout import DIRS, REV
from .base import base_grid, configs, blocked_dirs

BOUNDS = {
    'quick': 'grids 2x2..6x6 (also 12x2, 10x3, 4x8), underground length 1..8 and unlimited, all three wrap modes up to 4x4 (and 5x5, 7x3, 3x7), all 16 blocked-edge subsets on 3x3/3x4, some on 4x4',
    'thorough': 'grids up to 8x8, 16x2, 14x3, underground length 1..12 and unlimited, wrap on <=5x5/7x3, blocked-edge subset pairs on 4x4',
}


def task(cfg):
    W, H, L, mode, bb, bu = cfg
    case = Case(lambda: base_grid(cfg), config=cfg)
    s = Sound(case)
    lay = s.lay
    rules = lay.rules_surface()
    blocked = [d in blocked_dirs(bu) for d in DIRS]
    rules += lay.rules_underground(L, blocked)
    rules += lay.rules_blocked_belts(blocked_dirs(bb))
    rules += s.rules_reported()
    s.check(rules, 'a generated layout is not physically consistent')
    # vacuity: the clauses admit layouts with every kind of tile they should
    w = 0
    for want in (['B'], ['S'], ['UI']):
        lits = [l for p in s.dec.cells for k, l in lay.k[p].items() if k[0] in want]
        if s.witness([s.b.or_(lits)]) is not None:
            w += 1
    return {'obligations': len(rules), 'witnesses': w, 'paths': s.dec.npaths, 'config': str(cfg)}


def run(ctx):
    ctx.encoded('solver.Grid.__init__', 'solver.Grid.prevent_intersection', 'solver.Grid.prevent_bad_undergrounding',
                'solver.Grid.enforce_maximum_underground_length', 'solver.Grid.block_belts_through_edges',
                'solver.Grid.block_underground_through_edges', 'solver.Grid.read_tile', 'template.FactorioGrid.parse_cell',
                'template.CompositeTemplate.parse', 'tile.*.write', 'util.implies', 'util.literals_same', 'cardinality.quadratic_*')
    ctx.assume('an underground belt takes items only from behind (side-loading undergrounds is not modelled, as in the repository\'s own suite)',
               'outside a non-wrapping grid belts and undergrounds may continue unless the edge is blocked',
               'grids are at least 2x2')
    ctx.map(task, configs(ctx.thorough))
