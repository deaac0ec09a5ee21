"""Every layout obeying the reference rules of belt physics (a symbolic layout, one literal per cell and tile kind) must be
accepted by the grid's real clauses: for-all layouts, exists auxiliary variables, decided by Skolem terms and expansion."""
from ..gridcheck import Case, Complete
from ..layout import DIRS
from .base import base_grid, configs, blocked_dirs

BOUNDS = {
    'quick': 'grids 2x2..6x6 (also 12x2, 10x3, 4x8), underground length 1..8 and unlimited, all three wrap modes up to 4x4 (and 5x5, 7x3, 3x7), all 16 blocked-edge subsets on 3x3/3x4, some on 4x4',
    'thorough': 'grids up to 8x8, 16x2, 14x3, underground length 1..12 and unlimited, wrap on <=5x5/7x3, blocked-edge subset pairs on 4x4',
}


def task(cfg):
    W, H, L, mode, bb, bu = cfg
    c = Complete(Case(lambda: base_grid(cfg), config=cfg))
    lay = c.lay
    rules = lay.rules_surface()
    rules += lay.rules_underground(L, [d in blocked_dirs(bu) for d in DIRS])
    rules += lay.rules_blocked_belts(blocked_dirs(bb))
    w = c.witnesses(rules)
    c.underground_skolem()
    c.check(rules, 'base rules')
    return {'obligations': len(c.grid.clauses), 'witnesses': w, 'paths': c.dec.npaths, 'config': str(cfg)}


def run(ctx):
    ctx.encoded('solver.Grid.__init__', 'solver.Grid.prevent_intersection', 'solver.Grid.prevent_bad_undergrounding',
                'solver.Grid.enforce_maximum_underground_length', 'solver.Grid.block_belts_through_edges',
                'solver.Grid.block_underground_through_edges', 'solver.Grid.read_tile', 'template.FactorioGrid.parse_cell')
    ctx.assume('an underground belt takes items only from behind', 'grids are at least 2x2')
    ctx.map(task, configs(ctx.thorough))
