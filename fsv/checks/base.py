"""Grid configurations shared by the base-rule checks."""
import itertools

from .. import env
env.quiet_imports()
from factorio_sat.solver import Grid
from factorio_sat.template import EdgeMode

INF = float('inf')
MODES = {'n': EdgeMode.NO_WRAP, 'w': EdgeMode.WRAP}


def edge_mode(code):
    """'n', 'w' (one mode for both axes) or a pair such as 'nw' (horizontal, vertical)"""
    return MODES[code] if len(code) == 1 else tuple(MODES[c] for c in code)


def edges_arg(form, subset):
    """subset of blocked sides (0 right, 1 top, 2 left, 3 bottom) in the form the grid takes"""
    if form == 'bool':
        return bool(subset)
    if form == 'pair':
        return (2 in subset, 1 in subset)
    return (2 in subset, 1 in subset, 0 in subset, 3 in subset)


def base_grid(cfg):
    W, H, L, mode, bb, bu = cfg
    g = Grid(W, H, 1, L, edge_mode=edge_mode(mode))
    g.prevent_bad_undergrounding()
    g.prevent_intersection()
    g.enforce_maximum_underground_length()
    if bb is not None:
        g.block_belts_through_edges(edges_arg(*bb))
    if bu is not None:
        g.block_underground_through_edges(edges_arg(*bu))
    return g


def blocked_dirs(spec):
    return () if spec is None else tuple(spec[1])


def configs(thorough, axis_sets=True):
    out = []
    ALL = (0, 1, 2, 3)
    for W, H, L in [(2, 2, 1), (2, 3, 4), (3, 2, 1), (3, 3, 1), (3, 3, INF), (4, 3, 2), (4, 4, 1), (3, 5, 2), (5, 3, 3), (4, 5, 4), (6, 2, 4),
                    (2, 6, 3), (7, 2, 8), (5, 5, 3)]:
        out.append((W, H, L, 'n', None, None))
    for W, H, L in [(2, 2, 1), (3, 3, 1), (3, 4, 2), (4, 3, 4), (4, 4, INF), (5, 2, 3)]:
        out.append((W, H, L, 'w', None, None))
        out.append((W, H, L, 'nw', None, None))
        out.append((W, H, L, 'wn', None, None))
    for r in range(5):
        for s in itertools.combinations(ALL, r):
            out.append((3, 3, 1, 'n', ('four', s), None))
            out.append((3, 3, 1, 'n', None, ('four', s)))
            out.append((3, 4, 2, 'n', ('four', s), ('four', tuple(d for d in ALL if d not in s))))
    for form, s in [('bool', ALL), ('bool', ()), ('pair', (0, 2)), ('pair', (1, 3)), ('pair', ALL), ('pair', ())]:
        out.append((4, 3, 2, 'n', (form, s), None))
        out.append((4, 3, 2, 'n', None, (form, s)))
    out.append((5, 4, 4, 'n', ('bool', ALL), ('bool', ALL)))
    for W, H, L in [(10, 3, 8), (3, 10, 8), (12, 2, 8), (2, 12, INF), (6, 5, 1), (4, 8, 5)]:
        out.append((W, H, L, 'n', None, None))
    out.append((6, 6, 4, 'n', ('bool', ALL), ('bool', ALL)))
    out.append((5, 5, 3, 'w', None, None))
    out.append((7, 3, INF, 'nw', None, None))
    out.append((3, 7, 6, 'wn', None, None))
    for r, s in enumerate(((), (0,), (1,), (2,), (3,), (0, 1), (2, 3), (1, 2, 3), ALL)):
        out.append((4, 4, 2, 'n', ('four', s), ('four', tuple((d + 1) % 4 for d in s))))
    if thorough:
        for W, H, L in [(16, 2, 12), (2, 16, 12), (14, 3, 10), (9, 5, 6), (8, 8, 3), (7, 7, INF)]:
            out.append((W, H, L, 'n', None, None))
        for W, H, L in [(6, 6, 4), (7, 5, 4), (5, 7, 2), (8, 4, 6), (4, 8, INF), (10, 3, 8), (3, 10, 8), (6, 5, 1), (12, 2, 8)]:
            out.append((W, H, L, 'n', None, None))
            out.append((W, H, L, 'n', ('bool', ALL), ('bool', ALL)))
        for W, H, L in [(5, 5, 3), (6, 4, 4), (4, 6, 2), (7, 3, INF)]:
            for m in ('w', 'nw', 'wn'):
                out.append((W, H, L, m, None, None))
        for r in range(5):
            for s in itertools.combinations(ALL, r):
                for t in itertools.combinations(ALL, max(0, r - 1)):
                    out.append((4, 4, 2, 'n', ('four', s), ('four', t)))
    return out
