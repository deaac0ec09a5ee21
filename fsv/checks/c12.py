"""Belt blocks: the models of the clauses the real tool hands to the solver are exactly the layouts obeying the reference rules
for the given options."""
import itertools

from ..core import NoAnswer
from ..gridcheck import Case, Sound, Complete
from ..layout import DIRS, REV, INF
from ..netspec import not_only_below_empty
from ..tools import run_main, ToolError

BOUNDS = {
    'quick': 'all option combinations on blocks up to 5x4, 9x2 and 8x3, underground length 0..7',
    'thorough': 'all option combinations on blocks up to 7x6 (single loops up to 6x4), underground length 0..6',
}


def tool(W, H, L, opts):
    from factorio_sat import make_block
    return run_main(make_block, [W, H, '--underground-length', L] + list(opts)).grid


def succ(lay):
    """(p, q) -> literal: items leaving p arrive at q"""
    b = lay.b
    res = {}
    for p in lay.cells:
        for d in DIRS:
            q = lay.nb(p, d)
            if q is not None:
                res.setdefault((p, q), []).append(lay.emit[p, d])
            for k, q, lit in lay.pair_lits(p, d)[0]:
                res.setdefault((p, q), []).append(b.and_(lay.ui[p, d], lit))
    return {k: b.or_(v) for k, v in res.items()}


def steps(lay):
    """at[k][p]: after k steps from the top left cell items are at p"""
    b = lay.b
    s = succ(lay)
    pred = {p: [] for p in lay.cells}
    for (p, q), lit in s.items():
        pred[q].append((p, lit))
    at = [{p: b.T if p == (0, 0) else b.F for p in lay.cells}]
    for _ in range(len(lay.cells) - 1):
        prev = at[-1]
        at.append({q: b.or_([b.and_(prev[p], lit) for p, lit in pred[q]]) for q in lay.cells})
    return at


def small_loop(lay, x, y):
    b = lay.b
    a, c, d, e = (x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)
    cw = [lay.isb(a, 1, 0), lay.isb(c, 0, 3), lay.isb(d, 3, 2), lay.isb(e, 2, 1)]
    ccw = [lay.isb(a, 2, 3), lay.isb(e, 3, 0), lay.isb(d, 0, 1), lay.isb(c, 1, 2)]
    return b.or_(b.and_(cw), b.and_(ccw))


def rules_of(lay, L, opts):
    b = lay.b
    tile = '--tile' in opts
    out = lay.rules_surface()
    for p in lay.cells:
        out.append((f'no splitter at {p}', -lay.anyspl(p)))
        if '--allow-empty' not in opts:
            out.append((f'{p} is used', -lay.empty[p]))
        if L == 0:
            out.append((f'{p} is not an underground', -b.or_(lay.axis[p, 0], lay.axis[p, 1])))
    if L > 0:
        out += lay.rules_underground(L, [not tile] * 4)
    if not tile:
        out += lay.rules_blocked_belts(range(4))
    for x in range(lay.W - 1):
        for y in range(lay.H - 1):
            out.append((f'no 2x2 loop at ({x},{y})', -small_loop(lay, x, y)))
    if '--no-parallel' in opts:
        for p in lay.cells:
            for axis, side in ((0, 3), (1, 0)):
                q = lay.nb(p, side)
                if q is not None:
                    cov = [b.or_([lay.covered(r, d) for d in (axis, axis + 2)]) for r in (p, q)]
                    out.append((f'no parallel undergrounds below {p} and {q}', -b.and_(cov)))
    at = None
    if '--single-loop' in opts:
        at = steps(lay)
        for k in range(1, len(at)):
            out.append((f'the loop does not close after {k} tiles', -at[k][0, 0]))
    return out, at


def task(a):
    W, H, L, opts = a
    case = Case(lambda: tool(W, H, L, opts), config=a)
    s = Sound(case)
    rules, _ = rules_of(s.lay, L, opts)
    s.check(rules, f'block with {opts}')
    w = int(s.witness() is not None)
    c = Complete(case)
    rules, at = rules_of(c.lay, L, opts)
    if L > 0:
        rules = rules + not_only_below_empty(c.lay, L)
    b, lay = c.b, c.lay
    if at is not None:
        n = None
        for p in lay.cells:
            inst = c.dec.inst[p]
            idx = [b.or_([at[k][p] for k in range(len(at)) if (k >> i) & 1]) for i in range(len(inst.colour))]
            for i, v in enumerate(inst.colour):
                c.skolem(v, idx[i])
        for p in lay.cells:
            inst = c.dec.inst[p]
            for axis, var in ((0, inst.colour_ux), (1, inst.colour_uy)):
                val = [b.F] * len(var)
                for d in (axis, axis + 2):
                    for k, q, lit in lay.back_lits(p, d)[0]:
                        here = b.and_(lit, lay.covered(p, d))
                        val = [b.ite(here, c.known[x], y) for x, y in zip(c.dec.inst[q].colour, val)]
                for v, l in zip(var, val):
                    c.skolem(v, l)
    c.underground_skolem()
    c.check(rules, f'block with {opts}')
    return {'obligations': len(rules) + len(case.grid.clauses), 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} satisfiable={w}'}


FLAGS = ('--tile', '--allow-empty', '--no-parallel', '--single-loop')


def tasks(th):
    out = []
    for r in range(5):
        for o in itertools.combinations(FLAGS, r):
            if '--allow-empty' in o and '--single-loop' in o:
                continue
            sizes = [(3, 3, 1), (4, 4, 2), (4, 3, 2), (5, 4, 3)] if '--single-loop' in o else [(3, 3, 1), (4, 4, 2), (5, 4, 4), (3, 5, 3), (2, 4, 1)]
            sizes += [(4, 4, 0), (3, 4, 0)]
            sizes += [(7, 2, 5), (2, 7, 3)] if '--single-loop' in o else [(9, 2, 7), (2, 9, 6), (8, 3, 5)]
            if '--single-loop' not in o:
                sizes.append((5, 5, 0))
            if '--single-loop' in o:
                sizes += [(3, 5, 1), (5, 3, 2), (3, 5, 3)]
                if '--tile' in o:
                    sizes.append((5, 4, 1))
            if '--tile' in o and '--single-loop' in o and not th:
                sizes.remove((5, 4, 3))
            if th:
                sizes += ([(6, 4, 4)] if '--tile' not in o else []) if '--single-loop' in o else [(6, 6, 4), (7, 5, 6), (6, 6, 0)]
            for W, H, L in sizes:
                out.append((W, H, L, o))
    return sorted(out, key=lambda t: -t[0] * t[1] * (9 if '--single-loop' in t[3] else 1))


def run(ctx):
    ctx.encoded('make_block.main', 'make_block.ensure_loop_length', 'make_block.prevent_parallel', 'optimisations.prevent_small_loops',
                'optimisations.prevent_empty_along_underground', 'solver.Grid.*')
    ctx.assume('the 2x2 loop rule is about loops inside the block, not across the seam of a tiling')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 30:
        raise NoAnswer('too few satisfiable configurations')
