"""Interchanges: every model of the clauses handed to the solver obeys the reference rules, and every model of the same problem
without the extra flow-count constraints keeps its layout and line values when they are added."""
from ..core import NoAnswer, Violation
from ..gridcheck import Case, Sound, Refine
from ..layout import DIRS, REV, INF
from ..tools import run_main, patched
from .balancer import colour_bits

BOUNDS = {
    'quick': 'even heights 2 to 14, widths 2..10 (2..9 for the flow counts), underground length 1..4, plain, alternating and rotationally symmetric',
    'thorough': 'heights 2..10, widths 2..12 (heights 2..8 for the flow counts), underground length 1..8, plain, alternating and rotationally symmetric',
}


def tool(W, H, L, opts, flow=True):
    from factorio_sat import interchange
    argv = [W, H, '--underground-length', L] + list(opts)
    if flow:
        return run_main(interchange, argv).grid
    with patched(interchange, 'require_correct_transport_through_edges', lambda *a, **k: None):
        return run_main(interchange, argv).grid


def turned(k):
    """half turn, then run backwards"""
    if k[0] == 'B':
        return ('B', k[2], k[1])
    if k[0] == 'UI':
        return ('UO', k[1])
    if k[0] == 'UO':
        return ('UI', k[1])
    return k


def rules_of(lay, bits, opts):
    b = lay.b
    W, H = lay.W, lay.H
    out = list(lay.line_colour(bits))
    for p in lay.cells:
        out.append((f'no splitter at {p}', -lay.anyspl(p)))
    for y in range(H):
        out.append((f'row {y} enters on the left', lay.conn_in((0, y), 0)))
        out.append((f'row {y} leaves on the right', lay.conn_out((W - 1, y), 0)))
        out.append((f'row {y} starts in its half', b.eq_const(bits[0, y], 0 if y < H // 2 else 1)))
        out.append((f'nothing leaves on the left of row {y}', -lay.conn_out((0, y), 2)))
        out.append((f'nothing enters on the right of row {y}', -lay.conn_in((W - 1, y), 2)))
    for x in range(W):
        for p, d in (((x, 0), 1), ((x, H - 1), 3)):
            out.append((f'nothing crosses the side {d} at {p}', b.and_(-lay.conn_out(p, d), -lay.conn_in(p, REV[d]))))
    for y in range(0, H, 2):
        p, q = bits[W - 1, y], bits[W - 1, y + 1]
        if '--alternating' in opts:
            ok = b.and_(b.eq_const(p, 0), b.eq_const(q, 1))
        else:
            ok = b.or_(b.and_(b.eq_const(p, 0), b.eq_const(q, 1)), b.and_(b.eq_const(p, 1), b.eq_const(q, 0)))
        out.append((f'outputs {y} and {y + 1} pair the halves', ok))
    if '--rot-symmetry' in opts:
        for p in lay.cells:
            q = (W - 1 - p[0], H - 1 - p[1])
            out.append((f'{p} and {q} are symmetric', b.and_([b.iff(l, lay.k[q][turned(k)]) for k, l in lay.k[p].items() if k[0] != 'S'])))
    return out


def sound(a):
    _, W, H, L, opts = a
    case = Case(lambda: tool(W, H, L, opts), config=a)
    s = Sound(case)
    bits = colour_bits(s.dec, case)
    rules = s.lay.rules_surface() + s.lay.rules_underground(L, [True] * 4) + rules_of(s.lay, bits, opts)
    s.check_each(rules, f'interchange {opts}')
    w = int(s.witness() is not None)
    return {'obligations': len(rules), 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} satisfiable={w}'}


def refine(a):
    _, W, H, L, opts = a
    r = Refine(Case(lambda: tool(W, H, L, opts, flow=False), config=a), Case(lambda: tool(W, H, L, opts), config=a), keep=('colour',))
    w = int(r.a.witness() is not None)
    r.check([], 'flow-count constraints')
    return {'obligations': len(r.cb.grid.clauses), 'witnesses': w, 'config': f'{a} satisfiable={w}'}


def task(a):
    return (sound if a[0] == 'sound' else refine)(a)


OPTS = [(), ('--alternating',), ('--rot-symmetry',), ('--alternating', '--rot-symmetry')]


def tasks(th):
    out = []
    for o in OPTS:
        for W, H, L in [(2, 2, 1), (4, 2, 2), (8, 4, 4), (9, 4, 4), (10, 4, 3), (6, 6, 4), (7, 6, 4), (9, 6, 4), (6, 8, 4), (10, 8, 4), (7, 10, 4), (6, 12, 8), (9, 14, 4)]:
            out.append(('sound', W, H, L, o))
        for W, H, L in [(2, 2, 1), (4, 2, 2), (8, 4, 4), (9, 4, 4), (6, 6, 4), (7, 6, 4), (6, 8, 4), (6, 10, 4), (7, 12, 4)]:
            out.append(('refine', W, H, L, o))
    if th:
        for o in OPTS:
            for W, H, L in [(11, 4, 8), (12, 4, 4), (10, 6, 4), (11, 6, 4), (12, 8, 4), (8, 10, 4)]:
                out.append(('sound', W, H, L, o))
            for W, H, L in [(11, 4, 8), (12, 4, 4), (9, 6, 4), (7, 8, 4)]:
                out.append(('refine', W, H, L, o))
        out.append(('refine', 10, 8, 4, OPTS[2]))
        out.append(('refine', 10, 8, 4, OPTS[3]))
    return sorted(out, key=lambda t: (t[0] == 'sound', -t[1] * t[2]))


def run(ctx):
    ctx.encoded('interchange.main', 'interchange.require_correct_transport_through_edges', 'interchange.create_edge', 'interchange.flow_counts',
                'interchange.require_rotational_symmetry', 'solver.Grid.*')
    ctx.assume('pysat\'s cardinality encoders count exactly (C02)')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 10:
        raise NoAnswer('too few satisfiable configurations')
