"""Power-of-two generator: every model, decoded by the real code, carries sets of input pairs that merge by the reference rule."""
from ..core import NoAnswer, Violation
from ..gridcheck import Case, Sound
from ..layout import DIRS, REV, CCW, INF
from ..tools import run_main
from .balancer import colour_bits
from .. import known

BOUNDS = {
    'quick': 'sizes 4 and 8 (tool and bare generator) with width 2..6, size 16 (bare generator) with width 3, underground length 1..4 and unlimited',
    'thorough': 'sizes 4 and 8 with width 2..9, size 16 with width 3..5, underground length 1..8 and unlimited',
}


def tool(W, H, L):
    from factorio_sat import belt_balancer_net_free_power_of_2 as p2
    return run_main(p2, [W, H, '--underground-length', -1 if L == INF else L]).grid


def direct(W, H, L):
    from factorio_sat import belt_balancer_net_free_power_of_2 as p2
    g = p2.create_balancer(W, H, L)
    g.block_belts_through_edges((False, True))
    g.prevent_intersection()
    g.enforce_maximum_underground_length()
    return g


def rules_of(lay, bits, same):
    b = lay.b
    W, H = lay.W, lay.H
    out = list(lay.line_colour(bits))
    levels = H.bit_length() - 1 - 2
    stage = {i: [] for i in range(levels)}
    total = []
    size = {p: b.count(bits[p]) for p in lay.cells}
    for p in lay.cells:
        for d in DIRS:
            head = lay.k[p][('S', d, 1)]
            q = lay.nb(p, CCW[d])
            fp, fq = lay.nb(p, d), (lay.nb(q, d) if q else None)
            if q is None or fp is None or fq is None:
                out.append((f'no splitter at {p} faces off the layout in direction {d}', -head))
                continue
            out.append((f'splitter at {p} direction {d} uses all its ports',
                        b.imp(head, b.and_(lay.conn_in(p, d), lay.conn_in(q, d), lay.conn_out(p, d), lay.conn_out(q, d)))))
            out.append((f'splitter at {p} direction {d} merges disjoint sets', b.imp(head, b.and_([-b.and_(x, y) for x, y in zip(bits[p], bits[q])]))))
            union = [b.or_(x, y) for x, y in zip(bits[p], bits[q])]
            out.append((f'splitter at {p} direction {d} passes on the union', b.imp(head, b.and_(b.eq(bits[fp], union), b.eq(bits[fq], union)))))
            out.append((f'splitter at {p} direction {d} merges sets of equal size', b.imp(head, b.eq(size[p], size[q]))))
    # every splitter covers exactly one cell of one colour of the checkerboard
    for p in lay.cells:
        if (p[0] + p[1]) % 2:
            total.append(lay.anyspl(p))
            for i in range(levels):
                stage[i].append(same(p, i, b.and_(lay.anyspl(p), b.eq_const(size[p], 1 << i))))
    for i in range(levels):
        out.append((f'stage {i} has {H // 2} splitters', b.counts(stage[i], H // 2, 'eq')))
    if levels == 0:
        out.append(('there are no splitters', b.counts(total, 0, 'eq')))
    for p in lay.cells:
        out.append((f'the splitter at {p} belongs to a stage',
                    b.imp(lay.anyspl(p), b.or_([b.eq_const(size[p], 1 << i) for i in range(levels)]) if levels else b.F)))
    for y in range(H):
        p = (0, y)
        out.append((f'input {y} is a belt carrying its pair', b.and_(lay.isb(p, 0, 0), b.eq_const(bits[p], 1 << (y // 2)))))
        out.append((f'output {y} is a belt', lay.isb((W - 1, y), 0, 0)))
    for y in range(0, H, 2):
        x, z = bits[W - 1, y], bits[W - 1, y + 1]
        out.append((f'outputs {y} and {y + 1} cover every pair once', b.and_([b.xor(i, j) for i, j in zip(x, z)])))
    for x in range(W):
        for p, d in (((x, 0), 1), ((x, H - 1), 3)):
            out.append((f'nothing crosses the side {d} at {p}', b.and_(-lay.conn_out(p, d), -lay.conn_in(p, REV[d]))))
    return out


def prepare(kind, W, H, L, a):
    case = Case(lambda: (tool if kind == 'tool' else direct)(W, H, L), config=a)
    s = Sound(case)
    bits = colour_bits(s.dec, case)
    if any(len(v) != H // 2 for v in bits.values()):
        raise Violation('lines do not carry one bit per input pair', **case.info)
    rules = s.lay.rules_surface() + s.lay.rules_underground(L, [True] * 4)

    def same(p, i, lit):
        level = getattr(s.dec.inst[p], 'level_primary', None)
        return s.same(lit, level[i]) if level and len(level) > i else lit
    return s, rules + rules_of(s.lay, bits, same)


def near(a):
    """every solution that agrees with a known balancer outside a window"""
    _, kind, i, wide, size, which = a
    base = known.p2()[i]
    if wide is not None:
        base = known.widened(base, wide)
    W = 10 + (wide is not None)
    s, rules = prepare(kind, W, 8, 4, a)
    wins = known.windows(base, *size)
    wins = wins if which is None else [wins[k % len(wins)] for k in which]
    w = 0
    for free in wins:
        fixed = [s.lay.k[p][k] for p, k in base.items() if p not in free]
        s.check(rules, 'near a known power-of-two balancer of size 8', fixed)
        w += s.witness(fixed) is not None
    return {'obligations': len(rules) * len(wins), 'witnesses': w, 'config': f'{a}: {len(wins)} windows, {w} satisfiable'}


def task(a):
    if a[0] == 'near':
        return near(a)
    kind, W, H, L = a
    s, rules = prepare(kind, W, H, L, a)
    s.check_each(rules, f'power-of-two balancer of size {H}')
    w = int(s.witness() is not None)
    return {'obligations': len(rules), 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} witness={w}'}


def tasks(th):
    out = [('tool', 10, 8, 4), ('bare', 10, 8, 4), ('bare', 11, 8, 4), ('bare', 10, 8, INF), ('tool', 11, 8, 3)]
    for W in (8, 9, 10):
        for L in (2, 4, INF):
            out += [('tool', W, 4, L), ('bare', W, 4, L)]
    out += [('bare', 2, 4, 1), ('bare', 6, 4, 1), ('bare', 3, 8, 1), ('tool', 5, 8, 2), ('bare', 7, 8, 4), ('bare', 3, 16, 2)]
    if th:
        out = [('bare', W, 8, L) for W in (11, 12) for L in (4, 8, INF)] + [('tool', W, 8, L) for W in (11, 12) for L in (4, 8, INF)] + out
        out += [('bare', 4, 16, 4), ('bare', 5, 16, 4), ('tool', 5, 16, 4)]
    return [('near', kind, i, wide, (8, 4) if i else (4, 8), None) for i in range(3) for kind, wide in (('tool', None), ('bare', None), ('bare', i % 2))] + out


def run(ctx):
    ctx.encoded('belt_balancer_net_free_power_of_2.main', 'belt_balancer_net_free_power_of_2.create_balancer', 'solver.Grid.transport_quantity', 'solver.Grid.*')
    ctx.assume('pysat\'s cardinality encoders count exactly (C02)')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 4:
        raise NoAnswer('too few satisfiable configurations')
