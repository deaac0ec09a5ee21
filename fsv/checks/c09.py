"""Flow values of network-free balancers: every model, decoded by the real code, must conserve and split flow by the reference
rule, and its inputs and outputs must carry the flows of a balancer."""
from ..core import NoAnswer, Violation
from ..gridcheck import Case, Sound
from ..layout import DIRS, REV, CCW, INF, number_bits, DecodeError
from .. import shipped
from ..tools import run_main

BOUNDS = {
    'quick': 'at their own size, all solutions that agree with one of 12 shipped balancers of up to 8 ends outside a 4x4 window; tool and bare generator for 1..4 inputs x 1..4 outputs on grids up to 8x5 and bare generator for counts up to 8 on width 4, underground length 1..4 and unlimited',
    'thorough': 'all solutions that agree with a shipped balancer of up to 60 tiles outside a 5x5 window; tool and bare generator for 1..6 inputs x 1..6 outputs on grids up to 9x6 and bare generator for counts up to 12 on width 4, underground length 1..8 and unlimited',
}


def direct(W, H, L, n, m):
    import contextlib
    import io
    from factorio_sat import belt_balancer_net_free as nf
    with contextlib.redirect_stderr(io.StringIO()):
        g = nf.create_n_to_m_balancer(W, H, L, n, m)
    g.block_belts_through_edges((False, True))
    g.prevent_intersection()
    g.enforce_maximum_underground_length()
    return g


def tool(W, H, L, n, m):
    from factorio_sat import belt_balancer_net_free as nf
    return run_main(nf, [W, H, n, m, '--underground-length', -1 if L == INF else L]).grid


def bits_of(s, inst, cell):
    try:
        return number_bits(s.dec, inst, cell)
    except DecodeError as e:
        raise Violation('a flow value is reported wrongly', error=repr(e.exc), pos=e.pos, **s.case.info)


def pad(b, x, w):
    return list(x) + [b.F] * (w - len(x))


def split_rules(lay, bits, forward, all_ports):
    """bits: pos -> number; forward: items and flow move together, otherwise flow runs against the belts"""
    b = lay.b
    out = []
    w = max(len(v) for v in bits.values()) + 2
    for p in lay.cells:
        for d in DIRS:
            head = lay.k[p][('S', d, 1)]
            q = lay.nb(p, CCW[d])
            fp, fq = lay.nb(p, d), (lay.nb(q, d) if q else None)
            if q is None or fp is None or fq is None:
                out.append((f'no splitter at {p} faces off the layout in direction {d}', -head))
                continue
            back = [(lay.conn_in(h, d), bits[h]) for h in (p, q)]
            front = [(lay.conn_out(h, d), bits[f]) for h, f in ((p, fp), (q, fq))]
            if all_ports:
                out.append((f'splitter at {p} direction {d} uses all its ports', b.imp(head, b.and_([c for c, _ in back + front]))))
            ins, outs = (back, front) if forward else (front, back)
            total = b.sum(*[[b.and_(c, x) for x in pad(b, v, w)] for c, v in ins])[:w]
            both = b.and_(outs[0][0], outs[1][0])
            for c, v in outs:
                twice = [b.F] + pad(b, v, w - 1)
                out.append((f'splitter at {p} direction {d} halves its flow',
                            b.imp(b.and_(head, both), b.eq(twice, total))))
                out.append((f'splitter at {p} direction {d} with one output keeps its flow',
                            b.imp(b.and_(head, c, -both), b.eq(pad(b, v, w), total))))
    return out


def useful(lay, comps):
    """every splitter does something: it splits, merges, or mixes two lines that carry different flows"""
    b = lay.b
    out = []
    for p in lay.cells:
        for d in DIRS:
            q = lay.nb(p, CCW[d])
            if q is None:
                continue
            head = lay.k[p][('S', d, 1)]
            ports = [lay.conn_in(p, d), lay.conn_in(q, d), lay.conn_out(p, d), lay.conn_out(q, d)]
            differ = b.or_([b.xor(x, y) for bits in comps for x, y in zip(bits[p], bits[q])])
            out.append((f'splitter at {p} direction {d} splits or merges', b.imp(head, b.counts(ports, 3, 'ge'))))
            out.append((f'splitter at {p} direction {d} mixes different flows', b.imp(b.and_(head, *ports), differ)))
    return out


def end_flow(lay, comps, count, at_left, share_count, untracked):
    """where flow enters: each component is full on exactly one end and zero on the others; where it leaves: equal shares"""
    b = lay.b
    W, H = lay.W, lay.H
    src = [((0, y), lay.conn_in((0, y), 0)) for y in range(H)]
    dst = [((W - 1, y), lay.conn_out((W - 1, y), 0)) for y in range(H)]
    if not at_left:
        src, dst = dst, src
    return src, dst


def ends_rules(lay, comps, F, forward, n_in, n_out, tool_mode, untracked):
    b = lay.b
    out = []
    W, H = lay.W, lay.H
    src, dst = end_flow(lay, comps, n_in, forward, n_out, untracked)
    for i, bits in enumerate(comps):
        w = len(bits[0, 0])
        full = []
        for p, on in src:
            isf = b.eq_const(bits[p], F)
            out.append((f'{p} carries all or nothing of input {i}', b.imp(on, b.or_(isf, b.eq_const(bits[p], 0)))))
            full.append(b.and_(on, isf))
        if tool_mode:
            out.append((f'exactly one end supplies input {i}', b.counts(full, 1, 'eq')))
        for p, on in dst:
            out.append((f'{p} receives its share of input {i}', b.imp(on, b.eq_const(bits[p], F // n_out) if F % n_out == 0 else b.F)))
    for p, on in src:
        lits = [b.eq_const(bits[p], F) for bits in comps]
        out.append((f'{p} supplies a single input', b.imp(on, b.counts(lits, 1, 'le'))))
    if tool_mode and not untracked:
        for p, on in src:
            out.append((f'{p} supplies one input', b.imp(on, b.or_([b.eq_const(bits[p], F) for bits in comps]))))
    if tool_mode:
        out.append((f'{n_in} ends supply flow', b.counts([on for _, on in src], n_in, 'eq')))
        out.append((f'{n_out} ends receive flow', b.counts([on for _, on in dst], n_out, 'eq')))
    return out


def full_flow(case, s, comps, forward, extra=()):
    """the constant the generator uses for a full input, read off a model"""
    m = s.witness(extra)
    if m is None:
        return None
    best = 0
    x = 0 if forward else s.lay.W - 1
    for bits in comps:
        for y in range(s.lay.H):
            best = max(best, sum(1 << i for i, v in enumerate(bits[x, y]) if m[v]))
    return best


def task(a):
    if a[0] == 'freenear':
        return near(a)
    s, rules, w = prepare(a, *a)
    s.check(rules, f'network-free {a[4]} to {a[5]}')
    return {'obligations': len(rules), 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} satisfiable={w}'}


def near(a):
    """every solution that agrees with a shipped balancer outside a window"""
    _, file, i, size, which = a
    sh = shipped.load(file)[i]
    if not shipped.usable(sh):
        return {'obligations': 0}
    n = sum(sh.kinds[0, y] != ('E',) for y in range(sh.H))
    m = sum(sh.kinds[sh.W - 1, y] != ('E',) for y in range(sh.H))
    wins = shipped.windows(sh, size)
    wins = wins if which is None else [wins[k % len(wins)] for k in which]
    s, rules, w = prepare(a, 'bare', sh.W, sh.H, sh.L, n, m, [(p, k) for p, k in sh.kinds.items() if p[0] in (0, sh.W - 1)])
    if not w:
        return {'obligations': 0, 'config': f'{a}: nothing to decide'}
    w = 0
    for win in wins:
        fixed = [s.lay.k[p][k] for p, k in sh.kinds.items() if p not in win]
        s.check(rules, f'network-free {n} to {m}', fixed)
        w += s.witness(fixed) is not None
    return {'obligations': len(rules) * len(wins), 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a}: {len(wins)} windows, {w} satisfiable'}


def prepare(a, kind, W, H, L, n, m, ends=()):
    case = Case(lambda: (tool if kind == 'tool' else direct)(W, H, L, n, m), config=a)
    s = Sound(case)
    lay = s.lay
    rules = lay.rules_surface() + lay.rules_underground(L, [True] * 4)
    if n == m:
        comps = [(True, [bits_of(s, lambda i, k=k: i.flow[k], lambda c, k=k: c['flow'][k]) for k in range(n - 1)], n, m)]
    else:
        comps = [(True, [bits_of(s, lambda i, k=k: i.forward.flow[k], lambda c, k=k: c['forward']['flow'][k]) for k in range(n)], n, m),
                 (False, [bits_of(s, lambda i, k=k: i.backward.flow[k], lambda c, k=k: c['backward']['flow'][k]) for k in range(m)], m, n)]
    w = 0
    for fwd, cs, ni, no in comps:
        for bits in cs:
            rules += lay.line_colour(bits) + split_rules(lay, bits, fwd, n == m)
        if cs:
            F = full_flow(case, s, cs, fwd, [lay.k[p][k] for p, k in ends])
            if F:
                w = 1
                rules += ends_rules(lay, cs, F, fwd, ni, no, kind == 'tool', n == m)
    rules += useful(lay, comps[0][1])
    return s, rules, w


NEAR = [(1, 2, None), (1, 4, None), (1, 8, 1), (2, 1, None), (2, 2, None), (2, 4, None), (2, 8, 1), (3, 3, None), (4, 1, None), (4, 2, None), (4, 4, None), (3, 6, 1)]


def shipped_near(th):
    """shipped balancers whose flows are whole multiples of the generator's unit"""
    out, left = [], {k[:2]: k[2] for k in NEAR}
    for f in shipped.files():
        if 'all' in f.rsplit('/', 1)[-1]:
            continue
        for i, sh in enumerate(shipped.load(f)):
            if not sh.ok or sh.W * sh.H > 60:
                continue
            n = sum(sh.kinds[0, y] != ('E',) for y in range(sh.H))
            m = sum(sh.kinds[sh.W - 1, y] != ('E',) for y in range(sh.H))
            if th:
                out.append(('freenear', f, i, 5, None))
            elif (n, m) in left:
                count = left.pop((n, m))
                out.append(('freenear', f, i, 4, count and tuple(range(count))))
    return out


def tasks(th):
    out = []
    for n, m, W, H, L in [(2, 2, 4, 2, 2), (2, 2, 5, 3, 2), (1, 2, 4, 3, 1), (2, 1, 4, 3, 1), (1, 2, 5, 4, 4), (2, 1, 5, 3, INF), (2, 2, 5, 4, INF),
                          (1, 3, 5, 4, 2), (3, 1, 5, 4, 2), (2, 3, 5, 4, 2), (3, 3, 5, 4, 2), (4, 4, 5, 4, 2), (2, 4, 5, 4, 2), (4, 2, 5, 4, 2), (3, 2, 5, 4, 2), (1, 4, 5, 4, 2), (1, 2, 7, 4, 1), (2, 1, 7, 4, 1), (2, 4, 7, 4, 1)]:
        out.append(('tool', W, H, L, n, m))
        out.append(('bare', W, H, L, n, m))
    for n in range(1, 5):
        for m in range(1, 5):
            out.append(('bare', 4, max(n, m, 2), 2, n, m))
    for n, m in [(5, 5), (6, 6), (7, 7), (8, 8), (1, 5), (5, 1), (3, 5), (2, 6), (6, 4), (1, 8), (5, 6)]:
        out.append(('bare', 4, max(n, m), 2, n, m))
    for n, m, W, H, L in [(4, 4, 7, 5, 4), (4, 4, 7, 5, INF), (1, 3, 7, 4, 4), (3, 1, 7, 4, 4), (1, 4, 6, 5, 4), (4, 1, 6, 5, 4), (3, 3, 8, 5, 4), (2, 3, 7, 5, 4), (3, 2, 8, 5, 4)]:
        out.append(('tool', W, H, L, n, m))
    if th:
        out += [('bare', 4, max(n, m), 2, n, m) for n, m in [(7, 3), (8, 4), (4, 8), (7, 8), (8, 7), (12, 12)]]
        out += [('tool', 8, 5, 4, 2, 3), ('tool', 9, 5, 4, 3, 3)]
        for n in range(1, 7):
            for m in range(1, 7):
                out.append(('bare', 5, max(n, m, 3), 3, n, m))
                out.append(('tool', 6, max(n, m, 3), 4, n, m))
        out += [('tool', 7, 4, 4, 4, 4), ('tool', 7, 6, 4, 3, 3), ('bare', 6, 5, 8, 3, 3), ('tool', 7, 5, 8, 2, 4), ('tool', 7, 5, 8, 4, 2)]
    return sorted(shipped_near(th), key=lambda a: -a[2]) + sorted(out, key=lambda a: -(a[4] * a[5] * a[1] * a[2] + 60 * (a[4] != a[5]) * a[2]))


def run(ctx):
    ctx.encoded('belt_balancer_net_free.main', 'belt_balancer_net_free.create_n_to_n_balancer', 'belt_balancer_net_free.create_n_to_m_balancer',
                'belt_balancer_net_free.setup_balancer_ends', 'solver.Grid.transport_quantity', 'util.add_numbers', 'util.set_numbers_equal', 'solver.Grid.*')
    ctx.assume('for equal counts the last input\'s flow is what remains of the (constant) total; the generator tracks all but that one')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 8:
        raise NoAnswer('too few satisfiable configurations')
