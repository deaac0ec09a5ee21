"""Before pruning, the generators that work without a network accept every layout that obeys their own flow rules: every such
layout, with its flow values (network-free), sets of pairs (power of two) or halves (interchange), must extend to a solution of
the real constraints."""
import contextlib

from ..core import NoAnswer, Violation
from ..gridcheck import Case, Complete
from ..layout import CCW, DIRS, INF
from .. import known, shipped
from ..cnf import solve
from ..tools import patched, run_main
from . import c09, c10, c11

BOUNDS = {
    'quick': 'network-free generator for 1..4 inputs x 1..4 outputs on grids up to 5x4 with the arrangement of ends and 4x3 without it (equal counts 5x4), underground length 1..4 and unlimited; '
             'at their own size, every layout that agrees with one of 12 shipped balancers of up to 8 ends outside a 4x4 window; '
             'interchanges of height 2..8 and width 2..9; power-of-two generator of sizes 4 and 8 with width 2..9, and of size 8 and width 10 and 11 every layout that agrees with one of three balancers outside a 4x8 or 8x4 window',
    'thorough': 'network-free generator for 1..6 inputs x 1..6 outputs on grids up to 8x5, with and without the arrangement of ends, underground length 1..8 and unlimited; '
                'every layout that agrees with a shipped balancer of up to 60 tiles outside a 5x5 window; '
                'interchanges of height 2..10 and width 2..10; power-of-two generator of sizes 4 and 8 with width 2..12, and windows as above',
}


def under_values(lay, bits, p, axis):
    """value of the line buried below p along an axis, 0 if there is none"""
    b = lay.b
    val = [b.F] * len(bits[p])
    for d in (axis, axis + 2):
        for k, q, lit in lay.back_lits(p, d)[0]:
            here = b.and_(lit, b.or_(lay.covered(p, d), lay.uo[p, d]))
            val = [b.ite(here, x, y) for x, y in zip(bits[q], val)]
    return val


def constant(b, v, w):
    if v >= 1 << w:
        raise NoAnswer('a flow does not fit its number')
    return [b.T if v >> i & 1 else b.F for i in range(w)]


def build(W, H, L, n, m, with_ends, aligned=False):
    from factorio_sat import belt_balancer_net_free as nf
    g = c09.direct(W, H, L, n, m)
    if with_ends:
        nf.setup_balancer_ends(g, n, m, aligned)
    return g


def free_task(a):
    return free(a, *a[1:])


def free(a, W, H, L, n, m, with_ends, fixed=None):
    # what the flow at the ends must be: input k is full at rows k, k + n, ... and each end receives an equal share
    c = Complete(Case(lambda: build(W, H, L, n, m, with_ends), config=a))
    b, lay = c.b, c.lay
    rules = lay.rules_surface() + lay.rules_underground(L, [True] * 4) + lay.rules_blocked_belts((1, 3))
    fields = [(lambda t: t.flow, lambda t: t.flow_ux, lambda t: t.flow_uy, True, n, m, n - 1)] if n == m else \
        [(lambda t: t.forward.flow, lambda t: t.forward.ux, lambda t: t.forward.uy, True, n, m, n),
         (lambda t: t.backward.flow, lambda t: t.backward.ux, lambda t: t.backward.uy, False, m, n, m)]
    width = {len(num) for p in lay.cells for get, *_ in fields for num in get(c.dec.inst[p])}
    if len(width) > 1:
        raise NoAnswer('flow numbers of different widths')
    w = width.pop() if width else 1
    full = {}
    for get, ux, uy, fwd, ni, no, k in fields:
        # the unit is the generator's choice: read the full flow off its constraints
        unit = {cl[0] for cl in c.grid.clauses if len(cl) == 1}
        x = 0 if fwd else W - 1
        full[fwd] = max([sum(1 << j for j, l in enumerate(num) if l in unit) for y in range(H) for num in get(c.grid.get_tile_instance(x, y))], default=0)
    top = max(full.values())
    bad = [f for f in full.items() if f[1] == 0 or f[1] % (m if f[0] else n)]
    if bad and (n, m) != (1, 1):
        raise Violation(f'network-free {n} to {m}: a full flow of {bad[0][1]} cannot be shared equally', **c.case.info)
    allbits = {}
    for get, ux, uy, fwd, ni, no, k in fields:
        src, dst = (0, W - 1) if fwd else (W - 1, 0)
        comps = [{p: b.vars(w) for p in lay.cells} for _ in range(k)]
        allbits[fwd] = comps
        for i, bits in enumerate(comps):
            rules += lay.line_colour(bits) + c09.split_rules(lay, bits, fwd, n == m)
            for p in lay.cells:
                inst = c.dec.inst[p]
                end = None
                if p[0] == src:
                    end = constant(b, full[fwd] if p[1] % ni == i else 0, w)
                if p[0] == dst:
                    if end is not None:
                        raise NoAnswer('one column')
                    end = constant(b, full[fwd] // no, w)
                nums = get(inst)
                if len(nums) != k:
                    raise NoAnswer('unexpected number of flow components')
                for j, v in enumerate(nums[i]):
                    c.skolem(v, b.ite(lay.empty[p], end[j] if end else b.F, bits[p][j]))
                for axis, f in ((0, ux), (1, uy)):
                    for v, l in zip(f(inst)[i], under_values(lay, bits, p, axis)):
                        c.skolem(v, l)
                if end:
                    rules.append((f'flow {i} at the end {p}', b.or_(lay.empty[p], b.eq(bits[p], end))))
        for p in lay.cells:
            if comps:
                total = comps[0][p]
                for bits in comps[1:]:
                    total = b.sum(total, bits[p])
                rules.append((f'capacity at {p}', b.le_const(total, top)))
    for p in lay.cells:
        if p[0] in (0, W - 1):
            rules.append((f'no splitter in the outer column at {p}', -lay.anyspl(p)))
        for d in DIRS:
            head = lay.k[p][('S', d, 1)]
            q = lay.nb(p, CCW[d])
            if q is None:
                rules.append((f'splitter at {p} has both halves', -head))
                continue
            ports = [lay.conn_in(p, d), lay.conn_in(q, d), lay.conn_out(p, d), lay.conn_out(q, d)]
            rules.append((f'splitter at {p} splits or merges', b.imp(head, b.counts(ports, 3, 'ge'))))
            differ = b.or_([b.xor(x, y) for bits in allbits[True] for x, y in zip(bits[p], bits[q])])
            rules.append((f'the inputs of the splitter at {p} differ', b.imp(b.and_(head, *ports), differ)))
            for h in (p, q):
                for fwd in allbits:
                    for bits in allbits[fwd]:
                        rules.append((f'an unused input at {h} carries nothing', b.imp(b.and_(head, -lay.conn_in(h, d)), -b.or_(bits[h]))))
    if with_ends:
        # ends: a contiguous run of straight belts on each side, nothing else in those columns
        for x, cnt in ((0, n), (W - 1, m)):
            col = [(x, y) for y in range(H)]
            on = [lay.isb(p, 0, 0) for p in col]
            rules += [(f'{p} is an end or empty', b.or_(on[i], lay.empty[p])) for i, p in enumerate(col)]
            rules.append((f'the ends at {x} form one run', b.or_([b.and_([l if o <= i < o + cnt else -l for i, l in enumerate(on)]) for o in range(H - cnt + 1)])))
    wit = reach(c, rules, fixed)
    if fixed is not None and not wit:
        return {'obligations': 0, 'config': f'{a}: nothing to decide'}
    c.underground_skolem()
    c.check(rules, f'network-free {n} to {m}')
    return {'obligations': len(c.grid.clauses), 'witnesses': wit, 'paths': c.dec.npaths, 'config': f'{a} witnesses={wit}'}


def reach(c, rules, fixed):
    if fixed is None:
        return c.witnesses(rules)
    rules += [(f'as in the known balancer at {p}', c.lay.k[p][k]) for p, k in fixed.items()]
    return int(solve(c.b.clauses, [[lit] for _, lit in rules]) is not None)


def merge(a, runs):
    return {'obligations': sum(r['obligations'] for r in runs), 'witnesses': sum(r.get('witnesses', 0) for r in runs), 'paths': sum(r.get('paths', 0) for r in runs),
            'config': f'{a}: {len(runs)} windows, {sum(r.get("witnesses", 0) for r in runs)} satisfiable'}


def free_near(a):
    """every layout that agrees with a shipped balancer outside a window"""
    _, file, i, size, which = a
    sh = shipped.load(file)[i]
    if not shipped.usable(sh):
        return {'obligations': 0}
    n = sum(sh.kinds[0, y] != ('E',) for y in range(sh.H))
    m = sum(sh.kinds[sh.W - 1, y] != ('E',) for y in range(sh.H))
    wins = shipped.windows(sh, size)
    wins = wins if which is None else [wins[k % len(wins)] for k in which]
    return merge(a, [free(a, sh.W, sh.H, sh.L, n, m, False, {p: k for p, k in sh.kinds.items() if p not in w}) for w in wins])


def p2_near(a):
    _, i, wide, size = a
    base = known.p2()[i]
    if wide is not None:
        base = known.widened(base, wide)
    return merge(a, [p2(a, 10 + (wide is not None), 8, 4, {p: k for p, k in base.items() if p not in w}) for w in known.windows(base, *size)])


def p2_task(a):
    return p2(a, *a[1:])


def p2(a, W, H, L, fixed=None):
    c = Complete(Case(lambda: c10.direct(W, H, L), config=a))
    b, lay = c.b, c.lay
    w = H // 2
    bits = {p: b.vars(w) for p in lay.cells}
    levels = H.bit_length() - 1 - 2
    rules = lay.rules_surface() + lay.rules_underground(L, [True] * 4) + lay.rules_blocked_belts((1, 3))
    rules += c10.rules_of(lay, bits, lambda p, i, l: l)
    for p in lay.cells:
        inst = c.dec.inst[p]
        if len(inst.colour) != w:
            raise NoAnswer('line sets have an unexpected width')
        for v, l in zip(inst.colour, bits[p]):
            c.skolem(v, b.and_(l, -lay.empty[p]))
        for axis, f in ((0, inst.colour_ux), (1, inst.colour_uy)):
            for v, l in zip(f, under_values(lay, bits, p, axis)):
                c.skolem(v, l)
        size = b.count(bits[p])
        for name in ('level', 'level_primary'):
            for i, v in enumerate(getattr(inst, name, ())):
                c.skolem(v, b.and_(lay.anyspl(p), b.eq_const(size, 1 << i)))
    wit = reach(c, rules, fixed)
    c.underground_skolem()
    c.check(rules, f'power-of-two balancer of size {H}')
    return {'obligations': len(c.grid.clauses), 'witnesses': wit, 'paths': c.dec.npaths, 'config': f'{a} witnesses={wit}'}


PRUNING = ('expand_underground', 'apply_generic_optimisations', 'prevent_small_loops', 'prevent_empty_along_underground', 'prevent_belt_hooks', 'prevent_mergeable_underground',
           'prevent_semicircles', 'prevent_underground_hook', 'prevent_passing', 'prevent_awkward_underground_entry', 'require_correct_transport_through_edges')


def bare_interchange(W, H, L, opts):
    from factorio_sat import interchange, optimisations
    with contextlib.ExitStack() as es:
        for name in PRUNING:
            for mod in (interchange, optimisations):
                if name in vars(mod):
                    es.enter_context(patched(mod, name, lambda *a, **k: None))
        return run_main(interchange, [W, H, '--underground-length', L, *opts]).grid


def inter_task(a):
    _, W, H, L, opts = a
    c = Complete(Case(lambda: bare_interchange(W, H, L, opts), config=a))
    b, lay = c.b, c.lay
    bits = {p: b.vars(1) for p in lay.cells}
    rules = lay.rules_surface() + lay.rules_underground(L, [True] * 4) + c11.rules_of(lay, bits, opts)
    for p in lay.cells:
        inst = c.dec.inst[p]
        if len(inst.colour) != 1:
            raise NoAnswer('line numbers have an unexpected width')
        c.skolem(inst.colour[0], b.and_(bits[p][0], -lay.empty[p]))
        for axis, f in ((0, inst.colour_ux), (1, inst.colour_uy)):
            c.skolem(f[0], under_values(lay, bits, p, axis)[0])
    wit = c.witnesses(rules)
    c.underground_skolem()
    c.check(rules, f'interchange {" ".join(opts)}')
    return {'obligations': len(c.grid.clauses), 'witnesses': wit, 'paths': c.dec.npaths, 'config': f'{a} witnesses={wit}'}


def task(a):
    return {'inter': inter_task, 'free': free_task, 'p2': p2_task, 'freenear': free_near, 'p2near': p2_near}[a[0]](a)


def tasks(th):
    out = []
    for n, m, W, H, L in [(2, 2, 4, 2, 2), (2, 2, 5, 3, 2), (1, 2, 4, 3, 1), (2, 1, 4, 3, 1), (2, 2, 5, 4, INF), (1, 2, 4, 3, INF), (2, 1, 4, 3, 4), (3, 3, 5, 4, 2), (4, 4, 5, 4, 2)]:
        out += [('free', W, H, L, n, m, e) for e in (False, True)]
    for n, m, W, H, L in [(1, 2, 5, 4, 4), (2, 1, 5, 4, INF), (1, 3, 5, 4, 2), (3, 1, 5, 4, 2), (2, 3, 5, 4, 2), (2, 4, 5, 4, 2), (4, 2, 5, 4, 2), (3, 2, 5, 4, 2), (1, 4, 5, 4, 2), (1, 2, 6, 4, 1)]:
        out.append(('free', W, H, L, n, m, True))
        if th:
            out.append(('free', W, H, L, n, m, False))
    for n in range(1, 5):
        for m in range(1, 5):
            if n != m:
                out.append(('free', 4, 3, 2, n, m, False))
    if th:
        out += [('free', 4, max(n, m), 2, n, m, False) for n, m in [(5, 5), (6, 6), (1, 5), (5, 1), (3, 5), (4, 6)]]
    out += [('p2', W, 4, L) for W in (2, 3, 6, 8, 9) for L in (1, 4, INF)]
    out += [('p2', W, 8, L) for W, L in ((3, 1), (5, 2), (8, 4))[:3 if th else 2]]
    for o in c11.OPTS:
        for W, H, L in [(2, 2, 1), (4, 2, 2), (8, 4, 4), (9, 4, 8), (5, 6, 3), (7, 6, 4), (6, 8, 4)] + ([(10, 6, 4), (10, 8, 4), (8, 10, 4)] if th else []):
            out.append(('inter', W, H, L, o))
    if th:
        for n in range(1, 7):
            for m in range(1, 7):
                if (n, m) != (1, 1):
                    out += [('free', 5, max(n, m, 3), 3, n, m, False), ('free', 6, max(n, m, 3), 4, n, m, True)]
        out += [('free', 7, 5, 4, 4, 4, True), ('free', 8, 5, 4, 3, 3, True), ('free', 7, 5, 8, 2, 4, True), ('p2', 10, 8, 4), ('p2', 12, 8, 4), ('p2', 11, 8, INF)]
    out.sort(key=lambda a: -a[1] * a[2])
    return [('p2near', i, wide, (8, 4) if i else (4, 8)) for i in range(3) for wide in (None, i % 2)] + sorted(c09.shipped_near(th), key=lambda a: -a[2]) + out


def run(ctx):
    ctx.encoded('belt_balancer_net_free.create_n_to_n_balancer', 'belt_balancer_net_free.create_n_to_m_balancer', 'belt_balancer_net_free.setup_balancer_ends',
                'belt_balancer_net_free_power_of_2.create_balancer', 'interchange.main', 'interchange.require_rotational_symmetry', 'solver.Grid.transport_quantity', 'util.add_numbers', 'util.set_numbers_equal', 'solver.Grid.*')
    ctx.assume('flow values are whole multiples of the unit the generator chooses, and no belt carries more than a full belt',
               'pysat\'s cardinality encoders count exactly (C02)')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 20:
        raise NoAnswer('too few satisfiable configurations')
