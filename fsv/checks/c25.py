"""Pruned searches: the reference rules say whether any layout of the requested kind and size exists (one SAT query over a free
layout); if one does, the clauses the real tool hands to its solver with pruning on must be satisfiable (another)."""
from ..core import NoAnswer, Violation
from ..cnf import Builder, solve
from ..gridcheck import free_ports
from ..layout import Layout, INF, show
from ..netspec import Net, not_only_below_empty
from ..tools import run_main
from .balancer import NETS, cli, optimal, end_rules
from . import c09, c10, c11

BOUNDS = {
    'quick': '15 networks of 1..4 splitters on widths 3..6, heights up to one more than the ends, underground length 1, 2 and 4, default and aligned ends, 10 combinations of options and the '
             'optimal-size search; interchanges of height 2..6, width 2..8; power-of-two size 4 and 8, width 2..10; network-free 1..3 to 1..3 up to 6x4',
    'thorough': '15 networks on widths 3..8, heights up to two more than the ends, underground length 1..4, 6 and unlimited, default and aligned ends with and without using them, 10 combinations of options and the '
                'optimal-size search; interchanges of height 2..8, width 2..11; power-of-two size 4 and 8, width 2..12; network-free 1..4 to 1..4 up to 7x5',
}
OPTIONS = [['--glue-splitters'], ['--expand-underground'], ['--prevent-mergeable-underground'], ['--prevent-bad-patterns'], ['--break-symmetry'],
           ['--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns'],
           ['--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--break-symmetry'],
           ['--edge-splitters'], ['--edge-belts'], ['--fast']]


def through(net):
    """some splitter joins the outside inputs to the outside outputs: it cannot touch both sides"""
    n = Net(NETS[net])
    return any(set(i) == {n.in_colour} and set(o) == {n.out_colour} for i, o in n.nodes)


def reference(W, H, L, width, rules):
    """a layout obeying the rules, or None"""
    b = Builder(1)
    lay = Layout.free(b, W, H, (False, False))
    free_ports(b, lay)
    bits = {p: b.vars(width) for p in lay.cells}
    rs = lay.rules_surface() + lay.rules_underground(L, [True] * 4) + rules(lay, bits)
    m = solve(b.clauses, [[l] for _, l in rs])
    return None if m is None else show(lay.kinds(m))


def solvable(grid):
    return solve(grid.clauses) is not None


def complain(layout, what, make, t, finding=None):
    """the pruned search has no solution although the layout exists: confirmed with the real solver call"""
    if make().solve('g3') is not None:
        raise NoAnswer('the real solver finds a layout')
    v = Violation(f'{what}: no solution although a layout exists', layout=layout, config=t)
    if finding:
        return {'obligations': 1, 'finding': (finding, v)}
    raise v


def balancer_task(t):
    _, net, W, H, L, style, use_ends = t
    n = Net(NETS[net])
    lay = reference(W, H, L, n.width, lambda lay, bits: n.rules(lay, bits) + not_only_below_empty(lay, L) + end_rules(n, lay, style, use_ends))
    if lay is None:
        return {'obligations': 1, 'config': f'{t} no layout exists'}
    base = (['--aligned'] if style == 'aligned' else []) + (['--use-ends'] if use_ends else [])
    k = 0
    out = {}
    for o in OPTIONS:
        if through(net) and any(x in ('--edge-splitters', '--edge-belts', '--fast') for x in o):
            continue
        k += 1
        if not solvable(cli(net, W, H, L, base + o)):
            complain(lay, f'network {net} with {" ".join(o)}', lambda: cli(net, W, H, L, base + o), t)
    if style == 'aligned' and not use_ends:
        k += 1
        if not solvable(optimal(net, W, H, L)):
            out = complain(lay, f'network {net} in the optimal-size search', lambda: optimal(net, W, H, L), t, 'optimal-through-splitter' if through(net) and W > 3 else None)
    return {**out, 'obligations': k, 'witnesses': 1, 'config': f'{t} kept by {k} searches'}


def interchange_task(t):
    _, W, H, L, o = t
    if solvable(c11.tool(W, H, L, o)):
        return {'obligations': 1, 'witnesses': 1, 'config': f'{t} solvable'}
    lay = reference(W, H, L, 1, lambda lay, bits: c11.rules_of(lay, bits, o) + not_only_below_empty(lay, L))
    if lay is not None:
        complain(lay, f'interchange {o}', lambda: c11.tool(W, H, L, o), t)
    return {'obligations': 1, 'config': f'{t} no layout exists'}


def p2_task(t):
    _, W, H, L = t
    if solvable(c10.tool(W, H, L)):
        return {'obligations': 1, 'witnesses': 1, 'config': f'{t} solvable'}
    lay = reference(W, H, L, H // 2, lambda lay, bits: c10.rules_of(lay, bits, lambda p, i, l: l) + not_only_below_empty(lay, L))
    if lay is not None:
        complain(lay, 'power-of-two balancer', lambda: c10.tool(W, H, L), t)
    return {'obligations': 1, 'config': f'{t} no layout exists'}


def netfree_tool(W, H, L, n, m, aligned):
    from factorio_sat import belt_balancer_net_free as nf
    return run_main(nf, [W, H, n, m, '--underground-length', -1 if L == INF else L] + (['--aligned'] if aligned else [])).grid


def netfree_task(t):
    """the generator without the pruning its command adds is the reference here (its solutions are checked by C09)"""
    from factorio_sat import belt_balancer_net_free as nf
    _, W, H, L, n, m, aligned = t
    if solvable(netfree_tool(W, H, L, n, m, aligned)):
        return {'obligations': 1, 'witnesses': 1, 'config': f'{t} solvable'}
    g = c09.direct(W, H, L, n, m)
    nf.setup_balancer_ends(g, n, m, aligned)
    sol = g.solve('g3')
    if sol is not None:
        from ..layout import kind_of
        kinds = {(x, y): kind_of(sol[y, x]['tile']) for y in range(H) for x in range(W)}
        return {**complain(show(kinds), f'network-free {n} to {m}', lambda: netfree_tool(W, H, L, n, m, aligned), t, 'net-free-2-2' if n == m == 2 and W > 3 else None),
                'config': f'{t} lost'}
    return {'obligations': 1, 'config': f'{t} no layout exists'}


DISPATCH = {'balancer': balancer_task, 'interchange': interchange_task, 'p2': p2_task, 'netfree': netfree_task}


def task(t):
    return DISPATCH[t[0]](t)


def tasks(th):
    out = []
    for net in NETS:
        n = Net(NETS[net])
        h = max(n.in_count, n.out_count)
        for W in range(3, 9 if th else 7):
            for H in range(h, h + (3 if th else 2)):
                for L in ((1, 2, 3, 4, 6, INF) if th else (1, 2, 4)):
                    if not th and (W, H, L) in ((6, h + 1, 1), (5, h + 1, 1)):
                        continue
                    for style in ('default', 'aligned'):
                        for ue in ((False, True) if th else (False,)):
                            out.append(('balancer', net, W, H, L, style, ue))
    for o in c11.OPTS:
        for H in ((2, 4, 6, 8) if th else (2, 4, 6)):
            for W in range(2, 12 if th else 9):
                for L in (1, 2, 4, 6) if th else (2, 4):
                    out.append(('interchange', W, H, L, o))
    for W in range(2, 13 if th else 11):
        for L in (1, 2, 4, INF):
            out.append(('p2', W, 4, L))
            if L in (2, 4):
                out.append(('p2', W, 8, L))
    top = 5 if th else 4
    for n in range(1, top):
        for m in range(1, top):
            for W in range(3, 8 if th else 7):
                for H in range(max(n, m), max(n, m) + 2):
                    if W * H <= (28 if th else 20):
                        for L in (1, 2, 4) if th else (1, 4):
                            for al in (False, True):
                                out.append(('netfree', W, H, L, n, m, al))
    return sorted(out, key=lambda t: -t[-4] * t[-5] if t[0] == 'balancer' else -t[1] * t[2])


def run(ctx):
    ctx.encoded('belt_balancer.main', 'belt_balancer.enforce_edge_splitters', 'belt_balancer.prevent_double_edge_belts', 'calculate_optimal.solve_balancer', 'optimisations.*',
                'interchange.main', 'interchange.prevent_passing', 'interchange.prevent_awkward_underground_entry', 'belt_balancer_net_free.main', 'belt_balancer_net_free_power_of_2.main')
    ctx.assume('left-to-right ends (default or aligned)', 'edge options and --fast are not asked of networks in which one splitter joins outside inputs to outside outputs',
               '--break-symmetry is not combined with --prevent-bad-patterns (documented as unsound)')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 100:
        raise NoAnswer('too few solvable configurations')
