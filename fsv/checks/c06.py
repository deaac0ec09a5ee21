"""All models of the clauses the real balancer tools hand to the solver are decoded (real decoder, symbolic) and must realise
the given network: tracing physical connections with the reported line values gives exactly the network's splitters, and
exactly its inputs and outputs cross the border."""
from ..core import Violation, NoAnswer
from ..gridcheck import Case, Sound
from ..layout import DIRS, INF
from ..netspec import Net
from .. import shipped
from ..tools import run_main
from .balancer import NETS, cli, optimal, colour_bits, belt_balancer

BOUNDS = {
    'quick': '13 networks of 1..4 splitters (idle ports, recirculation, unused and reordered line numbers) on grids up to 8x4, underground length 1..4 and unlimited, 12 option sets, and the optimal-size solver; 20 of the shipped balancers (up to 17 splitters, grids up to 14x8) at their own size and underground length, with two windows of 5x5 unknown tiles each',
    'thorough': '13 networks of 1..4 splitters on grids up to 9x5, underground length 1..8 and unlimited, every single option, and the optimal-size solver; all shipped balancers, every 6x6 window',
}


def task(a):
    kind, net, W, H, L, opts = a
    n = Net(NETS[net])
    if kind == 'cli':
        case = Case(lambda: cli(net, W, H, L, opts), config=a)
    else:
        case = Case(lambda: optimal(net, W, H, L), config=a)
    s = Sound(case)
    bits = colour_bits(s.dec, case)
    rules = s.lay.rules_surface() + s.lay.rules_underground(L, [True] * 4) + n.rules(s.lay, bits)
    s.check(rules, f'balancer for network {net}')
    w = 1 if s.witness() is not None else 0
    return {'obligations': len(rules), 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} satisfiable={bool(w)}'}


def near(a):
    """every solution that agrees with a shipped balancer outside a window, at the balancer's own size and for its own network"""
    _, file, i, size, which = a
    sh = shipped.load(file)[i]
    if not shipped.usable(sh):
        return {'obligations': 0}
    text = sh.network_text()
    n = Net(text)
    case = Case(lambda: run_main(belt_balancer, ['net', sh.W, sh.H, '--underground-length', sh.L], files={'net': text}).grid, config=a)
    s = Sound(case)
    bits = colour_bits(s.dec, case)
    rules = s.lay.rules_surface() + s.lay.rules_underground(sh.L, [True] * 4) + n.rules(s.lay, bits)
    wins = shipped.windows(sh, size)
    wins = wins if which is None else [wins[k % len(wins)] for k in which]
    w = 0
    for free in wins:
        fixed = [s.lay.k[p][sh.kinds[p]] for p in sh.kinds if p not in free]
        s.check(rules, f'balancer near the shipped "{sh.label}"', fixed)
        w += s.witness(fixed) is not None
    return {'obligations': len(rules) * len(wins), 'witnesses': w, 'config': f'near {sh.label} ({sh.tier}) {sh.W}x{sh.H}, {len(wins)} windows of {size}x{size}, {w} satisfiable'}


def dispatch(a):
    return near(a) if a[0] == 'near' else task(a)


def tasks(th):
    out = []
    for net, W, H, L in [('1x2', 4, 3, 2), ('1x2', 3, 3, 1), ('2x1', 4, 3, 2), ('2x2', 4, 3, 2), ('2x2', 5, 4, 4), ('2x2gap', 4, 3, 1), ('2x2rev', 4, 3, 2),
                         ('1x2b', 4, 3, 4), ('1x3', 6, 4, 2), ('1x3r', 6, 4, 4), ('2x4', 6, 4, 2), ('3x2', 6, 4, 2), ('2x1x', 4, 3, 2), ('4x4two', 4, 4, 2),
                         ('2x2twice', 6, 3, 4), ('loop', 5, 4, 2), ('4x4', 7, 4, INF)]:
        out.append(('cli', net, W, H, L, ('--custom',)))
        out.append(('cli', net, W, H, L, ()))
    for opts in [('--90',), ('--180',), ('--aligned',), ('--use-ends',), ('--fast',), ('--edge-splitters',), ('--edge-belts',), ('--glue-splitters',),
                 ('--expand-underground',), ('--prevent-mergeable-underground',), ('--prevent-bad-patterns',), ('--break-symmetry',)]:
        out.append(('cli', '2x2', 5, 4, 3, opts))
        if th:
            for net, W, H, L in [('1x3', 6, 4, 4), ('3x2', 6, 4, 4), ('2x4', 7, 4, 6), ('4x4two', 5, 4, 2)]:
                out.append(('cli', net, W, H, L, opts))
    for net, W, H, L in [('2x2', 4, 2, 4), ('1x2', 4, 3, 2), ('3x2', 6, 4, 4), ('1x3', 6, 4, 2), ('2x2', 6, 4, 1), ('1x2', 7, 3, 2), ('3x2', 7, 4, 1)]:
        out.append(('opt', net, W, H, L, ()))
    if th:
        for net in NETS:
            out.append(('cli', net, 8, 4, 4, ()))
            out.append(('cli', net, 6, 5, 8, ('--custom',)))
            out.append(('opt', net, 7, 4, 4, ()))
        out.append(('cli', '4x4', 9, 5, INF, ()))
    # the balancers shipped with the tool, each at its own size
    for k, (f, i) in enumerate(shipped.near_tasks(th, 20)):
        out.insert(0, ('near', f, i, 6 if th else 5, None if th else (k, k + 3)))
    return out


def run(ctx):
    ctx.encoded('belt_balancer.main', 'belt_balancer.create_balancer', 'calculate_optimal.solve_balancer', 'network.deduplicate_network',
                'network.get_input_output_colours', 'network.open_network', 'solver.Grid.*', 'solver.Grid.transport_quantity',
                'solver.Grid.prevent_colour', 'util.set_numbers')
    ctx.assume('pysat\'s cardinality encoders count exactly (decided in C02); they are replaced by counting predicates in the query and the '
               'untouched clauses are used for every replay', 'networks have one kind of input and one kind of output, and at most one idle port per splitter')
    done = ctx.map(dispatch, tasks(ctx.thorough))
    if ctx.witnesses < 10:
        raise NoAnswer('too few satisfiable configurations')
