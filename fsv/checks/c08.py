"""End arrangements: every model of the clauses handed to the solver has its ends where the option says, and every model of the
same problem without end constraints (--custom) whose ends obey the reference rule survives when the option is given."""
from ..core import NoAnswer
from ..gridcheck import Case, Sound, Refine
from ..layout import DIRS, REV
from ..netspec import Net
from ..tools import run_main
from .balancer import NETS, cli, optimal, end_rules, colour_bits, run_of
from .base import base_grid

BOUNDS = {
    'quick': 'all 7 end arrangements, networks with 1..4 inputs and outputs, grids up to 5x6; network-free ends with 1..4 (and some of 5 to 10) inputs and outputs on grids up to 4x6 (3x10); fixed offsets on grids up to 4x5',
    'thorough': 'all 7 end arrangements, networks with 1..4 inputs and outputs, grids up to 7x7; network-free ends with 1..5 inputs and outputs on grids up to 4x8',
}
STYLE = {'default': [], 'aligned': ['--aligned'], '90': ['--90'], '180': ['--180']}


def cli_task(a):
    _, net, W, H, L, style, ue = a
    n = Net(NETS[net])
    opts = STYLE[style] + (['--use-ends'] if ue else [])
    case = Case(lambda: cli(net, W, H, L, opts), config=a)
    s = Sound(case)
    s.check(end_rules(n, s.lay, style, ue), f'ends of {net} with {opts}')
    w = int(s.witness() is not None)
    r = Refine(Case(lambda: cli(net, W, H, L, ['--custom']), config=a), case, keep=('colour',))
    spec = end_rules(n, r.a.lay, style, ue)
    r.check([lit for _, lit in spec], f'ends of {net} with {opts}')
    return {'obligations': s.assertions + 1, 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} satisfiable={w}'}


def opt_task(a):
    _, net, W, H, L = a
    n = Net(NETS[net])
    s = Sound(Case(lambda: optimal(net, W, H, L), config=a))
    s.check(end_rules(n, s.lay, 'aligned', False), f'ends of {net} in the optimal-size search')
    w = int(s.witness() is not None)
    return {'obligations': s.assertions, 'witnesses': w, 'config': f'{a} satisfiable={w}'}


def straight_rules(lay, n, m, aligned):
    b = lay.b
    out = []
    runs = []
    for x, count in ((0, n), (lay.W - 1, m)):
        lits = [lay.isb((x, y), 0, 0) for y in range(lay.H)]
        out.append((f'{count} straight end belts in a run in column {x}', run_of(b, lits, count)))
        for y in range(lay.H):
            out.append((f'({x},{y}) is an end belt or empty', b.or_(lits[y], lay.empty[x, y])))
        runs.append(lits)
    if aligned:
        big, small = runs if n >= m else runs[::-1]
        out.append(('aligned ends overlap fully', b.and_([b.imp(s, l) for l, s in zip(big, small)])))
    return out


def free_task(a):
    _, W, H, n, m, aligned = a
    from factorio_sat import belt_balancer_net_free as nf

    def bare():
        g = base_grid((W, H, 2, 'n', None, None))
        for y in range(H):
            for x in (0, W - 1):
                g.clauses.append([-g.get_tile_instance(x, y).is_splitter])
        return g

    def ends():
        g = bare()
        nf.setup_balancer_ends(g, n, m, aligned)
        return g
    case = Case(ends, config=a)
    s = Sound(case)
    s.check(straight_rules(s.lay, n, m, aligned), 'network-free ends')
    w = int(s.witness() is not None)
    r = Refine(Case(bare, config=a), case)
    r.check([lit for _, lit in straight_rules(r.a.lay, n, m, aligned)], 'network-free ends')
    # the tool applies them
    return {'obligations': s.assertions + 1, 'witnesses': w, 'config': f'{a} satisfiable={w}'}


def free_cli(a):
    _, W, H, n, m, aligned = a
    from factorio_sat import belt_balancer_net_free as nf
    s = Sound(Case(lambda: run_main(nf, [W, H, n, m, '--underground-length', 2] + (['--aligned'] if aligned else [])).grid, config=a))
    s.check(straight_rules(s.lay, n, m, aligned), 'ends of the network-free tool')
    w = int(s.witness() is not None)
    return {'obligations': s.assertions, 'witnesses': w, 'config': f'{a} satisfiable={w}'}


def offset_task(a):
    _, net, W, H, so, eo = a
    from factorio_sat import belt_balancer as bb
    n = Net(NETS[net])

    def bare():
        from factorio_sat.solver import Grid
        g = Grid(W, H, max(n.colours) + 1, 2)
        g.prevent_bad_undergrounding()
        g.prevent_bad_colouring()
        g.prevent_intersection()
        g.enforce_maximum_underground_length()
        return g

    def ends():
        g = bare()
        bb.setup_balancer_ends_with_offsets(g, list(n.nodes), so, eo)
        return g

    def rules(lay, bits):
        b = lay.b
        out = []
        for x, o, c, col in ((0, so, n.in_count, n.in_colour), (W - 1, eo, n.out_count, n.out_colour)):
            for y in range(H):
                if o <= y < o + c:
                    out.append((f'end belt at ({x},{y})', b.and_(lay.isb((x, y), 0, 0), b.eq_const(bits[x, y], col))))
                else:
                    out.append((f'({x},{y}) is empty', lay.empty[x, y]))
        return out
    case = Case(ends, config=a)
    s = Sound(case)
    s.check(rules(s.lay, colour_bits(s.dec, case)), 'ends at fixed offsets')
    w = int(s.witness() is not None)
    r = Refine(Case(bare, config=a), case, keep=('colour',))
    bits = colour_bits(r.a.dec, r.a.case)
    r.check([lit for _, lit in rules(r.a.lay, bits)], 'ends at fixed offsets')
    return {'obligations': s.assertions + 1, 'witnesses': w, 'config': f'{a} satisfiable={w}'}


KINDS = {'cli': cli_task, 'opt': opt_task, 'free': free_task, 'freecli': free_cli, 'offset': offset_task}


def task(a):
    return KINDS[a[0]](a)


def tasks(th):
    out = []
    nets = [('1x2', 4, 5), ('2x1', 4, 5), ('2x2', 4, 5), ('1x3', 5, 5), ('3x2', 5, 5), ('2x4', 5, 6), ('4x4two', 4, 6), ('2x2rev', 4, 4)]
    if th:
        nets += [('1x2', 6, 7), ('2x1', 6, 7), ('2x2', 6, 7), ('1x3', 7, 6), ('3x2', 7, 6), ('2x4', 7, 7), ('4x4', 7, 6)]
    for net, W, H in nets:
        for style in STYLE:
            for ue in ((False, True) if style != '180' else (False,)):
                if style == '90' and Net(NETS[net]).out_count > W:
                    continue
                if style == '180' and net == '4x4two' and H < 8:
                    H = 8
                out.append(('cli', net, W, H, 2, style, ue))
    out += [('opt', '2x2', 4, 4, 4), ('opt', '1x2', 4, 4, 4), ('opt', '2x1', 4, 5, 4), ('opt', '3x2', 6, 4, 4)]
    out += [('free', 3, h, n, m, al) for h, n, m in ((8, 8, 6), (9, 5, 7), (10, 10, 10)) for al in (False, True)]
    top = 5 if th else 4
    for n in range(1, top + 1):
        for m in range(1, top + 1):
            for al in (False, True):
                out.append(('free', 3, max(n, m) + 2, n, m, al))
                out.append(('free', 4, max(n, m), n, m, al))
    if th:
        out += [('free', 4, 8, n, m, al) for n, m in ((2, 5), (5, 3), (3, 3)) for al in (False, True)]
    for n, m in ((2, 2), (1, 2), (2, 1), (3, 2), (2, 3)):
        for al in (False, True):
            out.append(('freecli', 5, 4, n, m, al))
    for net in ('1x2', '2x1', '2x2', '3x2', '1x3r', '2x2rev'):
        n = Net(NETS[net])
        for so in range(0, 4 - n.in_count + 1):
            for eo in range(0, 4 - n.out_count + 1):
                out.append(('offset', net, 4, 4, so, eo))
    return out


def run(ctx):
    ctx.encoded('belt_balancer.setup_balancer_input', 'belt_balancer.setup_balancer_output', 'belt_balancer.setup_balancer_ends', 'belt_balancer.setup_balancer_ends_90',
                'belt_balancer.setup_balancer_ends_180', 'belt_balancer.setup_balancer_ends_with_offsets', 'belt_balancer_net_free.setup_balancer_ends',
                'belt_balancer.main', 'belt_balancer_net_free.main', 'calculate_optimal.solve_balancer', 'network.get_input_output_colours')
    ctx.assume('pysat\'s cardinality encoders count exactly (C02)')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 40:
        raise NoAnswer('too few satisfiable configurations')
