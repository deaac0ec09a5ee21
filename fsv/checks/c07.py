"""Every symbolic layout with line values that realises the network physically (reference rules) must be accepted by the clauses
the real tool hands to the solver without pruning options: for all layouts and line values, exists auxiliaries."""
from ..core import NoAnswer
from ..gridcheck import Case, Complete
from ..layout import DIRS, INF, REV
from ..netspec import Net, not_only_below_empty
from .. import shipped
from ..tools import run_main
from .balancer import NETS, cli, end_rules, colour_bits, belt_balancer

BOUNDS = {
    'quick': '13 networks of 1..4 splitters on grids up to 7x4, underground length 1..4 and unlimited, all end arrangements; 16 of the shipped balancers (grids up to 14x8) at their own size and underground length, with one window of 5x5 unknown tiles each',
    'thorough': '13 networks of 1..4 splitters on grids up to 8x5, underground length 1..8 and unlimited, all end arrangements; all shipped balancers, every 6x6 window',
}


def setup(c, n, L):
    """line values of the layout, and Skolem choices for the code's line variables"""
    b, lay = c.b, c.lay
    w = n.width
    bits = {p: b.vars(w) for p in lay.cells}
    other = n.colours[-1]
    for p in lay.cells:
        inst = c.dec.inst[p]
        if len(inst.colour) != w:
            raise NoAnswer('line numbers have an unexpected width')
        for i, v in enumerate(inst.colour):
            c.skolem(v, b.ite(lay.empty[p], b.const(other, w)[i], bits[p][i]))
        for axis, var in ((0, inst.colour_ux), (1, inst.colour_uy)):
            val = b.const(other, w)
            for d in (axis, axis + 2):
                for k, q, lit in lay.back_lits(p, d)[0]:
                    here = b.and_(lit, b.or_(lay.covered(p, d), lay.uo[p, d]))
                    val = [b.ite(here, x, y) for x, y in zip(bits[q], val)]
            for i, v in enumerate(var):
                c.skolem(v, val[i])
    return bits


def task(a):
    net, W, H, L, style, use_ends = a
    opts = {'default': [], 'aligned': ['--aligned'], '90': ['--90'], '180': ['--180'], 'custom': ['--custom']}[style] + (['--use-ends'] if use_ends else [])
    w, c = decide(Net(NETS[net]), lambda: cli(net, W, H, L, opts), L, style, use_ends, a, f'network {net}')
    return {'obligations': len(c.grid.clauses), 'witnesses': w, 'paths': c.dec.npaths, 'config': f'{a} witnesses={w}'}


def decide(n, make, L, style, use_ends, a, what, fixed=None):
    c = Complete(Case(make, config=a))
    lay = c.lay
    bits = setup(c, n, L)
    rules = lay.rules_surface() + lay.rules_underground(L, [True] * 4) + n.rules(lay, bits) + not_only_below_empty(lay, L)
    if style != 'custom':
        rules += end_rules(n, lay, style, use_ends)
    if fixed is None:
        w = c.witnesses(rules)
    else:
        rules += [(f'as shipped at {p}', lay.k[p][k]) for p, k in fixed.items()]
        w = 1
    for p in lay.cells:
        node = getattr(c.dec.inst[p], 'node', None)
        if node is not None:
            for t, v in zip(n.types, node):
                c.skolem(v, n.role[p, t])
    c.underground_skolem()
    c.check(rules, what)
    return w, c


def near(a):
    """every layout that agrees with a shipped balancer outside a window and realises its network"""
    _, file, i, size, which = a
    sh = shipped.load(file)[i]
    if not shipped.usable(sh):
        return {'obligations': 0}
    text = sh.network_text()
    n = Net(text)
    wins = shipped.windows(sh, size)
    wins = wins if which is None else [wins[k % len(wins)] for k in which]
    for free in wins:
        w, c = decide(n, lambda: run_main(belt_balancer, ['net', sh.W, sh.H, '--underground-length', sh.L], files={'net': text}).grid, sh.L, 'default', False, a,
                      f'near the shipped "{sh.label}"', {p: k for p, k in sh.kinds.items() if p not in free})
    return {'obligations': len(c.grid.clauses) * len(wins), 'witnesses': 1,
            'config': f'near {sh.label} ({sh.tier}) {sh.W}x{sh.H}, {len(wins)} windows of {size}x{size}'}


def dispatch(a):
    return near(a) if a[0] == 'near' else task(a)


def tasks(th):
    out = []
    for net, W, H, L in [('1x2', 4, 3, 2), ('1x2', 3, 3, 1), ('2x1', 4, 3, 2), ('2x2', 4, 3, 2), ('2x2', 5, 4, 4), ('2x2gap', 4, 3, 1), ('2x2rev', 4, 3, 2),
                         ('1x2b', 4, 3, 4), ('1x3', 6, 4, 2), ('1x3r', 6, 4, 4), ('2x4', 6, 4, 2), ('3x2', 6, 4, 2), ('2x1x', 4, 3, 2), ('4x4two', 4, 4, 2),
                         ('2x2twice', 6, 3, 4), ('loop', 5, 4, 2), ('4x4', 7, 4, INF)]:
        if th or W < 7:
            out.append((net, W, H, L, 'custom', False))
        out.append((net, W, H, L, 'default', False))
    for style in ('default', 'aligned', '90', '180'):
        for ue in ((False, True) if style != '180' else (False,)):
            out.append(('2x2', 5, 5, 3, style, ue))
            out.append(('1x2', 4, 4, 2, style, ue))
            out.append(('2x1', 4, 4, 2, style, ue))
            if th:
                for net in ('1x3', '3x2', '2x4', 'loop'):
                    out.append((net, 6, 5 if net != '2x4' else 6, 4, style, ue))
    if th:
        for net in NETS:
            out.append((net, 7, 4, 4, 'custom', False))
            out.append((net, 6, 5, 8, 'default', False))
    out.sort(key=lambda t: -t[1] * t[2] * (3 if t[4] == 'custom' else 1))
    # the balancers shipped with the tool, each at its own size
    return [('near', f, i, 6 if th else 5, None if th else (k,)) for k, (f, i) in enumerate(shipped.near_tasks(th, 16, 3))] + out


def run(ctx):
    ctx.encoded('belt_balancer.main', 'belt_balancer.create_balancer', 'optimisations.prevent_empty_along_underground', 'network.deduplicate_network',
                'network.get_input_output_colours', 'network.open_network', 'solver.Grid.*', 'belt_balancer.setup_balancer_*')
    ctx.assume('outputs leave the layout through belts (a splitter facing the border directly is not an end)',
               'pysat\'s cardinality encoders count exactly (C02)')
    ctx.map(dispatch, tasks(ctx.thorough))
    if ctx.witnesses < 20:
        raise NoAnswer('too few satisfiable configurations')
