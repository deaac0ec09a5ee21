"""Pruning rules: every model with the rule on is free of the pattern, and every model without the rule that is free of the
pattern keeps its layout when the rule is on."""
from ..core import NoAnswer, Violation
from ..gridcheck import Case, Sound, Refine
from ..layout import DIRS, REV, INF
from ..netspec import Net
from ..tools import run_main
from .. import patterns as P
from .balancer import NETS, cli, colour_bits

BOUNDS = {
    'quick': 'every rule on grids up to 7x3, 9x3, 3x9 and 5x4 with underground length 1..5 and unlimited, the underground rules also on 12x1, 1x12, 10x2, 2x10 and 11x1 with length 6 to 8 and unlimited; every option of the balancer tool for networks of 1..3 splitters on grids up to 6x4',
    'thorough': 'every rule on grids up to 8x4 and 6x6 with underground length 1..6 and unlimited; every option of the balancer tool for networks of 1..4 splitters on grids up to 7x4',
}


def bare(W, H, L, colours=1):
    from factorio_sat.solver import Grid
    g = Grid(W, H, colours, L)
    g.prevent_bad_undergrounding()
    g.prevent_bad_colouring()
    g.prevent_intersection()
    g.enforce_maximum_underground_length()
    g.block_underground_through_edges()
    return g


def opt(name, *args, **kw):
    def apply(g):
        from factorio_sat import optimisations
        getattr(optimisations, name)(g, *args, **kw)
    return apply


def inter(name):
    def apply(g):
        from factorio_sat import interchange
        getattr(interchange, name)(g)
    return apply


def balancer_rule(name):
    def apply(g):
        from factorio_sat import belt_balancer
        getattr(belt_balancer, name)(g)
    return apply


RULES = {
    'empty': (opt('prevent_empty_along_underground'), lambda lay, L, bits: P.empty_underground(lay, L)),
    'loops': (opt('prevent_small_loops'), lambda lay, L, bits: P.small_loops(lay)),
    'glue': (opt('glue_splitters'), lambda lay, L, bits: P.glue_splitters(lay)),
    'partial': (opt('glue_partial_splitters'), lambda lay, L, bits: P.glue_partial_splitters(lay)),
    'expand': (opt('expand_underground'), lambda lay, L, bits: P.expandable(lay, L)),
    'expand-mid': (lambda g: opt('expand_underground', min_x=1, max_x=g.width - 2)(g), lambda lay, L, bits: P.expandable(lay, L, 1, lay.W - 2)),
    'hooks': (opt('prevent_belt_hooks'), lambda lay, L, bits: P.hooks(lay)),
    'merge': (opt('prevent_mergeable_underground'), lambda lay, L, bits: P.mergeable(lay, L)),
    'semi': (opt('prevent_semicircles'), lambda lay, L, bits: P.semicircles(lay)),
    'ughook': (opt('prevent_underground_hook'), lambda lay, L, bits: P.underground_hooks(lay)),
    'zigzag': (opt('prevent_zigzags'), lambda lay, L, bits: P.zigzags(lay)),
    'parallel': (opt('prevent_belt_parallel_splitter'), lambda lay, L, bits: P.parallel_splitters(lay)),
    'edgebelts': (balancer_rule('prevent_double_edge_belts'), lambda lay, L, bits: P.double_edge_belts(lay)),
    'passing': (inter('prevent_passing'), lambda lay, L, bits: P.passing(lay, bits)),
    'awkward': (inter('prevent_awkward_underground_entry'), lambda lay, L, bits: P.awkward_entry(lay)),
    'generic': (opt('apply_generic_optimisations'), lambda lay, L, bits: generic(lay, L)),
}


def generic(lay, L):
    return (P.small_loops(lay) + P.empty_underground(lay, L) + P.glue_splitters(lay) + P.hooks(lay) + P.mergeable(lay, L) + P.semicircles(lay)
            + P.underground_hooks(lay) + P.zigzags(lay) + P.parallel_splitters(lay) + P.glue_partial_splitters(lay))


def rule_task(a):
    _, rule, W, H, L = a
    apply, spec = RULES[rule]
    colours = 2 if rule == 'passing' else 1

    def base():
        g = bare(W, H, L, colours)
        if rule in ('passing', 'awkward'):
            for t in g.iterate_tiles():
                g.clauses.append([-t.is_splitter])
        return g

    def with_rule():
        g = base()
        apply(g)
        return g
    ca, cb = Case(base, config=a), Case(with_rule, config=a)
    s = Sound(cb)
    pats = spec(s.lay, L, colour_bits(s.dec, cb) if colours > 1 else None)
    s.check([(f'no {n}', -l) for n, l in pats], f'rule {rule}')
    r = Refine(ca, cb, keep=('colour',) if colours > 1 else ())
    pats_a = spec(r.a.lay, L, colour_bits(r.a.dec, ca) if colours > 1 else None)
    w = int(bool(pats_a) and r.a.witness([r.b.or_([l for _, l in pats_a])]) is not None)
    r.check([-l for _, l in pats_a], f'rule {rule}')
    return {'obligations': len(pats) + 1, 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} pattern occurs without the rule={bool(w)}'}


# --- options of the balancer tool ------------------------------------------------------------------------------------------

def edge_splitters(net, lay, bits):
    """literals that must hold"""
    b = lay.b
    net.rules(lay, bits)
    out = []
    for side, col, x in ((0, net.in_colour, 1), (1, net.out_colour, lay.W - 2)):
        mine = {t: c for t, c in net.types.items() if all(v == col for v in t[side])}
        back = sum((1 if v == col else 0) * c for t, c in net.types.items() for v in t[1 - side])
        if back == 0:
            for t in mine:
                for p in lay.cells:
                    r = net.role[p, t]
                    out.append(b.imp(r, b.and_(lay.k[p][('S', 0, 1)]) if p[0] == x else b.F))
        else:
            need = sum(mine.values()) - back
            if need > 0:
                out.append(b.counts([b.or_([net.role[(x, y), t] for t in mine]) for y in range(lay.H)], need, 'ge'))
    return out


def option_spec(o, net, lay, L, bits):
    """[literals] that an option demands"""
    def no(pats):
        return [-l for _, l in pats]
    mid = lambda: no(P.expandable(lay, L, 1, lay.W - 2))
    bad = lambda: no(P.hooks(lay) + P.semicircles(lay) + P.small_loops(lay) + P.underground_hooks(lay) + P.zigzags(lay) + P.parallel_splitters(lay))
    glue = lambda: no(P.glue_splitters(lay) + P.glue_partial_splitters(lay))
    table = {
        '--edge-splitters': lambda: edge_splitters(net, lay, bits),
        '--edge-belts': lambda: no(P.double_edge_belts(lay)),
        '--glue-splitters': glue,
        '--expand-underground': mid,
        '--prevent-mergeable-underground': lambda: no(P.mergeable(lay, L)),
        '--prevent-bad-patterns': bad,
        '--fast': lambda: edge_splitters(net, lay, bits) + glue() + mid() + no(P.mergeable(lay, L)) + bad(),
    }
    return table[o]()


def option_task(a):
    _, o, net, W, H, L, ends = a
    n = Net(NETS[net])
    ca = Case(lambda: cli(net, W, H, L, list(ends)), config=a)
    cb = Case(lambda: cli(net, W, H, L, list(ends) + [o]), config=a)
    s = Sound(cb)
    spec = option_spec(o, n, s.lay, L, colour_bits(s.dec, cb))
    s.check([(f'requirement {i}', l) for i, l in enumerate(spec)], f'option {o}')
    r = Refine(ca, cb, keep=('colour',))
    spec_a = option_spec(o, n, r.a.lay, L, colour_bits(r.a.dec, ca))
    w = int(bool(spec_a) and r.a.witness([r.b.or_([-l for l in spec_a])]) is not None)
    r.check(spec_a, f'option {o}')
    return {'obligations': len(spec) + 1, 'witnesses': w, 'paths': s.dec.npaths, 'config': f'{a} rule matters={bool(w)}'}


def task(a):
    return (rule_task if a[0] == 'rule' else option_task)(a)


SIZES = {
    'empty': [(5, 3, 2), (3, 6, 4), (6, 2, INF), (3, 3, 1)], 'expand': [(5, 3, 2), (6, 2, 4), (2, 6, 3), (5, 4, 3), (5, 3, INF), (3, 3, 1)],
    'expand-mid': [(7, 2, 3), (5, 4, 2), (6, 3, INF), (4, 5, 3)], 'merge': [(7, 2, 5), (2, 7, 4), (6, 3, 4), (7, 3, INF), (6, 2, 3)],
    'ughook': [(4, 4, 2), (3, 5, 3), (5, 3, 3), (5, 4, INF)], 'awkward': [(4, 5, 3), (5, 4, 3), (5, 5, 2)], 'passing': [(3, 3, 1), (4, 4, 2)],
    'glue': [(4, 4, 1), (5, 4, 2), (3, 3, 1), (6, 3, 2)], 'partial': [(4, 4, 1), (5, 4, 2), (3, 3, 1), (6, 3, 2)], 'edgebelts': [(3, 3, 1), (5, 4, 2), (2, 3, 1), (1, 3, 1)],
    'generic': [(5, 4, 3), (7, 3, 4), (4, 5, 2)],
}


OPTIONS = ('--edge-splitters', '--edge-belts', '--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns', '--fast')


def tasks(th):
    out = []
    for rule in RULES:
        sizes = SIZES.get(rule, [(3, 3, 1), (4, 3, 2), (3, 5, 2), (5, 4, 2)])
        sizes = sizes + [(9, 3, 2), (3, 9, 2)]
        if rule in ('empty', 'expand', 'expand-mid', 'merge'):
            sizes = sizes + [(12, 1, 8), (1, 12, 8), (10, 2, 7), (2, 10, 6), (11, 1, INF)]
        if th:
            sizes = sizes + [(7, 7, 2)] + [(6, 5, 4), (5, 6, 3), (8, 4, 6)]
        for W, H, L in sizes:
            if rule == 'edgebelts' and W == 1:
                continue
            out.append(('rule', rule, W, H, L))
    nets = [('2x2', 5, 4, 3), ('1x3', 6, 4, 2), ('2x2twice', 6, 3, 4), ('3x2', 6, 4, 2), ('loop', 5, 4, 2), ('2x4', 7, 4, 4), ('4x4', 7, 4, INF), ('2x1x', 5, 4, 4),
            ('4x4two', 5, 4, 2), ('2x2twice', 6, 5, 2)]
    if th:
        nets += [('1x3r', 6, 4, 4), ('2x4', 7, 5, 2), ('4x4', 8, 5, 4), ('3x2', 7, 5, 4), ('1x3', 7, 5, 6), ('2x2', 6, 6, 5)]
    for o in OPTIONS:
        for net, W, H, L in nets:
            out.append(('option', o, net, W, H, L, ()))
        for ends in (('--aligned',), ('--use-ends',), ('--90',), ('--180',), ('--custom',)):
            for net, W, H, L in [('2x2', 5, 5, 3), ('1x2', 5, 4, 2)] + ([('2x2twice', 6, 5, 4), ('3x2', 6, 5, 3)] if th else []):
                out.append(('option', o, net, W, H, L, ends))
    return out


def run(ctx):
    ctx.encoded('optimisations.*', 'belt_balancer.main', 'belt_balancer.enforce_edge_splitters', 'belt_balancer.prevent_double_edge_belts',
                'interchange.prevent_passing', 'interchange.prevent_awkward_underground_entry', 'template.BaseGrid.iterate_tile_blocks')
    ctx.assume('pysat\'s cardinality encoders count exactly (C02)', 'undergrounds do not cross the border (as in every tool that uses these rules)')
    ctx.map(task, tasks(ctx.thorough))
    if ctx.witnesses < 40:
        raise NoAnswer('too few configurations in which the pattern occurs')
