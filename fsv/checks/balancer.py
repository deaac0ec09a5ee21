"""Shared by the balancer checks: grids built by the real command line tools, and reference end arrangements."""
from .. import env
env.quiet_imports()
from factorio_sat import belt_balancer, calculate_optimal
from ..layout import DIRS, REV, number_bits, INF, DecodeError
from ..core import Violation
from ..netspec import Net, not_only_below_empty
from ..tools import run_main, capture_patches, Captured, ToolError

NETS = {
    '1x2': '-1 0 1 1\n', '2x1': '0 0 -1 1\n', '2x2': '0 0 1 1\n', '2x2gap': '5 5 3 3\n', '2x2rev': '1 1 0 0\n', '1x2b': '-1 2 0 0\n',
    '1x3': '0 3 1 1\n-1 1 2 2\n-1 1 2 3\n',
    '1x3r': '0 0 1 1\n-1 1 2 2\n-1 1 2 0\n', '2x4': '0 0 1 1\n-1 1 2 2\n-1 1 2 2\n', '3x2': '0 0 1 -1\n1 0 2 2\n', '2x1x': '0 1 1 1\n',
    '4x4': '0 0 1 2\n0 0 1 2\n1 1 3 3\n2 2 3 3\n', '2x2twice': '0 0 1 1\n1 1 2 2\n', '4x4two': '0 0 1 1\n0 0 1 1\n', 'loop': '0 2 1 2\n',
}


def cli(net, W, H, L, opts=()):
    return run_main(belt_balancer, ['net', W, H, '--underground-length', -1 if L == INF else L] + list(opts), files={'net': NETS[net]}).grid


def optimal(net, W, H, L):
    from ..netspec import parse
    with capture_patches():
        try:
            calculate_optimal.solve_balancer(parse(NETS[net]), (L, W, H), 'g3')
        except Captured as c:
            return c.grid
    raise ToolError('no solver call')


def colour_bits(dec, case):
    try:
        return number_bits(dec, lambda i: i.colour, lambda c: c['colour'])
    except DecodeError as e:
        raise Violation('a line value is reported wrongly', error=repr(e.exc), pos=e.pos, **case.info)


# --- reference end arrangements --------------------------------------------------------------------------------------------

def run_of(b, lits, count):
    """lits are true exactly on one contiguous run of `count`"""
    n = len(lits)
    return b.or_([b.and_([l if o <= i < o + count else -l for i, l in enumerate(lits)]) for o in range(n - count + 1)])


def end_rules(net, lay, style, use_ends=False):
    """style: default, aligned, 90, 180"""
    b = lay.b
    W, H = lay.W, lay.H
    left = [(0, y) for y in range(H)]
    right = [(W - 1, y) for y in range(H)]
    bottom = [(x, H - 1) for x in range(W)]

    def entering(p, d):
        return b.or_([lay.isb(p, d, o) for o in DIRS if o != REV[d]])

    def leaving(p, d):
        return b.or_([lay.isb(p, i, d) for i in DIRS if i != REV[d]])
    out_cells, out_dir = {'default': (right, 0), 'aligned': (right, 0), '90': (bottom, 3), '180': (left, 2)}[style]
    ins = [entering(p, 0) for p in left]
    outs = [leaving(p, out_dir) for p in out_cells]
    out = [('inputs enter on one contiguous run of belts on the left', run_of(b, ins, net.in_count)),
           ('outputs leave on one contiguous run of belts on the named side', run_of(b, outs, net.out_count))]
    # nothing else crosses those two sides inwards/outwards at the end positions
    for p, l in zip(left, ins):
        out.append((f'only end belts enter on the left at {p}', b.imp(lay.conn_in(p, 0), l)))
    for p, l in zip(out_cells, outs):
        out.append((f'only end belts leave at {p}', b.imp(lay.conn_out(p, out_dir), l)))
    if style != '180' and not use_ends:
        for p, l in zip(left, ins):
            also = b.F
            if p in out_cells:
                also = outs[out_cells.index(p)]
            out.append((f'other tiles of the input side are empty ({p})', b.or_(l, lay.empty[p]) if style != '90' else b.or_(l, lay.empty[p])))
        for p, l in zip(out_cells, outs):
            out.append((f'other tiles of the output side are empty ({p})', b.or_(l, lay.empty[p])))
    if style == 'aligned':
        n, m = net.in_count, net.out_count
        a, c, small, big = (ins, outs, m, n) if n >= m else (outs, ins, n, m)
        # the smaller run lies beside the larger one
        out.append(('aligned ends overlap fully', b.and_([b.imp(y, x) for x, y in zip(a, c)])))
    return out
