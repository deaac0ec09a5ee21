"""C21: parse_network (and the `network parse` command) runs symbolically on windows whose tiles are unknown, restricted only
by the rules of belt physics; the network it returns must be the reference network of the layout up to naming and order."""
import itertools
import json
import os
import tempfile

import numpy as np

from ..core import Violation, NoAnswer, time_limit
from ..dse import FD, Limit, type_shim
from ..layout import show
from ..laybox import Box, grid_of, network_of, TILE
from ..netspec import parse as parse_text
from ..tools import patched
from .. import symtile as st
from .. import shipped
from ..shipped import sat_iso
from .c20 import iso, classes, well_formed
import factorio_sat.network as nw

BOUNDS = {
    'quick': 'all valid layouts with at least one splitter of windows 2x2, 3x2, 2x3, 4x2, 2x4; 3x3 with at most 7 used tiles; 4x3, 3x4 with at most 5; '
             '5x2, 2x5 with two splitters and an underground; 5x3, 3x5 with an underground and at most 6 used tiles; underground length 2; both edge options; 48 of the shipped balancers (undergrounds up to 8) with two windows of 3x3 unknown tiles each',
    'thorough': 'all valid layouts with at least one splitter of windows up to 4x2, 2x4, 3x3; 5x2, 2x5 with two splitters; 6x2, 2x6 with two splitters and an underground; '
                '4x3, 3x4, 5x3, 3x5 with at most 7 used tiles; 4x4 with two splitters and at most 6 used tiles; underground length 2; both edge options; all shipped balancers with every window of 3x3 unknown tiles',
}


def compare(kinds, got, edge):
    want = network_of(kinds, edge)
    if not isinstance(got, list) or not well_formed([tuple(map(tuple, n)) for n in got]):
        return f'malformed network {got}'
    if len(want) > 4:
        return None if sat_iso(want, [tuple(map(tuple, n)) for n in got]) else f'network {got}, expected {want}'
    a, _ = classes([_num(n) for n in [want]][0])
    b, _ = classes([tuple(map(tuple, n)) for n in got])
    if not iso(a, b):
        return f'network {got}, expected {want}'
    return None


def _num(net):
    ids = {}
    return [tuple(tuple(None if c is None else ids.setdefault(c, len(ids)) for c in s) for s in n) for n in net]


def concrete(kinds, W, H, edge, cli):
    with time_limit(20):
        try:
            if cli:
                text = json.dumps([[{'tile': st.to_json(kinds[x, y])} for x in range(W)] for y in range(H)])
                got = run_cli(text, edge)
            else:
                got = nw.parse_network(grid_of(kinds, W, H), edge)
        except Exception as e:
            return f'fails: {e!r}'
    return compare(kinds, got, edge)


def run_cli(text, edge):
    with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
        p = os.path.join(tmp, 'n')
        out, exc = st.run_cli(nw, ['parse', p] + (['--assume-valid-output'] if edge else []), text + '\n')
        if exc is not None:
            raise exc
        return parse_text(open(p).read())


def task(t):
    W, H, opts, edge, cli, first = t
    box = Box(W, H, first=first, **opts)
    if box.dead:
        return {'obligations': 0}
    eng = box.eng

    def path(eng):
        bad = None
        got = None
        try:
            if cli:
                objs = box.json_cells(eng)
                text = json.dumps([[{'tile': st.MARK + box.key((x, y))} for x in range(W)] for y in range(H)])
                with st.symbolic_json(eng, objs), patched(nw, 'type', type_shim()), time_limit(20):
                    got = run_cli(text, edge)
            else:
                with patched(nw, 'type', type_shim()), time_limit(20):
                    got = nw.parse_network(box.tiles(eng), edge)
        except Limit:
            raise
        except Exception as e:
            bad = f'fails: {e!r}'
        kinds = box.force(eng)
        if bad is None:
            bad = compare(kinds, got, edge)
        return kinds, bad
    n = 0
    suspect = False
    for kinds, bad in eng.explore(path):
        n += 1
        if bad is None:
            continue
        real = concrete(kinds, W, H, edge, cli)
        if real:
            raise Violation(real, layout=show(kinds), assume_valid_output=edge)
        suspect = True
    if suspect:
        # the symbolic run misread the code: repeat with every tile decided before the code looks at it
        box = Box(W, H, first=first, **opts)

        def eager(eng):
            kinds = box.force(eng)
            return kinds, concrete(kinds, W, H, edge, cli)
        for kinds, real in box.eng.explore(eager):
            if real:
                raise Violation(real, layout=show(kinds), assume_valid_output=edge)
    return {'obligations': n, 'paths': n, 'witnesses': 1 if n else 0}


def near_task(t):
    """layouts that agree with a shipped balancer outside a window, its underground length included"""
    _, file, i, size, which, edge = t
    sh = shipped.load(file)[i]
    if not shipped.usable(sh):
        return {'obligations': 0}
    wins = shipped.windows(sh, size)
    out = {'obligations': 0, 'paths': 0, 'witnesses': 0}
    for free in (wins if which is None else [wins[k % len(wins)] for k in which]):
        r = task((sh.W, sh.H, dict(L=sh.L), edge, False, {p: k for p, k in sh.kinds.items() if p not in free}))
        for k in out:
            out[k] += r.get(k, 0)
    return out


def dispatch(t):
    return near_task(t) if t[0] == 'near' else task(t)


def tasks(tier):
    th = tier == 'thorough'
    sp = dict(min_splitters=1)
    both = (False, True)
    wins = [(2, 2, sp, both), (3, 2, sp, both), (2, 3, sp, both), (4, 2, sp, both), (2, 4, sp, both)]
    if th:
        wins += [(3, 3, dict(min_splitters=1), both), (5, 2, dict(min_splitters=2), both), (2, 5, dict(min_splitters=2), both),
                 (4, 3, dict(min_splitters=1, max_used=7), both), (3, 4, dict(min_splitters=1, max_used=7), both),
                 (6, 2, dict(min_splitters=2, min_under=1), both), (2, 6, dict(min_splitters=2, min_under=1), both),
                 (5, 3, dict(min_splitters=1, min_under=1, max_used=7), both), (3, 5, dict(min_splitters=1, min_under=1, max_used=7), both),
                 (4, 4, dict(min_splitters=2, max_used=6), both)]
    else:
        wins += [(3, 3, dict(min_splitters=1, max_used=7), (False,)),
                 (5, 2, dict(min_splitters=2, min_under=1), both), (2, 5, dict(min_splitters=2, min_under=1), both),
                 (4, 3, dict(min_splitters=1, max_used=5), both), (3, 4, dict(min_splitters=1, max_used=5), both),
                 (5, 3, dict(min_splitters=1, min_under=1, max_used=6), (True,)), (3, 5, dict(min_splitters=1, min_under=1, max_used=6), (False,))]
    out = []
    for W, H, o, edges in wins:
        for edge in edges:
            if W * H <= 4:
                split = [{}]
            elif W * H <= 6:
                split = [{(0, 0): k} for k in st.KINDS]
            else:
                split = [{(0, 0): k} for k in st.KINDS]
            for f in split:
                out.append((W, H, o, edge, False, f))
                if W * H <= 4 or (W * H <= 6 and (th or edge)):
                    out.append((W, H, o, edge, True, f))
    out.sort(key=lambda t: -t[0] * t[1])
    for k, (f, i) in enumerate(shipped.near_tasks(th, 48, 1)):
        out.append(('near', f, i, 3, None if th else (k, 2 * k + 5), k % 2 == 0))
    return out


def run(ctx):
    ctx.encoded('network.parse_network', 'network.get_exterior_colours', 'network.remap_colours', 'network.tidy_network', 'network.fix_colours',
                'network.save_network', 'network.main (parse)', 'blueprint.read_tile')
    ctx.assume('layouts obey the reference rules of belt physics and no underground leaves the window')
    ctx.map(dispatch, tasks(ctx.tier))
    if ctx.witnesses == 0:
        raise NoAnswer('no layout')
