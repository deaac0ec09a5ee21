"""C26: every blueprint in books/ is decoded, unpacked and imported with the real code and compared with the layout its entities
describe.  Linear real arithmetic decides over all input rates whether the traced wiring balances; SAT decides whether the
network parsed by the real code is the physical one up to naming, and whether the clauses the real balancer tool makes for that
network, size and underground length have this layout as a solution."""
import hashlib
import json
import os

from ..core import Violation, NoAnswer, time_limit
from ..env import REPO
from .. import cnf
from ..cnf import Builder
from ..layout import Decoded, show
from ..laybox import network_of
from ..tools import run_main, ToolError
from ..shipped import FACTORIO, REACH, Wiring, cells_of, decode_text, files, load, parse_label, physical, sat_iso
from .. import symtile as st
from .c17 import same_layout, entities_of
import factorio_sat.belt_balancer as belt_balancer
import factorio_sat.blueprint as bp
import factorio_sat.blueprint_book as book
import factorio_sat.network as nw

BOUNDS = {
    'quick': 'every blueprint of every file in books/ (308 in six books); all non-negative input rates, no saturation; the collection all.txt compared with the six books; '
             'default end arrangement for the search',
    'thorough': 'as quick, and the aligned arrangement and unlimited undergrounds for the search',
}


def real_leaf(text, path):
    data = bp.decode_blueprint(text)
    for i, _ in path:
        data = book.unpack_book(data)[i]
    return data


def normal(ents):
    """moved so that the upper left tile is at the origin"""
    cells = [c for e in ents for c in cells_of(e['name'], (e['position']['x'], e['position']['y']), FACTORIO.index(e.get('direction', 0)), e.get('type'))]
    dx, dy = min(x for x, _ in cells), min(y for _, y in cells)
    return [dict(e, position={'x': e['position']['x'] - dx, 'y': e['position']['y'] - dy}) for e in ents]


def read(s, text):
    """(tiles, problem): the layout read by the real code"""
    if parse_label(s.label) is None:
        return None, f'label {s.label!r}'
    if not s.ok:
        return None, 'overlapping entities or mixed belt tiers'
    try:
        with time_limit(60):
            data = real_leaf(text, s.path)
            if data != s.data:
                return None, 'the tool reads another blueprint'
            tiles = bp.import_blueprint(data)
            bad = same_layout(s.kinds, tiles)
            if bad:
                return None, bad
            return tiles, None
    except Exception as e:
        return None, f'reading fails: {e!r}'


def unbalanced(s):
    n, m = parse_label(s.label)
    w = Wiring(s.kinds)
    if (len(w.enter), len(w.leave)) != (n, m):
        return f'{len(w.enter)} belts enter and {len(w.leave)} leave'
    bad = w.dangling()
    if bad:
        return bad
    rates = w.unequal()
    return rates and f'rates {rates["in"]} give {rates["out"]}'


def round_trip(s, tiles):
    try:
        with time_limit(60):
            got = [tuple(map(tuple, n)) for n in nw.parse_network(tiles, True)]
            again = bp.make_blueprint(tiles, s.label, bp.TransportBeltLevel[s.tier])
    except Exception as e:
        return f'fails: {e!r}'
    if not sat_iso(network_of(s.kinds, True), got):
        return f'parsed as network {got}'
    a, bad = entities_of(again, s.label)
    b, _ = entities_of({'blueprint': dict(s.data['blueprint'], entities=normal(s.data['blueprint']['entities']))}, s.label)
    if bad or a != b:
        return 'exporting it again gives other entities'
    return None


def accepted(s, opts, L):
    """does the real tool, asked for the network of the layout, have it as a solution?"""
    def grid():
        return run_main(belt_balancer, ['net', s.W, s.H, '--underground-length', L] + list(opts), files={'net': s.network_text()}).grid
    g = grid()
    dec = Decoded(g)
    b = Builder(1 + max([abs(l) for c in g.clauses for l in c] + [1]))
    for p in dec.cells:
        b.assert_(b.or_([b.and_([v if x else -v for v, x in c[0].items()]) for c in dec.paths[p] if c[1] == s.kinds[p]]))
    return cnf.solve(g.clauses, b.clauses) is not None


def task(t):
    file, i, configs = t
    s = load(file)[i]
    name = f'{os.path.basename(file)} no. {i} ({s.label})'
    drawn = show(s.kinds) if s.ok else None

    def fail(what, **kw):
        return Violation(f'{name}: {what}', layout=drawn, **kw)
    tiles, bad = read(s, open(file).read())
    if bad:
        raise fail(bad)
    bad = physical(s.kinds, s.W, s.H, s.L)
    if bad:
        raise fail(f'not a valid layout: {bad}')
    out = {'obligations': 5 + len(configs), 'witnesses': 1}
    bad = unbalanced(s)
    if bad:
        digest = hashlib.sha256(json.dumps(s.data['blueprint']['entities'], sort_keys=True).encode()).hexdigest()[:10]
        out['finding'] = (f'{s.label.replace(" ", "-")}/{digest}', fail(f'does not balance: {bad}'))
    bad = round_trip(s, tiles)
    if bad:
        raise fail(bad)
    for opts, L in configs:
        L = s.L if L is None else L
        try:
            ok = accepted(s, opts, L)
        except ToolError as e:
            raise fail(f'belt_balancer {s.W} {s.H} {" ".join(opts)} fails: {e}', input=s.network_text())
        if not ok:
            raise fail(f'not a solution of belt_balancer {s.W} {s.H} --underground-length {L} {" ".join(opts)} for its own network', input=s.network_text())
    return out


def book_task(t):
    """the unpack command prints every part of a book in order"""
    file, _, _ = t
    text = open(file).read()
    want = decode_text(text)['blueprint_book']['blueprints']
    with time_limit(60):
        out, exc = st.run_cli(book, ['unpack'], text)
    if exc is not None:
        raise Violation(f'{os.path.basename(file)}: unpack fails: {exc!r}')
    got = [decode_text(x) for x in out.splitlines() if x.strip()]
    if got != want:
        raise Violation(f'{os.path.basename(file)}: unpack gives {len(got)} other parts, expected {len(want)}')
    return {'obligations': len(want)}


def dispatch(t):
    return book_task(t) if t[1] is None else task(t)


def run(ctx):
    ctx.encoded('blueprint.decode_blueprint', 'blueprint.import_blueprint', 'blueprint.resolve_belt_input_directions', 'blueprint.make_blueprint',
                'blueprint_book.unpack_book', 'blueprint_book.main', 'network.parse_network', 'belt_balancer.main', 'belt_balancer.create_balancer', 'solver.Grid.*', 'books/*')
    ctx.assume('an ideal splitter shares the sum of its inputs equally between its connected outputs, no line is saturated')
    configs = [((), None)] + ([(('--aligned',), None), ((), -1)] if ctx.thorough else [])
    tasks, seen = [], {}
    for f in files():
        tasks.append((f, None, None))
        for i, s in enumerate(load(f)):
            key = json.dumps(s.data['blueprint']['entities'], sort_keys=True) + str(s.label)
            if len(s.path) > 1:
                seen.setdefault(key, (f, i))  # a book of books repeats blueprints of other files
            else:
                seen[key] = (f, i)
                tasks.append((f, i, configs))
    single = {(f, i) for f, i, _ in tasks}
    tasks += [(f, i, configs) for f, i in seen.values() if (f, i) not in single]
    if not any(i is not None for _, i, _ in tasks):
        raise NoAnswer('no shipped blueprints')
    tasks.sort(key=lambda t: -(t[1] or 0) % 57)
    ctx.map(dispatch, tasks)
