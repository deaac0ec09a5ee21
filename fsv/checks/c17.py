"""C17: the real blueprint code runs symbolically on windows whose tiles are unknown (restricted by belt physics): export, text
form and import.  The exported entities are compared with the in-game reference and the SAT solver decides, per path, whether
any layout of the path reads back differently.  Books, version numbers and belt tiers are decided over opaque or integer
symbols."""
import base64
import contextlib
import itertools
import json
import os
import struct
import tempfile
import zlib

import numpy as np
import z3

from ..core import Violation, NoAnswer, time_limit
from ..dse import Engine, FD, Limit, SymInt, type_shim, mk, _e
from ..layout import show, VEC, REV, CCW, DIRS
from ..laybox import Box, grid_of, TILE
from ..shipped import FACTORIO, TIERS, PLAIN, cells_of, shaped
from ..tools import patched
from .. import symtile as st
import factorio_sat.blueprint as bp
import factorio_sat.blueprint_book as book
import factorio_sat.calculate_optimal as co
import factorio_sat.stringifier as stringifier

BOUNDS = {
    'quick': 'all consistent layouts of windows 2x2, 3x2, 2x3, 4x1, 1x4, 4x2, 2x4 (3x3: at most 6 used tiles; 5x2, 2x5: at most 6), single tiles and inserters anywhere in 2x2, underground length 2, '
             '3 tiers, 2 positions; commands on 2x2; imported neighbourhoods of a belt (2 unknown entities of 5 kinds, 3 unknown belts) and single entities of every supported name at 2 positions; books of up to 4 blueprints; all 16-bit version parts and 64-bit versions; all underground lengths for the tier',
    'thorough': 'all consistent layouts of windows up to 4x2, 2x4, 5x1, 1x5 (3x3: at most 8 used tiles; 5x2, 2x5: at most 8; 4x3, 3x4: at most 6), pairs of tiles and inserters in 2x3; commands on windows up to 3x2; otherwise as quick',
}

def expected_entity(p, k, tier):
    """(name, x, y, direction, type) or None"""
    x, y = p[0] + 0.5, p[1] + 0.5
    if k[0] == 'B':
        return tier[0], x, y, FACTORIO[k[2]], None
    if k[0] == 'UI':
        return tier[1], x, y, FACTORIO[k[1]], 'input'
    if k[0] == 'UO':
        return tier[1], x, y, FACTORIO[k[1]], 'output'
    if k[0] == 'S' and k[2]:
        dx, dy = VEC[CCW[k[1]]]
        return tier[2], x + dx / 2, y + dy / 2, FACTORIO[k[1]], None
    if k[0] == 'I':
        return ('inserter', 'long-handed-inserter')[k[2]], x, y, FACTORIO[REV[k[1]]], None
    return None


def entities_of(data, label):
    """(sorted entity tuples, complaint)"""
    b = data['blueprint']
    if b.get('item') != 'blueprint':
        return None, 'not a blueprint item'
    if b.get('label') != label or ('label' in b and label is None):
        return None, f'label {b.get("label", "missing")!r}, expected {label!r}'
    out = []
    nums = []
    for e in b['entities']:
        nums.append(e['entity_number'])
        out.append((e['name'], e['position']['x'], e['position']['y'], e.get('direction', 0), e.get('type')))
    if len(set(nums)) != len(nums) or any(not isinstance(n, int) or n < 1 for n in nums):
        return None, f'entity numbers {nums}'
    return sorted(out, key=repr), None


def trimmed(kinds):
    """kinds without empty margins, shifted to the origin"""
    used = [p for p, k in kinds.items() if k[0] != 'E']
    if not used:
        return {}, 0, 0
    x0, y0 = min(x for x, _ in used), min(y for _, y in used)
    x1, y1 = max(x for x, _ in used), max(y for _, y in used)
    return {(x - x0, y - y0): kinds.get((x, y), ('E',)) for x in range(x0, x1 + 1) for y in range(y0, y1 + 1)}, x1 - x0 + 1, y1 - y0 + 1


def shift(data, dx, dy):
    data = json.loads(json.dumps(data))
    for e in data['blueprint']['entities']:
        e['position']['x'] += dx
        e['position']['y'] += dy
    return data


def decode_text(text):
    if text[0] != '0':
        raise ValueError('blueprint text must start with 0')
    return json.loads(zlib.decompress(base64.b64decode(text[1:])))


def encode_text(data):
    return '0' + base64.b64encode(zlib.compress(json.dumps(data).encode())).decode()


# --- layouts -------------------------------------------------------------------------------------------------------------
def concrete(kinds, W, H, tier, label, move, reimport=True):
    """the whole trip on real tiles; None or what is wrong"""
    try:
        with time_limit(20):
            data = bp.make_blueprint(grid_of(kinds, W, H), label, bp.TransportBeltLevel[tier])
            text = bp.encode_blueprint(data)
            own = decode_text(text)
            if own != json.loads(json.dumps(data)):
                return 'the text form does not hold the blueprint'
            if bp.decode_blueprint(text) != own:
                return 'decoding the text form changes the blueprint'
            got, bad = entities_of(own, label)
            if bad:
                return bad
            want = sorted([e for e in (expected_entity(p, k, TIERS[tier]) for p, k in kinds.items()) if e], key=repr)
            if got != want:
                return f'entities {got}, expected {want}'
            if not reimport:
                return None
            back = bp.import_blueprint(shift(own, *move))
            return same_layout(kinds, back)
    except Exception as e:
        return f'fails: {e!r}'


def same_layout(kinds, back):
    want, w, h = trimmed(kinds)
    if w == 0:
        return None if back.size == 0 else 'an empty layout reads back as tiles'
    if back.shape != (h, w):
        return f'reads back with size {back.shape[::-1]}, expected {(w, h)}'
    for (x, y), k in want.items():
        r = st.of_tile(back[y, x])
        if r != k:
            return f'{st.to_json(k)} reads back as {st.to_json(r)}'
    return None


def straight_at_edges(box):
    """a belt fed from outside the window is straight (a blueprint holds no input side)"""
    lay = box.lay
    out = []
    for p in box.cells:
        for i in DIRS:
            if lay.nb(p, REV[i]) is None:
                for o in DIRS:
                    if o != i and REV[i] != o:
                        out.append(-lay.k[p][('B', i, o)])
    return out


def layout_task(t):
    _, W, H, opts, tier, label, move, first = t
    box = Box(W, H, first=first, **opts)
    if box.dead:
        return {'obligations': 0}
    eng = box.eng
    for l in straight_at_edges(box):
        eng.sat.add_clause([l])
    if not eng.scheck():
        return {'obligations': 0}
    box.alive = {p: [(l, k) for l, k in v if eng.scheck([l])] for p, v in box.alive.items()}
    level = bp.TransportBeltLevel[tier]
    names = TIERS[tier]

    def feasible(p):
        vals = st.current(eng, box.key(p), box.alive[p])
        if len(vals) == 1:
            return vals
        return [(l, k) for l, k in vals if eng.scheck([l])]

    def path(eng):
        """None, or a literal list under which something is wrong"""
        try:
            with patched(bp, 'type', type_shim()), time_limit(20):
                data = bp.make_blueprint(box.tiles(eng), label, level)
                text = bp.encode_blueprint(data)
                own = decode_text(text)
                got, bad = entities_of(own, label)
                if bad:
                    return []
                back = bp.import_blueprint(shift(bp.decode_blueprint(text), *move))
        except Limit:
            raise
        except Exception:
            return []
        found = {}
        for e in got:
            if e in found:
                return []
            found[e] = False
        poss = {p: feasible(p) for p in box.cells}
        for p, vals in poss.items():
            for l, k in vals:
                e = expected_entity(p, k, names)
                if e is not None:
                    if e not in found:
                        return [l]
                    found[e] = True
            if len({expected_entity(p, k, names) for _, k in vals}) > 1:
                return [next(l for l, k in vals if expected_entity(p, k, names) != expected_entity(p, vals[0][1], names))]
        if not all(found.values()):
            return []
        # import: which cells are used is decided on every path
        empt = {p: {k[0] == 'E' for _, k in v} for p, v in poss.items()}
        if any(len(v) > 1 for v in empt.values()):
            return []
        want, w, h = trimmed({p: ('E',) if True in empt[p] else ('X', p) for p in box.cells})
        if w == 0:
            return None if back.size == 0 else []
        if back.shape != (h, w):
            return []
        for q, k in want.items():
            r = st.of_tile(back[q[1], q[0]])
            if k == ('E',):
                if r != k:
                    return []
                continue
            for l, kk in poss[k[1]]:
                if kk != r:
                    return [l]
        return None
    n = 0
    suspect = False
    for bad in eng.explore(path):
        n += 1
        if bad is None:
            continue
        if not eng.scheck(bad):
            continue
        kinds = {p: next(k for l, k in box.alive[p] if eng.satmodel[l - 1] > 0) for p in box.cells}
        real = concrete(kinds, W, H, tier, label, move)
        if real:
            raise Violation(real, layout=show(kinds), tier=tier, label=label, moved=move)
        suspect = True
    if suspect:
        def eager(eng):
            kinds = box.force(eng)
            return kinds, concrete(kinds, W, H, tier, label, move)
        eng2 = Box(W, H, first=first, **opts)
        eng2.alive = box.alive
        for l in straight_at_edges(eng2):
            eng2.eng.sat.add_clause([l])
        for kinds, real in eng2.eng.explore(lambda e: (lambda k: (k, concrete(k, W, H, tier, label, move)))(eng2.force(e))):
            if real:
                raise Violation(real, layout=show(kinds), tier=tier, label=label, moved=move)
    return {'obligations': n, 'paths': n, 'witnesses': 1 if n else 0}


# --- commands ---------------------------------------------------------------------------------------------------------------
def cli_trip(text, tier, label, eng=None, objs=None):
    ctx = st.symbolic_json(eng, objs) if eng is not None else contextlib.nullcontext()
    args = ['encode'] + (['--label', label] if label is not None else []) + (['--level', tier.lower()] if tier else [])
    with ctx:
        out, exc = st.run_cli(bp, args, text + '\n' + text + '\n')
    if exc is not None:
        raise exc
    out2, exc = st.run_cli(bp, ['decode'], out)
    if exc is not None:
        raise exc
    return out.splitlines(), out2.splitlines()


def cli_judge(kinds, tier, label, enc, dec):
    if len(enc) != 2 or len(dec) != 2 or enc[0] != enc[1] or dec[0] != dec[1]:
        return f'{len(enc)} blueprints and {len(dec)} layouts for two equal inputs'
    got, bad = entities_of(decode_text(enc[0]), label)
    if bad:
        return bad
    want = sorted([e for e in (expected_entity(p, k, TIERS[tier or 'NORMAL']) for p, k in kinds.items()) if e], key=repr)
    if got != want:
        return f'entities {got}, expected {want}'
    cells = json.loads(dec[0])
    arr = np.empty((len(cells), len(cells[0]) if cells else 0), dtype=object)
    for y, row in enumerate(cells):
        for x, c in enumerate(row):
            arr[y, x] = bp.read_tile(c)
    return same_layout(kinds, arr)


def cli_task(t):
    _, W, H, opts, tier, label, move, first = t
    box = Box(W, H, first=first, **opts)
    if box.dead:
        return {'obligations': 0}
    eng = box.eng
    for l in straight_at_edges(box):
        eng.sat.add_clause([l])
    # the command refuses to decode a blueprint without entities: a layout has at least one tile
    eng.sat.add_clause([-box.lay.empty[p] for p in box.cells])
    if not eng.scheck():
        return {'obligations': 0}

    def conc(kinds):
        text = json.dumps([[{'tile': st.to_json(kinds[x, y])} for x in range(W)] for y in range(H)])
        try:
            with time_limit(20):
                bad = cli_judge(kinds, tier, label, *cli_trip(text, tier, label))
                if bad:
                    return bad
                for s in (text, encode_text(bp.make_blueprint(grid_of(kinds, W, H)))):
                    back = bp.convert_to_tiles(s)
                    if s is text and back.shape != (H, W):
                        return 'convert_to_tiles changes the size'
                    bad = same_layout(kinds, back if s is not text else trim_array(back))
                    if bad:
                        return 'convert_to_tiles: ' + bad
                return None
        except Exception as e:
            return f'fails: {e!r}'

    def path(eng):
        objs = box.json_cells(eng)
        text = json.dumps([[{'tile': st.MARK + box.key((x, y))} for x in range(W)] for y in range(H)])
        bad = None
        try:
            with time_limit(20):
                res = cli_trip(text, tier, label, eng, objs)
        except Limit:
            raise
        except Exception as e:
            bad = repr(e)
        kinds = box.force(eng)
        if bad is None:
            bad = cli_judge(kinds, tier, label, *res) or conc(kinds)
        return kinds, bad
    n = 0
    for kinds, bad in eng.explore(path):
        n += 1
        if bad:
            real = conc(kinds)
            if real:
                raise Violation(real, layout=show(kinds), tier=tier, label=label)
    return {'obligations': n, 'paths': n, 'witnesses': 1 if n else 0}


def trim_array(arr):
    used = [(x, y) for (y, x), t in np.ndenumerate(arr) if st.of_tile(t)[0] != 'E']
    if not used:
        return arr[:0, :0]
    x0, x1 = min(x for x, _ in used), max(x for x, _ in used)
    y0, y1 = min(y for _, y in used), max(y for _, y in used)
    return arr[y0:y1 + 1, x0:x1 + 1]


# --- single tiles without context (inserters included): entities only, inserters also read back ------------------------------
def single_task(t):
    _, W, H, free, tier = t
    kinds_all = st.KINDS + [('F',)] + [('I', d, i) for d in DIRS for i in (0, 1)]
    cells = [(x, y) for y in range(H) for x in range(W)]
    eng, dom = st.cells_engine(free, kinds_all)

    def trip(arr, kinds):
        data = bp.make_blueprint(arr, None, bp.TransportBeltLevel[tier])
        got, bad = entities_of(json.loads(json.dumps(data)), None)
        return data, got, bad

    def judge(kinds, got, bad, data):
        if bad:
            return bad
        want = sorted([e for e in (expected_entity(p, k, TIERS[tier]) for p, k in kinds.items()) if e], key=repr)
        if got != want:
            return f'entities {got}, expected {want}'
        if all(k[0] in ('I', 'E', 'F') for k in kinds.values()):
            back = bp.import_blueprint(json.loads(json.dumps(data)))
            return same_layout({p: k if k[0] == 'I' else ('E',) for p, k in kinds.items()}, back)
        return None

    def conc(kinds):
        try:
            with time_limit(20):
                data, got, bad = trip(grid_of(kinds, W, H), kinds)
                return judge(kinds, got, bad, data)
        except Exception as e:
            return f'fails: {e!r}'

    def path(eng):
        arr = np.empty((H, W), dtype=object)
        fds = {}
        for p in cells:
            if p in free:
                fds[p] = arr[p[1], p[0]] = FD(eng, 'c%d_%d' % p, [(l, TILE[k]) for l, k in dom[p]])
            else:
                arr[p[1], p[0]] = TILE[('E',)]
        res = None
        try:
            with patched(bp, 'type', type_shim()), time_limit(20):
                res = trip(arr, None)
        except Limit:
            raise
        except Exception as e:
            bad = f'fails: {e!r}'
        kinds = {p: ('E',) for p in cells}
        for p in free:
            fds[p]._force()
            kinds[p] = st.current(eng, 'c%d_%d' % p, dom[p])[0][1]
        if res is not None:
            bad = judge(kinds, res[1], res[2], res[0])
        return kinds, bad
    n = 0
    for kinds, bad in eng.explore(path):
        n += 1
        if bad:
            real = conc(kinds)
            if real:
                raise Violation(real, layout=str({p: st.to_json(k) for p, k in kinds.items()}), tier=tier)
    return {'obligations': n, 'paths': n}


# --- import of entities the tool did not write ----------------------------------------------------------------------------
NAMES = [n for v in TIERS.values() for n in v] + list(PLAIN) + [f'assembling-machine-{i}' for i in (1, 2, 3)] + ['wooden-chest']
BY_FACTORIO = {f: d for d, f in enumerate(FACTORIO)}


def import_judge(ents, get):
    """ents: [(name, position, direction, type)]; get: the imported tiles"""
    cells = {}
    for name, pos, d, typ in ents:
        new = cells_of(name, pos, d, typ)
        if set(new) & set(cells):
            return None  # overlapping entities: not a blueprint
        cells.update(new)
    return same_layout(shaped(cells), get())


def entity_dict(i, name, pos, f, typ):
    e = {'entity_number': i + 1, 'name': name, 'position': {'x': pos[0], 'y': pos[1]}}
    if f is not None:
        e['direction'] = f
    if typ is not None:
        e['type'] = typ
    return e


def import_conc(ents, label=None):
    data = {'blueprint': {'item': 'blueprint', 'entities': [
        entity_dict(i, n, p, FACTORIO[d] or None, t if 'underground' in n else None) for i, (n, p, d, t) in enumerate(ents)]}}
    try:
        with time_limit(20):
            return import_judge(ents, lambda: bp.import_blueprint(data))
    except Exception as e:
        return f'import fails: {e!r}'


def import_task(t):
    """t: list of slots (position, names, at): an entity of unknown name, direction and underground type; at = cell the entity
    must cover when it is a splitter (its other half goes wherever its direction puts it)"""
    _, slots, optional = t
    eng = Engine()

    def path(eng):
        ents, syms = [], []
        for i, (cell, names, side) in enumerate(slots):
            if optional[i] and eng.choose(2):
                continue
            name = FD(eng, f'n{i}', [(None, n) for n in names])
            half = eng.int(f'd{i}', 0, 3)
            typ = FD(eng, f't{i}', [(None, 'input'), (None, 'output')])
            syms.append((i, name, half, typ))
            x, y = cell[0] + 0.5, cell[1] + 0.5
            if any(n in (v[2] for v in TIERS.values()) for n in names):
                d = BY_FACTORIO[2 * int(half)]
                if any(name == v[2] for v in TIERS.values()):
                    dx, dy = VEC[CCW[d]]
                    g = 1 if side >= 0 else -1
                    # the half that is not at this cell lies away from the centre of the neighbourhood
                    if side > 0 and (cell[0] + dx * g, cell[1] + dy * g) == (0, 0):
                        g = -g
                    x, y = x + g * dx / 2, y + g * dy / 2
            e = {'entity_number': i + 1, 'name': name, 'position': {'x': x, 'y': y}, 'direction': half * 2, 'type': typ}
            ents.append(e)
        bad, back = None, None
        if not ents:
            return [], None
        try:
            with time_limit(20):
                back = bp.import_blueprint({'blueprint': {'item': 'blueprint', 'entities': list(ents)}})
        except Limit:
            raise
        except Exception as ex:
            bad = f'import fails: {ex!r}'
        conc = [(name._force(), (e['position']['x'], e['position']['y']), BY_FACTORIO[2 * int(half)], typ._force())
                for (i, name, half, typ), e in zip(syms, ents)]
        if bad is None:
            bad = import_judge(conc, lambda: back)
        return conc, bad
    n = 0
    for ents, bad in eng.explore(path):
        n += 1
        if bad:
            real = import_conc(ents)
            if real:
                raise Violation(real, entities=[(a, b, 'RULD'[d], e if 'underground' in a else '') for a, b, d, e in ents])
    return {'obligations': n, 'paths': n, 'witnesses': 1}


def import_tasks(th):
    out = []
    hub = ((0, 0), ['transport-belt'], -1)
    near = [(1, 0), (0, -1), (-1, 0), (0, 1)]
    some = ['transport-belt', 'fast-underground-belt', 'express-splitter', 'wooden-chest', 'inserter']
    for a, b in itertools.combinations(near, 2):
        out.append(('import', [hub, (a, some, 1), (b, some, 1)], [False, True, True]))
    for trip in itertools.combinations(near, 3):
        out.append(('import', [hub] + [(c, ['transport-belt'] if not th else ['transport-belt', 'splitter'], 1) for c in trip], [False, False, False, False]))
    for off in ((0, 0), (-9, 3)):
        for lead in ([], [((off[0] + 5, off[1] - 4), ['transport-belt'], -1)]):
            for k in range(0, len(NAMES), 5):
                out.append(('import', [(off, NAMES[k:k + 5], -1)] + lead, [False] * (1 + len(lead))))
    return out


# --- books ------------------------------------------------------------------------------------------------------------------
def book_task(t):
    """function level: contents are symbols the code cannot look into; command level: distinct texts"""
    eng = Engine()

    def path(eng):
        n = eng.choose(5)
        label = [None, 'L'][eng.choose(2)]
        items = []
        for i in range(n):
            item = {'blueprint': {'item': 'blueprint', 'label': eng.int(f'x{i}'), 'entities': [{'n': eng.int(f'y{i}')}]}}
            if eng.choose(2):
                item['index'] = eng.int(f'i{i}')
            items.append(item)
        keep = [dict(i) for i in items]
        with time_limit(20):
            packed = book.pack_book(items, label)
            out = book.unpack_book(packed)
        b = packed['blueprint_book']
        if b.get('label') != label or ('label' in b and label is None) or b.get('item') != 'blueprint-book':
            return n, 'book header is wrong'
        if len(out) != n:
            return n, f'{len(out)} blueprints unpacked of {n}'
        for i, (a, o) in enumerate(zip(keep, out)):
            if not (o['index'] == i):
                return n, f'index of blueprint {i} is wrong'
            if not z3.eq(o['blueprint']['label'].e, a['blueprint']['label'].e) or not z3.eq(o['blueprint']['entities'][0]['n'].e, a['blueprint']['entities'][0]['n'].e) \
                    or set(o) != {'blueprint', 'index'} or len(o['blueprint']) != 3:
                return n, f'blueprint {i} is changed'
        if any(set(a) != set(b_) or ('index' in a and b_['index'] is not a['index']) for a, b_ in zip(items, keep)):
            return n, 'packing changes the given blueprints'
        again = book.pack_book(items, label)['blueprint_book']
        if len(again['blueprints']) != n:
            return n, 'packing a second time gives another book'
        return n, None

    def conc(n, label, pre):
        try:
            with time_limit(20):
                texts = []
                for i in range(n):
                    d = {'blueprint': {'item': 'blueprint', 'label': f'b{i}', 'entities': [{'n': i * 7}]}}
                    if pre:
                        d['index'] = 9 - i
                    texts.append(encode_text(d))
                out, exc = st.run_cli(book, ['pack'] + (['--label', label] if label else []), ''.join(s + '\n' for s in texts))
                if exc is not None:
                    return f'pack fails: {exc!r}'
                data = decode_text(out.strip())['blueprint_book']
                if data.get('label') != label or ('label' in data and label is None) or [b['blueprint']['label'] for b in data['blueprints']] != [f'b{i}' for i in range(n)] \
                        or [b['index'] for b in data['blueprints']] != list(range(n)):
                    return f'packed book {data}'
                out, exc = st.run_cli(book, ['unpack'], out)
                if exc is not None:
                    return f'unpack fails: {exc!r}'
                back = [decode_text(s) for s in out.splitlines()]
                if [(b['blueprint']['label'], b['blueprint']['entities']) for b in back] != [(f'b{i}', [{'n': i * 7}]) for i in range(n)]:
                    return f'unpacked {back}'
                # function level
                items = [decode_text(s) for s in texts]
                keep = json.loads(json.dumps(items))
                res = book.unpack_book(book.pack_book(items, label))
                if items != keep:
                    return 'packing changes the given blueprints'
                if [(b['blueprint'], b['index']) for b in res] != [(b['blueprint'], i) for i, b in enumerate(keep)]:
                    return f'pack then unpack gives {res}'
        except Exception as e:
            return f'fails: {e!r}'
    n = 0
    for k, bad in _guard(eng, path):
        n += 1
    for k in range(5):
        for label in (None, 'L'):
            for pre in (False, True):
                n += 1
                real = conc(k, label, pre)
                if real:
                    raise Violation(real, input={'blueprints': k, 'label': label, 'index given': pre})
    if any(b for _, b in _guard(Engine(), path)):
        # seen only with symbols: replay says the real code is right
        pass
    return {'obligations': n, 'paths': eng.paths, 'witnesses': 1}


def _guard(eng, path):
    def safe(e):
        try:
            return path(e)
        except (Limit, Exception) as ex:
            return 0, repr(ex)
    return eng.explore(safe)


# --- versions and tiers -----------------------------------------------------------------------------------------------------
class SymBytes:
    def __init__(self, eng, value, size):
        self.eng, self.value, self.size = eng, value, size

    def __len__(self):
        return self.size


SIZES = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}


class StructShim:
    error = struct.error

    def __init__(self, eng):
        self.eng = eng

    def _fields(self, fmt):
        order = fmt[0] if fmt[0] in '<>=!@' else '@'
        body = fmt[1:] if fmt[0] in '<>=!@' else fmt
        out, n = [], ''
        for ch in body:
            if ch.isdigit():
                n += ch
                continue
            out += [SIZES[ch]] * int(n or 1)
            n = ''
        return order in '>!', out

    def pack(self, fmt, *vals):
        if all(type(v) is int for v in vals):
            return struct.pack(fmt, *vals)
        big, sizes = self._fields(fmt)
        if len(sizes) != len(vals):
            raise struct.error('pack expected other arguments')
        total, off = z3.IntVal(0), 0
        width = sum(sizes)
        for v, s in zip(vals, sizes):
            e = _e(v)
            if not self.eng.branch(z3.And(e >= 0, e < 256 ** s)):
                raise struct.error('out of range')
            total = total + e * 256 ** ((width - off - s) if big else off)
            off += s
        return SymBytes(self.eng, (total, big), width)

    def unpack(self, fmt, data):
        if not isinstance(data, SymBytes):
            return struct.unpack(fmt, data)
        big, sizes = self._fields(fmt)
        value, was = data.value
        if sum(sizes) != data.size or (big != was):
            raise Limit('byte order change')
        out, off = [], 0
        for s in sizes:
            sh = (data.size - off - s) if big else off
            out.append(mk(self.eng, (value / 256 ** sh) % 256 ** s))
            off += s
        return tuple(out)


def version_task(t):
    n = 0
    try:
        eng = Engine()

        def enc(eng):
            parts = [eng.int(f'v{i}', 0, 65535) for i in range(4)]
            with patched(bp, 'struct', StructShim(eng)), time_limit(60):
                back = bp.decode_factorio_version(bp.encode_factorio_version(*parts))
            if len(back) != 4:
                return z3.BoolVal(False)
            return z3.And([_e(a) == _e(b) for a, b in zip(parts, back)])

        def dec(eng):
            v = eng.int('v', 0, 2 ** 64 - 1)
            with patched(bp, 'struct', StructShim(eng)), time_limit(60):
                back = bp.encode_factorio_version(*bp.decode_factorio_version(v))
            return _e(v) == _e(back)
        for fn in (enc, dec):
            eng = Engine()
            for cond in eng.explore(fn):
                n += 1
                m = eng.prove(cond)
                if m is not None:
                    vals = eng.inputs(m)
                    bad = version_conc(vals)
                    if bad:
                        raise Violation(bad, input=vals)
                    raise Limit('counterexample does not replay')
    except Violation:
        raise
    except BaseException as e:
        if not isinstance(e, (Limit, Exception)):
            raise
        # the code does not go through struct any more, or fails on symbols: boundary values on the real code
        for parts in itertools.product((0, 1, 255, 256, 65535), repeat=4):
            n += 1
            bad = version_conc({f'v{i}': p for i, p in enumerate(parts)})
            if bad:
                raise Violation(bad, input=parts)
        for v in [0, 1, 2 ** 16, 2 ** 32 + 5, 2 ** 48, 2 ** 64 - 1, 281474976710656]:
            bad = version_conc({'v': v})
            if bad:
                raise Violation(bad, input=v)
    return {'obligations': n, 'paths': n}


def version_conc(vals):
    try:
        if 'v' in vals:
            if bp.encode_factorio_version(*bp.decode_factorio_version(vals['v'])) != vals['v']:
                return f'version {vals["v"]} does not survive decoding and encoding'
        else:
            parts = tuple(vals[f'v{i}'] for i in range(4))
            if tuple(bp.decode_factorio_version(bp.encode_factorio_version(*parts))) != parts:
                return f'version {parts} does not survive encoding and decoding'
    except Exception as e:
        return f'version {vals}: fails: {e!r}'
    return None


def ref_tier(n):
    return 'normal' if n <= 4 else 'fast' if n <= 6 else 'express'


def tier_task(t):
    eng = Engine()

    def path(eng):
        n = eng.int('n', 1)
        got = co.get_belt_level(n)
        return z3.If(n.e <= 4, got == 'normal', z3.If(n.e <= 6, got == 'fast', got == 'express'))
    cnt = 0
    for cond in eng.explore(path):
        cnt += 1
        m = eng.prove(cond)
        if m is not None:
            v = eng.inputs(m)['n']
            if co.get_belt_level(v) != ref_tier(v):
                raise Violation(f'underground length {v} exported as {co.get_belt_level(v)}', input=v)
            raise NoAnswer('counterexample does not replay')
    # the query command exports the recorded solution with that tier
    kinds = {(0, 0): ('B', 0, 0), (0, 1): ('B', 0, 0), (1, 0): ('S', 0, 0), (1, 1): ('S', 0, 1), (2, 0): ('B', 0, 0), (2, 1): ('B', 0, 0)}
    sol = [[{'tile': st.to_json(kinds[x, y]), 'colour': 0} for x in range(3)] for y in range(2)]
    for ul in range(1, 13):
        with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
            os.mkdir(os.path.join(tmp, 'networks'))
            open(os.path.join(tmp, 'networks', '2x2'), 'w').write('0 0 1 1\n')
            json.dump({'2x2': {'exist': {f'{ul},3,2': True}, 'solutions': {f'{ul},3,2': sol}}}, open(os.path.join(tmp, 'db.json'), 'w'))
            old = os.getcwd()
            os.chdir(tmp)
            try:
                out, exc = st.run_cli(co, ['--database', 'db.json', 'query', ul, 'length', '--export-blueprints', '--allow-imperfect'])
            finally:
                os.chdir(old)
        cnt += 1
        if exc is not None:
            raise Violation(f'query --export-blueprints fails: {exc!r}', input=ul)
        lines = out.splitlines()
        data = decode_text(lines[0]) if len(lines) == 1 else None
        got = sorted([(e['name'], e['position']['x'], e['position']['y'], e.get('direction', 0), e.get('type')) for e in data['blueprint']['entities']], key=repr) if data else lines
        want = sorted([e for e in (expected_entity(p, k, TIERS[ref_tier(ul).upper()]) for p, k in kinds.items()) if e], key=repr)
        if got != want:
            raise Violation(f'query --export-blueprints gives {got}', input=ul, expected=want)
    return {'obligations': cnt, 'paths': eng.paths}


DISPATCH = {'layout': layout_task, 'cli': cli_task, 'single': single_task, 'import': import_task, 'book': book_task, 'version': version_task, 'tier': tier_task}


def task(t):
    return DISPATCH[t[0]](t)


def tasks(tier):
    th = tier == 'thorough'
    out = [('book',), ('version',), ('tier',)]
    names = list(TIERS)
    wins = [(2, 2, {}), (3, 2, {}), (2, 3, {}), (4, 1, {}), (1, 4, {}), (4, 2, {}), (2, 4, {})]
    if th:
        wins += [(5, 1, {}), (1, 5, {}), (3, 3, dict(max_used=8)), (5, 2, dict(max_used=8)), (2, 5, dict(max_used=8)), (4, 3, dict(max_used=6)), (3, 4, dict(max_used=6))]
    else:
        wins += [(3, 3, dict(max_used=6)), (5, 2, dict(max_used=6)), (2, 5, dict(max_used=6))]
    for i, (W, H, o) in enumerate(wins):
        small = W * H <= 4
        for j, f in enumerate([{}] if small else [{(0, 0): k} for k in st.KINDS]):
            combos = [(n, lab, mv) for n in names for lab, mv in ((None, (0, 0)), ('label', (-7, 4)))] if small else \
                [(names[(i + j) % 3], [None, 'label'][j % 2], [(0, 0), (-7, 4)][j % 2])]
            for n, lab, mv in combos:
                out.append(('layout', W, H, o, n, lab, mv, f))
    for n, lab in ((None, None), ('FAST', 'some label'), ('EXPRESS', None), ('NORMAL', 'x')):
        out.append(('cli', 2, 2, {}, n, lab, (0, 0), {}))
    if th:
        for k in st.KINDS:
            out.append(('cli', 3, 2, {}, 'FAST', 'x', (0, 0), {(0, 0): k}))
    W, H = (3, 2) if th else (2, 2)
    cells = [(x, y) for y in range(H) for x in range(W)]
    for n in names:
        for p in cells:
            out.append(('single', W, H, [p], n))
        for a, b in itertools.combinations(cells, 2):
            if th or n == 'NORMAL':
                out.append(('single', W, H, [a, b], n))
    out.sort(key=lambda t: -(t[1] * t[2]) if len(t) > 3 else 0)
    out += import_tasks(th)
    return out


def run(ctx):
    ctx.encoded('blueprint.make_blueprint', 'blueprint.import_blueprint', 'blueprint.resolve_belt_input_directions', 'blueprint.encode_blueprint',
                'blueprint.decode_blueprint', 'blueprint.convert_to_tiles', 'blueprint.read_tile', 'blueprint.write_tile', 'blueprint.main', 'blueprint_book.pack_book',
                'blueprint_book.unpack_book', 'blueprint_book.main', 'encode_factorio_version', 'decode_factorio_version', 'calculate_optimal.get_belt_level',
                'calculate_optimal.main (query --export-blueprints)', 'Direction.factorio_direction', 'Direction.from_factorio')
    ctx.assume('layouts obey the reference rules of belt physics, no underground leaves the window, and a belt fed from outside the window is straight '
               '(a blueprint does not record where a belt is fed from)',
               'zlib, base64 and json are trusted; the text form is decoded by the reference with them',
               'in-game direction numbers are 0 up, 2 right, 4 down, 6 left; a splitter sits at the middle of its two tiles',
               'the struct module is modelled for unsigned little- or big-endian integers')
    ctx.map(task, tasks(ctx.tier))
    if ctx.witnesses == 0:
        raise NoAnswer('no layout')
