"""Soundness and completeness of a captured grid against reference rules over layouts."""
from .core import Violation, NoAnswer
from .cnf import Builder, solve, exists_forall, max_var, STATS
from .core import plain
from .layout import (kind_of, Decoded, Layout, DIRS, REV, INF, KINDS, show, wrap_of, DecodeError)


def top_var(grid):
    m = max_var(grid.clauses)
    for row in grid.tiles:
        for inst in row:
            from factorio_sat.template import flatten
            m = max(m, max(abs(v) for v in flatten(inst)))
    return m


def define_cards(b, defs, lit=lambda l: l):
    """give stubbed cardinality literals their meaning; returns {var: literal}"""
    return {v: b.counts([lit(l) for l in lits], k, kind) for lits, k, kind, v in defs}


class Case:
    """A way to build a grid with the real code.  `make()` must be deterministic; it is run once with pysat's cardinality
    encoders replaced by counting predicates (the encodings have their own check) and again, untouched, for replays."""

    def __init__(self, make, **info):
        from .tools import CardStub, ToolError
        self.make, self.info = make, info
        stub = CardStub()
        try:
            with stub.patch():
                self.grid = make()
        except (Violation, NoAnswer, ToolError, MemoryError):
            raise
        except Exception:
            try:
                make()  # untouched
            except (Violation, NoAnswer, ToolError, MemoryError):
                raise
            except Exception as e:
                raise Violation(f'building the constraints fails: {e!r}'[:300], **info)
            raise
        self.cards = stub.defs
        self._real = None

    def real(self):
        if self._real is None:
            self._real = self.make()
        return self._real

    def template_map(self):
        """template variables of the stubbed grid -> those of the real one"""
        from factorio_sat.template import flatten
        a = [v for row in self.grid.tiles for i in row for v in flatten(i)]
        b = [v for row in self.real().tiles for i in row for v in flatten(i)]
        if len(a) != len(b):
            raise NoAnswer('template of the replay grid differs')
        return dict(zip(a, b))

    def extend(self, assign):
        """assign: {template var: bool} -> model of the untouched clauses, or None"""
        tm = self.template_map()
        real = self.real()
        return real, solve(real.clauses, assumptions=[(tm[v] if x else -tm[v]) for v, x in assign.items() if v in tm])


class Sound:
    """clauses of a grid + symbolic decoding; assert rules about every model."""

    def __init__(self, case):
        self.case = case
        self.grid, cards = case.grid, case.cards
        grid = self.grid
        top = top_var(grid)
        for *_, v in cards:
            top = max(top, v)
        self.b = Builder(top + 1)
        self.dec = Decoded(grid)
        self.decode_errors()
        self.lay = Layout.from_decoded(self.b, self.dec)
        for p in self.dec.cells:
            for d in DIRS:
                ins = [c for c in self.dec.paths[p] if c[1][0] == 'S' and c[1][1] == d and c[2] == d]
                outs = [c for c in self.dec.paths[p] if c[1][0] == 'S' and c[1][1] == d and c[3] == d]
                self.lay.xin[p, d] = self.b.or_([self.cube(c[0]) for c in ins])
                self.lay.xout[p, d] = self.b.or_([self.cube(c[0]) for c in outs])
        for lits, k, kind, v in cards:
            self.b.assert_(self.b.iff(v, self.b.counts(lits, k, kind)))
        self.assertions = 0

    def cube(self, cube):
        return self.b.and_([v if x else -v for v, x in cube.items()])

    def decode_errors(self):
        for e in self.dec.errors:
            m = solve(self.grid.clauses, assumptions=[v if x else -v for v, x in e.cube.items()])
            if m is not None:
                raise Violation('a solution the solver may return cannot be decoded', pos=e.pos, error=repr(e.exc),
                                model=[v if x else -v for v, x in m.items()])

    def reported_dirs(self, p):
        """(in, out): direction -> literal of the cell's reported input/output direction"""
        ins = {d: [] for d in DIRS}
        outs = {d: [] for d in DIRS}
        for cube, kind, i, o in self.dec.paths[p]:
            c = self.cube(cube)
            if i is not None:
                ins[int(i)].append(c)
            if o is not None:
                outs[int(o)].append(c)
        return {d: self.b.or_(ins[d]) for d in DIRS}, {d: self.b.or_(outs[d]) for d in DIRS}

    def rules_reported(self):
        b, lay = self.b, self.lay
        out = []
        for p in self.dec.cells:
            ins, outs = self.reported_dirs(p)
            for d in DIRS:
                out.append((f'reported input direction {d} of {p} is the physical one', b.iff(ins[d], lay.conn_in(p, d))))
                out.append((f'reported output direction {d} of {p} is the physical one', b.iff(outs[d], lay.conn_out(p, d))))
        return out

    def check(self, rules, what, extra=()):
        """every model satisfies all rules; raises Violation with a replayed concrete solution otherwise"""
        self.assertions += len(rules)
        bad = self.b.or_([-lit for _, lit in rules])
        m = solve(self.grid.clauses, self.b.clauses, [[bad]], [[x] for x in extra])
        if m is None:
            return
        broken = [name for name, lit in rules if not (m[lit] if lit > 0 else not m[-lit])]
        self.confirm(m, f'{what}: {broken[0]}', broken[:10])

    def inc(self):
        from .cnf import Incremental
        if getattr(self, '_inc', None) is None:
            self._inc = Incremental(self.grid.clauses, self.b.clauses)
        return self._inc

    def same(self, a, c, budget=2000):
        """c if the solver shows quickly that a and c agree in every model, otherwise a"""
        return c if self.inc().refute(self.b.iff(a, c), budget) == 'proved' else a

    def check_each(self, rules, what):
        """as check, one query per rule, earlier rules serving as lemmas"""
        self.assertions += len(rules)
        for name, lit in rules:
            m = self.inc().refute(lit)
            if m != 'proved':
                for v in range(1, self.b.n + 1):
                    m.setdefault(v, False)
                self.confirm(m, f'{what}: {name}', [name])

    def confirm(self, m, what, broken=()):
        """the model extends to one of the untouched clauses, and the real decoder reads this layout from it"""
        tm = self.case.template_map()
        real, full = self.case.extend({v: m[v] for v in tm if v in m})
        if full is None:
            raise NoAnswer(f'counterexample does not replay: {what}')
        kinds = self.lay.kinds(m)
        sol = real.parse_solution([v if x else -v for v, x in full.items()])
        got = {(x, y): kind_of(sol[y, x]['tile']) for y in range(real.height) for x in range(real.width)}
        if got != kinds:
            raise NoAnswer(f'counterexample decodes differently: {what}')
        raise Violation(what, broken=list(broken), layout=show(kinds), solution=plain(sol.tolist()), **self.case.info)

    def witness(self, extra=()):
        return solve(self.grid.clauses, self.b.clauses, [[x] for x in extra])


def encode_from_layout(b, dec, lay):
    """code tile variables as functions of a layout: returns {var: literal}"""
    known = {}
    for p in dec.cells:
        sel_true = {v: [] for v in dec.tvars[p]}
        seen = set()
        from pysat.solvers import Solver
        with Solver(name='m22', bootstrap_with=dec.local[p]) as s:
            for cube, kind, i, o in dec.paths[p]:
                key = (kind, i, o)
                if key in seen:
                    continue
                seen.add(key)
                lit = lay.k[p][kind]
                if kind[0] == 'S':
                    d = kind[1]
                    ci, co = lay.conn_in(p, d), lay.conn_out(p, d)
                    lit = b.and_(lit, ci if i == d else -ci, co if o == d else -co)
                base = [v if x else -v for v, x in cube.items()]
                s.solve(assumptions=base)
                model = {abs(l): l > 0 for l in s.get_model() or []}
                for v in dec.tvars[p]:
                    val = cube.get(v, model.get(v, False))
                    if val:
                        sel_true[v].append(lit)
        for v, lits in sel_true.items():
            known[v] = b.or_(lits)
    return known


def free_ports(b, lay):
    """off-grid connections of splitter halves are part of the layout"""
    for p in lay.cells:
        for d in DIRS:
            if lay.nb(p, d) is None:
                lay.xout[p, d] = b.var()
            if lay.nb(p, REV[d]) is None:
                lay.xin[p, d] = b.var()


class Complete:
    """Every layout satisfying reference rules is accepted by the clauses."""

    def __init__(self, case, kinds=KINDS):
        self.case = case
        self.grid, self.cards = case.grid, case.cards
        grid = self.grid
        self.b = Builder(1)
        self.dec = Decoded(grid)
        self.lay = Layout.free(self.b, grid.width, grid.height, wrap_of(grid), kinds)
        free_ports(self.b, self.lay)
        self.known = encode_from_layout(self.b, self.dec, self.lay)
        self.fixed = set(self.known)

    def skolem(self, var, lit):
        if var not in self.known:
            self.known[var] = lit

    def fix(self, var, lit):
        """the layout itself carries this variable (e.g. a colour bit)"""
        self.known[var] = lit
        self.fixed.add(var)

    def underground_skolem(self, name='underground'):
        for p in self.dec.cells:
            inst = self.dec.inst[p]
            u = getattr(inst, name, None)
            if u is None:
                continue
            for d in DIRS:
                self.skolem(u[d], self.lay.covered(p, d))

    def witnesses(self, rules):
        """reachability: layouts with belts, splitters and undergrounds obey the rules"""
        n = 0
        for want in ('B', 'S', 'UI'):
            lits = [l for p in self.dec.cells for k, l in self.lay.k[p].items() if k[0] == want]
            if solve(self.b.clauses, [[lit] for _, lit in rules], [[self.b.or_(lits)]], self.b.clauses) is not None:
                n += 1
        return n

    def check(self, rules, what, order=None):
        b = self.b
        # auxiliary variables first (they feed the stubbed cardinality literals)
        defined = set(v for *_, v in self.cards)
        if order is None:
            allv = {abs(l) for c in self.grid.clauses for l in c}
            order = sorted(v for v in allv if v not in self.known and v not in defined)
        from .cnf import forced_definitions
        sk = {}
        clauses = self.grid.clauses
        forced_definitions(b, [c for c in clauses if not any(abs(l) in defined for l in c)], self.known, order, sk)
        for lits, k, kind, v in self.cards:
            for l in lits:
                self.known.setdefault(abs(l), b.F)
            self.known[v] = b.counts([self.known[l] if l > 0 else -self.known[-l] for l in lits], k, kind)
        # the real clauses, for replaying candidates: cardinalities expanded
        self.real_extra = None
        res = exists_forall_cards(b, [lit for _, lit in rules], clauses, self.known, self.fixed, self.cards)
        if res is None:
            return
        m, assign = res
        real, full = self.case.extend(assign)
        if full is not None:
            raise NoAnswer(f'{what}: rejected layout is accepted by the untouched clauses')
        tm = self.case.template_map()
        extra = [[tm[v] if x else -tm[v]] for v, x in assign.items() if v in tm]
        keep = list(real.clauses)
        try:
            real.clauses += extra
            if real.solve('g3') is not None:
                raise NoAnswer(f'{what}: rejected layout is accepted by the real tool')
        finally:
            real.clauses[:] = keep
        raise Violation(f'{what}: a layout obeying every rule is rejected', layout=show(self.lay.kinds(m)), **self.case.info)


def exists_forall_cards(b, spec, clauses, known, fixed, cards):
    if not cards:
        return exists_forall(b, spec, clauses, known, fixed, [])
    # replay solver needs the meaning of the stubbed literals
    import copy
    real = list(clauses)
    rb = Builder(max(max_var(clauses), max(v for *_, v in cards), max((abs(l) for ls, *_ in cards for l in ls), default=0)) + 1)
    for lits, k, kind, v in cards:
        rb.assert_(rb.iff(v, rb.counts(lits, k, kind)))
    real_meaning = rb.clauses
    from . import cnf
    known = dict(known)
    skolem = {v: l for v, l in known.items() if v not in fixed}
    missing = {abs(l) for c in clauses for l in c} - set(known)
    for v in missing:
        known[v] = skolem[v] = b.F
    b.assert_(spec)
    b.assert_(cnf.falsified(b, clauses, known))
    cardvars = {v for *_, v in cards}
    for _ in range(300):
        m = solve(b.clauses)
        if m is None:
            return None

        def val(l):
            return m[l] if l > 0 else not m[-l]
        assign = {v: val(known[v]) for v in known if v not in skolem}
        r = solve(real, real_meaning, assumptions=[v if x else -v for v, x in assign.items()])
        if r is None:
            return m, assign
        STATS['expansions'] = STATS.get('expansions', 0) + 1
        k2 = {v: (known[v] if v not in skolem or v in cardvars else (b.T if r.get(v, False) else b.F)) for v in known}
        for lits, k, kind, v in cards:
            k2[v] = b.counts([k2[l] if l > 0 else -k2[-l] for l in lits], k, kind)
        b.assert_(cnf.falsified(b, clauses, k2))
    raise cnf.Inconclusive('expansion limit reached')


class Refine:
    """Two grids built by the real code over the same cells: every solution of A with a given property keeps its layout in B.

    A's clauses are asserted, B's are to be satisfied; tile variables (and any extra fields named) are shared, every other
    variable of B is existential, with A's value for same-named template variables as first Skolem choice."""

    def __init__(self, case_a, case_b, keep=()):
        from factorio_sat.template import flatten
        from .layout import TILE_FIELDS, field_vars
        self.a = Sound(case_a)
        self.cb = case_b
        ga, gb = case_a.grid, case_b.grid
        if (ga.width, ga.height) != (gb.width, gb.height):
            raise NoAnswer('grids differ in size')
        self.b = self.a.b
        self.known, self.fixed = {}, set()
        for y in range(ga.height):
            for x in range(ga.width):
                ia, ib = ga.get_tile_instance(x, y), gb.get_tile_instance(x, y)
                for va, vb in zip(flatten(ia), flatten(ib)):
                    self.known[vb] = va
                names = tuple(TILE_FIELDS) + tuple(keep)
                self.fixed.update(field_vars(ib, names))

    def check(self, spec, what):
        """spec: literals over A's decoding"""
        b = self.b
        gb, cards = self.cb.grid, self.cb.cards
        b.clauses += [list(c) for c in self.a.grid.clauses]
        b.cache.clear()
        known = dict(self.known)
        defined = {v for *_, v in cards}
        allv = {abs(l) for c in gb.clauses for l in c} | {abs(l) for ls, *_ in cards for l in ls}
        order = sorted(v for v in allv if v not in known and v not in defined)
        from .cnf import forced_definitions
        forced_definitions(b, [c for c in gb.clauses if not any(abs(l) in defined for l in c)], known, order, {})
        for lits, k, kind, v in cards:
            known[v] = b.counts([known[l] if l > 0 else -known[-l] for l in lits], k, kind)
        res = exists_forall_cards(b, list(spec), gb.clauses, known, self.fixed, cards)
        if res is None:
            return
        m, assign = res
        kinds = self.a.lay.kinds(m)
        # replay on untouched code: the layout is a solution of A and not of B
        tma = self.a.case.template_map()
        real_a, full = self.a.case.extend({v: m[v] for v in tma if v in m})
        if full is None:
            raise NoAnswer(f'{what}: counterexample is not a solution without the rule')
        real_b, full_b = self.cb.extend(assign)
        if full_b is not None:
            raise NoAnswer(f'{what}: counterexample is accepted by the untouched clauses')
        raise Violation(f'{what}: a layout that must be kept is rejected', layout=show(kinds), **self.cb.info)
