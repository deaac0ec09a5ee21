"""Tseitin builder, SAT back end and two-level (exists/forall) elimination used by every CNF check.

Literals are non-zero ints as in the code under test.  TRUE is a reserved variable.
"""
import os
from numbers import Integral
import subprocess
import tempfile
import time

from pysat.solvers import Solver

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'solver_s': 0.0, 'clauses_max': 0, 'vars_max': 0, 'cross': 0, 'cross_unknown': 0, 'expansions': 0}


def add_stats(other):
    for k, v in other.items():
        if k.endswith('_max'):
            STATS[k] = max(STATS[k], v)
        else:
            STATS[k] = STATS[k] + v


class Builder:
    """A growing CNF with hash-consed gates.  `first_free` is the first variable not used by the code under test."""

    def __init__(self, first_free=1):
        self.n = first_free - 1
        self.clauses = []
        self.cache = {}
        self.T = self.var()
        self.clauses.append([self.T])
        self.F = -self.T

    def var(self):
        self.n += 1
        return self.n

    def vars(self, count):
        return [self.var() for _ in range(count)]

    def and_(self, *lits):
        s = set()
        for l in _flat(lits):
            if l == self.F:
                return self.F
            if l == self.T:
                continue
            if -l in s:
                return self.F
            s.add(l)
        if not s:
            return self.T
        if len(s) == 1:
            return next(iter(s))
        key = tuple(sorted(s))
        g = self.cache.get(key)
        if g is None:
            g = self.var()
            self.cache[key] = g
            for l in key:
                self.clauses.append([-g, l])
            self.clauses.append([g] + [-l for l in key])
        return g

    def or_(self, *lits):
        return -self.and_([-l for l in _flat(lits)])

    def imp(self, a, b):
        return self.or_(-a, b)

    def xor(self, a, b):
        if a == self.T:
            return -b
        if a == self.F:
            return b
        if b == self.T:
            return -a
        if b == self.F:
            return a
        if a == b:
            return self.F
        if a == -b:
            return self.T
        sign = 1
        if a < 0:
            a, sign = -a, -sign
        if b < 0:
            b, sign = -b, -sign
        if a > b:
            a, b = b, a
        key = ('x', a, b)
        g = self.cache.get(key)
        if g is None:
            g = self.var()
            self.cache[key] = g
            self.clauses += [[-g, a, b], [-g, -a, -b], [g, -a, b], [g, a, -b]]
        return g * sign

    def iff(self, a, b):
        return -self.xor(a, b)

    def ite(self, c, a, b):
        return self.and_(self.or_(-c, a), self.or_(c, b))

    def assert_(self, *lits):
        for l in _flat(lits):
            self.clauses.append([l])

    def add(self, clause):
        self.clauses.append(list(clause))

    # --- numbers: little-endian lists of literals -------------------------------------------------
    def const(self, value, width):
        return [self.T if (value >> i) & 1 else self.F for i in range(width)]

    def eq_const(self, bits, value):
        if value < 0 or value >= (1 << len(bits)):
            return self.F
        return self.and_([b if (value >> i) & 1 else -b for i, b in enumerate(bits)])

    def eq(self, a, b):
        w = max(len(a), len(b))
        a = list(a) + [self.F] * (w - len(a))
        b = list(b) + [self.F] * (w - len(b))
        return self.and_([self.iff(x, y) for x, y in zip(a, b)])

    def full_add(self, a, b, c):
        s = self.xor(self.xor(a, b), c)
        carry = self.or_(self.and_(a, b), self.and_(c, self.or_(a, b)))
        return s, carry

    def sum(self, a, b, carry=None):
        """width max+1, exact"""
        w = max(len(a), len(b))
        a = list(a) + [self.F] * (w - len(a))
        b = list(b) + [self.F] * (w - len(b))
        c = self.F if carry is None else carry
        out = []
        for x, y in zip(a, b):
            s, c = self.full_add(x, y, c)
            out.append(s)
        return out + [c]

    def count(self, lits):
        """binary population count, exact"""
        lits = list(lits)
        nums = [[l] for l in lits]
        if not nums:
            return [self.F]
        while len(nums) > 1:
            nxt = [self.sum(nums[i], nums[i + 1]) for i in range(0, len(nums) - 1, 2)]
            if len(nums) % 2:
                nxt.append(nums[-1])
            nums = nxt
        return nums[0]

    def le_const(self, bits, value):
        if value < 0:
            return self.F
        if value >= (1 << len(bits)) - 1:
            return self.T
        # bits <= value  <=> not (bits > value)
        gt = self.F
        for i, b in enumerate(bits):  # little endian, build from low to high
            if (value >> i) & 1:
                gt = self.and_(b, gt)
            else:
                gt = self.or_(b, gt)
        return -gt

    def le(self, a, b):
        w = max(len(a), len(b))
        a = list(a) + [self.F] * (w - len(a))
        b = list(b) + [self.F] * (w - len(b))
        gt = self.F
        for x, y in zip(a, b):
            gt = self.ite(self.xor(x, y), x, gt)
        return -gt

    def lex_le(self, a, b):
        """a <= b lexicographically, first element most significant"""
        return self.le(list(reversed(a)), list(reversed(b)))

    def exactly_one(self, lits):
        return self.eq_const(self.count(lits), 1)

    def at_most_one(self, lits):
        return self.le_const(self.count(lits), 1)

    def counts(self, lits, k, kind):
        c = self.count(sorted(lits))  # one circuit per set of literals
        if kind == 'eq':
            return self.eq_const(c, k)
        if kind == 'le':
            return self.le_const(c, k)
        if kind == 'ge':
            return -self.le_const(c, k - 1)
        raise ValueError(kind)

    def cnf_holds(self, clauses):
        """literal equivalent to the conjunction of clauses over already existing variables"""
        return self.and_([self.or_(list(c)) for c in clauses])


def _flat(lits):
    for l in lits:
        if isinstance(l, Integral):
            yield l
        else:
            yield from _flat(l)


CROSS = os.environ.get('FSV_CROSS') == '1'


def solve(*clause_lists, assumptions=(), name='cadical153'):
    """Returns None (unsat) or a dict var->bool."""
    t = time.time()
    STATS['queries'] += 1
    nclauses = sum(len(c) for c in clause_lists)
    with Solver(name=name) as s:
        for cl in clause_lists:
            for c in cl:
                s.add_clause([int(x) for x in c])
        for a in assumptions:
            s.add_clause([int(a)])
        r = s.solve()
        STATS['clauses_max'] = max(STATS['clauses_max'], nclauses)
        if r:
            m = s.get_model()
            res = {abs(l): l > 0 for l in m}
            STATS['vars_max'] = max(STATS['vars_max'], len(m))
        else:
            res = None
    STATS['solver_s'] += time.time() - t
    STATS['sat' if res is not None else 'unsat'] += 1
    if CROSS:
        cross_check(clause_lists, assumptions, res is not None)
    return res


class Incremental:
    """one growing formula, many obligations; a proved obligation is kept as a lemma"""

    def __init__(self, *sources, name='g4'):
        self.s = Solver(name=name)
        self.sources = [[src, 0] for src in sources]

    def sync(self):
        for e in self.sources:
            src, k = e
            for c in src[k:]:
                self.s.add_clause([int(x) for x in c])
            e[1] = len(src)
            STATS['clauses_max'] = max(STATS['clauses_max'], len(src))

    def refute(self, lit, budget=None):
        """'proved' if lit holds in every model, a model falsifying it, or None if the budget ran out"""
        self.sync()
        t = time.time()
        STATS['queries'] += 1
        if budget is None:
            r = self.s.solve(assumptions=[-lit])
        else:
            self.s.conf_budget(budget)
            r = self.s.solve_limited(assumptions=[-lit])
        STATS['solver_s'] += time.time() - t
        if r is None:
            return None
        if r:
            STATS['sat'] += 1
            return {abs(l): l > 0 for l in self.s.get_model()}
        STATS['unsat'] += 1
        self.s.add_clause([lit])
        if CROSS:
            cross_check([src for src, _ in self.sources], [-lit], False)
        return 'proved'


def cross_check(clause_lists, assumptions, expected, limit=60):
    """Second opinion from an unrelated solver (z3's SAT engine) on the same formula."""
    with tempfile.NamedTemporaryFile('w', suffix='.cnf') as f:
        m = 1
        n = 0
        for cl in clause_lists:
            for c in cl:
                n += 1
                for x in c:
                    m = max(m, abs(x))
        n += len(assumptions)
        for a in assumptions:
            m = max(m, abs(a))
        f.write(f'p cnf {m} {n}\n')
        for cl in clause_lists:
            for c in cl:
                f.write(' '.join(map(str, c)) + ' 0\n')
        for a in assumptions:
            f.write(f'{a} 0\n')
        f.flush()
        try:
            out = subprocess.run(['z3', '-dimacs', f'-T:{limit}', f.name], capture_output=True, text=True).stdout
        except FileNotFoundError:
            return
    if 's UNSATISFIABLE' in out or out.startswith('unsat'):
        got = False
    elif 's SATISFIABLE' in out or out.startswith('sat'):
        got = True
    else:
        STATS['cross_unknown'] = STATS.get('cross_unknown', 0) + 1
        return
    STATS['cross'] += 1
    if got != expected:
        raise SolverDisagreement(f'cadical says {expected}, z3 says {got}')


class SolverDisagreement(RuntimeError):
    pass


def max_var(clauses, start=0):
    m = start
    for c in clauses:
        for l in c:
            if l < 0:
                l = -l
            if l > m:
                m = l
    return m


def forced_definitions(b, clauses, known, order, into):
    """Skolem terms read off the clauses themselves.

    For each variable v of `order` (in turn) define v := "some clause containing +v, all of whose other variables are
    already defined, has all its other literals false".  If clauses over defined variables pin v, this is its value; if
    nothing pins it, false.  Exact whenever each v is functionally determined by earlier ones or occurs only together with
    earlier ones; otherwise a spurious SAT answer can follow, which callers resolve by replay and expansion.
    `known` maps code variable -> builder literal and is extended in place; `into` receives v -> literal.
    """
    occ = {}
    for c in clauses:
        for l in c:
            occ.setdefault(l, []).append(c)
    def lit(l):
        return known[l] if l > 0 else -known[-l]
    for v in order:
        if v in known:
            continue
        terms = []
        for c in occ.get(v, ()):
            if all(l == v or abs(l) in known for l in c) and -v not in c:
                terms.append(b.and_([-lit(l) for l in c if l != v]))
        if not terms:
            # a selector: nothing pins it true; true exactly when everything it is known to imply holds
            neg = [b.and_([-lit(l) for l in c if l != -v]) for c in occ.get(-v, ()) if all(l == -v or abs(l) in known for l in c)]
            g = -b.or_(neg) if neg else b.F
        else:
            g = b.or_(terms)
        known[v] = g
        into[v] = g


def smart_definitions(b, spec, clauses, known, todo, into):
    """As forced_definitions, but the order is found: a variable is taken when clauses over already defined variables pin it for
    every assignment satisfying `spec` (decided by a query), else when all clauses forcing it one way are known (then the least
    or greatest value is as good as any other for the remaining clauses of that polarity), else the first one."""
    occ = {}
    cls = []
    for c in clauses:
        t = tuple(sorted(set(c)))
        if any(-l in t for l in t if l > 0):
            continue
        i = len(cls)
        cls.append(t)
        for l in t:
            occ.setdefault(l, []).append(i)
    missing = [sum(abs(l) not in known for l in c) for c in cls]
    todo = [v for v in todo if v not in known]

    def lit(l):
        return known[l] if l > 0 else -known[-l]

    def forcing(l):
        return b.or_([b.and_([-lit(k) for k in cls[i] if k != l]) for i in occ.get(l, ()) if missing[i] == 1])
    seen = {}
    while todo:
        pick = None
        for v in todo:
            np, nn = (sum(missing[i] == 1 for i in occ.get(s, ())) for s in (v, -v))
            if not np or not nn or seen.get(v) == (np, nn):
                continue
            seen[v] = np, nn
            p, n = forcing(v), forcing(-v)
            if solve(b.clauses, assumptions=list(spec) + [-p, -n]) is None:
                pick = v, p
                break
        if pick is None:
            for v in todo:
                if all(missing[i] == 1 for i in occ.get(v, ())):
                    pick = v, forcing(v)
                    break
                if all(missing[i] == 1 for i in occ.get(-v, ())):
                    pick = v, -forcing(-v)
                    break
        if pick is None:
            pick = todo[0], forcing(todo[0])
        v, g = pick
        known[v] = into[v] = g
        todo.remove(v)
        for s in (v, -v):
            for i in occ.get(s, ()):
                missing[i] -= 1


def falsified(b, clauses, known):
    """literal: some clause is false under the assignment `known` (code var -> builder literal)"""
    terms = []
    seen = set()
    for c in clauses:
        t = tuple(sorted(set(c)))
        if t in seen:
            continue
        seen.add(t)
        terms.append(b.and_([-(known[l]) if l > 0 else known[-l] for l in t]))
    return b.or_(terms)


class Inconclusive(RuntimeError):
    pass


def exists_forall(b, spec, clauses, known, fixed, order, max_expansions=400, smart=False):
    """Decide: for every assignment satisfying the builder's formula and `spec` (list of literals), there are values for the
    remaining code variables satisfying `clauses`.

    known: code var -> builder literal for every variable whose value the assignment determines (`fixed` = those that are
    really forced, i.e. not a Skolem choice).  order: remaining variables, eliminated in this order.
    Returns None if it holds, otherwise (builder model, assignment of the fixed code variables) of a genuine counterexample.
    """
    known = dict(known)
    skolem = {v: l for v, l in known.items() if v not in fixed}
    if smart:
        smart_definitions(b, spec, clauses, known, order, skolem)
    else:
        forced_definitions(b, clauses, known, order, skolem)
    missing = {abs(l) for c in clauses for l in c} - set(known)
    for v in missing:
        known[v] = skolem[v] = b.F
    b.assert_(spec)
    b.assert_(falsified(b, clauses, known))
    for _ in range(max_expansions):
        m = solve(b.clauses)
        if m is None:
            return None

        def val(l):
            return m[l] if l > 0 else not m[-l]
        assign = {v: val(known[v]) for v in known if v not in skolem}
        real = solve(clauses, assumptions=[v if x else -v for v, x in assign.items()])
        if real is None:
            return m, assign
        STATS['expansions'] = STATS.get('expansions', 0) + 1
        k2 = {v: (known[v] if v not in skolem else (b.T if real.get(v, False) else b.F)) for v in known}
        b.assert_(falsified(b, clauses, k2))
    raise Inconclusive('expansion limit reached')
