"""Exactness of clause builders: the clauses a real function returns have, projected to its operands, exactly the solutions of
a reference predicate."""
import traceback

from .cnf import Builder, solve, exists_forall, max_var
from .core import Violation, NoAnswer

SIGNS = {'pos': lambda i: 1, 'neg': lambda i: -1, 'alt': lambda i: 1 if i % 2 else -1}


class Ops:
    """fresh operand variables (with a sign pattern) and an allocator for auxiliaries"""

    def __init__(self, sign='pos'):
        self.n = 0
        self.sign = SIGNS[sign]
        self.vars = []
        self.closed = False
        self.aux = []

    def num(self, width):
        out = []
        for _ in range(width):
            self.n += 1
            self.vars.append(self.n)
            out.append(self.n * self.sign(self.n))
        return out

    def lit(self):
        return self.num(1)[0]

    def alloc(self):
        self.n += 1
        self.aux.append(self.n)
        return self.n


def call(fn, what, *args, **kw):
    """run the code under test; raising inside its documented domain is a violation"""
    try:
        return fn(*args, **kw)
    except Exception as e:
        raise Violation(f'{what}: raised {e!r}', input=repr((args, kw))[:500], trace=traceback.format_exc()[-1500:])


def exact(clauses, ops, spec, what, pool_top=None, given=()):
    """clauses: list of clauses over ops.vars and auxiliaries. spec(b) -> literal over the same variable numbers.  Unit clauses
    `given` narrow the assignments that must extend to a solution (not those that must be rejected)"""
    for c in clauses:
        for l in c:
            if not isinstance(l, int) or l == 0:
                raise Violation(f'{what}: emitted {l!r} as a literal', got=repr(c))
    top = max(ops.n, max_var(clauses), pool_top or 0)
    # 1. every solution satisfies the predicate
    b = Builder(top + 1)
    s = spec(b)
    m = solve(clauses, b.clauses, [[-s]])
    if m is not None:
        vals = {v: m.get(v, False) for v in ops.vars}
        confirm_model(clauses, m, what)
        raise Violation(f'{what}: accepts a wrong assignment', input=vals, got=True, expected=False)
    # 2. every operand assignment satisfying the predicate extends to a solution
    b = Builder(top + 1)
    s = spec(b)
    known = {v: v for v in ops.vars}
    order = sorted({abs(l) for c in clauses for l in c} - set(known))
    if given:
        units = [c[0] for c in given]
        known.update({abs(l): b.T if l > 0 else b.F for l in units})
        for l in units:
            b.assert_([l])
    r = exists_forall(b, [s], clauses, known, set(known), order, smart=True)
    if r is not None:
        m, assign = r
        if solve(clauses, assumptions=[v if x else -v for v, x in assign.items()]) is not None:
            raise NoAnswer(f'{what}: counterexample does not replay')
        raise Violation(f'{what}: rejects a right assignment', input=assign, got=False, expected=True)
    # 3. vacuity: the predicate is neither empty nor (unless it says so) full
    b = Builder(top + 1)
    s = spec(b)
    return int(solve(b.clauses, [[s]]) is not None)


def confirm_model(clauses, m, what):
    for c in clauses:
        if not any(m.get(abs(l), False) == (l > 0) for l in c):
            raise NoAnswer(f'{what}: model does not satisfy the real clauses')
