"""The clauses of every cardinality constraint (own encodings and the real pysat ones reached through the library_* wrappers) are
compared with the counting predicate, in both directions, for all values of the literals; several constraints drawn from one
pool are compared together with the conjunction of their predicates."""
import inspect
from .. import env
env.quiet_imports()
from pysat.formula import IDPool
from factorio_sat import cardinality as C
from ..gadget import Ops, exact, call
from ..core import Violation

BOUNDS = {
    'quick': 'own encodings: 1..20, 24, 31..33 and 40 literals (cut-offs 3..7); pysat encodings: 1..11 literals with every bound, 12..24, 32, 33 and 48 literals with 14 bounds each (right assignments: those that differ from a fixed one in at most 8 places); combinations of 3 constraints over overlapping lists of up to 6 literals; three sign patterns',
    'thorough': 'own encodings: 1..33, 40, 64 and 65 literals (cut-offs 3..9); pysat encodings: 1..11 literals with every bound, 12..33 with every bound and 40..100 with 14 (right assignments: those that differ from one of two fixed ones in at most 8 places); combinations of 3 constraints over overlapping lists of up to 9 literals; three sign patterns',
}


class PoolOps(Ops):
    """operands and auxiliaries come from one pysat pool, as in the grid"""

    def __init__(self, sign='pos'):
        super().__init__(sign)
        self.pool = IDPool()

    def num(self, width):
        out = []
        for _ in range(width):
            v = self.pool._next()
            self.vars.append(v)
            out.append(v * self.sign(v))
        self.n = self.pool.top
        return out

    def alloc(self):
        return self.pool._next()


OWN = {'quadratic_amo': 'le', 'logarithmic_amo': 'le', 'heule_amo': 'le', 'quadratic_one': 'eq', 'logarithmic_one': 'eq', 'heule_one': 'eq'}
LIB = {'library_equals': 'eq', 'library_atmost': 'le', 'library_atleast': 'ge'}


def own(name, x, alloc, cut=None):
    fn = getattr(C, name)
    what = f'{name} of {len(x)} literals'
    if cut is not None:
        return call(fn, what, list(x), alloc, cut)
    if name.startswith('quadratic'):
        return call(fn, what, list(x))
    return call(fn, what, list(x), alloc)


def t_own(a):
    name, n, sign, cut = a
    o = PoolOps(sign)
    x = o.num(n)
    cl = own(name, x, o.alloc, cut)
    w = exact(cl, o, lambda b: b.counts(x, 1, OWN[name]), f'{name} of {n} literals' + (f' cut-off {cut}' if cut else ''), pool_top=o.pool.top)
    return {'obligations': 1, 'witnesses': w, 'config': f'{name} {n} {sign} {cut}'}


def lib(name, x, k, pool):
    """None if the wrapper refuses (allowed only where the predicate is constant)"""
    n = len(x)
    constant = {'eq': k < 0 or k > n or n == 0, 'le': k < 0 or k >= n, 'ge': k <= 0 or k > n}[LIB[name]]
    try:
        return getattr(C, name)(list(x), k, pool)
    except (RuntimeError, ValueError) as e:
        if constant:
            return None
        raise Violation(f'{name} of {n} literals, bound {k}: refused with {e!r}', input=[n, k])


def t_lib(a):
    name, n, k, sign = a
    o = PoolOps(sign)
    x = o.num(n)
    cl = lib(name, x, k, o.pool)
    if cl is None:
        return {'config': f'{name} {n} {k} refused'}
    w = exact(cl, o, lambda b: b.counts(x, k, LIB[name]), f'{name} of {n} literals, bound {k}', pool_top=o.pool.top)
    return {'obligations': 1, 'witnesses': w, 'config': f'{name} {n} {k} {sign}'}


def t_big(a):
    """lists too long for t_lib: no wrong assignment is accepted, and every right one among those that differ from a fixed
    one in eight places is"""
    name, n, k, sign, pattern = a
    o = PoolOps(sign)
    x = o.num(n)
    cl = lib(name, x, k, o.pool)
    if cl is None:
        return {'config': f'{name} {n} {k} refused'}
    what = f'{name} of {n} literals, bound {k}'
    free = {round(i * (n - 1) / 7) for i in range(8)} if pattern else set(range(n - 8, n))
    rest = [i for i in range(n) if i not in free]
    true = max(0, min(k - 4, len(rest)))
    if pattern:
        rest = rest[::2] + rest[1::2]
    units = [[x[i] if j < true else -x[i]] for j, i in enumerate(rest)]
    w = exact(cl, o, lambda b: b.counts(x, k, LIB[name]), what, pool_top=o.pool.top, given=units)
    return {'obligations': 1, 'witnesses': w, 'config': f'{name} {n} {k} {sign} {pattern}'}


def t_mixed(a):
    """three constraints, one pool, overlapping literal lists, operands created before and between them"""
    n, k, sign, order = a
    o = PoolOps(sign)
    x = o.num(n)
    cl = []
    specs = []
    y = None
    for step, which in enumerate(order):
        z = x if step == 0 else ([-l for l in x[1:]] + y if step == 1 else x[:1] + y)
        kk = min(k, len(z))
        if which in OWN:
            cl += own(which, z, o.alloc)
            specs.append((list(z), 1, OWN[which]))
        else:
            c = lib(which, z, kk, o.pool)
            if c is not None:
                cl += c
                specs.append((list(z), kk, LIB[which]))
        if y is None:
            y = o.num(2)
    w = exact(cl, o, lambda b: b.and_([b.counts(*s) for s in specs]), f'{order} sharing one pool', pool_top=o.pool.top)
    return {'obligations': 1, 'witnesses': w, 'config': f'mixed {a}'}


def dispatch(t):
    return globals()[t[0]](t[1])


def run(ctx):
    th = ctx.thorough
    ctx.encoded(*['cardinality.' + n for n in list(OWN) + list(LIB)], 'pysat.card.CardEnc (kmtotalizer)')
    ctx.assume('a bound that no assignment can break (or meet) may be refused with an error', 'operand variables are distinct')
    tasks = []
    for sign in ('pos', 'neg', 'alt'):
        for name in OWN:
            for n in [*range(1, 34), 40, 64, 65] if th else [*range(1, 21), 24, 31, 32, 33, 40]:
                tasks.append(('t_own', (name, n, sign, None)))
                if name.startswith('heule'):
                    for cut in range(3, 10 if th else 8):
                        tasks.append(('t_own', (name, n, sign, cut)))
        for name in LIB:
            for n in range(1, 12):
                for k in range(-1, n + 2):
                    tasks.append(('t_lib', (name, n, k, sign)))
            for n in [*range(12, 34), 40, 48, 64, 80, 100] if th else [*range(12, 25), 32, 33, 48]:
                ks = {-1, 0, 1, 2, 3, n // 4, n // 3, n // 2, n // 2 + 1, n - 3, n - 2, n - 1, n, n + 1} if not th or n > 33 else range(-1, n + 2)
                for k in ks:
                    for pattern in (0, 1) if th else ((n + k + len(name)) % 2,):
                        tasks.append(('t_big', (name, n, k, sign, pattern)))
        names = list(OWN) + list(LIB)
        for n in ((3, 5, 7) if th else (4, 6)):
            for k in (1, 2, 3):
                for a in names:
                    for b in LIB:
                        for c in ('library_equals', 'heule_amo', 'logarithmic_one'):
                            tasks.append(('t_mixed', (n, k, sign, (a, b, c))))
    ctx.map(dispatch, tasks)
