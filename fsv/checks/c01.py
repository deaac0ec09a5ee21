"""The clauses returned by each arithmetic helper are compared with the arithmetic predicate it names, in both directions
(every solution satisfies it; every operand assignment satisfying it extends to the auxiliaries), for all operand values."""
from .. import env
env.quiet_imports()
from factorio_sat import util
from ..gadget import Ops, exact, call
from ..cnf import Builder
from ..core import Violation
from ..layout import explore

BOUNDS = {
    'quick': 'widths 1..8 with every constant, 9..24 with constants at and next to every power of two and some others (two-constant builders to width 4, and boundary constants to width 8), adders to width 24, comparing to width 16, popcount of 2..40 bits, sums of 2..8 numbers to width 5, three sign patterns',
    'thorough': 'widths 1..9 with every constant, 10..48 with boundary constants (two-constant builders to width 5, boundary constants to width 16), adders to width 48, comparing to width 24, popcount of 2..64 bits, sums of 2..10 numbers to width 6, three sign patterns',
}


def constants(w, full):
    if w <= full:
        return list(range(1 << w))
    top = (1 << w) - 1
    vs = {0, 1, 2, 3, 5, top, top - 1, 0x5555555555555555 & top, 0xaaaaaaaaaaaaaaaa & top, 0x123456789abcdef & top, 0xfedcba987654321 & top}
    for k in range(w):
        vs |= {1 << k, (1 << k) - 1, (1 << k) + 1, top ^ (1 << k)}
    return sorted(v for v in vs if 0 <= v <= top)


def t_consts(a):
    w, sign, full = a
    n = 0
    wit = 0
    for v in constants(w, full):
        o = Ops(sign)
        x = o.num(w)
        cl = call(util.set_number, 'set a number', v, x)
        wit += exact(cl, o, lambda b: b.eq_const(x, v), f'set {w}-bit number to {v}')
        o = Ops(sign)
        x = o.num(w)
        cl = call(util.set_not_number, 'forbid a number', v, x)
        wit += exact([cl], o, lambda b: -b.eq_const(x, v), f'forbid {w}-bit number {v}')
        o = Ops(sign)
        x = o.num(w)
        cl = call(util.set_maximum, 'bound a number', v, x)
        wit += exact(cl, o, lambda b: b.le_const(x, v), f'bound {w}-bit number by {v}')
        n += 3
    return {'obligations': n, 'witnesses': wit, 'config': f'constants width {w} {sign}'}


def t_pairs(a):
    w, sign, full = a
    n = wit = 0
    vs = constants(w, full)
    for u in vs:
        for v in vs if w <= full else {u, *vs[:3], vs[-1], vs[len(vs) // 2]}:
            o = Ops(sign)
            x, y = o.num(w), o.num(w)
            cl = call(util.set_numbers, 'set two numbers', u, v, x, y)
            wit += exact(cl, o, lambda b: b.or_(b.and_(b.eq_const(x, u), b.eq_const(y, v)), b.and_(b.eq_const(x, v), b.eq_const(y, u))),
                         f'set {w}-bit pair to {{{u}, {v}}}')
            n += 1
    return {'obligations': n, 'witnesses': wit, 'config': f'pairs width {w} {sign}'}


def t_equal(a):
    w1, w2, sign = a
    o = Ops(sign)
    x, y = o.num(w1), o.num(w2)
    cl = call(util.set_numbers_equal, 'equate numbers', x, y, w1 != w2) if w1 != w2 else call(util.set_numbers_equal, 'equate numbers', x, y)
    wit = exact(cl, o, lambda b: b.eq(x, y), f'equate {w1} and {w2} bits')
    if w1 == w2:
        o = Ops(sign)
        x, y = o.num(w1), o.num(w1)
        cl = call(util.set_numbers_equal, 'equate numbers', x, y, allow_different_lengths=True)
        wit += exact(cl, o, lambda b: b.eq(x, y), f'equate {w1} bits')
    return {'obligations': 2, 'witnesses': wit, 'config': f'equal {w1} {w2} {sign}'}


def t_add(a):
    w, extra, carry, overflow, sign = a
    o = Ops(sign)
    x, y, z = o.num(w), o.num(w), o.num(w + extra)
    c = o.lit() if carry else None
    cl = call(util.add_numbers, 'add', x, y, z, o.alloc, c, overflow) if carry else \
        call(util.add_numbers, 'add', x, y, z, o.alloc, allow_overflow=overflow)

    def spec(b):
        s = b.sum(x, y, c)
        ok = b.eq(s[:len(z)], z)
        return b.and_(ok, -s[-1]) if not extra and not overflow else ok
    wit = exact(cl, o, spec, f'add {w}-bit numbers into {w + extra} bits (carry in: {carry}, overflow allowed: {overflow})')
    return {'obligations': 1, 'witnesses': wit, 'config': f'add {a}'}


def t_sum(a):
    w, k, overflow, sign = a
    o = Ops(sign)
    xs = [o.num(w) for _ in range(k)]
    z = o.num(w)
    cl = call(util.sum_numbers, 'sum', xs, z, o.alloc, overflow)

    def spec(b):
        s = xs[0]
        for x in xs[1:]:
            s = b.sum(s, x)
        ok = b.eq(s[:w], z)
        return ok if overflow else b.and_(ok, [-l for l in s[w:]])
    wit = exact(cl, o, spec, f'sum {k} {w}-bit numbers (overflow allowed: {overflow})')
    return {'obligations': 1, 'witnesses': wit, 'config': f'sum {a}'}


def t_unary(a):
    w, sign = a
    n = wit = 0
    o = Ops(sign)
    x, z = o.num(w), o.num(w)
    cl = call(util.increment_number, 'increment', x, z)
    wit += exact(cl, o, lambda b: b.eq(b.sum(x, b.const(1, w))[:w], z), f'increment a {w}-bit number')
    n += 1
    if w >= 2:
        o = Ops(sign)
        x, z = o.num(w), o.num(w)
        cl = call(util.invert_number, 'negate', x, z, o.alloc)

        def spec(b):
            s = b.sum(x, z)
            return b.and_([-l for l in s[:w]], -b.eq_const(x, 1 << (w - 1)))
        wit += exact(cl, o, spec, f'negate a {w}-bit two\'s complement number')
        n += 1
    o = Ops(sign)
    x, z = o.num(w), o.num(w)
    cl = call(util.break_symmetry, 'order', x, z, o.alloc)
    wit += exact(cl, o, lambda b: b.lex_le(x, z), f'lexicographic order of {w} literals')
    n += 1
    return {'obligations': n, 'witnesses': wit, 'config': f'unary width {w} {sign}'}


def t_popcount(a):
    k, sign = a
    o = Ops(sign)
    x, z = o.num(k), o.num(k.bit_length())
    cl = call(util.get_popcount, 'count bits', x, z, o.alloc)
    wit = exact(cl, o, lambda b: b.eq(b.count(x), z), f'count {k} bits')
    return {'obligations': 1, 'witnesses': wit, 'config': f'popcount {k} {sign}'}


def t_logic(sign):
    n = wit = 0
    for k in range(0, 4):
        for m in range(1, 4):
            o = Ops(sign)
            cond = o.num(k)
            cons = [o.num(j + 1) for j in range(m)]
            cl = call(util.implies, 'conditional clauses', cond, [list(c) for c in cons])
            wit += exact(cl, o, lambda b: b.imp(b.and_(cond), b.and_([b.or_(c) for c in cons])), f'condition of {k} literals over {m} clauses')
            n += 1
    for name, fn, spec in [('same', util.literals_same, lambda b, x, y: b.iff(x, y)), ('different', util.literals_different, lambda b, x, y: b.xor(x, y))]:
        o = Ops(sign)
        x, y = o.lit(), o.lit()
        wit += exact(call(fn, name, x, y), o, lambda b: spec(b, x, y), f'literals {name}')
        n += 1
    for k in range(1, 6):
        for name, fn, sg in [('all true', util.set_all_true, 1), ('all false', util.set_all_false, -1)]:
            o = Ops(sign)
            x = o.num(k)
            wit += exact(call(fn, name, x), o, lambda b: b.and_([sg * l for l in x]), name)
            n += 1
        o = Ops(sign)
        x = o.num(k)
        wit += exact([call(util.invert_components, 'not all', x)], o, lambda b: -b.and_(x), 'not all of')
        n += 1
        for v in (False, True):
            o = Ops(sign)
            x = o.lit()
            wit += exact([[call(util.set_literal, 'literal', x, v)]], o, lambda b: x if v else -x, f'literal {v}')
            n += 1
    return {'obligations': n, 'witnesses': wit, 'config': f'logic {sign}'}


def t_read(a):
    """the number read from a model: all paths of the real function on symbolic bits; per path the value must be forced"""
    w, signed = a
    n = 0
    b = Builder(w + 1)
    x = list(range(1, w + 1))
    paths = 0
    from ..cnf import solve

    class Bits:
        pass
    def run(read):
        class Bit:
            def __init__(self, v):
                self.v = v

            def __bool__(self):
                return read(self.v)
        bits = [Bit(v) for v in x]
        return util.read_number(bits, signed) if signed else util.read_number(bits)
    disj = []
    for cube, res in explore(run, lambda lits: True):
        paths += 1
        lits = [v if t else -v for v, t in cube.items()]
        disj.append(b.and_(lits))
        if isinstance(res, Exception):
            raise Violation(f'reading a {w}-bit number raised {res!r}', input=cube)
        want = b.eq_const(x, res % (1 << w)) if (-(1 << (w - 1)) if signed else 0) <= res < (1 << (w - 1 if signed else w)) else b.F
        m = solve(b.clauses, [[-want]], assumptions=lits)
        n += 1
        if m is not None:
            bits = [m.get(v, False) for v in x]
            real = sum(1 << i for i, t in enumerate(bits) if t) - ((1 << w) if signed and bits[-1] else 0)
            got = util.read_number(bits, signed)
            if got != real:
                raise Violation(f'reading a {w}-bit number (signed: {signed}) gives a wrong value', input=bits, got=got, expected=real)
            raise RuntimeError('does not replay')
    if solve(b.clauses, [[-b.or_(disj)]]) is not None:
        raise RuntimeError('paths do not cover all inputs')
    return {'obligations': n, 'witnesses': 1, 'paths': paths, 'config': f'read {w} signed={signed}'}


def dispatch(t):
    return globals()[t[0]](t[1])


def run(ctx):
    th = ctx.thorough
    ctx.encoded('util.set_number', 'util.set_not_number', 'util.set_maximum', 'util.set_numbers', 'util.set_numbers_equal', 'util.add_numbers',
                'util.sum_numbers', 'util.increment_number', 'util.invert_number', 'util.get_popcount', 'util.break_symmetry', 'util.implies',
                'util.literals_same', 'util.literals_different', 'util.set_all_true', 'util.set_all_false', 'util.invert_components',
                'util.set_literal', 'util.read_number', 'util.get_bits')
    ctx.assume('constants lie in the range of the width (the code asserts this)', 'operand variables are distinct')
    tasks = []
    for sign in ('pos', 'neg', 'alt'):
        for w in range(1, (48 if th else 24) + 1):
            tasks.append(('t_consts', (w, sign, 9 if th else 8)))
        for w in range(1, (16 if th else 8) + 1):
            tasks.append(('t_pairs', (w, sign, 5 if th else 4)))
        for w in range(0, 5):
            for v in range(0, 5):
                tasks.append(('t_equal', (w, v, sign)))
        for w, v in [(8, 8), (9, 7), (7, 9), (16, 16), (16, 5), (5, 16), (33, 33)]:
            tasks.append(('t_equal', (w, v, sign)))
        for w in range(1, (48 if th else 24) + 1):
            for extra in (0, 1):
                for carry in (False, True):
                    for ov in (False, True):
                        tasks.append(('t_add', (w, extra, carry, ov, sign)))
            tasks.append(('t_unary', (w, sign)))
        for k in range(2, (64 if th else 40) + 1):
            tasks.append(('t_popcount', (k, sign)))
        for k in range(2, (10 if th else 8) + 1):
            for w in range(1, 7 if th else 6):
                for ov in (False, True):
                    tasks.append(('t_sum', (w, k, ov, sign)))
        tasks.append(('t_logic', sign))
    for w in range(1, 11 if th else 9):
        tasks.append(('t_read', (w, False)))
        if w > 1:
            tasks.append(('t_read', (w, True)))
    ctx.map(dispatch, tasks)
