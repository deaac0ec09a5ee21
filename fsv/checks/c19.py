"""C19: `network create N` is run for every N in the bound and the files in networks/ are read; for each network linear real
arithmetic decides, over all input rates and all wirings of equally coloured lines, whether every output carries the same
share.  First a relaxation (only the sum over the lines of a colour is known), strengthened by proved lemmas (if all
producers of a colour carry the same, so does every consumer); where that is not enough, the exact wiring is symbolic."""
import os
import tempfile
import time
from fractions import Fraction

import z3

from ..core import Violation, NoAnswer
from ..env import REPO
from .. import cnf
from .. import symtile as st
from ..netspec import parse
import collections
import factorio_sat.network as nw

BOUNDS = {
    'quick': 'created networks of size 2 to 48 and 64; every file in networks/; all non-negative input rates below belt capacity, all wirings',
    'thorough': 'created networks of size 2 to 96; every file in networks/; all non-negative input rates below belt capacity, all wirings; exact wiring as well wherever it is decided within 120 s',
}


class Bad(Exception):
    pass


class Flow:
    def __init__(self, nodes):
        self.nodes = nodes
        bal = collections.Counter()
        for i, o in nodes:
            for c in i:
                if c is not None:
                    bal[c] += 1
            for c in o:
                if c is not None:
                    bal[c] -= 1
        ins = [(c, n) for c, n in bal.items() if n > 0]
        outs = [(c, -n) for c, n in bal.items() if n < 0]
        if len(ins) != 1 or len(outs) != 1:
            raise Bad(f'{len(ins)} kinds of input lines and {len(outs)} kinds of output lines')
        (self.ic, self.ni), (self.oc, self.no) = ins[0], outs[0]
        self.colours = sorted(bal)
        self.x = [z3.Real(f'x{i}') for i in range(self.ni)]
        self.e = [z3.Real(f'e{i}') for i in range(self.no)]
        self.prod = {c: [] for c in self.colours}
        self.cons = {c: [] for c in self.colours}
        self.prod[self.ic] += self.x
        self.base = [v >= 0 for v in self.x + self.e]
        for k, (i, o) in enumerate(nodes):
            fl = []
            for j, c in enumerate(i):
                if c is not None:
                    v = z3.Real(f'i{k}_{j}')
                    self.base.append(v >= 0)
                    self.cons[c].append(v)
                    fl.append(v)
            n = sum(c is not None for c in o)
            if n == 0:
                raise Bad('a splitter without outputs')
            for c in o:
                if c is not None:
                    self.prod[c].append(z3.Sum(fl) / n if fl else z3.RealVal(0))
        self.cons[self.oc] += self.e
        for c in self.colours:
            self.base.append(z3.Sum(self.prod[c]) == z3.Sum(self.cons[c]))
        self.goal = z3.And([v == self.e[0] for v in self.e[1:]] + [z3.Sum(self.e) == z3.Sum(self.x)])

    def query(self, extra, timeout=0):
        s = z3.Solver()
        if timeout:
            s.set('timeout', timeout * 1000)
        s.add(self.base)
        s.add(extra)
        t = time.time()
        r = s.check()
        cnf.STATS['queries'] += 1
        cnf.STATS['solver_s'] += time.time() - t
        if r == z3.unknown:
            return None, None
        cnf.STATS['sat' if r == z3.sat else 'unsat'] += 1
        return r == z3.sat, (s.model() if r == z3.sat else None)

    def relaxed(self):
        lemmas = []
        todo = list(self.colours)
        while True:
            sat, _ = self.query(lemmas + [z3.Not(self.goal)])
            if sat is False:
                return True
            progress = False
            for c in list(todo):
                p = self.prod[c]
                sat, _ = self.query(lemmas + [z3.Or([a != p[0] for a in p[1:]] + [z3.BoolVal(False)])])
                if sat is False:
                    lemmas += [v == p[0] for v in self.cons[c]]
                    todo.remove(c)
                    progress = True
            if progress:
                continue
            # every consumer lies between the smallest and the largest producer of its colour: case split on which those are
            for c in sorted(todo, key=lambda c: c != self.oc):
                if self.by_extremes(c, lemmas):
                    lemmas += [v == self.prod[c][0] for v in self.cons[c]]
                    todo.remove(c)
                    progress = True
                    break
            if not progress:
                return False

    def by_extremes(self, c, lemmas):
        if c == self.ic:
            return False
        owner = [node for node in self.nodes for x in node[1] if x == c]
        reps = {}
        for k, node in enumerate(owner):
            key = (tuple(sorted(map(str, node[0]))), tuple(sorted(map(str, node[1]))))
            reps.setdefault(key, []).append(k)
        # splitters of the same type are interchangeable: two producers of each type (of different splitters) suffice
        pick = []
        for key, ks in reps.items():
            first = ks[0]
            other = [k for k in ks if not z3.eq(self.prod[c][k], self.prod[c][first])]
            pick.append((key, first, other[0] if other else None))
        P, C = self.prod[c], self.cons[c]
        for ka, a1, _ in pick:
            for kb, b1, b2 in pick:
                b = b1 if ka != kb else b2
                if b is None:
                    continue
                hi, lo = P[a1], P[b]
                sat, _ = self.query(lemmas + [v <= hi for v in P + C] + [v >= lo for v in P + C] + [hi > lo])
                if sat is not False:
                    return False
        return True

    def exact(self, timeout):
        cs, wires = [], {}
        for c in self.colours:
            P, C = self.prod[c], self.cons[c]
            b = [[z3.Bool(f'b{c}_{i}_{j}') for j in range(len(C))] for i in range(len(P))]
            wires[c] = b
            for i in range(len(P)):
                cs.append(z3.PbEq([(v, 1) for v in b[i]], 1))
                cs.append(z3.PbEq([(b[k][i], 1) for k in range(len(P))], 1))
                for j in range(len(C)):
                    cs.append(z3.Implies(b[i][j], C[j] == P[i]))
        sat, m = self.query(cs + [z3.Not(self.goal)], timeout)
        if not sat:
            return sat, None
        rates = [m.eval(v, model_completion=True) for v in self.x]
        rates = [Fraction(r.numerator_as_long(), r.denominator_as_long()) for r in rates]
        wiring = {c: {j: i for i in range(len(b)) for j in range(len(b)) if z3.is_true(m.eval(b[i][j], model_completion=True))} for c, b in wires.items()}
        return True, (rates, wiring)

    def simulate(self, rates, wiring, steps=4000):
        """fluid flow from an empty network"""
        rates = [float(r) for r in rates]
        if sum(rates) == 0:
            rates = [1.0] * len(rates)
        cons = {c: [0.0] * len(self.cons[c]) for c in self.colours}
        for _ in range(steps):
            prod = {c: [] for c in self.colours}
            prod[self.ic] += rates
            at = {c: 0 for c in self.colours}
            for i, o in self.nodes:
                tot = 0.0
                for c in i:
                    if c is not None:
                        tot += cons[c][at[c]]
                        at[c] += 1
                n = sum(c is not None for c in o)
                for c in o:
                    if c is not None:
                        prod[c].append(tot / n)
            cons = {c: [prod[c][wiring[c][j]] for j in range(len(cons[c]))] for c in self.colours}
        return cons[self.oc][-self.no:], sum(rates)


def decide(nodes, ni, no, label, exact_limit, both=False):
    text = '\n'.join(' '.join('-1' if c is None else str(c) for c in i + o) for i, o in nodes)
    try:
        f = Flow(nodes)
    except Bad as e:
        raise Violation(f'{label}: {e}', input=text)
    if (f.ni, f.no) != (ni, no):
        raise Violation(f'{label}: has {f.ni} inputs and {f.no} outputs', input=text)
    ok = f.relaxed()
    if ok and not both:
        return 1
    sat, cex = f.exact(exact_limit)
    if sat is None:
        if ok:
            return 1
        raise NoAnswer(f'{label}: the solver could not decide the exact wiring')
    if not sat:
        return 2 if ok else 1
    rates, wiring = cex
    out, total = f.simulate(rates, wiring)
    if max(out) - min(out) > 1e-6 or abs(sum(out) - total) > 1e-6:
        raise Violation(f'{label}: does not balance', input=text, rates=[str(r) for r in rates], wiring=wiring, got=[round(v, 4) for v in out],
                        expected=f'{total / f.no:.4f} on every output')
    raise NoAnswer(f'{label}: counterexample does not replay')


def task(t):
    kind, arg, limit, both = t
    if kind == 'create':
        with tempfile.TemporaryDirectory(prefix='fsv') as tmp:
            p = os.path.join(tmp, 'n')
            out, exc = st.run_cli(nw, ['create', p, arg])
            if exc is not None:
                raise Violation(f'network create {arg} fails: {exc!r}', input=arg)
            nodes = parse(open(p).read())
        n = decide(nodes, arg, arg, f'created network of size {arg}', limit, both)
    else:
        text = open(os.path.join(REPO, 'networks', arg)).read()
        try:
            nodes = parse(text)
            ni, no = (int(v) for v in arg.split('x'))
        except ValueError:
            return {'obligations': 0}
        n = decide(nodes, ni, no, f'networks/{arg}', limit, both)
    return {'obligations': n, 'witnesses': 1}


def tasks(tier):
    th = tier == 'thorough'
    out = [('file', f, 120 if th else 60, th) for f in sorted(os.listdir(os.path.join(REPO, 'networks')))]
    out += [('create', n, 120 if th else 60, th and n <= 12) for n in (range(2, 97) if th else [*range(2, 49), 64])]
    out.sort(key=lambda t: t[1] if isinstance(t[1], int) else 12)
    return out


def run(ctx):
    ctx.encoded('network.main (create)', 'create_benes_network', 'remap_colours', 'get_input_output_colours', 'save_network', 'networks/*')
    ctx.assume('an ideal splitter shares the sum of its inputs equally between its connected outputs, no line is saturated',
               'a size means N inputs and N outputs; a shipped file AxB states A inputs and B outputs')
    ctx.map(task, tasks(ctx.tier))
