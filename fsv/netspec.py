"""Reference meaning of 'this layout realises that splitter network', over layout literals and a line value per cell."""
import collections

from .layout import DIRS, REV, CCW


def parse(text):
    out = []
    for line in text.splitlines():
        line = line.strip()
        if line and not line.startswith('#'):
            c = [None if int(x) == -1 else int(x) for x in line.split()]
            out.append((tuple(c[:2]), tuple(c[2:])))
    return out


def norm(side):
    return tuple(sorted(side, key=lambda c: -1 if c is None else c))


class Net:
    def __init__(self, text):
        self.text = text
        self.nodes = parse(text)
        self.types = collections.Counter((norm(i), norm(o)) for i, o in self.nodes)
        self.colours = sorted({c for n in self.nodes for s in n for c in s if c is not None})
        bal = collections.Counter()
        for i, o in self.nodes:
            for c in i:
                if c is not None:
                    bal[c] += 1
            for c in o:
                if c is not None:
                    bal[c] -= 1
        self.inputs = [(c, n) for c, n in bal.items() if n > 0]
        self.outputs = [(c, -n) for c, n in bal.items() if n < 0]
        assert len(self.inputs) == 1 and len(self.outputs) == 1
        self.in_colour, self.in_count = self.inputs[0]
        self.out_colour, self.out_count = self.outputs[0]
        self.width = max(self.colours).bit_length()

    def side(self, b, want, ports):
        """want: pair of colours/None; ports: [(connected, bits), (connected, bits)]"""
        (ca, xa), (cb, xb) = ports
        a, c = want
        if a is None and c is None:
            return b.and_(-ca, -cb)
        if a is None or c is None:
            v = c if a is None else a
            return b.or_(b.and_(ca, -cb, b.eq_const(xa, v)), b.and_(cb, -ca, b.eq_const(xb, v)))
        both = b.and_(ca, cb)
        return b.and_(both, b.or_(b.and_(b.eq_const(xa, a), b.eq_const(xb, c)), b.and_(b.eq_const(xa, c), b.eq_const(xb, a))))

    def match(self, lay, bits, p, d, node):
        """splitter with head at p facing d plays the role `node`"""
        b = lay.b
        q = lay.nb(p, CCW[d])
        if q is None:
            return b.F
        ins = [(lay.conn_in(h, d), bits[h]) for h in (p, q)]
        outs = []
        for h in (p, q):
            f = lay.nb(h, d)
            # an output that leaves the grid directly carries no cell to report its line: not a supported end
            outs.append((lay.conn_out(h, d), bits[f]) if f is not None else (lay.conn_out(h, d), None))
        if any(x is None for _, x in outs):
            return b.F
        return b.and_(self.side(b, node[0], ins), self.side(b, node[1], outs))

    def rules(self, lay, bits):
        b = lay.b
        out = list(lay.line_colour(bits))
        self.role = {}
        heads = []
        for t in self.types:
            lits = []
            for p in lay.cells:
                m = b.or_([b.and_(lay.k[p][('S', d, 1)], self.match(lay, bits, p, d, t)) for d in DIRS])
                self.role[p, t] = m
                lits.append(m)
            out.append((f'exactly {self.types[t]} splitters take lines {t[0]} and give {t[1]}', b.counts(lits, self.types[t], 'eq')))
        for p in lay.cells:
            h = lay.head(p)
            heads.append(h)
            out.append((f'the splitter at {p} is one of the network', b.imp(h, b.or_([self.role[p, t] for t in self.types]))))
        out.append((f'exactly {sum(self.types.values())} splitters', b.counts(heads, sum(self.types.values()), 'eq')))
        ins, outs = [], []
        for p in lay.cells:
            for d in DIRS:
                if lay.nb(p, REV[d]) is None:
                    e = lay.conn_in(p, d)
                    ins.append(e)
                    out.append((f'what enters at {p} is an input line', b.imp(e, b.eq_const(bits[p], self.in_colour))))
                if lay.nb(p, d) is None:
                    e = lay.conn_out(p, d)
                    outs.append(e)
                    out.append((f'what leaves at {p} is an output line', b.imp(e, b.eq_const(bits[p], self.out_colour))))
            used = b.or_([b.eq_const(bits[p], c) for c in self.colours])
            out.append((f'{p} carries a line of the network', b.or_(lay.empty[p], used)))
        out.append((f'{self.in_count} belts enter', b.counts(ins, self.in_count, 'eq')))
        out.append((f'{self.out_count} belts leave', b.counts(outs, self.out_count, 'eq')))
        return out


def not_only_below_empty(lay, L):
    """every underground passes below at least one used tile"""
    b = lay.b
    out = []
    for p in lay.cells:
        for d in DIRS:
            cells, _ = lay._walk(p, d)
            for k, q, lit in lay.pair_lits(p, d)[0]:
                if 2 <= k <= L + 1:
                    out.append((f'underground {p}->{q} passes below something',
                                b.imp(b.and_(lay.ui[p, d], lit), b.or_([-lay.empty[c] for c in cells[:k - 1]]))))
    return out
