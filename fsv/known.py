"""Balancers of size 8 for the power-of-two generator (underground length 4), in the notation of layout.show: starting points for
queries about every layout that agrees with one of them outside a window."""
from .layout import CHARS

P2 = '''
> > > > > f G > > >
> D l . . v I L > >
> d > > f T D > > >
> D > l k G d f L >
> d > l G h i v L >
> D l G h L h T > >
> d l ^ K . . L > >
> > > h T > > > > >

> > > f G > > > > >
> l . k ^ L D > > >
> > > D h G d > > >
> l G d f I L > D >
> l ^ K T f L > d >
> > h T l T f L D >
> > l . . i v L d >
> > > > > h T > > >

> > > f G > > > > >
> D l v I G f L > >
> d l v L h k G > >
> D l T f L l ^ L >
> d > l T > D h L >
> D > f i G d > > >
> d l T h ^ K L > >
> > > > > h T > > >
'''


def p2():
    """[{(x, y): kind}]"""
    kinds = {c: k for k, c in CHARS.items()}
    return [{(x, y): kinds[c] for y, row in enumerate(block.split('\n')) for x, c in enumerate(row.split())} for block in P2.strip().split('\n\n')]


def widened(lay, column):
    """the same balancer one tile wider: column 0 or the last one repeated (they are straight belts)"""
    w = 1 + max(x for x, _ in lay)
    return {(x, y): lay[min(x, w - 1) if column else max(0, x - 1), y] for x in range(w + 1) for _, y in [(0, y) for y in range(1 + max(y for _, y in lay))]}


def windows(lay, w, h):
    W, H = 1 + max(x for x, _ in lay), 1 + max(y for _, y in lay)

    def starts(lo, hi, size):
        n = max(1, -(-(hi - lo) // size))
        return sorted({round(lo + i * (hi - lo - size) / max(1, n - 1)) for i in range(n)}) if hi - lo > size else [lo]
    return [{(x + i, y + j) for i in range(w) for j in range(h)} for y in starts(0, H, h) for x in starts(1, W - 1, w)]
