"""Minimum and maximum of independent variables."""
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import Integrals, INF
from engine.ops import exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import PW, land, lor, same
from checks.c10 import Dens
from checks.c11 import sym_near
import pacal.segments as S
import pacal.indeparith as A
import pacal.distr as D

P = 'C13'
META = {'assumptions': ['integration routines return the integral over the range they are given (C02)',
                        'pieces of the result keep the computed function (interpolation of it: C06, C07)',
                        'the point of evaluation is at least 1e-5 away from breaks of the operands']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 30)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def build(op, f, g, via):
    if via == 'conv':
        return (A.convmin if op == 'min' else A.convmax)(f, g)
    if via == 'cls':
        return (D.MinDistr if op == 'min' else D.MaxDistr)(Dens(f), Dens(g)).get_piecewise_pdf()
    return (D.min if op == 'min' else D.max)(Dens(f), Dens(g)).get_piecewise_pdf()


def beyond(op, a, b):
    """b is on the far side of a: b>a for the minimum, b<a for the maximum"""
    return bool(b > a) if op == 'min' else bool(b < a)


def check(h, op, f, g, r, G, x, mk):
    """f, g: operands with .at and .masses; r the result; mk: masses to merge"""
    far = lambda t: beyond(op, x, t)
    # masses
    pos = []
    for w, o in ((f, g), (g, f)):
        for p, m in w.masses:
            if not any(sym_near(h, p, q) for q in pos):
                pos.append(p)
    ds = [d for d in r.getDiracs() if not (not isinstance(d.f, sym.Sym) and d.f == 0)]
    seen = 0
    for p in pos:
        const = 0
        parts = []
        for w, o in ((f, g), (g, f)):
            for q, m in w.masses:
                if sym_near(h, p, q):
                    parts.append((m, o))
                    const = const + m * sum(n for s, n in o.masses if not sym_near(h, s, p) and beyond(op, p, s))
        if len(parts) == 2:
            const = const + parts[0][0] * parts[1][0]
        sup = any(reach(op, o, p) for _, o in parts)
        w = [d for d in ds if sym_near(h, d.a, p)]
        if not sup and len(parts) < 2 and not isinstance(const, sym.Sym) and const == 0:
            # nothing beyond: no mass, or one of weight zero
            h.check(len(w) <= 1, 'mass-position')
        else:
            h.check(len(w) == 1, 'mass-position')
        if len(w) == 1:
            seen += 1
            pts = [-INF, INF, p] + [e for _, o in parts for e in o.ends()]
            keep = list(G.recs)
            G.check(w[0].f, lambda t: sum(m * (o.at(t) if beyond(op, p, t) else 0) for m, o in parts), 'mass-weight', const=const, pts=pts)
            G.recs[:] = keep
    h.check(seen == len(ds), 'masses-count')
    del G.recs[:]
    fx, gx = f.at(x), g.at(x)
    const = 0
    for w, o in ((f, gx), (g, fx)):
        for q, m in w.masses:
            if far(q):
                const = const + m * o
    v = value(r(x))
    G.check(v, lambda t: (fx * g.at(t) + gx * f.at(t)) if far(t) else 0, 'density', const=const, pts=[-INF, INF, x] + f.ends() + g.ends(), ctol=1e-5)


def reach(op, o, p):
    return any((isinf(b) or bool(b > p)) if op == 'min' else (isinf(a) or bool(a < p)) for _, a, b, _f in o.pieces)


def two(op, s1, s2, via='op', tie=None):
    def fn(h):
        f, g = PW(h, 'f', s1, cls=S.PiecewiseDistribution), PW(h, 'g', s2, cls=S.PiecewiseDistribution)
        if tie is not None:
            tie(h, f, g)
        x = h.real('x', -400, 400)
        es = ordered(h, f.points() + g.points())
        locate(h, x, es)
        with exact_pieces(), Integrals(h) as G:
            G.positive = True
            r = build(op, f.pf, g.pf, via)
            G.positive = False
            away(h, x, list(r.getBreaks()))
            check(h, op, f, g, r, G, x, None)
        for o in (f, g):
            o.unchanged()
    return fn


class Const(object):
    def __init__(self, c):
        self.pieces, self.masses = [], [(c, 1)]

    def at(self, t):
        return 0

    def ends(self):
        return [self.masses[0][0]]


def constant(op, s1, left):
    def fn(h):
        f = PW(h, 'f', s1, cls=S.PiecewiseDistribution)
        c = h.real('c', -150, 150)
        x = h.real('x', -400, 400)
        es = ordered(h, f.points() + [c])
        locate(h, x, es)
        with exact_pieces(), Integrals(h) as G:
            G.positive = True
            o = D.min if op == 'min' else D.max
            d = Dens(f.pf)
            r = (o(c, d) if left else o(d, c)).get_piecewise_pdf()
            G.positive = False
            away(h, x, list(r.getBreaks()))
            check(h, op, f, Const(c), r, G, x, None)
        f.unchanged()
    return fn


def same_start(h, f, g):
    h.assume(f.points()[0] == g.points()[0])


def mass_on_break(h, f, g):
    h.assume(f.masses[0][0] == g.points()[0])


ENC = ['indeparith.convmin', 'indeparith.convmax', 'indeparith.Convxrunner.convminx_at_point', 'indeparith.Convxrunner.convmax_at_point', 'indeparith._findSegList', 'indeparith._probDiracsInMin', 'indeparith._probDiracsInMax',
       'segments.PiecewiseFunction.splitByPoints', 'distr.min', 'distr.max']
PAIRS = [('S', 'S'), ('S', 'P'), ('M', 'S'), ('P', 'P'), ('M', 'M'), ('M', 'P'), ('P', 'M'), ('M P', 'S'), ('M P', 'M P'), ('S _ S', 'S'), ('S', 'S S'), ('S S', 'S S'), ('L', 'S'), ('S', 'R'),
         ('d S', 'S'), ('S', 'S d'), ('S d S', 'S'), ('d', 'S'), ('S', 'd'), ('d', 'd'), ('d _ d', 'd _ d'), ('d _ d', 'S d'), ('P d', 'S'), ('d P', 'M d'), ('M d P', 'S d')]
for op in ('min', 'max'):
    for s1, s2 in PAIRS:
        add('%s[%s|%s]' % (op, s1, s2), two(op, s1, s2), bounds='pieces "%s" and "%s": any densities, breaks, masses and point' % (s1, s2), encoded=ENC,
            quick=(s1, s2) != ('S S', 'S S'), budget=120)
    for s1, s2, t in [('S', 'S', same_start), ('S S', 'S', same_start), ('d S', 'S', mass_on_break), ('d S', 'd S', mass_on_break), ('d', 'd _ d', mass_on_break), ('S d', 'M P', mass_on_break)]:
        add('%s-tie[%s|%s]' % (op, s1, s2), two(op, s1, s2, tie=t), bounds='pieces "%s" and "%s" sharing a break' % (s1, s2), encoded=ENC)
    for s1 in ('S', 'M P', 'S d', 'd _ d', 'P'):
        for left in (False, True):
            add('%s-const[%s%s]' % (op, s1, ',left' if left else ''), constant(op, s1, left), bounds='pieces "%s" and any constant' % s1, encoded=ENC)
