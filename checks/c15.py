"""Conditioning a variable on an interval."""
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import Integrals, INF, complement, reference
from engine.ops import exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import PW, land, lor, same
from checks.c10 import Dens
from checks.c11 import sym_near
import pacal.segments as S
import pacal.indeparith as A
import pacal.distr as D

P = 'C15'
META = {'assumptions': ['integration routines return the integral over the range they are given (C02)',
                        'pieces of the result keep the computed function (interpolation of it: C06, C07)',
                        'the event has positive probability; the point of evaluation is at least 1e-5 away from breaks']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def conditioned(spec, kind, tie=None, pts=None):
    def fn(h):
        f = PW(h, 'f', spec, cls=S.PiecewiseDistribution, **({} if pts is None else {'pts': pts}))
        ps = f.points()
        if tie is None:
            L = h.real('L', -150, 150) if kind != 'lt' else None
            U = h.real('U', -150, 150) if kind != 'gt' else None
        else:
            L, U = tie(h, f)
        lo = -INF if L is None else L
        hi = INF if U is None else U
        x = h.real('x', -400, 400)
        if L is not None and U is not None:
            h.assume(L < U)
        es = ordered(h, ps + [e for e in (L, U) if e is not None and not any(e is p for p in ps)])
        locate(h, x, es)
        inside = lambda t: (isinf(lo) or bool(t > lo)) and (isinf(hi) or bool(t < hi))
        d = Dens(f.pf)
        if f.masses:
            h.assume(sum(m for _, m in f.masses) < 0.95)
        a, b = f.ends_range()
        d.range = f.ends_range
        got = [m for p, m in f.masses if inside(p)]
        meets = bool(got) or any((isinf(hi) or isinf(q) or bool(q < hi)) and (isinf(lo) or isinf(r) or bool(r > lo)) for _, q, r, _f in f.pieces)
        if not meets:
            # the event has probability zero: refused when it lies outside the range
            out = (kind == 'lt' and not isinf(a) and bool(U <= a)) or (kind == 'gt' and not isinf(b) and bool(L >= b))
            if out:
                try:
                    d | (D.Lt(U) if kind == 'lt' else D.Gt(L))
                except AssertionError:
                    h.check(True, 'refused')
                else:
                    h.fail('refused', 'no error')
            return
        with exact_pieces(), Integrals(h) as G:
            G.positive = True
            c = d | (D.Lt(U) if kind == 'lt' else D.Gt(L) if kind == 'gt' else D.Between(L, U))
            r = c.get_piecewise_pdf()
            G.positive = False
            if h.sym and h.c.div_zero:
                return      # the recorded integrals leave an event of probability zero
            away(h, x, list(r.getBreaks()))
            allpts = [-INF, INF] + [e for e in (L, U) if e is not None] + f.ends()

            def scaled(v, w, label):
                """v is w divided by the probability of the event"""
                if h.sym:
                    h.check(v != 0, label)
                if not h.sym and abs(float(1 - sum(m for q, m in f.masses if not inside(q)) - reference(lambda t: 0 if inside(t) else f.at(t), allpts))) < 0.05:
                    return        # badly conditioned
                q = w / v
                keep = list(G.recs)
                complement(G, q, lambda t: f.at(t) if inside(t) else 0, label, f.at, sum(got), sum(m for _, m in f.masses), allpts, ctol=5e-3)
                G.recs[:] = keep
            ds = [s for s in r.getDiracs() if not (not isinstance(s.f, sym.Sym) and s.f == 0)]
            for p, m in f.masses:
                w = [s for s in ds if sym_near(h, s.a, p)]
                if inside(p):
                    h.check(len(w) == 1, 'mass-kept')
                    scaled(w[0].f, m, 'mass-weight')
                else:
                    h.check(all(s.f == 0 for s in w), 'mass-outside')
            h.check(land(h, [lor(h, [s.f == 0] + [sym_near(h, s.a, p) for p, _ in f.masses]) for s in ds]), 'no-new-mass')
            v, fx = value(r(x)), f.at(x)
            if not inside(x):
                h.check_eq(v, 0, 'outside')
            elif isinstance(fx, (int, float)) and fx == 0:
                h.check_eq(v, 0, 'off-support')
            else:
                scaled(v, fx, 'density')
        f.unchanged()
        # the range of values reaches exactly to the limits inside of the support
        rl, rh = c.range()
        for got, lim, end, beyond in ((rl, lo, a, lambda p, q: p > q), (rh, hi, b, lambda p, q: p < q)):
            if isinf(lim) and isinf(end):
                h.check(isinf(unwrap(got)), 'range')
            elif isinf(lim):
                h.check_eq(got, end, 'range')
            elif isinf(end) or bool(beyond(lim, end)):
                h.check_eq(got, lim, 'range')
            else:
                h.check(not beyond(got, end), 'range')
    return fn


ENC = ['distr.Distr.__or__', 'distr.CondGtDistr.init_piecewise_pdf', 'distr.CondGtDistr.range', 'distr.CondLtDistr.range', 'distr.CondBetweenDistr.range', 'distr.CondLtDistr.init_piecewise_pdf', 'distr.CondBetweenDistr.init_piecewise_pdf', 'distr.min', 'distr.max',
       'indeparith.convmin', 'indeparith.convmax', 'indeparith.Convxrunner.convminx_at_point', 'indeparith.Convxrunner.convmax_at_point', 'indeparith._probDiracsInMin', 'indeparith._probDiracsInMax', 'indeparith.convprod', 'segments.PiecewiseFunction.addSegment']
# pieces with given breaks: position first, then lengths
FIXED = [('S', (2, 5)), ('S', (-3, -1.5)), ('S', (-2, 3)), ('M', (-2,)), ('M', (3,)), ('P', (-3,)), ('P', (0,)), ('M P', (0.5,)), ('S S', (-1, 2, 5)), ('S _ S', (-4, -2, 2, 5)), ('L', (0, 3)), ('R', (-3, 0)),
         ('S d', (2, 5)), ('d S', (-3, 2)), ('S d S', (-2, 0, 4)), ('d', (2,)), ('d _ d', (-2, 3)), ('d _ d _ d', (-3, 0, 2)), ('M d P', (-2,)), ('M d P', (2,)), ('d P', (0,))]
def ends(lo, hi):
    def tie(h, f):
        return (h.real('L', -150, 150) if lo is None else lo), (h.real('U', -150, 150) if hi is None else hi)
    return tie


for s, pts in FIXED:
    for kind in ('gt', 'lt'):
        add('%s[%s@%s]' % (kind, s, ','.join(map(str, pts))), conditioned(s, kind, pts=pts), bounds='pieces "%s" at breaks %s: any densities, masses, end of the interval and point' % (s, pts), encoded=ENC)
    add('between[%s@%s]' % (s, ','.join(map(str, pts))), conditioned(s, 'between', pts=pts), bounds='pieces "%s" at breaks %s: any densities, masses, ends of the interval and point' % (s, pts), encoded=ENC,
        quick=(s, pts) in (('S', (2, 5)), ('d', (2,)), ('M', (-2,))))
    for lo, hi in ((None, 2.5), (-2.25, None), (None, -1.25), (0.5, None)):
        add('between[%s@%s|%s,%s]' % (s, ','.join(map(str, pts)), lo, hi), conditioned(s, 'between', pts=pts, tie=ends(lo, hi)),
            bounds='pieces "%s" at breaks %s, one end of the interval at %s: any densities, masses, other end and point' % (s, pts, lo if hi is None else hi), encoded=ENC, quick=(lo == -2.25 if FIXED.index((s, pts)) % 2 else hi == 2.5))
for kind in ('gt', 'lt', 'between'):
    for s in ('S', 'P', 'M P', 'S d', 'd _ d'):
        add('%s[%s]' % (kind, s), conditioned(s, kind), bounds='pieces "%s": any densities, breaks, masses, ends of the interval and point' % s, encoded=ENC, quick=False)


def at_mass(which):
    def tie(h, f):
        a, b = f.ends_range()
        m = f.masses[0][0]
        if which == 'gt':
            return m, None
        if which == 'lt':
            return None, m
        if which == 'lo':
            return m, h.real('U', -150, 150)
        if which == 'hi':
            return h.real('L', -150, 150), f.masses[-1][0]
        return m, f.masses[2][0]
    return tie


for s, pts in [('S d', (2, 5)), ('d S', (-3, 2)), ('S d S', (-2, 0, 4)), ('d _ d _ d', (-3, 0, 2)), ('d _ d', (-2, 3)), ('M d P', (2,)),
               ('d _ d _ d', (0, 2.0 ** -10, 2)), ('d _ d _ d', (-3, 0, 2.0 ** -10)), ('d _ d _ d', (1, 1 + 2.0 ** -10, 1 + 2.0 ** -9))]:
    for which in ('gt', 'lt', 'lo', 'hi', 'both'):
        if (which == 'both' and s.count('d') != 3) or (s, which) in (('S d', 'lo'), ('d S', 'hi'), ('d S', 'lt'), ('S d', 'gt')):
            continue
        kind = which if which in ('gt', 'lt') else 'between'
        add('%s-at-mass[%s@%s,%s]' % (kind, s, ','.join(map(str, pts)), which), conditioned(s, kind, tie=at_mass(which), pts=pts),
            bounds='as above, the interval ending in a point mass', encoded=ENC)
