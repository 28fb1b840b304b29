"""Functions of one random variable: change of variables."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import Integrals, INF, complement
from engine.ops import exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import PW, land, lor, same
from checks.c10 import Dens
from checks.c11 import sym_near
import pacal.segments as S
import pacal.distr as D

P = 'C14'
META = {'assumptions': ['breaks are at, or at least 1e-6 off, the points 0, 1/2, 1, 2 where the library cuts pieces; distinct images of masses are 1e-6 apart',
                        'point of evaluation and its preimages are not break points',
                        'exp, log, sin, cos, tan, atan, asin and roots are the mathematical functions (their rounding is not modelled)']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 20)
    kw.setdefault('thorough', {'budget': 200, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def m(name, u):
    """mathematical function of a number"""
    if isinstance(u, sym.Sym):
        return getattr(u, name)()
    if isinf(u):
        with np.errstate(all='ignore'):
            return float(getattr(np, name)(u))
    if sym.CTX is not None and not isinstance(u, float):
        return getattr(sym.lift(u), name)()
    return float(getattr(np, name)(u))


def density(h, r, y, want, label):
    """piecewise density r at y, scalar and array"""
    h.check_eq(value(r(y)), want, label, tol=1e-6)
    v = r(h.array([y, y]))
    h.check(np.shape(v) == (2,), label + '-shape')
    h.check_eq(unwrap(v[1]), want, label + '-vector', tol=1e-6)


def masses(h, r, want, label='masses', near=sym_near):
    """want [(position, weight)], coinciding positions added"""
    pos = []
    for p, w in want:
        for k, (q, n) in enumerate(pos):
            if near(h, p, q):
                pos[k] = (q, n + w)
                break
        else:
            pos.append((p, w))
    ds = [d for d in r.getDiracs() if not (not isinstance(d.f, sym.Sym) and d.f == 0)]
    h.check(len(ds) == len(pos), label + '-count')
    for p, w in pos:
        d = [s for s in ds if near(h, s.a, p)]
        h.check(len(d) == 1, label + '-position')
        if len(d) == 1:
            h.check_eq(d[0].f, w, label + '-weight')


def sorted_breaks(h, r, want):
    """every image of a break is a break of the result, within rounding"""
    br = list(r.getBreaks())
    tol = h.q(1, 10 ** 9)
    for p in want:
        if isinf(p):
            h.check(any(isinf(b) and b == p for b in br), 'breaks')
        else:
            h.check(lor(h, [abs(b - p) <= tol * (1 + abs(p)) for b in br if not isinf(b)]), 'breaks')
    segs = [s for s in r.segments]
    h.check(land(h, [s.a <= s.b for s in segs] + [s.b <= t.a for s, t in zip(segs[:-1], segs[1:])]), 'pieces-ordered')


def support(h, r, lo, hi):
    """first and last break are the ends of the image"""
    br = list(r.getBreaks())
    for b, e in ((br[0], lo), (br[-1], hi)):
        if isinf(e) or isinf(b):
            h.check(isinf(b) and isinf(e) and b == e, 'support')
        else:
            h.check_eq(b, e, 'support')


def exactly(h, a, b):
    return bool(a == b) if h.sym else abs(a - b) <= 1e-9 * (1e-3 + abs(a))


def clear(h, w):
    """breaks are at, or clearly off, the points where pieces are cut"""
    for p in w.points():
        for c in (0, h.q(1, 2), 1, 2):
            h.assume(lor(h, [p == c, p - c >= h.q(1, 10 ** 6), c - p >= h.q(1, 10 ** 6)]))


class Fn(object):
    """increasing or decreasing function on (lo, hi): value, slope at u"""

    def __init__(self, make, g, dg, lo=-INF, hi=INF, rng=(-20, 20), pts=None, outside=(), enc=(), frompre=None, analytic=True):
        self.make, self.g, self.dg, self.lo, self.hi, self.rng = make, g, dg, lo, hi, rng
        self.pts, self.outside, self.enc, self.frompre, self.analytic = pts, outside, enc, frompre, analytic


def scalar_pdf(h, d, y, want, label):
    h.check_eq(value(d.pdf(y)), want, label, tol=1e-6)
    v = d.pdf(h.array([y, y]))
    h.check(np.shape(v) == (2,), label + '-shape')
    h.check_eq(unwrap(v[1]), want, label + '-vector', tol=1e-6)


def injective(F, spec, at=None, pts=None, arr=True):
    def fn(h):
        if pts is not None:
            w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, pts=[p(h) if callable(p) else p for p in pts])
        else:
            w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at)
        u = F.frompre(h) if F.frompre else h.real('u', *F.rng)
        clear(h, w)
        es = ordered(h, w.points())
        for e in es:                    # inside the domain
            if not isinf(F.lo):
                h.assume(e >= F.lo)
            if not isinf(F.hi):
                h.assume(e <= F.hi)
        locate(h, u, es)
        ordered(h, [F.g(p) for p, _ in w.masses])
        with Integrals(h), exact_pieces():
            d = F.make(Dens(w.pf))
            r = d.get_piecewise_pdf()
            y = F.g(u)
            want = w.at(u) / abs(F.dg(u))
            density(h, r, y, want, 'density')
            if F.analytic and not w.masses:
                scalar_pdf(h, d, y, want, 'pdf')
            masses(h, r, [(F.g(p), q) for p, q in w.masses], near=exactly)
            sorted_breaks(h, r, [F.g(e) for e in w.ends()])
            im = [F.g(e) for e in w.ends()]
            for o in F.outside:
                density(h, r, o, 0, 'outside')
                if F.analytic and not w.masses:
                    scalar_pdf(h, d, o, 0, 'outside-pdf')
        w.unchanged()
    return fn


SEGENC = ['segments.PiecewiseFunction.copyComposition', 'segments.Segment.probComposition', 'segments.prob_comp_fun', 'distr.FuncDistr.pdf', 'distr.FuncDistr.init_piecewise_pdf']
q = lambda a, b=1: (lambda h: h.q(a, b))


def tan_pre(h):
    return m('arctan', h.real('t', -50, 50))


EXP = Fn(D.exp, lambda u: m('exp', u), lambda u: m('exp', u), outside=(-1, -20), enc=['distr.ExpDistr'])
LOG = Fn(D.log, lambda u: m('log', u) if not (not isinstance(u, sym.Sym) and u == 0) else -INF, lambda u: 1 / u, lo=0, rng=(0.001, 200), enc=['distr.LogDistr', 'segments.PiecewiseFunction.copyLogComposition'])
ATAN = Fn(D.atan, lambda u: m('arctan', u), lambda u: 1 / (1 + u * u), outside=(-2, 2, 10), enc=['distr.AtanDistr'])
TANH = Fn(D.tanh, lambda u: m('tanh', u), lambda u: 1 - m('tanh', u) ** 2, outside=(-2, 1.5), enc=['distr.TanhDistr'])


def sig(u):
    if isinf(u):
        return 1.0 if u > 0 else 0.0
    e = m('exp', u)
    return e / (1 + e)


SIG = Fn(D.sigmoid, sig, lambda u: sig(u) * (1 - sig(u)), outside=(-2, -0.5, 1.5), enc=['distr.SigmoidDistr'])
TAN = Fn(D.tan, lambda u: m('tan', u), lambda u: 1 + m('tan', u) ** 2, frompre=tan_pre, enc=['distr.TanDistr'])

def logs(k, *cs):
    return [(lambda h, c=c: m('log', h.q(*c)) / k) for c in cs]


for nm, F, k in (('tanh', TANH, 2), ('sigmoid', SIG, 1)):
    G = Fn(F.make, F.g, F.dg, outside=F.outside, frompre=lambda h, k=k: m('log', h.real('t', 0.0001, 10000)) / k)
    for sp in ('S', 'M P', 'S S', 'S _ S', 'd S', 'S d S', 'd _ d', 'M', 'P', 'L'):
        for ps in ([(1, 7), (1, 3), (5, 4), (6, 1)], [(3, 2), (20, 1), (50, 1), (300, 1)]):
            add('%s-fixed[%s@%d/%d]' % ((nm, sp) + ps[0]), injective(G, sp, pts=logs(k, *ps)), bounds='pieces "%s" with fixed breaks; any point' % sp, encoded=SEGENC + F.enc, quick=sp in ('S', 'M P', 'd S', 'd _ d') and (nm == 'tanh' or ps[0] == (1, 7)), budget=60)

for nm, F in (('exp', EXP), ('atan', ATAN), ('tanh', TANH), ('sigmoid', SIG)):
    for sp in ('S', 'M P', 'S S', 'S _ S', 'd S', 'S d S', 'd _ d', 'M', 'P', 'L', 'R'):
        add('%s[%s]' % (nm, sp), injective(F, sp, at=(-10, 10)), bounds='pieces "%s" with any breaks, densities, masses; any point in [-20,20]' % sp, encoded=SEGENC + F.enc, quick=nm in ('exp', 'atan') and sp in ('S', 'M P', 'S d S', 'd _ d', 'M'), budget=60)
for sp in ('S', 'P', 'S S', 'S _ S', 'd S', 'S d S', 'd _ d'):
    add('log[%s]' % sp, injective(LOG, sp, at=(0.01, 10)), bounds='pieces "%s" with any positive breaks' % sp, encoded=SEGENC + LOG.enc, quick=sp in ('S', 'P', 'd S', 'd _ d'), budget=60)
for sp in ('S', 'P', 'S S', 'L', 'S d'):
    add('log0[%s]' % sp, injective(LOG, sp, at=0), bounds='pieces "%s" starting at zero' % sp, encoded=SEGENC + LOG.enc, quick=sp != 'S S', budget=60)
TP = [lambda h: m('arctan', h.q(-3)), lambda h: m('arctan', h.q(1, 2)), lambda h: m('arctan', h.q(4)), lambda h: m('arctan', h.q(9))]
for sp in ('S', 'S S', 'S _ S', 'd S', 'd _ d'):
    add('tan[%s]' % sp, injective(TAN, sp, pts=TP), bounds='pieces "%s" within (-pi/2, pi/2) with fixed breaks' % sp, encoded=SEGENC + TAN.enc)


# ---------------------------------------------------------------- |X|, X^2, 1/X
def ab(h, w, y):
    return w.at(y) + w.at(-y)


def absolute(spec, at, pts=None):
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at, pts=pts)
        x = h.real('x', 0.001, 300)
        clear(h, w)
        es = ordered(h, w.points() + [-e for e in w.points()])
        locate(h, x, es)
        d = abs(Dens(w.pf))
        r = d.get_piecewise_pdf()
        want = ab(h, w, x)
        density(h, r, x, want, 'density')
        density(h, r, -x, 0, 'negative')
        masses(h, r, [(abs(p), n) for p, n in w.masses])
        sorted_breaks(h, r, [abs(e) for e in w.ends()])
        if not w.masses:
            scalar_pdf(h, d, x, want, 'pdf')
            scalar_pdf(h, d, -x, 0, 'pdf-negative')
        w.unchanged()
    return fn


def absolute_zero(spec, pts):
    """zero is an ordinary point of a variable with values on both sides of it"""
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, pts=pts)
        d = abs(Dens(w.pf))
        z = h.q(0)
        scalar_pdf(h, d, z, 2 * w.at(z), 'pdf-at-zero')
        v = d.pdf(h.array([-h.q(1, 2), z, h.q(1, 2)]))
        h.check(np.shape(v) == (3,), 'shape')
        for k, want in enumerate([0, 2 * w.at(z), ab(h, w, h.q(1, 2))]):
            h.check_eq(unwrap(v[k]), want, 'around-zero%d' % k, tol=1e-6)
    return fn


for s_, p_ in (('S', (-2, 5)), ('M P', (3,)), ('M P', (-1,)), ('S S', (-4, -1, 3))):
    add('abs-at-zero[%s@%s]' % (s_, p_[0]), absolute_zero(s_, p_), bounds='pieces "%s" around zero: any densities' % s_, encoded=['distr.AbsDistr.pdf'])


def square(spec, at, pts=None):
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at, pts=pts)
        x = h.real('x', 0.01, 300)
        clear(h, w)
        es = ordered(h, w.points() + [-e for e in w.points()])
        locate(h, x, es)
        d = Dens(w.pf) ** 2
        r = d.get_piecewise_pdf()
        want = ab(h, w, x) / (2 * x)
        y = x * x
        density(h, r, y, want, 'density')
        density(h, r, -y, 0, 'negative')
        masses(h, r, [(p * p, n) for p, n in w.masses])
        sorted_breaks(h, r, [INF if isinf(e) else e * e for e in w.ends()])
        if not w.masses:
            scalar_pdf(h, d, y, want, 'pdf')
            scalar_pdf(h, d, -y, 0, 'pdf-negative')
        w.unchanged()
    return fn


def inverse(spec, at, pts=None, how='inv'):
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at, pts=pts)
        u = h.real('u', 0.004, 300) * h.choose('sgn', [1, -1])
        clear(h, w)
        es = ordered(h, w.points() + [0])
        for e in w.points():
            if not is0(e):
                h.assume(lor(h, [e >= h.q(1, 100), e <= -h.q(1, 100)]))
        locate(h, u, es)
        if how == 'num':
            c = h.real('c', 0.1, 10) * h.choose('csgn', [1, -1])
        else:
            c = 1
        dd = Dens(w.pf)
        d = {'inv': lambda: dd ** -1, 'one': lambda: 1 / dd, 'num': lambda: c / dd}[how]()
        r = d.get_piecewise_pdf()
        y = c / u
        want = w.at(u) * u * u / abs(c)
        density(h, r, y, want, 'density')
        if not w.masses:
            scalar_pdf(h, d, y, want, 'pdf')
        masses(h, r, [(c / p, n) for p, n in w.masses])
        fin = [e for e in w.ends() if not isinf(e) and not is0(e)]
        sorted_breaks(h, r, [c / e for e in fin])
        w.unchanged()
    return fn


def is0(p):
    return not isinstance(p, sym.Sym) and p == 0


ABS = ['segments.PiecewiseFunction.copyAbsComposition', 'segments.Segment.absComposition', 'distr.AbsDistr']
SQ = ['segments.PiecewiseFunction.copySquareComposition', 'segments.Segment.squareComposition', 'distr.SquareDistr']
INV = ['segments.PiecewiseFunction.copyProbInverse', 'segments.Segment.probInverse', 'distr.InvDistr']
for nm, fn, enc in (('abs', absolute, ABS), ('square', square, SQ)):
    for sp in ('S', 'M P', 'S S', 'S _ S', 'S d', 'd _ d', 'S d S', 'L', 'R', 'M', 'P'):
        add('%s[%s]' % (nm, sp), fn(sp, (-60, 60)), bounds='pieces "%s" at any place' % sp, encoded=enc, budget=60, quick=sp in ('S', 'M P', 'S S', 'S d', 'd _ d', 'P') and (nm, sp) != ('square', 'S S'))
    for sp in ('S', 'P', 'M', 'M P', 'd S', 'M d P', 'L'):
        add('%s-at-zero[%s]' % (nm, sp), fn(sp, 0), bounds='pieces "%s" starting at zero' % sp, encoded=enc)
    for sp in ('S S', 'S d S', 'd S S d', 'd S d', 'S d _ S', 'R L'):
        add('%s-symmetric[%s]' % (nm, sp), fn(sp, None, pts=[-2, 0, 2] if sp in ('S S', 'S d S', 'd S S d', 'R L') else [-2, 2, 3, 4]), bounds='pieces "%s" with breaks symmetric about zero' % sp, encoded=enc)
for sp in ('S', 'M P', 'S S', 'S _ S', 'S d', 'd _ d', 'S d S', 'P', 'M'):
    add('reciprocal[%s]' % sp, inverse(sp, (-60, 60)), bounds='pieces "%s" at any place' % sp, encoded=INV, budget=60, quick=sp not in ('S _ S', 'S d S'))
for sp in ('S', 'P', 'M', 'L', 'S d'):
    add('reciprocal-at-zero[%s]' % sp, inverse(sp, 0), bounds='pieces "%s" starting at zero' % sp, encoded=INV)
for sp in ('S', 'M P', 'd _ d'):
    add('one-over[%s]' % sp, inverse(sp, (-60, 60), how='one'), bounds='pieces "%s" at any place' % sp, encoded=INV)
for sp in ('S', 'd _ d', 'P'):
    add('number-over[%s]' % sp, inverse(sp, (1, 20), how='num'), bounds='pieces "%s" right of 1; any numerator' % sp, encoded=INV)


# ---------------------------------------------------------------- sine and cosine
PI = math.pi


def trig(which, spec, pts, branch):
    """point y in (-1,1); preimages asin y, pi - asin y (or acos y, 2 pi - acos y)"""
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, pts=[p(h) if callable(p) else p for p in pts])
        y = h.real('y', -0.99, 0.99)
        pi = sym.lift(PI) if h.sym else PI
        if which == 'sin':
            a = m('arcsin', y)
            us = [a, pi - a]
        else:
            a = m('arccos', y)
            us = [a, 2 * pi - a]
        clear(h, w)
        es = ordered(h, w.points())
        for u in us:
            locate(h, u, es)
        slope = m('sqrt', 1 - y * y)
        d = (D.sin if which == 'sin' else D.cos)(Dens(w.pf))
        with Integrals(h), exact_pieces():
            r = d.get_piecewise_pdf()
            away(h, y, list(r.getBreaks()))
            want = sum(w.at(u) for u in us) / slope
            density(h, r, y, want, 'density')
            h.check_eq(value(d.pdf(y)), want, 'pdf', tol=1e-6)
            for o in (-1.5, 2):
                density(h, r, o, 0, 'outside')
            masses(h, r, [(m(which, p), n) for p, n in w.masses])
    return fn


def at_asin(k, s):
    """the point with sine s: asin s, or pi - asin s"""
    def p(h):
        v = m('arcsin', h.q(*s))
        return v if k == 0 else (sym.lift(PI) if h.sym else PI) - v
    return p


def at_acos(k, s):
    def p(h):
        v = m('arccos', h.q(*s))
        return v if k == 0 else (sym.lift(2 * PI) if h.sym else 2 * PI) - v
    return p


TRIG = ['segments.PiecewiseFunction.copyCompositionNoninjective', 'segments.PiecewiseFunction.restrictToInterval', 'segments.Segment.probComposition', 'distr.FuncNoninjectiveDistr']
for nm, at, order in (('sin', at_asin, (1, -1)), ('cos', at_acos, (-1, 1))):
    first = [at(0, (-order[0] * 3, 4)), at(0, (order[0] * 1, 3)), at(0, (order[0] * 3, 5)), at(0, (order[0] * 7, 8))]
    second = [at(1, (-order[1] * 3, 4)), at(1, (order[1] * 1, 3)), at(1, (order[1] * 3, 5)), at(1, (order[1] * 7, 8))]
    both = [at(0, (-order[0] * 3, 4)), at(1, (order[1] * 1, 3)), at(1, (order[1] * 3, 5)), at(1, (order[1] * 7, 8))]
    enc = TRIG + ['distr.SinDistr' if nm == 'sin' else 'distr.CosDistr']
    for sp in ('S', 'S S', 'S _ S', 'd S', 'd _ d'):
        for br, pts in (('first', first), ('second', second), ('both', both)):
            add('%s-%s[%s]' % (nm, br, sp), trig(nm, sp, pts, br), bounds='pieces "%s", fixed breaks on the %s monotone branch' % (sp, br), encoded=enc, quick=sp in ('S', 'S _ S', 'd S'))


# ---------------------------------------------------------------- powers
def power(spec, at, c=None, pts=None, how='pow'):
    """X**c for positive X at y = u**c, through the logarithm of u"""
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at, pts=pts)
        l = h.real('l', -5, 5)
        u = m('exp', l)
        clear(h, w)
        es = ordered(h, w.points())
        locate(h, u, es)
        if c is None:
            e = h.real('c', 0.3, 4) * h.choose('sgn', [1, -1])
            away(h, e, [1, -1, 2], h.q(1, 10))
        else:
            e = h.q(*c)
        for f in (lambda p: m('log', p), lambda p: m('exp', e * m('log', p))):
            ordered(h, [f(p) for p, _ in w.masses])
        dd = Dens(w.pf)
        d = D.sqrt(dd) if how == 'sqrt' else dd ** e
        with Integrals(h):
            r = d.get_piecewise_pdf()
        y = m('exp', e * l)
        want = w.at(u) * u / (abs(e) * y)
        density(h, r, y, want, 'density')
        if not w.masses:
            scalar_pdf(h, d, y, want, 'pdf')
        ms = [(m('exp', e * m('log', p)), n) for p, n in w.masses]
        masses(h, r, ms, near=exactly)
    return fn


def base(spec, at, c, how='rpow'):
    """b**X at y = b**u"""
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at)
        u = h.real('u', -8, 8)
        clear(h, w)
        es = ordered(h, w.points())
        locate(h, u, es)
        lb = h.q(*h.choose('log-base', [(-1, 2), (-4, 1), (-1, 9)] if c == 'small' else [(1, 2), (4, 1), (1, 9)]))
        b = m('exp', lb)
        ordered(h, [m('exp', p * lb) for p, _ in w.masses])
        d = b ** Dens(w.pf)
        with Integrals(h):
            r = d.get_piecewise_pdf()
        y = m('exp', u * lb)
        want = w.at(u) / (abs(lb) * y)
        density(h, r, y, want, 'density')
        masses(h, r, [(m('exp', p * lb), n) for p, n in w.masses], near=exactly)
    return fn


POW = ['distr.Distr.__pow__', 'distr.ExpDistr', 'distr.LogDistr', 'distr.ShiftedScaledDistr'] + SEGENC
for sp in ('S', 'P', 'd S', 'S _ S', 'd _ d'):
    for c in ((1, 2), (3, 1), (-2, 1), (5, 2)):
        add('power[%s,%s/%s]' % ((sp,) + c), power(sp, (0.5, 10), c), bounds='pieces "%s" with positive breaks, exponent %s/%s' % ((sp,) + c), encoded=POW, quick=(sp == 'S' and c != (5, 2)) or (sp == 'd S' and c == (-2, 1)), budget=60)
    add('power[%s]' % sp, power(sp, (0.5, 10)), bounds='pieces "%s" with positive breaks, any exponent of size 0.3 to 4' % sp, encoded=POW, quick=False)
for sp in ('S', 'd _ d'):
    add('sqrt[%s]' % sp, power(sp, (0.5, 10), (1, 2), how='sqrt'), bounds='pieces "%s" with positive breaks' % sp, encoded=POW + ['distr.sqrt'], budget=60)
for sp in ('S', 'M P', 'd _ d'):
    for c in ('small', 'large'):
        add('base[%s,%s]' % (sp, c), base(sp, (-4, 4), c), bounds='pieces "%s", three %s bases' % (sp, c), encoded=['distr.Distr.__rpow__'] + POW, quick=sp != 'M P')


def special_powers(h):
    w = PW(h, 'f', 'S', cls=S.PiecewiseDistribution, at=(0.5, 10))
    d = Dens(w.pf)
    h.check(d ** 0 == 1, 'zeroth-power')
    h.check(d ** 1 is d, 'first-power')
    h.check(1 ** d == 1 and 0 ** d == 0, 'powers-of-one-and-zero')
    try:
        (-h.real('b', 0.1, 5)) ** d
    except ValueError:
        h.check(True, 'negative-base-refused')
    else:
        h.check(False, 'negative-base-refused')


add('special-powers', special_powers, bounds='one positive piece', encoded=['distr.Distr.__pow__', 'distr.Distr.__rpow__'])


# ---------------------------------------------------------------- sign, affine maps, refusals
def sign(spec, at, pts=None):
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=at, pts=pts)
        for e in w.points():
            if not is0(e):
                h.assume(lor(h, [e >= h.q(1, 100), e <= -h.q(1, 100)]))
        with Integrals(h) as G:
            G.positive = True
            d = D.sign(Dens(w.pf))
            G.positive = False
            ps = dict(zip(d.xi, d.pi))
            h.check(set(ps) <= {-1, 0, 1} and len(ps) == len(d.xi), 'values')
            zero = [n for p, n in w.masses if is0(p)]
            h.check_eq(ps.get(0, 0), zero[0] if zero else 0, 'zero')
            tot = sum([n for _, n in w.masses])
            for k in (-1, 1):
                keep = list(G.recs)
                complement(G, ps.get(k, 0), lambda t: w.at(t) if bool(t * k > 0) else 0, 'negative' if k < 0 else 'positive', w.at,
                           sum([n for p, n in w.masses if not is0(p) and bool(p * k > 0)]), tot, [-INF, INF, 0] + w.ends())
                G.recs[:] = keep
            r = d.get_piecewise_pdf()
            masses(h, r, [(k, v) for k, v in ps.items() if not is0(v)], 'result')
    return fn


def affine(spec, how):
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution, at=(-20, 20))
        a, b = 1, 0
        if how in ('add', 'radd', 'sub', 'rsub'):
            b = h.real('b', -50, 50)
        else:
            a = h.real('a', 0.05, 20) * h.choose('sgn', [1, -1]) if how != 'neg' else -1
        d = Dens(w.pf)
        r = {'add': lambda: d + b, 'radd': lambda: b + d, 'sub': lambda: d - b, 'rsub': lambda: b - d, 'mul': lambda: d * a, 'rmul': lambda: a * d, 'div': lambda: d / a, 'neg': lambda: -d}[how]()
        sc = {'rsub': -1, 'div': 1 / a if how == 'div' else 1}.get(how, a)
        sh = -b if how == 'sub' else b
        u = h.real('u', -200, 200)
        clear(h, w)
        es = ordered(h, w.points())
        locate(h, u, es)
        pf = r.get_piecewise_pdf()
        y = u * sc + sh
        want = w.at(u) / abs(sc)
        density(h, pf, y, want, 'density')
        if not w.masses:
            scalar_pdf(h, r, y, want, 'pdf')
        masses(h, pf, [(p * sc + sh, n) for p, n in w.masses], near=exactly)
        sorted_breaks(h, pf, [e * sc + sh for e in w.ends()])
        w.unchanged()
    return fn


for sp in ('S', 'M P', 'd S', 'S _ S'):
    for how in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'neg'):
        add('affine-%s[%s]' % (how, sp), affine(sp, how), bounds='pieces "%s", any shift or factor' % sp, encoded=['distr.ShiftedScaledDistr', 'segments.PiecewiseFunction.copyShiftedAndScaled', 'distr.Distr operators'], quick=sp != 'S _ S')
for sp in ('S', 'M P', 'S _ S', 'd _ d', 'S d', 'M d P', 'P', 'M'):
    add('sign[%s]' % sp, sign(sp, (-20, 20)), bounds='pieces "%s" anywhere' % sp, encoded=['distr.SignDistr', 'distr.sign', 'distr.Distr.ccdf_value'])
for sp, pts in (('S d S', [-2, 0, 3]), ('d S', [0, 3]), ('M d P', [0]), ('d _ d', [0, 2]), ('S d', [-2, 0]), ('d _ d', [-3, 0]), ('d', [0])):
    add('sign-zero[%s@%s]' % (sp, pts[0]), sign(sp, None, pts=pts), bounds='pieces "%s" with a mass at zero' % sp, encoded=['distr.SignDistr', 'distr.sign'])


def refused(h):
    """logarithm and root of a variable with negative values, affine map by zero"""
    w = PW(h, 'f', h.choose('spec', ['S', 'd _ d', 'M P', 'S d']), cls=S.PiecewiseDistribution, at=(-20, -0.01))
    d = Dens(w.pf)
    for nm, f in (('log', lambda: D.log(d)), ('sqrt', lambda: D.sqrt(d)), ('power', lambda: d ** 1.5), ('log-of-sine', lambda: D.log(D.sin(Dens(PW(h, 'g', 'S', cls=S.PiecewiseDistribution, pts=[-1, 1]).pf))))):
        try:
            f()
        except ValueError:
            h.check(True, nm + '-refused')
        else:
            h.check(False, nm + '-refused')


add('refused', refused, bounds='one or two pieces reaching below zero', encoded=['distr.LogDistr', 'distr.sqrt', 'segments.PiecewiseFunction.isNonneg'])


def numbers(h):
    """overloads applied to numbers"""
    x = h.real('x', 0.01, 3)
    sgn = h.choose('sgn', [1, -1])
    for nm, f, g in (('exp', D.exp, 'exp'), ('atan', D.atan, 'arctan'), ('tanh', D.tanh, 'tanh'), ('sin', D.sin, 'sin'), ('cos', D.cos, 'cos'), ('tan', D.tan, 'tan')):
        h.check_eq(f(sgn * x), m(g, sgn * x), nm)
    h.check_eq(D.log(x), m('log', x), 'log')
    h.check_eq(D.sqrt(x), m('sqrt', x), 'sqrt')
    h.check_eq(D.sign(sgn * x), sgn, 'sign')
    h.check_eq(D.sigmoid(sgn * x), sig(sgn * x), 'sigmoid')
    v = D.sigmoid(h.array([x, -x]))
    h.check_eq(unwrap(v[0]), sig(x), 'sigmoid-vector')
    h.check_eq(unwrap(v[1]), sig(-x), 'sigmoid-vector')


add('numbers', numbers, bounds='numbers of size 0.01 to 3', encoded=['distr.exp', 'distr.log', 'distr.sign', 'distr.sqrt', 'distr.atan', 'distr.tanh', 'distr.sigmoid', 'distr.sin', 'distr.cos', 'distr.tan'])


def beyond_branches(which):
    """variables reaching outside the branches listed in the class"""
    def fn(h):
        pi = sym.lift(PI) if h.sym else PI
        y = h.real('y', -0.9, 0.9)
        if which == 'tan':
            w = PW(h, 'f', 'S', cls=S.PiecewiseDistribution, pts=[2, 4])
            u = pi + m('arctan', y)
            slope = 1 + y * y
        elif which == 'sin':
            w = PW(h, 'f', 'S', cls=S.PiecewiseDistribution, pts=[-4, -2])
            u = -pi - m('arcsin', y)
            slope = m('sqrt', 1 - y * y)
        else:
            w = PW(h, 'f', 'S', cls=S.PiecewiseDistribution, pts=[-3, 0])
            u = -m('arccos', y)
            slope = m('sqrt', 1 - y * y)
        h.assume(y != 0)
        locate(h, u, w.points())
        d = {'sin': D.sin, 'cos': D.cos, 'tan': D.tan}[which](Dens(w.pf))
        want = w.at(u) / slope if which != 'tan' else w.at(u) / slope
        h.check_eq(value(d.pdf(y)), want, 'density-elsewhere', tol=1e-6)
    return fn


for nm in ('sin', 'cos', 'tan'):
    add('%s-elsewhere' % nm, beyond_branches(nm), bounds='one piece on another monotone branch', encoded=TRIG)
