"""Pieces of piecewise functions: evaluation, integration over sub-ranges,
cumulative form, shifting/scaling and composition."""
import math
import operator
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.sym import lift, Infeasible
from engine.seg import Integrals, make, ends, reference, INF
from checks.c07 import exactness
import pacal.segments as S
import pacal.interpolation as N

P = 'C08'
META = {'assumptions': ['integration routines return the integral over the range they are given (C02)',
                        'polynomial interpolation is exact where a piece is interpolated (C06, C07)']}
HARNESSES = []
KINDS = ('seg', 'const', 'pinf', 'minf', 'poleL', 'poleR')
E1 = {'seg': 'Segment', 'const': 'ConstSegment', 'pinf': 'PInfSegment', 'minf': 'MInfSegment', 'poleL': 'SegmentWithPole', 'poleR': 'SegmentWithPole'}


def build(h, kind, lo=-150, hi=150):
    a = h.real('a', lo, hi)
    b = a + h.real('len', 0.05, 100)
    c = h.real('c', -5, 5)
    f = h.fun('f')
    g = (lambda x: c) if kind == 'const' else f
    return make(h, kind, f, a, b, c), a, b, g


def inside(kind, a, b, x):
    lo, hi = ends(kind, a, b)
    return (lo == -INF or bool(x >= lo)) and (hi == INF or bool(x <= hi))


def add(name, fn, **kw):
    kw.setdefault('budget', 12)
    HARNESSES.append(Harness(name, fn, P, **kw))


def evaluation(kind):
    def fn(h):
        s, a, b, g = build(h, kind)
        x = h.real('x', -300, 300)
        y = h.real('y', -300, 300)
        wx = g(x) if inside(kind, a, b, x) else 0
        wy = g(y) if inside(kind, a, b, y) else 0
        h.check_eq(s(x), wx, 'scalar')
        v = s(h.array([x, y, x]))
        h.check(np.shape(v) == (3,), 'shape')
        h.check_eq(v[0], wx, 'array')
        h.check_eq(v[1], wy, 'array')
        h.check_eq(v[2], wx, 'array')
        if kind not in ('pinf',):
            h.check_eq(s(b), g(b), 'closed-right')
            h.check_eq(s(h.array([b]))[0], g(b), 'closed-right')
        if kind not in ('minf',):
            h.check_eq(s(a), g(a), 'closed-left')
            h.check_eq(s(h.array([a]))[0], g(a), 'closed-left')
        h.check_eq(s.a, ends(kind, a, b)[0], 'left-end')
        h.check_eq(s.b, ends(kind, a, b)[1], 'right-end')
        h.check(s.isSegment() and not s.isDirac(), 'is-a-segment')
        h.check(s.isPInf() == (kind == 'pinf') and s.isMInf() == (kind == 'minf'), 'infinite-flags')
        h.check(s.isMorPInf() == (kind in ('pinf', 'minf')), 'infinite-flags')
        h.check(s.hasLeftPole() == (kind == 'poleL') and s.hasRightPole() == (kind == 'poleR'), 'pole-flags')
        h.check(s.hasPole() == (kind in ('poleL', 'poleR')), 'pole-flags')
        # integer points
        k = h.choose('k', [-1, 0, 2])
        h.assume(a < k)
        h.assume(k < b)
        if not h.sym:
            for v in (s(np.array([k, k])), s(np.array([k, k], dtype=float))):
                h.check_eq(v[0], g(float(k)), 'integer-array')
                h.check_eq(v[1], g(float(k)), 'integer-array')
    return fn


for k in KINDS:
    add('evaluate[%s]' % k, evaluation(k), bounds='any function, ends in [-20,30], points in [-60,60]', encoded=['segments.%s.__call__' % E1[k]])


def dirac_eval(h):
    p, m = h.real('p', -150, 150), h.real('m', -3, 3)
    d = S.DiracSegment(p, m)
    x = h.real('x', -200, 200)
    at = bool(x == p)
    h.check((d(x) != 0) == at, 'non-zero-only-at-the-point')
    v = d(h.array([x, p]))
    h.check((v[0] != 0) == at, 'non-zero-only-at-the-point')
    h.check(v[1] != 0, 'non-zero-at-the-point')
    h.check(d.isDirac() and not d.isSegment() and not d.isMorPInf() and not d.hasPole(), 'flags')
    h.check_eq(d.a, p, 'position')
    h.check_eq(d.b, p, 'position')
    lo, hi = h.real('lo', -200, 200), h.real('hi', -200, 200)
    h.assume(lo < hi)
    h.assume(lo != p)
    h.assume(hi != p)
    h.check_eq(d.integrate(lo, hi), m if bool(lo < p) and bool(p < hi) else 0, 'mass-counted-inside')
    h.check_eq(d.integrate(-INF, hi), m if bool(p < hi) else 0, 'mass-counted-inside')
    h.check_eq(d.integrate(lo, INF), m if bool(lo < p) else 0, 'mass-counted-inside')
    h.check_eq(d.integrate(-INF, INF), m, 'mass-counted-inside')
    sh, sc = h.real('shift', -80, 80), h.real('scale', -20, 20)
    h.assume(sc != 0)
    e = d.shiftAndScale(sh, sc)
    h.check(e.isDirac(), 'stays-a-mass')
    h.check_eq(e.a, p * sc + sh, 'moved-mass')
    h.check_eq(e.f, m, 'moved-mass')
    e = d.probComposition(lambda u: 2 * u + 1, lambda u: (u - 1) / 2, lambda u: 0.5)
    h.check(e.isDirac(), 'stays-a-mass')
    h.check_eq(e.a, 2 * p + 1, 'moved-mass')
    h.check_eq(e.f, m, 'moved-mass')
    e = d.squareComposition()
    h.check_eq(e.a, p * p, 'moved-mass')
    h.check_eq(e.f, m, 'moved-mass')
    e = d.absComposition()
    h.check_eq(e.a, p if bool(p >= 0) else -p, 'moved-mass')
    h.check_eq(e.f, m, 'moved-mass')


add('point-mass', dirac_eval, bounds='any position in [-20,20] and mass', encoded=['segments.DiracSegment'])


def integrate(kind, how):
    def fn(h):
        s, a, b, g = build(h, kind)
        A, B = ends(kind, a, b)
        lo = h.real('lo', -300, 300) if how[0] == 'v' else (None if how[0] == 'n' else -INF)
        hi = h.real('hi', -300, 300) if how[1] == 'v' else (None if how[1] == 'n' else INF)
        if how == 'vv':
            h.assume(lo <= hi)
        with Integrals(h) as G:
            r = s.integrate(lo, hi)
        L = -INF if lo is None else lo
        H = INF if hi is None else hi

        def want(t):
            ok = (isinstance(A, float) and math.isinf(A) or bool(t > A)) and (isinstance(B, float) and math.isinf(B) or bool(t < B))
            ok = ok and (isinstance(L, float) and math.isinf(L) or bool(t > L)) and (isinstance(H, float) and math.isinf(H) or bool(t < H))
            return g(t) if ok else 0.0
        G.check(unwrap(r), want, 'integral', 0, [A, B, L, H], closed=closed(h, kind, g, [A, L], [B, H]))
    return fn


for k in KINDS:
    for how in ('vv', 'nv', 'vn', 'nn', 'ii'):
        add('integrate[%s,%s]' % (k, how), integrate(k, how), budget=10, bounds='any function; sub-range ends anywhere in [-60,60], default or infinite',
            encoded=['segments.%s.integrate' % E1[k]])


def closed(h, kind, g, los, his):
    """exact integral of a constant piece"""
    if kind != 'const':
        return None
    lo, hi = -INF, INF
    for v in los:
        if isinstance(v, sym.Sym) or not math.isinf(v):
            lo = v if not isinstance(lo, sym.Sym) and lo == -INF else (v if bool(v > lo) else lo)
    for v in his:
        if isinstance(v, sym.Sym) or not math.isinf(v):
            hi = v if not isinstance(hi, sym.Sym) and hi == INF else (v if bool(v < hi) else hi)
    return g(lo) * (hi - lo) if bool(lo < hi) else lift(0) if h.sym else 0.0


def cumulative(kind):
    def fn(h):
        s, a, b, g = build(h, kind)
        A, B = ends(kind, a, b)
        y0 = h.real('y0', -3, 3)
        lo = a if kind != 'minf' else b - 30
        hi = b if kind != 'pinf' else a + 30
        x = lo + h.real('x', 0, 1) * (hi - lo)
        with Integrals(h) as G:
            c = s.cumint(y0)
            h.check_eq(c.a, A, 'same-range')
            h.check_eq(c.b, B, 'same-range')
            h.check(c.isPInf() == s.isPInf() and c.isMInf() == s.isMInf(), 'same-kind')
            for vec in (False, True):
                r = unwrap(c.f(h.array([x]))[0] if vec else c.f(x))

                def want(t):
                    if kind == 'pinf':
                        return -g(t) if bool(t > x) else 0.0
                    return g(t) if (kind == 'minf' or bool(t > a)) and bool(t < x) else 0.0
                G.check(r, want, 'cumulative' + ('-vector' if vec else ''), y0, [A, B, x], closed=closed(h, kind, g, [a], [x]))
            if kind not in ('pinf',):
                r = c.f(b)
                G.check(r, lambda t: g(t) if (kind == 'minf' or bool(t > a)) and bool(t < b) else 0.0, 'right-end', y0, [A, B], closed=closed(h, kind, g, [a], [b]))
            if kind not in ('minf', 'pinf'):
                G.check(c.f(a), lambda t: 0.0, 'left-end', y0, [A, B])
    return fn


for k in KINDS:
    add('cumulative[%s]' % k, cumulative(k), budget=20, bounds='any function and start value, any point of the range', encoded=['segments.%s.cumint' % E1[k], 'segments.%s.segIntegral' % E1[k]])


def shift(kind):
    def fn(h):
        s, a, b, g = build(h, kind)
        A, B = ends(kind, a, b)
        sh, sc = h.real('shift', -80, 80), h.real('scale', -20, 20)
        h.assume(abs(sc) >= h.q(1, 16))
        r = s.shiftAndScale(sh, sc)
        pos = bool(sc > 0)
        if pos:
            nA, nB = (A if kind == 'minf' else a * sc + sh), (B if kind == 'pinf' else b * sc + sh)
        else:
            nA = -INF if kind == 'pinf' else b * sc + sh
            nB = INF if kind == 'minf' else a * sc + sh
        h.check_eq(r.a, nA, 'left-end')
        h.check_eq(r.b, nB, 'right-end')
        h.check(r.isPInf() == (not isinstance(nB, sym.Sym) and math.isinf(nB)), 'infinite-flags')
        h.check(r.isMInf() == (not isinstance(nA, sym.Sym) and math.isinf(nA)), 'infinite-flags')
        h.check(r.hasLeftPole() == (kind == ('poleL' if pos else 'poleR')), 'pole-side')
        h.check(r.hasRightPole() == (kind == ('poleR' if pos else 'poleL')), 'pole-side')
        lo = a if kind != 'minf' else b - 30
        hi = b if kind != 'pinf' else a + 30
        x = lo + h.real('x', 0, 1) * (hi - lo)
        y = x * sc + sh
        w = g(x) / abs(sc)
        h.check_eq(r.f(y), w, 'value', tol=1e-6)
        h.check_eq(r.f(h.array([y, y]))[1], w, 'value-vector', tol=1e-6)
        one = s.shiftAndScale(sh, 1)
        h.check_eq(one.f(x + sh), g(x), 'pure-shift', tol=1e-6)
    return fn


for k in KINDS:
    add('shift-scale[%s]' % k, shift(k), bounds='any function, shift in [-10,10], 1/16<=|scale|<=8', encoded=['segments.%s.shiftAndScale' % E1[k]])


# g, ginv, ginvderiv, monotone sign, (domain lo, hi)
def _rec(u):
    return S._op_one_over_x(u)


MAPS = {
    'affine+': (lambda u: 3 * u + 1, lambda u: (u - 1) / 3, lambda u: 1.0 / 3 + 0 * u, 1, (-8, 8)),
    'affine-': (lambda u: 1 - 2 * u, lambda u: (1 - u) / 2, lambda u: -0.5 + 0 * u, -1, (-8, 8)),
    'recip+': (S._op_one_over_x, S._op_one_over_x, S._op_one_over_xsqaure, -1, (0.1, 8)),
    'recip-': (S._op_one_over_x, S._op_one_over_x, S._op_one_over_xsqaure, -1, (-8, -0.1)),
    'square': (lambda u: u * u, S._op_sqrt, S._op_half_over_sqrt, 1, (0.1, 8)),
}


def compose(mp):
    g, gi, gd, sg, (lo, hi) = MAPS[mp]

    def fn(h):
        a = h.real('a', lo, hi)
        b = h.real('b', lo, hi)
        h.assume(b - a >= h.q(1, 20))
        f = h.fun('f')
        s = S.Segment(a, b, f)
        r = s.probComposition(g, gi, gd)
        e = (g(a), g(b)) if sg > 0 else (g(b), g(a))
        h.check_eq(r.a, e[0], 'left-end')
        h.check_eq(r.b, e[1], 'right-end')
        h.check(r.isSegment() and not r.isMorPInf(), 'finite')
        x = h.real('x', lo, hi)
        h.assume(a <= x)
        h.assume(x <= b)
        y = g(x)
        w = f(x) * abs(gd(y))
        h.check_eq(r.f(y), w, 'density', tol=1e-6)
        h.check_eq(r.f(h.array([y, y]))[1], w, 'density-vector', tol=1e-6)
        # change of variables: the slope is that of the inverse map
        if h.sym:
            h.check_eq(abs(gd(y)) * abs(h.deriv(g, x)), 1, 'slope', tol=1e-6)
    return fn


for m in MAPS:
    add('compose[%s]' % m, compose(m), bounds='any density, ends inside %s' % (MAPS[m][4],), encoded=['segments.Segment.probComposition', 'segments.prob_comp_fun'])


def reciprocal(h):
    """1/x on a range touching zero reaches infinity; on a half-line it touches zero"""
    f = h.fun('f')
    c = h.real('c', 0.1, 10)
    side = h.choose('side', ['0+', '0-', 'inf', '-inf', 'fin+', 'fin-'])
    d = c + h.real('len', 0.1, 5)
    s = {'0+': lambda: S.Segment(0.0, c, f), '0-': lambda: S.Segment(-c, 0.0, f), 'inf': lambda: S.PInfSegment(c, f),
         '-inf': lambda: S.MInfSegment(-c, f), 'fin+': lambda: S.Segment(c, d, f), 'fin-': lambda: S.Segment(-d, -c, f)}[side]()
    q = s.probInverse()
    lo, hi = {'0+': (1 / c, INF), '0-': (-INF, -1 / c), 'inf': (0.0, 1 / c), '-inf': (-1 / c, 0.0), 'fin+': (1 / d, 1 / c), 'fin-': (-1 / c, -1 / d)}[side]
    h.check(q.isPInf() == (side == '0+') and q.isMInf() == (side == '0-'), 'kind')
    h.check_eq(q.a, lo, 'left-end')
    h.check_eq(q.b, hi, 'right-end')
    x = h.real('x', 0.02, 60) * (-1 if '-' in side else 1)
    h.assume(s.a <= x)
    h.assume(x <= s.b)
    h.check_eq(q.f(1 / x), f(x) * x * x, 'density', tol=1e-6)
    h.check_eq(q.f(h.array([1 / x, 1 / x]))[1], f(x) * x * x, 'density-vector', tol=1e-6)


add('reciprocal', reciprocal, bounds='any density on finite or half-infinite ranges of one sign, touching zero or not', encoded=['segments.Segment.probInverse', 'segments._op_one_over_x'])


def compose_inf(h):
    f = h.fun('f')
    c = h.real('c', -5, 5)
    sc = h.real('k', -4, 4)
    h.assume(abs(sc) >= h.q(1, 8))
    g, gi = (lambda u: u * sc), (lambda u: u / sc)
    side = h.choose('side', ['P', 'M'])
    s = S.PInfSegment(c, f) if side == 'P' else S.MInfSegment(c, f)
    x = c + h.real('t', 0, 20) * (1 if side == 'P' else -1)
    up = (side == 'P') == bool(sc > 0)
    # the image of the half-line
    r = s.shiftAndScale(0, sc)
    h.check(r.isPInf() == up and r.isMInf() == (not up), 'kind')
    h.check_eq(r.f(x * sc), f(x) / abs(sc), 'density', tol=1e-6)


add('scale-half-line', compose_inf, bounds='any density on a half-line', encoded=['segments.PInfSegment.shiftAndScale', 'segments.MInfSegment.shiftAndScale'])


def compose_log_exp(h):
    """exp on any finite range; log on any positive range"""
    f = h.fun('f')
    k = h.choose('map', ['exp', 'log', 'log0'])
    if k == 'exp':
        a = h.real('a', -5, 5)
        b = a + h.real('len', 0.1, 3)
        s = S.Segment(a, b, f)
        if h.sym:
            h.assume(np_exp(h)(a) < np_exp(h)(b))      # monotonicity of exp
        r = s.probComposition(np_exp(h), np_log(h), lambda u: 1 / u)
        h.check_eq(r.a, np_exp(h)(a), 'left-end')
        h.check_eq(r.b, np_exp(h)(b), 'right-end')
        x = a + h.real('t', 0, 1) * (b - a)
        y = np_exp(h)(x)
        h.check_eq(r.f(y), f(x) / y, 'density', tol=1e-6)
    else:
        b = h.real('b', 0.1, 0.99) if k == 'log0' else h.real('b', 0.2, 9)
        a = 0.0 if k == 'log0' else h.real('a', 0.1, 9)
        h.assume(a < b)
        s = S.Segment(a, b, f)
        if h.sym and k == 'log':
            h.assume(np_log(h)(a) < np_log(h)(b))
        r = s.probComposition(np_log(h), np_exp(h), np_exp(h))
        if k == 'log0':
            h.check(r.isMInf(), 'reaches-minus-infinity')
        else:
            h.check_eq(r.a, np_log(h)(a), 'left-end')
        h.check_eq(r.b, np_log(h)(b), 'right-end')
        x = h.real('x', 0.05, 9)
        h.assume(a <= x)
        h.assume(x <= b)
        y = np_log(h)(x)
        h.check_eq(r.f(y), f(x) * x, 'density', tol=1e-6)


def np_exp(h):
    def e(u):
        if isinstance(u, np.ndarray):
            return np.exp(u) if u.dtype != object else h.array([e(v) for v in u])
        return u.exp() if isinstance(u, sym.Sym) else (0.0 if u == -INF else math.exp(u))
    return e


def np_log(h):
    def e(u):
        if isinstance(u, np.ndarray):
            return np.log(u) if u.dtype != object else h.array([e(v) for v in u])
        return u.log() if isinstance(u, sym.Sym) else (-INF if u == 0 else math.log(u))
    return e


add('compose-exp-log', compose_log_exp, bounds='any density; exp on [-5,8], log on (0,9] and on [0,b], b<1', encoded=['segments.Segment.probComposition'])


def fold(which):
    def fn(h):
        f = h.fun('f')
        side = h.choose('side', ['+', '+0', '+inf', '+0inf', '-', '-0', '-inf', '-0inf'])
        p = 0.0 if '0' in side else h.real('p', 0.1, 5)
        q = INF if 'inf' in side else p + h.real('len', 0.1, 5)
        neg = side[0] == '-'
        if neg:
            s = S.MInfSegment(-p, f) if q == INF else S.Segment(-q, -p, f)
        else:
            s = S.PInfSegment(p, f) if q == INF else S.Segment(p, q, f)
        r = s.squareComposition() if which == 'square' else s.absComposition()
        sq = (lambda u: u * u) if which == 'square' else (lambda u: u)
        h.check_eq(r.a, sq(p), 'left-end')
        h.check_eq(r.b, INF if not isinstance(q, sym.Sym) and q == INF else sq(q), 'right-end')
        h.check(r.isPInf() == ('inf' in side) and not r.isMInf(), 'kind')
        if side in ('+0', '-0'):
            h.check(r.hasLeftPole(), 'possible-pole-kept')
        x = p + h.real('t', 0.01, 1) * (5 if 'inf' in side else q - p)
        y = sq(x)
        w = f(-x if neg else x) / (2 * x if which == 'square' else 1)
        h.check_eq(r.f(y), w, 'density', tol=1e-6)
        h.check_eq(r.f(h.array([y, y]))[1], w, 'density-vector', tol=1e-6)
    return fn


for w in ('square', 'abs'):
    add('fold[%s]' % w, fold(w), bounds='any density on any positive or negative range, finite or not, touching zero or not', encoded=['segments.Segment.%sComposition' % w])


def interpolated(kind):
    def fn(h):
        s, a, b, g = build(h, kind, -5, 5)
        A, B = ends(kind, a, b)
        with exactness((N._find_zero, lambda f, x0, *r, **k: x0 + 60)):
            r = s.toInterpolatedSegment()
            h.check_eq(r.a, A, 'same-range')
            h.check_eq(r.b, B, 'same-range')
            h.check(r.isPInf() == s.isPInf() and r.isMInf() == s.isMInf(), 'same-kind')
            h.check(r.hasLeftPole() == s.hasLeftPole() and r.hasRightPole() == s.hasRightPole(), 'same-poles')
            if kind in ('seg', 'const'):
                x = a + h.real('t', 0, 1) * (b - a)
                h.check_eq(r.f(x), g(x), 'value', tol=1e-6)
                for kw, fl in (({'NoL': True}, 0), ({'NoR': True}, 0), ({'NoL': True, 'NoR': True}, 0), ({'left_pole': True}, 1), ({'right_pole': True}, 2)):
                    if kind == 'const' and fl:
                        continue
                    q = s.toInterpolatedSegment(**kw)
                    h.check_eq(q.a, A, 'variant-range')
                    h.check_eq(q.b, B, 'variant-range')
                    h.check(q.hasLeftPole() == (fl == 1) and q.hasRightPole() == (fl == 2), 'variant-poles')
                    if not fl:
                        h.check_eq(q.f(x), g(x), 'variant-value', tol=1e-6)
    return fn


for k in ('seg', 'const', 'poleL', 'poleR'):
    add('interpolated[%s]' % k, interpolated(k), budget=10, bounds='any function', encoded=['segments.%s.toInterpolatedSegment' % E1[k]])


def order(h):
    """the order used to keep pieces sorted: by position for disjoint pieces, consistent with point masses at ends"""
    a = h.real('a', -150, 150)
    b = a + h.real('len', 0.05, 100)
    f = h.fun('f')
    s = S.Segment(a, b, f)
    c = h.real('c', -150, 150)
    d = c + h.real('len2', 0.05, 10)
    h.assume(b <= c)
    t = S.Segment(c, d, f)
    h.check(s < t and not (t < s) and t > s and not (s > t), 'disjoint-pieces')
    for p, q in ((S.DiracSegment(a, 0.5), s), (s, S.DiracSegment(b, 0.5))):
        h.check(p < q and not (q < p) and q > p, 'mass-at-end')
    m, pi = S.MInfSegment(a, f), S.PInfSegment(b, f)
    h.check(m < s and s < pi and m < pi and not (s < m) and not (pi < s), 'half-lines')


add('order', order, bounds='any ends', encoded=['segments.Segment.__lt__', 'segments.Segment.__gt__'])
