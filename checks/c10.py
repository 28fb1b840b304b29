"""Distribution functionals: total mass, probability of an interval, cumulative
distribution, moments, quantiles, against densities made of pieces and masses."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.sym import lift, Infeasible
from engine.seg import Integrals, INF, complement
from checks.c09 import PW, isinf, land, lor, same
import pacal.segments as S
import pacal.distr as D
import pacal.utils as U

P = 'C10'
META = {'assumptions': ['integration routines return the integral over the range they are given (C02)',
                        'root finding returns a solution inside the bracket it is given (C03)']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 10)
    kw.setdefault('thorough', {'budget': 150, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


class Dens(D.Distr):
    """a distribution given by its piecewise density"""
    def __init__(self, pf):
        super(Dens, self).__init__([])
        self.pf = pf

    def init_piecewise_pdf(self):
        self.piecewise_pdf = self.pf


def dist(h, spec, tag='f'):
    return PW(h, tag, spec, cls=S.PiecewiseDistribution)


def less(a, b):
    """a<b, forking, infinities allowed"""
    if isinf(a) and isinf(b):
        return a < b
    return bool(a < b)


SPECS = ['S', 'S S', 'S _ S', 'M P', 'M _ P', 'M S P', 'S d S', 'd S', 'S d', 'S _ d', 'd _ S', 'd _ d', 'd', 'L S R', 'M d P', 'C _ C d']
ENC = ['segments.PiecewiseFunction.integrate', 'segments.PiecewiseFunction.cumint']


def between(h, w, a, b):
    """(want(t), total of masses strictly inside)"""
    def want(t):
        if (isinf(a) or bool(a < t)) and (isinf(b) or bool(t < b)):
            return w.at(t)
        return 0.0
    m = 0
    for p, v in w.masses:
        if (isinf(a) or bool(a < p)) and (isinf(b) or bool(p < b)):
            m = m + v
    return want, m


def total(spec):
    def fn(h):
        w = dist(h, spec)
        a, b = -INF, INF
        d = Dens(w.pf)
        pts = w.ends()
        with Integrals(h) as G:
            side = h.choose('range', ['all', 'left', 'right', 'both', 'error', 'kw'])
            if side in ('left', 'both'):
                a = h.real('a', -200, 200)
            if side == 'both':
                b = a + h.real('ablen', 0.01, 120)
            elif side == 'right':
                b = h.real('b', -200, 200)
            for p, _ in w.masses:
                for e in (a, b):
                    if not isinf(e):
                        h.assume(p != e)
            want, m = between(h, w, a, b)
            cut = list(pts) + [e for e in (a, b) if not isinf(e)]
            if side == 'all':
                r = w.pf.integrate()
            elif side == 'error':
                r = 1 - d.int_error()
            elif side == 'kw':
                r = w.pf.integrate(None, None)
            elif side == 'left':
                r = w.pf.integrate(a)
            elif side == 'right':
                r = w.pf.integrate(b=b)
            else:
                r = w.pf.integrate(a, b)
            G.check(r, want, 'mass', const=m, pts=cut, closed=None)
    return fn


def plain(spec):
    """constant pieces integrate in closed form"""
    return 'C' not in spec


for sp in SPECS:
    if plain(sp):
        add('integrate[%s]' % sp, total(sp), bounds='pieces "%s" with any functions, breaks and masses; any interval' % sp, encoded=ENC[:1])


def cumulative(spec):
    def fn(h):
        w = dist(h, spec)
        d = Dens(w.pf)
        which = h.choose('which', ['cdf', 'cdf-vector', 'ccdf', 'ccdf-value', 'at-mass'] + (['at-mass-vector'] if 'd' in spec else []))
        if which == 'at-mass' and not w.masses:
            raise Infeasible()
        x = h.real('x', -200, 200)
        if which.startswith('at-mass'):
            x = w.masses[h.choose('which-mass', list(range(len(w.masses))))][0]
        else:
            for p, _ in w.masses:
                h.assume(x != p)
        m = 0
        tot = 0
        for p, v in w.masses:
            tot = tot + v
            if bool(p <= x):
                m = m + v
        lo = lambda t: w.at(t) if bool(t < x) else 0.0
        up = lambda t: w.at(t) if bool(t > x) else 0.0
        cut = w.ends() + [x, -INF, INF]
        with Integrals(h) as G:
            if which in ('cdf', 'at-mass'):
                r = d.cdf(x)
                h.check(np.isscalar(unwrap(r)) or isinstance(unwrap(r), sym.Sym) or np.ndim(r) == 0, 'scalar-result')
                G.check(r, lo, which, const=m, pts=cut)
            elif which in ('cdf-vector', 'at-mass-vector'):
                r = d.cdf(h.array([x, x + 100, x - 100]))
                G.check(r[0], lo, which, const=m, pts=cut)
            elif which == 'ccdf':
                complement(G, d.ccdf(x), up, 'ccdf', w.at, tot - m, tot, cut)
            else:
                complement(G, d.ccdf_value(x), up, 'ccdf-value', w.at, tot - m, tot, cut)
    return fn


for sp in SPECS:
    if plain(sp):
        # half-lines to the right are integrated from infinity: total - tail
        add('cumulative[%s]' % sp, cumulative(sp), bounds='pieces "%s" with any functions, breaks and masses; any point' % sp,
            encoded=ENC[1:] + ['segments.Segment.segIntegral', 'distr.Distr.cdf', 'distr.Distr.ccdf', 'distr.Distr.ccdf_value'])


def moments(spec):
    def fn(h):
        w = dist(h, spec)
        d = Dens(w.pf)
        g = h.fun('g', False)
        inf = bool(w.pieces) and (isinf(w.pieces[0][1]) or isinf(w.pieces[-1][2]))
        # third moments of the stand-in densities on half-lines need not exist
        which = h.choose('which', ['mean', 'distr-mean', 'var', 'distr-meanf', 'central', 'moment1' if inf else 'moment3'] +
                         (['meanf', 'moment0', 'moment2', 'moment4'] if spec in ('S', 'd', 'S d') else []))
        cut = w.ends()
        mu = h.real('mu', -100, 100)
        E = lambda u: sum([u(p) * v for p, v in w.masses]) if w.masses else 0
        one = lambda t: t
        with Integrals(h) as G:
            if which in ('mean', 'distr-mean'):
                r = w.pf.mean() if which == 'mean' else d.mean()
                G.check(r, lambda t: t * w.at(t), 'mean', const=E(one), pts=cut)
            elif which in ('meanf', 'distr-meanf'):
                r = w.pf.meanf(g) if which == 'meanf' else d.meanf(g)
                G.check(r, lambda t: g(t) * w.at(t), 'mean-of-function', const=E(g), pts=cut)
            elif which == 'var':
                with stub_mean(mu):
                    r = d.var()
                G.check(r, lambda t: (t - mu) * (t - mu) * w.at(t), 'variance', const=E(lambda p: (p - mu) * (p - mu)), pts=cut)
            elif which == 'central':
                with stub_mean(mu):
                    r = d.moment(2)
                G.check(r, lambda t: (t - mu) * (t - mu) * w.at(t), 'central-moment', const=E(lambda p: (p - mu) * (p - mu)), pts=cut)
            else:
                k = int(which[-1])
                r = d.moment(k, mu)
                u = lambda t: (t - mu) ** k if k else lift(1) if h.sym else 1.0
                G.check(r, lambda t: u(t) * w.at(t), 'moment', const=E(u), pts=cut)
    return fn


class stub_mean(object):
    """PiecewiseDistribution.mean replaced by a given number (the mean itself is decided separately)"""
    def __init__(self, mu):
        self.mu = mu

    def __enter__(self):
        self.o = S.PiecewiseDistribution.mean
        S.PiecewiseDistribution.mean = lambda s: self.mu

    def __exit__(self, *a):
        S.PiecewiseDistribution.mean = self.o
        return False


for sp in SPECS:
    if plain(sp):
        add('moments[%s]' % sp, moments(sp), bounds='pieces "%s" with any functions, breaks and masses; orders 0..4 about any centre; any function' % sp,
            encoded=['segments.PiecewiseDistribution.mean', 'segments.PiecewiseDistribution.meanf', 'segments.PiecewiseDistribution.var', 'distr.Distr.moment', 'segments._segint'])


class Given(D.Distr):
    """quantiles and moments given"""
    def __init__(self, **kw):
        super(Given, self).__init__([])
        self.kw = kw

    def quantile(self, y):
        return self.kw['Q'](y)

    def median(self):
        return self.kw['Q'](0.5 if not isinstance(self.kw.get('half'), sym.Sym) else self.kw['half'])

    def mean(self):
        return self.kw['mu']

    def var(self):
        return self.kw['v']

    def moment(self, k, c=None):
        return self.kw['M'](k, self.kw['mu'] if c is None else c)


def derived(h):
    """dispersion, skewness, kurtosis, intervals follow from moments and quantiles"""
    Q = h.fun('Q', False)
    mu, v = h.real('mu', -5, 5), h.real('v', 0.25, 9)
    M = h.fun('M', False)
    p = h.real('p', 0.01, 0.99)
    d = Given(Q=Q, mu=mu, v=v, M=lambda k, c: M(c * 7 + k))
    lo, hi = d.ci(p)
    h.check_eq(lo, Q(p / 2), 'ci-low')
    h.check_eq(hi, Q(1 - p / 2), 'ci-high')
    lo, hi = d.interval(p)
    h.check_eq(lo, Q((1 - p) / 2), 'interval-low')
    h.check_eq(hi, Q(1 - (1 - p) / 2), 'interval-high')
    h.check_eq(d.iqrange(p), Q(1 - p) - Q(p), 'quantile-range')
    sk, ku = d.skewness(), d.kurtosis()
    h.check_eq(ku * v * v, M(mu * 7 + 4), 'kurtosis', tol=1e-6)
    h.check_eq(sk * sk * v * v * v, M(mu * 7 + 3) * M(mu * 7 + 3), 'skewness', tol=1e-6)
    h.check(lor(h, [sk * M(mu * 7 + 3) >= 0]), 'skewness-sign')


add('derived', derived, bounds='any quantile function and moments', encoded=['distr.Distr.ci', 'distr.Distr.interval', 'distr.Distr.iqrange', 'distr.Distr.skewness', 'distr.Distr.kurtosis'])


def piecewise_derived(h):
    """functionals of a piecewise density defined through others"""
    which = h.choose('which', ['std', 'quantiles', 'entropy', 'L2', 'KL'])
    w = dist(h, h.choose('spec', ['S', 'M P'] if which in ('L2', 'KL') else ['S', 'S _ S', 'M P', 'S d'] if which != 'entropy' else ['S', 'S _ S', 'M P']))
    g = dist(h, 'S', 'g')
    d, e = Dens(w.pf), Dens(g.pf)
    Q = h.fun('Q', False)
    v = h.real('v', 0.1, 9)
    x = h.real('x', -200, 200)
    w.generic(x)
    g.generic(x)
    seen = []
    F = S.PiecewiseDistribution
    keep = F.var, S.PiecewiseFunction.integrate, F.cumint, F.median

    class C(object):
        def inverse(self, y):
            return Q(y)
    try:
        F.var = lambda s: v
        log = lambda t: t.log() if isinstance(t, sym.Sym) else math.log(t)
        fx, gx = w.at(x), g.at(x)
        if which == 'std':
            s = d.std()
            h.check_eq(s * s, v, 'std')
            h.check_le(0, s, 'std-sign')
        elif which == 'quantiles':
            F.cumint = lambda s: C()
            h.check_eq(w.pf.median(), Q(h.q(1, 2)), 'median')
            h.check_eq(d.median(), Q(h.q(1, 2)), 'median')
            p = h.real('p', 0.01, 0.49)
            h.check_eq(w.pf.iqrange(p), Q(1 - p) - Q(p), 'quantile-range')
            h.check_eq(d.quantile(p), Q(p), 'quantile')
        else:
            S.PiecewiseFunction.integrate = lambda s, *a, **k: (seen.append(s), v)[1]
            if which == 'entropy':
                h.check_eq(d.entropy(), v, 'entropy-is-integral')
                if w.piece_at(x) is not None:
                    h.check_eq(seen[-1](x), -fx * log(fx), 'entropy')
            elif which == 'L2':
                r = d.L2_dist(e)
                h.check_eq(r * r, v, 'distance-is-root-of-integral')
                h.check_le(0, r, 'distance-is-root-of-integral')
                h.check_eq(seen[-1](x), (fx - gx) * (fx - gx), 'L2')
            elif w.piece_at(x) is not None and g.piece_at(x) is not None:
                h.check_eq(d.KL_dist(e), v, 'KL-is-integral')
                h.check_eq(seen[-1](x), fx * (log(fx) - log(gx)), 'KL')
    finally:
        F.var, S.PiecewiseFunction.integrate, F.cumint, F.median = keep
        if 'cumint' in F.__dict__ and F is not S.PiecewiseFunction:
            del F.cumint
        if 'integrate' in F.__dict__:
            del F.integrate


add('piecewise-derived', piecewise_derived, bounds='a few piece patterns, any functions', encoded=['segments.PiecewiseDistribution.std', 'segments.PiecewiseDistribution.median', 'segments.PiecewiseDistribution.entropy', 'segments.PiecewiseDistribution.L2_distance', 'segments.PiecewiseDistribution.KL_distance'])


def range_sign(h):
    w = dist(h, h.choose('spec', ['S', 'S _ S', 'M P', 'M', 'P', 'S d', 'd _ S', 'd _ d']))
    d = Dens(w.pf)
    lo, hi = d.range_()
    es = w.ends()
    le = lambda a, b: a <= b if isinf(a) and isinf(b) else True if (isinf(a) and a < 0 or isinf(b) and b > 0) else False if isinf(a) or isinf(b) else a <= b
    h.check(land(h, [le(lo, e) for e in es]), 'low')
    h.check(lor(h, [same(lo, e) for e in es]), 'low')
    h.check(land(h, [le(e, hi) for e in es]), 'high')
    h.check(lor(h, [same(hi, e) for e in es]), 'high')
    nn = d.is_nonneg()
    neg = isinf(lo) or not bool(lo >= 0)
    if nn:
        h.check(not neg, 'nonnegative-only-if-true')
    else:
        h.check(neg or lor(h, [p == 0 for p, _ in w.masses]), 'nonnegative-if-true')


add('range-sign', range_sign, bounds='a few piece patterns', encoded=['segments.PiecewiseDistribution.range', 'segments.PiecewiseFunction.isNonneg'])


def modes(h):
    """the mode is where the largest of the maxima of the pieces is attained"""
    w = dist(h, h.choose('spec', ['S', 'S S', 'M P', 'S _ S S']))
    k = len(w.pieces)
    xs = [h.real('mx%d' % i, -5, 5) for i in range(k)]
    ms = [h.real('mv%d' % i, 0.01, 5) for i in range(k)]
    for s, x, m in zip(w.pf.segments, xs, ms):
        s.maximum = (lambda x, m: (lambda: (x, m)))(x, m)
    for i in range(k):
        for j in range(i):
            h.assume(ms[i] != ms[j])
    best = 0
    for i in range(1, k):
        if bool(ms[i] > ms[best]):
            best = i
    h.check_eq(Dens(w.pf).mode(), xs[best], 'distr-mode')
    h.check_eq(w.pf.mode(), xs[best], 'piecewise-mode')
    h.check_eq(w.pf.maximum()[1], ms[best], 'maximum')


add('mode', modes, bounds='up to three pieces, any maxima', encoded=['segments.PiecewiseDistribution.mode', 'segments.PiecewiseFunction.maximum'])


# quantile function --------------------------------------------------------
class Cdf(object):
    """symbolic continuous-from-the-right distribution function: rising pieces, jumps, flat parts"""

    def __init__(self, h, spec):
        self.h = h
        self.pf = S.CumulativePiecewiseFunction([])
        toks = spec.split()
        val = h.q(0)
        pos = h.real('x0', -100, 100)
        rises = [i for i, t in enumerate(toks) if t in 'MSPd']
        ws = [h.real('w%d' % i, 0.05, 1) for i in rises]
        tot = 0
        for x in ws:
            tot = tot + x
        self.parts = []       # (kind, a, b, v, w)
        self.jumps = []
        ws = [x / tot for x in ws]
        first = True
        for i, t in enumerate(toks):
            if t == 'd':
                u = ws.pop(0)
                if first:
                    self.parts.append(('zero', -INF, pos, val, val))
                self.jumps.append((pos, val, val + u))
                val = val + u
                first = False
                continue
            if t == 'M':
                u = ws.pop(0)
                self.parts.append(('M', -INF, pos, val, val + u))
                val = val + u
            elif t == 'P':
                u = ws.pop(0)
                if first:
                    self.parts.append(('zero', -INF, pos, val, val))
                self.parts.append(('P', pos, INF, val, val + u))
                val = val + u
            elif t in ('S', '_'):
                nxt = pos + h.real('l%d' % i, 0.125, 40)
                if first:
                    self.parts.append(('zero', -INF, pos, val, val))
                u = ws.pop(0) if t == 'S' else 0
                self.parts.append(('S' if t == 'S' else 'flat', pos, nxt, val, val + u))
                val = val + u
                pos = nxt
            first = False
        if toks[-1] != 'P':
            self.parts.append(('one', pos, INF, val, val))
        self.fs = []
        for i, (k, a, b, v, u) in enumerate(self.parts):
            f = self.fun(k, a, b, v, u, h.real('c%d' % i, -1, 1))
            self.fs.append(f)
            if k in ('zero', 'M'):
                self.pf.addSegment(S.MInfSegment(b, f))
            elif k in ('P', 'one'):
                self.pf.addSegment(S.PInfSegment(a, f))
            else:
                self.pf.addSegment(S.Segment(a, b, f))

    def fun(self, k, a, b, v, u, c):
        if k in ('zero', 'one', 'flat'):
            return S.ConstFun(v)
        if k == 'S':
            def f(x):
                s = (x - a) / (b - a)
                return v + (u - v) * (s + c * s * (1 - s))
        elif k == 'M':
            def f(x):
                if isinf(x):
                    return v
                return u / (1 + b - x)
        else:
            def f(x):
                if isinf(x):
                    return u
                return u - (u - v) / (1 + x - a)
        return f

    def at(self, x):
        """value (right-continuous)"""
        for (k, a, b, v, u), f in zip(self.parts, self.fs):
            if (isinf(a) or bool(a <= x)) and (isinf(b) or bool(x < b)):
                return f(x)


def solver(h):
    """root finding by its specification"""
    def find(f, a=0.0, b=1.0, c=0.5, **kw):
        h.check(lor(h, [land(h, [f(a) <= c + 1e-12, c <= f(b) + 1e-12])]), 'root-is-bracketed')
        x = h.c.fresh('root')
        h.c.assume(x >= a)
        h.c.assume(x <= b)
        h.c.assume(f(x) == c)
        return x

    def minf(f, b=0.0, c=0.5, **kw):
        h.check(c <= f(b) + 1e-12, 'root-is-bracketed')
        x = h.c.fresh('root')
        h.c.assume(x <= b)
        h.c.assume(f(x) == c)
        return x

    def pinf(f, a=0.0, c=0.5, **kw):
        h.check(f(a) <= c + 1e-12, 'root-is-bracketed')
        x = h.c.fresh('root')
        h.c.assume(x >= a)
        h.c.assume(f(x) == c)
        return x
    if not h.sym:
        return stub()
    return stub((U.findinv, find), (U.findinv_minf, minf), (U.findinv_pinf, pinf))


def quantile(spec):
    def fn(h):
        F = Cdf(h, spec)
        y = h.real('y', 0.001, 0.999)
        # away from the values at the joints
        for k, a, b, v, u in F.parts:
            h.assume(y != v)
            h.assume(y != u)
        with solver(h):
            vec = h.choose('vector', [False, True])
            x = F.pf.inverse(h.array([y, y]))[1] if vec else F.pf.inverse(y)
            x = unwrap(x)
            h.check(isinstance(x, sym.Sym) or not math.isnan(x), 'answer')
            for p, lo, hi in F.jumps:
                if bool(lo < y) and bool(y < hi):
                    h.check_eq(x, p, 'jump')
                    h.end()
            h.check_eq(F.at(x), y, 'inverts', tol=1e-6, ctol=1e-4)
    return fn


for sp in ('S', 'M P', 'S S', 'S d S', 'S _ S', 'd', 'd _ d', 'd _ d _ d', 'S d', 'd S', 'M d P', 'M S P', 'P', 'M', 'S _ d', 'd _ S', 'M _ P'):
    add('quantile[%s]' % sp, quantile(sp), bounds='distribution function with parts "%s" (rise/jump/flat), any levels, positions and curvature' % sp,
        encoded=['segments.PiecewiseFunction.inverse_scalar', 'segments.PiecewiseFunction.inverse', 'segments.PiecewiseFunction.getSegVals'])


def extreme(h):
    sp = h.choose('spec', ['S', 'M P', 'd', 'd _ d'])
    F = Cdf(h, sp)
    with solver(h):
        if sp == 'M P':
            h.check(F.pf.inverse(0.0) == -INF, 'zero')
            h.check(F.pf.inverse(1.0) == INF, 'one')
        else:
            lo, hi = F.pf.inverse(0.0), F.pf.inverse(1.0)
            a, b = F.parts[0][2], F.parts[-1][1]
            h.check(isinf(lo) or lor(h, [lo <= a]), 'zero-not-above-the-range')
            h.check(isinf(hi) or lor(h, [hi >= b]), 'one-not-below-the-range')


add('extreme-levels', extreme, bounds='levels 0 and 1', encoded=['segments.PiecewiseFunction.inverse_scalar'])


def medianad(h):
    """median absolute deviation: median of |X - median|"""
    w = dist(h, h.choose('spec', ['S', 'M P', 'S S']))
    m = h.real('m', -5, 5)
    y = h.real('y', 0.05, 10)
    w.generic(m)
    w.generic(m + y)
    w.generic(m - y)
    seen = []
    v = h.real('v', 0, 5)
    o = S.PiecewiseDistribution.median
    try:
        S.PiecewiseDistribution.median = lambda s: (seen.append(s), m if len(seen) == 1 else v)[1]
        r = w.pf.medianad()
    finally:
        S.PiecewiseDistribution.median = o
    h.check_eq(r, v, 'result')
    h.check(len(seen) == 2 and seen[0] is w.pf, 'median-of-deviation')
    h.check_eq(seen[1](y), w.at(m + y) + w.at(m - y), 'density-of-deviation', tol=1e-6)


add('median-deviation', medianad, bounds='a few piece patterns', encoded=['segments.PiecewiseDistribution.medianad', 'segments.PiecewiseFunction.copyAbsComposition'])


def generating(h):
    """moment generating function is the mean of exp(t x)"""
    t = h.real('t', -2, 2)
    x = h.real('x', -2, 2)
    seen = []

    class E(D.Distr):
        def meanf(self, f):
            seen.append(f)
            return 1 + f(x)
    e = E([])
    ex = lambda u: u.exp() if isinstance(u, sym.Sym) else math.exp(u)
    h.check_eq(D._mgf_fun(e, t), 1 + ex(t * x), 'scalar')
    v = D._mgf_fun(e, h.array([t, t + 1]))
    h.check_eq(v[0], 1 + ex(t * x), 'vector')
    h.check_eq(v[1], 1 + ex((t + 1) * x), 'vector')


add('generating-function', generating, bounds='any argument', encoded=['distr._mgf_fun'])


def extremes(h):
    """the largest (smallest) value a piece reports is attained where it says and no other point beats it"""
    kind = h.choose('kind', ['S', 'L', 'R', 'M', 'P', 'd'])
    low = h.choose('which', ['maximum', 'minimum']) == 'minimum'
    a = h.real('a', -50, 50)
    b = a + h.real('len', 0.125, 40)
    g = h.fun('f', True)
    f = lambda u: 0.0 if isinf(u) else g(u)
    xm, t, far = h.real('xm', -150, 150), h.real('t', -150, 150), h.real('far', 1, 30)
    seen = []

    def opt(fun, lo, hi, xtol=None, **k):
        """a point of [lo, hi] where the objective is smallest"""
        seen.append((lo, hi))
        h.assume(land(h, [lo < xm, xm < hi]))
        if bool(lo < t) and bool(t < hi):
            h.assume(fun(xm) <= fun(t))
        return xm
    keep = S.fminbound, S.MInfSegment.findLeftpoint, S.PInfSegment.findRightpoint
    try:
        S.fminbound = opt
        S.MInfSegment.findLeftpoint = lambda s: b - far
        S.PInfSegment.findRightpoint = lambda s: a + far
        lo, hi = a, b
        if kind == 'd':
            s = S.DiracSegment(a, b - a)
            x, m = s.minimum() if low else s.maximum()
            h.check_eq(x, a, 'mass-position')
            h.check_eq(m, b - a, 'mass-weight')
            return
        if kind == 'M':
            s, lo = S.MInfSegment(b, f), b - far
        elif kind == 'P':
            s, hi = S.PInfSegment(a, f), a + far
        elif kind == 'S':
            s = S.Segment(a, b, f)
        else:
            s = S.SegmentWithPole(a, b, f, left_pole=kind == 'L')
            h.assume(land(h, [xm > a + 0.01, xm < b - 0.01]))
        h.assume(land(h, [t > lo + 0.01, t < hi - 0.01]))
        x, m = s.minimum() if low else s.maximum()
    finally:
        S.fminbound, S.MInfSegment.findLeftpoint, S.PInfSegment.findRightpoint = keep
    h.check(len(seen) == 1, 'searched')
    if isinf(x):
        h.check(m == 0, 'attained')
    else:
        h.check_eq(m, f(x), 'attained')
    best = (lambda u: m <= u) if low else (lambda u: u <= m)
    h.check(best(f(t)), 'best')
    if kind in 'MP':
        # also the ends are looked at
        h.check(best(f(b if kind == 'M' else a)), 'finite-end')
        h.check(best(0.0), 'infinite-end')
    else:
        h.check(land(h, [seen[0][0] <= a + 1e-9, seen[0][0] >= a, seen[0][1] == b]), 'whole-piece')


add('piece-extremes', extremes, bounds='one piece of every kind with any function, any other point', encoded=['segments.Segment.maximum', 'segments.Segment.minimum', 'segments.MInfSegment.maximum', 'segments.MInfSegment.minimum', 'segments.PInfSegment.maximum', 'segments.PInfSegment.minimum'])


def lowest(h):
    """smallest and largest absolute value of a piecewise function"""
    w = PW(h, 'f', h.choose('spec', ['S', 'S S', 'M P', 'S _ S S']), positive=False)
    k = len(w.pieces)
    lo = [(h.real('nx%d' % i, -5, 5), h.real('nv%d' % i, -5, 5)) for i in range(k)]
    hi = [(h.real('mx%d' % i, -5, 5), h.real('mv%d' % i, -5, 5)) for i in range(k)]
    for s, l, u in zip(w.pf.segments, lo, hi):
        h.assume(l[1] <= u[1])
        s.minimum = (lambda l: (lambda: l))(l)
        s.maximum = (lambda u: (lambda: u))(u)
    x, m = w.pf.minimum()
    h.check(land(h, [m <= v for _, v in lo]), 'minimum')
    h.check(lor(h, [land(h, [x == p, m == v]) for p, v in lo]), 'minimum')
    y, M = w.pf.maximum()
    h.check(land(h, [M >= v for _, v in hi]), 'maximum')
    h.check(lor(h, [land(h, [y == p, M == v]) for p, v in hi]), 'maximum')
    z, A = w.pf.max_abs()
    h.check(land(h, [A >= v for _, v in hi] + [A >= -v for _, v in lo]), 'largest-absolute')
    h.check(lor(h, [land(h, [z == p, lor(h, [A == v, A == -v])]) for p, v in hi + lo]), 'largest-absolute')


add('function-extremes', lowest, bounds='up to three pieces, any extremes', encoded=['segments.PiecewiseFunction.minimum', 'segments.PiecewiseFunction.maximum', 'segments.PiecewiseFunction.max_abs'])
