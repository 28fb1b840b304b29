"""Standard continuous distributions."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import INF
from engine.ops import exact_pieces, value, away, isinf
from checks.c09 import same, land
from checks.c14 import m
import pacal.standard_distr as SD
import pacal.utils as PU
import pacal.segments as S

P = 'C16'
META = {'assumptions': ['real arithmetic: overflow and underflow of exp are not modelled, log Gamma is an uninterpreted function',
                        'the point of evaluation is at least 1e-5 away from the ends of the support, except where a harness puts it there']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 40)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def lg(u):
    """log Gamma"""
    if isinstance(u, sym.Sym):
        c = u.const()
        return math.lgamma(float(c)) if c is not None else sym.ctx().app('gammaln', u)
    return math.lgamma(u)


def log(u):
    return m('log', u)


def exp(u):
    return m('exp', u)


def power(a, b):
    return a ** b


class Dist(object):
    """params: h -> tuple; make: params -> distribution; logpdf(params, x); support(params)
    poles(params) -> (at lower end, at upper end): density unbounded there"""

    def __init__(self, params, make, logpdf, support=lambda *p: (-INF, INF), rng=(-60, 60), poles=None, enc=(), integer=(1, 2, 5), has_pdf=True, gap=1e-5, shape=None):
        self.__dict__.update(locals())


def point(h, D, lo, hi, name='x', inside=None):
    x = h.real(name, *D.rng)
    for e in (lo, hi):
        if not isinf(e):
            if h.sym:
                h.assume(sym.mkbool(sym.z3.Or(sym.tobool(x - e >= D.gap), sym.tobool(e - x >= D.gap))))
            else:
                h.assume(abs(x - e) >= D.gap)
    return x


def inside(x, lo, hi):
    return (isinf(lo) or bool(x > lo)) and (isinf(hi) or bool(x < hi))


def equals(h, v, ref, label):
    """v is exp(ref) (ref None: zero)"""
    v = unwrap(v)
    if ref is None:
        h.check_eq(v, 0, label)
        return
    if isinstance(ref, tuple):       # value itself
        h.check_eq(v, ref[0], label)
        return
    if not h.sym:
        if ref < -600:
            return
        h.check_eq(math.log(v) if v > 0 else -INF, ref, label, ctol=1e-7)
        return
    if not isinstance(v, sym.Sym) or v.const() is not None:
        h.check(v > 0, label)
        if not (v > 0):
            return
    else:
        h.check(v > 0, label)
    h.check_eq(log(sym.lift(v)), ref, label)


def density(name, D):
    def fn(h):
        ps = D.params(h)
        lo, hi = D.support(*ps)
        x = point(h, D, lo, hi)
        d = D.make(*ps)
        ref = D.logpdf(*ps, x) if inside(x, lo, hi) else None
        if D.has_pdf:
            equals(h, d.pdf(x), ref, 'pdf')
        if not isinf(lo):
            far = lo - 3
        else:
            far = None
        xs = [x, x] if far is None else [far, x, far - 1]
        if D.has_pdf:
            v = d.pdf(h.array(xs))
            h.check(np.shape(v) == (len(xs),), 'pdf-shape')
            if far is not None:
                h.check_eq(unwrap(v[0]), 0, 'pdf-below')
                h.check_eq(unwrap(v[2]), 0, 'pdf-below')
            equals(h, v[1], ref, 'pdf-vector')
    return fn


def pieces(name, D):
    def fn(h):
        with exact_pieces():
            ps = (D.shape or D.params)(h)
            lo, hi = D.support(*ps)
            x = point(h, D, lo, hi)
            d = D.make(*ps)
            r = d.get_piecewise_pdf()
            segs = r.segments
            h.check(len(segs) > 0 and not any(s.isDirac() for s in segs), 'segments')
            cs = [same(segs[0].a, lo) if isinf(lo) or isinf(segs[0].a) else near(h, segs[0].a, lo), same(segs[-1].b, hi) if isinf(hi) or isinf(segs[-1].b) else near(h, segs[-1].b, hi)]
            h.check(land(h, cs), 'pieces-cover-support')
            for s, t in zip(segs[:-1], segs[1:]):
                h.check(land(h, [near(h, s.b, t.a)]), 'pieces-contiguous')
            for s in segs:
                h.check(land(h, [s.a < s.b]), 'pieces-ordered')
            away(h, x, list(r.getBreaks()))
            ref = D.logpdf(*ps, x) if inside(x, lo, hi) else None
            equals(h, value(r(x)), ref, 'piecewise')
            if D.poles is not None:
                pl, pr = D.poles(*ps)
                if pl:
                    h.check(bool(segs[0].hasLeftPole()), 'pole-left')
                if pr:
                    h.check(bool(segs[-1].hasRightPole()), 'pole-right')
            a, b = d.range()
            h.check(land(h, [same(a, lo) if isinf(a) or isinf(lo) else a == lo, same(b, hi) if isinf(b) or isinf(hi) else b == hi]), 'range')
    return fn


def near(h, a, b):
    if isinf(a) or isinf(b):
        return same(a, b)
    if h.sym:
        return sym.mkbool(sym.z3.And(sym.tobool(a - b <= 1e-9), sym.tobool(b - a <= 1e-9)))
    return abs(a - b) <= 1e-9 * (1 + abs(a))


def integers(name, D):
    """arrays of integers are points too (the element type only exists in the replay)"""
    def fn(h):
        ps = D.params(h)
        lo, hi = D.support(*ps)
        pts = D.integer
        d = D.make(*ps)
        v = d.pdf(h.array([h.q(p) for p in pts]) if h.sym else np.array(pts))
        for p, w in zip(pts, v):
            p = h.q(p)
            for e in (lo, hi):
                if not isinf(e):
                    h.assume(p != e)
                    if not h.sym:
                        h.assume(abs(p - e) > 1e-4)
            equals(h, w, D.logpdf(*ps, p) if inside(p, lo, hi) else None, 'integer-points')
    return fn


def pos(name, lo=0.05, hi=20):
    return lambda h: h.real(name, lo, hi)


def par(*specs):
    return lambda h: tuple(h.real(n, a, b) for n, a, b in specs)


LOG2PI = math.log(2 * math.pi)


def semicircle(R, x):
    return (2 / (math.pi * R * R) * m('sqrt', R * R - x * x),)


def trapezoid(a, p, q, r, x):
    u = 2 / (p + 2 * q + r)
    return (u * ((x - a) / p if x < a + p else 1 if x < a + p + q else (a + p + q + r - x) / r),)


def one_of(*specs):
    return lambda h: tuple(h.choose(s[0], list(s[1])) if isinstance(s[1], tuple) else h.real(*s) for s in specs)


DISTS = {
    'Normal': Dist(par(('mu', -20, 20), ('sigma', 0.05, 10)), lambda mu, s: SD.NormalDistr(mu, s), lambda mu, s, x: -(x - mu) * (x - mu) / (2 * s * s) - log(s) - LOG2PI / 2),
    'Uniform': Dist(par(('a', -20, 20), ('len', 0.1, 20)), lambda a, w: SD.UniformDistr(a, a + w), lambda a, w, x: -log(w), lambda a, w: (a, a + w), has_pdf=False),
    'Trapezoidal': Dist(par(('a', -9, 9), ('w1', 0.1, 5), ('w2', 0.1, 5), ('w3', 0.1, 5)), lambda a, p, q, r: SD.TrapezoidalDistr(a, a + p, a + p + q, a + p + q + r),
                        trapezoid, lambda a, p, q, r: (a, a + p + q + r), has_pdf=False, rng=(-30, 30)),
    'Triangular': Dist(par(('a', -9, 9), ('w1', 0.1, 5), ('w3', 0.1, 5)), lambda a, p, r: SD.TrapezoidalDistr(a, a + p, a + p, a + p + r),
                       lambda a, p, r, x: trapezoid(a, p, 0, r, x), lambda a, p, r: (a, a + p + r), has_pdf=False, rng=(-30, 30)),
    'Cauchy': Dist(par(('gamma', 0.05, 10), ('center', -20, 20)), lambda g, c: SD.CauchyDistr(g, c), lambda g, c, x: log(g) - math.log(math.pi) - log(g * g + (x - c) * (x - c))),
    'ChiSquare': Dist(par(('df', 0.1, 40)), lambda k: SD.ChiSquareDistr(k), lambda k, x: (k / 2 - 1) * log(x) - x / 2 - k / 2 * math.log(2) - lg(k / 2), lambda k: (0.0, INF), poles=lambda k: (bool(k < 2), False)),
    'Exponential': Dist(par(('lmbda', 0.05, 10)), lambda l: SD.ExponentialDistr(l), lambda l, x: log(l) - l * x, lambda l: (0.0, INF)),
    'Gamma': Dist(par(('k', 0.1, 20), ('theta', 0.05, 10)), lambda k, t: SD.GammaDistr(k, t), lambda k, t, x: (k - 1) * log(x) - x / t - lg(k) - k * log(t), lambda k, t: (0.0, INF), poles=lambda k, t: (bool(k < 1), False)),
    'Beta': Dist(par(('alpha', 0.1, 20), ('beta', 0.1, 20)), lambda a, b: SD.BetaDistr(a, b), lambda a, b, x: (a - 1) * log(x) + (b - 1) * log(1 - x) + lg(a + b) - lg(a) - lg(b), lambda a, b: (0.0, 1.0), rng=(-5, 5),
                 poles=lambda a, b: (bool(a < 0.98), bool(b < 0.98))),
    'Pareto': Dist(par(('alpha', 0.1, 10), ('xmin', 0.1, 10)), lambda a, k: SD.ParetoDistr(a, k), lambda a, k, x: log(a) + a * log(k) - (a + 1) * log(x), lambda a, k: (k, INF)),
    'Levy': Dist(par(('c', 0.05, 10), ('xmin', -10, 10)), lambda c, k: SD.LevyDistr(c, k), lambda c, k, x: (log(c) - LOG2PI) / 2 - 1.5 * log(x - k) - c / (2 * (x - k)), lambda c, k: (k, INF), gap=1e-2),
    'Laplace': Dist(par(('lmbda', 0.1, 10), ('mu', -20, 20)), lambda l, u: SD.LaplaceDistr(l, u), lambda l, u, x: -log(2 * l) - (x - u if x > u else u - x) / l),
    'StudentT': Dist(par(('df', 0.1, 50)), lambda k: SD.StudentTDistr(k), lambda k, x: lg((k + 1) / 2) - lg(k / 2) - (log(k) + math.log(math.pi)) / 2 - (k + 1) / 2 * log(1 + x * x / k)),
    'Semicircle': Dist(par(('R', 0.1, 10)), lambda R: SD.SemicircleDistr(R), semicircle, lambda R: (-R, R), rng=(-20, 20)),
    'F': Dist(par(('df1', 0.1, 20), ('df2', 0.1, 20)), lambda a, b: SD.FDistr(a, b),
              lambda a, b, x: a / 2 * log(a) + b / 2 * log(b) + (a / 2 - 1) * log(x) - (a + b) / 2 * log(a * x + b) + lg((a + b) / 2) - lg(a / 2) - lg(b / 2), lambda a, b: (0.0, INF), poles=lambda a, b: (bool(a < 2), False)),
    'Weibull': Dist(par(('k', 0.1, 10), ('lmbda', 0.1, 10)), lambda k, l: SD.WeibullDistr(k, l), lambda k, l, x: log(k) - log(l) + (k - 1) * log(x / l) - power(x / l, k), lambda k, l: (0.0, INF), poles=lambda k, l: (bool(k < 1), False)),
    'Gumbel': Dist(par(('mu', -10, 10), ('sigma', 0.1, 10)), lambda u, s: SD.GumbelDistr(u, s), lambda u, s, x: -log(s) - (x - u) / s - exp(-(x - u) / s)),
    'Frechet': Dist(par(('alpha', 0.2, 10), ('s', 0.1, 10), ('m', -10, 10)), lambda a, s, u: SD.FrechetDistr(a, s, u), lambda a, s, u, x: log(a) - log(s) - (a + 1) * log((x - u) / s) - power((x - u) / s, -a), lambda a, s, u: (u, INF), gap=1e-2, shape=one_of(('alpha', (1, 2, 3)), ('s', 0.1, 10), ('m', -10, 10))),
    'LogLogistic': Dist(par(('k', 0.2, 10), ('s', 0.1, 10)), lambda k, s: SD.LogLogisticDistr(k, s), lambda k, s, x: log(k) + k * log(s) + (k - 1) * log(x) - 2 * log(exp(k * log(s)) + exp(k * log(x))), lambda k, s: (0.0, INF), poles=lambda k, s: (bool(k < 1), False), shape=one_of(('k', (0.5, 1, 2, 3)), ('s', 0.1, 10))),
    'Mollifier': Dist(par(('epsilon', 0.1, 10)), lambda e: SD.MollifierDistr(e), lambda e, x: math.log(2.2522836210435812) - log(e) - e * e / (e * e - x * x), lambda e: (-e, e), rng=(-20, 20), gap=1e-2),
}
for nm, D in DISTS.items():
    cls = {'Triangular': 'Trapezoidal'}.get(nm, nm) + 'Distr'
    b = 'any parameters in the stated ranges, any point'
    add('density[%s]' % nm, density(nm, D), bounds=b, encoded=['standard_distr.%s.__init__' % cls, 'standard_distr.%s.pdf' % cls], quick=D.has_pdf) if D.has_pdf else None
    add('pieces[%s]' % nm, pieces(nm, D), bounds=b, encoded=['standard_distr.%s.init_piecewise_pdf' % cls, 'standard_distr.%s.range' % cls, 'segments.PiecewiseFunction.__init__'])
    if D.has_pdf and nm != 'Beta':
        add('integers[%s]' % nm, integers(nm, D), bounds='any parameters, points 1, 2 and 5', encoded=['standard_distr.%s.pdf' % cls])


def at_ends(make, want, params):
    """density at the ends of the support, alone and in arrays"""
    def fn(h):
        ps = params(h)
        d = make(*ps)
        for e, w in want(*ps):
            v = d.pdf(e)
            va = d.pdf(h.array([e, e]))
            for u in (v, unwrap(va[0]), unwrap(va[1])):
                if not isinstance(w, tuple) and isinf(w):
                    h.check(isinf(u) and u == w, 'at-end')
                elif not isinstance(w, (tuple, sym.Sym)) and w == 0:
                    h.check_eq(u, 0, 'at-end')
                elif isinstance(w, tuple):
                    equals(h, u, w[0], 'at-end')
                elif h.sym:
                    h.check(u > 0, 'at-end')
                    h.check_eq(log(sym.lift(u)), log(sym.lift(w)), 'at-end')
                else:
                    h.check_eq(u, w, 'at-end')
    return fn


def edge(a, at1, below=INF, above=0):
    """limit at the end where the density goes like distance**(a-1)"""
    return at1 if a == 1 else below if a < 1 else above


ENDS = {
    'Gamma': (lambda k, t: [(0.0, edge(k, 1 / t))], [('k', 0.1, 10), ('theta', 0.05, 10)]),
    'ChiSquare': (lambda k: [(0.0, edge(k / 2, 0.5))], [('df', 0.1, 20)]),
    'F': (lambda a, b: [(0.0, edge(a / 2, 1))], [('df1', 0.1, 20), ('df2', 0.1, 20)]),
    'Weibull': (lambda k, l: [(0.0, edge(k, 1 / l))], [('k', 0.1, 10), ('lmbda', 0.1, 10)]),
    'LogLogistic': (lambda k, s: [(0.0, edge(k, 1 / s))], [('k', 0.1, 10), ('s', 0.1, 10)]),
    'Exponential': (lambda l: [(0.0, l)], [('lmbda', 0.05, 10)]),
    'Pareto': (lambda a, k: [(k, a / k)], [('alpha', 0.1, 10), ('xmin', 0.1, 10)]),
    'Semicircle': (lambda R: [(-R, 0), (R, 0)], [('R', 0.1, 10)]),
    'Mollifier': (lambda e: [(-e, 0), (e, 0)], [('epsilon', 0.1, 10)]),
    'Levy': (lambda c, k: [(k, 0)], [('c', 0.1, 10), ('xmin', -10, 10)]),
    'Frechet': (lambda a, s, u: [(u, 0)], [('alpha', 0.1, 10), ('s', 0.1, 10), ('m', -10, 10)]),
}
for nm, (want, ps) in ENDS.items():
    add('ends[%s]' % nm, at_ends(DISTS[nm].make, want, par(*ps)), bounds='any parameters, the ends of the support', encoded=['standard_distr.%sDistr.pdf' % nm])
# one exponent at a time
for nm, pq in (('alpha=1', lambda h: (1, h.real('beta', 1.001, 10))), ('alpha>1', lambda h: (h.real('alpha', 1.001, 10), 1)), ('both', lambda h: (1, 1)), ('inner', lambda h: (h.real('alpha', 1.001, 10), h.real('beta', 1.001, 10))),
               ('poles', lambda h: (h.real('alpha', 0.1, 0.99), h.real('beta', 0.1, 0.99)))):
    def ends_beta(a, b, nm=nm):
        c = (lg(a + b) - lg(a) - lg(b),)      # finite limit, in logarithms
        return [(0.0, edge(a, c)), (1.0, edge(b, c))]
    add('ends[Beta,%s]' % nm, at_ends(lambda a, b: SD.BetaDistr(a, b), ends_beta, pq), bounds='parameters as named, both ends', encoded=['standard_distr.BetaDistr.pdf'])


def refuses(make, bads):
    """parameters outside the domain"""
    def fn(h):
        good = [h.real('p%d' % i, 0.1, 10) for i in range(max(len(b) for b in bads))]
        which = h.choose('which', list(range(len(bads))))
        bad = h.real('bad', -10, 0)
        args = [bad if c == 'x' else g for c, g in zip(bads[which], good)]
        try:
            make(*args)
        except (AssertionError, ValueError, RuntimeError):
            h.check(True, 'refused')
        else:
            h.fail('refused', 'no error for %s' % (args,))
    return fn


for nm, bads in [('Normal', ['.x']), ('ChiSquare', ['x']), ('Gamma', ['x.', '.x']), ('Pareto', ['x.', '.x']), ('Levy', ['x.']), ('Laplace', ['x.']), ('StudentT', ['x']), ('Semicircle', ['x']), ('Weibull', ['x.', '.x']),
                 ('Gumbel', ['.x']), ('Frechet', ['x..', '.x.']), ('LogLogistic', ['x.', '.x']), ('Mollifier', ['x'])]:
    add('refused[%s]' % nm, refuses(DISTS[nm].make, bads), bounds='scale and shape parameters zero or negative', encoded=['standard_distr.%sDistr.__init__' % nm])


def given(spec, as_segments):
    """FunDistr and PDistr: the user's function on the user's breaks"""
    def fn(h):
        x = h.real('x', -30, 30)
        bs = [h.real('b0', -5, 5)]
        for i in range(len(spec)):
            bs.append(bs[-1] + h.real('w%d' % i, 0.2, 5))
        ends = list(bs)
        if spec[0] == 'M':
            ends[0] = -INF
        if spec[-1] == 'P':
            ends[-1] = INF
        f = h.fun('f')
        with exact_pieces():
            if as_segments:
                segs = [S.MInfSegment(b, f) if isinf(a) else S.PInfSegment(a, f) if isinf(b) else S.Segment(a, b, f) for a, b in zip(ends[:-1], ends[1:])]
                d = SD.PDistr(segs)
            else:
                d = SD.FunDistr(f, breakPoints=ends)
            r = d.get_piecewise_pdf()
        away(h, x, [e for e in ends if not isinf(e)])
        h.check(len(r.segments) == len(ends) - 1, 'pieces')
        h.check(land(h, [land(h, [same(s.a, a), same(s.b, b)]) for s, a, b in zip(r.segments, ends[:-1], ends[1:])]), 'breaks')
        w = f(x) if inside(x, ends[0], ends[-1]) else 0
        h.check_eq(value(r(x)), w, 'density')
        h.check_eq(value(d.pdf(x)) if as_segments else value(d.get_piecewise_pdf()(x)), w, 'pdf')
        if not as_segments:
            a, b = d.range()
            h.check(land(h, [same(a, ends[0]), same(b, ends[-1])]), 'range')
    return fn


for spec in ('S', 'SS', 'SSS', 'MS', 'SP', 'MP', 'MSP', 'MSSP'):
    for seg in (False, True):
        add('%s[%s]' % ('PDistr' if seg else 'FunDistr', spec), given(spec, seg), bounds='any function, any breaks', encoded=['standard_distr.FunDistr.init_piecewise_pdf', 'standard_distr.PDistr.init_piecewise_pdf', 'segments.PiecewiseFunction.__init__'])
