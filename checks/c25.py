"""Random samples: the map from base random numbers to samples."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import INF
from engine.ops import exact_pieces, value, isinf
from checks.c09 import land, lor, same
from checks.c10 import Cdf, solver
from checks.c14 import m
from checks.c16 import DISTS, LOG2PI, lg, log, exp, power
from checks.c20 import Jet
import pacal.distr as D
import pacal.segments as S
import pacal.standard_distr as SD
from pacal.stats import noncentral_distr as NC

P = 'C25'
META = {'assumptions': ["numpy's generators draw independent numbers from the distributions they are documented to have", 'the quotient of two independent standard normal variables is a Cauchy variable; '
                        'sqrt(U) cos(pi V) of independent uniform U, V has the semicircle density', 'interpolation of the inverse of the cumulative distribution is exact (C06)', 'root finding by its specification (C03)']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


# ------------------------------------------------------------------ base generators
# name: (parameters with defaults, log density, support)
GEN = {
    'normal': ((('loc', 0.0), ('scale', 1.0)), lambda x, u, s: -(x - u) * (x - u) / (2 * s * s) - log(s) - LOG2PI / 2, lambda u, s: (-INF, INF)),
    'uniform': ((('low', 0.0), ('high', 1.0)), lambda x, a, b: -log(b - a), lambda a, b: (a, b)),
    'chisquare': ((('df', None),), lambda x, k: (k / 2 - 1) * log(x) - x / 2 - k / 2 * math.log(2) - lg(k / 2), lambda k: (0, INF)),
    'exponential': ((('scale', 1.0),), lambda x, s: -log(s) - x / s, lambda s: (0, INF)),
    'gamma': ((('shape', None), ('scale', 1.0)), lambda x, k, t: (k - 1) * log(x) - x / t - lg(k) - k * log(t), lambda k, t: (0, INF)),
    'beta': ((('a', None), ('b', None)), lambda x, a, b: (a - 1) * log(x) + (b - 1) * log(1 - x) + lg(a + b) - lg(a) - lg(b), lambda a, b: (0, 1)),
    'pareto': ((('a', None),), lambda x, a: log(a) - (a + 1) * log(1 + x), lambda a: (0, INF)),
    'laplace': ((('loc', 0.0), ('scale', 1.0)), lambda x, u, s: -log(2 * s) - (x - u if bool(x > u) else u - x) / s, lambda u, s: (-INF, INF)),
    'standard_t': ((('df', None),), lambda x, k: lg((k + 1) / 2) - lg(k / 2) - (log(k) + math.log(math.pi)) / 2 - (k + 1) / 2 * log(1 + x * x / k), lambda k: (-INF, INF)),
    'weibull': ((('a', None),), lambda x, k: log(k) + (k - 1) * log(x) - power(x, k), lambda k: (0, INF)),
    'gumbel': ((('loc', 0.0), ('scale', 1.0)), lambda x, u, s: -log(s) - (x - u) / s - exp(-(x - u) / s), lambda u, s: (-INF, INF)),
    'f': ((('dfnum', None), ('dfden', None)), lambda x, a, b: a / 2 * log(a) + b / 2 * log(b) + (a / 2 - 1) * log(x) - (a + b) / 2 * log(a * x + b) + lg((a + b) / 2) - lg(a / 2) - lg(b / 2), lambda a, b: (0, INF)),
}
NAMES = {'f_rand': 'f'}


class Numbers(object):
    """stands for the generators; values[k] is handed out at the k-th request"""

    def __init__(self, h, size, wrap=lambda v: v, values=None):
        self.h, self.size, self.wrap = h, size, wrap
        self.calls = []
        self.values = values

    def one(self, name, ps, i):
        h = self.h
        lo, hi = GEN[name][2](*ps)
        k = len(self.calls)
        if self.values is not None:
            return self.values[k][i]
        u = h.real('b%d_%d' % (k, i), -12, 12)
        e = 1.0 / 64
        if isinf(lo) and isinf(hi):
            # zero has probability zero
            if h.sym:
                h.assume(sym.mkbool(sym.z3.Or(sym.tobool(u >= e), sym.tobool(u <= -e))))
            else:
                h.assume(abs(u) >= e)
            return u
        if isinf(hi):
            h.assume(u >= e)
            return lo + u
        h.assume(u >= e)
        h.assume(u <= 1 - e)
        return lo + (hi - lo) * u

    def gen(self, name):
        params = GEN[name][0]

        def draw(*args, **kw):
            vs = dict(zip([p for p, _ in params] + ['size'], args))
            vs.update(kw)
            ps = [vs.get(p, d) for p, d in params]
            size = vs.get('size')
            if size is None:
                n = 1
            else:
                n = int(size if not isinstance(size, tuple) else size[0])
            xs = [self.one(name, ps, i) for i in range(n)]
            self.calls.append((name, ps, xs, size))
            if size is None:
                return self.wrap(xs[0])
            return self.h.array([self.wrap(x) for x in xs])
        return draw

    def stubs(self):
        out = []
        for mod in (D, SD, S):
            for at in list(GEN) + list(NAMES):
                nm = NAMES.get(at, at)
                if hasattr(mod, at) and getattr(getattr(mod, at), '__self__', None).__class__.__name__ == 'RandomState':
                    out.append(((mod, at), self.gen(nm)))
        return stub(*out)


MAPS = ['Normal', 'Uniform', 'ChiSquare', 'Exponential', 'Gamma', 'Beta', 'Pareto', 'Laplace', 'StudentT', 'F', 'Weibull', 'Gumbel', 'Frechet', 'LogLogistic', 'Levy']


def mag(u):
    return u if bool(u > 0) else -u


def facts(name, ps, gp, x, v, dv):
    """(algebraic equation, instance of a law of logarithms that follows from it)"""
    if name == 'Pareto':
        a, k = ps
        yield v == k * (1 + x), lambda: log(v) == log(k) + log(1 + x)
    if name == 'Levy':
        c, k = ps
        b = mag(x)
        yield (v - k) * b * b == 1, lambda: log(v - k) == -2 * log(b)
        yield gp[1] * gp[1] * c == 1, lambda: log(gp[1]) == -log(c) / 2
        yield dv * b * b * b == 2, lambda: log(dv) == math.log(2) - 3 * log(b)


def frechet(ps, x, v, dv, h):
    """density times slope, from z = (v-m)/s"""
    a, s, u = ps
    z = (v - u) / s
    E = {1: lambda: 1 / z, 2: lambda: 1 / (z * z), 0.5: lambda: 1 / m('sqrt', z)}[a]()
    if h.sym and h.c.valid(E == -log(x)) is True:
        h.assume(exp(-E) == x)
    return a / s * E / z * exp(-E) * dv


def loglogistic(ps, x, v, dv, h):
    k, s = ps
    z = v / s
    q = {1: lambda: z, 2: lambda: z * z, 0.5: lambda: m('sqrt', z)}[k]()
    return k * q / (v * (1 + q) * (1 + q)) * dv


DIRECT = {'Frechet': frechet, 'LogLogistic': loglogistic}
SHAPES = {'Frechet': lambda h: (h.choose('alpha', [1, 2, 0.5]), h.real('s', 0.1, 10), h.real('m', -10, 10)), 'LogLogistic': lambda h: (h.choose('k', [1, 2, 0.5]), h.real('s', 0.1, 10))}


def mapped(name):
    """f(T(b)) |T'(b)| = g(b)"""
    T = DISTS[name]

    def fn(h):
        ps = (SHAPES.get(name) or T.params)(h)
        d = T.make(*ps)
        B = Numbers(h, None, wrap=lambda v: Jet({0: v, 1: 1}))
        with B.stubs():
            r = d.rand_raw(None)
        r = unwrap(r)
        if h.sym and h.c.div_zero:
            return
        h.check(len(B.calls) == 1, 'one-draw')
        if len(B.calls) != 1:
            return
        g, gp, xs, size = B.calls[0]
        h.check(size is None, 'scalar')
        x = xs[0]
        h.check(isinstance(r, Jet), 'depends-on-draw')
        v, dv = r.at(0), r.at(1)
        lo, hi = T.support(*ps)
        h.check(land(h, [v > lo if not isinf(lo) else True, v < hi if not isinf(hi) else True]), 'inside-support')
        if not h.sym and (abs(v) > 1e12 or abs(v - x) > 1e12 or (not isinf(lo) and abs(v - lo) < 1e-9)):
            return
        up = bool(dv > 0)
        if not up:
            h.check(dv < 0, 'strictly-monotone')
            dv = -dv
        two = 2 if name == 'Levy' else 1
        if two == 2:      # b and -b give the same sample: twice the density
            h.check(land(h, [gp[0] == 0]), 'symmetric')
        if name in DIRECT:
            if g != 'uniform':
                raise sym.Unsupported('generator')
            h.check_eq(DIRECT[name](ps, x, v, dv, h), 1 / (gp[1] - gp[0]), 'density', ctol=1e-7)
            return
        if h.sym:
            for eq, law in facts(name, ps, gp, x, v, dv):
                if eq is True or (not isinstance(eq, bool) and h.c.valid(eq) is True):
                    h.assume(law())
        want = GEN[g][1](x, *gp) + (math.log(2) if two == 2 else 0)
        got = T.logpdf(*ps, v)
        got = got[0] if isinstance(got, tuple) else got
        h.check_eq(got + log(dv), want, 'density', tol=1e-9, ctol=1e-6)
    return fn


def vector(name):
    """an array of draws is mapped element by element"""
    T = DISTS[name]

    def fn(h):
        ps = (SHAPES.get(name) or T.params)(h)
        d = T.make(*ps)
        n = h.choose('n', [1, 3])
        B = Numbers(h, n)
        with B.stubs():
            r = d.rand_raw(n) if h.choose('how', ['raw', 'rand']) == 'raw' else d.rand(n)
        h.check(np.shape(r) == (n,), 'shape')
        h.check(all(c[3] == n for c in B.calls), 'size')
        for i in range(n):
            C = Numbers(h, None, values=[[c[2][i]] for c in B.calls])
            with C.stubs():
                s = d.rand(None)
            h.check(np.shape(unwrap(s)) == (), 'scalar')
            h.check_eq(r[i], s, 'element', ctol=1e-9)
    return fn


for nm in MAPS:
    cls = nm + 'Distr'
    add('map[%s]' % nm, mapped(nm), bounds='any parameters in range, any base number', encoded=['standard_distr.%s.rand_raw' % cls])
for nm in list(MAPS) + ['Cauchy', 'Semicircle']:
    add('array[%s]' % nm, vector(nm), bounds='any parameters in range, 1 or 3 base numbers', encoded=['standard_distr.%sDistr.rand_raw' % nm, 'distr.Distr.rand'])


def cauchy(h):
    g, c = h.real('gamma', 0.05, 10), h.real('center', -20, 20)
    B = Numbers(h, None)
    with B.stubs():
        r = SD.CauchyDistr(g, c).rand(None)
    if h.sym and h.c.div_zero:
        return
    if len(B.calls) == 2 and all(k[0] == 'normal' for k in B.calls):
        (_, p, u, _), (_, q, v, _) = B.calls
        h.check(land(h, [p[0] == 0, q[0] == 0]), 'centred')
        a, b = u[0] / p[1], v[0] / q[1]
        if not h.sym and (abs(a) < 1e-6 or abs(b) < 1e-6):
            return
        # +-a/b or +-b/a
        z = (r - c) / g
        if h.sym:
            h.assume(u[0] != 0)
            h.assume(v[0] != 0)
        forms = [z * b == a, z * b == -a, z * a == b, z * a == -b] if h.sym else [abs(z * b - s * a) < 1e-6 * (1 + abs(a)) for s in (1, -1)] + [abs(z * a - s * b) < 1e-6 * (1 + abs(b)) for s in (1, -1)]
        h.check(lor(h, forms), 'quotient-of-normals')
    else:
        raise sym.Unsupported('generator of the Cauchy sample')


add('map[Cauchy]', cauchy, bounds='any parameters and base numbers', encoded=['standard_distr.CauchyDistr.rand_raw'])


def semi(h):
    R = h.real('R', 0.1, 10)
    B = Numbers(h, None)
    with B.stubs():
        r = SD.SemicircleDistr(R).rand(None)
    if len(B.calls) == 1:
        # preimages of a point share its density: none may have more than all of it
        C = Numbers(h, None, values=[B.calls[0][2]], wrap=lambda v: Jet({0: v, 1: 1}))
        with C.stubs():
            t = SD.SemicircleDistr(R).rand_raw(None)
        g, gp, xs, _ = B.calls[0]
        v, dv = t.at(0), t.at(1)
        h.check(land(h, [v * v <= R * R]), 'inside-support')
        if g == 'uniform':
            w = gp[1] - gp[0]
            h.check_le(1, 4 / (math.pi ** 2 * R ** 4) * (R * R - v * v) * dv * dv * w * w, 'share-of-density')
        else:
            h.check_le(2 * GEN[g][1](xs[0], *gp), math.log(4 / math.pi ** 2) - 4 * log(R) + log(R * R - v * v) + log(dv * dv), 'share-of-density')
        return
    if [c[0] for c in B.calls] != ['uniform', 'uniform']:
        raise sym.Unsupported('generator of the semicircle sample')
    u, v = B.calls[0][2][0], B.calls[1][2][0]
    for c in B.calls:
        h.check(land(h, [c[1][0] == 0, c[1][1] == 1]), 'unit-interval')
    forms = []
    for a, b in ((u, v), (v, u)):
        w = R * m('sqrt', a) * m('cos', b * math.pi)
        forms.append(r == w if h.sym else abs(r - w) < 1e-9)
    h.check(lor(h, forms), 'projected-disc')


add('map[Semicircle]', semi, bounds='any radius and base numbers', encoded=['standard_distr.SemicircleDistr.rand_raw'])


# ------------------------------------------------------------------ inverse of the cumulative distribution
class ByCdf(D.Distr):
    def __init__(self, F):
        D.Distr.__init__(self)
        self.F = F

    def get_piecewise_cdf(self):
        return self.F

    def get_piecewise_cdf_interp(self):
        return self.F


class Settled(object):
    """levels and curvatures fixed, positions free"""

    def __init__(self, h):
        self.h, self.k = h, 0

    def __getattr__(self, n):
        return getattr(self.h, n)

    def real(self, name, lo, hi):
        if name[0] == 'w':
            self.k += 1
            return self.h.q((3, 1, 2, 5)[self.k % 4], 4)
        if name[0] == 'c':
            return self.h.q((1, -1, 0)[len(name) % 3], 4)
        return self.h.real(name, lo, hi)


def inverted(spec, fixed):
    def fn(h):
        F = Cdf(Settled(h) if fixed else h, spec)
        d = ByCdf(F.pf)
        how = h.choose('how', ['scalar', 'array', 'exact', 'piecewise'])
        y = h.real('y', 0.001, 0.999)
        for k, a, b, v, u in F.parts:
            for w in (v, u):
                if h.sym:
                    h.assume(sym.mkbool(sym.z3.Or(sym.tobool(y - w >= 1e-3), sym.tobool(w - y >= 1e-3))))
                else:
                    h.assume(abs(y - w) >= 1e-3)
        z = F.at(h.q(0))
        if h.sym:
            h.assume(sym.mkbool(sym.z3.Or(sym.tobool(y - z >= 1e-3), sym.tobool(z - y >= 1e-3))))
        else:
            h.assume(abs(y - z) >= 1e-3)
        calls = []

        def uniform(low=0.0, high=1.0, size=None):
            calls.append((low, high, size))
            v = low + (high - low) * y
            return v if size is None else h.array([v] * size)
        with solver(h), exact_pieces(), stub(((D, 'uniform'), uniform), ((S, 'uniform'), uniform)):
            if how == 'scalar':
                x = d.rand_invcdf(None)
            elif how == 'array':
                x = d.rand_invcdf(2)
                h.check(np.shape(x) == (2,), 'shape')
                x = x[1]
            elif how == 'exact':
                x = d.rand_invcdf(None, use_interpolated=False)
            else:
                x = F.pf.rand(None)
        x = value(x)
        h.check(len(calls) == 1 and calls[0][0] == 0 and calls[0][1] == 1, 'unit-interval')
        h.check(isinstance(x, sym.Sym) or not math.isnan(x), 'answer')
        for p, lo, hi in F.jumps:
            if bool(lo < y) and bool(y < hi):
                h.check_eq(x, p, 'jump')
                h.end()
        h.check_eq(F.at(x), y, 'inverts', tol=1e-6, ctol=1e-4)
    return fn


for sp in ('S', 'M P', 'S S', 'S d S', 'S _ S', 'd _ d', 'S d', 'd S', 'M S P', 'P', 'M', 'S _ d'):
    for tag, fixed in (('', True), ('/any-levels', False)):
        add('inverse[%s]%s' % (sp, tag), inverted(sp, fixed), quick=fixed or sp in ('S', 'd _ d', 'P', 'M'), max_paths=1500, bounds='distribution function with parts "%s", any positions, %s levels and curvature' % (sp, 'fixed' if fixed else 'any'),
            encoded=['distr.Distr.rand_invcdf', 'distr.Distr.get_piecewise_invcdf', 'segments.PiecewiseFunction.invfun', 'segments.CumulativePiecewiseFunction.rand'])


def routed(h):
    """distributions without a generator of their own sample by inversion"""
    kind = h.choose('kind', ['FunDistr', 'PDistr', 'Trapezoidal', 'Mollifier', 'CondLt', 'CondBetween'])
    n = h.choose('n', [None, 1, 3])
    X = SD.UniformDistr(0, 1)
    d = {'FunDistr': lambda: SD.FunDistr(lambda x: x * 0 + 1, [0, 1]), 'PDistr': lambda: SD.PDistr([S.ConstSegment(0, 1, 1)]), 'Trapezoidal': lambda: SD.TrapezoidalDistr(0, 1, 2, 3),
         'Mollifier': lambda: SD.MollifierDistr(1), 'CondLt': lambda: D.CondLtDistr(X, 0.5), 'CondBetween': lambda: D.CondBetweenDistr(X, 0.25, 0.5)}[kind]()
    x = h.real('x', -5, 5)
    got = []

    def invcdf(size=None, use_interpolated=True):
        got.append(size)
        return x if size is None else h.array([x] * size)
    d.rand_invcdf = invcdf
    r = d.rand(n)
    h.check(got == [n], 'asked-once')
    h.check_eq(r if n is None else r[n - 1], x, 'sample')


add('by-inversion', routed, bounds='any answer of the inversion, scalar or arrays', encoded=['standard_distr.FunDistr.rand_raw', 'standard_distr.PDistr.rand_raw', 'standard_distr.TrapezoidalDistr.rand_raw', 'standard_distr.MollifierDistr.rand_raw', 'distr.CondLtDistr.rand_raw', 'distr.CondBetweenDistr.rand_raw'])


# ------------------------------------------------------------------ discrete
def levels(h, n, near=False):
    """probabilities summing to one (near: up to rounding)"""
    ws = [h.real('w%d' % i, 0.05, 1) for i in range(n)]
    tot = 0
    for w in ws:
        tot = tot + w
    ps = [w / tot for w in ws]
    if near:
        e = h.real('rounding', -1e-9, 1e-9)
        ps[-1] = ps[-1] + e
    return ps


def uniforms(h, us):
    def uniform(low=0.0, high=1.0, size=None):
        v = [low + (high - low) * u for u in us]
        return v[0] if size is None else h.array(v[:size])
    return stub(*[((mod, 'uniform'), uniform) for mod in (D, SD, S) if hasattr(mod, 'uniform')])


def discrete(h):
    n = h.choose('values', [1, 2, 3, 4])
    order = h.choose('order', ['increasing', 'decreasing'])
    near = h.choose('near', [False, True])
    ps = levels(h, n, near)
    xs = [h.real('x0', -20, 20)]
    for i in range(1, n):
        xs.append(xs[-1] + h.real('gap%d' % i, 0.125, 10))
    k = h.choose('size', [None, 2])
    us = [h.real('u%d' % i, 0, 1) for i in range(k or 1)]
    for u in us:
        h.assume(u < 1)
    cum = [0]
    for p in ps:
        cum.append(cum[-1] + p)
    for u in us:
        for c in cum[1:-1] + ([cum[-1]] if near else []):
            h.assume(u != c)
            if not h.sym:
                h.assume(abs(u - c) > 1e-12)
    if order == 'decreasing':
        d = D.DiscreteDistr(xs[::-1], ps[::-1])
    else:
        d = D.DiscreteDistr(list(xs), list(ps))
    with uniforms(h, us):
        r = d.rand(k)
    if k is None:
        h.check(np.shape(r) == (), 'scalar')
        r = [r]
    else:
        h.check(np.shape(r) == (k,), 'shape')
    for u, v in zip(us, r):
        w = xs[-1]
        for x, c in zip(xs[:-1], cum[1:-1]):
            if bool(u < c):
                w = x
                break
        h.check_eq(v, w, 'value')


add('discrete', discrete, max_paths=3000, bounds='up to 4 values, any probabilities, sums off by up to 1e-9', encoded=['distr.DiscreteDistr.rand_raw'])


def constant(h):
    c = h.real('c', -20, 20)
    d = D.ConstDistr(c)
    n = h.choose('n', [None, 1, 3])
    r = d.rand(n)
    if n is None:
        h.check(np.shape(unwrap(r)) == (), 'scalar')
        h.check_eq(r, c, 'value')
    else:
        h.check(np.shape(r) == (n,), 'shape')
        for v in r:
            h.check_eq(v, c, 'value')


add('constant', constant, bounds='any constant', encoded=['distr.ConstDistr.rand_raw'])


# ------------------------------------------------------------------ mixtures
class Marked(D.Distr):
    """samples are given numbers, handed out in order"""

    def __init__(self, vals, indep=True):
        D.Distr.__init__(self, [], indep=indep)
        self.vals, self.k, self.sizes = vals, 0, []

    def rand_raw(self, n=None):
        self.sizes.append(n)
        if n is None:
            self.k += 1
            return self.vals[self.k - 1]
        r = self.vals[self.k:self.k + n]
        self.k += n
        return np.array([], dtype=float) if n == 0 else self.h.array(r)

    def range(self):
        return -INF, INF


def mixture(h):
    """u picks the component whose cumulated probability it falls into; the i-th
    sample of a component is the next one drawn from it"""
    n = h.choose('components', [1, 2, 3])
    k = h.choose('size', [None, 1, 3])
    near = h.choose('near', [False, True])
    ps = levels(h, n, near)
    ds = []
    for i in range(n):
        Marked.h = h
        ds.append(Marked([h.real('s%d_%d' % (i, j), -20, 20) for j in range(3)]))
    us = [h.real('u%d' % i, 0, 1) for i in range(k or 1)]
    cum = [0]
    for p in ps:
        cum.append(cum[-1] + p)
    for u in us:
        h.assume(u < 1)
        for c in cum[1:]:
            if c is cum[-1] and not near:
                continue
            h.assume(u != c)
            if not h.sym:
                h.assume(abs(u - c) > 1e-12)
    how = {}

    def randint(low, high=None, size=None):
        how['randint'] = True
        raise sym.Unsupported('components drawn with equal probabilities')
    d = SD.MixDistr(ps, ds)
    drawn = [0] * n
    with uniforms(h, us):
        r = d.rand(k)
    if k is None:
        h.check(np.shape(unwrap(r)) == (), 'scalar')
        r = [r]
    else:
        h.check(np.shape(r) == (k,), 'shape')
    for u, v in zip(us, r):
        w = n - 1
        for j, c in enumerate(cum[1:-1]):
            if bool(u < c):
                w = j
                break
        h.check_eq(v, ds[w].vals[drawn[w]], 'component')
        drawn[w] += 1
    h.check([d_.k for d_ in ds] == drawn, 'draws')


add('mixture', mixture, max_paths=3000, bounds='up to 3 components, any probabilities, up to 3 samples', encoded=['standard_distr.MixDistr.rand_raw'])


# ------------------------------------------------------------------ conditional variables
def rejected(h):
    """only samples above the bound, in the order drawn"""
    n = h.choose('size', [None, 1, 2])
    L = h.real('L', -5, 5)
    vals = [h.real('v%d' % i, -9, 9) for i in range(4)] + [L + 1, L + 2, L + 3, L + 4]
    Marked.h = h
    X = Marked(vals)
    d = D.CondGtDistr(X, L)
    r = d.rand(n)
    if n is None:
        h.check(np.shape(unwrap(r)) == (), 'scalar')
        r = [r]
    else:
        h.check(np.shape(r) == (n,), 'shape')
    want = [v for v in vals if bool(v > L)]
    for a, b in zip(r, want):
        h.check_eq(a, b, 'accepted')


add('conditional-above', rejected, bounds='any bound, up to 4 arbitrary samples', encoded=['distr.CondGtDistr.rand_raw'])


# ------------------------------------------------------------------ functions of discrete and scalar samples
FUNS = {'sin': (D.sin, math.sin), 'cos': (D.cos, math.cos), 'tan': (D.tan, math.tan), 'exp': (D.exp, math.exp), 'abs': (abs, abs), 'square': (lambda d: d ** 2, lambda v: v * v),
        'inverse': (lambda d: 1 / d, lambda v: 1 / v), 'half': (lambda d: d / 2, lambda v: v / 2)}


def of_integers(h):
    """samples of a variable with integer values (element types only exist in the replay)"""
    f = h.choose('fun', sorted(FUNS))
    p = h.real('p', 0.1, 0.9)
    u = h.real('u', 0, 1)
    h.assume(u < 1)
    h.assume(u != p)
    if not h.sym:
        h.assume(abs(u - p) > 1e-9)
    X = D.DiscreteDistr([1, 2], [p, 1 - p])
    with exact_pieces():
        d = FUNS[f][0](X)
        with uniforms(h, [u]):
            r = d.rand(1)
    h.check_eq(r[0], FUNS[f][1](1 if bool(u < p) else 2), 'value', tol=1e-12, ctol=1e-9)


add('integer-values', of_integers, bounds='values 1 and 2, any probabilities', encoded=['distr.FuncNoninjectiveDistr.rand_op', 'distr.FuncDistr.rand_op', 'distr.AbsDistr.rand_op', 'distr.SquareDistr.rand_op', 'distr.InvDistr.rand_op'])


def scalar_functions(h):
    f = h.choose('fun', ['exp', 'log', 'abs', 'square', 'inverse', 'shift', 'sum', 'max', 'min', 'sin', 'cos'])
    Marked.h = h
    x, y = h.real('x', 0.25, 3), h.real('y', 0.25, 3)
    if f in ('sin', 'cos'):
        class Bounded(Marked):
            def range(self):
                return 0.25, 3
        X, Y = Bounded([x]), Bounded([y])
    else:
        class Positive(Marked):
            def range(self):
                return 0.25, 3

            def is_nonneg(self):
                return True
        X, Y = Positive([x]), Positive([y])
    d, w = {'exp': lambda: (D.exp(X), m('exp', x)), 'log': lambda: (D.log(X), m('log', x)), 'abs': lambda: (abs(X), x), 'square': lambda: (X ** 2, x * x), 'inverse': lambda: (1 / X, 1 / x),
            'shift': lambda: (2 * X + 1, 2 * x + 1), 'sum': lambda: (X + Y, x + y), 'max': lambda: (D.max(X, Y), x if bool(x > y) else y), 'min': lambda: (D.min(X, Y), y if bool(x > y) else x),
            'sin': lambda: (D.sin(X), m('sin', x)), 'cos': lambda: (D.cos(X), m('cos', x))}[f]()
    r = d.rand(None)
    h.check(np.shape(unwrap(r)) == (), 'scalar')
    h.check_eq(value(r), w, 'value', ctol=1e-9)


add('scalar', scalar_functions, bounds='any sample', encoded=['distr.OpDistr.rand', 'distr.*.rand_op'])


def caching(h):
    """a dependent variable is drawn once per call, an independent one at every use"""
    indep = h.choose('indep', [True, False])
    vals = [h.real('v%d' % i, -9, 9) for i in range(4)]
    Marked.h = h
    X = Marked(vals, indep=indep)
    cache = h.choose('cache', [None, {}])
    cache = None if cache is None else {}
    a = X.rand(None, cache)
    b = X.rand(None, cache)
    h.check_eq(a, vals[0], 'first')
    h.check_eq(b, vals[0] if (not indep and cache is not None) else vals[1], 'second')
    cache2 = {}
    c = X.rand(2, cache2)
    h.check_eq(c[1], vals[1 + (0 if (not indep and cache is not None) else 1) + 1] if X.k <= 4 else 0, 'fresh')


add('caching', caching, bounds='two draws with and without a shared cache', encoded=['distr.Distr.rand'])
