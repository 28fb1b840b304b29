"""Sample statistics of independent copies."""
import math
import operator
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import INF
from engine.ops import exact_pieces, value, away, isinf
from checks.c09 import PW, land, lor, same
from checks.c10 import Dens
from checks.c14 import m
import pacal.distr as D
import pacal.segments as S
import pacal.standard_distr as SD
import pacal.utils as U
import pacal.depvars.nddistr as ND
from pacal import params
from pacal.stats import iid_ops as I
from pacal.stats import noncentral_distr as NC

P = 'C24'
META = {'assumptions': ['interpolation of the resulting density is exact (C06, C07)', 'operations on two variables give the distribution of the operation on independent copies (C09-C14)',
                        'cumulative distribution functions are the integrals of densities (C10)']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('thorough', {'budget': 400, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def choose(n, k):
    return math.comb(n, k)


def ipow(u, k):
    r = 1
    for _ in range(k):
        r = r * u
    return r


# ------------------------------------------------------------------ repeated operations
class Cell(object):
    """operand of a free associative operation: the number of copies combined"""

    def __init__(self, n):
        self.n = n


def powers(h):
    n = h.choose('n', list(range(1, 65)))
    x = h.real('x', -50, 50)
    calls = []

    def plus(a, b):
        calls.append(1)
        return a + b
    h.check_eq(I._int_exp(x, n, plus), n * x, 'power')
    h.check(len(calls) <= 2 * math.log2(n) + 1, 'number-of-operations')
    r = I._int_exp_all(x, n, plus)
    h.check(len(r) == n, 'all-length')
    for i, v in enumerate(r):
        h.check_eq(v, (i + 1) * x, 'all-powers')

    def weighted(i1, a, i2, b):
        h.check_eq(a, i1 * x, 'weight-left')
        h.check_eq(b, i2 * x, 'weight-right')
        return a + b
    h.check_eq(I._int_exp2(x, n, weighted), n * x, 'weighted-power')
    r = I._int_exp_all2(x, n, weighted)
    h.check(len(r) == n, 'weighted-all-length')
    for i, v in enumerate(r):
        h.check_eq(v, (i + 1) * x, 'weighted-all')
    if n <= 8:
        h.check_eq(I._int_exp(x, n), ipow(x, n), 'product')


add('repeated-operation', powers, bounds='1 to 64 copies of any number', encoded=['stats.iid_ops._int_exp', 'stats.iid_ops._int_exp_all', 'stats.iid_ops._int_exp2', 'stats.iid_ops._int_exp_all2'])


def leaves(d, X, op):
    """copies of X below nodes of the given class; None if anything else occurs"""
    if d is X:
        return 1
    if type(d) is not op:
        return None
    a, b = leaves(d.d1, X, op), leaves(d.d2, X, op)
    return None if a is None or b is None else a + b


OPS = {'sum': (I.iid_sum, D.SumDistr), 'prod': (I.iid_prod, D.MulDistr), 'min': (I.iid_min, D.MinDistr), 'max': (I.iid_max, D.MaxDistr)}


def bernoulli(op, ns):
    """two values, any probabilities: the whole distribution of the statistic"""
    def fn(h):
        n = h.choose('n', ns)
        p = h.real('p', 0.1, 0.9)
        u, v = {'sum': (0, 1), 'min': (0, 1), 'max': (0, 1), 'prod': (1, 2), 'average': (0, 1), 'geom': (1, 4)}[op]
        X = D.DiscreteDistr([u, v], [1 - p, p])
        keep = params.general.warn_on_dependent
        every = h.choose('all', [False, True])
        f = {'average': I.iid_average, 'geom': I.iid_average_geom}.get(op) or OPS[op][0]
        R = f(X, n, all=every)
        with exact_pieces():
            for r in R if every else [R]:
                r.get_piecewise_pdf()
        h.check(params.general.warn_on_dependent is keep, 'warning-restored')
        if every:
            h.check(len(R) == n, 'all-length')
        else:
            R = [None] * (n - 1) + [R]
        for i, r in enumerate(R):
            if r is None:
                continue
            k = i + 1
            want = {}
            for j in range(k + 1):
                w = choose(k, j) * ipow(p, j) * ipow(1 - p, k - j)
                at = {'sum': lambda: u * (k - j) + v * j, 'prod': lambda: v ** j, 'min': lambda: v if j == k else u, 'max': lambda: u if j == 0 else v,
                      'average': lambda: j / k, 'geom': lambda: 4 ** (j / k)}[op]()
                want[at] = want.get(at, 0) + w
            got = r.get_piecewise_pdf().getDiracs()
            left = dict(want)
            for s in got:
                a = float(unwrap(s.a)) if not isinstance(unwrap(s.a), sym.Sym) else float(unwrap(s.a).const())
                hit = [w for w in left if abs(w - a) < 1e-9]
                if not hit:
                    h.check_eq(s.f, 0, 'no-other-value')
                    continue
                h.check_eq(s.f, left.pop(hit[0]), 'probability')
            h.check(not left, 'every-value')
    return fn


for o in ('sum', 'prod', 'min', 'max', 'average', 'geom'):
    for tag, ns in (('', [1, 2, 3]), ('/more', [4, 5])):
        add('two-values[%s]%s' % (o, tag), bernoulli(o, ns), quick=not tag, bounds='%d to %d copies of a variable with two values and any probabilities' % (ns[0], ns[-1]), encoded=['stats.iid_ops.iid_' + ('average_geom' if o == 'geom' else o)])


def trees(h):
    op = h.choose('op', sorted(OPS))
    n = h.choose('n', [1, 2, 3, 5, 7, 8, 13, 32, 51])
    f, cls = OPS[op]
    X = D.DiscreteDistr([0, 1], [0.5, 0.5])
    h.check(leaves(f(X, n), X, cls) == n, 'copies')
    r = f(X, n, all=True)
    h.check([leaves(d, X, cls) for d in r] == list(range(1, n + 1)), 'all-copies')


add('copies', trees, bounds='sum, product, minimum, maximum of up to 51 copies', encoded=['stats.iid_ops.iid_op'])


def failing(h):
    n = h.choose('n', [2, 3, 7])
    at = h.choose('at', [1, 2])
    which = h.choose('which', ['op', 'op2'])
    every = h.choose('all', [False, True])
    keep = params.general.warn_on_dependent
    cnt = [0]

    def bad(*a):
        cnt[0] += 1
        if cnt[0] >= at:
            raise ValueError('refused')
        return a[-1]
    try:
        (I.iid_op if which == 'op' else I.iid_op2)(1.0, n, bad, all=every)
    except ValueError:
        pass
    try:
        h.check(params.general.warn_on_dependent is keep, 'warning-restored-after-failure')
    finally:
        params.general.warn_on_dependent = keep


add('failing-operation', failing, bounds='2 to 7 copies, failing at the first or second operation', encoded=['stats.iid_ops.iid_op', 'stats.iid_ops.iid_op2'])


# ------------------------------------------------------------------ order statistics
class Given(Dens):
    """a distribution given by density and cumulative distribution, both any functions"""

    def __init__(self, h, spec):
        self.w = PW(h, 'f', spec, cls=S.PiecewiseDistribution)
        Dens.__init__(self, self.w.pf)
        self.cd = S.CumulativePiecewiseFunction([])
        self.F = []
        segs = self.w.pf.segments
        prev = None
        for i, s in enumerate(segs):
            F = h.fun('F%d' % i)
            if prev is not None and not same(prev, s.a) and bool(prev < s.a):
                G = h.real('G%d' % i, 0, 1)
                self.cd.addSegment(S.Segment(prev, s.a, S.ConstFun(G)))
                self.F.append((prev, s.a, (lambda G: (lambda u: G))(G)))
            self.F.append((s.a, s.b, F))
            prev = s.b
            self.cd.addSegment(S.MInfSegment(s.b, F) if s.isMInf() else S.PInfSegment(s.a, F) if s.isPInf() else S.Segment(s.a, s.b, F))
        if not isinf(segs[-1].b):
            self.cd.addSegment(S.PInfSegment(segs[-1].b, S.ConstFun(1.0)))
        if not isinf(segs[0].a):
            self.cd.addSegment(S.MInfSegment(segs[0].a, S.ConstFun(0)))

    def get_piecewise_cdf(self):
        return self.cd

    def get_piecewise_cdf_interp(self):
        return self.cd

    def get_piecewise_ccdf(self):
        return 1 - self.cd

    def cum(self, x):
        for a, b, F in self.F:
            if (isinf(a) or bool(x > a)) and (isinf(b) or bool(x < b)):
                return F(x)
        return None


def order(n, k, f, F):
    return k * choose(n, k) * f * ipow(F, k - 1) * ipow(1 - F, n - k)


def where(h, X, name='x'):
    lo = X.w.pf.segments[0].a
    x = (0 if isinf(lo) else lo) + h.real(name, -60, 130)
    away(h, x, X.w.ends())
    return x


SPECS = ['S', 'S S', 'S _ S', 'M P', 'M S P', 'L S', 'S R', 'S P']


def stat(spec, ns):
    def fn(h):
        kind = h.choose('kind', ['order', 'unknown', 'median'])
        n = h.choose('n', ns)
        k = h.choose('k', [i for i in range(1, n + 1)]) if kind != 'median' else (n + 1) // 2
        if kind == 'median' and n % 2 == 0:
            raise sym.Infeasible()
        if kind == 'unknown' and (1 + n - k not in (1, 2, 4) or n > 4):     # 1/(1+n-k) exact
            raise sym.Infeasible()
        X = Given(h, spec)
        x = where(h, X)
        with exact_pieces():
            r = {'order': lambda: I.iid_order_stat(X, n, k), 'unknown': lambda: I.iid_unknown(X, n, k), 'median': lambda: I.iid_median(X, n)}[kind]()
            inside = X.w.piece_at(x) is not None
            F = X.cum(x)
            if not inside:
                want = 0
            elif kind == 'unknown':
                want = 0
                for j in range(k, n + 1):
                    want = want + order(n, j, X.w.at(x), F)
                want = want / (1 + n - k)
            else:
                want = order(n, k, X.w.at(x), F)
            h.check_eq(value(r.get_piecewise_pdf()(x)), want, 'density')
            lo, hi = X.w.ends_range()
            a, b = r.range()
            h.check(land(h, [same(a, lo) if isinf(a) or isinf(lo) else a == lo, same(b, hi) if isinf(b) or isinf(hi) else b == hi]), 'range')
            if inside or not isinf(lo):
                h.check_eq(value(r.pdf(x)), want, 'pdf')
    return fn


for sp in SPECS:
    for tag, ns in (('', [1, 2, 3, 5] if sp in ('S', 'M S P') else [1, 2, 4] if sp in ('L S', 'S R') else [2, 3, 5]), ('/more', [1, 2, 3, 4, 5, 6])):
        add('order-statistic[%s]%s' % (sp, tag), stat(sp, ns), quick=not tag, max_paths=1500, bounds='density and cumulative distribution any functions on pieces "%s", n in %s, every rank' % (sp, ns),
            encoded=['stats.iid_ops.iid_order_stat', 'stats.iid_ops.iid_unknown', 'stats.iid_ops.iid_median'])


def refused(h):
    n = h.choose('n', [1, 2, 3, 5])
    k = h.choose('k', [-3, -1, 0, 1, n, n + 1, n + 2, 2 * n + 5])
    X = SD.UniformDistr(0, 1)
    with exact_pieces():
        try:
            r = I.iid_order_stat(X, n, k)
            ok = True
        except (AssertionError, ValueError):
            ok = False
    h.check(ok == (1 <= k <= n), 'rank-in-range')


add('rank', refused, bounds='n up to 5, ranks below, at and above the range', encoded=['stats.iid_ops.iid_order_stat'])


def weights(k):
    """weights over [0,1] of the nodes (2i+1)/(2k), exact to degree k-1 (k for odd k)"""
    from fractions import Fraction as F
    x = [F(2 * i + 1, 2 * k) for i in range(k)]
    out = []
    for i in range(k):
        c = [F(1)]
        for j in range(k):
            if j != i:
                d = x[i] - x[j]
                c = [(c[n - 1] if n > 0 else 0) / d - (c[n] * x[j] / d if n < len(c) else 0) for n in range(len(c) + 1)]
        out.append(sum(v / (n + 1) for n, v in enumerate(c)))
    return x, out


NODES = weights(7)


def cotes(h):
    """seven open equidistant nodes: exact to degree 7"""
    def line(f, a, b, *args, **kw):
        assert not isinstance(a, float) or math.isfinite(a)
        q = lambda u: h.q(u.numerator, u.denominator)
        y = f(h.array([a + (b - a) * q(x) for x in NODES[0]]))
        r = 0
        for w, v in zip(NODES[1], np.ravel(y)):
            r = r + q(w) * unwrap(v)
        return (b - a) * r, 0
    return line


def uniform(h):
    n = h.choose('n', [1, 2, 3, 4, 5])
    k = h.choose('k', list(range(1, n + 1)))
    a = h.real('a', -20, 20)
    l = h.real('l', 0.5, 30)
    x = a + h.real('x', -10, 50)
    away(h, x, [a, a + l])
    X = SD.UniformDistr(a, a + l)
    with exact_pieces(), stub((S.integrate_fejer2, cotes(h)), (S.integrate_wide_interval, cotes(h))):
        r = I.iid_order_stat(X, n, k)
        u = (x - a) / l
        want = order(n, k, 1 / l, u) if bool(x > a) and bool(x < a + l) else 0
        h.check_eq(value(r.pdf(x)), want, 'density')
        h.check_eq(value(r.get_piecewise_pdf()(x)), want, 'piecewise')


def total(h):
    n = h.choose('n', [1, 2, 3, 4])
    k = h.choose('k', list(range(1, n + 1)))
    a = h.real('a', -20, 20)
    l = h.real('l', 0.5, 30)
    X = SD.UniformDistr(a, a + l)
    with exact_pieces(), stub((S.integrate_fejer2, cotes(h)), (S.integrate_wide_interval, cotes(h))):
        r = I.iid_order_stat(X, n, k)
        h.check_eq(r.get_piecewise_pdf().integrate(), 1, 'mass')
        h.check_eq(r.mean(), a + l * h.q(k, n + 1), 'mean')


add('uniform-total', total, bounds='uniform variable with any ends, n up to 4, every rank', encoded=['stats.iid_ops.iid_order_stat'])


add('uniform', uniform, bounds='uniform variable with any ends, n up to 5, every rank', encoded=['stats.iid_ops.iid_order_stat'])


def triangle(h):
    """a linear density"""
    n = h.choose('n', [1, 2, 3])
    k = h.choose('k', list(range(1, n + 1)))
    a = h.real('a', -20, 20)
    l = h.real('l', 0.5, 30)
    x = a + h.real('x', -10, 50)
    away(h, x, [a, a + l])
    X = SD.TrapezoidalDistr(a, a + l, a + l, a + l)
    with exact_pieces(), stub((S.integrate_fejer2, cotes(h)), (S.integrate_wide_interval, cotes(h))):
        r = I.iid_order_stat(X, n, k)
        u = (x - a) / l
        want = order(n, k, 2 * u / l, u * u) if bool(x > a) and bool(x < a + l) else 0
        h.check_eq(value(r.pdf(x)), want, 'density')
        h.check_eq(r.get_piecewise_pdf().integrate(), 1, 'mass')


add('linear', triangle, bounds='linear density on any interval, n up to 3, every rank', encoded=['stats.iid_ops.iid_order_stat'])


# ------------------------------------------------------------------ two order statistics
def joint(h):
    n = h.choose('n', [2, 3, 4, 5])
    ij = h.choose('ij', [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)])
    i, j = ij
    a = h.real('a', -20, 20)
    l = h.real('l', 0.5, 30)
    x, y = a + l * h.real('u', 0.01, 0.99), a + l * h.real('v', 0.01, 0.99)
    e = h.q(1, 10 ** 4)
    if h.sym:
        h.assume(sym.mkbool(sym.z3.Or(sym.tobool(x - y >= e), sym.tobool(y - x >= e))))
    else:
        h.assume(abs(x - y) >= e)
    X = SD.UniformDistr(a, a + l)
    with exact_pieces(), stub((S.integrate_fejer2, cotes(h)), (S.integrate_wide_interval, cotes(h))):
        d = ND.IJthOrderStatsNDDistr(X, n, i, j)
        F, G = (x - a) / l, (y - a) / l
        c = math.factorial(n) // (math.factorial(i - 1) * math.factorial(j - i - 1) * math.factorial(n - j))
        want = c * ipow(F, i - 1) * ipow(G - F, j - i - 1) * ipow(1 - G, n - j) / (l * l) if bool(x < y) else 0
        h.check_eq(value(d.pdf(x, y)), want, 'density')
        h.check_eq(d.pdf(h.array([x, x]), h.array([y, y]))[1], want, 'density-vector')
        h.check(d.d == 2 and len(d.Vars) == 2, 'variables')
        for V, k in zip(d.Vars, ij):
            u = (x - a) / l
            h.check_eq(value(V.pdf(x)), order(n, k, 1 / l, u), 'marginals')
            h.check(str(V.getSymname()) == 'X_%d' % k, 'names')
        for A in (d.a, d.b):
            h.check(len(A) == 2, 'box')
        h.check(land(h, [d.a[0] == a, d.a[1] == a, d.b[0] == a + l, d.b[1] == a + l]), 'box')


add('two-order-statistics', joint, bounds='uniform variable with any ends, n up to 5, every pair of ranks', encoded=['depvars.nddistr.IJthOrderStatsNDDistr'])


def pairs(h):
    n = h.choose('n', [1, 2, 4])
    i = h.choose('i', [-1, 0, 1, 2, 4, 5])
    j = h.choose('j', [-1, 0, 1, 2, 4, 5])
    X = SD.UniformDistr(0, 1)
    with exact_pieces():
        try:
            ND.IJthOrderStatsNDDistr(X, n, i, j)
            ok = True
        except (AssertionError, ValueError):
            ok = False
    h.check(ok == (1 <= i < j <= n), 'ranks-in-range')


add('pair-of-ranks', pairs, bounds='n up to 4, ranks from -1 to 5', encoded=['depvars.nddistr.IJthOrderStatsNDDistr.__init__'])


def coefficients(h):
    n = h.choose('n', list(range(0, 31)))
    x = h.real('x', -5, 5)
    for k in range(0, n + 1):
        h.check_eq(U.binomial_coeff(n, k) * x, choose(n, k) * x, 'binomial', ctol=1e-12)
    for i in range(0, n + 1):
        for j in range(0, n + 1 - i, 3):
            w = math.factorial(n) // (math.factorial(i) * math.factorial(j) * math.factorial(n - i - j))
            h.check_eq(U.multinomial_coeff(n, [i, j, n - i - j]) * x, w * x, 'multinomial', ctol=1e-12)
    try:
        U.multinomial_coeff(n, [n + 1])
        h.check(False, 'multinomial-sum')
    except AssertionError:
        h.check(True, 'multinomial-sum')


add('coefficients', coefficients, bounds='n up to 30', encoded=['utils.binomial_coeff', 'utils.multinomial_coeff'])


# ------------------------------------------------------------------ noncentral distributions
class Base(object):
    """base random numbers: values handed out in the order of the requests"""

    def __init__(self, h):
        self.h, self.normals, self.squares = h, [], []

    def normal(self, mu=0.0, sigma=1.0, n=None):
        z = self.h.real('z%d' % len(self.normals), -4, 4)
        self.normals.append(z)
        return mu + sigma * z

    def chisquare(self, df, n=None):
        c = self.h.real('c%d' % len(self.squares), 0.125, 30)
        self.squares.append((df, c))
        return c


def noncentral(kind):
    def fn(h):
        lam = h.real('lambda', 0, 20) if kind != 't' else h.real('mu', -10, 10)
        a = h.choose('a', [1, 1.5, 2, 4, 8]) if kind != 'beta' else h.choose('a', [0.5, 0.75, 1, 2])
        b = h.choose('b', [1, 2, 4])
        ra = math.sqrt if not h.sym else (lambda u: u ** 0.5)
        B = Base(h)
        with stub(((SD, 'normal'), B.normal), ((SD, 'chisquare'), B.chisquare)):
            d = {'t': lambda: NC.NoncentralTDistr(a, lam), 'chi2': lambda: NC.NoncentralChiSquareDistr(a, lam), 'beta': lambda: NC.NoncentralBetaDistr(a, b, lam), 'F': lambda: NC.NoncentralFDistr(a, b, lam)}[kind]()
            r = value(d.rand(None))
        if h.sym and h.c.div_zero:
            return
        dfs = sorted(float(f) for f, _ in B.squares)
        h.check(len(B.normals) == 1, 'one-normal')
        z = B.normals[0]
        sq = dict((float(f), c) for f, c in B.squares)
        root = lambda u: m('sqrt', u) if h.sym else math.sqrt(u)
        if kind == 't':
            h.check(dfs == [float(a)], 'degrees-of-freedom')
            if dfs != [float(a)]:
                return
            # r sqrt(c/df) = z+mu, with sqrt u = exp(log(u)/2)
            h.check_eq(r * m('exp', m('log', sq[float(a)] / a) * 0.5), z + lam, 'noncentral-t')
            h.check_eq(d.df, a, 'df')
            return
        n1 = {'chi2': a, 'beta': 2 * a, 'F': a}[kind]
        w1 = ([float(n1 - 1)] if n1 > 1 else [])
        w2 = {'chi2': [], 'beta': [2.0 * b], 'F': [float(b)]}[kind]
        h.check(dfs == sorted(w1 + w2), 'degrees-of-freedom')
        if dfs != sorted(w1 + w2):
            return
        t = z + root(lam)

        def go(x1, x2):
            q = t * t + x1
            if kind == 'chi2':
                return r, q
            if kind == 'beta':
                return r * (q + x2), q
            return r * (x2 / b), q / a
        if w1 and w2 and w1 == w2:
            c1, c2 = [c for _, c in B.squares]
            l1, r1 = go(c1, c2)
            l2, r2 = go(c2, c1)
            if h.sym:
                h.check(sym.mkbool(sym.z3.Or(sym.tobool(l1 == r1), sym.tobool(l2 == r2))), 'noncentral')
            else:
                h.check(abs(l1 - r1) < 1e-7 * (1 + abs(r1)) or abs(l2 - r2) < 1e-7 * (1 + abs(r2)), 'noncentral')
            return
        l1, r1 = go(sq[w1[0]] if w1 else 0, sq[w2[0]] if w2 else 0)
        h.check_eq(l1, r1, 'noncentral', ctol=1e-7)
    return fn


for kd in ('t', 'chi2', 'beta', 'F'):
    add('noncentral[%s]' % kd, noncentral(kd), bounds='noncentrality any number, small degrees of freedom, base numbers any', encoded=['stats.noncentral_distr.Noncentral' + {'t': 'T', 'chi2': 'ChiSquare', 'beta': 'Beta', 'F': 'F'}[kd] + 'Distr'])


def central(h):
    df = h.choose('df', [-2, 0, 0.5, 1, 2])
    try:
        NC.NoncentralChiSquareDistr(df, 1)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    h.check(ok == (df >= 1), 'degrees-of-freedom-in-range')


add('noncentral-degrees', central, bounds='degrees of freedom below, at and above one', encoded=['stats.noncentral_distr.NoncentralChiSquareDistr.__init__'])


def any_degrees(h):
    """the central part has exactly the remaining degrees of freedom, for real degrees too"""
    kind = h.choose('kind', ['t', 'chi2', 'beta', 'F'])
    a, b = h.real('a', 1 if kind != 'beta' else 0.5, 40), h.real('b', 0.25, 40)
    seen = []

    def square(df=1, **k):
        seen.append(df)
        return SD.UniformDistr(1, 2)
    with stub((NC.ChiSquareDistr, square)):
        d = {'t': lambda: NC.NoncentralTDistr(a, 1), 'chi2': lambda: NC.NoncentralChiSquareDistr(a, 1), 'beta': lambda: NC.NoncentralBetaDistr(a, b, 1), 'F': lambda: NC.NoncentralFDistr(a, b, 1)}[kind]()
    n1 = {'t': None, 'chi2': a, 'beta': 2 * a, 'F': a}[kind]
    want = [a] if kind == 't' else ([n1 - 1] if bool(n1 > 1) else []) + {'chi2': [], 'beta': [2 * b], 'F': [b]}[kind]
    h.check(len(seen) == len(want), 'terms')
    if len(seen) != len(want):
        return
    if len(want) < 2:
        for g, w in zip(seen, want):
            h.check_eq(g, w, 'degrees')
    else:
        ok = lambda p: land(h, [x == y for x, y in zip(p, want)])
        h.check(lor(h, [ok(seen), ok(seen[::-1])]), 'degrees')
    h.check_eq({'t': lambda: d.df, 'chi2': lambda: d.df, 'beta': lambda: d.alpha, 'F': lambda: d.df1}[kind](), a, 'attribute')


add('noncentral-any-degrees', any_degrees, bounds='any real degrees of freedom up to 40', encoded=['stats.noncentral_distr.Noncentral*Distr.__init__'])
