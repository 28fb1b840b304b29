"""Copulas: margins, monotonicity, density as mixed derivative, generators, joint densities."""
import itertools
import math
from fractions import Fraction
import numpy as np
import sympy
import z3
from engine.harness import Harness, stub, unwrap
from engine import sym, patch
from engine.seg import INF
from engine.ops import value, isinf
from checks.c09 import lor
from checks.c14 import m
import pacal.depvars.copulas as K
import pacal.integration as G
import pacal.depvars.nddistr as ND
from pacal.distr import Distr

P = 'C20'
META = {'assumptions': ['exp, log and powers are the mathematical functions', 'sympy differentiates generators correctly only as far as the equalities below confirm it']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('thorough', {'budget': 400, 'max_paths': 20000})
    HARNESSES.append(Harness(name, harnessed(fn), P, **kw))


class Jet(object):
    """value and mixed derivatives in square-zero directions (bit masks)"""
    __array_priority__ = 1e9

    def __init__(self, c):
        self.c = {k: v for k, v in c.items() if not (isinstance(v, (int, float)) and v == 0 and k)}

    @staticmethod
    def lift(v):
        return v if isinstance(v, Jet) else Jet({0: v})

    def at(self, mask):
        return self.c.get(mask, 0)

    def __add__(self, o):
        o = Jet.lift(unwrap(o))
        return Jet({k: self.at(k) + o.at(k) for k in set(self.c) | set(o.c)})
    __radd__ = __add__

    def __neg__(self):
        return Jet({k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        return self + (-Jet.lift(unwrap(o)))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = Jet.lift(unwrap(o))
        r = {}
        for i, a in self.c.items():
            for j, b in o.c.items():
                if i & j == 0:
                    r[i | j] = r[i | j] + a * b if (i | j) in r else a * b
        return Jet(r)
    __rmul__ = __mul__

    def apply(self, ds):
        """f(self) from derivatives ds[k] at the value"""
        n = Jet({k: v for k, v in self.c.items() if k})
        r, p, f = Jet({0: ds[0]}), Jet({0: 1}), 1
        for k in range(1, len(ds)):
            p, f = p * n, f * k
            if not p.c:
                break
            r = r + p * (ds[k] / f if f > 1 else ds[k])
        return r

    def __truediv__(self, o):
        o = unwrap(o)
        if not isinstance(o, Jet):
            return Jet({k: v / o for k, v in self.c.items()})
        return self * Jet.lift(unwrap(o)).power(-1)

    def __rtruediv__(self, o):
        return self.power(-1) * o

    def power(self, p):
        v = self.at(0)
        p = float(p)
        ds, c, w = [], 1, pw(v, p)
        for k in range(4):
            ds.append(c * w)
            c, w = c * (p - k), w / v
        return self.apply(ds)

    def __pow__(self, p):
        return self.power(unwrap(p))

    def log(self):
        v = self.at(0)
        return self.apply([m('log', v), 1 / v, -1 / (v * v), 2 / (v * v * v)])

    def exp(self):
        e = m('exp', self.at(0))
        return self.apply([e, e, e, e])

    def expm1(self):
        return self.exp() - 1

    def log1p(self):
        return (self + 1).log()

    def sqrt(self):
        return self.power(0.5)

    def cos(self):
        s, c = m('sin', self.at(0)), m('cos', self.at(0))
        return self.apply([c, -s, -c, s])

    def sin(self):
        s, c = m('sin', self.at(0)), m('cos', self.at(0))
        return self.apply([s, c, -s, -c])

    def __abs__(self):
        return -self if bool(self.at(0) < 0) else self

    def _cmp(self, o):
        return Jet.lift(unwrap(o)).at(0)

    def __lt__(self, o): return self.at(0) < self._cmp(o)
    def __le__(self, o): return self.at(0) <= self._cmp(o)
    def __gt__(self, o): return self.at(0) > self._cmp(o)
    def __ge__(self, o): return self.at(0) >= self._cmp(o)


def pw(v, p):
    if p == int(p):
        r = 1
        for _ in range(int(abs(p))):
            r = r * v
        return r if p >= 0 else 1 / r
    return v ** (p if not isinstance(v, sym.Sym) else Fraction(p))


class Margin(Distr):
    """a variable with given distribution function and density values"""

    def __init__(self, name, F, f, a=-5.0, b=5.0):
        Distr.__init__(self, [], sym=name)
        self.a, self.b, self.F, self.f = a, b, F, f

    def get_piecewise_pdf(self):
        return self.f

    def get_piecewise_cdf(self):
        return self.F

    get_piecewise_cdf_interp = get_piecewise_cdf

    def pdf(self, x):
        return self.f(x)


def nice(v):
    """a number as close to a small binary fraction as rounding leaves it, is that fraction"""
    v = float(v)
    if math.isfinite(v) and abs(v * 64 - round(v * 64)) < 1e-12:
        return round(v * 64) / 64.0
    return v


def split_exp(x):
    """exp(c + y) = exp(c) exp(y), the number exp(c) rounded as the code rounds it"""
    if isinstance(x, Jet):
        e = split_exp(x.at(0))
        return x.apply([e, e, e, e])
    if isinstance(x, np.ndarray):
        return np.array([split_exp(unwrap(v)) for v in x.ravel()] + [None], dtype=object)[:-1].reshape(x.shape)
    if not isinstance(x, sym.Sym):
        return nice(np.exp(float(x)))
    x = settled(x)
    c = constant_part(x)
    if c == 0 or x.const() is not None:
        return x.exp() if x.const() is None else sym.lift(nice(np.exp(float(x.const()))))
    return sym.lift(nice(np.exp(float(c)))) * (x - c).exp()


def settled(x):
    """coefficients as close to small binary fractions as rounding leaves them"""
    if x.d:
        return x
    n = z3.simplify(x.n, som=True)
    out = []
    for t in (n.children() if z3.is_add(n) else [n]):
        k = t.children()[0] if z3.is_mul(t) and z3.is_rational_value(t.children()[0]) else t
        if z3.is_rational_value(k):
            q = Fraction(k.numerator_as_long(), k.denominator_as_long())
            v = Fraction(nice(float(q)))
            if v != Fraction(float(q)) and v != 0:
                t = z3.Product([z3.RealVal(v)] + t.children()[1:]) if z3.is_mul(t) else z3.RealVal(v)
        out.append(t)
    return sym.Sym(z3.Sum(out))


def constant_part(x):
    """constant term of a polynomial"""
    if x.d:
        return 0
    n = z3.simplify(x.n, som=True)
    for t in (n.children() if z3.is_add(n) else []):
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return 0


class symbolic_functions(object):
    """functions written by sympy run on the engine's numbers"""

    def __enter__(self):
        self.old = sympy.lambdify
        if sym.CTX is not None:
            names = {k: patch.table()[id(getattr(np, k))][1] for k in ('log', 'sqrt')}
            names['exp'] = split_exp
            self.mod = K.exp, K.expm1
            K.exp, K.expm1 = split_exp, lambda x: split_exp(x) - 1
            sympy.lambdify = lambda a, e, modules=None, **k: self.old(a, e, [names, 'numpy'], **k)
        return self

    def __exit__(self, *a):
        sympy.lambdify = self.old
        if sym.CTX is not None:
            K.exp, K.expm1 = self.mod
        return False


def harnessed(fn):
    def run(h):
        with symbolic_functions():
            return fn(h)
    return run


def uniforms(n):
    return [Margin('U%d' % i, lambda x: x, lambda x: x * 0 + 1, 0.0, 1.0) for i in range(n)]


NAMES = {'pi': K.PiCopula, 'M': K.MCopula, 'W': K.WCopula, 'gumbel2d': K.GumbelCopula2d, 'gumbel': K.GumbelCopula, 'clayton': K.ClaytonCopula, 'frank': K.FrankCopula, 'frank2d': K.FrankCopula2d}
_made = {}


def make(which, theta, marg):
    if theta is None:
        return NAMES[which](marg)
    return NAMES[which](theta, marg)


def points(h, n, tag='u', lo=0.02, hi=0.98):
    return [h.real('%s%d' % (tag, i), lo, hi) for i in range(n)]


def scalar_and_array(h, f, xs, label, want=None):
    """the same value for numbers and arrays"""
    v = value(f(*xs))
    w = f(*[h.array([x, x]) for x in xs])
    h.check(np.shape(w) == (2,), label + '-shape')
    h.check_eq(unwrap(w[1]), v if want is None else want, label + '-array')
    return v


def margins(which, theta, n):
    def fn(h):
        c = make(which, theta, uniforms(n))
        u = points(h, 1)[0]
        i = h.choose('variable', list(range(n)))
        xs = [1.0] * n
        xs[i] = u
        h.check_eq(value(c.ccdf(*xs)), u, 'uniform-margin', tol=1e-6)
        w = c.ccdf(*[h.array([x, x]) for x in xs])
        h.check_eq(unwrap(w[1]), u, 'uniform-margin-array', tol=1e-6)
        h.check_eq(value(c.ccdf(*[1] * i + [u] + [1] * (n - i - 1))), u, 'integer-arguments', tol=1e-6)
        h.check_eq(value(c.cdf(*xs)), u, 'distribution-function', tol=1e-6)
        if which in ('pi', 'M', 'W', 'frank2d'):
            xs = [u] * n
            xs[i] = 0.0
            h.check_eq(value(c.ccdf(*xs)), 0, 'grounded', tol=1e-6)
    return fn


def smooth(which, theta, n, jet=True):
    """density = mixed derivative of the distribution function; both monotone"""
    def fn(h):
        c = make(which, theta, uniforms(n))
        us = points(h, n)
        C = value(c.ccdf(*us))
        J = Jet.lift(unwrap(c.ccdf(*[Jet({0: u, 1 << i: 1}) for i, u in enumerate(us)])))
        h.check_eq(J.at(0), C, 'value', tol=1e-6)
        d = value(c.cpdf(*us))
        if h.sym and h.c.div_zero:
            return
        h.check_eq(d, J.at((1 << n) - 1), 'density', tol=1e-6)
        w = c.cpdf(*[h.array([u, u]) for u in us])
        h.check_eq(unwrap(w[1]), d, 'density-array', tol=1e-6)
        w = c.ccdf(*[h.array([u, u]) for u in us])
        h.check_eq(unwrap(w[1]), C, 'array', tol=1e-6)
    return fn


def increasing(which, theta, n):
    def fn(h):
        c = make(which, theta, uniforms(n))
        us = points(h, n)
        J = Jet.lift(unwrap(c.ccdf(*[Jet({0: u, 1 << i: 1}) for i, u in enumerate(us)])))
        tol = 0 if h.sym else 1e-9
        h.check(J.at(0) >= -tol, 'nonnegative')
        for i in range(n):
            h.check(J.at(1 << i) >= -tol, 'increasing')
        h.check(value(c.cpdf(*us)) >= -tol, 'density-nonnegative')
        for u in us:
            h.check(J.at(0) <= u + tol, 'upper-bound')
    return fn


def rectangle(which, n=2):
    """singular copulas: value, 2-increasing"""
    def fn(h):
        c = make(which, None, uniforms(n))
        us, vs = points(h, n, 'u', 0, 1), points(h, n, 'v', 0, 1)
        for u, v in zip(us, vs):
            h.assume(u <= v)
        tol = 0 if h.sym else 1e-9
        tot = 0
        for pick in itertools.product((0, 1), repeat=n):
            x = [(us, vs)[p][i] for i, p in enumerate(pick)]
            val = value(c.ccdf(*x))
            if sum(pick) == 1:
                for k in range(2):
                    h.check_eq(unwrap(c.ccdf(*[h.array([0.5, t]) for t in x])[1]), val, 'array')
            tot = tot + val * (-1) ** (n - sum(pick))
        if which != 'W' or n == 2:   # the lower bound is a copula in two dimensions only
            h.check(tot >= -tol, 'rectangle')
        C = value(c.ccdf(*us))
        lo = sum(us) - (n - 1)
        if which == 'pi':
            p = 1
            for u in us:
                p = p * u
            h.check_eq(C, p, 'value')
        elif which == 'M':
            h.check(lor(h, [C == u for u in us]) if h.sym else any(abs(C - u) < 1e-12 for u in us), 'value')
            for u in us:
                h.check(C <= u + tol, 'value')
        else:
            h.check(lor(h, [C == lo, C == 0]) if h.sym else min(abs(C - lo), abs(C)) < 1e-12, 'value')
            h.check(C >= lo - tol, 'value')
            h.check(C >= 0, 'value')
        h.check(value(c.cpdf(*us)) == (1 if which == 'pi' else 0), 'density')
    return fn


def generator(which, theta):
    def fn(h):
        c = make(which, theta, uniforms(2))
        t = points(h, 1)[0]
        arr = which == 'frank2d'
        ev = (lambda f, x: unwrap(f(h.array([x, x]))[1])) if arr else (lambda f, x: value(f(x)))
        h.check_eq(ev(c.fi, 1.0), 0, 'at-one', tol=1e-6)
        if arr:
            return
        h.check_eq(ev(c.fi_inv, ev(c.fi, t)), t, 'inverse-after', tol=1e-5)
        s = h.real('s', 0.05, 3)
        x = ev(c.fi_inv, s)
        if h.sym and h.c.div_zero:
            return
        h.check_eq(ev(c.fi, x), s, 'inverse-before', tol=1e-5)
    return fn


def given(h, n, tag=''):
    """margins with any value of distribution function and density at the points"""
    xs = [h.real('x%s%d' % (tag, i), -4, 4) for i in range(n)]
    us = points(h, n, 'u' + tag)
    ds = [h.real('d%s%d' % (tag, i), 0, 5) for i in range(n)]

    def look(x, vals):
        def f(t):
            if isinstance(t, np.ndarray):
                return h.array([f(unwrap(v)) for v in t.ravel()]).reshape(t.shape)
            assert bool(t == x), 'margin evaluated elsewhere'
            return vals
        return f
    return xs, us, ds, [Margin('X%d' % i, look(xs[i], us[i]), look(xs[i], ds[i])) for i in range(n)]


def joint(which, theta, n):
    def fn(h):
        xs, us, ds, marg = given(h, n)
        c = make(which, theta, marg)
        want = value(c.cpdf(*us))
        if h.sym and h.c.div_zero:
            return
        for d in ds:
            want = want * d
        h.check_eq(value(c.pdf(*xs)), want, 'density', tol=1e-6)
        h.check_eq(value(c(*xs)), want, 'call', tol=1e-6)
        h.check_eq(unwrap(c.pdf(*[h.array([x, x]) for x in xs])[1]), want, 'density-array', tol=1e-6)
        C = value(c.ccdf(*us))
        h.check_eq(value(c.cdf(*xs)), C, 'distribution', tol=1e-6)
        h.check_eq(value(c.dualcdf(*xs)), sum(us) - C, 'dual', tol=1e-6)
        h.check(list(c.marginals) == marg and [v for v in c.Vars] == marg, 'margins')
    return fn


def conditional(which, theta, n):
    """conditioning one variable: derivative of the copula; any set: ratio of densities"""
    def fn(h):
        xs, us, ds, marg = given(h, n)
        c = make(which, theta, marg)
        for d in ds:
            h.assume(d >= h.q(1, 10))
        k = h.choose('given', list(range(n)))
        J = Jet.lift(unwrap(c.ccdf(*[Jet({0: u, 1 << i: 1}) for i, u in enumerate(us)])))
        if h.sym and h.c.div_zero:
            return
        h.check_eq(value(c.ccond([k])(*us)), J.at(1 << k), 'conditional-copula', tol=1e-5)
        rest = [i for i in range(n) if i != k]
        f = c.conditionCDF([marg[k]], xs[k])
        if n > 2:
            h.check_eq(value(f(*[xs[i] for i in rest])), J.at(1 << k), 'conditional-distribution', tol=1e-5)
        else:
            h.check_eq(value(f.fun(xs[rest[0]])), J.at(1 << k), 'conditional-distribution', tol=1e-5)
            h.check_eq(unwrap(f.fun(h.array([xs[rest[0]]] * 2))[1]), J.at(1 << k), 'conditional-distribution', tol=1e-5)
        h.check_eq(value(c.condfun([k])(*xs)), J.at(1 << k), 'conditional-function', tol=1e-5)
    return fn


def conditional_density(which, theta, n):
    def fn(h):
        xs, us, ds, marg = given(h, n)
        c = make(which, theta, marg)
        for d in ds:
            h.assume(d >= h.q(1, 10))
        vs = h.choose('given', [list(p) for r in range(1, n) for p in itertools.permutations(range(n), r)])
        rest = [i for i in range(n) if i not in vs]
        g = c.condition([marg[v] for v in vs] if h.choose('by', ['variable', 'number']) == 'variable' else vs, *[xs[v] for v in vs])
        h.check([id(v) for v in g.Vars] == [id(marg[i]) for i in rest], 'variables')
        y = value(g.fun(*[xs[i] for i in rest]))
        low = make(which, theta, [marg[v] for v in sorted(vs)])
        den = value(low.pdf(*[xs[v] for v in sorted(vs)]))
        if h.sym and h.c.div_zero:
            return
        h.check_eq(y * den, value(c.pdf(*xs)), 'ratio', tol=1e-5)
        e = c.eliminate(vs)
        h.check([id(v) for v in e.Vars] == [id(marg[i]) for i in rest] and e.theta == theta and type(e).__mro__[-1] is object, 'marginal-variables')
        h.check_eq(value(e.pdf(*[xs[i] for i in rest])), value(make(which, theta, [marg[i] for i in rest]).pdf(*[xs[i] for i in rest])), 'marginal', tol=1e-6)
    return fn


class Mean(Margin):
    """a margin with given mean, standard deviation and range"""

    def __init__(self, name, F, f, mu, sd, a, b):
        Margin.__init__(self, name, F, f, a, b)
        self.mu, self.sd = mu, sd

    def mean(self): return self.mu
    def std(self): return self.sd
    def get_piecewise_pdf(self):
        return Ranged(self.f, self.a, self.b)
    def range(self): return self.a, self.b


class Ranged(object):
    def __init__(self, f, a, b):
        self.f, self.r = f, (a, b)

    def __call__(self, x):
        return self.f(x)

    def range(self):
        return self.r


def measures(which, theta, n):
    """covariance, correlation, tau, rho: integrand, box and constants"""
    def fn(h):
        xs, us, ds, marg0 = given(h, n)
        mus = [h.real('mu%d' % i, -3, 3) for i in range(n)]
        sds = [h.real('sd%d' % i, 0.5, 3) for i in range(n)]
        marg = [Mean('X%d' % i, marg0[i].F, marg0[i].f, mus[i], sds[i], -5.0 - i, 6.0 + i) for i in range(n)]
        c = make(which, theta, marg)
        I = h.real('I', -3, 3)
        i, j = h.choose('pair', [(p, q) for p in range(n) for q in range(n) if p != q or which != 'pi'])
        lo, hi = min(i, j), max(i, j)
        kind = h.choose('kind', ['cov', 'corrcoef', 'tau', 'ctau', 'rho_s'])
        pair = make(which, theta, [marg[lo], marg[hi]])
        seen = []

        def iterated(f, a1, b1, a2, b2):
            seen.append(2)
            if kind in ('cov', 'corrcoef', 'tau'):
                h.check((a1, b1, a2, b2) == (-5.0 - lo, 6.0 + lo, -5.0 - hi, 6.0 + hi), 'domain')
                y = value(f(xs[lo], xs[hi]))
                den = value(pair.cpdf(us[lo], us[hi])) * ds[lo] * ds[hi]
                w = (xs[lo] - mus[lo]) * (xs[hi] - mus[hi]) * den if kind != 'tau' else den * value(pair.ccdf(us[lo], us[hi]))
            else:
                h.check((a1, b1, a2, b2) == (0, 1, 0, 1), 'domain')
                y = value(f(us[lo], us[hi]))
                w = value(pair.ccdf(us[lo], us[hi]))
                if kind == 'ctau':
                    w = w * value(pair.cpdf(us[lo], us[hi]))
            if h.sym and h.c.div_zero:
                return I, 0
            h.check_eq(y, w, 'integrand', tol=1e-5)
            return I, 0

        def single(f, a, b, **k):
            seen.append(1)
            h.check(i == j and (a, b) == (-5.0 - i, 6.0 + i), 'domain')
            h.check_eq(value(f(xs[i])), (xs[i] - mus[i]) ** 2 * ds[i], 'integrand')
            return I, 0
        with stub((G.integrate_iter, iterated), (G.integrate_fejer2, single)):
            r = getattr(c, kind)(i, j)
        if i == j and kind in ('tau', 'ctau', 'rho_s'):
            h.check_eq(r, 1, 'diagonal')
            return
        h.check(seen == [1 if i == j else 2], 'one-integral')
        want = {'cov': I, 'corrcoef': I / (sds[i] * sds[j]), 'tau': 4 * I - 1, 'ctau': 4 * I - 1, 'rho_s': 12 * I - 3}[kind]
        h.check_eq(r, want, 'measure', tol=1e-6)
    return fn


def matrices(n):
    """every matrix of dependence measures holds the measures of the pairs"""
    def fn(h):
        kind = h.choose('kind', ['cov', 'corrcoef', 'rho_s', 'ctau'])
        V = [[h.real('v%d%d' % (i, j), -2, 2) for j in range(n)] for i in range(n)]
        c = K.PiCopula(uniforms(n))
        whole = getattr(K.Copula, kind)
        seen = []

        def one(self, i=None, j=None):
            if i is None or j is None:
                return whole(self, i, j)
            seen.append((int(i), int(j)))
            return V[int(i)][int(j)]
        setattr(K.Copula, kind, one)
        try:
            r = getattr(c, kind)()
        finally:
            setattr(K.Copula, kind, whole)
        h.check(np.shape(r) == (n, n), 'shape')
        for i in range(n):
            for j in range(n):
                h.check_eq(r[i, j], V[i][j], 'entry')
    return fn


def iterated(h):
    """the iterated integral of a product of powers"""
    a1, b1, a2, b2 = h.real('a1', -3, 3), h.real('b1', -3, 3), h.real('a2', -3, 3), h.real('b2', -3, 3)
    p, q = h.choose('powers', [(0, 0), (1, 0), (0, 1), (2, 1)])

    def line(f, a, b, *args, **kw):
        """exact for polynomials of degree at most 3 (Simpson)"""
        y = f(h.array([a, (a + b) / 2, b]))
        return (b - a) * (unwrap(y[0]) + 4 * unwrap(y[1]) + unwrap(y[2])) / 6, 0
    with stub((G.integrate_fejer2, line), (G.ChebyshevInterpolator1, lambda f, a, b, *k, **kw: f)):
        r, e = G.integrate_iter(lambda x, y: x ** p * y ** q, a1, b1, a2, b2)
    h.check_eq(r, (b1 ** (p + 1) - a1 ** (p + 1)) / (p + 1) * (b2 ** (q + 1) - a2 ** (q + 1)) / (q + 1), 'iterated', tol=1e-6)


def medial(which, theta):
    def fn(h):
        c = make(which, theta, uniforms(2))
        C = value(c.ccdf(0.5, 0.5))
        h.check_eq(value(c.beta()), 4 * C - 1, 'beta', tol=1e-6)
        xs, us, ds, marg = given(h, 2)
        free = make(which, theta, [Margin('V%d' % i, lambda x: x, lambda x: x * 0 + 1, 0.0, 1.0) for i in range(2)])
        want = value(c.cpdf(*us))
        if h.sym and h.c.div_zero:
            return
        h.check_eq(value(free.jpdf_(marg[0], marg[1], *xs)), want * ds[0] * ds[1], 'joint', tol=1e-6)
        h.check_eq(value(free.jcdf_(marg[0], marg[1], *xs)), value(c.ccdf(*us)), 'joint-distribution', tol=1e-6)
    return fn


def tau_integral(which, theta):
    def fn(h):
        c = make(which, theta, uniforms(2))
        t, I = points(h, 1)[0], h.real('I', -1, 0)

        def line(f, a, b, **k):
            h.check((a, b) == (0, 1), 'domain')
            J = Jet.lift(unwrap(c.fi(Jet({0: t, 1: 1}))))
            h.check_eq(value(f(t)) * J.at(1), J.at(0), 'integrand', tol=1e-6)
            return I, 0
        with stub((G.integrate_fejer2, line)):
            h.check_eq(c.tau_c(), 1 + 4 * I, 'tau', tol=1e-6)
    return fn


LN2 = math.log(2)   # exp(LN2) is exact
SM = [('pi', None), ('gumbel2d', 2.0), ('gumbel', 2.0), ('clayton', 1.0), ('clayton', 2.0), ('clayton', 0.5), ('frank', LN2), ('frank', -LN2), ('frank2d', LN2), ('frank2d', -LN2)]
for w, th in SM + [('M', None), ('W', None)]:
    t = '' if th is None else ',%.3g' % th
    for n in (2, 3):
        if n == 3 and w in ('gumbel2d', 'frank2d'):
            continue
        add('margins[%s%s,%dd]' % (w, t, n), margins(w, th, n), bounds='%d variables, every point' % n, encoded=['%s.ccdf' % w])
    if w in ('pi', 'M', 'W'):
        for n in (2, 3):
            add('rectangle[%s,%dd]' % (w, n), rectangle(w, n), bounds='every rectangle of the unit cube', encoded=['%s.ccdf' % w], quick=n == 2 or w != 'M')
    if w not in ('M', 'W'):
        for n in (2, 3):
            if n == 3 and w in ('gumbel2d', 'frank2d'):
                continue
            add('density[%s%s,%dd]' % (w, t, n), smooth(w, th, n), bounds='%d variables, points in [0.02,0.98]' % n, encoded=['%s.ccdf' % w, '%s.cpdf' % w])
            add('increasing[%s%s,%dd]' % (w, t, n), increasing(w, th, n), bounds='%d variables, points in [0.02,0.98]' % n, encoded=['%s.ccdf' % w, '%s.cpdf' % w], quick=n == 2)
    if w not in ('pi', 'M', 'W'):
        add('generator[%s%s]' % (w, t), generator(w, th), bounds='any argument', encoded=['%s.fi' % w, '%s.fi_inv' % w])
    add('joint[%s%s]' % (w, t), joint(w, th, 2), bounds='any margin values', encoded=['Copula.pdf', 'Copula.cdf', 'Copula.dualcdf'])
    if w in ('clayton', 'gumbel', 'frank'):
        for n in (2, 3):
            add('conditional[%s%s,%dd]' % (w, t, n), conditional(w, th, n), bounds='any margin values', encoded=['ArchimedeanSymbolicCopula.ccond', 'conditionCDF', 'condfun'], quick=n == 2 or w == 'clayton')
            add('conditional-density[%s%s,%dd]' % (w, t, n), conditional_density(w, th, n), bounds='any margin values, any variables', encoded=['ArchimedeanSymbolicCopula.condition', 'eliminate'], quick=n == 2 or w == 'clayton')

    if w in ('clayton', 'gumbel', 'frank'):
        add('tau[%s%s]' % (w, t), tau_integral(w, th), bounds='any value of the integral, integrand at any point', encoded=['ArchimedeanCopula.tau_c'])
    add('medial[%s%s]' % (w, t), medial(w, th), bounds='any margin values', encoded=['Copula.beta', 'jpdf_', 'jcdf_'])
for w, th, n in [('pi', None, 2), ('clayton', 1.0, 2), ('clayton', 1.0, 3)]:
    add('measures[%s,%dd]' % (w, n), measures(w, th, n), bounds='any values of the integrals, integrands at any point, every pair', encoded=['Copula.cov', 'corrcoef', 'tau', 'ctau', 'rho_s', 'eliminate'])
for n in (2, 3):
    add('matrices[%dd]' % n, matrices(n), bounds='%d variables, any values of the measures of pairs' % n, encoded=['Copula.cov', 'corrcoef', 'rho_s', 'ctau'])
add('iterated', iterated, bounds='any box, powers up to 2', encoded=['integrate_iter'])
