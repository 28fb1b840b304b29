"""Interpolators on infinite and singular ranges: with the polynomial
interpolation taken as exact, they return the original function."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym, patch
from engine.sym import lift, Infeasible
from checks.c05 import dft, re
from checks.c06 import fft_stubs, poly_at
import pacal.interpolation as N
import pacal.vartransforms as V
import pacal.utils as U
from pacal import params

P = 'C07'
META = {'assumptions': ['the inner polynomial interpolation (decided in C06) is exact: the interpolant of g returns g',
                        'adaptive refinement keeps its first node set; the search for the vanishing point of a tail is replaced by an arbitrary point (decided separately)']}
HARNESSES = []
_orig = N.BarycentricInterpolator.interp_at


def exact(self, x):
    f = self.__dict__.get('f')
    if f is None:
        return _orig(self, x)
    if isinstance(x, np.ndarray) and x.ndim:
        r = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            r[i] = unwrap(f(unwrap(v)))
        try:
            return r.astype(float)
        except BaseException:
            return r
    return unwrap(f(x))


def noop(self, *a, **k):
    self.n = getattr(self, 'n', len(self.Xs))
    self.err = 0.0


def exactness(*more):
    return stub(((N.BarycentricInterpolator, 'interp_at'), exact), ((N.AdaptiveInterpolator, 'adaptive_interp'), noop),
                ((N.AdaptiveInterpolator1, 'adaptive_interp'), noop), *more)


class Fun(object):
    """the user's function: s * g with g positive; remembers its arguments"""
    def __init__(self, h, s=1):
        self.g = h.fun('f')
        self.s = s
        self.args = []
        self.last = None

    def __call__(self, x):
        if isinstance(x, np.ndarray):
            r = [self(v) for v in x.ravel()]
            o = patch.oarray(r).reshape(x.shape)
            try:
                return o.astype(float)
            except BaseException:
                return o
        self.last = x
        self.args.append(x)
        v = self.g(x)
        return v if self.s == 1 else -v


def calls(h, I, f, x, lab, want=None):
    w = f(x) if want is None else want
    h.check_eq(I(x), w, lab + '-scalar', tol=1e-6)
    v = I(h.array([x, x]))
    h.check(np.shape(v) == (2,), lab + '-shape')
    h.check_eq(v[0], w, lab + '-vector', tol=1e-6)
    h.check_eq(v[1], w, lab + '-vector', tol=1e-6)


def vt(kind, e=1):
    def fn(h):
        f = Fun(h, h.choose('sign', [1, -1]))
        x = h.real('x', -40, 40)
        with exactness():
            if kind == 'alg-pm':
                I, lo, hi = N.ChebyshevInterpolator_PMInf(f), None, None
            else:
                a = h.real('a', -20, 20)
                fin = kind.endswith('fin')
                b = h.real('b', -40, 40) if fin else None
                if kind.startswith('pinf'):
                    h.assume(x >= a + h.q(1, 50))
                    if fin:
                        h.assume(b >= x)
                    I = N.ChebyshevInterpolator_PInf(f, a, exponent=e, U=b)
                else:
                    h.assume(x <= a - h.q(1, 50))
                    if fin:
                        h.assume(b <= x)
                    I = N.ChebyshevInterpolator_MInf(f, a, exponent=e, L=b)
            calls(h, I, f, x, 'value')
            h.check_eq(I.transformed_interp_at(I.vt.var_change(x)), f(x), 'transformed', tol=1e-6)
            Xs, Ys = I.getNodes()
            h.check(len(Xs) == len(Ys), 'node-count')
            for X, Y in zip(Xs, Ys):
                if isinstance(X, float) and math.isinf(X):
                    h.check_eq(Y, 0.0, 'zero-at-infinity')
                    continue
                if kind != 'alg-pm':
                    if kind.startswith('pinf'):
                        h.check_le(a, X, 'node-in-range', tol=1e-6)
                    else:
                        h.check_le(X, a, 'node-in-range', tol=1e-6)
                h.check_eq(Y, f(X), 'node-value', tol=1e-6)
    return fn


for k in ('alg-pm', 'pinf-inf', 'pinf-fin', 'minf-inf', 'minf-fin'):
    for e in ((1, 2, 6) if k != 'alg-pm' else (1,)):
        HARNESSES.append(Harness('infinite[%s,%d]' % (k, e), vt(k, e), P, budget=20, quick=e != 2, bounds='any function, range end in [-20,20], x in [-40,40], exponent %d' % e,
                                 encoded=['interpolation.VarTransformInterpolator', 'interpolation.ChebyshevInterpolator_*Inf']))


def default_exp(h):
    f = Fun(h)
    with exactness():
        for c, s in ((N.ChebyshevInterpolator_PInf, 1), (N.ChebyshevInterpolator_MInf, -1)):
            I = c(f, h.q(3, 2))
            x = h.q(3, 2) + s * h.real('x', 0.01, 50)
            calls(h, I, f, x, 'value')


HARNESSES.append(Harness('infinite-default', default_exp, P, budget=15, bounds='default exponent', encoded=['interpolation.ChebyshevInterpolator_*Inf']))


def logtail(a_kind):
    def fn(h):
        f = Fun(h)
        if a_kind == 'pos':
            a = h.real('a', 0.5, 50)
        else:
            a = h.real('a', -50, -0.001)
        b = a + h.real('len', 0.5, 200)
        x = h.real('x', -50, 300)
        h.assume(x >= a)
        with exactness():
            I = N.LogTransformInterpolator(f, a, b)
            if bool(x <= b):
                calls(h, I, f, x, 'value')
                y = a + h.real('d', 0, 400)
                v = I(h.array([x, y, x]))
                h.check_eq(v[0], f(x), 'mixed', tol=1e-6)
                h.check_eq(v[2], f(x), 'mixed', tol=1e-6)
                if bool(y > b):
                    h.check_eq(v[1], 0.0, 'mixed-beyond')
                else:
                    h.check_eq(v[1], f(y), 'mixed', tol=1e-6)
            else:
                calls(h, I, f, x, 'beyond', 0.0)
            h.check_eq(I.xt(I.xtinv(x)), x, 'node-coordinate-inverse', tol=1e-6)
            Xs, Ys = I.getNodes()
            for X, Y in zip(Xs, Ys):
                h.check_eq(Y, f(X), 'node-value', tol=1e-6)
    return fn


for k in ('pos', 'neg'):
    HARNESSES.append(Harness('tail[%s]' % k, logtail(k), P, budget=20, bounds='any positive function, tail start in [-50,50], length up to 200',
                             encoded=['interpolation.LogTransformInterpolator']))


def negative_tail(h):
    """the tail of a negative function is interpolated by its magnitude"""
    f = Fun(h, -1)
    x = h.real('x', 2, 9)
    with exactness():
        I = N.LogTransformInterpolator(f, 2.0, 9.0)
        h.check_eq(I(x), -f(x), 'magnitude', tol=1e-6)


HARNESSES.append(Harness('tail-negative', negative_tail, P, budget=10, encoded=['interpolation.LogTransformInterpolator']))


def vanish(h):
    """point where a decreasing function falls through the window"""
    a = h.choose('a', [-3.0, 0.0, 2.5])
    z = a + h.real('z', 30.0, 30.003)

    def f(x):
        return 1e-90 if bool(x < z) else 1e-200

    r = N._find_zero(f, a)
    h.check_le(abs(r - z), 0.002, 'close-to-crossing')
    w = h.real('w', 5.0, 5.003)
    r = N._find_zero(lambda x: 1e-90 if bool(x < a + w) else (1e-135 if bool(x < a + 2 * w) else float('nan')), a)
    h.check_le(a + w, r, 'inside-window', tol=1e-3)
    h.check_le(r, a + 2 * w, 'inside-window', tol=1e-3)


HARNESSES.append(Harness('vanishing-point', vanish, P, budget=20, max_paths=300, bounds='decreasing step function, crossing within 0.01 of a point 30 or 5 away',
                         encoded=['interpolation._find_zero']))


def vanish_overflow(h):
    a = h.choose('a', [-3.0, 2.5])
    z = a + h.real('z', 30.0, 30.01)

    def f(x):
        if bool(x > z):
            raise OverflowError()
        return 1e-90
    r = N._find_zero(f, a)
    h.check_le(abs(r - z), 0.002, 'close-to-overflow')


HARNESSES.append(Harness('vanishing-point-overflow', vanish_overflow, P, budget=20, max_paths=300, bounds='function that overflows beyond a point',
                         encoded=['interpolation._find_zero']))


def pole(side, where):
    def fn(h):
        s = h.choose('sign', [1, -1])
        f = Fun(h, s)
        L = h.real('len', 0.25, 4)
        e = 0.0 if where == 'zero' else (h.real('e', 0.25, 20) if where == 'pos' else h.real('e', -20, -0.25))
        a, b = (e, e + L) if side == 'P' else (e - L, e)
        t = h.real('t', 0.001, 1)
        x = a + t * L if side == 'P' else b - t * L
        with exactness():
            I = (N.PoleInterpolatorP if side == 'P' else N.PoleInterpolatorN)(f, a, b)
            for vec in (False, True):
                f.args = []
                v = I(h.array([x, x]))[1] if vec else I(x)
                p = f.last
                h.check_le(abs(p - x), 1e-10, 'evaluated-at-the-point')
                h.check_eq(v, f(p), 'value' + ('-vector' if vec else ''), tol=1e-6)
            h.check_le(abs(I.xt(I.xtinv(x)) - x), 1e-10, 'node-coordinate-inverse')
            Xs, Ys = I.getNodes()
            for X, Y in zip(Xs, Ys):
                h.check_eq(Y, f(X), 'node-value', tol=1e-6)
                h.check_le(a - h.q(1, 1000000), X, 'node-in-range', tol=1e-6)
                h.check_le(X, b + h.q(1, 1000000), 'node-in-range', tol=1e-6)
    return fn


for sd in 'PN':
    for w in ('zero', 'pos', 'neg'):
        HARNESSES.append(Harness('pole[%s,%s]' % (sd, w), pole(sd, w), P, budget=20, bounds='any positive or negative function, singular end in [-20,20], length 0.25..4',
                                 encoded=['interpolation.PoleInterpolator%s' % sd]))


def pole_zero_mid(sd):
    """a function that vanishes in the middle is still interpolated with its sign"""
    def fn(h):
        k = Fun(h)

        class Z(object):
            def __call__(self, x):
                if isinstance(x, np.ndarray):
                    return k(x)
                return 0.0 if float(x) == 1.5 else k(x)
        with exactness():
            I = (N.PoleInterpolatorP if sd == 'P' else N.PoleInterpolatorN)(Z(), 1.0, 2.0)
            x = h.choose('x', [1.25, 1.75])
            v = I(x)
            h.check_eq(v, k(k.last), 'value', tol=1e-6, ctol=1e-6)
            h.check_le(abs(k.last - x), 1e-10, 'evaluated-at-the-point')
    return fn


for sd in 'PN':
    HARNESSES.append(Harness('pole-vanishing-mid[%s]' % sd, pole_zero_mid(sd), P, budget=10, bounds='function zero at the midpoint', encoded=['interpolation.PoleInterpolator%s' % sd]))


def pole_diff(sd):
    def fn(h):
        s = h.choose('sign', [1, -1])
        f = Fun(h, s)
        a, b = (1.0, 2.5)
        with fft_stubs(h), exactness():
            I = (N.PoleInterpolatorP if sd == 'P' else N.PoleInterpolatorN)(f, a, b)
            D = I.diff()
            ta, tb = float(I.xtinv(a)), float(I.xtinv(b))
            ts = [ta + (tb - ta) * (1 - math.cos(k * math.pi / 2)) / 2 for k in range(3)]
            # values of the interpolated logarithm; the singular end repeats its neighbour
            Y = list(I.Ys)
            for v in Y:
                h.assume(v <= 5)
            Y = [Y[0]] + Y if sd == 'P' else Y + [Y[-1]]
            if len(Y) != 3:
                raise Infeasible()
            Xd, Yd = D.getNodes()
            for X, y in zip(Xd, Yd):
                X = float(X)
                dist = (X - a) if sd == 'P' else (b - X)
                t = float(I.xtinv(X))
                h.assume(s * f(I.xt(t)) <= 5)
                want = s * (1 + s * f(I.xt(t))) * poly_at(ts, Y, t, True) / (dist + I.offset) * (1 if sd == 'P' else -1)
                h.check_eq(y, want, 'derivative', tol=1e-5, ctol=1e-5)
    return fn


for sd in 'PN':
    HARNESSES.append(Harness('pole-derivative[%s]' % sd, pole_diff(sd), P, budget=20, variants=2, bounds='three nodes, fixed range, any function values',
                             encoded=['interpolation.PoleInterpolator%s.diff' % sd]))


def inf_int(kind):
    def fn(h):
        f = Fun(h)
        L = h.real('L', -10, 10)
        x = h.real('x', 0.02, 60)
        far = h.real('far', 100, 200)
        fz = lambda g, a, *r, **k: a + far
        sg = 1 if kind == 'P' else -1
        old = params.interpolation_infinite.exponent
        params.interpolation_infinite.exponent = 1
        try:
            with exactness((N._find_zero, fz)):
                I = N.PInfInterpolator(f, L) if kind == 'P' else N.MInfInterpolator(f, L)
                p = L + sg * x
                calls(h, I, f, p, 'value')
                q = L + sg * h.real('y', 0.02, 60)
                v = I(h.array([p, q, p]))
                h.check_eq(v[0], f(p), 'mixed', tol=1e-6)
                h.check_eq(v[1], f(q), 'mixed', tol=1e-6)
                h.check_eq(v[2], f(p), 'mixed', tol=1e-6)
                Xs, Ys = I.getNodes()
                h.check(len(Xs) == len(Ys), 'node-count')
                for X, Y in zip(Xs, Ys):
                    if isinstance(X, float) and math.isinf(X):
                        h.check_eq(Y, 0.0, 'zero-at-infinity')
                        h.check(X * sg > 0, 'infinite-node-side')
                        continue
                    h.check_eq(Y, f(X), 'node-value', tol=1e-6)
                    h.check_le(L if kind == 'P' else X, X if kind == 'P' else L, 'node-in-range', tol=1e-6)
                if I.vl is not None:
                    e = I.U if kind == 'P' else I.L
                    calls(h, I, f, e + sg * h.real('beyond', 0.5, 5), 'beyond', 0.0)
        finally:
            params.interpolation_infinite.exponent = old
    return fn


for k in 'PM':
    HARNESSES.append(Harness('half-line[%s]' % k, inf_int(k), P, budget=25, bounds='any positive function, end in [-10,10], points up to 60 away; exponent 1 (others in C01 and infinite[*])',
                             encoded=['interpolation.%sInfInterpolator' % k]))


def inf_tiny(h):
    """a function too small for the asymptotic part"""
    f = lambda x: 1e-200 + 0 * x if not isinstance(x, np.ndarray) else np.full(x.shape, 1e-200)
    g = h.choose('side', ['P', 'M'])
    with exactness():
        I = N.PInfInterpolator(f, 1.0) if g == 'P' else N.MInfInterpolator(f, -1.0)
        h.check(I.vl is None, 'no-tail-part')
        h.check_eq(I(2.5 if g == 'P' else -2.5) * 1e200, 1.0, 'value', tol=1e-6)
        v = I(np.array([2.5, 7.0]) * (1 if g == 'P' else -1))
        h.check_eq(v[1] * 1e200, 1.0, 'value-vector', tol=1e-6)
        X, Y = I.getNodes()
        h.check(len(X) == len(Y), 'nodes')


HARNESSES.append(Harness('half-line-tiny', inf_tiny, P, budget=10, encoded=['interpolation.PInfInterpolator', 'interpolation.MInfInterpolator']))
