"""Polynomial interpolation: pass-through, polynomial reproduction, adaptive
refinement, derivative, trimming, and the compiled kernels."""
import math
from fractions import Fraction
import numpy as np
import z3
from engine.harness import Harness, stub, unwrap
from engine import sym, patch, pyx, runner
from engine.sym import lift, Sym
from checks.c05 import dft, re
import pacal.interpolation as N
import pacal.utils as U
from pacal import params

P = 'C06'
META = {'assumptions': ['eigenvalue routine and FFT are the library\'s (FFT replaced by the exact DFT sum in the symbolic run)']}
HARNESSES = []
IV = [(-0.75, 2.0), (1.0, 1.5), (-1250.5, -1000.0)]


def fft_stubs(h):
    if not h.sym:
        return stub()
    return stub((np.fft.fft, dft(1)), (np.fft.ifft, dft(-1)), (U.fft, dft(1)), (U.ifft, dft(-1)), (np.real, re),
                *([((U.np, 'real'), re)] if hasattr(U, 'np') else []))


def lagrange(xs, ys, x):
    """value at x of the polynomial through (xs, ys)"""
    r = 0
    for i in range(len(xs)):
        w = 1
        for j in range(len(xs)):
            if j != i:
                w = w * ((x - xs[j]) / (xs[i] - xs[j]))
        r = r + ys[i] * w
    return r


def lagrange_coef(xs, x, der=False):
    """concrete nodes: coefficients of the values (exact rationals)"""
    X = [Fraction(float(v)) for v in xs]
    x = Fraction(float(x))
    out = []
    for i in range(len(X)):
        den = Fraction(1)
        for j in range(len(X)):
            if j != i:
                den *= X[i] - X[j]
        if not der:
            num = Fraction(1)
            for j in range(len(X)):
                if j != i:
                    num *= x - X[j]
        else:
            num = Fraction(0)
            for k in range(len(X)):
                if k == i:
                    continue
                t = Fraction(1)
                for j in range(len(X)):
                    if j != i and j != k:
                        t *= x - X[j]
                num += t
        out.append(float(num / den))
    return out


def poly_at(xs, ys, x, der=False):
    return sum(c * y for c, y in zip(lagrange_coef(xs, x, der), ys))


def kernel(h, on):
    """compiled route or numpy route"""
    return stub(((N, 'have_Cython'), on))


def generic(n, cy, where):
    """any nodes, any values, any x: the Lagrange polynomial"""
    def fn(h):
        if where == 'symbolic':
            xs = [h.real('x%d' % i, -5, 5) for i in range(n)]
            for i in range(n - 1):
                h.assume(xs[i + 1] - xs[i] >= 0.01)
        else:
            xs = [h.q(v, 4) for v in (-7, -2, 1, 3, 9)][:n]
        ys = [h.real('y%d' % i, -1, 1) for i in range(n)]
        x = h.real('x', -5, 5)
        if not h.sym:
            h.assume(all(abs(x - v) > 1e-4 or x == v for v in xs))
        with kernel(h, cy):
            b = N.BarycentricInterpolator(h.array(xs), h.array(ys))
            v = b.interp_at(h.array([x]))
            s = b(x)
        h.check(np.shape(v) == (1,), 'vector-shape')
        want = lagrange(xs, ys, x)
        h.check_eq(v[0], want, 'interpolating-polynomial', tol=1e-6)
        h.check_eq(s, want, 'interpolating-polynomial-scalar', tol=1e-6)
    return fn


for n, cy, w in ((2, True, 'symbolic'), (2, False, 'symbolic'), (3, True, 'symbolic'), (3, False, 'concrete'), (4, True, 'concrete')):
    HARNESSES.append(Harness('lagrange[%d,%s,%s]' % (n, 'compiled' if cy else 'numpy', w), generic(n, cy, w), P, budget=25, variants=1,
                             bounds='%d %s nodes in [-5,5] at least 0.01 apart, any values in [-1,1], any x in [-5,5]' % (n, w),
                             encoded=['interpolation.BarycentricInterpolator.*', 'bary_interp.pyx:bary_interp' if cy else '-']))


def through(n, cy):
    """values are reproduced at every node exactly, including mixed query vectors"""
    def fn(h):
        xs = [-1.75, -0.5, 0.25, 0.75, 2.25, 3.5][:n]
        ys = [h.real('y%d' % i, -9, 9) for i in range(n)]
        with kernel(h, cy):
            b = N.BarycentricInterpolator(np.array(xs), h.array(ys))
            q = [xs[0], 0.1, xs[-1], xs[n // 2], -0.3] + xs
            v = b(h.array(q)) if h.sym else b(np.array(q))
            for i, x in enumerate(q):
                if x in xs:
                    h.check_eq(v[i], ys[xs.index(x)], 'node-value', tol=0 if h.sym else 1e-15)
                else:
                    h.check_eq(v[i], poly_at(xs, ys, x), 'between-nodes', tol=1e-9)
            for i in range(n):
                h.check_eq(b(xs[i]), ys[i], 'node-value-scalar', tol=0 if h.sym else 1e-15)
            X, Y = b.getNodes()
            for i in range(n):
                h.check_eq(X[i], xs[i], 'nodes-reported')
                h.check_eq(Y[i], ys[i], 'nodes-reported')
    return fn


for n in (2, 3, 6):
    for cy in (True, False):
        HARNESSES.append(Harness('through-nodes[%d,%s]' % (n, 'compiled' if cy else 'numpy'), through(n, cy), P, variants=1, bounds='%d fixed nodes, any values' % n,
                                 encoded=['interpolation.BarycentricInterpolator.interp_at', 'bary_interp.pyx']))


def added(h):
    """adding nodes keeps all the data and the polynomial through it"""
    xs = [-1.0, 0.5, 2.0]
    ns = [h.choose('new', [-2.5, -0.25, 1.0, 2.75]), 1.5]
    ys = [h.real('y%d' % i, -9, 9) for i in range(3)]
    ms = [h.real('z%d' % i, -9, 9) for i in range(2)]
    b = N.BarycentricInterpolator(np.array(xs), h.array(ys))
    b.add_nodes(np.array(ns), h.array(ms))
    X = xs + ns
    Y = ys + ms
    k = sorted(range(5), key=lambda i: X[i])
    for i, j in enumerate(k):
        h.check_eq(b.Xs[i], X[j], 'node-kept')
        h.check_eq(b.Ys[i], Y[j], 'value-kept')
    for x in (-0.6, 0.3, 1.9):
        h.check_eq(b(x), poly_at(X, Y, x), 'polynomial-through-all', tol=1e-9)


HARNESSES.append(Harness('add-nodes', added, P, variants=1, bounds='3+2 nodes at fixed places, any values', encoded=['interpolation.*.add_nodes']))

CLS = {'Chebyshev': N.ChebyshevInterpolator, 'NoL': N.ChebyshevInterpolatorNoL, 'NoR': N.ChebyshevInterpolatorNoR,
       'first-kind': N.ChebyshevInterpolator1}


class Values(object):
    """function with arbitrary values at the nodes it is asked for"""

    def __init__(self, h):
        self.h, self.at = h, {}

    def __call__(self, x):
        sc = np.isscalar(x)
        xs = np.atleast_1d(np.asarray(x, dtype=float))
        out = []
        for v in xs:
            v = float(v)
            if v not in self.at:
                self.at[v] = self.h.real('f%d' % len(self.at), -1, 1)
            out.append(self.at[v])
        return out[0] if sc else self.h.array(out)


def staged(which, stages):
    """after any number of refinements: the polynomial through the function's values at well placed nodes"""
    def fn(h):
        a, b = h.choose('interval', IV)
        C = CLS[which]
        f = Values(h)

        def driver(self, par=None):
            n = self.n if hasattr(self, 'n') else len(self.Xs)
            for _ in range(stages):
                m = 3 * n if which == 'first-kind' else 2 * n - 1
                new = (self.get_incremental_nodes1 if which == 'first-kind' else self.get_incremental_nodes)(m)
                self.add_nodes(new, self.f(new))
                n = m
            self.n = n
        holder = N.AdaptiveInterpolator1 if which == 'first-kind' else N.AdaptiveInterpolator
        with stub(((holder, 'adaptive_interp'), driver)):
            g = C(f, a, b)
        X, Y = g.getNodes()
        h.check(len(X) == len(f.at), 'all-samples-used')
        for i in range(len(X)):
            h.check(a - 1e-12 * max(1, abs(a)) <= float(X[i]) <= b + 1e-12 * max(1, abs(b)), 'nodes-inside')
            k = min(f.at, key=lambda v: abs(v - float(X[i])))
            h.check(abs(k - float(X[i])) < 4e-14 * max(1, abs(a)), 'nodes-are-the-samples')
            h.check_eq(Y[i], f.at[k], 'values-are-the-samples')
        for i in range(len(X) - 1):
            h.check(float(X[i]) < float(X[i + 1]), 'nodes-increase')
        n = len(X)
        if which in ('Chebyshev', 'NoR'):
            h.check(float(X[0]) == a, 'left-end-is-a-node')
        if which in ('Chebyshev', 'NoL'):
            h.check(float(X[-1]) == b, 'right-end-is-a-node')
        if which in ('NoL', 'first-kind'):
            h.check(float(X[0]) > a, 'left-end-not-sampled')
        if which in ('NoR', 'first-kind'):
            h.check(float(X[-1]) < b, 'right-end-not-sampled')
        for t in (0.0, 0.013, 0.29, 0.5, 0.77, 0.992, 1.0):
            x = a + (b - a) * t
            xs = [float(v) for v in X]
            want = poly_at(xs, list(Y), x)
            h.check_eq(g(x), want, 'interpolating-polynomial', tol=1e-9)
        q = np.array([a + (b - a) * t for t in (0.1, 0.6)])
        v = g(q)
        for i in range(2):
            h.check_eq(v[i], poly_at(xs, list(Y), q[i]), 'interpolating-polynomial-vector', tol=1e-9)
    return fn


for w in CLS:
    for st in (0, 1, 2, 3):
        HARNESSES.append(Harness('refine[%s,%d]' % (w, st), staged(w, st), P, variants=1, budget=25, bounds='intervals %s, any function values in [-1,1], %d refinements' % (IV, st),
                                 encoded=['interpolation.%s' % CLS[w].__name__, 'utils.cheb_nodes*']))


def driver(which, k):
    """adaptive loop on c*g: scale independent, stops accurate, keeps samples"""
    G = {'exp': (np.exp, 'smooth'), 'runge': (lambda x: 1 / (4 + x * x), 'smooth'), 'cubic': (lambda x: x ** 3 + 2 * x + 7, 'poly'), 'kink': (lambda x: np.abs(x - 1.1) + 1, 'rough')}
    g, kind = G[k]

    def fn(h):
        a, b = IV[0] if k != 'kink' else IV[1]
        c = h.real('c', 0.001, 1000)
        cnt = []

        def f(x):
            x = np.asarray(x, dtype=float)
            cnt.append(x)
            y = g(x)
            return c * y if not h.sym else (h.array([c * float(v) for v in np.atleast_1d(y)]))
        I = CLS[which](f, a, b)
        X, Y = I.getNodes()
        for i in range(len(X)):
            h.check_eq(Y[i], c * float(g(float(X[i]))), 'values-are-the-samples', tol=1e-9)
        if kind != 'rough':
            for t in (0.02, 0.3, 0.51, 0.97):
                x = a + (b - a) * t
                h.check_eq(I(x) / c, float(g(x)), 'accurate', tol=1e-8)
            h.check_le(I.err / c, 1e-9, 'reported-error-small')
        else:
            h.check(len(X) <= 2 * params.interpolation.maxn, 'node-budget-respected')
        h.check(len(X) <= 3 * params.interpolation.maxn, 'node-budget-respected')
        h.check(len(cnt) >= 2, 'accuracy-tested-before-acceptance')
    return fn


for w in CLS:
    for k in ('exp', 'runge', 'cubic', 'kink'):
        if k in ('runge', 'kink') and w in ('NoL', 'NoR'):
            continue
        HARNESSES.append(Harness('adaptive[%s,%s]' % (w, k), driver(w, k), P, variants=1, budget=20, bounds='c*g with every c in [0.001,1000], g=%s' % k, quick=not (k == 'kink'),
                                 encoded=['interpolation.AdaptiveInterpolator*.adaptive_interp', 'interpolation.*.test_accuracy', 'utils.convergence_monitor']))


def deriv(which, n):
    """derivative of the interpolant is the derivative of the polynomial"""
    def fn(h):
        a, b = h.choose('interval', IV)
        f = Values(h)
        if which == 'bary':
            X, W = U.chebspace(a, b, n, returnWeights=True)
            I = N.BarycentricInterpolator(X, f(X), W)
        else:
            C = CLS[which]

            def drv(self, par=None):
                self.n = n
                X = self.get_nodes(n)
                N.BarycentricInterpolator.__init__(self, X, self.f(X))
            holder = N.AdaptiveInterpolator1 if which == 'first-kind' else N.AdaptiveInterpolator
            with stub(((holder, 'adaptive_interp'), drv)):
                I = C(f, a, b)
        X = [float(v) for v in I.Xs]
        Y = list(I.Ys)
        with fft_stubs(h):
            D = I.diff()
        for t in (0.03, 0.31, 0.5, 0.88):
            x = a + (b - a) * t
            if which == 'first-kind':
                x = X[0] + (X[-1] - X[0]) * t
            h.check_eq(D(x), poly_at(X, Y, x, der=True), 'derivative', tol=1e-8)
    return fn


for w, n in (('bary', 3), ('bary', 4), ('bary', 6), ('Chebyshev', 5), ('NoL', 5), ('NoR', 5), ('first-kind', 4)):
    HARNESSES.append(Harness('derivative[%s,%d]' % (w, n), deriv(w, n), P, variants=1, budget=25, bounds='%d nodes on %s, any values' % (n, IV),
                             encoded=['interpolation.BarycentricInterpolator.diff', 'utils.chebt2', 'utils.ichebt2']))


def trim(n):
    """dropping negligible coefficients changes the interpolant negligibly"""
    def fn(h):
        a, b = IV[0]
        f = Values(h)

        def drv(self, par=None):
            self.n = n
            X = self.get_nodes(n)
            N.BarycentricInterpolator.__init__(self, X, self.f(X))
        with stub(((N.AdaptiveInterpolator, 'adaptive_interp'), drv)):
            I = N.ChebyshevInterpolator(f, a, b)
        with fft_stubs(h):
            T = I.trim(abstol=0.05)
        for t in (0.0, 0.07, 0.5, 0.81):
            x = a + (b - a) * t
            d = T(x) - poly_at([float(v) for v in I.Xs], list(I.Ys), x)
            h.check_le(d, 0.05 * n, 'within-dropped-coefficients')
            h.check_le(-d, 0.05 * n, 'within-dropped-coefficients')
    return fn


for n in (3, 5):
    HARNESSES.append(Harness('trim[%d]' % n, trim(n), P, variants=1, bounds='%d values, threshold 0.05' % n, encoded=['interpolation.ChebyshevInterpolator.trim']))


def roots_map(h):
    """roots are those inside the interval, mapped from [-1,1]"""
    a, b = IV[0]
    r = h.real('r', -2, 2)

    def fake(cs):
        return h.array([r])
    if h.sym:
        X, W = U.chebspace(a, b, 4, returnWeights=True)
        I = N.BarycentricInterpolator(X, np.array([1.0, 2, 3, 5]), W)
        with stub((U.chebroots, fake), (N.chebroots, fake)):
            R = I.roots()
    else:
        # quadratic with one root at r
        X, W = U.chebspace(a, b, 4, returnWeights=True)
        x0 = (r * (b - a) + a + b) / 2
        h.assume(abs(abs(r) - 1) > 1e-6)
        I = N.BarycentricInterpolator(X, (X - x0) * (X * X + 1), W)
        R = I.roots()
    if bool(r > -1) and bool(r < 1):
        h.check(len(R) == 1, 'root-reported')
        h.check_eq(R[0], (r * (b - a) + (a + b)) / 2, 'root-position', ctol=1e-6)
    else:
        h.check(len(R) == 0, 'outside-roots-dropped')


HARNESSES.append(Harness('roots', roots_map, P, variants=1, bounds='one root anywhere in [-2,2] of the reference interval', encoded=['interpolation.BarycentricInterpolator.roots']))


# ------------------------------------------------------------------ kernels
def k_bary(m, n):
    """compiled source: barycentric formula, nodes hit, memory safe"""
    def fn(h):
        ns = runner.KERNELS.get('py')
        h.assume(ns is not None)
        xs = [-1.5, -0.25, 0.5, 2.0][:m]
        ys = [h.real('y%d' % i, -9, 9) for i in range(m)]
        ws = [h.real('w%d' % i, 0.1, 3) * (1 if i % 2 else -1) for i in range(m)]
        q = [h.real('q%d' % i, -2, 3) for i in range(n)]
        args = (np.array(xs), h.array(ys), h.array(ws), h.array(q))
        pyx.CBuf.live = []
        try:
            y = ns['bary_interp'](*args)
            ok = True
        except pyx.MemError as e:
            ok = str(e)
        h.check(ok is True, 'memory-safe')
        h.check(not [b for b in pyx.CBuf.live if b.alive], 'memory-released')
        if not h.sym and runner.KERNELS.get('module') is not None:
            y = runner.KERNELS['module'].bary_interp(*args)
        for i in range(n):
            hit = [k for k in range(m) if bool(q[i] == xs[k])]
            if hit:
                h.check_eq(y[i], ys[hit[0]], 'kernel-node-value', tol=0 if h.sym else 1e-15)
            else:
                num = sum(ws[k] * ys[k] / (q[i] - xs[k]) for k in range(m))
                den = sum(ws[k] / (q[i] - xs[k]) for k in range(m))
                if not h.sym:
                    h.assume(abs(den) > 1e-9)
                if bool(den == 0):
                    near = ys[0]
                    continue
                h.check_eq(y[i] * den, num, 'kernel-barycentric-formula', tol=1e-6)
    return fn


for m, n in ((1, 1), (2, 2), (4, 1)):
    HARNESSES.append(Harness('kernel-barycentric[%d,%d]' % (m, n), k_bary(m, n), P, variants=1, budget=25, bounds='%d nodes, any values and weights, %d query points anywhere' % (m, n),
                             encoded=['bary_interp.pyx:bary_interp']))


def k_tie(h):
    """zero denominator: nearest node's value"""
    ns = runner.KERNELS.get('py')
    h.assume(ns is not None)
    y0, y1, y2 = h.real('y0', -9, 9), h.real('y1', -9, 9), h.real('y2', -9, 9)
    # weights making the denominator vanish exactly at 1: 1/(1-0) w0 + w1/(1-0.75)+ w2/(1-3) = 0
    args = (np.array([0.0, 0.75, 3.0]), h.array([y0, y1, y2]), np.array([1.0, 0.25, 4.0]), np.array([1.0]))
    y = ns['bary_interp'](*args) if h.sym or runner.KERNELS.get('module') is None else runner.KERNELS['module'].bary_interp(*args)
    h.check_eq(y[0], y1, 'nearest-node-on-zero-denominator')
    with kernel(h, False):
        b = N.BarycentricInterpolator(args[0], args[1], args[2])
        h.check_eq(b(args[3])[0], y1, 'nearest-node-on-zero-denominator-numpy')


HARNESSES.append(Harness('kernel-zero-denominator', k_tie, P, variants=1, bounds='one exact tie, any values', encoded=['bary_interp.pyx:bary_interp', 'interpolation.BarycentricInterpolator.interp_at']))


def k_grid(ms, n):
    def fn(h):
        ns = runner.KERNELS.get('py')
        h.assume(ns is not None)
        d = len(ms)
        M = int(np.prod(ms))
        A = []
        for i in range(d):
            B = np.empty((n, ms[i]), dtype=object if h.sym else float)
            for p in range(n):
                for k in range(ms[i]):
                    B[p, k] = h.real('a%d_%d_%d' % (i, p, k), -2, 2)
            A.append(B)
        fs = h.array([h.real('f%d' % j, -2, 2) for j in range(M)])
        pyx.CBuf.live = []
        y = None
        try:
            y = ns['c_dense_grid_interp'](A, fs)
            ok = True
        except pyx.MemError as e:
            ok = str(e)
        h.check(ok is True, 'memory-safe')
        if ok is not True:
            return
        h.check(not [b for b in pyx.CBuf.live if b.alive], 'memory-released')
        if not h.sym and runner.KERNELS.get('module') is not None:
            y = runner.KERNELS['module'].c_dense_grid_interp(A, fs)
        for p in range(n):
            want = 0
            for j, idx in enumerate(np.ndindex(*ms)):
                t = fs[j]
                for i in range(d):
                    t = t * A[i][p, idx[i]]
                want = want + t
            h.check_eq(y[p], want, 'tensor-product-sum', tol=1e-9)
    return fn


for ms, n in (((3,), 2), ((2, 3), 2), ((1, 1), 1), ((1, 1, 1), 2), ((2, 1, 2), 1), ((3, 2, 2), 1)):
    HARNESSES.append(Harness('kernel-grid[%s,%d]' % ('x'.join(map(str, ms)), n), k_grid(ms, n), P, variants=1, bounds='grid %s, %d points, any data' % (ms, n),
                             encoded=['bary_interp.pyx:c_dense_grid_interp']))
