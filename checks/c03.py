"""Quadrature rules and their nodes: exact on polynomials, weights right for any
integrand values, nodes nested, ordered and inside the interval."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine.sym import lift
import pacal.integration as I
import pacal.utils as U
from pacal import params

P = 'C03'
META = {'assumptions': ['Chebyshev node cosines are the doubles numpy computes']}
HARNESSES = []


def poly(h, deg):
    cs = [h.real('c%d' % k, -1, 1) for k in range(deg + 1)]

    def f(x):
        r = cs[0] * (x ** 0)
        for k in range(1, deg + 1):
            r = r + (np.asarray(x, dtype=float) ** k) * cs[k]
        return r
    return cs, f


def exact(cs, a, b):
    return sum(c * ((b ** (k + 1) - a ** (k + 1)) / (k + 1)) for k, c in enumerate(cs))


IV = [(-0.75, 2.0), (1.0, 1.5)]


class Par(object):
    """integration parameters with a given node budget"""
    debug_plot = False
    debug_info = False
    convergence = params.integration.convergence

    def __init__(self, maxn):
        self.maxn = maxn


def poly_exact(rule, deg):
    def fn(h):
        a, b = h.choose('interval', IV)
        cs, f = poly(h, deg)
        if rule == 'clenshaw':
            res, err = I.integrate_clenshaw(f, a, b, debug_info=False, debug_plot=False)
        elif rule == 'clenshaw-fine':
            # first three rules only, no adaptivity: n = 3, 5, 9
            res, err = I.integrate_clenshaw(f, a, b, maxn=65, debug_info=False, debug_plot=False)
        elif rule == 'fejer2':
            res, err = I.integrate_fejer2(f, a, b, par=Par(300))
        else:
            res, err = I.integrate_fejer2_vector(lambda x: np.array([f(x), 2 * f(x)]), a, b, par=Par(300))
            h.check_eq(res[1], 2 * exact(cs, a, b), 'second-component', tol=1e-10)
            res = res[0]
        h.check_eq(res, exact(cs, a, b), 'integral-of-polynomial', tol=1e-10)
    return fn


for r, d in (('fejer2', 9), ('fejer2-vector', 5)):
    HARNESSES.append(Harness('polynomial[%s]' % r, poly_exact(r, d), P, budget=30, max_paths=40,
                             bounds='every polynomial of degree<=%d with |coef|<=1 on %s' % (d, IV),
                             encoded=['integration.integrate_%s' % r.replace('-', '_'), 'integration.fejer2_coefficients', 'utils.cheb_nodes',
                                      'utils.incremental_cheb_nodes', 'utils.combine_interpolation_nodes_fast*', 'utils.convergence_monitor']))


def fejer_ref(n):
    """Fejer's second rule, n-2 interior nodes, by the classical formula"""
    N = n - 1
    out = []
    for j in range(1, N):
        th = j * math.pi / N
        s = sum(math.sin((2 * k - 1) * th) / (2 * k - 1) for k in range(1, N // 2 + 1))
        out.append(4 * math.sin(th) / N * s)
    return out


def clenshaw_ref(n):
    N = n - 1
    out = []
    for j in range(n):
        th = j * math.pi / N
        c = 1.0 if j in (0, N) else 2.0
        s = 1.0
        for k in range(1, N // 2 + 1):
            bk = 1.0 if 2 * k == N else 2.0
            s -= bk / (4 * k * k - 1) * math.cos(2 * k * th)
        out.append(c / N * s)
    return out


def any_values(rule):
    """the estimate formed from arbitrary integrand values is the rule's weighted sum at the right nodes"""
    def fn(h):
        a, b = h.choose('interval', IV)
        stages = []

        def f(x):
            x = np.asarray(x, dtype=float)
            ys = [h.real('y%d_%d' % (len(stages), i), -1, 1) for i in range(len(x))]
            stages.append((x, ys))
            r = h.array(ys)
            return np.array([r]) if rule == 'fejer2-vector' else r
        ests = []

        class Mon(object):
            def __init__(self, *p, **k):
                pass

            def add(self, err, y, extra=None):
                ests.append((err, y))

            def test_convergence(self):
                return (len(ests) >= 2, '')

            def get_best_result(self, *p):
                return ests[-1][1], ests[-1][0], None
        with stub((U.convergence_monitor, Mon)):
            if rule == 'clenshaw':
                res, err = I.integrate_clenshaw(f, a, b, maxn=9, debug_info=False, debug_plot=False)
            elif rule == 'fejer2':
                res, err = I.integrate_fejer2(f, a, b, par=Par(300))
            else:
                res, err = I.integrate_fejer2_vector(f, a, b, par=Par(300))
        # collate by node position
        pts = sorted((x, y) for xs, ys in stages for x, y in zip(list(xs), range(len(ys))) for y in [(id(ys), y)])
        val = {(id(ys), i): y for xs, ys in stages for i, y in enumerate(ys)}
        n = len(pts) + (0 if rule == 'clenshaw' else 2)
        w = clenshaw_ref(n) if rule == 'clenshaw' else fejer_ref(n)
        th = [(a + b) / 2 - (b - a) / 2 * math.cos(math.pi * (j + (0 if rule == 'clenshaw' else 1)) / (n - 1)) for j in range(len(pts))]
        for (x, _k), r in zip(pts, th):
            h.check(abs(x - r) < 1e-12 * (1 + abs(a) + abs(b)), 'node-position')
        want = sum(wi * val[k] for wi, (x, k) in zip(w, pts)) * ((b - a) / 2)
        h.check_eq(res, want, 'weighted-sum', tol=1e-11)
        h.check(len(stages) >= 2, 'refined')
        # earlier estimate only uses the earlier nodes
        if rule != 'fejer2-vector':
            lastI = res
            xs, ys = stages[0]
            n1 = len(xs) + (0 if rule == 'clenshaw' else 2)
            w1 = clenshaw_ref(n1) if rule == 'clenshaw' else fejer_ref(n1)
            if len(stages) == 2:
                I1 = sum(p * q for p, q in zip(w1, ys)) * ((b - a) / 2)
                h.check_eq(abs(I1 - want), err, 'error-estimate', tol=1e-11)
    return fn


for r in ('fejer2', 'fejer2-vector', 'clenshaw'):
    HARNESSES.append(Harness('any-values[%s]' % r, any_values(r), P, budget=30, variants=1,
                             bounds='arbitrary integrand values in [-1,1] at every node; two or three refinement stages; intervals %s' % IV,
                             encoded=['integration.integrate_%s' % r.replace('-', '_'), 'utils.combine_interpolation_nodes_fast*']))


def nesting(kind, n):
    def fn(h):
        if kind == 'log':
            a = h.real('a', 0.5, 2)
            b = h.real('b', 3, 9)
        else:
            a = h.real('a', -100, 100)
            b = h.real('b', -100, 100)
        h.assume(a < b)
        if not h.sym:
            h.assume(b - a > 1e-6)
        if kind == 'second':
            coarse, fine = U.cheb_nodes(n, a, b), U.cheb_nodes(2 * n - 1, a, b)
            extra = U.incremental_cheb_nodes(2 * n - 1, a, b)
            merged = [None] * (2 * n - 1)
            merged[::2] = list(coarse)
            merged[1::2] = list(extra)
        elif kind == 'first':
            coarse, fine = U.cheb_nodes1(n, a, b), U.cheb_nodes1(3 * n, a, b)
            extra = list(U.incremental_cheb_nodes1(3 * n, a, b))
            merged = []
            e = iter(extra)
            for i in range(3 * n):
                merged.append(coarse[i // 3] if i % 3 == 1 else next(e))
        elif kind == 'log':
            coarse, fine = U.cheb_nodes_log(n, a, b), U.cheb_nodes_log(2 * n - 1, a, b)
            extra = U.incremental_cheb_nodes_log(2 * n - 1, a, b)
            merged = [None] * (2 * n - 1)
            merged[::2] = list(coarse)
            merged[1::2] = list(extra)
        elif kind in ('space', 'space1'):
            fine, w = (U.chebspace if kind == 'space' else U.chebspace1)(a, b, n, returnWeights=True)
            merged = list((U.cheb_nodes if kind == 'space' else U.cheb_nodes1)(n, a, b))
            h.check(len(w) == n, 'weights-size')
            for i in range(n - 1):
                h.check(bool(w[i] * w[i + 1] < 0), 'weights-alternate')
            if kind == 'space':
                for i in range(n):
                    h.check_eq(abs(w[i]), 0.5 if i in (0, n - 1) else 1, 'weights-magnitude')
            else:
                for i in range(n):
                    h.check_eq(abs(w[i]), math.sin((2 * i + 1) * math.pi / (2 * n)), 'weights-magnitude')
        h.check(len(fine) == len(merged), 'size')
        for x, y in zip(fine, merged):
            h.check_eq(x, y, 'nested', tol=1e-9)
        if kind != 'log':
            for i in range(len(fine) - 1):
                h.check(fine[i] < fine[i + 1], 'increasing')
            h.check(fine[0] >= a, 'inside')
            h.check(fine[-1] <= b, 'inside')
            for i, x in enumerate(fine):
                m = len(fine)
                c = math.cos(math.pi * i / (m - 1)) if kind in ('second', 'space') else math.cos(math.pi * (2 * i + 1) / (2 * m))
                h.check_eq(x, (a + b) / 2 - (b - a) * lift2(h, c) / 2, 'position', tol=1e-9)
        if kind in ('second', 'log', 'space'):
            h.check_eq(fine[0], a, 'left-end-exact', tol=0 if h.sym else 1e-15)
            h.check_eq(fine[-1], b, 'right-end-exact', tol=0 if h.sym else 1e-15)
    return fn


def lift2(h, c):
    return lift(c) if h.sym else c


for k, ns in (('second', (2, 3, 5, 9, 17, 33)), ('first', (2, 6, 18)), ('log', (3,)), ('space', (2, 3, 8, 17)), ('space1', (1, 2, 7, 16))):
    for n in ns:
        HARNESSES.append(Harness('nodes[%s,%d]' % (k, n), nesting(k, n), P, budget=30, bounds='a<b in [-100,100], %d nodes' % n,
                                 encoded=['utils.cheb_nodes*', 'utils.incremental_cheb_nodes*', 'utils.chebspace*'], quick=(n < 30)))


def combine(m, how):
    """merging of coarse and new nodes keeps every (x, y) pair, in increasing x"""
    def fn(h):
        xs = [h.real('x%d' % i, -10, 10) for i in range(2 * m + 1)]
        for i in range(2 * m):
            h.assume(xs[i] < xs[i + 1])
        ys = [h.real('y%d' % i, -10, 10) for i in range(2 * m + 1)]
        old, new = slice(0, None, 2), slice(1, None, 2)
        if how == 'fast':
            X, Y = U.combine_interpolation_nodes_fast(h.array(xs[old]), h.array(ys[old]), h.array(xs[new]), h.array(ys[new]))
        elif how == 'vector':
            X, Y = U.combine_interpolation_nodes_fast_vector(h.array(xs[old]), np.array([h.array(ys[old]), 2 * h.array(ys[old])]),
                                                             h.array(xs[new]), np.array([h.array(ys[new]), 2 * h.array(ys[new])]))
            for i in range(2 * m + 1):
                h.check_eq(Y[1][i], 2 * ys[i], 'second-component')
            Y = Y[0]
        else:
            X, Y = U.combine_interpolation_nodes(h.array(xs[old]), h.array(ys[old]), h.array(xs[new]), h.array(ys[new]))
        h.check(len(X) == 2 * m + 1, 'size')
        for i in range(2 * m + 1):
            h.check_eq(X[i], xs[i], 'node-kept')
            h.check_eq(Y[i], ys[i], 'value-kept')
    return fn


for how in ('fast', 'vector', 'sorted'):
    HARNESSES.append(Harness('combine[%s]' % how, combine(2 if how == 'sorted' else 3, how), P, bounds='%d interleaved nodes, arbitrary values' % (5 if how == 'sorted' else 7),
                             encoded=['utils.combine_interpolation_nodes*']))
