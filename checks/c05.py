"""Numeric helpers: inverse search brackets, bisection, singularity detection,
break point merging, step function, combinatorial coefficients."""
import math
import numpy as np
import z3
from engine.harness import Harness, stub, unwrap
from engine import sym, patch
from engine.sym import lift, Sym
import pacal.utils as U
from pacal import params

P = 'C05'
META = {'assumptions': []}
HARNESSES = []


class Mono(object):
    """arbitrary strictly increasing function; exact solution known at s: f(s)=c"""

    def __init__(self, h, s, c):
        self.h, self.s, self.c = h, s, c
        self.calls = []

    def __call__(self, x):
        if not self.h.sym:
            x = float(x)
            return self.c + math.tanh(x - self.s) * 0.3
        for p, v in self.calls:
            if p is x:
                return v
        v = self.h.c.fresh('m')
        c = self.h.c
        z = sym.tobool
        # strictly increasing through (s,c) and all previous samples
        for p, w in self.calls + [(self.s, self.c)]:
            c.pc.append(z3.Implies(z(x > p), z(v > w)))
            c.pc.append(z3.Implies(z(x < p), z(v < w)))
            c.pc.append(z3.Implies(sym.tobool(sym.mkbool(z3.And(z(x >= p), z(x <= p)))), z3.And(z(v >= w), z(v <= w))))
        self.calls.append((x, v))
        return v


class Done(Exception):
    pass


def bracket(which):
    """the search interval handed to the root finder contains the solution"""
    def fn(h):
        c = h.real('c', 0.05, 0.95)
        s = h.real('s', -20, 20)
        e = h.real('e', -20, 20)
        f = Mono(h, s, c)
        got = []

        def rec(fun, a=0.0, b=1.0, cc=0.5, **k):
            got.append((a, b, k.get('c', cc)))
            return a
        with stub((U.findinv, rec)):
            if which == 'minf':
                h.assume(s <= e)
                if h.sym:
                    h.assume(e - s <= 12)
                U.findinv_minf(f, b=e, c=c)
            else:
                h.assume(s >= e)
                if h.sym:
                    h.assume(s - e <= 12)
                U.findinv_pinf(f, a=e, c=c)
        h.check(len(got) == 1, 'one-search')
        a, b, cc = got[0]
        h.check_eq(cc, c, 'level-passed-on')
        h.check(a <= s, 'solution-not-left-of-bracket')
        h.check(b >= s, 'solution-not-right-of-bracket')

    def conc(h):
        fn(h)
        c, s, e = h.vars['c'], h.vars['s'], h.vars['e']
        f = Mono(h, s, c)
        x = U.findinv_minf(f, b=e, c=c) if which == 'minf' else U.findinv_pinf(f, a=e, c=c)
        h.check_eq(x, s, 'solution-found', ctol=1e-6)
    return fn, conc


for w in ('minf', 'pinf'):
    f, c = bracket(w)
    HARNESSES.append(Harness('bracket[%s]' % w, f, P, conc=c, variants=1, budget=30, bounds='every strictly increasing function, solution within 12 of the end in [-20,20]',
                             encoded=['utils.findinv_%s' % w]))


def outside(which):
    """no solution on the given side -> nan, not a wrong point"""
    def fn(h):
        c = h.real('c', 0.05, 0.95)
        s = h.real('s', -20, 20)
        e = h.real('e', -20, 20)
        f = Mono(h, s, c)
        with stub((U.findinv, lambda *a, **k: 0.0)):
            if which == 'minf':
                h.assume(s > e + 0.01)
                r = U.findinv_minf(f, b=e, c=c)
            else:
                h.assume(s < e - 0.01)
                r = U.findinv_pinf(f, a=e, c=c)
        h.check(isinstance(r, float) and math.isnan(r), 'nan-when-no-solution')
    return fn


for w in ('minf', 'pinf'):
    HARNESSES.append(Harness('no-solution[%s]' % w, outside(w), P, variants=1, bounds='as bracket', encoded=['utils.findinv_%s' % w]))


def bis(n):
    """bisection keeps the sign change inside the interval"""
    def fn(h):
        a = h.real('a', -5, 5)
        b = h.real('b', -5, 5)
        s = h.real('s', -5, 5)
        h.assume(b - a >= 0.5)
        h.assume(s >= a)
        h.assume(s <= b)
        up = h.choose('increasing', [1, -1])
        f = Mono(h, s, lift(0) if h.sym else 0.0)
        eps = 2.0 ** -n * 12
        x = U.bisect(lambda x: f(x) * up, a, b, xtol=eps, rtol=eps)
        h.check(x >= a - 1e-9, 'inside')
        h.check(x <= b + 1e-9, 'inside')
        # |dm| < tol <= eps * min(1, |a|+|b|) once stopped; x is within dm of the root
        tol = min(eps, eps * (abs(a) + abs(b)))
        h.check(abs(x - s) <= 2 * tol + 1e-9, 'close-to-the-root')
    return fn


HARNESSES.append(Harness('bisect', bis(4), P, variants=1, budget=40, max_paths=600, bounds='every strictly monotone function on [a,b], |a|,|b|<=5, tolerance 0.75', encoded=['utils.bisect']))


def poles(pos, at):
    """f ~ C|x-x0|^p : exponent recovered, classification by exponent"""
    def fn(h):
        p = h.real('p', -4, 4)
        K = h.real('K', -2, 2)
        x0 = 0.0 if at == 0 else 1.0
        seen = []

        def f(x):
            d = np.asarray(x, dtype=float) - x0
            seen.append(d)
            ls = [math.log(abs(v)) for v in d]
            if h.sym:
                return h.array([lift_exp(h, K + p * h.q(*v.as_integer_ratio())) for v in ls])
            return np.array([math.exp(K + p * v) for v in ls])
        deg = U.estimateDegreeOfPole(f, x0, pos)
        for d in seen:
            h.check(bool(np.all(d > 0)) if pos else bool(np.all(d < 0)), 'sampled-on-the-right-side')
        h.check_eq(deg, p, 'exponent-recovered', tol=1e-5, ctol=1e-5)
        for deriv in (True, False):
            r = U.testPole(f, x0, pos, deriv=deriv)
            m = 1e-2
            g = 1e-4
            if not deriv:
                if bool(p < -m - g):
                    h.check(r, 'pole-detected')
                elif bool(p > -m + g):
                    h.check(not r, 'no-pole')
            else:
                if bool(p < -m - g):
                    h.check(r, 'pole-detected-deriv')
                elif bool(p > m + g) and bool(p < 1 - m - g):
                    h.check(r, 'derivative-pole-detected')
                elif bool(p > -m + g) and bool(p < m - g):
                    h.check(not r, 'no-pole-deriv')
                elif bool(p > 1 - m + g) and bool(p < 1 + m - g):
                    h.check(not r, 'linear-is-no-pole')
    return fn


def lift_exp(h, x):
    return h.c.f_exp(lift(x))


for pos in (True, False):
    for at in (0, 1):
        HARNESSES.append(Harness('pole[%s,%d]' % ('right' if pos else 'left', at), poles(pos, at), P, variants=1, budget=30, bounds='f(x)=exp(K)|x-x0|^p, p in [-4,4], K in [-2,2]',
                                 encoded=['utils.estimateDegreeOfPole', 'utils.testPole']))


def merge(n, sorted_in):
    def fn(h):
        xs = [h.real('x%d' % i, -50, 50) for i in range(n)]
        eps = 1e-14
        # break points are separated or equal (up to well below the tolerance)
        for i in range(n):
            for j in range(i):
                h.assume((xs[i] == xs[j]) | (xs[i] - xs[j] > 1e-6) | (xs[j] - xs[i] > 1e-6))
        inp = list(xs)
        inf = h.choose('extra', [[], [float('inf')], [float('-inf')], [float('nan')]])
        out = list(U.epsunique(h.array(inp + inf)))
        fin = [o for o in out if not (isinstance(o, float) and abs(o) == float('inf'))]
        want_inf = [v for v in inf if v == v]
        h.check(len(out) - len(fin) == len(want_inf), 'infinities-kept')
        h.check(not any(isinstance(o, float) and o != o for o in out), 'nan-dropped')
        for i in range(len(fin) - 1):
            h.check(fin[i] < fin[i + 1], 'strictly-increasing')
        for x in xs:
            k = [bool(o == x) for o in fin]
            h.check(sum(k) == 1, 'every-point-kept-once')
        for o in fin:
            h.check(any(bool(o == x) for x in xs), 'nothing-invented')
    return fn


HARNESSES.append(Harness('merge-breaks[3]', merge(3, True), P, variants=1, budget=40, max_paths=2000, bounds='3 points in [-50,50], equal or 1e-6 apart, optionally one of inf/-inf/nan', encoded=['utils.epsunique']))


def close(h):
    """points closer than the relative tolerance collapse to one"""
    x = h.real('x', -50, 50)
    d = h.real('d', 0, 1e-4)
    y = h.real('y', 60, 90)
    out = list(U.epsunique(h.array([x, x + d, y]), eps=1e-3))
    h.check(len(out) == 2, 'near-duplicates-collapse')
    h.check_eq(out[-1], y, 'distinct-point-kept')
    h.check(out[0] >= x - 1e-12, 'kept-point-is-one-of-them')
    h.check(out[0] <= x + d + 1e-12, 'kept-point-is-one-of-them')


HARNESSES.append(Harness('merge-near', close, P, variants=1, bounds='gap below 1e-4, tolerance 1e-3', encoded=['utils.epsunique']))


def large(sign):
    def fn(h):
        """the merge tolerance is relative to the magnitude for both signs"""
        x = h.real('x', 10, 1e6)
        r = h.real('r', 1e-4, 1e-1)
        pts = [x, x + x * r] if sign > 0 else [-x - x * r, -x]
        out = list(U.epsunique(h.array(pts + [2e7]), eps=1e-3))
        near, far = r < 0.8e-3, r > 1.3e-3
        h.assume(near | far)
        h.check(len(out) == (2 if bool(near) else 3), 'merged-iff-relative-gap-small')
        h.check_eq(out[-1], 2e7, 'distinct-point-kept')
    return fn


HARNESSES.append(Harness('merge-large[+]', large(1), P, variants=1, bounds='10<=|x|<=1e6, relative gap 1e-4..0.1 (not 0.8..1.3 of the tolerance 1e-3)', encoded=['utils.epsunique']))
HARNESSES.append(Harness('merge-large[-]', large(-1), P, variants=1, bounds='10<=|x|<=1e6, relative gap 1e-4..0.1 (not 0.8..1.3 of the tolerance 1e-3)', encoded=['utils.epsunique']))


def step(h):
    x = h.real('x', -10, 10)
    s = h.real('s', -10, 10)
    r = U.stepfun(x, s)
    h.check_eq(r, 1.0 if bool(x >= s) else 0.0, 'scalar-step')
    v = U.stepfun(h.array([x]))
    h.check_eq(v[0], 1.0 if bool(x >= 0) else 0.0, 'vector-step')


HARNESSES.append(Harness('stepfun', step, P, variants=1, bounds='x, shift in [-10,10]', encoded=['utils.stepfun']))


def step_shift(h):
    x = h.real('x', -10, 10)
    s = h.real('s', -10, 10)
    v = U.stepfun(h.array([x]), s)
    h.check_eq(v[0], 1.0 if bool(x >= s) else 0.0, 'vector-step-shifted')


HARNESSES.append(Harness('stepfun-shift', step_shift, P, variants=1, bounds='x, shift in [-10,10]', encoded=['utils.stepfun']))


def binom(k):
    def fn(h):
        n = h.real('n', 2 * k + 1, 60)
        ref = lambda m, j: math.prod([1]) if j == 0 else _prod([(m - i) for i in range(j)]) / math.factorial(j)
        h.check_eq(U.binomial_coeff(n, k), ref(n, k), 'falling-factorial', tol=1e-9, ctol=1e-9)
        if k >= 1:
            h.check_eq(U.binomial_coeff(n, k), U.binomial_coeff(n - 1, k) + U.binomial_coeff(n - 1, k - 1), 'pascal', tol=1e-9, ctol=1e-9)
    return fn


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


for k in (0, 1, 2, 3, 5):
    HARNESSES.append(Harness('binomial[%d]' % k, binom(k), P, variants=1, bounds='n in [2k+1,60] (as reals), k=%d' % k, encoded=['utils.binomial_coeff']))


def binom_sym(h):
    """symmetric branch and multinomial on concrete sizes"""
    n = h.choose('n', list(range(1, 13)))
    for k in range(n + 1):
        h.check_eq(U.binomial_coeff(n, k), math.comb(n, k), 'binomial', ctol=1e-12)
        h.check_eq(U.multinomial_coeff(n, [k, n - k]), math.comb(n, k), 'multinomial-2', ctol=1e-12)
        for j in range(k + 1):
            h.check_eq(U.multinomial_coeff(n, [n - k, k - j, j]), math.comb(n, k) * math.comb(k, j), 'multinomial-3', ctol=1e-12)


HARNESSES.append(Harness('binomial-table', binom_sym, P, variants=1, bounds='n<=12', encoded=['utils.binomial_coeff', 'utils.multinomial_coeff']))


def cheb_roundtrip(n):
    """values -> Chebyshev coefficients -> values is the identity, coefficients are the expansion's"""
    def fn(h):
        ys = [h.real('y%d' % i, -1, 1) for i in range(n)]
        with stub(*([] if not h.sym else [(np.fft.fft, dft(1)), (np.fft.ifft, dft(-1)), (U.fft, dft(1)), (U.ifft, dft(-1)), (np.real, re)] + ([((U.np, 'real'), re)] if hasattr(U, 'np') else []))):
            cs = U.chebt2(h.array(ys))
            back = U.ichebt2(h.array([c for c in cs]))
        h.check(len(cs) == n, 'size')
        xs = U.cheb_nodes(n)
        for i in range(n):
            h.check_eq(back[n - 1 - i], ys[i], 'roundtrip', tol=1e-9)
            t = sum(cs[n - 1 - k] * math.cos(k * math.acos(max(-1, min(1, float(xs[i]))))) for k in range(n))
            h.check_eq(t, ys[i], 'expansion-matches-values', tol=1e-9)
    return fn


class CX(object):
    """complex with symbolic parts, linear operations only"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        return CX(self.re + o.re, self.im + o.im) if isinstance(o, CX) else CX(self.re + o, self.im)
    __radd__ = __add__

    def __truediv__(self, o):
        return CX(self.re / o, self.im / o)

    def __mul__(self, o):
        return CX(self.re * o, self.im * o)
    __rmul__ = __mul__


def dft(sgn):
    def f(x):
        x = list(x)
        n = len(x)
        out = np.empty(n, dtype=object)
        for k in range(n):
            r, i = lift(0), lift(0)
            for j, v in enumerate(x):
                a = 2 * math.pi * j * k / n
                vr, vi = (v.re, v.im) if isinstance(v, CX) else (v, 0)
                c, s = math.cos(a), -sgn * math.sin(a)
                r = r + vr * c
                i = i + vr * s
                if isinstance(v, CX):
                    r = r - vi * s
                    i = i + vi * c
            out[k] = CX(r, i) if sgn == 1 else CX(r / n, i / n)
        return out
    return f


def re(x):
    r = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        r[i] = v.re if isinstance(v, CX) else v
    return r


for n in (2, 3, 4, 5, 9):
    HARNESSES.append(Harness('cheb-transform[%d]' % n, cheb_roundtrip(n), P, variants=1, bounds='%d arbitrary values in [-1,1]' % n, encoded=['utils.chebt2', 'utils.ichebt2']))


def roots(n):
    """companion matrix: T-expansion's roots are eigenvalues: M^T-vector (T_0..T_{n-2}) is an eigenvector at a root"""
    def fn(h):
        cs = [h.real('c%d' % i, -2, 2) for i in range(n)]
        h.assume((cs[-1] >= 0.1) | (cs[-1] <= -0.1))
        M = U.cheb1companion(h.array(cs))
        x = h.real('x', -1, 1)
        T = [lift(1) if h.sym else 1.0, x]
        for k in range(2, n):
            T.append(2 * x * T[-1] - T[-2])
        p = sum(c * t for c, t in zip(cs, T))
        # rows 0..n-3: x*T_i ; last row: x*T_{n-2} - p/(2 c_{n-1})
        for i in range(n - 1):
            lhs = sum(M[i, j] * T[j] for j in range(n - 1))
            if i < n - 2:
                h.check_eq(lhs, x * T[i], 'companion-row')
            else:
                h.check_eq(lhs, x * T[i] - p / (2 * cs[-1]), 'companion-last-row')
    return fn


for n in (4, 5, 6):
    HARNESSES.append(Harness('companion[%d]' % n, roots(n), P, variants=1, bounds='%d coefficients in [-2,2], leading >=0.1' % n, encoded=['utils.cheb1companion']))
