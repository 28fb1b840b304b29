"""Integration routes: every routine covers exactly the requested region with
exactly the requested integrand (correct Jacobian, nothing missing or twice)."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine.integ import Recorder, total_ite, generic, zstep, step, check_limit
from engine import sym
from engine.sym import lift
import pacal.integration as I
from pacal import params

P = 'C02'
META = {'assumptions': ['the leaf quadrature rule is replaced by a recording stand-in in the symbolic run (its own '
                        'accuracy is property C03); the replay uses the real one and a reference integral']}
INF = float('inf')
LEAF = 'integrate_fejer2'


class Probe(object):
    """integrand which remembers its arguments"""

    def __init__(self, f):
        self.f, self.args = f, []

    def __call__(self, x):
        a = x if not isinstance(x, np.ndarray) else x.ravel()[0]
        self.args.append(a)
        return self.f(x)


def ref(f, a, b, pts=()):
    """reference integral by composite Gauss-Legendre on a mapped grid"""
    def g(x):
        return np.asarray(f(np.asarray(x)), dtype=float)
    xs, ws = np.polynomial.legendre.leggauss(40)

    def fin(lo, hi, n=200):
        e = np.linspace(lo, hi, n + 1)
        m, r = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        X = m[:, None] + r[:, None] * xs[None, :]
        return float((g(X.ravel()).reshape(X.shape) * ws[None, :] * r[:, None]).sum())
    if a == b:
        return 0.0
    tot = 0.0
    lo, hi = a, b
    c0, c1 = -40.0, 40.0
    if lo == -INF:
        m = min(c0, hi - 40 if hi != INF else c0)
        # tail by x = m - s/(1-s)
        e = np.linspace(0, 1, 201)[:-1]
        def tail(s):
            return g(m - s / (1 - s)) / (1 - s) ** 2
        e = np.linspace(0, 1 - 1e-9, 301)
        mm, r = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        X = mm[:, None] + r[:, None] * xs[None, :]
        tot += float((tail(X.ravel()).reshape(X.shape) * ws[None, :] * r[:, None]).sum())
        lo = m
    if hi == INF:
        m = max(c1, lo + 40)
        def tail2(s):
            return g(m + s / (1 - s)) / (1 - s) ** 2
        e = np.linspace(0, 1 - 1e-9, 301)
        mm, r = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        X = mm[:, None] + r[:, None] * xs[None, :]
        tot += float((tail2(X.ravel()).reshape(X.shape) * ws[None, :] * r[:, None]).sum())
        hi = m
    return tot + fin(lo, hi)


def leafstub(h, rec):
    return stub((getattr(I, LEAF), rec.quad), (I.integrate_clenshaw, rec.quad))


class Errors(object):
    """replay of the error obligation: the real leaf rule, whose k-th call reports
    an error larger by (k+1)/1000; at the end the reported error must cover them"""

    def __init__(self, h):
        self.h, self.n = h, 0

    def __enter__(self):
        self.old = {n: getattr(I, n) for n in (LEAF, 'integrate_clenshaw')}

        def wrap(f0):
            def g(*a, **k):
                r = f0(*a, **k)
                self.n += 1
                return r[0], r[1] + self.n * 1e-3
            return g
        for n, f in self.old.items():
            setattr(I, n, wrap(f))
        return self

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(I, n, f)

    def check(self, err):
        self.h.check(err >= sum(i * 1e-3 for i in range(1, self.n + 1)) * (1 - 1e-9), 'error-covers-all-parts')


def covers(h, recs, err):
    h.check(lift(err) >= sum((lift(r.err) for r in recs), lift(0)), 'error-covers-all-parts')


def direct(call, region, pre):
    """routes without substitution: signed indicator sum at a generic point"""
    def fn(h):
        a, b = pre(h)
        f = h.fun('f')
        rec = Recorder(h, err=True)
        with leafstub(h, rec):
            res, err = call(f, a, b)
        covers(h, rec.recs, err)
        cs, rest = rec.coefficients(res)
        h.check_eq(rest, 0, 'no-constant-term')
        t = h.real('t', -200, 200)
        pts = [a, b]
        for r in rec.recs:
            pts += [r.L, r.U]
        generic(h, t, pts)
        lo, hi = region(a, b)
        want = (zstep(t, lo) - zstep(t, hi)) * f(t)
        h.check_eq(total_ite(h, rec.recs, cs, t), want, 'integrand-covered-once')

    def conc(h):
        a, b = pre(h)
        f = h.fun('f')
        with Errors(h) as E:
            E.check(call(f, a, b)[1])
        res, err = call(f, a, b)
        h.assume(abs(err) <= 1e-9 * (1 + abs(res)))     # only where the routine itself claims convergence
        lo, hi = region(a, b)
        h.reach()
        h.check_eq(res, ref(f, lo, hi), 'integrand-covered-once', ctol=1e-6)
    return fn, conc


def substituted(call, pre, ends, sign_split=False, edge=None):
    """routes with a change of variables.  ends(a,b) -> (lo, hi) of the region"""
    def fn(h):
        ab = pre(h)
        f0 = h.fun('f')
        f = Probe(f0)
        rec = Recorder(h, err=True)
        with leafstub(h, rec):
            res, err = call(f, *ab)
            covers(h, rec.recs, err)
            lo, hi = ends(*ab)
            cs, rest = rec.coefficients(res)
            h.check_eq(rest, 0, 'no-constant-term')
            # where does each piece [L,U] go
            images = []
            for r, c in zip(rec.recs, cs):
                t = h.c.fresh('t')
                h.assume(t > r.L)
                h.assume(t < r.U)
                f.args = []
                v = unwrap(r.f(h.array([t])))
                us = list(f.args)
                h.check(len(us) == 1, 'one-evaluation-per-node')
                u = lift(us[0])
                du = sym.diff(h.c, u, t.n)
                up = bool(du > 0)
                if not up:
                    h.check(du < 0, 'substitution-strictly-monotone')
                jac = du if up else -du
                h.check_eq(v * c, f0(u) * jac, 'integrand-times-jacobian')
                h.check(u >= lo, 'stays-in-region') if lo != -INF else None
                h.check(u <= hi, 'stays-in-region') if hi != INF else None
                images.append((r, t, u, up))
            if len(images) == 1:
                r, t, u, up = images[0]
                plo, phi = (lo, hi) if up else (hi, lo)
                if sign_split:
                    # |t| in the formula: this path sees one half only
                    if h.c.valid(t.n >= 0):
                        check_limit(h, u, t, r.U, phi, 'upper-end-reached')
                        check_limit(h, u, t, lift(0), lift(0), 'halves-meet')
                    else:
                        check_limit(h, u, t, r.L, plo, 'lower-end-reached')
                        check_limit(h, u, t, lift(0), lift(0), 'halves-meet')
                else:
                    check_limit(h, u, t, r.L, plo, 'lower-end-reached')
                    check_limit(h, u, t, r.U, phi, 'upper-end-reached')
            else:
                # contiguous pieces: [lo,m],[m,hi]
                (r1, t1, u1, up1), (r2, t2, u2, up2) = images
                m = (ab[0] + ab[1]) / 2
                e1 = (lo, m)
                e2 = (m, hi)
                check_limit(h, u1, t1, r1.L, e1[0] if up1 else e1[1], 'piece1')
                check_limit(h, u1, t1, r1.U, e1[1] if up1 else e1[0], 'piece1')
                check_limit(h, u2, t2, r2.L, e2[0] if up2 else e2[1], 'piece2')
                check_limit(h, u2, t2, r2.U, e2[1] if up2 else e2[0], 'piece2')

    def conc(h):
        ab = pre(h)
        f = h.fun('f')
        with Errors(h) as E:
            E.check(call(f, *ab)[1])
        seen = []

        def g(x):
            seen.append((np.min(x), np.max(x)))
            return f(x)
        res, err = call(g, *ab)
        lo, hi = ends(*ab)
        tol = 1e-9 * (1 + max(abs(v) for v in ab))
        h.check(min(v[0] for v in seen) >= (ab[0] if edge == 'P' else lo - tol), 'stays-in-region')
        h.check(max(v[1] for v in seen) <= (ab[1] if edge == 'N' else hi + tol), 'stays-in-region')
        h.assume(abs(err) <= 1e-9 * (1 + abs(res)))     # only where the routine itself claims convergence
        lo, hi = ends(*ab)
        h.reach()
        h.check_eq(res, ref(f, float(lo), float(hi)), 'integral-value', ctol=1e-6)
    return fn, conc


HARNESSES = []


def add(name, pair, **kw):
    fn, conc = pair
    HARNESSES.append(Harness(name, fn, P, conc=conc, **kw))


def box(lo, hi, mingap=None):
    def pre(h):
        a = h.real('a', lo, hi)
        b = h.real('b', lo, hi)
        h.assume(a < b)
        if mingap:
            h.assume(b - a >= mingap)
        return a, b
    return pre


def one(lo, hi):
    return lambda h: (h.real('a', lo, hi),)


ident = lambda a, b: (a, b)
E = ['integration.integrate_wide_interval']
add('wide-interval', direct(lambda f, a, b: I.integrate_wide_interval(f, a, b), ident, box(-30, 30, 1e-3)),
    bounds='-30<=a<b<=30, up to 16 sub-intervals', encoded=E, budget=40)


def widepos(h):
    a = h.real('a', 1e-3, 1)
    b = h.real('b', 1, 200)
    h.assume(b > a * 10)
    return a, b


add('wide-interval-positive', direct(lambda f, a, b: I.integrate_wide_interval(f, a, b), ident, widepos),
    bounds='1e-3<=a<=1<=b<=200, b>10a', encoded=E, budget=40)
add('wide-interval-negative', direct(lambda f, a, b: I.integrate_wide_interval(f, a, b), ident,
                                     lambda h: (lambda p: (-p[1], -p[0]))(widepos(h))),
    bounds='mirror image', encoded=E, budget=40)

for e in (None, 1, 2, 3, 6):
    add('pinf[%s]' % e, substituted(lambda f, a, e=e: I.integrate_fejer2_pinf(f, a, exponent=e), one(-50, 50),
                                    lambda a: (a, INF)), bounds='a in [-50,50]', encoded=['integration.integrate_fejer2_pinf', 'vartransforms.*'])
    add('minf[%s]' % e, substituted(lambda f, a, e=e: I.integrate_fejer2_minf(f, a, exponent=e), one(-50, 50),
                                    lambda a: (-INF, a)), bounds='b in [-50,50]', encoded=['integration.integrate_fejer2_minf', 'vartransforms.*'])
    add('pinf-finite[%s]' % e, substituted(lambda f, a, b, e=e: I.integrate_fejer2_pinf(f, a, b=b, exponent=e), box(-50, 50, 1e-2),
                                           lambda a, b: (a, b)), bounds='-50<=a<b<=50', encoded=['integration.integrate_fejer2_pinf'])
    add('minf-finite[%s]' % e, substituted(lambda f, a, b, e=e: I.integrate_fejer2_minf(f, b, a=a, exponent=e), box(-50, 50, 1e-2),
                                           lambda a, b: (a, b)), bounds='-50<=a<b<=50', encoded=['integration.integrate_fejer2_minf'])
add('pminf', substituted(lambda f, a: I.integrate_fejer2_pminf(f), one(0, 1), lambda a: (-INF, INF), sign_split=True),
    bounds='none', encoded=['integration.integrate_fejer2_pminf'])
add('clenshaw-pinf', substituted(lambda f, a: I.integrate_clenshaw_pinf(f, a), one(-50, 50), lambda a: (a, INF)),
    bounds='a in [-50,50]', encoded=['integration.integrate_clenshaw_pinf'])
add('clenshaw-minf', substituted(lambda f, a: I.integrate_clenshaw_minf(f, a), one(-50, 50), lambda a: (-INF, a)),
    bounds='b in [-50,50]', encoded=['integration.integrate_clenshaw_minf'])
EPS = float(np.finfo(float).eps)
for n in (None, 2, 3, 8):
    add('Xn-P[%s]' % n, substituted(lambda f, a, b, n=n: I.integrate_fejer2_Xn_transformP(f, a, b, N=n), box(-50, 50, 1e-2),
                                    lambda a, b: (a + abs(a) * EPS, b), edge='P'), bounds='-50<=a<b<=50; lower end excluded by one ulp by design',
        encoded=['integration.integrate_fejer2_Xn_transformP'])
    add('Xn-N[%s]' % n, substituted(lambda f, a, b, n=n: I.integrate_fejer2_Xn_transformN(f, a, b, N=n), box(-50, 50, 1e-2),
                                    lambda a, b: (a, b - abs(b) * EPS), edge='N'), bounds='-50<=a<b<=50; upper end excluded by one ulp by design',
        encoded=['integration.integrate_fejer2_Xn_transformN'])
add('Xn', substituted(lambda f, a, b: I.integrate_fejer2_Xn_transform(f, a, b), box(-50, 50, 1e-2), lambda a, b: (a, b)),
    bounds='-50<=a<b<=50', encoded=['integration.integrate_fejer2_Xn_transform'])
add('wide-interval-2', substituted(lambda f, a, b: I.integrate_wide_interval2(f, a, b), box(-50, 50, 1e-2), lambda a, b: (a, b)),
    bounds='-50<=a<b<=50', encoded=['integration.integrate_wide_interval2'], budget=40)
add('pminf-guess', substituted(lambda f, a, b: I.integrate_with_pminf_guess(f, a, b), box(-50, 50, 1e-2), lambda a, b: (a, b)),
    bounds='-50<=a<b<=50', encoded=['integration.integrate_with_pminf_guess'], budget=40)


def empty(h):
    f = h.fun('f')
    h.check_eq(I.integrate_fejer2_pinf(f, INF)[0], 0, 'empty-upper')
    h.check_eq(I.integrate_fejer2_minf(f, -INF)[0], 0, 'empty-lower')
    h.check_eq(I.integrate_clenshaw_pinf(f, INF)[0], 0, 'empty-upper-clenshaw')
    h.check_eq(I.integrate_clenshaw_minf(f, -INF)[0], 0, 'empty-lower-clenshaw')


HARNESSES.append(Harness('empty-region', empty, P, bounds='none', encoded=['integration.*_pinf/minf']))


# ------------------------------------------------------------------ choice of the routine
def choosers():
    """everything which picks an integration routine for a range"""
    import pacal.segments as S
    import pacal.depvars.nddistr as ND
    import pacal.depvars.copulas as K
    from pacal.standard_distr import UniformDistr
    u = UniformDistr(0, 1)
    return {'pieces': S._segint, 'joint': ND.NDConstFactor(1)._segint, 'order-statistics': ND.IJthOrderStatsNDDistr(u, 3, 1, 2)._segint, 'copula': K.PiCopula([u, UniformDistr(0, 1)])._segint}


def chosen(which):
    """the requested range is cut into parts integrated once each, the error covers them"""
    def fn(h):
        from engine.seg import region, routes
        go = choosers()[which]
        L = h.choose('low', ['number', -INF])
        U = h.choose('high', ['number', INF])
        L = h.real('L', -400, 400) if L == 'number' else L
        U = h.real('U', -400, 400) if U == 'number' else U
        kw = h.choose('flags', [{}, {'force_minf': True}, {'force_pinf': True}, {'force_poleL': True}, {'force_poleU': True}, {'force_poleL': True, 'force_poleU': True}])
        if (L == -INF and not isinstance(L, sym.Sym) or U == INF and not isinstance(U, sym.Sym)) and ('force_minf' in kw or 'force_pinf' in kw):
            h.assume(False)      # asked for on finite ranges only
            return
        f = lambda x: x
        recs = []

        def mk(name, orig):
            def q(*a, **k):
                g, lo, hi = region(name, orig, a, k)
                i = len(recs)
                v, e = h.real('I%d' % i, -5, 5), h.real('E%d' % i, 0, 1)
                recs.append((g, unwrap(lo), unwrap(hi), v, e))
                return v, e
            return q
        with stub(*[(o, mk(n, o)) for n, o in routes().items()]):
            i, e = go(f, L, U, **kw)
        inf = lambda v: not isinstance(v, sym.Sym) and math.isinf(v)
        if not inf(L) and not inf(U) and bool(L >= U):
            h.check_eq(i, 0, 'empty-range')
            return
        h.check(len(recs) > 0 and all(r[0] is f for r in recs), 'integrand')
        if not recs:
            return
        tot, err = 0, 0
        for r in recs:
            tot, err = tot + r[3], err + r[4]
        h.check_eq(i, tot, 'sum-of-parts')
        h.check_le(err, e, 'error-covers-parts')
        # the parts follow one another from L to U
        eq = lambda p, q: (p == q) if not inf(p) and not inf(q) else inf(p) and inf(q) and p == q
        parts, at = list(recs), L
        while parts:
            nx = [r for r in parts if bool(eq(r[1], at))]
            if len(nx) != 1:
                break
            parts.remove(nx[0])
            at = nx[0][2]
        h.check(not parts and bool(eq(at, U)), 'whole-range')
    return fn


for w in ('pieces', 'joint', 'order-statistics', 'copula'):
    HARNESSES.append(Harness('chosen[%s]' % w, chosen(w), P, bounds='any finite or infinite range, every hint', encoded=[{'pieces': 'segments._segint', 'joint': 'NDDistr._segint', 'order-statistics': 'IJthOrderStatsNDDistr._segint', 'copula': 'Copula._segint'}[w]]))
