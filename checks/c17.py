"""Discrete distributions and mixtures."""
import math
import numpy as np
from engine.harness import Harness, unwrap
from engine import sym
from engine.seg import Integrals, INF
from engine.ops import exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import PW, same, land, lor
from checks.c10 import Dens
from checks.c11 import sym_near
from checks.c14 import m, masses
import pacal.standard_distr as SD
import pacal.distr as D
import pacal.segments as S

P = 'C17'
META = {'assumptions': ['real arithmetic', 'distinct points of one variable differ by more than the library tolerance for equal break points']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 30)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def weights(h, d, want, x, label=''):
    """d puts the weights on the points [(point, weight)], nothing anywhere else"""
    pos = []
    for p, w in want:
        for k, (q, v) in enumerate(pos):
            if q is p or (not isinstance(p, sym.Sym) and not isinstance(q, sym.Sym) and p == q) or ((isinstance(p, sym.Sym) or isinstance(q, sym.Sym)) and bool(p == q)):
                pos[k] = (q, v + w)
                break
        else:
            pos.append((p, w))
    r = d.get_piecewise_pdf()
    masses(h, r, pos, label + 'masses')
    cs = []
    for s, t in zip(r.segments[:-1], r.segments[1:]):
        cs += [s.b <= t.a]
    h.check(land(h, cs), label + 'ordered')
    for s in r.segments:
        if s.isSegment():
            h.check(land(h, [s.a < s.b, value(s(s.a / 2 + s.b / 2)) == 0]), label + 'gaps')
    for p, w in pos:
        h.check_eq(value(d.pdf(p)), w, label + 'pdf')
    v = d.pdf(h.array([p for p, _ in pos] + [x]))
    for u, (p, w) in zip(v, pos):
        h.check_eq(unwrap(u), w, label + 'pdf-vector')
    if not any(bool(p == x) for p, _ in pos):
        h.check_eq(unwrap(v[-1]), 0, label + 'pdf-elsewhere')
        h.check_eq(value(d.pdf(x)), 0, label + 'pdf-elsewhere')
    # the distribution function
    F = r.cumint() if hasattr(r, 'cumint') else None
    return r


def user(n, dup=None):
    def fn(h):
        xs = [h.real('x%d' % i, -9, 9) for i in range(n)]
        ws = [h.real('w%d' % i, 0.05, 1) for i in range(n)]
        if dup is not None:
            xs[dup[1]] = xs[dup[0]]
        x = h.real('x', -20, 20)
        for i in range(n):
            for j in range(i):
                if xs[i] is not xs[j]:
                    if h.sym:
                        h.assume(sym.mkbool(sym.z3.Or(sym.tobool(xs[i] - xs[j] >= 1e-3), sym.tobool(xs[j] - xs[i] >= 1e-3))))
                    else:
                        h.assume(abs(xs[i] - xs[j]) >= 1e-3)
        d = SD.DiscreteDistr(list(xs), list(ws))
        with exact_pieces():
            weights(h, d, list(zip(xs, ws)), x)
    return fn


ENC = ['distr.DiscreteDistr.__init__', 'distr.DiscreteDistr.pdf', 'distr.DiscreteDistr.init_piecewise_pdf', 'segments.PiecewiseFunction.addSegment']
for n in (1, 2, 3):
    add('user[%d]' % n, user(n), bounds='%d points in any order, any weights' % n, encoded=ENC)
add('user[4]', user(4), bounds='4 points in any order, any weights', encoded=ENC, quick=False)
for n, dup in ((2, (0, 1)), (3, (0, 2)), (3, (0, 1)), (3, (1, 2))):
    add('repeated[%d,%d%d]' % (n, dup[0], dup[1]), user(n, dup), bounds='%d points, two of them equal, any weights' % n, encoded=ENC)


def one(kind):
    def fn(h):
        c = h.real('c', -20, 20)
        x = h.real('x', -30, 30)
        p = h.real('p', 0.1, 1)
        d, want = {'const': lambda: (SD.ConstDistr(c), [(c, 1)]), 'weighted': lambda: (SD.ConstDistr(c, p=p), [(c, p)]), 'zero': lambda: (SD.ZeroDistr(), [(0.0, 1)]), 'one': lambda: (SD.OneDistr(), [(1.0, 1)]),
                   'bernoulli': lambda: (SD.BernoulliDistr(p), [(0, 1 - p), (1, p)])}[kind]()
        with exact_pieces():
            weights(h, d, want, x)
    return fn


for k in ('const', 'weighted', 'zero', 'one', 'bernoulli'):
    add('one[%s]' % k, one(k), bounds='any point, any weight', encoded=ENC + ['distr.ConstDistr.__init__', 'standard_distr.BernoulliDistr.__init__'])


def binomial(n):
    def fn(h):
        p = h.real('p', 0, 1)
        x = h.real('x', -2, n + 2)
        d = SD.BinomialDistr(n, p)
        with exact_pieces():
            r = d.get_piecewise_pdf()
            for k in range(n + 1):
                w = math.comb(n, k)
                for _ in range(k):
                    w = w * p
                for _ in range(n - k):
                    w = w * (1 - p)
                h.check_eq(value(d.pdf(float(k))), w, 'pdf')
                s = r.getDirac(k)
                h.check(s is not None, 'mass')
                h.check_eq(s.f, w, 'mass')
            h.check(len(r.getDiracs()) == n + 1, 'count')
            if not any(bool(x == k) for k in range(n + 1)):
                h.check_eq(value(d.pdf(x)), 0, 'pdf-elsewhere')
                h.check_eq(value(r(x)), 0, 'elsewhere')
    return fn


for n in (1, 2, 3, 5, 8):
    add('binomial[%d]' % n, binomial(n), bounds='%d trials, any probability from 0 to 1' % n, encoded=['standard_distr.BinomialDistr.__init__'] + ENC)


def poisson(lo, hi, N, eps):
    def fn(h):
        lam = h.real('lmbda', lo, hi)
        e = m('exp', -lam)
        terms = [1]
        for k in range(1, N + 1):
            terms.append(terms[-1] * lam / k)
        # Taylor's formula: the first N+1 terms make more than 1-eps in total
        if h.sym:
            h.assume(e * sum(terms) > 1 - eps)
            h.assume(e * sum(terms) < 1)
        d = SD.PoissonDistr(lam, trunk_eps=eps)
        n = len(d.xi)
        h.check(n <= N + 1, 'truncation')
        h.check(land(h, [d.xi[k] == k for k in range(n)]), 'points')
        for k in range(n):
            h.check_eq(d.pi[k], e * terms[k] if k <= N else 0, 'weight')
        h.check(1 - sum(d.pi) < eps, 'truncation')
        if n > 1:
            h.check(1 - sum(d.pi[:-1]) >= eps - 1e-12, 'no-more-than-needed')
        with exact_pieces():
            r = d.get_piecewise_pdf()
            h.check(len(r.getDiracs()) == n, 'count')
            for k in range(n):
                h.check_eq(r.getDirac(k).f, d.pi[k], 'mass')
    return fn


for lo, hi, N, eps in ((0.05, 1, 8, 1e-5), (1, 3, 10, 1e-3), (3, 8, 20, 1e-2)):
    add('poisson[%g-%g]' % (lo, hi), poisson(lo, hi, N, eps), bounds='rate from %g to %g, truncation %g' % (lo, hi, eps), encoded=['standard_distr.PoissonDistr.__init__'] + ENC, quick=hi < 8)


def truncated(n):
    def fn(h):
        eps = h.real('eps', 1e-6, 0.2)
        ps = [h.real('p%d' % k, 0.01, 1) for k in range(n)]
        tail = h.real('tail', 0, 1)
        h.assume(sum(ps) + tail == 1)
        h.assume(tail < eps)
        for k in range(n):
            # decided by more than rounding
            rest = 1 - sum(ps[:k + 1])
            if h.sym:
                h.assume(sym.mkbool(sym.z3.Or(sym.tobool(rest - eps >= 1e-9), sym.tobool(eps - rest >= 1e-9))))
            else:
                h.assume(abs(rest - eps) >= 1e-9)
        calls = []

        def fun(k):
            calls.append(k)
            return ps[int(k)] if k < n else tail
        d = SD.TruncDiscreteFunDistr(fun, trunk_eps=eps)
        got = len(d.xi)
        h.check(got <= n and d.xi == [float(k) for k in range(got)], 'points')
        tot = sum(ps[:got])
        for k in range(got):
            h.check_eq(d.pi[k] * tot, ps[k], 'weight')
        h.check(1 - tot < eps, 'truncation')
        if got > 1:
            h.check(1 - sum(ps[:got - 1]) >= eps, 'no-more-than-needed')
        h.check_eq(sum(d.pi), 1, 'total')
    return fn


for n in (1, 2, 4):
    add('truncated[%d]' % n, truncated(n), bounds='any sequence exhausting its mass in %d steps, any truncation' % n, encoded=['standard_distr.TruncDiscreteFunDistr.__init__'] + ENC)


def mixture(specs, pts, cls='MixDistr'):
    def fn(h):
        n = len(specs)
        fs = [PW(h, 'fgk'[i], s, cls=S.PiecewiseDistribution, pts=p) for i, (s, p) in enumerate(zip(specs, pts))]
        ps = [h.real('p%d' % i, 0.05, 0.9) for i in range(n - 1)]
        if n > 1:
            h.assume(sum(ps) <= 0.95)
        ps = ps + [1 - sum(ps)] if n > 1 else [1.0]
        x = h.real('x', -20, 20)
        with exact_pieces():
            ds = [Dens(f.pf) for f in fs]
            for d, f in zip(ds, fs):
                d.range = f.ends_range
            mix = SD.MixDistr(list(ps), ds) if cls == 'MixDistr' else SD.ExtremeMixDistr(list(ps), ds, [])
            r = mix.get_piecewise_pdf()
            away(h, x, [e for f in fs for e in f.points()])
            masses(h, r, [(p, w * mm) for w, f in zip(ps, fs) for p, mm in f.masses])
            want = sum(w * f.at(x) for w, f in zip(ps, fs))
            h.check_eq(value(r(x)), want, 'density')
            v = r(h.array([x, x]))
            h.check_eq(unwrap(v[1]), want, 'density-vector')
            if cls == 'MixDistr':
                a, b = mix.range()
                es = [f.ends_range() for f in fs]
                lo, hi = min(float(e[0]) for e in es), max(float(e[1]) for e in es)
                h.check(land(h, [same(a, lo), same(b, hi)]), 'range')
        for f in fs:
            f.unchanged()
    return fn


MIX = [(('S',), ((0, 2),)), (('S', 'S'), ((0, 2), (1, 3))), (('S', 'S'), ((0, 2), (5, 6))), (('M P', 'S'), ((0,), (-1, 1))), (('S d', 'd S'), ((0, 2), (2, 4))), (('d', 'S'), ((1,), (0, 2))), (('d _ d', 'd'), ((0, 3), (3,))),
       (('L', 'S'), ((0, 2), (-1, 1))), (('S', 'M', 'P'), ((0, 2), (1,), (1,))), (('S', 'd', 'S'), ((0, 2), (0,), (1, 4))), (('S S', 'S _ S'), ((0, 1, 3), (-2, 0.5, 2, 4)))]
for specs, pts in MIX:
    for cls in ('MixDistr', 'ExtremeMixDistr'):
        add('%s[%s]' % (cls, '|'.join('%s@%s' % (s, ','.join(map(str, p))) for s, p in zip(specs, pts))), mixture(specs, pts, cls), bounds='any component densities, masses, probabilities and point', quick=cls == 'MixDistr' or len(specs) == 2,
            encoded=['standard_distr.%s.init_piecewise_pdf' % cls, 'segments.PiecewiseFunction.__add__', 'segments.PiecewiseFunction.__rmul__'])
