"""Arithmetic of discrete variables, alone and with a continuous operand."""
import operator
import numpy as np
from engine.harness import Harness, unwrap
from engine import sym
from engine.seg import Integrals, INF
from engine.ops import exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import same, land, lor
from checks.c11 import sym_near
import pacal.standard_distr as SD
import pacal.distr as D
import pacal.indeparith as A
import pacal.segments as S

P = 'C18'
META = {'assumptions': ['real arithmetic', 'two values of a result either agree or differ by at least 1e-3',
                        'divisors have no mass within 1/50 of zero']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 30)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


def atleast(h, p, eps):
    """p is at least eps away from zero"""
    if h.sym and isinstance(p, sym.Sym):
        h.assume(sym.mkbool(sym.z3.Or(sym.tobool(p >= eps), sym.tobool(p <= -eps))))
    else:
        h.assume(abs(p) >= float(eps))


def number(v):
    """a fixed point: exact as a ratio in symbolic runs"""
    return v


RNG = {'+': (1.05, 9), '-': (-9, -1.05), 'u': (0.02, 0.95), 'n': (-0.95, -0.02)}


def points(h, tag, spec, lo=-9, hi=9, sort=True):
    """spec: list of numbers (as float or 'p/q') or None for any value"""
    out = []
    for i, s in enumerate(spec):
        if isinstance(s, str) and s in RNG:
            out.append(h.real('%s%d' % (tag, i), *RNG[s]))
        elif s is None:
            out.append(h.real('%s%d' % (tag, i), lo, hi))
        elif isinstance(s, str):
            out.append(h.q(*map(int, s.split('/'))))
        else:
            out.append(float(s))
    for i in range(len(out)):
        for j in range(i):
            if sort and spec[i] == spec[j]:
                h.assume(out[i] - out[j] >= h.q(1, 1000))
            elif isinstance(out[i], sym.Sym) or isinstance(out[j], sym.Sym):
                atleast(h, out[i] - out[j], h.q(1, 1000))
            else:
                assert h.sym is False or out[i] != out[j]
                h.assume(abs(out[i] - out[j]) >= 1e-3)
    return out


def wts(h, tag, n):
    return [h.real('%s%d' % (tag, i), 0.05, 1) for i in range(n)]


def smaller(a, b):
    return a if bool(a <= b) else b


def larger(a, b):
    return b if bool(a <= b) else a


OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'min': smaller, 'max': larger}
DOPS = dict(OPS, min=lambda a, b: D.min(a, b), max=lambda a, b: D.max(a, b))


def settle(h, vals):
    """values agree or are clearly apart; forks on which, returns the classes"""
    gap = h.q(1, 1000)
    out = []
    for k, v in enumerate(vals):
        if isinf(v):
            continue
        for cl in out:
            d = v - cl[0][1]
            if not isinstance(d, sym.Sym):
                # fixed points: ties within rounding are ties
                if abs(d) < 1e-9:
                    cl.append((k, v))
                    break
                h.assume(abs(d) >= 1e-3)
                continue
            if not h.sym:
                if abs(d) < 1e-9:
                    cl.append((k, v))
                    break
                h.assume(abs(d) >= 1e-3)
                continue
            if bool(d == 0):
                cl.append((k, v))
                break
            atleast(h, d, gap)
        else:
            out.append([(k, v)])
    return out


def plain(h, G, v, want, label, lam):
    """v is want, integrals of constant functions worked out"""
    v = value(v)
    if not h.sym:
        h.check_eq(v, want, label)
        return
    cs, rest = G.coefficients(v)
    for r, c in zip(G.recs, cs):
        if isinstance(c, sym.Sym) and c.const() == 0:
            continue
        L, U = r.L, r.U
        assert not isinf(L) and not isinf(U)
        g, f, f2 = [value(r.f(h.array([L * (1 - k) + U * k]))) for k in (h.q(1, 3), h.q(1, 100), h.q(99, 100))]
        h.check(land(h, [f == g, f2 == g]), label + '-constant-integrand')
        rest = rest + c * g * (U - L)
    h.check_eq(rest, want, label)


def weighted(h, G, r, want, lam, label='masses'):
    ds = list(r.getDiracs())
    seen = []
    for p, w in want:
        d = [s for s in ds if sym_near(h, s.a, p)]
        h.check(len(d) == 1, label + '-position')
        if len(d) == 1:
            seen.append(d[0])
            plain(h, G, d[0].f, w, label + '-weight', lam)
    for d in ds:
        if not any(d is s for s in seen):
            plain(h, G, d.f, 0, label + '-spurious', lam)


def total(h, d, want, x, away_from=()):
    """d puts exactly the weights of want=[(value, weight)] and nothing else"""
    cls = settle(h, [p for p, _ in want])
    ordered(h, [cl[0][1] for cl in cls])
    with exact_pieces():
        tot = [(cl[0][1], sum(want[k][1] for k, _ in cl)) for cl in cls]
        with Integrals(h) as G:
            r = d.get_piecewise_pdf()
            weighted(h, G, r, tot, x)
        h.check(land(h, [s.a <= s.b for s in r.segments] + [s.b <= t.a for s, t in zip(r.segments[:-1], r.segments[1:])]), 'ordered')
        for s in r.segments:
            if s.isSegment():
                with Integrals(h) as G:
                    plain(h, G, s(s.a * x + s.b * (1 - x)), 0, 'between', x)
    return r


def pair(op, s1, s2):
    def fn(h):
        xs, ws = points(h, 'x', s1), wts(h, 'v', len(s1))
        ys, us = points(h, 'y', s2), wts(h, 'u', len(s2))
        x = h.real('x', 0.01, 0.99)
        if op == 'div':
            for y in ys:
                atleast(h, y, h.q(1, 50))
        a, b = SD.DiscreteDistr(list(xs), list(ws)), SD.DiscreteDistr(list(ys), list(us))
        want = [(OPS[op](p, q), v * u) for p, v in zip(xs, ws) for q, u in zip(ys, us)]
        f, g = a.get_piecewise_pdf(), b.get_piecewise_pdf()
        snap = [[(d.a, d.f) for d in k.getDiracs()] for k in (f, g)]
        if op in ('min', 'max'):
            ordered(h, [cl[0][1] for cl in settle(h, xs + ys)])
        d = DOPS[op](a, b)
        total(h, d, want, x)
        for k, old in zip((f, g), snap):
            h.check(land(h, [len(old) == len(k.getDiracs())] + [same(d.a, p) for d, (p, _) in zip(k.getDiracs(), old)]), 'operands-unchanged')
            for d, (_, w) in zip(k.getDiracs(), old):
                h.check_eq(d.f, w, 'operands-unchanged')
    return fn


ENC = ['indeparith.convdiracs', 'segments.PiecewiseFunction.addSegment']
FN = {'add': 'conv', 'sub': 'conv', 'mul': 'convprod', 'div': 'convdiv', 'min': 'convmin', 'max': 'convmax'}
SETS = [((None,), (None,)), ((None, None), (None,)), ((None,), (None, None)), ((None, None), (None, None)),
        ((-1, 0, 1), (-1, 0, 1)), ((1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5, 6)), ((0, 1, 2), (None,)), ((None,), (-1, 2, 3)), ((-2, None), (1, 2)), ((0, None), (None, 2)), ((-2, -1, 3), (-1, -3))]
MSETS = [(('+',), ('+',)), (('-',), ('+',)), (('u',), ('-',)), (('-',), ('n',)), (('+', '+'), ('+',)), (('-', '+'), ('u',)), (('u',), ('-', '+')), (('n', '+'), ('-', '+')), ((0, '+'), ('+',)), (('+',), (0, '-')), ((0, 'u'), (0, '+')), (('+', '+'), (1, 2)),
         (('-', 0, '+'), (-1, 1)), ((-1, 0, 1), (-1, 0, 1)), ((1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5, 6)), ((-2, -1, 3), (-1, -3)), ((None,), (None,)), ((None,), (-1, 2, 3)), (('+', '+'), ('+', '+'))]
MUNQ = [(('+', '+'), ('+', '+')), (('n', '+'), ('-', '+'))]
for op in OPS:
    for s1, s2 in (MSETS if op in ('mul', 'div') else SETS):
        if op == 'div' and 0 in s2:
            s2 = tuple(v or (2 if 2 not in s2 else 3) for v in s2)
        if op == 'div' and len(set(s2)) < len(s2) and None not in s2:
            continue
        nm = lambda s: ','.join('?' if v is None else str(v) for v in s)
        add('%s[%s|%s]' % (op, nm(s1), nm(s2)), pair(op, s1, s2), quick=(s1, s2) not in MUNQ and not (op == 'div' and s1 == ('-', 0, '+')), bounds='all %d-point and %d-point operands, ? any, any weights' % (len(s1), len(s2)), encoded=ENC + ['indeparith.%s' % FN[op]])
    add('%s[3x2]' % op, pair(op, (None, None, None), (None, None)), bounds='all 3-point and 2-point operands', encoded=ENC, quick=False)
    add('%s[3x3]' % op, pair(op, (None, 0, None), (1, None, 2) if op == 'div' else (0, None, 1)), bounds='3-point operands, some fixed', encoded=ENC, quick=False)


def const(op, side, n):
    def fn(h):
        xs, ws = points(h, 'x', (None,) * n), wts(h, 'v', n)
        c = h.real('c', -9, 9)
        x = h.real('x', 0.01, 0.99)
        if op in ('mul', 'div', 'pow'):
            atleast(h, c, h.q(1, 50))
        if op == 'div' and side == 'r':
            for p in xs:
                atleast(h, p, h.q(1, 50))
        d = SD.DiscreteDistr(list(xs), list(ws))
        f = OPS[op]
        want = [(f(c, p) if side == 'r' else f(p, c), v) for p, v in zip(xs, ws)]
        if op in ('min', 'max'):
            ordered(h, [cl[0][1] for cl in settle(h, xs + [c])])
        with exact_pieces():
            r = DOPS[op](c, d) if side == 'r' else DOPS[op](d, c)
            total(h, r, want, x)
    return fn


for op in OPS:
    for side in 'lr':
        for n in (1, 2, 3):
            add('const[%s,%s,%d]' % (op, side, n), const(op, side, n), bounds='any %d points, any constant' % n, encoded=['distr.Distr operators'], quick=n == 2)


def unary(name, n):
    def fn(h):
        xs, ws = points(h, 'x', (None,) * n), wts(h, 'v', n)
        x = h.real('x', 0.01, 0.99)
        f = {'neg': lambda v: -v, 'abs': lambda v: -v if bool(v < 0) else v, 'inv': lambda v: 1 / v, 'square': lambda v: v * v, 'sign': lambda v: 1.0 if bool(v > 0) else (-1.0 if bool(v < 0) else 0.0)}[name]
        if name == 'inv':
            for p in xs:
                atleast(h, p, h.q(1, 50))
        if name in ('sign', 'abs', 'square'):
            for p in xs:
                if not bool(p == 0):
                    atleast(h, p, h.q(1, 50))
        if name == 'sign':
            ws[-1] = 1 - sum(ws[:-1]) if n > 1 else 1.0
            h.assume(ws[-1] >= 0.01)
        d = SD.DiscreteDistr(list(xs), list(ws))
        g = {'neg': lambda d: -d, 'abs': abs, 'inv': lambda d: 1 / d, 'square': lambda d: d ** 2, 'sign': D.sign}[name]
        want = [(f(p), v) for p, v in zip(xs, ws)]
        with exact_pieces():
            total(h, g(d), want, x)
    return fn


for name in ('neg', 'abs', 'inv', 'square', 'sign'):
    for n in (1, 2, 3):
        add('%s[%d]' % (name, n), unary(name, n), bounds='any %d points' % n, encoded=['distr.Distr operators'], quick=n == 2)


def mixed(op, s1, swap, ab=None):
    """discrete with n points against a uniform variable on (a, b)"""
    def fn(h):
        xs, ws = points(h, 'x', s1), wts(h, 'v', len(s1))
        if ab is None:
            a = h.real('a', -9, 9)
            b = h.real('b', -9, 9)
            h.assume(b - a >= h.q(1, 50))
        else:
            a, b = [h.real('ab'[i], *RNG[v]) if v in RNG else float(v) for i, v in enumerate(ab)]
            h.assume(b - a >= h.q(1, 50))
        x = h.real('x', -100, 100)
        lam = h.real('lam', 0.01, 0.99)
        if (op == 'div' and not swap and ab is None) or (op == 'mul' and ab is None):
            h.assume(lor(h, [a >= h.q(1, 50), b <= -h.q(1, 50)]))
        if op == 'div' and swap:
            for p in xs:
                atleast(h, p, h.q(1, 50))
        if op == 'mul':
            for p in xs:
                if not bool(p == 0):
                    atleast(h, p, h.q(1, 50))
        if op == 'div' and not swap:
            for p in xs:
                atleast(h, p, h.q(1, 50))
        d, u = SD.DiscreteDistr(list(xs), list(ws)), SD.UniformDistr(a, b)
        den = 1 / (b - a)
        inside = lambda t, f=1: den if bool(a < t) and bool(t < b) else 0
        tot = sum(ws)
        want, ms, br, todo = 0, [], [], []
        cdf = lambda t: 0 if bool(t <= a) else (1 if bool(t >= b) else (t - a) * den)
        if op in ('min', 'max'):
            pts = ordered(h, [cl[0][1] for cl in settle(h, xs + [a, b])])
            locate(h, x, pts, h.q(1, 1000))
            up = sum(w for p, w in zip(xs, ws) if (bool(p > x) if op == 'min' else bool(p < x)))
            want = inside(x) * up
            ms = [(p, w * ((1 - cdf(p)) if op == 'min' else cdf(p))) for p, w in zip(xs, ws)]
            ms = [(p, w) for p, w in ms if isinstance(w, sym.Sym) or w != 0]
        else:
            away(h, x, [0], h.q(1, 1000))
            for p, w in zip(xs, ws):
                if op == 'add':
                    t, jac = x - p, 1
                    br += [a + p, b + p]
                elif op == 'sub':
                    t, jac = (x + p, 1) if swap else (p - x, 1)
                    br += [a - p, b - p] if swap else [p - a, p - b]
                elif op == 'mul':
                    if bool(p == 0):
                        ms.append((0.0, w))
                        continue
                    t, jac = x / p, 1 / p
                    br += [a * p, b * p]
                elif swap:
                    t, jac = x * p, p
                    br += [a / p, b / p]
                else:
                    t, jac = p / x, p / (x * x)
                    br += [p / e for e in (a, b) if isinstance(e, sym.Sym) or e != 0]
                jac = -jac if bool(jac < 0) else jac
                todo.append((w, t, jac))
            br = ordered(h, [cl[0][1] for cl in settle(h, br)])
            locate(h, x, br, h.q(1, 1000))
            want = sum([w * inside(t) * jac for w, t, jac in todo], 0)
        with exact_pieces():
            with Integrals(h) as G:
                G.positive = op == 'mul' and 0 in s1
                r = (DOPS[op](u, d) if swap else DOPS[op](d, u)).get_piecewise_pdf()
                weighted(h, G, r, ms, lam)
                plain(h, G, r(x), want, 'density', lam)
            h.check(land(h, [s.a <= s.b for s in r.segments] + [s.b <= t.a for s, t in zip(r.segments[:-1], r.segments[1:])]), 'ordered')
    return fn


MIXED = {False: (((None,), None, True), ((None, None), (1, 3), True), ((None, None), None, False), ((0, None), (-1, 2), True), ((-1, 2), None, True)),
         True: ((('+',), (2, 3), True), (('-',), ('u', '+'), True), (('u', 3), (2, 3), True), (('u', '+'), (2, 3), False), ((0, '+'), (-2, 3), False), ((0, 2), (-2, 3), True), ((0, '+'), (2, 3), True), (('-', 0, 2), (1.25, 2), True), (('-', 0, '+'), (1.25, 2), False), ((-1, 2), ('+', '+'), False), ((-1, 2), ('+', 12), True), (('n',), ('-', '+'), True), ((None,), None, False), ((None, None), (1, 3), False))}
for op in OPS:
    for swap in (False, True):
        for s1, ab, q in MIXED[op in ('mul', 'div')]:
            if op == 'div' and (0 in s1 or not swap and (ab == (-2, 3) or ab == ('-', '+'))):
                continue
            nm = ','.join('?' if v is None else str(v) for v in s1)
            add('mixed[%s,%s,%s%s]' % (op, nm, 'U?' if ab is None else 'U(%s,%s)' % ab, ',swapped' if swap else ''), mixed(op, s1, swap, ab), bounds='any weights, ? any value, uniform continuous operand', quick=q and not (op == 'div' and s1 == (-1, 2) and not swap),
                encoded=['indeparith.%s' % FN[op], 'segments.PiecewiseFunction.getBreaksExtended'])


def both_mixed(op, p, q, ab, cd):
    """masses of the result of two mixed operands: a point mass and a uniform part each"""
    def fn(h):
        w, u = h.real('w', 0.05, 0.95), h.real('u', 0.05, 0.95)
        lam = h.real('lam', 0.01, 0.99)
        f = SD.MixDistr([w, 1 - w], [SD.DiscreteDistr([float(p)], [1.0]), SD.UniformDistr(*map(float, ab))])
        g = SD.MixDistr([u, 1 - u], [SD.DiscreteDistr([float(q)], [1.0]), SD.UniformDistr(*map(float, cd))])

        def above(t, e):
            """P(U > t) for a uniform variable"""
            return min(1.0, max(0.0, (e[1] - t) / (e[1] - e[0])))
        if op == 'mul' and (p == 0 or q == 0):
            z = (w if p == 0 else 0) + (u if q == 0 else 0) - (w * u if p == 0 and q == 0 else 0)
            ms = [(0.0, z)]
        elif op == 'div' and p == 0:
            ms = [(0.0, w)]
        elif op == 'max':
            ms = [(p, w * (u * (1 if q < p else 0) + (1 - u) * (1 - above(p, cd)))), (q, u * (w * (1 if p < q else 0) + (1 - w) * (1 - above(q, ab))))]
            ms = [(p, ms[0][1] + ms[1][1] + w * u)] if p == q else ms
        elif op == 'min':
            ms = [(p, w * (u * (1 if q > p else 0) + (1 - u) * above(p, cd))), (q, u * (w * (1 if p > q else 0) + (1 - w) * above(q, ab)))]
            ms = [(p, ms[0][1] + ms[1][1] + w * u)] if p == q else ms
        else:
            ms = [(OPS[op](p, q), w * u)]
        ms = [(float(a), b) for a, b in ms if isinstance(b, sym.Sym) or b != 0]
        with exact_pieces():
            with Integrals(h) as G:
                G.positive = True
                r = DOPS[op](f, g).get_piecewise_pdf()
                weighted(h, G, r, ms, lam)
            h.check(land(h, [s.a <= s.b for s in r.segments] + [s.b <= t.a for s, t in zip(r.segments[:-1], r.segments[1:])]), 'ordered')
    return fn


for p_, q_, ab_, cd_ in ((0, 0, (1, 2), (1, 2)), (0, 0, (-2, 1), (3, 4)), (0, 3, (1, 2), (-1, 2)), (2, 0, (-3, -1), (-1, 1)), (1, -2, (-4, -3), (2, 3)), (2, 2, (0, 3), (1, 4)), (-1, 3, (1, 2), (1, 2))):
    for op in OPS:
        if op == 'div' and (q_ == 0 or cd_[0] < 0 < cd_[1]):
            continue
        add('both-mixed[%s,%g+U%s,%g+U%s]' % (op, p_, ab_, q_, cd_), both_mixed(op, p_, q_, ab_, cd_), bounds='a mass and a uniform part in each operand, any weights', encoded=['indeparith.%s' % FN[op], 'indeparith._probDirac0InProd'])
