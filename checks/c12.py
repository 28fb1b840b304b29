"""Product and quotient of independent variables against the exact integrals."""
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import Integrals, INF
from engine.ops import Probe, exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import PW, masses, land, lor, same
from checks.c10 import Dens
from checks.c11 import Op2, sym_near
import pacal.segments as S
import pacal.indeparith as A
import pacal.distr as D

P = 'C12'
META = {'assumptions': ['integration routines return the integral over the range they are given (C02)',
                        'pieces of the result keep the computed function (interpolation of it: C06, C07)',
                        'the point of evaluation is at least 1e-5 away from zero and from products or quotients of operand breaks; breaks are zero or at least 1/50 away from zero']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 30)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


# where an operand starts, and where it must end
PLACE = {'pos': ((1.01, 20), None), 'unit': ((0.02, 0.99), 1), 'zero': (0.0, None), 'neg': ((-60, -1.01), -1.01), 'tozero': ((-0.99, -0.02), 0), 'across': ((-0.99, -0.02), None), 'wide': ((-20, -1.01), None),
         'any': ((0.02, 20), None), 'anyneg': ((-60, -0.02), -0.02)}


FIX = {'far': [40, 75, 90, 120], 'farneg': [-300, -45, -30, '-1/8'], 'tiny': ['1/200', '1/50', '1/20', '1/9'], 'huge': [-700, 350, 800, 900], 'pos': ['3/2', '7/2', '11/2', '8'], 'unit': ['1/4', '3/4', '7/8', '15/16'], 'zero': [0, '5/2', '7/2', '9/2'], 'zunit': [0, '3/4', '7/8', '15/16'], 'neg': [-5, -3, '-5/4', '-9/8'], 'tozero': ['-3/4', 0, '7/4', 2],
       'across': ['-1/2', '3/4', '5/2', 4], 'wide': ['-5/2', '7/2', 4, 5], 'cross0': ['-3/2', 0, '5/4', 3], 'nunit': ['-3/4', '-1/4', '-1/8', '-1/16'], 'one': [-1, 1, 2, 3]}


def operand(h, tag, spec, place):
    """place: name of a position; with * symbolic there, otherwise fixed breaks"""
    if not place.endswith('*'):
        return Op2(h, tag, spec, pts=[h.q(*map(int, v.split('/'))) if isinstance(v, str) else v for v in FIX[place]])
    place = place[:-1]
    at, end = PLACE[place]
    w = Op2(h, tag, spec, at=at)
    pts = w.points()
    last = pts[0]
    for p in pts[1:]:
        last = p if bool(p >= last) else last
    if end is not None and end != 0:
        h.assume(last <= end)
    lo = h.q(1, 50)
    for p in pts:
        if not isinstance(p, sym.Sym) and p == 0:
            continue
        if h.sym:
            h.assume(sym.mkbool(sym.z3.Or(sym.tobool(p >= lo), sym.tobool(p <= -lo))))
        else:
            h.assume(abs(p) >= float(lo))
    if place in ('across', 'wide') and len(pts) > 1:
        h.assume(last >= lo)
    if end == 0:
        h.assume(last <= -lo)
    return w


def is0(p):
    return not isinstance(p, sym.Sym) and p == 0


def finite(w):
    return [e for e in w.ends() if not isinf(e)]


def straddles(w, c):
    return any((isinf(a) or bool(a < c)) and (isinf(b) or bool(c < b)) for _, a, b, _f in w.pieces)


def discrete(h, r, want, zero, G, label):
    """masses of r: want = [(pos, weight)] away from zero (positions may coincide);
    zero = (constant, integrand, points) at zero or None"""
    ds = [d for d in r.getDiracs() if not (not isinstance(d.f, sym.Sym) and d.f == 0)]
    pos = []
    for p, m in want:
        for k, (q, n) in enumerate(pos):
            if sym_near(h, p, q):
                pos[k] = (q, n + m)
                break
        else:
            pos.append((p, m))
    h.check(len(ds) == len(pos) + (zero is not None), label + '-count')
    for p, m in pos:
        w = [d for d in ds if sym_near(h, d.a, p)]
        h.check(len(w) == 1, label + '-position')
        if len(w) == 1:
            h.check_eq(w[0].f, m, label + '-weight')
    if zero is not None:
        w = [d for d in ds if sym_near(h, d.a, 0)]
        h.check(len(w) == 1, label + '-position')
        if len(w) == 1:
            G.check(w[0].f, zero[1], label + '-at-zero', const=zero[0], pts=zero[2])


def prod(s1, p1, s2, p2, via='op'):
    def fn(h):
        f, g = operand(h, 'f', s1, p1), operand(h, 'g', s2, p2)
        x = h.real('x', -10 ** 6, 10 ** 6)
        cuts = lambda w: finite(w) + [c for c in (-1, 0, 1) if straddles(w, c)]
        prods = ordered(h, [p * q for p in cuts(f) for q in cuts(g)] + [0])
        locate(h, x, prods)
        with exact_pieces(), Integrals(h) as G:
            G.positive = True
            if via == 'conv':
                r = A.convprod(f.pf, g.pf)
            else:
                r = D.MulDistr(Dens(f.pf), Dens(g.pf)).get_piecewise_pdf()
            G.positive = False
            away(h, x, list(r.getBreaks()))
            fz = [m for p, m in f.masses if is0(p)]
            gz = [m for p, m in g.masses if is0(p)]
            zero = None
            fm, gm = sum(m for _, m in f.masses), sum(m for _, m in g.masses)
            f0, g0 = sum(fz), sum(gz)
            if fz or gz:
                zero = (f0 * gm + g0 * fm - f0 * g0, lambda t: f0 * g.at(t) + g0 * f.at(t), [-INF, INF] + f.ends() + g.ends())
            discrete(h, r, [(p * q, m * n) for p, m in f.masses for q, n in g.masses if not is0(p) and not is0(q)], zero, G, 'masses')
            const = 0
            for p, m in f.masses:
                const = const + m * g.at(x / p) / abs(p) if not is0(p) else const
            for q, m in g.masses:
                const = const + m * f.at(x / q) / abs(q) if not is0(q) else const
            pts = [-INF, INF, 0] + f.ends() + [x / e for e in g.ends() if not isinf(e) and not is0(e)]
            del G.recs[:]
            v = value(r(x))
            del f.log[:]
            G.check(v, lambda t: f.at(t) * g.at(x / t) / abs(t), 'density', const=const, pts=pts,
                    inverses=lambda t: [(t, 1), (x / t, abs(x) / (t * t))], args=lambda: f.log, ctol=1e-4)
        for o in (f, g):
            o.unchanged()
    return fn


def quot(s1, p1, s2, p2, via='op', array=False):
    def fn(h):
        f, g = operand(h, 'f', s1, p1), operand(h, 'g', s2, p2)
        x = h.real('x', -10 ** 6, 10 ** 6)
        cuts = lambda w: finite(w) + ([0] if straddles(w, 0) else [])
        qs = ordered(h, [p / q for p in cuts(f) for q in cuts(g) if not is0(q)] + [0, 1, -1])
        locate(h, x, qs)
        with exact_pieces(), Integrals(h) as G:
            G.positive = True
            if via == 'conv':
                r = A.convdiv(f.pf, g.pf)
            else:
                r = D.DivDistr(Dens(f.pf), Dens(g.pf)).get_piecewise_pdf()
            G.positive = False
            away(h, x, list(r.getBreaks()))
            zero = None
            fz = [m for p, m in f.masses if is0(p)]
            if fz:
                zero = (fz[0] * sum(m for _, m in g.masses), lambda t: fz[0] * g.at(t), [-INF, INF] + g.ends())
            discrete(h, r, [(p / q, m * n) for p, m in f.masses for q, n in g.masses if not is0(p)], zero, G, 'masses')
            const = 0
            for p, m in f.masses:
                const = const + m * g.at(p / x) * abs(p) / (x * x) if not is0(p) else const
            for q, m in g.masses:
                const = const + m * f.at(x * q) * abs(q)
            pts = [-INF, INF, 0] + f.ends() + [x * e for e in g.ends() if not isinf(e)]
            del G.recs[:]
            v = value(r(x)) if not array else unwrap(r(h.array([x]))[0])
            del f.log[:]
            # integral over the numerator u: f(u) g(u/x) |u| / x^2
            G.check(v, lambda u: f.at(u) * g.at(u / x) * abs(u) / (x * x), 'density', const=const, pts=pts,
                    inverses=lambda t: [(t, 1), (t / x, 1 / abs(x))], args=lambda: f.log, ctol=1e-4)
        for o in (f, g):
            o.unchanged()
    return fn


def by_zero(s1, p1, s2, p2):
    """no density is produced when the divisor is zero with positive probability"""
    def fn(h):
        f, g = operand(h, 'f', s1, p1), operand(h, 'g', s2, p2)
        with exact_pieces(), Integrals(h):
            try:
                D.DivDistr(Dens(f.pf), Dens(g.pf)).get_piecewise_pdf()
            except Exception as e:
                if type(e).__module__.startswith('engine'):
                    raise
                h.check(True, 'refused')
                return
            h.check(False, 'refused')
    return fn


def masses_at(spec, place):
    """positions of the point masses of a spec with fixed breaks"""
    ps = list(FIX[place])
    at = ps.pop(0)
    out = []
    for t in spec.split():
        if t == 'd':
            out.append(at)
        elif t not in 'MP':
            at = ps.pop(0)
    return out


ENC = {'mul': ['indeparith.convprod', 'indeparith.Convxrunner.convprod_at_point', 'indeparith._findSegList', 'indeparith._segint', 'indeparith.convdiracs', 'indeparith._probDiracAtZeroInProd', 'distr.MulDistr'],
       'div': ['indeparith.convdiv', 'indeparith.Convxrunner.fun_div', 'indeparith.Convxrunner.convdiv_at_point', 'indeparith.Convxrunner.convdiv2_at_point', 'indeparith._findSegListDiv', 'indeparith._segint', 'indeparith.convdiracs', 'distr.DivDistr']}
FX = ['pos', 'unit', 'zero', 'neg', 'nunit', 'tozero', 'across', 'wide', 'cross0', 'one', 'zunit']
QK = ['pos', 'zero', 'neg', 'nunit', 'tozero', 'across']
SLOW = {('P@neg', 'P@neg'), ('S _ S@neg', 'S S@cross0'), ('S _ S@wide', 'S _ S@unit'), ('S d S@tozero', 'S@wide')}
for a in FX:
    for b in FX:
        for nm, fn in (('mul', prod), ('div', quot)):
            add('%s[S@%s|S@%s]' % (nm, a, b), fn('S', a, 'S', b), bounds='one piece each, fixed breaks (%s, %s), any densities and point' % (a, b), encoded=ENC[nm],
                quick=(a in QK and b in QK) or (nm == 'mul' and (a, b) in (('wide', 'unit'), ('unit', 'pos'), ('one', 'cross0'))), budget=100)
SYM = [('pos', 'pos'), ('unit', 'unit'), ('neg', 'unit'), ('zero', 'pos'), ('across', 'pos'), ('neg', 'neg')]
for a, b in SYM:
    for nm, fn in (('mul', prod), ('div', quot)):
        q = (nm, a, b) in (('mul', 'unit', 'unit'), ('mul', 'zero', 'pos'), ('div', 'neg', 'unit'), ('div', 'pos', 'unit'))
        add('%s[S@%s*|S@%s]' % (nm, a, b), fn('S', a + '*', 'S', b), quick=q, bounds='one piece each, first with any breaks at %s, second fixed (%s)' % (a, b), encoded=ENC[nm], budget=60, thorough={'budget': 600, 'max_paths': 20000})
        add('%s[S@%s|S@%s*]' % (nm, b, a), fn('S', b, 'S', a + '*'), quick=False, bounds='one piece each, second with any breaks at %s, first fixed (%s)' % (a, b), encoded=ENC[nm], thorough={'budget': 600, 'max_paths': 20000})

MORE = [('P@pos', 'S@pos'), ('P@zero', 'S@across'), ('P@zero', 'P@zero'), ('M P@across', 'S@pos'), ('S@neg', 'M P@across'), ('M@neg', 'S@zero'), ('M@cross0', 'P@unit'), ('M P@cross0', 'P@zero'),
        ('M@zero', 'S@neg'), ('P@nunit', 'S@unit'), ('P@neg', 'P@neg'),
        ('d S@pos', 'S@across'), ('S d@unit', 'S@neg'), ('S@across', 'd S@pos'), ('S@zero', 'S d@neg'), ('d S@zero', 'S@pos'), ('S@across', 'S d@tozero'), ('S d S@tozero', 'S@wide'), ('d S d@pos', 'd S d@unit'), ('d _ d@neg', 'S d@across'),
        ('d _ d@zero', 'd _ S@neg'), ('d@pos', 'd _ d@one'), ('d _ d@one', 'd _ d@one'), ('P d@pos', 'P@neg'), ('d P@zero', 'P d@pos'),
        ('S d@far', 'S@tiny'), ('S@farneg', 'd S@tiny'), ('d S@farneg', 'S d@far'), ('S@huge', 'S@pos'), ('d S@neg', 'S@huge'), ('S d@tiny', 'd S@tiny'),
        ('d S@zero', 'd S@zero'), ('S d@tozero', 'd _ S@zero'), ('d _ d@zero', 'd _ d@zero'), ('L@zero', 'S@pos'), ('L@zero', 'L@zero'), ('S@across', 'L@zero'), ('R@tozero', 'S@unit'), ('R L@tozero', 'S@pos'), ('S _ S@pos', 'S@neg'), ('S _ S@wide', 'S _ S@unit'), ('S S@unit', 'S S@pos'), ('S _ S@neg', 'S S@cross0')]
for a, b in MORE:
    s1, p1 = a.split('@')
    s2, p2 = b.split('@')
    for nm, fn in (('mul', prod), ('div', quot)):
        for x1, x2, y1, y2 in ((s1, p1, s2, p2), (s2, p2, s1, p1))[:1 if a == b else 2]:
            if nm == 'div' and any(v == 0 for v in masses_at(y1, y2)):
                continue
            add('%s[%s@%s|%s@%s]' % (nm, x1, x2, y1, y2), fn(x1, x2, y1, y2), bounds='pieces %s at %s and %s at %s, fixed breaks, any densities, masses and point' % (x1, x2, y1, y2), encoded=ENC[nm], quick=(a, b) not in SLOW)
# arrays of points: another integral is used away from zero
def arrays(s1, p1, s2, p2):
    return quot(s1, p1, s2, p2, array=True)


for a in FX:
    for b in FX:
        add('div-array[S@%s|S@%s]' % (a, b), arrays('S', a, 'S', b), bounds='one piece each, fixed breaks (%s, %s), any densities, an array of points' % (a, b), encoded=ENC['div'],
            quick=(a in QK and b in QK and (a in ('pos', 'across') or b in ('pos', 'across'))), budget=100)
for a, b in MORE:
    s1, p1 = a.split('@')
    s2, p2 = b.split('@')
    for x1, x2, y1, y2 in ((s1, p1, s2, p2), (s2, p2, s1, p1))[:1 if a == b else 2]:
        if any(v == 0 for v in masses_at(y1, y2)):
            continue
        add('div-array[%s@%s|%s@%s]' % (x1, x2, y1, y2), arrays(x1, x2, y1, y2), bounds='pieces %s at %s and %s at %s, fixed breaks, any densities, masses, an array of points' % (x1, x2, y1, y2), encoded=ENC['div'],
            quick=(a, b) not in SLOW and (a in ('P@pos', 'M P@across', 'P@zero', 'S@neg', 'M@cross0', 'd S@pos', 'S@across', 'd _ d@neg', 'd S@farneg', 'S@huge', 'L@zero') and MORE.index((a, b)) % 2 == 0))
for a, b in [('S@pos', 'd S@zero'), ('S@across', 'd _ d@zero'), ('d@pos', 'S d@tozero'), ('d _ d@one', 'd@zero'), ('P@zero', 'S d S@tozero')]:
    s1, p1 = a.split('@')
    s2, p2 = b.split('@')
    add('div-by-zero[%s|%s]' % (a, b), by_zero(s1, p1, s2, p2), bounds='pieces %s over %s' % (a, b), encoded=ENC['div'])
