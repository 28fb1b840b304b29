"""Sum and difference of independent variables against the convolution integral."""
import math
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.sym import lift, Infeasible
from engine.seg import Integrals, INF
from engine.ops import Probe, exact_pieces, value, away, isinf, ordered, locate
from checks.c09 import PW, masses, land, lor, same
from checks.c10 import Dens
import pacal.segments as S
import pacal.indeparith as A
import pacal.distr as D

P = 'C11'
META = {'assumptions': ['integration routines return the integral over the range they are given (C02)',
                        'pieces of the result keep the computed function (interpolation of it: C06, C07)',
                        'the point of evaluation is at least 1e-5 away from sums of operand breaks']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 30)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


class Op2(PW):
    """operand whose functions log their arguments"""

    def __init__(self, h, tag, spec, **kw):
        self.log = []
        super(Op2, self).__init__(h, tag, spec, cls=S.PiecewiseDistribution, **kw)
        if self.log is not None:
            for s in self.pf.segments:
                if s.isSegment() and not isinstance(s, S.ConstSegment):
                    s.f = Probe(s.f, self.log)


def ends(w):
    return [e for e in w.ends()]


class Eps(object):
    """answer of 'continuous within eps' fixed: only tells which ends are probed for poles"""

    def __init__(self, v):
        self.v = v

    def __enter__(self):
        pd = A.params.pole_detection
        self.old = pd.continuity_eps
        pd.continuity_eps = self.v
        return self

    def __exit__(self, *a):
        A.params.pole_detection.continuity_eps = self.old
        return False


def pointwise(op, s1, s2, pole=False, tie=None):
    def fn(h):
        f, g = Op2(h, 'f', s1), Op2(h, 'g', s2)
        if tie:
            tie(h, f, g)
        sg = 1 if op == 'add' else -1
        x = h.real('x', -300, 300)
        fin = lambda w: [e for e in w.ends() if not isinf(e)]
        sums = ordered(h, [p + sg * q for p in fin(f) for q in fin(g)])
        locate(h, x, sums)
        with exact_pieces(pole=pole), Eps(-1 if pole else INF):
            if op == 'conv':
                r = A.conv(f.pf, g.pf)
            else:
                cls = D.SumDistr if op == 'add' else D.SubDistr
                r = cls(Dens(f.pf), Dens(g.pf)).get_piecewise_pdf()
            other = lambda t: (x - t) * sg      # argument of g when f's is t
            const = 0
            for p, m in f.masses:
                const = const + m * g.at(other(p))
            for q, m in g.masses:
                const = const + m * f.at(x - sg * q)
            pts = [-INF, INF] + f.ends() + [x - sg * e for e in g.ends()]
            with Integrals(h) as G:
                v = value(r(x))
                del f.log[:]
                G.check(v, lambda t: f.at(t) * g.at(other(t)), 'density', const=const, pts=pts,
                        inverses=lambda t: [(t, 1), (x - t, 1), (other(t), 1), (x * sg - t, 1)], args=lambda: f.log, ctol=1e-4,
                        margin=h.q(1, 10 ** 5) if set('LR') & set(s1 + s2) else None)
        br = [b for b in r.getBreaks() if not isinf(b)]
        h.check(land(h, [lor(h, [abs(b - p) <= h.q(1, 10 ** 9) for b in br]) for p in sums]), 'breaks')
        for o in (f, g):
            o.unchanged()
        dd = [(p + sg * q, m * n) for p, m in f.masses for q, n in g.masses]
        ds = [d for d in r.getDiracs() if not (not isinstance(d.f, sym.Sym) and d.f == 0)]
        h.check(len(ds) == len(dd), 'masses-count')
        for p, m in dd:
            w = [d for d in ds if sym_near(h, d.a, p)]
            h.check(len(w) == 1, 'mass-position')
            if len(w) == 1:
                h.check_eq(w[0].f, m, 'mass-weight')
    return fn


def sym_near(h, a, b):
    return bool(abs(a - b) <= h.q(1, 10 ** 9))


def equal_lengths(h, f, g):
    """coinciding sums of breaks"""
    lf, lg = f.pieces[0], g.pieces[0]
    h.assume(lf[2] - lf[1] == lg[2] - lg[1])


def extended_breaks(spec):
    """every end is listed with the singularities, jumps and masses there"""
    def fn(h):
        w = PW(h, 'f', spec, cls=S.PiecewiseDistribution)
        br = w.pf.getBreaksExtended()
        es = []
        for e in w.ends():
            if not any(same_pt(h, e, o) for o in es):
                es.append(e)
        h.check(land(h, [lor(h, [same(b.x, e) for b in br]) for e in es]), 'every-end-listed')
        h.check(land(h, [lor(h, [same(b.x, e) for e in es]) for b in br]), 'only-ends-listed')
        for p, q in zip(br[:-1], br[1:]):
            h.check(isinf(p.x) or isinf(q.x) or p.x <= q.x, 'increasing')
        eps = A.params.pole_detection.continuity_eps
        for e in es:
            if isinf(e):
                continue
            at = [b for b in br if same_pt(h, b.x, e)]
            left = [pc for pc in w.pieces if not isinf(pc[2]) and same_pt(h, pc[2], e)]
            right = [pc for pc in w.pieces if not isinf(pc[1]) and same_pt(h, pc[1], e)]
            h.check(any(b.negPole for b in at) == bool(left and left[0][0] == 'poleR'), 'pole-left-of-break')
            h.check(any(b.posPole for b in at) == bool(right and right[0][0] == 'poleL'), 'pole-right-of-break')
            mass = any(same_pt(h, p, e) for p, _ in w.masses)
            h.check(any(b.dirac for b in at) == mass, 'mass-flag')
            pole = bool(left and left[0][0] == 'poleR') or bool(right and right[0][0] == 'poleL')
            if not pole and not mass:
                l = left[0][3](e) if left else 0
                r = right[0][3](e) if right else 0
                d = l - r
                jump = bool(abs(d) > eps)
                h.check(any(not b.Cont for b in at) == jump, 'jump-flag')
    return fn


def same_pt(h, a, b):
    if isinf(a) or isinf(b):
        return bool(isinf(a) and isinf(b) and a == b)
    return bool(a == b)


LIN = {'d+c': (lambda d, c: d + c, 1, 1), 'c+d': (lambda d, c: c + d, 1, 1), 'd-c': (lambda d, c: d - c, 1, -1), 'c-d': (lambda d, c: c - d, -1, 1), '-d': (lambda d, c: -d, -1, 0)}
SCL = {'d*c': (lambda d, c: d * c, lambda c: c), 'c*d': (lambda d, c: c * d, lambda c: c), 'd/c': (lambda d, c: d / c, lambda c: 1 / c)}


def constant(op, spec):
    def fn(h):
        f = PW(h, 'f', spec, cls=S.PiecewiseDistribution)
        d = Dens(f.pf)
        d.pdf = f.at
        if op in LIN:
            c = h.real('c', -80, 80)
            build, sc, k = LIN[op]
            s, t = sc, k * c
        else:
            c = h.real('c', -40, 40)
            h.assume(sym.mkbool(sym.z3.Or(sym.tobool(c >= h.q(1, 8)), sym.tobool(c <= -h.q(1, 8)))) if h.sym else abs(c) >= 0.125)
            build, sf = SCL[op]
            s, t = sf(c), 0
        r = build(d, c)
        x = h.real('x', -300, 300)
        u = (x - t) / s
        for p in f.points():
            h.assume(u != p)
        neg = bool(s < 0)
        w = f.at(u) / (-s if neg else s)
        h.check_eq(r.pdf(x), w, 'pdf')
        q = r.get_piecewise_pdf()
        h.check_eq(value(q(x)), w, 'piecewise')
        masses(h, q, [(s * p + t, m) for p, m in f.masses])
        br = [b for b in q.getBreaks() if not isinf(b)]
        h.check(land(h, [lor(h, [b == s * p + t for b in br]) for p in f.points()]), 'breaks')
        h.check(land(h, [lor(h, [b == s * p + t for p in f.points()]) for b in br]), 'breaks')
        f.unchanged()
    return fn


PAIRS = [('S', 'S'), ('S', 'P'), ('S', 'M'), ('P', 'P'), ('M', 'M'), ('M', 'P'), ('M P', 'S'), ('S', 'M P'), ('S S', 'S'), ('S', 'S S'), ('S _ S', 'S'), ('S', 'S _ S'),
         ('S d', 'S'), ('S', 'd S'), ('S d', 'S d'), ('d', 'S'), ('S', 'd'), ('P d', 'S'), ('d P', 'M'), ('d _ d', 'S'), ('L', 'S'), ('S', 'R'), ('L', 'L'), ('L', 'R'), ('R', 'R'), ('P', 'L'), ('M', 'R'), ('d', 'P'), ('d', 'M P')]
TIES = [('S', 'S'), ('S S', 'S'), ('S d', 'S')]
BIG = [('M P', 'M P'), ('S S', 'S S'), ('S _ S', 'S _ S'), ('M S P', 'S'), ('M S P', 'M P'), ('L S R', 'S'), ('S d S', 'S')]
ENC = ['indeparith.conv', 'indeparith.Convxrunner.conv_at_point', 'indeparith._findSegListAdd', 'indeparith._segint', 'segments.PiecewiseFunction.getBreaksExtended', 'indeparith._unique_breakpoints']
for op in ('add', 'sub'):
    for s1, s2 in PAIRS + BIG:
        q = (s1, s2) in PAIRS if op == 'add' else (s1, s2) in PAIRS[:7:2] + [('S d', 'S'), ('S', 'd S'), ('L', 'S')]
        add('%s[%s|%s]' % (op, s1, s2), pointwise(op, s1, s2), quick=q,
            bounds='operand pieces "%s" and "%s" with any densities, breaks, masses; any point' % (s1, s2), encoded=ENC + ['distr.%sDistr.init_piecewise_pdf' % op.capitalize().replace('Add', 'Sum')])

for s1, s2 in TIES:
    add('add-tie[%s|%s]' % (s1, s2), pointwise('add', s1, s2, tie=equal_lengths), quick=(s1, s2) != TIES[1],
        bounds='as add, first pieces of equal length', encoded=ENC)
for s1, s2 in [('L', 'S'), ('S', 'L'), ('L', 'R'), ('R', 'P')]:
    add('add-pole[%s|%s]' % (s1, s2), pointwise('add', s1, s2, pole=True), quick=(s1, s2) == ('L', 'S'), bounds='as add, result pieces may be singular', encoded=ENC)
for sp in ['S', 'S S', 'S _ S', 'M _ P', 'L S R', 'L R', 'R L', 'R _ L', 'S d', 'd S', 'S _ d', 'd _ d', 'S d S', 'S _ S _ S', 'M P']:
    add('breaks[%s]' % sp, extended_breaks(sp), bounds='pieces "%s", any functions and breaks' % sp, encoded=ENC[4:5])
for op in list(LIN) + list(SCL):
    for sp in ['S', 'M P', 'S d', 'L _ S'] if op in ('d+c', 'c-d', 'd*c', 'd/c') else ['S d']:
        add('const[%s;%s]' % (op, sp), constant(op, sp), bounds='pieces "%s"; any constant (|c|>=1/8 for scaling), any point' % sp,
            encoded=['distr.ShiftedScaledDistr', 'segments.PiecewiseFunction.copyShiftedAndScaled', 'distr.Distr operators'])
