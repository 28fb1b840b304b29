"""Piecewise functions: pointwise evaluation and arithmetic, splitting,
restricting, breakpoints; operands stay as they were."""
import math
import operator
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.sym import lift, Infeasible
from engine.seg import INF
import pacal.segments as S

P = 'C09'
META = {'assumptions': ['arguments differ from break points except where a harness puts them there']}
HARNESSES = []


def isinf(v):
    return not isinstance(v, sym.Sym) and math.isinf(v)


class PW(object):
    """symbolic piecewise function: pieces (kind, a, b, f) and masses (pos, m)"""

    def __init__(self, h, tag, spec, cls=None, positive=True, at=(-100, 100), pts=None):
        self.h, self.tag = h, tag
        self.pieces, self.masses = [], []
        self.pf = (cls or S.PiecewiseFunction)([])
        x = None
        n = 0
        self.first = None
        toks = spec.split()
        i = 0
        if pts is not None:
            at, pts = pts[0], list(pts[1:])
        pos = h.real(tag + 'x0', *at) if isinstance(at, tuple) else at
        for k, t in enumerate(toks):
            if t == 'M':          # half-line to the left
                f = h.fun('%sf%d' % (tag, n), positive)
                n += 1
                self.pieces.append(('minf', -INF, pos, f))
            elif t == 'P':
                f = h.fun('%sf%d' % (tag, n), positive)
                n += 1
                self.pieces.append(('pinf', pos, INF, f))
            elif t in ('S', 'L', 'R', 'C'):
                nxt = pos + h.real('%slen%d' % (tag, k), 0.125, 40) if pts is None else pts.pop(0)
                f = h.fun('%sf%d' % (tag, n), positive)
                if t == 'C':
                    c = h.real('%sc%d' % (tag, k), 0.1, 3)
                    f = (lambda c: (lambda u: c))(c)
                n += 1
                self.pieces.append(({'S': 'seg', 'L': 'poleL', 'R': 'poleR', 'C': 'const'}[t], pos, nxt, f))
                pos = nxt
            elif t == '_':        # gap
                pos = pos + h.real('%sgap%d' % (tag, k), 0.125, 40) if pts is None else pts.pop(0)
            elif t == 'd':        # point mass at the current position
                self.masses.append((pos, h.real('%sm%d' % (tag, k), 0.05, 1)))
            else:
                raise KeyError(t)
        for kind, a, b, f in self.pieces:
            if kind == 'minf':
                self.pf.addSegment(S.MInfSegment(b, f))
            elif kind == 'pinf':
                self.pf.addSegment(S.PInfSegment(a, f))
            elif kind == 'seg':
                self.pf.addSegment(S.Segment(a, b, f))
            elif kind == 'const':
                self.pf.addSegment(S.ConstSegment(a, b, f(a)))
            else:
                self.pf.addSegment(S.SegmentWithPole(a, b, f, left_pole=kind == 'poleL'))
        for p, m in self.masses:
            self.pf.addSegment(S.DiracSegment(p, m))

    def inside(self, pc, x):
        _, a, b, f = pc
        return (isinf(a) or bool(x > a)) and (isinf(b) or bool(x < b))

    def at(self, x):
        """value of the continuous part at a point that is no break"""
        for pc in self.pieces:
            if self.inside(pc, x):
                return pc[3](x)
        return 0.0

    def piece_at(self, x):
        for i, pc in enumerate(self.pieces):
            if self.inside(pc, x):
                return i
        return None

    def ends(self):
        out = []
        for _, a, b, _f in self.pieces:
            out += [a, b]
        return out + [p for p, _ in self.masses]

    def ends_range(self):
        es = self.ends()
        lo = es[0]
        hi = es[0]
        for e in es[1:]:
            if not isinf(lo) and (e == -INF if isinf(e) else bool(e < lo)):
                lo = e
            if not (isinf(hi) and hi > 0) and (e == INF if isinf(e) else (isinf(hi) or bool(e > hi))):
                hi = e
        return lo, hi

    def points(self):
        return [e for e in self.ends() if not isinf(e)]

    def generic(self, x):
        for e in self.points():
            self.h.assume(x != e)

    def unchanged(self, label='operand-unchanged'):
        h = self.h
        segs = self.pf.segments
        want = len(self.pieces) + len(self.masses)
        h.check(len(segs) == want, label)
        got = [(s.a, s.b) for s in segs if s.isSegment()]
        cs = []
        for (a, b), pc in zip(got, self.pieces):
            cs += [same(a, pc[1]), same(b, pc[2])]
        for s, (p, m) in zip([s for s in segs if s.isDirac()], self.masses):
            cs += [s.a == p, s.f == m]
        h.check(land(h, cs), label)


def land(h, conds):
    """conjunction of conditions"""
    if h.sym:
        return sym.mkbool(sym.z3.And(*[sym.tobool(c) for c in conds])) if conds else True
    return all(bool(c) for c in conds)


def same(a, b):
    if isinf(a) or isinf(b):
        return bool(isinf(a) and isinf(b) and a == b)
    return a == b


def lor(h, conds):
    if h.sym:
        return sym.mkbool(sym.z3.Or(*[sym.tobool(c) for c in conds])) if conds else False
    return any(bool(c) for c in conds)


def wellformed(h, pf, label='pieces'):
    """sorted, not overlapping, breaks are exactly the ends"""
    segs = pf.segments
    cs = []
    for s, t in zip(segs[:-1], segs[1:]):
        cs.append(s.b <= t.a)
    for s in segs:
        cs.append(s.a <= s.b)
    h.check(land(h, cs), label + '-ordered')
    br = list(pf.getBreaks())
    h.check(land(h, [br[i] < br[i + 1] for i in range(len(br) - 1)]), 'breaks-increasing')
    ends = [e for s in segs for e in (s.a, s.b)]
    h.check(land(h, [lor(h, [same(e, b) for b in br]) for e in ends]), 'breaks-contain-ends')
    h.check(land(h, [lor(h, [same(e, b) for e in ends]) for b in br]), 'breaks-are-ends')


def value(h, pf, x, want, label, tol=1e-6):
    h.check_eq(pf(x), want, label, tol=tol)
    v = pf(h.array([x, x]))
    h.check(np.shape(v) == (2,), label + '-shape')
    h.check_eq(v[1], want, label + '-vector', tol=tol)


def masses(h, pf, want, label='masses'):
    """want: list of (pos, mass) at distinct positions; nothing else"""
    ds = pf.getDiracs()
    h.check(len(ds) == len(want), label + '-count')
    tot = 0
    for p, m in want:
        d = [s for s in ds if bool(s.a == p)]
        h.check(len(d) == 1, label + '-position')
        if len(d) == 1:
            h.check_eq(d[0].f, m, label + '-weight')


def add(name, fn, **kw):
    kw.setdefault('budget', 10)
    kw.setdefault('thorough', {'budget': 120, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


SPECS = ['S', 'S S', 'S _ S', 'M P', 'M _ P', 'M S P', 'S d S', 'd S', 'S d', 'S _ d', 'd _ S', 'd _ d', 'L R', 'M d P', 'C _ C d', 'S _ S P']


def evaluate(spec):
    def fn(h):
        w = PW(h, 'f', spec)
        pf = w.pf
        x, y = h.real('x', -300, 300), h.real('y', -300, 300)
        w.generic(x)
        w.generic(y)
        vx = w.at(x)
        h.check_eq(pf(x), vx, 'scalar')
        vy = w.at(y)
        v = pf(h.array([x, y, x]))
        h.check_eq(v[0], vx, 'vector')
        h.check_eq(v[1], vy, 'vector')
        h.check_eq(v[2], vx, 'vector')
        wellformed(h, pf)
        i = w.piece_at(x)
        s = pf.findSegment(x)
        if i is None:
            h.check(s is None, 'no-piece-in-gap')
        else:
            h.check(s is not None and s.isSegment(), 'piece-found')
            if s is not None:
                h.check_eq(s.a, w.pieces[i][1], 'piece-found')
                h.check_eq(s.b, w.pieces[i][2], 'piece-found')
        for kind, a, b, f in w.pieces:
            s = pf.findSegmentByEnds(a, b)
            h.check(s is not None, 'found-by-ends')
            if s is not None:
                h.check_eq(s.a, a, 'found-by-ends')
                h.check_eq(s.b, b, 'found-by-ends')
        for p, m in w.masses:
            d = pf.getDirac(p)
            h.check(d is not None, 'mass-found')
            if d is not None:
                h.check_eq(d.f, m, 'mass-found')
        h.check(pf.getDirac(x) is None, 'no-mass-elsewhere')
        h.check(len(pf.getSegments()) == len(w.pieces) and len(pf.getDiracs()) == len(w.masses), 'counts')
    return fn


for sp in SPECS:
    add('evaluate[%s]' % sp, evaluate(sp), bounds='pieces "%s" with any functions, breaks, masses; points in [-60,60]' % sp,
        encoded=['segments.PiecewiseFunction.__call__', 'segments.PiecewiseFunction.addSegment', 'segments.PiecewiseFunction.findSegment', 'segments.PiecewiseFunction.getBreaks'])


def at_breaks(h):
    """at a break the value is that of one of the adjacent pieces; the last break belongs to the last piece"""
    sp = h.choose('spec', ['S S', 'S', 'M P', 'M S P', 'S S S'])
    w = PW(h, 'f', sp)
    for i, (k, a, b, f) in enumerate(w.pieces):
        for x in (a, b):
            if isinf(x):
                continue
            last = i == len(w.pieces) - 1 and x is b
            vs = [f(x)]
            if x is b and not last:
                vs = [w.pieces[i + 1][3](x)]
            for v, lab in ((w.pf(x), 'scalar'), (w.pf(h.array([x]))[0], 'vector')):
                if lab == 'scalar' and x is b and not last:
                    h.check(sym.mkbool(sym.z3.Or(sym.tobool(v == vs[0]), sym.tobool(v == f(x)))) if h.sym else (abs(v - vs[0]) < 1e-9 or abs(v - f(x)) < 1e-9), 'adjacent-' + lab)
                elif lab == 'scalar' and x is a and i > 0:
                    g = w.pieces[i - 1][3]
                    h.check(sym.mkbool(sym.z3.Or(sym.tobool(v == vs[0]), sym.tobool(v == g(x)))) if h.sym else (abs(v - vs[0]) < 1e-9 or abs(v - g(x)) < 1e-9), 'adjacent-' + lab)
                else:
                    h.check_eq(v, vs[0], 'right-continuous-' + lab)


add('at-breaks', at_breaks, bounds='up to three adjoining pieces', encoded=['segments.PiecewiseFunction.__call__'])

OPS = {'add': (operator.add, lambda a, b: a + b), 'sub': (operator.sub, lambda a, b: a - b),
       'mul': (operator.mul, lambda a, b: a * b), 'div': (operator.truediv, lambda a, b: a / b)}


def binary(op, s1, s2):
    o, val = OPS[op]

    def fn(h):
        f, g = PW(h, 'f', s1), PW(h, 'g', s2)
        x = h.real('x', -200, 200)
        f.generic(x)
        g.generic(x)
        if op == 'div':
            # outside the support of the divisor the quotient is not defined
            if g.piece_at(x) is None:
                raise Infeasible()
        r = o(f.pf, g.pf)
        value(h, r, x, val(f.at(x), g.at(x)), 'value')
        wellformed(h, r)
        f.unchanged()
        g.unchanged()
        if op in ('add', 'sub') and (f.masses or g.masses):
            sg = 1 if op == 'add' else -1
            want = []
            for p, m in f.masses:
                want.append((p, m))
            for p, m in g.masses:
                for q, _ in want:       # coincide or are clearly apart
                    if not bool(q == p):
                        h.assume(abs(q - p) >= h.q(1, 10 ** 6))
                k = [j for j, (q, _) in enumerate(want) if bool(q == p)]
                if k:
                    want[k[0]] = (p, want[k[0]][1] + sg * m)
                else:
                    want.append((p, sg * m))
            masses(h, r, want)
    return fn


PAIRS = [('S', 'S'), ('S', 'S S'), ('M P', 'S'), ('M P', 'M P'), ('P', 'S'), ('M', 'P'), ('M', 'S'), ('S d', 'S'), ('S', 'd _ S'), ('S d', 'd S'),
         ('C', 'S'), ('L', 'S'), ('S', 'R')]
MORE = [('S _ S', 'S'), ('S _ S', 'S _ S'), ('M S P', 'S'), ('M _ P', 'S S'), ('S d S', 'd _ S')]
for op in OPS:
    for s1, s2 in PAIRS + MORE:
        if op in ('mul', 'div') and ('d' in s1 or 'd' in s2):
            continue
        q = op in ('sub', 'div') and (s1, s2) in PAIRS[:6] or op == 'add' or (s1, s2) in PAIRS[:3] or (op == 'sub' and 'd' in s1 + s2 and (s1, s2) in PAIRS)
        if (s1, s2) in MORE and op != 'add':
            q = False
        if (s1, s2) in (('S _ S', 'S _ S'), ('S d S', 'd _ S')):
            q = False
        add('%s[%s|%s]' % (op, s1, s2), binary(op, s1, s2), quick=q, max_paths=1500, budget=10, thorough={'budget': 200, 'max_paths': 20000},
            bounds='pieces "%s" and "%s" with any functions and breaks in every relative order' % (s1, s2),
            encoded=['segments.PiecewiseFunction._operation__', 'segments.PiecewiseFunction.splitByPoints', 'segments._makeCommonSegmentList', 'segments.PiecewiseFunction.op_diracs'])


def scalar(spec):
    def fn(h):
        w = PW(h, 'f', spec)
        r = h.real('r', 0.25, 5) * h.choose('sgn', [1, -1])
        x = h.real('x', -200, 200)
        w.generic(x)
        i = w.piece_at(x)
        v = w.at(x)
        for nm, g, u in (('add', lambda p: p + r, lambda t: t + r), ('radd', lambda p: r + p, lambda t: t + r),
                         ('sub', lambda p: p - r, lambda t: t - r), ('rsub', lambda p: r - p, lambda t: r - t),
                         ('mul', lambda p: p * r, lambda t: t * r), ('rmul', lambda p: r * p, lambda t: t * r),
                         ('div', lambda p: p / r, lambda t: t / r), ('rdiv', lambda p: r / p, lambda t: r / t)):
            q = g(w.pf)
            value(h, q, x, u(v) if i is not None else 0.0, nm)
            h.check(len(q.segments) == len(w.pf.segments), 'same-pieces')
            for s, t in zip(q.segments, w.pf.segments):
                h.check_eq(s.a, t.a, 'same-pieces')
                h.check_eq(s.b, t.b, 'same-pieces')
                h.check(s.isPInf() == t.isPInf() and s.isMInf() == t.isMInf() and s.isDirac() == t.isDirac(), 'same-kinds')
                h.check(s.hasLeftPole() == t.hasLeftPole() and s.hasRightPole() == t.hasRightPole(), 'same-kinds')
            masses(h, q, [(p, u(m)) for p, m in w.masses], 'weights-of-masses')
        w.unchanged()
        # functions of the values
        for nm, q, u in (('pow', w.pf ** 2, lambda t: t * t), ('exp', w.pf.exp(), lambda t: t.exp() if isinstance(t, sym.Sym) else math.exp(t)),
                         ('log', w.pf._log(), lambda t: t.log() if isinstance(t, sym.Sym) else math.log(t)), ('log1', w.pf._log1(), lambda t: -(t.log() if isinstance(t, sym.Sym) else math.log(t)))):
            value(h, q, x, u(v) if i is not None else 0.0, nm)
    return fn


import numbers as _nb


for sp in ('S S', 'S _ S', 'M P', 'S d _ S', 'L R', 'C'):
    add('scalar[%s]' % sp, scalar(sp), bounds='pieces "%s", any number' % sp, encoded=['segments.PiecewiseFunction._roperation__', 'segments.PiecewiseFunction._function__'])


def shifted(spec):
    def fn(h):
        w = PW(h, 'f', spec)
        sh = h.real('shift', -50, 50)
        sc = h.real('scale', 0.05, 20) * h.choose('sgn', [1, -1])
        x = h.real('x', -200, 200)
        w.generic(x)
        r = w.pf.copyShiftedAndScaled(sh, sc)
        value(h, r, x * sc + sh, w.at(x) / abs(sc), 'value')
        wellformed(h, r)
        masses(h, r, [(p * sc + sh, m) for p, m in w.masses])
        h.check(len(r.segments) == len(w.pf.segments), 'same-number-of-pieces')
        w.unchanged()
    return fn


for sp in ('S S', 'S _ S', 'M P', 'M S P', 'S d S', 'L R', 'C d', 'd _ d S'):
    add('shift-scale[%s]' % sp, shifted(sp), bounds='pieces "%s", shift in [-5,5], 1/4<=|scale|<=4' % sp, encoded=['segments.PiecewiseFunction.copyShiftedAndScaled'])


def split(spec, np_):
    def fn(h):
        w = PW(h, 'f', spec)
        pts = [h.real('p0', -150, 150)]
        for i in range(1, np_):
            pts.append(pts[-1] + h.real('pl%d' % i, 0, 8))
        x = h.real('x', -200, 200)
        w.generic(x)
        for p in pts:
            h.assume(x != p)
        r = w.pf.splitByPoints(h.array(pts))
        value(h, r, x, w.at(x), 'value')
        wellformed(h, r)
        masses(h, r, w.masses)
        # every point inside a piece is now a break
        for p in pts:
            for pc in w.pieces:
                if w.inside(pc, p):
                    br = r.getBreaks()
                    h.check(sym.mkbool(sym.z3.Or(*[sym.tobool(b == p) for b in br if not isinf(b)])) if h.sym else any(b == p for b in br), 'split-there')
        # kinds are kept at the ends
        for kind, a, b, f in w.pieces:
            segs = [s for s in r.getSegments() if (isinf(s.a) and isinf(a) or (not isinf(s.a) and not isinf(a) and bool(s.a == a)))]
            if kind in ('poleL', 'minf'):
                h.check(len(segs) == 1 and (segs[0].hasLeftPole() if kind == 'poleL' else segs[0].isMInf()), 'end-kind-kept')
            segs = [s for s in r.getSegments() if (isinf(s.b) and isinf(b) or (not isinf(s.b) and not isinf(b) and bool(s.b == b)))]
            if kind in ('poleR', 'pinf'):
                h.check(len(segs) == 1 and (segs[0].hasRightPole() if kind == 'poleR' else segs[0].isPInf()), 'end-kind-kept')
        for s in r.getSegments():
            h.check(s.isMInf() == isinf(s.a) and s.isPInf() == isinf(s.b), 'infinite-kinds')
        w.unchanged()
    return fn


for sp, k in (('S', 1), ('S', 2), ('S S', 1), ('M P', 1), ('M P', 2), ('P', 2), ('M', 2), ('S _ S', 2), ('L', 1), ('R', 1), ('R', 2), ('S d S', 1), ('C', 1)):
    add('split[%s,%d]' % (sp, k), split(sp, k), bounds='pieces "%s", %d sorted points anywhere' % (sp, k), encoded=['segments.PiecewiseFunction.splitByPoints'])


def restrict(spec):
    def fn(h):
        w = PW(h, 'f', spec)
        a = h.real('lo', -150, 150)
        b = a + h.real('len', 0.5, 100)
        x = h.real('x', -200, 200)
        w.generic(x)
        h.assume(x != a)
        h.assume(x != b)
        for p, m in w.masses:
            h.assume(p != a)
            h.assume(p != b)
        r = w.pf.restrictToInterval(a, b)
        inside = bool(a < x) and bool(x < b)
        value(h, r, x, w.at(x) if inside else 0.0, 'value')
        wellformed(h, r)
        masses(h, r, [(p, m) for p, m in w.masses if bool(a < p) and bool(p < b)])
        for kind, sa, sb, f in w.pieces:
            segs = [s for s in r.getSegments() if not isinf(s.a) and not isinf(sa) and bool(s.a == sa)]
            if kind == 'poleL' and bool(a <= sa) and bool(sa < b):
                h.check(len(segs) == 1 and segs[0].hasLeftPole(), 'pole-kept')
        w.unchanged()
    return fn


for sp in ('S', 'S S', 'M P', 'S d S', 'S _ S', 'L'):
    add('restrict[%s]' % sp, restrict(sp), bounds='pieces "%s", any interval' % sp, encoded=['segments.PiecewiseFunction.restrictToInterval'])


def restrict_mass(h):
    """a mass at an end of the interval [a, b): kept at a, dropped at b"""
    w = PW(h, 'f', 'S d S')
    (p, m), = w.masses
    ln = h.real('len', 0.5, 100)
    if h.choose('end', ['lower', 'upper']) == 'lower':
        masses(h, w.pf.restrictToInterval(p, p + ln), [(p, m)], 'mass-at-lower-end-kept')
    else:
        masses(h, w.pf.restrictToInterval(p - ln, p), [], 'mass-at-upper-end-dropped')
    w.unchanged()


add('restrict-mass', restrict_mass, bounds='a mass exactly at an end of the interval', encoded=['segments.PiecewiseFunction.restrictToInterval'])


def constructor(h):
    n = h.choose('n', [2, 3, 4, 5])
    left, right = h.choose('left', [False, True]), h.choose('right', [False, True])
    if n == 2 and left and right:
        raise Infeasible()
    br = [h.real('x0', -10, 10)]
    for i in range(1, n):
        br.append(br[-1] + h.real('len%d' % i, 0.25, 5))
    fin = list(br)
    if left:
        br[0] = -INF
    if right:
        br[-1] = INF
    poles = h.choose('poles', ['none', 'L', 'R'])
    lp, rp = [False] * n, [False] * n
    if poles == 'L':
        for i in range(n - 1):
            lp[i] = not isinf(br[i]) and not isinf(br[i + 1])
    elif poles == 'R':
        for i in range(1, n):
            rp[i] = not isinf(br[i]) and not isinf(br[i - 1])
    if left and n == 2:
        raise Infeasible()
    if right and n == 2:
        raise Infeasible()
    f = h.fun('f')
    pf = S.PiecewiseFunction(fun=f, breakPoints=h.array(br) if not any(isinf(b) for b in br) else np.array(br, dtype=object) if h.sym else np.array(br), lpoles=lp, rpoles=rp)
    h.check(len(pf.segments) == n - 1, 'piece-count')
    for i, s in enumerate(pf.segments):
        h.check_eq(s.a, br[i], 'ends')
        h.check_eq(s.b, br[i + 1], 'ends')
        h.check(s.isMInf() == isinf(br[i]) and s.isPInf() == isinf(br[i + 1]), 'infinite')
        if not s.isMorPInf():
            h.check(s.hasLeftPole() == lp[i] and s.hasRightPole() == rp[i + 1], 'poles')
    x = h.real('x', -200, 200)
    for b in br:
        if not isinf(b):
            h.assume(x != b)
    inside = (left or bool(x > br[0])) and (right or bool(x < br[-1]))
    value(h, pf, x, f(x) if inside else 0.0, 'value')


add('constructor', constructor, budget=12, max_paths=1500, bounds='2 to 5 breaks anywhere, infinite ends, poles on either side', encoded=['segments.PiecewiseFunction.__init__'])


def merge_masses(h):
    """masses added at one place add up; at different places they stay apart, in any order of insertion"""
    ps = [h.real('p%d' % i, -5, 5) for i in range(3)]
    ms = [h.real('m%d' % i, 0.1, 1) for i in range(3)]
    for i in range(3):
        for j in range(i):
            h.assume(sym.mkbool(sym.z3.Or(sym.tobool(ps[i] == ps[j]), sym.tobool(abs(ps[i] - ps[j]) > h.q(1, 1000)))) if h.sym else (ps[i] == ps[j] or abs(ps[i] - ps[j]) > 1e-3))
    pf = S.PiecewiseFunction([])
    for p, m in zip(ps, ms):
        pf.addSegment(S.DiracSegment(p, m))
    want = []
    for p, m in zip(ps, ms):
        k = [j for j, (q, _) in enumerate(want) if bool(q == p)]
        if k:
            want[k[0]] = (p, want[k[0]][1] + m)
        else:
            want.append((p, m))
    masses(h, pf, want)
    wellformed(h, pf)
    f = PW(h, 'f', 'S d')
    n0 = [(p, m) for p, m in f.masses]
    g = S.PiecewiseFunction([])
    g.add_diracs(f.pf)
    g.add_diracs(f.pf)
    masses(h, g, [(p, 2 * m) for p, m in n0], 'twice-added')
    k = S.PiecewiseFunction([])
    k.addSegment(S.DiracSegment(n0[0][0], 0.25))
    k.add_diracs(f.pf)
    masses(h, k, [(p, m + h.q(1, 4)) for p, m in n0], 'added-to-existing')


add('merge-masses', merge_masses, bounds='three masses anywhere', encoded=['segments.PiecewiseFunction.addSegment', 'segments.PiecewiseFunction.add_diracs'])


# ------------------------------------------------------------------ interpolated copies of functions
def exact_interpolators():
    """every interpolator evaluates the function it was given, of the range it was given"""
    import inspect
    import pacal.interpolation as N
    out = []
    for c in [c for c in vars(N).values() if inspect.isclass(c) and c.__module__ == N.__name__]:
        if '__init__' in vars(c) and 'f' in inspect.signature(c.__init__).parameters:
            def init(self, f, *a, **k):
                self.given = f
            out.append(((c, '__init__'), init))
        if '__call__' in vars(c):
            out.append(((c, '__call__'), lambda self, x: self.given(x)))
    return out


def interpolated(spec, cls):
    def fn(h):
        f = PW(h, 'f', spec, cls=cls)
        x = h.real('x', -300, 300)
        for e in f.points():
            h.assume(abs(x - e) > h.q(1, 1000))
        with stub(*exact_interpolators()):
            r = f.pf.toInterpolated()
            h.check(type(r) is cls and r is not f.pf, 'same-kind')
            h.check(len(r.getSegments()) == len(f.pf.getSegments()), 'same-pieces')
            for s, t in zip(r.getSegments(), f.pf.getSegments()):
                h.check(land(h, [same(s.a, t.a), same(s.b, t.b)]), 'same-range')
                h.check((s.isMInf(), s.isPInf(), s.hasLeftPole(), s.hasRightPole()) == (t.isMInf(), t.isPInf(), t.hasLeftPole(), t.hasRightPole()), 'same-piece')
            masses(h, r, f.masses)
            if cls is not S.CumulativePiecewiseFunction:
                value(h, r, x, f.at(x), 'value')
            else:
                i = f.piece_at(x)
                if i is not None:
                    s = [t for t in r.getSegments() if t.isSegment()][i]
                    h.check_eq(s(x), f.at(x), 'value', tol=1e-6)
        f.unchanged()
    return fn


for s in ('S', 'S _ S', 'M P', 'M d P', 'C L', 'R d', 'd S d'):
    for c in (S.PiecewiseFunction, S.PiecewiseDistribution):
        add('interpolated[%s,%s]' % (s, c.__name__), interpolated(s, c), bounds='pieces "%s"' % s, encoded=['segments.PiecewiseFunction.toInterpolated', 'segments.Segment.toInterpolatedSegment', 'segments.MInfSegment.toInterpolatedSegment', 'segments.PInfSegment.toInterpolatedSegment', 'segments.DiracSegment.toInterpolatedSegment', 'segments.SegmentWithPole.toInterpolatedSegment'])
for s in ('M S P', 'M C S C P'):
    add('interpolated[%s,cumulative]' % s, interpolated(s, S.CumulativePiecewiseFunction), bounds='pieces "%s"' % s, encoded=['segments.CumulativePiecewiseFunction.toInterpolated'])
