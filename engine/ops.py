"""Two-operand density operations: operands, stand-ins, comparison at a point."""
import math
import numpy as np
from . import sym
from .sym import lift, Infeasible
from .harness import unwrap
from .seg import Integrals, INF
import pacal.segments as S
import pacal.utils as U
import pacal.indeparith as A


def isinf(v):
    return not isinstance(v, sym.Sym) and math.isinf(v)


class Probe(object):
    """function remembering the arguments it was evaluated at"""

    def __init__(self, f, log):
        self.f, self.log = f, log

    def __call__(self, x):
        v = x
        if isinstance(v, np.ndarray):
            v = v.ravel()[0] if v.size else None
        if v is not None:
            self.log.append(unwrap(v))
        return self.f(x)


class exact_pieces(object):
    """pieces of the result keep the computed function instead of an interpolant
    of it (interpolation: C06, C07); the numerical pole test answers `pole`"""

    def __init__(self, pole=False):
        self.pole = pole

    def __enter__(self):
        def keep(s, left_pole=False, NoL=False, right_pole=False, NoR=False):
            if left_pole or right_pole:
                return S.SegmentWithPole(s.a, s.b, s.f, left_pole=bool(left_pole))
            return s
        self.old = []
        for c in (S.Segment, S.SegmentWithPole, S.PInfSegment, S.MInfSegment, S.ConstSegment):
            if 'toInterpolatedSegment' in c.__dict__:
                self.old.append((c, 'toInterpolatedSegment', c.__dict__['toInterpolatedSegment']))
                c.toInterpolatedSegment = keep
        pole = self.pole
        for m in (A, U, S):
            if hasattr(m, 'testPole'):
                self.old.append((m, 'testPole', m.testPole))
                m.testPole = lambda *a, **k: pole
        return self

    def __exit__(self, *a):
        for c, n, v in reversed(self.old):
            setattr(c, n, v)
        return False


def value(r):
    r = unwrap(r)
    if isinstance(r, (np.ndarray, list, tuple)):
        r = np.asarray(r).ravel()
        assert r.shape == (1,), 'one value expected, got %s' % (r.shape,)
        r = unwrap(r[0])
    return r


def away(h, x, pts, eps=None):
    """x keeps a distance from finite points"""
    eps = h.q(1, 10 ** 5) if eps is None else eps
    for p in pts:
        if isinf(p):
            continue
        d = x - p
        if h.sym:
            h.assume(sym.mkbool(sym.z3.Or(sym.tobool(d >= eps), sym.tobool(d <= -eps))))
        else:
            h.assume(abs(d) >= float(eps))


def ordered(h, pts, gap=None):
    """the finite values of pts in increasing order, ties resolved by identity;
    distinct ones are assumed at least `gap` apart.  Forks on the order once, so
    that later comparisons in the code are decided."""
    gap = h.q(1, 10 ** 6) if gap is None else gap
    out = []
    for p in pts:
        if isinf(p):
            continue
        k = 0
        dup = False
        # binary search keeps the forks few
        lo, hi = 0, len(out)
        for q in out:
            if (sym.CTX.same(lift(p), lift(q)) or h.c.valid(lift(p) == lift(q)) is True if h.sym else abs(p - q) < 1e-9):
                dup = True
        if dup:
            continue
        while lo < hi:
            m = (lo + hi) // 2
            if bool(p < out[m]):
                hi = m
            else:
                lo = m + 1
        out.insert(lo, p)
    for p, q in zip(out[:-1], out[1:]):
        h.assume(q - p >= gap)
    return out


def locate(h, x, pts, eps=None):
    """decide between which of the sorted points x lies, keeping eps away"""
    eps = h.q(1, 10 ** 5) if eps is None else eps
    lo, hi = 0, len(pts)
    while lo < hi:
        m = (lo + hi) // 2
        if bool(x < pts[m]):
            hi = m
        else:
            lo = m + 1
    if lo > 0:
        h.assume(x - pts[lo - 1] >= eps)
    if lo < len(pts):
        h.assume(pts[lo] - x >= eps)
    return lo
