"""Recording stand-in for the leaf quadrature, and the solver questions asked
about what was recorded."""
import numpy as np
import z3
from . import sym
from .sym import Sym, lift
from .harness import unwrap


class Rec(object):
    __slots__ = ('f', 'L', 'U', 'val', 'kind', 'err')

    def __init__(self, f, L, U, val, kind='', err=0.0):
        self.f, self.L, self.U, self.val, self.kind, self.err = f, L, U, val, kind, err


class Recorder(object):
    """quad(f, a, b, ...) -> (fresh symbol, 0 or a fresh non-negative error)"""

    def __init__(self, h, pair=True, err=False):
        self.h, self.recs, self.pair, self.err = h, [], pair, err

    def quad(self, f, a, b, *args, **kw):
        v = self.h.c.fresh('I')
        e = 0.0
        if self.err:
            e = self.h.c.fresh('E')
            self.h.assume(e > 0)
        self.recs.append(Rec(f, a, b, v, err=e))
        return (v, e) if self.pair else v

    def coefficients(self, result):
        """result must be sum_k c_k I_k + c_0"""
        c = self.h.c
        result = lift(result)
        cs = []
        rest = result
        for r in self.recs:
            ck = sym.diff(c, result, r.val.n)
            cs.append(ck)
            rest = rest - ck * r.val
        return cs, rest


def step(h, t, a):
    """H(t-a), forking; t generic"""
    if isinstance(a, float) and not isinstance(a, Sym):
        if a == float('inf'):
            return 0
        if a == float('-inf'):
            return 1
    return 1 if bool(t > a) else 0


def generic(h, t, pts):
    for p in pts:
        if isinstance(p, float) and abs(p) == float('inf'):
            continue
        h.assume(t != p)


def zstep(t, a):
    """H(t-a) as a term, no fork"""
    if isinstance(a, float) and not isinstance(a, Sym):
        if a == float('inf'):
            return lift(0)
        if a == float('-inf'):
            return lift(1)
    return Sym(z3.If(sym.tobool(t > a), z3.RealVal(1), z3.RealVal(0)))


def total_ite(h, recs, coefs, t):
    """as total_at, without forking; pieces must be evaluable at every t"""
    tot = lift(0)
    for r, c in zip(recs, coefs):
        v = unwrap(r.f(h.array([t])))
        tot = tot + c * (zstep(t, r.L) - zstep(t, r.U)) * v
    return tot


def total_at(h, recs, coefs, t, arr=True):
    """sum_k c_k [L_k<t<U_k] f_k(t) (signed)"""
    tot = lift(0)
    for r, c in zip(recs, coefs):
        s = step(h, t, r.L) - step(h, t, r.U)
        if s == 0:
            continue
        v = r.f(h.array([t])) if arr else r.f(t)
        v = unwrap(v)
        tot = tot + c * s * v
    return tot


def subst(e, t, val):
    """Sym e with z3 constant t replaced by Sym/number val -> Sym"""
    val = lift(val)
    vz = val.z()
    n = lift(sym.simp(z3.substitute(e.n, (t.n, vz))))
    return n, [(z3.substitute(f, (t.n, vz)), p) for _i, f, p in e.d]


def check_limit(h, u, t, tend, want, label):
    """lim_{t->tend} u(t) == want (want may be +-inf).  u rational in t."""
    n, ds = subst(u, t, tend)
    dz = z3.RealVal(1)
    for f, p in ds:
        for _ in range(p):
            dz = dz * f
    if isinstance(want, float) and abs(want) == float('inf'):
        h.check(sym.mkbool(z3.And(dz == 0, n.n != 0)), label)
    else:
        w = lift(want)
        h.check(sym.mkbool(z3.And(dz != 0, n.n * w.dz() == w.n * dz)), label)
