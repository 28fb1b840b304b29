"""Helpers for pieces: recording integrals with all their routes, building
pieces, and comparing a computed number with 'constant + integral of want'."""
import inspect
import math
import types
import numpy as np
from . import sym
from .sym import Sym, lift, Infeasible
from .harness import stub, unwrap
from .integ import Rec
import pacal.integration as PI
import pacal.segments as S

INF = float('inf')
MAKERS = {}


def _pick(fn, args, kw):
    try:
        ba = inspect.signature(fn).bind(*args, **kw)
    except TypeError:
        raise
    return ba.arguments


def region(name, fn, args, kw):
    """(f, L, U) requested from integration routine `name`"""
    a = _pick(fn, args, kw)
    f = a['f']
    if name.endswith('pminf'):
        return f, -INF, INF
    if name.endswith('_pinf'):
        return f, a['a'], (INF if a.get('b') is None else a['b'])
    if name.endswith('_minf'):
        lo = a.get('a')
        return f, (-INF if lo is None else lo), a['b']
    return f, a['a'], a['b']


def routes():
    out = {}
    for n, f in list(PI.__dict__.items()):
        if n.startswith('integrate') and 'iter' not in n and callable(f) and getattr(f, '__module__', '') == 'pacal.integration':
            try:
                ps = inspect.signature(f).parameters
            except (TypeError, ValueError):
                continue
            if 'f' in ps:
                out[n] = f
    return out


_ROUTES = routes()


def freeze(f, depth=3):
    """copy of a closure with its current cell contents (callers reuse loop variables)"""
    if not isinstance(f, types.FunctionType) or not f.__closure__ or depth == 0:
        return f
    cells = []
    for cl in f.__closure__:
        try:
            cells.append(types.CellType(freeze(cl.cell_contents, depth - 1)))
        except ValueError:
            cells.append(cl)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


class Integrals(object):
    """with Integrals(h) as G: every integration routine records instead of integrating"""

    def __init__(self, h, *more):
        self.h, self.recs, self.more = h, [], more
        self.positive = False      # whole-piece integrals of positive densities

    def __enter__(self):
        if self.h.sym:
            pairs = [(f, self._mk(n, f)) for n, f in _ROUTES.items()]
            self.s = stub(*(pairs + list(self.more)))
            self.s.__enter__()
        return self

    def __exit__(self, *a):
        if self.h.sym:
            return self.s.__exit__(*a)
        return False

    def _mk(self, name, fn):
        def q(*args, **kw):
            f, L, U = region(name, fn, args, kw)
            L, U = unwrap(L), unwrap(U)
            v = self.h.c.fresh('I')
            if self.positive:
                self.h.c.assume(v > 0)
            self.recs.append(Rec(freeze(f), L, U, v, name))
            return v, 0.0
        return q

    def coefficients(self, result):
        c = self.h.c
        rest = lift(unwrap(result))
        cs = []
        base = rest
        for r in self.recs:
            ck = sym.diff(c, base, r.val.n)
            cs.append(ck)
            rest = rest - ck * r.val
        return cs, rest

    def _between(self, s, L, U):
        """[L<s<U] - [U<s<L], forking"""
        def st(a):
            if isinstance(a, float):
                return 0 if a == INF else 1
            return 1 if bool(s > a) else 0
        return st(lift(L)) - st(lift(U))

    def total(self, cs, t, inverses=None, args=None):
        """signed integrand mass at t (t = value of the probed argument)"""
        h = self.h
        tot = lift(0)
        for r, c in zip(self.recs, cs):
            if isinstance(c, Sym) and c.const() == 0:
                continue
            ss = [(t, 1)]
            if inverses:
                s = h.c.fresh('s')
                h.c.assume(s > 0)      # only used to read off the argument
                pr = args()
                del pr[:]
                n0 = len(h.c.pc)
                unwrap(r.f(h.array([s])))
                us = list(pr)
                del pr[:]
                ss = None
                if not us:
                    ss = [(t, 1)]
                else:
                    u = lift(us[0])
                    for cand, jac in inverses:
                        w = _at(u, s, cand)
                        if w is not None and h.c.valid(sym.tobool(w == t)):
                            ss = [(cand, jac)]
                            break
                if ss is None:
                    raise sym.Unsupported('integrand argument not recognised: %s' % (u,))
            for s, jac in ss:
                s = lift(s)
                if inverses:
                    for p in (r.L, r.U):
                        p = lift(p)
                        if not isinstance(p, float):
                            h.c.assume(s != p)
                w = self._between(s, r.L, r.U)
                if w == 0:
                    continue
                v = unwrap(r.f(h.array([s])))
                tot = tot + c * w * v * jac
        return tot

    def check(self, result, want, label, const=0, pts=(), rng=(-60, 60), inverses=None, args=None, tol=1e-7, ctol=1e-6, avoid=(), closed=None, margin=None):
        """result == const + integral of want over the real line"""
        h = self.h
        if h.sym:
            cs, rest = self.coefficients(result)
            if closed is not None and all(isinstance(c, Sym) and c.const() == 0 for c in cs):
                # evaluated in closed form
                h.check_eq(rest, const + closed, label, tol=tol)
                del self.recs[:]
                return
            h.check_eq(rest, const, label + ':constant', tol=tol)

            def at_t():
                t = h.c.fresh('t')
                for p in list(pts) + list(avoid):
                    p = lift(p)
                    if not isinstance(p, float):
                        if margin is not None:
                            h.c.assume(sym.mkbool(sym.z3.Or(sym.tobool(t - p >= margin), sym.tobool(p - t >= margin))))
                        else:
                            h.c.assume(t != p)
                if inverses is None:
                    for r in self.recs:
                        for p in (r.L, r.U):
                            p = lift(p)
                            if not isinstance(p, float):
                                h.c.assume(t != p)
                iv = inverses(t) if inverses else None
                h.check_eq(self.total(cs, t, iv, args), want(t), label, tol=tol)
            h.c.local(at_t)
            del self.recs[:]
        else:
            v = const + reference(want, pts)
            h.check_eq(result, v, label, ctol=ctol)


def complement(G, result, want, label, all_, const, total, pts, **kw):
    """probability computed directly (const + integral of want) or as one minus the
    rest (total: sum of all masses, all_: the density); operands need not be normalised"""
    h = G.h
    alts = [(want, const), (lambda t: want(t) - all_(t), 1 - total + const)]
    if h.sym:
        cs, rest = G.coefficients(result)
        for w, k in alts:
            if h.c.valid(sym.tobool(rest == k)) is True:
                return G.check(result, w, label, const=k, pts=pts, **kw)
        return G.check(result, want, label, const=const, pts=pts, **kw)
    vs = [k + reference(w, pts) for w, k in alts]
    v = min(vs, key=lambda t: abs(t - float(unwrap(result))))
    h.check_eq(result, v, label, ctol=kw.get('ctol', 1e-6))


def _at(u, s, val):
    try:
        val = lift(val)
        import z3
        n = lift(sym.simp(z3.substitute(u.n, (s.n, val.z()))))
        for _i, f, p in u.d:
            fz = Sym(sym.simp(z3.substitute(f, (s.n, val.z()))))
            for _ in range(p):
                n = n / fz
        return n
    except Exception:
        return None


def _gl(f, lo, hi, n=60):
    xs, ws = np.polynomial.legendre.leggauss(30)
    e = np.linspace(lo, hi, n + 1)
    m, r = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    X = (m[:, None] + r[:, None] * xs[None, :]).ravel()
    Y = np.array([float(unwrap(f(float(x)))) for x in X])
    Y[~np.isfinite(Y)] = 0.0
    return float((Y.reshape(n, -1) * ws[None, :] * r[:, None]).sum())


def reference(want, pts):
    """integral of a scalar function between the sorted break points (may be infinite)"""
    ps = sorted(set(float(p) for p in pts))
    tot = 0.0
    for lo, hi in zip(ps[:-1], ps[1:]):
        if hi - lo < 1e-13:
            continue
        if math.isinf(lo) and math.isinf(hi):
            segs = [(-INF, 0.0), (0.0, INF)]
        else:
            segs = [(lo, hi)]
        for a, b in segs:
            if not math.isinf(a) and not math.isinf(b):
                tot += _gl(want, a, b, 12)
            elif math.isinf(b):
                tot += _gl(want, a, a + 10, 20)
                tot += _gl(lambda s: want(a + 10 + s / (1 - s)) / (1 - s) ** 2, 0.0, 1.0, 30)
            else:
                tot += _gl(want, b - 10, b, 20)
                tot += _gl(lambda s: want(b - 10 - s / (1 - s)) / (1 - s) ** 2, 0.0, 1.0, 30)
    return tot


def ind(h, c):
    """indicator; forks"""
    return 1 if bool(c) else 0


def make(h, kind, f, a, b, c=None):
    if kind == 'seg':
        return S.Segment(a, b, f)
    if kind == 'const':
        return S.ConstSegment(a, b, c)
    if kind == 'pinf':
        return S.PInfSegment(a, f)
    if kind == 'minf':
        return S.MInfSegment(b, f)
    if kind == 'poleL':
        return S.SegmentWithPole(a, b, f, left_pole=True)
    if kind == 'poleR':
        return S.SegmentWithPole(a, b, f, left_pole=False)
    raise KeyError(kind)


def ends(kind, a, b):
    return (-INF if kind == 'minf' else a), (INF if kind == 'pinf' else b)
