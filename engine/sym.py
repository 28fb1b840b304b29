"""Symbolic values over Z3 reals, executed by the real /repo code.

A Sym is a rational function n/d of Z3 real variables (d a product of factors
known to be nonzero on the current path).  Comparisons give SymBool, whose
truth value forks the path (re-execution depth-first search, see Ctx.explore).
Functions which are not rational (densities, exp, log, sqrt, ...) are
applications of uninterpreted functions, Ackermannised per path, with the
axioms listed in AXIOMS added for the standard ones.
"""
import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param('memory_max_size', 6000)


class Steer(BaseException):
    """Engine control flow; never caught by `except Exception`."""


class Unsupported(Steer):
    pass


class PathEnd(Steer):
    pass


class Infeasible(Steer):
    pass


class Timeout(Steer):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX


INF = float('inf')
NAN = float('nan')

AXIOMS = {
    'exp': 'exp>0; exp(a)exp(b)=exp(a+b) for the occurring sums; monotone; exp(0)=1; inverse of log',
    'log': 'log(x) only for x>0; inverse of exp; monotone',
    'sqrt': 's>=0, s*s=x for x>=0',
    'root': 'r>=0, r^n=x for x>=0',
    'sincos': 'sin^2+cos^2=1; tan=sin/cos',
    'atan': 'atan odd, range, inverse of tan; arcsin/arccos ranges, inverse, arcsin+arccos=pi/2',
    'lgamma': 'uninterpreted',
}


def is_inf(x):
    return isinstance(x, float) and (x == INF or x == -INF)


def q2z(fr):
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.Q(fr.numerator, fr.denominator)


def z2q(e):
    """Fraction of a numeral z3 expr, or None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def simp(e):
    return z3.simplify(e, som=True)


ONE = z3.RealVal(1)
ZERO = z3.RealVal(0)


def _term_coeff(t):
    """(coefficient Fraction, rest) of one monomial."""
    q = z2q(t)
    if q is not None:
        return q
    if z3.is_mul(t):
        q = z2q(t.arg(0))
        if q is not None:
            return q
    return Fraction(1)


def split_content(e):
    """e (in som form) = c * p with p's leading coefficient 1."""
    q = z2q(e)
    if q is not None:
        return q, ONE
    t = e.arg(0) if z3.is_add(e) else e
    # pick first non-constant monomial as leading for canonicity
    if z3.is_add(e):
        for i in range(e.num_args()):
            if z2q(e.arg(i)) is None:
                t = e.arg(i)
                break
    c = _term_coeff(t)
    if c == 1:
        return Fraction(1), e
    return c, simp(e * q2z(1 / c))


def powz(e, k):
    r = e
    for _ in range(k - 1):
        r = r * e
    return r


class Sym(object):
    __slots__ = ('n', 'd')
    # d: tuple of (ast id, expr, power), sorted by id

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # --- construction helpers
    def dz(self):
        r = None
        for _i, e, p in self.d:
            t = powz(e, p)
            r = t if r is None else r * t
        return ONE if r is None else r

    def z(self):
        """plain z3 term"""
        if not self.d:
            return self.n
        return self.n / self.dz()

    def const(self):
        if self.d:
            return None
        return z2q(self.n)

    def __repr__(self):
        s = str(simp(self.n)).replace('\n', ' ')
        if len(s) > 300:
            s = s[:300] + '...'
        if self.d:
            return "Sym(%s / %s)" % (s, str(simp(self.dz())).replace('\n', ' ')[:200])
        return "Sym(%s)" % s
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return 7

    def __float__(self):
        c = self.const()
        if c is None:
            s = simp(self.n)
            c = z2q(s) if not self.d else None
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            c = z2q(simp(self.n)) if not self.d else None
        if c is None:
            return ctx().concretize_int(self)
        return int(c)

    __trunc__ = __int__

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("index() of a symbolic value")

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        raise Unsupported("complex")

    # numpy scalar look-alikes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def squeeze(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def conjugate(self):
        return self

    def astype(self, t):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")

    def _sympy_(self):
        """placeholder in sympy expressions; ctx().sympy_syms maps it back"""
        import sympy
        c = self.const()
        if c is not None:
            return sympy.Rational(c.numerator, c.denominator)
        t = ctx().sympy_syms
        z = simp(self.z())
        s = sympy.Symbol('sv%d' % z.get_id(), real=True)
        t[s.name] = (self, z)
        return s

    # --- arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if rev:
            return op(o, self)
        return op(self, o)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)

    def __mod__(self, o):
        o = lift(o)
        q = (self / o)
        return self - ctx().floor(q) * o

    def __floordiv__(self, o):
        return ctx().floor(self / o)

    def __rfloordiv__(self, o):
        return ctx().floor(o / self)

    def __neg__(self):
        return Sym(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.const()
        if c is not None:
            return self if c >= 0 else -self
        if self >= 0:
            return self
        return -self

    # --- comparisons
    def _cmp(self, o, kind):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if o is None:
            if kind in ('eq', 'ne'):
                return kind == 'ne'
            return NotImplemented
        return s_cmp(self, o, kind)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    # --- methods used by numpy ufuncs on object arrays
    def exp(self): return ctx().f_exp(self)
    def log(self): return ctx().f_log(self)
    def log1p(self): return ctx().f_log(self + 1)
    def expm1(self): return ctx().f_exp(self) - 1
    def sqrt(self): return ctx().f_sqrt(self)
    def sin(self): return ctx().f_sincos(self)[0]
    def cos(self): return ctx().f_sincos(self)[1]
    def tan(self):
        s, c = ctx().f_sincos(self)
        return s / c
    def arctan(self): return ctx().f_atan(self)
    def arcsin(self): return ctx().f_asin(self)
    def arccos(self): return ctx().f_acos(self)
    def sinh(self):
        e = ctx().f_exp(self)
        return (e - 1 / e) / 2
    def cosh(self):
        e = ctx().f_exp(self)
        return (e + 1 / e) / 2
    def tanh(self):
        e = ctx().f_exp(self * 2)
        return (e - 1) / (e + 1)
    def arctanh(self):
        return ctx().f_log((1 + self) / (1 - self)) / 2
    def log10(self): return ctx().f_log(self) / Fraction(math.log(10))
    def log2(self): return ctx().f_log(self) / Fraction(math.log(2))
    def floor(self): return ctx().floor(self)
    def ceil(self): return -ctx().floor(-self)
    __floor__ = floor
    __ceil__ = ceil
    def rint(self): return ctx().floor(self + Fraction(1, 2))
    def hypot(self, o): return ctx().f_sqrt(self * self + o * o)
    def square(self): return self * self
    def is_integer(self):
        c = self.const()
        if c is not None:
            return c.denominator == 1
        return bool(ctx().floor(self) == self)


numbers.Real.register(Sym)


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o): return mkbool(z3.And(self.e, tobool(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.e, tobool(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(z3.Not(self.e))
    def __xor__(self, o): return mkbool(z3.Xor(self.e, tobool(o)))
    def __repr__(self):
        return "SymBool(%s)" % str(self.e)[:200]
    # numeric use of a mask
    def _num(self):
        return 1.0 if bool(self) else 0.0
    def __mul__(self, o): return o * self._num()
    __rmul__ = __mul__
    def __add__(self, o): return o + self._num()
    __radd__ = __add__
    def __eq__(self, o): return bool(self) == o
    def __ne__(self, o): return bool(self) != o
    def __hash__(self): return 11
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def astype(self, t): return self._num()


def tobool(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, z3.BoolRef):
        return o
    return z3.BoolVal(bool(o))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def lift(x):
    """Number -> Sym or a special float (inf/nan); None when not a number."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return lift(x._num())
    if isinstance(x, (bool, np.bool_)):
        return Sym(ONE if x else ZERO)
    if isinstance(x, (int, np.integer)):
        return Sym(z3.RealVal(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        return Sym(q2z(Fraction(x)))
    if isinstance(x, Fraction):
        return Sym(q2z(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x.item())
    if isinstance(x, (complex, np.complexfloating)) and x.imag == 0:
        return lift(x.real)
    if z3.is_expr(x):
        return Sym(x)
    try:
        import sympy
        if isinstance(x, sympy.Basic):
            if x is sympy.oo:
                return INF
            if x is -sympy.oo:
                return -INF
            if x.is_Rational:
                return Sym(q2z(Fraction(int(x.p), int(x.q))))
            if x.is_number and x.is_real:
                return lift(float(x))
    except ImportError:
        pass
    return None


def _isspecial(x):
    return isinstance(x, float)


def s_add(a, b):
    if _isspecial(a):
        if _isspecial(b):
            return a + b
        return a
    if _isspecial(b):
        return b
    if not a.d and not b.d:
        return Sym(_fold(a.n + b.n, a.n, b.n))
    if a.d == b.d:
        return _mk(a.n + b.n, a.d)
    # lcm
    da = {i: (e, p) for i, e, p in a.d}
    db = {i: (e, p) for i, e, p in b.d}
    na, nb = a.n, b.n
    d = []
    for i in sorted(set(da) | set(db)):
        ea, pa = da.get(i, (None, 0))
        eb, pb = db.get(i, (None, 0))
        e = ea if ea is not None else eb
        p = max(pa, pb)
        d.append((i, e, p))
        if p > pa:
            na = na * powz(e, p - pa)
        if p > pb:
            nb = nb * powz(e, p - pb)
    return _mk(na + nb, tuple(d))


def _fold(e, *args):
    for a in args:
        if not z3.is_rational_value(a):
            return e
    return z3.simplify(e)


def _mk(n, d):
    """normalise; drop denominator when numerator is 0"""
    if not d:
        return Sym(n)
    n = simp(n)
    q = z2q(n)
    if q is not None and q == 0:
        return Sym(ZERO)
    return cancel(n, d)


def cancel(n, d):
    """Cancel factors of d that are syntactically factors of n."""
    changed = False
    out = []
    for i, e, p in d:
        while p > 0:
            c, m = split_content(n)
            if m.eq(e):
                n = q2z(c)
                p -= 1
                changed = True
                continue
            # single-monomial factor
            r = _div_mono(n, e)
            if r is None:
                break
            n = r
            p -= 1
            changed = True
        if p > 0:
            out.append((i, e, p))
    return Sym(n, tuple(out))


def _vars_of_mono(t):
    """dict var id -> (var, power), or None if not a pure monomial"""
    res = {}
    c = Fraction(1)
    stack = [t]
    while stack:
        u = stack.pop()
        q = z2q(u)
        if q is not None:
            c *= q
        elif z3.is_mul(u):
            stack.extend(u.children())
        elif u.decl().kind() == z3.Z3_OP_POWER and z2q(u.arg(1)) is not None:
            k = z2q(u.arg(1))
            if k.denominator != 1:
                return None
            b = u.arg(0)
            v, p = res.get(b.get_id(), (b, 0))
            res[b.get_id()] = (b, p + int(k))
        elif z3.is_const(u):
            v, p = res.get(u.get_id(), (u, 0))
            res[u.get_id()] = (u, p + 1)
        else:
            return None
    return c, res


def _div_mono(n, e):
    if not z3.is_const(e) or z2q(e) is not None:
        return None
    terms = n.children() if z3.is_add(n) else [n]
    out = []
    for t in terms:
        m = _vars_of_mono(t)
        if m is None:
            return None
        c, vs = m
        if e.get_id() not in vs:
            return None
        v, p = vs[e.get_id()]
        if p == 1:
            del vs[e.get_id()]
        else:
            vs[e.get_id()] = (v, p - 1)
        r = q2z(c)
        for v, p in vs.values():
            r = r * powz(v, p)
        out.append(r)
    r = out[0]
    for t in out[1:]:
        r = r + t
    return simp(r)


def s_neg(a):
    return -a


def s_sub(a, b):
    if _isspecial(b):
        return s_add(a, -b)
    return s_add(a, -b)


def _sign_of(a):
    """-1, 0, 1 (forks)."""
    if a > 0:
        return 1
    if a < 0:
        return -1
    return 0


def s_mul(a, b):
    if _isspecial(a) or _isspecial(b):
        if _isspecial(a) and _isspecial(b):
            return a * b
        sp, s = (a, b) if _isspecial(a) else (b, a)
        if math.isnan(sp):
            return NAN
        sg = _sign_of(s)
        if sg == 0:
            return NAN
        return sp * sg
    if not a.d and not b.d:
        ca, cb = z2q(a.n), z2q(b.n)
        if ca is not None and cb is not None:
            return Sym(q2z(ca * cb))
        if ca is not None:
            if ca == 0:
                return Sym(ZERO)
            if ca == 1:
                return b
        if cb is not None:
            if cb == 0:
                return Sym(ZERO)
            if cb == 1:
                return a
        return Sym(a.n * b.n)
    dd = {}
    for i, e, p in a.d + b.d:
        if i in dd:
            dd[i] = (e, dd[i][1] + p)
        else:
            dd[i] = (e, p)
    d = tuple((i, e, p) for i, (e, p) in sorted(dd.items()))
    return _mk(a.n * b.n, d)


def s_div(a, b):
    if _isspecial(b):
        if _isspecial(a):
            return NAN
        if math.isnan(b):
            return NAN
        return Sym(ZERO)
    cb = b.const()
    if cb is not None:
        if cb == 0:
            return _div_zero(a)
        if _isspecial(a):
            return a if cb > 0 else -a
        return s_mul(a, Sym(q2z(1 / cb)))
    if _isspecial(a):
        if math.isnan(a):
            return NAN
        sg = _sign_of(b)
        if sg == 0:
            return a
        return a * sg
    bn = simp(b.n)
    q = z2q(bn)
    if q is not None and q == 0:
        return _div_zero(a)
    c = ctx()
    if q is None:
        if not c.known_nonzero(bn):
            if not c.branch(bn != 0):
                return _div_zero(a)
            c.note_nonzero(bn)
    # a / (bn / bd) = a * bd / bn
    n = a.n
    for _i, e, p in b.d:
        n = n * powz(e, p)
    cc, prim = split_content(bn)
    n = n * q2z(1 / cc)
    if z2q(prim) is not None:
        return _mk(n, a.d)
    # factor a pure monomial into its variables
    facs = []
    m = _vars_of_mono(prim)
    if m is not None:
        facs = [(v, p) for v, p in m[1].values()]
    else:
        facs = [(prim, 1)]
    dd = {i: (e, p) for i, e, p in a.d}
    for e, p in facs:
        i = e.get_id()
        c.keep.append(e)
        if i in dd:
            dd[i] = (e, dd[i][1] + p)
        else:
            dd[i] = (e, p)
    d = tuple((i, e, p) for i, (e, p) in sorted(dd.items()))
    return _mk(n, d)


def _div_zero(a):
    """numpy semantics of x/0 (sign of the zero: +0)."""
    c = ctx()
    c.div_zero += 1
    if _isspecial(a):
        return a
    sg = _sign_of(a)
    return NAN if sg == 0 else sg * INF


def s_pow(a, b):
    if _isspecial(a) or _isspecial(b):
        if _isspecial(a) and _isspecial(b):
            try:
                return a ** b
            except ZeroDivisionError:
                return INF
        if _isspecial(b):
            # finite ** inf
            if math.isnan(b):
                return NAN
            m = abs(a)
            if m == 1:
                return Sym(ONE)
            big = bool(m > 1)
            return INF if big == (b > 0) else Sym(ZERO)
        # inf ** finite
        if math.isnan(a):
            return NAN
        cb = b.const()
        if cb is None:
            sg = _sign_of(b)
            if a > 0:
                return Sym(ONE) if sg == 0 else (INF if sg > 0 else Sym(ZERO))
            raise Unsupported("(-inf)**symbolic")
        if cb == 0:
            return Sym(ONE)
        try:
            r = a ** float(cb)
        except Exception:
            raise Unsupported("inf power")
        if isinstance(r, complex):
            return NAN
        return lift(r)
    cb = b.const()
    c = ctx()
    ca = a.const()
    if cb is not None and cb.denominator == 1 and abs(cb) <= 64:
        k = int(cb)
        if k == 0:
            return Sym(ONE)
        if k < 0:
            return s_div(Sym(ONE), s_pow(a, Sym(q2z(Fraction(-k)))))
        r = a
        for _ in range(k - 1):
            r = s_mul(r, a)
        return r
    if cb is not None:
        fr = cb
        if fr.denominator > 64:
            fr = cb.limit_denominator(64)
            if abs(float(fr) - float(cb)) > 1e-14 * max(1, abs(float(cb))):
                fr = None
        if fr is not None and fr.denominator <= 8 and abs(fr) <= 64:
            # rational power through roots
            if a < 0:
                return NAN
            if a == 0:
                if fr > 0:
                    return Sym(ZERO)
                return INF
            r = c.f_root(a, fr.denominator)
            return s_pow(r, Sym(q2z(Fraction(fr.numerator))))
    # general: a**b = exp(b*log a), a>0
    if a < 0:
        # only integral exponents make sense
        raise Unsupported("negative base with symbolic exponent")
    if a == 0:
        sg = _sign_of(b)
        return Sym(ONE) if sg == 0 else (Sym(ZERO) if sg > 0 else INF)
    return c.f_exp(s_mul(b, c.f_log(a)))


_PY = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
       'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
_FLIP = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def s_cmp(a, b, kind):
    if _isspecial(a) or _isspecial(b):
        fa = a if _isspecial(a) else 0.0
        fb = b if _isspecial(b) else 0.0
        return _PY[kind](fa, fb)
    df = s_sub(a, b)
    return mkbool(rel0(df, kind))


def rel0(df, kind):
    """z3 formula: df kind 0"""
    n = df.n
    if kind not in ('eq', 'ne'):
        for _i, e, p in df.d:
            if p % 2:
                n = n * e
    n = simp(n)
    if kind == 'lt':
        return n < 0
    if kind == 'le':
        return n <= 0
    if kind == 'gt':
        return n > 0
    if kind == 'ge':
        return n >= 0
    if kind == 'eq':
        return n == 0
    return n != 0


def z_eq(a, b):
    """SymBool/bool without forking."""
    return s_cmp(lift(a), lift(b), 'eq')


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.paths = 0
        self.forks = 0


STATS = Stats()


def solver_check(constraints, timeout_ms, want_model=False):
    """(result, model). Tries the default solver, then nlsat."""
    STATS.queries += 1
    t0 = time.time()
    try:
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout_ms))
        s.add(*constraints)
        r = s.check()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('timeout', int(timeout_ms))
            s2.add(*constraints)
            r2 = s2.check()
            if r2 != z3.unknown:
                s, r = s2, r2
        if r == z3.unknown:
            STATS.unknown += 1
        if r == z3.sat and want_model:
            return r, s.model()
        return r, None
    except z3.Z3Exception as ex:
        if 'canceled' in str(ex) or 'memory' in str(ex) or 'timeout' in str(ex):
            STATS.unknown += 1
            return z3.unknown, None
        raise
    finally:
        STATS.solver_time += time.time() - t0


class App(object):
    __slots__ = ('name', 'args', 'val')

    def __init__(self, name, args, val):
        self.name, self.args, self.val = name, args, val


class Ctx(object):
    """One exploration (many paths)."""

    def __init__(self, fork_timeout=1500, check_timeout=20000, max_paths=2000, deadline=None):
        self.fork_timeout = fork_timeout
        self.check_timeout = check_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.prefix = []
        self.inc, self.inc_pc, self.inc_bad = None, [], 0
        self.model, self.model_pc = None, []
        self.reset_path()
        self.truncated = False

    def reset_path(self):
        self.trail = []      # (value, forced)
        self.pc = []         # z3 constraints of this path (assumptions, axioms and branches)
        self.nonzero = set()
        self.apps = {}       # name -> [App]
        self.fresh_n = 0
        self.names = {}
        self.keep = []
        self.div_zero = 0
        self.decided = {}
        self.sympy_syms = {}
        self.integ = []
        self._lemcache = {}
        self._leafmap = None

    # --- variables
    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        nm = name if k == 0 else "%s!%d" % (name, k)
        return Sym(z3.Real(nm))

    def assume(self, c):
        c = tobool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)

    def assume_checked(self, c):
        self.assume(c)
        if solver_check(self.pc, self.fork_timeout)[0] == z3.unsat:
            raise Infeasible()

    def known_nonzero(self, e):
        return e.get_id() in self.nonzero

    def note_nonzero(self, e):
        self.keep.append(e)
        self.nonzero.add(e.get_id())

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout()

    # --- forking
    def local(self, fn):
        """fn on every combination of the branches taken inside it, without
        forking the path itself; nothing fn does to the path stays"""
        names = ('trail', 'pc', 'nonzero', 'apps', 'fresh_n', 'names', 'keep', 'div_zero', 'integ', '_lemcache', '_leafmap', 'prefix', 'decided')
        saved = {n: getattr(self, n) for n in names if hasattr(self, n)}
        work = [[]]
        try:
            while work:
                self.tick()
                for n, v in saved.items():
                    setattr(self, n, {k: list(x) for k, x in v.items()} if n == 'apps' else list(v) if isinstance(v, list) else set(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else v)
                self.trail = []
                self.prefix = work.pop()
                n0 = len(self.prefix)
                try:
                    fn()
                except Infeasible:
                    pass
                t = self.trail
                for i in range(n0, len(t)):
                    if t[i][0] and not t[i][1]:
                        work.append(t[:i] + [(False, True)])
        finally:
            for n, v in saved.items():
                setattr(self, n, v)

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.decided:
            return self.decided[k][0]
        neg = z3.simplify(z3.Not(cond))
        nk = neg.get_id()
        if nk in self.decided:
            return not self.decided[nk][0]
        v = self._branch(cond)
        self.decided[k] = (v, cond)
        return v

    def _branch(self, cond):
        i = len(self.trail)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            self.trail.append((v, forced))
            self.pc.append(cond if v else z3.Not(cond))
            return v
        self.tick()
        rt = self.feasible(cond)
        if rt == z3.unsat:
            self.trail.append((False, True))
            self.pc.append(z3.Not(cond))
            return False
        rf = self.feasible(z3.Not(cond))
        if rf == z3.unsat:
            self.trail.append((True, True))
            self.pc.append(cond)
            return True
        STATS.forks += 1
        self.trail.append((True, False))
        self.pc.append(cond)
        return True

    def feasible(self, cond):
        """pc and cond satisfiable?  incremental solver first, then from scratch"""
        if self._model_says(cond):
            return z3.sat
        if self.inc_bad < 25:
            t0 = time.time()
            pc, st = self.pc, self.inc_pc
            n = len(st)
            s = self.inc
            if s is None or n > len(pc) or (n and st[-1] is not pc[n - 1]) or (n and st[0] is not pc[0]):
                s = self.inc = z3.SimpleSolver()
                s.set('timeout', 150)
                st = self.inc_pc = []
                n = 0
            for c in pc[n:]:
                s.add(c)
                st.append(c)
            s.push()
            try:
                s.add(cond)
                r = s.check()
                if r == z3.sat:
                    self.model, self.model_pc = s.model(), list(pc)
            finally:
                s.pop()
            STATS.queries += 1
            STATS.solver_time += time.time() - t0
            if r != z3.unknown:
                return r
            self.inc_bad += 1
        return solver_check(self.pc + [cond], self.fork_timeout)[0]

    def _model_says(self, cond):
        """the last model still satisfies pc, and cond too"""
        m = self.model
        if m is None:
            return False
        pc, st = self.pc, self.model_pc
        n = len(st)
        if n > len(pc) or (n and (st[-1] is not pc[n - 1] or st[0] is not pc[0])):
            self.model = None
            return False
        try:
            for c in pc[n:]:
                if not z3.is_true(m.eval(c, model_completion=True)):
                    self.model = None
                    return False
                st.append(c)
            return z3.is_true(m.eval(cond, model_completion=True))
        except z3.Z3Exception:
            self.model = None
            return False

    def plausible(self, cond):
        """False if a model of the path refutes cond"""
        cond = tobool(cond)
        if self.model is not None and not self._model_says(z3.BoolVal(True)):
            self.model = None
        if self.model is None:
            self.feasible(z3.BoolVal(True))
        if self.model is None:
            return True
        try:
            return not z3.is_false(self.model.eval(cond, model_completion=True))
        except z3.Z3Exception:
            return True

    def valid(self, cond, timeout=None):
        """pc => cond ?  True / False / None"""
        cond = z3.simplify(tobool(cond))
        if z3.is_true(cond):
            return True
        r, _ = solver_check(self.pc + self.lemmas() + [z3.Not(cond)], timeout or self.fork_timeout)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def explore(self, fn):
        """Run fn on every path.  fn may raise PathEnd/Infeasible."""
        global CTX
        old = CTX
        CTX = self
        npaths = 0
        try:
            # pending prefixes; alternately the shallowest (spreads over the
            # configurations when the budget runs out) and the latest
            work = [[]]
            while work:
                if npaths >= self.max_paths:
                    self.truncated = True
                    break
                self.tick()
                if npaths % 2:
                    k = min(range(len(work)), key=lambda j: len(work[j]))
                    self.prefix = work.pop(k)
                else:
                    self.prefix = work.pop()
                n0 = len(self.prefix)
                self.reset_path()
                try:
                    fn()
                except (PathEnd, Infeasible):
                    pass
                npaths += 1
                STATS.paths += 1
                t = self.trail
                for i in range(n0, len(t)):
                    if t[i][0] and not t[i][1]:
                        work.append(t[:i] + [(False, True)])
        except Timeout:
            self.truncated = True
        finally:
            CTX = old
        return npaths

    def concretize_int(self, s):
        """integer-valued symbolic -> fork over small values"""
        f = self.floor(s)
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, 9, 10, 11, 12, 13, 14, 15, 16):
            if f == k:
                return k
        raise Unsupported("int() of a symbolic value out of range")

    # --- uninterpreted functions
    def same(self, a, b):
        df = s_sub(a, b)
        if _isspecial(df):
            return False
        n = simp(df.n)
        q = z2q(n)
        if q is not None:
            return q == 0
        return None

    def app(self, name, *args, **kw):
        """application of uninterpreted function; args Sym (finite)."""
        args = tuple(lift(a) for a in args)
        lst = self.apps.setdefault(name, [])
        cand = []
        for ap in lst:
            r = [self.same(x, y) for x, y in zip(ap.args, args)]
            if all(x is True for x in r):
                return ap.val
            if not any(x is False for x in r):
                cand.append(ap)
        if len(cand) <= 6:
            for ap in cand:
                conds = [z_eq(x, y) for x, y in zip(ap.args, args)]
                e = z3.simplify(z3.And(*[tobool(c) for c in conds]))
                if z3.is_true(e):
                    return ap.val
                if z3.is_false(e):
                    continue
                if self.plausible(e) and solver_check(self.pc + [z3.Not(e)], 300)[0] == z3.unsat:
                    return ap.val
        v = kw.get('val') or self.fresh(name)
        lst.append(App(name, args, v))
        return v

    def lemmas(self):
        """Ackermann congruence + lemmas linking transcendental apps."""
        out = []
        done = self._lemcache
        for name, lst in self.apps.items():
            if name in ('acos', 'log'):
                continue
            n0, ls = done.get(name, (0, []))
            for i in range(n0, len(lst)):
                for j in range(i):
                    x, y = lst[i], lst[j]
                    if any(self.same(p, q) is False for p, q in zip(x.args, y.args)):
                        continue
                    eqs = [tobool(z_eq(p, q)) for p, q in zip(x.args, y.args)]
                    ls.append(z3.Implies(z3.And(*eqs), tobool(z_eq(x.val, y.val))))
            done[name] = (len(lst), ls)
            out.extend(ls)
        ne = len(self.apps.get('exp', []))
        if done.get('!exp', (None,))[0] != ne:
            done['!exp'] = (ne, self._exp_lemmas())
        out.extend(done['!exp'][1])
        return out

    def _exp_lemmas(self):
        lst = self.apps.get('exp', [])
        out = []
        n = len(lst)
        if n == 0 or n > 14:
            return out
        # sums
        for i in range(n):
            for j in range(i, n):
                s = s_add(lst[i].args[0], lst[j].args[0])
                if self.same(s, Sym(ZERO)):
                    out.append(tobool(z_eq(s_mul(lst[i].val, lst[j].val), 1)))
                for k in range(n):
                    if k == i or k == j:
                        continue
                    if self.same(s, lst[k].args[0]):
                        out.append(tobool(z_eq(s_mul(lst[i].val, lst[j].val), lst[k].val)))
        return out

    def _mono(self, name):
        """the newest application against the earlier ones: increasing function"""
        lst = self.apps[name]
        a = lst[-1]
        for b in lst[-31:-1]:
            if self.same(a.args[0], b.args[0]) or self.same(a.val, b.val):
                continue
            for k in ('lt', 'gt'):
                self.pc.append(tobool(s_cmp(a.args[0], b.args[0], k)) == tobool(s_cmp(a.val, b.val, k)))

    def f_exp(self, x):
        if _isspecial(x):
            return math.exp(x) if x < 0 or math.isnan(x) else x
        s = simp(x.n) if not x.d else None
        if s is not None and z2q(s) == 0:
            return Sym(ONE)
        # is x a log of something?
        for ap in self.apps.get('log', []):
            if self.same(ap.val, x):
                return ap.args[0]
        k = len(self.apps.get('exp', []))
        v = self.app('exp', x)
        if len(self.apps.get('exp', [])) > k:
            self.pc.append(v.n > 0)
            self.note_nonzero(v.n)
            self._anchors(lift(x), v)
            self._mono('exp')
        return v

    def _anchors(self, a, v):
        """exp(a) = v compared with a few rational values (linear facts)"""
        for c in (Fraction(1, 1000), Fraction(1, 10), Fraction(1, 2), Fraction(1), Fraction(2), Fraction(10), Fraction(100), Fraction(1000)):
            l = Fraction(math.log(c)) if c != 1 else Fraction(0)      # the rounded logarithm stands for the exact one
            for k in ('lt', 'gt'):
                self.pc.append(tobool(s_cmp(v, lift(c), k)) == tobool(s_cmp(a, lift(l), k)))
        self.pc.append(tobool(s_cmp(v, s_add(a, Sym(ONE)), 'ge')))

    def f_log(self, x):
        if _isspecial(x):
            return x if x > 0 else NAN
        if x == 0:
            return -INF
        if x < 0:
            return NAN
        if x.const() == 1:
            return Sym(ZERO)
        # log of an exp value
        return self._log_pos(x)

    def _log_pos(self, x):
        """log of x known positive; splits products/quotients of atoms known positive."""
        for ap in self.apps.get('exp', []):
            if self.same(ap.val, x):
                return ap.args[0]
        n = simp(x.n)
        m = _vars_of_mono(n)
        if m is not None and (len(m[1]) + len(x.d) > 1 or m[0] != 1 or any(p != 1 for _v, p in m[1].values())):
            c, vs = m
            ok = c > 0
            parts = []
            if ok:
                for v, p in vs.values():
                    if self.valid(v > 0):
                        parts.append((v, p))
                    else:
                        ok = False
                        break
            if ok:
                for _i, e, p in x.d:
                    if self.valid(e > 0):
                        parts.append((e, -p))
                    else:
                        ok = False
                        break
            if ok:
                r = Sym(ZERO)
                if c != 1:
                    r = s_add(r, self._log_atom(Sym(q2z(c))))
                for v, p in parts:
                    r = s_add(r, s_mul(Sym(z3.RealVal(p)), self._log_atom(Sym(v))))
                return r
        elif x.d:
            # polynomial / product of factors
            nn, dd = Sym(n), None
            ok = self.valid(n > 0)
            parts = []
            if ok:
                for _i, e, p in x.d:
                    if self.valid(e > 0):
                        parts.append((e, -p))
                    else:
                        ok = False
                        break
            if ok:
                r = self._log_atom(nn)
                for v, p in parts:
                    r = s_add(r, s_mul(Sym(z3.RealVal(p)), self._log_atom(Sym(v))))
                return r
        return self._log_atom(x)

    def _log_atom(self, x):
        q = x.const()
        if q == 1:
            return Sym(ZERO)
        if q is not None and q < 1 and q.numerator == 1:
            return -self._log_atom(Sym(q2z(1 / q)))
        if q is None and not x.d:
            for nm in self.apps:
                if nm.startswith('root'):
                    for ap in self.apps[nm]:
                        if ap.val.n.eq(simp(x.n)):
                            return s_mul(Sym(q2z(Fraction(1, int(nm[4:])))), self._log_pos(ap.args[0]))
        for ap in self.apps.get('exp', []):
            if self.same(ap.val, x):
                return ap.args[0]
            if self.plausible(z_eq(ap.val, x)) and self.valid(z_eq(ap.val, x), timeout=300):
                return ap.args[0]
        if q is not None:
            v = Sym(q2z(Fraction(math.log(q))))     # the rounded logarithm stands for the exact one
        else:
            v = self.fresh('log')
        # register exp(v) = x
        self.apps.setdefault('exp', []).append(App('exp', (v,), x))
        self.apps.setdefault('log', []).append(App('log', (x,), v))
        self._anchors(v, x)
        self._mono('exp')
        return v

    def f_sqrt(self, x):
        return self.f_root(x, 2)

    def f_root(self, x, k):
        if _isspecial(x):
            return x if x > 0 else NAN
        if k == 1:
            return x
        q = x.const()
        if q is not None:
            if q < 0:
                return NAN
            # exact root?
            for cand in (Fraction(round(float(q) ** (1.0 / k))), ):
                if cand ** k == q:
                    return Sym(q2z(cand))
        if x < 0:
            return NAN
        nm = 'root%d' % k
        n0 = len(self.apps.get(nm, []))
        v = self.app(nm, x)
        if len(self.apps.get(nm, [])) > n0:
            self.pc.append(v.n >= 0)
            p = v
            for _ in range(k - 1):
                p = s_mul(p, v)
            self.pc.append(tobool(z_eq(p, x)))
        return v

    def f_sincos(self, x):
        if _isspecial(x):
            return NAN, NAN
        q = simp(x.n) if not x.d else None
        if q is not None and z2q(q) == 0:
            return Sym(ZERO), Sym(ONE)
        # inverse functions
        for ap in self.apps.get('asin', []):
            if self.same(ap.val, x):
                return ap.args[0], self.f_sqrt(1 - ap.args[0] * ap.args[0])
        for ap in self.apps.get('acos', []):
            if self.same(ap.val, x):
                return self.f_sqrt(1 - ap.args[0] * ap.args[0]), ap.args[0]
        for ap in self.apps.get('atan', []):
            if self.same(ap.val, x):
                h = self.f_sqrt(1 + ap.args[0] * ap.args[0])
                return ap.args[0] / h, 1 / h
        # shift by multiples of the float pi (treated as pi itself)
        PI = Fraction(math.pi)
        for k in (1, -1, 2, -2):
            y = s_add(x, Sym(q2z(PI * k)))
            for nm in ('asin', 'acos', 'atan'):
                for ap in self.apps.get(nm, []):
                    if self.same(ap.val, y):
                        s, c = self.f_sincos(y)
                        return (s, c) if k % 2 == 0 else (-s, -c)
            y2 = s_sub(Sym(q2z(PI * k)), x)
            for nm in ('asin', 'acos', 'atan'):
                for ap in self.apps.get(nm, []):
                    if self.same(ap.val, y2):
                        s, c = self.f_sincos(y2)   # sin(k pi - t), cos(k pi - t)
                        return (s, -c) if k % 2 else (-s, c)
        n0 = len(self.apps.get('sin', []))
        s = self.app('sin', x)
        c = self.app('cos', x)
        if len(self.apps.get('sin', [])) > n0:
            self.pc.append(tobool(z_eq(s * s + c * c, 1)))
        return s, c

    def f_atan(self, x):
        if _isspecial(x):
            return math.atan(x)
        q = x.const()
        if q == 0:
            return Sym(ZERO)
        n0 = len(self.apps.get('atan', []))
        v = self.app('atan', x)
        if len(self.apps.get('atan', [])) > n0:
            h = q2z(Fraction(math.pi) / 2)
            self.pc.append(z3.And(v.n < h, v.n > -h))
            self.pc.append(tobool(z_eq(0, x)) == (v.n == 0))
            self.pc.append(tobool(s_cmp(x, Sym(ZERO), 'gt')) == (v.n > 0))
            self._mono('atan')
        return v

    def f_asin(self, x):
        if _isspecial(x):
            return NAN
        if x > 1 or x < -1:
            return NAN
        n0 = len(self.apps.get('asin', []))
        v = self.app('asin', x)
        if len(self.apps.get('asin', [])) > n0:
            h = q2z(Fraction(math.pi) / 2)
            self.pc.append(z3.And(v.n <= h, v.n >= -h))
            self.pc.append(tobool(s_cmp(x, Sym(ZERO), 'gt')) == (v.n > 0))
            self.pc.append(tobool(z_eq(0, x)) == (v.n == 0))
            self._mono('asin')
        return v

    def f_acos(self, x):
        a = self.f_asin(x)
        if _isspecial(a):
            return a
        v = Sym(q2z(Fraction(math.pi) / 2)) - a
        lst = self.apps.setdefault('acos', [])
        if not any(self.same(ap.args[0], x) for ap in lst):
            lst.append(App('acos', (lift(x),), v))
        return v

    def floor(self, x):
        x = lift(x)
        if _isspecial(x):
            return x
        q = x.const()
        if q is not None:
            return Sym(z3.RealVal(math.floor(q)))
        k = z3.Int('floor!%d' % len(self.apps.get('floor', [])))
        lst = self.apps.setdefault('floor', [])
        for ap in lst:
            if self.same(ap.args[0], x):
                return ap.val
        v = Sym(z3.ToReal(k))
        lst.append(App('floor', (x,), v))
        self.pc.append(tobool(s_cmp(v, x, 'le')))
        self.pc.append(tobool(s_cmp(x, s_add(v, Sym(ONE)), 'lt')))
        return v


# ---------------------------------------------------------------- derivatives
def _leaf_app(c, e):
    m = getattr(c, '_leafmap', None)
    tot = sum(len(l) for l in c.apps.values())
    if m is None or c._leafn != tot:
        m = {}
        for lst in c.apps.values():
            for ap in lst:
                if ap.name == 'acos':
                    continue
                if not ap.val.d and z3.is_const(ap.val.n):
                    m[ap.val.n.get_id()] = ap
                    c.keep.append(ap.val.n)
        c._leafmap, c._leafn = m, tot
    return m.get(e.get_id())


def _dapp(c, ap, var):
    """derivative of an application w.r.t. var"""
    nm = ap.name
    if nm.startswith('floor'):
        return Sym(ZERO)
    das = [diff(c, a, var) for a in ap.args]
    if all(z2q(d.n) == 0 for d in das):
        return Sym(ZERO)
    x = ap.args[0]
    if nm == 'exp':
        return ap.val * das[0]
    if nm == 'log':
        return das[0] / x
    if nm.startswith('root'):
        k = int(nm[4:])
        p = Sym(ONE)
        for _ in range(k - 1):
            p = p * ap.val
        return das[0] / (p * k)
    if nm == 'sin':
        return c.f_sincos(x)[1] * das[0]
    if nm == 'cos':
        return -c.f_sincos(x)[0] * das[0]
    if nm == 'atan':
        return das[0] / (1 + x * x)
    if nm == 'asin':
        return das[0] / c.f_sqrt(1 - x * x)
    r = Sym(ZERO)
    for i, d in enumerate(das):
        if z2q(d.n) == 0:
            continue
        r = r + c.app(deriv_name(nm, i), *ap.args) * d
    return r


def deriv_name(nm, i):
    return '%s#%d' % (nm, i + 1)


def _dpoly(c, e, var):
    q = z2q(e)
    if q is not None:
        return Sym(ZERO)
    if e.eq(var):
        return Sym(ONE)
    if z3.is_add(e):
        r = Sym(ZERO)
        for a in e.children():
            r = r + _dpoly(c, a, var)
        return r
    if z3.is_sub(e):
        ch = e.children()
        r = _dpoly(c, ch[0], var)
        for a in ch[1:]:
            r = r - _dpoly(c, a, var)
        return r
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return -_dpoly(c, e.arg(0), var)
    if z3.is_mul(e):
        ch = e.children()
        r = Sym(ZERO)
        for i, a in enumerate(ch):
            da = _dpoly(c, a, var)
            if z2q(da.n) == 0:
                continue
            t = da
            for j, b in enumerate(ch):
                if j != i:
                    t = t * Sym(b)
            r = r + t
        return r
    if e.decl().kind() == z3.Z3_OP_POWER:
        k = z2q(e.arg(1))
        if k is None or k.denominator != 1:
            raise Unsupported("derivative of power")
        db = _dpoly(c, e.arg(0), var)
        return Sym(powz(e.arg(0), int(k) - 1) * q2z(k)) * db if k > 1 else db
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return Sym(ZERO)
    if z3.is_const(e):
        ap = _leaf_app(c, e)
        if ap is None:
            return Sym(ZERO)
        return _dapp(c, ap, var)
    raise Unsupported("derivative of %s" % e.decl())


def diff(c, s, var):
    """d s / d var, var a z3 Real constant."""
    s = lift(s)
    if _isspecial(s):
        return Sym(ZERO)
    n = simp(s.n)
    r = _dpoly(c, n, var)
    if not s.d:
        return r
    # (n/d)' = n'/d - n/d * sum p e'/e
    base = Sym(n, s.d)
    out = _mk(r.n, tuple(_merge_d(r.d, s.d)))
    for i, e, p in s.d:
        de = _dpoly(c, simp(e), var)
        if z2q(de.n) == 0:
            continue
        out = out - base * de * p * Sym(ONE, ((i, e, 1),))
    return out


def _merge_d(a, b):
    dd = {}
    for i, e, p in tuple(a) + tuple(b):
        dd[i] = (e, dd[i][1] + p) if i in dd else (e, p)
    return [(i, e, p) for i, (e, p) in sorted(dd.items())]
