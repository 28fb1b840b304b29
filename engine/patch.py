"""Symbolic mode: numpy entry points used by the pacal modules are replaced (in
the modules' global namespaces, by object identity) with versions which accept
symbolic values and are numpy's own on concrete ones.  Nothing in /repo is
edited; `Symbolic` restores every global on exit."""
import builtins
import functools
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, SymBool, INF, NAN, lift, Unsupported


def issym(x):
    return isinstance(x, (Sym, SymBool))


def hassym(x):
    if issym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(hassym(y) for y in x)
    return False


def anysym(args):
    return any(hassym(a) for a in args)


def elementwise(fn, out=None):
    """apply scalar fn over an object array / scalar"""
    def ap(x):
        if isinstance(x, (list, tuple)):
            x = oarray(x)
        if isinstance(x, np.ndarray):
            if x.shape == ():
                return fn(x.item())
            r = np.empty(x.shape, dtype=out or object)
            for i in np.ndindex(x.shape):
                r[i] = fn(x[i])
            return r
        return fn(x)
    return ap


def _spec(x):
    return isinstance(x, (float, np.floating, int, np.integer, bool, np.bool_))


def pred(npf):
    def sc(x):
        if issym(x):
            return {'isnan': False, 'isinf': False, 'isfinite': True, 'isposinf': False,
                    'isneginf': False, 'signbit': None}[npf.__name__]
        return bool(npf(float(x)))
    ew = elementwise(sc, bool)

    def f(x, *a, **k):
        if hassym(x):
            return ew(x)
        return npf(x, *a, **k)
    f.__name__ = npf.__name__
    return f


def trans(npf, meth):
    def sc(x):
        if isinstance(x, SymBool):
            x = lift(x)
        if isinstance(x, Sym):
            return getattr(x, meth)()
        if isinstance(x, Fraction):
            x = float(x)
        with np.errstate(all='ignore'):
            return npf(x)
    ew = elementwise(sc)

    def f(x, *a, **k):
        if hassym(x):
            return ew(x)
        return npf(x, *a, **k)
    f.__name__ = npf.__name__
    return f


def oarray(x):
    """object array from nested lists with Syms"""
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if issym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.array(x, dtype=object)


def _fdt(dtype):
    if dtype is None:
        return True
    if dtype in (float, np.float64, 'float', 'float64', np.double, symfloat, object):
        return True
    return False


def alloc(npf, val):
    def f(shape, dtype=None, *a, **k):
        if _fdt(dtype):
            if isinstance(shape, Sym):
                shape = int(shape)
            r = np.empty(shape, dtype=object)
            r.fill(val)
            return r
        return npf(shape, dtype, *a, **k)
    f.__name__ = npf.__name__
    return f


def alloc_like(npf, val):
    def f(x, dtype=None, *a, **k):
        if issym(x):
            shape = ()
        else:
            shape = np.shape(x)
        dt = dtype
        if dt is None:
            dt = getattr(x, 'dtype', None)
        if dt is not None and not _fdt(dt) and np.dtype(dt).kind in 'biu':
            return npf(x, dtype, *a, **k)
        r = np.empty(shape, dtype=object)
        r.fill(val)
        return r
    f.__name__ = npf.__name__
    return f


def mkarray(npf):
    def f(x, dtype=None, *a, **k):
        if isinstance(x, np.matrix):
            x = x.view(np.ndarray)
        if isinstance(x, np.ndarray) and x.dtype == object and npf is np.asarray:
            return x
        if hassym(x) or (_is_objlist(x)):
            r = oarray(x)
            if npf is np.array and isinstance(x, np.ndarray):
                r = r.copy()
            if k.get('ndmin'):
                while r.ndim < k['ndmin']:
                    r = r[None]
            return r
        if dtype is symfloat:
            dtype = float
        if dtype is None:
            return npf(x, *a, **k)
        return npf(x, dtype, *a, **k)
    f.__name__ = npf.__name__
    return f


def _is_objlist(x):
    return False


def sh_linspace(a, b, num=50, endpoint=True, **k):
    if not (issym(a) or issym(b)):
        return np.linspace(a, b, num, endpoint, **k)
    num = int(num)
    r = np.empty(num, dtype=object)
    dv = num - 1 if endpoint else num
    for i in range(num):
        r[i] = a + (b - a) * Fraction(i, dv) if dv else a
    if endpoint and num > 1:
        r[0], r[-1] = a, b
    return r


def sh_logspace(a, b, num=50, endpoint=True, base=10.0):
    if not (issym(a) or issym(b)):
        return np.logspace(a, b, num, endpoint, base)
    return elementwise(lambda e: lift(base) ** e)(sh_linspace(a, b, num, endpoint))


def sh_nan_to_num(x, *a, **k):
    if hassym(x):
        def sc(v):
            if issym(v):
                return v
            return np.nan_to_num(float(v)).item()
        return elementwise(sc)(x)
    return np.nan_to_num(x, *a, **k)


def sh_sign(x):
    if hassym(x):
        def sc(v):
            if isinstance(v, Sym):
                return np.float64(1.0 if v > 0 else (-1.0 if v < 0 else 0.0))
            return np.sign(np.float64(v))
        return elementwise(sc)(x)
    return np.sign(x)


def pysort(lst):
    """insertion sort through symbolic comparisons (forks)"""
    out = []
    for v in lst:
        i = len(out)
        while i > 0 and bool(v < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


def npsort(lst):
    """numpy puts nan last"""
    nan = [v for v in lst if isinstance(v, (float, np.floating)) and v != v]
    return pysort([v for v in lst if not any(v is w for w in nan)]) + nan[:]


def sh_sort(x, *a, **k):
    if hassym(x):
        return oarray(npsort(list(oarray(x).ravel())))
    return np.sort(x, *a, **k)


def sh_argsort(x, *a, **k):
    if hassym(x):
        x = list(oarray(x).ravel())
        out = []
        for j, v in enumerate(x):
            i = len(out)
            while i > 0 and bool(v < x[out[i - 1]]):
                i -= 1
            out.insert(i, j)
        return np.array(out, dtype=int)
    return np.argsort(x, *a, **k)


def sh_unique(x, **k):
    if hassym(x) and not k:
        out = []
        for v in npsort(list(oarray(x).ravel())):
            if out and bool(v == out[-1]):
                continue
            out.append(v)
        return oarray(out)
    return np.unique(x, **k)


def sh_union1d(a, b):
    if hassym(a) or hassym(b):
        return sh_unique(list(oarray(a).ravel()) + list(oarray(b).ravel()))
    return np.union1d(a, b)


def sh_searchsorted(a, v, side='left', sorter=None):
    if hassym(a) or hassym(v):
        aa = list(oarray(a).ravel())

        def sc(q):
            n = 0
            for e in aa:
                c = (e < q) if side == 'left' else (e <= q)
                if bool(c):
                    n += 1
                else:
                    break
            return n
        r = elementwise(sc, int)(v)
        return r
    return np.searchsorted(a, v, side, sorter)


def sh_hypot(a, b, *k):
    if hassym(a) or hassym(b):
        return sh_sqrt(a * a + b * b)
    return np.hypot(a, b, *k)


def sh_logaddexp(a, b, *k):
    if hassym(a) or hassym(b):
        ex = trans(np.exp, 'exp')
        return trans(np.log, 'log')(ex(a) + ex(b))
    return np.logaddexp(a, b, *k)


def sh_xlogy(a, b, *k):
    if hassym(a) or hassym(b):
        aa, bb = np.broadcast_arrays(oarray(a), oarray(b))
        r = np.empty(aa.shape, dtype=object)
        for i in np.ndindex(aa.shape):
            r[i] = 0.0 if bool(aa[i] == 0) else aa[i] * trans(np.log, 'log')(bb[i])
        return r if r.shape else r[()]
    import scipy.special
    return scipy.special.xlogy(a, b, *k)


def sh_where(c, *ab):
    if ab and (hassym(c) or hassym(ab[0]) or hassym(ab[1])):
        a, b = ab
        if isinstance(c, SymBool) or isinstance(c, bool):
            return a if bool(c) else b
        c = np.asarray(elementwise(bool, bool)(c) if isinstance(c, np.ndarray) else c)
        aa = np.broadcast_to(oarray(a), c.shape)
        bb = np.broadcast_to(oarray(b), c.shape)
        r = np.empty(c.shape, dtype=object)
        for i in np.ndindex(c.shape):
            r[i] = aa[i] if c[i] else bb[i]
        return r
    if hassym(c):
        c = elementwise(bool, bool)(c)
    return np.where(c, *ab)


def sh_select(conds, choices, default=0):
    if not (any(hassym(c) for c in conds) or any(hassym(c) for c in choices)):
        return np.select(conds, choices, default)
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        if isinstance(c, np.ndarray) and c.shape:
            c = elementwise(bool, bool)(c) if hassym(c) else c
            r = sh_where(c, oarray(v), oarray(r)) if True else r
        else:
            r = v if bool(c) else r
    return r


def defloat(x):
    """object array of constants -> float array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return x.astype(float)
        except (TypeError, Unsupported):
            raise Unsupported("native numerical routine on symbolic data")
    if issym(x):
        return float(x)
    if isinstance(x, (list, tuple)) and hassym(x):
        return [defloat(y) for y in x]
    return x


def native(fn):
    @functools.wraps(fn)
    def f(*a, **k):
        return fn(*[defloat(x) for x in a], **{kk: defloat(v) for kk, v in k.items()})
    return f


def uninterp(fn, name):
    """special function: real one on concrete data, uninterpreted on symbolic"""
    def f(*args, **k):
        if anysym(args):
            def one(*xs):
                if not any(issym(x) for x in xs):
                    return fn(*xs, **k)
                return sym.ctx().app(name, *xs)
            shp = [np.shape(a) for a in args if isinstance(a, np.ndarray)]
            if not shp:
                return one(*args)
            sh = np.broadcast_shapes(*shp)
            bs = [np.broadcast_to(oarray(a), sh) for a in args]
            r = np.empty(sh, dtype=object)
            for i in np.ndindex(sh):
                r[i] = one(*[b[i] for b in bs])
            return r
        return fn(*args, **k)
    f.__name__ = getattr(fn, '__name__', name)
    return f


def sh_isscalar(x):
    if issym(x):
        return True
    return np.isscalar(x)


def sh_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if anysym((a, b)):
        return abs(a - b) <= atol + rtol * abs(b)
    return np.isclose(a, b, rtol, atol, equal_nan)


def sh_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if anysym((a, b)):
        r = sh_isclose(oarray(a), oarray(b), rtol, atol)
        return builtins.all(bool(v) for v in np.ravel(r))
    return np.allclose(a, b, rtol, atol, equal_nan)


def sh_det(m):
    if hassym(m):
        m = oarray(m)
        n = m.shape[0]
        if n == 0:
            return 1.0
        if n == 1:
            return m[0, 0]
        r = 0
        for j in range(n):
            minor = np.array([[m[i, k] for k in range(n) if k != j] for i in range(1, n)], dtype=object).reshape(n - 1, n - 1)
            t = m[0, j] * sh_det(minor)
            r = r + t if j % 2 == 0 else r - t
        return r
    return np.linalg.det(m)


def _wrapmat(m, like):
    if isinstance(like, np.matrix):
        return np.asmatrix(m)
    return m


def sh_inv(m):
    if hassym(m):
        mm = np.asarray(oarray(m))
        n = mm.shape[0]
        d = sh_det(mm)
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = np.array([[mm[p, q] for q in range(n) if q != i] for p in range(n) if p != j], dtype=object).reshape(n - 1, n - 1)
                c = sh_det(minor)
                r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return _wrapmat(r, m)
    return np.linalg.inv(m)


def sh_solve(a, b):
    if hassym(a) or hassym(b):
        return np.dot(sh_inv(oarray(a)), b)
    return np.linalg.solve(a, b)


def sh_sum(x, *a, **k):
    return np.sum(x, *a, **k)


def sh_minmax(npf, kind):
    def two(a, b):
        if isinstance(a, float) and math.isnan(a):
            return a
        if isinstance(b, float) and math.isnan(b):
            return b
        if kind == 'min':
            return a if bool(a <= b) else b
        return a if bool(a >= b) else b

    def f(a, b, *r, **k):
        if anysym((a, b)):
            sh = np.broadcast_shapes(np.shape(a) if isinstance(a, np.ndarray) else (),
                                     np.shape(b) if isinstance(b, np.ndarray) else ())
            if sh == ():
                return two(a, b)
            aa, bb = np.broadcast_to(oarray(a), sh), np.broadcast_to(oarray(b), sh)
            o = np.empty(sh, dtype=object)
            for i in np.ndindex(sh):
                o[i] = two(aa[i], bb[i])
            return o
        return npf(a, b, *r, **k)
    f.__name__ = npf.__name__
    f.outer = npf.outer
    return f


def _quo(a, b):
    r = lift(a) / lift(b) if not (isinstance(a, float) and isinstance(b, float)) else float(np.true_divide(np.float64(a), np.float64(b)))
    return r


def sh_divide(a, b, *r, **k):
    if anysym((a, b)):
        sh = np.broadcast_shapes(np.shape(a), np.shape(b))
        if sh == ():
            return _quo(a, b)
        aa, bb = np.broadcast_to(oarray(a), sh), np.broadcast_to(oarray(b), sh)
        o = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            o[i] = _quo(aa[i], bb[i])
        return o
    return np.divide(a, b, *r, **k)


def _divide_outer(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return sh_divide(a.reshape(a.shape + (1,) * b.ndim), b)


sh_divide.outer = _divide_outer


def sh_power(a, b):
    if anysym((a, b)):
        return oarray(a) ** b if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else lift(a) ** b
    return np.power(a, b)


def sh_array_equal(a, b):
    if anysym((a, b)):
        a, b = oarray(a), oarray(b)
        return a.shape == b.shape and builtins.all(bool(p == q) for p, q in zip(a.ravel(), b.ravel()))
    return np.array_equal(a, b)


def sh_abs(x, *a, **k):
    return np.abs(x, *a, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return lift(x)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class symfloat(metaclass=_FloatMeta):
    pass


def _table():
    t = {}

    def put(orig, new):
        t[id(orig)] = (orig, new)
    for nm in ('isnan', 'isinf', 'isfinite', 'isposinf', 'isneginf'):
        put(getattr(np, nm), pred(getattr(np, nm)))
    for nm, me in (('exp', 'exp'), ('log', 'log'), ('log1p', 'log1p'), ('expm1', 'expm1'), ('sqrt', 'sqrt'),
                   ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arctan', 'arctan'), ('arcsin', 'arcsin'),
                   ('arccos', 'arccos'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh'), ('arctanh', 'arctanh'),
                   ('log10', 'log10'), ('log2', 'log2'), ('floor', 'floor'), ('ceil', 'ceil'), ('rint', 'rint')):
        put(getattr(np, nm), trans(getattr(np, nm), me))
    for nm, me in (('exp', 'exp'), ('log', 'log'), ('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
                   ('atan', 'arctan'), ('asin', 'arcsin'), ('acos', 'arccos'), ('floor', 'floor'), ('ceil', 'ceil'),
                   ('log10', 'log10'), ('log1p', 'log1p'), ('expm1', 'expm1')):
        put(getattr(math, nm), trans(getattr(math, nm), me))
    put(math.isnan, pred(np.isnan))
    put(math.isinf, pred(np.isinf))
    put(np.zeros, alloc(np.zeros, 0.0))
    put(np.ones, alloc(np.ones, 1.0))
    put(np.empty, alloc(np.empty, 0.0))
    put(np.zeros_like, alloc_like(np.zeros_like, 0.0))
    put(np.ones_like, alloc_like(np.ones_like, 1.0))
    put(np.empty_like, alloc_like(np.empty_like, 0.0))
    put(np.array, mkarray(np.array))
    put(np.asarray, mkarray(np.asarray))
    put(np.asanyarray, mkarray(np.asanyarray))
    put(np.asfarray, mkarray(np.asarray)) if hasattr(np, 'asfarray') else None
    put(np.linspace, sh_linspace)
    put(np.logspace, sh_logspace)
    put(np.nan_to_num, sh_nan_to_num)
    put(np.sign, sh_sign)
    put(np.sort, sh_sort)
    put(np.argsort, sh_argsort)
    put(np.unique, sh_unique)
    put(np.union1d, sh_union1d)
    put(np.searchsorted, sh_searchsorted)
    put(np.hypot, sh_hypot)
    put(np.logaddexp, sh_logaddexp)
    put(np.where, sh_where)
    put(np.select, sh_select)
    put(np.isscalar, sh_isscalar)
    put(np.isclose, sh_isclose)
    put(np.allclose, sh_allclose)
    put(np.array_equal, sh_array_equal)
    put(np.linalg.det, sh_det)
    put(np.linalg.inv, sh_inv)
    put(np.linalg.solve, sh_solve)
    put(np.minimum, sh_minmax(np.minimum, 'min'))
    put(np.maximum, sh_minmax(np.maximum, 'max'))
    put(np.power, sh_power)
    put(np.divide, sh_divide)
    for m, names in ((np.fft, ('fft', 'ifft', 'rfft', 'irfft')), (np.linalg, ('eigvals', 'eig', 'cholesky', 'eigh', 'svd', 'qr'))):
        for nm in names:
            put(getattr(m, nm), native(getattr(m, nm)))
    import scipy.special as ss
    put(ss.xlogy, sh_xlogy)
    put(math.lgamma, uninterp(math.lgamma, 'gammaln'))
    for nm in ('gammaln', 'gamma', 'erf', 'erfc', 'beta', 'betaln', 'binom', 'digamma'):
        put(getattr(ss, nm), uninterp(getattr(ss, nm), nm))
    return t


TABLE = None
EXTRA = []     # further (original, replacement) pairs
sh_sqrt = trans(np.sqrt, 'sqrt')


def table():
    global TABLE
    if TABLE is None:
        TABLE = _table()
        for o, n in EXTRA:
            TABLE[id(o)] = (o, n)
    return TABLE


class Proxy(object):
    """module stand-in: shimmed attributes, otherwise the module's own"""

    def __init__(self, mod, extra=None):
        self.__dict__['_mod'] = mod
        self.__dict__['_cache'] = dict(extra or {})

    def __getattr__(self, nm):
        c = self.__dict__['_cache']
        if nm in c:
            return c[nm]
        v = getattr(self.__dict__['_mod'], nm)
        e = table().get(id(v))
        if e is not None and e[0] is v:
            v = e[1]
        elif isinstance(v, types.ModuleType) and v.__name__ in ('numpy.linalg', 'numpy.fft', 'scipy.special'):
            v = Proxy(v)
        c[nm] = v
        return v


def pacal_modules():
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == 'pacal' or n.startswith('pacal.')) and isinstance(m, types.ModuleType)]


class Symbolic(object):
    """context manager switching the pacal modules into symbolic mode"""
    depth = 0

    def __init__(self, stubs=()):
        self.stubs = list(stubs)   # (original object, replacement)
        self.undo = []

    def __enter__(self):
        Symbolic.depth += 1
        tb = table()
        st = {id(o): (o, r) for o, r in self.stubs}
        mods = (np, math)
        for m in pacal_modules():
            g = m.__dict__
            for k, v in list(g.items()):
                if k.startswith('__'):
                    continue
                e = st.get(id(v))
                if e is None and self.full():
                    e = tb.get(id(v))
                if e is not None and e[0] is v:
                    self.undo.append((g, k, v))
                    g[k] = e[1]
                elif self.full() and isinstance(v, types.ModuleType) and (v in mods or v.__name__ in ('scipy.special', 'numpy.linalg', 'numpy.fft')):
                    self.undo.append((g, k, v))
                    g[k] = Proxy(v)
            if self.full() and 'float' not in g:
                self.undo.append((g, 'float', None))
                g['float'] = symfloat
        # attribute-level stubs: (object, attribute, replacement)
        return self

    def full(self):
        return True

    def __exit__(self, *a):
        Symbolic.depth -= 1
        for g, k, v in reversed(self.undo):
            if v is None and k == 'float':
                g.pop(k, None)
            else:
                g[k] = v
        self.undo = []
        return False


class Stubbed(Symbolic):
    """only the stubs, no numpy shims (concrete mode)"""
    def full(self):
        return False
