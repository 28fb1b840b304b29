"""Harness API: the same harness function runs symbolically (solver decides its
checks for every value within the bounds) and concretely (replay of a solver
model against the unmodified code)."""
import json
import math
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import sym, patch
from .sym import (Sym, SymBool, lift, tobool, INF, NAN, Unsupported, PathEnd, Infeasible, Timeout,
                  Steer, solver_check, STATS, Ctx)


class Skip(BaseException):
    """concrete run left the harness's assumptions"""


class ConcreteFailure(BaseException):
    def __init__(self, label, msg):
        self.label, self.msg = label, msg


# ------------------------------------------------------------------ concrete functions
def _bank(name, variant):
    """smooth positive functions with derivative, deterministic in name"""
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 100003
    h = (h + 7919 * variant) % 100003
    m = (h % 17) / 10.0 - 0.8
    s = 0.9 + (h % 13) / 6.0
    w = 0.05 + (h % 7) / 40.0

    def f(x):
        x = np.asarray(x, dtype=float) if not np.isscalar(x) else x
        with np.errstate(all='ignore'):
            z = (x - m) / s
            r = np.exp(-0.5 * z * z) + w / (1 + x * x) ** 2
        return np.where(np.isinf(x), 0.0, r) if not np.isscalar(x) else (0.0 if math.isinf(x) else float(r))

    def d(x):
        z = (x - m) / s
        return -z / s * np.exp(-0.5 * z * z) - 4 * w * x / (1 + x * x) ** 3
    return f, d


class SymFun(object):
    """uninterpreted real function usable wherever pacal expects a density"""

    def __init__(self, h, name, positive=True, at_inf=0.0):
        self.h, self.name, self.positive, self.at_inf = h, name, positive, at_inf
        self.__name__ = name

    def __call__(self, *xs):
        c = sym.ctx()
        arrs = [x for x in xs if isinstance(x, np.ndarray) and x.shape != ()]
        if arrs or any(isinstance(x, (list, tuple)) for x in xs):
            xs = [np.asarray(x) if isinstance(x, np.ndarray) else patch.oarray(x) if isinstance(x, (list, tuple)) else x for x in xs]
            sh = np.broadcast_shapes(*[np.shape(x) if isinstance(x, np.ndarray) else () for x in xs])
            bs = [np.broadcast_to(patch.oarray(x), sh) for x in xs]
            r = np.empty(sh, dtype=object)
            for i in np.ndindex(sh):
                r[i] = self(*[b[i] for b in bs])
            return r
        xs = [lift(x) for x in xs]
        for x in xs:
            if isinstance(x, float):
                return NAN if math.isnan(x) else self.at_inf
        n0 = len(c.apps.get(self.name, []))
        v = c.app(self.name, *xs)
        if len(c.apps.get(self.name, [])) > n0:
            if self.positive == 'nonneg':
                c.pc.append(v.n >= 0)
            elif self.positive:
                c.pc.append(v.n > 0)
                c.note_nonzero(v.n)
        return v

    def diff(self, x):
        return SymFun(self.h, sym.deriv_name(self.name, 0), positive=False)(x)


class ConcFun(object):
    def __init__(self, name, variant):
        self.f, self.d = _bank(name, variant)
        self.__name__ = name

    def __call__(self, *xs):
        if len(xs) == 1:
            return self.f(xs[0])
        r = 1.0
        for i, x in enumerate(xs):
            r = r * self.f(x * (1 + 0.13 * i) + 0.21 * i)
        return r

    def diff(self, x):
        return self.d(x)


class H(object):
    """harness handle"""

    def __init__(self, mode, opts):
        self.mode = mode
        self.sym = mode == 'sym'
        self.opts = opts
        self.vars = {}        # name -> Sym / float
        self.order = []
        self.choices = {}
        self.bounds = {}

    # subclass API --------------------------------------------------------
    def array(self, xs):
        if self.sym:
            r = np.empty(len(xs), dtype=object)
            for i, x in enumerate(xs):
                r[i] = x
            return r
        return np.array([float(x) for x in xs], dtype=float)

    def q(self, a, b=1):
        """exact rational constant"""
        return lift(Fraction(a, b)) if self.sym else a / b


class Outcome(object):
    def __init__(self):
        self.obl = {}      # label -> dict(exact, tol, inconclusive, sat)
        self.cands = []    # candidate counterexamples
        self.paths = 0
        self.reached = {}
        self.notes = []
        self.witness_runs = 0
        self.unsupported = {}
        self.truncated = False

    def o(self, label):
        return self.obl.setdefault(label, {'discharged': 0, 'tolerance': 0, 'inconclusive': 0, 'refuted': 0})


class SymH(H):
    def __init__(self, ctx, out, opts):
        H.__init__(self, 'sym', opts)
        self.c = ctx
        self.out = out

    def real(self, name, lo=None, hi=None, open=False):
        v = self.c.fresh(name)
        self.vars[name] = v
        self.order.append(name)
        if lo is not None:
            self.assume(v > lo if open else v >= lo)
        if hi is not None:
            self.assume(v < hi if open else v <= hi)
        return v

    def choose(self, name, options):
        """fork over a finite list (exhaustive)"""
        n = len(options)
        k = 0
        while k < n - 1:
            b = z3.Bool('choice!%s!%d' % (name, k))
            if self.c.branch(b):
                break
            k += 1
        self.choices[name] = k
        return options[k]

    def fun(self, name, positive=True):
        return SymFun(self, name, positive)

    def assume(self, c):
        self.c.assume(c)

    def prune(self):
        if solver_check(self.c.pc, self.c.fork_timeout)[0] == z3.unsat:
            raise Infeasible()

    def end(self):
        raise PathEnd()

    def deriv(self, fn, x):
        y = fn(x)
        return sym.diff(self.c, y, x.n)

    def reach(self, label='reach'):
        self.out.reached[label] = self.out.reached.get(label, 0) + 1

    # obligations ----------------------------------------------------------
    def _decide(self, label, good, weak, strong_bad):
        """good: property; weak: property within tolerance; strong_bad: clearly broken"""
        o = self.out.o(label)
        self.reach(label)
        good = z3.simplify(good)
        if z3.is_true(good):
            o['discharged'] += 1
            return
        c = self.c
        c.tick()
        base = c.pc + c.lemmas()
        r, m = solver_check(base + [z3.Not(good)], c.check_timeout, True)
        if r == z3.unsat:
            o['discharged'] += 1
            return
        if weak is not None:
            # rounding of constants: is the property off by more than the tolerance?
            r2, m2 = solver_check(base + [z3.Not(weak)], c.check_timeout, True)
            if r2 == z3.unsat:
                o['tolerance'] += 1
                return
            if r2 == z3.sat:
                r, m = r2, m2
            elif r == z3.sat:
                r = z3.unknown
        # look for an easy-to-replay model first
        cands = []
        if strong_bad is not None:
            for bx in (4, 50, None):
                r3, m3 = solver_check(base + [strong_bad] + (self._nice(bx) if bx else []), c.check_timeout // 2, True)
                if r3 == z3.sat:
                    cands.append(m3)
                    break
        if m is not None:
            cands.append(m)
        if not cands:
            o['inconclusive'] += 1
            # no model: the path's own witness is still replayed
            return
        o['refuted'] += 1
        for mm in cands:
            self.out.cands.append({'label': label, 'values': self.extract(mm), 'choices': dict(self.choices),
                                   'why': 'solver model'})

    def _nice(self, b=4):
        out = []
        for nm in self.order:
            v = self.vars[nm]
            out.append(z3.And(v.n <= b, v.n >= -b))
        return out

    def check(self, cond, label):
        if isinstance(cond, (bool, np.bool_)):
            e = z3.BoolVal(bool(cond))
        else:
            e = tobool(cond)
        self._decide(label, e, None, None)

    def check_eq(self, a, b, label, tol=1e-7, ctol=None):
        a, b = unwrap(a), unwrap(b)
        if a is None or b is None:
            self._decide(label, z3.BoolVal(a is None and b is None), None, None)
            return
        a, b = lift(a), lift(b)
        if isinstance(a, float) or isinstance(b, float):
            ok = (isinstance(a, float) and isinstance(b, float) and (a == b or (math.isnan(a) and math.isnan(b))))
            self._decide(label, z3.BoolVal(ok), None, None)
            return
        df = a - b
        good = sym.rel0(df, 'eq')
        if z3.is_true(z3.simplify(good)):
            self._decide(label, good, None, None)
            return
        t = lift(Fraction(tol))
        scale = 1 if True else 0
        up = tobool(sym.s_cmp(df, t * scale, 'le'))
        lo = tobool(sym.s_cmp(df, -t * scale, 'ge'))
        big = lift(Fraction(1, 100))
        bad = z3.Or(tobool(sym.s_cmp(df, big, 'gt')), tobool(sym.s_cmp(df, -big, 'lt')))
        self._decide(label, good, z3.And(up, lo), bad)

    def check_le(self, a, b, label, tol=1e-9):
        a, b = lift(unwrap(a)), lift(unwrap(b))
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            self._decide(label, z3.BoolVal(fa <= fb), None, None)
            return
        self._decide(label, tobool(sym.s_cmp(a, b, 'le')),
                     tobool(sym.s_cmp(a, b + lift(Fraction(tol)), 'le')),
                     tobool(sym.s_cmp(a, b + lift(Fraction(1, 100)), 'gt')))

    def fail(self, label, msg=''):
        """reaching this point violates the property"""
        self.out.notes.append(msg)
        self._decide(label, z3.BoolVal(False), None, None)

    # models -----------------------------------------------------------------
    def extract(self, m):
        vals = {}
        for nm in self.order:
            vals[nm] = model_float(m, self.vars[nm].n)
        return vals


def unwrap(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        return x.ravel()[0]
    return x


def model_float(m, e):
    v = m.eval(e, model_completion=True)
    q = sym.z2q(v)
    if q is not None:
        return float(q)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(sym.z2q(a))
    try:
        return float(v.as_decimal(17).rstrip('?'))
    except Exception:
        return 0.0


class ConcH(H):
    def __init__(self, values, choices, opts, variant=0):
        H.__init__(self, 'conc', opts)
        self.values, self.given = values, choices
        self.variant = variant
        self.failures = []
        self.ran = []

    def real(self, name, lo=None, hi=None, open=False):
        k = self.vars
        nm = name
        i = 0
        while nm in k:
            i += 1
            nm = '%s!%d' % (name, i)
        v = self.values.get(nm, self.values.get(name))
        if v is None:
            v = 0.37 if lo is None else lo + 0.37 * ((hi if hi is not None else lo + 2) - lo)
        v = float(v)
        self.vars[nm] = v
        e = 0.0
        if lo is not None and (v < lo or (open and v <= lo)):
            if v < lo - 1e-9 * max(1, abs(lo)) or open:
                raise Skip()
            v = float(lo)
        if hi is not None and (v > hi or (open and v >= hi)):
            if v > hi + 1e-9 * max(1, abs(hi)) or open:
                raise Skip()
            v = float(hi)
        return v

    def choose(self, name, options):
        k = self.given.get(name, 0)
        self.choices[name] = k
        return options[k]

    def fun(self, name, positive=True):
        return ConcFun(name, self.variant)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def prune(self):
        pass

    def end(self):
        raise PathEnd()

    def deriv(self, fn, x):
        """Richardson central difference"""
        h = 1e-3 * max(1.0, abs(x)) if abs(x) > 1e-2 else 1e-3
        best = None
        prev = None
        tab = []
        for i in range(7):
            hh = h / 2 ** i
            row = [(float(unwrap(fn(x + hh))) - float(unwrap(fn(x - hh)))) / (2 * hh)]
            for j in range(len(tab)):
                row.append(row[j] + (row[j] - tab[j]) / (4 ** (j + 1) - 1))
            if prev is not None:
                err = abs(row[-1] - prev)
                if best is None or err < best[0]:
                    best = (err, row[-1])
            prev = row[-1]
            tab = row
        if not (best[0] <= 1e-5 * (1 + abs(best[1]))):
            raise Skip()
        return best[1]

    def reach(self, label='reach'):
        self.ran.append(label)

    def _bad(self, label, msg):
        self.failures.append((label, msg))

    def check(self, cond, label):
        self.ran.append(label)
        if not bool(cond):
            self._bad(label, 'condition false')

    def check_eq(self, a, b, label, tol=1e-7, ctol=None):
        self.ran.append(label)
        a, b = unwrap(a), unwrap(b)
        if a is None or b is None:
            if not (a is None and b is None):
                self._bad(label, '%r != %r' % (a, b))
            return
        a, b = float(np.real(a)), float(np.real(b))
        if a == b or (math.isnan(a) and math.isnan(b)):
            return
        t = ctol if ctol is not None else max(tol, 1e-7)
        if not (abs(a - b) <= t * (1 + min(abs(a), abs(b)))):
            self._bad(label, '%.17g != %.17g' % (a, b))

    def check_le(self, a, b, label, tol=1e-9):
        self.ran.append(label)
        a, b = float(unwrap(a)), float(unwrap(b))
        if not (a <= b + 1e-7 * (1 + abs(b))):
            self._bad(label, '%.17g > %.17g' % (a, b))

    def fail(self, label, msg=''):
        self.ran.append(label)
        self._bad(label, msg or 'reached')


# ------------------------------------------------------------------ running
class Harness(object):
    """One check: fn(h) run in both modes.

    stubs: list of (original, replacement factory(h)->callable) active in both
    modes; conc: separate concrete function when the replay has to go through
    the public API instead of the stubs."""

    def __init__(self, name, fn, property, conc=None, bounds='', encoded=(), quick=True,
                 max_paths=400, budget=25.0, check_timeout=8000, fork_timeout=800, numpy_shims=True,
                 raises=(), tol=None, variants=2, thorough=None, setup=None):
        self.name, self.fn, self.property = name, fn, property
        self.conc = conc or fn
        self.bounds, self.encoded = bounds, list(encoded)
        self.quick = quick
        self.max_paths, self.budget = max_paths, budget
        self.check_timeout, self.fork_timeout = check_timeout, fork_timeout
        self.raises = tuple(raises)
        self.variants = variants
        self.thorough = thorough or {}
        self.setup = setup


CRASH = 'no-unexpected-exception'


def run_concrete(hs, values, choices, variant=0):
    """-> (failures [(label,msg)], ran labels) or None when outside assumptions"""
    h = ConcH(values, choices, {}, variant)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            hs.conc(h)
        except PathEnd:
            pass
        except (Skip, Infeasible):
            return None
        except Exception as e:
            h.ran.append(CRASH)
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any('/pacal/' in f.filename for f in tb)
            msg = '%s: %s @ %s' % (type(e).__name__, str(e)[:150],
                                   '; '.join('%s:%s' % (f.filename.split('/')[-1], f.name) for f in tb[-3:]))
            if inrepo:
                h.failures.append((CRASH, msg))
            else:
                h.failures.append(('!harness-error', msg))
    return h.failures, h.ran


def run_symbolic(hs, tier='quick', seed=1, budget=None):
    out = Outcome()
    b = budget or hs.budget
    mp = hs.max_paths
    ct = hs.check_timeout
    if tier == 'thorough':
        b = hs.thorough.get('budget', b * 8)
        mp = hs.thorough.get('max_paths', mp * 10)
        ct = hs.thorough.get('check_timeout', ct * 3)
    t0 = time.time()
    ctx = Ctx(fork_timeout=hs.fork_timeout, check_timeout=ct, max_paths=mp, deadline=t0 + b)
    confirmed = {}     # label -> replay record
    refuted_unrep = {}
    tried = {}
    nwit = [0]
    err = {}

    def consider(values, choices, label, why):
        """replay; record confirmed violations"""
        got = False
        for variant in range(hs.variants):
            r = run_concrete(hs, values, choices, variant)
            if r is None:
                continue
            got = True
            out.witness_runs += 1
            for lab, msg in r[0]:
                if lab == '!harness-error':
                    err[msg] = err.get(msg, 0) + 1
                    continue
                confirmed.setdefault(lab, {'values': values, 'choices': choices, 'variant': variant,
                                           'msg': msg, 'why': why})
        return got

    def one():
        h = SymH(ctx, out, {'tier': tier})
        crashed = None
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                hs.fn(h)
            except Unsupported as e:
                k = str(e)[:120]
                out.unsupported[k] = out.unsupported.get(k, 0) + 1
            except PathEnd:
                pass
            except Infeasible:
                raise
            except Timeout:
                raise
            except (z3.Z3Exception, RecursionError, MemoryError) as e:
                k = 'engine: %s %s' % (type(e).__name__, str(e)[:100])
                out.unsupported[k] = out.unsupported.get(k, 0) + 1
            except Exception as e:
                crashed = e
        # exceptions: candidate counterexample, decided by concrete replay
        cands = out.cands
        out.cands = []
        for cd in cands:
            key = (cd['label'],)
            if cd['label'] in confirmed:
                continue
            if tried.get(key, 0) > 12:
                continue
            tried[key] = tried.get(key, 0) + 1
            consider(cd['values'], cd['choices'], cd['label'], 'solver model')
            if cd['label'] not in confirmed:
                refuted_unrep[cd['label']] = refuted_unrep.get(cd['label'], 0) + 1
        # witness of the path itself
        nwit[0] += 1
        if nwit[0] > 12 and nwit[0] % 8 and crashed is None:
            return
        r, m = solver_check(ctx.pc + h._nice(), ctx.fork_timeout, True)
        if r != z3.sat:
            r, m = solver_check(ctx.pc, ctx.fork_timeout, True)
        if r == z3.sat:
            consider(h.extract(m), dict(h.choices), None, 'path witness')
        if crashed is not None:
            tb = traceback.extract_tb(crashed.__traceback__)
            k = 'exception in symbolic run: %s: %s @ %s' % (
                type(crashed).__name__, str(crashed)[:160],
                ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-1:-6:-1]))
            out.unsupported[k] = out.unsupported.get(k, 0) + 1

    try:
        if hs.setup:
            hs.setup()
        with patch_mode(hs):
            ctx.explore(one)
    except Timeout:
        ctx.truncated = True
    out.truncated = ctx.truncated
    res = {
        'harness': hs.name, 'paths': STATS.paths, 'queries': STATS.queries, 'solver_s': round(STATS.solver_time, 2),
        'unknown': STATS.unknown, 'forks': STATS.forks, 'wall_s': round(time.time() - t0, 2),
        'obligations': out.obl, 'reached': out.reached, 'unsupported': out.unsupported, 'truncated': out.truncated,
        'confirmed': confirmed, 'unreproduced': refuted_unrep, 'witness_runs': out.witness_runs,
        'harness_errors': err, 'bounds': hs.bounds, 'encoded': hs.encoded,
    }
    return res


class patch_mode(object):
    """Symbolic mode for the exploration; concrete replays inside `consider`
    temporarily leave it."""
    active = None

    def __init__(self, hs):
        self.hs = hs

    def __enter__(self):
        self.s = patch.Symbolic()
        self.s.__enter__()
        patch_mode.active = self
        return self

    def __exit__(self, *a):
        patch_mode.active = None
        return self.s.__exit__(*a)


class unpatched(object):
    def __enter__(self):
        self.a = patch_mode.active
        if self.a is not None:
            self.a.s.__exit__(None, None, None)
        self.old = sym.CTX
        sym.CTX = None

    def __exit__(self, *a):
        sym.CTX = self.old
        if self.a is not None:
            self.a.s = patch.Symbolic()
            self.a.s.__enter__()
        return False


_rc = run_concrete


def run_concrete(hs, values, choices, variant=0):  # noqa: F811
    with unpatched():
        return _rc(hs, values, choices, variant)


class stub(object):
    """with stub((orig, repl), ...): replaces orig by identity in every pacal module"""

    def __init__(self, *pairs):
        self.pairs = pairs
        self.undo = []

    def __enter__(self):
        ids = {id(o): (o, r) for o, r in self.pairs if not isinstance(o, tuple)}
        for m in patch.pacal_modules():
            g = m.__dict__
            for k, v in list(g.items()):
                e = ids.get(id(v))
                if e is not None and e[0] is v:
                    self.undo.append((g, k, v, True))
                    g[k] = e[1]
        for o, r in self.pairs:
            if isinstance(o, tuple):        # (object, attribute name)
                ob, nm = o
                had = nm in ob.__dict__
                self.undo.append((ob, nm, ob.__dict__.get(nm), had))
                setattr(ob, nm, r)
        return self

    def __exit__(self, *a):
        for g, k, v, had in reversed(self.undo):
            if isinstance(g, dict):
                g[k] = v
            elif had:
                setattr(g, k, v)
            else:
                delattr(g, k)
        self.undo = []
        return False
