"""Convergence monitor: decisions over every history of error estimates."""
import math
import numpy as np
import z3
from engine.harness import Harness
from engine import sym
import pacal.utils as U
from pacal import params

P = 'C04'
META = {'assumptions': []}
HARNESSES = []


class Par(object):
    def __init__(self, abstol, reltol, mqi, mqn, ratio, force):
        self.abstol, self.reltol = abstol, reltol
        self.min_quit_iter, self.min_quit_no_improvement = mqi, mqn
        self.min_improvement_ratio, self.force_nonzero = ratio, force


def absv(h, v, nonneg):
    return v if nonneg else abs(v)


def decisions(K, nonneg, forces=(False, True), mqis=(0, 2, 3), mqns=(1, 2, 3)):
    """verdict at every step = the documented rule"""
    def fn(h):
        force = h.choose('force_nonzero', list(forces))
        mqi = h.choose('min_quit_iter', list(mqis))
        mqn = h.choose('min_quit_no_improvement', list(mqns))
        at = h.real('abstol', 0, 1)
        rt = h.real('reltol', 0, 1)
        ratio = h.real('ratio', 0, 1, open=True)
        cm = U.convergence_monitor(Par(at, rt, mqi, mqn, ratio, force))
        aes, ys = [], []
        base, bad = None, 0
        for k in range(K):
            ae = h.real('ae%d' % k, 0, 5)
            y = h.real('y%d' % k, 0 if nonneg else -5, 5)
            aes.append(ae)
            ys.append(y)
            cm.add(ae, y, ('extra', k))
            stop, msg = cm.test_convergence()
            ay = absv(h, y, nonneg)
            ok = bool(ae <= at) or bool(ae <= rt * ay)
            if force and ok:
                ok = bool(ay > 0)
            if ok:
                h.check(stop, 'within-tolerance-stops')
                h.check(cm.converged, 'convergence-recorded')
                b = cm.get_best_result()
                h.check_eq(b[0], y, 'converged-returns-last-value')
                h.check_eq(b[1], ae, 'converged-returns-last-error')
                h.check(b[2] == ('extra', k), 'converged-returns-last-data')
                return
            h.check(not cm.converged, 'no-convergence-outside-tolerance')
            if base is not None and bool(ae < ratio * base):
                base, bad = ae, 0
            else:
                bad += 1
                if base is None:
                    base = ae
            quit_ = len(aes) >= max(2, mqi) and bad >= mqn
            h.check(bool(stop) == quit_, 'early-stop-rule')
            if stop:
                return
    return fn


def best(K, nonneg, ratio=None):
    """result returned without convergence"""
    def fn(h):
        cm = U.convergence_monitor(Par(0, 0, 2, 1000, 0.5, False))
        ds = []
        for k in range(K):
            ae = h.real('ae%d' % k, 0.01, 5)
            y = h.real('y%d' % k, 0 if nonneg else -5, 5)
            h.assume((y == 0) | (y >= 0.001) | (y <= -0.001))
            ds.append((ae, y))
            cm.add(ae, y, k)
            stop, _ = cm.test_convergence()
            h.check(not stop, 'not-stopped')
        dec = 0.75 if ratio is None else ratio
        y, ae, e = cm.get_best_result() if ratio is None else cm.get_best_result(ratio)
        h.check(isinstance(e, int) and 0 <= e < K, 'data-of-a-recorded-step')
        h.check_eq(y, ds[e][1], 'value-matches-data')
        h.check_eq(ae, ds[e][0], 'error-matches-data')
        ay = absv(h, y, nonneg)
        for k, (a, v) in enumerate(ds):
            av = absv(h, v, nonneg)
            if k == e:
                continue
            # no other entry has a relative error below dec times that of the result
            if h.sym:
                good = z3.Or(sym.tobool(av <= 0), z3.And(sym.tobool(ay > 0), sym.tobool(a * ay >= h.q(*float(dec).as_integer_ratio()) * ae * av)))
                h.check(sym.mkbool(good), 'no-clearly-better-entry')
            else:
                h.check(av <= 0 or (ay > 0 and a * ay >= dec * ae * av * (1 - 1e-12)), 'no-clearly-better-entry')
            if k == 0 and k < e:
                # a later entry is only chosen when it improved on the first
                if h.sym:
                    good = z3.And(sym.tobool(ay > 0), z3.Or(sym.tobool(av <= 0), sym.tobool(ae * av < h.q(*float(dec).as_integer_ratio()) * a * ay)))
                    h.check(sym.mkbool(good), 'replacement-requires-improvement')
                else:
                    h.check(ay > 0 and (av <= 0 or ae * av < dec * a * ay * (1 + 1e-12)), 'replacement-requires-improvement')
    return fn


def defaults(which):
    """the shipped tolerances: what is declared converged is accurate to them"""
    def fn(h):
        par = {'default': None, 'integration': params.integration.convergence, 'interpolation': params.interpolation.convergence,
               'asymp': params.interpolation_asymp.convergence, 'nd': params.interpolation_nd.convergence}[which]
        cap = {'nd': 1e-8}.get(which, 64 * 2.220446049250313e-16)
        cm = U.convergence_monitor(par)
        for k in range(3):
            ae = h.real('ae%d' % k, 0, 1)
            y = h.real('y%d' % k, 0, 1)
            cm.add(ae, y, None)
            stop, _ = cm.test_convergence()
            if cm.converged:
                h.check_le(ae, cap, 'shipped-tolerance-is-tight', tol=0)
                return
            if k == 0:
                h.check(not stop, 'never-stops-after-one-estimate')
    return fn


B = 'every history of %d (error, estimate) pairs, errors in [0,5], estimates in [%s,5], symbolic tolerances and improvement ratio'
for K, nn, kw in ((2, False, dict(mqis=(2,), mqns=(1, 2))), (3, True, dict(forces=(False,), mqis=(0, 3), mqns=(1, 2))), (3, True, dict(forces=(True,), mqis=(2,), mqns=(2,)))):
    HARNESSES.append(Harness('decisions[%d%s%s]' % (K, '' if nn else ',signed', ',force' if kw.get('forces') == (True,) else ''), decisions(K, nn, **kw), P, budget=60, max_paths=3000, check_timeout=4000, variants=1,
                             bounds=B % (K, '0' if nn else '-5'), encoded=['utils.convergence_monitor']))
HARNESSES.append(Harness('decisions[5]', decisions(5, True), P, budget=60, max_paths=6000, variants=1, quick=False, bounds=B % (5, '0'), encoded=['utils.convergence_monitor']))
for K, nn, r in ((2, False, None), (3, True, None), (3, False, None), (4, True, 0.5)):
    HARNESSES.append(Harness('best-result[%d%s%s]' % (K, '' if nn else ',signed', '' if r is None else ',%g' % r), best(K, nn, r), P, budget=45, max_paths=3000, variants=1,
                             bounds='every history of %d pairs without convergence' % K, encoded=['utils.convergence_monitor.get_best_result']))
for w in ('default', 'integration', 'interpolation', 'asymp', 'nd'):
    HARNESSES.append(Harness('defaults[%s]' % w, defaults(w), P, variants=1, bounds='3 pairs in [0,1]', encoded=['utils.convergence_monitor', 'params']))
