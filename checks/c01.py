"""Variable transforms: bijection, Jacobian, masking of the points at infinity."""
from engine.harness import Harness, unwrap
import pacal.vartransforms as V

P = 'C01'
META = {'assumptions': ['transform parameters L, U, c within the stated boxes; exponents 1,2,3,6,8']}


def mk(h, which):
    """-> (vt, x) with x a point of the transform's domain"""
    if which == 'identity':
        return V.VarTransformIdentity(), h.real('x', -100, 100), None
    if which == 'rec_pm':
        return V.VarTransformReciprocal_PMInf(), h.real('x', -100, 100), None
    if which == 'alg_pm':
        c = h.real('c', 0.125, 16)
        return V.VarTransformAlgebraic_PMInf(c), h.real('x', -100, 100), None
    if which.startswith('rec_pinf') or which.startswith('rec_minf'):
        kind, e, fin = which.split(':')
        e = int(e)
        a = h.real('a', -100, 100)
        x = h.real('x', -300, 300)
        cls = V.VarTransformReciprocal_PInf if kind == 'rec_pinf' else V.VarTransformReciprocal_MInf
        if fin == 'fin':
            b = h.real('b', -300, 300)
            if kind == 'rec_pinf':
                h.assume(a < b)
                h.assume(a <= x); h.assume(x <= b)
                return cls(a, exponent=e, U=b), x, (a, b)
            h.assume(b < a)
            h.assume(b <= x); h.assume(x <= a)
            return cls(a, exponent=e, L=b), x, (b, a)
        if kind == 'rec_pinf':
            h.assume(x >= a)
        else:
            h.assume(x <= a)
        return cls(a, exponent=e), x, None
    if which == 'alg_pinf':
        a = h.real('a', -100, 100)
        x = h.real('x', -300, 300)
        h.assume(x >= a)
        return V.VarTransformAlgebraic_PInf(a, h.real('c', 0.125, 16)), x, None
    if which == 'alg_minf':
        a = h.real('a', -100, 100)
        x = h.real('x', -300, 300)
        h.assume(x <= a)
        return V.VarTransformAlgebraic_MInf(a, h.real('c', 0.125, 16)), x, None


def roundtrip(which):
    def fn(h):
        vt, x, fin = mk(h, which)
        t = vt.var_change(x)
        h.check(t >= vt.var_min, 'image-above-var_min') if which != 'identity' else None
        h.check(t <= vt.var_max, 'image-below-var_max') if which != 'identity' else None
        for v in vt.var_inf:
            h.check(t != v, 'finite-point-not-mapped-to-infinity')
        h.check_eq(vt.inv_var_change(t), x, 'inverse-of-forward', ctol=1e-5)
        # vector call agrees with scalar call
        tv = vt.var_change(h.array([x, x]))
        h.check_eq(tv[1], t, 'vector-equals-scalar')
    return fn


def back(which):
    """from t: forward(inverse(t)) == t, Jacobian, monotone, mask"""
    def fn(h):
        vt, x, fin = mk(h, which)
        lo = vt.var_min if which != 'identity' else -1.0
        t = h.real('t', -1, 1)
        h.assume(t > lo)
        h.assume(t < vt.var_max)
        if not h.sym:
            # stay clear of cancellation at the very ends of the range
            h.assume(t - lo > 1e-3)
            h.assume(vt.var_max - t > 1e-3)
        y = vt.inv_var_change(t)
        h.check_eq(vt.var_change(y), t, 'forward-of-inverse', ctol=1e-5)
        if fin is not None:
            h.check(y >= fin[0] - (0 if h.sym else 1e-6), 'inverse-inside-interval')
            h.check(y <= fin[1] + (0 if h.sym else 1e-6), 'inverse-inside-interval')
        d = h.deriv(vt.inv_var_change, t)
        j = vt.inv_var_change_deriv(t)
        sg = -1 if which.startswith('rec_pinf') or which == 'alg_minf' else 1
        h.check_eq(j, d * sg, 'jacobian-is-absolute-derivative', ctol=1e-4)
        h.check(j > 0, 'jacobian-positive')
    return fn


def masked(which):
    """apply_with_inv_transform on a vector mixing interior points and points at infinity"""
    def fn(h):
        vt, x, fin = mk(h, which)
        f = h.fun('f')
        t = h.real('t', -1, 1)
        lo = vt.var_min if which != 'identity' else -1.0
        h.assume(t > lo)
        h.assume(t < vt.var_max)
        if not h.sym:
            h.assume(t - lo > 1e-3)
            h.assume(vt.var_max - t > 1e-3)
        xs = vt.inv_var_change(t)
        jac = vt.inv_var_change_deriv(t)
        for mbd in (False, True):
            want = f(xs) * (jac if mbd else 1)
            lab = '-with-jacobian' if mbd else ''
            infs = list(vt.var_inf)
            ts = infs + [t] + infs
            got = vt.apply_with_inv_transform(f, h.array(ts), def_val=0.25, mul_by_deriv=mbd)
            for i, v in enumerate(ts):
                if i == len(infs):
                    h.check_eq(got[i], want, 'vector-interior' + lab)
                else:
                    h.check_eq(got[i], 0.25, 'vector-at-infinity' + lab)
            got = vt.apply_with_inv_transform(f, h.array([t]), mul_by_deriv=mbd)
            h.check_eq(got[0], want, 'vector-no-infinity' + lab)
            got = vt.apply_with_inv_transform(f, t, mul_by_deriv=mbd)
            h.check_eq(got, want, 'scalar-interior' + lab)
            for v in infs:
                got = vt.apply_with_inv_transform(f, v, def_val=0.25, mul_by_deriv=mbd)
                h.check_eq(got, 0.25, 'scalar-at-infinity' + lab)
            if infs:
                got = vt.apply_with_inv_transform(f, h.array(infs), def_val=0.25, mul_by_deriv=mbd)
                for g in got:
                    h.check_eq(g, 0.25, 'all-at-infinity' + lab)
    return fn


def ends(which):
    """finite transforms map the finite end exactly and treat no parameter as infinity"""
    def fn(h):
        vt, x, fin = mk(h, which)
        h.check(len(vt.var_inf) == 0, 'no-infinite-parameter')
        a, b = fin
        near, far = (a, b) if which.startswith('rec_pinf') else (b, a)
        h.check_eq(vt.inv_var_change(vt.var_min), far, 'var_min-is-far-end', ctol=1e-5)
        h.check_eq(vt.inv_var_change(vt.var_max), near, 'var_max-is-near-end', ctol=1e-5)
    return fn


ALL = ['identity', 'rec_pm', 'alg_pm', 'alg_pinf', 'alg_minf']
for k in ('rec_pinf', 'rec_minf'):
    for e in (1, 2, 3, 6, 8):
        ALL.append('%s:%d:inf' % (k, e))
        ALL.append('%s:%d:fin' % (k, e))

HARNESSES = []
for w in ALL:
    q = not w.endswith((':3:inf', ':3:fin', ':8:fin'))
    kw = dict(property=P, quick=q, bounds='parameters in [-100,100], points in [-300,300], all reals in between',
              encoded=['vartransforms.%s' % w.split(':')[0]])
    HARNESSES.append(Harness('roundtrip[%s]' % w, roundtrip(w), **kw))
    HARNESSES.append(Harness('jacobian[%s]' % w, back(w), **kw))
    HARNESSES.append(Harness('masking[%s]' % w, masked(w), **kw))
    if w.endswith(':fin'):
        HARNESSES.append(Harness('ends[%s]' % w, ends(w), **kw))
