"""Joint densities: normal, general, products, conditionals, substitution."""
import itertools
import math
from fractions import Fraction
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym, patch
from engine.ops import value
from checks.c09 import lor
from checks.c14 import m
from checks.c20 import Margin
import pacal.depvars.nddistr as ND
import pacal.depvars.sparse_grids as SG
import pacal.integration as G
from pacal.rv import RV

P = 'C21'
META = {'assumptions': ['matrix inverse and determinant are exact', 'one-dimensional integration and interpolation of densities are exact (C06, C03, C23)']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('max_paths', 1500)
    kw.setdefault('thorough', {'budget': 500, 'max_paths': 30000})
    HARNESSES.append(Harness(name, fn, P, **kw))


# ------------------------------------------------------------------ exact linear algebra
def minor(M, i, j):
    return [[M[p][q] for q in range(len(M)) if q != j] for p in range(len(M)) if p != i]


def det(M):
    if len(M) == 0:
        return 1
    r = 0
    for j in range(len(M)):
        if not (isinstance(M[0][j], (int, float)) and M[0][j] == 0):
            r = r + M[0][j] * det(minor(M, 0, j)) * (-1) ** j
    return r


def inverse(M):
    d = det(M)
    n = len(M)
    return [[det(minor(M, j, i)) * (-1) ** (i + j) / d for j in range(n)] for i in range(n)]


def rows(M):
    M = np.asarray(M)
    return [[unwrap(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]


_inv, _det = np.linalg.inv, np.linalg.det


def np_inv(M):
    if np.asarray(M).dtype != object:
        return _inv(M)
    r = np.empty(np.shape(M), dtype=object)
    for i, row in enumerate(inverse(rows(M))):
        for j, v in enumerate(row):
            r[i, j] = v
    return np.asmatrix(r) if isinstance(M, np.matrix) else r


def np_det(M):
    return det(rows(M)) if np.asarray(M).dtype == object else _det(M)


def algebra(h):
    return stub((_det, np_det), ((np.linalg, 'inv'), np_inv)) if h.sym else stub()


def matrix(h, M):
    if not h.sym:
        return np.array([[float(v) for v in r] for r in M])
    r = np.empty((len(M), len(M)), dtype=object)
    for i, row in enumerate(M):
        for j, v in enumerate(row):
            r[i, j] = sym.lift(v)
    return r


F = Fraction
COV = {1: [[[F(9, 4)]]],
       2: [[[4, 1], [1, 2]], [[1, F(-1, 2)], [F(-1, 2), 1]]],
       3: [[[4, 1, F(1, 2)], [1, 2, F(-1, 4)], [F(1, 2), F(-1, 4), 1]]],
       4: [[[4, 1, F(1, 2), 0], [1, 2, F(-1, 4), F(1, 4)], [F(1, 2), F(-1, 4), 1, F(1, 8)], [0, F(1, 4), F(1, 8), 3]]]}


def covariance(h, d, free):
    if not free:
        return COV[d][h.choose('covariance', list(range(len(COV[d]))))]
    s = [h.real('s%d' % i, 0.5, 3) for i in range(d)]
    M = [[s[i] if i == j else None for j in range(d)] for i in range(d)]
    for i in range(d):
        for j in range(i):
            M[i][j] = M[j][i] = h.real('c%d%d' % (j, i), -0.2, 0.2)   # positive definite: diagonally dominant
    return M


def variables(d, a=-20.0, b=20.0):
    return [Margin('X%d' % i, None, lambda x: x * 0 + 1, a, b) for i in range(d)]


def normal(h, d, free=False, vs=True):
    mu = [h.real('m%d' % i, -3, 3) for i in range(d)]
    S = covariance(h, d, free)
    V = variables(d) if vs else None
    N = ND.NDNormalDistr(h.array(mu), matrix(h, S), V)
    return N, mu, S


def quadratic(L, y):
    r = 0
    for i in range(len(y)):
        for j in range(len(y)):
            r = r + y[i] * L[i][j] * y[j]
    return r


def gauss(mu, S, xs):
    y = [x - mm for x, mm in zip(xs, mu)]
    L = inverse([[v if isinstance(v, sym.Sym) else F(v) for v in r] for r in S])
    dd = det(S)
    q = quadratic(L, y) * -F(1, 2) if isinstance(xs[0], sym.Sym) else -0.5 * float(quadratic([[float(v) for v in r] for r in L], y))
    s = m('sqrt', (dd if isinstance(dd, sym.Sym) else float(dd)) * (2 * math.pi) ** len(mu))
    return m('exp', q) / s


def normal_density(d):
    def fn(h):
        with algebra(h):
            N, mu, S = normal(h, d)
            xs = [h.real('x%d' % i, -4, 4) for i in range(d)]
            want = gauss(mu, S, xs)
            h.check_eq(value(N.pdf(*xs)), want, 'density', tol=1e-9)
            h.check_eq(unwrap(N.pdf(*[h.array([x, x, x]) for x in xs])[2]), want, 'density-array', tol=1e-9)
            w = N.pdf(*[h.array([x, 0.0, 0.0, x]).reshape(2, 2) for x in xs])
            h.check(np.shape(w) == (2, 2), 'shape')
            h.check_eq(unwrap(w[1, 1]), want, 'density-array', tol=1e-9)
            k = [1, 2, 0, 3][:d]
            want = gauss(mu, S, [sym.lift(v) for v in k] if h.sym else k)
            h.check_eq(value(N.pdf(*k)), want, 'integers', tol=1e-9)
            h.check_eq(unwrap(N.pdf(*[np.array([v, v]) for v in k])[1]), want, 'integers', tol=1e-9)
    return fn


def normal_call(h):
    """inside five standard deviations the call gives the density"""
    with algebra(h):
        d = 2
        N, mu, S = normal(h, d)
        ys = [h.real('y%d' % i, -4.99, 4.99) for i in range(d)]
        sd = [float(S[i][i]) ** 0.5 for i in range(d)]
        xs = [mu[i] + ys[i] * (h.q(Fraction(sd[i])) if h.sym else sd[i]) for i in range(d)]
        want = value(N.pdf(*xs))
        h.check_eq(value(N(*xs)), want, 'call', tol=1e-9)
        h.check_eq(unwrap(N(*[h.array([x, x]) for x in xs])[1]), want, 'call-array', tol=1e-9)


def default_variables(h):
    with algebra(h):
        d = h.choose('d', [1, 2, 3])
        mu = [0.5, -1.0, 2.0][:d]
        S = [[4, 1, F(1, 2)], [1, 1, F(-1, 8)], [F(1, 2), F(-1, 8), F(1, 4)]]     # standard deviations 2, 1, 1/2
        S = [r[:d] for r in S[:d]]
        N = ND.NDNormalDistr(np.array(mu), np.array([[float(v) for v in r] for r in S]))
        t = h.real('t', -3, 3)
        for i in range(d):
            v = float(S[i][i])
            x = t
            h.check_eq(value(N.Vars[i].pdf(x)), gauss([mu[i]], [[v]], [x]), 'variable', tol=1e-7)
        h.check([u.getSymname() for u in N.Vars] is not None and len(set(u.id() for u in N.Vars)) == d, 'distinct')


def subsets(d, least=1, most=None):
    return [list(p) for r in range(least, (d if most is None else most) + 1) for p in itertools.permutations(range(d), r)]


def ask(h, N, vs):
    return [N.Vars[v] for v in vs] if h.choose('by', ['variable', 'number']) == 'variable' else vs


def normal_marginal(d, free):
    def fn(h):
        with algebra(h):
            N, mu, S = normal(h, d, free)
            vs = h.choose('eliminate', subsets(d))
            e = N.eliminate(ask(h, N, vs))
            rest = [i for i in range(d) if i not in vs]
            if not rest:
                h.check(isinstance(e, ND.NDConstFactor) and e() == 1, 'one')
                return
            h.check([id(v) for v in e.Vars] == [id(N.Vars[i]) for i in rest] and e.d == len(rest), 'variables')
            for p, i in enumerate(rest):
                h.check_eq(unwrap(e.mu[p]), mu[i], 'mean')
                for q, j in enumerate(rest):
                    h.check_eq(unwrap(e.Sigma[p, q]), S[i][j], 'covariance')
    return fn


def normal_conditional(d, free):
    def fn(h):
        with algebra(h):
            N, mu, S = normal(h, d, free)
            vs = h.choose('given', subsets(d, 1, d - 1))
            xs = {v: h.real('x%d' % v, -4, 4) for v in vs}
            e = N.condition(ask(h, N, vs), *[xs[v] for v in vs])
            rest = [i for i in range(d) if i not in vs]
            h.check([id(v) for v in e.Vars] == [id(N.Vars[i]) for i in rest], 'variables')
            L = inverse([[v if isinstance(v, sym.Sym) else F(v) for v in r] for r in S]) if h.sym else _inv(np.array([[float(v) for v in r] for r in S])).tolist()
            for p, i in enumerate(rest):
                s = 0
                for q, j in enumerate(rest):
                    s = s + (unwrap(e.mu[q]) - mu[j]) * L[i][j]
                for v in vs:
                    s = s + (xs[v] - mu[v]) * L[i][v]
                h.check_eq(s, 0, 'mean', tol=1e-7)
                for j in range(len(rest)):
                    s = 0
                    for q, k in enumerate(rest):
                        s = s + unwrap(e.Sigma[j, q]) * L[k][i]
                    h.check_eq(s, 1 if p == j else 0, 'covariance', tol=1e-7)
    return fn


# ------------------------------------------------------------------ general densities
class Exact(object):
    """the interpolated function itself, evaluated on arrays as interpolation does"""

    def __init__(self, f, d, a=None, b=None):
        self.f, self.d, self.a, self.b = f, d, a, b
        self.Ys = np.array([1.0], dtype=object)
        assert len(a) == d and len(b) == d

    def interp_at(self, *X):
        if not isinstance(X[0], np.ndarray):
            y = self.f(*[patch.oarray([x, x]) if sym.CTX is not None else np.array([x, x]) for x in X])
            return unwrap(y[1]) * self.Ys[0]
        return self.f(*X) * self.Ys[0]


def simpson(h):
    def line(f, a, b, *args, **kw):
        """exact up to degree 3"""
        assert not isinstance(a, float) or math.isfinite(a)
        y = f(h.array([a, (a + b) / 2, b]))
        return (b - a) * (unwrap(y[0]) + 4 * unwrap(y[1]) + unwrap(y[2])) / 6, 0
    return line


def exact(h):
    return stub((SG.AdaptiveSparseGridInterpolator, Exact), (G.integrate_fejer2, simpson(h)))


class Poly(object):
    """polynomial of degree at most 1 in each variable: {exponents: coefficient}"""

    def __init__(self, c):
        self.c = c

    def __call__(self, *X):
        r = 0
        for e, k in self.c.items():
            t = k
            for x, p in zip(X, e):
                for _ in range(p):
                    t = x * t
            r = r + t
        if isinstance(X[0], np.ndarray) and not isinstance(r, np.ndarray):
            r = X[0] * 0 + r
        return r

    def integrate(self, i, a, b):
        """integral over variable i, still written in all variables"""
        out = {}
        for e, k in self.c.items():
            p = e[i]
            f = e[:i] + (0,) + e[i + 1:]
            t = k * (pw(b, p + 1) - pw(a, p + 1)) / (p + 1)
            out[f] = out[f] + t if f in out else t
        return Poly(out)

    def times(self, o):
        out = {}
        for e, k in self.c.items():
            for f, l in o.c.items():
                g = tuple(p + q for p, q in zip(e, f))
                out[g] = out[g] + k * l if g in out else k * l
        return Poly(out)

    def spread(self, where, n):
        """the same polynomial in n variables, its variables at the given places"""
        out = {}
        for e, k in self.c.items():
            f = [0] * n
            for p, w in zip(e, where):
                f[w] = p
            out[tuple(f)] = k
        return Poly(out)


def pw(x, n):
    r = 1
    for _ in range(n):
        r = r * x
    return r


class Joint(ND.NDDistr):
    def __init__(self, poly, Vars):
        self.poly = poly
        super(Joint, self).__init__(len(Vars), Vars)

    def pdf(self, *X):
        return self.poly(*X)


BOX = [(0.0, 1.0), (1.0, 3.0), (-1.0, 1.0), (0.0, 4.0)]


def coefficients(h, d, tag, fixed=False):
    """positive on the box: constant term large"""
    out = {}
    for e in itertools.product((0, 1), repeat=d):
        if sum(e) <= 2:
            n = 'k%s%s' % (tag, ''.join(map(str, e)))
            if fixed:
                out[e] = 60.0 if sum(e) == 0 else float(1 + (hash_(n) % 5))
            else:
                out[e] = h.real(n, 60, 80) if sum(e) == 0 else h.real(n, -1, 1)
    return Poly(out)


def hash_(s):
    r = 7
    for c in s:
        r = (r * 31 + ord(c)) % 1009
    return r


def boxed(d):
    return [Margin('X%d' % i, None, lambda x: x * 0 + 1, *BOX[i]) for i in range(d)]


def point(h, d):
    xs = []
    for i in range(d):
        xs.append(h.real('x%d' % i, BOX[i][0], BOX[i][1]))
    return xs


def both(h, f, xs, want, label, tol=1e-6):
    """the value for numbers and arrays"""
    h.check_eq(value(f(*xs)), want, label, tol=tol)
    if xs:
        w = f(*[h.array([x, x]) for x in xs])
        h.check(np.shape(w) == (2,), label + '-shape')
        h.check_eq(unwrap(w[1]), want, label + '-array', tol=tol)


def marginal(d):
    def fn(h):
        with exact(h):
            V = boxed(d)
            p = coefficients(h, d, '')
            g = Joint(p, V)
            xs = point(h, d)
            vs = h.choose('eliminate', subsets(d, 0))
            e = g.eliminate(ask(h, g, vs))
            rest = [i for i in range(d) if i not in vs]
            want = p
            for v in vs:
                want = want.integrate(v, *BOX[v])
            h.check([id(v) for v in e.Vars] == [id(V[i]) for i in rest] and e.d == len(rest), 'variables')
            both(h, e, [xs[i] for i in rest], want(*xs), 'marginal')
            if rest:
                both(h, e.pdf, [xs[i] for i in rest], want(*xs), 'density')
    return fn


def conditional(d):
    def fn(h):
        with exact(h):
            V = boxed(d)
            p = coefficients(h, d, '', fixed=True)
            g = Joint(p, V)
            xs = point(h, d)
            vs = h.choose('given', subsets(d))
            norm = h.choose('normalize', [True, False])
            args = {} if norm else {'normalize': False}
            e = g.condition(ask(h, g, vs), *[xs[v] for v in vs], **args)
            rest = [i for i in range(d) if i not in vs]
            h.check([id(v) for v in e.Vars] == [id(V[i]) for i in rest] and e.d == len(rest), 'variables')
            if not rest:
                h.check(e() == 1, 'one')
                return
            mass = p
            for v in rest:
                mass = mass.integrate(v, *BOX[v])
            if norm:
                y = value(e(*[xs[i] for i in rest]))
                h.check_eq(y * mass(*xs), p(*xs), 'conditional', tol=1e-6)
                y = unwrap(e(*[h.array([xs[i], xs[i]]) for i in rest])[1])
                h.check_eq(y * mass(*xs), p(*xs), 'conditional-array', tol=1e-6)
            else:
                both(h, e, [xs[i] for i in rest], p(*xs), 'section')
            if len(vs) > 1:
                return
            out = [h.real('o%d' % v, -9, 9) for v in vs]
            if all(bool(o >= BOX[v][0]) and bool(o <= BOX[v][1]) for o, v in zip(out, vs)):
                return
            try:
                g.condition(vs, *out, **args)
                h.check(False, 'outside-refused')
            except AssertionError:
                h.check(True, 'outside-refused')
    return fn


STRUCT = {  # factors: ('joint', variables) / ('one', variable) / ('const',)
    'chain': [('joint', (0, 1)), ('joint', (2, 1))],
    'star': [('joint', (1, 0)), ('joint', (2, 0)), ('one', 1)],
    'whole': [('joint', (2, 0, 1)), ('one', 1), ('const',)],
    'separate': [('joint', (1, 0)), ('one', 2), ('const',)],
    'triangle': [('joint', (1, 0)), ('joint', (2, 1)), ('joint', (0, 2))],
}


class Line(Margin):
    """variable whose density is a polynomial of degree 1"""

    def pdf(self, x):
        return self.f(x)


def product(h, which, fixed):
    fs, total, V = [], Poly({(0, 0, 0): 1}), [None] * 3
    names = h.choose('names', ['abc', 'cab', 'bca'])
    ones = {f[1]: coefficients(h, 1, 'v%d' % f[1], fixed) for f in STRUCT[which] if f[0] == 'one'}
    for i in range(3):
        V[i] = Line(names[i], None, ones.get(i, lambda x: x * 0 + 1), *BOX[i])
    for k, f in enumerate(STRUCT[which]):
        if f[0] == 'joint':
            p = coefficients(h, len(f[1]), 'f%d' % k, fixed)
            fs.append(Joint(p, [V[i] for i in f[1]]))
            total = total.times(p.spread(f[1], 3))
        elif f[0] == 'one':
            fs.append(V[f[1]])
            total = total.times(ones[f[1]].spread((f[1],), 3))
        else:
            c = 3.0 if fixed else h.real('c', 1, 5)
            fs.append(ND.NDConstFactor(c))
            total = total.times(Poly({(0, 0, 0): c}))
    return ND.NDProductDistr(fs), total, V


def order(V, g):
    """places of the product's variables"""
    return [[id(v) for v in V].index(id(u)) for u in g.Vars]


def product_density(which):
    def fn(h):
        with exact(h):
            g, p, V = product(h, which, False)
            xs = point(h, 3)
            w = order(V, g)
            h.check(sorted(w) == [0, 1, 2] and [v.getSymname() for v in g.Vars] == sorted([v.getSymname() for v in V], key=str), 'variables')
            both(h, g, [xs[i] for i in w], p(*xs), 'product')
            both(h, g.pdf, [xs[i] for i in w], p(*xs), 'density')
            h.check([(g.a[k], g.b[k]) for k in range(3)] == [BOX[i] for i in w], 'box')
            out = h.real('out', -9, 9)
            k = h.choose('outside', [0, 1, 2])
            h.assume(lor(h, [out < BOX[k][0], out > BOX[k][1]]) if h.sym else (out < BOX[k][0] or out > BOX[k][1]))
            ys = list(xs)
            ys[k] = out
            both(h, g, [ys[i] for i in w], 0, 'outside')
            for i in range(3):
                n = len([f for f in STRUCT[which] if f[0] == 'joint' and i in f[1] or f[0] == 'one' and f[1] == i])
                h.check(g.get_n_terms(V[i]) == n, 'terms')
    return fn


def product_marginal(which):
    def fn(h):
        with exact(h):
            g, p, V = product(h, which, True)
            xs = point(h, 3)
            vs = h.choose('eliminate', subsets(3, 0))
            e = g.eliminate([V[v] for v in vs])
            rest = [i for i in range(3) if i not in vs]
            want = p
            for v in vs:
                want = want.integrate(v, *BOX[v])
            w = order(V, e)
            h.check(sorted(w) == rest, 'variables')
            both(h, e, [xs[i] for i in w], want(*xs), 'marginal', tol=1e-4)
    return fn


def product_conditional(which, fixed):
    def fn(h):
        with exact(h):
            g, p, V = product(h, which, True)
            xs = point(h, 3)
            vs = h.choose('given', subsets(3))
            if fixed:
                for v in vs:
                    xs[v] = BOX[v][0] + 0.375 * (BOX[v][1] - BOX[v][0])
            e = g.condition([V[v] for v in vs], *[xs[v] for v in vs])
            rest = [i for i in range(3) if i not in vs]
            w = order(V, e)
            h.check(sorted(w) == rest, 'variables')
            mass = p
            for v in rest:
                mass = mass.integrate(v, *BOX[v])
            y = value(e(*[xs[i] for i in w]))
            h.check_eq(y * mass(*xs), p(*xs), 'conditional', tol=1e-3)
    return fn


def given(h, sub=False):
    """a conditional distribution: joint over marginal"""
    V = boxed(3)
    p = coefficients(h, 3, '', fixed=True)
    g = Joint(p, V)
    vs = h.choose('given', subsets(3, 1, 2))
    c = ND.ConditionalDistr(g, ask(h, g, vs) if not sub else vs)
    return V, p, g, vs, c


def over(p, q, xs):
    return p(*xs) / q(*xs)


def down(p, vs):
    for v in vs:
        p = p.integrate(v, *BOX[v])
    return p


def ratio(h):
    with exact(h):
        V, p, g, vs, c = given(h)
        xs = point(h, 3)
        rest = [i for i in range(3) if i not in vs]
        h.check([id(v) for v in c.Vars] == [id(v) for v in V], 'variables')
        both(h, c, xs, over(p, down(p, rest), xs), 'ratio')


def ratio_marginal(h):
    with exact(h):
        V, p, g, vs, c = given(h)
        xs = point(h, 3)
        rest = [i for i in range(3) if i not in vs]
        out = h.choose('eliminate', [list(q) for r in range(1, len(rest) + 1) for q in itertools.permutations(rest, r)])
        e = c.eliminate([V[v] for v in out])
        if sorted(out) == rest:
            h.check(isinstance(e, ND.NDConstFactor) and e() == 1, 'one')
            return
        left = [i for i in range(3) if i not in out]
        h.check([id(v) for v in e.Vars] == [id(V[i]) for i in left], 'variables')
        both(h, e, [xs[i] for i in left], over(down(p, out), down(p, rest), xs), 'marginal')
        try:
            c.eliminate([V[vs[0]]])
            h.check(False, 'conditioning-variable-kept')
        except RuntimeError:
            h.check(True, 'conditioning-variable-kept')


def ratio_conditional(h):
    """p(u|c) with some variables fixed: the same function of the others, up to a constant"""
    with exact(h):
        V, p, g, vs, c = given(h, True)
        xs = point(h, 3)
        fix = h.choose('fix', subsets(3, 1, 2))
        rest = [i for i in range(3) if i not in vs]
        left = [i for i in range(3) if i not in fix]
        e = c.condition([V[v] for v in fix], *[xs[v] for v in fix])
        h.check([id(v) for v in e.Vars] == [id(V[i]) for i in left], 'variables')
        ys = list(xs)
        for i in left:
            ys[i] = h.real('y%d' % i, *BOX[i])
        full = lambda z: over(p, down(p, rest), z)
        a = value(e(*[xs[i] for i in left]))
        b = value(e(*[ys[i] for i in left]))
        h.check_eq(a * full(ys), b * full(xs), 'proportional', tol=1e-4)
        if set(vs) <= set(fix):
            h.check_eq(a * down(p, left)(*xs), p(*xs), 'density', tol=1e-4)


def bayes(h):
    """p(y|x) p(x) as a product gives back the joint, its margins and conditionals"""
    with exact(h):
        V = boxed(2)
        p = coefficients(h, 2, '', fixed=True)
        g = Joint(p, V)
        k = h.choose('given', [0, 1])
        f = [ND.ConditionalDistr(g, [k]), g.eliminate([1 - k])]
        if h.choose('order', [0, 1]):
            f.reverse()
        q = ND.NDProductDistr(f)
        xs = point(h, 2)
        w = order(V, q)
        both(h, q, [xs[i] for i in w], p(*xs), 'joint')
        both(h, q.eliminate(V[1 - k]), [xs[k]], down(p, [1 - k])(*xs), 'margin')
        both(h, q.eliminate(V[k]), [xs[1 - k]], down(p, [k])(*xs), 'other-margin', tol=1e-4)


def substitution(h):
    """a variable replaced by a function of others; products multiply by the factor given"""
    with exact(h):
        V = boxed(3)
        T = Margin('T', None, lambda x: x * 0 + 1, -30.0, 30.0)
        p = coefficients(h, 3, '')
        g = Joint(p, V)
        k = h.choose('variable', [0, 1, 2])
        o = h.choose('other', [i for i in range(3) if i != k])
        args = h.choose('arguments', [[T], [T, V[o]], [V[o], T]])
        jac = Joint(coefficients(h, len(args), 'j', fixed=True), args)
        xs = point(h, 3)
        t = h.real('t', -20, 20)

        def back(*z):
            d = dict(zip([id(v) for v in args], z))
            return d[id(T)] if len(z) == 1 else d[id(T)] - 2 * d[id(V[o])]
        at = {id(v): x for v, x in zip(V, xs)}
        at[id(T)] = t
        new = back(*[at[id(v)] for v in args])
        h.assume(new >= BOX[k][0])
        h.assume(new <= BOX[k][1])
        ys = list(xs)
        ys[k] = new
        kind = h.choose('kind', ['plain', 'varschange', 'product'])
        src = g if kind != 'product' else ND.NDProductDistr([g, Joint(coefficients(h, 1, 'e', fixed=True), [V[o]])])
        if kind == 'plain':
            q = ND.NDDistrWithVarSubst(g, V[k], back, args)
            want = p(*ys)
        else:
            q = src.varschange(V[k], back, args, jac)
            want = p(*ys) * jac.poly(*[at[id(v)] for v in args])
            if kind == 'product':
                want = want * coefficients(h, 1, 'e', fixed=True)(xs[o])
        h.check(sorted(map(id, q.Vars)) == sorted([id(T)] + [id(V[i]) for i in range(3) if i != k]), 'variables')
        both(h, q, [at[id(v)] for v in q.Vars], want, 'substituted', tol=1e-4)


def calling(h):
    """zero outside the box, the density inside, mixed numbers and arrays, unknown variables refused"""
    V = boxed(2)
    p = coefficients(h, 2, '')
    f = ND.NDFun(2, V, p)
    x, y = h.real('x', -5, 5), h.real('y', -5, 5)
    inside = bool(x >= BOX[0][0]) and bool(x <= BOX[0][1]) and bool(y >= BOX[1][0]) and bool(y <= BOX[1][1])
    want = p(x, y) if inside else 0
    both(h, f, [x, y], want, 'value')
    h.check_eq(unwrap(f(h.array([0.5, x]), y)[1]), want, 'mixed')
    h.check_eq(unwrap(f(x, h.array([2.0, y]))[1]), want, 'mixed')
    w = f(h.array([0.5, x]).reshape(2, 1), h.array([2.0, y]).reshape(1, 2))
    h.check(np.shape(w) == (2, 2), 'grid')
    h.check_eq(unwrap(w[1, 1]), want, 'grid')
    T = RV(sym='T')
    for bad in (T, 2, -1, [0, T]):
        try:
            f.prepare_var(bad)
            h.check(False, 'refused')
        except RuntimeError:
            h.check(True, 'refused')
    h.check(f.prepare_var([V[1], 0]) == ([1, 0], []) and f.prepare_var(V[1]) == ([1], [0]), 'numbers')
    g = ND.NDFun(2, V, lambda a, b: -p(a, b), abs=True)
    both(h, g, [x, y], want, 'absolute-value')


def regression(h):
    """the regression function: functional of the conditional density at each point"""
    with exact(h):
        V = boxed(2)
        p = coefficients(h, 2, '', fixed=True)
        g = Joint(p, V)
        k = h.choose('of', [0, 1])
        kind = h.choose('type', [0, 1, 2, 3, 4])
        x = h.real('x', *BOX[1 - k])
        y = h.real('y', *BOX[k])
        vals = {n: h.real(n, -3, 3) for n in ('mean', 'median', 'mode', 'low', 'high')}
        for v in V:
            v.get_piecewise_pdf = lambda v=v: Breaks([v.a, v.b])

        class Given(object):
            def __init__(self, fun=None, breakPoints=None):
                h.check(list(breakPoints) == list(BOX[k]), 'range')
                xs = [None, None]
                xs[k], xs[1 - k] = y, x
                h.check_eq(value(fun(y)) * down(p, [k])(*xs), p(*xs), 'conditional', tol=1e-4)

            def mean(self): return vals['mean']
            def median(self): return vals['median']
            def mode(self): return vals['mode']

            def quantile(self, q):
                h.check(q in (0.025, 0.975), 'level')
                return vals['low' if q < 0.5 else 'high']
        with stub((ND.FunDistr, Given)):
            r = Recorder()
            with stub(((ND.PiecewiseFunction, 'toInterpolated'), lambda s: s)):
                f = g.regfun(V[k], type=kind)
                h.check(list(f.getBreaks()) == list(BOX[1 - k]), 'domain')
                want = vals[['mean', 'median', 'mode', 'low', 'high'][kind]]
                h.check_eq(value(f(x)), want, 'regression')
                r = f(h.array([x, x + 0]))
                h.check_eq(unwrap(r[0]), want, 'regression-vector')
                h.check_eq(unwrap(r[1]), want, 'regression-vector')


def noisy(h):
    """the conditional density of a function observed with additive noise"""
    with exact(h):
        V = boxed(2)
        p = coefficients(h, 2, '', fixed=True)
        na, nb = -2.0, 3.0
        g = h.fun('g', True)
        noise = Margin('N', None, None, na, nb)
        dens = lambda u: g(u) if not isinstance(u, np.ndarray) else np.array([g(unwrap(x)) for x in u.ravel()] + [None], dtype=object)[:-1].reshape(u.shape)
        noise.pdf = dens
        type(noise).__call__ = lambda self, u: self.pdf(u)
        try:
            lo, hi = h.real('flo', -40, 0), h.real('fhi', 0.5, 60)
            given_range = h.choose('range', [True, False])
            q = ND.NDNoisyFun(lambda x, y: p(x, y), list(V), noise, value_sym='Z', f_range=(lo, hi) if given_range else None)
            if not given_range:
                ends = [p(BOX[0][0], BOX[1][0]), p(BOX[0][1], BOX[1][1])]
                lo, hi = (ends if bool(ends[0] <= ends[1]) else ends[::-1])
            h.check([id(v) for v in q.Vars[:2]] == [id(v) for v in V] and q.Vars[2] is q.fun_value_var, 'variables')
            h.check_eq(q.a[2], lo + na, 'low')
            h.check_eq(q.b[2], hi + nb, 'high')
            for i in (0, 1):
                h.check(q.a[i] == BOX[i][0] and q.b[i] == BOX[i][1], 'box')
            xs = point(h, 2)
            z = h.real('z', -60, 80)
            d = z - p(*xs)
            inside = bool(na <= d) and bool(d <= nb)
            want = g(d) if inside else 0
            act = h.choose('act', ['density', 'condition-value', 'condition-x', 'condition-y', 'eliminate'])
            if act == 'density':
                h.check_eq(value(q.pdf(*(xs + [z]))), want, 'density')
                r = q.pdf(h.array([xs[0], xs[0]]), h.array([xs[1], xs[1]]), h.array([z, z]))
                h.check_eq(unwrap(r[0]), want, 'density-vector')
            elif act == 'eliminate':
                e = q.eliminate(q.fun_value_var)
                h.check(isinstance(e, ND.NDConstFactor) and e() == 1, 'integrates-to-one')
                for v in V:
                    try:
                        q.eliminate(v)
                        h.check(False, 'arguments-kept')
                    except RuntimeError:
                        h.check(True, 'arguments-kept')
            else:
                k = {'value': 2, 'x': 0, 'y': 1}[act.split('-')[1]]
                h.assume(lo + na <= z)
                h.assume(z <= hi + nb)
                c = q.condition([q.Vars[k]], (xs + [z])[k])
                left = [i for i in range(3) if i != k]
                h.check([id(v) for v in c.Vars] == [id(q.Vars[i]) for i in left], 'variables')
                h.check_eq(value(c(*[(xs + [z])[i] for i in left])), want, 'conditional')
        finally:
            del type(noise).__call__


class Breaks(object):
    def __init__(self, b):
        self.b = b

    def getBreaks(self):
        return np.array(self.b)

    def range(self):
        return self.b[0], self.b[-1]


class Recorder(object):
    pass


for d in (1, 2, 3):
    add('normal-density[%dd]' % d, normal_density(d), bounds='any mean and point, fixed covariances', encoded=['NDNormalDistr.pdf'])
add('normal-call', normal_call, bounds='any mean, points within 5 standard deviations', encoded=['NDFun.__call__', 'NDNormalDistr'])
add('normal-variables', default_variables, bounds='fixed covariances, any point', encoded=['NDNormalDistr.__init__'])
for d in (2, 3, 4):
    for free in (False, True):
        t = '%dd%s' % (d, ',any covariance' if free else '')
        b = 'any mean%s, every choice and order of variables' % (' and covariance' if free else '')
        add('normal-marginal[%s]' % t, normal_marginal(d, free), bounds=b, encoded=['NDNormalDistr.eliminate'], quick=d < 4 - free)
        if not (free and d > 2):
            add('normal-conditional[%s]' % t, normal_conditional(d, free), bounds=b, encoded=['NDNormalDistr.condition'])
for d in (1, 2, 3):
    add('marginal[%dd]' % d, marginal(d), bounds='any polynomial density of degree 1 in each variable, every choice and order of variables', encoded=['NDFun.eliminate', 'InterpRunner', 'NDInterpolatedDistr'])
    if d > 1:
        add('conditional[%dd]' % d, conditional(d), bounds='every choice and order of variables, any point', encoded=['NDDistr.condition'])
for w in STRUCT:
    add('product[%s]' % w, product_density(w), bounds='any factors, any names', encoded=['NDProductDistr.pdf', 'optimize', 'prepare_var'])
    add('product-marginal[%s]' % w, product_marginal(w), bounds='every choice and order of variables, any point', encoded=['NDProductDistr.eliminate', 'factor_out'])
    for fixed in (True, False):
        add('product-conditional[%s%s]' % (w, '' if fixed else ',any condition'), product_conditional(w, fixed), bounds='every choice and order of variables, any point', encoded=['NDProductDistr.condition'], quick=fixed)
for n, f in [('ratio', ratio), ('ratio-marginal', ratio_marginal), ('ratio-conditional', ratio_conditional)]:
    add(n, f, bounds='every choice of conditioning variables, any point', encoded=['ConditionalDistr'])
add('bayes', bayes, bounds='any point', encoded=['NDProductDistr', 'ConditionalDistr'])
add('substitution', substitution, bounds='any point, any polynomial', encoded=['NDDistrWithVarSubst', 'varschange'])
add('calling', calling, bounds='any point', encoded=['NDFun.__call__', 'prepare_var'])
add('regression', regression, bounds='any point, every type', encoded=['NDDistr.regfun'])
add('noisy-function', noisy, bounds='a function of two variables, any noise density, any point', encoded=['NDNoisyFun', 'NDNoisyFun.partial_f'])
