"""Sparse grids: interpolation at nodes, exactness on the polynomial space, box."""
import itertools
from fractions import Fraction
import numpy as np
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.ops import value
import pacal.depvars.sparse_grids as SG
import pacal.params as params

P = 'C23'
META = {'assumptions': ['the nested nodes and their weights stand for the Chebyshev ones (equispaced nodes with their exact barycentric weights in the exactness harnesses; the real ones in the weights harness)',
                        'exactness on monomials extends to the space by linearity of the interpolant in the function values']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('max_paths', 1500)
    kw.setdefault('thorough', {'budget': 500, 'max_paths': 30000})
    HARNESSES.append(Harness(name, fn, P, **kw))


class Small(SG.AdaptiveSparseGridInterpolator):
    """three nodes along an axis at the lowest level"""

    def __setattr__(self, k, v):
        object.__setattr__(self, k, 3 if k == 'init_ni' else v)


class Steps(object):
    """a convergence monitor satisfied after a number of refinements"""

    def __init__(self, n):
        self.n, self.seen = n, 0

    def __call__(self, *a, **k):
        return self

    def add(self, *a, **k):
        self.seen += 1

    def test_convergence(self):
        return self.seen > self.n, 'ok'


def even_nodes(n, a=-1, b=1):
    if not isinstance(a, sym.Sym):
        a, b = sym.lift(a), sym.lift(b)
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = a + (b - a) * Fraction(i, n - 1)
    return r


def even_weights(n):
    r = np.empty(n, dtype=object)
    c = 1
    for i in range(n):
        r[i] = sym.lift(c * (-1) ** i)
        c = c * (n - 1 - i) // (i + 1)
    return r


class grids(object):
    """exact nodes in symbolic runs, the number of refinements given"""

    def __init__(self, h, level, real=False, quiet=True):
        pairs = [(SG.convergence_monitor, Steps(level))]
        if h.sym and not real:
            pairs += [(SG.cheb_nodes, even_nodes), (SG.cheb_weights, even_weights)]
        if quiet:
            pairs.append(((SG.AdaptiveSparseGridInterpolator, 'test_accuracy'), lambda s, x, y: 0.0))
        self.s = stub(*pairs)

    def __enter__(self):
        self.s.__enter__()
        self.q = params.interpolation_nd.maxq
        params.interpolation_nd.maxq = 12
        self.d = params.interpolation_nd.debug_info
        params.interpolation_nd.debug_info = False
        return self

    def __exit__(self, *a):
        params.interpolation_nd.maxq = self.q
        params.interpolation_nd.debug_info = self.d
        return self.s.__exit__(*a)


def space(d, level):
    """largest exponents of the polynomial space: levels summing to the given one, 2**(l+1) each"""
    return [tuple(2 ** (l + 1) for l in ls) for ls in itertools.product(range(level + 1), repeat=d) if sum(ls) == level]


def monomials(d, level, least=0):
    out = set()
    for top in space(d, level):
        # exponents near the corners decide; all of them are listed up to the bound
        for e in itertools.product(*[range(t + 1) for t in top]):
            out.add(e)
    return sorted(e for e in out if sum(e) >= least)


def power(x, n):
    r = 1
    for _ in range(n):
        r = r * x
    return r


def mono(xs, e):
    r = 1
    for x, p in zip(xs, e):
        r = r * power(x, p)
    return r


def function(e):
    def f(*X):
        r = mono(X, e)
        return r if isinstance(r, np.ndarray) else X[0] * 0 + r
    return f


def exactness(d, level, top_only):
    ms = monomials(d, level)
    if top_only:
        tops = space(d, level)
        ms = [e for e in ms if any(all(abs(p - t) <= 1 or p <= 1 for p, t in zip(e, top)) for top in tops)]

    def fn(h):
        e = h.choose('monomial', ms)
        box = h.choose('box', [[(-1.0, 1.0)] * d, [(0.0, 2.0), (1.0, 2.0), (-3.0, 1.0)][:d]])
        with grids(h, level):
            g = Small(function(e), d, a=[a for a, b in box], b=[b for a, b in box])
            xs = [h.real('x%d' % i, *box[i]) for i in range(d)]
            for x, (a, b) in zip(xs, box):
                n = 2 ** (level + 1)
                for k in range(n + 1):
                    h.assume(x != a + (b - a) * h.q(k, n))
            want = mono(xs, e)
            h.check_eq(value(g.interp_at(*xs)), want, 'value', tol=1e-8)
            w = g.interp_at(*[h.array([x, x]) for x in xs])
            h.check(np.shape(w) == (2,), 'shape')
            h.check_eq(unwrap(w[1]), want, 'array', tol=1e-8)
    return fn


def at_nodes(d, level):
    """any function values are met at the nodes, alone and in arrays with other points"""
    def fn(h):
        box = [(-1.0, 1.0), (1.0, 3.0), (-3.0, 1.0)][:d]
        with grids(h, level):
            g = Small(lambda *X: X[0] * 0 + 1, d, a=[a for a, b in box], b=[b for a, b in box])
            n = len(g.nodes)
            h.check(len(set(g.nodes)) == n and n == len(g.Ys), 'nodes')
            g.Ys = h.array([h.real('y%d' % i, -3, 3) for i in range(n)])
            k = h.choose('node', list(range(n)))
            top = g.q - g.d + 1
            at = lambda k: [unwrap(g.xroot_cache[j][top][g.nodes[k][j]]) for j in range(d)]
            xs = at(k)
            h.check_eq(value(g.interp_at(*xs)), g.Ys[k], 'node', tol=1e-8)
            o = at((k + 1) % n)
            t = [b - (b - a) * 0.3125 for a, b in box]
            w = g.interp_at(*[h.array([p, x, q, x]).reshape(2, 2) for p, x, q in zip(t, xs, o)])
            h.check(np.shape(w) == (2, 2), 'shape')
            h.check_eq(unwrap(w[0, 1]), g.Ys[k], 'node-array', tol=1e-8)
            h.check_eq(unwrap(w[1, 0]), g.Ys[(k + 1) % n], 'node-array', tol=1e-8)
            h.check_eq(unwrap(w[0, 0]), value(g.interp_at(*t)), 'other-point', tol=1e-8)
            h.check(len(g.interp_at(*[np.array([])] * d)) == 0, 'empty')
    return fn


def in_box(d, level):
    """nodes and their values: the function is evaluated once at every node, inside the box"""
    def fn(h):
        a = [h.real('a%d' % i, -5, 5) for i in range(d)]
        b = [h.real('b%d' % i, -5, 6) for i in range(d)]
        for p, q in zip(a, b):
            h.assume(q >= p + h.q(1, 4))
        seen = []
        e = h.choose('monomial', [m for m in monomials(d, level) if sum(m) <= 2 or m in space(d, level)])

        def f(*X):
            h.check(len(X) == d and len(set(map(np.shape, X))) == 1, 'arguments')
            u = []
            for p, q, x in zip(a, b, X):
                for v in x.ravel():
                    v = unwrap(v)
                    h.check(v >= p, 'inside')
                    h.check(v <= q, 'inside')
                u.append((x - p) / (q - p))
            seen.append(len(X[0]))
            r = mono(u, e)
            return r if isinstance(r, np.ndarray) else X[0] * 0 + r
        with grids(h, level):
            g = Small(f, d, a=a, b=b)
            h.check(sum(seen[:level + 1]) == len(g.nodes) == len(g.Ys), 'one-value-each')
            top = g.q - g.d + 1
            for k in range(len(g.nodes)):
                u = [(unwrap(g.xroot_cache[j][top][g.nodes[k][j]]) - a[j]) / (b[j] - a[j]) for j in range(d)]
                h.check_eq(unwrap(g.Ys[k]), mono(u, e), 'value-of-node', tol=1e-8)
    return fn


def weights(n_level):
    """the real nodes and weights reproduce polynomials in one dimension"""
    def fn(h):
        top = 2 ** (n_level + 1)
        e = h.choose('power', list(range(top + 1)))
        with grids(h, n_level, real=True):
            g = Small(function((e,)), 1, a=[-1.0], b=[1.0])
            x = h.real('x', -1, 1)
            for v in g.xroot_cache[0][g.q]:
                h.assume(x != h.q(Fraction(float(v))) if h.sym else x != v)
            h.check_eq(value(g.interp_at(x)), power(x, e), 'polynomial', tol=1e-7)
    return fn


def default_grid(h):
    """eleven nodes in each direction at first: polynomials of degree 10"""
    d = h.choose('d', [1, 2])
    e = h.choose('power', [0, 1, 5, 9, 10])
    j = h.choose('axis', list(range(d)))
    es = [1 - (i == j) for i in range(d)]
    es[j] = e
    with grids(h, 0):
        g = SG.AdaptiveSparseGridInterpolator(function(tuple(es)), d)
        h.check(len(g.nodes) == 11 ** d, 'nodes')
        x = h.real('x', -1, 1)
        for k in range(11):
            h.assume(x != h.q(2 * k - 10, 10))
        xs = [x if i == j else h.q(1, 3) for i in range(d)]
        h.check_eq(value(g.interp_at(*xs)), mono(xs, es), 'polynomial', tol=1e-7)


def error_estimate(h):
    """the error: the largest difference at the new points"""
    with grids(h, 0, quiet=False):
        g = Small(lambda x: x * x, 1)
        xs = [h.real('x%d' % i, -0.9, 0.9) for i in range(2)]
        for x in xs:
            h.assume(x != 0)
        ys = [h.real('y%d' % i, -2, 2) for i in range(2)]
        r = g.test_accuracy([h.array(xs)], h.array(ys))
        d = [abs(y - x * x) for x, y in zip(xs, ys)]
        h.check(r >= d[0] - (0 if h.sym else 1e-9), 'largest')
        h.check(r >= d[1] - (0 if h.sym else 1e-9), 'largest')
        if h.sym:
            h.check((r - d[0]) * (r - d[1]) == 0, 'attained')


def refines(h):
    """refinement stops by the monitor's answer or the highest level, the monitor sees the error"""
    with grids(h, 0, quiet=False):
        seen = []
        stop = h.choose('stop', [0, 1, 2, 9])
        lim = h.choose('maxq', [2, 3, 4])
        d = h.choose('d', [1, 2])
        errs = [h.real('e%d' % i, 0, 2) for i in range(6)]

        class Mon(object):
            def __init__(self, par=None):
                h.check(par is params.interpolation_nd.convergence, 'parameters')

            def add(self, err, y):
                seen.append(err)

            def test_convergence(self):
                return len(seen) > stop, 'x'
        params.interpolation_nd.maxq = lim
        with stub((SG.convergence_monitor, Mon), ((SG.AdaptiveSparseGridInterpolator, 'test_accuracy'), lambda s, x, y: errs[len(seen)])):
            g = Small(lambda *X: X[0] * 0 + 1, d)
        steps = max(0, min(stop, lim - d + 1))
        h.check(g.q == d + steps, 'level')
        for s, e in zip(seen, errs):
            h.check(s is e or bool(s == e), 'error')
        h.check(len(g.nodes) == len(g.Ys), 'values')


for d, levels in ((1, (0, 1, 2)), (2, (0, 1)), (3, (0,))):
    for l in levels:
        add('exactness[%dd,level %d]' % (d, l), exactness(d, l, True), bounds='every monomial near the corners of the space, any point off the nodes', encoded=['AdaptiveSparseGridInterpolator'])
for d, l in ((2, 2), (3, 1)):
    add('exactness[%dd,level %d]' % (d, l), exactness(d, l, True), bounds='every monomial near the corners of the space, any point off the nodes', encoded=['AdaptiveSparseGridInterpolator'], quick=False)
for d, l in ((1, 0), (1, 2), (2, 0), (2, 1), (3, 0), (3, 1)):
    add('nodes[%dd,level %d]' % (d, l), at_nodes(d, l), bounds='any function values', encoded=['interp_at', 'full_grid_interp_new'], quick=(d, l) != (3, 1))
for d, l in ((1, 0), (1, 1), (2, 0), (2, 1)):
    add('box[%dd,level %d]' % (d, l), in_box(d, l), bounds='any box', encoded=['adaptive_init', 'adaptive_interp', 'get_nodes'])
for l in (0, 1):
    add('weights[level %d]' % l, weights(l), bounds='any point', encoded=['cheb_weights', 'cheb_nodes'])
add('default', default_grid, bounds='any point', encoded=['adaptive_init'])
add('error', error_estimate, bounds='any points and values', encoded=['test_accuracy'])
add('refinement', refines, bounds='any errors', encoded=['adaptive_interp'])
