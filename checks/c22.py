"""Models: variables linked by equations, exchanged, eliminated, conditioned on."""
import contextlib
import io
import itertools
import math
from fractions import Fraction
import numpy as np
import sympy
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.ops import value
from checks.c09 import lor, land
from checks.c14 import m
from checks.c19 import evaluate, symbolic_constants
from checks.c21 import det
import pacal.depvars.models as M
import pacal.depvars.nddistr as ND
import pacal.rv as R

P = 'C22'
META = {'assumptions': ['sympy evaluates and differentiates its own expressions correctly as far as the equalities below confirm it',
                        'joint densities change variables, integrate variables out and are conditioned correctly (C21)',
                        'exp and log are the mathematical functions']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('max_paths', 3000)
    kw.setdefault('thorough', {'budget': 500, 'max_paths': 60000})

    def quiet(h):
        with contextlib.redirect_stdout(io.StringIO()), symbolic_constants():
            fn(h)
    HARNESSES.append(Harness(name, quiet, P, **kw))


class Leaf(R.RV):
    def __init__(self, name, a, b):
        R.RV.__init__(self, [], sym=name, a=a, b=b)

    def getName(self):
        return str(self.getSymname())


class Rv(object):
    exp, log = R.ExpRV, R.LogRV


class Point(object):
    """values with derivatives in every base direction"""

    def __init__(self, v, g):
        self.v, self.g = v, g

    @staticmethod
    def lift(o):
        return o if isinstance(o, Point) else Point(o, {})

    def map(self, v, d):
        return Point(v, {k: d * x for k, x in self.g.items()})

    def __add__(self, o):
        o = Point.lift(o)
        g = dict(self.g)
        for k, x in o.g.items():
            g[k] = g[k] + x if k in g else x
        return Point(self.v + o.v, g)
    __radd__ = __add__

    def __neg__(self):
        return self.map(-self.v, -1)

    def __sub__(self, o):
        return self + (-Point.lift(o))

    def __rsub__(self, o):
        return Point.lift(o) - self

    def __mul__(self, o):
        o = Point.lift(o)
        return self.map(self.v * o.v, o.v) + o.map(0, self.v)
    __rmul__ = __mul__

    def inv(self):
        return self.map(1 / self.v, -1 / (self.v * self.v))

    def __truediv__(self, o):
        return self * Point.lift(o).inv()

    def __rtruediv__(self, o):
        return Point.lift(o) * self.inv()

    def __pow__(self, k):
        assert k == 2
        return self * self


class Pt(object):
    @staticmethod
    def exp(u):
        e = m('exp', u.v)
        return u.map(e, e)

    @staticmethod
    def log(u):
        return u.map(m('log', u.v), 1 / u.v)


# base variables with ranges and a nominal point; equations, later ones using earlier ones
SPEC = {
    'sum': ('XY', lambda e, v: [('U', v['X'] + v['Y'])]),
    'difference': ('XY', lambda e, v: [('U', v['X'] - v['Y'])]),
    'scaled': ('X', lambda e, v: [('U', 3 - 2 * v['X'])]),
    'product': ('XY', lambda e, v: [('U', v['X'] * v['Y'])]),
    'ratio': ('XY', lambda e, v: [('U', v['X'] / v['Y'])]),
    'chain': ('XY', lambda e, v: chain([('U', lambda w: 2 * v['X']), ('T', lambda w: w['U'] + v['Y'])])),
    'two-sums': ('XY', lambda e, v: [('U', v['X'] + v['Y']), ('T', v['X'] - 2 * v['Y'])]),
    'noise': ('XYZ', lambda e, v: chain([('U', lambda w: v['X'] + v['Y']), ('T', lambda w: w['U'] - v['Z'])])),
    'noises': ('XYZ', lambda e, v: [('U', v['X'] + v['Y']), ('T', v['X'] - v['Z'])]),
    'regression': ('XYZ', lambda e, v: chain([('S', lambda w: v['X'] * 2), ('U', lambda w: w['S'] + v['Y']), ('T', lambda w: w['S'] + v['Z'])])),
    'product-sum': ('XYZ', lambda e, v: chain([('U', lambda w: v['X'] * v['Y']), ('T', lambda w: w['U'] + v['Z'])])),
    'exp': ('X', lambda e, v: [('U', e.exp(v['X']))]),
    'log': ('X', lambda e, v: [('U', e.log(v['X']))]),
    'inverse': ('X', lambda e, v: [('U', 1 / v['X'])]),
    'square': ('X', lambda e, v: [('U', v['X'] ** 2)]),
    'exp-sum': ('XY', lambda e, v: chain([('S', lambda w: v['X'] + v['Y']), ('U', lambda w: e.exp(w['S']))])),
    'log-product': ('XY', lambda e, v: chain([('S', lambda w: v['X'] * v['Y']), ('U', lambda w: e.log(w['S']))])),
    'cube': ('X', lambda e, v: chain([('S', lambda w: v['X'] ** 2), ('U', lambda w: w['S'] * v['X'])])),
    'cube-negative': ('X', lambda e, v: chain([('S', lambda w: v['X'] ** 2), ('U', lambda w: w['S'] * v['X'])])),
    'cube-mixed': ('X', lambda e, v: chain([('S', lambda w: v['X'] ** 2), ('U', lambda w: w['S'] * v['X'])])),
    'resistors': ('XY', lambda e, v: chain([('S', lambda w: v['X'] * v['Y']), ('T', lambda w: v['X'] + v['Y']), ('U', lambda w: w['S'] / w['T'])])),
    'separate': ('XYZ', lambda e, v: [('U', v['X'] + v['Y'])]),
}
BOX = {'X': (1.0, 3.0), 'Y': (2.0, 6.0), 'Z': (-1.0, 4.0)}
NOMINAL = {'X': 2.0, 'Y': 4.0, 'Z': 0.5}
# ends whose images the engine compares exactly
ENDS = {'cube-negative': {'X': (-3.0, -1.0)}, 'cube-mixed': {'X': (-1.0, 2.0)}, 'exp': {'X': (0.0, math.log(100))}, 'log': {'X': (1.0, 10.0)}, 'exp-sum': {'X': (0.0, 1.0), 'Y': (0.0, math.log(100) - 1)},
        'log-product': {'X': (1.0, 10.0), 'Y': (1.0, 10.0)}}
NUMERIC = {'exp', 'log', 'exp-sum', 'log-product'}


def chain(defs):
    """equations in terms of earlier variables"""
    w, out = {}, []
    for n, f in defs:
        r = f(w)
        if isinstance(r, R.RV):
            r.setSym(n)
        w[n] = r
        out.append((n, r))
    return out


class Ref(ND.NDFun):
    """a joint density known by where its variables came from: at the point looked at, every exchange must
    give back the value of the variable it removes; factors multiply"""

    def __init__(self, w, Vars, factor=1, out=()):
        self.w, self.Vars, self.factor, self.out, self.d = w, list(Vars), factor, list(out), len(Vars)

    def _segint(self, *a, **k):
        raise AssertionError

    def _at(self, v):
        i = [id(u) for u in self.Vars].index(id(v))
        return i

    def varschange(self, vari, inv_transf, inv_transf_vars, jacobian):
        h, true = self.w.h, self.w.true
        i = self._at(vari)
        rest = self.Vars[:i] + self.Vars[i + 1:]
        new = [v for v in inv_transf_vars if id(v) not in [id(u) for u in rest]]
        h.check(len(new) == 1 and id(new[0]) != id(vari), 'exchange-arguments')
        h.check_eq(unwrap(inv_transf(*[true[id(v)] for v in inv_transf_vars])), true[id(vari)], 'inverse', tol=1e-7)
        j = value(jacobian(*[true[id(v)] for v in jacobian.Vars]))
        for v in jacobian.Vars:
            h.check(id(v) in [id(u) for u in rest + new], 'exchange-arguments')
        return Ref(self.w, rest + new, self.factor * j, self.out)

    def eliminate(self, var, a=None, b=None):
        i = self._at(var)
        return Ref(self.w, self.Vars[:i] + self.Vars[i + 1:], self.factor, self.out + [var])

    def condition(self, var, *X, **kw):
        i = self._at(var[0])
        assert len(var) == 1 and len(X) == 1
        self.w.h.check_eq(X[0], self.w.true[id(var[0])], 'condition-value')
        return Ref(self.w, self.Vars[:i] + self.Vars[i + 1:], self.factor, self.out + [var[0]])


def middle(a, b):
    return round(2 * (a + b)) / 4.0


class World(object):
    """a model, the values of all its variables at any point and their derivatives"""

    def __init__(self, h, name, conditions=()):
        self.h = h
        base, eqs = SPEC[name]
        box = dict(BOX, **ENDS.get(name, {}))
        rv = {n: Leaf(n, *box[n]) for n in base}
        pt, nom = {}, {}
        for i, n in enumerate(base):
            x = h.real(n, *box[n]) if not (name in NUMERIC and n in conditions) else middle(*box[n])
            if name in NUMERIC and n not in conditions:         # ends of ranges are rounded there
                h.assume(x >= box[n][0] + 0.015625)
                h.assume(x <= box[n][1] - 0.015625)
            pt[n] = Point(x, {n: 1})
            nom[n] = Point(NOMINAL[n] if name not in ENDS else middle(*box[n]), {})
        self.base = [rv[n] for n in base]
        dep = []
        if name in NUMERIC:
            conditions = [c for c in conditions if c in base]
        for n, r in eqs(Rv, rv):
            r.setSym(n)
            rv[n] = r
            dep.append(r)
        for n, p in eqs(Pt, pt):
            pt[n] = p
        self.nominal = {n: p.v for n, p in nom.items()}
        if name not in NUMERIC:
            for n, p in eqs(None, nom):
                self.nominal[n] = p.v
        self.rv, self.dep = rv, dep
        self.true = {id(rv[n]): p.v for n, p in pt.items()}
        self.env = {rv[n].getSymname(): p.v for n, p in pt.items()}
        # auxiliary variables in between
        self.grad = {id(rv[n]): [p.g.get(b, 0) for b in base] for n, p in pt.items()}
        self.fixed = list(conditions) if name in NUMERIC else None
        for c in [] if name in NUMERIC else conditions:
            h.assume(pt[c].v == self.nominal[c])
        self.model = M.Model(Ref(self, self.base), dep)
        self.names = {id(v): n for n, v in rv.items()}
        todo = [v for v in self.model.all_vars if id(v) not in self.true]
        for _ in range(len(todo)):
            for v in list(todo):
                e = v.getSym()
                if all(a in self.env for a in e.atoms(sympy.Symbol)):
                    q = evaluate_point(e, {s: x for s, x in self.points(rv, pt).items()})
                    pt_name = str(v.getSymname())
                    rv[pt_name], pt[pt_name] = v, q
                    self.true[id(v)], self.env[v.getSymname()] = q.v, q.v
                    self.grad[id(v)] = [q.g.get(b, 0) for b in base]
                    self.names[id(v)] = pt_name
                    todo.remove(v)
        assert not todo

    def points(self, rv, pt):
        return {rv[n].getSymname(): p for n, p in pt.items()}

    def dependent(self, name):
        return self.rv[name]


def evaluate_point(e, env):
    e = sympy.sympify(e)
    if e.is_Symbol:
        return env[e]
    if e.is_Number:
        f = Fraction(float(e))
        return Point(int(f) if f.denominator == 1 else float(f), {})
    a = [evaluate_point(x, env) for x in e.args]
    if e.is_Add or e.is_Mul:
        r = a[0]
        for x in a[1:]:
            r = r + x if e.is_Add else r * x
        return r
    if e.is_Pow and e.args[1] in (-1, 2, -2):
        r = a[0] if e.args[1] == -1 else a[0] * a[0]
        return r if e.args[1] == 2 else r.inv()
    name = e.func.__name__
    return getattr(Pt, name)(a[0])


def ids(vs):
    return sorted(id(v) for v in vs)


def consistent(h, w, mod, label=''):
    """variables, equations and density of a model tell the same story"""
    free, dep = mod.free_rvs, mod.dep_rvs
    h.check(len(set(ids(free))) == len(free) and len(set(ids(dep))) == len(dep) and not set(ids(free)) & set(ids(dep)), label + 'variables-once')
    h.check(ids(mod.all_vars) == sorted(ids(free) + ids(dep)), label + 'all-variables')
    h.check(ids(mod.rv_to_equation.keys()) == ids(dep), label + 'equations')
    h.check(ids(mod.nddistr.Vars) == ids(free), label + 'density-variables')
    names = {v.getSymname() for v in mod.all_vars}
    for v, e in mod.rv_to_equation.items():
        h.check({a for a in sympy.sympify(e).atoms(sympy.Symbol) if not str(a).startswith('@')} <= names, label + 'equation-variables')
        h.check(v.getSymname() not in sympy.sympify(e).atoms(sympy.Symbol), label + 'equation-variables')
        got, want = evaluate(h, e, w.env), w.true[id(v)]
        if w.fixed and h.sym:       # logarithms of given numbers are rounded
            d = got - want
            h.check(d <= 1e-7, label + 'equation')
            h.check(d >= -1e-7, label + 'equation')
        else:
            h.check_eq(got, want, label + 'equation', tol=1e-6)
    now = list(mod.nddistr.Vars) + list(mod.nddistr.out)
    h.check(len(set(ids(now))) == len(now) == len(w.base), label + 'as-many-variables')
    J = det([w.grad[id(v)] for v in now])
    f = mod.nddistr.factor
    h.check_eq(f * f * J * J, 1, label + 'jacobian', tol=1e-6)
    h.check(f >= 0 if not isinstance(f, sym.Sym) else f >= 0, label + 'jacobian-sign')


def snapshot(mod):
    return (ids(mod.free_rvs), ids(mod.dep_rvs), ids(mod.all_vars), sorted((id(v), str(e)) for v, e in mod.rv_to_equation.items()), id(mod.nddistr))


def symbols(e):
    return sympy.sympify(e).atoms(sympy.Symbol)


def attempt(h, w, mod, act):
    """one operation: carried out if it makes sense, refused without a trace otherwise"""
    before = snapshot(mod)
    kind, args = act[0], [w.rv[a] for a in act[1:]]
    by = h.choose('by', ['variable', 'name', 'symbol']) if w.naming else 'variable'
    give = {'variable': lambda v: v, 'name': lambda v: str(v.getSymname()), 'symbol': lambda v: v.getSymname()}[by]
    isfree = lambda v: id(v) in ids(mod.free_rvs)
    isdep = lambda v: id(v) in ids(mod.dep_rvs)
    eq = {id(v): e for v, e in mod.rv_to_equation.items()}
    out = ids(mod.nddistr.out)
    v = args[0]
    many = False
    if kind == 'exchange':
        u = args[1]
        ok = isfree(v) and isdep(u) and v.getSymname() in symbols(eq[id(u)]) and all(isfree(mod.sym_to_rv[s]) for s in symbols(eq[id(u)]))
        many = True
        go = lambda: mod.varschange(give(v), give(u))
    elif kind == 'eliminate':
        ok = not isfree(v) or not any(v.getSymname() in symbols(e) for e in eq.values())
        go = lambda: mod.eliminate(give(v))
    else:
        ok = isfree(v)
        go = lambda: mod.condition(give(v), w.nominal[act[1]])
    try:
        go()
        done = True
    except RuntimeError as e:
        done = False
        if many and 'multiple' in str(e):
            ok = False
    h.check(done == ok, 'refused')
    if not done:
        h.check(snapshot(mod) == before, 'refused-unchanged')
        return False
    if kind == 'exchange':
        h.check(isdep(v) and isfree(u), 'exchanged')
        h.check(ids(mod.nddistr.out) == out, 'exchanged')
    else:
        h.check(id(v) not in ids(mod.all_vars), 'gone')
        h.check(ids(mod.nddistr.out) == sorted(out + ([id(v)] if id(v) in before[0] else [])), 'integrated')
    return True


def actions(name):
    base, _ = SPEC[name]
    allv = list(base) + DEPS[name]
    acts = [('exchange', a, b) for a in allv for b in allv if a != b]
    acts += [('eliminate', a) for a in allv]
    acts += [('condition', a) for a in allv if name not in NUMERIC or a in base]
    return acts


DEPS = {}
for _n, (_b, _f) in SPEC.items():
    DEPS[_n] = [n for n, _ in _f(Rv, {b: Leaf(b, *BOX[b]) for b in _b})]


def single(name):
    def fn(h):
        act = h.choose('operation', actions(name))
        w = World(h, name, [act[1]] if act[0] == 'condition' else [])
        w.naming = True
        consistent(h, w, w.model)
        other = w.model.copy()
        before = snapshot(other)
        attempt(h, w, w.model, act)
        consistent(h, w, w.model)
        h.check(snapshot(other) == before, 'copy-untouched')
    return fn


def sensible(w):
    """operations that make sense now"""
    mod = w.model
    free = {w.names[id(v)]: v for v in mod.free_rvs}
    dep = {w.names[id(v)]: symbols(mod.rv_to_equation[v]) for v in mod.dep_rvs}
    fsym = {str(v.getSymname()) for v in mod.free_rvs}
    acts = []
    for a in sorted(free):
        for b in sorted(dep):
            at = {str(s) for s in dep[b]}
            if a in at and at <= fsym:
                acts.append(('exchange', a, b))
        if not any(a in map(str, e) for e in dep.values()):
            acts.append(('eliminate', a))
        if a in w.nominal and (w.fixed is None or a in w.fixed):
            acts.append(('condition', a))
    return acts + [('eliminate', b) for b in sorted(dep)]


def sequence(name, n):
    def fn(h):
        w = World(h, name, h.choose('fixed', [list(c) for r in ((0, 2) if name == 'exp-sum' else (0, 1, 2)) for c in itertools.combinations(SPEC[name][0], r)]) if name in NUMERIC else [])
        w.naming = False
        for i in range(n):
            acts = sensible(w)
            if not acts:
                return
            a = h.choose('operation%d' % i, acts)
            if a[0] == 'condition' and w.fixed is None:
                h.assume(w.true[id(w.rv[a[1]])] == w.nominal[a[1]])
            if not attempt(h, w, w.model, a):
                return
            consistent(h, w, w.model)
    return fn


class ordered_ids(object):
    """ties are broken by object identity: every order"""

    def __init__(self, h, w):
        vs = sorted(w.model.all_vars, key=lambda v: w.names[id(v)])
        k = h.choose('ties', [0, 1, 2])
        if k == 1:
            vs.reverse()
        if k == 2:
            vs = vs[1::2] + vs[::2]
        self.rank = {id(v): i for i, v in enumerate(vs)}

    def __enter__(self):
        M.id = lambda v: self.rank[id(v)]

    def __exit__(self, *a):
        del M.id
        return False


def inference(name, maxcond):
    def fn(h):
        base, _ = SPEC[name]
        allv = list(base) + DEPS[name]
        wanted = h.choose('wanted', [list(c) for r in range(1, len(allv) + 1) for c in itertools.combinations(allv, r)])
        left = [a for a in allv if a not in wanted and (name not in NUMERIC or a in base)]
        cond = h.choose('given', [list(c) for r in range(0, maxcond + 1) for c in itertools.combinations(left, r)])
        w = World(h, name, cond)
        before = snapshot(w.model)
        with ordered_ids(h, w):
            try:
                r = w.model.inference([w.rv[n] for n in wanted], [w.rv[n] for n in cond], [w.nominal[n] for n in cond])
            except RuntimeError as e:
                h.check('multiple' in str(e), 'answered')
                return
        h.check(snapshot(w.model) == before, 'model-untouched')
        h.check(ids(r.all_vars) == ids([w.rv[n] for n in wanted]), 'wanted')
        consistent(h, w, r)
    return fn


for n in SPEC:
    add('operation[%s]' % n, single(n), bounds='any point of the variables, every operation on every variable', encoded=['Model.varschange', 'var_change_helper', 'eliminate', 'condition', 'eq_solve', 'my_lambdify', 'NDConstFactor', 'NDFun'])
for n in SPEC:
    add('sequence[%s]' % n, sequence(n, 3), bounds='any point, every sequence of 3 operations', encoded=['Model.varschange', 'eliminate', 'condition'])
for n in SPEC:
    add('inference[%s]' % n, inference(n, 2), bounds='any point, every set of wanted variables, at most 2 conditions', encoded=['Model.inference', 'get_children', 'get_parents'])


# ------------------------------------------------------------------ results of a model
def single_result(h):
    """the distribution of the only variable left, the value of the only constant left"""
    name = h.choose('model', ['sum', 'product', 'noise', 'two-sums'])
    base, _ = SPEC[name]
    n = h.choose('variable', list(base) + DEPS[name])
    w = World(h, name)
    r = w.model.inference([w.rv[n]])

    class Made(object):
        def __init__(self, fun, breakPoints=None, **kw):
            h.check(fun is r.nddistr, 'density')
            h.check(tuple(breakPoints) == tuple(w.rv[n].range()), 'range')
    with stub((M.FunDistr, Made)):
        d = r.as1DDistr()
        h.check(isinstance(d, Made), 'distribution')
        for bad in (w.model, w.model.inference([w.rv['X'], w.rv['Y']])):
            try:
                bad.as1DDistr()
                h.check(False, 'refused')
            except RuntimeError:
                h.check(True, 'refused')


def constant_result(h):
    name = h.choose('model', ['sum', 'difference', 'product', 'ratio', 'chain', 'two-sums'])
    n = h.choose('variable', DEPS[name])
    w = World(h, name, ['X', 'Y'])
    r = w.model.inference([w.rv[n]], [w.rv['X'], w.rv['Y']], [w.nominal['X'], w.nominal['Y']])
    h.check(len(r.free_rvs) == 0 and ids(r.dep_rvs) == ids([w.rv[n]]), 'constant')
    h.check_eq(w.true[id(w.rv[n])], r.as_const(), 'constant-value')


def any_condition(h):
    """conditions with any value: equations of all others take the value"""
    name = h.choose('model', ['sum', 'product', 'ratio', 'two-sums', 'noise', 'product-sum', 'resistors'])
    n = h.choose('variable', list(SPEC[name][0]))
    w = World(h, name)
    w.model.condition(w.rv[n], w.true[id(w.rv[n])])
    h.check(n not in [w.names[id(v)] for v in w.model.all_vars], 'gone')
    consistent(h, w, w.model)


def construction(h):
    """which variables a model takes in, in any order, from a list of variables or a joint density"""
    name = h.choose('model', ['noise', 'regression', 'resistors', 'separate'])
    base, eqs = SPEC[name]
    w = World(h, name)
    dep = {w.names[id(v)]: v for v in w.dep}
    some = h.choose('asked for', [list(c) for r in range(len(dep) + 1) for c in itertools.permutations(sorted(dep), r)])
    src = h.choose('from', ['list', 'density'])
    free = [w.rv[b] for b in base]
    if h.choose('order', [0, 1]):
        free.reverse()
    with stub((M.NDProductDistr, lambda fs: Ref(w, fs))):
        mod = M.Model(free if src == 'list' else Ref(w, free), [dep[s] for s in some])
    need = set()
    for s in some:
        need |= {id(v) for v in ancestors(dep[s]) if v.parents}
    h.check(ids(mod.free_rvs) == ids(free), 'free')
    h.check(ids(mod.dep_rvs) == sorted(need), 'dependent')
    h.check(ids(mod.all_vars) == sorted(ids(free) + list(need)), 'all')
    for v in mod.all_vars:
        h.check(mod.prepare_var(str(v.getSymname())) is v and mod.prepare_var(v.getSymname()) is v and mod.prepare_var(v) is v, 'found-by-name')
        h.check(mod.is_free(v) == (id(v) in ids(free)) and mod.is_dependent(v) == (id(v) in need), 'kind')
    for v in mod.dep_rvs:
        h.check(ids(mod.get_parents(v)) == ids(v.parents), 'parents')
        h.check_eq(evaluate(h, mod.rv_to_equation[v], w.env), w.true[id(v)], 'equation')
    for v in mod.all_vars:
        h.check(ids(mod.get_children(v)) == ids([u for u in mod.dep_rvs if id(v) in ids(u.parents)]), 'children')


def ancestors(v):
    out = [v]
    for p in v.parents:
        out += ancestors(p)
    return out


# ------------------------------------------------------------------ two variables
OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y,
       'y-2x': lambda x, y: y - 2 * x, '2x+4y': lambda x, y: 2 * x + 4 * y, 'x(1+y)': lambda x, y: x * (1 + y),
       'resistors': lambda x, y: x * y / (x + y)}
DY = {'+': lambda x, y: 1, '-': lambda x, y: -1, '*': lambda x, y: x, '/': lambda x, y: -x / (y * y), 'y-2x': lambda x, y: 1,
      '2x+4y': lambda x, y: 4, 'x(1+y)': lambda x, y: x, 'resistors': lambda x, y: x * x / ((x + y) * (x + y))}


class Marginal(Leaf):
    def __init__(self, name, segs):
        Leaf.__init__(self, name, segs[0].a, segs[-1].b)
        self.segs = segs

    def get_piecewise_pdf(self):
        return self

    @property
    def segments(self):
        return self.segs

    def getBreaks(self):
        return np.array([self.segs[0].a] + [s.b for s in self.segs])


def pieces(breaks):
    from pacal.segments import Segment, PInfSegment, MInfSegment
    out = []
    for a, b in zip(breaks[:-1], breaks[1:]):
        f = lambda x: x * 0 + 1
        out.append(MInfSegment(b, f) if a == -math.inf else PInfSegment(a, f) if b == math.inf else Segment(a, b, f))
    return out


class Cut(object):
    """an expression of z, its value looked up when z is given"""

    def __init__(self, h, e):
        self.h, self.e = h, e

    def subs(self, z, v):
        e = sympy.sympify(self.e)
        if not e.has(z):
            if e.is_infinite:
                return sympy.oo if e == sympy.oo else -sympy.oo
            return e
        if e.has(sympy.oo) or e.has(-sympy.oo):
            e = e.subs(z, sympy.Dummy(positive=True) if bool(v > 0) else sympy.Dummy(negative=True))
            assert e.is_infinite, e
            return e
        e = evaluate(self.h, e, {z: v})
        return e if isinstance(e, sym.Sym) else sympy.zoo if not math.isfinite(e) else sympy.S(e)


class Joint2(ND.NDFun):
    def __init__(self, h, Vars):
        self.Vars, self.d, self.h = Vars, 2, h
        self.k = [h.real('k%d' % i, -1, 1) for i in range(3)]
        self.calls = []

    def pdf(self, x, y):
        a, b = self.Vars
        inside = land(self.h, [x >= a.a, x <= a.b, y >= b.a, y <= b.b])
        if not bool(inside):
            return 0 * self.k[0]
        return 5 + self.k[0] * x + self.k[1] * y + self.k[2] * x * y

    def _segint(self, fun, L, U, **kw):
        self.calls.append((fun, L, U))
        return 0 * self.k[0], 0


class cuts(object):
    """rounded numbers and symbols stay numbers of the engine"""

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        h = self.h
        if not h.sym:
            return
        sym.Sym.is_extended_real = True
        M.float = lambda v: float(v) if not isinstance(v, sym.Sym) else v
        T = M.TwoVarsModel
        self.old = T.solveCutsX, T.solveCutsY
        T.solveCutsX = lambda s, *a: tuple(Cut(h, e) for e in self.old[0](s, *a))
        T.solveCutsY = lambda s, *a: tuple(Cut(h, e) for e in self.old[1](s, *a))

    def __exit__(self, *a):
        if self.h.sym:
            del sym.Sym.is_extended_real
            del M.float
            M.TwoVarsModel.solveCutsX, M.TwoVarsModel.solveCutsY = self.old
        return False


# pieces of the two margins
MARGINS = {
    'boxes': ([1.0, 4.0], [2.0, 8.0]),
    'same': ([1.0, 4.0], [1.0, 4.0]),
    'pieces': ([1.0, 2.0, 4.0], [2.0, 4.0, 8.0]),
    'odd': ([1.0, 4.0], [1.0, 7.0]),
    'odd-pieces': ([1.0, 2.0, 4.0], [1.0, 3.0, 7.0]),
    'negative': ([-4.0, -1.0], [-4.0, -2.0]),
    'upwards': ([0.0, math.inf], [1.0, 2.0]),
    'downwards': ([1.0, 2.0], [-math.inf, 1.0]),
    'both-upwards': ([0.0, math.inf], [1.0, math.inf]),
    'line': ([-math.inf, 0.0, math.inf], [0.0, 1.0]),
}


def two_variables(op, margins):
    def fn(h):
        bx, by = MARGINS[margins]
        X, Y = Marginal('X', pieces(bx)), Marginal('Y', pieces(by))
        U = OPS[op](X, Y)
        U.setSym('U')
        jd = Joint2(h, [X, Y])
        mod = M.TwoVarsModel(jd, U)
        t = h.real('t', -30, 30)
        y = h.real('y', -30, 30)
        if op in ('resistors', '/'):
            h.assume(t + y != 0 if op == 'resistors' else y != 0)
        z = OPS[op](t, y)
        for b in bx:
            if math.isfinite(b):
                h.assume(t != b)
        for b in by:
            if math.isfinite(b):
                h.assume(y != b)
        got = []

        def visit(seg, *a, **k):
            for e in (seg.a, seg.b):
                if math.isfinite(e):
                    h.assume(lor(h, [z < e - 1e-9, z > e + 1e-9]))
            if bool(z > seg.a) and bool(z < seg.b):
                jd.calls = []
                seg.f(h.array([z, z]))
                got.append(list(jd.calls))
            return seg
        with cuts(h), stub(((M.Segment, 'toInterpolatedSegment'), visit), ((M.PInfSegment, 'toInterpolatedSegment'), visit), ((M.MInfSegment, 'toInterpolatedSegment'), visit)):
            mod.convmodel()
        if h.sym and h.c.div_zero:
            return
        inside = land(h, [t > bx[0], t < bx[-1], y > by[0], y < by[-1]])
        if not got:             # between pieces or outside of all
            h.check(not bool(inside), 'covered')
            return
        h.check(len(got) == 1, 'pieces-apart')
        calls = got[0]
        n = len(calls) // 2
        total = 0
        for f, L, U_ in calls[:n]:
            h.assume(land(h, [t != L, t != U_]))
            if bool(land(h, [t > L, t < U_])):
                total = total + value(f(t))
        want = jd.pdf(t, y) if bool(inside) else 0
        d = DY[op](t, y)
        if isinstance(want, int):
            h.check_eq(total, 0, 'outside')
        else:
            h.check_eq(total * total * d * d, want * want, 'integrand', tol=1e-5)
            h.check(total * want >= 0, 'integrand-sign')
    return fn


for n, f in [('distribution', single_result), ('constant', constant_result), ('any-condition', any_condition), ('construction', construction)]:
    add(n, f, bounds='any point', encoded=['Model.' + {'distribution': 'as1DDistr', 'constant': 'as_const', 'any-condition': 'condition', 'construction': '__init__'}[n]])
WHICH = {'+': MARGINS, '-': MARGINS, 'y-2x': MARGINS, '2x+4y': MARGINS, '*': ['boxes', 'same', 'pieces', 'negative'], '/': ['boxes', 'same', 'pieces', 'negative'],
         'x(1+y)': ['odd', 'odd-pieces'], 'resistors': ['boxes', 'same', 'pieces']}
for op in OPS:
    for mg in MARGINS:
        if mg in WHICH[op]:
            add('two-variables[%s,%s]' % (op, mg), two_variables(op, mg), bounds='any value of the result, any point of the curve', encoded=['TwoVarsModel.convmodel', 'convmodelx', 'getUL', 'solveCutsX', 'solveCutsY', '_findSegList'],
                quick=(op, mg) != ('resistors', 'pieces'))
for n in SPEC:
    add('sequence/4[%s]' % n, sequence(n, 4), bounds='any point, every sequence of 4 operations', encoded=['Model.varschange', 'eliminate', 'condition'], quick=False)
    add('inference/3[%s]' % n, inference(n, 3), bounds='any point, every set of wanted variables, at most 3 conditions', encoded=['Model.inference'], quick=False)
