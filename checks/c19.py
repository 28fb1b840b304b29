"""Expressions of random variables: symbolic form, name, range, samples, ancestors."""
import math
import operator
import re
from fractions import Fraction
import numpy as np
import sympy
import warnings
from engine.harness import Harness, stub, unwrap
from engine import sym
from engine.seg import INF
from engine.ops import value, isinf
from checks.c09 import same, land, lor
from checks.c14 import m
import pacal.distr as D
import pacal.rv as R
from pacal import params

P = 'C19'
META = {'assumptions': ['exp, log, atan, tanh and powers are the mathematical functions', 'sympy evaluates its own expressions correctly',
                        'arguments of logarithms, powers and divisors are positive and away from zero']}
HARNESSES = []


def add(name, fn, **kw):
    kw.setdefault('budget', 80)
    kw.setdefault('thorough', {'budget': 300, 'max_paths': 20000})
    HARNESSES.append(Harness(name, fn, P, **kw))


CONSTS = {}


def _to_sympy(s):
    for k, v in CONSTS.items():
        if v is s:
            return sympy.Symbol(k, real=True)
    k = '@%d' % len(CONSTS)
    CONSTS[k] = s
    return sympy.Symbol(k, real=True)


class symbolic_constants(object):
    """numbers of the engine may enter sympy expressions"""

    def __enter__(self):
        CONSTS.clear()
        sym.Sym._sympy_ = _to_sympy
        return self

    def __exit__(self, *a):
        del sym.Sym._sympy_
        return False


def lo_(a, b):
    return a if bool(a <= b) else b


def hi_(a, b):
    return b if bool(a <= b) else a


def mag(a):
    return -a if bool(a < 0) else a


def sgn(a):
    return 1 if bool(a > 0) else (-1 if bool(a < 0) else 0)


def power(u, k):
    """u**k; small whole powers multiplied out, others exp(k log u)"""
    for w, r in ((0, lambda: 1), (1, lambda: u), (-1, lambda: 1 / u), (2, lambda: u * u)):
        if bool(k == w):
            return r()
    return exponential(u, k)


def exponential(u, k):
    return m('exp', k * m('log', u))


def number(h, q):
    return h.q(int(q.p), int(q.q)) if h.sym else float(q)


def evaluate(h, e, env):
    """value of a sympy expression"""
    e = sympy.sympify(e)
    go = lambda x: evaluate(h, x, env)
    if e.is_Symbol:
        if e in env:
            return env[e]
        if str(e) in CONSTS:
            return CONSTS[str(e)]
        raise KeyError('unknown symbol %s' % e)
    if e.is_Float:
        f = Fraction(float(e))
        return h.q(f.numerator, f.denominator) if h.sym else float(e)
    if e.is_Rational:
        return number(h, e)
    if e.is_NumberSymbol:
        return float(e)
    if e.is_Add:
        r = 0
        for a in e.args:
            r = r + go(a)
        return r
    if e.is_Mul:
        r, d = 1, 1
        for a in e.args:
            r = r * go(a)
        return r
    if e.is_Pow:
        b, k = e.args
        if k.is_number and float(k) == int(k):
            r = 1
            for _ in range(abs(int(k))):
                r = r * go(b)
            return r if k > 0 else 1 / r
        return exponential(go(b), go(k))
    name = e.func.__name__
    if name == 'exp':
        return m('exp', go(e.args[0]))
    if name == 'log':
        return m('log', go(e.args[0]))
    if name == 'atan':
        return m('arctan', go(e.args[0]))
    if name == 'tanh':
        return m('tanh', go(e.args[0]))
    if name == 'Abs':
        return mag(go(e.args[0]))
    if name == 'sign':
        return sgn(go(e.args[0]))
    if name in ('Min', 'Max'):
        r = go(e.args[0])
        for a in e.args[1:]:
            r = (lo_ if name == 'Min' else hi_)(r, go(a))
        return r
    raise sym.Unsupported('sympy function %s' % name)


def through_equations(h, node, leaves):
    """value of a variable: its equations solved from the leaves up"""
    env = dict(leaves)
    l, r = node.getEquations()
    todo = list(zip(l, r))
    for _ in range(len(todo) + 1):
        for e, s in list(todo):
            if all(a in env or str(a) in CONSTS for a in e.atoms(sympy.Symbol)):
                env[s] = evaluate(h, e, env)
                todo.remove((e, s))
    assert not todo, 'equations %s %s do not determine the variable' % (l, r)
    return evaluate(h, node.getSymname(), env)


BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
POINT = dict(BINARY)
POINT.update({'min': lo_, 'max': hi_, '**': exponential})
UPOINT = {'neg': lambda u: -u, 'abs': mag, 'sq': lambda u: u * u, 'exp': lambda u: m('exp', u), 'log': lambda u: m('log', u), 'atan': lambda u: m('arctan', u), 'tanh': lambda u: m('tanh', u), 'inv': lambda u: 1 / u, 'sign': sgn,
          'one': lambda u: u, 'rinv': lambda u: 1 / u}


def ops(mod):
    """operators on the random variables of a layer"""
    b = dict(BINARY)
    b['min'], b['max'] = (lambda a, b: mod.min(a, b)), (lambda a, b: mod.max(a, b))
    b['**'] = operator.pow
    if mod is R:
        u = {'exp': R.ExpRV, 'log': R.LogRV, 'atan': R.AtanRV, 'tanh': R.TanhRV, 'sign': R.SignRV}
    else:
        u = {'exp': D.exp, 'log': D.log, 'atan': D.atan, 'tanh': D.tanh}
    u.update({'neg': operator.neg, 'abs': abs, 'sq': lambda v: v ** 2, 'inv': lambda v: v ** -1, 'one': lambda v: v ** 1, 'rinv': lambda v: 1 / v})
    return b, u


class Leaf(D.Distr):
    """a distribution with given samples and range"""

    def __init__(self, name, vals, rng, indep=True):
        D.Distr.__init__(self, [], indep=indep, sym=name)
        self.name, self.vals, self.a, self.b = name, vals, rng[0], rng[1]
        self.drawn = 0

    def getName(self):
        return self.name

    def rand_raw(self, n=None):
        v = self.vals[self.drawn % len(self.vals)]
        self.drawn += 1
        return v

    def is_nonneg(self):
        return True


class RLeaf(R.RV):
    def __init__(self, name, vals, rng):
        R.RV.__init__(self, [], sym=name)
        self.name, self.vals, self.a, self.b = name, vals, rng[0], rng[1]

    def getName(self):
        return self.name

    def is_nonneg(self):
        return True


class admissible(object):
    """logarithms are not refused (their arguments are positive here)"""

    def __enter__(self):
        self.old = [(c, c.__dict__['is_nonneg']) for c in (R.RV, D.Distr) if 'is_nonneg' in c.__dict__]
        for c, _ in self.old:
            c.is_nonneg = lambda s: True
        return self

    def __exit__(self, *a):
        for c, f in self.old:
            c.is_nonneg = f
        return False


# expressions as trees: 'X', 'Y', 'Z', 'c', number, (op, sub...) 
def leafset(t):
    if isinstance(t, str):
        return {t}
    if not isinstance(t, tuple):
        return set()
    return set().union(*[leafset(s) for s in t[1:]])


def build(t, env, b, u):
    if isinstance(t, str):
        return env[t]
    if not isinstance(t, tuple):
        return t
    args = [build(s, env, b, u) for s in t[1:]]
    return (u[t[0]] if len(args) == 1 else b[t[0]])(*args)


def point(t, env):
    if isinstance(t, str):
        return env[t]
    if not isinstance(t, tuple):
        return t
    args = [point(s, env) for s in t[1:]]
    if t[0] == '**' and (t[2] == 'c' or not isinstance(t[2], (str, tuple))):
        return power(*args)
    return (UPOINT[t[0]] if len(args) == 1 else POINT[t[0]])(*args)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if len(t) == 2:
        return '%s(%s)' % (t[0], show(t[1]))
    return '(%s%s%s)' % (show(t[1]), t[0], show(t[2])) if t[0] in '+-**/' else '%s(%s,%s)' % (t[0], show(t[1]), show(t[2]))


def delicate(t):
    """subexpressions that must be positive or away from zero"""
    out = []
    if isinstance(t, tuple):
        for s in t[1:]:
            out += delicate(s)
        if t[0] in ('log',) or (t[0] == '**' and isinstance(t[1], (tuple, str)) and t[2] not in (-1, 2, 1)):
            out.append(('pos', t[1]))
        if t[0] in ('inv', 'rinv'):
            out.append(('nz', t[1]))
        if t[0] == '/':
            out.append(('nz', t[2]))
        if t[0] == '**' and t[1] == 'c':
            out.append(('pos', 'c'))
    return out


def leaves(h, t, n=2):
    pos = any(k == 'pos' for k, _ in delicate(t))
    vals = {}
    for v in sorted(leafset(t)):
        rng = (0.1, 4) if pos and v != 'c' else (-4, 4)
        if v == 'c':
            vals[v] = h.real('c', 0.1, 4) if ('pos', 'c') in delicate(t) else h.real('c', -4, 4)
        else:
            vals[v] = [h.real('%s%d' % (v.lower(), i), *rng) for i in range(n)]
    return vals


def sensible(h, t, env):
    """keep logarithms and divisors away from zero, values moderate"""
    eps = h.q(1, 20)
    if 'c' in env:
        h.assume(lor(h, [env['c'] >= eps, env['c'] <= -eps]))
    for k, s in delicate(t):
        v = point(s, env)
        if k == 'pos':
            h.assume(v >= eps)
        else:
            h.assume(lor(h, [v >= eps, v <= -eps]))


def symbolic_form(mod, trees):
    def fn(h):
        t = h.choose('expression', trees)
        vals = leaves(h, t, 1)
        env = {k: (v[0] if isinstance(v, list) else v) for k, v in vals.items()}
        sensible(h, t, env)
        with symbolic_constants(), admissible():
            b, u = ops(mod)
            mk = RLeaf if mod is R else Leaf
            rvs = {k: (v if k == 'c' else mk(k, v, (-INF, INF) if mod is D else (0.1, INF))) for k, v in vals.items()}
            node = build(t, rvs, b, u)
            want = point(t, env)
            if not hasattr(node, 'getEquations'):
                h.check_eq(node, want, 'constant')
                return
            if h.sym and t[0] == '**' and t[2] == 3:
                x = env[t[1]]   # sympy writes exp(3 log x) as x**3
                h.assume(want == x * x * x)
            syms = {rvs[k].getSymname(): env[k] for k in rvs if k != 'c'}
            h.check_eq(through_equations(h, node, syms), want, 'equations')
            for k in rvs:
                if k != 'c':
                    h.check(rvs[k].getSym() == sympy.Symbol(k), 'leaf-symbol')
            # every variable of the equations is a parent, or named by one
            ids = node.getAncestorIDs()
            h.check(all(rvs[k].id() in ids for k in rvs if k != 'c') and node.id() in ids, 'ancestors')
            h.check(node.getParentsFree() == set(rvs[k] for k in rvs if k != 'c') if node.parents else True, 'free')
    return fn


def sampled(trees, size=2):
    def fn(h):
        t = h.choose('expression', trees)
        vals = leaves(h, t, 2 * size)
        env = [{k: (v[i] if isinstance(v, list) else v) for k, v in vals.items()} for i in range(2 * size)]
        for e in env:
            sensible(h, t, e)
        with admissible():
            b, u = ops(D)
            rvs = {k: (v if k == 'c' else Leaf(k, [h.array(v[:size]), h.array(v[size:])], (0.1, INF))) for k, v in vals.items()}
            node = build(t, rvs, b, u)
            if not hasattr(node, 'rand'):
                h.check_eq(node, point(t, env[0]), 'constant')
                return
            # variables taken as dependent: one draw of each leaf
            every = []

            def walk(d):
                if not any(d is e for e in every):
                    every.append(d)
                    for p in d.parents:
                        walk(p)
            walk(node)
            for d in every:
                d.indep = False
            r = node.rand(size, None)
            h.check(np.shape(r) == (size,), 'shape')
            for i in range(size):
                h.check_eq(unwrap(r[i]), point(t, env[i]), 'dependent')
            h.check(all(d.drawn == 1 for d in every if isinstance(d, Leaf)), 'one-draw')
            # a second call draws again
            if any(isinstance(d, Leaf) for d in every):
                r = node.rand(size, None)
                for i in range(size):
                    h.check_eq(unwrap(r[i]), point(t, env[i + size]), 'fresh')
    return fn


def independent(t, k):
    """same variable twice, taken as independent: separate draws in operand order"""
    def fn(h):
        v = [h.real('x%d' % i, 0.1, 4) for i in range(4)]
        b, u = ops(D)
        x = Leaf('X', [h.array(v[:2]), h.array(v[2:])], (0, INF))
        node = b[t](x, x)
        r = node.rand(2, None)
        for i in range(2):
            h.check_eq(unwrap(r[i]), POINT[t](v[i], v[i + 2]), 'independent')
    return fn


def named(mod, trees):
    def fn(h):
        t = h.choose('expression', trees)
        vals = leaves(h, t, 1)
        env = {k: (v[0] if isinstance(v, list) else v) for k, v in vals.items()}
        sensible(h, t, env)
        with admissible():
            b, u = ops(mod)
            mk = RLeaf if mod is R else Leaf
            rvs = {k: mk(k, v, (0.1, INF)) for k, v in vals.items()}
            node = build(t, rvs, b, u)
            s = node.getName()
            # bars open after an operator or a bracket, close otherwise
            o = ''
            for ch in s:
                if ch == '|':
                    ch = 'abs(' if not o.strip() or o.strip()[-1] in '(+-*/,' else ')'
                o += ch
            s = o
            ns = {'exp': UPOINT['exp'], 'log': UPOINT['log'], 'atan': UPOINT['atan'], 'tanh': UPOINT['tanh'], 'sqr': UPOINT['sq'], 'abs': mag, 'min': lo_, 'max': hi_, 'sign': sgn, '__builtins__': {}}
            ns.update(env)
            h.check_eq(eval(s, ns), point(t, env), 'name')
    return fn


def trees1():
    out = []
    for o in ('+', '-', '*', '/', 'min', 'max', '**'):
        out += [(o, 'X', 'Y'), (o, 'Y', 'X')]
        if o in '+-*/':
            out += [(o, 'X', 'X')]
    for o in '+-*/':
        out += [(o, 'X', 'c'), (o, 'c', 'X')]
    for u in ('neg', 'abs', 'sq', 'exp', 'log', 'atan', 'tanh', 'inv', 'one', 'rinv'):
        out.append((u, 'X'))
    out += [('**', 'X', 3), ('**', 'X', 'c'), ('**', 'c', 'X'), ('/', 0, 'X') if False else ('-', 3, 'X')]
    return out


def trees2(third='Z'):
    inner = [(o, 'X', 'Y') for o in ('+', '-', '*', '/', 'min')] + [(o, 'X', 'c') for o in '+-*/'] + [(o, 'c', 'X') for o in '-/'] + [(u, 'X') for u in ('neg', 'abs', 'sq', 'exp', 'inv')]
    out = {}
    for o in ('+', '-', '*', '/', 'max'):
        out[o] = [(o, i, third) for i in inner] + [(o, third, i) for i in inner]
    out['u'] = [(u, i) for u in ('neg', 'abs', 'sq', 'exp', 'log', 'inv', 'rinv') for i in inner] + [(o, i, 2.0) for o in '+-*/' for i in inner] + [(o, 3.0, i) for o in '-/' for i in inner]
    return out


def with_numbers(t):
    """the constant replaced by numbers"""
    def put(t, c):
        return c if t == 'c' else (tuple([t[0]] + [put(s, c) for s in t[1:]]) if isinstance(t, tuple) else t)
    return [put(t, c) for c in ((0.5, 3) if t[0] == '**' else (2, -4, 0.5))] if 'c' in leafset(t) else [t]


ENCR = ['rv.RV operators', 'rv.OpRV classes', 'rv.RV.getEquations', 'rv.RV.getAncestorIDs', 'rv.RV.getParentsFree']
ENCD = ['distr.Distr operators', 'distr.OpDistr.rand', 'distr.*.rand_op']
LAYERS = {'rv': R, 'distr': D}
SIGN = [('sign', 'X'), ('*', ('sign', 'X'), 'Y')]
for ln, mod in LAYERS.items():
    add('form[%s,1]' % ln, symbolic_form(mod, trees1() + (SIGN if mod is R else [])), bounds='one operation, any operand and constant values', encoded=ENCR)
    add('name[%s,1]' % ln, named(mod, [k for t in trees1() for k in with_numbers(t)] + (SIGN if mod is R else [])), bounds='one operation', encoded=['getName'])
    for o, ts in trees2().items():
        add('form[%s,2,%s]' % (ln, o), symbolic_form(mod, ts), bounds='two operations, any operand and constant values', encoded=ENCR)
        add('name[%s,2,%s]' % (ln, o), max_paths=900, fn=named(mod, [k for t in ts for k in with_numbers(t)]), bounds='two operations', encoded=['getName'])
    for o, ts in trees2('X').items():
        add('shared[%s,%s]' % (ln, o), symbolic_form(mod, ts), bounds='two operations with a shared operand', encoded=ENCR, quick=mod is D)
add('sample[1]', sampled(trees1()), bounds='one operation, any samples', encoded=ENCD)
for third in 'ZX':
    for o, ts in trees2(third).items():
        add('sample[2,%s,%s]' % (o, third), sampled(ts, 1), max_paths=1500, bounds='two operations, any samples', encoded=ENCD)
for o in ('+', '-', '*', '/', 'min', 'max'):
    add('independent[%s]' % o, independent(o, 2), bounds='any samples', encoded=ENCD)



# ---- ranges ----------------------------------------------------------------
KINDS = ('fin', 'lower', 'upper', 'all')


def ranges(h, name, kind, pos=False):
    """a range of the kind and a value inside"""
    lo, hi = (h.q(1, 10), 4) if pos else (-4, 4)
    v = h.real(name.lower(), float(lo) if pos else lo, hi)
    a, b = -INF, INF
    if kind in ('fin', 'lower'):
        a = h.real('%sa' % name.lower(), float(lo) if pos else lo, hi)
        h.assume(a <= v)
    if kind in ('fin', 'upper'):
        b = h.real('%sb' % name.lower(), float(lo) if pos else lo, hi)
        h.assume(v <= b)
    if kind == 'fin':
        h.assume(a + h.q(1, 100) <= b)
    return v, a, b


def inside(h, rng, v, label):
    lo, hi = rng
    if h.sym and h.c.div_zero:
        return
    slack = 0 if h.sym else 1e-9 * (1 + abs(v))
    h.check(bool(isinf(lo) and lo < 0) or lo <= v + slack, label + '-low')
    h.check(bool(isinf(hi) and hi > 0) or v - slack <= hi, label + '-high')


def corners(t, box):
    """values of a piecewise monotone operation at the ends and at 0"""
    names = sorted(box)
    def go(k, env):
        if k == len(names):
            yield point(t, env)
            return
        for v in box[names[k]]:
            e = dict(env)
            e[names[k]] = v
            for r in go(k + 1, e):
                yield r
    return list(go(0, {}))


def among(h, v, vals):
    tol = 0 if h.sym else 1e-9
    if h.sym:
        return lor(h, [v == w for w in vals])
    return any(abs(v - w) <= tol * (1 + abs(w)) for w in vals)


def ranged(mod, trees, kinds):
    def fn(h):
        t = h.choose('expression', trees)
        pos = any(k == 'pos' for k, _ in delicate(t))
        rvs, env, box = {}, {}, {}
        mk = RLeaf if mod is R else Leaf
        allfin = True
        for k in sorted(leafset(t)):
            if k == 'c':
                env[k] = h.real('c', 0.1, 4) if ('pos', 'c') in delicate(t) else h.real('c', -4, 4)
                rvs[k] = env[k]
                h.assume(lor(h, [env[k] >= h.q(1, 20), env[k] <= -h.q(1, 20)]))
                box[k] = [env[k]]
                continue
            kind = h.choose('range-%s' % k, kinds if not pos else [q for q in kinds if q in ('fin', 'lower')])
            v, a, b = ranges(h, k, kind, pos)
            allfin = allfin and kind == 'fin'
            env[k] = v
            rvs[k] = mk(k, [v], (a, b))
            box[k] = [a, b] + ([0 * a] if kind == 'fin' and bool(a < 0) and bool(b > 0) else [])
        same = len(leafset(t) - {'c'}) < str(t).count("'X'") + str(t).count("'Y'")
        divides = [s for k, s in delicate(t) if k == 'nz']
        for s in divides:
            p = point(s, env)
            h.assume(lor(h, [p >= h.q(1, 20), p <= -h.q(1, 20)]))
        if h.sym:
            # ends of a divisor's range are zero or away from zero
            for k in box:
                for e in box[k]:
                    if not isinf(e) and divides and not bool(e == 0):
                        h.assume(lor(h, [e >= h.q(1, 20), e <= -h.q(1, 20)]))
        with admissible(), np.errstate(all='ignore'):
            b, u = ops(mod)
            node = build(t, rvs, b, u)
            if not hasattr(node, 'range'):
                return
            lo, hi = node.range()
            inside(h, (lo, hi), point(t, env), 'range')
            # no wider than needed: both ends are attained
            if allfin and not same and len(t) == 3 and t[0] in '+-*' or len(t) == 2 and allfin and not divides:
                vals = corners(t, box)
                for e, label in ((lo, 'low-attained'), (hi, 'high-attained')):
                    h.check(bool(not isinf(e)), label)
                    h.check(among(h, e, vals), label)
    return fn


ONE = trees1() + [('max', 'X', ('min', 'X', 'Y'))][:0]
add_ = [t for t in ONE if len(leafset(t) - {'c'}) == 1 or t[0] == '**']
bin_ = [t for t in ONE if len(leafset(t) - {'c'}) == 2 and t[0] != '**']
for ln, mod in LAYERS.items():
    add('range[%s,1]' % ln, ranged(mod, [t for t in add_ if t[0] != '**'] + (SIGN[:1] if mod is R else []), KINDS), bounds='one operand, ends in [-4,4] or infinite', encoded=ENCR, max_paths=1500)
    add('range[%s,**]' % ln, ranged(mod, [t for t in add_ if t[0] == '**'], KINDS), bounds='powers, ends in [0.1,4] or infinite', encoded=ENCR, max_paths=1500)
    for o in ('+', '-', '*', '/', 'min', 'max'):
        add('range[%s,%s]' % (ln, o), ranged(mod, [t for t in bin_ if t[0] == o and t[1] == 'X'], KINDS if o != '*' else ('fin', 'lower', 'all')), bounds='two operands, ends in [-4,4] or infinite', encoded=ENCR, max_paths=1500)


def trig_range(which):
    """ends and value given by their sines (cosines, tangents) on a branch"""
    def fn(h):
        lim = (-0.99, 0.99) if which != 'tan' else (-5, 5)
        ya, y, yb = (h.real(n, *lim) for n in ('ya', 'y', 'yb'))
        if which == 'tan':
            br = h.choose('branches', ['00', '01'])
            at = lambda v, k: m('arctan', v) + (math.pi if k == '1' else 0)
            order = {'0': 1, '1': 1}
        else:
            br = h.choose('branches', ['00', '01', '11'])
            if which == 'sin':
                at = lambda v, k: m('arcsin', v) if k == '0' else math.pi - m('arcsin', v)
                order = {'0': 1, '1': -1}
            else:
                at = lambda v, k: m('arccos', v) if k == '0' else 2 * math.pi - m('arccos', v)
                order = {'0': -1, '1': 1}
        if h.sym and which != 'tan':
            for v in (ya, y, yb):   # |v| <= 0.99
                h.assume(abs(m('arcsin', v)) <= h.q(3, 2))
        gap = h.q(1, 100)
        bx = h.choose('value-branch', sorted(set(br)))
        before = lambda u, ku, v, kv: (ku < kv) or ((v - u) * order[ku] >= gap)
        h.assume(before(ya, br[0], y, bx))
        h.assume(before(y, bx, yb, br[1]))
        h.assume(before(ya, br[0], yb, br[1]))
        a, b = at(ya, br[0]), at(yb, br[1])
        d = {'sin': D.sin, 'cos': D.cos, 'tan': D.tan}[which](Leaf('X', [a], (a, b)))
        lo, hi = d.range()
        inside(h, (lo, hi), y, 'range')
        if which == 'tan':
            if br == '01':
                h.check(bool(isinf(lo)) and bool(isinf(hi)), 'unbounded')
            else:
                h.check_eq(lo, ya, 'low-attained', tol=1e-7)
                h.check_eq(hi, yb, 'high-attained', tol=1e-7)
        else:
            top, bottom = {'sin': (1, -1), 'cos': (-1, 1)}[which], None
            w = [ya, yb] + ([top[0]] if br == '01' else [])
            l, u = w[0], w[0]
            for v in w[1:]:
                l, u = lo_(l, v), hi_(u, v)
            h.check_eq(lo, l, 'low-attained', tol=1e-7)
            h.check_eq(hi, u, 'high-attained', tol=1e-7)
    return fn


for nm in ('sin', 'cos', 'tan'):
    add('range[%s]' % nm, trig_range(nm), bounds='ends on the first two monotone branches', encoded=['distr.FuncNoninjectiveDistr', 'distr.FuncDistr.init_range', 'distr.TanDistr.init_range'])


def sigmoid_range(h):
    x, a, b = ranges(h, 'X', h.choose('range', KINDS))
    d = D.sigmoid(Leaf('X', [h.array([x, x])], (a, b)))
    with np.errstate(all='ignore'):
        lo, hi = d.range()
        if h.sym and h.c.div_zero:
            return
        v = 1 / (1 + m('exp', -x)) if bool(x > 0) else m('exp', x) / (m('exp', x) + 1)
        inside(h, (lo, hi), v, 'range')
        h.check_eq(unwrap(d.rand(2, None)[1]), v, 'value')


add('range[sigmoid]', sigmoid_range, bounds='ends in [-4,4] or infinite', encoded=['distr.SigmoidDistr', 'distr.FuncDistr.init_range'])


# ---- dependence ------------------------------------------------------------
class Known(Leaf):
    """leaf with a given identity"""

    def __init__(self, ident, name):
        self.ident = ident
        Leaf.__init__(self, name, [1.0], (0.5, 1.5))

    def id(self):
        return self.ident


SHAPES = [(0, 1), ((0, 1), 2), ((0, 1), (2, 3)), (((0, 1), 2), 3), ((0, (1, 2)), 3), (((0, 1), 2), (3, 4))]


def dependence(op):
    """any identities at the leaves of a tree: a node warns iff its operands share a leaf"""
    def fn(h):
        shape = h.choose('shape', SHAPES)
        n = len(re.findall(r'\d', str(shape)))
        # the identity of a leaf is any number; equal identities are the same variable
        ids = [h.real('id%d' % k, -9, -1) for k in range(n)]
        which, lv = [], []
        for k in range(n):
            for j in range(k):
                if which[j] == j and bool(ids[k] == ids[j]):
                    which.append(j)
                    break
            else:
                which.append(k)
            lv.append(Known(ids[k], 'V%d' % k) if which[k] == k else lv[which[k]])
        b, u = ops(D)
        old = params.general.warn_on_dependent
        params.general.warn_on_dependent = True
        try:
            def go(t):
                if not isinstance(t, tuple):
                    return lv[which[t]], {which[t]}
                (l, sl), (r, sr) = go(t[0]), go(t[1])
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    node = b[op](l, r)
                w = [x for x in w if 'independent' in str(x.message)]
                h.check((len(w) > 0) == bool(sl & sr), 'warned')
                h.check(set(x for x in node.getParentsFree()) == set(lv[i] for i in sl | sr), 'free')
                h.check(set(lv[i].id() for i in sl | sr) <= node.getAncestorIDs(), 'ancestors')
                return node, sl | sr
            go(shape)
        finally:
            params.general.warn_on_dependent = old
    return fn


for o in ('+', '*', 'max'):
    add('dependence[%s]' % o, dependence(o), bounds='trees of up to five leaves, any coincidence of the leaves', encoded=['distr.Distr.__init__', 'rv.RV.getAncestorIDs', 'rv.RV.getParentsFree'], quick=o != 'max', max_paths=2000)
