"""Discharging obligations: z3 back end, normal-form equality, numeric refutation."""
import math
import random
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, Bool, Lam, Atom, P, K, F1

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'nf': 0}


class Z3Ctx:
    def __init__(self):
        self.consts = {}
        self.funs = {}
        self.axioms = []
        self.memo = {}
        self.bmemo = {}
        self.done = set()

    # --- symbols
    def var(self, a):
        c = self.consts.get(a)
        if c is None:
            nm = '%s#%d' % (a.name, a.uid)
            if a.sort == 'I':
                c = z3.Int(nm)
                if a.sign in ('>=', '>'):
                    self.axioms.append(c >= (0 if a.sign == '>=' else 1))
                if a.rng is not None:
                    self.consts[a] = c
                    self.axioms.append(c < self.poly(a.rng))
            elif a.sort == 'B':
                c = z3.Bool(nm)
            else:
                c = z3.Real(nm)
                if a.sign == '>=':
                    self.axioms.append(c >= 0)
                elif a.sign == '>':
                    self.axioms.append(c > 0)
                if a is T.PI:
                    self.axioms.append(z3.And(c > z3.Q(314159, 100000), c < z3.Q(314160, 100000)))
            self.consts[a] = c
        return c

    def fun(self, key, sorts, out):
        k = (key, tuple(str(s) for s in sorts), str(out))
        f = self.funs.get(k)
        if f is None:
            f = z3.Function('f%d_%s' % (len(self.funs), str(key)[:20].replace('|', '')), *(list(sorts) + [out]))
            self.funs[k] = f
        return f

    # --- polys
    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        isint = p.is_int
        terms = []
        for m, c in p.mons.items():
            t = None
            for f, e in m:
                x = self.factor(f, e, isint)
                t = x if t is None else t * x
            if t is None:
                t = z3.IntVal(int(c)) if isint else z3.Q(c.numerator, c.denominator)
            elif c != 1:
                t = (z3.IntVal(int(c)) if isint else z3.Q(c.numerator, c.denominator)) * t
            terms.append(t)
        if not terms:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        if not any(a.kind == 'bv' for a in p.fv):
            self.memo[p] = r
        return r

    def real(self, x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    def factor(self, f, e, isint):
        x = self.atom(f)
        if not isint:
            x = self.real(x)
        if e == 1:
            return x
        if e.denominator == 1:
            n = abs(int(e))
            r = x
            for _ in range(n - 1):
                r = r * x
            if e < 0:
                return 1 / r
            return r
        base = x
        fn = self.fun('pow%s' % e, [z3.RealSort()], z3.RealSort())
        r = fn(base)
        if e == Fraction(1, 2):
            self.axiom(('sqrt', base), z3.Implies(base >= 0, z3.And(r >= 0, r * r == base)), f.fv)
        elif e == Fraction(-1, 2):
            self.axiom(('rsqrt', base), z3.Implies(base > 0, z3.And(r > 0, r * r * base == 1)), f.fv)
        else:
            self.axiom(('pow', base, e), z3.Implies(base > 0, r > 0), f.fv)
        return r

    def axiom(self, key, ax, fv):
        if any(a.kind == 'bv' for a in fv):
            return
        key = (key[0],) + tuple(str(x) for x in key[1:])
        if key in self.done:
            return
        self.done.add(key)
        self.axioms.append(ax)

    def scal_args(self, args):
        """translate app args; Lam/str args are folded into the symbol"""
        key = []
        out = []
        for a in args:
            if isinstance(a, Poly):
                z = self.poly(a)
                key.append('p' if z.sort() == z3.RealSort() else 'i')
                out.append(z)
            elif isinstance(a, Bool):
                z = self.bool(a)
                key.append('b')
                out.append(z)
            elif isinstance(a, Lam):
                closed, frees = abstract(a)
                key.append(('lam', closed.uid, len(frees)))
                for fvv in frees:
                    out.append(self.poly(fvv))
            else:
                key.append(('s', str(a)))
        return tuple(key), out

    def bvar_or(self, a):
        return self.atom(a) if a.sort != 'B' else self.var(a)

    def atom(self, a):
        k = a.kind
        if k == 'var':
            return self.var(a)
        if k == 'bv':
            return z3.Int('bv%d' % a.name)
        if k == 'P':
            return self.poly(a.args[0])
        if k == 'ind':
            return z3.If(self.bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        out = z3.IntSort() if a.sort == 'I' else z3.RealSort()
        if k == 'app':
            key, args = self.scal_args(a.args)
            if not args:
                c = self.consts.get((a.name, key))
                if c is None:
                    c = z3.Const('c%d_%s' % (len(self.consts), a.name), out)
                    self.consts[(a.name, key)] = c
                r = c
            else:
                r = self.fun((a.name,) + key, [x.sort() for x in args], out)(*args)
            self.app_axioms(a, r)
            return r
        if k == 'sum':
            closed, frees = abstract(a)
            args = [self.poly(f) for f in frees]
            if not args:
                c = self.consts.get(('sum', closed.uid))
                if c is None:
                    c = z3.Const('sum%d' % closed.uid, out)
                    self.consts[('sum', closed.uid)] = c
                r = c
            else:
                r = self.fun(('sum', closed.uid), [x.sort() for x in args], out)(*args)
            if a.sign:
                self.sign_axiom(a, r)
            return r
        raise AssertionError(k)

    def sign_axiom(self, a, r):
        strict = a.sign == '>' and a.kind == 'app'
        if not any(x.kind == 'bv' for x in a.fv):
            self.axiom(('s' + str(a.sign), r), (r > 0) if strict else (r >= 0), a.fv)
            return
        # under a binder: the sign belongs to the symbol, whatever its arguments
        d = r.decl()
        if r.num_args() == 0 or ('sgn', d.name(), strict) in self.done:
            return
        self.done.add(('sgn', d.name(), strict))
        xs = [z3.Const('sg%d' % i, d.domain(i)) for i in range(d.arity())]
        self.axioms.append(z3.ForAll(xs, (d(*xs) > 0) if strict else (d(*xs) >= 0), patterns=[d(*xs)]))

    def app_axioms(self, a, r):
        n = a.name
        if a.sign:
            self.sign_axiom(a, r)
        ax = APP_AXIOMS.get(n)
        if ax is not None:
            if any(x.kind == 'bv' for x in a.fv):
                return
            if ('ax', a) in self.done:
                return
            self.done.add(('ax', a))
            for b in ax(a):
                self.axioms.append(self.bool(b))

    # --- bools
    def bool(self, b):
        r = self.bmemo.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == 'T':
            r = z3.BoolVal(True)
        elif k == 'F':
            r = z3.BoolVal(False)
        elif k == 'ge':
            r = self.poly(b.args[0]) >= 0
        elif k == 'gt':
            r = self.poly(b.args[0]) > 0
        elif k == 'eq':
            r = self.poly(b.args[0]) == 0
        elif k == 'not':
            r = z3.Not(self.bool(b.args[0]))
        elif k == 'and':
            r = z3.And([self.bool(x) for x in sorted(b.args, key=lambda t: t.uid)])
        elif k == 'or':
            r = z3.Or([self.bool(x) for x in sorted(b.args, key=lambda t: t.uid)])
        elif k == 'bvar':
            r = self.var(b.args[0])
        elif k == 'bapp':
            key, args = self.scal_args(b.args)
            if not args:
                r = z3.Bool('p_%s_%s' % (b.name, key))
            else:
                r = self.fun((b.name,) + key, [x.sort() for x in args], z3.BoolSort())(*args)
        elif k == 'all':
            rs, body = b.args
            base = b.name
            vs = [z3.Int('bv%d' % (base + 1 + i)) for i in range(len(rs))]
            rng = [z3.And(v >= 0, v < self.poly(n)) for v, n in zip(vs, rs)]
            r = z3.ForAll(vs, z3.Implies(z3.And(rng), self.bool(body)))
        else:
            raise AssertionError(k)
        if not any(a.kind == 'bv' for a in b.fv):
            self.bmemo[b] = r
        return r


_abs_cache = {}
_skel_ids = {}
_skel_memo = {}


def skel(t):
    """identity of a term up to its index arguments (a traversal order that does not depend on creation order)"""
    r = _skel_memo.get(t)
    if r is not None:
        return r
    if isinstance(t, Poly):
        if t.const is None and t.is_int and not any(f.kind not in ('var', 'bv') for m in t.mons for f, e in m):
            key = ('i',)
        else:
            key = ('p', tuple(sorted((tuple(sorted((skel(f), e) for f, e in m)), c) for m, c in t.mons.items())))
    elif isinstance(t, Bool):
        if t.kind == 'all':
            key = ('all', tuple(skel(x) for x in t.args[0]), skel(t.args[1]))
        elif t.kind in ('and', 'or'):
            key = (t.kind, tuple(sorted(skel(x) for x in t.args)))
        else:
            key = (t.kind, t.name, tuple(skel(x) if isinstance(x, (Poly, Bool, Lam, Atom)) else str(x) for x in t.args))
    elif isinstance(t, Lam):
        key = ('lam', tuple(skel(x) for x in t.shape), skel(t.body))
    elif t.kind == 'bv':
        key = ('bv',)
    elif t.kind == 'var':
        key = ('i',) if t.sort == 'I' else ('v', t.name)
    elif t.kind == 'app':
        key = ('a', t.name, tuple(skel(x) if isinstance(x, (Poly, Bool, Lam)) else str(x) for x in t.args))
    elif t.kind == 'sum':
        key = ('s', tuple(skel(x) for x in t.args[0]), tuple(sorted((skel(f), e) for f, e in t.args[1])))
    else:
        key = (t.kind, tuple(skel(x) for x in t.args))
    r = _skel_ids.setdefault(key, len(_skel_ids))
    _skel_memo[t] = r
    return r


def _skey(t):
    return (skel(t), t.uid)


def _mkey(m):
    return (tuple(sorted((skel(f), e) for f, e in m)), T.mono_key(m))


def _hole_rewrite(t):
    """replace maximal integer index arguments free of t's own bound variables by holes"""
    holes = []
    hmap = {}
    opened = set()
    memo = {}

    def hole(p):
        v = hmap.get(p)
        if v is None:
            v = P(T.Var('$hole%d' % len(holes), 'I'))
            hmap[p] = v
            holes.append(p)
        return v

    def go(t):
        r = memo.get(t)
        if r is None:
            r = go_(t)
            memo[t] = r
        return r

    def arg(x):
        if isinstance(x, Poly):
            if x.const is None and x.is_int and not (x.fv & opened):
                return hole(x)
            return go(x)
        if isinstance(x, (Bool, Lam)):
            return go(x)
        return x

    def go_(t):
        if isinstance(t, Poly):
            parts = []
            for m, c in sorted(t.mons.items(), key=lambda mc: _mkey(mc[0])):
                r = T.K(c)
                for f, e in sorted(m, key=lambda fe: _skey(fe[0])):
                    r = T.mul(r, T.power(goa(f), e))
                parts.append(r)
            return T.addmany(parts)
        if isinstance(t, Bool):
            k = t.kind
            if k in ('ge', 'gt', 'eq'):
                return {'ge': T.ge0, 'gt': T.gt0, 'eq': T.eq0}[k](go(t.args[0]))
            if k == 'not':
                return T.bnot(go(t.args[0]))
            if k in ('and', 'or'):
                xs = [go(x) for x in sorted(t.args, key=_skey)]
                return T.band(*xs) if k == 'and' else T.bor(*xs)
            if k == 'bapp':
                return T.bapp(t.name, [arg(x) for x in t.args])
            if k == 'all':
                rs, body = t.args
                vs = [T.fresh('q', 'I', '>=', r) for r in rs]
                opened.update(vs)
                b = T.subst(body, {T.BV(t.name + 1 + i): P(v) for i, v in enumerate(vs)})
                return T.forall(vs, [go(r) for r in rs], go(b))
            return t
        if isinstance(t, Lam):
            vs = [T.fresh('l', 'I', '>=', s) for s in t.shape]
            opened.update(vs)
            b = T.lam_open(t, [P(v) for v in vs])
            return T.mklam(vs, [go(s) for s in t.shape], go(b))
        return t

    def goa(f):
        k = f.kind
        if k in ('var', 'bv'):
            return P(f)
        if k == 'app':
            return T.mkapp(f.name, [arg(x) for x in f.args], f.sort, f.sign)
        if k == 'P':
            return go(f.args[0])
        if k == 'ind':
            return T.ind(go(f.args[0]))
        if k == 'sum':
            vs, rs, fs = T.open_sum(f)
            opened.update(vs)
            body = T.ONE
            for g, e in sorted(fs, key=lambda fe: _skey(fe[0])):
                body = T.mul(body, T.power(goa(g), e))
            for v, n in reversed(list(zip(vs, rs))):
                body = T.tsum(v, go(n), body)
            return body
        raise AssertionError(k)
    r = go(t) if isinstance(t, Lam) else goa(t)
    return r, holes


def abstract(t):
    """closed version of a Lam or sum atom, plus the list of index terms it was closed over"""
    r = _abs_cache.get(t)
    if r is not None:
        return r
    try:
        closed, holes = _hole_rewrite(t)
    except T.TermLimit:
        closed, holes = (t if isinstance(t, Lam) else P(t)), []
    frees = sorted((a for a in closed.fv if a.kind == 'bv' or (a.kind == 'var' and a.sort == 'I' and not a.name.startswith('$hole'))),
                   key=lambda a: a.uid)
    closed = T.subst(closed, {a: P(T.Var('$abs%d' % i, 'I')) for i, a in enumerate(frees)})
    # substituting the holes back must give the term again (the abstraction is exact)
    r = (closed, [P(a) for a in frees] + holes)
    _abs_cache[t] = r
    return r


# axioms for specific function symbols: name -> (atom -> list of Bool)
APP_AXIOMS = {}


def _ax_normcdf(a):
    return [T.ge0(P(a)), T.ge0(T.ONE - P(a))]


APP_AXIOMS['normcdf'] = _ax_normcdf


def _lam_vars(l):
    vs = [T.fresh('x', 'I', '>=', None) for _ in l.shape]
    return vs, T.lam_open(l, [P(v) for v in vs])


def _ax_rmin(a):
    l = a.args[0]
    vs, body = _lam_vars(l)
    out = [T.forall(vs, l.shape, T.ge(body, P(a)))]
    if len(l.shape) == 1:
        n = l.shape[0]
        am = P(T.App('argmin', (l,), 'I', '>='))
        out.append(T.bor(T.le(n, T.ZERO), T.band(T.ge0(am), T.lt(am, n), T.eq(T.lam_open(l, [am]), P(a)))))
    else:
        vs2 = vs
        out.append(T.bor(*([T.le(n, T.ZERO) for n in l.shape] + [T.bnot(T.forall(vs2, l.shape, T.gt(body, P(a))))])))
    return out


def _ax_argmin(a):
    l = a.args[0]
    n = l.shape[0]
    vs, body = _lam_vars(l)
    am = P(a)
    # over an empty range the term is 0 by definition (numpy raises before it gets there)
    return [T.bor(T.band(T.le(n, T.ZERO), T.eq0(am)),
                  T.band(T.ge0(am), T.lt(am, n), T.forall(vs, l.shape, T.ge(body, T.lam_open(l, [am])))))]


def _ax_nth(a):
    # nth(mask, k): position of the k-th true entry of mask
    l, k = a.args
    n = l.shape[0]
    v = T.fresh('x', 'I', '>=')
    cnt = P(T.App('cnt', (l,), 'I', '>='))
    x = P(a)
    k2 = T.fresh('x', 'I', '>=')
    nk2 = P(T.App('nth', (l, P(k2)), 'I', '>='))
    rk = lambda i: P(T.App('rank', (l, i), 'I', '>='))
    return [T.implies(T.band(T.ge0(k), T.lt(k, cnt)),
                      T.band(T.ge0(x), T.lt(x, n), T.lam_open(l, [x]), T.eq(rk(x), k)))]


def _ax_cnt(a):
    l, = a.args
    n = l.shape[0]
    v = T.fresh('x', 'I', '>=')
    c = P(a)
    k = T.fresh('x', 'I', '>=')
    rk = lambda i: P(T.App('rank', (l, i), 'I', '>='))
    nth = lambda i: P(T.App('nth', (l, i), 'I', '>='))
    m = T.lam_open(l, [P(v)])
    w = P(T.App('nth', (l, T.ZERO), 'I', '>='))
    return [T.ge0(c), T.le(c, n),
            T.forall([v], [n], T.implies(m, T.band(T.ge0(rk(P(v))), T.lt(rk(P(v)), c), T.eq(nth(rk(P(v))), P(v))))),
            T.forall([k], [c], T.band(T.ge0(nth(P(k))), T.lt(nth(P(k)), n), T.lam_open(l, [nth(P(k))]),
                                      T.eq(rk(nth(P(k))), P(k))))]


APP_AXIOMS['rmin'] = _ax_rmin
APP_AXIOMS['argmin'] = _ax_argmin
APP_AXIOMS['argminlast'] = _ax_argmin
APP_AXIOMS['nth'] = _ax_nth
APP_AXIOMS['cnt'] = _ax_cnt


WALL = [3]


def z3_check(facts, goal=None, timeout=3000, want_model=False):
    """is facts & not goal satisfiable? returns 'unsat' | 'sat' | 'unknown' (, model info)"""
    ctx = Z3Ctx()
    s = z3.Solver()
    s.set('timeout', WALL[0] * timeout)       # wall time is only a safety net: the deterministic resource limit decides
    s.set('rlimit', 2500 * timeout)
    s.set('random_seed', 1)
    for f in facts:
        s.add(ctx.bool(f))
    if goal is not None:
        s.add(z3.Not(ctx.bool(goal)))
    n = 0
    while n < len(ctx.axioms):
        # axioms may create more axioms
        batch = ctx.axioms[n:]
        n = len(ctx.axioms)
        for ax in batch:
            s.add(ax)
    t0 = time.time()
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.unknown and 'resource' not in s.reason_unknown():
        STATS['walled'] = STATS.get('walled', 0) + 1
    res = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
    if want_model:
        model = {}
        if r == z3.sat:
            m = s.model()
            for a, c in ctx.consts.items():
                if isinstance(a, Atom) and a.kind == 'var':
                    try:
                        v = m.eval(c, model_completion=True)
                        if z3.is_int_value(v):
                            model[a] = v.as_long()
                        elif z3.is_rational_value(v):
                            model[a] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                        elif z3.is_bool(v):
                            model[a] = z3.is_true(v)
                    except Exception:
                        pass
        return res, model
    return res


_relcache = {}


def relevant(facts, goal_fv):
    """facts connected to the goal through shared variables/apps (keeps queries small)"""
    syms = set(_symbols_fv(goal_fv))
    todo = [(f, _symbols(f)) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f, s in todo:
            if s & syms or not s:
                out.append(f)
                syms |= s
                changed = True
            else:
                rest.append((f, s))
        todo = rest
    return out


def _symbols_fv(fv):
    return {a for a in fv}


_symcache = {}


def _symbols(t):
    s = _symcache.get(t)
    if s is None:
        s = frozenset(syms(t))
        _symcache[t] = s
    return s


def syms(t, acc=None):
    """set of variable atoms and app names occurring in t"""
    if acc is None:
        acc = set()
    if isinstance(t, Poly):
        for m in t.mons:
            for f, e in m:
                syms(f, acc)
    elif isinstance(t, Atom):
        if t.kind == 'var':
            acc.add(t)
        elif t.kind == 'app':
            if t.name not in BUILTIN_APPS:
                acc.add(t.name)
            for a in t.args:
                if isinstance(a, (Poly, Bool, Lam)):
                    syms(a, acc)
        elif t.kind in ('P', 'ind'):
            syms(t.args[0], acc)
        elif t.kind == 'sum':
            for r in t.args[0]:
                syms(r, acc)
            for f, e in t.args[1]:
                syms(f, acc)
    elif isinstance(t, Bool):
        if t.kind == 'bvar':
            acc.add(t.args[0])
        elif t.kind == 'all':
            for r in t.args[0]:
                syms(r, acc)
            syms(t.args[1], acc)
        else:
            if t.kind == 'bapp':
                acc.add(t.name)
            for a in t.args:
                if isinstance(a, (Poly, Bool, Lam)):
                    syms(a, acc)
    elif isinstance(t, Lam):
        for s in t.shape:
            syms(s, acc)
        syms(t.body, acc)
    return acc


BUILTIN_APPS = {'exp', 'log', 'normcdf', 'normpdf', 'rmin', 'argmin', 'argminlast', 'cnt', 'nth', 'rank', 'gamma', 'gammaln', 'digamma'}


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


class Interp:
    """a random finite interpretation: sizes for int vars, values for real vars, tables for apps"""

    def __init__(self, seed, ints=None, fixed=None, pool=None):
        self.pool = pool        # discrete values for reals, so that coincidences happen
        self.rnd = random.Random(seed)
        self.vals = dict(fixed or {})
        self.tab = {}
        self.ints = ints or (1, 4)
        self.bv = {}
        self.memo = {}

    def var(self, a):
        v = self.vals.get(a)
        if v is None:
            if a is T.PI:
                v = math.pi
            elif a is T.INF:
                v = math.inf
            elif a.sort == 'I':
                if a.rng is not None:
                    n = self.poly(a.rng)
                    if n <= 0:
                        raise EvalError('empty range')
                    v = self.rnd.randrange(int(n))
                else:
                    v = self.rnd.randint(*self.ints)
            elif a.sort == 'B':
                v = self.rnd.random() < 0.5
            else:
                v = self.draw(a.sign)
            self.vals[a] = v
        return v

    def draw(self, sign):
        if self.pool:
            v = self.rnd.randrange(self.pool) * 0.5
            if sign == '>':
                return v + 0.5
            return v if sign else v - 0.25 * (self.pool - 1)
        return self.rnd.uniform(0.3, 2.0) if sign else self.rnd.uniform(-2, 2)

    def poly(self, p):
        closed = not self.bv or not any(x.kind == 'bv' for x in p.fv)
        if closed and p in self.memo:
            return self.memo[p]
        s = 0.0
        isint = p.is_int
        if isint:
            s = 0
        for m, c in p.mons.items():
            t = int(c) if isint else float(c)
            z = False
            # evaluate brackets first so that guarded undefined values do not matter
            for f, e in sorted(m, key=lambda t: 0 if t[0].kind == 'ind' else 1):
                if f.kind == 'ind':
                    if not self.bool(f.args[0]):
                        z = True
                        break
                    continue
                x = self.atom(f)
                if e == 1:
                    t = t * x
                elif e.denominator == 1:
                    if e < 0 and x == 0:
                        raise EvalError('div by zero')
                    t = t * (x ** int(e))
                else:
                    if x < 0 or (x == 0 and e < 0):
                        raise EvalError('root of negative')
                    t = t * (x ** float(e))
            if not z:
                s += t
        if isinstance(s, float) and (math.isnan(s)):
            raise EvalError('nan')
        if closed:
            self.memo[p] = s
        return s

    def atom(self, a):
        k = a.kind
        if k == 'var':
            return self.var(a)
        if k == 'bv':
            return self.bv[a]
        if k == 'P':
            return self.poly(a.args[0])
        if k == 'ind':
            return 1 if self.bool(a.args[0]) else 0
        if k == 'sum':
            ranges, factors = a.args
            body = T.mkpoly({factors: F1})
            return self.sumrec(a.name, ranges, 0, body)
        if k == 'app':
            return self.app(a)
        raise AssertionError

    def sumrec(self, base, ranges, i, body):
        if i == len(ranges):
            return self.poly(body)
        b = T.BV(base + 1 + i)
        tot = 0
        n = int(self.poly(ranges[i]))
        if n > 120:
            raise EvalError('range too big')
        old = self.bv.get(b)
        for v in range(n):
            self.bv[b] = v
            tot += self.sumrec(base, ranges, i + 1, body)
        if old is None:
            self.bv.pop(b, None)
        else:
            self.bv[b] = old
        return tot

    def lam(self, l):
        """evaluate to (shape, flat list)"""
        import itertools
        dims = [int(self.poly(s)) for s in l.shape]
        tot = 1
        for d in dims:
            tot *= max(d, 0)
        if tot > 3000:
            raise EvalError('array too big')
        bs = [T.BV(l.base + 1 + i) for i in range(len(dims))]
        old = [self.bv.get(b) for b in bs]
        out = []
        for ix in itertools.product(*[range(d) for d in dims]):
            for b, v in zip(bs, ix):
                self.bv[b] = v
            out.append(self.bool(l.body) if isinstance(l.body, Bool) else self.poly(l.body))
        for b, o in zip(bs, old):
            if o is None:
                self.bv.pop(b, None)
            else:
                self.bv[b] = o
        return tuple(dims), out

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Bool):
            return self.bool(x)
        if isinstance(x, Lam):
            return self.lam(x)
        return x

    def app(self, a):
        args = [self.arg(x) for x in a.args]
        f = NUM_APPS.get(a.name)
        if f is not None:
            try:
                return f(*args)
            except (ValueError, OverflowError, ZeroDivisionError, ArithmeticError) as e:
                raise EvalError(str(e))
        key = (a.name,) + tuple(_rk(x) for x in args)
        v = self.tab.get(key)
        if v is None:
            if a.name in ('urand', 'qmc', 'unitdesign'):
                v = self.rnd.random()
            elif a.name in ('choice', 'choicenr'):
                v = self.choice(a, args, key)
            elif a.sort == 'I':
                v = self.rnd.randint(1 if a.sign == '>' else 0, 3)
            else:
                v = self.draw(a.sign)
            self.tab[key] = v
        return v

    def choice(self, a, args, key):
        """index draw: below the population size, without repetition for choicenr"""
        n = int(args[0])
        if n <= 0:
            raise EvalError('empty population')
        if a.name == 'choice':
            return self.rnd.randrange(n)
        used = {v for k2, v in self.tab.items() if k2[:-1] == key[:-1]}
        left = [i for i in range(n) if i not in used]
        if not left:
            raise EvalError('exhausted population')
        return self.rnd.choice(left)

    def bool(self, b):
        k = b.kind
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'ge':
            return self.poly(b.args[0]) >= 0
        if k == 'gt':
            return self.poly(b.args[0]) > 0
        if k == 'eq':
            return abs(self.poly(b.args[0])) < 1e-12
        if k == 'not':
            return not self.bool(b.args[0])
        if k == 'and':
            return all(self.bool(x) for x in b.args)
        if k == 'or':
            return any(self.bool(x) for x in b.args)
        if k == 'bvar':
            return bool(self.var(b.args[0]))
        if k == 'bapp':
            args = [self.arg(x) for x in b.args]
            f = NUM_BAPPS.get(b.name)
            if f is not None:
                return f(*args)
            key = ('?' + b.name,) + tuple(_rk(x) for x in args)
            v = self.tab.get(key)
            if v is None:
                v = self.rnd.random() < 0.5
                self.tab[key] = v
            return v
        if k == 'all':
            rs, body = b.args
            base = b.name

            def rec(i):
                if i == len(rs):
                    return self.bool(body)
                bb = T.BV(base + 1 + i)
                old = self.bv.get(bb)
                ok = True
                n = int(self.poly(rs[i]))
                if n > 120:
                    raise EvalError('range too big')
                for v in range(n):
                    self.bv[bb] = v
                    if not rec(i + 1):
                        ok = False
                        break
                if old is None:
                    self.bv.pop(bb, None)
                else:
                    self.bv[bb] = old
                return ok
            return rec(0)
        raise AssertionError(k)


def _rk(x):
    if isinstance(x, float):
        return float('%.10g' % x)
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list):
        return (x[0], tuple(_rk(y) for y in x[1]))
    return x


NUM_APPS = {}
NUM_BAPPS = {}


def _np(l):
    import numpy as np
    return np.array(l[1], dtype=float).reshape(l[0])


def _mat(fn):
    def g(l, *ix):
        m = fn(_np(l))
        return float(m[tuple(int(i) for i in ix)])
    return g


def _reg():
    import numpy as np
    import scipy.special as sp
    import scipy.linalg as sl
    NUM_APPS['exp'] = math.exp
    NUM_APPS['log'] = math.log
    NUM_APPS['normcdf'] = lambda x: 0.5 * math.erfc(-x / math.sqrt(2))
    NUM_APPS['normpdf'] = lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi)
    NUM_APPS['rmin'] = lambda l: min(l[1])
    NUM_APPS['argmin'] = lambda l: l[1].index(min(l[1])) if l[1] else 0
    NUM_APPS['argminlast'] = lambda l: len(l[1]) - 1 - l[1][::-1].index(min(l[1])) if l[1] else 0
    NUM_APPS['cnt'] = lambda l: sum(1 for x in l[1] if x)

    def nth(l, k):
        pos = [i for i, x in enumerate(l[1]) if x]
        if not 0 <= k < len(pos):
            raise EvalError('nth')
        return pos[int(k)]
    NUM_APPS['nth'] = nth
    NUM_APPS['rank'] = lambda l, i: sum(1 for x in l[1][:int(i)] if x)
    NUM_APPS['gamma'] = lambda x: math.gamma(x)
    NUM_APPS['gammaln'] = lambda x: math.lgamma(x)
    NUM_APPS['digamma'] = lambda x: float(sp.digamma(x))
    NUM_APPS['floor'] = lambda x: math.floor(x)
    NUM_APPS['rint'] = lambda x: round(x)
    NUM_APPS['trunc'] = lambda x: math.trunc(x)
    NUM_APPS['sin'] = math.sin
    NUM_APPS['cos'] = math.cos
    NUM_APPS['pow'] = lambda x, y: x ** y

    def inv(l, i, j):
        m = _np(l)
        m = m
        return float(np.linalg.inv(m)[int(i), int(j)])
    NUM_APPS['inv'] = inv

    def psd(l):
        m = _np(l)
        if not np.allclose(m, m.T):
            return False
        try:
            np.linalg.cholesky(m)
            return True
        except np.linalg.LinAlgError:
            return False
    NUM_BAPPS['posdef'] = psd

    def invertible(l):
        m = _np(l)
        return bool(np.linalg.cond(m) < 1e10) if m.size else True
    NUM_BAPPS['invertible'] = invertible

    def chol(l, i, j):
        try:
            return float(np.linalg.cholesky(_np(l))[int(i), int(j)])
        except np.linalg.LinAlgError as e:
            raise ValueError(str(e))
    NUM_APPS['chol'] = chol

    def logdet(l):
        return float(np.linalg.slogdet(_np(l))[1])
    NUM_APPS['logabsdet'] = logdet
    NUM_APPS['detsign'] = lambda l: float(np.linalg.slogdet(_np(l))[0])


_reg()


# ------------------------------------------------------------------ equality proving
def ind_atoms(p, acc=None):
    """Ind atoms at top level of p (not under binders)"""
    if acc is None:
        acc = {}
    for m in p.mons:
        for f, e in m:
            if f.kind == 'ind':
                acc[f] = acc.get(f, 0) + 1
            elif f.kind == 'P':
                ind_atoms(f.args[0], acc)
            elif f.kind == 'app':
                for a in f.args:
                    if isinstance(a, Poly):
                        ind_atoms(a, acc)
                    elif isinstance(a, Lam) and isinstance(a.body, Poly):
                        ind_atoms(a.body, acc)
    return acc


def assume_subst(t, cond, val):
    """replace Ind(cond) by 0/1 inside t (also booleans equal to cond)"""
    return T.subst(t, {}) if cond is None else _replace_ind(t, cond, val, {})


def _replace_ind(t, c, val, memo):
    key = t
    if key in memo:
        return memo[key]
    if isinstance(t, Poly):
        parts = []
        for m, co in t.mons.items():
            r = K(co)
            for f, e in m:
                r = T.mul(r, T.power(_replace_ind_atom(f, c, val, memo), e))
            parts.append(r)
        r = T.addmany(parts)
    elif isinstance(t, Bool):
        if t is c:
            r = T.TRUE if val else T.FALSE
        elif t.kind in ('ge', 'gt', 'eq'):
            p = _replace_ind(t.args[0], c, val, memo)
            r = {'ge': T.ge0, 'gt': T.gt0, 'eq': T.eq0}[t.kind](p)
        elif t.kind == 'not':
            r = T.bnot(_replace_ind(t.args[0], c, val, memo))
        elif t.kind == 'and':
            r = T.band(*[_replace_ind(x, c, val, memo) for x in t.args])
        elif t.kind == 'or':
            r = T.bor(*[_replace_ind(x, c, val, memo) for x in t.args])
        else:
            r = t
    else:
        r = t
    memo[key] = r
    return r


def _replace_ind_atom(f, c, val, memo):
    k = f.kind
    if k == 'ind':
        if f.args[0] is c:
            return T.ONE if val else T.ZERO
        b = _replace_ind(f.args[0], c, val, memo)
        return P(f) if b is f.args[0] else T.ind(b)
    if k == 'P':
        return _replace_ind(f.args[0], c, val, memo)
    if k == 'app':
        ch = False
        args = []
        for a in f.args:
            if isinstance(a, (Poly, Bool)):
                b = _replace_ind(a, c, val, memo)
                ch = ch or b is not a
                args.append(b)
            elif isinstance(a, Lam) and isinstance(a.body, Poly):
                vs = [T.fresh('l', 'I', '>=', s) for s in a.shape]
                o = T.lam_open(a, [P(v) for v in vs])
                b = _replace_ind(o, c, val, {})
                b = a if b is o else T.mklam(vs, a.shape, b)
                ch = ch or b is not a
                args.append(b)
            else:
                args.append(a)
        if ch:
            return T.mkapp(f.name, args, f.sort, f.sign)
    return P(f)


def clear_denoms(p, limit=12):
    """multiply p by denominators P(S)^k until none left (p==0 equivalent when S!=0)"""
    for _ in range(limit):
        worst = {}
        for m in p.mons:
            for f, e in m:
                if e < 0 and f.kind == 'P':
                    worst[f] = min(worst.get(f, 0), e)
        if not worst:
            break
        # the innermost first: choose the smallest argument
        f = min(worst, key=lambda a: len(a.args[0].mons))
        e = -worst[f]
        k = math.ceil(e)
        q = T.mkpoly({frozenset([(f, Fraction(k))]): F1})
        parts = []
        for m, c in p.mons.items():
            d = dict(m)
            d[f] = d.get(f, Fraction(0)) + k
            x = T.norm_mono(d)
            parts.append(T.scale(x if isinstance(x, Poly) else T.mkpoly({x: F1}), c))
        p = T.addmany(parts)
    return p


def is_zero(p):
    if p is T.ZERO:
        return True
    q = clear_denoms(p)
    return q is T.ZERO


class EqResult:
    def __init__(self, status, how='', detail='', model=None):
        self.status, self.how, self.detail, self.model = status, how, detail, model

    def __repr__(self):
        return 'EqResult(%s,%s,%s)' % (self.status, self.how, self.detail)


def prove_zero(p, facts, depth=0, z3_timeout=5000):
    """prove facts |- p == 0"""
    if is_zero(p):
        STATS['nf'] += 1
        return EqResult('proved', 'normal-form')
    if depth < 8:
        # use integer equalities among facts as rewrites
        for f in facts:
            if f.kind == 'eq':
                sol = T.solve_atom(f.args[0])
                if sol is not None and sol[0] in p.fv and sol[0].rng is not None:
                    p2 = T.subst(p, {sol[0]: sol[1]})
                    return prove_zero(p2, [T.subst(g, {sol[0]: sol[1]}) for g in facts if g is not f], depth + 1, z3_timeout)
        inds = ind_atoms(p)
        # only those with no dangling bound variables
        inds = {a: n for a, n in inds.items() if not any(x.kind == 'bv' for x in a.fv)}
        if inds:
            a = max(inds, key=lambda x: (inds[x], -x.uid))
            c = a.args[0]
            res = []
            for val in (True, False):
                b = c if val else T.bnot(c)
                fs = list(facts) + [b]
                if entails(facts, T.bnot(b)):
                    continue
                p2 = _replace_ind(p, c, val, {})
                if val and c.kind == 'eq':
                    sol = T.solve_atom(c.args[0])
                    if sol is not None:
                        p2 = T.subst(p2, {sol[0]: sol[1]})
                        fs = [T.subst(g, {sol[0]: sol[1]}) for g in fs]
                r = prove_zero(p2, fs, depth + 1, z3_timeout)
                if r.status != 'proved':
                    return r
                res.append(r.how)
            return EqResult('proved', 'case-split')
    # z3 on the residual
    if len(p.mons) <= 60:
        fs = relevant(facts, _symbols(p))
        r = z3_check(fs, T.eq0(p), timeout=z3_timeout)
        if r == 'unsat':
            return EqResult('proved', 'z3')
    return EqResult('unproved', '', T.show(p)[:2000])


_entail_cache = {}


def apps_in(t, acc, memo):
    """application atoms occurring in t outside binders of its own"""
    if t in memo:
        return acc
    memo.add(t)
    if isinstance(t, Poly):
        for m in t.mons:
            for f, e in m:
                apps_in(f, acc, memo)
    elif isinstance(t, Atom):
        if t.kind == 'app':
            acc.append(t)
            for a in t.args:
                if isinstance(a, (Poly, Bool)):
                    apps_in(a, acc, memo)
        elif t.kind in ('P', 'ind'):
            apps_in(t.args[0], acc, memo)
    elif isinstance(t, Bool) and t.kind != 'all':
        for a in t.args:
            if isinstance(a, (Poly, Bool)):
                apps_in(a, acc, memo)
    return acc


def ground(facts, goal):
    """the quantifier-free facts and the instances of the quantified ones at the goal's own indices"""
    gapps = {}
    for a in apps_in(goal, [], set()):
        gapps.setdefault((a.name, len(a.args)), []).append(a)
    out, n = [], 0
    for f in facts:
        if f.kind != 'all':
            out.append(f)
            continue
        rs, body = f.args
        bvs = [T.BV(f.name + 1 + i) for i in range(len(rs))]
        pats = {P(b): i for i, b in enumerate(bvs)}
        seen = set()
        for a in apps_in(body, [], set()):
            pos = [(k, pats[x]) for k, x in enumerate(a.args) if isinstance(x, Poly) and x in pats]
            if {i for _, i in pos} != set(range(len(bvs))):
                continue
            for g in gapps.get((a.name, len(a.args)), ()):
                b = {}
                if not all(isinstance(g.args[k], Poly) and b.setdefault(i, g.args[k]) is g.args[k] for k, i in pos):
                    continue
                key = tuple(b[i] for i in range(len(bvs)))
                if key in seen or len(seen) > 6:
                    continue
                seen.add(key)
                m = {bv: b[i] for i, bv in enumerate(bvs)}
                try:
                    out.append(T.implies(T.band(*[T.in_range(m[bv], T.subst(r, m)) for bv, r in zip(bvs, rs)]), T.subst(body, m)))
                    n += 1
                except T.TermLimit:
                    pass
    return out if n else None


def entails(facts, goal, timeout=1500):
    if goal.kind == 'T':
        return True
    if goal.kind == 'F':
        pass
    fset = set(facts)
    if goal in fset:
        return True
    if T.FALSE in fset:
        return True
    if goal.kind == 'and':
        return all(entails(facts, g, timeout) for g in goal.args)
    if goal.kind == 'or' and any(g in fset for g in goal.args):
        return True
    if goal.kind == 'all':
        # an arbitrary instance, so that axioms apply to its atoms
        rs, body = goal.args
        m = {}
        for i, n in enumerate(rs):
            m[T.BV(goal.name + 1 + i)] = T.ZERO if n is T.ONE else P(T.fresh('sk', 'I', '>=', T.subst(n, m) if n.fv else n))
        if entails(facts, T.subst(body, m), timeout):
            return True
    # one-fact implications
    for f in facts:
        if goal.kind in ('ge', 'gt', 'eq') and f.kind in ('ge', 'gt', 'eq'):
            if T.ind_rel(f, goal) == 'implies':
                return True
    key = (frozenset(facts), goal)
    r = _entail_cache.get(key)
    if r is None:
        rel = relevant(facts, _symbols(goal))
        r = False
        if any(f.kind == 'all' for f in rel) and goal.kind != 'all':
            g = ground(rel, goal)
            r = g is not None and z3_check(g, goal, timeout=min(timeout, 400)) == 'unsat'
        r = r or z3_check(rel, goal, timeout=timeout) == 'unsat'
        _entail_cache[key] = r
    return r


def feasible(facts, timeout=1500):
    """False only if the facts are contradictory"""
    if T.FALSE in facts:
        return False
    return z3_check(list(facts), None, timeout=timeout) != 'unsat'


def refute_zero(p, facts, tries=60, seed=0):
    """look for an interpretation of facts in which p != 0"""
    good = 0
    for t in range(tries):
        it = Interp(seed * 7919 + t, ints=(1, 2 + t % 4))
        try:
            ok = all(it.bool(f) for f in facts)
            if not ok:
                continue
            v = it.poly(p)
        except (EvalError, OverflowError, ZeroDivisionError, KeyError, ValueError) as e:
            continue
        except Exception as e:   # linalg errors
            continue
        good += 1
        if abs(v) > 1e-7 * max(1.0, _mag(it, p)):
            return it, v
    return None


def _mag(it, p):
    s = 0.0
    for m, c in p.mons.items():
        try:
            s = max(s, abs(it.poly(T.mkpoly({m: c}))))
        except Exception:
            pass
    return s
