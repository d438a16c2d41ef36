"""Symbolic interpreter for the real source text: generates the proof obligations.

Executes the abstract syntax tree of /repo's current source.  Branches whose condition is
not decided by the facts on the path are explored both ways; calls to functions under
contract use the callee's contract; every other repository function is inlined.
"""
import ast
import os
import builtins as _bi
from fractions import Fraction
from . import terms as T
from . import prove
from .terms import P, K, Poly, Bool, Lam
from .values import *


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Env:
    __slots__ = ('vars', 'parent', 'globals_', 'nonlocals')

    def __init__(self, parent, globals_):
        self.vars = {}
        self.parent = parent
        self.globals_ = globals_
        self.nonlocals = ()


class Ctx:
    def __init__(self, script):
        self.script = script
        self.taken = []
        self.alts = []


class Path:
    __slots__ = ('facts', 'decs', 'out', 'state', 'label', 'taint', 'note')

    def __init__(self, facts, decs, out, state, label, taint=False):
        self.facts, self.decs, self.out, self.state, self.label, self.taint = facts, decs, out, state, label, taint


EXC_PARENT = {'LinAlgError': 'ValueError', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AssertionError': 'Exception',
              'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
              'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'AttributeError': 'Exception',
              'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'ZeroDivisionError': 'ArithmeticError',
              'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError', 'StopIteration': 'Exception',
              'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'FloatingPointError': 'ArithmeticError',
              'RecursionError': 'RuntimeError', 'Exception': 'BaseException'}


def exc_matches(name, handler):
    while name is not None:
        if name == handler:
            return True
        name = EXC_PARENT.get(name)
    return False


UNROLL = 64


class Interp:
    def __init__(self, repo, lib=None):
        self.repo = repo
        self.heap = {}
        self.next_cell = 1
        self.facts = []
        self.frames = []
        self.counter = 0
        self.ctxs = []
        self.loop_idx = []
        self.obls = []
        self.summaries = {}
        self.modules = {}
        self.missing = set()
        self.depth = 0
        self.used = {}
        self.lib_used = set()
        self.functions = set()
        self.assumed_decs = []
        self.quiet = 0
        self.ghost = {}
        self.dec_count = 0
        from . import npmodel
        self.np = npmodel
        T._minhook[0] = self.min_hook

    # ------------------------------------------------------------ state
    def save(self):
        return (dict(self.heap), self.next_cell, list(self.facts), self.counter,
                [(f, dict(f.vars)) for f in self.frames], list(self.loop_idx), dict(self.ghost))

    def restore(self, s):
        self.heap = dict(s[0])
        self.next_cell = s[1]
        self.facts = list(s[2])
        self.counter = s[3]
        self.frames = [f for f, _ in s[4]]
        for f, v in s[4]:
            f.vars = dict(v)
        self.loop_idx = list(s[5])
        self.ghost = dict(s[6])

    def path_id(self):
        return ''.join(''.join('T' if d else 'F' for d, forced in c.taken if not forced) + '|' for c in self.ctxs)

    def sym(self, base, sort='R', sign=None, args=()):
        """fresh symbol, Skolemised over the enclosing loop indices"""
        self.counter += 1
        name = '%s@%s%d' % (base, self.path_id(), self.counter)
        a = tuple(self.loop_idx) + tuple(args)
        if a:
            return P(T.App(name, a, sort, sign))
        return P(T.Var(name, sort, sign))

    def symarr(self, base, shape, dt='f', sign=None):
        self.counter += 1
        name = '%s@%s%d' % (base, self.path_id(), self.counter)
        pre = tuple(self.loop_idx)
        if dt == 'b':
            return self.build(shape, lambda ix: T.bapp(name, pre + tuple(ix)), 'b')
        return self.build(shape, lambda ix: P(T.App(name, pre + tuple(ix), 'I' if dt == 'i' else 'R', sign)), dt)

    def assume(self, b):
        if b.kind == 'T':
            return
        if b.kind == 'and':
            for x in b.args:
                self.assume(x)
            return
        if b.kind == 'F':
            raise Infeasible()
        if b not in self.facts:
            self.facts.append(b)

    def min_hook(self, a, n):
        """known 0 <= a <= n -> a; a >= n -> n"""
        try:
            if prove.entails(self.facts, T.band(T.ge0(a), T.ge(n, a)), 400):
                return a
            if prove.entails(self.facts, T.ge(a, n), 400):
                return n
            if prove.entails(self.facts, T.le(a, T.ZERO), 400):
                return T.ZERO
        except RecursionError:
            pass
        return None

    # ------------------------------------------------------------ decisions
    def decide(self, b, why=''):
        if b.kind == 'T':
            return True
        if b.kind == 'F':
            return False
        if b in self.facts:
            return True
        nb = T.bnot(b)
        if nb in self.facts:
            return False
        ctx = self.ctxs[-1] if self.ctxs else None
        if ctx is not None and len(ctx.taken) < len(ctx.script):
            v, forced = ctx.script[len(ctx.taken)]
            ctx.taken.append((v, forced))
            if not forced:
                self.facts.append(b if v else nb)
                self.assumed_decs.append(b if v else nb)
            return v
        if prove.entails(self.facts, b):
            if ctx is not None:
                ctx.taken.append((True, True))
            return True
        if prove.entails(self.facts, nb):
            if ctx is not None:
                ctx.taken.append((False, True))
            return False
        if ctx is None:
            raise Unsupported('undecided condition outside exploration: %s' % T.show_bool(b)[:200])
        ctx.alts.append(len(ctx.taken))
        ctx.taken.append((True, False))
        self.facts.append(b)
        self.assumed_decs.append(b)
        return True

    def choose(self, why):
        """nondeterministic boolean"""
        self.counter += 1
        nm = 'nd_%s@%s%d' % (why, self.path_id(), self.counter)
        b = T.bapp(nm, tuple(self.loop_idx)) if self.loop_idx else T.BVarB(nm)
        return self.decide(b)

    def explore(self, thunk, limit=96):
        base = self.save()
        work = [[]]
        out = []
        nctx = len(self.ctxs)
        decs0 = self.assumed_decs
        while work:
            script = work.pop()
            self.restore(base)
            ctx = Ctx(script)
            self.ctxs.append(ctx)
            self.assumed_decs = []
            res = None
            try:
                try:
                    res = ('ok', thunk())
                except PyExc as e:
                    res = ('exc', e)
                except BreakEx:
                    res = ('break', None)
                except ContinueEx:
                    res = ('ok', None)
                except ReturnEx as r:
                    res = ('return', r.v)
                except Infeasible:
                    res = None
            finally:
                del self.ctxs[nctx:]
            for i in ctx.alts:
                work.append(ctx.taken[:i] + [(False, False)])
            if res is not None:
                st = self.save()
                out.append(Path(st[2][len(base[2]):], self.assumed_decs, res, st,
                                ''.join('T' if d else 'F' for d, forced in ctx.taken if not forced)))
            if len(out) > limit:
                raise Unsupported('too many paths')
        self.assumed_decs = decs0
        self.restore(base)
        return out

    # ------------------------------------------------------------ obligations
    def obligation(self, name, goal, note=''):
        """goal: Bool; recorded with the current facts"""
        if self.quiet:
            return
        self.obls.append((name, list(self.facts), goal, note))

    # ------------------------------------------------------------ heap
    def alloc(self, content):
        c = self.next_cell
        self.next_cell += 1
        self.heap[c] = content
        return c

    def new_list(self, items):
        return ListV(self.alloc(('list', tuple(items))))

    def new_dict(self, d):
        return DictV(self.alloc(('dict', dict(d))))

    def new_obj(self, cls, attrs):
        return ObjV(self.alloc(('obj', dict(attrs))), cls)

    def items(self, l):
        return self.heap[l.cell][1]

    def set_items(self, l, items):
        self.heap[l.cell] = ('list', tuple(items))

    def ditems(self, d):
        return self.heap[d.cell][1]

    def dset(self, d, k, v):
        n = dict(self.heap[d.cell][1])
        n[k] = v
        self.heap[d.cell] = ('dict', n)

    def attrs(self, o):
        return self.heap[o.cell][1]

    def aset(self, o, k, v):
        n = dict(self.heap[o.cell][1])
        n[k] = v
        self.heap[o.cell] = ('obj', n)

    # ------------------------------------------------------------ arrays
    def arr_new(self, lam, dt):
        return Arr(self.alloc(('arr', lam, dt)))

    def ivars(self, shape):
        return [T.fresh('i', 'I', '>=', s) if s.const is None or s.const > 1 else None for s in shape]

    def build(self, shape, fn, dt='f'):
        """array with entries fn(idx)"""
        shape = tuple(P(s) for s in shape)
        vs = [T.fresh('i', 'I', '>=', s) for s in shape]
        ix = [P(v) if not (s.const is not None and s.const == 1) else T.ZERO for v, s in zip(vs, shape)]
        body = fn(ix)
        return self.arr_new(T.mklam(vs, shape, body), dt)

    def dt(self, a):
        return self.heap[a.cell][2]

    def shape(self, a):
        if a.view is None:
            return self.heap[a.cell][1].shape
        return a.view[1]

    def at(self, a, ix):
        _, lam, dt = self.heap[a.cell]
        if a.view is None:
            return T.lam_open(lam, ix)
        real = []
        for e in a.view[0]:
            if e[0] == 'fix':
                real.append(e[1])
            else:
                real.append(e[2] + T.scale(ix[e[1]], e[3]))
        return T.lam_open(lam, real)

    def lam(self, a):
        if a.view is None:
            return self.heap[a.cell][1]
        shape = a.view[1]
        vs = [T.fresh('i', 'I', '>=', s) for s in shape]
        ix = [P(v) if not (s.const is not None and s.const == 1) else T.ZERO for v, s in zip(vs, shape)]
        return T.mklam(vs, shape, self.at(a, ix))

    def copy(self, a, dt=None):
        return self.arr_new(self.lam(a), dt or self.dt(a))

    def write(self, a, fn, dt=None):
        """in-place: entries of the view become fn(idx of the view)"""
        if a.ro:
            raise Unsupported('write through a list element')
        _, lam, d0 = self.heap[a.cell]
        if a.view is None:
            vs = [T.fresh('i', 'I', '>=', s) for s in lam.shape]
            ix = [P(v) if not (s.const is not None and s.const == 1) else T.ZERO for v, s in zip(vs, lam.shape)]
            self.heap[a.cell] = ('arr', T.mklam(vs, lam.shape, fn(ix)), d0)
            return
        axes, oshape = a.view
        vs = [T.fresh('i', 'I', '>=', s) for s in lam.shape]
        ix = [P(v) for v in vs]
        oix = [T.ZERO] * len(oshape)
        cond = []
        for i, e in enumerate(axes):
            if e[0] == 'fix':
                cond.append(T.eq(ix[i], e[1]))
            else:
                if abs(e[3]) != 1:
                    raise Unsupported('strided write')
                o = T.scale(ix[i] - e[2], e[3])
                oix[e[1]] = o
                whole = e[3] == 1 and e[2] is T.ZERO and oshape[e[1]] is lam.shape[i]
                if not whole:
                    cond.append(T.band(T.ge0(o), T.lt(o, oshape[e[1]])))
        c = T.band(*cond) if cond else T.TRUE
        new = fn(oix)
        old = T.lam_open(lam, ix)
        if isinstance(old, Bool):
            body = T.bor(T.band(c, new), T.band(T.bnot(c), old))
        else:
            body = T.ite(c, new, old)
        self.heap[a.cell] = ('arr', T.mklam(vs, lam.shape, body), d0)

    def same_dim(self, a, b):
        if a is b:
            return True
        return self.decide(T.eq(a, b))

    def broadcast(self, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for k in range(nd):
            dims = []
            for s in shapes:
                j = k - (nd - len(s))
                if j >= 0:
                    dims.append(s[j])
            d = None
            for x in dims:
                if x.const is not None and x.const == 1:
                    continue
                if d is None or d is x:
                    d = x
                    continue
                if self.decide(T.eq(d, x)):
                    if d.const is None and x.const is not None:
                        d = x
                elif self.decide(T.eq(x, T.ONE)):
                    pass
                elif self.decide(T.eq(d, T.ONE)):
                    d = x
                else:
                    raise PyExc('ValueError', 'operands could not be broadcast together')
            out.append(T.ONE if d is None else d)
        return tuple(out)

    def bidx(self, shape, out, ix):
        """index of an operand of given shape at broadcast index ix"""
        off = len(out) - len(shape)
        r = []
        for j, s in enumerate(shape):
            if s.const is not None and s.const == 1:
                r.append(T.ZERO)
            elif s is not out[off + j] and s in (T.ONE,):
                r.append(T.ZERO)
            elif s is not out[off + j] and prove.entails(self.facts, T.eq(s, T.ONE)) and not prove.entails(self.facts, T.eq(s, out[off + j])):
                r.append(T.ZERO)
            else:
                r.append(ix[off + j])
        return r

    def elementwise(self, fn, args, dt='f'):
        """args: Arr or Num/number; fn(list of Poly/Bool) -> body"""
        args = [self.as_operand(a) for a in args]
        shapes = [self.shape(a) if isinstance(a, Arr) else () for a in args]
        out = self.broadcast(shapes)
        vs = [T.fresh('i', 'I', '>=', s) for s in out]
        ix = [P(v) if not (s.const is not None and s.const == 1) else T.ZERO for v, s in zip(vs, out)]
        vals = []
        for a, s in zip(args, shapes):
            if isinstance(a, Arr):
                vals.append(self.at(a, self.bidx(s, out, ix)))
            elif isinstance(a, (bool, BoolV)):
                vals.append(tobool_term(a))
            else:
                vals.append(tonum(a).p)
        body = fn(vals)
        if not out:
            if isinstance(body, Bool):
                return mkbool(body, True)
            return Num(body, 'npint' if dt == 'i' else 'npfloat')
        return self.arr_new(T.mklam(vs, out, body), 'b' if isinstance(body, Bool) else dt)

    def as_operand(self, a):
        if isinstance(a, (ListV, tuple)) and not isinstance(a, DictV):
            return self.np.asarray(self, a)
        if isinstance(a, (Arr, Num, int, float, bool, BoolV)):
            return a
        if a is None or isinstance(a, (str, DictV, ObjV, FuncV)):
            raise PyExc('TypeError', 'unsupported operand')
        raise Unsupported('operand %r' % (a,))

    # ------------------------------------------------------------ lists
    def seq_len(self, items):
        n = T.ZERO
        for x in items:
            n = n + (x.n if isinstance(x, (Seg, PHSeg)) else T.ONE)
        return n

    def concrete(self, items):
        return not any(isinstance(x, (Seg, PHSeg)) for x in items)

    def list_get(self, items, i):
        """element i (Poly) of item tuple; index already validated"""
        if i.const is not None and self.concrete(items):
            return items[int(i.const)]
        off = T.ZERO
        for x in items:
            n = x.n if isinstance(x, (Seg, PHSeg)) else T.ONE
            d = i - off
            if self.decide(T.lt(d, n)):
                if isinstance(x, PHSeg):
                    raise Unsupported('read of list prefix in loop')
                if isinstance(x, Seg):
                    return self.thaw(self.vsubst(x.tmpl, {x.var: d}))
                return x
            off = off + n
        raise PyExc('IndexError', 'list index out of range')

    def freeze(self, v):
        if isinstance(v, Arr):
            return FArr(self.lam(v), self.dt(v))
        if isinstance(v, DictV):
            return FDict({k: self.freeze(x) for k, x in self.ditems(v).items()})
        if isinstance(v, ListV):
            return FList(tuple(self.freeze(x) if not isinstance(x, (Seg, PHSeg)) else x for x in self.items(v)))
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, ObjV):
            return FObj(v.cls, {k: self.freeze(x) for k, x in self.attrs(v).items()})
        return v

    def thaw(self, v):
        if isinstance(v, FArr):
            a = self.arr_new(v.lam, v.dt)
            a.ro = True
            return a
        if isinstance(v, FDict):
            return self.new_dict({k: self.thaw(x) for k, x in v.d.items()})
        if isinstance(v, FList):
            return self.new_list([self.thaw(x) if not isinstance(x, (Seg, PHSeg)) else x for x in v.items])
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        if isinstance(v, FObj):
            return self.new_obj(v.cls, {k: self.thaw(x) for k, x in v.d.items()})
        return v

    def vsubst(self, v, s):
        if isinstance(v, Num):
            return Num(T.subst(v.p, s), v.kind)
        if isinstance(v, BoolV):
            return mkbool(T.subst(v.b, s), v.np)
        if isinstance(v, FArr):
            return FArr(T.subst(v.lam, s), v.dt)
        if isinstance(v, tuple):
            return tuple(self.vsubst(x, s) for x in v)
        if isinstance(v, FList):
            return FList(tuple(self.vsubst(x, s) for x in v.items))
        if isinstance(v, FDict):
            return FDict({k: self.vsubst(x, s) for k, x in v.d.items()})
        if isinstance(v, Seg):
            return Seg(T.subst(v.n, s), v.var, self.vsubst(v.tmpl, s))
        if isinstance(v, FObj):
            return FObj(v.cls, {k: self.vsubst(x, s) for k, x in v.d.items()})
        if isinstance(v, Arr) and v.view is not None:
            axes, sh = v.view
            na = tuple(('fix', T.subst(e[1], s)) if e[0] == 'fix' else ('ax', e[1], T.subst(e[2], s), e[3]) for e in axes)
            return Arr(v.cell, (na, tuple(T.subst(x, s) for x in sh)), v.ro)
        return v

    def mkval(self, p, dt):
        """array element -> scalar value"""
        if isinstance(p, Bool):
            return mkbool(p, True)
        return Num(p, 'npint' if dt == 'i' else 'npfloat')

    # ------------------------------------------------------------ sequences
    def iterate(self, v):
        """value -> SeqV"""
        if isinstance(v, SeqV):
            return v
        if isinstance(v, tuple):
            return SeqV(K(len(v)), None, list(v))
        if isinstance(v, DictV):
            return SeqV(K(len(self.ditems(v))), None, list(self.ditems(v)))
        if isinstance(v, ListV):
            items = self.items(v)
            if self.concrete(items):
                return SeqV(K(len(items)), None, list(items))
            return SeqV(self.seq_len(items), lambda i: self.list_get(items, i))
        if isinstance(v, str):
            return SeqV(K(len(v)), None, list(v))
        if isinstance(v, Arr):
            sh = self.shape(v)
            if not sh:
                raise PyExc('TypeError', 'iteration over a 0-d array')
            n = sh[0]
            if n.const is not None and n.const <= UNROLL:
                return SeqV(n, None, [self.arr_row(v, K(i)) for i in range(int(n.const))])
            return SeqV(n, lambda i: self.arr_row(v, i))
        if v is None or isinstance(v, (bool, int, Num, BoolV)):
            raise PyExc('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def arr_row(self, a, i):
        sh = self.shape(a)
        if len(sh) == 1:
            return self.mkval(self.at(a, [i]), self.dt(a))
        return self.view_fix(a, i)

    def full_view(self, a):
        if a.view is not None:
            return a.view
        sh = self.heap[a.cell][1].shape
        return (tuple(('ax', k, T.ZERO, 1) for k in range(len(sh))), sh)

    def view_fix(self, a, i):
        axes, sh = self.full_view(a)
        na = []
        for e in axes:
            if e[0] == 'ax':
                if e[1] == 0:
                    na.append(('fix', e[2] + T.scale(i, e[3])))
                else:
                    na.append(('ax', e[1] - 1, e[2], e[3]))
            else:
                na.append(e)
        return Arr(a.cell, (tuple(na), tuple(sh[1:])), a.ro)

    # ------------------------------------------------------------ modules
    def module(self, name):
        """interpret a repository module"""
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            path = os.path.join(base, '__init__.py')
        elif os.path.exists(base + '.py'):
            path = base + '.py'
        else:
            return None
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        m = ModuleV(name, {}, True)
        m.ns['__name__'] = name
        self.modules[name] = m
        env = Env(None, m.ns)
        env.vars = m.ns
        if '.' in name:
            par = self.module(name.rsplit('.', 1)[0])
            if par is not None:
                par.ns.setdefault(name.rsplit('.', 1)[1], m)
        frames = self.frames
        self.frames = []
        try:
            for st in tree.body:
                try:
                    self.exec(st, env, m)
                except Unsupported as e:
                    # a module-level statement outside the subset leaves its targets opaque
                    for t in ast.walk(st):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            m.ns[t.id] = Opaque('module-level %s' % t.id)
        finally:
            self.frames = frames
        for k, v in m.ns.items():
            if isinstance(v, FuncV) and v.contract is None and v.module is m:
                v.contract = name + '.' + k
        return m

    def import_(self, name):
        if name.split('.')[0] == 'bayeso':
            m = self.module(name)
            if m is None:
                raise PyExc('ModuleNotFoundError', name)
            return m
        r = self.np.library_module(self, name)
        if r is None:
            raise PyExc('ModuleNotFoundError', name)
        return r

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env, mod):
        for st in body:
            self.exec(st, env, mod)

    def exec(self, st, env, mod):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %s' % (type(st).__name__, getattr(st, 'lineno', '?')))
        return m(st, env, mod)

    def x_Expr(self, st, env, mod):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env, mod)

    def x_Pass(self, st, env, mod):
        pass

    def x_Import(self, st, env, mod):
        for a in st.names:
            m = self.import_(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                top = a.name.split('.')[0]
                env.vars[top] = self.import_(top)

    def x_ImportFrom(self, st, env, mod):
        if st.level:
            base = mod.name.split('.')
            isinit = os.path.isdir(os.path.join(self.repo, *base))
            k = st.level - (1 if isinit else 0)
            base = base[:len(base) - k] if k else base
            name = '.'.join(base + ([st.module] if st.module else []))
        else:
            name = st.module
        m = self.import_(name)
        for a in st.names:
            if a.name == '*':
                for k, v in m.ns.items():
                    if not k.startswith('_'):
                        env.vars[k] = v
                continue
            if m.real and a.name not in m.ns:
                sub = self.module(name + '.' + a.name)
                if sub is None:
                    raise PyExc('ImportError', a.name)
                env.vars[a.asname or a.name] = sub
            else:
                env.vars[a.asname or a.name] = self.getattr(m, a.name)

    def x_Assign(self, st, env, mod):
        v = self.eval(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def x_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env, mod), env, mod)

    def x_AugAssign(self, st, env, mod):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, mod)
            rhs = self.eval(st.value, env, mod)
            self.assign(t, self.inplace(st.op, cur, rhs), env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(st.value, env, mod)
            self.setattr(o, t.attr, self.inplace(st.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            ix = self.eval_index(t.slice, env, mod)
            cur = self.getitem(o, ix)
            rhs = self.eval(st.value, env, mod)
            if isinstance(o, Arr) and isinstance(cur, Arr) and cur.cell == o.cell:
                self.inplace(st.op, cur, rhs)
            else:
                self.setitem(o, ix, self.inplace(st.op, cur, rhs))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, cur, rhs):
        if isinstance(cur, Arr):
            new = self.binop(op, cur, rhs)
            if isinstance(new, Arr):
                so, sn = self.shape(cur), self.shape(new)
                if len(so) != len(sn):
                    raise PyExc('ValueError', 'non-broadcastable output operand')
                for a, b in zip(so, sn):
                    if a is not b and not self.decide(T.eq(a, b)):
                        raise PyExc('ValueError', 'non-broadcastable output operand')
                if self.dt(cur) == 'i' and self.dt(new) == 'f':
                    raise PyExc('UFuncTypeError', 'cannot cast in place')
                nl = self.lam(new)
                self.write(cur, lambda ix: T.lam_open(nl, ix))
            else:
                p = new.p if isinstance(new, Num) else tonum(new).p
                self.write(cur, lambda ix: p)
            return cur
        if isinstance(cur, ListV) and not isinstance(cur, DictV) and isinstance(op, ast.Add):
            self.list_extend(cur, rhs)
            return cur
        return self.binop(op, cur, rhs)

    def list_extend(self, l, rhs):
        if isinstance(rhs, ListV) and not isinstance(rhs, DictV):
            add = self.items(rhs)
        elif isinstance(rhs, tuple):
            add = rhs
        else:
            s = self.iterate(rhs)
            if s.items is not None:
                add = tuple(s.items)
            else:
                v = T.fresh('e', 'I', '>=', s.n)
                add = (Seg(s.n, v, self.freeze(s.elem(P(v)))),)
        self.set_items(l, self.items(l) + tuple(add))

    def x_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env, mod)
                ix = self.eval_index(t.slice, env, mod)
                if isinstance(o, DictV):
                    d = dict(self.ditems(o))
                    if ix not in d:
                        raise PyExc('KeyError', str(ix))
                    del d[ix]
                    self.heap[o.cell] = ('dict', d)
                    continue
                raise Unsupported('del subscript')
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_Return(self, st, env, mod):
        raise ReturnEx(self.eval(st.value, env, mod) if st.value is not None else None)

    def x_Break(self, st, env, mod):
        raise BreakEx()

    def x_Continue(self, st, env, mod):
        raise ContinueEx()

    def x_Assert(self, st, env, mod):
        if not self.truth(self.eval(st.test, env, mod)):
            raise PyExc('AssertionError', 'line %d: %s' % (st.lineno, ast.unparse(st.test)[:120]))

    def x_Raise(self, st, env, mod):
        if st.exc is None:
            raise PyExc('Exception', 're-raise')
        v = self.eval(st.exc, env, mod)
        if isinstance(v, TypeV):
            raise PyExc(v.name.split('.')[-1], '')
        if isinstance(v, ObjV) and isinstance(v.cls, TypeV):
            raise PyExc(v.cls.name.split('.')[-1], '')
        if isinstance(v, ClassV):
            raise PyExc(v.name, '')
        raise PyExc('Exception', 'raise')

    def x_If(self, st, env, mod):
        c = self.eval(st.test, env, mod)
        if self.truth(c):
            self.exec_block(st.body, env, mod)
        else:
            self.exec_block(st.orelse, env, mod)

    def x_With(self, st, env, mod):
        for it in st.items:
            v = self.eval(it.context_expr, env, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
        self.exec_block(st.body, env, mod)

    def x_Try(self, st, env, mod):
        try:
            try:
                self.exec_block(st.body, env, mod)
            except PyExc as e:
                for h in st.handlers:
                    names = self.handler_names(h.type, env, mod)
                    if any(exc_matches(e.name, n) for n in names):
                        if h.name:
                            env.vars[h.name] = Opaque('exception')
                        self.exec_block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, mod)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env, mod)

    def handler_names(self, t, env, mod):
        if t is None:
            return ['BaseException']
        if isinstance(t, ast.Tuple):
            r = []
            for x in t.elts:
                r += self.handler_names(x, env, mod)
            return r
        v = self.eval(t, env, mod)
        if isinstance(v, TypeV):
            return [v.name.split('.')[-1]]
        if isinstance(v, ClassV):
            return [v.name]
        raise Unsupported('exception type')

    def x_FunctionDef(self, st, env, mod):
        f = self.make_func(st, env, mod, st.name)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env, mod)
            f = self.call(dv, [f], {})
        if isinstance(f, FuncV) and env.vars is mod.ns:
            if f.contract is None:
                f.contract = mod.name + '.' + st.name
        env.vars[st.name] = f

    def make_func(self, st, env, mod, name):
        a = st.args
        defaults = [self.eval(d, env, mod) for d in a.defaults]
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.eval(d, env, mod)
        return FuncV(st, env, mod, name, mod.name + '.' + name, defaults, kwd)

    def x_ClassDef(self, st, env, mod):
        bases = [self.eval(b, env, mod) for b in st.bases]
        cenv = Env(env, mod.ns)
        self.exec_block([s for s in st.body], cenv, mod)
        c = ClassV(st.name, bases, cenv.vars, mod)
        for k, v in cenv.vars.items():
            if isinstance(v, FuncV):
                v.contract = '%s.%s.%s' % (mod.name, st.name, k)
                v.attrs['__class__'] = c
            elif isinstance(v, tuple) and len(v) == 2 and v[0] in ('staticmethod', 'property', 'classmethod') and isinstance(v[1], FuncV):
                v[1].contract = '%s.%s.%s' % (mod.name, st.name, k)
                v[1].attrs['__class__'] = c
        env.vars[st.name] = c

    def x_Global(self, st, env, mod):
        raise Unsupported('global statement')

    def x_Nonlocal(self, st, env, mod):
        raise Unsupported('nonlocal statement')

    def x_For(self, st, env, mod):
        from . import loops
        seq = self.iterate(self.eval(st.iter, env, mod))
        loops.run_for(self, seq, st, env, mod)

    def x_While(self, st, env, mod):
        from . import loops
        loops.run_while(self, st, env, mod)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            self.setitem(o, self.eval_index(t.slice, env, mod), v)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, n, elts=None):
        s = self.iterate(v)
        items = s.items
        if items is None:
            if s.n.const is None:
                if self.decide(T.eq(s.n, K(n))):
                    return [s.elem(K(i)) for i in range(n)]
                raise PyExc('ValueError', 'unpack')
            items = [s.elem(K(i)) for i in range(int(s.n.const))]
        if elts is not None:
            st = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                after = len(elts) - k - 1
                if len(items) < len(elts) - 1:
                    raise PyExc('ValueError', 'unpack')
                mid = items[k:len(items) - after]
                return items[:k] + [self.new_list(mid)] + (items[len(items) - after:] if after else [])
        if len(items) != n:
            raise PyExc('ValueError', 'unpack')
        return items

    # ------------------------------------------------------------ names
    def lookup(self, name, env, mod):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Undef):
                    raise Unsupported('variable %s undefined after loop' % name)
                if type(v).__name__ == 'PHV':
                    from . import loops
                    loops.read_ph(v)
                return v
            e = e.parent
        if name in env.globals_:
            return env.globals_[name]
        b = self.np.BUILTINS.get(name)
        if b is not None:
            return b
        if hasattr(_bi, name):
            raise Unsupported('builtin %s' % name)
        raise PyExc('NameError', name)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, str)):
            return bool(v)
        if isinstance(v, BoolV):
            return self.decide(v.b)
        if isinstance(v, Num):
            return not self.decide(T.eq0(v.p))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, DictV):
            return len(self.ditems(v)) > 0
        if isinstance(v, ListV):
            n = self.seq_len(self.items(v))
            return self.decide(T.gt0(n))
        if isinstance(v, Arr):
            sh = self.shape(v)
            for s in sh:
                if not self.decide(T.eq(s, T.ONE)):
                    raise PyExc('ValueError', 'truth value of an array is ambiguous')
            x = self.at(v, [T.ZERO] * len(sh))
            return self.truth(mkbool(x)) if isinstance(x, Bool) else not self.decide(T.eq0(x))
        if isinstance(v, (FuncV, BoundV, ObjV, ClassV, BuiltinV, ModuleV, OpaqueFn, TypeV)):
            return True
        if isinstance(v, SeqV):
            return self.decide(T.gt0(v.n))
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ expressions
    def eval(self, e, env, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)) or v is Ellipsis:
            return v
        if isinstance(v, float):
            return Num(P(v), 'float')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def e_Tuple(self, e, env, mod):
        return tuple(self.eval_list(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return self.new_list(self.eval_list(e.elts, env, mod))

    def e_Set(self, e, env, mod):
        return tuple(self.eval_list(e.elts, env, mod))

    def eval_list(self, elts, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env, mod)
                if isinstance(v, ListV) and not isinstance(v, DictV):
                    out.extend(self.items(v))
                else:
                    s = self.iterate(v)
                    if s.items is None:
                        raise Unsupported('symbolic starred')
                    out.extend(s.items)
            else:
                out.append(self.eval(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env, mod)
                d.update(self.ditems(src))
                continue
            d[self.find(d, self.key(self.eval(k, env, mod)))] = self.eval(v, env, mod)
        return self.new_dict(d)

    def key(self, k):
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Num) and k.p.const is not None:
            return k.p.const
        if isinstance(k, Num):
            return SymK(k.p)
        if isinstance(k, BytesV):
            return SymK(k)
        raise Unsupported('dict key %r' % (k,))

    def key_eq(self, x, y):
        """when are two dictionary keys equal"""
        if x == y:
            return T.TRUE
        if isinstance(x, tuple) or isinstance(y, tuple):
            if not (isinstance(x, tuple) and isinstance(y, tuple)) or len(x) != len(y):
                return T.FALSE
            return T.band(*[self.key_eq(a, b) for a, b in zip(x, y)])
        if not isinstance(x, SymK) and not isinstance(y, SymK):
            return T.FALSE
        v = [q.v if isinstance(q, SymK) else q for q in (x, y)]
        if any(isinstance(q, BytesV) for q in v):
            if not all(isinstance(q, BytesV) for q in v) or v[0].dt != v[1].dt:
                return T.FALSE if not all(isinstance(q, BytesV) for q in v) else T.bapp('bytes_eq', (v[0].lam, v[1].lam))
            l, m = v[0].lam, v[1].lam
            other = T.bapp('bytes_eq', (l, m))
            if len(l.shape) != len(m.shape):
                return other
            same = T.band(*[T.eq(a, b) for a, b in zip(l.shape, m.shape)])
            vs = [T.fresh('i', 'I', '>=', n) for n in l.shape]
            ix = [P(q) if n is not T.ONE else T.ZERO for q, n in zip(vs, l.shape)]
            e, f = T.lam_open(l, ix), T.lam_open(m, ix)
            alle = T.bor(T.band(e, f), T.band(T.bnot(e), T.bnot(f))) if isinstance(e, Bool) else T.eq0(e - f)
            for q, n in reversed(list(zip(vs, l.shape))):
                if n is not T.ONE:
                    alle = T.forall([q], [n], alle)
            return T.bor(T.band(same, alle), T.band(T.bnot(same), other))
        if any(isinstance(q, (str, tuple)) or q is None for q in v):
            return T.FALSE
        return T.eq0(P(v[0]) - P(v[1]))

    def find(self, d, key, read=True):
        """the key of d equal to key, or key itself"""
        if key in d:
            return key
        if read and any(isinstance(q, str) and q.startswith('#') for q in d):
            # a structure the contract knows only through its number: what else it holds is not modelled
            raise Unsupported('reading %r of an abstract dictionary' % (key,))
        if not has_sym(key) and not any(has_sym(q) for q in d):
            return key
        if self.loop_idx:
            raise Unsupported('symbolic dictionary key in a loop')
        for q in d:
            if self.decide(self.key_eq(key, q)):
                return q
        return key

    def e_JoinedStr(self, e, env, mod):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.eval(v.value, env, mod)
                if isinstance(x, (str, int)) and v.format_spec is None:
                    out += str(x)
                elif x is None:
                    out += 'None'
                else:
                    return Opaque('str')
        return out

    def e_Lambda(self, e, env, mod):
        return self.make_func(e, env, mod, '<lambda>')

    def e_IfExp(self, e, env, mod):
        if self.truth(self.eval(e.test, env, mod)):
            return self.eval(e.body, env, mod)
        return self.eval(e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env, mod)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                if isinstance(v, BoolV):
                    return not isand
                return v
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.eval(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            if isinstance(v, BoolV):
                return mkbool(T.bnot(v.b))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, int):
                return -v
            if isinstance(v, Num):
                return Num(T.neg(v.p), v.kind)
            return self.elementwise(lambda a: T.neg(a[0]), [v], self.dt(v) if isinstance(v, Arr) else 'f')
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and self.dt(v) == 'b':
                return self.elementwise(lambda a: T.bnot(a[0]), [v], 'b')
            if isinstance(v, BoolV):
                return mkbool(T.bnot(v.b), True)
            raise Unsupported('~')
        raise Unsupported('unary')

    def e_BinOp(self, e, env, mod):
        a = self.eval(e.left, env, mod)
        b = self.eval(e.right, env, mod)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str)) or o == 'Mod':
                return Opaque('str')
            raise Unsupported('opaque operand')
        if isinstance(a, str) and o == 'Mod':
            return Opaque('str')
        if isinstance(a, str) and isinstance(b, str) and o == 'Add':
            return a + b
        if isinstance(a, str) and isinstance(b, int) and o == 'Mult':
            return a * b
        al = isinstance(a, ListV) and not isinstance(a, DictV)
        bl = isinstance(b, ListV) and not isinstance(b, DictV)
        if o == 'Add' and al and bl:
            return self.new_list(self.items(a) + self.items(b))
        if o == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if o == 'Mult' and (al or isinstance(a, tuple)) and isinstance(b, (int, Num)):
            return self.list_repeat(a, b)
        if o == 'Mult' and (bl or isinstance(b, tuple)) and isinstance(a, (int, Num)):
            return self.list_repeat(b, a)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(o, a, b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (tuple, ListV, ObjV, FuncV)) or isinstance(b, (tuple, ListV, ObjV, FuncV)):
            if o in ('Sub', 'Add', 'Mult', 'Div') and (isinstance(a, Num) and a.kind.startswith('np') or isinstance(b, Num) and b.kind.startswith('np')) and (al or bl):
                return self.arr_binop(o, a, b)
            raise PyExc('TypeError', 'unsupported operand type(s)')
        return self.num_binop(o, a, b)

    def list_repeat(self, l, n):
        items = l if isinstance(l, tuple) else self.items(l)
        n = tonum(n)
        if n.p.const is not None and n.p.const <= UNROLL:
            r = tuple(items) * int(n.p.const)
            return r if isinstance(l, tuple) else self.new_list(r)
        if len(items) == 1 and self.concrete(items):
            if not self.decide(T.ge0(n.p)):
                return self.new_list([])
            v = T.fresh('e', 'I', '>=', n.p)
            return self.new_list([Seg(n.p, v, self.freeze(items[0]))])
        raise Unsupported('symbolic list repetition')

    def num_binop(self, o, a, b):
        if isinstance(a, int) and isinstance(b, int):
            a_, b_ = int(a), int(b)
            if o == 'Add':
                return a_ + b_
            if o == 'Sub':
                return a_ - b_
            if o == 'Mult':
                return a_ * b_
            if o == 'FloorDiv':
                if b_ == 0:
                    raise PyExc('ZeroDivisionError')
                return a_ // b_
            if o == 'Mod':
                if b_ == 0:
                    raise PyExc('ZeroDivisionError')
                return a_ % b_
            if o == 'Pow' and b_ >= 0:
                return a_ ** b_
        if isinstance(a, (BoolV, bool)) and isinstance(b, (BoolV, bool)) and o in ('BitAnd', 'BitOr'):
            x, y = tobool_term(a), tobool_term(b)
            return mkbool(T.band(x, y) if o == 'BitAnd' else T.bor(x, y), True)
        x, y = tonum(a), tonum(b)
        np_ = x.kind.startswith('np') or y.kind.startswith('np')
        isint = x.kind in ISINT and y.kind in ISINT and o != 'Div'
        kind = ('np' if np_ else '') + ('int' if isint else 'float')
        if o in ('Div', 'FloorDiv', 'Mod') and not np_:
            if self.decide(T.eq0(y.p)):
                raise PyExc('ZeroDivisionError')
        p = self.scalar_op(o, x.p, y.p)
        if isint and kind == 'int':
            return mkint(p)
        return Num(p, kind)

    def scalar_op(self, o, p, q):
        if o == 'Add':
            return p + q
        if o == 'Sub':
            return p - q
        if o == 'Mult':
            return p * q
        if o == 'Div':
            return p / q
        if o == 'Pow':
            if q.const is not None:
                return T.power(p, q.const)
            if p.const is not None and p.const > 0:
                return T.texp(T.mul(q, T.tlog(p)))
            return T.mkapp('pow', (p, q))
        if o == 'FloorDiv':
            return self.np.floor_term(self, p / q)
        if o == 'Mod':
            return p - q * self.np.floor_term(self, p / q)
        raise Unsupported('operator %s' % o)

    def arr_binop(self, o, a, b):
        if o == 'MatMult':
            return self.np.matmul(self, a, b)
        if o in ('BitAnd', 'BitOr'):
            return self.elementwise(lambda v: (T.band if o == 'BitAnd' else T.bor)(*v), [a, b], 'b')
        a, b = self.as_operand(a), self.as_operand(b)
        dta = self.dt(a) if isinstance(a, Arr) else ('i' if tonum(a).kind in ISINT else 'f')
        dtb = self.dt(b) if isinstance(b, Arr) else ('i' if tonum(b).kind in ISINT else 'f')
        dt = 'f' if 'f' in (dta, dtb) or o == 'Div' else 'i'

        def f(v):
            x, y = [T.ind(z) if isinstance(z, Bool) else z for z in v]
            return self.scalar_op(o, x, y)
        return self.elementwise(f, [a, b], dt)

    def e_Compare(self, e, env, mod):
        left = self.eval(e.left, env, mod)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env, mod)
            r = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            if isinstance(r, (bool, BoolV)):
                res = r if res is None else mkbool(T.band(tobool_term(res), tobool_term(r)))
                if res is False:
                    return False
            else:
                if not self.truth(r):
                    return False
                res = True if res is None else res
            left = right
        return res

    def compare(self, o, a, b):
        if o in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if o == 'Is' else not r
        if o in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, BoolV):
                return r if o == 'In' else mkbool(T.bnot(r.b))
            return r if o == 'In' else not r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of opaque value')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return o == 'NotEq'
            fn = {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge, 'Eq': T.eq, 'NotEq': lambda x, y: T.bnot(T.eq(x, y))}[o]

            def f(v):
                x, y = v
                if isinstance(x, Bool) and isinstance(y, Bool):
                    q = T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y)))
                    if o == 'Eq':
                        return q
                    if o == 'NotEq':
                        return T.bnot(q)
                x, y = [T.ind(z) if isinstance(z, Bool) else z for z in v]
                return fn(x, y)
            return self.elementwise(f, [a, b], 'b')
        if o in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            if isinstance(r, BoolV):
                return r if o == 'Eq' else mkbool(T.bnot(r.b), r.np)
            return r if o == 'Eq' else not r
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[o]
        if isnum(a) and isnum(b):
            x, y = tonum(a), tonum(b)
            np_ = x.kind.startswith('np') or y.kind.startswith('np')
            fn = {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[o]
            return mkbool(fn(x.p, y.p), np_)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyExc('TypeError', 'comparison')
        raise Unsupported('compare %r %r' % (a, b))

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
            if isinstance(a, BoolV) and isinstance(b, bool):
                return self.decide(a.b) == b
            if isinstance(b, BoolV) and isinstance(a, bool):
                return self.decide(b.b) == a
            return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
        if isinstance(a, (Arr, ListV, ObjV)) and type(a) is type(b):
            return a.cell == b.cell and getattr(a, 'view', None) == getattr(b, 'view', None)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a is b or a == b

    def equal(self, a, b):
        if isnum(a) and isnum(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            x, y = tonum(a), tonum(b)
            return mkbool(T.eq(x.p, y.p), x.kind.startswith('np') or y.kind.startswith('np'))
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b if type(a) is type(b) else False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = T.TRUE
            for x, y in zip(a, b):
                r = T.band(r, tobool_term(self.equal(x, y)))
            return mkbool(r)
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.cell == b.cell:
                return True
            if not isinstance(a, DictV) and not isinstance(b, DictV):
                x, y = self.items(a), self.items(b)
                if self.concrete(x) and self.concrete(y):
                    return self.equal(tuple(x), tuple(y))
            raise Unsupported('list comparison')
        if type(a) is not type(b):
            return False
        if isinstance(a, (TypeV,)):
            return a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, str):
            if not isinstance(x, str):
                raise Unsupported('in str')
            return x in c
        if isinstance(c, DictV):
            d = self.ditems(c)
            return self.find(d, self.key(x)) in d
        s = self.iterate(c)
        if s.items is None:
            raise Unsupported('membership in symbolic sequence')
        r = T.FALSE
        for y in s.items:
            q = self.equal(x, y)
            if isinstance(q, Arr):
                raise Unsupported('membership')
            r = T.bor(r, tobool_term(q))
            if r.kind == 'T':
                return True
        return mkbool(r)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e, env, mod):
        return self.getattr(self.eval(e.value, env, mod), e.attr)

    def getattr(self, o, n):
        if isinstance(o, ModuleV):
            if n in o.ns:
                return o.ns[n]
            if o.real:
                m = self.module(o.name + '.' + n)
                if m is not None:
                    return m
                raise PyExc('AttributeError', '%s.%s' % (o.name, n))
            return self.np.library_attr(self, o, n)
        if isinstance(o, ObjV):
            a = self.attrs(o)
            if n in a:
                if type(a[n]).__name__ == 'PHV':
                    from . import loops
                    loops.read_ph(a[n])
                return a[n]
            if isinstance(o.cls, ClassV):
                v, c = o.cls.lookup(n)
                if c is not None:
                    return self.bind(v, o)
            r = self.np.obj_attr(self, o, n)
            if r is not None:
                return r
            raise PyExc('AttributeError', n)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if n in c.attrs:
                    return self.bind(c.attrs[n], o.obj)
            if n == '__init__':
                return BuiltinV('object.__init__', lambda I, a, k: None)
            raise PyExc('AttributeError', n)
        if isinstance(o, ClassV):
            v, c = o.lookup(n)
            if c is None:
                if n == '__name__':
                    return o.name
                raise PyExc('AttributeError', n)
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ('staticmethod',):
                return v[1]
            return v
        if isinstance(o, FuncV):
            if n in o.attrs:
                return o.attrs[n]
            if n == '__annotations__':
                a = o.node.args
                d = {}
                for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                    if x.annotation is not None:
                        d[x.arg] = Opaque('annotation')
                if getattr(o.node, 'returns', None) is not None:
                    d['return'] = Opaque('annotation')
                return self.new_dict(d)
            if n == '__code__':
                a = o.node.args
                return self.new_obj(TypeV('code'), {'co_argcount': len(a.posonlyargs + a.args)})
            if n in ('__name__', '__qualname__'):
                return o.name
            if n == '__defaults__':
                return tuple(o.defaults)
            raise PyExc('AttributeError', n)
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + n)
        r = self.np.value_attr(self, o, n)
        if r is None:
            raise PyExc('AttributeError', '%r has no attribute %s' % (o, n))
        return r[0]

    def bind(self, v, o):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'staticmethod':
            return v[1]
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'property':
            return self.call(v[1], [o], {})
        return v

    def setattr(self, o, n, v):
        if isinstance(o, ObjV):
            self.aset(o, n, v)
            return
        if isinstance(o, FuncV):
            if self.frames and not n.startswith('__'):
                raise Unsupported('function attribute assigned in a function')
            o.attrs[n] = v
            return
        if isinstance(o, Arr) and n == 'shape':
            raise Unsupported('assignment to shape')
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, e, env, mod):
        o = self.eval(e.value, env, mod)
        return self.getitem(o, self.eval_index(e.slice, env, mod))

    def eval_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, env, mod) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env, mod) for x in s.elts)
        return self.eval(s, env, mod)

    def norm_index(self, ix, n, exc='index out of range'):
        """python index value -> Poly in [0, n)"""
        if isinstance(ix, Num) and ix.kind not in ISINT:
            raise PyExc('IndexError' if ix.kind.startswith('np') else 'TypeError', 'float index')
        i = tonum(ix).p
        if i.const is not None and i.const < 0:
            j = n + i
            if self.decide(T.ge0(j)):
                return j
            raise PyExc('IndexError', exc)
        inr = T.in_range(i, n)
        if inr.kind == 'T' or self.decide(inr):
            return i
        if i.const is None and self.decide(T.band(T.lt(i, T.ZERO), T.ge0(n + i))):
            return n + i
        raise PyExc('IndexError', exc)

    def slice_bounds(self, s, n):
        """-> (start, length, step) with the slice clipped to [0, n]"""
        step = 1
        if s.step is not None:
            st = tonum(s.step).p.const
            if st is None:
                raise Unsupported('symbolic slice step')
            step = int(st)
        if step == -1 and s.lo is None and s.hi is None:
            return n - T.ONE, n, -1
        if step < 1:
            raise Unsupported('negative slice step')

        def clip(v, dflt):
            if v is None:
                return dflt
            if isinstance(v, Num) and v.kind not in ISINT:
                raise PyExc('TypeError', 'slice indices must be integers')
            p = tonum(v).p
            if p.const is not None:
                if p.const < 0:
                    p = n + p
                    return p if self.decide(T.ge0(p)) else T.ZERO
            elif not self.decide(T.ge0(p)):
                p = n + p
                return p if self.decide(T.ge0(p)) else T.ZERO
            if p is T.ZERO:
                return p
            return p if self.decide(T.le(p, n)) else n
        lo = clip(s.lo, T.ZERO)
        hi = clip(s.hi, n)
        ln = hi - lo
        if ln.const is not None:
            if ln.const < 0:
                ln = T.ZERO
        elif lo is not T.ZERO and not self.decide(T.ge0(ln)):
            ln = T.ZERO
        if step > 1:
            if ln.const is None:
                raise Unsupported('strided symbolic slice')
            ln = K((int(ln.const) + step - 1) // step)
        return lo, ln, step

    def getitem(self, o, ix):
        if isinstance(o, Arr):
            return self.np.arr_getitem(self, o, ix)
        if isinstance(o, DictV):
            d = self.ditems(o)
            k = self.find(d, self.key(ix))
            if k not in d:
                raise PyExc('KeyError', str(k))
            if type(d[k]).__name__ == 'PHV':
                from . import loops
                loops.read_ph(d[k])
            return d[k]
        if isinstance(o, (tuple, ListV)):
            items = o if isinstance(o, tuple) else self.items(o)
            if isinstance(ix, SliceV):
                n = self.seq_len(items)
                if self.concrete(items):
                    def c(v):
                        if v is None:
                            return None
                        p = tonum(v).p.const
                        if p is None:
                            raise Unsupported('symbolic slice of list')
                        return int(p)
                    r = items[c(ix.lo):c(ix.hi):c(ix.step)]
                    return tuple(r) if isinstance(o, tuple) else self.new_list(r)
                lo, ln, step = self.slice_bounds(ix, n)
                v = T.fresh('e', 'I', '>=', ln)
                if len(items) == 1 and isinstance(items[0], Seg):
                    sg = items[0]
                    return self.new_list([Seg(ln, v, self.vsubst(sg.tmpl, {sg.var: lo + T.scale(P(v), step)}))])
                raise Unsupported('slice of symbolic list')
            n = self.seq_len(items)
            return self.list_get(items, self.norm_index(ix, n, 'list index out of range'))
        if isinstance(o, str):
            if isinstance(ix, int):
                try:
                    return o[ix]
                except IndexError:
                    raise PyExc('IndexError')
            raise Unsupported('string slice')
        if isinstance(o, SeqV):
            if o.items is not None:
                return self.getitem(tuple(o.items), ix)
            return o.elem(self.norm_index(ix, o.n))
        if isinstance(o, (Opaque, TypeV)):
            return Opaque('subscript')
        if isinstance(o, (Num, int, BoolV)):
            raise PyExc('TypeError' if not (isinstance(o, Num) and o.kind.startswith('np')) else 'IndexError', 'not subscriptable')
        if o is None:
            raise PyExc('TypeError', 'NoneType not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            return self.np.arr_setitem(self, o, ix, v)
        if isinstance(o, DictV):
            self.dset(o, self.find(self.ditems(o), self.key(ix), False), v)
            return
        if isinstance(o, ListV):
            items = self.items(o)
            if self.concrete(items):
                i = self.norm_index(ix, K(len(items)))
                if i.const is not None:
                    l = list(items)
                    l[int(i.const)] = v
                    self.set_items(o, l)
                    return
        raise Unsupported('setitem on %r' % (o,))

    # ------------------------------------------------------------ comprehension
    def e_ListComp(self, e, env, mod):
        from . import loops
        return loops.run_comp(self, e, env, mod)

    def e_GeneratorExp(self, e, env, mod):
        from . import loops
        return loops.run_comp(self, e, env, mod)

    def e_DictComp(self, e, env, mod):
        if len(e.generators) != 1:
            raise Unsupported('dict comprehension')
        g = e.generators[0]
        s = self.iterate(self.eval(g.iter, env, mod))
        if s.items is None:
            raise Unsupported('symbolic dict comprehension')
        d = {}
        for x in s.items:
            ce = Env(env, env.globals_)
            self.assign(g.target, x, ce, mod)
            if all(self.truth(self.eval(c, ce, mod)) for c in g.ifs):
                d[self.find(d, self.key(self.eval(e.key, ce, mod)))] = self.eval(e.value, ce, mod)
        return self.new_dict(d)

    def e_Starred(self, e, env, mod):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, env, mod):
        v = self.eval(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.frames[-1]
            selfv = f.vars.get(self.cur_func[-1].node.args.args[0].arg)
            return SuperV(self.cur_func[-1].attrs['__class__'], selfv)
        fn = self.eval(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env, mod)
                s = self.iterate(v)
                if s.items is None:
                    args.append(('*', s))
                else:
                    args.extend(s.items)
            else:
                args.append(self.eval(a, env, mod))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env, mod)
            if k.arg is None:
                for kk, vv in self.ditems(v).items():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw)

    cur_func = []

    def call(self, fn, args, kw):
        if isinstance(fn, BoundV):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, BuiltinV):
            self.lib_used.add(fn.name)
            return fn.fn(self, args, kw)
        if isinstance(fn, OpaqueFn):
            return fn.fn(self, args, kw)
        if isinstance(fn, FuncV):
            if fn.contract is not None and fn.contract in self.summaries:
                self.used[fn.contract] = self.used.get(fn.contract, 0) + 1
                return self.summaries[fn.contract](self, self.bind_args(self.inner(fn), args, kw))
            return self.call_body(fn, args, kw)
        if isinstance(fn, ClassV):
            o = self.new_obj(fn, {})
            init, c = fn.lookup('__init__')
            if c is not None:
                self.call(init, [o] + list(args), kw)
            elif args or kw:
                raise PyExc('TypeError', 'object takes no arguments')
            return o
        if isinstance(fn, TypeV):
            return self.np.call_type(self, fn, args, kw)
        if isinstance(fn, Opaque):
            return Opaque(fn.name + '()')
        if isinstance(fn, ObjV) and isinstance(fn.cls, ClassV):
            v, c = fn.cls.lookup('__call__')
            if c is not None:
                return self.call(v, [fn] + list(args), kw)
        if fn is None or isinstance(fn, (int, str, Num, tuple, ListV, Arr)):
            raise PyExc('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (fn,))

    def inner(self, fn):
        while '__wrapped__' in fn.attrs:
            fn = fn.attrs['__wrapped__']
        return fn

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if any(isinstance(x, tuple) and len(x) == 2 and x[0] == '*' and isinstance(x[1], SeqV) for x in args):
            raise Unsupported('symbolic star arguments')
        if len(args) > len(names) and a.vararg is None:
            raise PyExc('TypeError', 'too many positional arguments')
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwnames:
                if k in vals:
                    raise PyExc('TypeError', 'multiple values for %s' % k)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', 'unexpected keyword %s' % k)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict(extra)
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], fn.defaults):
            vals.setdefault(n, d)
        for n in kwnames:
            if n not in vals:
                if n in fn.kwdefaults:
                    vals[n] = fn.kwdefaults[n]
                else:
                    raise PyExc('TypeError', 'missing keyword-only argument')
        for n in names:
            if n not in vals:
                raise PyExc('TypeError', 'missing argument %s' % n)
        return vals

    def call_body(self, fn, args, kw):
        vals = self.bind_args(fn, args, kw)
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported('call depth (recursion without a contract)')
        env = Env(fn.env, fn.module.ns)
        env.vars = vals
        self.functions.add((fn.qual or fn.name))
        self.frames.append(env)
        cf = self.cur_func
        self.cur_func = cf + [fn]
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, env, fn.module)
            for x in ast.walk(fn.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported('generator function')
            try:
                self.exec_block(fn.node.body, env, fn.module)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.cur_func = cf
            if env in self.frames:
                del self.frames[self.frames.index(env):]
