"""Loops.  Loops over known short sequences are executed iteration by iteration; every other loop is
summarised: the body is executed once at a generic iteration k with the loop-carried state abstracted by
placeholders, and the value of every carried slot after j iterations is obtained by an induction schema
(sum, running minimum with co-updated slots, list append, array updates whose reads precede writes, row
append, iterated filter, plain overwrite, or a Skolem recurrence).  Each schema is a theorem about the
recurrence S(0)=init, S(k+1)=body(k,S(k)); no bound on the number of iterations is assumed.
"""
import ast
from fractions import Fraction
from . import terms as T
from . import prove
from .terms import P, K, Poly, Bool, Lam
from .values import *
from .interp import Interp, BreakEx, ContinueEx, ReturnEx, Env, UNROLL


class NeedPH(BaseException):
    def __init__(self, key, uid):
        self.key, self.uid = key, uid


class PHV:
    """marker bound to a loop-carried variable that has not been read yet"""

    def __init__(self, key, uid):
        self.key, self.uid = key, uid


def read_ph(v):
    raise NeedPH(v.key, v.uid)


# ------------------------------------------------------------------ rewriting of function symbols
def rewrite(t, fa, fb=None):
    """replace applications: fa(atom)->Poly|None, fb(bapp Bool)->Bool|None; arguments rewritten first"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = go_(t)
            memo[t] = r
        return r

    def go_(t):
        if isinstance(t, Poly):
            parts = []
            same = True
            for m, c in t.mons.items():
                r = K(c)
                for f, e in m:
                    q = goa(f)
                    r = T.mul(r, T.power(q, e))
                parts.append(r)
            return T.addmany(parts)
        if isinstance(t, Bool):
            k = t.kind
            if k in ('ge', 'gt', 'eq'):
                return {'ge': T.ge0, 'gt': T.gt0, 'eq': T.eq0}[k](go(t.args[0]))
            if k == 'not':
                return T.bnot(go(t.args[0]))
            if k == 'and':
                return T.band(*[go(x) for x in t.args])
            if k == 'or':
                return T.bor(*[go(x) for x in t.args])
            if k == 'bapp':
                b = T.bapp(t.name, [go(x) if isinstance(x, (Poly, Bool, Lam)) else x for x in t.args])
                if fb is not None:
                    r = fb(b)
                    if r is not None:
                        return r
                return b
            if k == 'all':
                rs, body = t.args
                vs = [T.fresh('q', 'I', '>=', r) for r in rs]
                b = T.subst(body, {T.BV(t.name + 1 + i): P(v) for i, v in enumerate(vs)})
                return T.forall(vs, [go(r) for r in rs], go(b))
            return t
        if isinstance(t, Lam):
            vs = [T.fresh('l', 'I', '>=', s) for s in t.shape]
            b = T.lam_open(t, [P(v) for v in vs])
            return T.mklam(vs, [go(s) for s in t.shape], go(b))
        return t

    def goa(f):
        k = f.kind
        if k in ('var', 'bv'):
            r = fa(f)
            return P(f) if r is None else r
        if k == 'app':
            p = T.mkapp(f.name, [go(x) if isinstance(x, (Poly, Bool, Lam)) else x for x in f.args], f.sort, f.sign)
            a = T._as_atom(p) if p.const is None else None
            if a is not None and a.kind == 'app':
                r = fa(a)
                if r is not None:
                    return r
            return p
        if k == 'P':
            return go(f.args[0])
        if k == 'ind':
            return T.ind(go(f.args[0]))
        if k == 'sum':
            vs, rs, fs = T.open_sum(f)
            body = T.ONE
            for g, e in fs:
                body = T.mul(body, T.power(goa(g), e))
            for v, n in reversed(list(zip(vs, rs))):
                body = T.tsum(v, go(n), body)
            return body
        raise AssertionError(k)
    return go(t)


def symnames(t, acc=None):
    """names of all variables and function symbols in a term"""
    acc = set() if acc is None else acc
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if isinstance(t, Poly):
            for m in t.mons:
                for f, e in m:
                    goa(f)
        elif isinstance(t, Bool):
            if t.kind == 'bapp':
                acc.add(t.name)
            if t.kind == 'bvar':
                acc.add(t.name)
            for x in (t.args if t.kind != 'all' else tuple(t.args[0]) + (t.args[1],)):
                if isinstance(x, (Poly, Bool, Lam)):
                    go(x)
        elif isinstance(t, Lam):
            for s in t.shape:
                go(s)
            go(t.body)

    def goa(f):
        if f in seen:
            return
        seen.add(f)
        if f.kind == 'var':
            acc.add(f.name)
        elif f.kind == 'app':
            acc.add(f.name)
            for x in f.args:
                if isinstance(x, (Poly, Bool, Lam)):
                    go(x)
        elif f.kind in ('P', 'ind'):
            go(f.args[0])
        elif f.kind == 'sum':
            for r in f.args[0]:
                go(r)
            for g, e in f.args[1]:
                goa(g)
    go(t)
    return acc


def vmap(I, v, fn):
    """apply a term transformer to a frozen value"""
    if isinstance(v, Num):
        return Num(fn(v.p), v.kind)
    if isinstance(v, BoolV):
        return mkbool(fn(v.b), v.np)
    if isinstance(v, FArr):
        return FArr(fn(v.lam), v.dt)
    if isinstance(v, tuple):
        return tuple(vmap(I, x, fn) for x in v)
    if isinstance(v, FList):
        return FList(tuple(vmap(I, x, fn) for x in v.items))
    if isinstance(v, FDict):
        return FDict({k: vmap(I, x, fn) for k, x in v.d.items()})
    if isinstance(v, FObj):
        return FObj(v.cls, {k: vmap(I, x, fn) for k, x in v.d.items()})
    if isinstance(v, Seg):
        return Seg(fn(v.n), v.var, vmap(I, v.tmpl, fn))
    if isinstance(v, PHSeg):
        return v
    if isinstance(v, Arr) and v.view is not None:
        axes, sh = v.view
        na = tuple(('fix', fn(e[1])) if e[0] == 'fix' else ('ax', e[1], fn(e[2]), e[3]) for e in axes)
        return Arr(v.cell, (na, tuple(fn(s) for s in sh)), v.ro)
    return v


def vterms(v, out):
    if isinstance(v, Num):
        out.append(v.p)
    elif isinstance(v, BoolV):
        out.append(v.b)
    elif isinstance(v, FArr):
        out.append(v.lam)
    elif isinstance(v, tuple):
        for x in v:
            vterms(x, out)
    elif isinstance(v, FList):
        for x in v.items:
            vterms(x, out)
    elif isinstance(v, (FDict, FObj)):
        for x in v.d.values():
            vterms(x, out)
    elif isinstance(v, Seg):
        out.append(v.n)
        vterms(v.tmpl, out)
    elif isinstance(v, Arr) and v.view is not None:
        for e in v.view[0]:
            out.append(e[1] if e[0] == 'fix' else e[2])
        out.extend(v.view[1])


def vnames(v):
    out = []
    vterms(v, out)
    acc = set()
    for t in out:
        symnames(t, acc)
    return acc


# ------------------------------------------------------------------ entry points
def run_for(I, seq, st, env, mod):
    items = seq.items
    if items is None and seq.n.const is not None and seq.n.const <= UNROLL:
        items = [seq.elem(K(i)) for i in range(int(seq.n.const))]
    if items is not None and len(items) > 4 * UNROLL:
        raise Unsupported('long concrete loop')
    if items is not None:
        broke = False
        for x in items:
            I.assign(st.target, x, env, mod)
            try:
                I.exec_block(st.body, env, mod)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            I.exec_block(st.orelse, env, mod)
        return

    def body(k):
        I.assign(st.target, seq.elem(k), env, mod)
        I.exec_block(st.body, env, mod)
    stores = set()
    for s in st.body + [st.target]:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores.add(x.id)
    sym_loop(I, seq.n, body, env, stores)
    I.exec_block(st.orelse, env, mod)


def run_while(I, st, env, mod):
    t = st.test
    # counting loop:  while i < n: ...; i += 1
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE)) \
            and st.body and isinstance(st.body[-1], ast.AugAssign) and isinstance(st.body[-1].target, ast.Name) \
            and st.body[-1].target.id == t.left.id and isinstance(st.body[-1].op, ast.Add) \
            and isinstance(st.body[-1].value, ast.Constant) and st.body[-1].value.value == 1:
        i = t.left.id
        rest = st.body[:-1]
        stores = set()
        hascont = False
        for s in rest:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    stores.add(x.id)
                if isinstance(x, ast.Continue):
                    hascont = True
        names = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
        start = env.vars.get(i)
        if i not in stores and not (names & stores) and not hascont and isinstance(start, (int, Num)) and tonum(start).kind in ISINT:
            lim = I.eval(t.comparators[0], env, mod)
            if isinstance(lim, (int, Num)) and tonum(lim).kind in ISINT:
                hi = tonum(lim).p + (T.ONE if isinstance(t.ops[0], ast.LtE) else T.ZERO)
                lo = tonum(start).p
                n = hi - lo
                if n.const is None or n.const > UNROLL:
                    if not I.decide(T.gt0(n)):
                        I.exec_block(st.orelse, env, mod)
                        return

                    def body(k):
                        env.vars[i] = mkint(lo + k)
                        I.exec_block(rest, env, mod)
                    sym_loop(I, n, body, env, stores)
                    env.vars[i] = mkint(hi)
                    I.exec_block(st.orelse, env, mod)
                    return
    for it in range(UNROLL):
        if not I.truth(I.eval(st.test, env, mod)):
            I.exec_block(st.orelse, env, mod)
            return
        if it >= 12 and not isinstance(st.test, ast.Constant) and I.ctxs and I.ctxs[-1].alts:
            raise Unsupported('symbolic while loop')
        try:
            I.exec_block(st.body, env, mod)
        except BreakEx:
            return
        except ContinueEx:
            continue
    raise Unsupported('while loop')


def run_comp(I, e, env, mod):
    """list comprehension / generator expression"""
    def gen(gs, cenv, acc):
        g = gs[0]
        s = I.iterate(I.eval(g.iter, cenv, mod))
        items = s.items
        if items is None and s.n.const is not None and s.n.const <= UNROLL:
            items = [s.elem(K(i)) for i in range(int(s.n.const))]
        if items is not None:
            for x in items:
                ce = Env(cenv, cenv.globals_)
                I.assign(g.target, x, ce, mod)
                if all(I.truth(I.eval(c, ce, mod)) for c in g.ifs):
                    if len(gs) > 1:
                        gen(gs[1:], ce, acc)
                    else:
                        I.set_items(acc, I.items(acc) + (I.eval(e.elt, ce, mod),))
            return
        if g.ifs or len(gs) > 1:
            raise Unsupported('filtered or nested symbolic comprehension')

        def body(k):
            ce = Env(cenv, cenv.globals_)
            I.assign(g.target, s.elem(k), ce, mod)
            v = I.eval(e.elt, ce, mod)
            I.set_items(acc, I.items(acc) + (v,))
        sym_loop(I, s.n, body, cenv, set())
    acc = I.new_list([])
    gen(e.generators, env, acc)
    return acc


def run_map(I, fn, seqs):
    n = I.np.zip_len(I, [s.n for s in seqs])
    acc = I.new_list([])

    def body(k):
        v = I.call(fn, [s.elem(k) for s in seqs], {})
        I.set_items(acc, I.items(acc) + (v,))
    sym_loop(I, n, body, None, set())
    return I.iterate(acc)


# ------------------------------------------------------------------ the summariser
class Slot:
    def __init__(self, key, init):
        self.key, self.init = key, init
        self.mode = None        # num | arr | grow | filter | list
        self.names = set()      # placeholder symbol names
        self.kind = None
        self.upd = []           # [(decs, frozen value or KEEP)]
        self.S = None           # fn(j Poly) -> frozen value / content
        self.nonneg = False


KEEP = object()


def sym_loop(I, n, body, env, stores):
    if n.const is not None and n.const <= 0:
        return
    if not I.decide(T.gt0(n)):
        return
    T._varcount[0] += 1
    uid = T._varcount[0]
    kv = T.fresh('k', 'I', '>=', n)
    k = P(kv)
    base = I.save()
    nfr = len(I.frames)
    promoted = {}            # key -> mode
    cells = {}               # heap placeholders: key -> mode
    for attempt in range(24):
        I.restore(base)
        slots = {}
        try:
            res = attempt_body(I, n, kv, k, body, env, stores, promoted, cells, slots, uid, base)
        except NeedPH as q:
            if q.uid != uid:
                raise           # a variable carried by an enclosing loop
            if q.key in promoted:
                raise Unsupported('loop-carried %s' % (q.key,))
            # a variable holding a reference is first taken to keep that reference (its cell may change)
            promoted[q.key] = 'ref' if isinstance(init_value(base, q.key), (Arr, ListV, ObjV)) else 'auto'
            continue
        if res is None:
            continue
        break
    else:
        raise Unsupported('loop summary did not stabilise')
    finish(I, n, kv, k, res, slots, base, env, stores, uid)


def init_value(base, key):
    if key[0] == 'var':
        for f, vs in base[4]:
            if f is key[1]:
                return vs.get(key[2], Undef())
        return key[1].vars.get(key[2], Undef())
    h = base[0][key[1]]
    if key[0] in ('arr', 'list'):
        return h
    return h[1].get(key[2], Undef())


def place(I, slot, mode, k, uid, kv):
    """value of the placeholder for a slot, by mode"""
    init = slot.init
    if isinstance(init, PHV):
        read_ph(init)
    if slot.key[0] == 'arr':
        _, lam, dt = init
        nm = 'ph%d_c%d' % (uid, slot.key[1])
        slot.names.add(nm)
        slot.mode = 'cell'
        return I_content(I, lam.shape, nm, dt)
    if slot.key[0] == 'list':
        slot.mode = 'list'
        return ('list', tuple(init[1]) + (PHSeg(k),))
    nm = 'ph%d_%s' % (uid, slot.key[2])
    if isinstance(init, (int, Num)) and not isinstance(init, bool):
        t = tonum(init)
        kind = mode[1] if isinstance(mode, tuple) else t.kind
        slot.mode, slot.kind = 'num', kind
        slot.names.add(nm)
        v = T.Var(nm, 'I' if kind in ISINT else 'R')
        # hypothesis, checked after the attempt: a counter or index that starts at or above 0 stays there
        if kind in ISINT and t.kind in ISINT and mode != 'signed' and prove.entails(I.facts, T.ge0(t.p)):
            slot.nonneg = True
            I.assume(T.ge0(P(v)))
        return Num(P(v), kind)
    if isinstance(init, Arr):
        lam, dt = I.lam(init), I.dt(init)
        slot.ilam, slot.dt = lam, dt
        if mode == 'grow':
            slot.mode = 'grow'
            sh = (lam.shape[0] + k,) + tuple(lam.shape[1:])
            slot.names.add(nm)
            a = I.arr_new(*I_content(I, sh, nm, dt)[1:])
            return a
        if mode == 'filter':
            slot.mode = 'filter'
            mk = filt_mask(uid, k, lam.shape[0])
            slot.names.add('phm%d' % uid)
            return I.build((I.np.cnt_term(mk),) + tuple(lam.shape[1:]),
                           lambda ix: T.lam_open(lam, [I.np.nth_term(mk, ix[0])] + list(ix[1:])), dt)
        slot.mode = 'arr'
        slot.names.add(nm)
        return I.arr_new(*I_content(I, lam.shape, nm, dt)[1:])
    if isinstance(init, ListV) and not isinstance(init, DictV):
        slot.mode = 'rlist'
        slot.iitems = I.items(init)
        return I.new_list(tuple(slot.iitems) + (PHSeg(k),))
    if isinstance(init, Undef):
        raise Unsupported('variable %s read before assignment in loop' % (slot.key[2],))
    raise Unsupported('loop-carried %s of unsupported kind %r' % (slot.key[2], init))


def filt_mask(uid, k, n):
    t = T.fresh('t', 'I', '>=', n)
    return T.mklam([t], [n], T.bapp('phm%d' % uid, (k, P(t))))


def I_content(I, shape, nm, dt):
    vs = [T.fresh('i', 'I', '>=', s) for s in shape]
    ix = [P(v) if s is not T.ONE else T.ZERO for v, s in zip(vs, shape)]
    if dt == 'b':
        b = T.bapp(nm, tuple(ix))
    else:
        b = P(T.App(nm, tuple(ix), 'I' if dt == 'i' else 'R'))
    return ('arr', T.mklam(vs, shape, b), dt)


def attempt_body(I, n, kv, k, body, env, stores, promoted, cells, slots, uid, base):
    # install placeholders
    if env is not None:
        for nm in stores:
            key = ('var', env, nm)
            init = init_value(base, key)
            if isinstance(init, Undef) and nm not in env.vars:
                # a variable of an enclosing scope or first assigned here: leave unbound
                if key in promoted:
                    raise Unsupported('variable %s read before assignment in loop' % nm)
                continue
            s = Slot(key, init)
            slots[key] = s
            if promoted.get(key) == 'ref':
                env.vars[nm] = init
                s.ph, s.mode = init, 'ref'
            elif key in promoted:
                env.vars[nm] = place(I, s, promoted[key], k, uid, kv)
                s.ph = env.vars[nm]
            else:
                env.vars[nm] = PHV(key, uid)
                s.ph = env.vars[nm]
    for key, mode in cells.items():
        s = Slot(key, init_value(base, key))
        slots[key] = s
        if key[0] in ('arr', 'list'):
            I.heap[key[1]] = place(I, s, mode, k, uid, kv)
            s.ph = I.heap[key[1]]
        else:
            if promoted.get(key) == 'ref':
                v = s.init
                s.mode = 'ref'
            elif key in promoted:
                v = place(I, s, promoted[key], k, uid, kv)
            else:
                v = PHV(key, uid)
            kd, d = I.heap[key[1]]
            d = dict(d)
            d[key[2]] = v
            I.heap[key[1]] = (kd, d)
            s.ph = v
    cell_base = I.next_cell
    pre = I.save()
    pre_ghost = dict(I.ghost)
    I.loop_idx.append(k)
    obls0 = len(I.obls)
    try:
        def timed():
            # the clock at the start of an iteration: some later time
            p = pre_ghost.get('clock')
            I.ghost['clock'] = I.sym('clock') if p is None else p + I.sym('tick', 'R', '>=')
            return body(k)
        paths = I.explore(timed)
    finally:
        pass
    obls = I.obls[obls0:]
    del I.obls[obls0:]
    I.restore(pre)
    again = False
    ok = []
    exc = []
    for p in paths:
        if p.out[0] == 'exc':
            exc.append(p)
        elif p.out[0] == 'ok':
            ok.append(p)
        else:
            raise Unsupported('%s inside a loop of unknown length' % p.out[0])
    for key, s in slots.items():
        if s.mode == 'ref' and not all(same_val(slot_value(p.state, key), s.ph) for p in ok):
            promoted[key] = 'auto'
            again = True
    if again:
        return None
    # discover modified heap cells
    for p in ok:
        heap = p.state[0]
        for c, content in pre[0].items():
            nc = heap.get(c)
            if nc is content:
                continue
            if content[0] == 'arr':
                if nc[1] is content[1]:
                    continue
                key = ('arr', c)
                if c >= base[1]:
                    raise Unsupported('loop-carried variable both rebound and updated in place')
                if key not in cells:
                    cells[key] = 'arr'
                    again = True
            elif content[0] == 'list':
                if nc[1] == content[1]:
                    continue
                if c >= base[1]:
                    raise Unsupported('loop-carried variable both rebound and updated in place')
                key = ('list', c)
                if key not in cells:
                    cells[key] = 'list'
                    again = True
            else:
                for a in set(nc[1]) | set(content[1]):
                    x, y = nc[1].get(a), content[1].get(a)
                    if x is y and (a in nc[1]) == (a in content[1]):
                        continue
                    if same_val(x, y):
                        continue
                    if c >= base[1]:
                        raise Unsupported('loop-carried variable both rebound and updated in place')
                    key = (content[0], c, a)
                    if key not in cells:
                        cells[key] = 'auto'
                        again = True
    if again:
        return None
    # collect updates
    for key, s in slots.items():
        s.upd = []
        for p in ok:
            v = slot_value(p.state, key)
            if v is s.ph or (key[0] in ('arr', 'list') and v[1] is s.ph[1]) or same_val(v, s.ph):
                s.upd.append((p, KEEP))
                continue
            if isinstance(v, Undef):
                raise Unsupported('deleted slot')
            I.restore(p.state)
            if key[0] == 'arr':
                s.upd.append((p, FArr(v[1], v[2])))
            elif key[0] == 'list':
                s.upd.append((p, FList(tuple(fz(I, x, cell_base, cells) for x in v[1]))))
            else:
                s.upd.append((p, fz(I, v, cell_base, cells)))
    # variables first assigned in the body
    newvars = {}
    if env is not None:
        for nm in stores:
            key = ('var', env, nm)
            if key in slots:
                continue
            vals = []
            for p in ok:
                v = frame_var(p.state, env, nm)
                I.restore(p.state)
                vals.append((p, Undef() if isinstance(v, Undef) else fz(I, v, cell_base, cells)))
            newvars[nm] = vals
    ghost = {}
    for p in ok:
        for g, v in p.state[6].items():
            if pre_ghost.get(g) is not v and g not in ghost:
                ghost[g] = v
    I.restore(pre)
    # adjust hypotheses
    for key, s in slots.items():
        if s.nonneg and not all(v is KEEP or isinstance(v, (int, Num)) and prove.entails(p.facts, T.ge0(tonum(v).p)) for p, v in s.upd):
            promoted[key] = 'signed'
            again = True
        if s.mode == 'num':
            for p, v in s.upd:
                if isinstance(v, (int, Num)) and not isinstance(v, bool):
                    kd = tonum(v).kind
                    if (kd in ISINT) != (s.kind in ISINT) and s.kind in ISINT:
                        promoted[key] = ('kind', 'float')
                        again = True
        if s.mode in ('arr',):
            for p, v in s.upd:
                if isinstance(v, FArr):
                    sh0, sh1 = s.ilam.shape, v.lam.shape
                    if len(sh0) != len(sh1):
                        raise Unsupported('loop changes the rank of %s' % (key,))
                    d = sh1[0] - sh0[0]
                    if d.const is not None and d.const >= 1:
                        promoted[key] = 'grow'
                        again = True
                    else:
                        f = I.np.filt_info(I, sh1[0])
                        if f is not None and f.shape[0] is sh0[0]:
                            promoted[key] = 'filter'
                            again = True
    if again:
        return None
    return dict(ok=ok, exc=exc, obls=obls, newvars=newvars, ghost=ghost, pre=pre, cell_base=cell_base)


def same_val(x, y):
    if x is y:
        return True
    if isinstance(x, Arr) and isinstance(y, Arr):
        return x.cell == y.cell and x.view == y.view
    if isinstance(x, ListV) and isinstance(y, ListV):
        return x.cell == y.cell
    if isinstance(x, ObjV) and isinstance(y, ObjV):
        return x.cell == y.cell
    if isinstance(x, (int, str)) and type(x) is type(y):
        return x == y
    if isinstance(x, Num) and isinstance(y, Num):
        return x.p is y.p and x.kind == y.kind
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(same_val(a, b) for a, b in zip(x, y))
    return False


def frame_var(state, env, nm):
    for f, vs in state[4]:
        if f is env:
            return vs.get(nm, Undef())
    return Undef()


def slot_value(state, key):
    if key[0] == 'var':
        return frame_var(state, key[1], key[2])
    h = state[0][key[1]]
    if key[0] in ('arr', 'list'):
        return h
    return h[1].get(key[2], Undef())


def fz(I, v, cell_base, cells):
    """freeze a value of a body path: references to unmodified pre-loop cells stay references"""
    if isinstance(v, PHV):
        return v
    if isinstance(v, Arr):
        if v.cell < cell_base and ('arr', v.cell) not in cells:
            return v
        return FArr(I.lam(v), I.dt(v))
    if isinstance(v, DictV):
        if v.cell < cell_base and not any(c[1] == v.cell for c in cells):
            return v
        return FDict({k: fz(I, x, cell_base, cells) for k, x in I.ditems(v).items()})
    if isinstance(v, ListV):
        if v.cell < cell_base and ('list', v.cell) not in cells:
            return v
        return FList(tuple(x if isinstance(x, PHSeg) else Seg(x.n, x.var, x.tmpl) if isinstance(x, Seg) else fz(I, x, cell_base, cells) for x in I.items(v)))
    if isinstance(v, ObjV):
        if v.cell < cell_base:
            return v
        return FObj(v.cls, {k: fz(I, x, cell_base, cells) for k, x in I.attrs(v).items()})
    if isinstance(v, tuple):
        return tuple(fz(I, x, cell_base, cells) for x in v)
    return v


def cond_of(p):
    return T.band(*p.decs) if p.decs else T.TRUE


# ------------------------------------------------------------------ solving the recurrences
def finish(I, n, kv, k, res, slots, base, env, stores, uid):
    ok, exc = res['ok'], res['exc']
    I.restore(base)
    cnt = max([p.state[3] for p in ok + exc] + [I.counter]) + 1
    I.counter = cnt
    if not ok:
        # every path of the body raises: the first iteration raises
        p = exc[0]
        if len(exc) > 1:
            for q in exc[:-1]:
                if I.choose('loopexc'):
                    raise q.out[1]
            raise exc[-1].out[1]
        raise p.out[1]
    unresolved = {key: s for key, s in slots.items() if any(v is not KEEP for _, v in s.upd)}
    allnames = set()
    for s in slots.values():
        allnames |= s.names
    # slots never changed: their placeholder is the initial value
    resolved = {}
    fn_sub = {}      # symbol name -> fn(args) -> term
    pend = dict(slots)
    conds = [cond_of(p) for p in ok]
    facts_def = []

    def sub(t):
        if not fn_sub:
            return t
        def fa(a):
            f = fn_sub.get(a.name)
            return f(a.args) if f is not None else None
        def fb(b):
            f = fn_sub.get(b.name)
            return f(b.args) if f is not None else None
        if not (symnames(t) & set(fn_sub)):
            return t
        return rewrite(t, fa, fb)

    def resolve(s, S):
        """S(j) -> frozen value; register the substitution for the placeholder at iteration k"""
        s.S = S
        resolved[s.key] = s
        pend.pop(s.key, None)
        if s.mode == 'num' and s.names:
            nm, = s.names
            val = tonum(S(k)).p
            fn_sub[nm] = lambda a: val
        elif s.mode in ('arr', 'cell', 'grow') and s.names:
            nm, = s.names
            lam = S(k).lam
            fn_sub[nm] = lambda a: T.lam_open(lam, list(a))
        elif s.mode == 'filter':
            pass

    for key, s in list(pend.items()):
        if all(v is KEEP for _, v in s.upd):
            iv = s.init
            if s.mode == 'num':
                resolve(s, lambda j, iv=iv: iv)
            elif s.mode in ('arr', 'grow', 'filter'):
                I.restore(base)
                fa = FArr(s.ilam, s.dt)
                if s.mode == 'filter':
                    pend.pop(key)
                    s.S = lambda j, fa=fa: fa
                    continue
                resolve(s, lambda j, fa=fa: fa)
            elif s.mode == 'cell':
                fa = FArr(iv[1], iv[2])
                resolve(s, lambda j, fa=fa: fa)
            else:
                pend.pop(key)
                s.S = None
            s.unchanged = True
        else:
            s.unchanged = False
    # iterated filters
    fs = [s for s in pend.values() if s.mode == 'filter']
    if fs:
        solve_filters(I, n, kv, k, fs, conds, fn_sub, uid, sub)
        for s in fs:
            pend.pop(s.key)
            resolved[s.key] = s

    def names_left():
        r = set()
        for s in pend.values():
            r |= s.names
        return r

    def solve_all():
        progress = True
        while pend and progress:
            progress = False
            for key, s in list(pend.items()):
                if key not in pend:
                    continue
                ups = [(sub(c), KEEP if v is KEEP else vmap(I, v, sub)) for c, (p, v) in zip(conds, s.upd)]
                r = solve(I, n, kv, k, s, ups, names_left(), slots, conds, sub, pend, resolve)
                if r:
                    progress = True

    def name_conds():
        # choices that depend on slots not solved yet get a name: D(k) <=> condition at iteration k
        left, named = names_left(), {}
        for i, p in enumerate(ok):
            lits = []
            for b in p.decs:
                pos = b.kind != 'not'
                a = b if pos else b.args[0]
                if symnames(sub(a)) & left:
                    D = named.get(a)
                    if D is None:
                        nm = T.bnot(a)
                        if nm in named:
                            lits.append(T.bnot(named[nm]) if pos else named[nm])
                            continue
                        D = named[a] = T.bapp('PC%d_%d' % (uid, len(named)), tuple(I.loop_idx) + (k,))
                        facts_def.append(T.band(T.implies(D, a), T.implies(a, D)))
                    lits.append(D if pos else T.bnot(D))
                else:
                    lits.append(b)
            conds[i] = T.band(*lits) if lits else T.TRUE
        return bool(named)
    if any(s.mode == 'grow' for s in pend.values()):
        # row appends whose choices read the history itself
        if any((symnames(cond_of(p)) & s.names) for s in pend.values() if s.mode == 'grow' for p in ok):
            name_conds()
    solve_all()
    if pend and name_conds():
        solve_all()
    facts_def.extend(s.rowdef for s in slots.values() if getattr(s, 'rowdef', None) is not None)
    # Skolem recurrences for what is left
    for key, s in list(pend.items()):
        if key not in pend:
            continue
        ups = [(sub(c), KEEP if v is KEEP else vmap(I, v, sub)) for c, (p, v) in zip(conds, s.upd)]
        skolem(I, n, kv, k, s, ups, uid, resolve, facts_def, pend)
    # ---- facts exported from the body
    I.restore(base)
    I.counter = cnt
    live = []
    for p in ok:
        c = sub(cond_of(p))
        live.append((p, c))
    okdisj = T.bor(*[c for _, c in live])
    for f in facts_def:
        # definitional facts of Skolem symbols
        f2 = sub(f)
        if f2.kind == 'F':
            raise Unsupported('recurrence without a real solution')
        I.assume(T.forall([kv], [n], f2))
    exps = []
    for p, c in live:
        for f in p.facts:
            if f in p.decs:
                continue
            g = sub(f)
            if g.kind == 'T':
                continue
            exps.append(T.implies(c, g) if c.kind != 'T' else g)
    # ---- obligations of the body
    for (nm, facts, goal, note) in res['obls']:
        # first for arbitrary values of the carried slots, else for their solved values
        tags, taint = note[0], note[1]
        af, ag = note[2] if len(note) > 2 else (facts, goal)
        I.obls.append((nm, facts, goal, (tags, taint, ([sub(f) for f in af], sub(ag)))))
    # ---- exceptional exits
    for p in exc:
        fs_ = [sub(f) for f in p.facts]
        k0 = T.fresh('k0', 'I', '>=', n)
        fs0 = [T.subst(f, {kv: P(k0)}) for f in fs_]
        if any(f.kind == 'F' for f in fs0):
            continue
        if not prove.feasible(I.facts + fs0):
            continue
        if I.choose('loopexc'):
            for f in fs0:
                I.assume(f)
            raise p.out[1]
    if exc and okdisj.kind != 'T':
        I.assume(T.forall([kv], [n], okdisj))
    for g in exps:
        if kv in g.fv:
            I.assume(T.forall([kv], [n], g))
        else:
            I.assume(g)
    # ---- final state
    last = n - T.ONE
    for key, s in slots.items():
        if s.unchanged:
            continue
        if s.S is None:
            val = Undef()
            if key[0] == 'var':
                key[1].vars[key[2]] = val
            elif key[0] in ('obj', 'dict'):
                kd, d = I.heap[key[1]]
                d = dict(d)
                d[key[2]] = val
                I.heap[key[1]] = (kd, d)
            else:
                raise Unsupported('unsolved update of a container in a loop')
            continue
        v = s.S(n)
        if key[0] == 'arr':
            I.heap[key[1]] = ('arr', v.lam, v.dt)
        elif key[0] == 'list':
            I.heap[key[1]] = ('list', tuple(x if isinstance(x, (Seg, PHSeg)) else I.thaw(x) for x in v.items))
        elif key[0] == 'var':
            key[1].vars[key[2]] = unro(I.thaw(v))
        else:
            kd, d = I.heap[key[1]]
            d = dict(d)
            d[key[2]] = unro(I.thaw(v))
            I.heap[key[1]] = (kd, d)
    for nm, vals in res['newvars'].items():
        ups = [(c, v) for (p, c), (q, v) in zip(live, vals)]
        m = merge(I, ups, sub)
        if m is None:
            env.vars[nm] = Undef()
        else:
            env.vars[nm] = unro(I.thaw(I.vsubst(m, {kv: last})))
    for g, v in res['ghost'].items():
        if g == 'clock':
            p = I.ghost.get('clock')
            I.ghost[g] = I.sym('clock') if p is None else p + I.sym('tick', 'R', '>=')
            continue
        if g == 'grng_touched':
            I.ghost[g] = True
        elif g in ('grng_ctr', 'grng_seed'):
            I.ghost[g] = I.sym('rngpos', 'I', '>=')
        elif isinstance(v, (bool,)):
            I.ghost[g] = v
        else:
            I.ghost[g] = v


def unro(v):
    return v


def merge(I, ups, sub=None):
    """[(cond, frozen value)] -> one frozen value, or None"""
    if sub is not None:
        ups = [(c, v if v is KEEP else vmap(I, v, sub)) for c, v in ups]
    ups = [(c, v) for c, v in ups if c.kind != 'F']
    if not ups:
        return None
    if any(v is KEEP or isinstance(v, (Undef, PHV)) for _, v in ups):
        return None
    if len(ups) == 1:
        return ups[0][1]
    v0 = ups[0][1]
    if all(feq(v, v0) for _, v in ups[1:]):
        return v0
    if all(isinstance(v, (int, Num)) and not isinstance(v, bool) for _, v in ups):
        ns = [tonum(v) for _, v in ups]
        kinds = {x.kind for x in ns}
        kd = kinds.pop() if len(kinds) == 1 else ('float' if any(x not in ISINT for x in kinds) else 'int')
        r = T.ZERO
        for (c, _), x in zip(ups, ns):
            r = r + T.ind(c) * x.p
        return Num(r, kd)
    if all(isinstance(v, (bool, BoolV)) for _, v in ups):
        return mkbool(T.bor(*[T.band(c, tobool_term(v)) for c, v in ups]))
    if all(isinstance(v, tuple) for _, v in ups) and len({len(v) for _, v in ups}) == 1:
        out = []
        for i in range(len(v0)):
            m = merge(I, [(c, v[i]) for c, v in ups])
            if m is None:
                return None
            out.append(m)
        return tuple(out)
    if all(isinstance(v, (FArr, Arr)) for _, v in ups):
        fl = [(c, v if isinstance(v, FArr) else FArr(I.lam(v), I.dt(v))) for c, v in ups]
        l0 = fl[0][1].lam
        if all(len(v.lam.shape) == len(l0.shape) and all(a is b for a, b in zip(v.lam.shape, l0.shape)) for _, v in fl) \
                and all(v.dt == fl[0][1].dt for _, v in fl):
            vs = [T.fresh('i', 'I', '>=', s) for s in l0.shape]
            ix = [P(v) for v in vs]
            if fl[0][1].dt == 'b':
                b = T.bor(*[T.band(c, T.lam_open(v.lam, ix)) for c, v in fl])
            else:
                b = T.ZERO
                for c, v in fl:
                    b = b + T.ind(c) * T.lam_open(v.lam, ix)
            return FArr(T.mklam(vs, l0.shape, b), fl[0][1].dt)
        return None
    if all(isinstance(v, FList) for _, v in ups) and len({len(v.items) for _, v in ups}) == 1:
        out = []
        for i in range(len(v0.items)):
            xs = [(c, v.items[i]) for c, v in ups]
            if any(isinstance(x, (Seg, PHSeg)) for _, x in xs):
                if all(isinstance(x, PHSeg) for _, x in xs):
                    out.append(xs[0][1])
                    continue
                return None
            m = merge(I, xs)
            if m is None:
                return None
            out.append(m)
        return FList(tuple(out))
    if all(isinstance(v, FDict) for _, v in ups) and all(set(v.d) == set(v0.d) for _, v in ups):
        out = {}
        for kk in v0.d:
            m = merge(I, [(c, v.d[kk]) for c, v in ups])
            if m is None:
                return None
            out[kk] = m
        return FDict(out)
    return None


def feq(a, b):
    if a is b:
        return True
    if isinstance(a, FArr) and isinstance(b, FArr):
        return a.lam is b.lam and a.dt == b.dt
    if isinstance(a, FList) and isinstance(b, FList):
        return len(a.items) == len(b.items) and all(feq(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, FDict) and isinstance(b, FDict):
        return set(a.d) == set(b.d) and all(feq(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, PHSeg) and isinstance(b, PHSeg):
        return a.n is b.n
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return a.b is b.b
    if a is None or b is None:
        return a is b
    return same_val(a, b)


def scalarise(I, v):
    """length-1 array update of a scalar slot"""
    if isinstance(v, Arr):
        v = FArr(I.lam(v), I.dt(v))
    if isinstance(v, FArr) and all(s is T.ONE for s in v.lam.shape):
        b = T.lam_open(v.lam, [T.ZERO] * len(v.lam.shape))
        return Num(b, 'npfloat'), True
    return v, False


def prefix_ite(j, init, later):
    """value after j iterations for closed forms valid when j >= 1"""
    if j.const is not None:
        return init if j.const == 0 else later
    return None


def solve(I, n, kv, k, s, ups, left, slots, conds, sub, pend, resolve):
    key = s.key
    own = s.names
    other = left - own
    # --- list append
    if s.mode in ('list', 'rlist'):
        ini = tuple(s.init[1]) if s.mode == 'list' else tuple(s.iitems)
        ph_at = len(ini)
        tm = []
        for c, v in ups:
            if v is KEEP or not isinstance(v, FList):
                return unsolved(s, pend)
            its = v.items
            if len(its) != ph_at + 2 or not isinstance(its[ph_at], PHSeg) or not all(feq(a, b) or a is b for a, b in zip(its[:ph_at], ini)):
                if len(its) < ph_at + 1 or not isinstance(its[ph_at], PHSeg):
                    return unsolved(s, pend)
                if len(its) == ph_at + 2:
                    pass
                else:
                    raise Unsupported('loop appends %d elements per iteration' % (len(its) - ph_at - 1))
            x = its[ph_at + 1]
            if isinstance(x, (Seg, PHSeg)):
                raise Unsupported('loop extends a list by a symbolic run')
            tm.append((c, x))
        for c, x in tm:
            if (vnames(x) | symnames(c)) & left:
                return False
        m = merge(I, tm)
        if m is None:
            raise Unsupported('appended values cannot be merged')

        def S(j, m=m):
            v = T.fresh('e', 'I', '>=', j)
            return FList(tuple(ini) + (Seg(j, v, I.vsubst(m, {kv: P(v)})),))
        s.S = S
        pend.pop(key)
        return True
    # --- running minimum
    if s.mode == 'num':
        r = running_min(I, n, kv, k, s, ups, left, slots, conds, sub, pend, resolve)
        if r:
            return True
    vals = []
    amb = False
    for c, v in ups:
        if v is not KEEP and s.mode in (None, 'num') and isinstance(s.init, (int, Num)):
            v2, a = scalarise(I, v)
            if a:
                amb = True
            vals.append((c, v2 if s.mode == 'num' else v))
        else:
            vals.append((c, v))
    # --- accumulation
    if s.mode == 'num' and all(v is KEEP or isinstance(v, (int, Num)) for _, v in vals):
        nm, = own
        ph = P(T.Var(nm, 'I' if s.kind in ISINT else 'R'))
        d = T.ZERO
        okk = True
        for c, v in vals:
            if v is KEEP:
                continue
            dd = tonum(v).p - ph
            if symnames(dd) & own or symnames(c) & own:
                okk = False
                break
            d = d + T.ind(c) * dd
        if okk:
            if symnames(d) & other:
                return False
            init = tonum(s.init).p
            kinds = {tonum(v).kind for _, v in vals if v is not KEEP} | {s.kind}
            kd = s.kind if len(kinds) == 1 else ('npfloat' if 'npfloat' in kinds else 'float' if 'float' in kinds else s.kind)

            def S(j, d=d, init=init, kd=kd):
                v = T.fresh('s', 'I', '>=', j)
                t = init + T.tsum(v, j, T.subst(d, {kv: P(v)}))
                return mkint(t) if kd == 'int' else Num(t, kd)
            resolve(s, S)
            return True
    # --- array cells and same-shape rebinding
    if s.mode in ('cell', 'arr'):
        return solve_array(I, n, kv, k, s, vals, left, pend, resolve)
    if s.mode == 'grow':
        return solve_grow(I, n, kv, k, s, vals, left, pend, resolve)
    # --- overwrite on every path
    if any(v is KEEP for _, v in vals):
        if s.mode is None and not any(True for p in pend.values() if p.mode == 'num'):
            # conditional assignment of something never read inside the loop: value after the loop unknown
            s.S = None
            pend.pop(key)
            return True
        return False
    for c, v in vals:
        if (vnames(v) | symnames(c)) & left:
            return False
    m = merge(I, vals)
    if m is None:
        s.S = None
        pend.pop(key)
        return True
    iv = s.init

    def S(j, m=m):
        if j.const is not None and j.const == 0:
            return iv
        v = I.vsubst(m, {kv: j - T.ONE})
        if j is n:
            return v
        if isinstance(v, (int, Num)) and isinstance(iv, (int, Num)):
            x, y = tonum(iv), tonum(v)
            return Num(T.ite(T.eq0(j), x.p, y.p), y.kind)
        raise Unsupported('overwritten slot read in the loop')
    if s.mode is None:
        s.S = S
        pend.pop(key)
    else:
        if s.mode == 'num' and isinstance(m, (int, Num)):
            resolve(s, S)
        else:
            return False
    return True


def unsolved(s, pend):
    raise Unsupported('unsupported list update in a loop')


def ph_cond(c, nm, sort):
    """c: gt/ge literal linear in placeholder nm -> (v, strict, below) meaning v < ph (below) or v > ph"""
    if c.kind not in ('gt', 'ge'):
        return None
    q = c.args[0]
    a = T.Var(nm, sort)
    co = q.mons.get(frozenset([(a, Fraction(1))]))
    if co is None:
        return None
    rest = q - T.scale(P(a), co)
    if a in rest.fv:
        return None
    v = T.scale(rest, -1 / co)
    return v, c.kind == 'gt', co > 0


def extends(ii, vv, kv):
    """ii = min_{t<m} f(t) and vv(k) = f(m + k): -> (m, f(x), x)"""
    for a in [f for mon in ii.mons for f, e in mon if f.kind == 'app' and f.name == 'rmin' and e == 1]:
        mon = frozenset([(a, Fraction(1))])
        co = ii.mons.get(mon)
        if co is None or co <= 0 or len(a.args[0].shape) != 1:
            continue
        rest = ii - T.scale(P(a), co)
        if a in rest.fv or any(a in f.fv for m2 in rest.mons for f, e in m2):
            continue
        m = a.args[0].shape[0]
        if not m.is_int or not (T.pos(m)):
            continue
        x = T.fresh('r', 'I', '>=')
        f = T.scale(T.lam_open(a.args[0], [P(x)]), co) + rest
        if T.subst(f, {x: m + P(kv)}) is vv:
            return m, f, x
    return None


def running_min(I, n, kv, k, s, ups, left, slots, conds, sub, pend, resolve):
    nm, = s.names
    sort = 'I' if s.kind in ISINT else 'R'
    ph = P(T.Var(nm, sort))
    other = left - s.names
    # form A: one updating path and one keeping path, split on v < ph
    info = None
    ups2 = []
    for c, v in ups:
        if v is KEEP:
            ups2.append((c, KEEP))
        else:
            v2, a = scalarise(I, v)
            if not isinstance(v2, (int, Num)):
                return False
            ups2.append((c, tonum(v2).p))
    live = [(i, c, v) for i, (c, v) in enumerate(ups2) if c.kind != 'F']
    upd_idx = None
    if len(live) == 2 and sum(1 for _, c, v in live if v is KEEP) == 1:
        iu, cu, vu = [t for t in live if t[2] is not KEEP][0]
        ik, ck, _ = [t for t in live if t[2] is KEEP][0]
        pc = ph_cond(cu, nm, sort)
        if pc is not None and pc[0] is vu and T.bnot(cu) is ck:
            info = pc
            upd_idx = iu
    elif len(live) == 1 and live[0][2] is not KEEP:
        new = live[0][2]
        if nm in symnames(new):
            for c in {a.args[0] for m in new.mons for a, e in m if a.kind == 'ind'}:
                pc = ph_cond(c, nm, sort)
                if pc is None:
                    continue
                t = prove.assume_subst(new, c, True)
                f = prove.assume_subst(new, c, False)
                if t is pc[0] and f is ph:
                    info = pc
                    break
                if f is pc[0] and t is ph:
                    # ph kept when (v < ph) holds would be a max: condition inverted
                    info = (pc[0], not pc[1], not pc[2])
                    break
    if info is None:
        return running_index(I, n, kv, k, s, live, left, resolve)
    v, strict, below = info
    if symnames(v) & left:
        return False
    init = tonum(s.init).p
    vv = v if below else -v          # minimise vv
    ii = init if below else -init
    isinf = ii is P(T.INF)

    from .nplib import rmin_term

    def best(j):
        q = T.fresh('r', 'I', '>=', j)
        r = rmin_term(q, j, T.subst(vv, {kv: P(q)}))
        return r

    ext = extends(ii, vv, kv)
    # the start value is the entry just before the first one this loop looks at
    prev = not isinf and ext is None and T.subst(vv, {kv: -T.ONE}) is ii

    def S(j):
        if j.const is not None and j.const == 0:
            return s.init
        if prev:
            q = T.fresh('r', 'I', '>=', j + T.ONE)
            t = rmin_term(q, j + T.ONE, T.subst(vv, {kv: P(q) - T.ONE}))
            return Num(t if below else -t, 'npfloat' if s.kind not in ISINT else s.kind)
        if ext is not None:
            # the start value is already the minimum over a prefix that this loop continues
            q = T.fresh('r', 'I', '>=', ext[0] + j)
            t = rmin_term(q, ext[0] + j, T.subst(ext[1], {ext[2]: P(q)}))
            return Num(t if below else -t, 'npfloat' if s.kind not in ISINT else s.kind)
        r = best(j)
        if isinf:
            if j is n or prove.entails(I.facts, T.gt0(j)):
                t = r
            else:
                t = T.ite(T.eq0(j), ii, r)
        else:
            t = T.tmin(ii, r)
            if j is k or (j is not n and not prove.entails(I.facts, T.gt0(j))):
                t = T.ite(T.eq0(j), ii, t)
        return Num(t if below else -t, 'npfloat' if s.kind not in ISINT else s.kind)
    resolve(s, S)
    if upd_idx is None:
        return True
    # co-updated slots
    for key, o in list(pend.items()):
        if len(o.upd) != len(ups) or o.mode in ('list', 'rlist', 'filter', 'grow', 'cell'):
            continue
        good = True
        w = None
        for i, (p, val) in enumerate(o.upd):
            if ups2[i][0].kind == 'F':
                continue
            if i == upd_idx:
                w = val
            elif val is not KEEP:
                good = False
        if not good or w is None or w is KEEP:
            continue
        w = vmap(I, w, sub)
        if vnames(w) & left or (o.names and o.mode is not None and False):
            continue
        prev2 = prev and at_start(I, o, w, kv)
        if not isinf and not prev2:
            o.S = None
            pend.pop(key)
            continue

        def S2(j, w=w, o=o, prev2=prev2):
            if j.const is not None and j.const == 0:
                return o.init
            if not (j is n):
                raise Unsupported('co-updated slot read in the loop')
            if prev2:
                return I.vsubst(w, {kv: arg_best(j + T.ONE, lambda x: T.subst(vv, {kv: x - T.ONE}), strict) - T.ONE})
            return I.vsubst(w, {kv: arg_best(j, lambda x: T.subst(vv, {kv: x}), strict)})
        o.S = S2
        if o.mode is None:
            pend.pop(key)
            resolve_plain(o)
        else:
            pend.pop(key)
    return True


def at_start(I, o, w, kv):
    """is the start value of slot o the update w taken one step before the loop?"""
    w0 = I.vsubst(w, {kv: -T.ONE})
    if isinstance(w0, (int, Num)) and isinstance(o.init, (int, Num)):
        return tonum(w0).p is tonum(o.init).p
    if isinstance(w0, (FArr, Arr)):
        lam = o.ilam if o.mode == 'arr' else I.lam(o.init) if isinstance(o.init, Arr) else None
        return lam is not None and lam is (w0.lam if isinstance(w0, FArr) else I.lam(w0))
    return False


def arg_best(j, f, strict):
    """first (strict comparisons) or last index < j at which f is smallest"""
    q = T.fresh('r', 'I', '>=', j)
    from .nplib import argmin_term
    if strict:
        return argmin_term(q, j, f(P(q)))
    a = T.App('argminlast', (T.mklam([q], [j], f(P(q))),), 'I', '>=')
    a.meta = j
    return P(a)


def running_index(I, n, kv, k, s, live, left, resolve):
    """if A(k + c) < A(best): best = k + c   -- the slot holds the index of the best entry"""
    if s.kind not in ISINT or len(live) != 2:
        return False
    nm, = s.names
    if sum(1 for _, c, v in live if v is KEEP) != 1:
        return False
    _, cu, new = [t for t in live if t[2] is not KEEP][0]
    _, ck, _ = [t for t in live if t[2] is KEEP][0]
    if symnames(new) & (left | {nm}):
        return False
    off = new - P(kv)
    if off.const is None:
        return False
    lu, lk = lits_of(cu), lits_of(ck)
    ru, rk = [x for x in lu if x not in lk], [x for x in lk if x not in lu]
    if len(ru) != 1 or len(rk) != 1 or T.bnot(ru[0]) is not rk[0] or ru[0].kind not in ('gt', 'ge'):
        return False
    q = ru[0].args[0]
    ph = T.Var(nm, 'I')
    if (symnames(q) & left) - {nm}:
        return False
    A = T.mkpoly({mon: co for mon, co in q.mons.items() if any(ph in f.fv for f, e in mon)})
    at = lambda x: T.subst(A, {ph: x})
    if q is not A - at(new):
        return False
    strict = ru[0].kind == 'gt'
    init = tonum(s.init).p
    d = init - off
    if d.const == 0:
        more = T.ZERO
    elif d.const == -1:
        more = T.ONE
    else:
        return False

    def S(j):
        if j.const is not None and j.const == 0:
            return s.init
        t = init + arg_best(j + more, lambda x: at(init + x), strict)
        return Num(t, s.kind)
    resolve(s, S)
    return True


def lits_of(c):
    return list(c.args) if c.kind == 'and' else [c]


def resolve_plain(o):
    pass


def solve_array(I, n, kv, k, s, vals, left, pend, resolve):
    own = s.names
    other = left - own
    nm, = own
    if s.mode == 'cell':
        ilam, dt = s.init[1], s.init[2]
    else:
        ilam, dt = s.ilam, s.dt
    if dt == 'b':
        raise Unsupported('boolean array updated in a loop')
    vs = [T.fresh('i', 'I', '>=', x) for x in ilam.shape]
    ix = [P(v) if x is not T.ONE else T.ZERO for v, x in zip(vs, ilam.shape)]
    ph = P(T.App(nm, tuple(ix), 'I' if dt == 'i' else 'R'))
    delta = T.ZERO
    for c, v in vals:
        if v is KEEP:
            continue
        if isinstance(v, Arr):
            v = FArr(I.lam(v), I.dt(v))
        if not isinstance(v, FArr) or len(v.lam.shape) != len(ilam.shape):
            raise Unsupported('array update in loop')
        for a, b in zip(v.lam.shape, ilam.shape):
            if a is not b and not prove.entails(I.facts, T.eq(a, b)):
                raise Unsupported('array shape changes in loop')
        delta = delta + T.ind(c) * (T.lam_open(v.lam, ix) - ph)
    nmset = symnames(delta)
    if nmset & other:
        return False
    if nm in nmset:
        d2 = read_before_write(I, n, kv, delta, nm, vs, ilam)
        if d2 is None:
            # overwritten completely? value independent of the placeholder
            tot = delta + ph
            if nm not in symnames(tot):
                def S1(j):
                    if j.const is not None and j.const == 0:
                        return FArr(ilam, dt)
                    b = T.subst(tot, {kv: j - T.ONE})
                    if not (j is n):
                        b = T.ite(T.eq0(j), T.lam_open(ilam, ix), b)
                    return FArr(T.mklam(vs, ilam.shape, b), dt)
                resolve(s, S1)
                return True
            return False
        delta = d2

    def S(j):
        q = T.fresh('s', 'I', '>=', j)
        b = T.lam_open(ilam, ix) + T.tsum(q, j, T.subst(delta, {kv: P(q)}))
        return FArr(T.mklam(vs, ilam.shape, b), dt)
    resolve(s, S)
    return True


def brackets(m):
    return T.band(*[f.args[0] for f, e in m if f.kind == 'ind'])


def ph_apps(t, nm):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Poly):
            for m in x.mons:
                for f, e in m:
                    goa(f)
        elif isinstance(x, Bool):
            for y in (x.args if x.kind != 'all' else tuple(x.args[0]) + (x.args[1],)):
                if isinstance(y, (Poly, Bool, Lam)):
                    go(y)
        elif isinstance(x, Lam):
            go(x.body)

    def goa(f):
        if f.kind == 'app':
            if f.name == nm:
                out.append(f)
            for y in f.args:
                if isinstance(y, (Poly, Bool, Lam)):
                    go(y)
        elif f.kind in ('P', 'ind'):
            go(f.args[0])
        elif f.kind == 'sum':
            for g, e in f.args[1]:
                goa(g)
    go(t)
    return out


def read_before_write(I, n, kv, delta, nm, vs, ilam):
    """replace reads ph(loc) by init(loc) when no earlier iteration changes loc"""
    def written(kk, loc):
        # delta(kk, loc) may be non-zero
        r = T.FALSE
        for m in delta.mons:
            b = brackets(m)
            sb = {kv: kk}
            for v, l in zip(vs, loc):
                sb[v] = l
            r = T.bor(r, T.subst(b, sb))
        return r
    k2 = T.fresh('kk', 'I', '>=', n)
    parts = []
    for m, c in delta.mons.items():
        t = T.mkpoly({m: c})
        apps = ph_apps(t, nm)
        if apps:
            B = brackets(m)
            for a in apps:
                if any(x.kind == 'bv' for x in a.fv):
                    return None
                g = T.bnot(T.band(B, T.lt(P(k2), P(kv)), written(P(k2), a.args)))
                if not (g.kind == 'T' or prove.entails(I.facts, g, 3000)):
                    return None
            t = rewrite(t, lambda x: T.lam_open(ilam, list(x.args)) if x.kind == 'app' and x.name == nm else None)
        parts.append(t)
    return T.addmany(parts)


def solve_grow(I, n, kv, k, s, vals, left, pend, resolve):
    nm, = s.names
    other = left - s.names
    ilam, dt = s.ilam, s.dt
    n0 = ilam.shape[0]
    m = merge(I, vals)
    if m is None or any(v is KEEP for _, v in vals):
        raise Unsupported('conditional row append')
    if isinstance(m, Arr):
        m = FArr(I.lam(m), I.dt(m))
    if not isinstance(m, FArr):
        raise Unsupported('row append')
    lam = m.lam
    if lam.shape[0] - (n0 + k) is not T.ONE:
        raise Unsupported('loop appends other than one row per iteration')
    vs = [T.fresh('i', 'I', '>=', x) for x in lam.shape]
    ix = [P(v) if x is not T.ONE else T.ZERO for v, x in zip(vs, lam.shape)]
    b = T.lam_open(lam, ix)
    row = T.lam_open(lam, [n0 + k] + ix[1:])
    ph = P(T.App(nm, tuple(ix), 'I' if dt == 'i' else 'R'))
    want = T.ite(T.lt(ix[0], n0 + k), ph, row)
    alt = T.ite(T.eq(ix[0], n0 + k), row, ph)
    if b is not want and b is not alt:
        d = b - want
        r = prove.prove_zero(d, I.facts + [T.lt(ix[0], n0 + k + T.ONE)])
        if r.status != 'proved':
            raise Unsupported('loop rewrites earlier rows')
    rn = symnames(row)
    if rn & other:
        return False
    rest = vs[1:]
    if nm in rn:
        sk = 'ROW' + nm

        def rowat(kk, r):
            return P(T.App(sk, (kk,) + tuple(I.loop_idx) + tuple(r)))
        s.rowdef = T.forall(rest, list(lam.shape[1:]), T.eq(rowat(k, ix[1:]), row))
    else:
        def rowat(kk, r):
            sb = {kv: kk}
            for v, x in zip(rest, r):
                sb[v] = x
            return T.subst(row, sb)

    def S(j):
        shape = (n0 + j,) + tuple(ilam.shape[1:])
        q = [T.fresh('i', 'I', '>=', x) for x in shape]
        qx = [P(v) if x is not T.ONE else T.ZERO for v, x in zip(q, shape)]
        later = rowat(qx[0] - n0, qx[1:])
        if n0 is T.ZERO:
            bb = later
        else:
            bb = T.ite(T.lt(qx[0], n0), T.lam_open(ilam, qx), later)
        return FArr(T.mklam(q, shape, bb), 'f' if 'f' in (dt, m.dt) else dt)
    resolve(s, S)
    return True


NOTREAL = frozenset(['inf', 'nan'])


def skolem(I, n, kv, k, s, ups, uid, resolve, facts_def, pend):
    key = s.key
    if s.mode is None:
        s.S = None
        pend.pop(key)
        return
    # a recurrence is stated as equations over the reals: an infinity or a NaN has no place in one
    vs_ = [v for _, v in ups if v is not KEEP] + [s.init]
    names = set()
    for v in vs_:
        names |= symnames(I.lam(v)) if isinstance(v, Arr) else vnames(v)
    if s.mode in ('arr', 'cell'):
        names |= symnames(s.init[1] if s.mode == 'cell' else s.ilam)
    if names & NOTREAL:
        raise Unsupported('loop-carried slot %s starts from or reaches an infinity' % (key[-1],))
    vals = []
    for c, v in ups:
        if v is not KEEP and s.mode == 'num':
            v, _ = scalarise(I, v)
        vals.append((c, v))
    if s.mode == 'num' and all(v is KEEP or isinstance(v, (int, Num)) for _, v in vals):
        nm = 'SK%d_%s' % (uid, key[2])
        sort = 'I' if s.kind in ISINT else 'R'
        li = tuple(I.loop_idx)
        sk = lambda j: P(T.App(nm, li + (j,), sort))
        new = T.ZERO
        for c, v in vals:
            new = new + T.ind(c) * (sk(k) if v is KEEP else tonum(v).p)

        def S(j):
            if j.const is not None and j.const == 0:
                return s.init
            return Num(sk(j), s.kind)
        facts_def.append(T.eq(sk(T.ZERO), tonum(s.init).p))
        facts_def.append(T.eq(sk(k + T.ONE), new))
        resolve(s, S)
        return
    if s.mode in ('arr', 'cell'):
        ilam, dt = (s.init[1], s.init[2]) if s.mode == 'cell' else (s.ilam, s.dt)
        if dt == 'b':
            raise Unsupported('boolean array recurrence')
        nm = 'SK%d_%s' % (uid, key[-1] if s.mode == 'arr' else 'c%d' % key[1])
        li = tuple(I.loop_idx)
        vs = [T.fresh('i', 'I', '>=', x) for x in ilam.shape]
        ix = [P(v) if x is not T.ONE else T.ZERO for v, x in zip(vs, ilam.shape)]
        sk = lambda j, q: P(T.App(nm, li + (j,) + tuple(q)))
        new = T.ZERO
        for c, v in vals:
            if v is not KEEP and isinstance(v, Arr):
                v = FArr(I.lam(v), I.dt(v))
            if v is not KEEP and (not isinstance(v, FArr) or any(a is not b for a, b in zip(v.lam.shape, ilam.shape))):
                raise Unsupported('array recurrence changes shape')
            new = new + T.ind(c) * (sk(k, ix) if v is KEEP else T.lam_open(v.lam, ix))
        facts_def.append(T.forall(vs, list(ilam.shape), T.eq(sk(T.ZERO, ix), T.lam_open(ilam, ix))))
        facts_def.append(T.forall(vs, list(ilam.shape), T.eq(sk(k + T.ONE, ix), new)))

        def S(j):
            return FArr(T.mklam(vs, ilam.shape, sk(j, ix)), dt)
        resolve(s, S)
        return
    raise Unsupported('loop-carried slot %s has no closed form' % (key[-1],))


def solve_filters(I, n, kv, k, fs, conds, fn_sub, uid, sub):
    cond = None
    n0 = fs[0].ilam.shape[0]
    for s in fs:
        if s.ilam.shape[0] is not n0:
            raise Unsupported('filters over different lengths')
        ups = [(c, v) for c, (p, v) in zip(conds, s.upd)]
        if any(v is KEEP for _, v in ups):
            raise Unsupported('conditional filter')
        m = merge(I, ups)
        if not isinstance(m, FArr):
            raise Unsupported('filter update')
        mask = I.np.filt_info(I, m.lam.shape[0])
        if mask is None or mask.shape[0] is not n0:
            raise Unsupported('filter update')
        t = T.fresh('t', 'I', '>=', n0)
        b = T.lam_open(mask, [P(t)])
        lit = T.bapp('phm%d' % uid, (k, P(t)))
        if b.kind == 'and' and lit in b.args:
            c = T.band(*[x for x in b.args if x is not lit])
        elif b is lit:
            c = T.TRUE
        else:
            raise Unsupported('filter does not refine the previous one')
        if ('phm%d' % uid) in symnames(c):
            raise Unsupported('filter condition depends on the filtered set')
        cl = T.mklam([t], [n0], c)
        if cond is not None and cl is not cond:
            raise Unsupported('arrays filtered differently')
        cond = cl
        vs = [T.fresh('i', 'I', '>=', x) for x in m.lam.shape]
        ix = [P(v) for v in vs]
        if T.lam_open(m.lam, ix) is not T.lam_open(s.ilam, [I.np.nth_term(mask, ix[0])] + ix[1:]):
            raise Unsupported('filter rewrites the elements')

    def mask_at(j):
        t = T.fresh('t', 'I', '>=', n0)
        c = T.lam_open(cond, [P(t)])
        if kv not in c.fv:
            b = c if j is n else T.bor(T.eq0(j), c)
        else:
            b = T.forall([kv], [j], c)
        return T.mklam([t], [n0], b)
    for s in fs:
        def S(j, s=s):
            mk = mask_at(j)
            shape = (I.np.cnt_term(mk),) + tuple(s.ilam.shape[1:])
            vs = [T.fresh('i', 'I', '>=', x) for x in shape]
            ix = [P(v) if x is not T.ONE else T.ZERO for v, x in zip(vs, shape)]
            return FArr(T.mklam(vs, shape, T.lam_open(s.ilam, [I.np.nth_term(mk, ix[0])] + ix[1:])), s.dt)
        s.S = S
    fn_sub['phm%d' % uid] = lambda a: T.lam_open(mask_at(k), [a[1]])
