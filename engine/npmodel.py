"""Assumed contracts of Python builtins, numpy, scipy and the other libraries the code calls.

Every entry here is an assumption about a dependency (listed in the evidence as trusted);
selftest.py compares the array entries with the real libraries on concrete inputs.
"""
import ast
from fractions import Fraction
from . import terms as T
from . import prove
from .terms import P, K, Poly, Bool, Lam
from .values import *
from .interp import Interp, Unsupported, PyExc

LIB = {}          # dotted name -> BuiltinV | value | TypeV
BUILTINS = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = BuiltinV(n, f)
        return f
    return d


def bi(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = BuiltinV(n, f)
        return f
    return d


PACKAGES = {'numpy', 'numpy.linalg', 'numpy.random', 'scipy', 'scipy.linalg', 'scipy.stats', 'scipy.stats.norm', 'scipy.stats.qmc',
            'scipy.optimize', 'scipy.special', 'scipy.spatial', 'scipy.spatial.distance', 'cma', 'time', 'itertools',
            'functools', 'multiprocessing', 'tqdm', 'abc', 'math', 'copy'}
OPAQUE_MODULES = {'logging', 'typing', 'os', 'sys', 'warnings', 'collections', 'dataclasses', 'collections.abc', 'pathlib'}
ABSENT = {'scipydirect'}


def library_module(I, name):
    if name in ABSENT and name not in I.ghost.get('installed', ()):
        return None
    if name == 'scipydirect':
        return ModuleV('scipydirect', {'minimize': BuiltinV('scipydirect.minimize', LIB['scipydirect.minimize'].fn)})
    if name == 'cma' and 'cma' in I.ghost.get('uninstalled', ()):
        return None
    if name in PACKAGES:
        return ModuleV(name)
    if name.split('.')[0] in OPAQUE_MODULES:
        return Opaque(name)
    if name.split('.')[0] in ('matplotlib', 'pylab'):
        return Opaque(name)
    return None


def library_attr(I, m, n):
    full = m.name + '.' + n
    if full in LIB:
        return LIB[full]
    if full in PACKAGES:
        return ModuleV(full)
    raise Unsupported('library name %s' % full)


# ------------------------------------------------------------------ helpers
def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def only(kw, *names):
    for k in kw:
        if k not in names:
            raise Unsupported('keyword %s' % k)


def iv(v, what='int'):
    """value -> int Poly"""
    n = tonum(v)
    if n.kind not in ISINT and not (n.p.is_int and n.p.const is not None):
        raise PyExc('TypeError', 'integer expected')
    return n.p


def conc_int(v):
    c = tonum(v).p.const
    if c is None:
        raise Unsupported('concrete int expected')
    return int(c)


def shape_arg(I, v):
    if isinstance(v, (int, Num)):
        sh = (iv(v),)
    else:
        s = I.iterate(v)
        if s.items is None:
            raise Unsupported('symbolic shape')
        sh = tuple(iv(x) for x in s.items)
    for d in sh:
        if not (d.const is None and T.nonneg(d)) and not I.decide(T.ge0(d)):
            raise PyExc('ValueError', 'negative dimensions')
    return sh


def floor_term(I, p):
    if p.const is not None:
        import math
        return K(math.floor(p.const))
    if p.is_int:
        return p
    f = T.mkapp('floor', (p,), 'I')
    at = T._as_atom(f)
    I.assume(T.band(T.le(f, p), T.gt(f + T.ONE, p)))
    return f


def rint_term(p):
    """nearest whole number"""
    if p.const is not None:
        return K(round(p.const))
    return p if p.is_int else T.mkapp('rint', (p,), 'I')


def trunc_term(p):
    """what storing a float in an integer array keeps"""
    if p.const is not None:
        return K(int(p.const))
    return p if p.is_int else T.mkapp('trunc', (p,), 'I')


prove.APP_AXIOMS['rint'] = lambda a: [T.le(P(a), a.args[0] + K(1) / K(2)), T.ge(P(a), a.args[0] - K(1) / K(2))]
prove.APP_AXIOMS['trunc'] = lambda a: [T.lt(P(a), a.args[0] + T.ONE), T.gt(P(a), a.args[0] - T.ONE)]


def round_to(p, d):
    s = K(10) ** d if d >= 0 else T.ONE / K(10 ** -d)
    return p if d >= 0 and p.is_int else rint_term(p * s) / s


def is_static_true(I, b):
    return b.kind == 'T' or prove.entails(I.facts, b)


def asarray(I, v, copy=True):
    if isinstance(v, Arr):
        return I.copy(v) if copy else v
    if isinstance(v, (int, float, Num, BoolV)):
        if isinstance(v, (bool, BoolV)):
            b = tobool_term(v)
            return I.build((), lambda ix: b, 'b')
        n = tonum(v)
        return I.build((), lambda ix: n.p, 'i' if n.kind in ISINT else 'f')
    if isinstance(v, SeqV):
        if v.items is not None:
            items = tuple(v.items)
        else:
            e = T.fresh('e', 'I', '>=', v.n)
            items = (Seg(v.n, e, I.freeze(v.elem(P(e)))),)
        return arr_from_items(I, items)
    if isinstance(v, tuple):
        return arr_from_items(I, v)
    if isinstance(v, FList):
        return arr_from_items(I, v.items)
    if isinstance(v, FArr):
        return I.arr_new(v.lam, v.dt)
    if isinstance(v, ListV) and not isinstance(v, DictV):
        return arr_from_items(I, I.items(v))
    raise Unsupported('np.array of %r' % (v,))


def arr_from_items(I, items):
    """stack items (numbers, arrays, nested lists, symbolic runs)"""
    parts = []      # (count Poly, fn(index within part, rest idx)->body, inner shape, dt)
    for x in items:
        if isinstance(x, PHSeg):
            raise Unsupported('array of unknown list prefix')
        if isinstance(x, Seg):
            a = asarray(I, I.thaw(x.tmpl) if not isinstance(x.tmpl, (FArr, FList)) else x.tmpl)
            lam = I.lam(a)
            for s in lam.shape:
                if x.var in s.fv:
                    raise Unsupported('ragged list')

            def f(k, ix, lam=lam, x=x):
                return T.subst(T.lam_open(lam, ix), {x.var: k})
            parts.append((x.n, f, lam.shape, I.dt(a)))
        else:
            if isinstance(x, (str, Opaque)) or x is None or isinstance(x, (ObjV, FuncV)):
                raise Unsupported('object array')
            a = asarray(I, x)
            lam = I.lam(a)
            parts.append((T.ONE, lambda k, ix, lam=lam: T.lam_open(lam, ix), lam.shape, I.dt(a)))
    if not parts:
        return I.build((T.ZERO,), lambda ix: T.ZERO, 'f')
    inner = parts[0][2]
    for p in parts[1:]:
        if len(p[2]) != len(inner):
            raise PyExc('ValueError', 'inhomogeneous shape')
        for a, b in zip(p[2], inner):
            if a is not b and not I.decide(T.eq(a, b)):
                raise PyExc('ValueError', 'inhomogeneous shape')
    dts = {p[3] for p in parts}
    dt = 'b' if dts == {'b'} else 'f' if 'f' in dts else 'i'
    n = T.ZERO
    for p in parts:
        n = n + p[0]

    def body(ix):
        k, rest = ix[0], ix[1:]
        return pieces([(p[0], p[1]) for p in parts], k, rest)
    return I.build((n,) + tuple(inner), body, dt)


def pieces(parts, k, rest):
    """value at position k of a concatenation of parts (count, fn(k, rest))"""
    if len(parts) == 1:
        return parts[0][1](k, rest)
    off = T.ZERO
    res = None
    conds = []
    for n, f in parts:
        conds.append((off, n, f))
        off = off + n
    # nested ite from the back
    o, n, f = conds[-1]
    res = f(k - o, rest)
    for o, n, f in reversed(conds[:-1]):
        v = f(k - o, rest)
        if n is T.ONE:
            c = T.eq(k, o)      # preceding pieces are peeled first
            v = f(T.ZERO, rest)
        else:
            c = T.lt(k, o + n)
        if isinstance(v, Bool):
            res = T.bor(T.band(c, v), T.band(T.bnot(c), res))
        else:
            res = T.ite(c, v, res)
    return res


# ------------------------------------------------------------------ indexing
def expand_index(I, a, ix):
    nd = len(I.shape(a))
    if not isinstance(ix, tuple):
        ix = (ix,)
    real = sum(1 for x in ix if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in ix if x is Ellipsis]:
        k = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        fill = nd - real
        if fill < 0:
            raise PyExc('IndexError', 'too many indices')
        ix = ix[:k] + (SliceV(None, None, None),) * fill + ix[k + 1:]
    else:
        if real > nd:
            raise PyExc('IndexError', 'too many indices for array')
        ix = ix + (SliceV(None, None, None),) * (nd - real)
    return ix


def arr_getitem(I, a, ix):
    if isinstance(ix, tuple) and len(ix) and all(x is Ellipsis or x is None or isinstance(x, (int, Num, SliceV)) for x in ix) \
            or isinstance(ix, (int, Num, SliceV)) or ix is None or ix is Ellipsis:
        return basic_index(I, a, expand_index(I, a, ix))
    ixs = expand_index(I, a, ix)
    adv = [(i, x) for i, x in enumerate(ixs) if isinstance(x, (Arr, ListV, BoolV)) or isinstance(x, bool)]
    if len(adv) == 1:
        pos, sel = adv[0]
        if isinstance(sel, ListV):
            sel = asarray(I, sel)
        if not isinstance(sel, Arr):
            raise Unsupported('index')
        sh = I.shape(a)
        # remaining basic indices must be full slices except after the selector
        others = [x for i, x in enumerate(ixs) if i != pos]
        if pos != 0 or any(x is None for x in ixs):
            if not all(isinstance(x, SliceV) and x.lo is None and x.hi is None for x in others) or any(x is None for x in ixs):
                raise Unsupported('mixed advanced index')
        if I.dt(sel) == 'b':
            if len(I.shape(sel)) != 1:
                raise Unsupported('multi-dim mask')
            n = sh[pos]
            if not I.same_dim(I.shape(sel)[0], n):
                raise PyExc('IndexError', 'boolean index did not match')
            r = filter_axis(I, a, I.lam(sel), pos)
        else:
            r = take_axis(I, a, sel, pos)
        if all(isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None for x in others):
            return r
        full = list(ixs)
        full[pos] = SliceV(None, None, None)
        return basic_index(I, r, tuple(full))
    if len(adv) == 2 and len(ixs) == 2 and len(I.shape(a)) == 2:
        s0, s1 = adv[0][1], adv[1][1]
        if isinstance(s0, Arr) and isinstance(s1, Arr) and I.dt(s0) != 'b' and I.dt(s1) != 'b':
            la = I.lam(a)
            return I.elementwise(lambda v: T.lam_open(la, [v[0], v[1]]), [s0, s1], I.dt(a))
    raise Unsupported('advanced index')


def take_axis(I, a, sel, pos):
    sh = I.shape(a)
    ssh = I.shape(sel)
    n = sh[pos]
    # index validity
    vs = [T.fresh('q', 'I', '>=', s) for s in ssh]
    e = I.at(sel, [P(v) for v in vs])
    inr = T.in_range(e, n)
    if not (inr.kind == 'T'):
        ok = T.forall(vs, list(ssh), inr)
        okq = T.implies(T.band(*[T.lt(P(v), s) for v, s in zip(vs, ssh)]), inr) if vs else inr
        if not (prove.entails(I.facts, okq) or prove.entails(I.facts, ok)):
            if not I.decide(ok):
                raise PyExc('IndexError', 'index out of bounds')
    lam, slam = I.lam(a), I.lam(sel)
    k = len(ssh)

    def body(ix):
        return T.lam_open(lam, list(ix[:pos]) + [T.lam_open(slam, ix[pos:pos + k])] + list(ix[pos + k:]))
    return I.build(tuple(sh[:pos]) + tuple(ssh) + tuple(sh[pos + 1:]), body, I.dt(a))


def filt_info(I, n):
    """n = cnt(mask): returns mask Lam"""
    at = T._as_atom(n) if n.const is None else None
    if at is not None and at.kind == 'app' and at.name == 'cnt':
        return at.args[0]
    return None


def cnt_term(mask):
    # constant masks
    if mask.body.kind == 'T':
        return mask.shape[0]
    if mask.body.kind == 'F':
        return T.ZERO
    return P(T.App('cnt', (mask,), 'I', '>='))


def nth_term(mask, i):
    if mask.body.kind == 'T':
        return i
    a = T.App('nth', (mask, i), 'I', '>=')
    a.meta = mask.shape[0]
    return P(a)


T.REBUILD['cnt'] = lambda a: cnt_term(a[0])
T.REBUILD['nth'] = lambda a: nth_term(a[0], a[1])


def filter_axis(I, a, mask, pos):
    """rows of a (axis pos) where mask holds; composes with an earlier filter"""
    sh = I.shape(a)
    n = sh[pos]
    lam = I.lam(a)
    base = filt_info(I, n) if n.const is None else None
    if base is not None:
        # express everything through the original position t
        i = T.fresh('f', 'I', '>=', n)
        t = T.fresh('t', 'I', '>=', base.shape[0])
        nt = nth_term(base, P(i))
        c = replace_term(T.lam_open(mask, [P(i)]), nt, P(t))
        vs = [T.fresh('i', 'I', '>=', s) for s in sh]
        vs[pos] = i
        b = replace_term(T.lam_open(lam, [P(v) for v in vs]), nt, P(t))
        if i not in c.fv and i not in b.fv:
            m2 = T.mklam([t], [base.shape[0]], T.band(T.lam_open(base, [P(t)]), c))
            others = [v for v in vs]

            def body(ix):
                s = {v: x for v, x in zip(vs, ix) if v is not i}
                s[t] = nth_term(m2, ix[pos])
                return T.subst(b, s)
            return I.build(tuple(sh[:pos]) + (cnt_term(m2),) + tuple(sh[pos + 1:]), body, I.dt(a))

    def body(ix):
        return T.lam_open(lam, list(ix[:pos]) + [nth_term(mask, ix[pos])] + list(ix[pos + 1:]))
    return I.build(tuple(sh[:pos]) + (cnt_term(mask),) + tuple(sh[pos + 1:]), body, I.dt(a))


def replace_term(x, old, new):
    """replace an atom (given as Poly) by a Poly everywhere"""
    at = T._as_atom(old)
    if at is None:
        if old in (T.ZERO,):
            return x
        raise Unsupported('replace')
    return _repl(x, at, new)


def _repl(t, at, new):
    if isinstance(t, Poly):
        parts = []
        for m, c in t.mons.items():
            r = K(c)
            for f, e in m:
                r = T.mul(r, T.power(_repl_atom(f, at, new), e))
            parts.append(r)
        return T.addmany(parts)
    if isinstance(t, Bool):
        k = t.kind
        if k in ('ge', 'gt', 'eq'):
            return {'ge': T.ge0, 'gt': T.gt0, 'eq': T.eq0}[k](_repl(t.args[0], at, new))
        if k == 'not':
            return T.bnot(_repl(t.args[0], at, new))
        if k == 'and':
            return T.band(*[_repl(x, at, new) for x in t.args])
        if k == 'or':
            return T.bor(*[_repl(x, at, new) for x in t.args])
        if k == 'bapp':
            return T.bapp(t.name, [_repl(x, at, new) if isinstance(x, (Poly, Bool, Lam)) else x for x in t.args])
        if k == 'all':
            rs, body = t.args
            vs = [T.fresh('q', 'I', '>=', r) for r in rs]
            b = T.subst(body, {T.BV(t.name + 1 + i): P(v) for i, v in enumerate(vs)})
            return T.forall(vs, [_repl(r, at, new) for r in rs], _repl(b, at, new))
        return t
    if isinstance(t, Lam):
        vs = [T.fresh('l', 'I', '>=', s) for s in t.shape]
        b = T.lam_open(t, [P(v) for v in vs])
        return T.mklam(vs, [_repl(s, at, new) for s in t.shape], _repl(b, at, new))
    return t


def _repl_atom(f, at, new):
    if f is at:
        return new
    k = f.kind
    if k in ('var', 'bv'):
        return P(f)
    if k == 'app':
        return T.mkapp(f.name, [_repl(x, at, new) if isinstance(x, (Poly, Bool, Lam)) else x for x in f.args], f.sort, f.sign)
    if k == 'P':
        return _repl(f.args[0], at, new)
    if k == 'ind':
        return T.ind(_repl(f.args[0], at, new))
    if k == 'sum':
        vs, rs, fs = T.open_sum(f)
        body = T.ONE
        for g, e in fs:
            body = T.mul(body, T.power(_repl_atom(g, at, new), e))
        for v, n in reversed(list(zip(vs, rs))):
            body = T.tsum(v, _repl(n, at, new), body)
        return body
    raise AssertionError(k)


def basic_index(I, a, ixs):
    axes, sh = I.full_view(a)
    # per output axis of a: ('fix', poly) | ('sl', start, len, step)
    spec = []
    k = 0
    out_shape = []
    amap = {}
    pos = 0
    for x in ixs:
        if x is None:
            out_shape.append(T.ONE)
            pos += 1
            continue
        n = sh[k]
        if isinstance(x, SliceV):
            if x.lo is None and x.hi is None and x.step is None:
                lo, ln, st = T.ZERO, n, 1
            else:
                lo, ln, st = I.slice_bounds(x, n)
            amap[k] = ('ax', pos, lo, st)
            out_shape.append(ln)
            pos += 1
        else:
            amap[k] = ('fix', I.norm_index(x, n))
        k += 1
    na = []
    for e in axes:
        if e[0] == 'fix':
            na.append(e)
            continue
        m = amap[e[1]]
        if m[0] == 'fix':
            na.append(('fix', e[2] + T.scale(m[1], e[3])))
        else:
            na.append(('ax', m[1], e[2] + T.scale(m[2], e[3]), e[3] * m[3]))
    r = Arr(a.cell, (tuple(na), tuple(out_shape)), a.ro)
    if not out_shape:
        return I.mkval(I.at(r, []), I.dt(a))
    return r


def arr_setitem(I, a, ix, v):
    ixs = expand_index(I, a, ix)
    adv = [x for x in ixs if isinstance(x, (Arr, ListV))]
    if adv:
        if len(adv) == 1 and ixs[0] is adv[0] and isinstance(adv[0], Arr) and I.dt(adv[0]) == 'b' and len(I.shape(adv[0])) == len(I.shape(a)):
            m = I.lam(adv[0])
            n = tonum(v).p if isnum(v) else None
            if n is None:
                raise Unsupported('mask assignment of array')
            old = I.lam(a)
            I.write(a, lambda ix: T.ite(T.lam_open(m, ix), n, T.lam_open(old, ix)))
            return
        if len(adv) == 2 and len(ixs) == 2:
            s0, s1 = adv
            if isinstance(s0, Arr) and isinstance(s1, Arr) and I.lam(s0) is I.lam(s1) and I.lam(s0) is diag_idx_lam(I.shape(s0)[0]):
                old = I.lam(a)
                if isnum(v):
                    n = tonum(v).p
                    I.write(a, lambda ix: T.ite(T.eq(ix[0], ix[1]), n, T.lam_open(old, ix)))
                    return
                vl = I.lam(v)
                I.write(a, lambda ix: T.ite(T.eq(ix[0], ix[1]), T.lam_open(vl, [ix[0]]), T.lam_open(old, ix)))
                return
        raise Unsupported('advanced assignment')
    # view
    axes_target = basic_index_view(I, a, ixs)
    write_into(I, axes_target, v)


def diag_idx_lam(n):
    v = T.fresh('i', 'I', '>=', n)
    return T.mklam([v], [n], P(v))


def basic_index_view(I, a, ixs):
    r = basic_index(I, a, ixs)
    if isinstance(r, Arr):
        return r
    axes, sh = I.full_view(a)
    na = []
    fixed = {}
    k = 0
    for x in ixs:
        if x is None:
            continue
        fixed[k] = I.norm_index(x, sh[k])
        k += 1
    for e in axes:
        if e[0] == 'fix':
            na.append(e)
        else:
            na.append(('fix', e[2] + T.scale(fixed[e[1]], e[3])))
    return Arr(a.cell, (tuple(na), ()), a.ro)


def write_into(I, target, v):
    if isinstance(v, (ListV, tuple)) and not isinstance(v, DictV):
        v = asarray(I, v)
    ts = I.shape(target)
    if isinstance(v, Arr):
        vs = I.shape(v)
        if len(vs) > len(ts):
            extra = vs[:len(vs) - len(ts)]
            if not all(e is T.ONE for e in extra):
                raise PyExc('ValueError', 'could not broadcast')
            v = I.build(ts, lambda ix, v=v, e=len(extra): I.at(v, [T.ZERO] * e + list(I.bidx(vs[e:], ts, ix))), I.dt(v))
            vs = I.shape(v)
        out = I.broadcast([ts, vs])
        for a, b in zip(out, ts):
            if a is not b and not I.decide(T.eq(a, b)):
                raise PyExc('ValueError', 'could not broadcast input array')
        lam = I.lam(v)
        isb = I.dt(v) == 'b' and I.dt(target) != 'b'
        # sizes fixed before the write
        probe = [T.fresh('i', 'I', '>=', s) for s in ts]
        idx = I.bidx(vs, ts, [P(x) for x in probe])

        def f(ix):
            b = T.lam_open(lam, [T.subst(x, dict(zip(probe, ix))) for x in idx])
            return T.ind(b) if isb else b
        if I.dt(target) == 'i' and I.dt(v) == 'f':
            I.write(target, lambda ix: trunc_term(f(ix)))
            return
        I.write(target, f)
        return
    if isinstance(v, (bool, BoolV)) and I.dt(target) == 'b':
        b = tobool_term(v)
        I.write(target, lambda ix: b)
        return
    if not isnum(v):
        raise PyExc('TypeError', 'array element must be a number')
    n = tonum(v)
    p = trunc_term(n.p) if I.dt(target) == 'i' and n.kind not in ISINT else n.p
    I.write(target, lambda ix: p)


# ------------------------------------------------------------------ values' attributes
def value_attr(I, o, n):
    if isinstance(o, Arr):
        if n == 'shape':
            return (tuple(mkint(s) for s in I.shape(o)),)
        if n == 'T':
            return (transpose(I, o),)
        if n == 'ndim':
            return (len(I.shape(o)),)
        if n == 'size':
            p = T.ONE
            for s in I.shape(o):
                p = p * s
            return (mkint(p),)
        if n == 'dtype':
            return (Opaque('dtype'),)
        m = ARR_METHODS.get(n)
        if m is not None:
            return (BuiltinV('ndarray.' + n, lambda I, a, k: m(I, [o] + list(a), k)),)
        raise Unsupported('ndarray.%s' % n)
    if isinstance(o, Num) and o.kind.startswith('np'):
        if n == 'shape':
            return ((),)
        if n == 'ndim':
            return (0,)
        if n == 'item':
            return (BuiltinV('item', lambda I, a, k: Num(o.p, o.kind[2:])),)
        if n in ('T',):
            return (o,)
        if n in ('copy', 'squeeze', 'mean', 'sum', 'min', 'max'):
            return (BuiltinV(n, lambda I, a, k: o),)
        m = ARR_METHODS.get(n)
        if m is not None:
            raise Unsupported('scalar method %s' % n)
        return None
    if isinstance(o, BoolV) and n in ('all', 'any', 'item') or isinstance(o, bool) and n in ('all', 'any', 'item'):
        return (BuiltinV(n, lambda I, a, k: o),)
    if isinstance(o, DictV):
        m = DICT_METHODS.get(n)
        return (BuiltinV('dict.' + n, lambda I, a, k: m(I, o, a, k)),) if m else None
    if isinstance(o, ListV):
        m = LIST_METHODS.get(n)
        if m is None:
            if n in ('shape', 'T', 'reshape', 'flatten'):
                return None
            raise Unsupported('list.%s' % n)
        return (BuiltinV('list.' + n, lambda I, a, k: m(I, o, a, k)),)
    if isinstance(o, str):
        m = STR_METHODS.get(n)
        if m is None:
            raise Unsupported('str.%s' % n)
        return (BuiltinV('str.' + n, lambda I, a, k: m(I, o, a, k)),)
    if isinstance(o, TypeV):
        if o.name + '.' + n in LIB:
            return (LIB[o.name + '.' + n],)
        if n == '__name__':
            return (o.name,)
        return (Opaque(o.name + '.' + n),)
    if isinstance(o, BuiltinV):
        if o.name + '.' + n in LIB:
            return (LIB[o.name + '.' + n],)
        raise Unsupported('%s.%s' % (o.name, n))
    if isinstance(o, (int, bool, Num)) and not isinstance(o, str):
        return None
    return None


ARR_METHODS = {}
DICT_METHODS = {}
LIST_METHODS = {}
STR_METHODS = {}
OBJ_METHODS = {}


def obj_attr(I, o, n):
    if isinstance(o.cls, TypeV):
        m = OBJ_METHODS.get((o.cls.name, n))
        if m is not None:
            return BuiltinV(o.cls.name + '.' + n, lambda I, a, k: m(I, o, a, k))
        raise Unsupported('%s.%s' % (o.cls.name, n))
    return None


def transpose(I, a):
    axes, sh = I.full_view(a)
    nd = len(sh)
    na = tuple(e if e[0] == 'fix' else ('ax', nd - 1 - e[1], e[2], e[3]) for e in axes)
    return Arr(a.cell, (na, tuple(reversed(sh))), a.ro)


# ------------------------------------------------------------------ dict, list, str methods
def pykey(k):
    if isinstance(k, SymK):
        if isinstance(k.v, BytesV):
            return k.v
        return Num(k.v, 'int' if k.v.is_int else 'float')
    return tuple(pykey(x) for x in k) if isinstance(k, tuple) else k


def _dget(I, o, a, k):
    d = I.ditems(o)
    key = I.find(d, I.key(a[0]))
    return d[key] if key in d else (a[1] if len(a) > 1 else None)


def _dpop(I, o, a, k):
    d = dict(I.ditems(o))
    key = I.find(d, I.key(a[0]))
    if key in d:
        v = d.pop(key)
        I.heap[o.cell] = ('dict', d)
        return v
    if len(a) > 1:
        return a[1]
    raise PyExc('KeyError', str(key))


def _dupdate(I, o, a, k):
    d = dict(I.ditems(o))
    if a:
        d.update(I.ditems(a[0]))
    d.update(k)
    I.heap[o.cell] = ('dict', d)


def _dsetdefault(I, o, a, k):
    d = I.ditems(o)
    key = I.find(d, I.key(a[0]))
    if key not in d:
        I.dset(o, key, a[1] if len(a) > 1 else None)
    return I.ditems(o)[key]


DICT_METHODS.update(get=_dget, pop=_dpop, update=_dupdate, setdefault=_dsetdefault,
                    items=lambda I, o, a, k: SeqV(K(len(I.ditems(o))), None, [(pykey(q), v) for q, v in I.ditems(o).items()]),
                    keys=lambda I, o, a, k: SeqV(K(len(I.ditems(o))), None, [pykey(q) for q in I.ditems(o)]),
                    values=lambda I, o, a, k: SeqV(K(len(I.ditems(o))), None, list(I.ditems(o).values())),
                    copy=lambda I, o, a, k: I.new_dict(I.ditems(o)))


def _lappend(I, o, a, k):
    I.set_items(o, I.items(o) + (a[0],))


def _lpop(I, o, a, k):
    items = I.items(o)
    if not I.concrete(items):
        raise Unsupported('pop of symbolic list')
    if not items:
        raise PyExc('IndexError')
    i = conc_int(a[0]) if a else -1
    l = list(items)
    v = l.pop(i)
    I.set_items(o, l)
    return v


def _linsert(I, o, a, k):
    items = I.items(o)
    i = conc_int(a[0])
    if i == 0:
        I.set_items(o, (a[1],) + items)
        return
    if not I.concrete(items):
        raise Unsupported('insert')
    l = list(items)
    l.insert(i, a[1])
    I.set_items(o, l)


LIST_METHODS.update(append=_lappend, pop=_lpop, insert=_linsert,
                    extend=lambda I, o, a, k: I.list_extend(o, a[0]),
                    copy=lambda I, o, a, k: I.new_list(I.items(o)),
                    clear=lambda I, o, a, k: I.set_items(o, ()),
                    reverse=lambda I, o, a, k: I.set_items(o, tuple(reversed(I.items(o)))) if I.concrete(I.items(o)) else _uns('reverse'))


def _uns(s):
    raise Unsupported(s)


def _sj(I, o, a, k):
    return Opaque('str')


def _ssplit(I, o, a, k):
    return I.new_list(o.split(*[x for x in a]))


STR_METHODS.update(split=_ssplit, join=_sj, format=_sj, rsplit=lambda I, o, a, k: I.new_list(o.rsplit(*a)),
                   startswith=lambda I, o, a, k: o.startswith(a[0]), endswith=lambda I, o, a, k: o.endswith(a[0]),
                   replace=lambda I, o, a, k: o.replace(*a), lower=lambda I, o, a, k: o.lower(), upper=lambda I, o, a, k: o.upper(),
                   strip=lambda I, o, a, k: o.strip(*a), removeprefix=lambda I, o, a, k: o.removeprefix(*a),
                   partition=lambda I, o, a, k: o.partition(*a))


# ------------------------------------------------------------------ types
for _n in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'type', 'object', 'complex', 'bytes', 'frozenset',
           'Exception', 'BaseException', 'ValueError', 'TypeError', 'AssertionError', 'IndexError', 'KeyError', 'RuntimeError',
           'NotImplementedError', 'AttributeError', 'ZeroDivisionError', 'ImportError', 'ModuleNotFoundError', 'ArithmeticError',
           'OverflowError', 'FloatingPointError', 'LookupError', 'NameError'):
    BUILTINS[_n] = TypeV(_n)
BUILTINS['True'] = True
BUILTINS['NotImplemented'] = Opaque('NotImplemented')
for _n in ('ndarray', 'float16', 'float32', 'float64', 'int64', 'int32', 'floating', 'integer', 'number', 'bool_', 'generic'):
    LIB['numpy.' + _n] = TypeV('numpy.' + _n)
LIB['numpy.linalg.LinAlgError'] = TypeV('LinAlgError')
LIB['scipy.linalg.LinAlgError'] = TypeV('LinAlgError')
LIB['numpy.inf'] = Num(P(T.INF), 'float')
LIB['numpy.pi'] = Num(P(T.PI), 'float')
LIB['math.pi'] = Num(P(T.PI), 'float')
LIB['math.inf'] = Num(P(T.INF), 'float')
LIB['numpy.newaxis'] = None


def type_of(I, v):
    if v is None:
        return {'NoneType'}
    if isinstance(v, bool):
        return {'bool', 'int'}
    if isinstance(v, int):
        return {'int'}
    if isinstance(v, str):
        return {'str'}
    if isinstance(v, BoolV):
        return {'numpy.bool_', 'numpy.generic'} if v.np else {'bool', 'int'}
    if isinstance(v, Num):
        return {'float': {'float'}, 'int': {'int'}, 'npfloat': {'float', 'numpy.float64', 'numpy.floating', 'numpy.number', 'numpy.generic'},
                'npint': {'numpy.int64', 'numpy.integer', 'numpy.number', 'numpy.generic'}}[v.kind]
    if isinstance(v, tuple):
        return {'tuple'}
    if isinstance(v, DictV):
        return {'dict'}
    if isinstance(v, ListV):
        return {'list'}
    if isinstance(v, Arr):
        return {'numpy.ndarray'}
    if isinstance(v, (FuncV, BoundV, BuiltinV, OpaqueFn)):
        return {'function'}
    if isinstance(v, TypeV) or isinstance(v, ClassV):
        return {'type'}
    if isinstance(v, ObjV) and isinstance(v.cls, TypeV):
        return {v.cls.name}
    if isinstance(v, Opaque) and v.name == 'str':
        return {'str'}
    raise Unsupported('type of %r' % (v,))


@bi('isinstance')
def _isinstance(I, a, k):
    v, t = a
    ts = list(t) if isinstance(t, tuple) else [t]
    for x in ts:
        if isinstance(x, ClassV):
            if isinstance(v, ObjV) and isinstance(v.cls, ClassV) and x in v.cls.mro():
                return True
        elif isinstance(x, TypeV):
            if x.name == 'object':
                return True
            if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
                continue
            if isinstance(v, Opaque) and v.name != 'str':
                raise Unsupported('isinstance of opaque')
            if x.name in type_of(I, v):
                return True
        elif isinstance(x, tuple):
            if _isinstance(I, [v, x], {}):
                return True
        else:
            raise Unsupported('isinstance with %r' % (x,))
    return False


def call_type(I, t, a, k):
    n = t.name
    if n == 'float' or n == 'numpy.float64':
        if not a:
            return Num(T.ZERO, 'float')
        if isinstance(a[0], str):
            if a[0] in ('inf', 'Inf', 'infinity'):
                return Num(P(T.INF), 'float')
            raise Unsupported('float(str)')
        x = scalar_of(I, a[0])
        return Num(x.p, 'float' if n == 'float' else 'npfloat')
    if n == 'int' or n == 'numpy.int64':
        if not a:
            return 0
        x = scalar_of(I, a[0])
        kd = 'int' if n == 'int' else 'npint'
        if x.p.is_int:
            return mkint(x.p, kd)
        if x.p.const is not None:
            return mkint(K(int(x.p.const)), kd)
        if is_static_true(I, T.ge0(x.p)):
            return mkint(floor_term(I, x.p), kd)
        if I.decide(T.ge0(x.p)):
            return mkint(floor_term(I, x.p), kd)
        return mkint(T.neg(floor_term(I, T.neg(x.p))), kd)
    if n == 'bool':
        if not a:
            return False
        if isinstance(a[0], BoolV):
            return mkbool(a[0].b)
        if isinstance(a[0], Num):
            return mkbool(T.bnot(T.eq0(a[0].p)))
        return I.truth(a[0])
    if n == 'str':
        return a[0] if a and isinstance(a[0], str) else (str(a[0]) if a and isinstance(a[0], int) else Opaque('str'))
    if n == 'list':
        if not a:
            return I.new_list([])
        if isinstance(a[0], ListV) and not isinstance(a[0], DictV):
            return I.new_list(I.items(a[0]))
        s = I.iterate(a[0])
        if s.items is not None:
            return I.new_list(s.items)
        v = T.fresh('e', 'I', '>=', s.n)
        return I.new_list([Seg(s.n, v, I.freeze(s.elem(P(v))))])
    if n == 'tuple':
        if not a:
            return ()
        s = I.iterate(a[0])
        if s.items is not None:
            return tuple(s.items)
        return s
    if n == 'dict':
        if not a:
            return I.new_dict(k)
        if isinstance(a[0], DictV):
            d = dict(I.ditems(a[0]))
            d.update(k)
            return I.new_dict(d)
        s = I.iterate(a[0])
        if s.items is None:
            raise Unsupported('dict()')
        return I.new_dict({I.key(I.unpack(x, 2)[0]): I.unpack(x, 2)[1] for x in s.items})
    if n == 'type':
        v = a[0]
        if v is None:
            return TypeV('NoneType')
        if isinstance(v, ObjV):
            return v.cls
        ts = type_of(I, v)
        for c in ('numpy.float64', 'numpy.int64', 'numpy.bool_', 'numpy.ndarray', 'bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'function'):
            if c in ts:
                return TypeV(c)
        raise Unsupported('type()')
    if n == 'set':
        if not a:
            return ()
        s = I.iterate(a[0])
        if s.items is None or not all(isinstance(x, (str, int)) for x in s.items):
            raise Unsupported('set')
        out = []
        for x in s.items:
            if x not in out:
                out.append(x)
        return tuple(out)
    from .interp import EXC_PARENT
    if n in EXC_PARENT or n == 'BaseException':
        return I.new_obj(t, {})
    if n == 'object':
        return I.new_obj(t, {})
    raise Unsupported('call of type %s' % n)


def scalar_of(I, v):
    if isinstance(v, Arr):
        sh = I.shape(v)
        for s in sh:
            if not I.decide(T.eq(s, T.ONE)):
                raise PyExc('TypeError', 'only length-1 arrays can be converted')
        b = I.at(v, [T.ZERO] * len(sh))
        return Num(T.ind(b) if isinstance(b, Bool) else b, 'npint' if I.dt(v) == 'i' else 'npfloat')
    if v is None or isinstance(v, (str, ListV, tuple)):
        raise PyExc('TypeError', 'number expected')
    return tonum(v)


@bi('callable')
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, BuiltinV, OpaqueFn, ClassV, TypeV)):
        return True
    if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
        return v.cls.lookup('__call__')[1] is not None
    if isinstance(v, Opaque):
        raise Unsupported('callable(opaque)')
    return False


@bi('len')
def _len(I, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, DictV):
        return len(I.ditems(v))
    if isinstance(v, ListV):
        return mkint(I.seq_len(I.items(v)))
    if isinstance(v, Arr):
        sh = I.shape(v)
        if not sh:
            raise PyExc('TypeError', 'len() of unsized object')
        return mkint(sh[0])
    if isinstance(v, SeqV):
        return mkint(v.n)
    if isinstance(v, Opaque):
        raise Unsupported('len(opaque)')
    raise PyExc('TypeError', 'object has no len()')


@bi('range')
def _range(I, a, k):
    ps = [iv(x) for x in a]
    lo, hi, st = (T.ZERO, ps[0], T.ONE) if len(ps) == 1 else (ps[0], ps[1], ps[2] if len(ps) > 2 else T.ONE)
    if st.const is None:
        raise Unsupported('symbolic range step')
    s = int(st.const)
    d = hi - lo
    if d.const is not None:
        n = len(range(0, int(d.const), s)) if s else 0
        if n <= 64:
            return SeqV(K(n), lambda i: mkint(lo + T.scale(i, s)), [mkint(lo + K(i * s)) for i in range(n)])
        return SeqV(K(n), lambda i: mkint(lo + T.scale(i, s)))
    if s == 1:
        if not T.nonneg(d) and not I.decide(T.ge0(d)):
            return SeqV(T.ZERO, None, [])
        return SeqV(d, lambda i: mkint(lo + i))
    if s == -1:
        if not I.decide(T.ge0(T.neg(d))):
            return SeqV(T.ZERO, None, [])
        return SeqV(T.neg(d), lambda i: mkint(lo - i))
    raise Unsupported('range step')


def zip_len(I, ns):
    n = ns[0]
    for x in ns[1:]:
        if x is n or x is None:
            continue
        if n is None:
            n = x
            continue
        if I.decide(T.eq(n, x)):
            continue
        n = n if I.decide(T.lt(n, x)) else x
    return n


@bi('zip')
def _zip(I, a, k):
    k = {x: y for x, y in k.items() if x != 'strict'}
    if len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == '*' and isinstance(a[0][1], SeqV):
        s = a[0][1]
        v = T.fresh('z', 'I', '>=', s.n)
        t = I.freeze(s.elem(P(v)))
        if not isinstance(t, tuple):
            raise Unsupported('zip(*)')
        return SeqV(K(len(t)), None, [SegSeq(I, s.n, v, x) for x in t])
    ss = []
    for x in a:
        if isinstance(x, Opaque) and x.name == 'repeat':
            ss.append(x)
        else:
            ss.append(I.iterate(x))
    fin = [s for s in ss if isinstance(s, SeqV)]
    if not fin:
        raise Unsupported('zip of infinite')
    n = zip_len(I, [s.n for s in fin])

    def el(s, i):
        if isinstance(s, Opaque):
            return s.value
        if s.items is not None:
            if i.const is None:
                raise Unsupported('zip of concrete and symbolic')
            return s.items[int(i.const)]
        return s.elem(i)
    if n.const is not None:
        return SeqV(n, None, [tuple(el(s, K(i)) for s in ss) for i in range(int(n.const))])
    return SeqV(n, lambda i: tuple(el(s, i) for s in ss))


def SegSeq(I, n, v, tmpl):
    return SeqV(n, lambda i: I.thaw(I.vsubst(tmpl, {v: i})))


@bi('enumerate')
def _enumerate(I, a, k):
    s = I.iterate(a[0])
    st = tonum(arg(a, k, 1, 'start', 0)).p
    if s.items is not None:
        return SeqV(s.n, None, [(mkint(st + K(i)), x) for i, x in enumerate(s.items)])
    return SeqV(s.n, lambda i: (mkint(st + i), s.elem(i)))


@bi('reversed')
def _reversed(I, a, k):
    s = I.iterate(a[0])
    if s.items is not None:
        return SeqV(s.n, None, list(reversed(s.items)))
    return SeqV(s.n, lambda i: s.elem(s.n - T.ONE - i))


@bi('print')
def _print(I, a, k):
    return None


@bi('iter')
def _iter(I, a, k):
    return I.iterate(a[0])


@bi('map')
def _map(I, a, k):
    s = [I.iterate(x) for x in a[1:]]
    if all(x.items is not None for x in s):
        n = min(len(x.items) for x in s)
        return SeqV(K(n), None, [I.call(a[0], [x.items[i] for x in s], {}) for i in range(n)])
    from . import loops
    return loops.run_map(I, a[0], s)


def minmax(I, a, k, ismin):
    only(k, 'key', 'default')
    if k:
        raise Unsupported('min with key')
    if len(a) == 1:
        s = I.iterate(a[0])
        if s.items is None:
            arr = asarray(I, a[0])
            return (LIB['numpy.min'] if ismin else LIB['numpy.max']).fn(I, [arr], {})
        vals = s.items
    else:
        vals = a
    if not vals:
        raise PyExc('ValueError', 'min() arg is an empty sequence')
    r = vals[0]
    for x in vals[1:]:
        if isinstance(x, Arr) or isinstance(r, Arr):
            c = I.compare('Lt' if ismin else 'Gt', x, r)
            r = x if I.truth(c) else r
            continue
        if not (isnum(r) and isnum(x)):
            raise Unsupported('min of %r' % (x,))
        p, q = tonum(r), tonum(x)
        if p.kind == q.kind or True:
            t = T.ite(T.lt(q.p, p.p), q.p, p.p) if ismin else T.ite(T.gt(q.p, p.p), q.p, p.p)
            if t is p.p:
                continue
            kd = p.kind if p.kind == q.kind else ('npfloat' if 'npfloat' in (p.kind, q.kind) else 'float')
            r = mkint(t) if kd == 'int' else Num(t, kd)
    return r


BUILTINS['min'] = BuiltinV('min', lambda I, a, k: minmax(I, a, k, True))
BUILTINS['max'] = BuiltinV('max', lambda I, a, k: minmax(I, a, k, False))


@bi('sum')
def _sum(I, a, k):
    s = I.iterate(a[0])
    st = arg(a, k, 1, 'start', 0)
    if s.items is not None:
        r = st
        for x in s.items:
            r = I.binop(ast.Add(), r, x)
        return r
    v = T.fresh('e', 'I', '>=', s.n)
    e = s.elem(P(v))
    if isinstance(e, (Num, int, BoolV)):
        n = tonum(e)
        return I.binop(ast.Add(), st, Num(T.tsum(v, s.n, n.p), n.kind))
    if isinstance(e, Arr):
        lam = I.lam(e)
        return I.binop(ast.Add(), st, I.build(lam.shape, lambda ix: T.tsum(v, s.n, T.lam_open(lam, ix)), I.dt(e)))
    raise Unsupported('sum')


@bi('abs')
def _abs(I, a, k):
    v = a[0]
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Num):
        return Num(T.tabs(v.p), v.kind)
    return I.elementwise(lambda x: T.tabs(x[0]), [v], I.dt(v))


@bi('any')
def _any(I, a, k):
    return quantify(I, a[0], False)


@bi('all')
def _all(I, a, k):
    return quantify(I, a[0], True)


def quantify(I, v, isall):
    s = I.iterate(v)
    if s.items is not None:
        r = T.TRUE if isall else T.FALSE
        for x in s.items:
            b = tobool_term(x) if isinstance(x, (bool, BoolV)) else (T.TRUE if I.truth(x) else T.FALSE)
            r = T.band(r, b) if isall else T.bor(r, b)
        return mkbool(r)
    e = T.fresh('e', 'I', '>=', s.n)
    b = tobool_term(s.elem(P(e)))
    return mkbool(T.forall([e], [s.n], b) if isall else T.exists([e], [s.n], b))


@bi('getattr')
def _getattr(I, a, k):
    try:
        return I.getattr(a[0], a[1])
    except PyExc as e:
        if e.name == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


@bi('setattr')
def _setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


@bi('hasattr')
def _hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyExc:
        return False


@bi('slice')
def _slice(I, a, k):
    return SliceV(*((None, a[0], None) if len(a) == 1 else tuple(a) + (None,) * (3 - len(a))))


@bi('round')
def _round(I, a, k):
    if isinstance(a[0], int) and len(a) == 1:
        return a[0]
    x = tonum(a[0])
    if len(a) == 1 or a[1] is None:
        return mkint(rint_term(x.p))
    if k or not isinstance(a[1], int):
        raise Unsupported('round')
    return Num(round_to(x.p, a[1]), x.kind)


@bi('sorted')
def _sorted(I, a, k):
    s = I.iterate(a[0])
    if s.items is None or k:
        raise Unsupported('sorted')
    if all(isinstance(x, (int, str)) for x in s.items):
        return I.new_list(sorted(s.items))
    raise Unsupported('sorted')


@bi('id', 'repr', 'format')
def _opq(I, a, k):
    return Opaque('str')


BUILTINS['staticmethod'] = BuiltinV('staticmethod', lambda I, a, k: ('staticmethod', a[0]))
BUILTINS['property'] = BuiltinV('property', lambda I, a, k: ('property', a[0]))

from . import nplib  # noqa: E402,F401
matmul = nplib.matmul
