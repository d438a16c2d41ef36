"""Assumed contracts of numpy / scipy / cma / ... functions (each one is part of the trusted base)."""
import ast
import math as _m
from fractions import Fraction
from . import terms as T
from . import prove
from .terms import P, K, Poly, Bool, Lam
from .values import *
from . import npmodel as N
from .npmodel import lib, LIB, ARR_METHODS, OBJ_METHODS, arg, only, iv, conc_int, shape_arg, asarray, scalar_of, \
    cnt_term, nth_term, filt_info, diag_idx_lam, pieces, floor_term, rint_term, trunc_term, round_to


def arrof(I, v):
    """array-like -> Arr (no copy for arrays)"""
    if isinstance(v, Arr):
        return v
    if v is None:
        raise PyExc('TypeError', 'array expected')
    return asarray(I, v)


def num_body(b):
    return T.ind(b) if isinstance(b, Bool) else b


def method(*names):
    """register a function both as numpy.<n> and as ndarray method"""
    def d(f):
        for n in names:
            LIB['numpy.' + n] = BuiltinV('numpy.' + n, f)
            ARR_METHODS[n] = f
        return f
    return d


def _dtype(I, kw, a=None, i=None):
    d = kw.get('dtype')
    if a is not None and i is not None and i < len(a):
        d = a[i]
    if d is None:
        return None
    if isinstance(d, TypeV):
        n = d.name.replace('numpy.', '')
        if n in ('float', 'float64'):
            return 'f'
        if n in ('int', 'int64', 'integer'):
            return 'i'
        if n in ('bool', 'bool_'):
            return 'b'
    if isinstance(d, str) and d in ('float', 'float64'):
        return 'f'
    raise Unsupported('dtype %r' % (d,))


def astype(I, a, dt):
    if dt is None or dt == I.dt(a):
        return a
    d0 = I.dt(a)
    lam = I.lam(a)
    if dt == 'f':
        return I.build(lam.shape, lambda ix: num_body(T.lam_open(lam, ix)), 'f')
    if dt == 'i' and d0 == 'b':
        return I.build(lam.shape, lambda ix: T.ind(T.lam_open(lam, ix)), 'i')
    if dt == 'i' and d0 == 'f':
        return I.build(lam.shape, lambda ix: trunc_term(T.lam_open(lam, ix)), 'i')
    if dt == 'b' and d0 in ('f', 'i'):
        return I.build(lam.shape, lambda ix: T.bnot(T.eq0(T.lam_open(lam, ix))), 'b')
    raise Unsupported('astype')


@lib('numpy.array')
def np_array(I, a, k):
    only(k, 'dtype', 'copy')
    if isinstance(a[0], tuple) and len(a) == 1 and all(isinstance(x, (int, Num)) and tonum(x).kind in ISINT for x in a[0]):
        pass
    return astype(I, asarray(I, a[0]), _dtype(I, k, a, 1))


@lib('numpy.asarray')
def np_asarray(I, a, k):
    only(k, 'dtype')
    return astype(I, asarray(I, a[0], copy=False), _dtype(I, k, a, 1))


@lib('numpy.copy')
def np_copy(I, a, k):
    only(k)
    return I.copy(arrof(I, a[0]))


ARR_METHODS['copy'] = np_copy


def _astype_m(I, a, k):
    only(k, 'dtype', 'copy')
    d = a[1] if len(a) > 1 else k['dtype']
    return I.copy(astype(I, a[0], _dtype(I, {'dtype': d})))


ARR_METHODS['astype'] = _astype_m


def _tolist(I, a, k):
    v = a[0]
    sh = I.shape(v)
    if len(sh) == 1:
        s = I.iterate(v)
        if s.items is not None:
            return I.new_list([_pyscalar(x) for x in s.items])
        e = T.fresh('e', 'I', '>=', s.n)
        return I.new_list([Seg(s.n, e, _pyscalar(s.elem(P(e))))])
    raise Unsupported('tolist')


def _pyscalar(x):
    if isinstance(x, Num) and x.kind.startswith('np'):
        return Num(x.p, x.kind[2:])
    return x


ARR_METHODS['tolist'] = _tolist


def _item(I, a, k):
    if len(a) > 1:
        raise Unsupported('item(i)')
    return _pyscalar(scalar_of(I, a[0]))


ARR_METHODS['item'] = _item


def _fill(val):
    def f(I, a, k):
        only(k, 'dtype', 'shape')
        sh = shape_arg(I, arg(a, k, 0, 'shape'))
        dt = _dtype(I, k, a, 1) or 'f'
        if dt == 'b':
            return I.build(sh, lambda ix: T.TRUE if val else T.FALSE, 'b')
        return I.build(sh, lambda ix: K(val), dt)
    return f


LIB['numpy.zeros'] = BuiltinV('numpy.zeros', _fill(0))
LIB['numpy.ones'] = BuiltinV('numpy.ones', _fill(1))


@lib('numpy.full')
def np_full(I, a, k):
    only(k, 'dtype', 'shape', 'fill_value')
    sh = shape_arg(I, arg(a, k, 0, 'shape'))
    v = arg(a, k, 1, 'fill_value')
    if isinstance(v, (bool, BoolV)):
        b = tobool_term(v)
        return I.build(sh, lambda ix: b, 'b')
    n = np_scalar(I, v)
    dt = _dtype(I, k, a, 2) or ('i' if n.kind in ISINT else 'f')
    return I.build(sh, lambda ix: n.p, dt)


def _like(val):
    def f(I, a, k):
        only(k, 'dtype')
        x = arrof(I, a[0])
        dt = _dtype(I, k, a, 1) or I.dt(x)
        if dt == 'b':
            return I.build(I.shape(x), lambda ix: T.TRUE if val else T.FALSE, 'b')
        if not I.shape(x):
            return Num(K(val), 'npfloat' if dt == 'f' else 'npint')
        return I.build(I.shape(x), lambda ix: K(val), dt)
    return f


LIB['numpy.zeros_like'] = BuiltinV('numpy.zeros_like', _like(0))
LIB['numpy.ones_like'] = BuiltinV('numpy.ones_like', _like(1))


@lib('numpy.empty')
def np_empty(I, a, k):
    sh = shape_arg(I, arg(a, k, 0, 'shape'))
    return I.symarr('uninit', sh, 'f')


@lib('numpy.eye')
def np_eye(I, a, k):
    only(k, 'M', 'N', 'dtype')
    n = iv(arg(a, k, 0, 'N'))
    mv = arg(a, k, 1, 'M')
    m = n if mv is None else iv(mv)

    def body(ix):
        i, j = ix
        return T.ind(T.eq(i, j))
    return I.build((n, m), body, 'f')


LIB['numpy.identity'] = BuiltinV('numpy.identity', lambda I, a, k: np_eye(I, a[:1], {}))


@lib('numpy.arange')
def np_arange(I, a, k):
    only(k, 'dtype')
    s = LIB_RANGE(I, a, {})
    kd = 'i'
    if s.items is not None and s.n.const is not None:
        return asarray(I, tuple(s.items)) if s.items else I.build((T.ZERO,), lambda ix: T.ZERO, 'i')
    return I.build((s.n,), lambda ix: tonum(s.elem(ix[0])).p, kd)


def LIB_RANGE(I, a, k):
    return N.BUILTINS['range'].fn(I, a, k)


@lib('numpy.linspace')
def np_linspace(I, a, k):
    only(k, 'num', 'start', 'stop')
    lo, hi = np_scalar(I, arg(a, k, 0, 'start')).p, np_scalar(I, arg(a, k, 1, 'stop')).p
    n = iv(arg(a, k, 2, 'num', 50))
    if not I.decide(T.ge0(n)):
        raise PyExc('ValueError', 'negative number of samples')
    if n.const is not None and n.const <= 1:
        return I.build((n,), lambda ix: lo, 'f')
    if n.const is None and I.decide(T.le(n, T.ONE)):
        return I.build((n,), lambda ix: lo, 'f')
    return I.build((n,), lambda ix: lo + (hi - lo) * ix[0] / (n - T.ONE), 'f')


# ------------------------------------------------------------------ elementwise
def ufunc(name, fn, intok=False):
    def f(I, a, k):
        only(k)
        x = a[0]
        if isinstance(x, Arr):
            dt = 'i' if intok and I.dt(x) == 'i' else 'f'
        elif isnum(x):
            dt = 'i' if intok and tonum(x).kind in ISINT else 'f'
        else:
            dt = 'f'
        return I.elementwise(lambda v: fn(num_body(v[0])), [x], dt)
    LIB['numpy.' + name] = BuiltinV('numpy.' + name, f)
    return f


ufunc('exp', T.texp)
ufunc('log', T.tlog)
ufunc('sqrt', T.tsqrt)
np_abs = ufunc('abs', T.tabs, True)
ufunc('absolute', T.tabs, True)
ufunc('fabs', T.tabs)
ufunc('square', lambda p: p * p, True)
ufunc('negative', lambda p: -p, True)
ufunc('log2', lambda p: T.tlog(p) / T.tlog(K(2)))
ufunc('log1p', lambda p: T.tlog(p + T.ONE))
ufunc('expm1', lambda p: T.texp(p) - T.ONE)
ufunc('sin', lambda p: T.mkapp('sin', (p,)))
ufunc('cos', lambda p: T.mkapp('cos', (p,)))
ufunc('sign', lambda p: T.ind(T.gt0(p)) - T.ind(T.lt(p, T.ZERO)), True)


def _mathfn(n, fn):
    def f(I, a, k):
        x = scalar_of(I, a[0])
        return Num(fn(x.p), 'float')
    LIB['math.' + n] = BuiltinV('math.' + n, f)


_mathfn('exp', T.texp)
_mathfn('log', T.tlog)
_mathfn('sqrt', T.tsqrt)
_mathfn('fabs', T.tabs)


def _ceilfloor(n, fl):
    def f(I, a, k):
        x = np_scalar(I, a[0])
        t = floor_term(I, x.p) if fl else -floor_term(I, -x.p)
        return Num(t, 'npfloat')

    def g(I, a, k):
        x = scalar_of(I, a[0])
        return mkint(floor_term(I, x.p) if fl else -floor_term(I, -x.p))
    LIB['numpy.' + n] = BuiltinV('numpy.' + n, f)
    LIB['math.' + n] = BuiltinV('math.' + n, g)


_ceilfloor('ceil', False)
_ceilfloor('floor', True)


def binufunc(name, fn, boolean=False, forcef=False):
    def f(I, a, k):
        only(k)
        x, y = I.as_operand(a[0]), I.as_operand(a[1])
        d = [I.dt(v) if isinstance(v, Arr) else ('b' if isinstance(v, (bool, BoolV)) else 'i' if tonum(v).kind in ISINT else 'f') for v in (x, y)]
        dt = 'f' if 'f' in d or forcef else 'i'
        if boolean:
            return I.elementwise(lambda v: fn(*[b if isinstance(b, Bool) else T.bnot(T.eq0(b)) for b in v]), [x, y], 'b')
        return I.elementwise(lambda v: fn(*[num_body(b) for b in v]), [x, y], dt)
    LIB['numpy.' + name] = BuiltinV('numpy.' + name, f)


binufunc('maximum', lambda x, y: T.tmax(x, y))
binufunc('minimum', lambda x, y: T.tmin(x, y))
binufunc('fmax', lambda x, y: T.tmax(x, y))
binufunc('fmin', lambda x, y: T.tmin(x, y))
binufunc('logical_and', lambda x, y: T.band(x, y), True)
binufunc('logical_or', lambda x, y: T.bor(x, y), True)


def _op(name, o):
    def f(I, a, k):
        only(k)
        return I.binop(o, arrof(I, a[0]) if not isnum(a[0]) else a[0], arrof(I, a[1]) if not isnum(a[1]) else a[1])
    LIB['numpy.' + name] = BuiltinV('numpy.' + name, f)


for _n, _o in (('add', ast.Add()), ('subtract', ast.Sub()), ('multiply', ast.Mult()), ('divide', ast.Div()), ('true_divide', ast.Div()),
               ('power', ast.Pow())):
    _op(_n, _o)


def _cmp(name, o):
    LIB['numpy.' + name] = BuiltinV('numpy.' + name, lambda I, a, k: I.compare(o, a[0] if isnum(a[0]) else arrof(I, a[0]), a[1] if isnum(a[1]) else arrof(I, a[1])))


for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    _cmp(_n, _o)


@lib('numpy.logical_not')
def np_lnot(I, a, k):
    return I.elementwise(lambda v: T.bnot(v[0]) if isinstance(v[0], Bool) else T.eq0(v[0]), [a[0]], 'b')


@method('clip')
def np_clip(I, a, k):
    only(k, 'a_min', 'a_max', 'min', 'max')
    lo = arg(a, k, 1, 'a_min', k.get('min'))
    hi = arg(a, k, 2, 'a_max', k.get('max'))
    x = a[0]
    dt = 'f'
    if isinstance(x, Arr) and I.dt(x) == 'i' and all(v is None or isnum(v) and tonum(v).kind in ISINT for v in (lo, hi)):
        dt = 'i'
    if lo is not None:
        x = I.elementwise(lambda v: T.tmax(v[0], v[1]), [x, lo], dt)
    if hi is not None:
        x = I.elementwise(lambda v: T.tmin(v[0], v[1]), [x, hi], dt)
    return x


@lib('numpy.isnan')
def np_isnan(I, a, k):
    return I.elementwise(lambda v: T.FALSE, [a[0]], 'b')


@lib('numpy.isinf')
def np_isinf(I, a, k):
    return I.elementwise(lambda v: T.eq(T.tabs(v[0]), P(T.INF)), [a[0]], 'b')


@lib('numpy.isfinite')
def np_isfinite(I, a, k):
    return I.elementwise(lambda v: T.bnot(T.eq(T.tabs(v[0]), P(T.INF))), [a[0]], 'b')


# ------------------------------------------------------------------ reductions
def axes_of(I, nd, ax):
    if ax is None:
        return list(range(nd))
    if isinstance(ax, tuple):
        l = [conc_int(x) for x in ax]
    else:
        l = [conc_int(ax)]
    r = []
    for x in l:
        if x < -nd or x >= nd:
            raise PyExc('AxisError', 'axis out of bounds')
        r.append(x % nd)
    return r


def reduce_(I, a, k, fn, dt=None, nonempty=None, pos_axis=1):
    """fn(list of (var, n), body) -> body"""
    x = arrof(I, a[0])
    ax = arg(a, k, pos_axis, 'axis')
    keep = k.get('keepdims', False)
    sh = I.shape(x)
    axs = axes_of(I, len(sh), ax)
    if nonempty:
        for i in axs:
            if not I.decide(T.gt0(sh[i])):
                raise PyExc('ValueError', nonempty)
    lam = I.lam(x)
    rv = {i: T.fresh('r', 'I', '>=', sh[i]) for i in axs}
    oshape = [sh[i] for i in range(len(sh)) if i not in rv]
    dt = dt or I.dt(x)

    def body(oix):
        it = iter(oix)
        idx = []
        for i in range(len(sh)):
            if i in rv:
                idx.append(T.ZERO if sh[i] is T.ONE else P(rv[i]))
            else:
                idx.append(next(it))
        b = T.lam_open(lam, idx)
        return fn([(rv[i], sh[i]) for i in axs], b)
    if not oshape and not keep:
        b = body([])
        if isinstance(b, Bool):
            return mkbool(b, True)
        return Num(b, 'npint' if dt == 'i' else 'npfloat')
    r = I.build(tuple(oshape), body, dt)
    if keep:
        ns = tuple(T.ONE if i in rv else sh[i] for i in range(len(sh)))
        lam2 = I.lam(r)
        return I.build(ns, lambda ix: T.lam_open(lam2, [ix[i] for i in range(len(sh)) if i not in rv]), dt)
    return r


def _sumof(vs, b):
    b = num_body(b)
    for v, n in reversed(vs):
        b = T.tsum(v, n, b)
    return b


@method('sum')
def np_sum(I, a, k):
    only(k, 'axis', 'keepdims')
    x = arrof(I, a[0])
    return reduce_(I, [x] + list(a[1:]), k, _sumof, 'f' if I.dt(x) == 'f' else 'i')


def _count(vs):
    n = T.ONE
    for v, m in vs:
        n = n * m
    return n


@method('mean')
def np_mean(I, a, k):
    only(k, 'axis', 'keepdims')
    return reduce_(I, a, k, lambda vs, b: _sumof(vs, b) / _count(vs), 'f')


LIB['numpy.average'] = BuiltinV('numpy.average', lambda I, a, k: np_mean(I, a, k))


def _var(vs, b, ddof):
    n = _count(vs)
    b = num_body(b)
    mean = _sumof(vs, b) / n
    # the bound variables of the mean are summed out already; b still has them free
    return _sumof(vs, (b - mean) * (b - mean)) / (n - ddof)


@method('var')
def np_var(I, a, k):
    only(k, 'axis', 'ddof', 'keepdims')
    dd = tonum(k.get('ddof', 0)).p
    return reduce_(I, a, k, lambda vs, b: _var(vs, b, dd), 'f')


@method('std')
def np_std(I, a, k):
    only(k, 'axis', 'ddof', 'keepdims')
    dd = tonum(k.get('ddof', 0)).p
    return reduce_(I, a, k, lambda vs, b: T.tsqrt(_var(vs, b, dd)), 'f')


def _split_indep(b, v):
    dep, ind_ = {}, {}
    for m, c in b.mons.items():
        if any(v in f.fv for f, e in m):
            dep[m] = c
        else:
            ind_[m] = c
    return T.mkpoly(dep), T.mkpoly(ind_)


def _pos_scale(b):
    """rational content > 0"""
    if not b.mons:
        return Fraction(1)
    m = min(b.mons, key=lambda t: (T.mono_key(t)))
    return abs(b.mons[m])


def rmin_term(v, n, b):
    if n is T.ONE:
        return T.subst(b, {v: T.ZERO})
    if v not in b.fv:
        return b
    dep, ind_ = _split_indep(b, v)
    c = _pos_scale(dep)
    dep = T.scale(dep, 1 / c)
    return T.scale(P(T.App('rmin', (T.mklam([v], [n], dep),))), c) + ind_


def argmin_term(v, n, b):
    if n is T.ONE or v not in b.fv:
        return T.ZERO
    dep, _ = _split_indep(b, v)
    dep = T.scale(dep, 1 / _pos_scale(dep))
    a = T.App('argmin', (T.mklam([v], [n], dep),), 'I', '>=')
    a.meta = n
    return P(a)


def _rb_rmin(a):
    l = a[0]
    v = T.fresh('r', 'I', '>=', l.shape[0])
    return rmin_term(v, l.shape[0], T.lam_open(l, [P(v)]))


def _rb_argmin(a):
    l = a[0]
    v = T.fresh('r', 'I', '>=', l.shape[0])
    return argmin_term(v, l.shape[0], T.lam_open(l, [P(v)]))


T.REBUILD['rmin'] = _rb_rmin
T.REBUILD['argmin'] = _rb_argmin


def _minof(vs, b):
    b = num_body(b)
    for v, n in reversed(vs):
        b = rmin_term(v, n, b)
    return b


def _mn(I, a, k):
    only(k, 'axis', 'keepdims', 'initial')
    if 'initial' in k:
        raise Unsupported('min initial')
    return reduce_(I, a, k, _minof, None, 'zero-size array to reduction operation minimum')


def _mx(I, a, k):
    only(k, 'axis', 'keepdims')
    return reduce_(I, a, k, lambda vs, b: -_minof(vs, -num_body(b)), None, 'zero-size array to reduction operation maximum')


for _n in ('min', 'amin', 'nanmin'):
    LIB['numpy.' + _n] = BuiltinV('numpy.min', _mn)
for _n in ('max', 'amax', 'nanmax'):
    LIB['numpy.' + _n] = BuiltinV('numpy.max', _mx)
ARR_METHODS['min'] = _mn
ARR_METHODS['max'] = _mx


@method('ptp')
def np_ptp(I, a, k):
    return I.binop(ast.Sub(), _mx(I, a, k), _mn(I, a, k))


def _arg(ismin):
    def f(I, a, k):
        only(k, 'axis')
        x = arrof(I, a[0])
        ax = arg(a, k, 1, 'axis')
        sh = I.shape(x)
        lam = I.lam(x)
        if ax is None:
            live = [i for i, s in enumerate(sh) if s is not T.ONE]
            if len(live) > 1:
                raise Unsupported('argmin over a matrix')
            if not live:
                return Num(T.ZERO, 'npint')
            i = live[0]
            if not I.decide(T.gt0(sh[i])):
                raise PyExc('ValueError', 'attempt to get argmin of an empty sequence')
            v = T.fresh('r', 'I', '>=', sh[i])
            b = num_body(T.lam_open(lam, [P(v) if j == i else T.ZERO for j in range(len(sh))]))
            return Num(argmin_term(v, sh[i], b if ismin else -b), 'npint')
        i = axes_of(I, len(sh), ax)[0]
        if not I.decide(T.gt0(sh[i])):
            raise PyExc('ValueError', 'attempt to get argmin of an empty sequence')
        v = T.fresh('r', 'I', '>=', sh[i])

        def body(ix):
            idx = list(ix[:i]) + [P(v)] + list(ix[i:])
            b = num_body(T.lam_open(lam, idx))
            return argmin_term(v, sh[i], b if ismin else -b)
        o = sh[:i] + sh[i + 1:]
        if not o:
            return Num(body([]), 'npint')
        return I.build(o, body, 'i')
    return f


method('argmin')(_arg(True))
method('argmax')(_arg(False))


def _quant(isall):
    def f(I, a, k):
        only(k, 'axis', 'keepdims')
        x = a[0]
        if isinstance(x, (bool, BoolV)):
            return x
        x = arrof(I, x)

        def q(vs, b):
            b = b if isinstance(b, Bool) else T.bnot(T.eq0(b))
            live = [(v, n) for v, n in vs]
            if not live:
                return b
            return (T.forall if isall else T.exists)([v for v, n in live], [n for v, n in live], b)
        return reduce_(I, [x] + list(a[1:]), k, q, 'b')
    return f


method('all')(_quant(True))
method('any')(_quant(False))


@method('cumsum')
def np_cumsum(I, a, k):
    only(k, 'axis')
    x = arrof(I, a[0])
    ax = arg(a, k, 1, 'axis')
    sh = I.shape(x)
    if ax is None and len(sh) != 1:
        raise Unsupported('cumsum flatten')
    i = axes_of(I, len(sh), 0 if ax is None else ax)[0]
    lam = I.lam(x)

    def body(ix):
        v = T.fresh('c', 'I', '>=', ix[i] + T.ONE)
        return T.tsum(v, ix[i] + T.ONE, num_body(T.lam_open(lam, list(ix[:i]) + [P(v)] + list(ix[i + 1:]))))
    return I.build(sh, body, 'f' if I.dt(x) == 'f' else 'i')


def _minacc(I, a, k):
    only(k, 'axis')
    x = arrof(I, a[0])
    sh = I.shape(x)
    ax = arg(a, k, 1, 'axis', 0)
    i = axes_of(I, len(sh), ax)[0]
    lam = I.lam(x)

    def body(ix):
        v = T.fresh('c', 'I', '>=', ix[i] + T.ONE)
        return rmin_term(v, ix[i] + T.ONE, T.lam_open(lam, list(ix[:i]) + [P(v)] + list(ix[i + 1:])))
    return I.build(sh, body, I.dt(x))


LIB['numpy.minimum.accumulate'] = BuiltinV('numpy.minimum.accumulate', _minacc)


def _minreduce(I, a, k):
    return _mn(I, a, dict({'axis': 0}, **k))


LIB['numpy.minimum.reduce'] = BuiltinV('numpy.minimum.reduce', _minreduce)
LIB['numpy.maximum.reduce'] = BuiltinV('numpy.maximum.reduce', lambda I, a, k: _mx(I, a, dict({'axis': 0}, **k)))
LIB['numpy.add.reduce'] = BuiltinV('numpy.add.reduce', lambda I, a, k: np_sum(I, a, dict({'axis': 0}, **k)))


# ------------------------------------------------------------------ linear algebra
def matmul(I, a, b):
    a, b = arrof(I, a) if not isnum(a) else a, arrof(I, b) if not isnum(b) else b
    if isnum(a) or isnum(b):
        raise PyExc('ValueError', 'matmul: scalar operand')
    return dot2(I, a, b)


def dot2(I, a, b):
    sa, sb = I.shape(a), I.shape(b)
    if not sa or not sb:
        return I.binop(ast.Mult(), a, b)
    if len(sa) > 2 or len(sb) > 2:
        raise Unsupported('dot of tensors')
    n, m = sa[-1], sb[0]
    if n is not m and not I.decide(T.eq(n, m)):
        raise PyExc('ValueError', 'shapes not aligned')
    if n.const is None and m.const is not None:
        n = m
    la, lb = I.lam(a), I.lam(b)
    o = sa[:-1] + sb[1:]
    v = T.fresh('k', 'I', '>=', n)
    kk = T.ZERO if n is T.ONE else P(v)

    def body(ix):
        p = num_body(T.lam_open(la, list(ix[:len(sa) - 1]) + [kk]))
        q = num_body(T.lam_open(lb, [kk] + list(ix[len(sa) - 1:])))
        return T.tsum(v, n, p * q)
    dt = 'f' if 'f' in (I.dt(a), I.dt(b)) else 'i'
    if not o:
        return Num(body([]), 'npfloat' if dt == 'f' else 'npint')
    return I.build(o, body, dt)


@method('dot')
def np_dot(I, a, k):
    x, y = a
    if isnum(x) or isnum(y):
        return I.binop(ast.Mult(), x, y)
    return dot2(I, arrof(I, x), arrof(I, y))


LIB['numpy.matmul'] = BuiltinV('numpy.matmul', lambda I, a, k: matmul(I, a[0], a[1]))
LIB['numpy.inner'] = BuiltinV('numpy.inner', lambda I, a, k: dot2(I, arrof(I, a[0]), N.transpose(I, arrof(I, a[1]))))


@lib('numpy.linalg.multi_dot')
def np_multidot(I, a, k):
    xs = I.iterate(a[0]).items
    r = xs[0]
    for x in xs[1:]:
        r = dot2(I, r, x)
    return r


@lib('numpy.outer')
def np_outer(I, a, k):
    x, y = arrof(I, a[0]), arrof(I, a[1])
    if len(I.shape(x)) != 1 or len(I.shape(y)) != 1:
        raise Unsupported('outer')
    la, lb = I.lam(x), I.lam(y)
    return I.build((I.shape(x)[0], I.shape(y)[0]), lambda ix: T.lam_open(la, [ix[0]]) * T.lam_open(lb, [ix[1]]), 'f')


@lib('numpy.einsum')
def np_einsum(I, a, k):
    only(k, 'optimize')
    spec = a[0]
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    ops = [arrof(I, x) for x in a[1:]]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = [c for c in ins if c != ',']
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops) or '.' in spec:
        raise Unsupported('einsum')
    dims = {}
    for s, x in zip(ins, ops):
        sh = I.shape(x)
        if len(sh) != len(s):
            raise PyExc('ValueError', 'einsum operand has wrong number of dimensions')
        for c, d in zip(s, sh):
            if c in dims and dims[c] is not d:
                if dims[c] is T.ONE:
                    dims[c] = d
                elif d is T.ONE:
                    pass
                elif not I.decide(T.eq(dims[c], d)):
                    raise PyExc('ValueError', 'einsum dimension mismatch')
            dims.setdefault(c, d)
    lams = [I.lam(x) for x in ops]
    shs = [I.shape(x) for x in ops]
    red = [c for c in dims if c not in out]
    rv = {c: T.fresh('e', 'I', '>=', dims[c]) for c in red}

    def body(ix):
        env = {c: ix[i] for i, c in enumerate(out)}
        for c in red:
            env[c] = P(rv[c])
        b = T.ONE
        for s, l, sh in zip(ins, lams, shs):
            b = b * num_body(T.lam_open(l, [T.ZERO if sh[i] is T.ONE else env[c] for i, c in enumerate(s)]))
        for c in reversed(red):
            b = T.tsum(rv[c], dims[c], b)
        return b
    if not out:
        return Num(body([]), 'npfloat')
    return I.build(tuple(dims[c] for c in out), body, 'f')


@method('trace')
def np_trace(I, a, k):
    only(k)
    x = arrof(I, a[0])
    sh = I.shape(x)
    if len(sh) != 2:
        raise Unsupported('trace')
    if not I.same_dim(sh[0], sh[1]):
        raise Unsupported('trace of non-square')
    v = T.fresh('t', 'I', '>=', sh[0])
    return Num(T.tsum(v, sh[0], num_body(I.at(x, [P(v), P(v)]))), 'npfloat' if I.dt(x) == 'f' else 'npint')


@method('diagonal')
def np_diagonal(I, a, k):
    only(k)
    x = arrof(I, a[0])
    sh = I.shape(x)
    if len(sh) != 2:
        raise Unsupported('diagonal')
    if not I.same_dim(sh[0], sh[1]):
        raise Unsupported('diagonal of non-square')
    lam = I.lam(x)
    return I.build((sh[0],), lambda ix: T.lam_open(lam, [ix[0], ix[0]]), I.dt(x))


@lib('numpy.diag')
def np_diag(I, a, k):
    only(k)
    x = arrof(I, a[0])
    sh = I.shape(x)
    if len(sh) == 1:
        lam = I.lam(x)
        return I.build((sh[0], sh[0]), lambda ix: T.ite(T.eq(ix[0], ix[1]), T.lam_open(lam, [ix[0]]), T.ZERO), I.dt(x))
    return np_diagonal(I, [x], {})


def is_sym(lam):
    """entry (i,j) is the same normal form as (j,i)"""
    if len(lam.shape) != 2 or lam.shape[0] is not lam.shape[1]:
        return False
    i, j = T.fresh('i', 'I', '>=', lam.shape[0]), T.fresh('j', 'I', '>=', lam.shape[0])
    return T.lam_open(lam, [P(i), P(j)]) is T.lam_open(lam, [P(j), P(i)])


def inv_term(lam, i, j):
    if lam.shape[0] is T.ONE:
        return T.power(T.lam_open(lam, [T.ZERO, T.ZERO]), -1)
    if is_sym(lam):
        if j.uid < i.uid:
            i, j = j, i
        return P(T.App('invs', (lam, i, j)))
    return P(T.App('inv', (lam, i, j)))


_symcache = {}


def _rb_invs(a):
    return inv_term(a[0], a[1], a[2])


T.REBUILD['invs'] = _rb_invs
T.SYM_APPS['invs'] = {1, 2}
prove.NUM_APPS['invs'] = prove.NUM_APPS['inv']
T.REBUILD['inv'] = _rb_invs


def square_lam(I, x):
    x = arrof(I, x)
    sh = I.shape(x)
    if len(sh) != 2:
        raise PyExc('LinAlgError', 'must be 2-dimensional')
    if sh[0] is not sh[1] and not I.decide(T.eq(sh[0], sh[1])):
        raise PyExc('LinAlgError', 'must be square')
    lam = I.lam(x)
    if sh[0] is not sh[1]:
        n = sh[0] if sh[0].const is not None else sh[1]
        vs = [T.fresh('i', 'I', '>=', n) for _ in range(2)]
        lam = T.mklam(vs, [n, n], T.lam_open(lam, [P(v) for v in vs]))
    return lam


@lib('numpy.linalg.inv', 'scipy.linalg.inv')
def np_inv(I, a, k):
    only(k)
    lam = square_lam(I, a[0])
    if not I.decide(T.bapp('invertible', (lam,))):
        raise PyExc('LinAlgError', 'Singular matrix')
    return I.build(lam.shape, lambda ix: inv_term(lam, ix[0], ix[1]), 'f')


@lib('numpy.linalg.solve')
def np_solve(I, a, k):
    only(k)
    lam = square_lam(I, a[0])
    b = arrof(I, a[1])
    if not I.decide(T.bapp('invertible', (lam,))):
        raise PyExc('LinAlgError', 'Singular matrix')
    inv = I.build(lam.shape, lambda ix: inv_term(lam, ix[0], ix[1]), 'f')
    return dot2(I, inv, b)


@lib('numpy.linalg.slogdet')
def np_slogdet(I, a, k):
    lam = square_lam(I, a[0])
    return (Num(P(T.App('detsign', (lam,))), 'npfloat'), Num(P(T.App('logabsdet', (lam,))), 'npfloat'))


@lib('numpy.linalg.det')
def np_det(I, a, k):
    lam = square_lam(I, a[0])
    return Num(P(T.App('detsign', (lam,))) * T.texp(P(T.App('logabsdet', (lam,)))), 'npfloat')


CHOL = {}


def chol_lam(lam):
    vs = [T.fresh('i', 'I', '>=', s) for s in lam.shape]
    i, j = P(vs[0]), P(vs[1])
    c = T.mklam(vs, lam.shape, T.ite(T.le(j, i), P(T.App('chol', (lam, i, j))), T.ZERO))
    CHOL[c] = lam
    return c


def find_chol(l):
    """lower-triangular factor -> the matrix it factors"""
    i, j = T.fresh('i', 'I', '>=', l.shape[0]), T.fresh('j', 'I', '>=', l.shape[1])
    b = T.lam_open(l, [P(i), P(j)])
    for m in b.mons:
        for f, e in m:
            if f.kind == 'app' and f.name == 'chol' and i not in f.args[0].fv and j not in f.args[0].fv:
                if chol_lam(f.args[0]) is l:
                    return f.args[0]
    return None


def _cholesky(I, x, lower):
    lam = square_lam(I, x)
    if not is_sym(lam):
        raise Unsupported('cholesky of a matrix not symmetric by normal form')
    if not I.decide(T.bapp('posdef', (lam,))):
        raise PyExc('LinAlgError', 'not positive definite')
    c = chol_lam(lam)
    r = I.arr_new(c, 'f')
    return r if lower else I.copy(N.transpose(I, r))


@lib('scipy.linalg.cholesky')
def sp_cholesky(I, a, k):
    only(k, 'lower', 'overwrite_a', 'check_finite')
    lw = arg(a, k, 1, 'lower', False)
    return _cholesky(I, a[0], I.truth(lw))


LIB['numpy.linalg.cholesky'] = BuiltinV('numpy.linalg.cholesky', lambda I, a, k: _cholesky(I, a[0], True))


@lib('scipy.linalg.cho_solve')
def sp_cho_solve(I, a, k):
    only(k, 'overwrite_b', 'check_finite')
    L, lower = I.unpack(a[0], 2)
    b = arrof(I, a[1])
    if not I.truth(lower):
        L = N.transpose(I, L)
    lam = find_chol(I.lam(L))
    if lam is None:
        raise Unsupported('cho_solve of an unknown factor')
    if not I.same_dim(lam.shape[0], I.shape(b)[0]):
        raise PyExc('ValueError', 'incompatible dimensions')
    inv = I.build(lam.shape, lambda ix: inv_term(lam, ix[0], ix[1]), 'f')
    return dot2(I, inv, b)


@lib('scipy.linalg.cho_factor')
def sp_cho_factor(I, a, k):
    only(k, 'lower')
    lw = I.truth(arg(a, k, 1, 'lower', False))
    if not lw:
        raise Unsupported('cho_factor upper')
    raise Unsupported('cho_factor')


@lib('numpy.linalg.norm')
def np_norm(I, a, k):
    only(k, 'axis', 'ord', 'keepdims')
    x = arrof(I, a[0])
    o = arg(a, k, 1, 'ord')
    ax = arg(a, k, 2, 'axis')
    sh = I.shape(x)
    if o is not None and not (isnum(o) and tonum(o).p.const == 2 and (ax is not None or len(sh) == 1)):
        raise Unsupported('norm ord')
    kk = {}
    if ax is not None:
        if isinstance(ax, tuple):
            raise Unsupported('matrix norm')
        kk['axis'] = ax
    if 'keepdims' in k:
        kk['keepdims'] = k['keepdims']
    return reduce_(I, [x], kk, lambda vs, b: T.tsqrt(_sumof(vs, b * b)), 'f')


@lib('scipy.spatial.distance.cdist')
def sp_cdist(I, a, k):
    only(k, 'metric', 'XA', 'XB')
    metric = arg(a, k, 2, 'metric', 'euclidean')
    x, y = arrof(I, arg(a, k, 0, 'XA')), arrof(I, arg(a, k, 1, 'XB'))
    sx, sy = I.shape(x), I.shape(y)
    if len(sx) != 2 or len(sy) != 2:
        raise PyExc('ValueError', 'cdist requires 2-dimensional arrays')
    n = sx[1]
    if n is not sy[1] and not I.decide(T.eq(n, sy[1])):
        raise PyExc('ValueError', 'cdist dimension mismatch')
    if metric not in ('euclidean', 'sqeuclidean'):
        raise Unsupported('cdist metric')
    lx, ly = I.lam(x), I.lam(y)
    v = T.fresh('k', 'I', '>=', n)
    kk = T.ZERO if n is T.ONE else P(v)

    def body(ix):
        d = T.lam_open(lx, [ix[0], kk]) - T.lam_open(ly, [ix[1], kk])
        s = T.tsum(v, n, d * d)
        return T.tsqrt(s) if metric == 'euclidean' else s
    return I.build((sx[0], sy[0]), body, 'f')


# ------------------------------------------------------------------ shape manipulation
@lib('numpy.transpose')
def np_transpose(I, a, k):
    only(k)
    if len(a) > 1:
        raise Unsupported('transpose axes')
    return N.transpose(I, arrof(I, a[0]))


ARR_METHODS['transpose'] = np_transpose


@method('squeeze')
def np_squeeze(I, a, k):
    only(k, 'axis')
    x = a[0]
    if isnum(x):
        return x
    x = arrof(I, x)
    ax = arg(a, k, 1, 'axis')
    sh = I.shape(x)
    if ax is None:
        drop = []
        for i, s in enumerate(sh):
            if s.const is not None:
                if s.const == 1:
                    drop.append(i)
            elif I.decide(T.eq(s, T.ONE)):
                drop.append(i)
    else:
        drop = axes_of(I, len(sh), ax)
        for i in drop:
            if not I.decide(T.eq(sh[i], T.ONE)):
                raise PyExc('ValueError', 'cannot select an axis to squeeze out')
    axes, _ = I.full_view(x)
    newpos = {}
    p = 0
    for i in range(len(sh)):
        if i not in drop:
            newpos[i] = p
            p += 1
    na = []
    for e in axes:
        if e[0] == 'ax':
            na.append(('fix', e[2]) if e[1] in drop else ('ax', newpos[e[1]], e[2], e[3]))
        else:
            na.append(e)
    return Arr(x.cell, (tuple(na), tuple(sh[i] for i in range(len(sh)) if i not in drop)), x.ro)


@lib('numpy.expand_dims')
def np_expand(I, a, k):
    only(k, 'axis')
    x = arrof(I, a[0])
    ax = conc_int(arg(a, k, 1, 'axis'))
    nd = len(I.shape(x))
    if ax < 0:
        ax += nd + 1
    if ax < 0 or ax > nd:
        raise PyExc('AxisError')
    ix = [SliceV(None, None, None)] * nd
    ix.insert(ax, None)
    return N.basic_index(I, x, tuple(ix)) if nd else I.build((T.ONE,), lambda q: I.at(x, []), I.dt(x))


def _atleast(nd):
    def f(I, a, k):
        x = arrof(I, a[0])
        sh = I.shape(x)
        lam = I.lam(x)
        if len(sh) >= nd:
            return x
        if nd == 1:
            return I.build((T.ONE,), lambda ix: T.lam_open(lam, []), I.dt(x))
        if nd == 2 and len(sh) == 0:
            return I.build((T.ONE, T.ONE), lambda ix: T.lam_open(lam, []), I.dt(x))
        if nd == 2:
            return N.basic_index(I, x, (None, SliceV(None, None, None)))
        raise Unsupported('atleast_3d')
    return f


LIB['numpy.atleast_1d'] = BuiltinV('numpy.atleast_1d', _atleast(1))
LIB['numpy.atleast_2d'] = BuiltinV('numpy.atleast_2d', _atleast(2))


def idiv_imod(t, m):
    """t = q*m + r with 0<=r<m, for t of recognisable affine form"""
    q = _rb_idiv((t, m))
    return q, t - q * m


def _rb_idiv(args):
    t, m = args
    if t.const is not None and m.const is not None and m.const > 0:
        return K(int(t.const) // int(m.const))
    if len(m.mons) == 1:
        (mm, mc), = m.mons.items()
        if mc == 1:
            quo, rest = T.ZERO, T.ZERO
            for mon, co in t.mons.items():
                d = dict(mon)
                ok = co.denominator == 1
                for f, e in mm:
                    if d.get(f, 0) >= e:
                        d[f] = d[f] - e
                        if not d[f]:
                            del d[f]
                    else:
                        ok = False
                one = T.mkpoly({mon: co})
                if ok:
                    r = K(co)
                    for f, e in d.items():
                        r = T.mul(r, T.power(P(f), e))
                    quo = quo + r
                else:
                    rest = rest + one
            if rest is T.ZERO:
                return quo
            if len(rest.mons) == 1:
                (rm, rc), = rest.mons.items()
                rm = tuple(rm)
                if rc == 1 and len(rm) == 1 and rm[0][1] == 1 and rm[0][0].kind == 'var' and rm[0][0].rng is m:
                    return quo
    return P(T.App('idiv', (t, m), 'I', '>='))


T.REBUILD['idiv'] = _rb_idiv
prove.NUM_APPS['idiv'] = lambda t, m: int(t) // int(m)
prove.APP_AXIOMS['idiv'] = lambda a: [T.le(P(a) * a.args[1], a.args[0]), T.lt(a.args[0], P(a) * a.args[1] + a.args[1])]


def reshape_to(I, x, new):
    sh = I.shape(x)
    if len(new) == len(sh) and all(a is b for a, b in zip(new, sh)):
        return Arr(x.cell, x.view, x.ro)
    # drop unit axes on both sides: if the remaining dims agree, it is a relabelling (a view)
    so = [i for i, s in enumerate(sh) if s is not T.ONE]
    sn = [i for i, s in enumerate(new) if s is not T.ONE]
    lam = I.lam(x)
    if len(so) == len(sn) and all(sh[i] is new[j] or is_true(I, T.eq(sh[i], new[j])) for i, j in zip(so, sn)):
        pos = {i: j for i, j in zip(so, sn)}
        axes, _ = I.full_view(x)
        na = []
        for e in axes:
            if e[0] == 'ax':
                na.append(('ax', pos[e[1]], e[2], e[3]) if e[1] in pos else ('fix', e[2]))
            else:
                na.append(e)
        if x.view is None or True:
            return Arr(x.cell, (tuple(na), tuple(new)), x.ro)
    # flatten of an outer/inner pair
    if len(sn) == 1 and len(so) == 2:
        a, b = so
        n, m = sh[a], sh[b]

        def body(ix):
            t = ix[sn[0]]
            if m.const is not None and t.const is not None:
                q, r = K(int(t.const) // int(m.const)), K(int(t.const) % int(m.const))
            else:
                q, r = idiv_imod(t, m)
            idx = [T.ZERO] * len(sh)
            idx[a], idx[b] = q, r
            return T.lam_open(lam, idx)
        return I.build(tuple(new), body, I.dt(x))
    if len(so) == 1 and len(sn) == 2:
        a, b = sn
        m = new[b]

        def body(ix):
            idx = [T.ZERO] * len(sh)
            idx[so[0]] = ix[a] * m + ix[b]
            return T.lam_open(lam, idx)
        return I.build(tuple(new), body, I.dt(x))
    raise Unsupported('reshape %s -> %s' % (sh, new))


def is_true(I, b):
    return b.kind == 'T' or prove.entails(I.facts, b)


def _reshape(I, x, newv):
    if isnum(x):
        x = asarray(I, x)
    x = arrof(I, x)
    dims = [newv] if isnum(newv) else I.iterate(newv).items
    if dims is None:
        raise Unsupported('symbolic reshape')
    ps = [iv(d) for d in dims]
    size = T.ONE
    for s in I.shape(x):
        size = size * s
    neg_ = [i for i, p in enumerate(ps) if p.const is not None and p.const == -1]
    if neg_:
        rest = T.ONE
        for i, p in enumerate(ps):
            if i not in neg_:
                rest = rest * p
        q = size / rest
        if not q.is_int:
            # unit axes handled by normal form; otherwise undecided
            raise Unsupported('reshape -1')
        ps[neg_[0]] = q
    else:
        tot = T.ONE
        for p in ps:
            tot = tot * p
        if tot is not size and not I.decide(T.eq(tot, size)):
            raise PyExc('ValueError', 'cannot reshape array')
    return reshape_to(I, x, tuple(ps))


@lib('numpy.reshape')
def np_reshape(I, a, k):
    only(k, 'newshape', 'shape', 'order')
    if k.get('order', 'C') != 'C':
        raise Unsupported('reshape order')
    return _reshape(I, a[0], arg(a, k, 1, 'newshape', k.get('shape')))


def _reshape_m(I, a, k):
    only(k, 'order')
    if k.get('order', 'C') != 'C':
        raise Unsupported('reshape order')
    return _reshape(I, a[0], a[1] if len(a) == 2 else tuple(a[1:]))


ARR_METHODS['reshape'] = _reshape_m


def _flatten(I, a, k):
    only(k, 'order')
    order = arg(a, k, 1, 'order', 'C')
    x = arrof(I, a[0])
    sh = I.shape(x)
    if len(sh) == 1:
        return I.copy(x)
    if order != 'C':
        if order == 'F':
            x = N.transpose(I, x)
            sh = I.shape(x)
        else:
            raise Unsupported('flatten order')
    live = [i for i, s in enumerate(sh) if s is not T.ONE]
    lam = I.lam(x)
    if len(live) <= 1:
        n = sh[live[0]] if live else T.ONE
        return I.build((n,), lambda ix: T.lam_open(lam, [ix[0] if i in live else T.ZERO for i in range(len(sh))]), I.dt(x))
    size = T.ONE
    for s in sh:
        size = size * s

    def body(ix):
        t = ix[0]
        idx = [None] * len(sh)
        for i in range(len(sh) - 1, 0, -1):
            if sh[i] is T.ONE:
                idx[i] = T.ZERO
                continue
            q, r = idiv_imod(t, sh[i])
            idx[i] = r
            t = q
        idx[0] = t
        return T.lam_open(lam, idx)
    return I.build((size,), body, I.dt(x))


ARR_METHODS['flatten'] = _flatten
method('ravel')(_flatten)


def seq_items(I, v):
    """sequence of arrays (possibly symbolic runs)"""
    if isinstance(v, tuple):
        return v
    if isinstance(v, ListV) and not isinstance(v, DictV):
        return I.items(v)
    if isinstance(v, SeqV):
        if v.items is not None:
            return tuple(v.items)
        e = T.fresh('e', 'I', '>=', v.n)
        return (Seg(v.n, e, I.freeze(v.elem(P(e)))),)
    if isinstance(v, Arr):
        s = I.iterate(v)
        if s.items is not None:
            return tuple(s.items)
    raise Unsupported('sequence of arrays')


def concat(I, items, axis):
    parts = []
    for x in items:
        if isinstance(x, PHSeg):
            raise Unsupported('concatenate of unknown list prefix')
        if isinstance(x, Seg):
            parts.append(('seg', x))
        else:
            a = arrof(I, x)
            if not I.shape(a):
                raise PyExc('ValueError', 'zero-dimensional arrays cannot be concatenated')
            parts.append(('arr', a))
    if not parts:
        raise PyExc('ValueError', 'need at least one array to concatenate')
    if any(p[0] == 'seg' for p in parts):
        if len(parts) == 1:
            return concat_seg(I, parts[0][1], axis)
        raise Unsupported('concatenate of mixed symbolic sequence')
    arrs = [p[1] for p in parts]
    nd = len(I.shape(arrs[0]))
    if axis < 0:
        axis += nd
    if not (0 <= axis < nd):
        raise PyExc('AxisError')
    base = I.shape(arrs[0])
    for a in arrs[1:]:
        sh = I.shape(a)
        if len(sh) != nd:
            raise PyExc('ValueError', 'all the input array dimensions must match')
        for i in range(nd):
            if i != axis and sh[i] is not base[i] and not I.decide(T.eq(sh[i], base[i])):
                raise PyExc('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    n = T.ZERO
    pl = []
    for a in arrs:
        lam = I.lam(a)
        n = n + lam.shape[axis]
        pl.append((lam.shape[axis], lambda kk, rest, lam=lam: T.lam_open(lam, list(rest[:axis]) + [kk] + list(rest[axis:]))))
    pl = [p for p in pl if p[0] is not T.ZERO] or pl[:1]
    dts = {I.dt(a) for a in arrs}
    dt = 'f' if 'f' in dts else ('b' if dts == {'b'} else 'i')
    shape = base[:axis] + (n,) + base[axis + 1:]
    return I.build(shape, lambda ix: pieces(pl, ix[axis], list(ix[:axis]) + list(ix[axis + 1:])), dt)


def concat_seg(I, sg, axis):
    """concatenate of a symbolic run of chunks of a partition (array_split): chunk c covers rows off(c)..off(c)+clen(c)"""
    t = sg.tmpl
    if not isinstance(t, FArr):
        raise Unsupported('concatenate of symbolic sequence')
    lam = t.lam
    if axis < 0:
        axis += len(lam.shape)
    rows = lam.shape[axis]
    if sg.var not in rows.fv and rows is T.ONE:
        shape = lam.shape[:axis] + (sg.n,) + lam.shape[axis + 1:]

        def body1(ix):
            idx = list(ix)
            idx[axis] = T.ZERO
            return T.subst(T.lam_open(lam, idx), {sg.var: ix[axis]})
        return I.build(shape, body1, t.dt)
    at = T._as_atom(rows)
    if at is None or at.kind != 'app' or at.name != 'chunklen':
        raise Unsupported('concatenate of symbolic sequence')
    n, m, c = at.args
    if T._as_atom(c) is not sg.var or m is not sg.n:
        raise Unsupported('concatenate of chunks in another order')
    # row r of chunk c of the result must depend on (c, r) only through off(c)+r
    r = T.fresh('r', 'I', '>=', None)
    row = T.fresh('row', 'I', '>=', n)
    vs = [T.fresh('i', 'I', '>=', s) for s in lam.shape]
    idx = [P(v) for v in vs]
    off = P(T.App('chunkoff', (n, m, c), 'I', '>='))
    idx[axis] = P(row) - off
    b = T.lam_open(lam, idx)
    if sg.var in b.fv:
        raise Unsupported('chunk result depends on the chunk')
    shape = lam.shape[:axis] + (n,) + lam.shape[axis + 1:]

    def body(ix):
        s = {v: x for v, x in zip(vs, ix)}
        s[row] = ix[axis]
        return T.subst(b, s)
    return I.build(shape, body, t.dt)


@lib('numpy.concatenate')
def np_concatenate(I, a, k):
    only(k, 'axis')
    ax = arg(a, k, 1, 'axis', 0)
    if ax is None:
        raise Unsupported('concatenate axis=None')
    return concat(I, seq_items(I, a[0]), conc_int(ax))


@lib('numpy.vstack')
def np_vstack(I, a, k):
    only(k)
    items = []
    for x in seq_items(I, a[0]):
        if isinstance(x, Seg):
            tm = x.tmpl
            if isinstance(tm, FArr):
                lam = tm.lam
                if len(lam.shape) == 1:
                    vs = [T.fresh('i', 'I', '>=', s) for s in (T.ONE,) + lam.shape]
                    tm = FArr(T.mklam(vs, (T.ONE,) + lam.shape, T.lam_open(lam, [P(vs[1])])), tm.dt)
                items.append(Seg(x.n, x.var, tm))
            elif isinstance(tm, Num):
                vs = [T.fresh('i', 'I', '>=', T.ONE) for _ in range(2)]
                items.append(Seg(x.n, x.var, FArr(T.mklam(vs, (T.ONE, T.ONE), tm.p), 'f')))
            else:
                raise Unsupported('vstack')
        else:
            items.append(_atleast(2)(I, [x if isinstance(x, Arr) else asarray(I, x)], {}))
    return concat(I, items, 0)


LIB['numpy.row_stack'] = LIB['numpy.vstack']


@lib('numpy.hstack')
def np_hstack(I, a, k):
    only(k)
    items = [_atleast(1)(I, [arrof(I, x)], {}) for x in seq_items(I, a[0]) if not isinstance(x, Seg) or _u('hstack')]
    return concat(I, items, 0 if len(I.shape(items[0])) == 1 else 1)


def _u(s):
    raise Unsupported(s)


@lib('numpy.column_stack')
def np_colstack(I, a, k):
    items = []
    for x in seq_items(I, a[0]):
        if isinstance(x, Seg):
            raise Unsupported('column_stack')
        x = arrof(I, x)
        if len(I.shape(x)) == 1:
            x = np_expand(I, [x], {'axis': 1})
        items.append(x)
    return concat(I, items, 1)


@lib('numpy.stack')
def np_stack(I, a, k):
    only(k, 'axis')
    ax = conc_int(arg(a, k, 1, 'axis', 0))
    r = asarray(I, tuple(seq_items(I, a[0])))
    if ax == 0:
        return r
    nd = len(I.shape(r))
    if ax < 0:
        ax += nd
    lam = I.lam(r)
    sh = lam.shape[1:1 + ax] + (lam.shape[0],) + lam.shape[1 + ax:]
    return I.build(sh, lambda ix: T.lam_open(lam, [ix[ax]] + list(ix[:ax]) + list(ix[ax + 1:])), I.dt(r))


@lib('numpy.append')
def np_append(I, a, k):
    only(k, 'axis')
    ax = arg(a, k, 2, 'axis')
    x, y = arrof(I, a[0]), arrof(I, a[1])
    if ax is None:
        x, y = _flatten(I, [_atleast(1)(I, [x], {})], {}), _flatten(I, [_atleast(1)(I, [y], {})], {})
        ax = 0
    return concat(I, (x, y), conc_int(ax))


@lib('numpy.tile')
def np_tile(I, a, k):
    raise Unsupported('tile')


@lib('numpy.repeat')
def np_repeat(I, a, k):
    raise Unsupported('repeat')


ARR_METHODS['repeat'] = np_repeat


@lib('numpy.array_split')
def np_array_split(I, a, k):
    only(k, 'axis')
    x = arrof(I, a[0])
    m = iv(a[1])
    n = I.shape(x)[0]
    if not I.decide(T.gt0(m)):
        raise PyExc('ValueError', 'number sections must be larger than 0')
    v = T.fresh('c', 'I', '>=', m)
    lam = I.lam(x)
    cl = P(T.App('chunklen', (n, m, P(v)), 'I', '>='))
    off = P(T.App('chunkoff', (n, m, P(v)), 'I', '>='))
    vs = [T.fresh('i', 'I', '>=', s) for s in (cl,) + lam.shape[1:]]
    body = T.lam_open(lam, [off + P(vs[0])] + [P(u) for u in vs[1:]])
    return I.new_list([Seg(m, v, FArr(T.mklam(vs, (cl,) + lam.shape[1:], body), I.dt(x)))])


@lib('numpy.meshgrid')
def np_meshgrid(I, a, k):
    only(k, 'indexing')
    xs = []
    for x in a:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
            raise Unsupported('meshgrid of symbolic dimension')
        xs.append(arrof(I, x))
    ns = [I.shape(x)[0] for x in xs]
    d = len(xs)
    ind_ = k.get('indexing', 'xy')
    perm = list(range(d))
    if ind_ == 'xy' and d >= 2:
        perm[0], perm[1] = 1, 0
    shape = tuple(ns[perm[i]] for i in range(d))
    out = []
    for j, x in enumerate(xs):
        lam = I.lam(x)
        ax = perm.index(j)
        out.append(I.build(shape, lambda ix, lam=lam, ax=ax: T.lam_open(lam, [ix[ax]]), I.dt(x)))
    return tuple(out)


@lib('numpy.where')
def np_where(I, a, k):
    if len(a) == 1:
        x = arrof(I, a[0])
        sh = I.shape(x)
        if len(sh) != 1:
            raise Unsupported('where of a matrix')
        lam = I.lam(x)
        if I.dt(x) != 'b':
            v = T.fresh('i', 'I', '>=', sh[0])
            lam = T.mklam([v], sh, T.bnot(T.eq0(T.lam_open(lam, [P(v)]))))
        return (I.build((cnt_term(lam),), lambda ix: nth_term(lam, ix[0]), 'i'),)
    c, x, y = a
    c = arrof(I, c) if not isinstance(c, (bool, BoolV)) else c

    def f(v):
        cc = v[0] if isinstance(v[0], Bool) else T.bnot(T.eq0(v[0]))
        return T.ite(cc, num_body(v[1]), num_body(v[2]))
    return I.elementwise(f, [c, x, y], 'f')


@lib('numpy.flatnonzero')
def np_flatnonzero(I, a, k):
    return np_where(I, a, k)[0]


LIB['numpy.nonzero'] = BuiltinV('numpy.nonzero', np_where)
ARR_METHODS['nonzero'] = np_where


@lib('numpy.delete')
def np_delete(I, a, k):
    only(k, 'axis')
    x = arrof(I, a[0])
    obj = a[1]
    ax = arg(a, k, 2, 'axis')
    sh = I.shape(x)
    if ax is None:
        if len(sh) != 1:
            raise Unsupported('delete flatten')
        axis = 0
    else:
        axis = axes_of(I, len(sh), ax)[0]
    mask = None
    if isinstance(obj, Arr) and I.dt(obj) == 'b':
        lam = I.lam(obj)
        v = T.fresh('i', 'I', '>=', sh[axis])
        mask = T.mklam([v], [sh[axis]], T.lam_open(lam, [P(v)]))
    elif isinstance(obj, Arr):
        lam = I.lam(obj)
        if len(lam.shape) == 1:
            q = T.fresh('i', 'I', '>=', lam.shape[0])
            b = T.lam_open(lam, [P(q)])
            at = T._as_atom(b) if isinstance(b, Poly) and b.const is None else None
            if at is not None and at.kind == 'app' and at.name == 'nth' and T._as_atom(at.args[1]) is q and cnt_term(at.args[0]) is lam.shape[0]:
                if not I.same_dim(at.args[0].shape[0], sh[axis]):
                    raise PyExc('IndexError', 'index out of bounds')
                mask = at.args[0]
            elif lam.shape[0] is T.ZERO:
                return I.copy(x)
    elif isinstance(obj, (int, Num)):
        i = I.norm_index(obj, sh[axis])
        v = T.fresh('i', 'I', '>=', sh[axis])
        lam = I.lam(x)
        ns = sh[:axis] + (sh[axis] - T.ONE,) + sh[axis + 1:]

        def body(ix):
            j = ix[axis]
            j2 = j + T.ind(T.ge(j, i))
            return T.lam_open(lam, list(ix[:axis]) + [j2] + list(ix[axis + 1:]))
        return I.build(ns, body, I.dt(x))
    if mask is None:
        raise Unsupported('delete with these indices')
    v = T.fresh('i', 'I', '>=', mask.shape[0])
    inv = T.mklam([v], mask.shape, T.bnot(T.lam_open(mask, [P(v)])))
    return N.filter_axis(I, x, inv, axis)


@lib('numpy.unique')
def np_unique(I, a, k):
    only(k, 'axis')
    if k:
        raise Unsupported('unique axis')
    x = arrof(I, a[0])
    if len(I.shape(x)) != 1:
        raise Unsupported('unique matrix')
    lam = I.lam(x)
    n = P(T.App('uniqlen', (lam,), 'I', '>='))
    N_ = lam.shape[0]
    I.assume(T.le(n, N_))
    I.assume(T.implies(T.gt0(N_), T.gt0(n)))
    return I.build((n,), lambda ix: P(T.App('uniq', (lam, ix[0]))), I.dt(x))


@lib('numpy.sort')
def np_sort(I, a, k):
    only(k)
    x = arrof(I, a[0])
    lam = I.lam(x)
    if len(lam.shape) == 1:
        v = T.fresh('i', 'I', '>=', lam.shape[0])
        at = T._as_atom(T.lam_open(lam, [P(v)]))
        if at is not None and at.kind == 'app' and at.name == 'uniq' and T._as_atom(at.args[1]) is v:
            return I.copy(x)        # unique is sorted already
        return I.build(lam.shape, lambda ix: P(T.App('sorted', (lam, ix[0]))), I.dt(x))
    raise Unsupported('sort matrix')


def _sort_m(I, a, k):
    only(k)
    if len(a) > 1:
        raise Unsupported('sort axis')
    l = I.lam(np_sort(I, [a[0]], {}))
    I.write(a[0], lambda ix: T.lam_open(l, ix))


ARR_METHODS['sort'] = _sort_m


def _tobytes(I, a, k):
    only(k)
    return BytesV(I.lam(a[0]), I.dt(a[0]))


ARR_METHODS['tobytes'] = _tobytes


@lib('numpy.round')
def np_round(I, a, k):
    only(k, 'decimals')
    d = a[1] if len(a) > 1 else k.get('decimals', 0)
    if not isinstance(d, int):
        raise Unsupported('round decimals')
    if not isinstance(a[0], Arr) and isnum(a[0]):
        x = tonum(a[0])
        return Num(round_to(x.p, d), x.kind if x.kind.startswith('np') else 'np' + x.kind)
    x = arrof(I, a[0])
    lam = I.lam(x)
    return I.build(lam.shape, lambda ix: round_to(num_body(T.lam_open(lam, ix)), d), I.dt(x) if I.dt(x) == 'i' else 'f')


LIB['numpy.around'] = LIB['numpy.round']
ARR_METHODS['round'] = np_round
ufunc('rint', rint_term)
ufunc('trunc', trunc_term)
ufunc('fix', trunc_term)


@lib('numpy.errstate')
def np_errstate(I, a, k):
    return Opaque('errstate')


@lib('numpy.random.seed')
def np_seed(I, a, k):
    I.ghost['grng_touched'] = True
    v = a[0]
    I.ghost['grng_seed'] = tonum(v).p if v is not None else I.sym('entropy', 'I', '>=')
    I.ghost['grng_ctr'] = T.ZERO


@lib('numpy.array_equal')
def np_array_equal(I, a, k):
    x, y = arrof(I, a[0]), arrof(I, a[1])
    sx, sy = I.shape(x), I.shape(y)
    if len(sx) != len(sy):
        return False
    for p, q in zip(sx, sy):
        if p is not q and not I.decide(T.eq(p, q)):
            return False
    return _quant(True)(I, [I.compare('Eq', x, y)], {})


@lib('numpy.ndim')
def np_ndim(I, a, k):
    return 0 if isnum(a[0]) else len(I.shape(arrof(I, a[0])))


@lib('numpy.shape')
def np_shape(I, a, k):
    return () if isnum(a[0]) else tuple(mkint(s) for s in I.shape(arrof(I, a[0])))


LIB['numpy.minimum.at'] = None
del LIB['numpy.minimum.at']


# ------------------------------------------------------------------ random numbers
def g_draw(I):
    """one draw from the global generator: identified by (state before, position)"""
    I.ghost['grng_touched'] = True
    c = I.ghost.get('grng_ctr')
    s = I.ghost.get('grng_seed')
    if s is None:
        s = P(T.Var('GLOBALRNG', 'I', '>='))
    if c is None:
        c = T.ZERO
    I.ghost['grng_ctr'] = c + T.ONE
    # an identity that is unique along the path and over enclosing loop indices
    I.counter += 1
    pid = '%s%d' % (I.path_id(), I.counter)
    return (s, pid) + tuple(I.loop_idx)


T.NONNEG_APPS.add('urand')
prove.APP_AXIOMS['urand'] = lambda a: [T.lt(P(a), T.ONE), T.ge0(P(a))]
prove.APP_AXIOMS['chisq'] = lambda a: [T.gt0(P(a))]


def urand(key, ix):
    return P(T.App('urand', tuple(key) + tuple(ix), 'R', '>='))


def np_scalar(I, v):
    """a number where numpy would also accept an array that the engine does not model"""
    if isinstance(v, (ListV, tuple)) or (isinstance(v, Arr) and I.shape(v)):
        raise Unsupported('array where the engine models a number')
    return scalar_of(I, v)


def _uniform(I, key, low, high, size):
    if isinstance(low, (Arr, ListV, tuple)) or isinstance(high, (Arr, ListV, tuple)):
        lo, hi = [arrof(I, x) if isinstance(x, (Arr, ListV, tuple)) else x for x in (low, high)]
        shapes = [I.shape(x) for x in (lo, hi) if isinstance(x, Arr)]
        sh = I.broadcast(shapes) if size is None else shape_arg(I, size)
        out = I.broadcast(shapes + [sh])
        if len(out) != len(sh) or any(a is not b and not I.decide(T.eq(a, b)) for a, b in zip(out, sh)):
            raise PyExc('ValueError', 'Output size is not compatible with broadcast dimensions of inputs')

        def el(x, ix):
            return I.at(x, I.bidx(I.shape(x), sh, ix)) if isinstance(x, Arr) else scalar_of(I, x).p

        def draw(ix):
            a, b = el(lo, ix), el(hi, ix)
            return a + (b - a) * urand(key, ix)
        return I.build(sh, draw, 'f')
    lo = scalar_of(I, low).p
    hi = scalar_of(I, high).p
    if size is None:
        return Num(lo + (hi - lo) * urand(key, ()), 'npfloat')
    sh = shape_arg(I, size)
    return I.build(sh, lambda ix: lo + (hi - lo) * urand(key, ix), 'f')


@lib('numpy.random.uniform')
def npr_uniform(I, a, k):
    only(k, 'low', 'high', 'size')
    return _uniform(I, g_draw(I), arg(a, k, 0, 'low', 0), arg(a, k, 1, 'high', 1), arg(a, k, 2, 'size'))


@lib('numpy.random.chisquare')
def npr_chi(I, a, k):
    only(k, 'df', 'size')
    df = np_scalar(I, arg(a, k, 0, 'df')).p
    size = arg(a, k, 1, 'size')
    key = g_draw(I)
    if not I.decide(T.gt0(df)):
        raise PyExc('ValueError', 'df <= 0')
    if size is None:
        return Num(P(T.App('chisq', (df,) + key, 'R', '>')), 'npfloat')
    return I.build(shape_arg(I, size), lambda ix: P(T.App('chisq', (df,) + key + tuple(ix), 'R', '>')), 'f')


@lib('numpy.random.choice')
def npr_choice(I, a, k):
    only(k, 'a', 'size', 'replace')
    n = arg(a, k, 0, 'a')
    if isinstance(n, Arr):
        raise Unsupported('choice from array')
    n = iv(n)
    size = arg(a, k, 1, 'size')
    rep = I.truth(arg(a, k, 2, 'replace', True))
    key = g_draw(I)
    if size is None:
        raise Unsupported('scalar choice')
    m, = shape_arg(I, size)
    if not I.decide(T.bor(T.gt0(n), T.eq0(m))):
        raise PyExc('ValueError', 'a must be greater than 0 unless no samples are taken')
    if not rep and not I.decide(T.le(m, n)):
        raise PyExc('ValueError', 'Cannot take a larger sample than population')
    nm = 'choice' if rep else 'choicenr'

    def body(ix):
        at = T.App(nm, (n, m) + key + (ix[0],), 'I', '>=')
        return P(at)
    r = I.build((m,), body, 'i')
    v = T.fresh('q', 'I', '>=', m)
    I.assume(T.forall([v], [m], T.lt(body([P(v)]), n)))
    if not I.loop_idx:
        I.ghost['choices'] = I.ghost.get('choices', ()) + ((n, m, rep, I.lam(r)),)
    return r


def _choice_ax(a):
    return [T.lt(P(a), a.args[0])]


prove.APP_AXIOMS['choice'] = _choice_ax
prove.APP_AXIOMS['choicenr'] = _choice_ax
T.NONNEG_APPS.update(['choice', 'choicenr'])


@lib('numpy.random.RandomState')
def npr_rs(I, a, k):
    s = arg(a, k, 0, 'seed')
    if s is None:
        sp = I.sym('ENTROPY', 'I', '>=')
    elif isinstance(s, (int, Num)):
        sp = iv(s)
        if not I.decide(T.ge0(sp)):
            raise PyExc('ValueError', 'Seed must be between 0 and 2**32 - 1')
    else:
        raise Unsupported('RandomState(%r)' % (s,))
    return I.new_obj(TypeV('RandomState'), {'seed': Num(sp, 'int'), 'ctr': 0})


def rs_key(I, o):
    at = I.attrs(o)
    c = tonum(at['ctr']).p
    I.aset(o, 'ctr', mkint(c + T.ONE))
    return (at['seed'].p if isinstance(at['seed'], Num) else K(at['seed']), c)


OBJ_METHODS[('RandomState', 'uniform')] = lambda I, o, a, k: (only(k, 'low', 'high', 'size'), _uniform(I, rs_key(I, o), arg(a, k, 0, 'low', 0), arg(a, k, 1, 'high', 1), arg(a, k, 2, 'size')))[1]


def _randn(name):
    def f(I, o, a, k):
        key = rs_key(I, o)
        sh = tuple(iv(x) for x in a)
        if not sh:
            return Num(P(T.App(name, key)), 'npfloat')
        return I.build(sh, lambda ix: P(T.App(name, key + tuple(ix))), 'f')
    return f


OBJ_METHODS[('RandomState', 'randn')] = _randn('nrand')
OBJ_METHODS[('RandomState', 'rand')] = lambda I, o, a, k: _uniform(I, rs_key(I, o), 0, 1, tuple(a))
OBJ_METHODS[('RandomState', 'random_sample')] = lambda I, o, a, k: _uniform(I, rs_key(I, o), 0, 1, arg(a, k, 0, 'size'))
LIB['numpy.random.rand'] = BuiltinV('numpy.random.rand', lambda I, a, k: _uniform(I, g_draw(I), 0, 1, tuple(a) if a else None))
LIB['numpy.random.random'] = BuiltinV('numpy.random.random', lambda I, a, k: _uniform(I, g_draw(I), 0, 1, arg(a, k, 0, 'size')))


def _qmc(kind):
    def f(I, a, k):
        only(k, 'd', 'scramble', 'seed', 'rng')
        d = iv(arg(a, k, 0, 'd'))
        seed = k.get('seed', k.get('rng'))
        if seed is None:
            sp = I.sym('ENTROPY', 'I', '>=')
        elif isinstance(seed, (int, Num)):
            sp = iv(seed)
            if not I.decide(T.ge0(sp)):
                raise PyExc('ValueError', 'seed')
        else:
            raise Unsupported('qmc seed')
        scr = k.get('scramble', True)
        if not isinstance(scr, bool):
            raise Unsupported('scramble')
        return I.new_obj(TypeV('qmc'), {'d': mkint(d), 'seed': Num(sp, 'int'), 'kind': kind, 'scramble': scr, 'ctr': 0})
    return f


LIB['scipy.stats.qmc.Sobol'] = BuiltinV('scipy.stats.qmc.Sobol', _qmc('sobol'))
LIB['scipy.stats.qmc.Halton'] = BuiltinV('scipy.stats.qmc.Halton', _qmc('halton'))
LIB['scipy.stats.qmc.LatinHypercube'] = BuiltinV('scipy.stats.qmc.LatinHypercube', _qmc('lhs'))
T.NONNEG_APPS.add('qmc')
prove.APP_AXIOMS['qmc'] = lambda a: [T.lt(P(a), T.ONE), T.ge0(P(a))]


def _qmc_random(I, o, a, k):
    only(k, 'n')
    n = iv(arg(a, k, 0, 'n', 1))
    at = I.attrs(o)
    d = tonum(at['d']).p
    c = tonum(at['ctr']).p
    key = (at['kind'], 'scr' if at['scramble'] else 'raw', d, tonum(at['seed']).p, c)
    I.aset(o, 'ctr', mkint(c + n))
    return I.build((n, d), lambda ix: P(T.App('qmc', key + tuple(ix), 'R', '>=')), 'f')


OBJ_METHODS[('qmc', 'random')] = _qmc_random


def _qmc_base2(I, o, a, k):
    m = arg(a, k, 0, 'm')
    raise Unsupported('random_base2')


OBJ_METHODS[('qmc', 'random_base2')] = _qmc_base2


def _mvn_args(I, a, k):
    only(k, 'mean', 'cov', 'allow_singular', 'seed', 'size', 'random_state')
    mean = arrof(I, arg(a, k, 0, 'mean'))
    cov = arrof(I, arg(a, k, 1, 'cov'))
    if len(I.shape(mean)) != 1 or len(I.shape(cov)) != 2:
        raise Unsupported('mvn shapes')
    return mean, cov


@lib('scipy.stats.multivariate_normal')
def sp_mvn(I, a, k):
    mean, cov = _mvn_args(I, a, k)
    if 'seed' in k:
        raise Unsupported('mvn seed')
    n = I.shape(mean)[0]
    cs = I.shape(cov)
    for s in cs:
        if s is not n and not I.decide(T.eq(s, n)):
            raise PyExc('ValueError', 'cov shape')
    if n.const is None:
        I.decide(T.eq(n, T.ONE))    # the shape of a draw depends on it
    cl = I.lam(cov)
    if not I.decide(T.bapp('mvn_ok', (cl, 'sing' if k.get('allow_singular') else 'reg'))):
        raise PyExc('ValueError', 'the input matrix must be symmetric positive definite')
    return I.new_obj(TypeV('mvn'), {'mean': I.copy(mean), 'cov': I.copy(cov)})


def _mvn_rvs(I, o, a, k):
    only(k, 'size')
    at = I.attrs(o)
    ml, cl = I.lam(at['mean']), I.lam(at['cov'])
    n = ml.shape[0]
    size = arg(a, k, 0, 'size')
    key = g_draw(I)

    def ent(s, i):
        return T.lam_open(ml, [i]) + P(T.App('mvnz', (cl,) + key + (s, i)))
    if size is None or (isinstance(size, int) and size == 1):
        if n is T.ONE or (n.const is None and I.decide(T.eq(n, T.ONE))):
            return Num(ent(T.ZERO, T.ZERO), 'npfloat')
        return I.build((n,), lambda ix: ent(T.ZERO, ix[0]), 'f')
    m = iv(size)
    if m.const is None and I.decide(T.eq(m, T.ONE)):
        if n is T.ONE or (n.const is None and I.decide(T.eq(n, T.ONE))):
            return Num(ent(T.ZERO, T.ZERO), 'npfloat')
        return I.build((n,), lambda ix: ent(T.ZERO, ix[0]), 'f')
    if n is T.ONE or (n.const is None and I.decide(T.eq(n, T.ONE))):
        return I.build((m,), lambda ix: ent(ix[0], T.ZERO), 'f')
    return I.build((m, n), lambda ix: ent(ix[0], ix[1]), 'f')


OBJ_METHODS[('mvn', 'rvs')] = _mvn_rvs


@lib('numpy.random.multivariate_normal')
def npr_mvn(I, a, k):
    only(k, 'mean', 'cov', 'size', 'check_valid', 'tol', 'method')
    mean, cov = arrof(I, arg(a, k, 0, 'mean')), arrof(I, arg(a, k, 1, 'cov'))
    ml, cl = I.lam(mean), I.lam(cov)
    n = ml.shape[0]
    key = g_draw(I)
    size = arg(a, k, 2, 'size')
    if size is None:
        return I.build((n,), lambda ix: T.lam_open(ml, [ix[0]]) + P(T.App('mvnz', (cl,) + key + (T.ZERO, ix[0]))), 'f')
    m, = shape_arg(I, size)
    return I.build((m, n), lambda ix: T.lam_open(ml, [ix[1]]) + P(T.App('mvnz', (cl,) + key + (ix[0], ix[1]))), 'f')


# ------------------------------------------------------------------ scipy scalar functions
def _loc_scale(I, a, k, fn):
    only(k, 'loc', 'scale', 'x')
    x = arg(a, k, 0, 'x')
    loc = arg(a, k, 1, 'loc', 0)
    sc = arg(a, k, 2, 'scale', 1)

    def f(v):
        z = (v[0] - v[1]) / v[2]
        return fn(z, v[2])
    return I.elementwise(f, [x, loc, sc], 'f')


def npdf(z):
    return T.texp(-z * z / 2) / T.tsqrt(P(T.PI) * 2)


LIB['scipy.stats.norm.cdf'] = BuiltinV('scipy.stats.norm.cdf', lambda I, a, k: _loc_scale(I, a, k, lambda z, s: T.mkapp('normcdf', (z,))))
LIB['scipy.stats.norm.pdf'] = BuiltinV('scipy.stats.norm.pdf', lambda I, a, k: _loc_scale(I, a, k, lambda z, s: npdf(z) / s))
LIB['scipy.stats.norm.sf'] = BuiltinV('scipy.stats.norm.sf', lambda I, a, k: _loc_scale(I, a, k, lambda z, s: T.mkapp('normcdf', (-z,))))


def normcdf(z):
    """Phi(-z) = 1 - Phi(z): normalise the sign of the argument"""
    if z.const is not None and z.const == 0:
        return K(Fraction(1, 2))
    return P(T.App('normcdf', (z,), 'R', '>='))


T.REBUILD['normcdf'] = lambda a: normcdf(a[0])


def _special(n):
    def f(I, a, k):
        only(k)
        return I.elementwise(lambda v: T.mkapp(n, (num_body(v[0]),)), [a[0]], 'f')
    LIB['scipy.special.' + n] = BuiltinV('scipy.special.' + n, f)


for _n in ('gamma', 'gammaln', 'digamma'):
    _special(_n)
LIB['scipy.special.psi'] = LIB['scipy.special.digamma']


# ------------------------------------------------------------------ optimisers
def bounds_terms(I, b, n):
    """bounds -> fn(i) -> (lo, hi) polys"""
    if isinstance(b, Arr):
        lam = I.lam(b)
        if len(lam.shape) != 2:
            raise Unsupported('bounds')
        if not I.same_dim(lam.shape[0], n):
            raise PyExc('ValueError', 'length of x0 != length of bounds')
        return lambda i: (T.lam_open(lam, [i, T.ZERO]), T.lam_open(lam, [i, T.ONE]))
    arr = asarray(I, b)
    return bounds_terms(I, arr, n)


def opt_call(I, name, fun, x0, method=None, bounds=None, jac=None, extra=None):
    """an optimiser calls fun on points of x0's shape (inside the bounds when given) and returns such a point"""
    x0 = arrof(I, x0)
    sh = I.shape(x0)
    if len(sh) != 1:
        if len(sh) == 0:
            raise Unsupported('scalar x0')
        raise PyExc('ValueError', "'x0' must only have one dimension.")
    n = sh[0]
    bt = bounds_terms(I, bounds, n) if bounds is not None else None

    def facts(arr):
        if bt is not None:
            v = T.fresh('q', 'I', '>=', n)
            lo, hi = bt(P(v))
            e = I.at(arr, [P(v)])
            I.assume(T.forall([v], [n], T.band(T.le(lo, e), T.le(e, hi))))
    # generic evaluation: the objective is called at an arbitrary admissible point
    probe = I.symarr('optprobe', (n,), 'f')
    facts(probe)
    val = I.call(fun, [probe], {})
    x = I.symarr('optx', (n,), 'f')
    facts(x)
    rec = {'name': name, 'fun': fun, 'x0': I.freeze(x0), 'method': method, 'bounds': None if bounds is None else I.freeze(bounds if isinstance(bounds, Arr) else asarray(I, bounds)),
           'jac': jac, 'probe': I.freeze(probe), 'val': I.freeze(val), 'x': I.freeze(x)}
    I.ghost['optnames'] = I.ghost.get('optnames', ()) + ((name, rec.get('method')),)
    log = I.ghost.get('optlog')
    if log is not None:
        I.set_items(log, I.items(log) + (tuple(sorted(rec.items(), key=lambda t: t[0])),))
    return x


@lib('scipy.optimize.minimize')
def sp_minimize(I, a, k):
    only(k, 'fun', 'x0', 'method', 'bounds', 'jac', 'options', 'tol', 'args')
    if k.get('args') or len(a) > 3:
        raise Unsupported('minimize args')
    x = opt_call(I, 'minimize', arg(a, k, 0, 'fun'), arg(a, k, 1, 'x0'), k.get('method'), k.get('bounds'), k.get('jac'))
    return I.new_obj(TypeV('OptimizeResult'), {'x': x, 'fun': Num(I.sym('optf'), 'npfloat'), 'message': Opaque('str'), 'success': Opaque('bool')})


LIB['scipydirect.minimize'] = BuiltinV('scipydirect.minimize', None)


def _direct(I, a, k):
    only(k, 'bounds', 'maxf')
    fun = a[0]
    b = arrof(I, arg(a, k, 1, 'bounds'))
    n = I.shape(b)[0]
    x0 = I.symarr('x0', (n,), 'f')
    x = opt_call(I, 'direct', fun, x0, None, b)
    return I.new_obj(TypeV('OptimizeResult'), {'x': x, 'fun': Num(I.sym('optf'), 'npfloat'), 'message': Opaque('str')})


LIB['scipydirect.minimize'].fn = _direct


@lib('cma.fmin')
def cma_fmin(I, a, k):
    only(k, 'options')
    fun, x0 = a[0], arrof(I, a[1])
    if len(a) > 2:
        tonum(a[2])          # the initial deviation is a number
    opts = I.ditems(k['options']) if 'options' in k else {}
    bd = opts.get('bounds')
    if bd is not None:
        lo, hi = I.unpack(bd, 2)
        lo, hi = arrof(I, lo), arrof(I, hi)
        ll, lh = I.lam(lo), I.lam(hi)
        bd = I.build((ll.shape[0], K(2)), lambda ix: T.ite(T.eq(ix[1], T.ZERO), T.lam_open(ll, [ix[0]]), T.lam_open(lh, [ix[0]])), 'f')
    x = opt_call(I, 'cma', fun, x0, None, bd)
    I.ghost['grng_touched'] = True
    return (x,) + tuple(Opaque('cma') for _ in range(7))


# ------------------------------------------------------------------ the rest
@lib('time.time', 'time.perf_counter', 'time.monotonic')
def t_time(I, a, k):
    """the clock never goes back; what passed between two readings is a fresh amount, plus what ghost events added"""
    p = I.ghost.get('clock')
    t = (I.sym('clock') if p is None else p) + I.sym('tick', 'R', '>=')
    I.ghost['clock'] = t
    return Num(t, 'float')


@lib('itertools.repeat')
def it_repeat(I, a, k):
    if len(a) > 1:
        n = iv(a[1])
        return SeqV(n, lambda i: a[0], [a[0]] * int(n.const) if n.const is not None else None)
    o = Opaque('repeat')
    o.value = a[0]
    return o


def _product(I, a, k):
    only(k)
    ss = [I.iterate(x) for x in a]
    if any(s.items is None for s in ss):
        raise Unsupported('symbolic product')
    import itertools
    return SeqV(K(_m.prod(len(s.items) for s in ss)), None, [tuple(t) for t in itertools.product(*[s.items for s in ss])])


LIB['itertools.product'] = BuiltinV('itertools.product', _product)


@lib('multiprocessing.cpu_count')
def mp_cpu(I, a, k):
    n = I.sym('cpus', 'I', '>')
    return Num(n, 'int')


@lib('multiprocessing.Pool')
def mp_pool(I, a, k):
    return I.new_obj(TypeV('Pool'), {})


def _starmap(I, o, a, k):
    from . import loops
    s = a[1] if isinstance(a[1], SeqV) else I.iterate(a[1])
    if s.items is not None:
        return I.new_list([I.call(a[0], list(I.iterate(x).items), {}) for x in s.items])
    n = s.n

    def fn(I, args, kw):
        t = args[0]
        return I.call(a[0], list(t), {})
    r = loops.run_map(I, BuiltinV('starmapped', fn), [s])
    e = T.fresh('e', 'I', '>=', r.n)
    return I.new_list([Seg(r.n, e, I.freeze(r.elem(P(e))))])


OBJ_METHODS[('Pool', 'starmap')] = _starmap
OBJ_METHODS[('Pool', 'close')] = lambda I, o, a, k: None
OBJ_METHODS[('Pool', 'join')] = lambda I, o, a, k: None
OBJ_METHODS[('Pool', 'terminate')] = lambda I, o, a, k: None


def _poolmap(I, o, a, k):
    from . import loops
    s = I.iterate(a[1])
    if s.items is not None:
        return I.new_list([I.call(a[0], [x], {}) for x in s.items])
    r = loops.run_map(I, a[0], [s])
    e = T.fresh('e', 'I', '>=', r.n)
    return I.new_list([Seg(r.n, e, I.freeze(r.elem(P(e))))])


OBJ_METHODS[('Pool', 'map')] = _poolmap


@lib('tqdm.tqdm')
def tq(I, a, k):
    return a[0]


LIB['tqdm.trange'] = BuiltinV('tqdm.trange', lambda I, a, k: LIB_RANGE(I, a, {}))


@lib('functools.wraps')
def ft_wraps(I, a, k):
    f = a[0]

    def deco(I, b, kk):
        w = b[0]
        if isinstance(w, FuncV):
            w.attrs['__wrapped__'] = f
            if isinstance(f, FuncV):
                w.name = f.name
        return w
    return BuiltinV('wraps', deco)


@lib('functools.partial')
def ft_partial(I, a, k):
    f, pre, pk = a[0], list(a[1:]), dict(k)
    return BuiltinV('partial', lambda I, b, kk: I.call(f, pre + list(b), dict(pk, **kk)))


LIB['abc.ABC'] = TypeV('object')
LIB['abc.ABCMeta'] = TypeV('type')
LIB['abc.abstractmethod'] = BuiltinV('abstractmethod', lambda I, a, k: a[0])


@lib('copy.deepcopy')
def cp_deep(I, a, k):
    return deep(I, a[0])


def deep(I, v):
    if isinstance(v, Arr):
        return I.copy(v)
    if isinstance(v, DictV):
        return I.new_dict({kk: deep(I, x) for kk, x in I.ditems(v).items()})
    if isinstance(v, ListV):
        return I.new_list([x if isinstance(x, (Seg, PHSeg)) else deep(I, x) for x in I.items(v)])
    if isinstance(v, tuple):
        return tuple(deep(I, x) for x in v)
    if isinstance(v, ObjV):
        return I.new_obj(v.cls, {kk: deep(I, x) for kk, x in I.attrs(v).items()})
    return v


@lib('copy.copy')
def cp_copy(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return I.copy(v)
    if isinstance(v, DictV):
        return I.new_dict(I.ditems(v))
    if isinstance(v, ListV):
        return I.new_list(I.items(v))
    if isinstance(v, ObjV):
        return I.new_obj(v.cls, I.attrs(v))
    return v
