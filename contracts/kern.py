"""shared specification of the covariance functions and the callers' view of them"""
from .core import *

BASE = ['eq', 'se', 'matern32', 'matern52']
ALL = BASE + ['set_' + b for b in BASE]
S3, S5 = T.tsqrt(K(3)), T.tsqrt(K(5))


def base_k(name, r2):
    """unit-signal kernel as a function of the squared scaled distance"""
    r = T.tsqrt(r2)
    if name in ('eq', 'se'):
        return T.texp(-r2 / K(2))
    if name == 'matern32':
        return (T.ONE + S3 * r) * T.texp(-(S3 * r))
    if name == 'matern52':
        return (T.ONE + S5 * r + K(5) / K(3) * r2) * T.texp(-(S5 * r))
    raise AssertionError(name)


def r2_of(c, x, y, ls, d):
    """x, y: index -> Poly ; ls: index -> Poly"""
    return c.sum1(d, lambda k: ((x(k) - y(k)) / ls(k)) ** 2)


def mk_hyps(c, d, ard, tp=False, pre='', watch=True, neg=False):
    """valid hyperparameters; neg: those an unconstrained optimiser also reaches, all of them negative"""
    sg = (lambda p: -p) if neg else (lambda p: p)
    noise = Num(sg(c.real(pre + 'noise', '>').p), 'float')
    signal = Num(sg(c.real(pre + 'signal', '>').p), 'float')
    h = {'noise': noise}
    if tp:
        h['dof'] = Num(P(T.Var(pre + 'dof', 'R', '>')), 'float')
        c.assume(T.gt(h['dof'].p, K(2)))
    h['signal'] = signal
    if ard:
        ls = c.arr(pre + 'ls', (d,), sign='>', dt='F', body=(lambda ix: -P(T.App(c.rename(pre + 'ls'), tuple(ix), 'R', '>'))) if neg else None)
        lsf = lambda k: c.at(ls, k)
    else:
        ls = Num(sg(c.real(pre + 'ls', '>').p), 'float')
        lsf = lambda k: ls.p
    h['lengthscales'] = ls
    hd = c.dict_(**h)
    if watch:
        c.watch('hyps dict', hd)
    return hd, noise.p, signal.p, lsf


def mk_data(c, name, n, d, is_set, m=None):
    return c.arr(name, (n, m, d)) if is_set else c.arr(name, (n, d))


def entry(c, kern, X, Xp, i, j, lsf, signal, d, m=None, mp_=None):
    """covariance of item i of X and item j of Xp without jitter"""
    if kern.startswith('set_'):
        b = kern[4:]
        s = c.sum1(m, lambda a: c.sum1(mp_, lambda e: base_k(b, r2_of(c, lambda k: c.at(X, i, a, k), lambda k: c.at(Xp, j, e, k), lsf, d))))
        return signal ** 2 * s / (m * mp_)
    return signal ** 2 * base_k(kern, r2_of(c, lambda k: c.at(X, i, k), lambda k: c.at(Xp, j, k), lsf, d))


# ---------------------------------------------------------------- callers' view: opaque symmetric kernel
def canon(name):
    return {'eq': 'se', 'set_eq': 'set_se'}.get(name, name)


def _rb_kcov(args):
    nm, x, y, ls, sg = args
    if x.uid > y.uid:
        x, y = y, x
    return P(T.App('kcov', (nm, x, y, ls, sg)))


T.REBUILD['kcov'] = _rb_kcov
T.SYM_APPS['kcov'] = {1, 2}


def _rb_kgrad(args):
    nm, x, y, ls, sg, noise, fx, k, dg, jt = args
    if x.uid > y.uid:
        x, y = y, x
    return P(T.App('kgrad', (nm, x, y, ls, sg, noise, fx, k, dg, jt)))


T.REBUILD['kgrad'] = _rb_kgrad
T.SYM_APPS['kgrad'] = {1, 2}


def row_lam(I, X, i):
    sh = I.shape(X)[1:]
    vs = [T.fresh('u', 'I', '>=', s) for s in sh]
    ix = [P(v) if s is not T.ONE else T.ZERO for v, s in zip(vs, sh)]
    return T.mklam(vs, sh, I.at(X, [i] + ix))


def ls_term(I, ls):
    return I.lam(ls) if isinstance(ls, Arr) else tonum(ls).p


def kcov(I, nm, X, Xp, ls, signal, i, j):
    return _rb_kcov((canon(nm), row_lam(I, X, i), row_lam(I, Xp, j), ls_term(I, ls), tonum(signal).p))


def need(I, cond, exc, msg):
    if isinstance(cond, Bool):
        cond = I.decide(cond)
    if not cond:
        raise PyExc(exc, msg)


def check_hyps(I, hyps, nm, d):
    """the callee's requires: a valid hyperparameter dictionary (see validate_hyps_dict, C15)"""
    h = I.ditems(hyps)
    for k in ('noise', 'signal', 'lengthscales'):
        need(I, k in h, 'ValueError', 'invalid %s' % k)
    ls = h['lengthscales']
    if isinstance(ls, Arr):
        need(I, T.eq(I.shape(ls)[0], d), 'ValueError', 'invalid lengthscales')
    elif not (isinstance(ls, float) or isinstance(ls, Num) and ls.kind in ('float', 'npfloat')):
        raise PyExc('ValueError', 'invalid lengthscales')
    return h


@summary('bayeso.covariance.cov_main')
def _cov_main(I, a):
    nm, X, Xp, hyps, same, jit = a['str_cov'], a['X'], a['Xp'], a['hyps'], a['same_X_Xp'], a['jitter']
    if not isinstance(nm, str) or not isinstance(X, Arr) or not isinstance(Xp, Arr) or not isinstance(hyps, DictV) or not isinstance(same, bool):
        raise PyExc('AssertionError', 'cov_main argument types')
    need(I, nm in ALL, 'AssertionError', 'str_cov')
    nd = 3 if nm.startswith('set_') else 2
    sx, sy = I.shape(X), I.shape(Xp)
    need(I, len(sx) == nd and len(sy) == nd, 'AssertionError', 'cov_main dims')
    need(I, T.eq(sx[-1], sy[-1]), 'AssertionError', 'cov_main dims')
    h = check_hyps(I, hyps, nm, sx[-1])
    if same:
        need(I, T.eq(sx[0], sy[0]), 'AssertionError', 'cov_main same')
        # requires: the caller says the inputs are the same only when they are
        vs = [T.fresh('q', 'I', '>=', s) for s in sx]
        ix = [P(v) if s is not T.ONE else T.ZERO for v, s in zip(vs, sx)]
        I.obls.append(('requires cov_main: same_X_Xp only for equal inputs', list(I.facts), T.eq(I.at(X, ix), I.at(Xp, ix)), ''))
    j = tonum(jit).p

    def body(ix):
        b = kcov(I, nm, X, Xp, h['lengthscales'], h['signal'], ix[0], ix[1])
        if same:
            b = b + j * T.ind(T.eq(ix[0], ix[1]))
        return b
    return I.build((sx[0], sy[0]), body, 'f')


def n_grad(I, ls, d, fix):
    n = (d + T.ONE) if isinstance(ls, Arr) else K(2)
    return n if fix else n + T.ONE


def kgrad(I, nm, X, ls, signal, noise, fix, i, j, k, jit=P(1e-5)):
    return _rb_kgrad((canon(nm), row_lam(I, X, i), row_lam(I, X, j), ls_term(I, ls), tonum(signal).p, tonum(noise).p,
                      bool(fix), k, T.ind(T.eq(i, j)), jit))


@summary('bayeso.covariance.grad_cov_main')
def _grad_cov_main(I, a):
    nm, X, Xp, hyps, fix, same = a['str_cov'], a['X'], a['Xp'], a['hyps'], a['fix_noise'], a['same_X_Xp']
    if not isinstance(nm, str) or not isinstance(X, Arr) or not isinstance(Xp, Arr) or not isinstance(fix, bool):
        raise PyExc('AssertionError', 'grad_cov_main argument types')
    need(I, nm in ALL, 'AssertionError', 'str_cov')
    if nm.startswith('set_'):
        raise PyExc('NotImplementedError', 'gradients of set kernels')
    need(I, same is True, 'AssertionError', 'same_X_Xp')
    if X.cell != Xp.cell:
        raise Unsupported('grad_cov_main of two arrays')
    sx = I.shape(X)
    h = check_hyps(I, hyps, nm, sx[-1])
    return I.build((sx[0], sx[0], n_grad(I, h['lengthscales'], sx[1], fix)),
                   lambda ix: kgrad(I, nm, X, h['lengthscales'], h['signal'], h['noise'], fix, *ix, jit=tonum(a['jitter']).p), 'f')


# ---------------------------------------------------------------- numeric meaning (used when looking for refutations)
def _num_k(nm, r2):
    import math
    r = math.sqrt(max(r2, 0.0))
    if nm == 'se':
        return math.exp(-r2 / 2)
    if nm == 'matern32':
        return (1 + math.sqrt(3) * r) * math.exp(-math.sqrt(3) * r)
    return (1 + math.sqrt(5) * r + 5 * r2 / 3) * math.exp(-math.sqrt(5) * r)


def _num_kcov(nm, x, y, ls, sg):
    import numpy as np
    x, y = (np.array(v[1], dtype=float).reshape(v[0]) for v in (x, y))
    l = np.array(ls[1], dtype=float) if isinstance(ls, tuple) else ls
    b = nm[4:] if nm.startswith('set_') else nm
    x, y = np.atleast_2d(x / l), np.atleast_2d(y / l)
    return sg ** 2 * float(np.mean([[_num_k(b, ((u - v) ** 2).sum()) for v in y] for u in x]))


def _num_kgrad(nm, x, y, ls, sg, noise, fx, k, dg, jt):
    k = int(k)
    if not fx:
        if k == 0:
            return 2 * noise * dg
        k -= 1
    if k == 0:
        return 2 * (_num_kcov(nm, x, y, ls, sg) + jt * dg) / sg
    h = 1e-6

    def at(e):
        if isinstance(ls, tuple):
            v = list(ls[1])
            v[k - 1] += e
            return _num_kcov(nm, x, y, (ls[0], v), sg)
        return _num_kcov(nm, x, y, ls + e, sg)
    return (at(h) - at(-h)) / (2 * h)


prove.NUM_APPS['kcov'] = _num_kcov
prove.NUM_APPS['kgrad'] = _num_kgrad
