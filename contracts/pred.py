"""shared specification of the conditional predictions and of the callers' view of fitting"""
from .core import *
from .kern import *
from .c10 import train_lam

USE = ('bayeso.covariance.cov_main', 'bayeso.covariance.grad_cov_main')


def mk_prior(c, with_prior):
    if not with_prior:
        return None, lambda X, i: T.ZERO

    def fn(I, args, kw):
        X, = args
        lam = I.lam(X)
        n = lam.shape[0]
        return I.build((n, T.ONE), lambda ix: P(T.App('prior', (lam, ix[0]), 'R')), 'f')
    return c.keep('prior', lambda: OpaqueFn('prior', fn)), lambda X, i: P(T.App('prior', (c.I.lam(X), i), 'R'))


def conditional(c, kern, X, Y, Xs, inv, h, prior):
    """mean(i), cov(i, j), beta of the Gaussian conditional given the inverse covariance inv(a, b)"""
    I = c.I
    n = I.shape(X)[0]
    k = lambda A, B, i, j: kcov(I, kern, A, B, h['lengthscales'], h['signal'], i, j)
    res = lambda a: c.at(Y, a, 0) - prior(X, a)
    mean = lambda i: prior(Xs, i) + c.sum1(n, lambda a: c.sum1(n, lambda b: k(X, Xs, a, i) * inv(a, b) * res(b)))
    cov = lambda i, j: k(Xs, Xs, i, j) + P(1e-5) * T.ind(T.eq(i, j)) - \
        c.sum1(n, lambda a: c.sum1(n, lambda b: k(X, Xs, a, i) * inv(a, b) * k(X, Xs, b, j)))
    beta = c.sum1(n, lambda a: c.sum1(n, lambda b: res(a) * inv(a, b) * res(b)))
    return mean, cov, beta


def check_pred(c, r, kern, X, Y, Xs, inv, h, prior, tp):
    n, m = c.I.shape(X)[0], c.I.shape(Xs)[0]
    mean, cov, beta = conditional(c, kern, X, Y, Xs, inv, h, prior)
    want = 4 if tp else 3
    c.same('result tuple', isinstance(r, tuple) and len(r) == want)
    if not (isinstance(r, tuple) and len(r) == want):
        return
    if tp:
        nu = tonum(h['dof']).p
        c.eq('degrees of freedom', r[0], nu + n)
        r = r[1:]
        sc = (nu + beta - K(2)) / (nu + n - K(2))
        cov0 = cov
        cov = lambda i, j: sc * cov0(i, j)
    c.arr_eq('mean', r[0], (m, T.ONE), lambda i, j: mean(i))
    c.arr_eq('covariance', r[2], (m, m), cov)
    S = r[2]
    if isinstance(S, Arr) and len(c.I.shape(S)) == 2:
        c.arr_eq('deviation', r[1], (m, T.ONE), lambda i, j: T.tsqrt(T.tmax(c.at(S, i, i), T.ZERO)))


def fitted_hyps(I, ard, d, tp, tag='fit'):
    """an arbitrary valid hyperparameter dictionary"""
    if I.ghost.get('round'):
        tag = '%s~%d' % (tag, I.ghost['round'])
    h = {'noise': Num(P(T.Var(tag + '_noise', 'R', '>')), 'npfloat')}
    if tp:
        h['dof'] = Num(P(T.Var(tag + '_dof', 'R', '>')), 'npfloat')
    h['signal'] = Num(P(T.Var(tag + '_signal', 'R', '>')), 'npfloat')
    h['lengthscales'] = I.build((d,), lambda ix: P(T.App(tag + '_ls', tuple(ix), 'R', '>')), 'f') if ard else \
        Num(P(T.Var(tag + '_ls', 'R', '>')), 'npfloat')
    return I.new_dict(h)


class _C:
    def __init__(self, I):
        self.I = I


def fit_summary(tp):
    def s(I, a):
        """get_optimized_kernel: some hyperparameters with their covariance and its inverse (see C16)"""
        X, kern = a['X_train'], a['str_cov']
        need(I, isinstance(X, Arr) and isinstance(a['Y_train'], Arr), 'AssertionError', 'types')
        nd = 3 if kern.startswith('set_') else 2
        sx, sy = I.shape(X), I.shape(a['Y_train'])
        need(I, len(sx) == nd and len(sy) == 2, 'AssertionError', 'dims')
        need(I, T.eq(sx[0], sy[0]), 'AssertionError', 'rows')
        need(I, kern in ALL, 'ValueError', 'str_cov')
        k = len(I.ghost.get('fits', ()))
        hy = fitted_hyps(I, bool(a['use_ard']), sx[-1], tp, 'fit' if k == 0 else 'fit%d' % k)
        lam = train_lam(_C(I), kern, X, hy)
        n = sx[0]
        K_ = I.arr_new(lam, 'f')
        inv = I.build((n, n), lambda ix: nplib.inv_term(lam, ix[0], ix[1]), 'f')
        I.ghost['fits'] = I.ghost.get('fits', ()) + ((dict(a), I.lam(X), I.lam(a['Y_train'])),)
        return (K_, inv, hy)
    return s


SUMMARIES['bayeso.gp.gp_kernel.get_optimized_kernel'] = fit_summary(False)
SUMMARIES['bayeso.tp.tp_kernel.get_optimized_kernel'] = fit_summary(True)
