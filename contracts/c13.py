from .pred import *
from .c10 import ladder, extra_of

G = 'bayeso.gp.gp_likelihood.'
TPM = 'bayeso.tp.tp_likelihood.'


def decoded(c, w, d, ard, tp, fix):
    """dictionary a hyperparameter vector decodes to (C15)"""
    pre = (0 if fix else 1) + (1 if tp else 0)
    I = c.I
    h = {'noise': I.module('bayeso.constants').ns['GP_NOISE'] if fix else Num(c.at(w, 0), 'npfloat')}
    if tp:
        h['dof'] = Num(c.at(w, pre - 1), 'npfloat')
    h['signal'] = Num(c.at(w, pre), 'npfloat')
    if ard:
        h['lengthscales'] = I.build((d,), lambda ix: c.at(w, ix[0] + K(pre + 1)), 'f')
    else:
        h['lengthscales'] = Num(c.at(w, pre + 1), 'npfloat')
    return I.new_dict(h)


def setup(c, kern, ard, tp, fix):
    n, d = c.dim('n'), c.dim('d')
    isset = kern.startswith('set_')
    X = mk_data(c, 'X', n, d, isset, c.dim('q') if isset else None)
    Y, M = c.arr('Y', (n, T.ONE)), c.arr('M', (n, T.ONE))
    pre = (0 if fix else 1) + (1 if tp else 0)
    w = c.arr('vec', (K(pre + 1) + (d if ard else T.ONE),), sign='>', dt='F')
    hy = decoded(c, w, d, ard, tp, fix)
    res = lambda a: c.at(Y, a, 0) - c.at(M, a, 0)
    return n, d, X, Y, M, w, hy, res


def quad(c, n, A, u, v):
    return c.sum1(n, lambda a: c.sum1(n, lambda b: u(a) * A(a, b) * v(b)))


def isnum_(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, Num)


def split(c, r, grad):
    if grad:
        ok = isinstance(r, tuple) and len(r) == 2
        c.same('value and gradient', ok)
        return r if ok else (None, None)
    c.same('value only', not isinstance(r, tuple))
    return r, None


LOG2PI = T.tlog(K(2) * P(T.PI))


for _k in ALL:
    for _ard in (True, False):
        for _fix in (True, False):
            _id = '%s.%s.%s' % (_k, 'ard' if _ard else 'shared', 'fixed' if _fix else 'free')
            for _mode in ('chol', 'grad', 'inv'):
                if _mode == 'grad' and _k.startswith('set_'):
                    continue

                @case('neg_log_ml.%s.%s' % (_mode, _id), 'C13', G + 'neg_log_ml', use=USE, v=(_k, _ard, _fix, _mode))
                def _ml(c, v):
                    kern, ard, fix, mode = v
                    n, d, X, Y, M, w, hy, res = setup(c, kern, ard, False, fix)
                    h = c.I.ditems(hy)
                    base = train_lam(c, kern, X, hy)
                    if mode == 'inv':
                        c.assume(T.bapp('invertible', (base,)))
                        c.assume(T.gt0(P(T.App('detsign', (base,)))))
                        r = c.call(G + 'neg_log_ml', X, Y, w, kern, M, use_ard=ard, fix_noise=fix, use_cholesky=False)
                        A = base
                        half_logdet = P(T.App('logabsdet', (base,))) / K(2)
                    else:
                        try:
                            r = c.call(G + 'neg_log_ml', X, Y, w, kern, M, use_ard=ard, fix_noise=fix, use_gradient=(mode == 'grad'))
                        except PyExc as e:
                            good = ladder(c)[1]
                            c.same('fails only when no factorisation exists', e.name == 'ValueError' and not good)
                            return
                        good = ladder(c)[1]
                        c.same('one factorisation', len(good) == 1)
                        if len(good) != 1:
                            return
                        A = good[0]
                        c.same('of the training covariance plus a constant diagonal', extra_of(c, base, A) is not None)
                        half_logdet = c.sum1(n, lambda a: T.tlog(P(T.App('chol', (A, a, a))) + P(1e-7)))
                    val, g = split(c, r, mode == 'grad')
                    inv = lambda a, b: nplib.inv_term(A, a, b)
                    c.same('scalar', isnum_(val))
                    if isnum_(val):
                        c.eq('objective', val, (quad(c, n, inv, res, res) / K(2) + half_logdet + n / K(2) * LOG2PI) / n)
                    if mode == 'grad' and isinstance(g, Arr):
                        al = lambda a: c.sum1(n, lambda b: inv(a, b) * res(b))
                        kg = lambda i, j, k: kgrad(c.I, kern, X, h['lengthscales'], h['signal'], h['noise'], fix, i, j, k)
                        c.arr_eq('gradient', g, (n_grad(c.I, h['lengthscales'], d, fix),),
                                 lambda k: -c.sum1(n, lambda i: c.sum1(n, lambda j: (al(i) * al(j) - inv(i, j)) * kg(i, j, k))) / (K(2) * n))

            @case('loocv.%s' % _id, 'C13', G + 'neg_log_pseudo_l_loocv', use=USE, v=(_k, _ard, _fix))
            def _loo(c, v):
                kern, ard, fix = v
                n, d, X, Y, M, w, hy, res = setup(c, kern, ard, False, fix)
                base = train_lam(c, kern, X, hy)
                c.assume(T.bapp('invertible', (base,)))
                r = c.call(G + 'neg_log_pseudo_l_loocv', X, Y, w, kern, M, fix_noise=fix, use_ard=ard)
                c.same('scalar', isnum_(r))
                if not isnum_(r):
                    return
                inv = lambda a, b: nplib.inv_term(base, a, b)
                # leave-one-out predictive of y_i: mean y_i - [K^-1 y]_i / [K^-1]_ii, variance 1 / [K^-1]_ii (plus the jitter)
                prec = lambda i: inv(i, i) + P(1e-5)
                dev = lambda i: c.sum1(n, lambda b: inv(i, b) * res(b)) / inv(i, i)
                c.eq('objective', r, c.sum1(n, lambda i: (LOG2PI - T.tlog(prec(i)) + dev(i) ** 2 * prec(i)) / K(2)) / n)

            for _grad in (False, True):
                if _grad and _k.startswith('set_'):
                    continue

                @case('tp.neg_log_ml.%s.%s' % ('grad' if _grad else 'value', _id), 'C14', TPM + 'neg_log_ml', use=USE, v=(_k, _ard, _fix, _grad))
                def _tp(c, v):
                    kern, ard, fix, grad = v
                    n, d, X, Y, M, w, hy, res = setup(c, kern, ard, True, fix)
                    h = c.I.ditems(hy)
                    nu = tonum(h['dof']).p
                    c.assume(T.gt(nu, K(2)))
                    base = train_lam(c, kern, X, hy)
                    c.assume(T.bapp('invertible', (base,)))
                    c.assume(T.gt0(P(T.App('detsign', (base,)))))
                    r = c.call(TPM + 'neg_log_ml', X, Y, w, kern, M, use_ard=ard, fix_noise=fix, use_gradient=grad)
                    val, g = split(c, r, grad)
                    inv = lambda a, b: nplib.inv_term(base, a, b)
                    beta = quad(c, n, inv, res, res)
                    lg = lambda x: T.mkapp('gammaln', (x,))
                    dg = lambda x: T.mkapp('digamma', (x,))
                    logq = T.tlog(T.ONE + beta / (nu - K(2)))
                    c.same('scalar', isnum_(val))
                    if isnum_(val):
                        c.eq('objective', val, (n / K(2) * T.tlog((nu - K(2)) * P(T.PI)) + P(T.App('logabsdet', (base,))) / K(2)
                                                - lg((nu + n) / K(2)) + lg(nu / K(2)) + (nu + n) / K(2) * logq) / n)
                    if not grad or not isinstance(g, Arr):
                        return
                    kern_n = n_grad(c.I, h['lengthscales'], d, fix)
                    if not c.shape_is('gradient length', g, (kern_n + T.ONE,)):
                        return
                    al = lambda a: c.sum1(n, lambda b: inv(a, b) * res(b))
                    kg = lambda i, j, k: kgrad(c.I, kern, X, h['lengthscales'], h['signal'], h['noise'], fix, i, j, k)
                    ent = lambda k: -c.sum1(n, lambda i: c.sum1(n, lambda j: (
                        (nu + n) / (nu + beta - K(2)) * al(i) * al(j) - inv(i, j)) * kg(i, j, k))) / (K(2) * n)
                    off = T.ONE if fix else K(2)
                    if not fix:
                        c.eq('noise entry', c.at(g, 0), ent(T.ZERO))
                    q, = c.idx((kern_n - (T.ZERO if fix else T.ONE),))
                    c.eq('signal and lengthscale entries', c.at(g, q + off), ent(q + (T.ZERO if fix else T.ONE)))
                    dslot = c.at(g, 0 if fix else 1)

                    def dof(f):
                        return -(-n / (K(2) * (nu - K(2))) + f * (dg((nu + n) / K(2)) - dg(nu / K(2))) - logq / K(2)
                                 + (nu + n) * beta / (K(2) * (nu - K(2)) ** 2 + K(2) * beta * (nu - K(2)))) / n
                    # recorded defect: the digamma terms lack the factor one half (KNOWN_FINDINGS.txt)
                    if prove.prove_zero(dslot - dof(T.ONE), c.I.facts).status == 'proved':
                        c.eq('recorded:tp-dof-digamma degrees-of-freedom entry', dslot, dof(T.ONE))
                    else:
                        c.eq('degrees-of-freedom entry is the partial derivative', dslot, dof(K(1) / K(2)))
