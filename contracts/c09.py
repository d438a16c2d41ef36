from .core import *
from .kern import *

V = 'bayeso.covariance.'


def var(p):
    return T._as_atom(p)


def slices(c, kern, X, lsf, ls, noise, signal, d, ard, fix, tau, sg=T.ONE):
    """k -> derivative of entry (i, j) of  s^2 (k_ij + tau [i=j]) + noise^2 [i=j]  (tau held constant)"""
    def F(i, j):
        dl = T.ind(T.eq(i, j))
        return entry(c, kern, X, X, i, j, lsf, signal, d) + signal ** 2 * tau * dl + noise ** 2 * dl

    def at(i, j, k):
        f = F(i, j)
        off = T.ZERO
        r = T.ZERO
        if not fix:
            r = r + T.ind(T.eq(k, T.ZERO)) * T.diff(f, var(sg * noise)) * sg
            off = T.ONE
        r = r + T.ind(T.eq(k, off)) * T.diff(f, var(sg * signal)) * sg
        if ard:
            r = r + T.ind(T.ge(k, off + T.ONE)) * T.diff(f, 'ls', (k - off - T.ONE,)) * sg
        else:
            r = r + T.ind(T.eq(k, off + T.ONE)) * T.diff(f, var(sg * ls.p)) * sg
        return r
    return at


for _k in BASE:
    for _ard in (True, False):
        for _fix in (True, False):
            for _jit in (False, True, 'neg'):
                @case('grad_cov_main.%s.%s.%s%s' % (_k, 'ard' if _ard else 'shared', 'fixed' if _fix else 'free',
                                                    {True: '.jitter', 'neg': '.negative', False: ''}[_jit]),
                      'C09', V + 'grad_cov_main', kern=_k, ard=_ard, fix=_fix, jit=_jit, timeout=60)
                def _g(c, kern, ard, fix, jit):
                    neg, jit = jit == 'neg', jit is True
                    n, d = c.dim('n'), c.dim('d')
                    X = c.arr('X', (n, d))
                    hy, noise, signal, lsf = mk_hyps(c, d, ard, neg=neg)
                    ls = c.I.ditems(hy)['lengthscales']
                    j = P(1e-5)
                    kw = {}
                    if jit:
                        jj = c.real('jit', '>')
                        j = jj.p
                        kw['jitter'] = jj
                    r = c.call(V + 'grad_cov_main', kern, X, X, hy, fix, **kw)
                    tau = P(T.Var('tau', 'R', '>'))
                    nh = (d if ard else T.ONE) + (T.ONE if fix else K(2))
                    sp = slices(c, kern, X, lsf, ls, noise, signal, d, ard, fix, tau, K(-1) if neg else T.ONE)
                    c.arr_eq('slice', r, (n, n, nh),
                             lambda i, jx, k: T.subst(sp(i, jx, k), {var(tau): j / signal ** 2}))


@case('grad_cov_main.unknown', 'C09', V + 'grad_cov_main', expect='AssertionError')
def _unk(c):
    n, d = c.dim('n'), c.dim('d')
    X = c.arr('X', (n, d))
    hy, noise, signal, lsf = mk_hyps(c, d, True)
    c.call(V + 'grad_cov_main', 'abc', X, X, hy, True)
