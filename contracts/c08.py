from .core import *
from .kern import *

V = 'bayeso.covariance.'


for _k in ('se', 'matern32', 'matern52'):
    for _ard in (True, False):
        @case('cov_%s.%s' % (_k, 'ard' if _ard else 'shared'), 'C08', V + 'cov_' + _k, kern=_k, ard=_ard)
        def _cov(c, kern, ard):
            n, m, d = c.dim('n'), c.dim('m'), c.dim('d')
            X, Xp = c.arr('X', (n, d)), c.arr('Xp', (m, d))
            signal = c.real('signal', '>')
            if ard:
                ls = c.arr('ls', (d,), sign='>')
                lsf = lambda k: c.at(ls, k)
            else:
                ls = c.real('ls', '>')
                lsf = lambda k: ls.p
            r = c.call(V + 'cov_' + kern, X, Xp, ls, signal)
            c.arr_eq('entry', r, (n, m), lambda i, j: entry(c, kern, X, Xp, i, j, lsf, signal.p, d))


for _k in BASE:
    for _ard in (True, False):
        @case('cov_set.%s.%s' % (_k, 'ard' if _ard else 'shared'), 'C08', V + 'cov_set', kern=_k, ard=_ard)
        def _cset(c, kern, ard):
            n, m, d = c.dim('n'), c.dim('m'), c.dim('d')
            X, Xp = c.arr('X', (n, d)), c.arr('Xp', (m, d))
            hy, noise, signal, lsf = mk_hyps(c, d, ard)
            r = c.call(V + 'cov_set', kern, X, Xp, c.I.ditems(hy)['lengthscales'], c.I.ditems(hy)['signal'])
            s = c.sum1(n, lambda a: c.sum1(m, lambda e: base_k(kern, r2_of(c, lambda k: c.at(X, a, k), lambda k: c.at(Xp, e, k), lsf, d))))
            c.eq('average over all pairs', tonum(r).p, signal ** 2 * s / (n * m))

for _k in ALL:
    for _ard in (True, False):
        for _same in (False, True, 'jitter', 'neg'):
            @case('cov_main.%s.%s.%s' % (_k, 'ard' if _ard else 'shared', {False: 'cross', True: 'same', 'jitter': 'same-jitter', 'neg': 'cross.negative'}[_same]),
                  'C08', V + 'cov_main', kern=_k, ard=_ard, same=_same)
            def _cmain(c, kern, ard, same):
                n, d = c.dim('n'), c.dim('d')
                isset = kern.startswith('set_')
                m = c.dim('m') if isset else None
                X = mk_data(c, 'X', n, d, isset, m)
                neg = same == 'neg'
                same = False if neg else same
                hy, noise, signal, lsf = mk_hyps(c, d, ard, neg=neg)
                jit = P(1e-5)
                if same:
                    Xp, n2, m2 = X, n, m
                    if same == 'jitter':
                        j = c.real('jit', '>')
                        jit = j.p
                        r = c.call(V + 'cov_main', kern, X, X, hy, True, jitter=j)
                    else:
                        r = c.call(V + 'cov_main', kern, X, X, hy, True)
                else:
                    n2 = c.dim('n2')
                    m2 = c.dim('m2') if isset else None
                    Xp = mk_data(c, 'Xp', n2, d, isset, m2)
                    r = c.call(V + 'cov_main', kern, X, Xp, hy, False)
                c.arr_eq('entry', r, (n, n2), lambda i, j: entry(c, kern, X, Xp, i, j, lsf, signal, d, m, m2)
                         + (jit * T.ind(T.eq(i, j)) if same else T.ZERO))


@case('cov_main.unknown', 'C08', V + 'cov_main', expect='AssertionError')
def _unk(c):
    n, d = c.dim('n'), c.dim('d')
    X = c.arr('X', (n, d))
    hy, noise, signal, lsf = mk_hyps(c, d, True)
    c.call(V + 'cov_main', 'abc', X, X, hy, True)


for _k in ALL:
    @case('lemma.symmetric.%s' % _k, 'C08 C10', 'lemma', kern=_k)
    def _sym(c, kern):
        """the entry formula is symmetric (used by the callers' view of cov_main)"""
        n, d, m = c.dim('n'), c.dim('d'), c.dim('m')
        isset = kern.startswith('set_')
        X = mk_data(c, 'X', n, d, isset, m)
        hy, noise, signal, lsf = mk_hyps(c, d, True)
        i, j = c.idx((n, n))
        c.eq('symmetric', entry(c, kern, X, X, i, j, lsf, signal, d, m, m), entry(c, kern, X, X, j, i, lsf, signal, d, m, m))
