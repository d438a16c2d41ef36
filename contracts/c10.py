from .core import *
from .kern import *

V = 'bayeso.covariance.'
LADDER = [0.0, 1e-4, 1e-2, 1e-1, 1.0, 10.0, 100.0]
USE = ('bayeso.covariance.cov_main', 'bayeso.covariance.grad_cov_main')


def train_lam(c, kern, X, hy, extra=T.ZERO):
    """the regularised training covariance: kernel + (jitter + noise^2 + extra) on the diagonal"""
    I = c.I
    h = I.ditems(hy)
    n = I.shape(X)[0]
    i, j = T.fresh('i', 'I', '>=', n), T.fresh('j', 'I', '>=', n)
    ii, jj = (P(i), P(j)) if n is not T.ONE else (T.ZERO, T.ZERO)
    b = kcov(I, kern, X, X, h['lengthscales'], h['signal'], ii, jj) + (P(1e-5) + tonum(h['noise']).p ** 2 + extra) * T.ind(T.eq(ii, jj))
    return T.mklam([i, j], [n, n], b)


def eq_lam(c, name, a, lam, props=None):
    c.arr_eq(name, a, lam.shape, lambda *ix: T.lam_open(lam, list(ix)), props)


def check_grad(c, name, r, kern, X, hy, fix, grad):
    if not grad:
        c.same(name + ' absent', r is None)
        return
    I = c.I
    h = I.ditems(hy)
    n, d = I.shape(X)
    c.arr_eq(name, r, (n, n, n_grad(I, h['lengthscales'], d, fix)),
             lambda i, j, k: kgrad(I, kern, X, h['lengthscales'], h['signal'], h['noise'], fix, i, j, k))


def setup(c, kern, ard, tp=False):
    n, d = c.dim('n'), c.dim('d')
    isset = kern.startswith('set_')
    X = mk_data(c, 'X', n, d, isset, c.dim('m') if isset else None)
    hy = mk_hyps(c, d, ard, tp)[0]
    return n, d, X, hy


def variants():
    for k in ALL:
        for ard in (True, False):
            for grad, fix in ((False, True), (False, False), (True, True), (True, False)):
                if grad and k.startswith('set_'):
                    continue
                yield k, ard, grad, fix


def vid(k, ard, grad, fix):
    return '%s.%s.%s.%s' % (k, 'ard' if ard else 'shared', 'grad' if grad else 'nograd', 'fixed' if fix else 'free')


for _v in variants():
    @case('inverse.' + vid(*_v), 'C10', V + 'get_kernel_inverse', use=USE, v=_v)
    def _inv(c, v):
        kern, ard, grad, fix = v
        n, d, X, hy = setup(c, kern, ard)
        lam = train_lam(c, kern, X, hy)
        c.assume(T.bapp('invertible', (lam,)))
        r = c.call(V + 'get_kernel_inverse', X, hy, kern, fix_noise=fix, use_gradient=grad)
        c.same('triple', isinstance(r, tuple) and len(r) == 3)
        eq_lam(c, 'covariance', r[0], lam)
        c.arr_eq('inverse of the returned matrix', r[1], (n, n), lambda i, j: nplib.inv_term(c.I.lam(r[0]), i, j))
        check_grad(c, 'gradient', r[2], kern, X, hy, fix, grad)

    @case('cholesky.' + vid(*_v), 'C10', V + 'get_kernel_cholesky', use=USE, v=_v)
    def _chol(c, v):
        kern, ard, grad, fix = v
        n, d, X, hy = setup(c, kern, ard)
        base = train_lam(c, kern, X, hy)
        try:
            r = c.call(V + 'get_kernel_cholesky', X, hy, kern, fix_noise=fix, use_gradient=grad)
        except PyExc as e:
            if e.name != 'ValueError':
                raise
            r = None
        failed, succeeded = ladder(c)
        # the extra amounts tried, in the order in which they were tried
        amounts = [extra_of(c, base, l) for l in failed]
        c.same('tried matrices are covariance plus a constant diagonal', all(a is not None for a in amounts))
        if any(a is None for a in amounts):
            return
        vals = [a for a in amounts]
        c.same('at most one factorisation is used', len(succeeded) <= 1)
        if r is None:
            c.same('failure only when every amount failed', not succeeded and len(vals) >= 2)
            seq = vals
            c.same('every amount was tried', len(vals) == len(LADDER))
        else:
            c.same('a factorisation succeeded', len(succeeded) == 1)
            c.same('triple', isinstance(r, tuple) and len(r) == 3)
            got = c.I.lam(r[0])
            x = extra_of(c, base, got)
            c.same('covariance plus a constant diagonal amount', x is not None)
            if x is None:
                return
            eq_lam(c, 'covariance', r[0], train_lam(c, kern, X, hy, P(x)))
            c.same('the amount returned is the one that succeeded', bool(succeeded) and succeeded[0] is got)
            cl = nplib.chol_lam(got)
            c.arr_eq('lower factor of the returned matrix', r[1], (n, n), lambda i, j: T.lam_open(cl, [i, j]))
            check_grad(c, 'gradient', r[2], kern, X, hy, fix, grad)
            seq = vals + [x]
        c.same('amounts are those of the ladder, in order', bool(seq) and [float(a) for a in seq] == LADDER[:len(seq)])


def ladder(c):
    """matrices whose factorisation failed / succeeded on this path, from the path condition"""
    bad, good = [], []
    for f in c.I.facts:
        if f.kind == 'bapp' and f.name == 'posdef':
            good.append(f.args[0])
        elif f.kind == 'not' and f.args[0].kind == 'bapp' and f.args[0].name == 'posdef':
            bad.append(f.args[0].args[0])
    return bad, good


def extra_of(c, base, lam):
    if len(lam.shape) != 2 or lam.shape[0] is not base.shape[0]:
        return None
    i, j = c.idx(base.shape)
    d = T.lam_open(lam, [i, j]) - T.lam_open(base, [i, j])
    k = T.ind(T.eq(i, j))
    if d is T.ZERO:
        return 0
    if len(d.mons) != 1:
        return None
    (m, co), = d.mons.items()
    return co if T.scale(k, co) is d else None
