from .core import *

A = 'bayeso.acquisition.'


def setup(c, std_sign='>='):
    n, N, q = c.dim('n'), c.dim('N'), c.dim('q')
    mu = c.arr('mu', (n,))
    s = c.arr('s', (n,), sign=std_sign)
    Y = c.arr('Y', (N, q))
    return n, N, mu, s, Y


def ymin(c, Y):
    return c.min2(Y)


def Z(c, m, mu, s, jit, i):
    return (m - c.at(mu, i)) / (c.at(s, i) + jit)


@case('pi.default', 'C07', A + 'pi', how='default')
@case('pi.jitter', 'C07', A + 'pi', how='jitter')
def _pi(c, how):
    n, N, mu, s, Y = setup(c)
    jit = P(1e-5)
    if how == 'jitter':
        j = c.real('jit', '>')
        jit = j.p
        r = c.call(A + 'pi', mu, s, Y, jitter=j)
    else:
        r = c.call(A + 'pi', mu, s, Y)
    m = ymin(c, Y)
    c.arr_eq('value', r, (n,), lambda i: nplib.normcdf(Z(c, m, mu, s, jit, i)))


def EI(c, m, mu, s, jit, i):
    z = Z(c, m, mu, s, jit, i)
    return (m - c.at(mu, i)) * nplib.normcdf(z) + c.at(s, i) * nplib.npdf(z)


@case('ei.default', 'C07', A + 'ei', how='default')
@case('ei.jitter', 'C07', A + 'ei', how='jitter')
def _ei(c, how):
    n, N, mu, s, Y = setup(c)
    jit = P(1e-5)
    if how == 'jitter':
        j = c.real('jit', '>')
        jit = j.p
        r = c.call(A + 'ei', mu, s, Y, jitter=j)
    else:
        r = c.call(A + 'ei', mu, s, Y)
    m = ymin(c, Y)
    c.arr_eq('value', r, (n,), lambda i: EI(c, m, mu, s, jit, i))


@case('aei.default', 'C07', A + 'aei', how='default')
@case('aei.jitter', 'C07', A + 'aei', how='jitter')
def _aei(c, how):
    n, N, mu, s, Y = setup(c)
    jit = P(1e-5)
    noise = c.real('noise', '>')
    if how == 'jitter':
        j = c.real('jit', '>')
        jit = j.p
        r = c.call(A + 'aei', mu, s, Y, noise, jitter=j)
    else:
        r = c.call(A + 'aei', mu, s, Y, noise)
    m = ymin(c, Y)
    aug = lambda i: T.ONE - noise.p / T.tsqrt(c.at(s, i) ** 2 + noise.p ** 2)
    c.arr_eq('value', r, (n,), lambda i: EI(c, m, mu, s, jit, i) * aug(i))


@case('ucb.grow', 'C07', A + 'ucb', y=True, grow=None)
@case('ucb.grow-explicit', 'C07', A + 'ucb', y=True, grow=True)
@case('ucb.nogrow', 'C07', A + 'ucb', y=True, grow=False)
@case('ucb.noY', 'C07', A + 'ucb', y=False, grow=None)
@case('ucb.default-kappa', 'C07', A + 'ucb', y=True, grow=None, defk=True)
def _ucb(c, y, grow, defk=False):
    n, N, mu, s, Y = setup(c)
    kap = c.real('kappa')
    kw = {} if defk else {'kappa': kap}
    kp = K(2) if defk else kap.p
    if grow is not None:
        kw['increase_kappa'] = grow
    if y:
        kw['Y_train'] = Y
    r = c.call(A + 'ucb', mu, s, **kw)
    k = kp * T.tlog(N + T.ONE) if y and grow is not False else kp
    c.arr_eq('value', r, (n,), lambda i: k * c.at(s, i) - c.at(mu, i))


@case('pure_exploit', 'C07', A + 'pure_exploit')
def _exploit(c):
    n = c.dim('n')
    mu = c.arr('mu', (n,))
    r = c.call(A + 'pure_exploit', mu)
    c.arr_eq('value', r, (n,), lambda i: -c.at(mu, i))


@case('pure_explore', 'C07', A + 'pure_explore')
def _explore(c):
    n = c.dim('n')
    s = c.arr('s', (n,), sign='>=')
    r = c.call(A + 'pure_explore', s)
    c.arr_eq('value', r, (n,), lambda i: c.at(s, i))


CH = 'bayeso.utils.utils_bo.choose_fun_acquisition'
for _nm in ('pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'):
    for _pos in (True, False):
        @case('choose.%s.%s' % (_nm, 'positional' if _pos else 'keyword'), 'C07', CH, nm=_nm, pos=_pos)
        def _choose(c, nm, pos):
            n, N, mu, s, Y = setup(c)
            noise = c.real('noise', '>')
            f = c.call(CH, nm, noise) if pos else c.call(CH, nm, noise=noise)
            if pos:
                r = c.call(f, mu, s, Y)
            else:
                r = c.call(f, pred_mean=mu, pred_std=s, Y_train=Y)
            m = ymin(c, Y)
            jit = P(1e-5)
            spec = {
                'pi': lambda i: nplib.normcdf(Z(c, m, mu, s, jit, i)),
                'ei': lambda i: EI(c, m, mu, s, jit, i),
                'aei': lambda i: EI(c, m, mu, s, jit, i) * (T.ONE - noise.p / T.tsqrt(c.at(s, i) ** 2 + noise.p ** 2)),
                'ucb': lambda i: K(2) * T.tlog(N + T.ONE) * c.at(s, i) - c.at(mu, i),
                'pure_exploit': lambda i: -c.at(mu, i),
                'pure_explore': lambda i: c.at(s, i),
            }[nm]
            c.arr_eq('value', r, (n,), spec)


@case('choose.unknown', 'C07', CH, expect='AssertionError')
def _choose_bad(c):
    c.call(CH, 'abc')


@case('choose.aei-no-noise', 'C07', CH, expect='AssertionError')
def _choose_bad2(c):
    c.call(CH, 'aei')
