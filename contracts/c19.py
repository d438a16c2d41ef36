from .core import *

U = 'bayeso.utils.utils_common.'


@case('get_minimum.many', 'C19', U + 'get_minimum', rounds='many')
@case('get_minimum.single', 'C19', U + 'get_minimum', rounds='one')
def _gmin(c, rounds):
    R = c.dim('R', 2) if rounds == 'many' else K(1)
    m = c.dim('m')            # further responses
    k = c.dim('k')            # initial ones
    n = m + k
    Y = c.arr('Y', (R, n))
    r = c.call(U + 'get_minimum', Y, c.num(k))
    c.same('four results', isinstance(r, tuple) and len(r) == 4)
    minima, mean, std, sem = r
    spec = lambda a, j: c.min1(k + j, lambda t: c.at(Y, a, t))
    c.arr_eq('best so far', minima, (R, m + T.ONE), spec)
    if not (isinstance(minima, Arr) and len(c.I.shape(minima)) == 2):
        return
    spec = lambda a, j: c.at(minima, a, j)     # proved above to be the best so far
    mu = lambda j: c.sum1(R, lambda a: spec(a, j)) / R
    c.arr_eq('mean', mean, (m + T.ONE,), mu)
    if rounds == 'many':
        sd = lambda j: T.tsqrt(c.sum1(R, lambda a: (spec(a, j) - mu(j)) ** 2) / (R - T.ONE))
    else:
        sd = lambda j: T.ZERO
    c.arr_eq('sample deviation', std, (m + T.ONE,), sd)
    c.arr_eq('standard error', sem, (m + T.ONE,), lambda j: sd(j) / T.tsqrt(R))


@case('get_time.include', 'C19', U + 'get_time', inc=True)
@case('get_time.all', 'C19', U + 'get_time', inc=False)
def _gtime(c, inc):
    R, m = c.dim('R'), c.dim('m')
    k = c.dim('k', 0)
    n = m + k
    t = c.arr('t', (R, n))
    r = c.call(U + 'get_time', t, c.num(k), inc)
    off = k if inc else T.ZERO
    cnt = (m if inc else n) + T.ONE
    c.arr_eq('average cumulative time', r, (cnt,),
             lambda j: c.sum1(R, lambda a: c.sum1(j, lambda s: c.at(t, a, s + off))) / R)
