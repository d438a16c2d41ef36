from .core import *

U = 'bayeso.utils.utils_bo.'


@case('by_evaluation', 'C05', U + 'get_best_acquisition_by_evaluation')
def _byev(c):
    n, d = c.dim('n'), c.dim('d')
    X = c.arr('X', (n, d))
    calls = []

    def obj(I, args, kw):
        x, = args
        row = I.lam(x)
        return Num(P(T.App('objective', (row,), 'R')), 'npfloat')
    r = c.call(U + 'get_best_acquisition_by_evaluation', X, OpaqueFn('objective', obj))
    rowlam = lambda i: rowof(c, X, i, d)
    score = lambda i: P(T.App('objective', (rowlam(i),), 'R'))
    v = T.fresh('k', 'I', '>=', n)
    am = nplib.argmin_term(v, n, score(P(v)))
    c.arr_eq('first minimiser', r, (T.ONE, d), lambda i, j: c.at(X, am, j))
    k, = c.idx((n,))
    c.holds('lemma: minimal', T.ge(score(k), score(am)))
    c.holds('lemma: a candidate', T.band(T.ge0(am), T.lt(am, n)))


def rowof(c, X, i, d):
    u = T.fresh('u', 'I', '>=', d)
    return T.mklam([u], [d], c.at(X, i, P(u) if d is not T.ONE else T.ZERO))


@case('by_history', 'C05', U + 'get_best_acquisition_by_history')
def _byhist(c):
    n, d = c.dim('n'), c.dim('d')
    X = c.arr('X', (n, d))
    Y = c.arr('Y', (n, T.ONE))
    r = c.call(U + 'get_best_acquisition_by_history', X, Y)
    c.same('pair', isinstance(r, tuple) and len(r) == 2)
    x, y = r
    k, = c.idx((n,))
    yv = tonum(y).p
    v = T.fresh('k', 'I', '>=', n)
    am = nplib.argmin_term(v, n, c.at(Y, P(v), 0))
    c.arr_eq('point', x, (d,), lambda j: c.at(X, am, j))
    c.eq('value', yv, c.at(Y, am, 0))
    c.holds('lemma: minimal', T.ge(c.at(Y, k, 0), c.at(Y, am, 0)))


@case('next_best', 'C05', U + 'get_next_best_acquisition')
def _next(c):
    n, d, m = c.dim('n'), c.dim('d'), c.dim('m')
    X = c.arr('X', (n, d))
    acq = c.arr('acq', (n,))
    E = c.arr('E', (m, d))
    # precondition: scores are finite
    vq = T.fresh('f', 'I', '>=', n)
    c.assume(T.forall([vq], [n], T.lt(c.at(acq, P(vq)), P(T.INF))))
    r = c.call(U + 'get_next_best_acquisition', X, acq, E)
    dist = lambda i, e: T.tsqrt(c.sum1(d, lambda k: (c.at(X, i, k) - c.at(E, e, k)) ** 2))
    ve = T.fresh('e', 'I', '>=', m)
    fresh = lambda i: T.forall([ve], [m], T.ge(dist(i, P(ve)), P(1e-8)))
    if not c.shape_is('shape', r, (d,)):
        return
    # the candidates coinciding with no evaluated point, in order
    vi = T.fresh('i', 'I', '>=', n)
    mask = T.mklam([vi], [n], fresh(P(vi)))
    left = P(T.App('cnt', (mask,), 'I', '>='))
    nth = lambda k: P(T.App('nth', (mask, k), 'I', '>='))
    if c.I.decide(T.gt0(left)):
        vk = T.fresh('k', 'I', '>=', left)
        am = nplib.argmin_term(vk, left, c.at(acq, nth(P(vk))))
        best = nth(am)
        c.arr_eq('a best remaining candidate', r, (d,), lambda j: c.at(X, best, j))
        c.holds('is a candidate', T.band(T.ge0(best), T.lt(best, n)))
        c.holds('coincides with no evaluated point', fresh(best))
    else:
        c.arr_eq('falls back to the last evaluated point', r, (d,), lambda j: c.at(E, m - T.ONE, j))


@case('lemma.filtered-argmin', 'C05', 'lemma')
def _lemma(c):
    """for every mask: the entry argmin picks among the kept ones is minimal over all kept ones"""
    n = c.dim('n')
    acq = c.arr('acq', (n,))
    keep = lambda i: T.bapp('keep', (i,))
    vi = T.fresh('i', 'I', '>=', n)
    mask = T.mklam([vi], [n], keep(P(vi)))
    left = P(T.App('cnt', (mask,), 'I', '>='))
    nth = lambda k: P(T.App('nth', (mask, k), 'I', '>='))
    i, = c.idx((n,))
    if c.I.decide(T.gt0(left)):
        vk = T.fresh('k', 'I', '>=', left)
        best = nth(nplib.argmin_term(vk, left, c.at(acq, nth(P(vk)))))
        c.holds('is kept', T.band(T.ge0(best), T.lt(best, n), keep(best)))
        c.holds('no kept entry is smaller', T.implies(keep(i), T.ge(c.at(acq, i), c.at(acq, best))))
    else:
        c.holds('nothing is kept', T.bnot(keep(i)))
