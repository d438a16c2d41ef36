from .core import *

F = 'bayeso.utils.utils_bo.normalize_min_max'


@case('normalize.column', 'C06', F, q=1)
@case('normalize.matrix', 'C06', F, q=None)
def _norm(c, q):
    N = c.dim('N')
    q = K(q) if q else c.dim('q')
    Y = c.arr('Y', (N, q))
    r = c.call(F, Y)
    mn = c.min2(Y)
    neg = c.I.build((N, q), lambda ix: -c.at(Y, *ix))
    mx = -c.min2(neg)
    const = T.eq(mx, mn)
    if not c.shape_is('shape', r, (N, q)):
        return
    if c.I.decide(const):
        c.arr_eq('constant responses unchanged', r, (N, q), lambda i, j: c.at(Y, i, j))
        return
    c.arr_eq('affine map', r, (N, q), lambda i, j: K(10) * (c.at(Y, i, j) - mn) / (mx - mn))
    # consequences: range, order, ends (the affine map is the exact statement, these follow)
    i, j = c.idx((N, q))
    k, l = c.idx((N, q))
    lo = T.fresh('r', 'I', '>=', N)
    lo2 = T.fresh('r', 'I', '>=', q)
    c.I.assume(T.gt(mx, mn))
    c.I.assume(T.band(T.ge(c.at(Y, i, j), mn), T.le(c.at(Y, i, j), mx)))
    y = K(10) * (c.at(Y, i, j) - mn) / (mx - mn)
    z = K(10) * (c.at(Y, k, l) - mn) / (mx - mn)
    w = mx - mn
    c.holds('lemma: at least 0', T.ge0(K(10) * (c.at(Y, i, j) - mn)))
    c.holds('lemma: at most 10', T.ge0(K(10) * w - K(10) * (c.at(Y, i, j) - mn)))
    c.eq('lemma: order preserved', (y - z) * w, K(10) * (c.at(Y, i, j) - c.at(Y, k, l)))
