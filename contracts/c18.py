"""prediction by trees and forests"""
from .trees import *


# ---------------------------------------------------------------- one tree
def tid(I, t):
    need(I, isinstance(t, DictV), 'AssertionError', 'tree')
    x = I.ditems(t).get('#id')
    if x is None:
        raise Unsupported('tree without contract')
    return tonum(x).p


def vec_lam(I, bx):
    need(I, isinstance(bx, Arr) and len(I.shape(bx)) == 1, 'AssertionError', 'point')
    return I.lam(bx)


@summary(TC + '_predict_by_tree')
def _pt(I, a):
    t = tid(I, a['tree'])
    l = vec_lam(I, a['bx'])
    return Num(P(T.App('treemean', (t, l), 'R')), 'npfloat'), Num(P(T.App('treestd', (t, l), 'R', '>=')), 'npfloat')


for _l in ('leaf', 'node'):
    for _r in ('leaf', 'node'):
        @case('route.%s.%s' % (_l, _r), 'C18', TC + '_predict_by_tree', use=(TC + '_predict_by_tree',), v=(_l, _r))
        def _route(c, v):
            I = c.I
            d = c.dim('d')
            x = c.arr('x', (d,))
            ix = P(T.Var('index', 'I', '>='))
            c.assume(T.lt(ix, d))
            val = c.real('value')
            want, sub = [], []
            for k, (kind, side) in enumerate(zip(v, ('L', 'R'))):
                if kind == 'leaf':
                    lf, n, y = mk_leaf(c, side, d)
                    c.watch('leaf', lf)
                    sub.append(lf)
                    want.append(mean_std(c, n, y))
                else:
                    sub.append(c.dict_(**{'#id': k}))
                    want.append((P(T.App('treemean', (K(k), I.lam(x)), 'R')), P(T.App('treestd', (K(k), I.lam(x)), 'R', '>='))))
            tree = c.watch('tree', c.dict_(index=c.num(ix), value=val, left=sub[0], right=sub[1]))
            r = c.call(TC + '_predict_by_tree', x, tree)
            c.same('pair', isinstance(r, tuple) and len(r) == 2)
            below = T.lt(c.at(x, ix), val.p)
            c.eq('mean of the leaf routed to', r[0], T.ite(below, want[0][0], want[1][0]))
            c.eq('deviation of the leaf routed to', r[1], T.ite(below, want[0][1], want[1][1]))


# ---------------------------------------------------------------- combination
@case('combine', 'C18', TC + 'compute_sigma')
def _sigma(c):
    m = c.dim('m')
    mu, sd = c.arr('mu', (m,)), c.arr('sd', (m,), sign='>=')
    r = c.call(TC + 'compute_sigma', mu, sd)
    c.eq('deviation of the forest', r, combine(c, m, lambda i: c.at(mu, i), lambda i: c.at(sd, i))[1])


@case('combine.floor', 'C18', TC + 'compute_sigma')
def _sigmaf(c):
    m = c.dim('m')
    mu, sd = c.arr('mu', (m,)), c.arr('sd', (m,))
    f = c.real('floor', '>=')
    r = c.call(TC + 'compute_sigma', mu, sd, min_sigma=f)
    c.eq('deviation of the forest', r, combine(c, m, lambda i: c.at(mu, i), lambda i: c.at(sd, i), f.p)[1])


def mk_forest(c, m):
    """m trees known by their number"""
    I = c.I
    t = T.fresh('t', 'I', '>=', m)
    f = I.new_list([Seg(P(m), t, FDict({'#id': Num(P(t), 'int')}))])
    I.ghost['forest'] = f.cell
    return f


@case('forest.point', 'C18', TC + '_predict_by_trees', use=(TC + '_predict_by_tree',))
def _fp(c):
    d, m = c.dim('d'), c.dim('m')
    x = c.arr('x', (d,))
    f = c.watch('trees', mk_forest(c, m))
    r = c.call(TC + '_predict_by_trees', x, f)
    c.same('pair', isinstance(r, tuple) and len(r) == 2)
    l = c.I.lam(x)
    mean, std = combine(c, m, lambda i: P(T.App('treemean', (i, l), 'R')), lambda i: P(T.App('treestd', (i, l), 'R', '>=')))
    c.eq('mean of the trees', r[0], mean)
    c.eq('deviation of the trees', r[1], std)


# ---------------------------------------------------------------- batching
def forest_ok(I, f):
    if not (isinstance(f, ListV) and f.cell == I.ghost.get('forest')):
        raise PyExc('AssertionError', 'the trees passed on are not the forest')


@summary(TC + '_predict_by_trees')
def _pfp(I, a):
    forest_ok(I, a['list_trees'])
    l = vec_lam(I, a['bx'])
    return Num(P(T.App('forestmean', (l,), 'R')), 'npfloat'), Num(P(T.App('foreststd', (l,), 'R', '>=')), 'npfloat')


def columns(I, X):
    need(I, isinstance(X, Arr) and len(I.shape(X)) == 2, 'AssertionError', 'X')
    n = I.shape(X)[0]
    return (I.build((n, T.ONE), lambda ix: P(T.App('forestmean', (row_lam(I, X, ix[0]),), 'R')), 'f'),
            I.build((n, T.ONE), lambda ix: P(T.App('foreststd', (row_lam(I, X, ix[0]),), 'R', '>=')), 'f'))


@summary(TC + 'unit_predict_by_trees')
def _up(I, a):
    forest_ok(I, a['list_trees'])
    return columns(I, a['X'])


def batch(c, r, X, n):
    I = c.I
    c.same('pair', isinstance(r, tuple) and len(r) == 2)
    c.arr_eq('mean of each query in query order', r[0], (n, T.ONE), lambda i, z: P(T.App('forestmean', (row_lam(I, X, i),), 'R')))
    c.arr_eq('deviation of each query in query order', r[1], (n, T.ONE), lambda i, z: P(T.App('foreststd', (row_lam(I, X, i),), 'R', '>=')))


@case('unit', 'C18', TC + 'unit_predict_by_trees', use=(TC + '_predict_by_trees',))
def _unit(c):
    n, d = c.dim('n'), c.dim('d')
    X = c.arr('X', (n, d))
    f = c.watch('trees', mk_forest(c, c.dim('m')))
    batch(c, c.call(TC + 'unit_predict_by_trees', X, f), X, n)


@case('batches', 'C18', TC + 'predict_by_trees', use=(TC + 'unit_predict_by_trees',))
def _batches(c):
    n, d = c.dim('n'), c.dim('d')
    X = c.arr('X', (n, d))
    f = c.watch('trees', mk_forest(c, c.dim('m')))
    batch(c, c.call(TC + 'predict_by_trees', X, f), X, n)
