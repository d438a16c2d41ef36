"""splitting and growing of trees, forests"""
from .trees import *


def list_spec(c, name, l, n, row):
    """l has n elements; element i is (row(i)[0], row(i)[1]), arrays given as index functions with lengths"""
    I = c.I
    c.same(name + ': a list', isinstance(l, ListV) and not isinstance(l, DictV))
    if not isinstance(l, ListV):
        return
    items = I.items(l)
    c.eq(name + ': number of elements', I.seq_len(items), n)
    if not items:
        return
    i, = c.idx((n,))
    if n.const is not None and n.const == 0:
        return
    e = I.list_get(items, i)
    c.same(name + ': pairs', isinstance(e, tuple) and len(e) == 2)
    if not (isinstance(e, tuple) and len(e) == 2):
        return
    for nm, x, (k, f) in zip(('input', 'response'), e, row(i)):
        c.arr_eq('%s: %s kept' % (name, nm), x, (k,), f)


def side_mask(c, n, col, val, left):
    v = T.fresh('s', 'I', '>=', n)
    b = T.lt(col(P(v)), val)
    return T.mklam([v], [n], b if left else T.bnot(b))


def parts_spec(c, name, lr, X, Y, k, val, n, d):
    I = c.I
    c.same(name + ': two sides', isinstance(lr, tuple) and len(lr) == 2)
    if not (isinstance(lr, tuple) and len(lr) == 2):
        return
    for side, l in zip((True, False), lr):
        mk = side_mask(c, n, lambda i: c.at(X, i, k), val, side)
        cnt = npmodel.cnt_term(mk)
        list_spec(c, '%s %s' % (name, 'left: below the threshold' if side else 'right: the others'), l, cnt,
                  lambda i: ((d, lambda q: c.at(X, npmodel.nth_term(mk, i), q)), (T.ONE, lambda q: c.at(Y, npmodel.nth_term(mk, i), 0))))


@case('left-right', 'C17', TC + '_split_left_right')
def _lr(c):
    I = c.I
    n, d = c.dim('n'), c.dim('d')
    X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
    k = P(T.Var('k', 'I', '>='))
    c.assume(T.lt(k, d))
    val = c.real('val')
    r = c.call(TC + '_split_left_right', X, Y, c.num(k), val)
    parts_spec(c, 'split', r, X, Y, k, val.p, n, d)


# ---------------------------------------------------------------- scores
@case('mse.rows', 'C17', TC + '_mse')
def _mse(c):
    n = c.dim('n')
    Y = c.arr('Y', (n, T.ONE))
    r = c.call(TC + '_mse', Y)
    c.eq('variance', r, mean_std(c, n, lambda i: c.at(Y, i, 0))[1] ** 2)


@case('mse.empty', 'C17', TC + '_mse')
def _mse0(c):
    r = c.call(TC + '_mse', c.I.build((T.ZERO,), lambda ix: T.ZERO, 'f'))
    c.holds('worst', T.ge(tonum(r).p, P(1e8)))


for _l in (0, 1):
    for _r in (0, 1):
        @case('score.%d%d' % (_l, _r), 'C17', TC + 'mse', v=(_l, _r))
        def _score(c, v):
            d = c.dim('d')
            ls, tot = [], T.ZERO
            for nm, k in zip('LR', v):
                if k:
                    l, n, y = mk_leaf(c, nm, d)
                    tot = tot + mean_std(c, n, y)[1] ** 2
                else:
                    l = c.list_([])
                    tot = tot + P(100000000.0)
                ls.append(c.watch(nm, l))
            r = c.call(TC + 'mse', tuple(ls))
            c.eq('sum of the two response variances', r, tot)


# ---------------------------------------------------------------- the callers' view of a split and its score
def parts(I, X, Y, k, val):
    n, d = I.shape(X)
    out = []
    for left in (True, False):
        mk = side_mask_(I, X, n, k, val, left)
        cnt = npmodel.cnt_term(mk)
        i, q, z = T.fresh('i', 'I', '>=', cnt), T.fresh('q', 'I', '>=', d), T.fresh('z', 'I', '>=', T.ONE)
        nt = npmodel.nth_term(mk, P(i))
        bx = FArr(T.mklam([q], [d], I.at(X, [nt, P(q) if d is not T.ONE else T.ZERO])), 'f')
        by = FArr(T.mklam([z], [T.ONE], I.at(Y, [nt, T.ZERO])), 'f')
        out.append(I.new_list([Seg(cnt, i, (bx, by))]))
    return tuple(out)


def side_mask_(I, X, n, k, val, left):
    v = T.fresh('s', 'I', '>=', n)
    b = T.lt(I.at(X, [P(v) if n is not T.ONE else T.ZERO, k]), val)
    return T.mklam([v], [n], b if left else T.bnot(b))


def data_ok(I, X, Y):
    need(I, isinstance(X, Arr) and isinstance(Y, Arr), 'AssertionError', 'types')
    sx, sy = I.shape(X), I.shape(Y)
    need(I, len(sx) == 2 and len(sy) == 2, 'AssertionError', 'dims')
    need(I, T.eq(sx[0], sy[0]), 'AssertionError', 'rows')
    need(I, T.eq(sy[1], T.ONE), 'AssertionError', 'responses')
    return sx


def int_ok(I, v):
    need(I, isinstance(v, int) or isinstance(v, Num) and v.kind == 'int', 'AssertionError', 'int')
    return tonum(v).p


@summary(TC + '_split_left_right')
def _slr(I, a):
    n, d = data_ok(I, a['X'], a['Y'])
    k = int_ok(I, a['dim_to_split'])
    need(I, T.band(T.ge0(k), T.lt(k, d)), 'IndexError', 'feature')
    v = a['val_to_split']
    need(I, isinstance(v, float) or isinstance(v, Num) and v.kind in ('float', 'npfloat'), 'AssertionError', 'threshold')
    return parts(I, a['X'], a['Y'], k, tonum(v).p)


def side_key(I, l):
    items = I.items(l)
    if not items:
        return K(0)
    if len(items) != 1 or not isinstance(items[0], Seg) or not isinstance(items[0].tmpl, tuple):
        raise Unsupported('side of a split')
    s = items[0]
    return T.mklam([s.var], [s.n], T.lam_open(s.tmpl[1].lam, [T.ZERO]))


def score_term(I, lr):
    return P(T.App('splitscore', (side_key(I, lr[0]), side_key(I, lr[1])), 'R', '>='))


@summary(TC + 'mse')
def _ms(I, a):
    lr = a['left_right']
    need(I, isinstance(lr, tuple) and len(lr) == 2, 'AssertionError', 'sides')
    return Num(score_term(I, lr), 'npfloat')


def draws(c, k):
    ch = c.I.ghost.get('choices', ())
    if len(ch) != k:
        raise Unsupported('random draws in another form')
    return ch


def chosen_spec(c, r, X, Y, n, d):
    """(feature, threshold, score, parts): the parts are those of the feature and threshold, the score is theirs"""
    I = c.I
    c.same('four results', isinstance(r, tuple) and len(r) == 4)
    k, val = tonum(r[0]).p, tonum(r[1]).p
    parts_spec(c, 'chosen split', r[3], X, Y, k, val, n, d)
    c.eq('its score', r[2], score_term(I, parts(I, X, Y, k, val)))
    return k, val


for _m in ('many', 'one'):
    @case('deterministic.' + _m, 'C17', TC + '_split_deterministic', use=(TC + '_split_left_right', TC + 'mse'), v=_m)
    def _det(c, v):
        I = c.I
        n, d = c.dim('n'), c.dim('d')
        X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
        k = P(T.Var('k', 'I', '>='))
        c.assume(T.lt(k, d))
        col = I.lam(I.build((n,), lambda ix: c.at(X, ix[0], k), 'f'))
        un = P(T.App('uniqlen', (col,), 'I', '>='))
        u = lambda i: P(T.App('uniq', (col, i)))
        c.assume(T.ge(un, K(2)) if v == 'many' else T.le(un, T.ONE))
        r = c.call(TC + '_split_deterministic', X, Y, c.num(k))
        kk, val = chosen_spec(c, r, X, Y, n, d)
        c.eq('the feature asked for', kk, k)
        (pop, m, rep, lam), = draws(c, 1)
        c.same('distinct candidates', rep is False)
        c.holds('some candidate tried', T.gt0(m))
        if v == 'many':
            thr = lambda t: (u(T.lam_open(lam, [t])) + u(T.lam_open(lam, [t]) + T.ONE)) / K(2)
            c.eq('every gap between neighbouring values can be drawn', pop, un - T.ONE)
        else:
            thr = lambda t: c.at(X, 0, k)
        q = T.fresh('t', 'I', '>=', m)
        sc = lambda t: score_term(I, parts(I, X, Y, k, thr(t)))
        am = nplib.argmin_term(q, m, sc(P(q)))
        c.eq('a best candidate among those tried', val, thr(am))
        t = P(T.fresh('t', 'I', '>=', m))
        c.holds('no tried candidate scores better', T.le(tonum(r[2]).p, sc(t)))


@case('random', 'C17', TC + '_split_random', use=(TC + '_split_left_right', TC + 'mse'))
def _rnd(c):
    I = c.I
    n, d = c.dim('n'), c.dim('d')
    X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
    k = P(T.Var('k', 'I', '>='))
    c.assume(T.lt(k, d))
    r = c.call(TC + '_split_random', X, Y, c.num(k))
    kk, val = chosen_spec(c, r, X, Y, n, d)
    c.eq('the feature asked for', kk, k)
    lo = c.min1(n, lambda i: c.at(X, i, k))
    hi = -c.min1(n, lambda i: -c.at(X, i, k))
    c.holds('threshold not below the smallest value', T.ge(val, lo))
    c.holds('threshold not above the largest value', T.le(val, hi))


def split_summary(mode):
    def s(I, a):
        n, d = data_ok(I, a['X'], a['Y'])
        k = int_ok(I, a['dim_to_split'])
        need(I, T.band(T.ge0(k), T.lt(k, d)), 'IndexError', 'feature')
        thr = P(T.App('thr_' + mode, (I.lam(a['X']), I.lam(a['Y']), k) + tuple(I.loop_idx), 'R'))
        lr = parts(I, a['X'], a['Y'], k, thr)
        return Num(k, 'int'), Num(thr, 'npfloat'), Num(score_term(I, lr), 'npfloat'), lr
    return s


SUMMARIES[TC + '_split_deterministic'] = split_summary('deterministic')
SUMMARIES[TC + '_split_random'] = split_summary('random')

for _rl in (False, True):
    @case('choose.' + ('random' if _rl else 'deterministic'), 'C17', TC + '_split',
          use=(TC + '_split_deterministic', TC + '_split_random'), v=_rl)
    def _choose(c, v):
        I = c.I
        n, d = c.dim('n'), c.dim('d')
        X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
        nf = P(T.Var('nf', 'I', '>'))
        c.assume(T.le(nf, d))
        r = c.call(TC + '_split', X, Y, c.num(nf), v)
        c.same('a node', isinstance(r, DictV))
        h = I.ditems(r)
        c.same('entries of a node', set(h) == {'index', 'value', 'left_right'})
        if set(h) != {'index', 'value', 'left_right'}:
            return
        (pop, m, rep, lam), = draws(c, 1)
        c.same('distinct features', rep is False)
        c.eq('drawn from all features', pop, d)
        c.eq('as many as asked for', m, nf)
        k, val = tonum(h['index']).p, tonum(h['value']).p
        parts_spec(c, 'node', h['left_right'], X, Y, k, val, n, d)
        q = T.fresh('t', 'I', '>=', nf)

        def cand(t):
            kk = T.lam_open(lam, [t])
            return P(T.App('thr_' + ('random' if v else 'deterministic'), (I.lam(X), I.lam(Y), kk) + ((t,) if False else ()), 'R'))
        kt = lambda t: T.lam_open(lam, [t])
        c.holds('one feature index', T.band(T.ge0(k), T.lt(k, d)))
        loopix = lambda t: (t,)
        thr = lambda t: P(T.App('thr_' + ('random' if v else 'deterministic'), (I.lam(X), I.lam(Y), kt(t)) + loopix(t), 'R'))
        sc = lambda t: score_term(I, parts(I, X, Y, kt(t), thr(t)))
        am = nplib.argmin_term(q, nf, sc(P(q)))
        c.eq('feature of the best candidate', k, kt(am))
        c.eq('threshold of the best candidate', val, thr(am))
        t = P(T.fresh('t', 'I', '>=', nf))
        c.holds('no tried feature scores better', T.le(score_term(I, parts(I, X, Y, k, val)), sc(t)))


# ---------------------------------------------------------------- growing
@summary(TC + '_split')
def _sp(I, a):
    n, d = data_ok(I, a['X'], a['Y'])
    need(I, T.gt0(n), 'AssertionError', 'rows')
    nf = int_ok(I, a['num_features'])
    need(I, T.band(T.ge0(nf), T.le(nf, d)), 'ValueError', 'features')
    need(I, isinstance(a['split_random_location'], bool), 'AssertionError', 'mode')
    return I.new_dict({'index': Opaque('index'), 'value': Opaque('value'), 'left_right': Opaque('parts'),
                       '#data': (I.copy(a['X']), I.copy(a['Y']), Num(nf, 'int'), a['split_random_location'])})


LIMITS = ('depth_max', 'size_min_leaf', 'num_features', 'split_random_location', 'cur_depth')


@summary(TC + 'split')
def _grow(I, a):
    nd = a['node']
    need(I, isinstance(nd, DictV) and 'left_right' in I.ditems(nd), 'AssertionError', 'node')
    if '#data' not in I.ditems(nd):
        raise Unsupported('node without contract')
    need(I, T.gt0(int_ok(I, a['cur_depth'])), 'AssertionError', 'depth')
    h = dict(I.ditems(nd))
    h.pop('left_right')
    h['#grown'] = tuple(a[k] for k in LIMITS)
    I.heap[nd.cell] = (I.heap[nd.cell][0], h)
    return None


def grown_spec(c, name, ch, X, Y, want):
    """ch: a node made by _split from the data (X, Y index functions with n, d) and grown with the limits"""
    I = c.I
    h = I.ditems(ch)
    c.same(name + ': made by _split and grown', '#data' in h and '#grown' in h and 'left_right' not in h)
    if not ('#data' in h and '#grown' in h):
        return
    x, y, nf, mode = h['#data']
    c.arr_eq(name + ': grown on the inputs', x, (X[0], X[1]), X[2])
    c.arr_eq(name + ': grown on their responses', y, (X[0], T.ONE), Y)
    for k, g, w in zip(LIMITS, h['#grown'], want):
        if isinstance(w, bool):
            c.same('%s: %s passed on' % (name, k), g is w)
        else:
            c.eq('%s: %s passed on' % (name, k), g, w)
    c.eq(name + ': number of features', nf, want[2])
    c.same(name + ': split mode', mode is want[3])


for _l in (0, 1):
    for _r in (0, 1):
        @case('grow.%d%d' % (_l, _r), 'C17', TC + 'split', use=(TC + '_split', TC + 'split'), v=(_l, _r))
        def _growc(c, v):
            I = c.I
            d = c.dim('d')
            ls = []
            for nm, k in zip('LR', v):
                l, n, y = mk_leaf(c, nm, d) if k else (c.list_([]), T.ZERO, None)
                ls.append((c.watch('samples ' + nm, l), n, nm, y))
            ix, val = P(T.Var('index', 'I', '>=')), c.real('value')
            node = c.dict_(index=c.num(ix), value=val, left_right=(ls[0][0], ls[1][0]))
            dm, sm, nf, cd = (P(T.Var(x, 'I', s)) for x, s in (('depth_max', None), ('size_min', None), ('nf', '>'), ('depth', '>')))
            c.assume(T.le(nf, d))
            mode = I.decide(T.BVarB('mode'))
            c.call(TC + 'split', node, c.num(dm), c.num(sm), c.num(nf), mode, c.num(cd))
            h = I.ditems(node)
            c.same('entries of a grown node', set(h) == {'index', 'value', 'left', 'right'})
            if set(h) != {'index', 'value', 'left', 'right'}:
                return
            c.eq('tested feature kept', h['index'], ix)
            c.eq('threshold kept', h['value'], val.p)
            for side, (l, n, nm, y) in zip(('left', 'right'), ls):
                ch = h[side]
                if v[0] and v[1]:
                    if isinstance(ch, DictV):
                        c.holds(side + ': not split at the depth limit', T.lt(cd, dm))
                        c.holds(side + ': larger than the minimum leaf size', T.gt(n, sm))
                        grown_spec(c, side, ch, (n, d, lambda i, k: P(T.App('lx' + nm, (i, k), 'R'))), lambda i, z: y(i), (dm, sm, nf, mode, cd + T.ONE))
                    else:
                        leaf_spec(c, side, ch, [(n, nm, y)], d)
                else:
                    # one side is empty: both leaves hold all samples
                    leaf_spec(c, side, ch, [(n_, nm_, y_) for _, n_, nm_, y_ in ls if y_ is not None], d)


def leaf_spec(c, name, ch, srcs, d):
    tot = T.ZERO
    for n, _, _ in srcs:
        tot = tot + n
    if len(srcs) > 1:
        raise Unsupported('two sources')
    row = (lambda i: ((d, lambda q: P(T.App('lx' + srcs[0][1], (i, q), 'R'))), (T.ONE, lambda q: srcs[0][2](i)))) if srcs else None
    list_spec(c, name + ' leaf', ch, tot, row)


# ---------------------------------------------------------------- bootstrap and forests
for _rep in (True, False):
    @case('subsample.' + ('with' if _rep else 'without'), 'C17', TC + 'subsample', v=_rep)
    def _sub(c, v):
        I = c.I
        n, d = c.dim('n'), c.dim('d')
        X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
        ratio = c.real('ratio', '>')
        if not v:
            c.assume(T.le(ratio.p, T.ONE))
        r = c.call(TC + 'subsample', X, Y, ratio, v)
        c.same('pair', isinstance(r, tuple) and len(r) == 2)
        (pop, m, rep, lam), = draws(c, 1)
        c.eq('drawn from all rows', pop, n)
        c.same('with replacement only when asked for', rep is v)
        ix = lambda i: T.lam_open(lam, [i])
        c.arr_eq('inputs: rows of the data', r[0], (m, d), lambda i, k: c.at(X, ix(i), k))
        c.arr_eq('responses: those of the same rows', r[1], (m, T.ONE), lambda i, k: c.at(Y, ix(i), 0))


@summary(TC + 'subsample')
def _subs(I, a):
    X, Y = a['X'], a['Y']
    n, d = data_ok(I, X, Y)
    r = a['ratio_sampling']
    need(I, isinstance(r, float) or isinstance(r, Num) and r.kind in ('float', 'npfloat'), 'AssertionError', 'ratio')
    rp = tonum(r).p
    need(I, isinstance(a['replace_samples'], bool), 'AssertionError', 'replace')
    need(I, T.gt0(rp) if a['replace_samples'] else T.band(T.gt0(rp), T.le(rp, T.ONE)), 'AssertionError', 'ratio')
    m = P(T.App('nsub', (n, rp), 'I', '>='))
    I.assume(T.implies(T.ge(n * rp, T.ONE), T.gt0(m)))
    need(I, T.implies(T.eq0(n), T.eq0(m)), 'ValueError', 'no rows')
    row = lambda i: P(T.App('subrow', (n, m) + tuple(I.loop_idx) + (i,), 'I', '>='))
    return (I.build((m, d), lambda ix: I.at(X, [row(ix[0]), ix[1]]), 'f'), I.build((m, T.ONE), lambda ix: I.at(Y, [row(ix[0]), T.ZERO]), 'f'))


def forest_spec(c, r, X, Y, n, d, nt, m, want):
    I = c.I
    c.same('a list of trees', isinstance(r, ListV))
    if not isinstance(r, ListV):
        return
    items = I.items(r)
    c.eq('as many trees as asked for', I.seq_len(items), nt)
    t, = c.idx((nt,))
    e = I.list_get(items, t)
    c.same('nodes', isinstance(e, DictV))
    if isinstance(e, DictV):
        row = lambda i: P(T.App('subrow', (n, m, t, i), 'I', '>='))
        grown_spec(c, 'tree', e, (m, d, lambda i, k: c.at(X, row(i), k)), lambda i, z: c.at(Y, row(i), 0), want)


@case('forest.random', 'C17', 'bayeso.trees.trees_random_forest.get_random_forest', use=(TC + 'subsample', TC + '_split', TC + 'split'))
def _rf(c):
    n, d = c.dim('n'), c.dim('d')
    X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
    nt, nf = c.dim('trees'), P(T.Var('nf', 'I', '>'))
    c.assume(T.le(nf, d))
    dm, sm = P(T.Var('depth_max', 'I')), P(T.Var('size_min', 'I'))
    r = c.call('bayeso.trees.trees_random_forest.get_random_forest', X, Y, c.num(nt), c.num(dm), c.num(sm), c.num(nf))
    forest_spec(c, r, X, Y, n, d, nt, P(T.App('nsub', (n, T.ONE), 'I', '>=')), (dm, sm, nf, False, T.ONE))


for _rep in (True, False):
    for _rl in (True, False):
        @case('forest.generic.%s.%s' % ('with' if _rep else 'without', 'random' if _rl else 'deterministic'), 'C17',
              'bayeso.trees.trees_generic_trees.get_generic_trees', use=(TC + 'subsample', TC + '_split', TC + 'split'), v=(_rep, _rl))
        def _gf(c, v):
            n, d = c.dim('n'), c.dim('d')
            X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
            nt, nf = c.dim('trees'), P(T.Var('nf', 'I', '>'))
            c.assume(T.le(nf, d))
            dm, sm = P(T.Var('depth_max', 'I')), P(T.Var('size_min', 'I'))
            ratio = c.real('ratio', '>')
            if not v[0]:
                c.assume(T.le(ratio.p, T.ONE))
            c.assume(T.ge(n * ratio.p, T.ONE))
            r = c.call('bayeso.trees.trees_generic_trees.get_generic_trees', X, Y, c.num(nt), c.num(dm), c.num(sm), ratio, v[0], c.num(nf), v[1])
            forest_spec(c, r, X, Y, n, d, nt, P(T.App('nsub', (n, ratio.p), 'I', '>=')), (dm, sm, nf, v[1], T.ONE))


for _defaults in (False, True):
    @case('forest.model.' + ('defaults' if _defaults else 'given'), 'C17 C03', 'bayeso.bo.bo_w_trees.BOwTrees.get_trees',
          use=(TC + 'subsample', TC + '_split', TC + 'split'), v=_defaults)
    def _mf(c, v):
        """the surrogate of a tree model is a forest grown on the given data with the given limits"""
        I = c.I
        n, d = c.dim('n'), c.dim('d')
        X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
        nt = c.dim('trees')
        dm, sm = P(T.Var('depth_max', 'I')), P(T.Var('size_min', 'I'))
        bo = c.call('bayeso.bo.BOwTrees', c.box(d))
        f = I.getattr(bo, 'get_trees')
        if v:
            r = c.call(f, X, Y)
        else:
            r = c.call(f, X, Y, num_trees=c.num(nt), depth_max=c.num(dm), size_min_leaf=c.num(sm))
        c.same('a list of trees', isinstance(r, ListV))
        items = I.items(r) if isinstance(r, ListV) else ()
        c.same('some tree', bool(items))
        if not items:
            return
        if v:
            nt = I.seq_len(items)
            c.holds('at least one tree', T.gt0(nt))
        t, = c.idx((nt,))
        e = I.list_get(items, t)
        c.same('nodes', isinstance(e, DictV) and '#grown' in I.ditems(e))
        if not (isinstance(e, DictV) and '#grown' in I.ditems(e)):
            return
        g = [tonum(q).p if not isinstance(q, bool) else q for q in I.ditems(e)['#grown']]
        c.holds('a number of features that exists', T.band(T.gt0(g[2]), T.le(g[2], d)))
        want = (g[0] if v else dm, g[1] if v else sm, g[2], False, T.ONE)
        m = P(T.App('nsub', (n, T.ONE), 'I', '>='))
        forest_spec(c, r, X, Y, n, d, nt, m, want)
