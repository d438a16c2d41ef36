from ocommon import *
from oref import *
from bayeso.trees import trees_common as tc, trees_generic_trees as tg, trees_random_forest as tr


def need(name):
    f = getattr(tc, name, None)
    if f is None:
        raise Skip()
    return f


def data(rng):
    d = int(rng.choice([1, 2, 3, 5]))
    n = size(rng, [1, 2, 3, 5, 9, 16, 30, 60], 400)
    X = rng.uniform(-2, 2, size=(n, d))
    k = rng.randint(4)
    if k == 1:
        X = np.round(X, 1)
    elif k == 2:
        X = np.round(X)
    elif k == 3 and n > 1:
        X[:, rng.randint(d)] = 0.5
    Y = rng.randn(n, 1)
    if rng.rand() < 0.2:
        Y = np.round(Y)
    return d, n, X, Y


def var(y):
    return float(np.mean((y - y.mean()) ** 2)) if len(y) else 1e8


def score(Y, left):
    return var(Y[left, 0]) + var(Y[~left, 0])


def leaf_is(leaf, X, Y, what, **inp):
    check(isinstance(leaf, list) and len(leaf) == len(X), what + ': number of samples', got=leaf, X=X, Y=Y, **inp)
    for (bx, by), x, y in zip(leaf, X, Y):
        check(np.array_equal(bx, x) and np.array_equal(np.ravel(by), np.ravel(y)), what + ': pairs or order', got=leaf, X=X, Y=Y, **inp)


def best(X, Y, k):
    """smallest score over all thresholds of feature k, and whether all of them are tried"""
    u = np.unique(X[:, k])
    if len(u) == 1:
        return score(Y, X[:, k] < X[0, k]), True
    return min(score(Y, X[:, k] < (a + b) / 2.0) for a, b in zip(u[:-1], u[1:])), len(u) - 1 <= 20


def one_split(rng, i):
    d, n, X, Y = data(rng)
    k, loc = int(rng.randint(1, d + 1)), bool(rng.rand() < 0.3)
    inp = dict(X=X, Y=Y, num_features=k, random_location=loc)
    fz = Frozen(X=X, Y=Y)
    if i % 2:
        j = int(rng.randint(d))
        v = float(X[rng.randint(n), j]) if rng.rand() < 0.5 else float(rng.uniform(-2.2, 2.2))
        f = need('_split_left_right')
        l, r = guarded(lambda: f(X, Y, j, v), '_split_left_right', dim=j, val=v, **inp)
        fz.check('_split_left_right')
        m = X[:, j] < v
        leaf_is(l, X[m], Y[m], 'left side', dim=j, val=v)
        leaf_is(r, X[~m], Y[~m], 'right side', dim=j, val=v)
        return 'sides'
    log, cand = [], []
    f = need('_split')
    with spy(tc, 'mse', log), spy(tc, '_split_left_right', cand):
        nd = guarded(lambda: f(X, Y, k, loc), '_split', **inp)
    fz.check('_split')
    j, v = nd['index'], nd['value']
    check(isinstance(j, (int, np.integer)) and 0 <= j < d, 'feature index', got=j, **inp)
    check(np.isfinite(v), 'threshold', got=v, **inp)
    m = X[:, j] < v
    l, r = nd['left_right']
    leaf_is(l, X[m], Y[m], "left side")
    leaf_is(r, X[~m], Y[~m], "right side")
    s = score(Y, m)
    if log:
        check(abs(s - min(float(x[2]) for x in log)) <= 1e-9 * (1 + abs(s)), 'not the best of the candidates tried', got=nd, scores=[float(x[2]) for x in log], **inp)
    if not loc:
        bs, full = best(X, Y, j)
        if full:
            check(s <= bs + 1e-9 * (1 + abs(bs)), 'not the best threshold of its feature', got=(j, v, s), best=bs, **inp)
        if k == d:
            a = [best(X, Y, q) for q in range(d)]
            if all(x[1] for x in a):
                b2 = min(x[0] for x in a)
                check(s <= b2 + 1e-9 * (1 + abs(b2)), 'not the best split over the features', got=(j, v, s), best=b2, **inp)
    if cand and not loc:
        fs = [int(c[0][2]) if len(c[0]) > 2 else int(c[1]['dim_to_split']) for c in cand]
        check(len(set(fs)) == k, 'number of distinct features tried', got=fs, **inp)
    return 'split'


def walk(node, X, Y, depth, dmax, smin, d, inp):
    check(isinstance(node, dict) and 'left' in node and 'right' in node, 'node without children', got=node, **inp)
    check(depth <= dmax or depth == 1, 'deeper than the depth limit', depth=depth, **inp)
    j, v = node['index'], node['value']
    check(isinstance(j, (int, np.integer)) and 0 <= j < d and np.isfinite(v), 'test of a node', got=(j, v), **inp)
    m = X[:, j] < v
    sides = (('left', m), ('right', ~m))
    if not m.any() or m.all():
        ok = []
        for nm, mm in sides:
            c = node[nm]
            if isinstance(c, dict):
                check(False, 'a node with an empty side was split further', **inp)
            # an empty side: the samples are kept at a leaf which routing reaches
            if mm.any():
                leaf_is(c, X[mm], Y[mm], "degenerate node")
        return
    for nm, mm in sides:
        c = node[nm]
        if isinstance(c, dict):
            check(mm.sum() > smin, 'a side not larger than the minimum leaf size was split', size=int(mm.sum()), **inp)
            walk(c, X[mm], Y[mm], depth + 1, dmax, smin, d, inp)
        else:
            leaf_is(c, X[mm], Y[mm], "leaf")


def trial(rng, i):
    if i % 3 == 0:
        return one_split(rng, i // 3)
    d, n, X, Y = data(rng)
    if rng.rand() < 0.7:
        Y = np.arange(n, dtype=float)[:, None] + rng.rand()
    nt = int(rng.choice([1, 2, 5]))
    dmax, smin = int(rng.choice([1, 2, 3, 4, 6])), int(rng.choice([1, 1, 2, 3, 5]))
    k = int(rng.randint(1, d + 1))
    gen = i % 3 == 2
    ratio, rep = (float(rng.choice([1.0, 0.5, 0.8, 1.5])), True) if rng.rand() < 0.5 else (float(rng.choice([1.0, 0.7])), False)
    loc = bool(rng.randint(2))
    if int(n * ratio) < 1:
        ratio = 1.0
    inp = dict(X=X, Y=Y, trees=nt, depth_max=dmax, size_min_leaf=smin, num_features=k)
    fz = Frozen(X=X, Y=Y)
    log = []
    with spy(tc, 'subsample', log):
        if gen:
            inp.update(ratio=ratio, replace=rep, random_location=loc)
            T = guarded(lambda: tg.get_generic_trees(X, Y, nt, dmax, smin, ratio, rep, k, loc), 'get_generic_trees', **inp)
        else:
            ratio, rep = 1.0, True
            T = guarded(lambda: tr.get_random_forest(X, Y, nt, dmax, smin, k), 'get_random_forest', **inp)
    fz.check('growing trees')
    check(isinstance(T, list) and len(T) == nt, 'number of trees', got=len(T), **inp)
    rows = {}
    for x, y in zip(X, Y):
        rows.setdefault((tuple(x), float(y[0])), 0)
        rows[(tuple(x), float(y[0]))] += 1
    cnt = int(n * ratio)
    for t in range(nt):
        if len(log) == nt:
            Xs, Ys = log[t][2]
        else:
            Xs, Ys = gather(T[t])
        check(Xs.shape == (cnt, d) and Ys.shape == (cnt, 1), 'number of rows drawn', got=Xs.shape, **inp)
        used = {}
        for x, y in zip(Xs, Ys):
            q = (tuple(x), float(y[0]))
            check(q in rows, 'a drawn row is not a row of the data with its response', got=q, **inp)
            used[q] = used.get(q, 0) + 1
        if not rep:
            check(all(used[q] <= rows[q] for q in used), 'a row was drawn twice without replacement', **inp)
        if len(log) == nt:
            walk(T[t], Xs, Ys, 1, dmax, smin, d, inp)
    return 'generic' if gen else 'forest'


def gather(node):
    out = []

    def go(c):
        if isinstance(c, dict):
            if c['left'] is c['right']:
                go(c['left'])
            else:
                go(c['left'])
                go(c['right'])
        else:
            out.extend(c)
    go(node)
    return np.array([a for a, b in out]), np.array([np.ravel(b) for a, b in out])
