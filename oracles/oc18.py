from ocommon import *
from oref import *
from bayeso.trees import trees_common as tc, trees_generic_trees as tg, trees_random_forest as tr
from oc17 import data


def route(x, t):
    while isinstance(t, dict):
        t = t['left'] if x[t['index']] < t['value'] else t['right']
    y = np.array([float(np.ravel(b)[0]) for a, b in t])
    return y.mean(), np.sqrt(np.mean((y - y.mean()) ** 2))


def ref(Q, T):
    mu, v = [], []
    for x in Q:
        r = np.array([route(x, t) for t in T])
        m = r[:, 0].mean()
        mu.append(m)
        v.append(max(np.mean(r[:, 0] ** 2 + r[:, 1] ** 2) - m ** 2, 0.0))
    return np.array(mu)[:, None], np.array(v)[:, None]


def cmp(r, Q, T, what, **inp):
    check(isinstance(r, tuple) and len(r) == 2, what + ': two results', **inp)
    mu, v = ref(Q, T)
    check(np.shape(r[0]) == mu.shape and np.shape(r[1]) == v.shape, what + ': columns with one row per query', got=[np.shape(x) for x in r], **inp)
    sc = 1 + np.abs(mu).max() ** 2
    close(r[0], mu, what + ': mean', rtol=1e-9, atol=1e-9 * sc, queries=Q, **inp)
    check(np.all(r[1] >= 0) and np.all(np.abs(r[1] ** 2 - v) <= 1e-9 * sc + 1e-9 * v), what + ': deviation', got=r[1], expected=np.sqrt(v), queries=Q, **inp)


def trial(rng, i):
    d, n, X, Y = data(rng)
    Y = Y * float(rng.choice([1.0, 5.0])) + float(rng.choice([0.0, 0.0, 20.0]))
    nt = int(rng.choice([1, 2, 3, 8]))
    k = int(rng.randint(1, d + 1))
    if rng.rand() < 0.5:
        T = tr.get_random_forest(X, Y, nt, int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 2, 4])), k)
    else:
        T = tg.get_generic_trees(X, Y, nt, int(rng.choice([1, 2, 4])), int(rng.choice([1, 3])), 1.0, bool(rng.randint(2)), k, bool(rng.randint(2)))
    big = i % 12 == 0
    q = int(rng.choice([100, 101, 150, 199, 200, 201, 203, 350, 500])) if big else size(rng, [1, 2, 3, 7, 20], 1200)
    Q = rng.uniform(-2.5, 2.5, size=(q, d))
    if rng.rand() < 0.5:
        Q[rng.randint(q)] = X[rng.randint(n)]
        th = [t['value'] for t in T]
        Q[rng.randint(q), T[0]['index']] = th[0]        # exactly on a threshold
    inp = dict(X=X, Y=Y, trees=nt)
    fz = Frozen(Q=Q)
    r = guarded(lambda: tc.predict_by_trees(Q, T), 'predict_by_trees', **inp)
    fz.check('predict_by_trees')
    cmp(r, Q, T, 'predict_by_trees (%d queries)' % q, **inp)
    if i % 3 == 0:
        a = rng.randn(int(rng.choice([1, 2, 5]))) * 3
        s = np.abs(rng.randn(len(a)))
        g = guarded(lambda: tc.compute_sigma(a, s), 'compute_sigma', a=a, s=s)
        v = max(np.mean(a ** 2 + s ** 2) - a.mean() ** 2, 0)
        check(np.ndim(g) == 0 and g >= 0 and abs(g * g - v) <= 1e-9 * (1 + v), 'compute_sigma', got=g, expected=np.sqrt(v), a=a, s=s)
    return 'chunked' if q > 100 else 'single'
