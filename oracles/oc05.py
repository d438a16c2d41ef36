from ocommon import *
from oref import objective, quiet
from bayeso import bo, wrappers
from bayeso.utils import utils_bo


def pts(rng, n, d):
    return np.round(rng.uniform(-2, 2, size=(n, d)), 1) if rng.rand() < 0.5 else rng.uniform(-2, 2, size=(n, d))


def run_trial_(rng, i):
    """whole runs in which the surrogate keeps proposing points of a small lattice"""
    d = int(rng.choice([1, 1, 2]))
    g = int(rng.choice([2, 3, 4]))
    b = np.array([[0.0, g - 1.0]] * d)
    it = size(rng, [2, 4, 7], 40)
    log = []
    f = objective(rng)

    def target(x):
        log.append(('eval', np.array(x, copy=True).ravel()))
        return f(x)

    def step(X_train, Y_train, *a, **k):
        n = rng.randint(1, 2 * g ** d)
        pts_ = rng.randint(0, g, size=(n, d)).astype(float)
        if rng.rand() < 0.3:
            pts_ = pts_ + rng.choice([0.0, 4e-9, 8e-9, 3e-8, 1e-4], size=(n, d))
        acq = np.round(rng.randn(n), 1)
        j = int(np.argmin(acq))
        log.append(('step', np.array(X_train, copy=True), pts_.copy(), acq.copy(), j))
        return pts_[j], {'next_points': pts_, 'acquisitions': acq, 'time_surrogate': 0.1, 'time_acq': 0.1}
    kind = ['gp', 'rf', 'function'][rng.randint(3)]
    if kind == 'function':
        m = bo.BOwGP(b)
        m.optimize = step
        run = lambda X, Y: wrappers.run_single_round_with_all_initial_information(m, target, X, Y, it)
    else:
        m = wrappers.BayesianOptimization(b, target, it, str_surrogate=kind, **({} if kind == 'gp' else {'str_optimizer_method_bo': 'random_search'}))
        m.model_bo.optimize = step
        run = m.optimize_with_all_initial_information
    for r in range(int(rng.choice([1, 2, 3]))):
        X0 = rng.randint(0, g, size=(int(rng.choice([1, 2, 5])), d)).astype(float)
        Y0 = rng.randn(len(X0), 1)
        del log[:]
        with quiet():
            guarded(lambda: run(X0, Y0), 'run %d' % (r + 1), kind=kind, X0=X0)
        steps = [e for e in log if e[0] == 'step']
        evals = [e[1] for e in log if e[0] == 'eval']
        check(len(steps) == len(evals) == it, 'one evaluation per step', kind=kind, got=(len(steps), len(evals)))
        E = X0
        for s, x in zip(steps, evals):
            _, Xt, P, acq, j = s
            inp = dict(kind=kind, run=r + 1, evaluated=E, candidates=P, scores=acq, acquired=P[j], got=x)
            D = np.sqrt(((P[:, None] - E[None]) ** 2).sum(-1))
            if np.any(np.abs(D - 1e-8) < 1e-10):
                raise Skip()
            ok = D.min(1) >= 1e-8
            if ok[j]:
                check(np.array_equal(x, P[j]), 'a new point was not used unchanged', **inp)
            elif ok.any():
                q = acq[ok].min()
                check(any(ok[t] and acq[t] == q and np.array_equal(P[t], x) for t in range(len(P))), 'not the best remaining candidate', **inp)
            else:
                check(np.array_equal(x, E[-1]), 'not the last evaluated point', **inp)
            E = np.vstack([E, x])
    return 'run.' + kind


def trial(rng, i):
    if i % 5 == 4:
        return run_trial_(rng, i)
    d = size(rng, [1, 1, 2, 3, 5], 12)
    n = size(rng, [1, 2, 3, 5, 9, 24], 700)
    m = size(rng, [1, 2, 3, 6, 15], 700)
    k = i % 4
    X = pts(rng, n, d)
    acq = np.round(rng.randn(n), 1) if rng.rand() < 0.5 else rng.randn(n) * 10.0 ** rng.randint(-3, 4)
    if rng.rand() < 0.15:
        acq = np.abs(acq) + 1e3
    if k == 0:
        table = {tuple(x): float(a) for x, a in zip(X, acq)}
        calls = []

        def f(x):
            calls.append(np.array(x))
            return table[tuple(np.asarray(x).ravel())]
        fz = Frozen(X=X)
        r = guarded(lambda: utils_bo.get_best_acquisition_by_evaluation(X, f), 'get_best_acquisition_by_evaluation', X=X, scores=acq)
        fz.check('get_best_acquisition_by_evaluation')
        check(r.shape == (1, d), 'shape', X=X, got=r)
        check(tuple(r[0]) in table, 'not a candidate', X=X, got=r)
        check(table[tuple(r[0])] == min(table.values()), 'not a minimiser', X=X, scores=acq, got=r)
        return 'by_evaluation'
    if k == 1:
        Y = acq[:, None]
        fz = Frozen(X=X, Y=Y)
        r = guarded(lambda: utils_bo.get_best_acquisition_by_history(X, Y), 'get_best_acquisition_by_history', X=X, Y=Y)
        fz.check('get_best_acquisition_by_history')
        x, y = r
        check(y == Y.min(), 'not minimal', X=X, Y=Y, got=y)
        check(any(np.array_equal(x, X[j]) and Y[j, 0] == y for j in range(n)), 'not that row', X=X, Y=Y, got=x)
        return 'by_history'
    # next best
    E = pts(rng, m, d)
    mode = rng.randint(5)
    if mode == 1:
        E[rng.randint(m)] = X[rng.randint(n)]
    elif mode == 2:
        E = np.concatenate([E, X[rng.permutation(n)][:max(1, n - 1)]])
    elif mode == 3:
        E = np.concatenate([E, X[rng.permutation(n)], pts(rng, 1, d)])
    elif mode == 4:
        b = int(np.argmin(acq))
        E[rng.randint(m)] = X[b]
        j = rng.randint(len(E))
        v = np.eye(d)[0] if rng.rand() < 0.5 else rng.choice([-1.0, 1.0], size=d) / np.sqrt(d)
        E[j] = X[b] + v * rng.choice([3e-9, 5e-9, 9e-9, 1.2e-8, 2e-8, 1e-7, 1e-6, 1e-5, 1e-3])
    E = E[rng.permutation(len(E))]
    fz = Frozen(X=X, acq=acq, E=E)
    r = guarded(lambda: utils_bo.get_next_best_acquisition(X, acq, E), 'get_next_best_acquisition', X=X, acq=acq, E=E)
    fz.check('get_next_best_acquisition')
    D = np.sqrt(((X[:, None] - E[None]) ** 2).sum(-1))
    if np.any(np.abs(D - 1e-8) < 1e-10):
        raise Skip()
    ok = D.min(1) >= 1e-8
    r = np.asarray(r)
    check(r.shape == (d,), 'shape', got=r, X=X, acq=acq, E=E)
    if not ok.any():
        check(np.array_equal(r, E[-1]), 'not the last evaluated point', got=r, X=X, acq=acq, E=E)
        return 'fallback'
    best = acq[ok].min()
    check(any(ok[j] and acq[j] == best and np.array_equal(X[j], r) for j in range(n)),
          'not the best remaining candidate', got=r, X=X, acq=acq, E=E)
    return 'next%d' % mode
