from ocommon import *
from oref import *
from bayeso import covariance as cov
from bayeso.gp import gp_likelihood as lk
from oc09 import numgrad


def data(rng, tp=False, st=None, nmax=9):
    name = BASE[rng.randint(4)]
    if st if st is not None else rng.rand() < 0.2:
        name = 'set_' + name
    d = int(rng.choice([1, 2, 3]))
    n = size(rng, [x for x in (1, 2, 3, 5, 9, 20) if x <= nmax], 150 if nmax >= 20 else nmax)
    X = inputs(rng, name, n, d)
    h = hyps(rng, d, tp=tp, signed=True)
    fix = bool(rng.randint(2))
    if fix:
        h['noise'] = 0.01
    Y = rng.randn(n, 1) * float(rng.choice([0.1, 1.0, 10.0])) + float(rng.choice([0.0, 5.0]))
    f = prior(rng)
    m = pm(f, X)
    return name, d, n, X, Y, h, fix, m


def nlml(K, e):
    n = len(e)
    L = np.linalg.cholesky(K)
    return float((0.5 * e.T @ np.linalg.solve(K, e)).item() + np.log(np.diag(L)).sum() + 0.5 * n * np.log(2 * np.pi)) / n, np.diag(L)


def loo(K, e):
    n = len(e)
    out = []
    for k in range(n):
        r = [j for j in range(n) if j != k]
        if r:
            w = np.linalg.solve(K[np.ix_(r, r)], K[r, k])
            mu = float(w @ e[r, 0])
            v = float(K[k, k] - w @ K[r, k])
        else:
            mu, v = 0.0, float(K[k, k])
        out.append((mu, v))
    return np.array(out)


def trial(rng, i):
    mode = i % 4
    name, d, n, X, Y, h, fix, m = data(rng, st=False if mode == 2 else None)
    ard = isinstance(h['lengthscales'], np.ndarray)
    v = vec(h, fix=fix)
    inp = dict(kernel=name, X=X, Y=Y, hyps=h, fix_noise=fix, prior_train=m, use_ard=ard)
    fz = Frozen(X=X, Y=Y, v=v, m=m)
    K = ktrain(name, X, h)
    e = Y - m
    c = np.linalg.cond(K)
    if c > 1e9:
        raise Skip()
    q = float((e.T @ np.linalg.solve(K, e)).item()) / n
    tol = 1e-8 + 1e-14 * c * (1 + abs(q))
    kw = dict(use_ard=ard, fix_noise=fix)
    if mode < 2:
        val, Ld = nlml(K, e)
        r = guarded(lambda: lk.neg_log_ml(X, Y, v, name, m, use_cholesky=mode == 0, use_gradient=False, **kw), 'neg_log_ml', **inp)
        fz.check('neg_log_ml')
        t = tol + (1.5 * np.mean(1e-7 / Ld) if mode == 0 else 0.0)
        close(r, val, 'negative log marginal likelihood', rtol=1e-7, atol=t, cholesky=mode == 0, **inp)
        return 'value'
    if mode == 2:
        val, Ld = nlml(K, e)
        r = guarded(lambda: lk.neg_log_ml(X, Y, v, name, m, use_gradient=True, **kw), 'neg_log_ml', **inp)
        fz.check('neg_log_ml')
        check(isinstance(r, tuple) and len(r) == 2, 'value and gradient', **inp)
        close(r[0], val, 'negative log marginal likelihood', rtol=1e-7, atol=tol + 1.5 * np.mean(1e-7 / Ld), **inp)
        G = numgrad(name, X, h, fix)
        inv = np.linalg.inv(K)
        a = inv @ e
        A = a @ a.T - inv
        ref = np.array([-0.5 / n * np.sum(A * G[:, :, k]) for k in range(G.shape[2])])
        t = 1e-6 * np.array([1 + 0.5 / n * np.sum(np.abs(A) * np.abs(G[:, :, k])) for k in range(G.shape[2])])
        g = np.asarray(r[1])
        check(g.shape == ref.shape, 'gradient shape', got=g, expected=ref, **inp)
        check(np.all(np.abs(g - ref) <= t + 1e-14 * c * np.abs(ref)), 'gradient', got=g, expected=ref, **inp)
        return 'gradient'
    r = guarded(lambda: lk.neg_log_pseudo_l_loocv(X, Y, v, name, m, **kw), 'neg_log_pseudo_l_loocv', **inp)
    fz.check('neg_log_pseudo_l_loocv')
    mv = loo(K, e)

    def nl(var):
        return float(np.mean(0.5 * np.log(2 * np.pi * var) + 0.5 * (e[:, 0] - mv[:, 0]) ** 2 / var))
    plain, jit = nl(mv[:, 1]), nl(1.0 / (1.0 / mv[:, 1] + JIT))
    r = float(np.squeeze(r))
    t = tol * 10 + 1e-7 * abs(plain) + 1.5 * abs(plain - jit)
    check(np.size(r) == 1 and abs(r - plain) <= t, 'leave-one-out objective', got=r, expected=plain, **inp)
    return 'loo'
