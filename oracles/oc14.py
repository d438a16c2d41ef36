from ocommon import *
from oref import *
from bayeso.tp import tp_likelihood as lk
from oc13 import data
from scipy.special import gammaln, digamma


def tnll(K, e, nu):
    n = len(e)
    s, ld = np.linalg.slogdet(K)
    b = float((e.T @ np.linalg.solve(K, e)).item())
    return -(gammaln((nu + n) / 2) - gammaln(nu / 2) - 0.5 * n * np.log((nu - 2) * np.pi) - 0.5 * ld
             - 0.5 * (nu + n) * np.log1p(b / (nu - 2))) / n


def known(f):
    return 'tp-dof-digamma' if f.inputs.get('recorded') else None


def trial(rng, i):
    mode = i % 3
    big = mode == 0 and i % 60 == 0
    name, d, n, X, Y, h, fix, m = data(rng, tp=True, st=False if mode else None)
    if big:
        name = BASE[rng.randint(4)]
        n = int(rng.choice([300, 345, 400, 520]))
        d = X.shape[-1]
        X = rng.uniform(-3, 3, size=(n, d))
        Y = rng.randn(n, 1)
        m = np.zeros((n, 1))
        h['noise'] = 0.01 if fix else 0.3
    ard = isinstance(h['lengthscales'], np.ndarray)
    v = vec(h, tp=True, fix=fix)
    inp = dict(kernel=name, X=X, Y=Y, hyps=h, fix_noise=fix, prior_train=m, use_ard=ard)
    fz = Frozen(X=X, Y=Y, v=v, m=m)
    K = ktrain(name, X, h)
    e = Y - m
    c = np.linalg.cond(K)
    if c > (1e9 if not big else 1e12):
        raise Skip()
    nu = h['dof']
    val = tnll(K, e, nu)
    tol = 1e-8 + 1e-14 * c * 100
    kw = dict(use_ard=ard, fix_noise=fix)
    if mode < 2:
        r = guarded(lambda: lk.neg_log_ml(X, Y, v, name, m, use_gradient=False, **kw), 'neg_log_ml', **inp)
    else:
        r, g = guarded(lambda: lk.neg_log_ml(X, Y, v, name, m, use_gradient=True, **kw), 'neg_log_ml', **inp)
    fz.check('neg_log_ml')
    check(np.all(np.isfinite(r)), 'not finite', got=r, n=n, **inp)
    close(r, val, 'negative log density', rtol=1e-6, atol=tol, **inp)
    if mode < 2:
        return 'big' if big else 'value'
    g = np.asarray(g)
    check(g.shape == v.shape, 'gradient layout', got=g.shape, **inp)
    sig0 = h['signal']

    def obj(u):
        w = unvec(u, tp=True, fix=fix, ard=ard, noise=h['noise'])
        Q = kbase(name, X, X, w['lengthscales'], w['signal'])
        Q = Q + (JIT * w['signal'] ** 2 / sig0 ** 2 + w['noise'] ** 2) * np.eye(n)
        return tnll(Q, e, w['dof'])
    slot = 0 if fix else 1
    ref = np.zeros(len(v))
    for k in range(len(v)):
        s = 1e-3 * (abs(v[k]) if k != slot else min(abs(v[k]), nu - 2.0))
        for cf, st in ((8, 1), (-8, -1), (-1, 2), (1, -2)):
            u = v.copy()
            u[k] += st * s
            ref[k] += cf * obj(u) / (12 * s)
    inv = np.linalg.inv(K)
    a = inv @ e
    b = float((e.T @ a).item())
    W = (nu + n) / (nu + b - 2) * np.abs(a @ a.T) + np.abs(inv)
    t = (2e-5 + 1e-13 * c) * (1 + np.abs(ref)) + 1e-9 * np.sum(W) * (sig0 ** 2 + 1) / n
    for k in range(len(v)):
        if k == slot:
            continue
        check(abs(g[k] - ref[k]) <= t[k], 'gradient entry %d' % k, got=g, expected=ref, **inp)
    if abs(g[slot] - ref[slot]) > 1e-5 * (1 + abs(ref[slot])):
        lb = np.log1p(b / (nu - 2))
        wrong = -(-n / (2 * (nu - 2)) + digamma((nu + n) / 2) - digamma(nu / 2) - 0.5 * lb
                  + (nu + n) * b / (2 * (nu - 2) ** 2 + 2 * b * (nu - 2))) / n
        rec = abs(g[slot] - wrong) <= 1e-6 * (1 + abs(wrong))
        raise Fail('gradient entry of the degrees of freedom', recorded=rec, got=g, expected=ref, **inp)
    return 'gradient'
