from ocommon import *
from oref import *
from bayeso.tp import tp, tp_kernel
from oc11 import data, cmp_std


def trial(rng, i):
    name, d, n, l, X, Y, T, h, mu = data(rng, i, tp=True)
    inp = dict(kernel=name, X=X, Y=Y, T=T, hyps=h, prior=mu is not None)
    fz = Frozen(X=X, Y=Y, T=T, h=h)
    mode = (i // 5) % 4
    kw = dict(str_cov=name, prior_mu=mu)
    if mode < 2:
        K = ktrain(name, X, h)
        inv = np.linalg.inv(K)
        if mode == 1:
            A = rng.randn(n, n)
            inv = inv + 0.1 * (A + A.T)
        r = guarded(lambda: tp.predict_with_cov(X, Y, T, K, inv, h, **kw), 'predict_with_cov', inv=inv, **inp)
    elif mode == 2:
        inv = np.linalg.inv(ktrain(name, X, h))
        r = guarded(lambda: tp.predict_with_hyps(X, Y, T, h, **kw), 'predict_with_hyps', **inp)
    else:
        n = min(n, 4)
        X, Y = X[:n], Y[:n]
        fz = Frozen(X=X, Y=Y, T=T)
        om = ['L-BFGS-B', 'SLSQP'][rng.randint(2)]
        fix = bool(rng.rand() < 0.7)
        log = []
        try:
            with spy(tp_kernel, 'get_optimized_kernel', log):
                r = tp.predict_with_optimized_hyps(X, Y, T, str_optimizer_method=om, fix_noise=fix, **kw)
        except np.linalg.LinAlgError:
            raise Skip()
        except Exception as e:
            if isinstance(e, ValueError) and any(w in str(e) for w in ('jitter', 'NaN', 'infs')):
                raise Skip()
            raise Fail('predict_with_optimized_hyps raised %s: %s' % (type(e).__name__, e), method=om, **inp)
        if len(log) == 1:
            a, k, o = log[0]
            h = o[2]
            check(k.get('str_optimizer_method', om) == om and k.get('fix_noise', fix) == fix, 'fit with other options', method=om, **inp)
        else:
            h = tp_kernel.get_optimized_kernel(X, Y, mu, name, str_optimizer_method=om, fix_noise=fix)[2]
        K = ktrain(name, X, h)
        if not np.all(np.isfinite(K)) or np.linalg.cond(K) > 1e9:
            raise Skip()
        inv = np.linalg.inv(K)
        inp.update(hyps=h, method=om)
    fz.check('prediction')
    check(isinstance(r, tuple) and len(r) == 4, 'four results', **inp)
    m, S = gp_post(name, X, Y, T, inv, h, mu)
    e = Y - pm(mu, X)
    beta = (e.T @ inv @ e).item()
    f = (h['dof'] + beta - 2.0) / (h['dof'] + n - 2.0)
    iv = np.abs(inv).max()
    ta = 1e-9 * (1 + iv * h['signal'] ** 2 * n * n * (1 + np.abs(e).max()) + np.abs(pm(mu, T)).max())
    ts = 1e-9 * (1 + iv * (h['signal'] ** 2 * n) ** 2 + h['signal'] ** 2) * (1 + abs(f)) * (1 + 1e-2 * iv * n * n * np.abs(e).max() ** 2)
    close(r[0], h['dof'] + n, 'degrees of freedom', **inp)
    close(r[1], m, 'predicted mean', rtol=1e-6, atol=ta, **inp)
    close(r[3], f * S, 'predicted covariance', rtol=1e-6, atol=ts, **inp)
    cmp_std(r[2], f * S, ts, **inp)
    return 'mode%d' % mode
