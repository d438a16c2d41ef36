from ocommon import *
from oref import *
from bayeso import covariance as cov
from bayeso.gp import gp, gp_kernel

TP = False


def data(rng, i, tp=False):
    st = i % 5 == 4
    name = ('set_' if st else '') + BASE[rng.randint(4)]
    d = int(rng.choice([1, 2, 3]))
    n = size(rng, [1, 2, 3, 5, 8], 10 if st else 200)
    l = size(rng, [1, 1, 2, 4, 7], 8 if st else 300)
    X = inputs(rng, name, n, d)
    h = hyps(rng, d, tp=tp, signed=True)
    Y = rng.randn(n, 1) * float(rng.choice([0.1, 1.0, 10.0])) + float(rng.choice([0.0, 5.0]))
    T = sets_like(rng, X, l)
    Y, T = lay(rng, Y), lay(rng, T)
    return name, d, n, l, X, Y, T, h, prior(rng)


def std(S):
    return np.sqrt(np.maximum(np.diag(S), 0.0))[:, None]


def cmp_std(got, S, tol, **inp):
    ref = std(S)
    if np.shape(got) != ref.shape:
        raise Fail('deviation shape %s' % (np.shape(got),), expected=ref, **inp)
    v = np.maximum(np.diag(S), 0.0)[:, None]
    if not np.all(got >= 0) or not np.all(np.abs(got ** 2 - v) <= 4 * tol):
        raise Fail('deviation is not the square root of the variance', got=got, expected=ref, **inp)


def trial(rng, i):
    name, d, n, l, X, Y, T, h, mu = data(rng, i)
    inp = dict(kernel=name, X=X, Y=Y, T=T, hyps=h, prior=mu is not None)
    fz = Frozen(X=X, Y=Y, T=T, h=h)
    mode = (i // 5) % 4
    kw = dict(str_cov=name, prior_mu=mu)
    if mode < 2:
        K = ktrain(name, X, h)
        inv = np.linalg.inv(K)
        if mode == 1:
            # any matrix handed in as inverse must be the one used
            A = rng.randn(n, n)
            inv = inv + 0.1 * (A + A.T)
        f2 = Frozen(K=K, inv=inv)
        r = guarded(lambda: gp.predict_with_cov(X, Y, T, K, inv, h, **kw), 'predict_with_cov', inv=inv, **inp)
        f2.check('predict_with_cov')
    elif mode == 2:
        inv = np.linalg.inv(ktrain(name, X, h))
        r = guarded(lambda: gp.predict_with_hyps(X, Y, T, h, **kw), 'predict_with_hyps', **inp)
    else:
        if rng.rand() < 0.5:
            n = min(n, 4)
            X, Y = X[:n], Y[:n]
            fz = Frozen(X=X, Y=Y, T=T)
        om = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'][rng.randint(5)]
        fix = bool(rng.rand() < 0.7)
        log = []
        try:
            with spy(gp_kernel, 'get_optimized_kernel', log):
                r = gp.predict_with_optimized_hyps(X, Y, T, str_optimizer_method=om, fix_noise=fix, **kw)
        except np.linalg.LinAlgError:
            raise Skip()
        except Exception as e:
            if isinstance(e, ValueError) and any(w in str(e) for w in ('jitter', 'NaN', 'infs')):
                raise Skip()
            raise Fail('predict_with_optimized_hyps raised %s: %s' % (type(e).__name__, e), method=om, **inp)
        if len(log) == 1:
            a, k, o = log[0]
            h = o[2]
            check(k.get('str_optimizer_method', om) == om and k.get('fix_noise', fix) == fix, 'fit with other options', method=om, **inp)
        else:
            h = gp_kernel.get_optimized_kernel(X, Y, mu, name, str_optimizer_method=om, fix_noise=fix)[2]
        K = ktrain(name, X, h)
        if not np.all(np.isfinite(K)) or np.linalg.cond(K) > 1e9:
            raise Skip()
        inv = np.linalg.inv(K)
        inp.update(hyps=h, method=om)
    fz.check('prediction')
    check(isinstance(r, tuple) and len(r) == 3, 'three results', **inp)
    m, S = gp_post(name, X, Y, T, inv, h, mu)
    amp = np.abs(inv).max() * (h['signal'] ** 2 * n) ** 2
    ta = 1e-9 * (1 + np.abs(inv).max() * h['signal'] ** 2 * n * n * (1 + np.abs(Y - pm(mu, X)).max()) + np.abs(pm(mu, T)).max())
    ts = 1e-9 * (1 + amp + h['signal'] ** 2)
    close(r[0], m, 'predicted mean', rtol=1e-6, atol=ta, **inp)
    close(r[2], S, 'predicted covariance', rtol=1e-6, atol=ts, **inp)
    cmp_std(r[1], S, ts, **inp)
    return 'mode%d' % mode
