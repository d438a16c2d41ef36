from ocommon import *
from oref import *
from bayeso import bo
from bayeso.gp import gp_kernel, gp_likelihood


def samehyp(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


def conv(a, b):
    """successive fits: previous a, new b -> distance over threshold"""
    u, v = vec(a), vec(b)
    return np.linalg.norm(v - u) - 0.05 * np.linalg.norm(u)


def ranks(name, X, Yn, f, ard):
    out = []
    for om in ('BFGS', 'Nelder-Mead'):
        C, inv, h = gp_kernel.get_optimized_kernel(X, Yn, f, name, str_optimizer_method=om, use_ard=ard)
        v = float(gp_likelihood.neg_log_ml(X, Yn, vec(h), name, pm(f, X), use_ard=ard, use_gradient=False))
        out.append((v, h))
    return out


def machine_(rng, i):
    """many steps under chosen answers of the hyperparameter fit"""
    from bayeso import covariance
    from bayeso.tp import tp_kernel
    tp = rng.rand() < 0.25
    d = int(rng.choice([1, 2]))
    b = np.array([[0.0, 1.0]] * d)
    name = BASE[rng.randint(4)]
    ard = bool(rng.randint(2))
    mode = 'regular' if tp else ['converged', 'converged', 'regular', 'combined'][rng.randint(4)]
    steps = size(rng, [5, 12, 30], 150)
    m = (bo.BOwTP if tp else bo.BOwGP)(b, str_cov=name, use_ard=ard, str_acq='pure_exploit')
    fits = []

    def fake(X_train, Y_train, prior_mu, str_cov, *a, **k):
        w = rng.rand()
        if fits and w < 0.7:
            t = 1.0 + float(rng.choice([0.0, 0.02, 0.048, 0.052, 0.3, -0.04, -0.06])) * (1.0 if w < 0.5 else float(rng.rand()))
            h = {q: v * t for q, v in fits[-1][0].items()}
        else:
            h = {'signal': float(rng.uniform(0.2, 3)), 'lengthscales': rng.uniform(0.3, 3, size=d) if ard else float(rng.uniform(0.3, 3)), 'noise': 0.01}
            if tp:
                h['dof'] = float(rng.uniform(3, 20))
        h['noise'] = 0.01
        C, inv, _ = covariance.get_kernel_inverse(X_train, h, str_cov, fix_noise=True)
        fits.append(({q: np.copy(v) if isinstance(v, np.ndarray) else v for q, v in h.items()}, X_train.copy(), Y_train.copy()))
        return C, inv, h
    mod = tp_kernel if tp else gp_kernel
    keep = mod.get_optimized_kernel
    hist, last, prev, done = [], None, None, False
    try:
        mod.get_optimized_kernel = fake
        for s in range(steps):
            n = int(rng.choice([1, 2, 4]))
            X, Y = rng.rand(n, d), rng.randn(n, 1) * 3
            k = len(fits)
            inp = dict(step=s, mode=mode, tp=tp, kernel=name, use_ard=ard, fits=[f[0] for f in fits[-3:]])
            kw = {} if tp else {'str_mlm_method': mode}
            with quiet():
                _, info = guarded(lambda: m.optimize(X, Y, str_sampling_method='uniform', num_samples=1, **kw), 'optimize', **inp)
            new = fits[k:]
            h = info['hyps']
            if mode == 'converged':
                if not fits:
                    return 'machine.unseen'
                check(len(new) == (0 if done else 1), 'refits exactly until convergence', got=len(new), **inp)
                if new:
                    check(np.array_equal(new[0][1], X) and np.array_equal(new[0][2], Y), 'fitted to the raw data', **inp)
                    if hist:
                        c = conv(hist[-1], new[0][0])
                        if abs(c) < 1e-6:
                            raise Skip()
                        done = c < 0
                    last = new[0][0]
                check(samehyp(h, last), 'the last fit is used', got=h, expected=last, **inp)
            else:
                if not new:
                    return 'machine.unseen'
                check(any(samehyp(h, f[0]) for f in new), 'one of the fits of this step is used', got=h, **inp)
            K = ktrain(name, X, h)
            close(info['cov_X_X'], K, 'covariance at the used hyperparameters on the current data', atol=1e-9 * np.abs(K).max(), **inp)
            H = m.historical_hyps
            check(len(H) == s + 1, 'one history entry per step', got=len(H), **inp)
            hist.append({q: np.copy(v) for q, v in h.items()})
            for a, c in zip(H, hist):
                check(samehyp(a, c), 'history entry is not what its step used', **inp)
    finally:
        mod.get_optimized_kernel = keep
    return 'machine.' + mode


def trial(rng, i):
    if i % 3 == 1:
        return machine_(rng, i // 3)
    d = int(rng.choice([1, 2]))
    b = nice_box(rng, d)
    n = int(rng.choice([2, 3, 5, 8]))
    name = BASE[rng.randint(4)]
    ard = bool(rng.randint(2))
    norm = bool(rng.randint(2))
    f = prior(rng) if rng.rand() < 0.3 else None
    om = ['BFGS', 'L-BFGS-B', 'SLSQP'][rng.randint(3)]
    ms = 'loocv' if rng.rand() < 0.15 else 'ml'
    m = bo.BOwGP(b, str_cov=name, normalize_Y=norm, use_ard=ard, prior_mu=f, str_optimizer_method_gp=om, str_modelselection_method=ms)
    X = b[:, 0] + rng.rand(n, d) * (b[:, 1] - b[:, 0])
    tgt = objective(rng)
    Y = np.array([[tgt(x)] for x in X])
    mode = ['converged', 'converged', 'combined', 'regular'][i % 4]
    steps = int(rng.choice([3, 4, 6])) if mode == 'converged' else 2
    fixed = rng.rand() < 0.5           # same data every step: converges at the second one
    hist, conv_seen = [], False
    if mode == 'converged':
        m.str_acq = 'pure_exploit'
    for s in range(steps):
        inp = dict(kernel=name, X=X, Y=Y, use_ard=ard, normalize=norm, step=s, mode=mode, history=hist, box=b, selection=ms, optimizer=om)
        fz = Frozen(X=X, Y=Y)
        log = []
        try:
            with quiet(), spy(gp_kernel, 'get_optimized_kernel', log):
                p, info = m.optimize(X, Y, str_sampling_method='uniform', num_samples=1, str_mlm_method=mode)
        except np.linalg.LinAlgError:
            raise Skip()
        except ValueError as e:
            if 'jitter' in str(e) or 'NaN' in str(e) or 'infs' in str(e):
                raise Skip()
            raise Fail('optimize raised %s' % e, **inp)
        except Exception as e:
            if 'NoneType' in str(e):
                raise Skip()
            raise Fail('optimize raised %s: %s' % (type(e).__name__, e), **inp)
        fz.check('optimize')
        h = info['hyps']
        H = m.historical_hyps
        check(len(H) == s + 1, 'one history entry per step', got=len(H), **inp)
        check(samehyp(H[-1], h), 'history entry is not what the step used', got=H[-1], used=h, **inp)
        for a, c in zip(H, hist):
            check(samehyp(a, c), 'earlier history entry changed', got=H, **inp)
        K = ktrain(name, X, h)
        close(info['cov_X_X'], K, 'covariance at the used hyperparameters on the current data', atol=1e-9 * np.abs(K).max(), **inp)
        cd = np.linalg.cond(K)
        if cd < 1e9:
            close(info['inv_cov_X_X'] @ K, np.eye(len(X)), 'inverse', rtol=0, atol=max(1e-8, 1e-13 * cd), **inp)
        Yn = Y if mode == 'converged' or not norm else normalise(Y)
        close(info['Y_normalized'], Yn, 'responses used', rtol=1e-9, atol=1e-9, **inp)
        Yn = np.array(info['Y_normalized'])
        if mode == 'converged':
            if conv_seen:
                check(samehyp(h, hist[-1]), 'hyperparameters drift after convergence', got=h, **inp)
                check(not log, 'refitted after convergence', **inp)
            else:
                ref = gp_kernel.get_optimized_kernel(X, Y, f, name, str_optimizer_method=om, str_modelselection_method=ms, use_ard=ard)[2]
                close(vec(h), vec(ref), 'not the fit on the raw responses', rtol=1e-5, atol=1e-7, **inp)
                if hist:
                    c = conv(hist[-1], h)
                    if abs(c) < 1e-6:
                        raise Skip()
                    conv_seen = c < 0
        elif mode == 'combined':
            try:
                R = ranks(name, X, Yn, f, ard)
            except (np.linalg.LinAlgError, ValueError):
                raise Skip()
            best = min(R, key=lambda t: t[0])
            v = float(gp_likelihood.neg_log_ml(X, Yn, vec(h), name, pm(f, X), use_ard=ard, use_gradient=False))
            # model selection by loocv fits differently: only the ml fits are compared
            if ms == 'ml' and np.isfinite(best[0]):
                check(v <= best[0] + 1e-6 * (1 + abs(best[0])), 'combined mode kept the worse fit', got=v, fits=[t[0] for t in R], **inp)
        else:
            ref = gp_kernel.get_optimized_kernel(X, Yn, f, name, str_optimizer_method=om, str_modelselection_method=ms, use_ard=ard)[2]
            close(vec(h), vec(ref), 'not the fit', rtol=1e-5, atol=1e-7, **inp)
        hist.append({k: np.copy(v) for k, v in h.items()})
        if not (fixed and s < 2):
            x = b[:, 0] + rng.rand(d) * (b[:, 1] - b[:, 0])
            X = np.vstack((X, x))
            Y = np.vstack((Y, [[tgt(x)]]))
    return mode + ('.reused' if conv_seen else '')
