from ocommon import *
from oref import *
from bayeso import bo, wrappers, constants
from bayeso.utils import utils_bo
from bayeso.gp import gp_kernel
from bayeso.tp import tp_kernel
from oc07 import ref as acqref

ACQ = ['ei', 'pi', 'ucb', 'aei', 'pure_exploit', 'pure_explore']
CLS = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}


def have(m):
    try:
        __import__(m)
        return True
    except Exception:
        return False


CMA, DIRECT = have('cma'), have('scipydirect')


def expected_opt(o, d):
    if o == 'DIRECT' and not DIRECT:
        return 'L-BFGS-B'
    if o == 'CMA-ES' and (not CMA or d == 1):
        return 'L-BFGS-B'
    return o


def argof(call, names, skip=1):
    a, k, r = call
    out = dict(zip(names, a[skip:]))
    out.update(k)
    return out


def long_(rng, i):
    """longer runs with the model's own step replaced: every step gets the configured options"""
    import inspect
    d = int(rng.choice([1, 2]))
    b = nice_box(rng, d)
    sur = ['gp', 'tp', 'rf'][rng.randint(3)]
    meth = ['uniform', 'sobol', 'halton', 'gaussian', 'grid'][rng.randint(5)]
    init = ['uniform', 'sobol', 'halton', 'gaussian'][rng.randint(4)]
    ns = int(rng.choice([1, 2, 7, 64, 100, 1000, 10000]))
    mlm = ['regular', 'combined', 'converged'][rng.randint(3)]
    it = size(rng, [1, 3, 12, 30], 300)
    n0 = int(rng.choice([1, 2, 5, 40]))
    seed = [None, 0, 3, 65535, 65536, 2 ** 20 + 1, 2 ** 32 - 1][rng.randint(7)]
    tgt = objective(rng)
    func = sur == 'gp' and rng.rand() < 0.4
    inp = dict(surrogate=sur, init=init, method=meth, num=ns, mlm=mlm, seed=seed, n0=n0, iterations=it, box=b, interface='function' if func else 'class')
    opts = dict(str_initial_method_bo=init, str_sampling_method_ao=meth, num_samples_ao=ns, str_mlm_method=mlm)
    if func:
        m = bo.BOwGP(b)
        run = lambda: wrappers.run_single_round(m, tgt, n0, it, seed=seed, **opts)
    else:
        kw = {'str_optimizer_method_bo': 'random_search'} if sur == 'rf' else {}
        w = guarded(lambda: wrappers.BayesianOptimization(b, tgt, it, str_surrogate=sur, **opts, **kw), 'BayesianOptimization', **inp)
        m = w.model_bo
        run = lambda: w.optimize(n0, seed=seed)
    sig = inspect.signature(type(m).optimize)
    steps = []

    def step(*a, **k):
        ba = sig.bind(m, *a, **k)
        ba.apply_defaults()
        steps.append(dict(ba.arguments))
        x = b[:, 0] + rng.rand(d) * (b[:, 1] - b[:, 0])
        return x, {'next_points': x[None], 'acquisitions': np.zeros(1), 'time_surrogate': 0.1, 'time_acq': 0.1}
    m.optimize = step
    for r in range(int(rng.choice([1, 1, 2]))):
        del steps[:]
        with quiet():
            out = guarded(run, 'run %d' % (r + 1), **inp)
        check(len(steps) == it, 'number of steps', got=len(steps), **inp)
        if seed is not None:
            D = CLS[sur](b).get_initials(init, n0, seed=seed)
            check(np.array_equal(out[0][:n0], D), 'initial design is not the configured one', got=out[0][:n0], expected=D, **inp)
        for j, a in enumerate(steps):
            check(a['str_sampling_method'] == meth, 'candidate sampling method', step=j, got=a['str_sampling_method'], **inp)
            check(a['num_samples'] == ns, 'candidate count', step=j, got=a['num_samples'], **inp)
            if sur == 'gp':
                check(a['str_mlm_method'] == mlm, 'hyperparameter mode', step=j, got=a['str_mlm_method'], **inp)
    return 'long.' + sur


def trial(rng, i):
    if i % 5 == 3:
        return long_(rng, i)
    d = int(rng.choice([1, 2, 3]))
    b = nice_box(rng, d)
    if i % 7 == 6:
        o = ['L-BFGS-B', 'DIRECT', 'CMA-ES'][rng.randint(3)]
        r = guarded(lambda: utils_bo.check_optimizer_method_bo(o, d, False), 'check_optimizer_method_bo', name=o, dim=d)
        check(r == expected_opt(o, d), 'acquisition optimiser used', got=r, name=o, dim=d)
        return 'optimiser'
    sur = ['gp', 'tp', 'rf'][i % 3]
    name = BASE[rng.randint(4)]
    acq = ACQ[rng.randint(6)]
    norm, ard = bool(rng.randint(2)), bool(rng.randint(2))
    f = prior(rng)
    init = ['uniform', 'sobol', 'halton', 'gaussian'][rng.randint(4)]
    meth = ['uniform', 'sobol', 'halton', 'gaussian', 'grid'][rng.randint(5)]
    ns = int(rng.choice([1, 2, 3]))
    if sur == 'rf':
        ns = int(rng.choice([1, 3, 9])) if meth == 'grid' else int(rng.choice([1, 5, 30]))
    gopt = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'][rng.randint(5)]
    topt = ['L-BFGS-B', 'SLSQP'][rng.randint(2)]
    bopt = 'random_search' if sur == 'rf' else ['L-BFGS-B', 'L-BFGS-B', 'DIRECT', 'CMA-ES'][rng.randint(4)]
    mlm = ['regular', 'combined', 'converged'][rng.randint(3)]
    ms = ['ml', 'loocv'][int(rng.rand() < 0.3)]
    seed = int(rng.choice([0, 1, 3, 77]))
    n0 = int(rng.choice([2, 3, 4]))
    it = int(rng.choice([1, 1, 2]))
    tgt = objective(rng)
    inp = dict(surrogate=sur, kernel=name, acq=acq, normalize=norm, use_ard=ard, prior=f is not None, init=init, method=meth, num=ns,
               gp_opt=gopt, tp_opt=topt, bo_opt=bopt, mlm=mlm, selection=ms, seed=seed, n0=n0, iterations=it, box=b)
    func = sur == 'gp' and rng.rand() < 0.4
    inp['interface'] = 'function' if func else 'class'
    kw = dict(str_cov=name, str_acq=acq, normalize_Y=norm, use_ard=ard, prior_mu=f, str_optimizer_method_gp=gopt,
              str_optimizer_method_bo=bopt, str_modelselection_method=ms)
    if func:
        m = guarded(lambda: bo.BOwGP(b, **kw), 'BOwGP', **inp)
        run = lambda: wrappers.run_single_round(m, tgt, n0, it, str_initial_method_bo=init, str_sampling_method_ao=meth, num_samples_ao=ns,
                                                str_mlm_method=mlm, seed=seed)
    else:
        w = guarded(lambda: wrappers.BayesianOptimization(b, tgt, it, str_surrogate=sur, str_initial_method_bo=init, str_sampling_method_ao=meth,
                                                          str_optimizer_method_tp=topt, str_mlm_method=mlm, num_samples_ao=ns, **kw),
                    'BayesianOptimization', **inp)
        m = w.model_bo
        run = lambda: w.optimize(n0, seed=seed)
    check(type(m) is CLS[sur], 'surrogate class', got=type(m).__name__, **inp)
    check(np.array_equal(m.range_X, b), 'box of the model', got=m.range_X, **inp)
    des, steps, fits = [], [], []
    ker = gp_kernel if sur == 'gp' else tp_kernel
    import scipy.optimize
    try:
        with quiet(), spy(type(m), 'get_samples', des), spy(type(m), 'optimize', steps), spy(ker, 'get_optimized_kernel', fits):
            r = run()
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as e:
        if 'jitter' in str(e) or 'NaN' in str(e) or 'infs' in str(e):
            raise Skip()
        raise Fail('run raised %s' % e, **inp)
    except Exception as e:
        if 'NoneType' in str(e):
            raise Skip()
        raise Fail('run raised %s: %s' % (type(e).__name__, e), **inp)
    X, Y = r[0], r[1]
    D = CLS[sur](b).get_initials(init, n0, seed=seed)
    check(np.array_equal(X[:n0], D), 'initial design is not the configured one', got=X[:n0], expected=D, **inp)
    if len(steps) != it or len(des) < 1 + it:
        return 'unspied'
    eo = expected_opt(bopt, d)
    a = argof(des[0], ['str_sampling_method', 'num_samples'])
    for s in range(it):
        p, info = steps[s][2]
        P, Yn = info['next_points'], info['Y_normalized']
        raw = sur == 'gp' and mlm == 'converged'
        close(Yn, Y[:n0 + s] if raw or not norm else normalise(Y[:n0 + s]), 'normalisation option', rtol=1e-8, atol=1e-8, **inp)
        a = argof(des[1 + s], ['str_sampling_method', 'num_samples'])
        check(a.get('str_sampling_method') == meth, 'candidate sampling method', got=a, **inp)
        if sur == 'rf' or eo == 'L-BFGS-B':
            check(a.get('num_samples') == ns, 'candidate count', got=a, **inp)
            check(len(P) == (ns ** d if meth == 'grid' else ns), 'number of candidates', got=len(P), **inp)
        else:
            check(len(P) == 1, 'acquisition optimiser used', got=len(P), **inp)
        if sur == 'rf':
            continue
        h = info['hyps']
        Xs = X[:n0 + s]
        check(isinstance(h['lengthscales'], np.ndarray) == ard, 'lengthscale option', got=h, **inp)
        K = ktrain(name, Xs, h)
        close(info['cov_X_X'], K, 'kernel option', rtol=1e-6, atol=1e-8 * np.abs(K).max(), hyps=h, **inp)
        cd = np.linalg.cond(K)
        if cd < 1e7:
            mm, S = gp_post(name, Xs, Yn, P, info['inv_cov_X_X'], h, f)
            v = np.diag(S)
            if sur == 'tp':
                e = Yn - pm(f, Xs)
                v = v * (h['dof'] + (e.T @ info['inv_cov_X_X'] @ e).item() - 2) / (h['dof'] + len(Xs) - 2)
            if np.all(v > 1e-6 * h['signal'] ** 2):
                R = -10.0 * acqref(acq, mm[:, 0], np.sqrt(v), Yn, h['noise'])
                close(info['acquisitions'], R, 'acquisition, kernel or prior mean option', rtol=1e-4, atol=1e-4 * (1 + np.abs(R).max()), **inp)
    if sur == 'gp' and fits:
        for c in fits:
            a = argof(c, ['X_train', 'Y_train', 'prior_mu', 'str_cov'], 0)
            check(a.get('str_modelselection_method', 'ml') == ms, 'model selection option', got=a.get('str_modelselection_method'), **inp)
            if mlm != 'combined':
                check(a.get('str_optimizer_method', 'BFGS') == gopt, 'surrogate optimiser option', got=a.get('str_optimizer_method'), **inp)
            check(a['str_cov'] == name and a['prior_mu'] is f and a.get('use_ard', True) == ard, 'fit options', **inp)
        if mlm == 'combined' and it:
            check(len(fits) == 2 * it, 'combined mode', got=len(fits), **inp)
    if sur == 'tp' and fits:
        for c in fits:
            a = argof(c, ['X_train', 'Y_train', 'prior_mu', 'str_cov'], 0)
            check(a.get('str_optimizer_method', 'SLSQP') == topt, 'surrogate optimiser option', got=a.get('str_optimizer_method'), **inp)
            check(a['str_cov'] == name and a['prior_mu'] is f and a.get('use_ard', True) == ard, 'fit options', **inp)
    return sur + '.' + inp['interface']
