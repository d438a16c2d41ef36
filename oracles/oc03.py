from ocommon import *
from oref import *
from bayeso import bo
from bayeso.trees import trees_common
from oc07 import ref as acqref

ACQ = ['ei', 'pi', 'ucb', 'aei', 'pure_exploit', 'pure_explore']


def trial(rng, i):
    sur = ['gp', 'tp', 'rf', 'gp'][i % 4]
    d = int(rng.choice([1, 1, 2, 2, 3, 4]))
    b = nice_box(rng, d)
    if rng.rand() < 0.2:
        b = b * 100.0
    n = size(rng, [1, 2, 3, 5, 8], 30)
    if n == 1 and sur != 'rf':
        n = 2
    X = b[:, 0] + rng.rand(n, d) * (b[:, 1] - b[:, 0])
    Y = np.array([[objective(np.random.RandomState(i))(x)] for x in X]) + 1e-3 * rng.randn(n, 1)
    if rng.rand() < 0.15:
        Y = Y * 0 + 1.25
    acq = ACQ[rng.randint(6)]
    norm = bool(rng.rand() < 0.6)
    seed = None if rng.rand() < 0.4 else int(rng.randint(100))
    meth = ['uniform', 'gaussian', 'sobol', 'halton', 'grid'][rng.randint(5)]
    ns = int(rng.choice([1, 2, 3, 5]))
    f = prior(rng) if rng.rand() < 0.4 else None
    name = BASE[rng.randint(4)]
    mlm = 'regular'
    opt = 'L-BFGS-B'
    if sur == 'rf':
        ns = size(rng, [1, 2, 7, 40, 100, 101, 250], 1200)
        if meth == 'grid':
            ns = {1: ns, 2: min(ns, 9), 3: 4, 4: 3}[d]
        m = bo.BOwTrees(b, str_acq=acq, normalize_Y=norm)
        f = None
    else:
        if meth == 'grid':
            ns = 2 if d <= 2 else 1
        r = rng.rand()
        opt = 'CMA-ES' if r < 0.1 else 'DIRECT' if r < 0.2 else 'L-BFGS-B'
        if sur == 'gp':
            om = ['BFGS', 'L-BFGS-B', 'SLSQP', 'Nelder-Mead'][rng.randint(4)]
            mlm = ['regular', 'combined', 'converged'][rng.randint(3)]
            m = bo.BOwGP(b, str_cov=name, str_acq=acq, normalize_Y=norm, use_ard=bool(rng.randint(2)), prior_mu=f,
                         str_optimizer_method_gp=om, str_optimizer_method_bo=opt)
        else:
            m = bo.BOwTP(b, str_cov=name, str_acq=acq, normalize_Y=norm, use_ard=bool(rng.randint(2)), prior_mu=f,
                         str_optimizer_method_bo=opt)
    inp = dict(surrogate=sur, box=b, X=X, Y=Y, acq=acq, normalize=norm, kernel=name, method=meth, num=ns, seed=seed, mlm=mlm, optimizer=opt)
    kw = {'str_mlm_method': mlm} if sur == 'gp' else {}
    fz = Frozen(X=X, Y=Y, b=b)
    try:
        with quiet():
            r = m.optimize(X, Y, str_sampling_method=meth, num_samples=ns, seed=seed, **kw)
            if rng.rand() < 0.3 and sur == 'gp':
                r = m.optimize(X, Y, str_sampling_method=meth, num_samples=ns, seed=seed, **kw)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as e:
        if 'jitter' in str(e) or 'NaN' in str(e) or 'infs' in str(e):
            raise Skip()
        raise Fail('optimize raised %s' % e, **inp)
    except Exception as e:
        if 'NoneType' in str(e):      # every candidate scored nan (singular surrogate)
            raise Skip()
        raise Fail('optimize raised %s: %s' % (type(e).__name__, e), **inp)
    fz.check('optimize')
    p, info = r
    P, A = info['next_points'], info['acquisitions']
    Yn = info['Y_normalized']
    check(np.array_equal(info['Y_original'], Y), 'original responses', got=info['Y_original'], **inp)
    close(Yn, normalise(Y) if norm and mlm != 'converged' else Y, 'normalised responses', rtol=1e-9, atol=1e-9, **inp)
    check(isinstance(P, np.ndarray) and P.ndim == 2 and P.shape[1] == d, 'candidates shape', got=np.shape(P), **inp)
    check(np.shape(A) == (len(P),), 'scores not aligned', got=np.shape(A), **inp)
    if sur == 'rf' or opt == 'L-BFGS-B' or (opt == 'CMA-ES' and d == 1) or opt == 'DIRECT' and len(P) > 1:
        check(len(P) == (ns ** d if meth == 'grid' else ns), 'number of candidates', got=len(P), **inp)
    check(np.shape(p) == (d,), 'point shape', got=p, **inp)
    if not np.all(np.isfinite(A)):
        raise Skip()
    check(in_box(P, b), 'candidate outside the box', got=P, **inp)
    check(in_box(p[None], b), 'point outside the box', got=p, **inp)
    j = row_of(p, P)
    check(j is not None, 'point is not a candidate', got=p, candidates=P, **inp)
    js = [k for k in range(len(P)) if np.array_equal(P[k], p)]
    sc = 1.0 + np.abs(A).max()
    tol = 1e-6 * sc
    if sur != 'rf' and not np.linalg.cond(ktrain(name, X, info['hyps'])) < 1e7:
        # scores of a numerically singular surrogate are rounding noise
        return sur + '.singular'
    check(min(A[k] for k in js) <= A.min() + tol, 'another candidate has a better score', got=p, candidates=P, scores=A, **inp)
    # scores under the reported surrogate
    if sur == 'rf':
        R = m.compute_acquisitions(P, X, Yn, info['trees'])
        mu, s = trees_common.predict_by_trees(P, info['trees'])
        mu, s = mu[:, 0], s[:, 0]
        noise = 0.01
    else:
        R = m.compute_acquisitions(P, X, Yn, info['cov_X_X'], info['inv_cov_X_X'], info['hyps'])
        h = info['hyps']
        K = ktrain(name, X, h)
        close(info['cov_X_X'], K, 'reported covariance', atol=1e-9 * np.abs(K).max(), **inp)
        cd = np.linalg.cond(K)
        if np.isfinite(cd) and cd < 1e9:
            close(info['inv_cov_X_X'] @ K, np.eye(n), 'reported inverse', rtol=0, atol=max(1e-8, 1e-13 * cd), **inp)
        mm, S = gp_post(name, X, Yn, P, info['inv_cov_X_X'], h, f)
        mu, v = mm[:, 0], np.maximum(np.diag(S), 0)
        if sur == 'tp':
            e = Yn - pm(f, X)
            beta = (e.T @ info['inv_cov_X_X'] @ e).item()
            v = np.maximum(np.diag(S) * (h['dof'] + beta - 2) / (h['dof'] + n - 2), 0)
        s = np.sqrt(v)
        noise = h['noise']
        if not cd < 1e8:
            s = None
    close(A, -1.0 * R, 'scores are not minus the acquisition', rtol=1e-7, atol=1e-7 * sc, candidates=P, **inp)
    if s is not None and np.all(s > 1e-3 * (1 if sur == 'rf' else h['signal'])):
        close(A, -10.0 * acqref(acq, mu, s, Yn, noise), 'scores are not minus ten times the acquisition', rtol=1e-4, atol=1e-4 * sc, candidates=P, **inp)
        return sur + '.full'
    return sur
