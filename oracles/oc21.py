from ocommon import *
from oref import *
from bayeso import bo, thompson_sampling as ts
from bayeso.gp import gp
from bayeso.tp import tp


def draws(rng, i):
    n = int(rng.choice([1, 1, 2, 3]))
    N = 3000
    nu = float(rng.choice([3.0, 8.0, 40.0, np.inf]))
    A = rng.randn(n, n)
    S = A @ A.T + 0.2 * np.eye(n)
    S *= float(rng.choice([0.01, 1.0, 9.0]))
    mu = rng.randn(n) * float(rng.choice([0.0, 1.0, 5.0]))
    inp = dict(mu=mu, Sigma=S, nu=nu)
    fz = Frozen(mu=mu, S=S)
    for k in (1, int(rng.choice([2, 5]))):
        r = guarded(lambda: gp.sample_functions(mu, S, num_samples=k), 'gp.sample_functions', num=k, **inp)
        check(r.shape == (k, n), 'shape of gp samples', got=r.shape, num=k, **inp)
        r = guarded(lambda: tp.sample_functions(nu, mu, S, num_samples=k), 'tp.sample_functions', num=k, **inp)
        check(r.shape == (k, n), 'shape of tp samples', got=r.shape, num=k, **inp)
    fz.check('sample_functions')
    which = i % 2
    Z = gp.sample_functions(mu, S, num_samples=N) if which == 0 else tp.sample_functions(nu, mu, S, num_samples=N)
    L = np.linalg.cholesky(S)
    W = np.linalg.solve(L, (Z - mu).T).T          # standardised rows
    t = nu if which else np.inf
    q = W[:, 0]
    # quantiles of each standardised coordinate (8 sigma of a binomial)
    import scipy.stats as st
    D = st.norm if np.isinf(t) else st.t(t)
    for k in range(n):
        for p in (0.02, 0.25, 0.5, 0.75, 0.98):
            c = float(np.mean(W[:, k] <= D.ppf(p)))
            check(abs(c - p) <= 8 * np.sqrt(p * (1 - p) / N), 'distribution of coordinate %d' % k, got=c, expected=p, which=which, **inp)
    # squared radius / n follows F(n, nu)
    q = (W ** 2).sum(1) / n
    D = st.f(n, t) if np.isfinite(t) else st.chi2(n, scale=1.0 / n)
    for p in (0.1, 0.5, 0.9):
        c = float(np.mean(q <= D.ppf(p)))
        check(abs(c - p) <= 8 * np.sqrt(p * (1 - p) / N), 'joint distribution', got=c, expected=p, which=which, **inp)
    # independence of successive rows
    s = np.sign(W[:, 0])
    check(abs(np.mean(s[1:] * s[:-1])) <= 8 / np.sqrt(N), 'rows are not independent', which=which, **inp)
    g = (q > np.median(q)) * 2.0 - 1
    check(abs(np.mean(g[1:] * g[:-1])) <= 8 / np.sqrt(N), 'scales of rows are not independent', which=which, **inp)
    return 'draws%d' % which


def trial(rng, i):
    if i % 3 == 0:
        return draws(rng, i)
    d = int(rng.choice([1, 2, 3]))
    b = nice_box(rng, d)
    n = int(rng.choice([2, 3, 6]))
    X = b[:, 0] + rng.rand(n, d) * (b[:, 1] - b[:, 0])
    f = objective(rng)
    Y = np.array([[f(x)] for x in X])
    norm = bool(rng.randint(2))
    meth = ['uniform', 'sobol', 'halton', 'gaussian', 'grid'][rng.randint(5)]
    num = size(rng, [1, 2, 5, 40], 300)
    if meth == 'grid':
        num = {1: 12, 2: 4, 3: 2}[d]
    inp = dict(box=b, X=X, Y=Y, normalize=norm, method=meth, num=num)
    fz = Frozen(b=b, X=X, Y=Y)
    des, smp, prd = [], [], []
    try:
        with quiet(), spy(bo.BOwGP, 'get_samples', des), spy(gp, 'sample_functions', smp), spy(gp, 'predict_with_optimized_hyps', prd):
            p = ts.thompson_sampling_gp_iteration(b, X, Y, normalize_Y=norm, str_sampling_method=meth, num_samples=num)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and not any(w in str(e) for w in ('jitter', 'NaN', 'infs')):
            raise Fail('thompson_sampling_gp_iteration raised %s' % e, **inp)
        raise Skip()
    except Exception as e:
        raise Fail('thompson_sampling_gp_iteration raised %s: %s' % (type(e).__name__, e), **inp)
    fz.check('thompson_sampling_gp_iteration')
    check(np.shape(p) == (d,) and in_box(p[None], b), 'outside the box', got=p, **inp)
    if len(des) != 1 or len(prd) != 1 or not smp:
        return 'unspied'
    C = des[0][2]
    a, k = des[0][0][1:], des[0][1]
    check((a[0] if a else k.get('str_sampling_method')) == meth, 'sampling method', got=(a, k), **inp)
    check(len(C) == (num ** d if meth == 'grid' else num), 'number of candidates', got=len(C), **inp)
    j = row_of(p, C)
    check(j is not None, 'not a candidate', got=p, candidates=C, **inp)
    S = smp[-1][2]
    check(S.shape == (1, len(C)), 'not one function at the candidates', got=S.shape, **inp)
    check(min(S[0][k] for k in range(len(C)) if np.array_equal(C[k], p)) == S.min(), 'not the minimiser of the drawn function', got=p, candidates=C, drawn=S, **inp)
    a, k, o = prd[0]
    names = ['X_train', 'Y_train', 'X_test']
    arg = dict(zip(names, a))
    arg.update({x: k[x] for x in names if x in k})
    check(np.array_equal(arg['X_train'], X) and np.array_equal(arg['X_test'], C), 'posterior at other points', **inp)
    close(arg['Y_train'], normalise(Y) if norm else Y, 'responses used', rtol=1e-9, atol=1e-9, **inp)
    a, k = smp[-1][0], smp[-1][1]
    mu = a[0] if a else k.get('mu')
    Sg = a[1] if len(a) > 1 else k.get('Sigma')
    close(mu, np.squeeze(o[0], axis=1), 'mean of the draw', rtol=1e-9, atol=1e-9, **inp)
    off = Sg - o[2]
    jt = np.median(np.diag(off))
    lst = [0.0, 1e-4, 1e-2, 1.0, 10.0, 100.0, 1e3, 1e4]
    jj = min(lst, key=lambda x: abs(x - jt))
    close(Sg, o[2] + jj * np.eye(len(C)), 'covariance of the draw', rtol=1e-9, atol=1e-8, **inp)
    return meth
