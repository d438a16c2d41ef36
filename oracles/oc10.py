from ocommon import *
from oref import *
from bayeso import covariance as cov

LIST = [0.0, 1e-4, 1e-2, 0.1, 1.0, 10.0, 100.0]


def trial(rng, i):
    st = i % 5 == 4
    name = ('set_' if st else '') + BASE[rng.randint(4)]
    d = size(rng, [1, 2, 4], 40)
    n = size(rng, [1, 2, 3, 6, 12], 12 if st else 200)
    hard = (not st) and i % 3 == 1
    fix = bool(rng.randint(2))
    h = hyps(rng, d, signed=True)
    X = inputs(rng, name, n, d)
    if hard:
        n = int(rng.choice([4, 8, 15]))
        h['signal'] = float(rng.choice([1e4, 1e5, 1e6, 3e6, 1e7]))
        h['noise'] = float(rng.choice([1e-4, 1e-3]))
        X = rng.uniform(0, 0.01, size=(n, d))
        if rng.rand() < 0.5:
            X[n // 2:] = X[:n - n // 2]
    grad = (not st) and bool(rng.randint(2))
    inp = dict(kernel=name, X=X, hyps=h, fix_noise=fix, use_gradient=grad)
    fz = Frozen(X=X, h=h)
    K = ktrain(name, X, h)
    sc = np.abs(K).max()
    if not hard:
        r = guarded(lambda: cov.get_kernel_inverse(X, h, name, fix_noise=fix, use_gradient=grad), 'get_kernel_inverse', **inp)
        fz.check('get_kernel_inverse')
        check(isinstance(r, tuple) and len(r) == 3, 'three results', **inp)
        close(r[0], K, 'training covariance', atol=1e-10 * sc, **inp)
        check(np.array_equal(r[0], r[0].T), 'not symmetric', got=r[0], **inp)
        c = np.linalg.cond(K)
        if c < 1e10:
            close(r[0] @ r[1], np.eye(n), 'inverse times matrix', rtol=0, atol=max(1e-9, 1e-13 * c), **inp)
        check((r[2] is not None) == grad, 'gradient returned exactly when asked for', **inp)
        if grad:
            nh = 1 + (d if isinstance(h['lengthscales'], np.ndarray) else 1) + (0 if fix else 1)
            check(r[2].shape == (n, n, nh), 'gradient shape', got=r[2].shape, **inp)
    raised = False
    try:
        r = cov.get_kernel_cholesky(X, h, name, fix_noise=fix, use_gradient=grad)
    except ValueError as e:
        raised = True
        err = str(e)
    except Exception as e:
        raise Fail('get_kernel_cholesky raised %s: %s' % (type(e).__name__, e), **inp)
    fz.check('get_kernel_cholesky')
    ev = np.linalg.eigvalsh(K)
    tol = 200 * n * np.finfo(float).eps * sc
    if raised:
        check(ev[0] + LIST[-1] < tol, 'reported failure although a factorisation exists', smallest=ev[0], error=err, **inp)
        return 'failure'
    C, L, G = r
    check((G is not None) == grad, 'gradient returned exactly when asked for', **inp)
    off = C - K
    amt = float(np.median(np.diag(off)))
    j = min(LIST, key=lambda x: abs(x - amt))
    if j > 4 * tol or j == 0.0:
        close(C, K + j * np.eye(n), 'returned matrix is not the covariance plus an allowed extra amount', rtol=1e-9, atol=1e-10 * sc, **inp)
    for s in LIST:
        if s < j and ev[0] + s > tol:
            raise Fail('extra amount %g used although %g suffices' % (j, s), smallest=ev[0], **inp)
    check(np.array_equal(L, np.tril(L)), 'factor is not lower triangular', got=L, **inp)
    check(np.all(np.diag(L) > 0), 'factor diagonal', got=L, **inp)
    close(L @ L.T, C, 'factor is not of the returned matrix', rtol=1e-9, atol=1e-12 * n * np.abs(C).max(), **inp)
    return 'jitter%g' % j
