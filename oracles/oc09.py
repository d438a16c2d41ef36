from ocommon import *
from oref import *
from bayeso import covariance as cov


def train(name, X, h, sig0):
    """training covariance, jitter scaling with the squared signal"""
    K = kbase(name, X, X, h['lengthscales'], h['signal'])
    return K + (JIT * h['signal'] ** 2 / sig0 ** 2 + h['noise'] ** 2) * np.eye(len(X))


def numgrad(name, X, h, fix, fun=train):
    v = vec(h, fix=fix)
    ard = isinstance(h['lengthscales'], np.ndarray)
    G = []
    for k in range(len(v)):
        e = 1e-4 * abs(v[k])
        # fourth-order central difference
        w = 0.0
        for c, s in ((8, 1), (-8, -1), (-1, 2), (1, -2)):
            u = v.copy()
            u[k] += s * e
            w = w + c * fun(name, X, unvec(u, fix=fix, ard=ard, noise=h['noise']), h['signal'])
        G.append(w / (12 * e))
    return np.stack(G, axis=2)


def trial(rng, i):
    name = BASE[i % 4]
    fix = bool((i // 4) % 2)
    d = size(rng, [1, 2, 3, 5], 40)
    n = size(rng, [1, 2, 3, 6], 150)
    h = hyps(rng, d, ard=bool((i // 8) % 2), signed=True)
    X = inputs(rng, name, n, d)
    inp = dict(kernel=name, X=X, hyps=h, fix_noise=fix)
    fz = Frozen(X=X, h=h)
    ref = numgrad(name, X, h, fix)
    k = (i // 16) % 3
    if k == 0:
        r = guarded(lambda: cov.grad_cov_main(name, X, X, h, fix), 'grad_cov_main', **inp)
    elif k == 1:
        r = guarded(lambda: cov.get_kernel_inverse(X, h, name, fix_noise=fix, use_gradient=True)[2], 'get_kernel_inverse', **inp)
    else:
        r = guarded(lambda: cov.get_kernel_cholesky(X, h, name, fix_noise=fix, use_gradient=True)[2], 'get_kernel_cholesky', **inp)
    fz.check('gradient')
    check(isinstance(r, np.ndarray) and r.shape == ref.shape, 'gradient shape', got=np.shape(r), expected=ref.shape, **inp)
    for s in range(ref.shape[2]):
        close(r[:, :, s], ref[:, :, s], 'gradient slice %d' % s, rtol=1e-5, atol=1e-6 * max(1.0, np.abs(ref[:, :, s]).max()), **inp)
    return 'via%d' % k
