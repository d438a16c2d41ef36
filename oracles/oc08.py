from ocommon import *
from oref import *
from bayeso import covariance as cov


def trial(rng, i):
    base = BASE[i % 4]
    st = (i // 4) % 3 == 2
    name = ('set_' if st else '') + base
    d = size(rng, [1, 2, 3, 6], 40)
    n, l = [size(rng, [1, 2, 3, 5, 9], 12 if name.startswith('set_') else 300) for _ in range(2)]
    h = hyps(rng, d, signed=True)
    if rng.rand() < 0.2:
        h['lengthscales'] = h['lengthscales'] * 10.0 ** rng.uniform(-2, 2)
    X = inputs(rng, name, n, d)
    Xp = sets_like(rng, X, l)
    jit = float(rng.choice([1e-5, 1e-5, 0.0, 0.3]))
    sc = h['signal'] ** 2
    inp = dict(kernel=name, X=X, Xp=Xp, hyps=h, jitter=jit)
    fz = Frozen(X=X, Xp=Xp, h=h)
    if not st and (i // 4) % 3 == 1:
        f = cov.choose_fun_cov(base)
        r = guarded(lambda: f(X, Xp, h['lengthscales'], h['signal']), 'choose_fun_cov(%s)' % base, **inp)
        close(r, kmat(name, X, Xp, h), 'covariance', rtol=1e-6, atol=1e-12 * sc, **inp)
        g = getattr(cov, 'cov_' + ('se' if base == 'eq' else base))
        r = guarded(lambda: g(X, Xp, h['lengthscales'], h['signal']), g.__name__, **inp)
        close(r, kmat(name, X, Xp, h), 'covariance', rtol=1e-6, atol=1e-12 * sc, **inp)
        if rng.rand() < 0.5:
            r = guarded(lambda: cov.cov_set(base, X, Xp, h['lengthscales'], h['signal']), 'cov_set', **inp)
            close(r, kmat(name, X, Xp, h).mean(), 'set covariance', rtol=1e-6, atol=1e-12 * sc, **inp)
        fz.check('covariance')
        return 'fun'
    kw = {} if jit == 1e-5 and rng.rand() < 0.5 else {'jitter': jit}
    r = guarded(lambda: cov.cov_main(name, X, Xp, h, False, **kw), 'cov_main', **inp)
    close(r, kmat(name, X, Xp, h), 'cross covariance', rtol=1e-6, atol=1e-12 * sc, **inp)
    r = guarded(lambda: cov.cov_main(name, X, X, h, True, **kw), 'cov_main', **inp)
    close(r, kmat(name, X, X, h, True, jit if kw else JIT), 'training covariance', rtol=1e-6, atol=1e-12 * sc, **inp)
    r = guarded(lambda: cov.cov_main(name, X, X, h, False, **kw), 'cov_main', **inp)
    close(r, kmat(name, X, X, h), 'covariance without jitter', rtol=1e-6, atol=1e-12 * sc, **inp)
    if n == l and rng.rand() < 0.5 and Xp.shape == X.shape:
        pass
    fz.check('cov_main')
    return name
