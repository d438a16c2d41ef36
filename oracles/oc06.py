from ocommon import *
from bayeso.utils import utils_bo


def trial(rng, i):
    N = size(rng, [1, 2, 3, 4, 7, 20, 60], 2100)
    q = 1 if rng.rand() < 0.9 else 3
    kind = i % 8
    sc = 10.0 ** rng.randint(-6, 7)
    Y = rng.randn(N, q) * sc
    if kind == 1:
        Y = np.abs(Y)
    elif kind == 2:
        Y = -np.abs(Y)
    elif kind == 3:
        Y = np.full((N, q), float(rng.randn() * sc))
    elif kind == 4:
        Y = Y + 5 * sc
    elif kind == 5:
        Y = rng.randint(-2, 3, size=(N, q)).astype(float)
    elif kind == 6:
        Y = np.round(Y / sc, 1) * 1e-3 + 1.0
    elif kind == 7:
        # two neighbouring values, or a spread far below or above the values' size
        a = float(rng.choice([0.0, 1.0, -1.0, 3.0, 1e6])) * float(rng.choice([1.0, 1e-9]))
        w = np.spacing(abs(a) + 1e-150) * 2.0 ** rng.randint(0, 40) if rng.rand() < 0.5 else 10.0 ** rng.randint(-30, 30)
        Y = a + w * rng.randint(0, 4, size=(N, q))
    Y = lay(rng, Y)
    fz = Frozen(Y=Y)
    r = guarded(lambda: utils_bo.normalize_min_max(Y), 'normalize_min_max', Y=Y)
    fz.check('normalize_min_max')
    check(isinstance(r, np.ndarray) and r.shape == Y.shape, 'shape changed', Y=Y, got=r)
    mn, mx = Y.min(), Y.max()
    if mn == mx:
        check(np.array_equal(r, Y), 'constant responses changed', Y=Y, got=r)
        return 'constant'
    exp = 10.0 * (Y - mn) / (mx - mn)
    tol = 1e-9 + 1e-13 * np.abs(Y).max() / (mx - mn) * (kind != 7)
    close(r, exp, 'affine map', rtol=1e-9, atol=tol, Y=Y)
    check(abs(r.min()) <= tol, 'smallest is not 0', Y=Y, got=r)
    check(abs(r.max() - 10.0) <= tol, 'largest is not 10', Y=Y, got=r)
    o = np.argsort(Y.ravel(), kind='stable')
    check(np.all(np.diff(r.ravel()[o]) >= -tol), 'order not preserved', Y=Y, got=r)
    return 'kind%d' % kind
