from ocommon import *
from bayeso.utils import utils_common


def trial(rng, i):
    R = size(rng, [1, 1, 2, 3, 6], 300)
    k = size(rng, [1, 1, 2, 3, 5], 300)
    m = size(rng, [1, 2, 4, 9], 300)
    if i % 3 == 2:
        k0 = int(rng.choice([0, 1, 2, 4]))
        t = rng.uniform(0, 3, size=(R, k0 + m))
        inc = bool(rng.rand() < 0.5)
        t = lay(rng, t)
        fz = Frozen(t=t)
        r = guarded(lambda: utils_common.get_time(t, k0, inc), 'get_time', t=t, num_init=k0, include_init=inc)
        fz.check('get_time')
        rows = [np.concatenate([[0.0], np.cumsum(x[k0:] if inc else x)]) for x in t]
        close(r, np.mean(rows, axis=0), 'get_time', t=t, num_init=k0, include_init=inc)
        return 'time'
    Y = rng.randn(R, k + m) * 10.0 ** rng.randint(-3, 4)
    v = rng.randint(5)
    if v == 1:
        Y = np.sort(Y, axis=1)
    elif v == 2:
        Y = -np.sort(-Y, axis=1)
    elif v == 3:
        Y = np.abs(Y) + 100
    Y = lay(rng, Y)
    fz = Frozen(Y=Y)
    r = guarded(lambda: utils_common.get_minimum(Y, k), 'get_minimum', Y=Y, num_init=k)
    fz.check('get_minimum')
    check(isinstance(r, tuple) and len(r) == 4, 'four results', Y=Y)
    exp = np.array([[y[:k + j].min() for j in range(m + 1)] for y in Y])
    close(r[0], exp, 'minima', Y=Y, num_init=k)
    close(r[1], exp.mean(0), 'mean', Y=Y, num_init=k)
    sd = np.sqrt(((exp - exp.mean(0)) ** 2).sum(0) / (R - 1)) if R > 1 else np.zeros(m + 1)
    tol = 1e-9 * max(1.0, np.abs(Y).max())
    close(r[2], sd, 'std', Y=Y, num_init=k, atol=tol)
    close(r[3], sd / np.sqrt(R), 'sem', Y=Y, num_init=k, atol=tol)
    return 'minimum'
