from ocommon import *
import math
from bayeso import acquisition
from bayeso.utils import utils_bo

Phi = np.vectorize(lambda z: 0.5 * math.erfc(-z / math.sqrt(2.0)))
phi = np.vectorize(lambda z: math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi))
JIT = 1e-5


def ref(name, mu, s, Y, noise=None, jit=JIT, kappa=2.0, grow=True):
    if name == 'pure_exploit':
        return -mu
    if name == 'pure_explore':
        return s * 1.0
    if name == 'ucb':
        k = kappa * math.log(Y.shape[0] + 1.0) if (grow and Y is not None) else kappa
        return -mu + k * s
    m = Y.min()
    z = (m - mu) / (s + jit)
    z = np.clip(z, -1e6, 1e6)
    if name == 'pi':
        return Phi(z)
    e = (m - mu) * Phi(z) + s * phi(z)
    if name == 'ei':
        return e
    return e * (1.0 - noise / np.sqrt(s ** 2 + noise ** 2))


def data(rng):
    n = size(rng, [1, 1, 2, 3, 5, 8, 17, 40], 2100)
    N = size(rng, [1, 1, 2, 3, 5, 9, 30, 120], 2100)
    sc = float(rng.choice([1e-3, 0.1, 1.0, 1.0, 10.0, 100.0]))
    mu = rng.randn(n) * sc
    s = np.abs(rng.randn(n)) * sc * float(rng.choice([1e-3, 0.3, 1.0, 3.0]))
    Y = rng.randn(N, 1) * sc
    r = rng.rand()
    if r < 0.15:
        s[rng.randint(n)] = 0.0
    elif r < 0.25:
        Y[:] = Y[0]
    elif r < 0.35:
        mu = np.abs(mu) + Y.max()
    elif r < 0.45:
        mu = -np.abs(mu) + Y.min()
    elif r < 0.5:
        Y = np.abs(Y)
    elif r < 0.55:
        Y = -np.abs(Y)
    return n, N, mu, s, Y


def trial(rng, i):
    n, N, mu, s, Y = data(rng)
    noise = float(rng.choice([1e-3, 0.01, 0.3, 2.0, 50.0]))
    jit = float(rng.choice([1e-5, 1e-2, 0.7]))
    kappa = float(rng.choice([0.5, 2.0, 7.0]))
    fz = Frozen(mu=mu, s=s, Y=Y)
    tol = dict(rtol=1e-6, atol=1e-9 * max(1.0, np.abs(mu).max() + np.abs(Y).max()))
    name = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'][i % 6]
    inp = dict(name=name, mu=mu, s=s, Y=Y, noise=noise, jitter=jit, kappa=kappa)
    A = acquisition
    if (i // 6) % 2 == 0:
        kw = bool(rng.rand() < 0.5)
        f = guarded(lambda: utils_bo.choose_fun_acquisition(name, noise), 'choose_fun_acquisition', **inp)
        if rng.rand() < 0.5:
            # another one chosen (and used) in between
            other = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'][rng.randint(6)]
            f2 = guarded(lambda: utils_bo.choose_fun_acquisition(other, noise * 3.0), 'choose_fun_acquisition', **inp)
            if rng.rand() < 0.5:
                guarded(lambda: f2(pred_mean=mu, pred_std=s, Y_train=Y), 'acquisition ' + other, **inp)
        if kw:
            r = guarded(lambda: f(pred_mean=mu, pred_std=s, Y_train=Y), 'acquisition ' + name, **inp)
        else:
            r = guarded(lambda: f(mu, s, Y), 'acquisition ' + name, **inp)
        close(r, ref(name, mu, s, Y, noise), 'chosen acquisition %s' % name, **tol, **inp)
    else:
        if name in ('pi', 'ei'):
            r = guarded(lambda: getattr(A, name)(mu, s, Y, jitter=jit), name, **inp)
            close(r, ref(name, mu, s, Y, jit=jit), name, **tol, **inp)
        elif name == 'aei':
            r = guarded(lambda: A.aei(mu, s, Y, noise, jitter=jit), name, **inp)
            close(r, ref(name, mu, s, Y, noise, jit=jit), name, **tol, **inp)
        elif name == 'ucb':
            g = bool(rng.rand() < 0.5)
            r = guarded(lambda: A.ucb(mu, s, Y, kappa=kappa, increase_kappa=g), name, **inp)
            close(r, ref(name, mu, s, Y, kappa=kappa, grow=g), name, grow=g, **tol, **inp)
            r = guarded(lambda: A.ucb(mu, s, kappa=kappa), name, **inp)
            close(r, -mu + kappa * s, name + ' without observations', **tol, **inp)
        elif name == 'pure_exploit':
            close(guarded(lambda: A.pure_exploit(mu), name), -mu, name, **inp)
        else:
            close(guarded(lambda: A.pure_explore(s), name), s, name, **inp)
    fz.check('acquisition ' + name)
    return name
