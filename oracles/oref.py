"""independent reference formulas and input generators shared by the oracles"""
import contextlib
import numpy as np
import scipy.linalg
import scipy.special
from ocommon import level, size, lay

BASE = ['se', 'matern32', 'matern52', 'eq']
JIT = 1e-5


def dist(A, B, ls):
    A, B = np.asarray(A, float) / ls, np.asarray(B, float) / ls
    return np.sqrt(np.maximum(((A[:, None, :] - B[None, :, :]) ** 2).sum(-1), 0.0))


def kfun(name, r):
    if name in ('se', 'eq'):
        return np.exp(-0.5 * r * r)
    if name == 'matern32':
        return (1.0 + np.sqrt(3.0) * r) * np.exp(-np.sqrt(3.0) * r)
    return (1.0 + np.sqrt(5.0) * r + 5.0 * r * r / 3.0) * np.exp(-np.sqrt(5.0) * r)


def kbase(name, A, B, ls, sig):
    return sig ** 2 * kfun(name, dist(A, B, ls))


def kmat(name, A, B, hyps, same=False, jitter=JIT):
    ls, sig = hyps['lengthscales'], hyps['signal']
    if name.startswith('set_'):
        K = np.array([[kbase(name[4:], a, b, ls, sig).mean() for b in B] for a in A])
    else:
        K = kbase(name, A, B, ls, sig)
    if same:
        K = K + jitter * np.eye(len(A))
    return K


def ktrain(name, X, hyps):
    K = kmat(name, X, X, hyps, True) + hyps['noise'] ** 2 * np.eye(len(X))
    return (K + K.T) / 2.0


def vec(hyps, tp=False, fix=True):
    v = [] if fix else [hyps['noise']]
    if tp:
        v.append(hyps['dof'])
    v.append(hyps['signal'])
    v.extend(np.atleast_1d(hyps['lengthscales']).tolist())
    return np.array(v, dtype=float)


def unvec(v, tp=False, fix=True, ard=True, noise=0.01):
    v = list(v)
    h = {'noise': noise if fix else v.pop(0)}
    if tp:
        h['dof'] = v.pop(0)
    h['signal'] = v.pop(0)
    h['lengthscales'] = np.array(v) if ard else v[0]
    return h


def hyps(rng, d, ard=None, tp=False, noise=None, signed=False):
    ard = bool(rng.rand() < 0.6) if ard is None else ard
    h = {'noise': level(rng, float(rng.choice([0.01, 0.1, 0.5, 1.3]))) if noise is None else noise,
         'signal': level(rng, float(rng.choice([0.3, 1.0, 2.5, 7.0])) * float(rng.uniform(0.8, 1.2)))}
    if tp:
        h['dof'] = float(rng.choice([2.1, 3.0, 5.0, 20.0, 150.0])) * float(rng.uniform(1.0, 1.1))
    h['lengthscales'] = rng.uniform(0.2, 3.0, size=d) if ard else float(rng.uniform(0.2, 3.0))
    if signed and rng.rand() < 0.2:
        # an unconstrained optimiser also reaches these
        h['signal'] *= -1.0 if rng.rand() < 0.5 else 1.0
        h['lengthscales'] = h['lengthscales'] * (rng.choice([-1.0, 1.0], size=d) if ard else -1.0)
        h['noise'] *= -1.0 if noise is None and rng.rand() < 0.5 else 1.0
    return h


def inputs(rng, name, n, d, sc=None):
    sc = float(rng.choice([0.5, 1.0, 3.0])) if sc is None else sc
    if name.startswith('set_'):
        m = int(rng.choice([1, 2, 4]))
        return lay(rng, rng.uniform(-sc, sc, size=(n, m, d)))
    X = rng.uniform(-sc, sc, size=(n, d))
    if n > 1 and rng.rand() < 0.15:
        X[1] = X[0]
    return lay(rng, X)


def sets_like(rng, X, l, sc=2.0):
    """test inputs fitting training inputs X"""
    if X.ndim == 3:
        return rng.uniform(-sc, sc, size=(l, int(rng.choice([1, 3, X.shape[1]])), X.shape[2]))
    T = rng.uniform(-sc, sc, size=(l, X.shape[1]))
    if l and rng.rand() < 0.3:
        T[rng.randint(l)] = X[rng.randint(len(X))]
    return T


def prior(rng):
    k = rng.randint(4)
    if k == 0:
        return None
    a, b = float(rng.randn()), float(rng.randn())
    if k == 1:
        return lambda X: np.full((X.shape[0], 1), a)
    return lambda X: a + b * np.asarray(X).reshape(X.shape[0], -1).sum(1)[:, None] ** (1 if k == 2 else 2)


def pm(f, X):
    return np.zeros((len(X), 1)) if f is None else f(X)


def gp_post(name, X, Y, T, inv, h, mu):
    k = kmat(name, T, X, h)
    m = pm(mu, T) + k @ inv @ (Y - pm(mu, X))
    S = kmat(name, T, T, h, True)
    S = (S + S.T) / 2 - k @ inv @ k.T
    return m, S


def box(rng, d, flat=False):
    sc = float(rng.choice([1e-3, 1.0, 1.0, 10.0, 1e4]))
    lo = rng.uniform(-1, 1, size=d) * sc
    w = rng.uniform(0.05, 2.0, size=d) * sc * 10.0 ** rng.randint(-2, 1, size=d)
    if flat:
        w[rng.randint(d)] = 0.0
    return np.stack([lo, lo + w], axis=1)


def nice_box(rng, d):
    lo = rng.uniform(-2, 1, size=d)
    return np.stack([lo, lo + rng.uniform(0.5, 3.0, size=d)], axis=1)


def in_box(P, b, ulps=8):
    t = ulps * np.finfo(float).eps * np.maximum(np.abs(b[:, 0]), np.abs(b[:, 1]))
    return bool(np.all(P >= b[:, 0] - t) and np.all(P <= b[:, 1] + t))


def row_of(p, P):
    """index of a row of P equal to p, or None"""
    for j in range(len(P)):
        if np.array_equal(P[j], p):
            return j
    return None


def normalise(Y):
    a, b = Y.min(), Y.max()
    return Y if a == b else 10.0 * (Y - a) / (b - a)


def objective(rng):
    k = rng.randint(4)
    c = rng.randn(8)
    if k == 0:
        return lambda x: float(np.sum((np.asarray(x) - c[0]) ** 2))
    if k == 1:
        return lambda x: float(np.sin(3 * np.sum(x)) + c[0] * np.sum(np.asarray(x) ** 2))
    if k == 2:
        return lambda x: float(5.0 + np.cos(2 * np.asarray(x).ravel()[0]) * c[1] + 0.3 * np.sum(x))
    return lambda x: float(np.round(np.sum(np.asarray(x) * c[0]), 1))


@contextlib.contextmanager
def spy(obj, name, log):
    """record (args, kwargs, result) of every call of obj.name"""
    old = getattr(obj, name, None)
    if old is None:
        yield
        return

    def w(*a, **k):
        r = old(*a, **k)
        log.append((a, k, r))
        return r
    setattr(obj, name, w)
    try:
        yield
    finally:
        setattr(obj, name, old)


@contextlib.contextmanager
def quiet():
    import io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
