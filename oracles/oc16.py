from ocommon import *
from oref import *
import os
import pickle
import scipy.optimize
from bayeso import constants as CN
from bayeso.utils import utils_covariance
from bayeso.gp import gp_kernel, gp_likelihood
from bayeso.tp import tp_kernel, tp_likelihood

def ranges(n, tp, fix):
    r = ([] if fix else CN.RANGE_NOISE) + (CN.RANGE_DOF if tp else []) + CN.RANGE_SIGNAL
    return np.array(r + CN.RANGE_LENGTHSCALES * (n - len(r)))


def elsewhere(fn):
    """the value of fn computed in a child process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            b = pickle.dumps(fn())
        except BaseException:
            b = pickle.dumps(None)
        with os.fdopen(w, 'wb') as f:
            f.write(b)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else None


def trial(rng, i):
    tp = i % 3 == 2
    st = i % 11 == 5
    name = ('set_' if st else '') + BASE[rng.randint(4)]
    d = int(rng.choice([1, 2, 3]))
    n = size(rng, [2, 3, 4, 6], 30)
    X = inputs(rng, name, n, d, 1.0)
    if not st and n > 1 and np.array_equal(X[0], X[1]):
        X = np.array(X, dtype=float)
        X[1] += 0.3
    Y = rng.randn(n, 1) + float(rng.choice([0.0, 3.0]))
    f = prior(rng)
    ard, fix = bool(rng.randint(2)), bool(rng.rand() < 0.6)
    ms = 'ml'
    if tp:
        om = ['L-BFGS-B', 'SLSQP'][rng.randint(2)]
    else:
        om = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'][(i // 3) % 5]
        ms = 'loocv' if rng.rand() < 0.3 else 'ml'
    inp = dict(kernel=name, X=X, Y=Y, prior=f is not None, method=om, selection=ms, use_ard=ard, fix_noise=fix, tp=tp)
    fz = Frozen(X=X, Y=Y)
    log = []
    kw = dict(str_optimizer_method=om, use_ard=ard, fix_noise=fix)
    if not tp:
        kw['str_modelselection_method'] = ms
    alone = None
    if rng.rand() < 0.3:
        fit = (tp_kernel if tp else gp_kernel).get_optimized_kernel
        alone = elsewhere(lambda: fit(X, Y, f, name, **kw)[2])
        # a fit of the same data under other options comes first: it must leave no trace
        k0 = dict(kw)
        f0 = f
        w = rng.randint(4)
        if w == 0:
            f0 = (lambda x: np.full((x.shape[0], 1), 1.7)) if f is None or rng.rand() < 0.7 else None
        elif w == 1 and not tp:
            k0['str_modelselection_method'] = 'ml' if ms == 'loocv' else 'loocv'
        elif w == 2:
            k0['fix_noise'] = not fix
        else:
            k0['use_ard'] = not ard
        try:
            fit(X, Y, f0, name, **k0)
        except Exception:
            pass
    try:
        with spy(scipy.optimize, 'minimize', log):
            r = (tp_kernel if tp else gp_kernel).get_optimized_kernel(X, Y, f, name, **kw)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as e:
        if 'jitter' in str(e) or 'infs or NaNs' in str(e):
            raise Skip()
        raise Fail('get_optimized_kernel raised %s' % e, **inp)
    except Exception as e:
        raise Fail('get_optimized_kernel raised %s: %s' % (type(e).__name__, e), **inp)
    fz.check('get_optimized_kernel')
    C, inv, h = r
    v = vec(h, tp=tp, fix=fix)
    inp['hyps'] = h
    check(isinstance(h['lengthscales'], np.ndarray) == ard and (not ard or h['lengthscales'].shape == (d,)), 'lengthscales layout', **inp)
    if fix:
        check(h['noise'] == 0.01, 'fixed noise', **inp)
    bounded = tp or om in ('L-BFGS-B', 'SLSQP-Bounded')
    R = ranges(len(v), tp, fix)
    if bounded:
        check(np.all(v >= R[:, 0] - 1e-9) and np.all(v <= R[:, 1] + 1e-9), 'outside the parameter ranges', **inp)
    K = ktrain(name, X, h)
    close(C, K, 'covariance at the returned hyperparameters', atol=1e-9 * np.abs(K).max(), **inp)
    cd = np.linalg.cond(K)
    if np.isfinite(cd) and cd < 1e9:
        close(inv @ K, np.eye(n), 'inverse at the returned hyperparameters', rtol=0, atol=max(1e-8, 1e-13 * cd), **inp)
    x0 = vec(utils_covariance.get_hyps(name, d, use_gp=not tp, use_ard=ard), tp=tp, fix=fix)
    m = pm(f, X)

    def objective(u, grad):
        k2 = dict(use_ard=ard, fix_noise=fix)
        if tp:
            return tp_likelihood.neg_log_ml(X, Y, u, name, m, use_gradient=grad, **k2)
        if ms == 'loocv':
            return gp_likelihood.neg_log_pseudo_l_loocv(X, Y, u, name, m, **k2)
        return gp_likelihood.neg_log_ml(X, Y, u, name, m, use_gradient=grad, **k2)
    if len(log) == 1:
        a, k, sol = log[0]
        fun = a[0] if a else k.get('fun')
        start = a[1] if len(a) > 1 else k.get('x0')
        check(np.array_equal(np.asarray(start, float), x0), 'not started from the default hyperparameters', got=start, **inp)
        check(np.asarray(sol.x).shape == v.shape, 'solution length', **inp)
        w = np.array(sol.x, float)
        if tp:
            k3 = 0 if fix else 1
            w[k3] = max(w[k3], 2.00001) if w[k3] <= 2.0 else w[k3]
        check(np.array_equal(w, v), 'hyperparameters are not the decoded solution', got=v, expected=sol.x, **inp)
        b = k.get('bounds')
        if bounded:
            check(b is not None and np.array_equal(np.array(b, float), R), 'bounds given to the optimiser', got=b, **inp)
        elif b is not None:
            check(False, 'bounds given to an unbounded optimiser', got=b, **inp)
        check(str(k.get('method', '')) == ('SLSQP' if om == 'SLSQP-Bounded' else om), 'optimiser', got=k.get('method'), **inp)
        jac = k.get('jac', None)
        out = fun(x0.copy())
        pair = isinstance(out, tuple)
        if jac is True or jac is False or jac is None:
            check(pair == (jac is True), 'jac flag does not match the objective', got=jac, **inp)
        val = out[0] if pair else out
        close(np.squeeze(val), np.squeeze(objective(x0, False)), 'objective handed to the optimiser', rtol=1e-7, atol=1e-9, **inp)
        u = x0 * rng.uniform(0.7, 1.6, size=len(x0))
        out = fun(u.copy())
        close(np.squeeze(out[0] if isinstance(out, tuple) else out), np.squeeze(objective(u, False)), 'objective handed to the optimiser', rtol=1e-7, atol=1e-9, at=u, **inp)
        if pair:
            close(out[1], objective(u, True)[1], 'gradient handed to the optimiser', rtol=1e-6, atol=1e-8, at=u, **inp)
        return 'spied'
    # the call to the optimiser was not seen: an earlier fit of the same data must not matter for how good the answer is
    if alone is not None:
        val = lambda u: float(np.squeeze(objective(u, False)))
        try:
            a, b, a0 = val(v), val(vec(alone, tp=tp, fix=fix)), val(x0)
        except Exception:
            return 'plain'
        check(not np.isfinite(b) or a <= b + 0.5 * max(a0 - b, 0.0) + 1e-2 * max(1.0, abs(b)), 'far worse than the fit without the earlier one', got=a, expected=b, **inp)
    return 'plain'
