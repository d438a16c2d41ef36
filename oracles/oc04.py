from ocommon import *
from oref import *
from bayeso import bo, wrappers, thompson_sampling as ts
import time, contextlib


CLOCK = [0.0]
REAL = {k: getattr(time, k) for k in ('time', 'perf_counter', 'monotonic')}


@contextlib.contextmanager
def objective_clock():
    """a clock on which evaluation number q takes at least 1000 q seconds"""
    CLOCK[0] = 0.0
    for k, f in REAL.items():
        setattr(time, k, lambda f=f: f() + CLOCK[0])
    try:
        yield
    finally:
        for k, f in REAL.items():
            setattr(time, k, f)


class Target:
    def __init__(self, rng, slow=0.0):
        self.f = objective(rng)
        self.kind = rng.randint(3)
        self.calls, self.vals = [], []

    def __call__(self, x):
        CLOCK[0] += 1000.0 * (len(self.calls) + 1)
        self.calls.append(np.array(x, copy=True))
        v = self.f(x) + 0.01 * len(self.calls)       # history dependent: a second call at the same point shows
        self.vals.append(v)
        if self.kind == 1:
            return np.array([v])
        if self.kind == 2:
            return np.float64(v)
        return v


def trial(rng, i):
    kind = ['class', 'function', 'thompson'][i % 3]
    d = int(rng.choice([1, 1, 2, 3]))
    b = nice_box(rng, d)
    n0 = size(rng, [1, 2, 3, 4], 30)
    it = size(rng, [1, 1, 2, 3, 4], 12)
    T = Target(rng)
    X0 = b[:, 0] + rng.rand(n0, d) * (b[:, 1] - b[:, 0])
    if rng.rand() < 0.2 and n0 > 1:
        X0[-1] = X0[0]
    Y0 = rng.randn(n0, 1)
    sur = 'gp' if kind == 'function' else ['gp', 'tp', 'rf'][(i // 3) % 3]
    mode = ['inputs', 'both', 'all'][rng.randint(3)]
    inp = dict(kind=kind, box=b, X0=X0, Y0=Y0, iterations=it, surrogate=sur, mode=mode, objective=T.kind)
    init = ['uniform', 'sobol', 'halton', 'gaussian'][rng.randint(4)]
    seed = int(rng.randint(100))
    fz = Frozen(X0=X0, Y0=Y0, b=b)
    ns = int(rng.choice([1, 2, 3])) if sur != 'rf' else int(rng.choice([1, 5, 60]))
    norm = bool(rng.randint(2))
    mlm = ['regular', 'combined', 'converged'][rng.randint(3)]
    try:
        with quiet(), objective_clock():
            if kind == 'thompson':
                meth = ['uniform', 'sobol', 'halton', 'gaussian'][rng.randint(4)]
                r = ts.thompson_sampling_gp(b, T, n0, it, normalize_Y=norm, str_sampling_method=meth, num_samples=int(rng.choice([1, 2, 20])))
                mode = 'thompson'
            elif kind == 'function':
                m = bo.BOwGP(b, str_acq=['ei', 'pi', 'ucb'][rng.randint(3)], normalize_Y=norm)
                kw = dict(num_samples_ao=ns, str_sampling_method_ao='uniform', str_mlm_method=mlm)
                if mode == 'all':
                    r = wrappers.run_single_round(m, T, n0, it, str_initial_method_bo=init, seed=seed, **kw)
                elif mode == 'inputs':
                    r = wrappers.run_single_round_with_initial_inputs(m, T, X0, it, **kw)
                else:
                    r = wrappers.run_single_round_with_all_initial_information(m, T, X0, Y0, it, **kw)
            else:
                m = wrappers.BayesianOptimization(b, T, it, str_surrogate=sur, normalize_Y=norm, num_samples_ao=ns,
                                                  str_sampling_method_ao='uniform', str_initial_method_bo=init, str_mlm_method=mlm,
                                                  str_optimizer_method_bo='random_search' if sur == 'rf' else 'L-BFGS-B')
                if mode == 'all':
                    r = m.optimize(n0, seed=seed)
                elif mode == 'inputs':
                    r = m.optimize_with_initial_inputs(X0)
                else:
                    r = m.optimize_with_all_initial_information(X0, Y0)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as e:
        if 'jitter' in str(e) or 'NaN' in str(e) or 'infs' in str(e):
            raise Skip()
        raise Fail('run raised %s' % e, **inp)
    except Exception as e:
        if 'NoneType' in str(e):
            raise Skip()
        raise Fail('run raised %s: %s' % (type(e).__name__, e), **inp)
    fz.check('run')
    X, Y = r[0], r[1]
    inp.update(X=X, Y=Y, calls=np.array(T.calls))
    check(X.shape == (n0 + it, d) and Y.shape == (n0 + it, 1), 'history shape', **inp)
    skip = n0 if mode == 'both' else 0
    check(len(T.calls) == n0 + it - skip, 'number of evaluations', got=len(T.calls), **inp)
    for k, c in enumerate(T.calls):
        check(np.array_equal(np.ravel(c), X[skip + k]), 'evaluation %d was not at its row' % k, **inp)
        check(np.shape(c) == (d,), 'point handed to the objective', got=np.shape(c), **inp)
    close(Y[skip:, 0], np.array(T.vals), 'responses', rtol=0, atol=0, **inp)
    if mode in ('inputs', 'both'):
        check(np.array_equal(X[:n0], X0), 'initial inputs changed', **inp)
    if mode == 'both':
        check(np.array_equal(Y[:n0], Y0), 'initial responses changed', **inp)
    if mode == 'all' and kind != 'thompson':
        m2 = bo.BOwGP(b)
        check(np.array_equal(X[:n0], m2.get_initials(init, n0, seed=seed)), 'initial inputs are not the design', **inp)
    check(in_box(X[n0:], b), 'outside the box', **inp)
    if kind != 'thompson':
        check(len(r) == 5, 'five results', **inp)
        check(np.shape(r[2]) == ((0 if mode == 'both' else n0) + it,), 'overall times', got=np.shape(r[2]), **inp)
        check(np.shape(r[3]) == (it,) and np.shape(r[4]) == (it,), 'step times', got=(np.shape(r[3]), np.shape(r[4])), **inp)
        lo = 1000.0 * (1 + np.arange(len(T.calls)))
        check(np.all(r[2] >= lo) and np.all(r[2] < lo + 600.0), 'overall times are not those of the evaluations in order', got=r[2], expected=lo, **inp)
        check(all(np.all(np.asarray(t) >= 0) for t in r[2:]), 'negative times', **inp)
    return kind + '.' + mode
