from ocommon import *
import itertools
from oref import *
from bayeso import bo


def model(rng, b):
    k = rng.randint(3)
    return (bo.BOwGP(b) if k == 0 else bo.BOwTP(b) if k == 1 else bo.BOwTrees(b)), ['gp', 'tp', 'rf'][k]


def trial(rng, i):
    d = int(rng.choice([1, 1, 2, 3, 4, 7]))
    b = box(rng, d, flat=rng.rand() < 0.2)
    if rng.rand() < 0.1:
        b = np.array([[rng.randint(-3, 1), rng.randint(1, 5)] for _ in range(d)], dtype=[float, int][rng.randint(2)])
    b = lay(rng, b, ints=False)
    m, mn = model(rng, b)
    if rng.rand() < 0.3:
        # another box has been sampled before with the same settings
        m_, _ = model(rng, box(rng, d))
        for meth_ in ('uniform', 'gaussian', 'sobol', 'halton'):
            m_.get_samples(meth_, num_samples=3, seed=7)
    meth = ['uniform', 'gaussian', 'sobol', 'halton', 'grid'][i % 5]
    n = size(rng, [1, 2, 3, 3, 4, 5, 8, 13, 16, 50, 129], 1100)
    seed = None if rng.rand() < 0.3 else int(rng.choice([0, 1, 7, 42, 12345, 2 ** 31 - 1]))
    inp = dict(box=b, method=meth, n=n, seed=seed, model=mn)
    fz = Frozen(b=b)
    if meth == 'grid':
        n = {1: n, 2: min(n, 16), 3: min(n, 5), 4: min(n, 4), 7: min(n, 2)}[d]
        inp['n'] = n
        r = guarded(lambda: m.get_samples('grid', num_samples=n, seed=seed), 'get_samples', **inp)
        fz.check('get_samples')
        check(isinstance(r, np.ndarray) and r.shape == (n ** d, d), 'grid shape', got=np.shape(r), **inp)
        ax = [np.linspace(b[k, 0], b[k, 1], n) for k in range(d)]
        for k in range(d):
            if n > 1:
                check(ax[k][0] == b[k, 0] and ax[k][-1] == b[k, 1], 'ends')
        E = np.array(list(itertools.product(*ax)))
        # match every returned point to its grid index
        idx = np.empty((n ** d, d), dtype=int)
        for k in range(d):
            step = (b[k, 1] - b[k, 0]) / max(1, n - 1)
            dd = np.abs(r[:, k][:, None] - ax[k][None])
            check(np.all(dd.min(1) <= 1e-9 * max(1e-300, np.abs(b[k]).max()) + 1e-9 * step), 'grid coordinate is not on the axis', got=r, **inp)
            idx[:, k] = dd.argmin(1)
        keep = [k for k in range(d) if b[k, 0] < b[k, 1]]
        cnt = {}
        for t in map(tuple, idx[:, keep]):
            cnt[t] = cnt.get(t, 0) + 1
        e = n ** (d - len(keep))
        check(len(cnt) == n ** len(keep) and set(cnt.values()) <= {e}, 'grid points are not the product once each', got=r, **inp)
        return 'grid'
    init = rng.rand() < 0.4
    f = m.get_initials if init else m.get_samples
    if rng.rand() < 0.5 and not init:
        r = guarded(lambda: f(meth, num_samples=n, seed=seed), 'get_samples', **inp)
    else:
        r = guarded(lambda: f(meth, n, seed=seed), 'get_initials' if init else 'get_samples', **inp)
    fz.check('get_samples')
    check(isinstance(r, np.ndarray) and r.shape == (n, d), 'design shape', got=np.shape(r), **inp)
    check(np.all(np.isfinite(r)), 'not finite', got=r, **inp)
    check(in_box(r, b), 'outside the box', got=r, **inp)
    return meth


