from ocommon import *
from oref import *
from bayeso import bo
from oc01 import model


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].copy(), s[2], s[3], s[4])


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def trial(rng, i):
    d = int(rng.choice([1, 2, 3, 5]))
    b = box(rng, d)
    meth = ['uniform', 'gaussian', 'sobol', 'halton', 'grid'][i % 5]
    n = size(rng, [1, 2, 3, 4, 8, 17, 40, 130], 1100)
    if meth == 'grid':
        n = min(n, 4)
    seed = int(rng.choice([0, 0, 1, 2, 42, 777, 2 ** 20, 2 ** 31 - 1]))
    inp = dict(box=b, method=meth, n=n, seed=seed)
    m, mn = model(rng, b)
    m2, mn2 = model(rng, b)
    inp.update(models=(mn, mn2))
    init = meth != 'grid' and rng.rand() < 0.5

    def draw(o, s):
        k = 'get_initials' if init else 'get_samples'
        return guarded(lambda: getattr(o, k)(meth, n, seed=s), k, **inp)
    np.random.seed(int(rng.randint(10 ** 6)))
    g0 = gstate()
    r1 = draw(m, seed)
    check(same_state(g0, gstate()), 'seeded draw advanced the global random state', **inp)
    # the caller owns what was drawn: writing into it changes no later draw
    keep = r1.copy()
    if r1.flags.writeable:
        r1[:] = 1e9
    r1 = keep
    # another box, drawn from before and after with the same seed
    b3 = box(rng, d)
    m3, _ = model(rng, b3)
    q1 = draw(m3, seed).copy()
    # history in between
    for _ in range(rng.randint(3)):
        m.get_samples(['uniform', 'gaussian', 'sobol', 'halton'][rng.randint(4)], int(rng.randint(1, 6)), seed=[None, 3, seed][rng.randint(3)])
    np.random.seed(int(rng.randint(10 ** 6)))
    np.random.rand(int(rng.randint(4)))
    r2 = draw(m, seed)
    r3 = draw(m2, seed)
    check(np.array_equal(q1, draw(m3, seed)), 'same seed, other box: different points', **inp)
    if meth != 'grid' and np.all(b[:, 0] < b[:, 1]):
        u, u3 = (r1 - b[:, 0]) / (b[:, 1] - b[:, 0]), (q1 - b3[:, 0]) / (b3[:, 1] - b3[:, 0])
        check(np.all(u3 > -1e-6) and np.all(u3 < 1 + 1e-6), 'drawn from another box', got=q1, box3=b3, **inp)
    check(np.array_equal(r1, r2), 'same seed, same object: different points', first=r1, second=r2, **inp)
    check(np.array_equal(r1, r3), 'same seed, other object: different points', first=r1, second=r3, **inp)
    if meth != 'grid':
        other = seed + 1 if seed < 2 ** 31 - 1 else seed - 1
        r4 = draw(m, other)
        check(not np.array_equal(r1, r4), 'another seed gave the same points', got=r4, **inp)
        # unseeded draws
        np.random.seed(5)
        g0 = gstate()
        u1 = draw(m, None)
        check(same_state(g0, gstate()), 'unseeded draw advanced the global random state', **inp)
        np.random.seed(5)
        u2 = draw(m, None)
        np.random.seed(5)
        u3 = draw(m2, None)
        check(not np.array_equal(u1, u2) or not np.array_equal(u1, u3), 'unseeded draws follow the global random state', got=u1, **inp)
        check(not np.array_equal(u1, r1) or not np.array_equal(u2, r1), 'unseeded draws equal the seeded ones', got=u1, **inp)
    else:
        np.random.seed(5)
        g0 = gstate()
        draw(m, None)
        check(same_state(g0, gstate()), 'grid draw advanced the global random state', **inp)
    return meth
