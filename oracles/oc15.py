from ocommon import *
from oref import *
from bayeso.utils import utils_covariance as uc
from bayeso import constants as CN

ALL = BASE + ['set_' + b for b in BASE]


def same(a, b):
    return isinstance(b, np.ndarray) == isinstance(a, np.ndarray) and np.array_equal(a, b)


def trial(rng, i):
    name = ALL[i % 8]
    gp = bool((i // 8) % 2)
    ard = bool((i // 16) % 2)
    fix = bool((i // 32) % 2)
    d = int(rng.choice([1, 2, 3, 5, 8]))
    h = hyps(rng, d, ard=ard, tp=not gp, noise=float(rng.uniform(0.001, 3)), signed=True)
    inp = dict(kernel=name, hyps=h, use_gp=gp, use_ard=ard, fix_noise=fix, dim=d)
    fz = Frozen(h=h)
    v = guarded(lambda: uc.convert_hyps(name, h, use_gp=gp, fix_noise=fix), 'convert_hyps', **inp)
    fz.check('convert_hyps')
    ref = vec(h, tp=not gp, fix=fix)
    check(isinstance(v, np.ndarray) and v.shape == ref.shape and np.array_equal(v, ref), 'slots of the vector', got=v, expected=ref, **inp)
    f2 = Frozen(v=v)
    kw = {'noise': h['noise']} if fix and rng.rand() < 0.7 else {}
    r = guarded(lambda: uc.restore_hyps(name, v, use_gp=gp, use_ard=ard, fix_noise=fix, **kw), 'restore_hyps', **inp)
    f2.check('restore_hyps')
    exp = dict(h)
    if fix and not kw:
        exp['noise'] = 0.01
    check(set(r) == set(exp), 'entries', got=sorted(r), **inp)
    for k in exp:
        check(same(r[k], exp[k]), 'entry %s does not survive' % k, got=r, **inp)
    v2 = guarded(lambda: uc.convert_hyps(name, r, use_gp=gp, fix_noise=fix), 'convert_hyps', **inp)
    check(np.array_equal(v, v2), 'vector does not survive', got=v2, expected=v, **inp)
    df = guarded(lambda: uc.get_hyps(name, d, use_gp=gp, use_ard=ard), 'get_hyps', **inp)
    check(set(df) == set(exp), 'default entries', got=df, **inp)
    check((np.shape(df['lengthscales']) == (d,)) if ard else np.ndim(df['lengthscales']) == 0, 'default lengthscales', got=df, **inp)
    dv = uc.convert_hyps(name, df, use_gp=gp, fix_noise=fix)
    rg = np.array(guarded(lambda: uc.get_range_hyps(name, d, use_gp=gp, use_ard=ard, fix_noise=fix), 'get_range_hyps', **inp))
    check(dv.shape == v.shape and rg.shape == (len(v), 2), 'lengths of defaults and ranges', got=(dv, rg), **inp)
    check(np.all(rg[:, 0] <= dv) and np.all(dv <= rg[:, 1]), 'defaults outside the ranges', got=(dv, rg), **inp)
    er = ([] if fix else CN.RANGE_NOISE) + ([] if gp else CN.RANGE_DOF) + CN.RANGE_SIGNAL + CN.RANGE_LENGTHSCALES * (d if ard else 1)
    check(np.array_equal(rg, np.array(er)), 'search ranges', got=rg, **inp)
    # validation
    w = _copy_h(h)
    k = rng.randint(5)
    if not gp and k == 0:
        w['dof'] = float(rng.choice([2.0, 1.5, 0.1, -3.0]))
        r = guarded(lambda: uc.validate_hyps_dict(w, name, d, use_gp=gp), 'validate_hyps_dict', **inp)
        check(2.0 < r['dof'] <= 2.0001, 'degrees of freedom not raised just above two', got=r, **inp)
        check(all(same(r[x], h[x]) for x in h if x != 'dof'), 'validation changed an entry', got=r, **inp)
        return 'dof'
    if k == 1:
        miss = ['noise', 'signal', 'lengthscales'] + ([] if gp else ['dof'])
        x = miss[rng.randint(len(miss))]
        del w[x]
        try:
            uc.validate_hyps_dict(w, name, d, use_gp=gp)
        except ValueError:
            return 'missing'
        raise Fail('accepted a dictionary without %s' % x, **inp)
    if k == 2 and ard:
        w['lengthscales'] = np.ones(d + int(rng.choice([-1, 1, 3]))) if d > 1 else np.ones(d + 1)
        try:
            uc.validate_hyps_dict(w, name, d, use_gp=gp)
        except ValueError:
            return 'length'
        raise Fail('accepted lengthscales of the wrong length', got=w, **inp)
    r = guarded(lambda: uc.validate_hyps_dict(w, name, d, use_gp=gp), 'validate_hyps_dict', **inp)
    check(set(r) == set(h) and all(same(r[x], h[x]) for x in h), 'validation changed a well-formed dictionary', got=r, **inp)
    return 'valid'


def _copy_h(h):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in h.items()}
