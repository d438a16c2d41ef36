"""one optimisation step: acquisition of the surrogate, candidates, choice, report"""
from .callers import *
from . import c16  # noqa: likelihood contracts

FIT = {'BOwGP': 'bayeso.gp.gp_kernel.get_optimized_kernel', 'BOwTP': 'bayeso.tp.tp_kernel.get_optimized_kernel'}
MOD = {'BOwGP': 'bo_w_gp', 'BOwTP': 'bo_w_tp', 'BOwTrees': 'bo_w_trees'}


def scale(c):
    return tonum(c.I.module('bayeso.constants').ns['MULTIPLIER_ACQ']).p


# ---------------------------------------------------------------- acquisition values under the surrogate
for _cls in ('BOwGP', 'BOwTP'):
    for _acq in ACQS:
        for _k, _ard, _pr, _flat in (('se', True, False, False), ('matern52', True, True, True), ('matern32', False, True, False), ('set_se', True, False, False)):
            @case('acq.%s.%s.%s.%s.%s' % (_cls, _acq, _k, 'prior' if _pr else 'zero', 'point' if _flat else 'points'), 'C03',
                  ACQ[_cls], use=USE, v=(_cls, _acq, _k, _ard, _pr, _flat))
            def _acqv(c, v):
                cls, acq, kern, ard, pr, flat = v
                tp = cls == 'BOwTP'
                I = c.I
                n, m, d = c.dim('n'), (T.ONE if flat else c.dim('m')), c.dim('d')
                isset = kern.startswith('set_')
                box = c.box(d)
                pf, prior = mk_prior(c, pr)
                bo = c.call('bayeso.bo.' + cls, box, str_cov=kern, str_acq=acq, use_ard=ard, prior_mu=pf)
                X = mk_data(c, 'X', n, d, isset, c.dim('q') if isset else None)
                if flat:
                    Xs = c.arr('Xs', (d,))
                    Xs2 = I.build((T.ONE, d), lambda ix: c.at(Xs, ix[1]), 'f')
                else:
                    Xs = Xs2 = mk_data(c, 'Xs', m, d, isset, c.dim('q2') if isset else None)
                Y = c.arr('Y', (n, T.ONE))
                Km, Ki = c.arr('Km', (n, n)), c.arr('Ki', (n, n))
                hy = mk_hyps(c, d, ard, tp)[0]
                h = I.ditems(hy)
                r = c.call(I.getattr(bo, 'compute_acquisitions'), Xs, X, Y, Km, Ki, hy)
                mean, cov, beta = conditional(c, kern, X, Y, Xs2, lambda a, b: c.at(Ki, a, b), h, prior)
                sc = T.ONE
                if tp:
                    nu = tonum(h['dof']).p
                    sc = (nu + beta - K(2)) / (nu + n - K(2))
                dev = lambda i: T.tsqrt(T.tmax(sc * cov(i, i), T.ZERO))
                best = c.min2(Y)
                c.arr_eq('scaled acquisition of the posterior', r, (m,),
                         lambda i: scale(c) * acq_formula(acq, mean(i), dev(i), best, n, tonum(h['noise']).p))


@summary('bayeso.trees.trees_common.predict_by_trees')
def _pbt(I, a):
    """forest prediction (C18): columns, row i depends on query i only"""
    X = a['X']
    need(I, isinstance(X, Arr) and len(I.shape(X)) == 2, 'AssertionError', 'X')
    n = I.shape(X)[0]
    row = lambda i: row_lam(I, X, i)
    mean = I.build((n, T.ONE), lambda ix: P(T.App('forestmean', (row(ix[0]),), 'R')), 'f')
    std = I.build((n, T.ONE), lambda ix: P(T.App('foreststd', (row(ix[0]),), 'R', '>=')), 'f')
    return mean, std


for _acq in ACQS:
    for _flat in (False, True):
        @case('acq.BOwTrees.%s.%s' % (_acq, 'point' if _flat else 'points'), 'C03', ACQ['BOwTrees'],
              use=('bayeso.trees.trees_common.predict_by_trees',), v=(_acq, _flat))
        def _acqt(c, v):
            acq, flat = v
            I = c.I
            n, m, d = c.dim('n'), (T.ONE if flat else c.dim('m')), c.dim('d')
            bo = c.call('bayeso.bo.BOwTrees', c.box(d), str_acq=acq)
            X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
            Xs = c.arr('Xs', (d,) if flat else (m, d))
            Xs2 = I.build((T.ONE, d), lambda ix: c.at(Xs, ix[1]), 'f') if flat else Xs
            r = c.call(I.getattr(bo, 'compute_acquisitions'), Xs, X, Y, c.list_([Opaque('tree')]))
            mu = lambda i: P(T.App('forestmean', (row_lam(I, Xs2, i),), 'R'))
            sd = lambda i: P(T.App('foreststd', (row_lam(I, Xs2, i),), 'R', '>='))
            noise = tonum(I.module('bayeso.constants').ns['GP_NOISE']).p
            c.arr_eq('scaled acquisition of the forest', r, (m,), lambda i: scale(c) * acq_formula(acq, mu(i), sd(i), c.min2(Y), n, noise))


# ---------------------------------------------------------------- the step
def step_variants():
    for cls in ('BOwGP', 'BOwTP'):
        for opt in ('L-BFGS-B', 'DIRECT', 'CMA-ES'):
            for meth in ('sobol', 'grid'):
                for norm in (True, False):
                    for mlm in (('regular', 'combined', 'converged') if cls == 'BOwGP' else (None,)):
                        yield cls, opt, meth, norm, mlm
    for meth in ('sobol', 'halton', 'uniform', 'gaussian', 'grid'):
        for norm in (True, False):
            yield 'BOwTrees', 'random_search', meth, norm, None


def report(c, cls, bo, box, X, Y, r, norm, skip=0):
    """the statement of C03 over the returned point and report"""
    I = c.I
    c.same('point and report', isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and isinstance(r[1], DictV))
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and isinstance(r[1], DictV)):
        return
    x, info = r[0], I.ditems(r[1])
    want = {'next_points', 'acquisitions', 'Y_original', 'Y_normalized', 'time_surrogate', 'time_acq', 'time_overall'}
    c.same('report entries', want <= set(info))
    if not want <= set(info):
        return
    n, d = I.shape(X)
    cand, acq = info['next_points'], info['acquisitions']
    if not (isinstance(cand, Arr) and len(I.shape(cand)) == 2):
        c.same('candidates are a matrix', False)
        return
    m = I.shape(cand)[0]
    c.eq('one column per dimension', I.shape(cand)[1], d)
    c.holds('at least one candidate', T.gt0(m))
    i, k = c.idx((m, d))
    c.holds('candidates inside the box', T.band(T.ge(c.at(cand, i, k), c.at(box, k, 0)), T.le(c.at(cand, i, k), c.at(box, k, 1))))
    # the surrogate reported
    fits = I.ghost.get('fits', ())[skip:]
    Yn = info['Y_normalized']
    c.arr_eq('original responses are those passed in', info['Y_original'], (n, T.ONE), lambda a, b: c.at(Y, a, b))
    yl = nrm_lam(I, Y) if norm else I.lam(Y)
    c.arr_eq('normalised responses', Yn, (n, T.ONE), lambda a, b: T.lam_open(yl, [a, b]))
    if fits:
        c.same('fitted to the inputs', all(f[1] is I.lam(X) for f in fits))
        c.same('fitted to the reported normalised responses', all(f[2] is yl for f in fits))
    if cls == 'BOwTrees':
        c.same('reported trees', isinstance(info.get('trees'), ListV) and info['trees'].cell in I.ghost.get('tree_ids', {}))
        if not isinstance(info.get('trees'), ListV) or info['trees'].cell not in I.ghost.get('tree_ids', {}):
            return
        model = I.ghost['tree_ids'][info['trees'].cell]
    else:
        c.same('reported surrogate', all(q in info for q in ('cov_X_X', 'inv_cov_X_X', 'hyps')))
        if not all(q in info for q in ('cov_X_X', 'inv_cov_X_X', 'hyps')):
            return
        model = (info['inv_cov_X_X'], info['hyps'])
        lam = train_lam(c, I.getattr(bo, 'str_cov'), X, info['hyps'])
        c.arr_eq('reported covariance belongs to the reported hyperparameters', info['cov_X_X'], (n, n), lambda a, b: T.lam_open(lam, [a, b]))
        c.arr_eq('reported inverse is its inverse', info['inv_cov_X_X'], (n, n), lambda a, b: nplib.inv_term(lam, a, b))
    score = lambda a: -acq_term(I, bo, row_lam(I, cand, a), I.lam(X), yl, model)
    c.arr_eq('scores: minus the scaled acquisition of each candidate', acq, (m,), score)
    u = T.fresh('k', 'I', '>=', m)
    best = nplib.argmin_term(u, m, score(P(u) if m is not T.ONE else T.ZERO))
    c.arr_eq('the returned point is the best candidate', x, (d,), lambda k: c.at(cand, best, k))
    c.holds('lemma: no candidate scores better', T.ge(score(i), score(best)))


for _v in step_variants():
    _cls = _v[0]

    @case('step.%s.%s.%s.%s.%s' % (_v[0], _v[1], _v[2], 'norm' if _v[3] else 'raw', _v[4] or '-'), 'C03',
          'bayeso.bo.%s.%s.optimize' % (MOD[_cls], _cls),
          use=USE + DESIGN + (ACQ[_cls], NORM) + ((TREES,) if _cls == 'BOwTrees' else (FIT[_cls], 'bayeso.gp.gp_likelihood.neg_log_ml')),
          libs={'installed': ('scipydirect',)}, v=_v)
    def _step(c, v):
        cls, opt, meth, norm, mlm = v
        I = c.I
        n, q = c.dim('n'), c.dim('q')
        d = c.dim('d', lo=2)      # one dimension: see step1
        _run(c, cls, opt, meth, norm, mlm, n, d, q)


def some_history(c, bo, d):
    """the object has been used before: any number of earlier hyperparameter sets"""
    I = c.I
    try:
        h = I.getattr(bo, 'historical_hyps')
    except PyExc:
        return
    if not isinstance(h, ListV) or I.items(h):
        return
    L = c.dim('steps_before', lo=0)
    v, u = T.fresh('e', 'I', '>=', L), T.fresh('u', 'I', '>=', d)
    num = lambda w: Num(P(T.App('earlier_' + w, (P(v),), 'R', '>')), 'npfloat')
    ls = FArr(T.mklam([u], [d], P(T.App('earlier_ls', (P(v), P(u)), 'R', '>'))), 'f')
    I.heap[h.cell] = I.heap[I.new_list([Seg(L, v, FDict({'noise': num('noise'), 'signal': num('signal'), 'lengthscales': ls}))]).cell]


def _run(c, cls, opt, meth, norm, mlm, n, d, q, again=False):
    I = c.I
    box = c.box(d)
    X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
    pf = mk_prior(c, True)[0]
    kw = {} if cls == 'BOwTrees' else {'str_cov': 'matern52', 'prior_mu': pf}
    bo = c.call('bayeso.bo.' + cls, box, normalize_Y=norm, str_optimizer_method_bo=opt, str_acq='ei', **kw)
    kw = {} if mlm is None else {'str_mlm_method': mlm}
    if mlm != 'converged':
        some_history(c, bo, d)
    skip = 0
    if again:
        # an earlier step of the same object on other data must not show
        n0 = c.dim('n0')
        try:
            c.call(I.getattr(bo, 'optimize'), c.arr('X0', (n0, d)), c.arr('Y0', (n0, T.ONE)), str_sampling_method=meth, num_samples=c.num(c.dim('q0')), **kw)
        except PyExc:
            pass      # an earlier step that failed, too
        skip = len(I.ghost.get('fits', ()))
    r = c.call(I.getattr(bo, 'optimize'), X, Y, str_sampling_method=meth, num_samples=c.num(q), seed=c.num(P(T.Var('seed', 'I', '>='))), **kw)
    report(c, cls, bo, box, X, Y, r, norm and mlm != 'converged', skip)


for _cls in ('BOwGP', 'BOwTP', 'BOwTrees'):
    @case('step1.%s' % _cls, 'C03', 'bayeso.bo.%s.%s.optimize' % (MOD[_cls], _cls),
          use=USE + DESIGN + (ACQ[_cls], NORM) + ((TREES,) if _cls == 'BOwTrees' else (FIT[_cls],)), v=_cls)
    def _step1(c, v):
        _run(c, v, 'random_search' if v == 'BOwTrees' else 'L-BFGS-B', 'sobol', True, None, c.dim('n'), T.ONE, c.dim('q'))


for _cls in ('BOwGP', 'BOwTP', 'BOwTrees'):
    for _norm in (True, False):
        @case('again.%s.%s' % (_cls, 'norm' if _norm else 'raw'), 'C03', 'bayeso.bo.%s.%s.optimize' % (MOD[_cls], _cls),
              use=USE + DESIGN + (ACQ[_cls], NORM) + ((TREES,) if _cls == 'BOwTrees' else (FIT[_cls],)), v=(_cls, _norm))
        def _again(c, v):
            _run(c, v[0], 'random_search' if v[0] == 'BOwTrees' else 'L-BFGS-B', 'uniform', v[1], None, c.dim('n'), c.dim('d', lo=2), c.dim('q'), again=True)
