"""fitting: what is minimised, from where, within what, and what is returned"""
from .pred import *

G = 'bayeso.gp.gp_kernel.get_optimized_kernel'
TPK = 'bayeso.tp.tp_kernel.get_optimized_kernel'
LIK = ('bayeso.gp.gp_likelihood.neg_log_ml', 'bayeso.gp.gp_likelihood.neg_log_pseudo_l_loocv', 'bayeso.tp.tp_likelihood.neg_log_ml')


def vec_len(I, kern, X, ard, tp, fix):
    d = I.shape(X)[-1]
    return K(1 + (0 if fix else 1) + (1 if tp else 0)) + (d if ard else T.ONE)


def lik_term(I, which, kern, X, Y, w, M, ard, fix):
    """callers' view of the objectives specified in C13 / C14"""
    return P(T.App('objective:%s:%s:%s:%s' % (which, canon(kern), bool(ard), bool(fix)), (I.lam(X), I.lam(Y), I.lam(w), I.lam(M)), 'R'))


def lik_summary(which):
    tp = which == 'tp'

    def s(I, a):
        X, Y, w, M, kern = a['X_train'], a['Y_train'], a['hyps'], a['prior_mu_train'], a['str_cov']
        ard, fix = a['use_ard'], a['fix_noise']
        grad = bool(a.get('use_gradient', False)) if which != 'loocv' else False
        need(I, all(isinstance(x, Arr) for x in (X, Y, w, M)), 'AssertionError', 'types')
        need(I, isinstance(kern, str) and kern in ALL, 'ValueError', 'str_cov')
        nd = 3 if kern.startswith('set_') else 2
        sx = I.shape(X)
        need(I, len(sx) == nd and len(I.shape(Y)) == 2 and len(I.shape(M)) == 2 and len(I.shape(w)) == 1, 'AssertionError', 'dims')
        need(I, T.eq(sx[0], I.shape(Y)[0]), 'AssertionError', 'rows')
        need(I, T.eq(sx[0], I.shape(M)[0]), 'AssertionError', 'rows')
        n = vec_len(I, kern, X, ard, tp, fix)
        need(I, T.eq(I.shape(w)[0], n), 'ValueError', 'length of the hyperparameter vector')
        v = Num(lik_term(I, which, kern, X, Y, w, M, ard, fix), 'npfloat')
        I.ghost['likcalls'] = I.ghost.get('likcalls', ()) + ((v.p, I.lam(w), ('objective:%s:%s:%s:%s' % (which, canon(kern), bool(ard), bool(fix)), I.lam(X), I.lam(Y), I.lam(M))),)
        if not grad:
            return v
        need(I, nd == 2, 'ValueError', 'no gradients for sets')
        lams = (I.lam(X), I.lam(Y), I.lam(w), I.lam(M))
        nm = 'objgrad:%s:%s:%s:%s' % (which, canon(kern), bool(ard), bool(fix))
        return (v, I.build((n,), lambda ix: P(T.App(nm, lams + (ix[0],), 'R')), 'f'))
    return s


for _q, _w in zip(LIK, ('ml', 'loocv', 'tp')):
    SUMMARIES[_q] = lik_summary(_w)


def defaults(c, d, ard, tp, fix):
    """default vector and its ranges, in the slot order of C15"""
    C = c.I.module('bayeso.constants').ns
    pre = ([] if fix else [('GP_NOISE', 'RANGE_NOISE')]) + ([(5.0, 'RANGE_DOF')] if tp else []) + [(1.0, 'RANGE_SIGNAL')]
    val = [tonum(C[a] if isinstance(a, str) else a).p for a, b in pre] + [tonum(1.0).p]
    rng = [nplib.arrof(c.I, C[b]) for a, b in pre] + [nplib.arrof(c.I, C['RANGE_LENGTHSCALES'])]
    n = K(len(pre)) + (d if ard else T.ONE)

    def slot(i, f):
        r = T.ind(T.ge(i, K(len(pre)))) * f(len(pre))
        for k in range(len(pre)):
            r = r + T.ind(T.eq(i, K(k))) * f(k)
        return r
    return n, lambda i: slot(i, lambda k: val[k]), lambda i, col: slot(i, lambda k: c.at(rng[k], 0, col))


def variants():
    for k in ('se', 'matern32', 'matern52', 'set_se', 'set_matern52'):
        for ard in (True, False):
            for fix in (True, False):
                for ms in ('ml', 'loocv'):
                    for o in ('BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'):
                        yield k, ard, fix, ms, o
                for o in ('L-BFGS-B', 'SLSQP'):
                    yield k, ard, fix, 'tp', o


for _n, _v in enumerate(variants()):
    @case('fit.%s.%s.%s.%s.%s' % (_v[0], 'ard' if _v[1] else 'shared', 'fixed' if _v[2] else 'free', _v[3], _v[4]), 'C16',
          TPK if _v[3] == 'tp' else G, use=USE + LIK, v=_v, prior_on=bool((_n // 3) % 2))
    def _fit(c, v, prior_on):
        kern, ard, fix, ms, opt = v
        tp = ms == 'tp'
        I = c.I
        n, d = c.dim('n'), c.dim('d')
        isset = kern.startswith('set_')
        X = mk_data(c, 'X', n, d, isset, c.dim('q') if isset else None)
        Y = c.arr('Y', (n, T.ONE))
        pf, prior = mk_prior(c, prior_on)
        I.ghost['optlog'] = I.new_list([])
        kw = {} if tp else {'str_modelselection_method': ms}
        try:
            r = c.call(TPK if tp else G, X, Y, pf, kern, str_optimizer_method=opt, use_ard=ard, fix_noise=fix, **kw)
        except PyExc as e:
            sing = any(f.kind == 'not' and f.args[0].kind == 'bapp' and f.args[0].name == 'invertible' for f in I.facts)
            c.same('fails only on a singular covariance (%s: %s)' % (e.name, e.msg), e.name == 'LinAlgError' and sing)
            return
        log = [dict(x) for x in I.items(I.ghost['optlog'])]
        c.same('one minimisation', len(log) == 1)
        if len(log) != 1:
            return
        log = {k: I.thaw(x) for k, x in log[0].items()}
        N, dv, rg = defaults(c, d, ard, tp, fix)
        c.same('minimiser', log['name'] == 'minimize')
        c.same('method', log['method'] == ('SLSQP' if opt == 'SLSQP-Bounded' else opt))
        c.arr_eq('start is the default vector', log['x0'], (N,), dv)
        bounded = tp or opt in ('L-BFGS-B', 'SLSQP-Bounded')
        c.same('bounds given', (log['bounds'] is not None) == bounded)
        if bounded and log['bounds'] is not None:
            c.arr_eq('bounds are the ranges', log['bounds'], (N, K(2)), lambda i, j: T.ite(T.eq(j, T.ZERO), rg(i, 0), rg(i, 1)))
        val = log['val']
        hasg = isinstance(val, tuple)
        c.same('gradient announced exactly when returned', bool(log['jac']) == hasg)
        M = I.build((n, T.ONE), lambda ix: prior(X, ix[0]), 'f')
        w = log['probe']
        if hasg:
            nm = 'objgrad:%s:%s:%s:%s' % (ms, canon(kern), ard, fix)
            lams = (I.lam(X), I.lam(Y), I.lam(w), I.lam(M))
            c.arr_eq('gradient of that objective', val[1], (N,), lambda i: P(T.App(nm, lams + (i,), 'R')))
            val = val[0]
        c.eq('objective is the selected likelihood', val, lik_term(I, ms, kern, X, Y, w, M, ard, fix))
        # the result
        c.same('triple', isinstance(r, tuple) and len(r) == 3)
        hy = r[2]
        c.same('hyperparameter dictionary', isinstance(hy, DictV))
        if not isinstance(hy, DictV):
            return
        x = log['x']
        h = I.ditems(hy)
        pre = (0 if fix else 1) + (1 if tp else 0)
        c.same('keys', set(h) == {'noise', 'signal', 'lengthscales'} | ({'dof'} if tp else set()))
        c.eq('noise', h['noise'], I.module('bayeso.constants').ns['GP_NOISE'] if fix else c.at(x, 0))
        if tp:
            c.eq('dof', h['dof'], c.at(x, pre - 1))
        c.eq('signal', h['signal'], c.at(x, pre))
        if ard:
            c.arr_eq('lengthscales', h['lengthscales'], (d,), lambda k: c.at(x, k + K(pre + 1)))
        else:
            c.same('lengthscale is a number', not isinstance(h['lengthscales'], Arr))
            if not isinstance(h['lengthscales'], Arr):
                c.eq('lengthscales', h['lengthscales'], c.at(x, pre + 1))
        lam = train_lam(c, kern, X, hy)
        c.arr_eq('covariance', r[0], (n, n), lambda i, j: T.lam_open(lam, [i, j]))
        c.arr_eq('inverse', r[1], (n, n), lambda i, j: nplib.inv_term(lam, i, j))
