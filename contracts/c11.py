from .pred import *

for _tp in (False, True):
    _PID = 'C12' if _tp else 'C11'
    _M = 'bayeso.tp.tp.' if _tp else 'bayeso.gp.gp.'
    _t = 'tp' if _tp else 'gp'
    for _k in ALL:
        for _ard in (True, False):
            for _pr in (False, True):
                _id = '%s.%s.%s' % (_k, 'ard' if _ard else 'shared', 'prior' if _pr else 'zero')

                @case('%s.predict_with_cov.%s' % (_t, _id), _PID, _M + 'predict_with_cov', use=USE, v=(_tp, _M, _k, _ard, _pr))
                def _cov(c, v):
                    tp, M, kern, ard, pr = v
                    n, m, d = c.dim('n'), c.dim('m'), c.dim('d')
                    isset = kern.startswith('set_')
                    q = c.dim('q') if isset else None
                    q2 = c.dim('q2') if isset else None
                    X, Xs = mk_data(c, 'X', n, d, isset, q), mk_data(c, 'Xs', m, d, isset, q2)
                    Y = c.arr('Y', (n, T.ONE))
                    Km, Ki = c.arr('Km', (n, n)), c.arr('Ki', (n, n))
                    hy = mk_hyps(c, d, ard, tp)[0]
                    pf, prior = mk_prior(c, pr)
                    r = c.call(M + 'predict_with_cov', X, Y, Xs, Km, Ki, hy, str_cov=kern, prior_mu=pf)
                    check_pred(c, r, kern, X, Y, Xs, lambda a, b: c.at(Ki, a, b), c.I.ditems(hy), prior, tp)

                @case('%s.predict_with_hyps.%s' % (_t, _id), _PID, _M + 'predict_with_hyps', use=USE, v=(_tp, _M, _k, _ard, _pr))
                def _hy(c, v):
                    tp, M, kern, ard, pr = v
                    n, m, d = c.dim('n'), c.dim('m'), c.dim('d')
                    isset = kern.startswith('set_')
                    X = mk_data(c, 'X', n, d, isset, c.dim('q') if isset else None)
                    Xs = mk_data(c, 'Xs', m, d, isset, c.dim('q2') if isset else None)
                    Y = c.arr('Y', (n, T.ONE))
                    hy = mk_hyps(c, d, ard, tp)[0]
                    pf, prior = mk_prior(c, pr)
                    lam = train_lam(c, kern, X, hy)
                    c.assume(T.bapp('invertible', (lam,)))
                    r = c.call(M + 'predict_with_hyps', X, Y, Xs, hy, str_cov=kern, prior_mu=pf)
                    check_pred(c, r, kern, X, Y, Xs, lambda a, b: nplib.inv_term(lam, a, b), c.I.ditems(hy), prior, tp)

    for _k in ('se', 'matern52', 'set_matern32'):
        for _pr in (False, True):
            for _opt in ('L-BFGS-B', 'SLSQP'):
                for _fix in (True, False):
                    @case('%s.predict_with_optimized_hyps.%s.%s.%s.%s' % (_t, _k, 'prior' if _pr else 'zero', _opt, 'fixed' if _fix else 'free'), _PID,
                          _M + 'predict_with_optimized_hyps',
                          use=USE + (('bayeso.%s.%s_kernel.get_optimized_kernel' % (_t, _t)),), v=(_tp, _M, _k, _pr, _opt, _fix))
                    def _op(c, v):
                        tp, M, kern, pr, opt, fix = v
                        n, m, d = c.dim('n'), c.dim('m'), c.dim('d')
                        isset = kern.startswith('set_')
                        X = mk_data(c, 'X', n, d, isset, c.dim('q') if isset else None)
                        Xs = mk_data(c, 'Xs', m, d, isset, c.dim('q2') if isset else None)
                        Y = c.arr('Y', (n, T.ONE))
                        pf, prior = mk_prior(c, pr)
                        r = c.call(M + 'predict_with_optimized_hyps', X, Y, Xs, str_cov=kern, str_optimizer_method=opt, prior_mu=pf, fix_noise=fix)
                        fits = c.I.ghost.get('fits', ())
                        c.same('fitted once', len(fits) == 1)
                        if len(fits) != 1:
                            return
                        a, lx, ly = fits[0]
                        c.same('fit on the training inputs', lx is c.I.lam(X))
                        c.same('fit on the training responses', ly is c.I.lam(Y))
                        c.same('fit with the given prior mean', a['prior_mu'] is pf)
                        c.same('fit with the given kernel', a['str_cov'] == kern)
                        c.same('fit with the given optimiser', a['str_optimizer_method'] == opt)
                        c.same('fit with the given noise option', a['fix_noise'] is fix)
                        h = c.I.ditems(fitted_hyps(c.I, bool(a['use_ard']), d, tp))
                        hy = c.I.new_dict(h)
                        lam = train_lam(c, kern, X, hy)
                        check_pred(c, r, kern, X, Y, Xs, lambda p, q: nplib.inv_term(lam, p, q), h, prior, tp)


for _pr in (False, True):
    for _nd in (2, 3):
        @case('get_prior_mu.%s.%d' % ('prior' if _pr else 'zero', _nd), 'C11 C12', 'bayeso.utils.utils_gp.get_prior_mu', pr=_pr, nd=_nd)
        def _gp(c, pr, nd):
            n, d = c.dim('n'), c.dim('d')
            X = c.arr('X', (n, c.dim('q'), d) if nd == 3 else (n, d))
            pf, prior = mk_prior(c, pr)
            r = c.call('bayeso.utils.utils_gp.get_prior_mu', pf, X)
            c.arr_eq('prior mean', r, (n, T.ONE), lambda i, j: prior(X, i))
