"""hyperparameter reuse, history and the combined mode"""
from .callers import *
from . import c16, c03  # noqa

FIT = c03.FIT
GP, TP = 'bayeso.bo.bo_w_gp.BOwGP.optimize', 'bayeso.bo.bo_w_tp.BOwTP.optimize'
STEP = USE + DESIGN + (NORM, c16.LIK[0])
for _c in ('BOwGP', 'BOwTP'):
    STEP += (ACQ[_c], FIT[_c])


def vec(c, h, ard, d, fix):
    """fitted vector: squared norm of a difference / of itself"""
    I = c.I

    def sq(f):
        s = f(tonum(h['signal']).p, 'signal')
        if not fix:
            s = s + f(tonum(h['noise']).p, 'noise')
        if ard:
            return s + c.sum1(d, lambda k: f(c.at(h['lengthscales'], k), ('ls', k)))
        return s + f(tonum(h['lengthscales']).p, 'ls')
    return sq


def converged(c, new, old, ard, d, fix):
    def g(name):
        if isinstance(name, tuple):
            return c.at(old['lengthscales'], name[1])
        return tonum(old['lengthscales' if name == 'ls' else name]).p
    diff = vec(c, new, ard, d, fix)(lambda v, name: (v - g(name)) ** 2)
    base = vec(c, old, ard, d, fix)(lambda v, name: v ** 2)
    return T.lt(T.tsqrt(diff), P(0.05) * T.tsqrt(base))


def hyps_same(c, name, h, g, d):
    I = c.I
    if not isinstance(h, DictV):
        c.same(name + ': a dictionary', False)
        return
    h = I.ditems(h)
    c.same(name + ': keys', set(h) == set(g))
    if set(h) != set(g):
        return
    for q in sorted(g):
        if isinstance(g[q], Arr):
            c.arr_eq('%s: %s' % (name, q), h[q], (d,), lambda k: c.at(g[q], k))
        else:
            c.eq('%s: %s' % (name, q), h[q], g[q])


def report_of(c, r):
    ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], DictV)
    c.same('point and report', ok)
    return c.I.ditems(r[1]) if ok else None


def step(c, bo, X, Y, **kw):
    I = c.I
    try:
        return c.call(I.getattr(bo, 'optimize'), X, Y, **kw)
    except PyExc as e:
        sing = any(f.kind == 'not' and f.args[0].kind == 'bapp' and f.args[0].name == 'invertible' for f in I.facts)
        c.same('fails only on a singular covariance (%s: %s)' % (e.name, e.msg), e.name == 'LinAlgError' and sing)
        return None


def reuse(c, kern, ard, steps, norm):
    I = c.I
    d, q = c.dim('d'), c.dim('q')
    fix = bool(I.module('bayeso.constants').ns['FIX_GP_NOISE'])
    bo = c.call('bayeso.bo.BOwGP', c.box(d), str_cov=kern, use_ard=ard, normalize_Y=norm, str_acq='ei')
    fits = []          # hyperparameters of the fits so far
    for s in range(steps):
        n = c.dim('n%d' % s)
        X, Y = c.arr('X%d' % s, (n, d)), c.arr('Y%d' % s, (n, T.ONE))
        before = len(I.ghost.get('fits', ()))
        hist = len(I.items(I.getattr(bo, 'historical_hyps')))
        r = step(c, bo, X, Y, num_samples=c.num(q), str_mlm_method='converged')
        if r is None:
            return
        info = report_of(c, r)
        log = I.ghost.get('fits', ())[before:]
        c.same('step %d: at most one fit' % s, len(log) <= 1)
        conv = T.FALSE if len(fits) < 2 else converged(c, fits[-1], fits[-2], ard, d, fix)
        if log:
            c.holds('step %d: refitted only before convergence' % s, T.bnot(conv))
            c.same('step %d: fitted to the current raw data' % s, log[0][1] is I.lam(X) and log[0][2] is I.lam(Y))
            hy = fitted_hyps(I, ard, d, False, 'fit' if before == 0 else 'fit%d' % before)
            fits.append(I.ditems(hy))
        else:
            c.holds('step %d: reused only after convergence' % s, conv)
            if len(fits) < 2:
                return
        if info is None or not {'hyps', 'cov_X_X', 'inv_cov_X_X', 'Y_normalized'} <= set(info):
            c.same('reported surrogate', False)
            return
        hyps_same(c, 'step %d: the last fitted hyperparameters are used' % s, info['hyps'], fits[-1], d)
        c.arr_eq('step %d: raw responses' % s, info['Y_normalized'], (n, T.ONE), lambda a, b: c.at(Y, a, b))
        lam = train_lam(c, kern, X, info['hyps'])
        c.arr_eq('step %d: covariance on the current data' % s, info['cov_X_X'], (n, n), lambda a, b: T.lam_open(lam, [a, b]))
        c.arr_eq('step %d: inverse on the current data' % s, info['inv_cov_X_X'], (n, n), lambda a, b: nplib.inv_term(lam, a, b))
        h = I.items(I.getattr(bo, 'historical_hyps'))
        c.same('step %d: one entry appended' % s, len(h) == hist + 1)
        if len(h) == hist + 1:
            hyps_same(c, 'step %d: appended hyperparameters' % s, h[-1], fits[-1], d)


for _kern, _ard, _norm in (('se', True, True), ('matern52', False, True), ('matern32', True, False), ('matern52', True, True)):
    @case('reuse.%s.%s.%s' % (_kern, 'ard' if _ard else 'shared', 'norm' if _norm else 'raw'), 'C22', GP, use=STEP, once=True, timeout=250, v=(_kern, _ard, _norm))
    def _reuse(c, v):
        reuse(c, v[0], v[1], 4 if v[0] == 'se' else 3, v[2])


for _kern, _ard in (('se', True), ('matern52', False)):
    for _flag in (True, False):
        @case('state.%s.%s.%s' % (_kern, 'ard' if _ard else 'shared', 'searching' if _flag else 'converged'), 'C22', GP, use=STEP, once=True, v=(_kern, _ard, _flag))
        def _state(c, v):
            """any reachable state: some earlier entries, then the last fit"""
            kern, ard, flag = v
            I = c.I
            d, q, n = c.dim('d'), c.dim('q'), c.dim('n')
            fix = bool(I.module('bayeso.constants').ns['FIX_GP_NOISE'])
            bo = c.call('bayeso.bo.BOwGP', c.box(d), str_cov=kern, use_ard=ard, str_acq='ei')
            try:
                have = isinstance(I.getattr(bo, 'is_optimize_hyps'), bool) and isinstance(I.getattr(bo, 'historical_hyps'), ListV)
            except PyExc:
                have = False
            if not have:
                raise Unsupported('state kept elsewhere')
            old = fitted_hyps(I, ard, d, False, 'earlier')
            olddict = I.ditems(old)
            hist = I.getattr(bo, 'historical_hyps')
            if not flag:
                I.call(I.getattr(hist, 'append'), [fitted_hyps(I, ard, d, False, 'before')], {})
            I.call(I.getattr(hist, 'append'), [old], {})
            I.setattr(bo, 'is_optimize_hyps', flag)
            X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
            before = len(I.items(hist))
            r = step(c, bo, X, Y, num_samples=c.num(q), str_mlm_method='converged')
            if r is None:
                return
            info = report_of(c, r)
            fits = I.ghost.get('fits', ())
            c.same('refits exactly while searching', len(fits) == (1 if flag else 0))
            if info is None or len(fits) != (1 if flag else 0):
                return
            cur = I.ditems(fitted_hyps(I, ard, d, False)) if flag else olddict
            hyps_same(c, 'used', info['hyps'], cur, d)
            h = I.items(I.getattr(bo, 'historical_hyps'))
            c.same('one entry appended', len(h) == before + 1)
            if len(h) == before + 1:
                hyps_same(c, 'appended', h[-1], cur, d)
            now = I.getattr(bo, 'is_optimize_hyps')
            conv = converged(c, cur, olddict, ard, d, fix) if flag else T.TRUE
            now = I.np.truth(I, now) if not isinstance(now, (bool, BoolV)) else tobool_term(now)
            c.holds('stops searching exactly on convergence', T.band(T.bor(now, conv), T.bor(T.bnot(now), T.bnot(conv))))


for _cls in ('BOwGP', 'BOwTP'):
    for _norm in (True, False):
        @case('history.%s.%s' % (_cls, 'norm' if _norm else 'raw'), 'C22', GP if _cls == 'BOwGP' else TP, use=STEP, once=True, v=(_cls, _norm))
        def _hist(c, v):
            cls, norm = v
            I = c.I
            d, q = c.dim('d'), c.dim('q')
            bo = c.call('bayeso.bo.' + cls, c.box(d), normalize_Y=norm, str_acq='ei')
            for s in range(2):
                n = c.dim('n%d' % s)
                X, Y = c.arr('X%d' % s, (n, d)), c.arr('Y%d' % s, (n, T.ONE))
                before = len(I.items(I.getattr(bo, 'historical_hyps')))
                info = report_of(c, c.call(I.getattr(bo, 'optimize'), X, Y, num_samples=c.num(q)))
                c.same('refitted every step', len(I.ghost.get('fits', ())) == s + 1)
                if info is None or len(I.ghost.get('fits', ())) != s + 1:
                    return
                cur = I.ditems(fitted_hyps(I, bool(I.getattr(bo, 'use_ard')), d, cls == 'BOwTP', 'fit' if s == 0 else 'fit%d' % s))
                hyps_same(c, 'used', info['hyps'], cur, d)
                h = I.items(I.getattr(bo, 'historical_hyps'))
                c.same('one entry appended', len(h) == before + 1)
                if len(h) == before + 1:
                    hyps_same(c, 'appended', h[-1], cur, d)


for _cls in ('BOwGP', 'BOwTP'):
    @case('history.long.%s' % _cls, 'C22', GP if _cls == 'BOwGP' else TP, use=STEP, once=True, v=_cls)
    def _long(c, v):
        """a step after many others: the earlier entries stay"""
        cls = v
        I = c.I
        d, q, n = c.dim('d'), c.dim('q'), c.dim('n')
        bo = c.call('bayeso.bo.' + cls, c.box(d), str_acq='ei')
        try:
            hist = I.getattr(bo, 'historical_hyps')
        except PyExc:
            hist = None
        if not isinstance(hist, ListV):
            raise Unsupported('history kept elsewhere')
        ard = bool(I.getattr(bo, 'use_ard'))
        for j in range(120):
            I.call(I.getattr(hist, 'append'), [fitted_hyps(I, ard, d, cls == 'BOwTP', 'past%d' % j)], {})
        before = list(I.items(hist))
        X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
        info = report_of(c, c.call(I.getattr(bo, 'optimize'), X, Y, num_samples=c.num(q)))
        h = I.items(I.getattr(bo, 'historical_hyps'))
        c.same('one entry appended, the others kept', len(h) == 121 and all(x is y for x, y in zip(h, before)))
        if info is not None and h:
            hyps_same(c, 'appended', h[-1], I.ditems(info['hyps']), d)


for _kern, _ard, _norm in (('se', True, True), ('matern52', False, False), ('matern32', True, True)):
    for _prior in (True, False):
        @case('combined.%s.%s.%s.%s' % (_kern, 'ard' if _ard else 'shared', 'norm' if _norm else 'raw', 'prior' if _prior else 'zero'), 'C22', GP, use=STEP,
              v=(_kern, _ard, _norm, _prior))
        def _comb(c, v):
            kern, ard, norm, pr = v
            I = c.I
            d, q, n = c.dim('d'), c.dim('q'), c.dim('n')
            fix = bool(I.module('bayeso.constants').ns['FIX_GP_NOISE'])
            pf, prior = mk_prior(c, pr)
            bo = c.call('bayeso.bo.BOwGP', c.box(d), str_cov=kern, use_ard=ard, normalize_Y=norm, str_acq='ei', prior_mu=pf)
            X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
            before = len(I.items(I.getattr(bo, 'historical_hyps')))
            info = report_of(c, c.call(I.getattr(bo, 'optimize'), X, Y, num_samples=c.num(q), str_mlm_method='combined'))
            fits = I.ghost.get('fits', ())
            c.same('two optimisers are tried', len(fits) == 2 and len({f[0]['str_optimizer_method'] for f in fits}) == 2)
            if info is None or len(fits) != 2:
                return
            yl = nrm_lam(I, Y) if norm else I.lam(Y)
            c.same('both on the same data', all(f[1] is I.lam(X) and f[2] is yl for f in fits))
            c.same('both with the configured options', all(f[0]['str_cov'] == kern and f[0]['use_ard'] is ard and f[0]['prior_mu'] is pf for f in fits))
            M = I.build((n, T.ONE), lambda ix: prior(X, ix[0]), 'f')
            nl, hs = [], []
            for tag in ('fit', 'fit1'):
                h = I.ditems(fitted_hyps(I, ard, d, False, tag))
                hs.append(h)
                pre = ([] if fix else [tonum(h['noise']).p]) + [tonum(h['signal']).p]
                N = K(len(pre)) + (d if ard else T.ONE)

                def slot(i, h=h, pre=pre):
                    r = T.ZERO
                    for k_, p in enumerate(pre):
                        r = r + T.ind(T.eq(i, K(k_))) * p
                    return r + T.ind(T.ge(i, K(len(pre)))) * (c.at(h['lengthscales'], i - K(len(pre))) if ard else tonum(h['lengthscales']).p)
                w = I.build((N,), lambda ix: slot(ix[0]), 'f')
                nl.append((w, N))
            # the likelihood calls made, identified by their hyperparameter vector
            got = I.ditems(info['hyps'])
            sig = tonum(got['signal']).p
            which = 0 if sig is tonum(hs[0]['signal']).p else 1
            hyps_same(c, 'used hyperparameters are one of the fits', info['hyps'], hs[which], d)
            calls = I.ghost.get('likcalls', ())
            c.same('likelihood of each fit compared', len(calls) >= 2)
            vals = [None, None]
            for term, w, args in calls:
                for j in (0, 1):
                    wl, N = nl[j]
                    i, = c.idx((N,))
                    if len(w.shape) == 1 and w.shape[0] is N and prove.prove_zero(T.lam_open(w, [i]) - c.at(wl, i), I.facts).status == 'proved':
                        want = lik_args(c, kern, X, yl, M, ard, fix)
                        if args == want:
                            vals[j] = term
            c.same('of the data, kernel and prior at hand', None not in vals)
            if None in vals:
                return
            c.holds('the fit with the lower negative log marginal likelihood', T.ge(vals[1 - which], vals[which]))
            lam = train_lam(c, kern, X, info['hyps'])
            c.arr_eq('covariance of that fit', info['cov_X_X'], (n, n), lambda a, b: T.lam_open(lam, [a, b]))
            c.arr_eq('inverse of that fit', info['inv_cov_X_X'], (n, n), lambda a, b: nplib.inv_term(lam, a, b))
            h = I.items(I.getattr(bo, 'historical_hyps'))
            c.same('one entry appended', len(h) == before + 1)
            if len(h) == before + 1:
                hyps_same(c, 'appended', h[-1], hs[which], d)


def lik_args(c, kern, X, yl, M, ard, fix):
    I = c.I
    return ('objective:ml:%s:%s:%s' % (canon(kern), ard, fix), I.lam(X), yl, I.lam(M))


# check_hyps_convergence itself
for _ard in (True, False):
    for _fix in (True, False):
        for _m in (0, 1, 2):
            @case('convergence.%s.%s.%d' % ('ard' if _ard else 'shared', 'fixed' if _fix else 'free', _m), 'C22', 'bayeso.utils.utils_bo.check_hyps_convergence', v=(_ard, _fix, _m))
            def _conv(c, v):
                ard, fix, m = v
                I = c.I
                d = c.dim('d')
                hs = [fitted_hyps(I, ard, d, False, 'h%d' % k) for k in range(m)]
                new = fitted_hyps(I, ard, d, False, 'new')
                r = c.call('bayeso.utils.utils_bo.check_hyps_convergence', c.list_(hs), new, 'matern52', fix)
                want = T.FALSE if m == 0 else converged(c, I.ditems(new), I.ditems(hs[-1]), ard, d, fix)
                r = tobool_term(r)
                c.holds('5 percent rule', T.band(T.bor(T.bnot(r), want), T.bor(r, T.bnot(want))))
