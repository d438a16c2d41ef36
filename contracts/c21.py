"""sampled functions and Thompson sampling steps"""
from .callers import *

GS, TS = 'bayeso.gp.gp.sample_functions', 'bayeso.tp.tp.sample_functions'
TH = 'bayeso.thompson_sampling.'


def draws(t):
    """generator applications in a term"""
    out, seen = [], set()

    def goa(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == 'app' and a.name in ('mvnz', 'chisq'):
            out.append(a)
            return
        if a.kind in ('P', 'ind'):
            go(a.args[0])

    def go(t):
        if isinstance(t, Poly):
            for m in t.mons:
                for f, e in m:
                    goa(f)
        elif isinstance(t, Bool):
            for x in t.args:
                if isinstance(x, (Poly, Bool)):
                    go(x)
    go(t)
    return out


def no_idx(x, i):
    """term x does not depend on the index i"""
    return not (isinstance(x, (Poly, Lam, Bool)) and any(f in x.fv for f in i.fv))


def fresh_per(args, s, i):
    """the identity of a draw varies with s exactly as s does, and not with i"""
    return sum(1 for x in args if x is s) == 1 and all(no_idx(x, i) for x in args)


for _one in (True, False):
    for _which in ('gp', 'tp', 'tp-inf'):
        @case('sample.%s.%s' % (_which, 'one-point' if _one else 'points'), 'C21', GS if _which == 'gp' else TS, v=(_which, _one))
        def _sample(c, v):
            which, one = v
            I = c.I
            n = T.ONE if one else c.dim('n', lo=2)
            m = c.dim('m')
            mu, S = c.arr('mu', (n,)), c.arr('Sigma', (n, n))
            sl = I.lam(S)
            c.assume(T.bapp('mvn_ok', (sl, 'reg')))
            nu = None
            if which == 'gp':
                r = c.call(GS, mu, S, num_samples=c.num(m))
            else:
                nu = Num(P(T.INF), 'float') if which == 'tp-inf' else c.real('nu', '>')
                if which == 'tp':
                    c.assume(T.lt(nu.p, P(T.INF)))
                r = c.call(TS, nu, mu, S, num_samples=c.num(m))
            if not c.shape_is('one row per sample, one column per point', r, (m, n)):
                return
            s, i = c.idx((m, K(7)))[0], (T.ZERO if one else c.idx((n,))[0])
            v = c.at(r, s, i)
            ds = draws(v)
            z = [a for a in ds if a.name == 'mvnz']
            x = [a for a in ds if a.name == 'chisq']
            c.same('one Gaussian draw per entry', len(z) == 1)
            c.same('one chi-square draw per entry for a finite number of degrees of freedom', len(x) == (1 if which == 'tp' else 0))
            if len(z) != 1 or len(x) != (1 if which == 'tp' else 0):
                return
            z, zp = z[0], P(z[0])
            c.same('drawn with the given covariance', z.args[0] is sl)
            c.same('coordinate i of the draw', z.args[-1] is i)
            c.same('a separate draw for each sample', fresh_per(z.args[1:-1], s, i))
            if which == 'tp':
                x = x[0]
                c.same('chi-square with the given degrees of freedom', x.args[0] is nu.p)
                c.same('a separate chi-square draw for each sample, shared by its points', fresh_per(x.args[1:], s, i))
                c.eq('mean plus scaled draw', v, c.at(mu, i) + zp / T.tsqrt(P(x) / nu.p))
            else:
                c.eq('mean plus draw', v, c.at(mu, i) + zp)


for _norm in (True, False):
    for _m in ('sobol', 'halton', 'uniform', 'gaussian', 'grid'):
        @case('thompson.step.%s.%s' % (_m, 'normalised' if _norm else 'raw'), 'C21', TH + 'thompson_sampling_gp_iteration',
              use=USE + DESIGN + (GS, 'bayeso.gp.gp_kernel.get_optimized_kernel', 'bayeso.utils.utils_bo.normalize_min_max'), v=(_m, _norm))
        def _step(c, v):
            meth, norm = v
            I = c.I
            n, d, q = c.dim('n'), c.dim('d'), c.dim('q')
            box = c.box(d)
            X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
            try:
                r = c.call(TH + 'thompson_sampling_gp_iteration', box, X, Y, normalize_Y=norm, str_sampling_method=meth, num_samples=c.num(q))
            except PyExc as e:
                dr = I.ghost.get('draws', ())
                c.same('fails only when no covariance can be sampled', e.name == 'ValueError' and len(dr) >= 2 and not any(x[3] for x in dr))
                return
            ds, dr = I.ghost.get('designs', ()), I.ghost.get('draws', ())
            fits = I.ghost.get('fits', ())
            c.same('one design', len(ds) == 1)
            c.same('one function drawn', len([x for x in dr if x[3]]) == 1 and bool(dr[-1][3]) and dr[-1][2] is T.ONE)
            c.same('one fit', len(fits) == 1)
            if len(ds) != 1 or not dr or not dr[-1][3] or len(fits) != 1:
                return
            api, m, cnt, seed, bx, dl = ds[0]
            c.same('design with the requested method', m == meth)
            c.eq('and number', cnt, q)
            c.same('in the given box', bx is I.lam(box))
            Yn = nrm_lam(I, Y) if norm else I.lam(Y)
            c.same('fitted to the data', fits[0][1] is I.lam(X) and fits[0][2] is Yn)
            # the drawn function: posterior at the candidates
            Xs = I.arr_new(dl, 'f')
            Yf = I.arr_new(Yn, 'f')
            hy = fitted_hyps(I, True, d, False)
            h = I.ditems(hy)
            kern = fits[0][0]['str_cov']
            lam = train_lam(c, kern, X, hy)
            mean, cov, _ = conditional(c, kern, X, Yf, Xs, lambda a, b: nplib.inv_term(lam, a, b), h, lambda X, i: T.ZERO)
            mu, S = I.arr_new(dr[-1][0], 'f'), I.arr_new(dr[-1][1], 'f')
            N = dl.shape[0]
            c.arr_eq('mean of the drawn function', mu, (N,), mean)
            ext = extra(c, S, cov, N)
            c.same('covariance of the drawn function up to a constant diagonal', ext is not None and ext >= 0)
            if len(dr) == 1:
                c.same('no extra diagonal when the covariance can be sampled', ext == 0)
            f = lambda i: P(T.App('fundraw', (dr[-1][0], dr[-1][1], K(len(dr)), K(I.ghost.get("round", 0)), T.ZERO, i), 'R'))
            u = T.fresh('k', 'I', '>=', N)
            best = nplib.argmin_term(u, N, f(P(u)))
            c.arr_eq('returns the minimising candidate', r, (d,), lambda k: T.lam_open(dl, [best, k]))
            e, = c.idx((N,))
            c.holds('lemma: smallest', T.ge(f(e), f(best)))


def extra(c, S, cov, n):
    i, j = c.idx((n, n))
    dd = c.at(S, i, j) - cov(i, j)
    k = T.ind(T.eq(i, j))
    r = prove.prove_zero(dd, c.I.facts)
    if r.status == 'proved':
        return 0
    for e in (1e-8, 1e-6, 1e-4, 1e-2, 1.0, 10.0, 100.0, 1000.0, 10000.0):
        if prove.prove_zero(dd - P(e) * k, c.I.facts).status == 'proved':
            return e
    # any constant amount
    dd = T.addmany([dd])
    if len(dd.mons) == 1:
        (m, co), = dd.mons.items()
        if T.scale(k, co) is dd:
            return co
    return None


for _which in ('gp', 'tp'):
    @case('sample.%s.default' % _which, 'C21', GS if _which == 'gp' else TS, v=_which)
    def _sampled(c, v):
        n = c.dim('n', lo=2)
        mu, S = c.arr('mu', (n,)), c.arr('Sigma', (n, n))
        c.assume(T.bapp('mvn_ok', (c.I.lam(S), 'reg')))
        r = c.call(GS, mu, S) if v == 'gp' else c.call(TS, c.real('nu', '>'), mu, S)
        c.shape_is('one sample unless asked for more', r, (T.ONE, n))
