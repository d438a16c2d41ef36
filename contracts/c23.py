"""options: what is configured is what takes effect"""
from .callers import *
from . import c16, c03, c04  # noqa

WC = c04.WC
FULL = USE + DESIGN + (NORM, TREES, c16.LIK[0]) + tuple(ACQ.values()) + tuple(c03.FIT.values())
BASE = {
    'gp': dict(str_cov='matern32', str_acq='ucb', normalize_Y=False, use_ard=False, str_initial_method_bo='halton', str_sampling_method_ao='uniform',
               str_optimizer_method_gp='Nelder-Mead', str_optimizer_method_bo='CMA-ES', str_mlm_method='combined', str_modelselection_method='loocv'),
    'tp': dict(str_cov='se', str_acq='pi', normalize_Y=False, use_ard=False, str_initial_method_bo='uniform', str_sampling_method_ao='gaussian',
               str_optimizer_method_tp='L-BFGS-B', str_optimizer_method_bo='CMA-ES'),
    'rf': dict(str_acq='pure_exploit', normalize_Y=False, str_initial_method_bo='gaussian', str_sampling_method_ao='halton', str_optimizer_method_bo='random_search'),
}
CHOICES = {
    'str_cov': ('eq', 'se', 'matern32', 'matern52'), 'str_acq': ACQS, 'normalize_Y': (True, False), 'use_ard': (True, False),
    'str_initial_method_bo': ('uniform', 'gaussian', 'sobol', 'halton'), 'str_sampling_method_ao': ('uniform', 'gaussian', 'sobol', 'halton', 'grid'),
    'str_optimizer_method_gp': ('BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'), 'str_optimizer_method_tp': ('L-BFGS-B', 'SLSQP'),
    'str_optimizer_method_bo': ('L-BFGS-B', 'DIRECT', 'CMA-ES'), 'str_mlm_method': ('regular', 'combined', 'converged'),
    'str_modelselection_method': ('ml', 'loocv'),
}
DEFAULT = dict(str_cov='matern52', str_acq='ei', normalize_Y=True, use_ard=True, str_initial_method_bo='sobol', str_sampling_method_ao='sobol',
               str_optimizer_method_gp='BFGS', str_optimizer_method_tp='SLSQP', str_optimizer_method_bo='L-BFGS-B', str_mlm_method='regular', str_modelselection_method='ml')


def relevant(sur):
    return BASE[sur].keys()


def configs():
    """defaults, a set in which every option differs from its default, and every single choice on top of either"""
    for sur in ('gp', 'tp', 'rf'):
        yield sur, 'base', dict(BASE[sur])
        if sur != 'rf':
            yield sur, 'defaults', {}
        for o in BASE[sur]:
            if sur == 'rf' and o == 'str_optimizer_method_bo':
                continue
            for v in CHOICES[o]:
                if v != BASE[sur][o]:
                    yield sur, 'base:%s=%s' % (o, v), dict(BASE[sur], **{o: v})
                if v != DEFAULT[o] and sur != 'rf':
                    yield sur, '%s=%s' % (o, v), {o: v}


EXPECTED = {'L-BFGS-B': ('minimize', 'L-BFGS-B'), 'DIRECT': ('direct', None), 'CMA-ES': ('cma', None)}


def effective(sur, kw):
    e = {o: DEFAULT[o] for o in BASE[sur]}
    e.update(kw)
    return e


def check_model(c, sur, m, e, box, pf):
    I = c.I
    cls = c04.CLS[sur]
    c.same('the surrogate named', isinstance(m, ObjV) and isinstance(m.cls, ClassV) and m.cls.name == cls)
    g = lambda n: I.getattr(m, n)
    c.same('box', isinstance(g('range_X'), Arr) and I.lam(g('range_X')) is I.lam(box))
    for o in ('str_cov', 'str_acq', 'normalize_Y', 'use_ard', 'str_optimizer_method_gp', 'str_optimizer_method_tp', 'str_modelselection_method', 'str_optimizer_method_bo'):
        if o in e:
            c.same('model option %s' % o, g(o) == e[o] and isinstance(g(o), type(e[o])))
    if sur != 'rf':
        c.same('model option prior_mu', g('prior_mu') is pf)


def check_fits(c, sur, e, fits, pf, X):
    want = 2 if e.get('str_mlm_method') == 'combined' else 1
    c.same('number of fits', len(fits) == want)
    for a, xl, yl in fits:
        if sur == 'rf':
            continue
        c.same('fit: kernel', a['str_cov'] == e['str_cov'])
        c.same('fit: prior', a['prior_mu'] is pf)
        c.same('fit: lengthscales', a['use_ard'] is e['use_ard'])
        if e.get('str_mlm_method') != 'combined':
            c.same('fit: optimiser', a['str_optimizer_method'] == e['str_optimizer_method_' + sur])
        if sur == 'gp':
            c.same('fit: model selection', a['str_modelselection_method'] == e['str_modelselection_method'])


for _n, (_sur, _tag, _kw) in enumerate(configs()):
    @case('step.%s.%s' % (_sur, _tag), 'C23', WC + '.optimize_single_iteration', use=FULL, libs={'installed': ('scipydirect',)}, v=(_sur, _kw, bool(_n % 2)))
    def _cstep(c, v):
        sur, kw, prior = v
        I = c.I
        e = effective(sur, kw)
        n, q, T_ = c.dim('n'), c.dim('q'), c.dim('T')
        d = c.dim('d', lo=2)
        box = c.box(d)
        pf = mk_prior(c, True)[0] if prior and sur != 'rf' else None
        b = c.call(WC, box, OpaqueFn('objective', None), c.num(T_), str_surrogate=sur, num_samples_ao=c.num(q), **dict(kw, **({'prior_mu': pf} if sur != 'rf' else {})))
        m = I.getattr(b, 'model_bo')
        check_model(c, sur, m, e, box, pf)
        X, Y = c.arr('X', (n, d)), c.arr('Y', (n, T.ONE))
        r = c.call(I.getattr(b, 'optimize_single_iteration'), X, Y)
        check_fits(c, sur, e, I.ghost.get('fits', ()), pf, X)
        ds = I.ghost.get('designs', ())
        opt = e['str_optimizer_method_bo']
        c.same('candidates: one design unless the optimiser needs none', len(ds) == (0 if opt == 'DIRECT' else 1))
        for api, meth, cnt, seed, bx, dl in ds:
            c.same('candidates: method', meth == e['str_sampling_method_ao'])
            c.eq('candidates: number', cnt, T.ONE if opt == 'CMA-ES' else q)
            c.same('candidates: box', bx is I.lam(box))
        used = set(I.ghost.get('optnames', ()))
        c.same('acquisition optimiser used', used == (set() if sur == 'rf' else {EXPECTED[opt]}))
        c03.report(c, c04.CLS[sur], m, box, X, Y, r, e['normalize_Y'] and e.get('str_mlm_method') != 'converged')


for _sur, _tag, _kw in configs():
    if _tag == 'base' or _tag == 'defaults' or _sur == 'rf' or 'base:str_sampling' in _tag or 'base:str_initial' in _tag or 'base:str_mlm' in _tag:
        for _seed in (True, False):
            @case('run.%s.%s.%s' % (_sur, _tag, 'seed' if _seed else 'noseed'), 'C23', WC + '.optimize', use=DESIGN + (c04.OPT[c04.CLS[_sur]], c04.NBA),
                  libs={'installed': ('scipydirect',)}, v=(_sur, _kw, _seed))
            def _crun(c, v):
                sur, kw, seeded = v
                I = c.I
                e = effective(sur, kw)
                n, q, T_, d = c.dim('n'), c.dim('q'), c.dim('T'), c.dim('d', lo=2)
                box = c.box(d)

                def args(a):
                    c.same('step: model', a['self'] is m or a['self'].cell == m.cell)
                    c.same('step: candidate method', a['str_sampling_method'] == e['str_sampling_method_ao'])
                    c.eq('step: candidate count', a['num_samples'], q)
                    if sur == 'gp':
                        c.same('step: hyperparameter mode', a['str_mlm_method'] == e['str_mlm_method'])
                run = c04.Run(c, n, d, args)
                b = c.call(WC, box, run.obj(), c.num(T_), str_surrogate=sur, num_samples_ao=c.num(q), **kw)
                m = I.getattr(b, 'model_bo')
                sd = c.num(P(T.Var('seed', 'I', '>='))) if seeded else None
                r = c.call(I.getattr(b, 'optimize'), c.num(n), seed=sd)
                ds = I.ghost.get('designs', ())
                c.same('one initial design', len(ds) == 1)
                for api, meth, cnt, seed, bx, dl in ds:
                    c.same('initial design: method', meth == e['str_initial_method_bo'])
                    c.eq('initial design: number', cnt, n)
                    c.same('initial design: seed', (seed is None) == (sd is None) and (sd is None or tonum(seed).p is sd.p))
                    c.same('initial design: box', bx is I.lam(box))


for _init in CHOICES['str_initial_method_bo']:
    for _samp, _mlm, _seed in (('grid', 'converged', True), ('uniform', 'combined', False), ('sobol', 'regular', True)):
        @case('function.%s.%s.%s.%s' % (_init, _samp, _mlm, 'seed' if _seed else 'noseed'), 'C23', c04.WF + 'run_single_round', use=DESIGN + (c04.OPT['BOwGP'], c04.NBA),
              v=(_init, _samp, _mlm, _seed))
        def _cfun(c, v):
            init, samp, mlm, seeded = v
            I = c.I
            n, q, T_, d = c.dim('n'), c.dim('q'), c.dim('T'), c.dim('d')
            box = c.box(d)

            def args(a):
                c.same('step: model', a['self'].cell == m.cell)
                c.same('step: candidate method', a['str_sampling_method'] == samp)
                c.eq('step: candidate count', a['num_samples'], q)
                c.same('step: hyperparameter mode', a['str_mlm_method'] == mlm)
            run = c04.Run(c, n, d, args)
            m = c.call('bayeso.bo.BOwGP', box)
            sd = c.num(P(T.Var('seed', 'I', '>='))) if seeded else None
            c.call(c04.WF + 'run_single_round', m, run.obj(), c.num(n), c.num(T_), str_initial_method_bo=init, str_sampling_method_ao=samp,
                   num_samples_ao=c.num(q), str_mlm_method=mlm, seed=sd)
            ds = I.ghost.get('designs', ())
            c.same('one initial design', len(ds) == 1)
            for api, meth, cnt, seed, bx, dl in ds:
                c.same('initial design: method', meth == init)
                c.eq('initial design: number', cnt, n)
                c.same('initial design: seed', (seed is None) == (sd is None) and (sd is None or tonum(seed).p is sd.p))
                c.same('initial design: box', bx is I.lam(box))


for _norm, _samp in ((True, 'sobol'), (False, 'halton'), (True, 'uniform'), (False, 'gaussian')):
    @case('thompson.%s.%s' % (_norm, _samp), 'C23', 'bayeso.thompson_sampling.thompson_sampling_gp', use=DESIGN + (c04.TSI,), v=(_norm, _samp))
    def _cts(c, v):
        norm, samp = v
        I = c.I
        n, q, T_, d = c.dim('n'), c.dim('q'), c.dim('T'), c.dim('d')
        box = c.box(d)

        def args(a):
            c.same('step: candidate method', a['str_sampling_method'] == samp)
            c.eq('step: candidate count', a['num_samples'], q)
            c.same('step: normalisation', a['normalize_Y'] is norm)
            c.same('step: box', I.lam(a['range_X']) is I.lam(box))
        run = c04.Run(c, n, d, args)
        c.call('bayeso.thompson_sampling.thompson_sampling_gp', box, run.obj(), c.num(n), c.num(T_), normalize_Y=norm, str_sampling_method=samp, num_samples=c.num(q))
        ds = I.ghost.get('designs', ())
        c.same('one initial design', len(ds) == 1 and ds[0][1] == samp and ds[0][4] is I.lam(box))
        if len(ds) == 1:
            c.eq('initial design: number', ds[0][2], n)


# ---------------------------------------------------------------- which acquisition optimiser
for _m in CHOICES['str_optimizer_method_bo'] + ('random_search',):
    for _di in (True, False):
        for _ci in (True, False):
            for _one in (True, False):
                @case('fallback.%s.%s%s.%s' % (_m, 'D' if _di else '-', 'C' if _ci else '-', '1' if _one else 'n'), 'C23', 'bayeso.utils.utils_bo.check_optimizer_method_bo',
                      libs={'installed': ('scipydirect',) if _di else (), 'uninstalled': () if _ci else ('cma',)}, v=(_m, _di, _ci, _one))
                def _fb(c, v):
                    m, di, ci, one = v
                    I = c.I
                    d = T.ONE if one else c.dim('d', lo=2)
                    want = 'L-BFGS-B' if (m == 'DIRECT' and not di) or (m == 'CMA-ES' and (not ci or one)) else m
                    r = c.call('bayeso.utils.utils_bo.check_optimizer_method_bo', m, c.num(d), False)
                    c.same('requested optimiser, or the fallback', r == want)
                    box = c.box(d)
                    if m == 'random_search':
                        return
                    for cls in ('BOwGP', 'BOwTP'):
                        c.same(cls + ' uses it', I.getattr(c.call('bayeso.bo.' + cls, box, str_optimizer_method_bo=m), 'str_optimizer_method_bo') == want)
                    for sur in ('gp', 'tp'):
                        b = c.call(WC, box, OpaqueFn('objective', None), 3, str_surrogate=sur, str_optimizer_method_bo=m)
                        c.same('run object (%s) uses it' % sur, I.getattr(I.getattr(b, 'model_bo'), 'str_optimizer_method_bo') == want)
