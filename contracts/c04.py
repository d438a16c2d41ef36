"""whole runs: history, evaluations, choice of the evaluated point, options reaching the model"""
from .callers import *

OPT = {'BOwGP': 'bayeso.bo.bo_w_gp.BOwGP.optimize', 'BOwTP': 'bayeso.bo.bo_w_tp.BOwTP.optimize', 'BOwTrees': 'bayeso.bo.bo_w_trees.BOwTrees.optimize'}
NBA = 'bayeso.utils.utils_bo.get_next_best_acquisition'
TSI = 'bayeso.thompson_sampling.thompson_sampling_gp_iteration'
WC = 'bayeso.wrappers.wrappers_bo_class.BayesianOptimization'
WF = 'bayeso.wrappers.wrappers_bo_function.'
TOL = 1e-8


def same_lam(I, a, lam):
    return isinstance(a, Arr) and I.lam(a) is lam


def step_summary(I, a):
    """one step of a model (C03): some point and report; the arguments are remembered"""
    self, X, Y = a['self'], a['X_train'], a['Y_train']
    need(I, isinstance(X, Arr) and isinstance(Y, Arr), 'AssertionError', 'types')
    sx, sy = I.shape(X), I.shape(Y)
    need(I, len(sx) == 2 and len(sy) == 2, 'AssertionError', 'dims')
    d = I.lam(I.getattr(self, 'range_X')).shape[0]
    for x, y in ((sy[1], T.ONE), (sx[0], sy[0]), (sx[1], d)):
        need(I, T.eq(x, y), 'AssertionError', 'dims')
    need(I, T.gt0(tonum(a['num_samples']).p), 'AssertionError', 'num_samples')
    C = I.module('bayeso.constants').ns
    need(I, a['str_sampling_method'] in I.items(C['ALLOWED_SAMPLING_METHOD']), 'AssertionError', 'method')
    if 'str_mlm_method' in a:
        need(I, a['str_mlm_method'] in I.items(C['ALLOWED_MLM_METHOD']), 'AssertionError', 'mode')
    m = I.sym('ncand', 'I', '>')
    x, cand, acq = I.symarr('next', (d,)), I.symarr('cand', (m, d)), I.symarr('scores', (m,))
    t1, t2 = Num(I.sym('tsur'), 'float'), Num(I.sym('tacq'), 'float')
    I.ghost['step'] = (dict(a), I.lam(X), I.lam(Y), I.lam(x), I.lam(cand), I.lam(acq), t1.p, t2.p)
    I.ghost['nba'] = None
    return x, I.new_dict({'next_points': cand, 'acquisitions': acq, 'time_surrogate': t1, 'time_acq': t2, 'time_overall': Num(I.sym('tall'), 'float'),
                          'Y_original': Y, 'Y_normalized': Y})


for _q in OPT.values():
    SUMMARIES[_q] = step_summary


@summary(NBA)
def _nba(I, a):
    """next best acquisition (C05): some point; the arguments are remembered"""
    P_, A, X = a['points'], a['acquisitions'], a['points_evaluated']
    need(I, all(isinstance(x, Arr) for x in (P_, A, X)), 'AssertionError', 'types')
    sp, sa, sx = I.shape(P_), I.shape(A), I.shape(X)
    need(I, len(sp) == 2 and len(sa) == 1 and len(sx) == 2, 'AssertionError', 'dims')
    need(I, T.eq(sp[0], sa[0]), 'AssertionError', 'dims')
    need(I, T.eq(sp[1], sx[1]), 'AssertionError', 'dims')
    r = I.symarr('nextbest', (sp[1],))
    I.ghost['nba'] = (I.lam(P_), I.lam(A), I.lam(X), I.lam(r))
    return r


@summary(TSI)
def _tsi(I, a):
    """Thompson-sampling step (C21): some point"""
    rX, X, Y = a['range_X'], a['X'], a['Y']
    need(I, all(isinstance(x, Arr) for x in (rX, X, Y)), 'AssertionError', 'types')
    sr, sx, sy = I.shape(rX), I.shape(X), I.shape(Y)
    need(I, len(sr) == 2 and len(sx) == 2 and len(sy) == 2, 'AssertionError', 'dims')
    need(I, T.eq(sx[0], sy[0]), 'AssertionError', 'dims')
    need(I, T.eq(sr[0], sx[1]), 'AssertionError', 'dims')
    x = I.symarr('next', (sr[0],))
    I.ghost['tstep'] = (dict(a), I.lam(X), I.lam(Y), I.lam(x))
    return x


def dup_terms(I, x, hist):
    """distance below the tolerance to some evaluated point"""
    n, d = hist.shape
    j, q = T.fresh('j', 'I', '>=', n), T.fresh('q', 'I', '>=', d)
    jj, qq = (P(j) if n is not T.ONE else T.ZERO), (P(q) if d is not T.ONE else T.ZERO)
    dist = T.tsqrt(T.tsum(q, d, (T.lam_open(x, [qq]) - T.lam_open(hist, [jj, qq])) ** 2))
    return T.bnot(T.forall([j], [n], T.ge(dist, P(TOL))))


class Run:
    """harness of one run: objective logging its calls"""

    def __init__(self, c, n, d, expect_args=None):
        c.keep('run', lambda: self).begin(c, n, d, expect_args)

    def __new__(cls, c, *a):
        return c.kept['run'] if c.reuse is not None else object.__new__(cls)

    def begin(self, c, n, d, expect_args):
        self.c, self.I, self.n, self.d = c, c.I, n, d
        self.log = c.I.new_list([])
        self.tsur, self.tacq, self.tev = (c.I.new_list([]) for _ in range(3))
        c.I.ghost['clock'] = c.I.sym('clock')
        self.expect_args = expect_args

    def obj(self):
        def f(I, a, k):
            x = a[0]
            c = self.c
            need(I, len(a) == 1 and not k and isinstance(x, Arr), 'TypeError', 'objective takes one point')
            c.same('the objective gets one point', len(I.shape(x)) == 1)
            c.eq('of the right dimension', I.shape(x)[0], self.d, props=('C04',))
            st, nb, ts = I.ghost.get('step'), I.ghost.get('nba'), I.ghost.get('tstep')
            if st is not None:
                self.chosen(x, st, nb)
            if ts is not None:
                kk, = c.idx((self.d,))
                c.eq('the sampled point is the one evaluated', c.at(x, kk), T.lam_open(ts[3], [kk]), ('C04', 'C21'))
                if self.expect_args is not None:
                    self.expect_args(ts[0])
            hist = (st or ts or (None,) * 3)[1:3]
            if hist[0] is not None:
                c.eq('the step sees every row so far', hist[0].shape[0], self.n + (I.loop_idx[-1] if I.loop_idx else K(self.done())), ('C04', 'C23'))
                if not I.loop_idx:
                    glog(I, 'seen', hist)
            I.call(I.getattr(self.log, 'append'), [x], {})
            if st is not None:
                I.call(I.getattr(self.tsur, 'append'), [Num(st[6], 'float')], {})
                I.call(I.getattr(self.tacq, 'append'), [Num(st[7], 'float')], {})
            took = I.sym('evaltime', 'R', '>=')
            I.ghost['clock'] = I.ghost['clock'] + took
            I.call(I.getattr(self.tev, 'append'), [Num(took, 'float')], {})
            I.ghost['step'] = I.ghost['tstep'] = None
            return Num(P(T.App('obj', (I.lam(x),), 'R')), 'npfloat')
        return OpaqueFn('objective', f)

    def done(self):
        return len(self.I.ghost.get('seen', ()))

    def chosen(self, x, st, nb):
        """C05 at run level, for the history at this iteration"""
        c, I = self.c, self.I
        args, X, Y, nxt, cand, acq = st[:6]
        dup = dup_terms(I, nxt, X)
        k, = c.idx((self.d,))
        if nb is None:
            c.holds('used unchanged only when it repeats no evaluated point', T.bnot(dup), ('C05',))
            c.eq('the acquired point is the one evaluated', c.at(x, k), T.lam_open(nxt, [k]), ('C05',))
        else:
            c.holds('replaced only when it repeats an evaluated point', dup, ('C05',))
            c.same('among the candidates of this step', nb[0] is cand and nb[1] is acq, ('C05',))
            c.same('against the points evaluated so far', nb[2] is X, ('C05',))
            c.eq('the replacement is the one evaluated', c.at(x, k), T.lam_open(nb[3], [k]), ('C05',))
        if self.expect_args is not None:
            self.expect_args(args)

    def history(self, r, X0, n, T_, Y0=None):
        """final history against the given rows and the call log"""
        c, I, d = self.c, self.I, self.d
        c.same('five arrays', isinstance(r, tuple) and len(r) == 5)
        if not (isinstance(r, tuple) and len(r) == 5):
            return
        self.points(r[0], r[1], X0, n, T_, Y0)
        ta, ts, tq = r[2:]
        m = T_ if Y0 is not None else n + T_
        log = I.call(nplib.LIB['numpy.array'], [self.tev], {})
        if c.shape_is('overall times', ta, (m,)) and c.shape_is('one per evaluation', log, (m,)):
            j, = c.idx((m,))
            c.holds('an overall time covers the evaluation of its own row', T.ge(c.at(ta, j), c.at(log, j)))
        k, = c.idx((T_,))
        for nm, a, log in (('surrogate', ts, self.tsur), ('acquisition', tq, self.tacq)):
            log = I.call(nplib.LIB['numpy.array'], [log], {})
            if c.shape_is(nm + ' times', a, (T_,)) and c.shape_is('one report per step', log, (T_,)):
                c.eq(nm + ' time of its own step', c.at(a, k), c.at(log, k))

    def points(self, X, Y, X0, n, T_, Y0=None):
        c, I, d = self.c, self.I, self.d
        N = n + T_
        if not (c.shape_is('inputs', X, (N, d)) and c.shape_is('responses', Y, (N, T.ONE))):
            return
        i, k = c.idx((n, d))
        if X0 is not None:
            c.eq('initial rows unchanged', c.at(X, i, k), T.lam_open(X0, [i, k]))
        j, = c.idx((N,))
        if Y0 is not None:
            c.eq('initial responses unchanged', c.at(Y, i, 0), T.lam_open(Y0, [i, T.ZERO]))
            j, = c.idx((T_,))
            j = j + n
        c.eq('response is the objective at its row', c.at(Y, j, 0), P(T.App('obj', (row_lam(I, X, j),), 'R')))
        log = I.call(nplib.LIB['numpy.array'], [self.log], {})
        first = T.ZERO if Y0 is None else n
        if c.shape_is('one evaluation per row', log, (N - first, d)):
            j, k = c.idx((N - first, d))
            c.eq('evaluated in order at its own row', c.at(log, j, k), c.at(X, first + j, k))
        for q, (hx, hy) in enumerate(I.ghost.get('seen', ())):
            # short runs: every step got exactly the history so far
            j, k = c.idx((hx.shape[0], d))
            c.eq('step %d sees the inputs so far' % q, T.lam_open(hx, [j, k]), c.at(X, j, k))
            c.eq('step %d sees the responses so far' % q, T.lam_open(hy, [j, T.ZERO]), c.at(Y, j, 0))


def new_bo(c, sur, box, f, T_, **kw):
    if sur == 'rf':
        kw.setdefault('str_optimizer_method_bo', 'random_search')
    return c.call(WC, box, f, c.num(T_), str_surrogate=sur, **kw)


CLS = {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}
MODES = ('all', 'inputs', 'init')
ENTRY = {'all': '.optimize_with_all_initial_information', 'inputs': '.optimize_with_initial_inputs', 'init': '.optimize'}
FENTRY = {'all': 'run_single_round_with_all_initial_information', 'inputs': 'run_single_round_with_initial_inputs', 'init': 'run_single_round'}


def iters(c, short):
    return K(2) if short else c.dim('T')


for _sur in ('gp', 'tp', 'rf'):
    for _mode in MODES:
        for _short in (False, True)[:2 if _mode == 'all' else 1]:
            @case('class.%s.%s%s' % (_sur, _mode, '.two' if _short else ''), 'C04 C05', WC + ENTRY[_mode],
                  use=DESIGN + (OPT[CLS[_sur]], NBA), v=(_sur, _mode, _short))
            def _cls(c, v):
                sur, mode, short = v
                I = c.I
                n, d, T_ = c.dim('n'), c.dim('d'), iters(c, short)
                box = c.box(d)
                run = Run(c, n, d)
                b = new_bo(c, sur, box, run.obj(), T_)
                if mode == 'init':
                    r = c.call(I.getattr(b, 'optimize'), c.num(n), seed=c.num(P(T.Var('seed', 'I', '>='))))
                    ds = I.ghost.get('designs', ())
                    c.same('one design', len(ds) == 1)
                    run.history(r, ds[0][-1] if len(ds) == 1 else None, n, T_)
                else:
                    X = c.arr('X', (n, d))
                    if mode == 'all':
                        Y = c.arr('Y', (n, T.ONE))
                        r = c.call(I.getattr(b, 'optimize_with_all_initial_information'), X, Y)
                        run.history(r, I.lam(X), n, T_, I.lam(Y))
                    else:
                        r = c.call(I.getattr(b, 'optimize_with_initial_inputs'), X)
                        run.history(r, I.lam(X), n, T_)

for _mode in MODES:
    for _short in (False, True)[:2 if _mode == 'all' else 1]:
        @case('function.%s%s' % (_mode, '.two' if _short else ''), 'C04 C05', WF + FENTRY[_mode], use=DESIGN + (OPT['BOwGP'], NBA), v=(_mode, _short))
        def _fun(c, v):
            mode, short = v
            I = c.I
            n, d, T_ = c.dim('n'), c.dim('d'), iters(c, short)
            box = c.box(d)
            run = Run(c, n, d)
            bo = c.call('bayeso.bo.BOwGP', box)
            if mode == 'init':
                r = c.call(WF + FENTRY[mode], bo, run.obj(), c.num(n), c.num(T_), seed=c.num(P(T.Var('seed', 'I', '>='))))
                ds = I.ghost.get('designs', ())
                c.same('one design', len(ds) == 1)
                run.history(r, ds[0][-1] if len(ds) == 1 else None, n, T_)
            else:
                X = c.arr('X', (n, d))
                if mode == 'all':
                    Y = c.arr('Y', (n, T.ONE))
                    r = c.call(WF + FENTRY[mode], bo, run.obj(), X, Y, c.num(T_))
                    run.history(r, I.lam(X), n, T_, I.lam(Y))
                else:
                    r = c.call(WF + FENTRY[mode], bo, run.obj(), X, c.num(T_))
                    run.history(r, I.lam(X), n, T_)

for _short in (False, True):
    @case('thompson.run%s' % ('.two' if _short else ''), 'C04', 'bayeso.thompson_sampling.thompson_sampling_gp', use=DESIGN + (TSI,), v=_short)
    def _ts(c, v):
        I = c.I
        n, d, T_ = c.dim('n'), c.dim('d'), iters(c, v)
        box = c.box(d)
        run = Run(c, n, d)
        r = c.call('bayeso.thompson_sampling.thompson_sampling_gp', box, run.obj(), c.num(n), c.num(T_))
        c.same('inputs and responses', isinstance(r, tuple) and len(r) == 2)
        ds = I.ghost.get('designs', ())
        c.same('one design', len(ds) == 1)
        if isinstance(r, tuple) and len(r) == 2 and len(ds) == 1:
            run.points(r[0], r[1], ds[0][-1], n, T_)
