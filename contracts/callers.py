"""callers' view of designs, posterior draws, acquisitions and BO steps (each verified against its body elsewhere)"""
from .pred import *

BASEBO = 'bayeso.bo.base_bo.BaseBO.'
prove.APP_AXIOMS['unitdesign'] = lambda a: [T.ge0(P(a)), T.le(P(a), T.ONE)]
T.NONNEG_APPS.add('unitdesign')
prove.APP_AXIOMS['gridrows'] = lambda a: [T.gt0(P(a))]


def glog(I, name, item):
    """append to a ghost log"""
    I.ghost[name] = I.ghost.get(name, ()) + (item,)


def _box(I, self):
    return I.lam(I.getattr(self, 'range_X'))


def design_summary(api):
    def s(I, a):
        """C01 / C02: n rows inside the box, determined by method, count and seed (fresh entropy without one)"""
        self = a['self']
        m = a['str_sampling_method' if api == 'get_samples' else 'str_initial_method']
        n = a['num_samples' if api == 'get_samples' else 'num_initials']
        C = I.module('bayeso.constants').ns
        allowed = C['ALLOWED_SAMPLING_METHOD' if api == 'get_samples' else 'ALLOWED_INITIALIZING_METHOD_BO']
        need(I, isinstance(m, str) and m in I.items(allowed), 'AssertionError', 'method')
        need(I, isinstance(n, int) or isinstance(n, Num) and n.kind == 'int', 'AssertionError', 'count')
        need(I, T.gt0(tonum(n).p), 'ValueError', 'count')
        sd = a['seed']
        seed = tonum(sd).p if sd is not None else I.sym('ENTROPY', 'I', '>=')
        bx = _box(I, self)
        d = bx.shape[0]
        n = tonum(n).p
        rows = P(T.App('gridrows', (n, d), 'I', '>')) if m == 'grid' else n

        def body(ix):
            lo, hi = T.lam_open(bx, [ix[1], T.ZERO]), T.lam_open(bx, [ix[1], T.ONE])
            return lo + (hi - lo) * P(T.App('unitdesign', (m, seed, n, d, ix[0], ix[1]), 'R', '>='))
        r = I.build((rows, d), body, 'f')
        glog(I, 'designs', (api, m, n, sd, bx, I.lam(r)))
        return r
    return s


SUMMARIES[BASEBO + 'get_samples'] = design_summary('get_samples')
SUMMARIES[BASEBO + 'get_initials'] = design_summary('get_initials')
DESIGN = (BASEBO + 'get_samples', BASEBO + 'get_initials')


def draw_summary(I, a):
    """gp.sample_functions: one row per sample, drawn from the given mean and covariance (C21)"""
    mu, S, m = a['mu'], a['Sigma'], tonum(a['num_samples']).p
    need(I, isinstance(mu, Arr) and isinstance(S, Arr), 'AssertionError', 'types')
    sm, ss = I.shape(mu), I.shape(S)
    need(I, len(sm) == 1 and len(ss) == 2, 'AssertionError', 'dims')
    need(I, T.eq(sm[0], ss[0]), 'AssertionError', 'dims')
    need(I, T.eq(sm[0], ss[1]), 'AssertionError', 'dims')
    ok = I.decide(T.bapp('mvn_ok', (I.lam(S), 'reg')))
    glog(I, 'draws', (I.lam(mu), I.lam(S), m, ok))
    if not ok:
        raise PyExc('ValueError', 'the input matrix must be symmetric positive definite')
    key = (K(len(I.ghost['draws'])), K(I.ghost.get('round', 0)))
    return I.build((m, sm[0]), lambda ix: P(T.App('fundraw', (I.lam(mu), I.lam(S)) + key + tuple(ix), 'R')), 'f')


SUMMARIES['bayeso.gp.gp.sample_functions'] = draw_summary


# ---------------------------------------------------------------- acquisitions
ACQS = ('pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore')


def acq_formula(name, mu, s, m, N, noise, jit=P(1e-5)):
    """C07's formulas on terms"""
    if name == 'pure_exploit':
        return -mu
    if name == 'pure_explore':
        return s
    if name == 'ucb':
        return K(2) * T.tlog(N + T.ONE) * s - mu
    z = (m - mu) / (s + jit)
    if name == 'pi':
        return nplib.normcdf(z)
    e = (m - mu) * nplib.normcdf(z) + s * nplib.npdf(z)
    return e if name == 'ei' else e * (T.ONE - noise / T.tsqrt(s ** 2 + noise ** 2))


def prior_key(f):
    return 'zero' if f is None else getattr(f, 'name', 'prior')


def acq_term(I, self, row, Xl, Yl, model):
    """opaque scaled acquisition of one point under a surrogate"""
    g = lambda n: I.getattr(self, n)
    key = (g('str_surrogate'), g('str_acq'))
    if g('str_surrogate') == 'rf':
        return P(T.App('acqval:%s:%s' % key, (row, Xl, Yl, model), 'R'))
    inv, hy = model
    h = I.ditems(hy)
    hk = (ls_term(I, h['lengthscales']), tonum(h['signal']).p, tonum(h['noise']).p) + ((tonum(h['dof']).p,) if 'dof' in h else ())
    nm = 'acqval:%s:%s:%s:%s' % (key + (canon(g('str_cov')), prior_key(g('prior_mu'))))
    return P(T.App(nm, (row, Xl, Yl, I.lam(inv)) + hk, 'R'))


def acq_summary(cls):
    def s(I, a):
        self, X, Xt, Yt = a['self'], a['X'], a['X_train'], a['Y_train']
        need(I, all(isinstance(x, Arr) for x in (X, Xt, Yt)), 'AssertionError', 'types')
        sx, st, sy = I.shape(X), I.shape(Xt), I.shape(Yt)
        need(I, len(sx) in (1, 2) and len(st) == 2 and len(sy) == 2, 'AssertionError', 'dims')
        d = I.lam(I.getattr(self, 'range_X')).shape[0]
        need(I, T.eq(sx[-1], d), 'AssertionError', 'dims')
        need(I, T.eq(st[1], d), 'AssertionError', 'dims')
        need(I, T.eq(st[0], sy[0]), 'AssertionError', 'dims')
        need(I, T.eq(sy[1], T.ONE), 'AssertionError', 'dims')
        Xl, Yl = I.lam(Xt), I.lam(Yt)
        if cls == 'BOwTrees':
            model = I.ghost['tree_ids'][a['trees'].cell] if isinstance(a['trees'], ListV) and a['trees'].cell in I.ghost.get('tree_ids', {}) else None
            need(I, model is not None, 'AssertionError', 'trees')
        else:
            Kx, Ki, hy = a['cov_X_X'], a['inv_cov_X_X'], a['hyps']
            need(I, isinstance(Kx, Arr) and isinstance(Ki, Arr) and isinstance(hy, DictV), 'AssertionError', 'types')
            for q in (Kx, Ki):
                for t in I.shape(q):
                    need(I, T.eq(t, st[0]), 'AssertionError', 'dims')
            model = (Ki, hy)
        n = T.ONE if len(sx) == 1 else sx[0]

        def row(i):
            u = T.fresh('u', 'I', '>=', d)
            uu = P(u) if d is not T.ONE else T.ZERO
            return T.mklam([u], [d], I.at(X, [uu] if len(sx) == 1 else [i, uu]))
        return I.build((n,), lambda ix: acq_term(I, self, row(ix[0]), Xl, Yl, model), 'f')
    return s


ACQ = {}
for _c, _mod in (('BOwGP', 'bo_w_gp'), ('BOwTP', 'bo_w_tp'), ('BOwTrees', 'bo_w_trees')):
    ACQ[_c] = 'bayeso.bo.%s.%s.compute_acquisitions' % (_mod, _c)
    SUMMARIES[ACQ[_c]] = acq_summary(_c)


def trees_summary(I, a):
    """BOwTrees.get_trees: some forest grown on the given data (C17)"""
    Xt, Yt = a['X_train'], a['Y_train']
    need(I, isinstance(Xt, Arr) and isinstance(Yt, Arr), 'AssertionError', 'types')
    r = I.new_list([Opaque('tree')])
    ids = dict(I.ghost.get('tree_ids', {}))
    v = I.sym('forest', 'I', '>=')
    ids[r.cell] = v
    I.ghost['tree_ids'] = ids
    glog(I, 'fits', (dict(a), I.lam(Xt), I.lam(Yt)))
    return r


TREES = 'bayeso.bo.bo_w_trees.BOwTrees.get_trees'
SUMMARIES[TREES] = trees_summary
NORM = 'bayeso.utils.utils_bo.normalize_min_max'


def nrm_lam(I, Y):
    """callers' view of the normalised responses (C06)"""
    n = I.shape(Y)[0]
    v = T.fresh('i', 'I', '>=', n)
    return T.mklam([v, T.fresh('z', 'I', '>=', T.ONE)], [n, T.ONE], P(T.App('normed', (I.lam(Y), P(v) if n is not T.ONE else T.ZERO), 'R')))


@summary(NORM)
def _norm_summary(I, a):
    Y = a['Y']
    need(I, isinstance(Y, Arr) and len(I.shape(Y)) == 2, 'AssertionError', 'Y')
    return I.arr_new(nrm_lam(I, Y), 'f')
