from .core import *
from .kern import ALL, mk_hyps

U = 'bayeso.utils.utils_covariance.'


def isfloat(v):
    return isinstance(v, float) or isinstance(v, Num) and v.kind in ('float', 'npfloat')


def options():
    for k in ALL:
        for ard in (True, False):
            for tp in (False, True):
                for fix in (False, True):
                    yield k, ard, tp, fix


def oid(k, ard, tp, fix):
    return '%s.%s.%s.%s' % (k, 'ard' if ard else 'shared', 'tp' if tp else 'gp', 'fixed' if fix else 'free')


def slots(h, ard, tp, fix, d):
    """documented slot order: list of (name, value or fn) with the lengthscales last"""
    out = []
    if not fix:
        out.append(('noise', h['noise']))
    if tp:
        out.append(('dof', h['dof']))
    out.append(('signal', h['signal']))
    return out


def check_dict(c, name, r, want, ard, d, lsf):
    c.same(name + '.dict', isinstance(r, DictV))
    if not isinstance(r, DictV):
        return
    g = c.I.ditems(r)
    c.same(name + '.keys', set(g) == set(want) | {'lengthscales'})
    for k, v in want.items():
        c.same(name + '.%s is a float' % k, k in g and isfloat(g[k]))
        if k in g and isfloat(g[k]):
            c.eq(name + '.' + k, g[k], v)
    ls = g.get('lengthscales')
    if ard:
        c.arr_eq(name + '.lengthscales', ls, (d,), lsf)
    else:
        c.same(name + '.lengthscales is a float', isfloat(ls))
        if isfloat(ls):
            c.eq(name + '.lengthscales', ls, lsf(T.ZERO))


for _o in options():
    @case('roundtrip.' + oid(*_o), 'C15', U + 'convert_hyps', o=_o)
    def _rt(c, o):
        kern, ard, tp, fix = o
        d = c.dim('d')
        hy, noise, signal, lsf = mk_hyps(c, d, ard, tp)
        h = dict(c.I.ditems(hy))
        v = c.call(U + 'convert_hyps', kern, hy, use_gp=not tp, fix_noise=fix)
        sl = slots(h, ard, tp, fix, d)
        n = K(len(sl)) + (d if ard else T.ONE)

        def spec(i):
            r = T.ind(T.ge(i, K(len(sl)))) * lsf(i - K(len(sl)))
            for k, (nm, x) in enumerate(sl):
                r = r + T.ind(T.eq(i, K(k))) * tonum(x).p
            return r
        c.arr_eq('vector', v, (n,), spec)
        # restoring an arbitrary vector laid out like that
        w = c.arr('vec', (n,), body=lambda ix: spec(ix[0]), dt='F')
        given = c.real('given', '>')
        r = c.call(U + 'restore_hyps', kern, w, use_gp=not tp, use_ard=ard, fix_noise=fix, noise=given)
        want = {'noise': given if fix else h['noise'], 'signal': h['signal']}
        if tp:
            want['dof'] = h['dof']
        check_dict(c, 'restored', r, want, ard, d, lsf)
        # the default noise is used when none is given
        if fix:
            r = c.call(U + 'restore_hyps', kern, w, use_gp=not tp, use_ard=ard, fix_noise=True)
            want['noise'] = c.I.module('bayeso.constants').ns['GP_NOISE']
            check_dict(c, 'restored.default', r, want, ard, d, lsf)

    @case('restore.' + oid(*_o), 'C15', U + 'restore_hyps', o=_o)
    def _rs(c, o):
        kern, ard, tp, fix = o
        d = c.dim('d')
        pre = (0 if fix else 1) + (1 if tp else 0)
        n = K(pre + 1) + (d if ard else T.ONE)
        w = c.arr('vec', (n,), dt='F')
        given = c.real('given', '>')
        r = c.call(U + 'restore_hyps', kern, w, use_gp=not tp, use_ard=ard, fix_noise=fix, noise=given)
        want = {'noise': given if fix else Num(c.at(w, 0), 'npfloat'), 'signal': Num(c.at(w, pre), 'npfloat')}
        if tp:
            want['dof'] = Num(c.at(w, pre - 1), 'npfloat')
        check_dict(c, 'restored', r, want, ard, d, lambda i: c.at(w, i + K(pre + 1)))

    @case('defaults.' + oid(*_o), 'C15', U + 'get_hyps', o=_o)
    def _df(c, o):
        kern, ard, tp, fix = o
        d = c.dim('d')
        r = c.call(U + 'get_hyps', kern, c.num(d), use_gp=not tp, use_ard=ard)
        g = c.I.ditems(r)
        c.same('keys', set(g) == {'noise', 'signal', 'lengthscales'} | ({'dof'} if tp else set()))
        v = c.call(U + 'convert_hyps', kern, r, use_gp=not tp, fix_noise=fix)
        npre = (0 if fix else 1) + (1 if tp else 0) + 1
        n = K(npre) + (d if ard else T.ONE)
        c.shape_is('default vector', v, (n,))
        rg = c.call(U + 'get_range_hyps', kern, c.num(d), use_gp=not tp, use_ard=ard, fix_noise=fix)
        c.same('ranges are a list', isinstance(rg, ListV))
        ra = nplib.arrof(c.I, rg)
        if not c.shape_is('ranges', ra, (n, K(2))):
            return
        i, = c.idx((n,))
        C = c.I.module('bayeso.constants').ns
        names = ([] if fix else ['NOISE']) + (['DOF'] if tp else []) + ['SIGNAL', 'LENGTHSCALES']
        rs = [nplib.arrof(c.I, C['RANGE_' + k]) for k in names]
        for col in (0, 1):
            want = T.ZERO
            for k in range(npre):
                want = want + T.ind(T.eq(i, K(k))) * c.at(rs[k], 0, col)
            want = want + T.ind(T.ge(i, K(npre))) * c.at(rs[-1], 0, col)
            c.eq('range column %d has the slots of the vector' % col, c.at(ra, i, col), want)
        c.holds('default inside its range', T.band(T.le(c.at(ra, i, 0), c.at(v, i)), T.le(c.at(v, i), c.at(ra, i, 1))))
        if tp:
            c.holds('dof range above two', T.gt(c.at(ra, npre - 2, 0), K(2)))


for _tp in (False, True):
    for _ard in (True, False):
        for _k in ('se', 'set_matern52'):
            @case('validate.ok.%s.%s.%s' % (_k, 'tp' if _tp else 'gp', 'ard' if _ard else 'shared'), 'C15', U + 'validate_hyps_dict',
                  tp=_tp, ard=_ard, kern=_k)
            def _val(c, tp, ard, kern):
                d = c.dim('d')
                hy, noise, signal, lsf = mk_hyps(c, d, ard, tp, watch=False)
                h = dict(c.I.ditems(hy))
                r = c.call(U + 'validate_hyps_dict', hy, kern, c.num(d), use_gp=not tp)
                want = {k: v for k, v in h.items() if k != 'lengthscales'}
                check_dict(c, 'accepted unchanged', r, want, ard, d, lsf)


@case('validate.dof', 'C15', U + 'validate_hyps_dict')
def _vdof(c):
    d = c.dim('d')
    hy, noise, signal, lsf = mk_hyps(c, d, True, False, watch=False)
    dof = c.real('dof')
    c.I.dset(hy, 'dof', dof)
    c.assume(T.le(dof.p, K(2)))
    h = dict(c.I.ditems(hy))
    r = c.call(U + 'validate_hyps_dict', hy, 'se', c.num(d), use_gp=False)
    g = c.I.ditems(r)
    v = tonum(g['dof']).p
    c.holds('raised just above two', T.band(T.gt(v, K(2)), T.le(v, P(2.001))))
    check_dict(c, 'rest unchanged', r, {'noise': h['noise'], 'signal': h['signal'], 'dof': g['dof']}, True, d, lsf)


for _tp in (False, True):
    for _m in ('noise', 'signal', 'lengthscales') + (('dof',) if _tp else ()):
        @case('validate.missing.%s.%s' % (_m, 'tp' if _tp else 'gp'), 'C15', U + 'validate_hyps_dict', expect='ValueError', tp=_tp, miss=_m)
        def _miss(c, tp, miss):
            d = c.dim('d')
            hy = mk_hyps(c, d, True, tp, watch=False)[0]
            c.I.heap[hy.cell] = ('dict', {k: v for k, v in c.I.ditems(hy).items() if k != miss})
            c.call(U + 'validate_hyps_dict', hy, 'matern52', c.num(d), use_gp=not tp)
    for _k in ('se', 'set_se'):
        @case('validate.length.%s.%s' % (_k, 'tp' if _tp else 'gp'), 'C15', U + 'validate_hyps_dict', expect='ValueError', tp=_tp, kern=_k)
        def _len(c, tp, kern):
            d, e = c.dim('d'), c.dim('e')
            c.assume(T.bnot(T.eq(d, e)))
            hy = mk_hyps(c, e, True, tp, watch=False)[0]
            c.call(U + 'validate_hyps_dict', hy, kern, c.num(d), use_gp=not tp)
