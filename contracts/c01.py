"""designs: shape, box, grid points (C01); seeds and generator isolation (C02)"""
from .core import *
import itertools

BO = 'bayeso.bo.'
COUNTED = ('uniform', 'gaussian', 'sobol', 'halton')
INITIAL = ('sobol', 'halton', 'uniform', 'gaussian')


def symbols(lam):
    return {s.split('!')[0].split('#')[0] for s in loops.symnames(lam)}


def mk_model(c, cls, d):
    box = c.box(d)
    return box, c.call(c.fn(BO + cls), box)


def in_box(c, r, n, d, box, props):
    if not c.shape_is('one row per sample, one column per dimension', r, (n, d), props):
        return
    i, k = c.idx((n, d))
    c.holds('not below the lower bound', T.ge(c.at(r, i, k), c.at(box, k, 0)), props)
    c.holds('not above the upper bound', T.le(c.at(r, i, k), c.at(box, k, 1)), props)


for _cls in ('BOwGP', 'BOwTP', 'BOwTrees'):
    for _m in COUNTED:
        for _api in ('get_samples', 'get_initials'):
            for _seeded in (True, False):
                @case('design.%s.%s.%s.%s' % (_cls, _api, _m, 'seeded' if _seeded else 'unseeded'), 'C01 C02',
                      'bayeso.bo.base_bo.BaseBO.' + _api, v=(_cls, _api, _m, _seeded))
                def _design(c, v):
                    cls, api, m, seeded = v
                    n, d = c.dim('n'), c.dim('d')
                    box, bo = mk_model(c, cls, d)
                    seed = c.num(P(T.Var('seed', 'I', '>='))) if seeded else None
                    f = c.I.getattr(bo, api)
                    c.same('building the model leaves the global generator alone', not c.I.ghost.get('grng_touched'), ('C02',))
                    r = c.call(f, m, c.num(n), seed=seed)
                    in_box(c, r, n, d, box, ('C01',))
                    c.same('neither consults nor advances the global generator', not c.I.ghost.get('grng_touched'), ('C02',))
                    if not isinstance(r, Arr):
                        return
                    sy = symbols(c.I.lam(r))
                    c.same('no global state in the points', 'GLOBALRNG' not in sy, ('C02',))
                    if seeded:
                        c.same('points determined by box, count and seed', not any('ENTROPY' in s for s in sy), ('C02',))
                        c.same('the seed determines them', 'seed' in sy, ('C02',))
                        l1 = c.I.lam(r)
                        c.scribble(r)
                        r2 = c.call(f, m, c.num(n), seed=seed)
                        c.arr_eq('drawn again: identical', r2, l1.shape, lambda *ix: T.lam_open(l1, list(ix)), ('C02',))
                        other = c.call(f, m, c.num(n + K(3)), seed=c.num(P(T.Var('seed2', 'I', '>='))))
                        r3 = c.call(f, m, c.num(n), seed=seed)
                        c.arr_eq('identical whatever was drawn before', r3, l1.shape, lambda *ix: T.lam_open(l1, list(ix)), ('C02',))
                    else:
                        c.same('fresh entropy', any('ENTROPY' in s for s in sy), ('C02',))


def grid_spec(c, r, box, d, g):
    """rows are the mixed-radix enumeration of the Cartesian product in some order of the axes"""
    tot = T.ONE
    for _ in range(d):
        tot = tot * g
    if not c.shape_is('one row per grid point', r, (tot, K(d)), ('C01',)):
        return
    js = [P(T.fresh('j', 'I', '>=', g)) for _ in range(d)]
    lin = lambda k, j: c.at(box, k, 0) + (c.at(box, k, 1) - c.at(box, k, 0)) * j / (g - T.ONE)
    for perm in itertools.permutations(range(d)):
        row = T.ZERO
        for k in perm:
            row = row * g + js[k]
        if all(prove.prove_zero(c.at(r, row, k) - lin(k, js[k]), c.I.facts).status == 'proved' for k in range(d)):
            break
    else:
        # the default order of the implementation, to name the failing obligation
        row = T.ZERO
        for k in ([1, 0] + list(range(2, d)) if d > 1 else [0]):
            row = row * g + js[k]
    for k in range(d):
        c.eq('coordinate %d of the point with axis indices j' % k, c.at(r, row, k), lin(k, js[k]), ('C01',))
        c.eq('lower end', lin(k, T.ZERO), c.at(box, k, 0), ('C01',))
        c.eq('upper end', lin(k, g - T.ONE), c.at(box, k, 1), ('C01',))


for _d in (1, 2, 3, 4):
    for _how in ('get_grids', 'get_samples'):
        @case('grid.%d.%s' % (_d, _how), 'C01 C02', 'bayeso.utils.utils_common.get_grids', v=(_d, _how))
        def _grid(c, v):
            d, how = v
            g = c.dim('g', lo=2)
            if how == 'get_grids':
                box = c.box(K(d))
                r = c.call('bayeso.utils.utils_common.get_grids', box, c.num(g))
            else:
                box, bo = mk_model(c, 'BOwGP', K(d))
                r = c.call(c.I.getattr(bo, how), 'grid', num_samples=c.num(g))
            grid_spec(c, r, box, d, g)
            c.same('neither consults nor advances the global generator', not c.I.ghost.get('grng_touched'), ('C02',))
