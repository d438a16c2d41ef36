"""Hash-consed terms with an algebraic normal form.

Every numeric term is a Poly: a finite map from monomials to rational coefficients.
A monomial is a finite map from atoms to rational exponents.  Finite sums
sum_{v<n} body are pushed inside until each is an atom whose body is one connected
product; boolean conditions enter arithmetic as Iverson brackets (Ind atoms).
Bound variables carry canonical numbers (height naming), so alpha-equivalent terms
are the same object.  Arithmetic is exact real/integer arithmetic.
"""
from fractions import Fraction
from itertools import permutations
from functools import lru_cache
import math

F0 = Fraction(0)
F1 = Fraction(1)

_table = {}
_uid = [0]


class TermLimit(Exception):
    pass


MAX_MONOS = 4000


def _intern(key, build):
    o = _table.get(key)
    if o is None:
        o = build()
        _uid[0] += 1
        o.uid = _uid[0]
        _table[key] = o
    return o


class Atom:
    """kind: var | bv | app | P | sum | ind"""
    __slots__ = ('kind', 'name', 'args', 'sort', 'fv', 'h', 'uid', 'sign', 'rng', 'm', 'meta')

    def __repr__(self):
        return show_atom(self)


# sign: None unknown, '>=' nonneg, '>' positive

def _args_fv(args):
    fv = frozenset()
    h = 0
    for a in args:
        if isinstance(a, (Poly, Lam, Bool)):
            fv |= a.fv
            h = max(h, a.h)
    return fv, h


_varcount = [0]


def Var(name, sort='R', sign=None, rng=None):
    """a free variable; rng=(Poly n) marks 0 <= v < n for an index variable"""
    key = ('var', name, sort)

    def b():
        a = Atom()
        a.kind, a.name, a.args, a.sort = 'var', name, (), sort
        a.sign = sign
        a.rng = rng
        a.h = 0
        a.m = 0
        a.meta = None
        a.fv = frozenset([a])
        return a
    return _intern(key, b)


def fresh(prefix='v', sort='R', sign=None, rng=None):
    _varcount[0] += 1
    return Var('%s!%d' % (prefix, _varcount[0]), sort, sign, rng)


def BV(i):
    key = ('bv', i)

    def b():
        a = Atom()
        a.kind, a.name, a.args, a.sort = 'bv', i, (), 'I'
        a.sign = '>='
        a.rng = None
        a.h = i
        a.m = 0
        a.meta = None
        a.fv = frozenset([a])
        return a
    return _intern(key, b)


NONNEG_APPS = {'normcdf', 'gamma', 'cnt', 'nth', 'argmin', 'argminlast', 'rank', 'chisq', 'argsel', 'len', 'floor+'}
POS_APPS = {'exp', 'normpdf'}


def App(name, args, sort='R', sign=None):
    args = tuple(args)
    key = ('app', name, args, sort)

    def b():
        a = Atom()
        a.kind, a.name, a.args, a.sort = 'app', name, args, sort
        a.sign = sign or ('>' if name in POS_APPS else '>=' if name in NONNEG_APPS else None)
        a.rng = None
        a.m = 0
        a.meta = None
        a.fv, a.h = _args_fv(args)
        return a
    return _intern(key, b)


def PAtom(p):
    key = ('P', p)

    def b():
        a = Atom()
        a.kind, a.name, a.args, a.sort = 'P', None, (p,), 'R'
        a.sign = None
        a.rng = None
        a.m = 0
        a.meta = None
        a.fv, a.h = p.fv, p.h
        return a
    return _intern(key, b)


def IndAtom(c):
    key = ('ind', c)

    def b():
        a = Atom()
        a.kind, a.name, a.args, a.sort = 'ind', None, (c,), 'I'
        a.sign = '>='
        a.rng = None
        a.m = 0
        a.meta = None
        a.fv, a.h = c.fv, c.h
        return a
    return _intern(key, b)


def SumAtomRaw(ranges, factors, base):
    """ranges: tuple of Poly (closed wrt own binders unless dependent), factors: frozenset((Atom,exp))
    binders are BV(base+1..base+m)"""
    key = ('sum', ranges, factors, base)

    def b():
        a = Atom()
        a.kind, a.name, a.args, a.sort = 'sum', base, (ranges, factors), 'R'
        fv = frozenset()
        for r in ranges:
            fv |= r.fv
        allint = True
        for f, e in factors:
            fv |= f.fv
            if f.sort != 'I' or e.denominator != 1 or e < 0:
                allint = False
        a.m = len(ranges)
        bvs = frozenset(BV(base + 1 + k) for k in range(a.m))
        a.fv = fv - bvs
        a.h = base + a.m
        a.sort = 'I' if allint else 'R'
        a.sign = '>=' if all(_factor_nonneg(f, e) for f, e in factors) else None
        a.rng = None
        a.meta = None
        return a
    return _intern(key, b)


def _factor_nonneg(f, e):
    if e.denominator == 1 and e % 2 == 0:
        return True
    if f.sign in ('>=', '>'):
        return True
    if f.kind == 'P':
        if e.denominator != 1:
            return True
        return nonneg(f.args[0])
    return False


def _factor_pos(f, e):
    if f.sign == '>':
        return True
    if f.kind == 'P':
        return pos(f.args[0])
    return False


def nonneg(p):
    return all(c > 0 and all(_factor_nonneg(f, e) for f, e in m) for m, c in p.mons.items())


def pos(p):
    return nonneg(p) and any(all(_factor_pos(f, e) for f, e in m) for m, c in p.mons.items())


class Poly:
    __slots__ = ('mons', 'fv', 'h', 'uid', '_const', '_isint')

    def __repr__(self):
        return show(self)

    @property
    def const(self):
        """Fraction if constant else None"""
        return self._const

    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if P(o) is ZERO:
            return P(App('nan', (self,), 'R'))
        return mul(self, power(P(o), Fraction(-1)))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, Fraction(-1)))

    def __pow__(self, e):
        return power(self, Fraction(e))

    @property
    def is_int(self):
        if self._isint is None:
            self._isint = all(c.denominator == 1 and all(f.sort == 'I' and e.denominator == 1 and e > 0 for f, e in m)
                              for m, c in self.mons.items())
        return self._isint


EMPTY = frozenset()


def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) > MAX_MONOS:
        raise TermLimit('poly too large')
    key = ('poly', frozenset(d.items()))

    def b():
        p = Poly()
        p.mons = d
        fv = frozenset()
        h = 0
        for m in d:
            for f, e in m:
                fv |= f.fv
                if f.h > h:
                    h = f.h
        p.fv = fv
        p.h = h
        if not d:
            p._const = F0
        elif len(d) == 1 and EMPTY in d:
            p._const = d[EMPTY]
        else:
            p._const = None
        p._isint = None
        return p
    return _intern(key, b)


def K(c):
    c = Fraction(c)
    return mkpoly({EMPTY: c} if c else {})


ZERO = None
ONE = None


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return mkpoly({frozenset([(x, F1)]): F1})
    if isinstance(x, bool):
        return K(int(x))
    if isinstance(x, (int, Fraction)):
        return K(x)
    if isinstance(x, float):
        return K(Fraction(repr(x)))
    if isinstance(x, Bool):
        return ind(x)
    raise TypeError('P(%r)' % (x,))


def add(a, b):
    if not a.mons:
        return b
    if not b.mons:
        return a
    if len(a.mons) < len(b.mons):
        a, b = b, a
    d = dict(a.mons)
    for m, c in b.mons.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v = v + c
            if v:
                d[m] = v
            else:
                del d[m]
    return mkpoly(d)


def addmany(ps):
    d = {}
    for p in ps:
        for m, c in p.mons.items():
            d[m] = d.get(m, F0) + c
    return mkpoly(d)


def neg(a):
    return mkpoly({m: -c for m, c in a.mons.items()})


def scale(a, k):
    k = Fraction(k)
    if k == 1:
        return a
    return mkpoly({m: c * k for m, c in a.mons.items()} if k else {})


_mulcache = {}


def mul(a, b):
    if a._const is not None:
        return scale(b, a._const)
    if b._const is not None:
        return scale(a, b._const)
    key = (a.uid, b.uid) if a.uid <= b.uid else (b.uid, a.uid)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    rest = []
    if len(a.mons) * len(b.mons) > 20 * MAX_MONOS:
        raise TermLimit('product too large')
    for m1, c1 in a.mons.items():
        for m2, c2 in b.mons.items():
            x = mono_mul(m1, m2)
            if isinstance(x, frozenset):
                d[x] = d.get(x, F0) + c1 * c2
            else:
                rest.append(scale(x, c1 * c2))
    r = mkpoly(d)
    if rest:
        r = addmany([r] + rest)
    _mulcache[key] = r
    return r


def _special(f, e):
    """True if factor (f,e) needs post-processing in a product"""
    k = f.kind
    return k == 'ind' or (k == 'app' and f.name == 'exp') or k == 'P'


_monocache = {}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    key = (m1, m2)
    r = _monocache.get(key)
    if r is None:
        d = dict(m1)
        for f, e in m2:
            v = d.get(f)
            if v is None:
                d[f] = e
            else:
                d[f] = v + e
        r = norm_mono(d)
        _monocache[key] = r
    return r


def norm_mono(d):
    """normalise a factor dict; returns frozenset (monomial) or Poly"""
    d = {f: e for f, e in d.items() if e != 0}
    exps = [(f, e) for f, e in d.items() if f.kind == 'app' and f.name == 'exp']
    extra = []
    if len(exps) > 1 or (len(exps) == 1 and exps[0][1] != 1):
        arg = addmany([scale(f.args[0], e) for f, e in exps])
        for f, _ in exps:
            del d[f]
        extra.append(texp(arg))
    inds = []
    for f, e in list(d.items()):
        if f.kind == 'ind':
            if e != 1:
                d[f] = F1
            inds.append(f)
        elif f.kind == 'P':
            c = f.args[0]._const
            if c is not None:
                fl = math.floor(e)
                if fl != 0:
                    fr = e - fl
                    if fr:
                        d[f] = fr
                    else:
                        del d[f]
                    extra.append(K(c ** fl))
            elif e >= 1:
                fl = math.floor(e)
                fr = e - fl
                if fr:
                    d[f] = fr
                else:
                    del d[f]
                for _ in range(fl):
                    extra.append(f.args[0])
    # bracket simplifications
    if len(inds) >= 1:
        for f in inds:
            c = f.args[0]
            if c.kind == 'eq':
                sol = solve_atom(c.args[0])
                if sol is not None:
                    x, t = sol
                    others = [(g, e) for g, e in d.items() if g is not f]
                    if any(x in g.fv for g, e in others):
                        r = P(f)
                        for g, e in others:
                            r = mul(r, atom_pow(subst_atom(g, {x: t}), e))
                        for q in extra:
                            r = mul(r, q)
                        return r
        if len(inds) >= 2:
            for i in range(len(inds)):
                for j in range(len(inds)):
                    if i != j:
                        rel = ind_rel(inds[i].args[0], inds[j].args[0])
                        if rel == 'contra':
                            return ZERO
                        if rel == 'implies' and inds[j] in d and inds[i] in d:
                            del d[inds[j]]
    m = frozenset(d.items())
    if extra:
        r = mkpoly({m: F1})
        for q in extra:
            r = mul(r, q)
        return r
    return m


def ind_rel(c1, c2):
    """c1 implies c2 -> 'implies'; c1 and c2 contradictory -> 'contra'; else None.
    Cheap linear check on differing constants."""
    if c1.kind in ('ge', 'gt', 'eq') and c2.kind in ('ge', 'gt', 'eq'):
        p, q = c1.args[0], c2.args[0]
        # c2 - c1 constant: q = p + k
        k = (q - p)._const
        if k is not None:
            if c1.kind == 'eq':
                v = k
                ok = v >= 0 if c2.kind == 'ge' else v > 0 if c2.kind == 'gt' else v == 0
                return 'implies' if ok else 'contra'
            if c2.kind != 'eq':
                if k > 0 or (k == 0 and (c1.kind == c2.kind or c1.kind == 'gt')):
                    return 'implies'
            else:  # c1: p>=0 , c2: p+k==0
                if k > 0 or (k == 0 and c1.kind == 'gt'):
                    return 'contra'
        s = (q + p)._const
        if s is not None:   # q = s - p
            if c1.kind == 'eq':
                v = s
                ok = v >= 0 if c2.kind == 'ge' else v > 0 if c2.kind == 'gt' else v == 0
                return 'implies' if ok else 'contra'
            if c2.kind == 'eq':
                if s < 0 or (s == 0 and c1.kind == 'gt'):
                    return 'contra'
            else:
                if s < 0 or (s == 0 and ('gt' in (c1.kind, c2.kind))):
                    return 'contra'
    return None


def solve_atom(p):
    """p == 0 with p linear int: returns (atom, Poly) to eliminate an index atom, or None"""
    best = None
    for m, c in p.mons.items():
        if len(m) == 1 and abs(c) == 1:
            (f, e), = m
            if e == 1 and f.kind in ('var', 'bv') and f.sort == 'I':
                rest = scale(p - scale(P(f), c), -1 / c)
                if f in rest.fv:
                    continue
                # prefer eliminating bound/bv, then larger uid
                rank = (2 if f.kind == 'bv' else 1 if f.rng is not None else 0, f.uid)
                if best is None or rank > best[0]:
                    best = (rank, f, rest)
    if best is None:
        return None
    return best[1], best[2]


def atom_pow(p, e):
    return power(p, e)


def power(p, e):
    e = Fraction(e)
    if e == 1:
        return p
    if e == 0:
        return ONE
    if e.denominator == 1 and e > 0:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    c = p._const
    if c is not None:
        return const_power(c, e)
    if len(p.mons) == 1:
        (m, c), = p.mons.items()
        return _mono_power(m, c, e)
    # content extraction
    core, cont_c, cont_m = content(p, e.denominator == 1)
    r = mkpoly({frozenset([(PAtom(core), e)]): F1})
    if cont_c != 1:
        r = mul(r, const_power(cont_c, e))
    for f, k in cont_m:
        r = mul(r, _factor_power(f, k, e))
    return r


def const_power(c, e):
    if e.denominator == 1:
        if c == 0:
            return P(App('nan', (ONE,), 'R'))
        return K(c ** int(e))
    if c == 0 and e > 0:
        return ZERO
    if c > 0:
        # c^(a/b): extract perfect b-th powers of numerator/denominator
        b = e.denominator
        num, den = c.numerator, c.denominator
        if b == 2:
            # c = num/den ; sqrt(c) = sqrt(num*den)/den
            n = num * den
            s, t = _sqfree(n)
            base = Fraction(s, den)
            fl = int(e * 2)      # c^(fl/2) = (s/den)^fl * sqrt(t)^fl
            r = K(base ** fl)
            if t != 1:
                q, rem = divmod(fl, 2)
                r = mul(r, K(Fraction(t) ** q))
                if rem:
                    r = mul(r, mkpoly({frozenset([(PAtom(K(t)), Fraction(1, 2))]): F1}))
            return r
        nr, dr = _iroot(num, b), _iroot(den, b)
        if nr is not None and dr is not None:
            return K(Fraction(nr, dr) ** e.numerator)
    return mkpoly({frozenset([(PAtom(K(c)), e)]): F1})


def _iroot(n, b):
    r = round(n ** (1.0 / b))
    for k in (r - 1, r, r + 1):
        if k >= 0 and k ** b == n:
            return k
    return None


def _sqfree(n):
    s, t = 1, n
    d = 2
    while d * d <= t and d < 100000:
        while t % (d * d) == 0:
            t //= d * d
            s *= d
        d += 1
    return s, t


def _factor_power(f, k, e):
    """(f^k)^e where allowed"""
    if f.kind == 'app' and f.name == 'exp':
        return texp(scale(f.args[0], k * e))
    if f.kind == 'ind':
        if e > 0:
            return P(f)
        return mkpoly({frozenset([(PAtom(P(f)), e)]): F1})
    x = norm_mono({f: k * e})
    return x if isinstance(x, Poly) else mkpoly({x: F1})


def _mono_power(m, c, e):
    if e.denominator == 1:
        r = K(c ** int(e))
        for f, k in m:
            r = mul(r, _factor_power(f, k, e))
        return r
    # fractional: pull out known-nonneg parts, positive coefficient
    r = ONE
    inside = {}
    cc = c
    if c > 0:
        r = const_power(c, e)
        cc = F1
    else:
        r = const_power(-c, e)
        cc = -F1
    for f, k in m:
        if f.sign in ('>=', '>') or (f.kind == 'P' and (k.denominator != 1 or nonneg(f.args[0]))):
            r = mul(r, _factor_power(f, k, e))
        else:
            inside[f] = k
    if inside or cc != 1:
        if cc == 1 and len(inside) == 1:
            (f, k), = inside.items()
            if k.denominator == 1 and k % 2 != 0:
                # sqrt(x^k), k odd: definedness gives x>=0
                return mul(r, _factor_power(f, k, e))
        q = mkpoly({frozenset(inside.items()): cc})
        r = mul(r, mkpoly({frozenset([(PAtom(q), e)]): F1}))
    return r


def content(p, integer):
    """p = cont_c * prod(cont_m) * core, core primitive with positive leading coefficient (if integer exponent)"""
    num = 0
    den = 1
    for c in p.mons.values():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    cont = Fraction(num, den)
    lead = max(p.mons, key=mono_key)
    if integer and p.mons[lead] < 0:
        cont = -cont
    common = None
    for m in p.mons:
        dm = {f: e for f, e in m if f.kind not in ('ind',)}
        if common is None:
            common = dict(dm)
        else:
            for f in list(common):
                if f in dm:
                    a, b = common[f], dm[f]
                    if (a > 0) != (b > 0):
                        del common[f]
                    else:
                        common[f] = min(a, b) if a > 0 else max(a, b)
                else:
                    del common[f]
        if not common:
            break
    # also negative exponents: pull lowest negative exponent so that core has none (only Laurent monomials)
    low = {}
    for m in p.mons:
        for f, e in m:
            if e < 0 and f.kind != 'P':
                low[f] = min(low.get(f, F0), e)
    for f, e in low.items():
        common = dict(common or {})
        common[f] = e if f not in common else min(common[f], e)
    if common and not integer:
        common = {f: e for f, e in common.items() if f.sign in ('>=', '>') or (e.denominator == 1 and e % 2 == 0 and False)}
    core = scale(p, 1 / cont)
    if common:
        inv = ONE
        for f, e in common.items():
            inv = mul(inv, _factor_power(f, e, Fraction(-1)))
        core = mul(core, inv)
    return core, cont, tuple((common or {}).items())


def mono_key(m):
    return tuple(sorted((f.uid, e) for f, e in m))


# ---------------------------------------------------------------- functions
def texp(p):
    if p._const == 0:
        return ONE
    # exp(a + k*log x) = x^k exp(a)
    d = {}
    outs = []
    for m, c in p.mons.items():
        if len(m) == 1:
            (f, e), = m
            if f.kind == 'app' and f.name == 'log' and e == 1 and c.denominator == 1:
                outs.append((f.args[0], c))
                continue
        d[m] = c
    if outs:
        r = texp(mkpoly(d))
        for q, c in outs:
            r = mul(r, power(q, c))
        return r
    return P(App('exp', (p,)))


def tlog(p):
    c = p._const
    if c is not None and c > 0:
        if c == 1:
            return ZERO
        r = ZERO
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in _factorint(n).items():
                r = add(r, scale(P(App('log', (K(q),))), s * k))
        return r
    if len(p.mons) == 1:
        (m, c), = p.mons.items()
        if c > 0 and m:
            r = tlog(K(c))
            unk = [(f, e) for f, e in m if not (_factor_pos(f, e))]
            if not unk or (len(unk) == 1 and (unk[0][1].denominator != 1 or unk[0][1] % 2 != 0)):
                for f, e in m:
                    if f.kind == 'app' and f.name == 'exp':
                        r = add(r, scale(f.args[0], e))
                    elif f.kind == 'app' and f.name == 'gamma':
                        r = add(r, scale(P(App('gammaln', f.args)), e))
                    elif f.kind == 'P':
                        r = add(r, scale(tlog(f.args[0]), e))
                    else:
                        r = add(r, scale(P(App('log', (P(f),))), e))
                return r
    else:
        core, cc, cm = content(p, True)
        if cc > 0 and cc != 1 and not cm:
            return add(tlog(K(cc)), P(App('log', (core,))))
        if cc > 0 and cm and all(f.sign == '>' for f, e in cm):
            r = add(tlog(K(cc)), P(App('log', (core,))))
            for f, e in cm:
                r = add(r, scale(P(App('log', (P(f),))), e))
            return r
    return P(App('log', (p,)))


def _factorint(n):
    out = {}
    d = 2
    while d * d <= n and d < 10000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def tsqrt(p):
    return power(p, Fraction(1, 2))


def tabs(p):
    if nonneg(p):
        return p
    if nonneg(neg(p)):
        return neg(p)
    return tmax(p, neg(p))


def tmax(a, b):
    return ite(gt(a, b), a, b)


def tmin(a, b):
    return ite(gt(b, a), a, b)


# ---------------------------------------------------------------- booleans
class Bool:
    """kind: T F ge gt eq bvar bapp not and or all"""
    __slots__ = ('kind', 'args', 'fv', 'h', 'uid', 'name')

    def __repr__(self):
        return show_bool(self)


def _mkbool(kind, args, name=None):
    key = ('bool', kind, args, name)

    def b():
        o = Bool()
        o.kind, o.args, o.name = kind, args, name
        fv = frozenset()
        h = 0
        for a in (args if not isinstance(args, frozenset) else tuple(args)):
            if isinstance(a, (Poly, Bool, Lam)):
                fv |= a.fv
                h = max(h, a.h)
        o.fv, o.h = fv, h
        return o
    return _intern(key, b)


def BVarB(name):
    """boolean variable, represented through an int 0/1-free atom for fv tracking"""
    a = Var(name, 'B')
    key = ('bool', 'bvar', a)

    def b():
        o = Bool()
        o.kind, o.args, o.name = 'bvar', (a,), name
        o.fv = frozenset([a])
        o.h = 0
        return o
    return _intern(key, b)


def BAtom(a):
    key = ('bool', 'bvar', a)

    def b():
        o = Bool()
        o.kind, o.args, o.name = 'bvar', (a,), a.name
        o.fv = frozenset([a])
        o.h = 0
        return o
    return _intern(key, b)


def bapp(name, args):
    return _mkbool('bapp', tuple(args), name)


class Lam:
    __slots__ = ('shape', 'body', 'base', 'fv', 'h', 'uid', 'kind')

    def __repr__(self):
        return '(\\%s. %s)' % (','.join('b%d<%s' % (self.base + 1 + i, show(s)) for i, s in enumerate(self.shape)), self.body)


def mklam(vars_, shape, body):
    """body with free int Vars vars_ -> closed Lam"""
    shape = tuple(shape)
    base = max([body.h] + [s.h for s in shape])
    body2 = subst(body, {v: P(BV(base + 1 + i)) for i, v in enumerate(vars_)}) if vars_ else body
    key = ('lam', shape, body2, base)

    def b():
        o = Lam()
        o.shape, o.body, o.base = shape, body2, base
        fv = body2.fv - frozenset(BV(base + 1 + i) for i in range(len(shape)))
        for s in shape:
            fv |= s.fv
        o.fv = fv
        o.h = base + len(shape)
        o.kind = 'lam'
        return o
    return _intern(key, b)


def lam_open(l, idx):
    """apply lambda to list of Poly"""
    return subst(l.body, {BV(l.base + 1 + i): t for i, t in enumerate(idx)})


TRUE = None
FALSE = None


def _norm_scale(p):
    num = 0
    den = 1
    for c in p.mons.values():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    if num == 0:
        return p
    return scale(p, Fraction(den, num))


def _tighten(p):
    """integer p >= 0: divide by gcd of non-constant coefficients, floor constant"""
    g = 0
    for m, c in p.mons.items():
        if m:
            g = math.gcd(g, abs(c.numerator))
    if g > 1:
        d = {m: c / g for m, c in p.mons.items() if m}
        d[EMPTY] = Fraction(math.floor(p.mons.get(EMPTY, F0) / g))
        return mkpoly(d)
    return p


def ge0(p):
    c = p._const
    if c is not None:
        return TRUE if c >= 0 else FALSE
    r = _inf_cmp(p)
    if r is not None:
        return TRUE if r > 0 else FALSE
    if nonneg(p):
        return TRUE
    p = _norm_scale(p)
    if p.is_int:
        p = _tighten(p)
    return _mkbool('ge', (p,))


def gt0(p):
    c = p._const
    if c is not None:
        return TRUE if c > 0 else FALSE
    r = _inf_cmp(p)
    if r is not None:
        return TRUE if r > 0 else FALSE
    if pos(p):
        return TRUE
    if nonneg(neg(p)):
        return FALSE
    p = _norm_scale(p)
    if p.is_int:
        return ge0(p - ONE)
    return _mkbool('gt', (p,))


INF = None


def _inf_cmp(p):
    """sign of p when it contains +-INF linearly, else None"""
    if INF not in p.fv:
        return None
    c = p.mons.get(frozenset([(INF, F1)]))
    if c is None:
        return None
    rest = p - scale(P(INF), c)
    if INF in rest.fv:
        return None
    return 1 if c > 0 else -1


def eq0(p):
    c = p._const
    if c is not None:
        return TRUE if c == 0 else FALSE
    if _inf_cmp(p) is not None:
        return FALSE
    if pos(p) or pos(neg(p)):
        return FALSE
    p = _norm_scale(p)
    lead = max(p.mons, key=mono_key)
    if p.mons[lead] < 0:
        p = neg(p)
    if p.is_int:
        g = 0
        for m, c in p.mons.items():
            if m:
                g = math.gcd(g, abs(c.numerator))
        if p.mons.get(EMPTY, F0) % g != 0:
            return FALSE
    return _mkbool('eq', (p,))


def ge(a, b):
    return ge0(P(a) - P(b))


def gt(a, b):
    return gt0(P(a) - P(b))


def le(a, b):
    return ge0(P(b) - P(a))


def lt(a, b):
    return gt0(P(b) - P(a))


def eq(a, b):
    return eq0(P(a) - P(b))


def bnot(b):
    k = b.kind
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'not':
        return b.args[0]
    if k == 'ge':
        p = b.args[0]
        if p.is_int:
            return ge0(neg(p) - ONE)
        return gt0(neg(p))
    if k == 'gt':
        return ge0(neg(b.args[0]))
    if k == 'and':
        return bor(*[bnot(x) for x in b.args])
    if k == 'or':
        return band(*[bnot(x) for x in b.args])
    return _mkbool('not', (b,))


def band(*bs):
    out = set()
    st = list(bs)
    while st:
        x = st.pop()
        if x.kind == 'T':
            continue
        if x.kind == 'F':
            return FALSE
        if x.kind == 'and':
            st.extend(x.args)
        else:
            out.add(x)
    for x in out:
        if bnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mkbool('and', frozenset(out))


def bor(*bs):
    out = set()
    st = list(bs)
    while st:
        x = st.pop()
        if x.kind == 'F':
            continue
        if x.kind == 'T':
            return TRUE
        if x.kind == 'or':
            st.extend(x.args)
        else:
            out.add(x)
    for x in out:
        if bnot(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _mkbool('or', frozenset(out))


def implies(a, b):
    return bor(bnot(a), b)


def ind(c):
    """Iverson bracket as Poly"""
    k = c.kind
    if k == 'T':
        return ONE
    if k == 'F':
        return ZERO
    if k == 'not':
        return ONE - ind(c.args[0])
    if k == 'and':
        r = ONE
        for x in sorted(c.args, key=lambda t: t.uid):
            r = mul(r, ind(x))
        return r
    if k == 'or':
        r = ONE
        for x in sorted(c.args, key=lambda t: t.uid):
            r = mul(r, ONE - ind(x))
        return ONE - r
    if k == 'ge':
        p = c.args[0]
        if p.is_int:
            lead = max((m for m in p.mons if m), key=mono_key)
            if p.mons[lead] < 0:
                return ONE - P(IndAtom(ge0(neg(p) - ONE)))
            return P(IndAtom(c))
        return ONE - P(IndAtom(gt0(neg(p)))) if gt0(neg(p)).kind == 'gt' else ONE - ind(gt0(neg(p)))
    return P(IndAtom(c))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c.kind == 'T':
        return a
    if c.kind == 'F':
        return b
    if a is b:
        return a
    diff = a - b
    if c.kind in ('ge', 'gt'):
        p = c.args[0]
        # diff proportional to p: use the canonical bracket [q>0] with q = +-p
        r = proportional(diff, p)
        if r is not None:
            core, cc, cm = p, F1, ()
            lead = max(p.mons, key=mono_key)
            q, s = (p, r) if p.mons[lead] > 0 else (neg(p), -r)
            # diff = s*q ; bracket on p
            qb = gt0(q)
            if qb.kind in ('gt', 'ge'):
                iq = P(IndAtom(qb)) if not (qb.kind == 'ge') else ind(qb)
                if q is p:
                    return b + mul(scale(q, s), iq)
                # c is (-q > 0) or (-q >= 0):  q*[c] = q - q*[q>0]
                return b + scale(q, s) - mul(scale(q, s), iq)
    return b + mul(ind(c), diff)


def proportional(d, p):
    if len(d.mons) != len(p.mons):
        return None
    r = None
    for m, c in d.mons.items():
        c2 = p.mons.get(m)
        if c2 is None:
            return None
        q = c / c2
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def forall(vars_, ranges, body):
    """vars_: list of int Vars; 0<=v<range"""
    if body.kind in ('T', 'F') and body.kind == 'T':
        return TRUE
    live = [(v, r) for v, r in zip(vars_, ranges)]
    if body.kind == 'and':
        return band(*[forall(vars_, ranges, x) for x in body.args])
    # drop vars not in the body only when range known positive (keep otherwise)
    base = max([body.h] + [r.h for _, r in live])
    sub = {v: P(BV(base + 1 + i)) for i, (v, r) in enumerate(live)}
    b2 = subst(body, sub)
    if b2.kind == 'T':
        return TRUE
    rs = tuple(subst(r, {}) for _, r in live)
    key = ('bool', 'all', rs, b2, base)

    def b():
        o = Bool()
        o.kind, o.args, o.name = 'all', (rs, b2), base
        fv = b2.fv - frozenset(BV(base + 1 + i) for i in range(len(rs)))
        for r in rs:
            fv |= r.fv
        o.fv, o.h = fv, base + len(rs)
        return o
    return _intern(key, b)


def exists(vars_, ranges, body):
    return bnot(forall(vars_, ranges, bnot(body)))


# ---------------------------------------------------------------- sums
def tsum(v, n, body):
    """sum_{0<=v<n} body ; v int Var"""
    n = P(n)
    c = n._const
    if c is not None and c <= 12:
        return addmany([subst(body, {v: K(i)}) for i in range(max(0, int(c)))])
    if v not in body.fv:
        return mul(n, body)
    return addmany([scale(_sum_mono(v, n, m), co) for m, co in body.mons.items()])


def in_range(t, n):
    """Bool: 0<=t<n, resolved syntactically when t is an index variable with that range"""
    t = P(t)
    if len(t.mons) == 1:
        (m, c), = t.mons.items()
        if c == 1 and len(m) == 1:
            (f, e), = m
            if e == 1 and f.kind == 'var' and f.rng is not None and f.rng is n:
                return TRUE
            if e == 1 and f.kind == 'app' and f.name in ('argmin', 'nth') and f.meta is not None and f.meta is n:
                return TRUE
    return band(ge0(t), gt0(n - t))


def _sum_mono(v, n, m):
    dep = [(f, e) for f, e in m if v in f.fv]
    out = frozenset((f, e) for f, e in m if v not in f.fv)
    if not dep:
        return mul(n, mkpoly({out: F1}))
    # delta elimination
    for f, e in dep:
        if f.kind == 'ind' and f.args[0].kind == 'eq':
            t = _solve_for(f.args[0].args[0], v)
            if t is not None:
                r = ind(in_range(t, n))
                for g, e2 in m:
                    if g is not f:
                        r = mul(r, power(subst_atom(g, {v: t}), e2))
                return r
    # shifted-interval brackets  [v >= a], [v < b]
    for f, e in dep:
        if f.kind == 'ind' and f.args[0].kind == 'ge':
            p = f.args[0].args[0]
            cv = p.mons.get(frozenset([(v, F1)]))
            if cv is not None and abs(cv) == 1 and v not in (p - scale(P(v), cv)).fv:
                rest = p - scale(P(v), cv)
                lo_hi = None
                if cv == -1:      # v <= rest  : upper bound rest+1
                    up = rest + ONE
                    s = _min_known(up, n)
                    if s is not None:
                        body = mkpoly({frozenset(x for x in m if x[0] is not f): F1})
                        return tsum(v, s, body)
                else:             # v >= -rest : lower bound lo
                    lo = neg(rest)
                    s = _min_known(lo, n)
                    if s is not None:
                        body = mkpoly({frozenset(x for x in m if x[0] is not f): F1})
                        return tsum(v, n, body) - tsum(v, s, body)
    # index occurrences v-k: count from the smallest one
    c0 = n.mons.get(frozenset())
    if c0 is not None and c0 >= 1 and n._const is None:
        offs = set()
        for f, e in dep:
            _offsets(f, v, offs, set())
        if None not in offs and offs and min(offs) < 0:
            k = int(-min(offs))
            if nonneg(n - K(k)):
                body = mkpoly({frozenset(dep): F1})
                r = addmany([subst(body, {v: K(i)}) for i in range(k)] + [tsum(v, n - K(k), subst(body, {v: P(v) + K(k)}))])
                return mul(mkpoly({out: F1}), r)
    # open existing sum atoms depending on v (with exponent 1 or natural) and merge binders
    return mul(mkpoly({out: F1}), _mk_sum_component([v], [n], dep))


def _offsets(t, v, acc, seen):
    """constants c of the integer arguments v+c in t (None: v occurs in another way)"""
    if t in seen or v not in t.fv:
        return
    seen.add(t)
    if isinstance(t, Poly):
        cv = t.mons.get(frozenset([(v, F1)]))
        if cv is not None and t.is_int:
            rest = t - scale(P(v), cv)
            acc.add(rest._const if cv == 1 and rest._const is not None else None)
            return
        for m in t.mons:
            for f, e in m:
                if f is v:
                    acc.add(None)
                else:
                    _offsets(f, v, acc, seen)
    elif isinstance(t, Lam):
        for x in t.shape:
            _offsets(x, v, acc, seen)
        _offsets(t.body, v, acc, seen)
    elif isinstance(t, Bool):
        acc.add(None)
    elif t.kind == 'sum':
        for x in t.args[0]:
            _offsets(x, v, acc, seen)
        for f, e in t.args[1]:
            _offsets(f, v, acc, seen)
    elif t.kind == 'ind':
        acc.add(None)
    else:
        for x in t.args:
            if isinstance(x, (Poly, Bool, Lam)):
                _offsets(x, v, acc, seen)
            elif x is v:
                acc.add(None)




_minhook = [None]


def _min_known(a, n):
    """if 0<=a<=n is known return a; used to split sums; hook to a prover context"""
    if a is n:
        return n
    c = a._const
    if c is not None and c <= 0:
        return ZERO
    h = _minhook[0]
    if h is not None:
        return h(a, n)
    return None


def _mk_sum_component(vars_, ranges, factors):
    """factors: list of (atom, exp) each depending on some var. Returns Poly.
    Merges nested sum atoms which depend on the variables, splits into connected components."""
    vars_ = list(vars_)
    ranges = list(ranges)
    work = list(factors)
    flat = []
    changed = False
    while work:
        f, e = work.pop()
        if f.kind == 'sum' and e.denominator == 1 and e > 0 and e <= 4:
            for _ in range(int(e)):
                vs, rs, fs = open_sum(f)
                vars_ += vs
                ranges += rs
                work.extend(fs)
            changed = True
        else:
            flat.append((f, e))
    if changed:
        # re-normalise the flat product, it may have become a polynomial
        d = {}
        for f, e in flat:
            d[f] = d.get(f, F0) + e
        x = norm_mono(d)
        if not isinstance(x, frozenset):
            r = x
            for v, n in reversed(list(zip(vars_, ranges))):
                r = tsum(v, n, r)
            return r
        flat = list(x)
    if len(vars_) > 7:
        raise TermLimit('too many binders')
    vset = set(vars_)
    # check delta elimination again for new binders
    if changed:
        for f, e in flat:
            if f.kind == 'ind' and f.args[0].kind == 'eq' and (f.fv & vset):
                for v in f.fv & vset:
                    if _solve_for(f.args[0].args[0], v) is not None:
                        r = mkpoly({frozenset(flat): F1})
                        order = [u for u in vars_ if u is not v] + [v]
                        rng = dict(zip(vars_, ranges))
                        for u in reversed(order):
                            r = tsum(u, rng[u], r)
                        return r
    # connected components
    comps = []
    outside = []
    for f, e in flat:
        fvv = f.fv & vset
        if not fvv:
            outside.append((f, e))
            continue
        merged = [c for c in comps if c[0] & fvv]
        nf = set(fvv)
        fl = [(f, e)]
        for c in merged:
            nf |= c[0]
            fl += c[1]
            comps.remove(c)
        comps.append((nf, fl))
    used = set()
    r = mkpoly({frozenset(outside): F1}) if outside else ONE
    rngof = dict(zip(vars_, ranges))
    for vs, fl in comps:
        used |= vs
        vs = [v for v in vars_ if v in vs]
        r = mul(r, _canon_sum(vs, [rngof[v] for v in vs], fl))
    for v in vars_:
        if v not in used:
            r = mul(r, rngof[v])
    return r


_canoncache = {}


def _canon_sum(vs, rs, fl):
    m = len(vs)
    base = max([f.h for f, e in fl] + [r.h for r in rs])
    best = None
    if m == 1:
        perms = [(0,)]
    else:
        # signature-based pruning: group by (range uid, multiset of incident factor signatures)
        sigs = []
        for i, v in enumerate(vs):
            s = []
            for f, e in fl:
                if v in f.fv:
                    s.append((f.kind, str(f.name) if f.kind == 'app' else '', e, len([u for u in vs if u in f.fv]),
                              _occ_sig(f, v)))
            s.sort(key=repr)
            sigs.append((rs[i].uid, repr(s)))
        groups = {}
        for i, s in enumerate(sigs):
            groups.setdefault(s, []).append(i)
        keys = sorted(groups)
        perms = [()]
        for k in keys:
            g = groups[k]
            perms = [p + q for p in perms for q in permutations(g)]
            if len(perms) > 5040:
                raise TermLimit('too many binder permutations')
    bvs = [BV(base + 1 + i) for i in range(m)]
    for p in perms:
        sub = {vs[p[i]]: P(bvs[i]) for i in range(m)}
        d = {}
        ok = True
        coef = F1
        for f, e in fl:
            q = power(subst_atom(f, sub), e)
            # substitution of index vars by bvs keeps monomials monomials except sign-canonicalisation
            if len(q.mons) != 1:
                ok = False
                break
            (qm, qc), = q.mons.items()
            coef *= qc
            for a, ea in qm:
                d[a] = d.get(a, F0) + ea
        if not ok:
            # a bracket flips sign under this renaming: not an admissible order
            continue
        fs = frozenset(d.items())
        rr = tuple(rs[p[i]] for i in range(m))
        key = (tuple(sorted((f.uid, e) for f, e in fs)), tuple(r.uid for r in rr))
        if best is None or key < best[0]:
            best = (key, rr, fs, coef)
    if best is None:
        raise TermLimit('no admissible binder order')
    return scale(P(SumAtomRaw(best[1], best[2], base)), best[3])


SYM_APPS = {}      # app name -> set of argument positions that are interchangeable


def _occ_sig(f, v):
    """positions at which v occurs directly as an argument of f"""
    if f.kind == 'app':
        sp = SYM_APPS.get(f.name)
        if sp is None:
            return tuple(i for i, a in enumerate(f.args) if isinstance(a, (Poly, Lam, Bool)) and v in a.fv)
        m = min(sp)
        return tuple(sorted(m if i in sp else i for i, a in enumerate(f.args) if isinstance(a, (Poly, Lam, Bool)) and v in a.fv))
    return ()


def _as_atom(p):
    if len(p.mons) == 1:
        (m, c), = p.mons.items()
        if c == 1 and len(m) == 1:
            (f, e), = m
            if e == 1:
                return f
    return None


def open_sum(a):
    ranges, factors = a.args
    base = a.name
    vs = []
    for i in range(a.m):
        vs.append(fresh('s', 'I', '>=', ranges[i]))
    sub = {BV(base + 1 + i): P(vs[i]) for i in range(a.m)}
    d = {}
    rest = ONE
    fs = []
    for f, e in factors:
        rest = mul(rest, power(subst_atom(f, sub), e))
    if len(rest.mons) == 1:
        (m, c), = rest.mons.items()
        if c == 1:
            return vs, list(ranges), list(m)
    raise TermLimit('open_sum flip')


def _solve_for(p, v):
    c = p.mons.get(frozenset([(v, F1)]))
    if c is None:
        return None
    rest = p - scale(P(v), c)
    if v in rest.fv:
        return None
    t = scale(rest, -1 / c)
    if not t.is_int:
        return None
    return t


# ---------------------------------------------------------------- substitution
def subst(t, s):
    """t: Poly | Bool | Lam ; s: {Atom: Poly}"""
    if not s:
        return t
    ks = frozenset(s)
    if not (t.fv & ks):
        return t
    memo = {}
    return _subst(t, s, ks, memo)


def subst_atom(a, s):
    ks = frozenset(s)
    if not (a.fv & ks):
        return P(a)
    return _subst_atom(a, s, ks, {})


def _subst(t, s, ks, memo):
    if not (t.fv & ks):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if isinstance(t, Poly):
        parts = []
        simple = {}
        for m, c in t.mons.items():
            if not any(f.fv & ks for f, e in m):
                simple[m] = simple.get(m, F0) + c
                continue
            r = K(c)
            keep = {}
            for f, e in m:
                if f.fv & ks:
                    r = mul(r, power(_subst_atom(f, s, ks, memo), e))
                else:
                    keep[f] = e
            if keep:
                r = mul(r, mkpoly({frozenset(keep.items()): F1}))
            parts.append(r)
        r = addmany([mkpoly(simple)] + parts)
    elif isinstance(t, Bool):
        k = t.kind
        if k == 'ge':
            r = ge0(_subst(t.args[0], s, ks, memo))
        elif k == 'gt':
            r = gt0(_subst(t.args[0], s, ks, memo))
        elif k == 'eq':
            r = eq0(_subst(t.args[0], s, ks, memo))
        elif k == 'not':
            r = bnot(_subst(t.args[0], s, ks, memo))
        elif k == 'and':
            r = band(*[_subst(x, s, ks, memo) for x in t.args])
        elif k == 'or':
            r = bor(*[_subst(x, s, ks, memo) for x in t.args])
        elif k == 'bvar':
            x = s[t.args[0]]
            r = x if isinstance(x, Bool) else eq0(x - ONE)
        elif k == 'bapp':
            r = bapp(t.name, [_subst(x, s, ks, memo) if isinstance(x, (Poly, Bool, Lam)) else x for x in t.args])
        elif k == 'all':
            rs, body = t.args
            base = t.name
            vs = [fresh('q', 'I', '>=') for _ in rs]
            b2 = subst(body, {BV(base + 1 + i): P(v) for i, v in enumerate(vs)})
            b2 = _subst(b2, s, ks, {}) if (b2.fv & ks) else b2
            rs2 = [_subst(x, s, ks, memo) for x in rs]
            r = forall(vs, rs2, b2)
        else:
            raise AssertionError(k)
    elif isinstance(t, Lam):
        vs = [fresh('l', 'I', '>=') for _ in t.shape]
        b = subst(t.body, {BV(t.base + 1 + i): P(v) for i, v in enumerate(vs)})
        b = _subst(b, s, ks, {}) if (b.fv & ks) else b
        r = mklam(vs, [_subst(x, s, ks, memo) for x in t.shape], b)
    else:
        raise AssertionError(type(t))
    memo[t] = r
    return r


REBUILD = {}     # app name -> smart constructor(args) -> Poly


def _subst_atom(a, s, ks, memo):
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k in ('var', 'bv'):
        r = s.get(a)
        r = P(a) if r is None else (ind(r) if isinstance(r, Bool) else r)
    elif k == 'app':
        args = [_subst(x, s, ks, memo) if isinstance(x, (Poly, Bool, Lam)) else x for x in a.args]
        r = mkapp(a.name, args, a.sort, a.sign)
    elif k == 'P':
        r = _subst(a.args[0], s, ks, memo)
        # caller applies exponent through power(); P(p)^1 == p
    elif k == 'ind':
        r = ind(_subst(a.args[0], s, ks, memo))
    elif k == 'sum':
        ranges, factors = a.args
        base = a.name
        vs = [fresh('s', 'I', '>=', None) for _ in range(a.m)]
        rs2 = [_subst(x, s, ks, memo) for x in ranges]
        vs = [fresh('s', 'I', '>=', rs2[i]) for i in range(a.m)]
        sub = dict(s)
        for i in range(a.m):
            sub[BV(base + 1 + i)] = P(vs[i])
        ks2 = frozenset(sub)
        body = ONE
        for f, e in factors:
            body = mul(body, power(_subst_atom(f, sub, ks2, {}) if (f.fv & ks2) else P(f), e))
        r = body
        for v, n in reversed(list(zip(vs, rs2))):
            r = tsum(v, n, r)
    else:
        raise AssertionError(k)
    memo[a] = r
    return r


def mkapp(name, args, sort='R', sign=None):
    f = REBUILD.get(name)
    if f is not None:
        r = f(args)
        if r is not None:
            return r
    return P(App(name, args, sort, sign))


REBUILD['exp'] = lambda a: texp(a[0])
REBUILD['log'] = lambda a: tlog(a[0])


# fold special applications of arrays whose body is simple
def _lam_is_zero(l):
    return isinstance(l, Lam) and isinstance(l.body, Poly) and l.body is ZERO


# ---------------------------------------------------------------- display
def show(p):
    if p._const is not None:
        return str(p._const)
    out = []
    for m, c in sorted(p.mons.items(), key=lambda t: mono_key(t[0])):
        fs = []
        for f, e in sorted(m, key=lambda t: t[0].uid):
            s = show_atom(f)
            if e != 1:
                s += '^%s' % (e if e.denominator == 1 and e > 0 else '(%s)' % e)
            fs.append(s)
        s = '*'.join(fs)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c if c.denominator == 1 else '(%s)' % c, s)
        out.append(s)
    return ' + '.join(out)


def show_atom(a):
    k = a.kind
    if k == 'var':
        return a.name
    if k == 'bv':
        return 'b%d' % a.name
    if k == 'app':
        return '%s(%s)' % (a.name, ', '.join(map(str, a.args)))
    if k == 'P':
        return '{%s}' % show(a.args[0])
    if k == 'ind':
        return '[%s]' % show_bool(a.args[0])
    if k == 'sum':
        ranges, factors = a.args
        return 'SUM{%s}(%s)' % (', '.join('b%d<%s' % (a.name + 1 + i, show(r)) for i, r in enumerate(ranges)),
                                show(mkpoly({factors: F1})))
    return '?'


def show_bool(b):
    k = b.kind
    if k == 'T':
        return 'True'
    if k == 'F':
        return 'False'
    if k in ('ge', 'gt', 'eq'):
        return '%s %s 0' % (show(b.args[0]), {'ge': '>=', 'gt': '>', 'eq': '=='}[k])
    if k == 'not':
        return '!(%s)' % show_bool(b.args[0])
    if k == 'and':
        return '(' + ' & '.join(show_bool(x) for x in b.args) + ')'
    if k == 'or':
        return '(' + ' | '.join(show_bool(x) for x in b.args) + ')'
    if k == 'bvar':
        return str(b.name)
    if k == 'bapp':
        return '%s(%s)' % (b.name, ', '.join(map(str, b.args)))
    if k == 'all':
        rs, body = b.args
        return 'ALL{%s}(%s)' % (', '.join('b%d<%s' % (b.name + 1 + i, show(r)) for i, r in enumerate(rs)), show_bool(body))
    return '?'


ZERO = K(0)
ONE = K(1)
TRUE = _mkbool('T', ())
FALSE = _mkbool('F', ())
INF = Var('inf', 'R', '>')
PI = Var('pi', 'R', '>')


# ---------------------------------------------------------------- differentiation
def diff(p, x, idx=None):
    """partial derivative of p; x: a free variable, or an application name with idx (tuple of Poly):
    d name(t)/d name(idx) = [t == idx].  Factors are differentiated where they are differentiable."""
    out = []
    for m, c in p.mons.items():
        fl = list(m)
        for i, (f, e) in enumerate(fl):
            df = diff_atom(f, x, idx)
            if df is ZERO:
                continue
            rest = mkpoly({frozenset(fl[:i] + fl[i + 1:]): F1}) if len(fl) > 1 else ONE
            base = f.args[0] if f.kind == 'P' else P(f)
            out.append(scale(mul(mul(rest, df), power(base, e - 1)), c * e))
    return addmany(out) if out else ZERO


def diff_atom(f, x, idx):
    k = f.kind
    if idx is None:
        if x not in f.fv:
            return ZERO
    if k in ('var', 'bv'):
        return ONE if (idx is None and f is x) else ZERO
    if k == 'P':
        return diff(f.args[0], x, idx)
    if k == 'app':
        if idx is not None and f.name == x:
            return ind(band(*[eq(a, b) for a, b in zip(f.args, idx)]))
        if f.name == 'exp':
            return mul(P(f), diff(f.args[0], x, idx))
        if f.name == 'log':
            return mul(power(f.args[0], -1), diff(f.args[0], x, idx))
        if all(not isinstance(a, (Poly, Lam, Bool)) or not mentions(a, x) for a in f.args):
            return ZERO
        raise TermLimit('derivative of %s' % f.name)
    if k == 'ind':
        if mentions(f.args[0], x):
            raise TermLimit('derivative of a bracket')
        return ZERO
    if k == 'sum':
        vs, rs, fs = open_sum(f)
        b = ONE
        for g, e in fs:
            b = mul(b, power(P(g), e))
        r = diff(b, x, idx)
        for v, n in reversed(list(zip(vs, rs))):
            r = tsum(v, n, r)
        return r
    raise AssertionError(k)


def mentions(t, x):
    """does the variable or the function symbol x occur in t"""
    if isinstance(x, Atom):
        return x in t.fv
    seen = set()

    def go(t):
        if t in seen:
            return False
        seen.add(t)
        if isinstance(t, Poly):
            return any(goa(f) for m in t.mons for f, e in m)
        if isinstance(t, Bool):
            return any(go(y) for y in (t.args if t.kind != 'all' else tuple(t.args[0]) + (t.args[1],)) if isinstance(y, (Poly, Bool, Lam)))
        if isinstance(t, Lam):
            return go(t.body)
        return False

    def goa(f):
        if f.kind == 'app':
            return f.name == x or any(go(y) for y in f.args if isinstance(y, (Poly, Bool, Lam)))
        if f.kind in ('P', 'ind'):
            return go(f.args[0])
        if f.kind == 'sum':
            return any(goa(g) for g, e in f.args[1])
        return False
    return go(t)
