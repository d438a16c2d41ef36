"""Values manipulated by the symbolic interpreter."""
from fractions import Fraction
from . import terms as T
from .terms import P, K, Poly, Bool, Lam


class Unsupported(Exception):
    """construct outside the verified subset: the function is undecided, never a violation"""


class PyExc(Exception):
    """a Python exception raised by interpreted code"""

    def __init__(self, name, msg='', taint=False):
        Exception.__init__(self, name, msg)
        self.name, self.msg, self.taint = name, msg, taint


class Infeasible(Exception):
    pass


class Num:
    __slots__ = ('p', 'kind')

    def __init__(self, p, kind='float'):
        self.p, self.kind = p, kind

    def __repr__(self):
        return 'Num(%s:%s)' % (T.show(self.p)[:200], self.kind)


class BoolV:
    __slots__ = ('b', 'np')

    def __init__(self, b, np=False):
        self.b, self.np = b, np

    def __repr__(self):
        return 'BoolV(%s)' % self.b


class Arr:
    """array reference: heap cell + structured view.
    view None: the whole cell.  Otherwise (axes, shape) with axes a tuple, one entry per cell axis:
    ('fix', Poly) or ('ax', out_axis, start Poly, step int)."""
    __slots__ = ('cell', 'view', 'ro')

    def __init__(self, cell, view=None, ro=False):
        self.cell, self.view, self.ro = cell, view, ro

    def __repr__(self):
        return 'Arr#%s%s' % (self.cell, '' if self.view is None else 'v')


class ListV:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return 'List#%s' % self.cell


class DictV(ListV):
    __slots__ = ()

    def __repr__(self):
        return 'Dict#%s' % self.cell


class ObjV:
    __slots__ = ('cell', 'cls')

    def __init__(self, cell, cls):
        self.cell, self.cls = cell, cls

    def __repr__(self):
        return 'Obj#%s:%s' % (self.cell, getattr(self.cls, 'name', self.cls))


class Seg:
    """symbolic run of n elements; elem(i) = template with var replaced"""
    __slots__ = ('n', 'var', 'tmpl')

    def __init__(self, n, var, tmpl):
        self.n, self.var, self.tmpl = n, var, tmpl


class FArr:
    """frozen array value (inside list templates)"""
    __slots__ = ('lam', 'dt')

    def __init__(self, lam, dt):
        self.lam, self.dt = lam, dt


class PHSeg:
    """placeholder for the unknown prefix of a list in a loop body"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class SeqV:
    """an iterable of known (possibly symbolic) length: elem(i Poly) -> value"""
    __slots__ = ('n', 'elem', 'items')

    def __init__(self, n, elem, items=None):
        self.n, self.elem, self.items = n, elem, items


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class FuncV:
    def __init__(self, node, env, interp_module, name, qual=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.module, self.name, self.qual = node, env, interp_module, name, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.contract = None
        self.attrs = {}

    def __repr__(self):
        return 'Func(%s)' % (self.contract or self.qual or self.name)


class BoundV:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class BuiltinV:
    """library function: fn(I, args, kwargs)"""

    def __init__(self, name, fn, pure=True):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class ClassV:
    def __init__(self, name, bases, attrs, module=None):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.attrs:
                return c.attrs[n], c
        return None, None


class TypeV:
    """builtin or library type"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Type(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ModuleV:
    def __init__(self, name, ns=None, real=False):
        self.name, self.ns, self.real = name, ns if ns is not None else {}, real

    def __repr__(self):
        return 'Module(%s)' % self.name


class Opaque:
    """effect-free opaque value (loggers, typing objects, strings of unknown content)"""

    def __init__(self, name='opaque'):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class OpaqueFn:
    """caller-supplied callable: fn(I, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Undef:
    pass


def isnum(v):
    return isinstance(v, (int, float, Num, BoolV)) and not isinstance(v, str)


def tonum(v):
    """value -> Num"""
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num(K(int(v)), 'int')
    if isinstance(v, int):
        return Num(K(v), 'int')
    if isinstance(v, float):
        return Num(P(v), 'float')
    if isinstance(v, BoolV):
        return Num(T.ind(v.b), 'int')
    if type(v).__name__ == 'PHV':
        from . import loops
        loops.read_ph(v)
    raise Unsupported('number expected, got %r' % (v,))


def mkint(p, kind='int'):
    """int-valued Poly -> value"""
    if kind == 'int' and p.const is not None and p.const.denominator == 1:
        return int(p.const)
    return Num(p, kind)


def mkbool(b, np=False):
    if b.kind == 'T' and not np:
        return True
    if b.kind == 'F' and not np:
        return False
    if b.kind == 'T':
        return True
    if b.kind == 'F':
        return False
    return BoolV(b, np)


def tobool_term(v):
    if isinstance(v, bool):
        return T.TRUE if v else T.FALSE
    if isinstance(v, BoolV):
        return v.b
    raise Unsupported('bool expected, got %r' % (v,))


ISINT = ('int', 'npint')


class FList:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class FDict:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class FObj:
    __slots__ = ('cls', 'd')

    def __init__(self, cls, d):
        self.cls, self.d = cls, d


class BytesV:
    """the bytes of an array (ndarray.tobytes)"""
    __slots__ = ('lam', 'dt')

    def __init__(self, lam, dt):
        self.lam, self.dt = lam, dt

    def __eq__(self, o):
        return isinstance(o, BytesV) and o.lam is self.lam and o.dt == self.dt

    def __hash__(self):
        return hash((id(self.lam), self.dt))


class SymK:
    """a dictionary key of unknown value; equal only to itself, see Interp.key_eq"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, SymK) and (self.v is o.v or isinstance(self.v, BytesV) and self.v == o.v)

    def __hash__(self):
        return hash(self.v) if isinstance(self.v, BytesV) else id(self.v)


def has_sym(k):
    return isinstance(k, SymK) or isinstance(k, tuple) and any(has_sym(x) for x in k)
