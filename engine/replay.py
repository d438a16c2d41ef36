"""Concrete replay: evaluate a call's symbolic inputs under an interpretation, run the real function on them,
compare with what the symbolic execution says it returns."""
import json
import math
import os
import subprocess
from . import terms as T
from . import prove
from . import loops
from .terms import P, K, Poly, Bool
from .values import *

PY = '/opt/venv/bin/python'
SERVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracles', 'replay_server.py')


class NoReplay(Exception):
    pass


def snap(I, v):
    """immutable picture of a value at this moment"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return ('c', v)
    if isinstance(v, Num):
        return ('n', v.p, v.kind)
    if isinstance(v, BoolV):
        return ('b', v.b)
    if isinstance(v, Arr):
        return ('a', I.lam(v), I.dt(v))
    if isinstance(v, FArr):
        return ('a', v.lam, v.dt)
    if isinstance(v, tuple):
        return ('t', [snap(I, x) for x in v])
    if isinstance(v, FList):
        return ('l', [snap(I, x) for x in v.items])
    if isinstance(v, FDict):
        return ('d', [(k, snap(I, x)) for k, x in v.d.items()])
    if isinstance(v, DictV):
        return ('d', [(k, snap(I, x)) for k, x in I.heap[v.cell][1].items()])
    if isinstance(v, ListV):
        return ('l', [snap(I, x) for x in I.heap[v.cell][1]])
    if isinstance(v, Seg):
        return ('s', v.n, v.var, snap(I, v.tmpl))
    return ('x', type(v).__name__)


def names(s, acc):
    k = s[0]
    if k in ('n', 'b'):
        acc |= set(loops.symnames(s[1]))
    elif k == 'a':
        acc |= set(loops.symnames(s[1]))
    elif k in ('t', 'l'):
        for x in s[1]:
            names(x, acc)
    elif k == 'd':
        for _, x in s[1]:
            names(x, acc)
    elif k == 's':
        acc |= set(loops.symnames(s[1]))
        names(s[3], acc)
    elif k == 'x':
        acc.add('@' + s[1])
    return acc


def num(x):
    if isinstance(x, complex):
        raise NoReplay('complex')
    return float(x)


def conc(it, s):
    """tagged JSON value under the interpretation"""
    k = s[0]
    if k == 'c':
        return ['c', s[1]] if not (isinstance(s[1], float) and not math.isfinite(s[1])) else ['f', repr(s[1])]
    if k == 'n':
        v = it.poly(s[1])
        if s[2] in ISINT:
            return ['i', int(v), s[2]]
        return ['f', repr(float(v)), s[2]]
    if k == 'b':
        return ['b', bool(it.bool(s[1]))]
    if k == 'a':
        shape, flat = it.lam(s[1])
        if any(d < 0 for d in shape):
            raise NoReplay('negative size')
        return ['a', list(shape), [repr(float(x)) if not isinstance(x, bool) else x for x in flat], s[2]]
    if k == 't':
        return ['t', [y for x in s[1] for y in many(it, x)]]
    if k == 'l':
        return ['l', [y for x in s[1] for y in many(it, x)]]
    if k == 'd':
        return ['d', [[kk, conc(it, x)] for kk, x in s[1]]]
    raise NoReplay('opaque %s' % (s[1],))


def many(it, s):
    if s[0] != 's':
        return [conc(it, s)]
    n = int(it.poly(s[1]))
    out = []
    for i in range(n):
        it.memo = {}
        old = it.vals.get(s[2])
        it.vals[s[2]] = i
        try:
            out.append(conc(it, s[3]))
        finally:
            if old is None:
                it.vals.pop(s[2], None)
            else:
                it.vals[s[2]] = old
            it.memo = {}
    return out


def concrete_call(it, rec):
    return {'fn': rec['fn'], 'args': [conc(it, a) for a in rec['args']], 'kwargs': {k: conc(it, v) for k, v in rec['kwargs'].items()}}


def expected(it, rec):
    if 'exc' in rec:
        return ['e', rec['exc']]
    return conc(it, rec['res'])


def decided(rec):
    """the result is a function of the arguments through functions whose meaning is fixed"""
    if 'exc' not in rec and 'res' not in rec:
        return False
    known = set(prove.NUM_APPS) | set(prove.NUM_BAPPS) | {'pi', 'inf', 'PI', 'INF'}
    a = set()
    for s in list(rec['args']) + list(rec['kwargs'].values()):
        names(s, a)
    if any(x.startswith('@') for x in a):
        return False
    r = names(rec['res'], set()) if 'res' in rec else set()
    return all(x in known or x in a for x in r)


def close(a, b, tol=1e-6):
    """compare two tagged values; scalars of any kind are compared by value"""
    def val(x):
        if x[0] == 'c' and isinstance(x[1], (bool, int, float)):
            return float(x[1])
        if x[0] in ('i', 'f', 'b'):
            return float(x[1])
        if x[0] == 'a' and x[1] == []:
            return float(x[2][0])
        return None
    va, vb = val(a), val(b)
    if va is not None or vb is not None:
        if va is None or vb is None:
            return False
        return va == vb or abs(va - vb) <= tol * max(1.0, abs(va), abs(vb))
    if a[0] != b[0]:
        return False
    if a[0] == 'a':
        return a[1] == b[1] and all(x == y or abs(float(x) - float(y)) <= tol * max(1.0, abs(float(x)), abs(float(y))) for x, y in zip(a[2], b[2]))
    if a[0] in ('t', 'l'):
        return len(a[1]) == len(b[1]) and all(close(x, y, tol) for x, y in zip(a[1], b[1]))
    if a[0] == 'd':
        x, y = {str(k): v for k, v in a[1]}, {str(k): v for k, v in b[1]}
        return x.keys() == y.keys() and all(close(x[k], y[k], tol) for k in x)
    return a[1] == b[1]


class Server:
    """the real code in a process of the repository's own interpreter"""

    def __init__(self, repo):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', VERIF_REPO=repo)
        self.p = subprocess.Popen([PY, SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  cwd='/', text=True)

    def call(self, req):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise NoReplay('server died')
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
