"""Concrete replay oracles: run the real code of the repository against independent references.

Executed with the repository's own interpreter; every trial is determined by (property, seed, index).
"""
import importlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np


class Fail(Exception):
    def __init__(self, what, **inputs):
        Exception.__init__(self, what)
        self.what, self.inputs = what, inputs


class Skip(Exception):
    """the trial does not apply (precondition not met, name not available)"""


def show(v, depth=0):
    if isinstance(v, np.ndarray):
        if v.size > 400:
            return 'ndarray shape %s' % (v.shape,)
        return {'array': np.array2string(v, precision=17, threshold=500), 'shape': list(v.shape)}
    if isinstance(v, dict):
        return {str(k): show(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and depth < 3:
        return [show(x, depth + 1) for x in v[:20]]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:200]


def check(cond, what, **inputs):
    if not bool(cond):
        raise Fail(what, **inputs)


def close(a, b, what, rtol=1e-7, atol=1e-9, **inputs):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail('%s: shape %s, expected %s' % (what, a.shape, b.shape), got=a, expected=b, **inputs)
    with np.errstate(all='ignore'):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        raise Fail('%s: value differs' % what, got=a, expected=b, **inputs)


class Frozen:
    """remember arrays and check later that they are unchanged"""

    def __init__(self, **arrs):
        self.arrs = arrs
        self.copies = {k: _copy(v) for k, v in arrs.items()}

    def check(self, what):
        for k, v in self.arrs.items():
            if not _same(v, self.copies[k]):
                raise Fail('%s modified its argument %s' % (what, k), before=self.copies[k], after=v)


def _copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_copy(x) for x in v]
    return v


def _same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=b.dtype.kind == 'f')
    if isinstance(b, dict):
        return set(a) == set(b) and all(_same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def from_repo(tb, repo):
    """did the exception pass through repository code?"""
    fr = traceback.extract_tb(tb)
    return any(f.filename.startswith(repo + '/') for f in fr)


def guarded(call, what, **inputs):
    """run repository code on a valid input: an exception from it is a failure"""
    try:
        return call()
    except (Fail, Skip):
        raise
    except Exception as e:
        raise Fail('%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]), **inputs)


KNOWN_LITERALS = {20, 50, 100, 128, 200, 1000, 5000, 10000, 88888, 100000, 0.0, 1e-8, 1e-7, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.5, 1.96,
                  2.00001, 1e8}


def _literals():
    """numbers in the package's source that the oracles do not already aim at: sizes and values to try"""
    import ast
    ints, floats = set(), set()
    base = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'bayeso')
    for r, ds, fs in os.walk(base):
        for f in fs:
            if not f.endswith('.py') or 'plotting' in f or 'logger' in f:
                continue
            try:
                tree = ast.parse(open(os.path.join(r, f)).read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                v = getattr(n, 'value', None) if isinstance(n, ast.Constant) else None
                if isinstance(v, bool) or not isinstance(v, (int, float)) or v in KNOWN_LITERALS:
                    continue
                if v == int(min(max(v, -1e9), 1e9)) and 2 < v <= 2000 and not (isinstance(v, float) and v <= 10):
                    ints.add(int(v))
                if isinstance(v, float) and 0 < v < 1e6 and v not in (1.0, 2.0, 3.0, 4.0, 5.0, 10.0):
                    floats.add(v)
    return sorted(ints), sorted(floats)


_LITS = []


def literals():
    if not _LITS:
        _LITS.append(_literals())
    return _LITS[0]


def size(rng, opts, cap):
    """a number of things: usually one of opts, sometimes any up to twice that, sometimes next to a number in the source"""
    r = rng.rand()
    k, j, u = rng.randint(10 ** 6), rng.randint(10 ** 6), rng.randint(10 ** 6)
    near = [x for x in literals()[0] if x - 1 <= cap]
    if near and r < 0.3:
        x = near[k % len(near)] + (-1, 0, 1, 1, 2, 5)[j % 6]
        return max(1, min(cap, x))
    if r > 0.93:
        return 1 + u % max(1, min(cap, 2 * max(opts)))
    return int(opts[u % len(opts)])


def level(rng, v):
    """a real parameter: sometimes near a number in the source"""
    r, k, j = rng.rand(), rng.randint(10 ** 6), rng.randint(10 ** 6)
    fl = literals()[1]
    if fl and r < 0.15:
        return float(fl[k % len(fl)] * (0.5, 0.99, 1.0, 1.01, 2.0)[j % 5])
    return v


def lay(rng, A, ints=True):
    """the same kind of data in another memory layout or as integers"""
    r = rng.rand()
    if r < 0.08:
        return np.asfortranarray(A)
    if r < 0.16:
        B = np.zeros((2 * A.shape[0],) + A.shape[1:])
        B[::2] = A
        return B[::2]
    if r < 0.26 and ints and A.size:
        s = 3.0 / max(1e-12, np.abs(A).max())
        return np.round(A * s).astype(int)
    return A


class EchoRng(np.random.RandomState):
    """second run of a trial: the same draws in the same array objects, except for one entry of one array"""

    def start(self, seen=None, pick=None):
        self.seen, self.old, self.k, self.pick = [], seen, 0, pick
        return self

    def _draw(self, v):
        if not isinstance(v, np.ndarray) or v.ndim == 0:
            return v
        if self.old is None:
            self.seen.append((v, v.shape))
            return v
        k = self.k
        self.k += 1
        if k < len(self.old) and self.old[k][1] == v.shape and self.old[k][0].flags.writeable:
            o = self.old[k][0]
            try:
                o[...] = v
                v = o
            except ValueError:
                pass
        if k == self.pick[0] and v.shape[0] >= 3:
            # an entry between the others, so that bounds, signs and order statistics stay plausible
            j = 1 + self.pick[1] % (v.shape[0] - 2)
            row, a, b = v[j], v[0], v[-1]
            w = (0.3, 0.5, 0.8)[self.pick[1] % 3]
            if v.ndim == 1:
                v[j] = w * a + (1 - w) * b
            else:
                c = self.pick[1] % v.shape[1]
                v[j, c] = w * v[0, c] + (1 - w) * v[-1, c]
        return v

    def rand(self, *a):
        return self._draw(super().rand(*a))

    def randn(self, *a):
        return self._draw(super().randn(*a))

    def uniform(self, *a, **k):
        return self._draw(super().uniform(*a, **k))


def run_trial(mod, pid, seed, i):
    key = [seed % (2 ** 31), i, zlib.crc32(pid.encode()) % (2 ** 31)]
    rng = EchoRng(key).start()
    np.random.seed((seed * 7919 + i) % (2 ** 31))
    k = mod.trial(rng, i)
    if i % 2 == 0 and rng.seen and getattr(mod, 'ECHO', True):
        seen = rng.seen
        pick = np.random.RandomState(key + [1]).randint(10 ** 6, size=2)
        echo = EchoRng(key).start(seen, (int(pick[0]) % len(seen), int(pick[1])))
        np.random.seed((seed * 7919 + i) % (2 ** 31))
        try:
            mod.trial(echo, i)
        except Skip:
            pass
        except Fail as e:
            e.what = 'repeated with one entry changed: ' + e.what
            raise
    return k


def main():
    pid, seed, start, count, budget = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    out = sys.argv[6] if len(sys.argv) > 6 else None
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    np.seterr(all='ignore')
    import warnings
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    res = {'property': pid, 'seed': seed, 'trials': 0, 'skipped': 0, 'errors': [], 'fail': None, 'kinds': {}, 'known': {}}
    try:
        mod = importlib.import_module('o' + pid.lower())
    except Exception as e:
        res['errors'].append('import: %s: %s' % (type(e).__name__, e))
        mod = None
    t0 = time.time()
    i = start
    while mod is not None and i < start + count and time.time() - t0 < budget:
        st = np.random.get_state()
        try:
            k = run_trial(mod, pid, seed, i)
            res['trials'] += 1
            if k:
                res['kinds'][k] = res['kinds'].get(k, 0) + 1
        except Skip as e:
            res['skipped'] += 1
        except Fail as e:
            known = getattr(mod, 'known', lambda f: None)(e)
            if known:
                res['known'][known] = res['known'].get(known, 0) + 1
            else:
                res['fail'] = {'index': i, 'seed': seed, 'what': e.what, 'inputs': {k: show(v) for k, v in e.inputs.items()}}
                break
        except Exception as e:
            tb = traceback.format_exc()
            if len(res['errors']) < 3:
                res['errors'].append(tb[-1200:])
        finally:
            np.random.set_state(st)
        i += 1
    res['next'] = i
    s = json.dumps(res, default=str)
    if out:
        open(out, 'w').write(s)
    else:
        print(s)
    if res['fail'] is not None:
        sys.exit(1)


if __name__ == '__main__':
    sys.modules['ocommon'] = sys.modules['__main__']
    main()
