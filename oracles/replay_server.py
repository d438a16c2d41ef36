"""run functions of the real package on tagged JSON arguments (one request per line)"""
import importlib
import json
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
real = os.dup(1)
os.dup2(2, 1)
import numpy as np


def dec(x):
    k = x[0]
    if k == 'c':
        return x[1]
    if k == 'i':
        return np.int64(x[1]) if x[2] == 'npint' else int(x[1])
    if k == 'f':
        v = float(x[1])
        return np.float64(v) if len(x) > 2 and x[2] == 'npfloat' else v
    if k == 'b':
        return bool(x[1])
    if k == 'a':
        dt = {'f': float, 'i': int, 'b': bool}.get(x[3], float)
        return np.array([float(v) for v in x[2]]).reshape(x[1]).astype(dt)
    if k == 't':
        return tuple(dec(v) for v in x[1])
    if k == 'l':
        return [dec(v) for v in x[1]]
    if k == 'd':
        return {kk: dec(v) for kk, v in x[1]}
    raise ValueError(k)


def enc(v):
    if v is None or isinstance(v, (bool, str)):
        return ['c', v]
    if isinstance(v, (np.bool_,)):
        return ['b', bool(v)]
    if isinstance(v, (int, np.integer)):
        return ['i', int(v), 'int']
    if isinstance(v, (float, np.floating)):
        return ['f', repr(float(v)), 'float']
    if isinstance(v, np.ndarray):
        return ['a', list(v.shape), [repr(float(t)) for t in v.ravel()], v.dtype.kind]
    if isinstance(v, tuple):
        return ['t', [enc(t) for t in v]]
    if isinstance(v, list):
        return ['l', [enc(t) for t in v]]
    if isinstance(v, dict):
        return ['d', [[k, enc(t)] for k, t in v.items()]]
    return ['x', type(v).__name__]


def main():
    out = os.fdopen(real, 'w')
    for line in sys.stdin:
        r = json.loads(line)
        try:
            mod, name = r['fn'].rsplit('.', 1)
            f = getattr(importlib.import_module(mod), name)
            res = enc(f(*[dec(a) for a in r['args']], **{k: dec(v) for k, v in r['kwargs'].items()}))
        except Exception as e:
            res = ['e', type(e).__name__]
        out.write(json.dumps(res) + '\n')
        out.flush()


main()
