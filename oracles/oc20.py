from ocommon import *
import importlib

MODS = ['oc%02d' % k for k in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22)]
_m = {}


def trial(rng, i):
    nm = MODS[i % len(MODS)]
    if nm not in _m:
        _m[nm] = importlib.import_module(nm)
    try:
        _m[nm].trial(rng, i // len(MODS))
    except Fail as e:
        if 'modified its argument' in e.what:
            raise
        raise Skip()
    return nm
