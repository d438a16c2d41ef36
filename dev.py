"""development runner: python3-vt dev.py MODULE [case-filter]"""
import sys, importlib
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from contracts import core
mods = sys.argv[1].split(',')
for m in mods:
    importlib.import_module('contracts.' + m)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
for cs in core.CASES:
    if flt and flt not in cs.id: continue
    if cs.module.split('.')[-1] not in mods: continue
    r = core.run_case(cs)
    n = len(r['results']); ok = sum(x['status'] == 'proved' for x in r['results'])
    print('%-34s %3d/%-3d paths=%d t=%.1f z3=%d/%.1fs %s' % (cs.id, ok, n, r['paths'], r['time'], r['z3_calls'], r['z3_time'], r['error'] or ''))
    if r.get('trace'): print(r['trace'][-500:])
    for x in r['results']:
        if x['status'] != 'proved':
            print('    ', x['status'], x['name'], x['props'], x['detail'][:700], str(x['model'])[:300] if '-v' in sys.argv else '')
