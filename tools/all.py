"""run every contract case in parallel: python3-vt tools/all.py [MODULE,...]"""
import os, sys, multiprocessing as mp, time
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
import run
from collections import defaultdict
core = run.load()
mods = next((a.split(",") for a in sys.argv[1:] if not a.startswith("-")), None)
cases = [c for c in core.CASES if (not c.ints or '-i' in sys.argv) if mods is None or c.module.split('.')[-1] in mods]
t0 = time.time()
with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
    res = p.map(run._work, [(c.id, None) for c in sorted(cases, key=lambda c: -c.timeout)], chunksize=1)
tm = defaultdict(float); ob = defaultdict(int); ok = defaultdict(int)
mod = {c.id: c.module.split('.')[-1] for c in cases}
for r in res:
    m = mod[r['case']]; tm[m] += r['time']
    for x in r['results']:
        ob[m] += 1; ok[m] += x['status'] == 'proved'
        if x['status'] != 'proved': print('FAIL', 'WALLED' if r.get('walled') else '', r['case'], x['status'], x['name'], x['detail'][:200])
    if r['error']: print('ERROR', r['case'], r['error'][:300])
for m in sorted(ob): print(m, ok[m], ob[m], '%.1f' % tm[m])
print('slow:', sorted(((round(r['time'],1), r['case']) for r in res), reverse=True)[:12])
print('wall %.1f' % (time.time() - t0))
