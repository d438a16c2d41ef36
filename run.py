"""check a property: discharge its contracts on /repo's current source, replay failures on the real code.

usage: python3-vt run.py check <ID> [--tier quick|thorough]
"""
import argparse
import atexit
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['VERIF_REPO'] = REPO
PY = '/opt/venv/bin/python'
MODULES = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16',
           'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23']
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
           MPLBACKEND='Agg', PYTHONHASHSEED='0', VERIF_REPO=REPO)
NPROC = min(8, os.cpu_count() or 1)
QUICK_ORACLE = 25.0
EXTENDED = {'quick': 150.0, 'thorough': 400.0}
INTS_THOROUGH = ('C20', 'C22', 'C23')     # the integer-array variants of these run in the thorough tier
FIRST = {'quick': 330.0, 'thorough': 1500.0}
SECOND = {'quick': 180.0, 'thorough': 900.0}


def load():
    from contracts import core
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'contracts', m + '.py')):
            importlib.import_module('contracts.' + m)
    return core


def _work(a):
    cid, want = a[:2]
    from contracts import core
    if len(a) > 2:
        from engine import prove
        prove.WALL[0] = a[2]
    cs = [c for c in core.CASES if c.id == cid][0]
    return core.run_case(cs, want)


def run_cases(jobs, procs, deadline):
    """discharge the cases in parallel; what is not done by the deadline is reported as a time-out"""
    from contracts import core
    ctx = mp.get_context('fork')
    t0 = time.time()
    done = {}
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(_work, (j,))) for j in jobs]
        for j, r in rs:
            try:
                done[j[0]] = r.get(timeout=max(0.05, deadline - (time.time() - t0)))
            except mp.TimeoutError:
                cs = [c for c in core.CASES if c.id == j[0]][0]
                done[j[0]] = {'case': j[0], 'target': cs.target, 'props': cs.props, 'results': [], 'error': 'timeout', 'functions': [],
                              'lib': [], 'used': {}, 'paths': 0, 'time': deadline}
        pool.terminate()
    return [done[j[0]] for j in jobs]


def has_oracle(pid):
    return os.path.exists(os.path.join(HERE, 'oracles', 'o' + pid.lower() + '.py'))


SCRATCH = [None]  # working directory of the oracles: the code under test may write logs (cma's outcmaes)


def start_oracles(pid, seed, procs, budget, base, count=10 ** 7):
    """launch oracle processes over disjoint index ranges"""
    ps = []
    for k in range(procs):
        ps.append(subprocess.Popen([PY, os.path.join(HERE, 'oracles', 'ocommon.py'), pid, str(seed), str(base + k * 10 ** 6),
                                    str(count), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV,
                                   cwd=SCRATCH[0], text=True))
    return ps


def collect(ps, limit):
    out = []
    t0 = time.time()
    for p in ps:
        try:
            so, se = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            out.append({'fail': None, 'trials': 0, 'skipped': 0, 'errors': ['oracle time-out'], 'kinds': {}, 'known': {}})
            continue
        try:
            out.append(json.loads(so.strip().splitlines()[-1]))
        except Exception:
            out.append({'fail': None, 'trials': 0, 'skipped': 0, 'errors': ['oracle crashed: ' + (se or '')[-800:]], 'kinds': {}, 'known': {}})
    return out


def known_findings():
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[len('finding:'):].split('|')[0].split() if '=' in x)
                d['text'] = l.split('|', 1)[1].strip() if '|' in l else ''
                out.append(d)
    return out


def check(pid, tier):
    t0 = time.time()
    SCRATCH[0] = tempfile.mkdtemp(prefix='verif_scratch.')
    atexit.register(shutil.rmtree, SCRATCH[0], True)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    core = load()
    cases = [c for c in core.CASES if (pid in c.props or pid == 'C20') and (tier == 'thorough' or not c.thorough and not (c.ints and pid in INTS_THOROUGH))]
    ev_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    findings = [f for f in known_findings() if f.get('property') == pid]
    # concrete cross-check of the contracts runs beside the proof
    nor = 2 if has_oracle(pid) else 0
    q = QUICK_ORACLE if tier == 'quick' else 180.0
    ps = start_oracles(pid, seed, nor, q, 0)
    results = []
    if cases:
        results = run_cases([(c.id, pid) for c in sorted(cases, key=lambda c: -c.timeout)], max(1, NPROC - nor), FIRST[tier])
    oracle = collect(ps, q + 120)
    bad = lambda rs: [r for r in rs if r['error'] or any(x['status'] != 'proved' for x in r['results'])]
    fail = next((o['fail'] for o in oracle if o['fail']), None)
    if bad(results) and fail is None and nor:
        # a proof did not go through: look harder for a failing input on the real code
        ps = start_oracles(pid, seed + 17, NPROC, EXTENDED[tier], 0)
        o2 = collect(ps, EXTENDED[tier] + 120)
        oracle += o2
        fail = next((o['fail'] for o in o2 if o['fail']), None)
    # a case that failed after a solver call ran out of wall time (a loaded machine) is run again with more
    again = [r['case'] for r in bad(results) if r.get('walled')][:8]
    if again and fail is None:
        second = {r['case']: r for r in run_cases([(cid, pid, 8) for cid in again], min(3, len(again)), SECOND[tier])}
        results = [second.get(r['case'], r) for r in results]
    failed, undecided, total, proved, hows = [], [], 0, 0, {}
    for r in results:
        if r['error']:
            undecided.append('%s: %s' % (r['case'], r['error']))
        for x in r['results']:
            total += 1
            if x['status'] == 'proved':
                proved += 1
                hows[x['how']] = hows.get(x['how'], 0) + 1
                if x['name'].startswith('recorded:'):
                    # the code still computes exactly the recorded defective value
                    for f in findings:
                        if f.get('id') == x['name'].split()[0][len('recorded:'):]:
                            f['seen'] = True
                            f['sites'] = f.get('sites', 0) + 1
                            break
                    else:
                        failed.append(dict(x, status='unproved'))
            else:
                kf = [f for f in findings if f.get('case') == r['case'] and f.get('obligation') == x['name'].replace(' ', '_')]
                if kf and x['status'] in ('refuted', 'unproved'):
                    kf[0]['seen'] = True
                    total -= 1
                    continue
                failed.append(x)
    violation = None
    if fail is not None:
        violation = ('input', fail)
    else:
        definite = [x for x in failed if x['status'] in ('refuted', 'unproved')]
        if definite:
            violation = ('obligation', definite)
    trials = sum(o['trials'] for o in oracle)
    kinds = {}
    for o in oracle:
        for k, v in o['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    oerr = [e for o in oracle for e in o['errors']]
    for o in oracle:
        for k, v in o.get('known', {}).items():
            for f in findings:
                if f.get('id') == k:
                    f['seen'] = True
    if total == 0 and trials == 0:
        print('ERROR: nothing was checked for', pid)
        for u in undecided[:5] + oerr[:2]:
            print(u)
        sys.exit(3)
    funcs = sorted({f for r in results for f in r['functions']})
    libs = sorted({f for r in results for f in r['lib']})
    used = sorted({f for r in results for f in r['used']})
    by_case = {}
    for r in results:
        by_case[r['case']] = {'target': r['target'], 'paths': r['paths'], 'seconds': round(r['time'], 2), 'error': r['error'],
                              'obligations': len(r['results']), 'discharged': sum(x['status'] == 'proved' for x in r['results'])}
    from contracts import assumptions
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'proof' if total and not undecided and not failed else 'other',
        'coverage': {
            'obligations': total, 'discharged': proved, 'checker_cmd': 'python3-vt run.py check %s --tier %s' % (pid, tier),
            'trusted_base': assumptions.TRUSTED + ['assumed library contracts: ' + ', '.join(libs)],
            'back_ends': hows,
            'solver_time_s': round(sum(r.get('z3_time', 0) for r in results), 2), 'solver_calls': sum(r.get('z3_calls', 0) for r in results),
            'functions_under_contract': sorted({r['target'] for r in results}), 'functions_executed_symbolically': funcs,
            'callee_contracts_used': used, 'cases': by_case,
            'undecided_cases': undecided, 'failed_obligations': [{k: x[k] for k in ('case', 'name', 'status')} for x in failed],
            'bounded': {'what': 'runtime cross-check of the contracts on the real code (bounded, not counted as proved)',
                        'trials': trials, 'kinds': kinds, 'errors': oerr[:3]},
            'explanation': '' if (total and not undecided and not failed) else
            'not every obligation was discharged; the listed ones rest on the bounded runtime check only',
        },
        'assumptions': assumptions.GENERAL + assumptions.PER_PROPERTY.get(pid, []),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%s), %d undecided cases, %d runtime trials, %.1fs' % (
        pid, proved, total, ', '.join('%s %d' % kv for kv in sorted(hows.items())), len(undecided), trials, time.time() - t0))
    for u in undecided[:10]:
        print('UNDECIDED', u)
    for x in failed[:10]:
        print('NOT DISCHARGED [%s] %s / %s: %s' % (x['status'], x['case'], x['name'], x['detail'][:300]))
    for e in oerr[:2]:
        print('ORACLE ERROR', e)
    for f in findings:
        if f.get('seen'):
            print('KNOWN-FINDING: property=%s %s' % (pid, f['text']))
    if violation:
        rd = os.path.join(ev_dir, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        doc = {'property': pid, 'failed_obligations': failed, 'undecided': undecided}
        if violation[0] == 'input':
            doc['failing_input'] = fail
            doc['replay_cmd'] = '%s %s %s %d %d 1 600' % (PY, os.path.join(HERE, 'oracles', 'ocommon.py'), pid, fail['seed'], fail['index'])
        json.dump(doc, open(rp, 'w'), indent=1, default=str)
        if violation[0] == 'input':
            print('failing input: %s' % fail['what'])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd')
    c = sub.add_parser('check')
    c.add_argument('pid')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    s = sub.add_parser('setup')
    a = ap.parse_args()
    if a.cmd == 'check':
        check(a.pid, a.tier)
    elif a.cmd == 'setup':
        core = load()
        print('%d contract cases loaded' % len(core.CASES))


if __name__ == '__main__':
    main()
