"""differential test of the verifier: symbolic results, evaluated at random inputs, against the real code.
python3-vt tools/selftest.py [MODULE,...] [tries]"""
import multiprocessing as mp
import os
import signal
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import run
core = run.load()
from engine import prove, replay
from engine.values import PyExc, Unsupported


def one(a):
    cid, tries = a
    cs = [c for c in core.CASES if c.id == cid][0]
    out = {'case': cid, 'agree': 0, 'bad': [], 'skipped': 0, 'error': None}
    signal.signal(signal.SIGALRM, core._alarm)
    signal.alarm(150)
    srv = None
    try:
        I = core.new_interp(cs.libs)
        I.cur_func = []
        I.summaries = {q: core.SUMMARIES[q] for q in cs.summaries}
        ctx = core.Ctx(I, cs)
        got = []

        def thunk():
            ctx.inputs, ctx.calls = [], []
            try:
                cs.fn(ctx)
            finally:
                got.append((list(ctx.calls), list(I.facts)))
        I.explore(thunk)
        srv = replay.Server(run.REPO)
        for calls, facts in got:
            ok = [c for c in calls if replay.decided(c)]
            out['skipped'] += len(calls) - len(ok)
            if not ok:
                continue
            n = 0
            for t in range(tries * 4):
                if n >= tries:
                    break
                it = prove.Interp(5 + t, ints=(1, 2 + t % 4), pool=(None, None, 3, 6)[t % 4])
                try:
                    if not all(it.bool(f) for f in facts):
                        continue
                    for c in ok:
                        req, exp = replay.concrete_call(it, c), replay.expected(it, c)
                        act = srv.call(req)
                        if act[0] == 'e' and act[1] in ('TypeError', 'UnpicklingError') and exp[0] != 'e':
                            pass
                        if replay.close(exp, act):
                            out['agree'] += 1
                        else:
                            out['bad'].append((c['fn'], req, exp, act))
                            if len(out['bad']) > 3:
                                return out
                    n += 1
                except core.CaseTimeout:
                    raise
                except (prove.EvalError, replay.NoReplay, OverflowError, ZeroDivisionError, ValueError, IndexError, KeyError):
                    continue
                except Exception as e:
                    if 'LinAlg' in type(e).__name__ or isinstance(e, TypeError):
                        continue
                    raise
    except core.CaseTimeout:
        out['error'] = 'timeout'
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)
        if srv:
            srv.close()
    return out


if __name__ == '__main__':
    mods = sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] else None
    tries = int(sys.argv[2]) if len(sys.argv) > 2 else 12
    cases = [c for c in core.CASES if mods is None or c.module.split('.')[-1] in mods]
    with mp.get_context('fork').Pool(int(os.environ.get('J', '8')), maxtasksperchild=8) as p:
        res = p.map(one, [(c.id, tries) for c in cases], chunksize=1)
    tot = 0
    cov = {}
    for r in res:
        tot += r['agree']
        if r['bad'] or r['error']:
            print(r['case'], 'agree', r['agree'], 'bad', len(r['bad']), r['error'] or '')
            for fn, req, exp, act in r['bad'][:1]:
                print('   ', fn, str(req)[:500], '\n      engine:', str(exp)[:300], '\n      real:  ', str(act)[:300])
    print('agreements', tot, 'cases with agreement', sum(1 for r in res if r['agree']), 'of', len(res), 'disagreements', sum(len(r['bad']) for r in res))
    sys.exit(1 if any(r['bad'] for r in res) else 0)
