"""Contract harnesses: requires / call / ensures on the real functions, and their discharge."""
import os
import re
import signal
import time
import traceback
from engine import terms as T
from engine import prove
from engine.terms import P, K, Poly, Bool, Lam
from engine.values import *
from engine.interp import Interp
from engine import npmodel, nplib, loops, replay  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')
CASES = []


# ghost logs of one use of the code under contract
LOGS = ('fits', 'designs', 'draws', 'seen', 'step', 'nba', 'tstep', 'likcalls', 'choices', 'optnames', 'optlog', 'forest', 'grng_touched')


class Case:
    def __init__(self, cid, props, target, fn, expect, summaries, thorough, timeout):
        self.id, self.props, self.target, self.fn = cid, props, target, fn
        self.expect, self.summaries, self.thorough, self.timeout = expect, summaries, thorough, timeout


def case(cid, props, target, expect=None, use=(), thorough=False, timeout=100, libs=None, once=False, ints=True, **params):
    """declare a contract case; props: property ids its obligations count for"""
    def d(f):
        fn = (lambda c: f(c, **params)) if params else f
        cs = Case(cid, props.split(), target, fn, expect, use, thorough, timeout)
        cs.module = f.__module__
        cs.once = once             # the harness looks after repeated use itself
        cs.libs = libs or {}       # optional libraries: {'installed': (...), 'uninstalled': (...)}
        cs.ints = False
        cs.debug = sum(x.target == target and not x.ints for x in CASES) % 2 == 1
        CASES.append(cs)
        if ints and expect is None:
            # the same contract for integer arrays
            ci = Case(cid + '.int', props.split(), target, fn, expect, use, thorough, timeout)
            ci.module, ci.once, ci.libs, ci.ints, ci.debug = cs.module, cs.once, cs.libs, True, not cs.debug
            CASES.append(ci)
        return f
    return d


SUMMARIES = {}      # qualified name -> summary(I, bound args) ; used by callers instead of the body


def summary(qual):
    def d(f):
        SUMMARIES[qual] = f
        return f
    return d


class Ctx:
    def __init__(self, I, case):
        self.I, self.case = I, case
        self.inputs = []
        self.calls = []
        self.round = 0
        self.made, self.before_made, self.reuse, self.kept = [], set(), None, {}
        self.props = case.props
        self.expected = False

    # ---- inputs (universally quantified)
    def dim(self, name, lo=1):
        name = self.rename(name)
        v = P(T.Var(name, 'I', '>' if lo >= 1 else '>='))
        if lo > 1:
            self.I.assume(T.ge(v, K(lo)))
        return v

    def num(self, p, kind='int'):
        if isinstance(p, Poly) and p.const is not None and kind == 'int':
            return int(p.const)
        return Num(P(p), kind)

    def rename(self, name):
        if self.reuse is not None and name in self.before_made:
            return name
        if not self.round and not self.made:
            self.before_made.add(name)
        return name if not self.round else '%s~%d' % (name, self.round)

    def keep(self, key, make):
        """what a constructed object holds on to: the same one again when the object is used again"""
        if self.reuse is None or key not in self.kept:
            self.kept[key] = make()
        return self.kept[key]

    def state(self, v, seen):
        """heap cells reachable from a value"""
        if isinstance(v, (Arr, ListV, DictV, ObjV)):
            if v.cell in seen:
                return
            e = self.I.heap.get(v.cell)
            seen[v.cell] = e
            if not isinstance(v, Arr):
                for x in (e[1].values() if isinstance(e[1], dict) else e[1]):
                    self.state(x, seen)
        elif isinstance(v, tuple):
            for x in v:
                self.state(x, seen)

    def fresh_logs(self):
        """forget what the contracts recorded about earlier calls"""
        for k in LOGS:
            self.I.ghost.pop(k, None)
        self.I.ghost['round'] = self.round

    def real(self, name, sign=None, kind='float'):
        return Num(P(T.Var(self.rename(name), 'R', sign)), kind)

    def arr(self, name, shape, sign=None, dt='f', body=None):
        # 'F': floats in every variant of the case
        dt = 'i' if dt == 'f' and self.case.ints else 'f' if dt == 'F' else dt
        sort = 'I' if dt == 'i' else 'R'
        name = self.rename(name)
        f = body or (lambda ix: P(T.App(name, tuple(ix), sort, sign)))
        a = self.I.build([P(s) for s in shape], f, dt)
        self.inputs.append((name, a.cell, self.I.heap[a.cell]))
        return a

    def box(self, d, name='box'):
        """valid box: column 0 = lower, lower <= upper"""
        name = self.rename(name)
        lo = lambda k: P(T.App(name + '_lo', (k,), 'R'))
        w = lambda k: P(T.App(name + '_w', (k,), 'R', '>='))
        b = self.arr(name, (d, K(2)), body=lambda ix: T.ite(T.eq(ix[1], T.ZERO), lo(ix[0]), lo(ix[0]) + w(ix[0])))
        return b

    def watch(self, name, v):
        """frame-watch a list, dict or array the harness built itself"""
        if isinstance(v, (Arr, ListV, DictV)):
            self.inputs.append((name, v.cell, self.I.heap[v.cell]))
        return v

    def scribble(self, a):
        """the owner of the array overwrites it with arbitrary values"""
        if not isinstance(a, Arr) or a.view is not None or a.ro:
            return
        kind, l, dt = self.I.heap[a.cell]
        name = self.rename('scribble')
        vs = [T.fresh('i', 'I', '>=', s) for s in l.shape]
        self.I.heap[a.cell] = (kind, T.mklam(vs, l.shape, P(T.App(name, tuple(P(v) for v in vs), 'I' if dt == 'i' else 'R'))), dt)

    def list_(self, items):
        return self.I.new_list(items)

    def dict_(self, **d):
        return self.I.new_dict(d)

    def assume(self, b):
        self.I.assume(b)

    # ---- calls
    def fn(self, qual):
        mod, name = qual.rsplit('.', 1)
        m = self.I.module(mod)
        if m is None:
            m2, cls = mod.rsplit('.', 1)
            return self.I.getattr(self.I.getattr(self.I.module(m2), cls), name)
        v = self.I.getattr(m, name)
        return v

    def body_of(self, f):
        """drop the contract so that the body is executed"""
        return f

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.fn(f)
        if self.case.debug and 'debug' not in k:      # logging must change nothing
            g = f.lookup('__init__')[0] if isinstance(f, ClassV) else f.fn if isinstance(f, BoundV) else f
            if isinstance(g, FuncV):
                ps = [x.arg for x in g.node.args.args + g.node.args.kwonlyargs]
                off = 1 if isinstance(f, (ClassV, BoundV)) else 0
                if 'debug' in ps and ps.index('debug') >= len(a) + off:
                    k = dict(k, debug=True)
        if isinstance(f, ClassV):
            if self.reuse:
                return self.reuse.pop(0)
            r = self.I.call(f, list(a), k)
            if self.reuse is None and isinstance(r, ObjV):
                st = {}
                self.state(r, st)
                self.made.append((r, st))
            return r
        rec = None
        if isinstance(f, FuncV) and f.contract and f.contract.startswith('bayeso.'):
            rec = {'fn': f.contract, 'args': [replay.snap(self.I, x) for x in a], 'kwargs': {n: replay.snap(self.I, x) for n, x in k.items()},
                   'case': self.case.id}
            self.calls.append(rec)
        try:
            if isinstance(f, FuncV) and f.contract in self.I.summaries:
                r = self.I.call_body(f, list(a), k)
            else:
                r = self.I.call(f, list(a), k)
        except PyExc as e:
            if rec is not None:
                rec['exc'] = e.name
            raise
        if rec is not None:
            rec['res'] = replay.snap(self.I, r)
            rec['facts'] = list(self.I.facts)
        return r

    # ---- ensures
    def holds(self, name, b, props=None, taint=False):
        if not isinstance(b, Bool):
            b = tobool_term(b)
        self.I.obls.append((name, list(self.I.facts), b, (tuple(props or self.props), taint)))

    def eq(self, name, p, q, props=None):
        p = tonum(p).p if not isinstance(p, Poly) else p
        q = tonum(q).p if not isinstance(q, Poly) else q
        self.holds(name, T.eq0(p - q) if p is not q else T.TRUE, props)

    def same(self, name, cond, props=None):
        """a concrete fact about the value returned (identity, type, string)"""
        self.holds(name, T.TRUE if cond else T.FALSE, props)

    def idx(self, shape):
        vs = [T.fresh('q', 'I', '>=', P(s)) for s in shape]
        return [P(v) if not (P(s).const is not None and P(s).const == 1) else T.ZERO for v, s in zip(vs, shape)]

    def shape_is(self, name, a, shape, props=None):
        if not isinstance(a, Arr):
            self.holds(name + '.is-array', T.FALSE, props)
            return False
        sh = self.I.shape(a)
        if len(sh) != len(shape):
            self.holds(name + '.ndim', T.FALSE, props)
            return False
        for k, (x, y) in enumerate(zip(sh, shape)):
            self.eq(name + '.shape[%d]' % k, x, P(y), props)
        return True

    def arr_eq(self, name, a, shape, fn, props=None):
        if not self.shape_is(name, a, shape, props):
            return
        ix = self.idx(self.I.shape(a))
        v = self.I.at(a, ix)
        if isinstance(v, Bool):
            w = fn(*ix)
            self.holds(name, T.bor(T.band(v, w), T.band(T.bnot(v), T.bnot(w))), props)
        else:
            self.eq(name, v, fn(*ix), props)

    def arr_all(self, name, a, fn, props=None):
        ix = self.idx(self.I.shape(a))
        self.holds(name, fn(self.I.at(a, ix), *ix), props)

    def at(self, a, *ix):
        return self.I.at(a, [P(x) for x in ix])

    def min2(self, a):
        """smallest entry of a matrix"""
        n, q = self.I.shape(a)
        u, v = T.fresh('r', 'I', '>=', n), T.fresh('r', 'I', '>=', q)
        b = self.at(a, P(u) if n is not T.ONE else T.ZERO, P(v) if q is not T.ONE else T.ZERO)
        return nplib.rmin_term(u, n, nplib.rmin_term(v, q, b))

    def min1(self, n, fn):
        v = T.fresh('r', 'I', '>=', n)
        return nplib.rmin_term(v, n, fn(P(v)))

    def sum1(self, n, fn):
        v = T.fresh('r', 'I', '>=', P(n))
        return T.tsum(v, P(n), fn(P(v)))

    def frame(self):
        if 'C20' not in self.props:
            pass
        for name, cell, old in self.inputs:
            new = self.I.heap.get(cell)
            ok = new is old or (new[0] == old[0] and new[1] == old[1])
            if ok:
                self.holds('frame:%s' % name, T.TRUE, ('C20',))
                continue
            if new[0] == 'arr':
                l0, l1 = old[1], new[1]
                if len(l0.shape) != len(l1.shape):
                    self.holds('frame:%s' % name, T.FALSE, ('C20',))
                    continue
                vs = [T.fresh('q', 'I', '>=', s) for s in l0.shape]
                ix = [P(v) for v in vs]
                x, y = T.lam_open(l0, ix), T.lam_open(l1, ix)
                if isinstance(x, Bool):
                    self.holds('frame:%s' % name, T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y))), ('C20',))
                else:
                    self.eq('frame:%s' % name, x, y, ('C20',))
            else:
                self.holds('frame:%s' % name, T.FALSE, ('C20',))


class Res:
    """outcome of one obligation"""

    def __init__(self, case, path, name, props, status, how='', detail='', model=None, t=0.0):
        self.case, self.path, self.name, self.props = case, path, name, props
        self.status, self.how, self.detail, self.model, self.t = status, how, detail, model, t

    def d(self):
        return {k: getattr(self, k) for k in ('case', 'path', 'name', 'status', 'how', 'detail', 'model')}


class CaseTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def discharge(facts, goal, budget=8000, look=True):
    """-> (status, how, detail, model)"""
    if goal.kind == 'T':
        return 'proved', 'normal-form', '', None
    if goal.kind == 'and':
        hows = []
        for g in goal.args:
            r = discharge(facts, g, budget, look)
            if r[0] != 'proved':
                return r
            hows.append(r[1])
        return 'proved', hows[0] if hows else 'nf', '', None
    if goal.kind == 'eq':
        r = prove.prove_zero(goal.args[0], facts, z3_timeout=budget)
        if r.status == 'proved':
            return 'proved', r.how, '', None
    elif goal.kind == 'F':
        if not prove.feasible(facts, 4000):
            return 'proved', 'infeasible-path', '', None
    elif prove.entails(facts, goal, budget):
        return 'proved', 'z3', '', None
    # look for an interpretation of the inputs that refutes it
    m = refute(facts, goal) if look else None
    det = T.show_bool(goal)[:1500]
    if m is not None:
        return 'refuted', 'interpretation', det, m
    return 'unproved', '', det, None


VAGUE = {'chunklen', 'chunkoff', 'uniq', 'uniqlen', 'sorted', 'mvn_ok', 'uninit'}      # library results known by axioms only
_PC = re.compile(r'PC\d+_')


def definite(t):
    """no symbol whose meaning the engine has forgotten (what a callee or the environment returns may be anything its contract allows)"""
    return not any(_PC.match(s) or s.split('@')[0] in VAGUE for s in loops.symnames(t))


def int_consts(ts):
    """integer constants between 3 and 60 in the obligation: sizes around them are worth trying"""
    acc = set()
    for t in ts:
        for w in _INTS.findall(T.show_bool(t)[:20000]):
            if 3 <= int(w) <= 60:
                acc.add(int(w))
    return sorted(acc)[-6:]


_INTS = re.compile(r'(?<![\w.@!|{])(\d{1,2})(?![\w.*(])')
REFUTE_SECONDS = 6.0


def refute(facts, goal, tries=120):
    big = None
    t0 = time.time()
    for t in range(tries):
        if t > 10 and time.time() - t0 > REFUTE_SECONDS:
            break
        ints, pool = (1, 2 + t % 4), None
        if t >= 40:
            pool = (None, 2, 3, 6, 24)[t % 5]
            if big is None:
                big = int_consts([goal])
            if big and t % 3 != 2:
                w = big[(t // 3) % len(big)]
                ints = (max(1, w - 1), w + 2)
        it = prove.Interp(1009 * 7 + t, ints=ints, pool=pool)
        try:
            if not all(it.bool(f) for f in facts):
                continue
            if goal.kind == 'eq':
                v = it.poly(goal.args[0])
                if abs(v) <= 1e-6 * max(1.0, prove._mag(it, goal.args[0])):
                    continue
            elif it.bool(goal):
                continue
        except Exception:
            continue
        vals = {}
        for a, v in list(it.vals.items())[:40]:
            vals[str(a)] = v if isinstance(v, (int, float, bool)) else str(v)
        tab = {str(k)[:80]: v for k, v in list(it.tab.items())[:60]}
        return {'vars': vals, 'tables': tab,
                'definite': definite(goal) and all(definite(f) for f in facts)}
    return None


def new_interp(libs=None):
    """an interpreter with every module of the package loaded"""
    I = Interp(REPO)
    I.ghost.update(libs or {})
    for r, ds, fs in sorted(os.walk(os.path.join(REPO, 'bayeso'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(r, f), REPO)[:-3].replace(os.sep, '.')
                try:
                    I.module(m[:-9] if m.endswith('.__init__') else m)
                except (PyExc, SyntaxError):
                    pass
    return I


def run_case(cs, want=None, timeout=None):
    """symbolically execute the case and discharge its obligations.
    want: property id whose obligations are discharged (None: all)"""
    t0 = time.time()
    out = {'case': cs.id, 'target': cs.target, 'props': cs.props, 'results': [], 'error': None, 'functions': [],
           'lib': [], 'used': {}, 'paths': 0, 'time': 0.0}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout or cs.timeout))
    before = dict(prove.STATS)
    I = None
    try:
        I = new_interp(cs.libs)
        I.cur_func = getattr(I, 'cur_func', [])
        I.summaries = {q: SUMMARIES[q] for q in cs.summaries}
        ctx = Ctx(I, cs)
        mod_state = dict(I.heap)

        def thunk():
            ctx.inputs = []
            ctx.calls = []
            ctx.made = []
            return cs.fn(ctx)

        def wrapped():
            try:
                r = thunk()
            except PyExc:
                ctx.frame()
                raise
            ctx.frame()
            if any(I.heap.get(k) is not v for k, v in mod_state.items()):
                # the call left a trace in module-level state: the contract must hold again from there, on other inputs
                ctx.round = 1
                I.used['second round from modified module state'] = 1
                ctx.fresh_logs()
                try:
                    r = thunk()
                finally:
                    ctx.round = 0
                ctx.frame()
                return r
            made = ctx.made
            if made and not cs.once:
                dirty = False
                for o, st in made:
                    now = {}
                    ctx.state(o, now)
                    dirty = dirty or len(now) != len(st) or any(now.get(k) is not v for k, v in st.items())
                if dirty:
                    # the objects remember something: the contract must hold again for a further use of the same objects
                    ctx.round = 2
                    ctx.reuse = [o for o, _ in made]
                    I.used['second use of the same objects'] = 1
                    ctx.fresh_logs()
                    try:
                        r = thunk()
                    finally:
                        ctx.round, ctx.reuse = 0, None
                    ctx.frame()
            return r
        paths = I.explore(wrapped)
        out['paths'] = len(paths)
        ok = 0
        for p in paths:
            kind = p.out[0]
            if kind == 'exc':
                e = p.out[1]
                if cs.expect is not None and e.name == cs.expect:
                    ok += 1
                    I.obls.append(('raises %s' % e.name, p.state[2], T.TRUE, (tuple(cs.props), False)))
                else:
                    I.obls.append(('no-exception (%s: %s)' % (e.name, e.msg), p.state[2], T.FALSE,
                                   (tuple(cs.props) + ('C20',) * 0, e.taint)))
            else:
                ok += 1
                if cs.expect is not None:
                    I.obls.append(('must raise %s' % cs.expect, p.state[2], T.FALSE, (tuple(cs.props), False)))
        if ok == 0 and not any(o[2].kind == 'F' for o in I.obls):
            out['error'] = 'no normal path'
        # vacuity: some completed path must have satisfiable facts
        vac = True
        for p in paths:
            if p.out[0] != 'exc' or cs.expect is not None:
                if prove.feasible(p.state[2], 1500):
                    vac = False
                    break
        if vac:
            out['error'] = out['error'] or 'vacuous: no feasible completed path'
        for i, (name, facts, goal, note) in enumerate(I.obls):
            props, taint = note[:2] if isinstance(note, tuple) else (tuple(cs.props), False)
            alt = note[2] if isinstance(note, tuple) and len(note) > 2 else None
            if want is not None and want not in props:
                continue
            t1 = time.time()
            try:
                if alt is not None:
                    # obligation of a loop body
                    st, how, det, m = discharge(facts, goal, look=False)
                    if st != 'proved':
                        st, how, det, m = discharge(*alt)
                else:
                    st, how, det, m = discharge(facts, goal)
            except (T.TermLimit, RecursionError) as e:
                st, how, det, m = 'limit', '', 'term limit: %s' % e, None
            if st in ('refuted', 'unproved') and taint:
                st = 'undecided'      # reached only through a library outcome the model over-approximates
            out['results'].append(Res(cs.id, i, name, props, st, how, det, m, time.time() - t1).d() | {'props': list(props)})
    except CaseTimeout:
        out['error'] = 'timeout'
    except Unsupported as e:
        out['error'] = 'unsupported: %s' % str(e)[:300]
    except (T.TermLimit, RecursionError) as e:
        out['error'] = 'limit: %s' % str(e)[:200]
    except loops.NeedPH as e:
        out['error'] = 'placeholder escaped'
    except Exception as e:
        out['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        out['trace'] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if I is not None:
        out['functions'] = sorted(x for x in I.functions if x.startswith('bayeso.'))
        out['lib'] = sorted(I.lib_used)
        out['used'] = dict(I.used)
    out['walled'] = prove.STATS.get('walled', 0) - before.get('walled', 0)
    out['z3_calls'] = prove.STATS['z3_calls'] - before['z3_calls']
    out['z3_time'] = prove.STATS['z3_time'] - before['z3_time']
    out['time'] = time.time() - t0
    return out
