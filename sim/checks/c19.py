"""C19 Numerical/helper library: calls are independent of call history, of each
other's threads and of interrupted calls, and leave the caller's data alone."""
import os, sys, types, warnings
import numpy as np
from .. import core, sched, gen as G, calls as K
from ..core import check, Violation

ID = 'C19'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=2500, wall=220), thorough=dict(runs=40000, wall=1500))
RULE = ('a run = a history of 3-12 calls drawn from a catalogue of about 200 calls over all numerical and helper modules (num, signal, crys, pydos, eos, thermo, rbf, kpath, symmetry, input cards, '
        'common, comb, mttk), all working on one drawn set of shared argument objects (arrays in C or Fortran order, strided, reversed or read-only, lists, option dicts, structures, trajectories, fitted splines, polynomials, RBF networks, EOS and '
        'Gibbs objects), one after the other or in 2-3 threads interleaved line by line by a drawn schedule; Ctrl-C or a failed allocation hits a call at a drawn library line and the call is '
        'repeated; the caller overwrites results it got; every result is compared with the same call made alone in a fresh process, the arguments, earlier results and process-wide state with '
        'their state before; non-trivial = a call was interrupted or threads were switched; distinct = distinct event-log hash')
REAL = ['pwtools.num, signal, crys, pydos, eos, thermo, rbf, kpath, symmetry, mpl.Data2D, common, comb, mttk, pwscf and lammps string helpers', '_flib kernels', 'numpy, scipy, scikit-learn, spglib']
STUB = ['none']
LISTS = ['calls', 'choices']
STATES = 'set of (call, previous call, mode, interrupted where)'
ASSUME = ['functions documented to return views or to work in place (slicetake, trajectory indexing, copy=False variants, sliceput, constructors keeping a reference to their arguments) are exempt from overwriting their result']

_NAMES = []
def prepare():
    warnings.simplefilter('ignore')
    import matplotlib; matplotlib.use('Agg')
    import sklearn.model_selection, spglib
    with core_quiet():
        c = K.catalogue()
        P = K.Pool(5)
        for n, (f, o) in c.items():      # imports done lazily inside calls
            if o.get('slow'): continue
            try: f(P)
            except Exception: pass

class core_quiet:
    def __enter__(self):
        self.o = os.dup(1); self.e = os.dup(2)
        sys.stdout.flush(); sys.stderr.flush()
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1); os.dup2(n, 2); os.close(n)
    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.o, 1); os.dup2(self.e, 2); os.close(self.o); os.close(self.e)

def names():
    if not _NAMES:
        _NAMES.extend(sorted(K.catalogue()))
    return _NAMES

def generate(r, tier, idx):
    N = names()
    # favour calls which share argument objects
    groups = [None, None, None, 'fit_opt', 'gibbs', 'spline', 'rbf', 'pf', 'st', 'tr', 'ipol', 'eos', 'pad', 'thermo', 'smooth', 'ibrav', 'pdos', 'vacf', 'acorr', 'dist', 'rpdf', 'poly']
    g = r.choice(groups)
    sub = [n for n in N if g and g in n] or N
    mode = r.choice(['seq', 'seq', 'seq', 'threads', 'threads'])
    calls = []
    few = r.sample(sub, min(len(sub), r.choice([1, 1, 2, 3]))) if r.random() < (.7 if mode == 'threads' else .3) else None
    for i in range(r.randrange(3, 13)):
        n = r.choice(sub) if r.random() < .5 else r.choice(N)
        if few: n = r.choice(few)
        elif calls and r.random() < .2: n = r.choice(calls)['name']
        o = dict(name=n, thr=r.randrange(3), scribble=r.random() < .5, pool=r.choice([0, 0, 1, 1, 2]), inplace=r.random() < .25)
        if r.random() < .3:
            o['intr'] = r.randrange(1, r.choice([3, 10, 40, 300])); o['exc'] = r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
        calls.append(o)
    return dict(seed=r.randrange(10**6), layout=r.choice([0, 0, 1, 2, 3, 5]), mode=mode, calls=calls, choices=[r.randrange(0, r.choice([3, 30])) for _ in range(r.choice([5, 20, 40]))])

def valid(scn):
    return bool(scn['calls'])

# ---- pictures ---------------------------------------------------------------
def norm(v, d=0):
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype != object else [norm(x, d + 1) for x in v.ravel()]
    if isinstance(v, dict):
        return {str(k): norm(x, d + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x, d + 1) for x in v]
    if isinstance(v, (str, bytes, bool, int, float, complex, type(None), np.generic)):
        return v
    if hasattr(v, 'attr_lst') and hasattr(v, 'is_traj'):
        return dict({k: norm(x, d + 1) for k, x in G.attrs(v).items()}, _kind=type(v).__name__)
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, v))
    return 'object ' + type(v).__name__

def picture(v, d=0):
    """picture of an argument object, in full detail"""
    if isinstance(v, np.ndarray):
        return ('arr', str(v.dtype), v.shape, v.tobytes() if v.dtype != object else repr(v))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((str(k), picture(x, d + 1)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(picture(x, d + 1) for x in v)
    if isinstance(v, (str, bytes, bool, int, float, complex, type(None), np.generic)):
        return ('val', repr(v))
    if isinstance(v, (types.FunctionType, types.MethodType, type, types.BuiltinFunctionType)) or d > 4:
        return ('x',)
    if hasattr(v, 'attr_lst') and hasattr(v, 'is_traj'):
        return ('obj', {k: picture(getattr(v, k), d + 1) for k in sorted(set(v.attr_lst)) if getattr(v, k, None) is not None})
    if type(v).__module__.startswith('pwtools') and hasattr(v, '__dict__'):
        return ('obj', {k: picture(x, d + 1) for k, x in sorted(vars(v).items()) if x is not None})
    return ('x',)

def pdiff(a, b):
    if isinstance(a, tuple) and a and a[0] == 'obj' and isinstance(b, tuple) and b and b[0] == 'obj':
        return [k for k in a[1] if k not in b[1] or pdiff(a[1][k], b[1][k])]
    return ['changed'] if a != b else []

def scribble(v, d=0):
    """what a caller may do with a result: overwrite it"""
    n = 0
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in 'fciub' and v.size:
            v[...] = 1 if v.dtype.kind == 'b' else 97; n = 1
    elif isinstance(v, dict):
        for x in list(v.values()): n += scribble(x, d + 1)
        v['scribble'] = 1; n += 1
    elif isinstance(v, list):
        for x in list(v): n += scribble(x, d + 1)
        v.append('scribble'); n += 1
    elif isinstance(v, tuple):
        for x in v: n += scribble(x, d + 1)
    elif hasattr(v, 'attr_lst') and hasattr(v, 'is_traj'):
        for k in set(v.attr_lst):
            x = getattr(v, k, None)
            if x is not None: n += scribble(x, d + 1)
        v.units['scribble'] = 1.0
    return n

def process_state():
    import signal, random, locale, hashlib
    s = np.random.get_state()
    return dict(np_errstate=dict(np.geterr()), np_printoptions=repr(sorted((k, repr(x)) for k, x in np.get_printoptions().items())), np_random=hashlib.md5(s[1].tobytes() + repr(s[2:]).encode()).hexdigest(),
                random=hashlib.md5(repr(random.getstate()).encode()).hexdigest(), environ=dict(os.environ), cwd=os.getcwd(), sigint=signal.getsignal(signal.SIGINT), sigpipe=signal.getsignal(signal.SIGPIPE),
                sigchld=signal.getsignal(signal.SIGCHLD), locale=locale.setlocale(locale.LC_ALL), stdout=id(sys.stdout), stderr=id(sys.stderr), reclimit=sys.getrecursionlimit(), syspath=list(sys.path))

class Recorder(K.Pool):
    def __init__(self, seed):
        super().__init__(seed); self.used = []
    def __getitem__(self, k):
        self.used.append(k); return super().__getitem__(k)

def reference(seed, name):
    """the call made alone on fresh arguments"""
    warnings.simplefilter('ignore')
    f, o = K.catalogue()[name]
    P = Recorder(seed); top = []
    class Top(dict):
        seed = P.seed; layout = 0
        def __getitem__(self, k): top.append(k); return P[k]
    try:
        v = f(Top())
    except Exception as e:
        return 'exc', '%s: %s' % (type(e).__name__, e), list(dict.fromkeys(P.used)), list(dict.fromkeys(top))
    return 'ok', norm(v), list(dict.fromkeys(P.used)), list(dict.fromkeys(top))

def pool_seed(seed, k):
    """pool 1: other values in arrays of the same shapes, pool 2: other shapes"""
    return [seed, seed // 7 * 7 + (seed + 1 + seed // 7 % 6) % 7, seed + 7 * (1 + seed % 11)][k]

def same_kind(a, b):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.dtype != object and a.flags.writeable and b.flags.writeable

class Exchanged:
    """pools 0 and 1 with the contents of their arrays exchanged in place"""
    def __init__(self, A, B, keys):
        self.A, self.B, self.keys = A, B, keys
    def swap(self):
        self.A.seed, self.B.seed = self.B.seed, self.A.seed
        for k in self.keys:
            a, b = self.A[k], self.B[k]
            if same_kind(a, b):
                t = a.copy(); a[...] = b; b[...] = t
            else:
                self.A[k], self.B[k] = b, a
    __enter__ = swap
    def __exit__(self, *a): self.swap()

def close(a, b, o):
    rt = o.get('rtol', 1e-9)
    return G.same(a, b, rtol=rt, atol=max(rt * 1e-1, 1e-11))

def where_diff(a, b, o, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b: return path + '/' + k + ' missing'
            if not close(a[k], b[k], o): return where_diff(a[k], b[k], o, path + '/' + k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not close(x, y, o): return where_diff(x, y, o, '%s[%d]' % (path, i))
    return '%s: %s, expected %s' % (path, G.brief(a), G.brief(b))

def life(scn, refs):
    warnings.simplefilter('ignore')
    C = K.catalogue()
    PS = [K.Pool(pool_seed(scn['seed'], i), scn.get('layout', 0)) for i in range(3)]
    for n, i in refs:
        for k in refs[n, i][2]: PS[i][k]
    # arrays which objects made before refer to: not to be changed by the caller
    blocked = set()
    def plain(v):
        return isinstance(v, (np.ndarray, str, bytes, bool, int, float, complex, type(None), np.generic)) or isinstance(v, (list, tuple)) and all(map(plain, v))
    for i in range(3):
        for k in list(PS[i]):
            if not plain(PS[i][k]):
                W = Recorder(pool_seed(scn['seed'], i))
                W[k]; blocked.update(x for x in W.used if x != k)
    def exchange(c):
        """call with the values of one pool in the memory of the other"""
        if not c.get('inplace') or c.get('pool', 0) > 1 or (c['name'], 0) not in refs or (c['name'], 1) not in refs:
            return None
        keys = refs[c['name'], c['pool']][3]
        if set(keys) != set(refs[c['name'], 1 - c['pool']][3]) or set(keys) & blocked:
            return None
        if not any(same_kind(PS[0][k], PS[1][k]) for k in keys):
            return None
        # no two of them share memory
        if any(j != k and isinstance(PS[i][j], np.ndarray) and isinstance(PS[i][k], np.ndarray) and np.shares_memory(PS[i][j], PS[i][k]) for i in (0, 1) for j in keys for k in keys):
            return None
        return keys
    stats = dict(intr=0, scr=0, sw=0, cmp=0, exch=0)
    log = []; states = set()
    kept = []           # (call, result object, picture of it)
    def pic(): return {(i, k): picture(v) for i in range(3) for k, v in PS[i].items()}
    def unchanged(p, cls, what):
        q = pic()
        bad = {k: pdiff(p[k], q[k]) for k in p if pdiff(p[k], q[k])}
        check(not bad, cls, lambda: '%s: argument objects changed: %s (%s)' % (what, bad, ', '.join('%s now %s' % (k, G.brief(norm(PS[k[0]][k[1]]))) for k in list(bad)[:3])))
    ps0 = process_state()
    def pstate(what):
        s = process_state()
        d = [k for k in ps0 if ps0[k] != s[k]]
        check(not d, 'process-state', lambda: '%s left %s' % (what, {k: (ps0[k], s[k]) if k != 'environ' else {x: (ps0[k].get(x), s[k].get(x)) for x in set(ps0[k]) | set(s[k]) if ps0[k].get(x) != s[k].get(x)} for k in d}))
    def compare(c, v, what):
        name = c['name']
        r = refs[name, c.get('pool', 0)]
        check(r[0] == 'ok', 'call-fails', lambda: '%s made alone raises %s' % (name, r[1]))
        nv = norm(v); stats['cmp'] += 1
        check(close(nv, r[1], C[name][1]), 'history-dependent', lambda: '%s%s, not as when made alone' % (what, where_diff(nv, r[1], C[name][1])))
    prev = '-'
    p = pic()
    if scn['mode'] == 'seq':
        for i, c in enumerate(scn['calls']):
            f, o = C[c['name']]
            what = 'call %d (%s, pool %d after %s): ' % (i, c['name'], c.get('pool', 0), [(x['name'], x.get('pool', 0)) for x in scn['calls'][:i]])
            fired = None
            P = PS[c.get('pool', 0)]
            keys = exchange(c)
            if keys:
                what += '(arguments changed in place before) '; stats['exch'] += 1
                with Exchanged(PS[0], PS[1], keys):
                    pe = pic()
                    try: v = f(PS[1 - c['pool']])
                    except Exception as e:
                        raise Violation('call-fails', '%s%s: %s' % (what, type(e).__name__, e))
                    compare(c, v, what)
                    unchanged(pe, 'changes-arguments', what); pstate(what)
                    if o.get('view'): v = None
                for n, res, q in kept:
                    check(not pdiff(q, picture(res)), 'changes-earlier-result', lambda: '%schanged the result of %s' % (what, n))
                log.append((c['name'], 'exchanged')); states.add(repr((c['name'], prev, 'exch', None))); prev = c['name']
                continue
            if c.get('intr'):
                r, v, fired = sched.interrupt_at(c['intr'], f, P, exc={'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[c['exc']])
                if fired:
                    stats['intr'] += 1; what += '(interrupted in %s) ' % fired
                    unchanged(p, 'interrupt-changes-arguments', what); pstate(what)
            try:
                v = f(P)
            except Exception as e:
                import traceback
                rf = refs[c['name'], c.get('pool', 0)]
                if rf[0] == 'ok':
                    raise Violation('call-fails', '%s%s: %s\n%s' % (what, type(e).__name__, e, traceback.format_exc()[-600:]))
                raise Violation('call-fails', '%s made alone raises %s' % (c['name'], rf[1]))
            compare(c, v, what)
            unchanged(p, 'changes-arguments', what); pstate(what)
            for n, res, q in kept:
                check(not pdiff(q, picture(res)), 'changes-earlier-result', lambda: '%schanged the result of %s' % (what, n))
            if o.get('view'):
                pass
            elif c['scribble']:
                stats['scr'] += scribble(v)
                unchanged(p, 'result-shares-memory', what + 'after overwriting the result')
                for n, res, q in kept:
                    check(not pdiff(q, picture(res)), 'changes-earlier-result', lambda: '%soverwriting the result changed the result of %s' % (what, n))
            else:
                kept.append((c['name'], v, picture(v)))
            log.append((c['name'], fired)); states.add(repr((c['name'], prev, 'seq', fired))); prev = c['name']
    else:
        nthr = 1 + max(c['thr'] for c in scn['calls'])
        plan = [[c for c in scn['calls'] if c['thr'] == t] for t in range(nthr)]
        plan = [q for q in plan if q]
        def runner(q):
            def go():
                out = []
                for c in q:
                    try: out.append(('ok', C[c['name']][0](PS[c.get('pool', 0)])))
                    except Exception as e: out.append(('exc', '%s: %s' % (type(e).__name__, e)))
                return out
            return go
        S = sched.Scheduler(scn['choices'], maxsteps=200000)
        res = S.run([runner(q) for q in plan])
        stats['sw'] = S.switches
        for q, r in zip(plan, res):
            check(r[0] == 'ok', 'call-fails', lambda: 'thread died: %s' % (r,))
            for c, (s, v) in zip(q, r[1]):
                what = '%s in one of %d threads %s: ' % (c['name'], len(plan), [[x['name'] for x in y] for y in plan])
                if refs[c['name'], c.get('pool', 0)][0] == 'ok': check(s == 'ok', 'call-fails', lambda: what + v)
                compare(c, v if s == 'ok' else None, what)
                log.append((c['name'],)); states.add(repr((c['name'], prev, 'thr', S.switches > 0))); prev = c['name']
        what = 'threads %s' % [[x['name'] for x in y] for y in plan]
        unchanged(p, 'changes-arguments', what); pstate(what)
    return log, sorted(states), stats

def run(scn, E):
    E.states = set()
    refs = {}
    for c in scn['calls']:
        n = c['name']
        for i in ((0, 1) if c.get('inplace') and c.get('pool', 0) < 2 and scn['mode'] == 'seq' else (c.get('pool', 0),)):
            if (n, i) not in refs:
                R = E.node(reference, pool_seed(scn['seed'], i), n)
                check(R.status == 'ok', 'call-fails', lambda: '%s alone: %r %s' % (n, R, R.tb[-600:]))
                refs[n, i] = R.value
    R = E.node(life, scn, refs)
    check(R.status == 'ok', 'call-fails', lambda: '%r %s' % (R, R.tb[-1200:]))
    log, states, st = R.value
    E.states.update(states)
    for l in log: E.event(*l)
    if st['intr']: E.fault('interrupt_or_memory_error_at_line', st['intr'])
    if st['sw']: E.probe('thread_switches_at_library_lines', st['sw'])
    if st['exch']: E.probe('arguments_changed_in_place_between_calls', st['exch'])
    if st['scr']: E.probe('results_overwritten_by_caller', st['scr'])
    E.probe('results_compared_with_fresh_process', st['cmp'])
    E.event(st['intr'], st['scr'], st['sw'])
