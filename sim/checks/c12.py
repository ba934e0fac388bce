"""C12 Trajectory iteration, indexing, slicing, copying under interleaved use."""
import copy
import numpy as np
from .. import gen as G, sched
from ..core import check, Violation

ID = 'C12'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=4000, wall=150), thorough=dict(runs=60000, wall=1500))
RULE = ('a run = one trajectory (1-12 steps, random attributes, also compressed or with arrays of other length) used by 1-4 actors: each actor has a program of iterations (full, nested, '
        'zipped, left by break/exception/Ctrl-C at a library line, kept open and advanced later), indexing, slicing, copying with modification of the copy, concatenation; '
        'actors run as threads under the seeded line-level scheduler or one after the other; non-trivial = two iterations of the same object overlapped; distinct = distinct event-log hash')
REAL = ['pwtools.crys.Trajectory/Structure', 'concatenate, compress, mean, smooth, mix, struct2traj']
STUB = ['thread scheduler (seeded, one library line at a time)']
LISTS = ['actors']
STATES = 'hash of (operation kinds in order of completion, overlapping iterations)'
OPS = ['full', 'zip', 'nested', 'partial', 'raise', 'open', 'open', 'adv', 'adv', 'adv', 'close', 'drain', 'index', 'index', 'slice', 'slice', 'copy', 'stcopy', 'concat', 'compress', 'gettraj', 'mean', 'hold',
       'ctrlc', 'enum', 'slit', 'contains', 'smooth', 'smooth', 'mix', 'straj']

def prepare():
    import pwtools.crys

def op(r):
    o = r.choice(OPS)
    ri = lambda: r.randrange(-14, 14)
    return dict(op=o, a=ri(), b=ri(), c=r.choice([None, None, 1, 2, 3, -1, -2]), n=r.randrange(0, 6), slot=r.randrange(3), on=r.choice([0, 0, 0, 1]), k=r.random())

def generate(r, tier, idx):
    nact = r.choice([1, 1, 2, 2, 3, 4])
    thr = nact > 1 and r.random() < .8
    return dict(seed=r.randrange(10**6), nstep=r.choice([1, 2, 3, 4, 5, 7, 12]), natoms=r.choice([1, 2, 3, 5]), var=r.choice(['plain', 'plain', 'plain', 'compress', 'longer', 'fixcell', 'nocell', 'f32', 'f32b', 'int', 'dt0d']),
                nstep2=r.choice([1, 2, 4]), threads=thr, actors=[[op(r) for j in range(r.randrange(1, 6 if thr else 9))] for i in range(nact)],
                choices=[r.randrange(0, r.choice([2, 5, 40])) for i in range(r.randrange(5, 120))] if thr else [])

def valid(scn):
    return any(scn['actors'])

def make(scn):
    from pwtools import crys
    tr = G.trajectory(scn['seed'], scn['nstep'], scn['natoms'])
    v = scn['var']
    if v == 'compress':
        tr.compress(forget=['coords', 'cryst_const'])
    elif v == 'longer':
        tr.temperature = np.arange(scn['nstep'] + 2.0)
        tr.etot = np.arange(scn['nstep'] - 1.0)
    elif v == 'fixcell':
        R = G.rs(scn['seed'])
        tr = crys.Trajectory(coords=R.normal(size=(scn['nstep'], scn['natoms'], 3)), cell=G.cell(R), symbols=['Al'] * scn['natoms'])
    elif v == 'nocell':
        R = G.rs(scn['seed'])
        tr = crys.Trajectory(coords=R.normal(size=(scn['nstep'], scn['natoms'], 3)))
    tr2 = G.trajectory(scn['seed'] + 7, scn['nstep2'], scn['natoms'])
    if v == 'f32':
        tr.compress(forget=[])
    elif v == 'f32b':
        tr2.compress(forget=[])
    elif v == 'int':
        R = G.rs(scn['seed'])
        tr = crys.Trajectory(set_all_auto=False, coords=R.randint(0, 9, size=(scn['nstep'], scn['natoms'], 3)), cell=np.array([np.eye(3) * 9] * scn['nstep']),
                             symbols=['Al'] * scn['natoms'], etot=np.arange(scn['nstep']), timestep=1)
        tr.nstep = tr.get_nstep()
    elif v == 'dt0d':
        tr.timestep = np.array(0.5)
    return tr, tr2

def deep(obj):
    """{name: independent value} with None entries"""
    return {k: copy.deepcopy(getattr(obj, k, None)) for k in obj.attr_lst}

class Ref:
    def __init__(self, tr):
        self.d = deep(tr); self.lst = list(tr.attr_lst)
        self.nst = list(tr.attrs_nstep); self.only = list(tr.attrs_only_traj)
        self.nstep = tr.nstep
    def struct(self, i):
        out = {}
        for k in self.lst:
            if k in self.only:
                continue
            v = self.d[k]
            if v is not None and k in self.nst:
                v = v[i] if v.shape[0] == self.nstep else None
            out[k] = v
        return out
    def slc(self, s):
        out = {}
        for k in self.lst:
            v = self.d[k]
            if v is not None and k in self.nst:
                v = v[s] if v.shape[0] == self.nstep else None
            out[k] = v
        out['nstep'] = len(range(self.nstep)[s])
        if out['timestep'] is not None:
            out['timestep'] = out['timestep'] * (1 if s.step is None else s.step)
        return out

def cmp(got, want, what, exact=True):
    g = {k: getattr(got, k, None) for k in got.attr_lst}
    bad = [k for k in sorted(set(g) | set(want)) if not eq(g.get(k), want.get(k), exact)]
    if bad:
        raise Violation('wrong-data', '%s: %s: %s, should be %s' % (what, bad[0], G.brief(g.get(bad[0])), G.brief(want.get(bad[0]))))

def eq(a, b, exact=True):
    if a is None or b is None:
        return a is None and b is None
    if np.ndim(a) == 0 and np.ndim(b) == 0 and not isinstance(a, (str, dict)):
        return bool(a == b or (a != a and b != b))
    return G.same(a, b) if exact else G.same(a, b, 1e-6, 1e-6)

def scramble(obj):
    """change everything a copy holds, in place"""
    for k in obj.attr_lst:
        v = getattr(obj, k, None)
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v += 17
        elif isinstance(v, list) and v:
            v[0] = v[-1]; v.append(v[0])
        elif isinstance(v, dict):
            v['Xx'] = 99
        elif isinstance(v, (int, float, np.generic)):
            setattr(obj, k, v + 1)

class World:
    def __init__(self, scn):
        self.tr, self.tr2 = make(scn)
        self.objs = [self.tr, self.tr2]
        self.refs = [Ref(self.tr), Ref(self.tr2)]
        self.log = []; self.open = 0; self.overlap = 0; self.probes = {}

def actor(W, n, prog):
    slots = {}
    held = []
    for j, o in enumerate(prog):
        step(W, n, o, slots, held)
        W.log.append((n, j, o['op']))
    for st, want, what in held:
        cmp(st, want, what + ' (kept)')
    for t, k in slots.values():
        W.open -= 1
    return True

def enter(W):
    if W.open:
        W.overlap += 1
    W.open += 1

def seq(W, T, ref, it, what, start=0, stop=None):
    """the rest of an iteration must be steps start.. in order, then the end"""
    i = start
    for st in it:
        check(i < ref.nstep, 'too-many-steps', lambda: '%s: step %d of %d' % (what, i, ref.nstep))
        cmp(st, ref.struct(i), '%s, step %d' % (what, i))
        i += 1
        if stop is not None and i >= stop:
            return i
    check(i == ref.nstep, 'steps-missing', lambda: '%s: ended after %d of %d steps' % (what, i, ref.nstep))
    return i

class Stop(Exception):
    pass

def step(W, n, o, slots, held):
    from pwtools import crys
    T = W.objs[o['on']]; ref = W.refs[o['on']]; N = ref.nstep
    k = o['op']; what = 'actor %d: %s' % (n, k)
    if k == 'full':
        enter(W); seq(W, T, ref, T, what); W.open -= 1
    elif k == 'enum':
        enter(W)
        L = list(T)
        check(len(L) == N, 'steps-missing', lambda: '%s: list has %d of %d' % (what, len(L), N))
        for i, st in enumerate(L):
            cmp(st, ref.struct(i), '%s, step %d' % (what, i))
        W.open -= 1
    elif k == 'zip':
        enter(W); enter(W)
        L = list(zip(T, T))
        check(len(L) == N, 'steps-missing', lambda: '%s: %d pairs, %d steps' % (what, len(L), N))
        for i, (a, b) in enumerate(L):
            cmp(a, ref.struct(i), '%s, step %d' % (what, i)); cmp(b, ref.struct(i), '%s, step %d' % (what, i))
        W.open -= 2
    elif k == 'nested':
        enter(W)
        i = 0
        for a in T:
            check(i < N, 'too-many-steps', what)
            cmp(a, ref.struct(i), '%s outer %d' % (what, i))
            enter(W); seq(W, T, ref, T, what + ' inner', 0, o['n'] if o['n'] > 3 else None); W.open -= 1
            i += 1
        check(i == N, 'steps-missing', lambda: '%s: outer loop %d of %d' % (what, i, N))
        W.open -= 1
    elif k == 'partial':
        enter(W); seq(W, T, ref, T, what, 0, 1 + o['n']) if N > o['n'] else None; W.open -= 1
    elif k == 'raise':
        enter(W)
        try:
            for i, st in enumerate(T):
                cmp(st, ref.struct(i), what)
                if i >= o['n']:
                    raise Stop
        except Stop:
            pass
        W.open -= 1
    elif k == 'open':
        if o['slot'] in slots:
            W.open -= 1
        enter(W)
        slots[o['slot']] = [iter(T), [0, o['on']]]
    elif k == 'adv' and o['slot'] in slots:
        it, p = slots[o['slot']]
        rf = W.refs[p[1]]
        for i in range(1 + o['n']):
            try:
                st = next(it)
            except StopIteration:
                check(p[0] == rf.nstep, 'steps-missing', lambda: '%s: open iteration ended after %d of %d steps' % (what, p[0], rf.nstep))
                W.open -= 1
                del slots[o['slot']]
                break
            check(p[0] < rf.nstep, 'too-many-steps', lambda: '%s: %d' % (what, p[0]))
            cmp(st, rf.struct(p[0]), '%s, step %d of open iteration' % (what, p[0]))
            p[0] += 1
    elif k == 'drain' and o['slot'] in slots:
        it, p = slots.pop(o['slot'])
        seq(W, None, W.refs[p[1]], it, what, p[0])
        W.open -= 1
    elif k == 'close' and o['slot'] in slots:
        it, p = slots.pop(o['slot'])
        if o['n'] % 2 and hasattr(it, 'close'):
            it.close()
        del it
        W.open -= 1
    elif k == 'ctrlc':
        # library lines of a complete loop: about 45 per step
        enter(W)
        s, v, where = sched.interrupt_at(1 + int(o['k'] * 45 * N), list, T)
        W.open -= 1
        if where:
            W.probes['ctrl_c_in_iteration'] = W.probes.get('ctrl_c_in_iteration', 0) + 1
    elif k in ('index', 'hold'):
        try:
            st = T[o['a']]
        except IndexError:
            check(not -N <= o['a'] < N, 'index-error', lambda: '%s: %d of %d' % (what, o['a'], N))
            return
        check(-N <= o['a'] < N, 'no-index-error', lambda: '%s: tr[%d] with %d steps' % (what, o['a'], N))
        cmp(st, ref.struct(o['a']), '%s [%d]' % (what, o['a']))
        if k == 'hold':
            held.append((st, {a: copy.deepcopy(b) for a, b in ref.struct(o['a']).items()}, what))
    elif k in ('slice', 'slit'):
        s = slice(o['a'] if o['n'] != 1 else None, o['b'] if o['n'] != 2 else None, o['c'])
        t = T[s]
        w = '%s %s:%s:%s of %d' % (what, s.start, s.stop, s.step, N)
        check(t.is_traj, 'wrong-type', w)
        cmp(t, ref.slc(s), w)
        if k == 'slit':
            r2 = Ref(t)
            idx = list(range(N))[s]
            i = 0
            enter(W)
            for st in t:
                check(i < len(idx), 'too-many-steps', w)
                cmp(st, ref.struct(idx[i]), '%s, step %d' % (w, i)); i += 1
            check(i == len(idx), 'steps-missing', lambda: '%s: %d of %d' % (w, i, len(idx)))
            W.open -= 1
    elif k == 'copy':
        c = T.copy()
        cmp(c, ref.d, what)
        enter(W); seq(W, c, ref, c, what + ' iteration'); W.open -= 1
        scramble(c)
    elif k == 'stcopy':
        if -N <= o['a'] < N:
            c = T[o['a']].copy()
            cmp(c, ref.struct(o['a']), what)
            scramble(c)
    elif k == 'compress':
        c = crys.compress(T, copy=True, forget=['forces'])
        scramble(c)
    elif k == 'gettraj':
        if -N <= o['a'] < N and ref.d['cell'] is not None:
            m = 1 + o['n']
            st = T[o['a']]
            c = st.get_traj(m)
            want = ref.struct(o['a'])
            check(c.nstep == m, 'wrong-data', lambda: '%s: nstep %r, not %d' % (what, c.nstep, m))
            for a in ref.nst:
                if want.get(a) is not None:
                    check(eq(getattr(c, a), np.array([want[a]] * m)), 'wrong-data', lambda: '%s: %s' % (what, a))
            scramble(c)
    elif k == 'mean':
        if N and all(v is None or a not in ref.nst or v.shape[0] == N for a, v in ref.d.items()):
            m = crys.mean(T)
            for a in ref.nst:
                if a != 'time' and ref.d[a] is not None:
                    check(eq(getattr(m, a), ref.d[a].mean(axis=0), False), 'wrong-data', lambda: '%s: %s' % (what, a))
    elif k == 'smooth':
        if N and all(v is None or a not in ref.nst or v.shape[0] for a, v in ref.d.items()):
            # a delta kernel gives the steps themselves; no component mixes with another one
            kern = [np.array([1.0]), np.array([2.0]), np.array([.2, .5, .3])][o['n'] % 3]
            if len(kern) > 1 and (N < 3 or any(v is not None and a in ref.nst and (v.shape[0] < 3 or v.dtype.kind != 'f') for a, v in ref.d.items())):
                kern = kern[:1]
            c = crys.smooth(T, kern, method=1 + o['a'] % 2)
            for a in ref.lst:
                v = ref.d[a]; g = getattr(c, a, None)
                if v is None or a not in ref.nst or len(kern) == 1:
                    check(eq(g, v, False), 'wrong-data', lambda: '%s with a delta kernel: %s is %s, should be %s' % (what, a, G.brief(g), G.brief(v)))
                else:
                    w = np.array([smooth1(x, kern) for x in v.reshape(len(v), -1).T]).T.reshape(v.shape)
                    check(g is not None and g.shape == w.shape and np.allclose(g, w, rtol=1e-4, atol=1e-4 * (1e-9 + np.abs(w).max())), 'wrong-data', lambda: '%s: %s is %s, should be %s' % (what, a, G.brief(g), G.brief(w)))
            scramble(c)
    elif k == 'mix':
        i, j = o['a'], o['b']
        if -N <= i < N and -N <= j < N and ref.d['coords'] is not None and ref.d['cell'] is not None and ref.d['coords'].dtype.kind == 'f':
            al = [[0, 1], [1, 0, .5], [.25], [.9, .1, 0, 1]][o['n'] % 4]
            c = crys.mix(T[i], T[j], al)
            check(c.nstep == len(al), 'wrong-data', lambda: '%s: nstep %r' % (what, c.nstep))
            for a in ('coords', 'cell', 'forces'):
                if ref.d[a] is not None:
                    w = np.array([(1 - x) * ref.d[a][i] + x * ref.d[a][j] for x in al])
                    check(eq(getattr(c, a), w, False), 'wrong-data', lambda: '%s of steps %d and %d, %s: %s is %s, should be %s' % (what, i, j, al, a, G.brief(getattr(c, a)), G.brief(w)))
            scramble(c)
    elif k == 'straj':
        if -N <= o['a'] < N and ref.d['cell'] is not None and ref.d['coords'] is not None:
            c = crys.struct2traj(T[o['a']])
            check(c.is_traj and c.nstep == 1, 'wrong-data', what)
            w = ref.struct(o['a'])
            for a in ref.nst:
                if w.get(a) is not None:
                    check(eq(getattr(c, a), np.array([w[a]])), 'wrong-data', lambda: '%s: %s' % (what, a))
            check(crys.struct2traj(T) is T, 'wrong-type', what)
            scramble(c)
    elif k == 'concat':
        parts = [(T, ref.d)]
        if all(W.refs[i].d['cell'] is not None and W.refs[i].d['symbols'] is not None and W.refs[i].d['coords'] is not None for i in (0, 1)):
            s = slice(0, 1 + o['n'])
            o2 = W.objs[1]; r2 = W.refs[1]
            parts = [[(T, ref.d), (o2, r2.d)], [(o2, r2.d), (T, ref.d)], [(T, ref.d), (T[s], ref.slc(s)), (o2, r2.d)], [(T, ref.d), (T, ref.d)]][o['n'] % 4]
            if o['a'] % 3 == 0 and ref.nstep:
                i = o['a'] % ref.nstep
                st = T[i]
                if st.coords is not None:
                    parts.insert(o['n'] % 2, (st, {a: (np.array([b]) if a in ref.nst and b is not None else b) for a, b in ref.struct(i).items()}))
        if any(v is not None and a in ref.nst and v.shape[0] != d['coords' if d['coords'] is not None else 'coords_frac'].shape[0] for x, d in parts for a, v in d.items()):
            return
        c = crys.concatenate([x for x, d in parts])
        struct0 = any(x.is_struct for x, d in parts)
        tot = 0
        for x, d in parts:
            tot += (d['coords'] if d['coords'] is not None else d['coords_frac']).shape[0]
        check(c.nstep == tot, 'wrong-data', lambda: '%s: nstep %r, not %d' % (what, c.nstep, tot))
        for a in ref.nst:
            if a == 'time':
                continue
            L = [d.get(a) for x, d in parts]
            want = np.concatenate(L) if all(v is not None for v in L) else None
            check(eq(getattr(c, a), want), 'wrong-concatenation', lambda: '%s of %d items: %s is %s, should be %s' % (what, len(parts), a, G.brief(getattr(c, a)), G.brief(want)))
        check(eq(c.symbols, parts[0][1]['symbols']), 'wrong-concatenation', what + ': symbols')
        i = 0
        enter(W)
        for st in c:
            i += 1
        check(i == tot, 'steps-missing', lambda: '%s: iteration gives %d of %d' % (what, i, tot))
        W.open -= 1
        for a in ref.nst:
            v = getattr(c, a)
            if v is not None:
                v += 3              # a new array
    elif k == 'contains':
        enter(W)
        any(st is None for st in T)
        it = iter(T); next(it, None); del it
        W.open -= 1

def smooth1(x, kern):
    from pwtools import signal
    return signal.smooth(np.array(x, float), kern)

def live(scn):
    W = World(scn)
    progs = scn['actors']
    sw = 0
    if scn['threads']:
        # Ctrl-C only exists for the main thread
        progs = [[o for o in p if o['op'] != 'ctrlc'] for p in progs]
        S = sched.Scheduler(scn['choices'])
        def mk(i):
            def f():
                try:
                    return ('ok', actor(W, i, progs[i]))
                except Violation as e:
                    return ('viol', e.cls, e.msg)
            return f
        res = S.run([mk(i) for i in range(len(progs))])
        sw = S.switches
        for s in res:
            if s[0] == 'exc':
                raise Violation('unexpected-error', '%s: %s' % s[1:])
            if s[1][0] == 'viol':
                raise Violation(s[1][1], s[1][2])
    else:
        for i, p in enumerate(progs):
            actor(W, i, p)
    for T, ref, n in zip(W.objs, W.refs, 'ab'):
        cmp(T, ref.d, 'trajectory %s afterwards' % n)
        seq(W, T, ref, T, 'final iteration of %s' % n)
    return W.log, W.overlap, sw, W.probes

def run(scn, E):
    R = E.node(live, scn)
    check(R.status == 'ok', 'unexpected-error', lambda: '%r %s' % (R, R.tb[-1500:]))
    log, overlap, sw, probes = R.value
    for o in sorted(set(x[2] for x in log)):
        E.probe(o)
    if overlap:
        E.probe('overlapping_iterations', overlap)
    for k, v in probes.items():
        E.fault(k, v)
    if sw:
        E.fault('thread_switch', sw)
    E.states = {repr((log, overlap))}
    E.event('live', log, overlap, sw)
