"""C13 OpenMP kernels under simulated thread schedules."""
import ctypes, os, sys
import numpy as np
from .. import gen as G, build
from ..core import check, Violation, REPO

ID = 'C13'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=3000, wall=120), thorough=dict(runs=60000, wall=1700))
RULE = ('a run = a sequence of 1-5 calls of fvacf (both methods, with and without masses, thread number from argument, environment or default), distsq, distances_traj, angles '
        'and the coordinate conversions with seeded data, shapes (fewer steps than threads, one atom, hundreds of atoms), memory layouts and types; the compiled kernels run on '
        '1-64 simulated threads, a seeded generator decides after which memory access another thread continues (five kinds of schedules), how many threads the runtime grants, '
        'and what uninitialised memory holds; non-trivial = at least one thread switch inside a kernel; distinct = distinct event-log hash (contains the hash of all switch points)')
REAL = ['flib.f90 compiled by gfortran -fopenmp (each memory access instrumented)', 'f2py wrappers', 'pydos.fvacf, num.distsq, crys.distances_traj, angles, Structure/Trajectory conversions']
STUB = ['OpenMP runtime (libgomp) and its threads: sim/simomp.c', 'malloc of the kernels and of numpy: arena with garbage filling and exact bounds']
LISTS = ['calls']
STATES = 'hash of the switch-point sequence of each parallel call (thread, access number)'
SIMTIME = None
LAY = ['C', 'F', 'step', 'rev', 'T', 'f32', 'int']

def prepare():
    so = build.simflib(REPO)
    class Find:
        def find_spec(self, name, path=None, target=None):
            if name == 'pwtools._flib':
                import importlib.util
                return importlib.util.spec_from_file_location(name, so)
    sys.meta_path.insert(0, Find())
    import pwtools._flib
    check(pwtools._flib.__file__ == so, 'harness', 'wrong _flib')
    import pwtools.pydos, pwtools.crys, pwtools.num, pwtools.signal
    global LIB, PYLIB
    LIB = ctypes.CDLL(so); PYLIB = ctypes.PyDLL(so)
    LIB.simomp_config.argtypes = [ctypes.c_uint64] + [ctypes.c_int] * 5 + [ctypes.c_long, ctypes.c_int, ctypes.c_long]

def generate(r, tier, idx):
    calls = []
    for i in range(r.choice([1, 1, 2, 3, 5])):
        k = r.choice(['vacf', 'vacf', 'vacf', 'distsq', 'distsq', 'dtraj', 'dtraj', 'dtraj', 'angles', 'conv', 'acorr'])
        big = r.random()
        n = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 30])
        a = r.choice([1, 1, 2, 3, 4, 6, 10])
        if big < .03:
            n, a = r.choice([(60, 5), (3, 60), (130, 2), (17, 20), (4, 140), (2, 300)]) if k != "angles" else (1, 40)
        elif big < (.004 if tier == 'quick' else .01) and k == 'dtraj':
            n, a = r.choice([(1, 260), (2, 230)])
        if k == 'dtraj' and r.random() < .005:
            n, a = 1, r.choice([420, 450])
        calls.append(dict(k=k, seed=r.randrange(10**6), n=n, a=a, d=r.choice([1, 2, 3, 3, 7]), mth=r.choice([1, 2]), m=r.random() < .5, pbc=r.random() < .6,
                          nth=r.choice([None, None, 1, 2, 3, 4, 7, 16, 64]), env=r.choice([None, None, '1', '2', '5', '8', '33', '3,2', '']),
                          lay=r.choice(['C', 'C'] + LAY), lay2=r.choice(['C', 'C'] + LAY),
                          sched=dict(seed=r.randrange(2**32), mode=r.choice([0, 0, 1, 2, 2, 3, 3, 4]), mean=r.choice([1, 1, 2, 5, 20, 100]), threads=r.choice([1, 2, 2, 3, 4, 8, 8, 16, 32]),
                                     procs=r.choice([1, 8]), fewer=int(r.random() < .2), fill=r.choice([1, 1, 1, 2, 0]))))
    return dict(calls=calls)

def shrinks(scn):
    for i, c in enumerate(scn['calls']):
        for key, vals in (('n', [1, 2, 3, 5]), ('a', [1, 2, 3]), ('lay', ['C']), ('lay2', ['C']), ('nth', [None, 2]), ('env', [None])):
            for v in vals:
                cur = c[key]
                if cur != v and (not isinstance(v, int) or not isinstance(cur, int) or v < cur):
                    c2 = dict(c); c2[key] = v
                    yield dict(scn, calls=scn['calls'][:i] + [c2] + scn['calls'][i + 1:])
        for key, vals in (('threads', [2, 3]), ('fewer', [0]), ('mode', [1, 0]), ('fill', [1])):
            for v in vals:
                if c['sched'][key] != v and (key != 'threads' or v < c['sched'][key]):
                    yield dict(scn, calls=scn['calls'][:i] + [dict(c, sched=dict(c['sched'], **{key: v}))] + scn['calls'][i + 1:])

def layout(x, lay):
    if lay == 'F':
        return np.array(x, order='F')
    if lay == 'step':
        b = np.full((2 * x.shape[0],) + x.shape[1:], 77.0); b[::2] = x
        return b[::2]
    if lay == 'rev':
        return np.array(x[::-1])[::-1]
    if lay == 'T':
        return np.array(x.T).T
    if lay == 'f32':
        return x.astype(np.float32)
    if lay == 'int':
        return np.round(x * 3).astype(int)
    return np.array(x)

def frac_dist(cf, cell, pbc):
    s = cf[:, None, :] - cf[None, :, :]
    if pbc:
        while (s >= .5).any(): s = np.where(s >= .5, s - 1., s)
        while (s < -.5).any(): s = np.where(s < -.5, s + 1., s)
    v = np.einsum('ijk,kl->ijl', s, cell)
    return np.sqrt((v ** 2).sum(-1)), v

def close(got, want, what, scale=1.0):
    check(got is not None and got.shape == want.shape, 'wrong-result', lambda: '%s: shape %r, expected %r' % (what, getattr(got, 'shape', None), want.shape))
    bad = ~(np.abs(np.asarray(got, float) - want) <= 1e-9 * scale + 1e-9 * np.abs(want))
    check(not bad.any(), 'wrong-result', lambda: '%s: %d of %d values differ from the serial result, first at %r: %r, expected %r' % (
        what, bad.sum(), bad.size, np.argwhere(bad)[0].tolist(), got[bad][0], want[bad][0]))

def one(c):
    from pwtools import pydos, num, crys, signal
    R = np.random.RandomState(c['seed'])
    n, a = c['n'], c['a']
    what = '%s %r' % (c['k'], {k: v for k, v in c.items() if k not in ('sched', 'k', 'seed')})
    args = []
    if c['k'] == 'vacf':
        v = layout(R.normal(size=(n, a, 3)), c['lay'])
        if not (v != 0).any():
            v[:] = 1
        m = layout(R.uniform(1, 50, size=a), c['lay2']) if c['m'] else None
        args = [v] + ([m] if m is not None else [])
        V = np.array(v, float); M = np.ones(a) if m is None else np.array(m, float)
        want = np.array([np.einsum('jik,jik,i->', V[t:], V[:n - t], M) for t in range(n)])
        want /= want[0]
        old = os.environ.pop('OMP_NUM_THREADS', None)
        if c['env'] is not None:
            os.environ['OMP_NUM_THREADS'] = c['env']
        f = lambda: pydos.fvacf(v, m=m, method=c['mth'], nthreads=c['nth'])
        ver = lambda got: close(got, want, what)
    elif c['k'] == 'distsq':
        d = c['d']
        x = layout(R.normal(size=(n, d)), c['lay']); y = layout(R.normal(size=(a, d)), c['lay2'])
        args = [x, y]
        X, Y = np.array(x, float), np.array(y, float)
        want = ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1)
        f = lambda: num.distsq(x, y)
        ver = lambda got: close(got, want, what)
    elif c['k'] in ('dtraj', 'angles', 'conv'):
        if c['k'] == 'angles':
            a = max(a, 3) if a < 30 else 5
        cf = layout(R.uniform(-1.7, 1.7, size=(n, a, 3)), c['lay'] if c['lay'] != 'int' else 'C')
        cell = layout(np.array([G.cell(R) for i in range(n)]), c['lay2'] if c['lay2'] != 'int' else 'C')
        CF, CE = np.array(cf, float), np.array(cell, float)
        args = [cf, cell]
        if c['k'] == 'dtraj':
            class T: pass
            t = T(); t.coords_frac, t.cell, t.natoms, t.nstep = cf, cell, a, n
            want = np.array([frac_dist(CF[i], CE[i], c['pbc'])[0] for i in range(n)])
            f = lambda: crys.distances_traj(t, pbc=c['pbc'])
            ver = lambda got: close(got, want, what, 10)
        elif c['k'] == 'angles':
            st = crys.Structure(coords_frac=np.array(CF[0]), cell=np.array(CE[0]), symbols=['H'] * a)
            D, V = frac_dist(CF[0], CE[0], c['pbc'])
            want = np.full((a, a, a), 999.0)
            for i in range(a):
                for j in range(a):
                    for k in range(a):
                        if i != j and i != k and j != k:
                            want[i, j, k] = np.dot(V[i, j], V[i, k]) / D[i, j] / D[i, k]
            f = lambda: crys.angles(st, pbc=c['pbc'], deg=False)
            ver = lambda got: close(got, want, what)
        else:
            want = np.array([np.dot(CF[i], CE[i]) for i in range(n)])
            f = lambda: (lambda t: (t.coords, crys.Trajectory(coords=t.coords, cell=CE.copy()).coords_frac))(crys.Trajectory(coords_frac=CF.copy(), cell=CE.copy()))
            def ver(got):
                close(got[0], want, what + ' coords', 10)
                close(got[1], CF, what + ' coords_frac', 10)
    else:
        v = layout(R.normal(size=n), c['lay'] if c['lay'] != 'int' else 'C').astype(float)
        args = [v]
        want = np.array([np.dot(v[:n - t], v[t:]) for t in range(n)]); want /= want[0]
        f = lambda: signal.acorr(v, method=c['mth'] + 4)
        ver = lambda got: close(got, want, what)
    before = [x.tobytes() for x in args]
    s = c['sched']
    LIB.simomp_config(s['seed'], s['mode'], s['mean'], s['threads'], s['procs'], s['fewer'], 8 << 20, s['fill'], 400_000_000)
    try:
        got = f()
    except Exception as e:
        raise Violation('unexpected-error', '%s: %s: %s' % (what, type(e).__name__, e))
    finally:
        LIB.simomp_off()
        if c['k'] == 'vacf':
            os.environ.pop('OMP_NUM_THREADS', None)
            if old is not None:
                os.environ['OMP_NUM_THREADS'] = old
    buf = ctypes.create_string_buffer(600)
    code = LIB.simomp_error(buf, 600)
    check(code == 0, 'bad-memory-access', lambda: '%s: %s' % (what, buf.value.decode()))
    ver(got)
    for x, b in zip(args, before):
        check(x.tobytes() == b, 'argument-changed', lambda: '%s: an input array was modified' % what)
    st = (ctypes.c_int64 * 9)()
    LIB.simomp_stats(st)
    return list(st)

def live(scn):
    if PYLIB.simomp_numpy():
        raise RuntimeError('no numpy memory handler')
    return [one(c) for c in scn['calls']]

def run(scn, E):
    R = E.node(live, scn)
    code = {93: 'deadlock', 94: 'no-progress', 95: 'bad-memory-access', 96: 'bad-memory-access'}
    if R.status != 'ok':
        c = int(R.exc.split()[1]) if R.exc.startswith('exit ') else None
        raise Violation(code.get(c, 'kernel-crash'), '%r %s %s' % (R, R.tb[-800:], scn['calls']))
    prev = [0] * 9
    E.states = set()
    for c, st in zip(scn['calls'], R.value):
        d = [x - y for x, y in zip(st, prev)]
        prev = st
        E.probe('call_' + c['k'])
        if d[2]:
            E.probe('parallel_regions', d[2])
        if d[0]:
            E.fault('thread_switch_' + ['dense', 'sync_only', 'geometric', 'bursts', 'stalled_thread'][c['sched']['mode']], d[0])
        if d[4]:
            E.fault('fewer_threads', d[4])
        if c['sched']['fill']:
            E.fault('garbage_memory')
        E.probe('memory_accesses', d[3])
        E.states.add(str(st[6])) if d[0] else None
        E.event(c['k'], c['n'], c['a'], d[0], d[2], d[3], d[4], st[6])
