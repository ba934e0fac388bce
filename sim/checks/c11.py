"""C11 cut-cp2k.sh / cut-cpmd.sh: crash, cut, restart cycles of a simulated MD engine."""
import os, shutil, subprocess
import numpy as np
from .. import attack as A, core, md
from ..core import check, Violation, snapshot, BENIGN

ID = 'C11'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=700, wall=150), thorough=dict(runs=30000, wall=1700))
RULE = ('a run = one MD job (CPMD or CP2K file sets, per-file output intervals, restart interval, 6-130 steps) that is killed 1-4 times at an arbitrary byte of its output with '
        'every file flushed to a different byte, cut with the script (half of the cuts hit by one fault and repeated) and continued until it is complete, plus cuts at '
        'arbitrary steps of copies; non-trivial = a cut removed something; distinct = distinct event-log hash')
REAL = ['bin/cut-cp2k.sh', 'bin/cut-cpmd.sh', 'bash, awk, mv, ln, cmp ...', 'pwtools parsers (final read)', 'file system (tmpfs below the libc seam)']
STUB = ['MD program (simulated engine with output buffers and restart files)']
LISTS = ['kills', 'extra']
STATES = 'hash of (files, cut step, what was cut, fault, outcome)'
KINDS = ['crash_before', 'torn_crash', 'crash_after', 'enospc', 'eio', 'full', 'partial', 'short', 'short_persist', 'close_err', 'emfile', 'eio_persist',
         'read_eio', 'open_fail', 'read_short', 'nobody']
DIRS = ['calc', 'calc', 'calc', 'my calc', 'T=300', 'a;b', "it's", '$HOME', 'a$(x)', 'sub/run', '-x', 'star*', 'd.1', 'ümlaut', 'a"b', 'calc/']

def prepare():
    import pwtools.parse, pwtools.io

def generate(r, tier, idx):
    code = r.choice(['cpmd', 'cp2k'])
    s = md.spec(r, [code], nstep=r.choice([6, 9, 12, 12, 14, 21, 25, 25, 105, 112]))
    s['natoms'] = r.choice([1, 2, 3, 4]) if s['nstep'] < 50 else 1
    s['w'] = 0 if code == 'cpmd' else s['w']
    kills = [dict(frac=r.random(), lag=[r.random() if r.random() < .8 else r.choice([0, 1]) for i in range(8)], fault=r.choice(KINDS) if r.random() < .5 else None,
                  at=r.random(), permille=r.randrange(1, 1000), mode=r.choice(['arg', 'arg', 'restart']), pre=r.choice([None, None, None, 'simulate', 'simfull', 'twice', 'nan', 'stdout']))
             for i in range(r.choice([1, 1, 2, 2, 3, 4]))]
    return dict(spec=s, R=r.choice([1, 2, 3, 5, 5, 10]), every=[r.choice([1, 1, 1, 1, 2, 3, 5, 10]) if r.random() < .4 else 1 for i in range(8)],
                xyz=r.random() < .7, dir=r.choice(DIRS), kills=kills, extra=[dict(step=r.randrange(0, s['nstep'] + 8), after=r.randrange(0, 4)) for i in range(r.randrange(0, 3))])

def valid(scn):
    return bool(scn['kills']) or bool(scn['extra'])

def shrinks(scn):
    s = scn['spec']
    for n in (6, 12, 25):
        if n < s['nstep']:
            yield dict(scn, spec=dict(s, nstep=n))
    if s['natoms'] > 1:
        yield dict(scn, spec=dict(s, natoms=1))
    if set(scn['every']) != {1}:
        yield dict(scn, every=[1] * 8)
    if scn['dir'] != 'calc':
        yield dict(scn, dir='calc')
    for i, k in enumerate(scn['kills']):
        for d in (dict(fault=None), dict(pre=None), dict(lag=[1] * 8), dict(mode='arg')):
            if any(k[x] != d[x] for x in d):
                yield dict(scn, kills=scn['kills'][:i] + [dict(k, **d)] + scn['kills'][i + 1:])

CPMD = ['CELL', 'ENERGIES', 'STRESS', 'TRAJECTORY', 'FTRAJECTORY', 'TRAJEC.xyz']
CP2K = ['PROJECT-1.cell', 'PROJECT-1.ener', 'PROJECT-1.stress', 'PROJECT-frc-1.xyz', 'PROJECT-pos-1.xyz', 'PROJECT-vel-1.xyz']
NEW = b'     <<<<<<  NEW DATA  >>>>>>\n'

def engine(scn):
    """-> J, [(step or None for headers, file, bytes)] in the order of writing"""
    s = scn['spec']
    J = md.job(s)
    names = CPMD if s['code'] == 'cpmd' else CP2K
    w = md.world(s)
    ev = []; seen = set(); step = None
    for k, f, b in J.events:
        if f not in names or not b:
            continue
        if s['code'] == 'cpmd' and scn['xyz'] and k != step:
            step = k
            ev.append((k, 'TRAJEC.xyz', ('%12d\n STEP:%12d\n' % (s['natoms'], k) + ''.join('%-2s%14.6f%14.6f%14.6f\n' % ((w['symbols'][i],) + tuple(w['coords'][k][i])) for i in range(s['natoms']))).encode()))
        ev.append((None if b.startswith(b'#') else k, f, b))
    ev = [(k, f, b) for k, f, b in ev if k is None or k % scn['every'][names.index(f)] == 0]
    return J, names, ev

class Disk:
    """What the job has written: per file a list of [step|None|'new', bytes] chunks,
    the last of which may be incomplete."""
    def __init__(self, names):
        self.d = {f: [] for f in names}
    def content(self, f):
        return b''.join(b for k, b, c in self.d[f])
    def cut(self, step):
        for f, L in self.d.items():
            out = []
            for k, b, c in L:
                if isinstance(k, int) and k >= step:
                    break
                out.append((k, b, c))
            self.d[f] = out

def script(repo, code):
    return os.path.join(repo, 'bin', 'cut-cp2k.sh' if code == 'cp2k' else 'cut-cpmd.sh')

def call(sh, args, full=False):
    out = open('/dev/full', 'w') if full else subprocess.PIPE
    p = subprocess.run(['bash', sh] + args, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout or b''

def stdout_cut(sh, args):
    return call(sh, args)

def run(scn, E):
    s = scn['spec']; code = s['code']
    J, names, ev = engine(scn)
    E.states = set()
    sh = script(core.REPO, code)
    d = scn['dir'].rstrip('/')
    D = os.path.join(E.root, d)
    os.makedirs(D)
    last = max(k for k, f, b in ev if k is not None)
    first = 1 if code == 'cpmd' else 0
    whole = {}
    for k, f, b in ev:
        whole[f] = whole.get(f, b'') + b
    disk = Disk(sorted(whole))
    start = first
    others = {'cp2k.out': b'log\n', 'PROJECT-1.restart.bak-1': b'x', 'CELLX': b'     1\n', 'sub.ener': b'1 2\n'}
    for n, b in others.items():
        open(os.path.join(D, n), 'wb').write(b)
    for i, kill in enumerate(scn['kills'] + [None]):
        R = [(k, f, b) for k, f, b in ev if (k is None and i == 0) or (k is not None and k >= start)]
        if i and code == 'cpmd':
            R = [('new', f, NEW) for f in ('TRAJECTORY', 'FTRAJECTORY') if f in whole and disk.content(f)] + R
        if kill is None:
            for k, f, b in R:
                disk.d[f].append((k, b, True))
            put(D, disk)
            break
        total = sum(len(b) for k, f, b in R)
        p = int(kill['frac'] * total)
        # last restart point reached before the kill
        N = start - 1
        hdr = 0
        pos = 0
        for j, (k, f, b) in enumerate(R):
            if not isinstance(k, int):
                hdr = j + 1
        flushed = hdr
        for j, (k, f, b) in enumerate(R):
            pos += len(b)
            if pos > p and j >= hdr:
                break
            if isinstance(k, int) and k % scn['R'] == 0 and (j + 1 == len(R) or R[j + 1][0] != k):
                N = k; flushed = j + 1
        E.event('kill', i, p, N)
        E.fault('job_killed_mid_output')
        E.simtime += (N - start + 1) * 1e-15
        # bytes flushed per file
        pos = 0; cur = {f: [] for f in disk.d}
        for j, (k, f, b) in enumerate(R):
            if j < flushed:
                disk.d[f].append((k, b, True)); pos += len(b)
                continue
            if pos >= p:
                break
            cur[f].append((k, b[:p - pos])); pos += len(b)
        for f in cur:
            n = sum(len(b) for k, b in cur[f])
            n = int(round(kill['lag'][names.index(f)] * n))
            if n < sum(len(b) for k, b in cur[f]):
                E.fault('output_buffer_lost')
            for k, b in cur[f]:
                if n <= 0:
                    break
                full = [x for kk, ff, x in R if ff == f and kk == k][0]
                disk.d[f].append((k, b[:n], len(b[:n]) == len(full))); n -= len(b)
        put(D, disk)
        if code == 'cp2k':
            open(os.path.join(D, 'PROJECT-1.restart'), 'w').write(' &MOTION\n   &MD\n     STEP_START_VAL  %d\n     TIME_START_VAL    3.0\n   &END MD\n' % N)
        for x in scn['extra']:
            if x['after'] == i:
                extra(E, scn, sh, d, D, disk, x['step'])
        cut(E, scn, sh, D, disk, N + 1, kill)
        start = N + 1
    for x in scn['extra']:
        if x['after'] >= len(scn['kills']):
            extra(E, scn, sh, d, D, disk, x['step'])
    # the whole history
    for f in whole:
        got = open(os.path.join(D, f), 'rb').read()
        check(got.replace(NEW, b'') == whole[f], 'history-differs', lambda: '%s after %d kills: %s' % (f, len(scn['kills']), where(whole[f], got.replace(NEW, b''))))
    if set(scn['every']) == {1}:
        final(E, scn, J, D)
    E.event('end')

def where(a, b):
    A_, B = a.split(b'\n'), b.split(b'\n')
    for i in range(max(len(A_), len(B))):
        x, y = (A_[i] if i < len(A_) else None), (B[i] if i < len(B) else None)
        if x != y:
            return 'line %d is %r, should be %r' % (i + 1, (y or b'')[:70] if y is not None else None, (x or b'')[:70] if x is not None else None)

def put(D, disk):
    for f in disk.d:
        b = disk.content(f)
        fn = os.path.join(D, f)
        # a job appends (or creates)
        old = open(fn, 'rb').read() if os.path.exists(fn) else b''
        if not b.startswith(old):
            raise core.HarnessError('model is not a continuation of %s' % f)
        if b or disk.d[f]:
            with open(fn, 'ab') as g:
                g.write(b[len(old):])

def args_for(scn, step, mode, d):
    if d.startswith('-'):
        d = './' + d
    return [d] + ([str(step)] if not (mode == 'restart' and scn['spec']['code'] == 'cp2k' and step > 0) else [])

def expected(disk, step):
    n = Disk(sorted(disk.d)); n.d = {f: list(L) for f, L in disk.d.items()}
    n.cut(step)
    return n

def cut(E, scn, sh, D, disk, step, kill):
    files = sorted(disk.d)
    pre = {n: open(os.path.join(D, n), 'rb').read() for n in os.listdir(D) if os.path.isfile(os.path.join(D, n))}
    new = expected(disk, step)
    want = {f: new.content(f) for f in files}
    # a NEW DATA line which was not finished goes as well
    for f in files:
        L = new.d[f]
        if L and not L[-1][2]:
            want[f] = want[f][:want[f].rfind(b'\n') + 1]
            new.d[f] = L[:-1]
            if want[f] != new.content(f):
                raise core.HarnessError('incomplete chunk kept')
    env = {'FSIM_CHILDREADS': '1'}
    a = args_for(scn, step, kill['mode'], scn['dir'])
    p = kill['pre']
    if p in ('simulate', 'simfull', 'nan', 'stdout'):
        b0 = snapshot(E.root)
        bad = ['', 'x', '1.5', '-3', '5x', '1 2'][step % 6]
        if p == 'stdout' and scn['spec']['code'] == 'cpmd':
            R = E.node(call, sh, ['--not-inplace'] + a, env=env)
        elif p == 'nan':
            R = E.node(call, sh, ['--', a[0], bad], env=env)
        else:
            R = E.node(call, sh, ['-s'] + a, p == 'simfull', env=env)
        check(R.status == 'ok', 'cut-hangs-or-dies', lambda: '%s: %r' % (p, R))
        check(snapshot(E.root) == b0, 'simulate-changes-files', lambda: '%s (%s) at step %d changed files: %s' % (os.path.basename(sh), p, step, core.diff_snap(b0, snapshot(E.root))))
        if p == 'nan':
            check(R.value[0] != 0, 'error-not-reported', lambda: 'step %r: exit status 0' % bad)
        elif p == 'stdout' and scn['spec']['code'] == 'cpmd':
            check(R.value[0] == 0 and all(want[f] in R.value[1] for f in files if f in pre), 'stdout-cut', lambda: 'step %d: --not-inplace output incomplete, status %d' % (step, R.value[0]))
        E.probe('pre_' + p)
    if kill['fault'] and kill['fault'] != 'nobody':
        D0 = copy_of(E, D)
        R0 = E.node(call, sh, a, env=env)
        ok(E, scn, sh, D, pre, want, step, R0, 'clean')
        shutil.rmtree(D); os.rename(D0, D)
        R, hit = A.faulty(E, call, (sh, a), kill['fault'], kill['at'], kill['permille'], R0, env=env)
        E.event('cut', step, hit, R.status, R.value and R.value[0])
        check(R.status not in ('hang',), 'cut-hangs-or-dies', lambda: repr(R))
        if R.status == 'ok' and R.value[0] == 0:
            ok(E, scn, sh, D, pre, want, step, R, 'fault %s' % (hit,))
            E.probe('cut_survived_fault')
        else:
            now = {n: open(os.path.join(D, n), 'rb').read() for n in os.listdir(D) if os.path.isfile(os.path.join(D, n))}
            for f in pre:
                if f in files:
                    check(now.get(f) in (pre[f], want[f]), 'file-damaged-by-failed-cut', lambda: 'cut at step %d, fault %s: %s is %s' % (step, hit, f, 'missing' if f not in now else where(pre[f], now[f])))
                    if now[f] != pre[f]:
                        check(now.get(f + '.bak') == pre[f], 'removed-data-lost', lambda: 'cut at step %d, fault %s: %s was cut but %s.bak does not have the old content' % (step, hit, f, f))
                elif not f.endswith('.bak'):
                    check(now.get(f) == pre[f], 'other-file-touched', lambda: 'cut at step %d, fault %s: %s changed' % (step, hit, f))
            E.probe('cut_failed')
        E.states.add(repr((hit, R.status, step, sorted(f for f in pre if pre[f] != want.get(f, pre[f])))))
    left = os.listdir(D)          # also what a killed attempt left behind
    for n in range(2 if kill['pre'] == 'twice' else 1):
        R = E.node(call, sh, a, env=env)
        ok(E, scn, sh, D, pre, want, step, R, 'run %d' % n, left)
    if any(pre.get(f, b'') != want[f] for f in files):
        E.probe('cut_removed_data')
    else:
        E.probe('nothing_to_cut')
    E.event('cut', step, [f for f in files if pre.get(f, b'') != want[f]])
    E.states.add(repr((step, sorted(f for f in files if pre.get(f, b'') != want[f]))))
    disk.d = new.d

def copy_of(E, D):
    E.ncopy = getattr(E, 'ncopy', 0) + 1
    d = os.path.join(E.aux, 'copy%d' % E.ncopy)
    shutil.copytree(D, d)
    return d

def ok(E, scn, sh, D, pre, want, step, R, what, left=()):
    """after a cut that reported success"""
    what = '%s at step %d (%s)' % (os.path.basename(sh), step, what)
    check(R.status == 'ok', 'cut-hangs-or-dies', lambda: '%s: %r' % (what, R))
    check(R.value[0] == 0, 'cut-fails', lambda: '%s: exit status %d: %s' % (what, R.value[0], R.value[1][-500:]))
    check(R.ctl['nescape'] == 0, 'outside-touched', lambda: R.ctl['escape'])
    now = {n: open(os.path.join(D, n), 'rb').read() for n in os.listdir(D) if os.path.isfile(os.path.join(D, n))}
    for f in pre:
        if f in want:
            check(f in now, 'file-missing', lambda: '%s: %s is missing' % (what, f))
            check(now[f] == want[f], 'wrong-cut', lambda: '%s: %s: %s' % (what, f, where(want[f], now[f])))
            if now[f] != pre[f]:
                check(now.get(f + '.bak') == pre[f], 'removed-data-lost', lambda: '%s: %s.bak does not have the content of %s before the cut' % (what, f, f))
            else:
                check(now.get(f + '.bak') == pre.get(f + '.bak'), 'backup-changed-without-cut', lambda: '%s: nothing to cut in %s, but its backup changed' % (what, f))
        elif not (f.endswith('.bak') and f[:-4] in want):
            check(now.get(f) == pre[f], 'other-file-touched', lambda: '%s: %s changed' % (what, f))
    for n in now:
        check(n in pre or n in left or (n.endswith('.bak') and n[:-4] in want), 'files-left-behind', lambda: '%s: %s' % (what, n))

def extra(E, scn, sh, d, D, disk, step):
    """cut of a copy at any step; only complete chunks before the step are demanded"""
    keep = copy_of(E, D)
    pre = {n: open(os.path.join(D, n), 'rb').read() for n in os.listdir(D) if os.path.isfile(os.path.join(D, n))}
    R = E.node(call, sh, args_for(scn, step, 'arg', scn['dir']))
    what = '%s at step %d' % (os.path.basename(sh), step)
    check(R.status == 'ok' and R.value[0] == 0, 'cut-fails', lambda: '%s: %r %r' % (what, R, R.value))
    for f in sorted(disk.d):
        if f not in pre:
            continue
        got = open(os.path.join(D, f), 'rb').read()
        n = expected(disk, step)
        low = b''.join(b for k, b, c in n.d[f] if c)
        high = n.content(f)
        check(got.startswith(low) and high.startswith(got), 'wrong-cut', lambda: '%s: %s: %s' % (what, f, where(low, got)))
    E.probe('extra_cut')
    E.event('extra', step)
    shutil.rmtree(D); os.rename(keep, D)

def parse(fn, cls):
    from pwtools import parse as P
    p = getattr(P, cls)(filename=fn)
    return {k: getattr(p, 'get_' + k)() for k in ('coords', 'etot', 'velocity', 'forces', 'stress', 'cell', 'temperature') if hasattr(p, 'get_' + k)}

def final(E, scn, J, D):
    for f, b in J.pre.items():
        open(os.path.join(D, f), 'wb').write(b if isinstance(b, bytes) else b.encode())
    with open(os.path.join(D, J.main), 'wb') as g:
        for k, f, b in J.events:
            if f == J.main:
                g.write(b)
    fn = os.path.join(scn['dir'].rstrip('/'), J.main)
    R = E.node(parse, os.path.join(E.root, fn) if scn['dir'].startswith('-') else fn, J.parser)
    if any(c in scn['dir'] for c in ' ;$*\'"()'):
        return                      # the parsers' shell commands do not take such names
    check(R.status == 'ok', 'continued-files-unreadable', lambda: '%r %s' % (R, R.tb[-1500:]))
    full = J.truth
    for q, v in R.value.items():
        if q in full and v is not None and len(full[q]) == scn['spec']['nstep']:
            x = np.asarray(full[q])
            check(np.asarray(v).shape == x.shape and np.allclose(v, x, rtol=1e-6, atol=1e-9), 'continued-files-give-other-values', lambda: '%s: %s vs %s' % (q, np.asarray(v).shape, x.shape))
            E.probe('parsed_' + q)
