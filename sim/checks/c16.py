"""C16 viewers and helpers: no temp files, descriptors, processes left; complete files shown."""
import base64, os, sys, tempfile, threading, time
import numpy as np
from .. import core, ext, gen as G, sched
from ..core import check, Violation, mk_fault

ID = 'C16'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=450, wall=150), thorough=dict(runs=30000, wall=1700))
RULE = ('a run = a history of viewer calls, VMD g(r) measurements and default_repl_keys() with all file options in one temp directory which also holds files of others, one after the other or as '
        'threads under the seeded line-level scheduler, with the program missing, failing, killed, interrupted by Ctrl-C, failing to start, and a file fault (full disk, I/O error, partial write, '
        'failing close) at a drawn operation of the library; after each call temp directory, descriptor table and process table are compared with the model; non-trivial = a call failed or was '
        'concurrent; distinct = distinct event-log hash')
REAL = ['pwtools.visualize, crys.call_vmd_measure_gofr/vmd_measure_gofr, batch.default_repl_keys, io writers, common.system/backtick', 'sh, bash, tclsh', 'file system (tmpfs below the libc seam)']
STUB = ['viewers and VMD: stand-ins which record the file they are shown', 'thread scheduler (seeded, one library line at a time)']
ASSUME = ['removing a file does not fail', 'Ctrl-C is delivered to the whole foreground process group while the external program runs']
LISTS = ['groups']
STATES = 'hash of (call kind, options, program failure, file fault, outcome, concurrent calls)'
KINDS = ['enospc', 'eio', 'full', 'full', 'partial', 'close_err', 'emfile', 'eio_persist', 'short', 'eintr']
FK = ['create', 'write', 'trunc', 'sync', 'mkdir', 'closew', 'link']
VIEWERS = ['xcrysden', 'vmd_axsf', 'vmd_xyz', 'jmol', 'avogadro']

def prepare():
    from pwtools import visualize, crys, io, batch, sql

def op(r, conc):
    c = r.random()
    if c < .62:
        o = dict(op='view', viewer=r.choice(VIEWERS), disp=r.random() < .4, keep=r.random() < .3, bg=r.random() < .2 and not conc, wait=not (r.random() < .12 and not conc), log=r.choice([None, None, 'my.log', 'my log']),
                 sf=r.choice([None, None, 'my.str', 'my struct']), obj=r.choice(['st', 'st', 'st', 'tr', 'nosym', 'nocell']), seed=r.randrange(10**6),
                 mode=r.choice(['ok', 'ok', 'ok', 'exit1', 'exit2', 'exit139', 'kill9', 'kill15', 'slow', 'rmfile', 'missing', 'popen'] + ([] if conc else ['ctrlc'])), opts=r.choice(['', '', '-e x.tcl']))
        if o['mode'] == 'ctrlc' and (o['bg'] or not o['wait']):
            o['mode'] = 'ok'
        return o
    if c < .93:
        return dict(op='gofr', wrap=r.random() < .6, seed=r.randrange(10**6), data=r.choice([None, None, 'my.data']), script=r.choice([None, None, 'my.tcl']), log=r.choice([None, None, 'vmd.log']), verbose=r.random() < .3,
                    mode=r.choice(['ok', 'ok', 'ok', 'exit1', 'silent0', 'kill0', 'nosel', 'puts:2', 'killputs:2', 'missing', 'popen', 'badcell'] + ([] if conc else ['ctrlc'])))
    return dict(op='keys', mode='ok')

def generate(r, tier, idx):
    gs = []
    for i in range(r.choice([1, 1, 2, 3])):
        conc = r.random() < .3
        if conc:
            ops = [op(r, True) for j in range(r.choice([2, 2, 3]))]
            for o in ops:           # one working directory, one environment
                if o['op'] == 'keys':
                    o.update(op='view', viewer='jmol', disp=False, keep=False, bg=False, wait=True, log=None, sf=None, obj='st', seed=1, mode='ok', opts='')
                for k in ('log', 'sf', 'data', 'script'):
                    if o.get(k):
                        o[k] = o[k] + '%d' % ops.index(o)
                if o['mode'] in ('missing', 'puts:2', 'killputs:2', 'silent0', 'kill0', 'nosel'):
                    o['mode'] = 'ok'
                if o['op'] == 'gofr' and o['mode'] == 'exit1':
                    o['mode'] = 'popen'
        else:
            ops = [op(r, False) for j in range(r.choice([1, 2, 3]))]
        gs.append(dict(conc=conc, ops=ops, choices=[r.randrange(r.choice([2, 5, 40])) for j in range(r.randrange(5, 100))]))
    return dict(groups=gs, fault=r.choice(KINDS) if r.random() < .6 else None, frac=r.random(), permille=r.randrange(1000), tmp=r.choice(['tmp', 'tmp', 'my tmp']))

def valid(scn):
    return any(g['ops'] for g in scn['groups'])

def shrinks(scn):
    gs = scn['groups']
    def put(i, **k):
        return dict(scn, groups=gs[:i] + [dict(gs[i], **k)] + gs[i + 1:])
    for i, g in enumerate(gs):
        for j in range(len(g['ops'])):
            yield put(i, ops=g['ops'][:j] + g['ops'][j + 1:])
        if g['conc']:
            yield put(i, conc=False)
        for j, o in enumerate(g['ops']):
            for k, v in (('mode', 'ok'), ('disp', False), ('keep', False), ('bg', False), ('wait', True), ('log', None), ('sf', None), ('data', None), ('script', None), ('obj', 'st'), ('opts', ''), ('verbose', False)):
                if k in o and o[k] != v:
                    yield put(i, ops=g['ops'][:j] + [dict(o, **{k: v})] + g['ops'][j + 1:])
    if scn['fault']:
        yield dict(scn, fault=None)
    if scn['tmp'] != 'tmp':
        yield dict(scn, tmp='tmp')

# -------------------------------------------------------------------- node
def obj(o):
    from pwtools import crys
    R = G.rs(o['seed'], 4)
    n = R.randint(1, 5)
    kw = dict(cell=np.diag(R.uniform(4, 7, 3)), symbols=[G.SYMS[i] for i in R.randint(0, len(G.SYMS), n)])
    if o.get('obj') == 'nosym':
        del kw['symbols']
    if o.get('obj') == 'nocell':
        return crys.Structure(coords=R.rand(n, 3), symbols=kw['symbols'])
    if o.get('obj') == 'tr' or o['op'] == 'gofr':
        if o['mode'] == 'badcell':
            kw['cell'] = kw['cell'] + np.array([[0, 1., 0], [0, 0, 0], [0, 0, 0]])
        return crys.Trajectory(coords_frac=R.rand(3, n, 3), **kw)
    return crys.Structure(coords_frac=R.rand(n, 3), **kw)

def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass
    return out

def procs():
    """live processes of this process group besides this one"""
    me, out = os.getpid(), []
    for p in os.listdir('/proc'):
        if p.isdigit() and int(p) != me:
            try:
                t = open('/proc/%s/stat' % p).read()
            except OSError:
                continue
            w = t[t.rindex(')') + 2:].split()
            if 'kill' in t[:t.rindex(')')] or (w[0] == 'Z' and int(w[1]) != me):
                continue            # the stand-in's own helper; zombies of others
            if int(w[2]) == me or int(w[1]) == me:
                out.append((int(p), t[t.index('(') + 1:t.rindex(')')], w[0]))
    return out

def quiet(fn):
    import warnings
    try:
        r = fn()
        return ('ok', r)
    except (Exception, KeyboardInterrupt) as e:
        return ('exc', type(e).__name__, str(e)[:200])

_tl = threading.local()

def hook_popen():
    import subprocess
    real = subprocess.Popen
    class P(real):
        def __init__(self, *a, **k):
            if getattr(_tl, 'fail', False):
                raise OSError(11, 'Resource temporarily unavailable')
            real.__init__(self, *a, **k)
    subprocess.Popen = P

def call(o, tmp, bind):
    from pwtools import visualize, crys, batch
    _tl.fail = o['mode'] == 'popen'
    if o['op'] == 'view':
        x = obj(o)
        v = getattr(visualize, 'view_' + o['viewer'])
        kw = dict(disp=o['disp'], keepfiles=o['keep'], tmpdir=tmp, options=(o['opts'] + ' --mode=' + o['mode']).strip() if o['mode'] not in ('missing', 'popen') else o['opts'])
        if o['bg']: kw['bg'] = True
        if not o['wait']: kw['wait'] = False
        if o['log']: kw['logfile'] = o['log']
        if o['sf']: kw['structfile'] = o['sf']
        return lambda: v(x, **kw)
    if o['op'] == 'gofr':
        x = obj(o)
        kw = dict(dr=.25, rmax=1.0, tmpdir=tmp, verbose=o['verbose'])
        if o['wrap']:
            return lambda: crys.vmd_measure_gofr(x, **kw)
        for a, b in (('datafn', 'data'), ('scriptfn', 'script'), ('logfn', 'log')):
            if o[b]: kw[a] = o[b]
        return lambda: crys.call_vmd_measure_gofr('traj%d.axsf' % o['seed'], **kw)
    return batch.default_repl_keys

def names(o):
    if o['op'] == 'view':
        return [x for x in (o['log'], o['sf']) if x]
    if o['op'] == 'gofr' and not o['wrap']:
        return [x for x in (o['data'], o['script'], o['log']) if x]
    return []

def tree(tmp):
    # only files in the working directory and the temp directory
    s = set(os.path.join(tmp, f) for f in os.listdir(tmp)) | set(os.listdir('.'))
    return s

def describe(o):
    return '%s(%s)' % (o['op'] if o['op'] != 'view' else 'view_' + o['viewer'], ', '.join('%s=%r' % (k, o[k]) for k in sorted(o) if k not in ('op', 'seed', 'viewer') and o[k] not in (None, False, '')))

def setup(scn):
    from pwtools import io
    os.makedirs(scn['tmp'])
    for f in ('pwtools_view_struct_aaaa.axsf', 'pwtools_view_log_bbbb', 'vmd_data_cc', 'vmd_script_dd', 'vmd_xsf_ee', 'tmpfile'):
        with open(os.path.join(scn['tmp'], f), 'w') as h:
            h.write('of others ' + f)
    want = {}
    for g in scn['groups']:
        for o in g['ops']:
            if o['op'] == 'gofr':
                io.write_axsf('traj%d.axsf' % o['seed'], obj(dict(o, mode='ok')))

def reference(scn):
    """what the viewers have to see: {(seed, obj, viewer): bytes or None}"""
    from pwtools import visualize
    want = {}
    os.makedirs('ref', exist_ok=True)
    for g in scn['groups']:
        for o in g['ops']:
            if o['op'] == 'view':
                v = getattr(visualize, 'view_' + o['viewer'])
                x = obj(o)
                r = quiet(lambda: (v.assert_cmd and v.assert_cmd(x), v._set_dummy_symbols(x), v.writer('ref/f' + v.suffix, x)))
                want[(o['seed'], o['obj'], o['viewer'])] = open('ref/f' + v.suffix, 'rb').read() if r[0] == 'ok' else None
    return want

def life(scn, bind, seenfn, want, faulty):
    import warnings
    warnings.simplefilter('ignore')
    hook_popen()
    tmp = os.path.abspath(scn['tmp'])
    tempfile.tempdir = tmp
    os.environ['FAKE_SEEN'] = seenfn
    out = []
    others = {f: open(os.path.join(tmp, f)).read() for f in os.listdir(tmp)}
    for gi, g in enumerate(scn['groups']):
        ops = g['ops']
        if not ops:
            continue
        for o in ops:
            for n in names(o):          # these belong to the user: gone before the call
                if os.path.exists(n): os.unlink(n)
        before = tree(tmp)
        f0 = fds()
        if g['conc']:
            os.environ['FAKE_VMD'] = 'ok'
            ths = [call(o, tmp, bind) for o in ops]
            def mk(o, fn):
                def go():
                    _tl.fail = o['mode'] == 'popen'
                    return fn()
                return go
            S = sched.Scheduler(g['choices'])
            rs = S.run([mk(o, fn) for o, fn in zip(ops, ths)])
            _tl.fail = False
            seq = [(ops, rs)]
            step(scn, ops, rs, before, f0, tmp, seenfn, want, faulty, others)
            out.append(('conc', S.switches, [r[0] for r in rs]))
        else:
            for o in ops:
                for n in names(o):
                    if os.path.exists(n): os.unlink(n)
                before = tree(tmp)
                f0 = fds()
                os.environ['FAKE_VMD'] = o['mode'] if o['op'] == 'gofr' and o['mode'] not in ('missing', 'popen', 'badcell') else 'ok'
                away = None
                if o['mode'] == 'missing':
                    away = bind + '/' + ('vmd' if o['op'] == 'gofr' else o['viewer'].split('_')[0])
                    os.rename(away, away + '.away')
                fn = call(o, tmp, bind)
                try:
                    r = quiet(fn)
                finally:
                    if away: os.rename(away + '.away', away)
                    _tl.fail = False
                step(scn, [o], [r], before, f0, tmp, seenfn, want, faulty, others)
                out.append((o['op'], o['mode'], r[0]))
    return out

def step(scn, ops, rs, before, f0, tmp, seenfn, want, faulty, others):
    what = 'after ' + ' || '.join('%s -> %s' % (describe(o), r[0] if r[0] == 'ok' else r[1:]) for o, r in zip(ops, rs))
    # descriptors
    f1 = fds()
    new = {k: v for k, v in f1.items() if k not in f0}
    check(not new, 'descriptor-left-open', lambda: '%s: %s' % (what, sorted(v.replace(tmp, 'TMP') for v in new.values())))
    # processes
    bgs = any(o['op'] == 'view' and (o['bg'] or not o['wait']) for o in ops)
    t0 = time.time()
    ps = procs()
    if bgs:
        while ps and time.time() - t0 < 10:
            time.sleep(.005); ps = procs()
    check(not ps, 'process-left-running', lambda: '%s: %s' % (what, [(b, c) for a, b, c in ps]))
    # files
    after = tree(tmp)
    gone = before - after
    check(not gone, 'file-of-others-removed', lambda: '%s: %s' % (what, sorted(gone)))
    for f, t in others.items():
        check(open(os.path.join(tmp, f)).read() == t, 'file-of-others-changed', lambda: '%s: %s' % (what, f))
    mine = after - before
    auto = sorted(f for f in mine if f.startswith(tmp + '/'))
    lo = hi = 0
    must, may = set(), set()
    for o, r in zip(ops, rs):
        if o['op'] == 'view':
            k = o['keep'] or o['bg']
            n = (o['log'] is None) + (o['sf'] is None)
            if k:
                hi += n
                if r[0] == 'ok': lo += n if o['mode'] != 'rmfile' else 0
            us = set(names(o))
            if k and r[0] == 'ok' and o['mode'] != 'rmfile':
                must |= us
            if k or r[0] != 'ok':
                may |= us
            if not o['wait'] and not k:
                may |= us       # the background shell opens the log when it starts
                if o['log'] is None: hi += 1
        else:
            us = set(names(o))
            if r[0] == 'ok': must |= us
            may |= us
    check(lo <= len(auto) <= hi, 'temp-files-left' if len(auto) > hi else 'kept-file-missing', lambda: '%s: temp dir holds %d new files %s, expected %s' % (what, len(auto), [os.path.basename(x) for x in auto], (lo, hi)))
    user = set(f for f in mine if not f.startswith(tmp + '/'))
    check(user <= may | must, 'stray-file', lambda: '%s: %s' % (what, sorted(user - may - must)))
    check(must <= after, 'kept-file-missing', lambda: '%s: %s' % (what, sorted(must - after)))
    for f in auto:          # do not count them twice
        os.unlink(f)
    # what the program was shown
    seen = []
    if os.path.exists(seenfn):
        L = open(seenfn).read().split('\n')
        seen = list(zip(L[0::2], L[1::2]))
        os.unlink(seenfn)
    exp = [(o, want[(o['seed'], o['obj'], o['viewer'])]) for o in ops if o['op'] == 'view']
    for fn, b in seen:
        if b == 'MISSING':
            check(bgs, 'program-saw-no-file', lambda: '%s: %s' % (what, os.path.basename(fn)))
            continue
        got = base64.b64decode(b)
        ok = any(w is not None and got == w for o, w in exp) or (got == b'' and False)
        nowait = any(o['op'] == 'view' and not o['wait'] and not o['bg'] for o in ops)
        check(ok or nowait, 'program-saw-incomplete-file', lambda: '%s: %d bytes, the complete file has %s' % (what, len(got), [len(w or '') for o, w in exp]))
    for o, r in zip(ops, rs):
        # faults of the program are C14's business; without any fault calls succeed
        if o['op'] == 'view' and o['mode'] in ('ok', 'slow', 'rmfile') and not faulty and want[(o['seed'], o['obj'], o['viewer'])] is not None:
            check(r[0] == 'ok', 'fault-free-call-fails', lambda: what)
            if o['wait'] or o['bg']:
                w = want[(o['seed'], o['obj'], o['viewer'])]
                check(any(b != 'MISSING' and base64.b64decode(b) == w for fn, b in seen), 'program-saw-incomplete-file', lambda: '%s: the file was not shown' % what)
        if o['op'] == 'gofr' and o['mode'] == 'ok' and not faulty:
            check(r[0] == 'ok', 'fault-free-call-fails', lambda: what)

def run(scn, E):
    E.states = set()
    bind = ext.programs(os.path.join(E.dir, 'bin'))
    os.chmod(bind, 0o777)
    path = bind + ':/usr/bin:/bin'
    seen = os.path.join(E.aux, 'seen')
    R = E.node(reference, scn)
    check(R.status == 'ok', 'fault-free-call-fails', lambda: '%r %s' % (R, R.tb))
    want = R.value
    core.restore(E.root, {})
    E.node(setup, scn)
    base = core.snapshot(E.root)
    R = E.node(life, scn, bind, seen, want, False, path=path)
    check(R.status == 'ok', 'call-kills-interpreter', lambda: '%r %s' % (R, R.tb[-900:]))
    for x in R.value:
        E.event(*x)
        E.states.add(repr(x))
        if x[0] == 'conc':
            E.probe('concurrent_calls'); E.fault('thread_switch', x[1])
        elif x[1] != 'ok':
            E.fault('program_' + x[1].split(':')[0]); E.probe('call_with_fault')
    if scn['fault'] and not any(o.get('bg') or o.get('wait') is False for g in scn['groups'] for o in g['ops']):
        n = R.ctl['nmut']
        if scn['fault'] == 'full':
            rules, budget = [], int(scn['frac'] ** 2 * sum(len(v or b'') for v in want.values()) * 2 + scn['permille'])
        else:
            f = mk_fault(scn['fault'], int(scn['frac'] * max(1, n)), scn['permille'], FK)
            if scn['fault'] == 'emfile':
                f['kinds'] = ['create', 'trunc']
            rules, budget = [f], -1
        core.restore(E.root, base)
        R = E.node(life, scn, bind, seen, want, True, path=path, rules=rules, budget=budget)
        check(R.status == 'ok', 'call-kills-interpreter', lambda: 'with %s: %r %s' % (scn['fault'], R, R.tb[-900:]))
        if sum(R.ctl['fired'][:1]) or R.ctl['budget_hits']:
            E.probe('file_fault_hit')
        for x in R.value:
            E.event('f', *x)
            E.states.add(repr((scn['fault'], x)))
