"""C02 parameter study: interrupted append loses nothing and can be repeated."""
import copy, os
from .. import study as S, sched
from ..core import check, Violation, snapshot, diff_snap, restore, mk_fault, BENIGN, CRASHES, rng_for

ID = 'C02'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=1500, wall=170), thorough=dict(runs=40000, wall=1700))
RULE = ('a run = a study with 0-2 undisturbed calls, then an append hit by 1-3 consecutive faults (crash before/after/torn at a file operation, '
        'ENOSPC, EIO, full disk, partial or short write, EINTR, close error, EMFILE, SIGINT at a file operation, Ctrl-C at a line of library code) placed over the whole '
        'operation sequence of the call, then a fault-free repetition; non-trivial = the fault fired; distinct = distinct event-log hash')
REAL = ['pwtools.batch', 'pwtools.sql', 'pwtools.common', 'sqlite3', 'rm(1), cp code paths of shutil', 'file system (tmpfs below the libc seam)']
STUB = []
ASSUME = ['file-system metadata operations that returned survive a process crash (power loss is C07)']
LISTS = ['calls', 'faults']
STATES = 'crash state: hash of (fault kind, operation kind and path it hit, files present, rows present)'
KINDS = ['crash_before', 'torn_crash', 'crash_after', 'crash_before', 'torn_crash', 'enospc', 'eio', 'full', 'partial', 'short', 'short_persist',
         'eintr', 'sigint', 'line', 'line', 'close_err', 'emfile', 'eio_persist']

def prepare():
    import numpy, sqlite3
    from pwtools import batch, sql, common, comb

def generate(r, tier, idx):
    st = S.gen_study(r, nasty=r.random() < .3)
    calls = [S.gen_call(r, st, mode='a') for i in range(r.choice([0, 0, 1, 1, 2]))]
    tgt = S.gen_call(r, st, mode='a', nmax=5)
    faults = []
    for i in range(r.choice([1, 1, 1, 2, 3])):
        faults.append(dict(kind=r.choice(KINDS), frac=r.random() if r.random() < .7 else 1 - r.random() ** 3, permille=r.randrange(1, 1000)))
    return dict(study=st, calls=calls, target=tgt, faults=faults, nretry=r.choice([1, 1, 2]), diffproc=r.random() < .8)

def shrinks(scn):
    for k, v in (('root', 'study'), ('prefix', 'calc'), ('db_name', 'calc.db'), ('db_table', 'calc')):
        if scn['study'][k] != v:
            c = copy.deepcopy(scn); c['study'][k] = v; yield c
    t = scn['target']
    for j in range(len(t['params'])):
        if len(t['params']) > 1:
            c = copy.deepcopy(scn); del c['target']['params'][j]; yield c
    if len(t['machines']) > 1:
        c = copy.deepcopy(scn); c['target']['machines'] = t['machines'][:1]; yield c
    if t['templates']:
        c = copy.deepcopy(scn); c['target']['templates'] = []; yield c
    for p in range(len(t['params'])):
        if len(t['params'][p]) > 1:
            c = copy.deepcopy(scn); c['target']['params'][p] = t['params'][p][:1]; yield c
    if t['backup']:
        c = copy.deepcopy(scn); c['target']['backup'] = False; yield c
    if scn['nretry'] > 1:
        c = copy.deepcopy(scn); c['nretry'] = 1; yield c

def one(st, call):
    S.Caller(st).call(call)
    return True

def counted(st, call):
    return sched.count_lines(one, st, call)[1]

def interrupted(st, call, k):
    return sched.interrupt_at(k, one, st, call)

def run(scn, E):
    st = scn['study']
    cwd = os.getcwd(); os.chdir(E.root)
    try:
        S.write_template_files(st)
    finally:
        os.chdir(cwd)
    root = S.disk_path(E, st)
    model = S.Model(st)
    for c in scn['calls']:
        R = E.node(one, st, c)
        check(R.status == 'ok', 'setup-call-failed', lambda: '%r %s' % (R, R.tb))
        model.apply(c)
    E.states = set()
    tgt = scn['target']
    for f in scn['faults']:
        model = attack(E, st, root, model, tgt, f)
    for i in range(scn['nretry']):
        before = snapshot(E.root)
        R = E.node(one, st, tgt)
        check(R.status == 'ok', 'retry-failed', lambda: 'repeating the call without faults failed: %r %s' % (R, R.tb[-1500:]))
        model.apply(tgt)
        verify_complete(E, st, root, model, tgt, 'after the fault-free repetition')
    E.event('end', len(model.rows))

def attack(E, st, root, model, call, f):
    before = snapshot(E.root)
    m1 = model.copy(); m1.apply(call)
    kind = f['kind']
    # dry run on the same state gives the length of the operation sequence
    if kind == 'line':
        D = E.node(counted, st, call)
    else:
        D = E.node(one, st, call)
    if D.status != 'ok':
        raise Violation('retry-failed', 'fault-free call failed: %r %s' % (D, D.tb[-1500:]))
    restore(E.root, before)
    nmut = D.ctl['nmut']
    nbytes = sum(o.ret for o in D.ops if o.kind == 'write' and o.ret > 0)
    if kind == 'line':
        k = 1 + int(f['frac'] * D.value)
        R = E.node(interrupted, st, call, k)
        if R.status == 'ok':
            s, v, where = R.value
            if where:
                E.fault('ctrl-c_at_line')
            if s == 'exc':
                R.status, R.exc, R.excmsg = 'exc', v.split(':')[0], v
        hit = ('line', where if R.status in ('ok', 'exc') else None)
    else:
        E.probe('ops_in_call', nmut)
        rule = mk_fault(kind, int(f['frac'] * nmut), f['permille'])
        budget = -1
        if kind == 'full':
            rule = None; budget = int(f['frac'] * nbytes)
        elif kind == 'close_err':
            rule['at'] = int(f['frac'] * D.ctl['kcount']['closew'])
        elif kind == 'emfile':
            rule['at'] = int(f['frac'] * (D.ctl['kcount']['create'] + D.ctl['kcount']['trunc'] + D.ctl['kcount']['openr']))
        elif kind == 'eintr':
            rule['kinds'] = ['write', 'create', 'trunc']
            rule['at'] = int(f['frac'] * sum(D.ctl['kcount'][x] for x in rule['kinds']))
        elif kind in ('short', 'partial', 'short_persist'):
            rule['at'] = int(f['frac'] * D.ctl['kcount']['write'])
        elif kind == 'enospc':
            rule['at'] = int(f['frac'] * sum(D.ctl['kcount'][x] for x in rule['kinds']))
        R = E.node(one, st, call, rules=[rule] if rule else [], budget=budget)
        last = [o for o in R.ops if o.fault]
        hit = (kind, last[0].kind, S.rel(E, os.path.join(E.root, last[0].path.lstrip('/')))) if last else (kind,)
    E.event('attack', hit, R.status, R.exc)
    check(R.status not in ('hang', 'died'), 'call-hangs-or-dies', lambda: '%r' % R)
    check(R.ctl['nescape'] == 0, 'outside-touched', lambda: R.ctl['escape'])
    if kind in BENIGN:
        check(R.status == 'ok', 'benign-fault-fails', lambda: '%s made the call fail: %r %s' % (kind, R, R.tb[-1200:]))
    if R.status == 'ok':
        verify_complete(E, st, root, m1, call, 'call under %s returned normally' % (hit,))
        E.probe('survived')
        return m1
    E.probe('crashed' if R.status == 'crash' else 'raised')
    pre = S.rel(E, root); pre = pre + '/' if pre else ''
    after = snapshot(E.root)
    db = pre + st['db_name']
    cds = [pre + model.calc_dir(j) for j in call['machines']]
    rewritten = {db, db + '-journal', pre + 'excl_push'} | {c + '/run.sh' for c in cds}
    newidx = [r['idx'] for r in m1.rows[len(model.rows):]]
    newdirs = ['%s/%d' % (c, i) for c in cds for i in newidx]
    for k, v in before.items():
        if k in rewritten or any(k == d or k.startswith(d + '/') for d in newdirs):
            continue        # (leftovers of an earlier failed attempt of this very call may be overwritten)
        check(after.get(k) == v, 'earlier-data-lost', lambda: '%s was %r and is %r after %s (%s)' % (k, S_brief(v), S_brief(after.get(k)), hit, R.exc or R.status))
    if db in before:
        check(db in after, 'earlier-data-lost', 'database is gone after %s' % (hit,))
    for k in after:
        if k in before or k in rewritten or S.is_backup_name(k, [db] + cds):
            continue
        if k in cds or any(k == d or k.startswith(d + '/') for d in newdirs) or k == pre.rstrip('/') or (pre.startswith(k + '/') and after[k] == ('d',)):
            continue
        raise Violation('unexpected-file', 'unexpected %s after a failed append (%s)' % (k, hit))
    ph = S.photo_db(E, root, st)
    rows = ph[1] if ph else []
    E.states.add(repr((hit, len(after), len(rows))))
    if S.rows_equal(rows, model.rows) and not (rows and len(m1.rows) == len(model.rows)):
        nm = model
    elif S.rows_equal(rows, m1.rows):
        nm = m1
        E.probe('committed_before_fault')
    else:
        # neither all nor none
        S_has = [r.get('idx') for r in rows]
        raise Violation('partial-rows', 'after %s (%s) the database holds idx %s; before the call %s, complete %s' %
                        (hit, R.exc or R.status, S_has, [r['idx'] for r in model.rows], [r['idx'] for r in m1.rows]))
    for k, v in S.expected_files(nm, pre).items():
        check(after.get(k) == v, 'row-without-inputs', lambda: 'database row present but %s is %r, expected %r (%s)' % (k, S_brief(after.get(k)), S_brief(v), hit))
    return nm.copy()

def S_brief(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'

def verify_complete(E, st, root, model, call, what):
    sn = snapshot(E.root)
    pre = S.rel(E, root); pre = pre + '/' if pre else ''
    for k, v in S.expected_files(model, pre).items():
        check(sn.get(k) == v, 'incomplete-result', lambda: '%s: %s is %r, expected %r' % (what, k, S_brief(sn.get(k)), S_brief(v)))
    ph = S.photo_db(E, root, st)
    check(ph is not None, 'incomplete-result', '%s: no database' % what)
    S.check_rows(ph[1], model.rows, what, cls='incomplete-result')
    for j in call['machines']:
        k = pre + model.calc_dir(j) + '/run.sh'
        check(k in sn and S.runsh_ok(st, model, j, sn[k][1].decode()), 'incomplete-result', lambda: '%s: %s is %r' % (what, k, S_brief(sn.get(k))))
    if call['excl'] and model.rows and max(r['revision'] for r in model.rows) > 0:
        cur = max(r['revision'] for r in model.rows)
        got = sn.get(pre + 'excl_push', ('f', b''))[1].decode().split()
        want = [str(r['idx']) for r in model.rows if r['revision'] < cur]
        check(sorted(got) == sorted(want), 'incomplete-result', lambda: '%s: exclude list %s, expected %s' % (what, got, want))
    # nothing else but backups and leftovers of the interrupted attempts
    cds = [pre + model.calc_dir(j) for j in range(len(st['machines']))]
