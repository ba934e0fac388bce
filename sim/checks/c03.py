"""C03 overwrite/append with backup: the only copy of earlier results is never
destroyed; nothing outside the study's own artifacts is touched."""
import copy, os, re
from .. import study as S, sched
from ..core import check, Violation, snapshot, restore, mk_fault, BENIGN
from . import c02

ID = 'C03'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=1500, wall=170), thorough=dict(runs=40000, wall=1700))
RULE = ('a run = a study (directory names with blanks and shell metacharacters, user results, symlinks and neighbour files added) with 1-3 undisturbed calls, then an '
        'overwrite or append call, with or without backup, hit by one fault placed over its whole operation sequence (or none), then optionally a second call; '
        'non-trivial = a fault fired or an overwrite happened; distinct = distinct event-log hash')
REAL = ['pwtools.batch', 'pwtools.common', 'pwtools.sql', 'sqlite3', 'rm(1), /bin/sh, shutil', 'file system (tmpfs below the libc seam)']
STUB = []
LISTS = ['calls', 'user', 'attacks']
STATES = c02.STATES
KINDS = ['crash_before', 'torn_crash', 'crash_after', 'crash_before', 'crash_before', 'enospc', 'eio', 'eio', 'full', 'partial', 'short_persist',
         'sigint', 'line', 'line', 'emfile', 'eio_persist', 'read_eio', 'read_short', 'close_err', None, None]

prepare = c02.prepare

def generate(r, tier, idx):
    st = S.gen_study(r, nasty=True)
    if r.random() < .5:
        st['root'] = r.choice(S.NASTY)
    calls = [S.gen_call(r, st, mode='a') for i in range(r.choice([1, 1, 2]))]
    user = []
    for i in range(r.randrange(0, 6)):
        user.append(dict(m=r.randrange(len(st['machines'])), idx=r.choice([0, 0, 1, None]),
                         kind=r.choice(['file', 'file', 'dir', 'link', 'dangling' if r.random() < .15 else 'file', 'bakdecoy', 'empty']),
                         name=r.choice(['pw.out', 'out dir', 'r.npy', 'x;y', '-f', '.hidden']), size=r.choice([0, 10, 5000, 70000])))
    attacks = []
    for i in range(r.choice([1, 1, 2])):
        c = S.gen_call(r, st, mode='w' if r.random() < .7 else 'a', nmax=3)
        c['backup'] = r.random() < .75
        attacks.append(dict(call=c, kind=r.choice(KINDS), frac=r.random(), permille=r.randrange(1, 1000)))
    return dict(study=st, calls=calls, user=user, attacks=attacks, excl=r.random() < .5)

def valid(scn):
    return bool(scn['calls']) and bool(scn['attacks'])

def shrinks(scn):
    for k, v in (('root', 'study'), ('prefix', 'calc'), ('db_name', 'calc.db'), ('db_table', 'calc')):
        if scn['study'][k] != v:
            c = copy.deepcopy(scn); c['study'][k] = v; yield c
    for key, lst in (('calls', scn['calls']), ('attacks', scn['attacks'])):
        for i, o in enumerate(lst):
            t = o['call'] if key == 'attacks' else o
            def sub(c):
                return c[key][i]['call'] if key == 'attacks' else c[key][i]
            if len(t['params']) > 1:
                c = copy.deepcopy(scn); sub(c)['params'] = t['params'][:1]; yield c
            if len(t['machines']) > 1:
                c = copy.deepcopy(scn); sub(c)['machines'] = t['machines'][:1]; yield c
            if t['templates']:
                c = copy.deepcopy(scn); sub(c)['templates'] = []; yield c

def decoys(E, st, root):
    """files of other people whose names could be hit by sloppy path handling"""
    names = []
    cwd = os.getcwd(); os.chdir(E.root)
    try:
        toks = set()
        for j in range(len(st['machines'])):
            full = os.path.join(st['root'], '%s_%s' % (st['prefix'], st['machines'][j]['hostname']))
            for t in re.split(r"[\s;&|'\"`$()*#~]+", full):
                if t and t not in ('.', '/') and not t.startswith('/'):
                    toks.add(t)
        for t in sorted(toks):
            t = t.rstrip('/')
            if not t or '..' in t or os.path.lexists(t):
                continue
            try:
                os.makedirs(t)
            except OSError:
                continue
            with open(os.path.join(t, 'precious.dat'), 'w') as f:
                f.write('precious ' + t)
        os.makedirs(root, exist_ok=True)
        for j in range(len(st['machines'])):
            for n in ('%s_%sX' % (st['prefix'], st['machines'][j]['hostname']), '%s_other' % st['prefix']):
                d = os.path.join(root, n, '0')
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, 'result'), 'w') as f:
                    f.write('neighbour ' + n)
        for n in ('notes.txt', st['db_name'] + 'X', 'run.sh'):
            with open(os.path.join(root, n), 'w') as f:
                f.write('user file ' + n)
    finally:
        os.chdir(cwd)

def add_user(E, st, root, model, u):
    d = os.path.join(root, model.calc_dir(u['m']))
    if u['idx'] is not None:
        d = os.path.join(d, str(u['idx']))
    if not os.path.isdir(d):
        return
    p = os.path.join(d, u['name'])
    if os.path.lexists(p):
        return
    data = (b'result %d ' % u['size']) + bytes((i * 7 + u['size']) % 251 for i in range(u['size']))
    if u['kind'] == 'file':
        open(p, 'wb').write(data)
    elif u['kind'] == 'empty':
        os.makedirs(p)
    elif u['kind'] == 'dir':
        os.makedirs(os.path.join(p, 'deep/er'))
        open(os.path.join(p, 'deep/er/f'), 'wb').write(data)
    elif u['kind'] == 'link':
        t = os.path.join(E.root, 'elsewhere'); os.makedirs(t, exist_ok=True)
        open(os.path.join(t, 'target.dat'), 'wb').write(data)
        os.symlink(os.path.join(t, 'target.dat'), p)
    elif u['kind'] == 'dangling':
        os.symlink('/nonexistent/x', p)
    elif u['kind'] == 'bakdecoy':
        # a name the backup numbering will meet
        b = os.path.join(root, model.calc_dir(u['m'])) + '.%d' % (0 if u['size'] < 100 else 1)
        if not os.path.lexists(b):
            os.makedirs(b); open(os.path.join(b, 'old'), 'wb').write(data)

def run(scn, E):
    st = scn['study']
    cwd = os.getcwd(); os.chdir(E.root)
    try:
        S.write_template_files(st)
    finally:
        os.chdir(cwd)
    root = S.disk_path(E, st)
    model = S.Model(st)
    decoys(E, st, root)
    for c in scn['calls']:
        R = E.node(c02.one, st, c)
        check(R.status == 'ok', 'setup-call-failed', lambda: '%r %s' % (R, R.tb))
        model.apply(c)
    for u in scn['user']:
        add_user(E, st, root, model, u)
    E.states = set()
    for a in scn['attacks']:
        model = attack(E, st, root, model, a)
    E.event('end')

def content(E, snap):
    """follow symlinks the way a copy does"""
    out = {}
    for k, v in snap.items():
        if v[0] == 'l':
            try:
                out[k] = ('f', open(os.path.join(E.root, k), 'rb').read())
            except OSError:
                out[k] = v
        else:
            out[k] = v
    return out

def attack(E, st, root, model, a):
    call = a['call']; kind = a['kind']
    before = snapshot(E.root)
    beforec = content(E, before)
    pre = S.rel(E, root); pre = pre + '/' if pre else ''
    db = pre + st['db_name']
    ph0 = S.photo_db(E, root, st)
    m1 = model.copy(); m1.apply(call)
    if kind == 'line':
        D = E.node(c02.counted, st, call)
    else:
        D = E.node(c02.one, st, call)
    clean_ok = D.status == 'ok'
    if not clean_ok:
        # only acceptable reason: a backup cannot be made (dangling link)
        check(call['backup'] and any(v[0] == 'l' and not os.path.exists(v[1]) for v in before.values()),
              'clean-call-failed', lambda: '%r %s' % (D, D.tb[-1500:]))
        E.probe('backup_impossible')
        verify(E, st, root, model, m1, call, before, beforec, ph0, D, ('impossible-backup',), db, pre)
        E.event('impossible', D.exc)
        restore(E.root, before)
        return model
    if kind is None:
        R = D; hit = ('none',)
    else:
        restore(E.root, before)
        nmut = D.ctl['nmut']
        kc = D.ctl['kcount']
        if kind == 'line':
            k = 1 + int(a['frac'] * D.value)
            R = E.node(c02.interrupted, st, call, k)
            where = None
            if R.status == 'ok':
                s, v, where = R.value
                if where:
                    E.fault('ctrl-c_at_line')
                if s == 'exc':
                    R.status, R.exc, R.excmsg = 'exc', v.split(':')[0], v
            hit = ('line', where)
        else:
            rule = mk_fault(kind, int(a['frac'] * nmut), a['permille'])
            budget = -1
            if kind == 'full':
                rule = None
                budget = int(a['frac'] * sum(o.ret for o in D.ops if o.kind == 'write' and o.ret > 0))
            elif kind in ('read_eio', 'read_short'):
                rule['at'] = int(a['frac'] * kc['read'])
            elif kind not in ('crash_before', 'crash_after', 'torn_crash', 'eio', 'sigint', 'eio_persist'):
                rule['at'] = int(a['frac'] * sum(kc[x] for x in rule['kinds']))
            R = E.node(c02.one, st, call, rules=[rule] if rule else [], budget=budget)
            last = [o for o in R.ops if o.fault]
            hit = (kind, last[0].kind, last[0].path.lstrip('/')) if last else (kind,)
    E.event('attack', call['mode'], call['backup'], hit, R.status, R.exc)
    check(R.status not in ('hang', 'died'), 'call-hangs-or-dies', lambda: '%r' % R)
    check(R.ctl['nescape'] == 0, 'outside-touched', lambda: R.ctl['escape'])
    if kind in BENIGN:
        check(R.status == 'ok', 'benign-fault-fails', lambda: '%s made the call fail: %r %s' % (kind, R, R.tb[-1200:]))
    verify(E, st, root, model, m1, call, before, beforec, ph0, R, hit, db, pre)
    if R.status == 'ok':
        E.probe('overwrite_ok' if call['mode'] == 'w' else 'append_ok')
        return m1
    E.probe('overwrite_failed' if call['mode'] == 'w' else 'append_failed')
    restore(E.root, before)       # next attack starts from a consistent study
    return model

def verify(E, st, root, model, m1, call, before, beforec, ph0, R, hit, db, pre):
    after = snapshot(E.root)
    afterc = content(E, after)
    cds = [pre + m1.calc_dir(j) for j in call['machines']]
    what = '%s call (backup=%s) after %s: %s' % (call['mode'], call['backup'], hit, R.exc or R.status)
    E.states.add(repr((hit, R.status, len(after))))
    # 1. nothing outside the study's own artifacts changes
    own = {db, db + '-journal', pre + 'excl_push'}
    for k, v in before.items():
        if k in own or any(k == d or k.startswith(d + '/') for d in cds):
            continue
        check(after.get(k) == v, 'foreign-data-touched', lambda: '%s: %s was %s and is %s' % (what, k, c02.S_brief(v), c02.S_brief(after.get(k))))
    for k in after:
        if k in before or k in own or any(k == d or k.startswith(d + '/') for d in cds):
            continue
        if call['backup'] and S.is_backup_name(k, [db] + cds):
            continue
        if after[k] == ('d',) and (pre.startswith(k + '/')):
            continue
        raise Violation('foreign-data-touched', '%s: unexpected new %s' % (what, k))
    # 2. append never changes what is there, overwrite only with a complete backup
    dirs = [d for d in cds if d in before]
    newidx = {str(r['idx']) for r in m1.rows} if call['mode'] == 'w' else {str(r['idx']) for r in m1.rows[len(model.rows):]}
    for d in dirs:
        mine = {k[len(d):]: v for k, v in beforec.items() if k.startswith(d + '/')}
        inplace = all(afterc.get(d + k) == v for k, v in mine.items() if not (k == '/run.sh' and call['mode'] == 'a'))
        bak = numbered_with(afterc, before, d, mine)
        if call['mode'] == 'a':
            check(inplace, 'append-destroys', lambda: '%s: %s changed: %s' % (what, d, [k for k, v in mine.items() if afterc.get(d + k) != v][:5]))
        elif call['backup']:
            check(inplace or bak is not None, 'only-copy-destroyed', lambda: '%s: data of %s neither in place nor in a backup; in place missing %s' %
                  (what, d, [k for k, v in mine.items() if afterc.get(d + k) != v][:5]))
        if call['backup'] and R.status == 'ok':
            check(bak is not None, 'no-backup', lambda: '%s: no complete backup of %s' % (what, d))
    if db in before and ph0 and ph0[1]:
        ph = S.photo_db(E, root, st)
        rows = ph[1] if ph else []
        inplace = len(rows) >= len(ph0[1]) and S.rows_equal(rows[:len(ph0[1])], sorted(ph0[1], key=lambda x: x['idx']))
        bak = [k for k in after if k not in before and S.is_backup_name(k, [db]) and after[k] == before[db]]
        if call['mode'] == 'a':
            check(inplace, 'append-destroys', '%s: earlier rows are gone' % what)
        elif call['backup']:
            check(inplace or bak, 'only-copy-destroyed', '%s: earlier rows neither in the database nor in a backup of it' % what)
        if call['backup'] and R.status == 'ok':
            check(bak, 'no-backup', '%s: no complete backup of the database' % what)
    if R.status == 'ok':
        c02.verify_complete(E, st, root, m1, call, what)
        if call['mode'] == 'w':
            # purged: nothing of the old calculations left in the used directories
            want = S.expected_files(m1, pre)
            for d in cds:
                for k in after:
                    if k.startswith(d + '/') and k not in want and k != d + '/run.sh':
                        raise Violation('overwrite-leftover', '%s: %s survives an overwrite' % (what, k))

def numbered_with(after, before, d, mine):
    """name of a NEW numbered backup of d that holds everything in mine"""
    c = set()
    for k in after:
        m = re.match(re.escape(d) + r'\.(\d+)(/|$)', k)
        if m:
            c.add(d + '.' + m.group(1))
    for n in sorted(c):
        if n in before:
            continue
        if n in after and all(after.get(n + k) == v for k, v in mine.items()):
            return n
    return None
