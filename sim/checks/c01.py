"""C01 parameter study: histories of write_input against a reference model."""
import copy, os, random, re, shutil, subprocess
from .. import study as S
from ..core import check, Violation, snapshot, diff_snap

ID = 'C01'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=2500, wall=150), thorough=dict(runs=30000, wall=1500))
RULE = ('a run = one generated study (machines, templates, parameter sets, directory/table names) and a history of 1-6 '
        'append/overwrite/standalone calls split over simulated process restarts, checked after every call against a reference model; '
        'non-trivial = at least two events in the log; distinct = distinct event-log hash')
REAL = ['pwtools.batch', 'pwtools.sql', 'pwtools.common', 'sqlite3', 'file system (tmpfs below the libc seam)', 'generated run.sh executed by /bin/sh']
STUB = ['submit commands and sleep(1) (record their call)']
ASSUME = ['parameter keys are valid SQL identifiers, values of one key have one SQL type', 'no placeholder is a prefix of another placeholder']
LISTS = ['ops']

def prepare():
    import numpy, sqlite3
    from pwtools import batch, sql, common, comb

def generate(r, tier, idx):
    st = S.gen_study(r)
    ops = []
    n = r.choice([1, 2, 2, 3, 3, 4, 6])
    for i in range(n):
        c = S.gen_call(r, st, mode=None if i else r.choice(['a', 'a', 'w']))
        c['reuse'] = r.random() < .5
        c['single'] = r.random() < .5
        c['newproc'] = r.random() < .5
        if r.random() < .015:
            c['params'] = S.gen_params(r, 60, st['keys'])
        files = [k for k, t in enumerate(st['templates']) if t['src'] == 'file']
        if i and files and r.random() < .3:
            k = r.choice(files); old = st['templates'][k]
            new = S.gen_template(r, k, st['keys'])
            while new['style'] != old['style']:
                new = S.gen_template(r, k, st['keys'])
            txt = new['text'].replace('\u00df', 's')
            if r.random() < .4 and len(old['text']) > 1:        # same size
                txt = (txt * (1 + len(old['text']) // max(1, len(txt))))[:len(old['text'])]
            ops.append(dict(op='edit', t=k, text=txt, params=[], newproc=r.random() < .3))
        ops.append(c)
        if r.random() < .25:
            ops.append(dict(op='calc', params=S.gen_params(r, 1, st['keys'])[0], machine=r.randrange(len(st['machines'])),
                            templates=None if r.random() < .5 else [], n=r.randrange(2, 4)))
    return dict(study=st, ops=ops, pre=r.random() < .3, deeproot=r.random() < .5)

def shrinks(scn):
    import copy
    for k, v in (('root', 'study'), ('prefix', 'calc'), ('db_name', 'calc.db'), ('db_table', 'calc')):
        if scn['study'][k] != v:
            c = copy.deepcopy(scn); c['study'][k] = v; yield c
    for i, o in enumerate(scn['ops']):
        for j in range(len(o['params'])):
            if o['op'] == 'call' and len(o['params']) > 1:
                c = copy.deepcopy(scn); del c['ops'][i]['params'][j]; yield c
        if o['op'] == 'call' and len(o['machines']) > 1:
            for j in range(len(o['machines'])):
                c = copy.deepcopy(scn); del c['ops'][i]['machines'][j]; yield c
        if o.get('templates'):
            c = copy.deepcopy(scn); c['ops'][i]['templates'] = []; yield c
        for k, v in (('backup', False), ('reuse', False), ('newproc', False), ('sleep', 0)):
            if o.get(k, v) != v:
                c = copy.deepcopy(scn); c['ops'][i][k] = v; yield c

def valid(scn):
    return bool(scn['ops'])

def node_step(st, ops):
    """Several user actions in one process; returns after each via model in
    the parent, so only consecutive same-process ops are grouped."""
    c = S.Caller(st)
    for o in ops:
        step(c, st, o)
    return True

def step(c, st, o):
    if o['op'] == 'call':
        c.call(o)
    elif o['op'] == 'edit':
        with open(os.path.join(S.templ_dir(st), st['templates'][o['t']]['basename']), 'w') as f:
            f.write(o['text'])
    else:
        from pwtools.batch import Calculation
        p = S.mk_params([e for e in S.flat(o['params'])])
        for k in range(o['n']):
            m = S.mk_machine(st, (o['machine'] + k) % len(st['machines']))
            kw = {}
            if o['templates'] is not None:
                kw['templates'] = [S.mk_template(st, i) for i in o['templates']]
            extra = S.mk_params([dict(key=k2, sqlval='v_' + k2) for k2 in S.BUILTIN])
            Calculation(machine=m, params=p + extra, calc_dir='standalone/%d' % k, **kw).write_input()

STUBS = ['bsub', 'qsub', 'sbatch', 'sleep', 'bash']

def run(scn, E):
    st = copy.deepcopy(scn['study'])
    os.makedirs(E.root, exist_ok=True)
    cwd = os.getcwd()
    os.chdir(E.root)
    try:
        S.write_template_files(st)
    finally:
        os.chdir(cwd)
    root = S.disk_path(E, st)
    model = S.Model(st)
    other = {}
    if scn['pre']:
        os.makedirs(root, exist_ok=True)
        for n in ('notes.txt', 'calc_zzz.tar'):
            open(os.path.join(root, n), 'w').write('user data ' + n)
            other[n] = 'user data ' + n
    sb = stubs(E)
    backups = {}
    # group ops into processes
    groups = []
    for o in scn['ops']:
        if not groups or o.get('newproc'):
            groups.append([])
        groups[-1].append(o)
    prev = {}
    for g in groups:
        # run op by op but inside one process: the node reports snapshots through
        # a callback-free protocol: execute prefix lengths in one process each
        ops = []
        for o in g:
            ops.append(o)
        res, snaps = run_group(E, st, ops)
        for o, sn in zip(ops, snaps):
            if o['op'] == 'call':
                before = {k: v for k, v in prev.items()}
                model.apply(o)
                verify(E, st, model, o, sn, before, backups, other, root)
                E.event('call', o['mode'], len(model.rows), sorted(x for x in sn if x.startswith(rel(E, root))))
                E.probe('append' if o['mode'] == 'a' else 'overwrite')
                if model.excl is not None:
                    E.probe('excl_list')
                prev = sn
            elif o['op'] == 'edit':
                st['templates'][o['t']]['text'] = o['text']
                E.event('edit', o['t']); E.probe('template_edited_between_calls')
            else:
                verify_standalone(st, o, sn)
                E.event('standalone')
                E.probe('standalone')
        check(res.status == 'ok', 'call-failed', lambda: 'call %d of a fault-free history failed: %s %s %s' %
              (len(snaps), res.status, res.exc, res.tb[-1500:]))
        check(res.ctl['nescape'] == 0, 'outside-touched', lambda: 'attempt to change %s' % res.ctl['escape'])
    last = [o for o in scn['ops'] if o['op'] == 'call']
    if last:
        run_scripts(E, st, model, last[-1], root, sb)

def rel(E, p):
    r = os.path.relpath(p, E.root)
    return '' if r == '.' else r

def run_group(E, st, ops):
    """Execute ops in one node process; after each op the node waits while the
    harness photographs the disk (pure hand-shake, no timing)."""
    r1, w1 = os.pipe(); r2, w2 = os.pipe()
    import threading
    snaps = []
    def body():
        os.close(r1); os.close(w2)
        c = S.Caller(st)
        for o in ops:
            step(c, st, o)
            os.write(w1, b'.')
            os.read(r2, 1)
        return True
    def photographer():
        while True:
            b = os.read(r1, 1)
            if not b:
                return
            snaps.append(snapshot(E.root))
            os.write(w2, b'.')
    t = threading.Thread(target=photographer, daemon=True)
    def on_parent(pid):
        os.close(w1); os.close(r2)
        t.start()
    res = E.node(body, on_parent=on_parent)
    t.join(60)
    os.close(r1); os.close(w2)
    return res, snaps

def verify(E, st, model, call, sn, before, backups, other, root):
    rr = rel(E, root)
    pre = rr + '/' if rr else ''
    db = pre + st['db_name']
    check(db in sn, 'db-missing', 'no database %s after write_input' % db)
    # --- backups expected by this call (documented numbered copies)
    want_bak = {}
    if call['backup'] and before:
        if db in before:
            want_bak[numbered(before, db)] = {'': before[db]}
        for j in call['machines']:
            d = pre + model.calc_dir(j)
            if d in before:
                sub = {k[len(d):]: v for k, v in before.items() if k == d or k.startswith(d + '/')}
                want_bak[numbered(before, d)] = sub
    for name, sub in want_bak.items():
        for k, v in sub.items():
            check(sn.get(name + k) == v, 'backup-content', lambda: 'backup %s%s is %r, expected %r' % (name, k, brief(sn.get(name + k)), brief(v)))
            backups[name + k] = v
    # --- full tree comparison (without db and run.sh)
    want = {}
    for k, t in model.files.items():
        want[pre + k] = ('f', t.encode())
    for d in model.dirs:
        want[pre + d] = ('d',)
    for k, t in other.items():
        want[pre + k] = ('f', t.encode())
    want.update(backups)
    for j, (idxs, slp) in model.last.items():
        d = pre + model.calc_dir(j)
        if d in want:
            want[d + '/run.sh'] = None
    for k, v in want.items():
        if v is None:
            check(k in sn, 'runsh-missing', '%s missing' % k)
        else:
            check(k in sn, 'file-missing', lambda: '%s missing after %s call' % (k, call['mode']))
            check(sn[k] == v, 'file-content', lambda: '%s: %r, expected %r' % (k, brief(sn[k]), brief(v)))
    ignore = {db, pre + 'excl_push'}
    for k in sn:
        if k in want or k in ignore or not k.startswith(pre):
            continue
        if k.startswith('templ.d') or k == 'templ.d' or k.startswith('standalone'):
            continue
        if sn[k] == ('d',) and (any(x.startswith(k + '/') for x in want) or k == rr):
            continue
        raise Violation('unexpected-file', 'unexpected %s after %s call (%r)' % (k, call['mode'], brief(sn[k])))
    if pre:
        for k in sn:
            if k.startswith(pre) or k.startswith('templ.d') or k.startswith('standalone'):
                continue
            check(sn[k] == ('d',) and (rr + '/').startswith(k + '/'), 'unexpected-file', lambda: 'unexpected %s outside the study directory' % k)
    # --- database (photographed copy)
    p = os.path.join(E.aux, 'photo.db')
    with open(p, 'wb') as f:
        f.write(sn[db][1])
    cols, rows = S.read_db(p, st['db_table'])
    S.check_rows(rows, model.rows, 'database after %s call' % call['mode'])
    # --- exclude list
    if call['mode'] == 'a' and call['excl'] and model.rows and max(r['revision'] for r in model.rows) > 0:
        check(pre + 'excl_push' in sn, 'excl-missing', 'no exclude list after an append')
        got = sn[pre + 'excl_push'][1].decode().split()
        cur = max(r['revision'] for r in model.rows)
        wantx = [str(r['idx']) for r in model.rows if r['revision'] < cur]
        check(sorted(got) == sorted(wantx), 'excl-content', lambda: 'exclude list %s, expected %s' % (got, wantx))
    elif before.get(pre + 'excl_push') is None:
        check(pre + 'excl_push' not in sn, 'excl-unexpected', 'exclude list written although nothing is to be excluded')

def numbered(before, name):
    i = 0
    while '%s.%d' % (name, i) in before:
        i += 1
    return '%s.%d' % (name, i)

def brief(v):
    if v is None:
        return None
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'

def verify_standalone(st, o, sn):
    for k in range(o['n']):
        m = st['machines'][(o['machine'] + k) % len(st['machines'])]
        d = 'standalone/%d/' % k
        have = {x[len(d):] for x in sn if x.startswith(d)}
        want = {st['templates'][m['templ']]['basename']} | {st['templates'][i]['basename'] for i in (o['templates'] or [])}
        # re-used directories of an earlier standalone op may add files of that op's machine
        check(want <= have, 'standalone-missing', lambda: '%s has %s, expected %s' % (d, have, want))
        others = {st['templates'][mm['templ']]['basename'] for mm in st['machines']}
    d = 'standalone/%d/' % 0
    first = {x[len(d):] for x in sn if x.startswith('standalone/1/')}
    # a later calculation must not carry job files of an earlier calculation's machine
    m1 = st['machines'][(o['machine'] + 1) % len(st['machines'])]
    have = {x[len('standalone/1/'):] for x in sn if x.startswith('standalone/1/')}
    allowed = set(st.get('_standalone_allowed', []))
    allowed.add(st['templates'][m1['templ']]['basename'])
    st['_standalone_allowed'] = sorted(allowed)
    check(have <= allowed, 'standalone-extra', lambda: 'calculation of machine %s holds files %s; its templates are %s' % (m1['hostname'], sorted(have), sorted(allowed)))

def stubs(E):
    d = os.path.join(E.aux, 'bin')
    os.makedirs(d)
    for n in STUBS:
        p = os.path.join(d, n)
        with open(p, 'w') as f:
            f.write('#!/bin/sh\nprintf "%%s|%%s|%%s|%%s\\n" "%s" "$PWD" "$*" "$(/usr/bin/readlink /proc/self/fd/0)" >> "$STUBLOG"\n' % n)
        os.chmod(p, 0o755)
    return d

def run_scripts(E, st, model, call, root, sb):
    """Execute the submit scripts and compare what they submit."""
    for j in call['machines']:
        m = st['machines'][j]
        d = os.path.join(root, model.calc_dir(j))
        idxs, slp = model.last[j]
        logf = os.path.join(E.aux, 'stublog%d' % j)
        env = dict(PATH=sb, STUBLOG=logf, HOME=E.root, LANG='C.UTF-8')
        p = subprocess.run(['/bin/sh', './run.sh'], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        got = open(logf).read().splitlines() if os.path.exists(logf) else []
        want = []
        base = st['templates'][m['templ']]['basename']
        for i in idxs:
            sub = m['subcmd'].split()
            wd = os.path.join(os.path.realpath(d), str(i))
            if sub[-1] == '<':
                want.append('%s|%s|%s|%s' % (sub[0], wd, ' '.join(sub[1:-1]), os.path.join(wd, base)))
            else:
                want.append('%s|%s|%s|%s' % (sub[0], wd, ' '.join(sub[1:] + [base]), '/dev/null'))
            want.append('sleep|%s|%d|/dev/null' % (os.path.realpath(d), slp))
        check(got == want, 'submit-script', lambda: 'run.sh of %s submitted %s, expected %s (output %r)' % (m['hostname'], got, want, p.stdout[-300:]))
        E.event('runsh', j, len(got))
        # a directory which is not there (not copied to this machine): its job
        # is not submitted from somewhere else
        if idxs:
            gone = idxs[len(idxs) // 2]
            shutil.rmtree(os.path.join(d, str(gone)))
            open(logf, 'w').close()
            p = subprocess.run(['/bin/sh', './run.sh'], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            got = [x for x in open(logf).read().splitlines() if not x.startswith('sleep|')]
            ok = [w for w, i in zip(want[::2], idxs) if i != gone]
            check(all(got.count(x) <= 1 and x in ok for x in got), 'submit-script', lambda: 'run.sh of %s without directory %s submitted %s, expected %s' % (m['hostname'], gone, got, ok))
            E.probe('run_script_with_missing_directory')
