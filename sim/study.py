"""Workload and reference model for parameter studies (C01, C02, C03)."""
import os, sqlite3, sys
from .core import check, Violation, HarnessError, snapshot

# --------------------------------------------------------------- generation
WORDS = ['pw.in', 'job.sh', 'inp', 'run.cfg', 'INCAR', 'geo.dat']
KEYS = ['ecut', 'kpts', 'alat', 'smear', 'pseudo', 'nband']   # no key is a prefix of another
# (machine attribute / built-in keys: revision study_name idx calc_name subcmd scratch home)
KTYPES = {'ecut': 'REAL', 'kpts': 'TEXT', 'alat': 'REAL', 'smear': 'TEXT', 'pseudo': 'TEXT', 'nband': 'INTEGER'}
BUILTIN = ['revision', 'study_name', 'idx', 'calc_name']
MKEYS = ['subcmd', 'scratch', 'home']
NICE = ['.', 'study', 'a/b', 'x.y']
NASTY = ['my study', "it's", 'a;b', 'a$(touch PWNED)b', 'a&b', 'a  b', '*', 'x|y', '-r', 'r\u00e9sum\u00e9', 'a"b', '~', 'a`b', '#1', '%s', '[ab]']

def gen_val(r, key, small=False):
    t = KTYPES[key]
    if t == 'REAL':
        return r.choice([0.0, 1.5, -2.25, 1e-12, 3.141592653589793, 1e22, float(r.randrange(1000)), r.random()])
    if t == 'INTEGER':
        return r.choice([0, 1, -7, 12, 2 ** 40, r.randrange(10000)])
    return r.choice(['', 'a', '2 2 2', "it's", 'x;drop table calc', 'l1\nl2', 'gauss', '"q"', '\u00e9\u00df', 'a%sb', 'v%d' % r.randrange(1000)])

def gen_params(r, n, keys):
    """list of parameter sets (list of entries)"""
    out = []
    complete = r.random() < 0.5
    for i in range(n):
        ks = list(keys) if complete else [k for k in keys if r.random() < 0.75]
        if r.random() < 0.2:
            r.shuffle(ks)
        st = []
        for k in ks:
            e = dict(key=k, sqlval=gen_val(r, k))
            if r.random() < 0.25:
                e['fileval'] = r.choice(['FV %s' % k, 'K_POINTS automatic\n2 2 2 0 0 0', 42, 1.25, '', 0, 0.0, False])
            if r.random() < 0.3:
                e['sqltype'] = r.choice([KTYPES[k], KTYPES[k].lower()])
                if KTYPES[k] == 'REAL' and r.random() < .3:
                    e['sqltype'] = 'float'
            st.append(e)
        if r.random() < 0.3 and len(st) > 1:
            c = r.randrange(1, len(st))
            st = [st[:c], st[c:]] if r.random() < .5 else st[:c] + [[st[c:]]]      # nested, gets flattened
        out.append(st)
    return out

def flat(x):
    for e in x:
        if isinstance(e, list):
            yield from flat(e)
        else:
            yield e

def gen_template(r, i, keys, big=False):
    names = BUILTIN + keys + MKEYS + ['unknown']
    style = r.choice(['XXX', 'XXX', '@'])
    ph = (lambda k: 'XXX' + k.upper()) if style == 'XXX' else (lambda k: '@%s@' % k)
    lines = []
    for _ in range(r.randrange(0, 8)):
        k = r.choice(names)
        lines.append(r.choice(['%s=%s', 'x %s : %s\n', '%s %s', '\t%s,%s', '# %s %s']) % (k, ph(k)) +
                     (r.choice([ph(r.choice(names)), '']) if r.random() < .3 else ''))
    txt = '\n'.join(lines)
    if r.random() < 0.7:
        txt += '\n'
    if big:
        txt += ('filler %d\n' % i) * r.choice([500, 2000])
    k = r.random()
    keysel = None
    if k < 0.15:
        keysel = []
    elif k < 0.3:
        keysel = r.sample(BUILTIN, r.randrange(1, 4))
    src = 'file' if (keysel == [] or r.random() < 0.5) else 'txt'
    if src == 'file':
        txt = txt.replace('\u00df', 's')
    return dict(basename='t%d_%s' % (i, r.choice(WORDS)), text=txt, keys=keysel, src=src, style=style,
                how=r.choice(['filename', 'templ_dir']))

def gen_study(r, nasty=True):
    keys = r.sample(KEYS, r.randrange(1, 5))
    nt = r.randrange(0, 4)
    nm = r.choice([1, 1, 2, 3])
    templates = [gen_template(r, i, keys, big=r.random() < .1) for i in range(nt + nm)]
    machines = []
    for j in range(nm):
        machines.append(dict(hostname=['mars', 'local', 'hpc2'][j] + (r.choice(['', '.x', ' y', "'s"]) if nasty and r.random() < .3 else ''),
                             subcmd=r.choice(['bsub <', 'qsub', 'bash', 'sbatch -n 2']), scratch=r.choice([None, '/scratch', '/a b']),
                             home=r.choice([None, '/home/u']), templ=nt + j, single=False,
                             via=r.choice(['template', 'filename']) if templates[nt + j]['src'] == 'file' and templates[nt + j]['keys'] is None and templates[nt + j]['style'] == 'XXX' else 'template'))
    root = r.choice(NASTY) if nasty and r.random() < 0.45 else r.choice(NICE)
    prefix = r.choice(['calc', 'calc', 'run', 'c'] + (['pre fix', "p'q", 'a;b'] if nasty else []))
    st = dict(keys=keys, templates=templates, machines=machines, root=root, prefix=prefix,
              db_name=r.choice(['calc.db', 'calc.db', 'my.sqlite', 'x y.db']), db_table=r.choice(['calc', 'calc', 'study1', 'tbl']),
              study_name=r.choice(['calc', 'AlN', 'my-study']), use_templates=list(range(nt)))
    return st

def gen_call(r, st, mode=None, nmax=4):
    if mode is None:
        mode = 'w' if r.random() < 0.25 else 'a'
    nm = len(st['machines'])
    ms = list(range(nm))
    if r.random() < .2 and nm > 1:
        ms = r.sample(ms, r.randrange(1, nm + 1))
    ut = list(st['use_templates'])
    if r.random() < .2 and ut:
        ut = r.sample(ut, r.randrange(0, len(ut) + 1))
    n = r.choice([0, 1, 1, 2, 2, 3, 3, nmax, 12 if r.random() < .15 else 2])
    if mode != 'w' and n == 0:
        n = 1
    if n == 0 and mode == 'w':
        n = 1
    return dict(op='call', mode=mode, backup=r.random() < .5, excl=r.random() < .8, sleep=r.choice([0, 0, 3]),
                params=gen_params(r, n, st['keys'] if r.random() < .8 else st['keys'] + [k for k in KEYS if k not in st['keys']][:1]),
                machines=ms, templates=ut)

# ------------------------------------------------------------ node functions
FUNCS = {'XXX': None, '@': None}

def mk_template(st, i):
    from pwtools.batch import FileTemplate
    t = st['templates'][i]
    kw = dict(keys=None if t['keys'] is None else list(t['keys']))
    if t['style'] == '@':
        kw['func'] = lambda k: '@%s@' % k
    if t['src'] == 'txt':
        return FileTemplate(basename=t['basename'], txt=t['text'], **kw)
    d = templ_dir(st)
    if t['how'] == 'filename':
        return FileTemplate(filename=os.path.join(d, t['basename']), **kw)
    return FileTemplate(basename=t['basename'], templ_dir=d, **kw)

def templ_dir(st):
    return 'templ.d/v1'

def mk_machine(st, j):
    from pwtools.batch import Machine
    m = st['machines'][j]
    kw = dict(hostname=m['hostname'], subcmd=m['subcmd'], scratch=m['scratch'], home=m['home'])
    if m['via'] == 'filename':
        kw['filename'] = os.path.join(templ_dir(st), st['templates'][m['templ']]['basename'])
    else:
        kw['template'] = mk_template(st, m['templ'])
    return Machine(**kw)

def mk_entry(e):
    from pwtools.sql import SQLEntry
    return SQLEntry(key=e['key'], sqlval=e['sqlval'], sqltype=e.get('sqltype'), fileval=e.get('fileval'))

def mk_params(p):
    return [mk_params(x) if isinstance(x, list) else mk_entry(x) for x in p]

def write_template_files(st):
    d = templ_dir(st)
    os.makedirs(d, exist_ok=True)
    for t in st['templates']:
        if t['src'] == 'file':
            with open(os.path.join(d, t['basename']), 'w') as f:
                f.write(t['text'])

def desc(x):
    """structural description of caller-owned objects (to detect mutation)"""
    if isinstance(x, (list, tuple)):
        return [desc(y) for y in x]
    if hasattr(x, '__dict__'):
        return [type(x).__name__] + sorted((k, repr(v) if not hasattr(v, '__dict__') and not isinstance(v, list) else desc(v))
                                           for k, v in vars(x).items() if not callable(v) and not k.startswith('_'))
    return repr(x)

class Caller:
    """The user's script: keeps templates, machines and the study between calls."""
    def __init__(self, st):
        self.st = st
        self.templates = {}
        self.machines = {}
        self.study = None

    def t(self, i):
        if i not in self.templates:
            self.templates[i] = mk_template(self.st, i)
        return self.templates[i]

    def m(self, j):
        if j not in self.machines:
            self.machines[j] = mk_machine(self.st, j)
        return self.machines[j]

    def objs(self, call):
        from pwtools.batch import ParameterStudy
        st = self.st
        ts = [self.t(i) for i in call['templates']]
        ms = [self.m(j) for j in call['machines']]
        ps = [mk_params(p) for p in call['params']]
        return ts, ms, ps

    def call(self, call):
        from pwtools.batch import ParameterStudy
        st = self.st
        ts, ms, ps = self.objs(call)
        before = desc([ts, ms, ps])
        lens = [len(ts), len(ms), [len(list(flat(p))) for p in ps]]
        if call.get('reuse') and self.study is not None:
            s = self.study
            s.templates, s.machines, s.params_lst = ts, ms, ps
        else:
            s = ParameterStudy(machines=ms[0] if len(ms) == 1 and call.get('single') else ms, templates=ts, params_lst=ps,
                               study_name=st['study_name'], db_name=st['db_name'], db_table=st['db_table'],
                               calc_root=st['root'], calc_dir_prefix=st['prefix'])
            self.study = s
        s.write_input(mode=call['mode'], backup=call['backup'], sleep=call['sleep'], excl=call['excl'])
        after = desc([ts, ms, ps])
        if after != before:
            raise Violation('caller-objects-modified', 'write_input changed the caller\'s templates/machines/parameter sets: %r' %
                            [(a, b) for a, b in zip(before, after) if a != b][:1])
        return True

def node_calls(st, calls):
    """one process that issues several calls"""
    c = Caller(st)
    for x in calls:
        c.call(x)
    return len(calls)

# ------------------------------------------------------------ reference model
def frepr(v):
    if isinstance(v, float):
        return '%.16e' % v
    if isinstance(v, str):
        return v
    return repr(v)

class Model:
    """What the study directory must look like."""
    def __init__(self, st):
        self.st = st
        self.rows = []          # dicts, in idx order
        self.files = {}         # relpath below calc_root -> text (no backups, no db)
        self.dirs = set()
        self.exists = False     # database exists
        self.last = {}          # host -> list of (idx) of last call, machine, sleep
        self.excl = None

    def copy(self):
        import copy
        m = Model(self.st)
        m.rows = [dict(r) for r in self.rows]; m.files = dict(self.files); m.dirs = set(self.dirs)
        m.exists = self.exists; m.last = dict(self.last); m.excl = self.excl
        return m

    def calc_dir(self, j):
        return '%s_%s' % (self.st['prefix'], self.st['machines'][j]['hostname'])

    def apply(self, call):
        st = self.st
        if call['mode'] == 'w':
            self.rows = []
            for j in call['machines']:
                d = self.calc_dir(j)
                for f in list(self.files):
                    if f.startswith(d + '/'):
                        del self.files[f]
                self.dirs = {x for x in self.dirs if not (x == d or x.startswith(d + '/'))}
        start = max([r['idx'] for r in self.rows], default=-1) + 1
        rev = max([r['revision'] for r in self.rows], default=-1) + 1
        hosts = ','.join(st['machines'][j]['hostname'] for j in call['machines'])
        new = []
        for k, p in enumerate(call['params']):
            ent = list(flat(p))
            row = {}
            repl = {}
            for e in ent:
                row[e['key']] = e['sqlval']
                repl[e['key']] = e['sqlval'] if e.get('fileval') is None else e['fileval']
            idx = start + k
            for key, v in dict(revision=rev, study_name=st['study_name'], idx=idx, calc_name=st['study_name'] + '_run%d' % idx).items():
                row[key] = v; repl[key] = v
            row['hostname'] = hosts
            new.append(row)
            for j in call['machines']:
                m = st['machines'][j]
                rp = dict(repl)
                for key in MKEYS:
                    rp[key] = m[key]
                d = self.calc_dir(j)
                self.dirs.add(d); self.dirs.add('%s/%d' % (d, idx))
                for i in list(call['templates']) + [m['templ']]:
                    t = st['templates'][i]
                    self.files['%s/%d/%s' % (d, idx, t['basename'])] = self.expand(t, rp)
        for j in call['machines']:
            d = self.calc_dir(j)
            self.last[j] = ([r['idx'] for r in new], call['sleep'])
        self.rows += new
        if call['mode'] == 'a' and call['excl'] and rev > 0:
            self.excl = [r['idx'] for r in self.rows if r['revision'] < rev]
            self.excl_fresh = True
        self.exists = True
        return new

    @staticmethod
    def expand(t, rp):
        txt = t['text']
        if t['keys'] == []:
            return txt
        ph = (lambda k: 'XXX' + k.upper()) if t['style'] == 'XXX' else (lambda k: '@%s@' % k)
        keys = rp if t['keys'] is None else t['keys']
        # one pass: values are never expanded again
        import re
        tab = {ph(k): frepr(rp[k]) for k in keys}
        if not tab:
            return txt
        rx = re.compile('|'.join(re.escape(x) for x in sorted(tab, key=len, reverse=True)))
        return rx.sub(lambda m: tab[m.group(0)], txt)

def read_db(path, table):
    """-> (columns, rows as dicts) by an independent connection, or None."""
    con = sqlite3.connect('file:%s?mode=rw' % path.replace('%', '%25').replace('?', '%3f').replace('#', '%23'), uri=True)
    try:
        ok = con.execute('pragma integrity_check').fetchone()[0]
        check(ok == 'ok', 'db-corrupt', 'integrity_check: %s' % ok)
        cols = [x[1] for x in con.execute('pragma table_info("%s")' % table)]
        if not cols:
            return cols, []
        rows = [dict(zip(cols, x)) for x in con.execute('select * from "%s"' % table)]
        return cols, rows
    except sqlite3.DatabaseError as e:
        raise Violation('db-corrupt', 'cannot read the database: %s' % e)
    finally:
        con.close()

def same(a, b):
    return a == b and (a is None) == (b is None) and isinstance(a, str) == isinstance(b, str)

def check_rows(have, want, what, cls='db-rows'):
    hv = sorted(have, key=lambda d: (d.get('idx') is None, d.get('idx')))
    check(len(hv) == len(want), cls, lambda: '%s: %d rows, expected %d (idx %s vs %s)' % (what, len(hv), len(want), [d.get('idx') for d in hv], [d['idx'] for d in want]))
    for h, w in zip(hv, want):
        for k in set(h) | set(w):
            check(same(h.get(k), w.get(k)), cls, lambda: '%s: row idx=%s column %s is %r, expected %r' % (what, w['idx'], k, h.get(k), w.get(k)))

def disk_path(E, st):
    return os.path.normpath(os.path.join(E.root, st['root']))

# ----------------------------------------------------- shared fault machinery
def photo_db(E, root, st, snap_rows_default=None):
    """Read the database (with a hot journal, if any) from a copy."""
    import shutil
    d = os.path.join(E.aux, 'photo')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(root, st['db_name'])
    if not os.path.exists(src):
        return None
    for suf in ('', '-journal', '-wal', '-shm'):
        if os.path.exists(src + suf):
            shutil.copyfile(src + suf, os.path.join(d, 'p.db' + suf))
    # sqlite finds a hot journal by name; its content names no database file
    cols, rows = read_db(os.path.join(d, 'p.db'), st['db_table'])
    return cols, rows

def strip_null(rows, cols):
    return rows

def rows_equal(have, want):
    try:
        check_rows(have, want, 'cmp')
        return True
    except Violation:
        return False

def expected_files(model, pre):
    want = {}
    for k, t in model.files.items():
        want[pre + k] = ('f', t.encode())
    for d in model.dirs:
        want[pre + d] = ('d',)
    return want

def rel(E, p):
    r = os.path.relpath(p, E.root)
    return '' if r == '.' else r

def is_backup_name(k, names):
    """k lies in/at a numbered backup of one of names"""
    import re
    for n in names:
        if k.startswith(n + '.'):
            m = re.match(r'\.\d+(/|$)', k[len(n):])
            if m:
                return True
    return False

def runsh_ok(st, model, j, text):
    """syntactic sanity only: complete submit script of the last call"""
    idxs, slp = model.last[j]
    lines = [l for l in text.splitlines() if l.strip()]
    return all(any(('cd %d ' % i) in l for l in lines) for i in idxs) and text.endswith('\n')
