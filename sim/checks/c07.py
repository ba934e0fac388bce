"""C07 SQLite layer: durability, atomicity, queries match an in-memory table model."""
import copy, gc, mmap, os, struct
from .. import power
from ..core import check, Violation, HarnessError, snapshot, restore, mk_fault, BENIGN, CRASHES, rng_for

ID = 'C07'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=2500, wall=180), thorough=dict(runs=60000, wall=1700))
RULE = ('a run = 1-4 process lifetimes ("sessions") working on one or two database files through SQLiteDB and makedb with 1-14 operations each (create table, add/fill/attach '
        'columns, insert, update, delete last row, commit, all query helpers, re-open, deliberately failing operations), each ending by finish, by deletion of the object, by '
        'exit without commit, or by one fault (process crash or torn write at any file operation, I/O error, full disk, short I/O, EINTR, power loss with any allowed subset of '
        'unsynced sectors and names); state after each session is read by an independent connection; non-trivial = at least one session; distinct = distinct event-log hash')
REAL = ['pwtools.sql', 'sqlite3 3.45', 'file system (tmpfs below the libc seam)']
STUB = ['power loss: disk states derived from the recorded operations']
ASSUME = ['power loss: names become durable in order, a directory sync makes them durable (ordered metadata journal); sectors of 512 bytes are written atomically',
          'after power loss the state may be that of any earlier returned commit of the session (sqlite synchronous=FULL does not sync the directory after a commit), never a mixture']
LISTS = ['sessions', 'sessions.0.ops', 'sessions.1.ops', 'sessions.2.ops', 'sessions.3.ops']
STATES = 'hash of (how the session ended, committed states possible, state found)'
TABLES = ['calc', 't2', 'res']
COLS = ['a', 'b', 'Cc', 'd', 'e']
TYPES = ['float', 'FLOAT', 'real', 'integer', 'INTEGER', 'text', 'TEXT', 'blob']
ENDS = ['finish', 'finish', 'del', 'exit', 'fault', 'fault', 'fault', 'power', 'power']
FAULTS = ['crash_before', 'crash_after', 'torn_crash', 'torn_crash', 'eio', 'enospc', 'full', 'partial', 'short', 'short_persist', 'eintr', 'eio_persist',
          'read_eio', 'read_short_persist', 'read_eintr', 'emfile']

def prepare():
    import numpy, sqlite3
    from pwtools import sql, common

def gen_val(r, t=None):
    t = (t or r.choice(TYPES)).upper()
    if r.random() < .12:
        return None
    if t == 'BLOB':
        return {'b': bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 40]))).hex()}
    if t in ('FLOAT', 'REAL'):
        return r.choice([0.0, -1.5, 1e-300, 1e308, float(r.randrange(100)), r.random(), r.randrange(50)])
    if t == 'INTEGER':
        return r.choice([0, -3, r.randrange(1000), 2**62, r.randrange(9) + .5, float(r.randrange(9))])
    return r.choice(['x', '', "it's \"q\"", 'a;b,%s?', 'line\nbreak', u'\u00fc\u4e2d', 'z' * 300, r.randrange(100)])

def gen_op(r, schema):
    """schema: {file: {table: [(col,type)]}} tracked loosely to make most operations valid"""
    o = r.choice(['create', 'create', 'addcol', 'addcols', 'insert', 'insert', 'insert', 'fill', 'fill', 'attach', 'attach', 'update', 'dellast', 'delrow',
                  'commit', 'commit', 'query', 'query', 'reopen', 'makedb', 'makedb', 'bad', 'peek', 'settable'])
    tabs = list(schema) or ['calc']
    t = r.choice(tabs) if r.random() < .93 else r.choice(TABLES)
    hdr = schema.get(t, [])
    kw = r.random() < .5     # pass table= explicitly or rely on set_table
    if o == 'create':
        t = r.choice(TABLES)
        if t in schema and r.random() < .85:
            o = 'insert'; hdr = schema[t]
        else:
            h = [(c, r.choice(TYPES)) for c in r.sample(COLS, r.choice([1, 2, 3]))]
            schema.setdefault(t, h)
            return dict(op='create', table=t, header=h, kw=kw)
    if o == 'addcol' or o == 'addcols':
        cs = [(c, r.choice(TYPES)) for c in r.choices(COLS, k=1 if o == 'addcol' else r.choice([1, 2, 3]))]
        for c in cs:
            if t in schema and c[0] not in [x[0] for x in schema[t]]:
                schema[t] = schema[t] + [c]
        return dict(op=o, table=t, cols=cs, kw=kw)
    if o == 'insert':
        cs = r.sample(hdr, r.randrange(1, len(hdr) + 1)) if hdr else [('a', 'real')]
        return dict(op='insert', table=t, cols=[c[0] for c in cs], rows=[[gen_val(r, c[1]) for c in cs] for i in range(r.choice([1, 1, 2, 4, 12]))], kw=kw, many=r.random() < .3)
    if o == 'fill' or o == 'attach':
        if o == 'fill':
            c = r.choice(hdr) if hdr and r.random() < .95 else ('zz', 'real')
        else:
            c = (r.choice(COLS), r.choice(TYPES))
            if t in schema and c[0] not in [x[0] for x in schema[t]]:
                schema[t] = schema[t] + [c]
        vals = [gen_val(r, c[1]) for i in range(r.choice([1, 2, 3, 6]))]
        return dict(op=o, table=t, col=c[0], type=r.choice([c[1], c[1], None]), vals=vals, start=r.choice([1, 1, 1, 2, 3]), startmax=r.random() < .3,
                    extend=r.random() < .7, overwrite=r.random() < .5, kw=kw, bad=r.random() < .08)
    if o == 'update':
        c = r.choice(hdr) if hdr else ('a', 'real')
        return dict(op='update', table=t, col=c[0], val=gen_val(r, c[1]), rowid=r.choice([None, 1, 2, 5]))
    if o == 'delrow':
        return dict(op='delrow', table=t, rowid=r.choice([1, 1, 2, 3, 7]))
    if o == 'query':
        cs = r.sample(hdr, r.randrange(1, len(hdr) + 1)) if hdr else [('a', 'real')]
        return dict(op='query', table=t, cols=[c[0] for c in cs], rowid=r.choice([None, None, 1, 2]))
    if o == 'makedb':
        n = r.choice([1, 2, 3])
        cs = r.sample(COLS, n)
        ty = [r.choice(['REAL', 'INTEGER', 'TEXT', 'BLOB']) for i in cs]
        rows = [[strict_val(r, x) for x in ty] for i in range(r.choice([1, 2, 5]))]
        if r.random() < .12:
            rows[-1][-1] = {'bad': 1}
        return dict(op='makedb', cols=cs, rows=rows, mode=r.choice(['a', 'a', 'a', 'w']), table=r.choice([None, None, 'calc', 't2']), close=r.random() < .6, sfx=r.randrange(3))
    if o == 'bad':
        return dict(op='bad', table=t, what=r.choice(['nocol', 'notable', 'syntax', 'badval', 'dupcreate', 'partial']))
    return dict(op=o, table=t, kw=kw)

def strict_val(r, t):
    if t == 'REAL':
        return r.choice([0.5, -2.25, 1e10, float(r.randrange(9))])
    if t == 'INTEGER':
        return r.randrange(-5, 100)
    if t == 'TEXT':
        return r.choice(['k', "o'p", 'long' * 20])
    return {'b': bytes(r.randrange(256) for _ in range(4)).hex()}

def generate(r, tier, idx):
    schema = {}
    S = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        ops = [gen_op(r, schema) for j in range(r.choice([1, 3, 6, 14]))]
        if i == 0 and r.random() < .8:
            h = [(c, r.choice(TYPES)) for c in r.sample(COLS, r.choice([1, 2, 3]))]
            ops.insert(0, dict(op='create', table='calc', header=h, kw=True)); schema['calc'] = h
        S.append(dict(ops=ops, end=r.choice(ENDS), fault=r.choice(FAULTS), frac=r.random(), permille=r.randrange(1, 1000), keep=r.choice([0, 1, r.random()]),
                      pseed=r.randrange(10**6), dens=r.choice([0, .2, .5, .8, 1]), table=r.choice(TABLES)))
    mk = None
    if r.random() < .2:
        cs = r.sample(COLS, r.choice([1, 2, 3]))
        ty = [r.choice(['REAL', 'INTEGER', 'TEXT', 'BLOB']) for i in cs]
        mk = dict(cols=cs, rows=[[[strict_val(r, x) for x in ty] for i in range(r.choice([1, 2, 5]))] for j in range(3)], mode=r.choice(['a', 'a', 'a', 'w']),
                  close=r.random() < .5, frac=r.random(), exc=r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']), keep=r.random() < .3)
    return dict(sessions=S, mk=mk)

def valid(scn):
    return bool(scn['sessions'])

def shrinks(scn):
    if scn.get('mk'):
        yield dict(scn, mk=None)
    for i, s in enumerate(scn['sessions']):
        if s['end'] in ('power', 'fault') and i < len(scn['sessions']) - 1:
            c = copy.deepcopy(scn); c['sessions'][i]['end'] = 'finish'; yield c
        for j, o in enumerate(s['ops']):
            for key in ('rows', 'vals'):
                if len(o.get(key, [])) > 1:
                    c = copy.deepcopy(scn); c['sessions'][i]['ops'][j][key] = o[key][:1]; yield c
            if o.get('many'):
                c = copy.deepcopy(scn); c['sessions'][i]['ops'][j]['many'] = False; yield c

# ------------------------------------------------------------------ model
class ModelError(Exception):
    pass

class BadVal:
    pass

def dec(v, wr=True):
    if isinstance(v, dict):
        if 'bad' in v:
            return BadVal()
        b = bytes.fromhex(v['b'])
        return memoryview(b) if wr else b
    return v

def store(v, t):
    """sqlite column affinity for the values used here"""
    t = t.upper()
    v = dec(v, False)
    if isinstance(v, BadVal):
        raise ModelError('unsupported type')
    if v is None or isinstance(v, bytes):
        return v
    if t in ('FLOAT', 'REAL'):
        return float(v) if isinstance(v, (int, float)) else v
    if t == 'INTEGER':
        return int(v) if isinstance(v, float) and v == int(v) and abs(v) < 2**53 else v
    if t == 'TEXT':
        return str(v) if isinstance(v, int) else v
    return v

def fixt(t):
    t = t.upper()
    return 'REAL' if t == 'FLOAT' else t

class DB:
    """table model; tables: {name: [header list, {rowid: {col: val}}]}"""
    def __init__(self, tables=None):
        self.cur = copy.deepcopy(tables or {})
        self.com = copy.deepcopy(self.cur)
        self.tx = False
        self.hist = []           # (cur, com) at each statement boundary of the running operation
    def mark(self):
        self.hist.append((copy.deepcopy(self.cur), copy.deepcopy(self.com)))
    def ddl(self):
        if not self.tx:
            self.com = copy.deepcopy(self.cur)
        self.mark()
    def dml(self):
        self.tx = True
    def tab(self, t):
        if t not in self.cur:
            raise ModelError('no table')
        return self.cur[t]
    def create(self, t, header):
        if t in self.cur:
            raise ModelError('exists')
        self.cur[t] = [[(c, fixt(x)) for c, x in header], {}]
        self.ddl()
    def hascol(self, t, c):
        return t in self.cur and c in [x[0] for x in self.cur[t][0]]
    def addcol(self, t, c, ty):
        if not self.hascol(t, c):
            self.tab(t)[0].append((c, fixt(ty)))
            for row in self.cur[t][1].values():
                row[c] = None
            self.ddl()
    def insert(self, t, cols, vals):
        T = self.tab(t)
        h = dict(T[0])
        for c in cols:
            if c not in h:
                raise ModelError('no col')
        self.dml()                     # the transaction is opened before the values are bound
        row = {c: None for c in h}
        for c, v in zip(cols, vals):
            row[c] = store(v, h[c])
        T[1][max(T[1] or [0]) + 1] = row
        self.mark()
    def setval(self, t, c, rowid, v):
        T = self.tab(t)
        if not self.hascol(t, c):
            raise ModelError('no col')
        self.dml()
        x = store(v, dict(T[0])[c])
        for k in list(T[1]):
            if rowid is None or k == rowid:
                T[1][k][c] = x
        self.mark()
    def maxrowid(self, t):
        return max(self.tab(t)[1] or [0])
    def fill(self, t, c, vals, start, extend, overwrite):
        mx = self.maxrowid(t)
        if not self.hascol(t, c):
            raise ModelError('column missing')
        if not extend and start > mx:
            raise ModelError('start')
        for i, v in enumerate(vals):
            k = start + i
            if k <= mx:
                if not overwrite and self.cur[t][1][k][c] is not None:
                    raise ModelError('not null')
                self.setval(t, c, k, v)
            elif extend:
                self.insert(t, [c], [v])
    def commit(self):
        self.com = copy.deepcopy(self.cur); self.tx = False
        self.mark()
    def rollback(self):
        self.cur = copy.deepcopy(self.com); self.tx = False
        self.mark()

def ptype(v):
    v = dec(v)
    for ty, n in ((type(None), 'NULL'), (int, 'INTEGER'), (float, 'REAL'), (str, 'TEXT'), (memoryview, 'BLOB')):
        if isinstance(v, ty):
            return n
    raise ModelError('type')

def mk_table(o):
    return o['table'] or 'm'

def mk_file(o):
    return ['m.db', 'm.sqlite', 'm.sqlite3'][0 if o['table'] else o['sfx']]

def resolve(o, M):
    """concrete start rowid of a fill"""
    o = dict(o)
    if o['op'] in ('fill', 'attach') and 'start' in o:
        t = M.cur.get(o['table'])
        mx = max(t[1] or [0]) if t else 0
        o['start'] = mx + 1 if o['startmax'] else min(o['start'], mx + 1)
        if o['bad'] and len(o['vals']):
            o['vals'] = o['vals'][:-1] + [{'bad': 1}]
    # the text form of floats is sqlite's business
    h = dict(M.cur[o['table']][0]) if o.get('table') in M.cur and o['op'] != 'makedb' else {}
    nf = lambda v, c: int(v) if isinstance(v, float) and abs(v) < 1e9 and h.get(c) == 'TEXT' else 7 if isinstance(v, float) and h.get(c) == 'TEXT' else v
    if o['op'] in ('fill', 'attach'):
        o['vals'] = [nf(v, o['col']) for v in o['vals']]
    elif o['op'] == 'insert':
        o['rows'] = [[nf(v, c) for v, c in zip(x, o['cols'])] for x in o['rows']]
    elif o['op'] == 'update':
        o['val'] = nf(o['val'], o['col'])
    return o

def model_op(W, o):
    """apply one operation to the world model W {file: DB}.  Raises ModelError
    if the operation must fail (statement effects so far stay)."""
    op = o['op']
    if op == 'makedb':
        f = mk_file(o); t = mk_table(o)
        D = W.setdefault(f, DB())
        D.hist = []
        D.rollback()                          # a new connection
        ty = [ptype(v) for v in o['rows'][0]]
        if o['mode'] == 'w':
            D.cur = {}; D.com = {}; D.mark()
        if any(isinstance(v, dict) and 'bad' in v for v in o['rows'][0]):
            raise ModelError('type')
        if t not in D.cur:
            D.create(t, list(zip(o['cols'], ty)))
        else:
            h = dict(D.cur[t][0])
            for c, x in zip(o['cols'], ty):
                if h.get(c) != x:
                    raise ModelError('header')
        try:
            for row in o['rows']:
                D.insert(t, o['cols'], row)
        except ModelError:
            D.rollback()
            raise
        D.commit()
        return
    D = W['a.db']
    if op == 'create':
        D.create(o['table'], o['header'])
    elif op in ('addcol', 'addcols'):
        for c, ty in o['cols']:
            D.addcol(o['table'], c, ty)
    elif op == 'insert':
        D.tab(o['table'])
        for v in o['rows']:
            D.insert(o['table'], o['cols'], v)
    elif op == 'fill':
        D.fill(o['table'], o['col'], o['vals'], o['start'], o['extend'], o['overwrite'])
    elif op == 'attach':
        if not o['overwrite'] and D.hascol(o['table'], o['col']):
            raise ModelError('present')
        ty = o['type'] if o['type'] else ptype(o['vals'][0])
        if ty == 'NULL':
            raise ModelError('NULL type not used')
        D.addcol(o['table'], o['col'], ty)
        D.fill(o['table'], o['col'], o['vals'], o['start'], o['extend'], o['overwrite'])
    elif op == 'update':
        D.setval(o['table'], o['col'], o['rowid'], o['val'])
    elif op == 'delrow':
        T = D.tab(o['table'])
        D.dml()
        T[1].pop(o['rowid'], None)
        D.mark()
    elif op == 'dellast':
        T = D.tab(o['table'])
        D.dml()
        if T[1]:
            del T[1][max(T[1])]
        D.mark()
    elif op == 'commit':
        D.commit()
    elif op == 'reopen':
        D.commit()
    elif op == 'bad':
        if o['what'] == 'badval' and o['table'] in D.cur:
            D.dml()
        if o['what'] == 'partial':
            D.tab(o['table'])
            c = D.cur[o['table']][0][0]
            D.dml()
            D.insert(o['table'], [c[0]], [None])
        raise ModelError('bad')

def unusable(o, W):
    """operations outside the property: types the layer cannot map, columns of tables with holes"""
    if o['op'] in ('fill', 'attach') and o['table'] in W['a.db'].cur:
        k = W['a.db'].cur[o['table']][1]
        if len(k) != max(k or [0]):
            return True
    if o['op'] == 'attach' and o['type'] is None and not (isinstance(o['vals'][0], dict) and 'bad' in o['vals'][0]) and o['vals'][0] is None:
        return True
    if o['op'] == 'makedb' and any(v is None for v in o['rows'][0]):
        return True
    return False

def sim(W, ops):
    """model the operations -> list of (op, expected error?, [(cur, com) ...] after each statement per file, cur, com)"""
    out = []
    for o in ops:
        if unusable(o, W):
            continue
        o = resolve(o, W['a.db'])
        for D in W.values():
            D.hist = []
        before = {f: (copy.deepcopy(D.cur), copy.deepcopy(D.com), D.tx) for f, D in W.items()}
        err = False
        try:
            model_op(W, o)
        except ModelError as e:
            err = True
        st = {f: list(D.hist) for f, D in W.items()}
        out.append(dict(op=o, err=err, before=before, hist=st, cur={f: copy.deepcopy(D.cur) for f, D in W.items()},
                        com={f: copy.deepcopy(D.com) for f, D in W.items()}))
    return out

# ----------------------------------------------------------------- reality
def expect_rows(T, cols, rowid=None):
    return [tuple(T[1][k][c] for c in cols) for k in sorted(T[1]) if rowid is None or k == rowid]

def same_val(a, b):
    return type(a) is type(b) and a == b

def same_rows(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(same_val(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))

def dump_plain(fn):
    """independent reader -> {table: (header, rows with rowid)}"""
    import sqlite3
    con = sqlite3.connect(fn, timeout=0)
    try:
        ic = con.execute('pragma integrity_check').fetchall()
        if ic != [('ok',)]:
            raise Violation('corrupt-database', '%s: integrity_check %r' % (fn, ic[:3]))
        out = {}
        for (t,) in con.execute("select name from sqlite_master where type='table'").fetchall():
            h = [(x[1], x[2]) for x in con.execute('pragma table_info(%s)' % t)]
            out[t] = [h, con.execute('select rowid,%s from %s order by rowid' % (','.join(c for c, _ in h), t)).fetchall()]
        return out
    finally:
        con.close()

def as_dump(tables):
    return {t: [[tuple(x) for x in T[0]], [(k,) + tuple(T[1][k][c] for c, _ in T[0]) for k in sorted(T[1])]] for t, T in tables.items()}

def same_dump(a, b):
    return sorted(a) == sorted(b) and all(a[t][0] == b[t][0] and same_rows(a[t][1], b[t][1]) for t in a)

def brief(d):
    return repr({t: (h, [tuple(str(v)[:20] for v in r) for r in rows[:6]], len(rows)) for t, (h, rows) in d.items()})[:900]

def real_op(S, o, cur, strict):
    """run one operation on the library; S: dict(db=SQLiteDB)"""
    from pwtools import sql
    import numpy as np
    op = o['op']
    db = S['db']
    kw = {}
    t = o.get('table')
    if op in ('create', 'addcol', 'addcols', 'fill', 'attach', 'query'):
        if o.get('kw'):
            kw = dict(table=t)
            db.set_table('other')
        else:
            db.set_table(t)
    if op == 'create':
        db.create_table(o['header'], **kw)
    elif op == 'addcol':
        db.add_column(o['cols'][0][0], o['cols'][0][1], **kw)
    elif op == 'addcols':
        db.add_columns(o['cols'], **kw)
    elif op == 'insert':
        cmd = 'insert into %s (%s) values (%s)' % (t, ','.join(o['cols']), ','.join('?' * len(o['cols'])))
        rows = [[dec(v) for v in x] for x in o['rows']]
        if o['many']:
            db.executemany(cmd, rows)
        else:
            for x in rows:
                db.execute(cmd, x)
    elif op == 'fill':
        vals = [dec(v) for v in o['vals']]
        v0 = list(vals)
        db.fill_column(o['col'], vals, start=o['start'], extend=o['extend'], overwrite=o['overwrite'], **kw)
        check(len(vals) == len(v0) and all(x is y for x, y in zip(vals, v0)), 'argument-changed', 'fill_column')
    elif op == 'attach':
        db.attach_column(o['col'], [dec(v) for v in o['vals']], sqltype=o['type'], start=o['start'], extend=o['extend'], overwrite=o['overwrite'], **kw)
    elif op == 'update':
        if o['rowid'] is None:
            db.execute('update %s set %s=?' % (t, o['col']), (dec(o['val']),))
        else:
            db.execute('update %s set %s=? where rowid=?' % (t, o['col']), (dec(o['val']), o['rowid']))
    elif op == 'delrow':
        db.execute('delete from %s where rowid==?' % t, (o['rowid'],))
    elif op == 'dellast':
        db.execute('delete from %s where rowid=(select max(rowid) from %s)' % (t, t))
    elif op == 'commit':
        db.commit()
    elif op == 'reopen':
        db.finish()
        db = None
        S['db'] = None
        gc.collect()
        S['db'] = sql.SQLiteDB('a.db', table=t)
        check(S['db'].get_table() == t, 'get-table', repr(S['db'].get_table()))
    elif op == 'settable':
        db.set_table(t)
        check(db.get_table() == t, 'get-table', repr(db.get_table()))
    elif op == 'query':
        if strict:
            queries(db, t, o, cur, kw)
    elif op == 'makedb':
        rows = [[dec(v) for v in x] for x in o['rows']]
        d2 = sql.makedb(mk_file(o), rows, o['cols'], table=o['table'], mode=o['mode'], close=o['close'])
        if not o['close'] and strict:
            check(d2.get_table() == mk_table(o), 'makedb-table', repr(d2.get_table()))
            T = cur[mk_file(o)][mk_table(o)]
            got = d2.execute('select %s from %s order by rowid' % (','.join(c for c, _ in T[0]), mk_table(o))).fetchall()
            check(same_rows(got, expect_rows(T, [c for c, _ in T[0]])), 'makedb-open-rows', lambda: repr(got)[:300])
        del d2
        gc.collect()
    elif op == 'bad':
        w = o['what']
        if w == 'nocol':
            db.execute('select nosuch from %s' % t)
        elif w == 'notable':
            db.execute('insert into nosuch values (1)')
        elif w == 'syntax':
            db.execute('insert inot %s' % t)
        elif w == 'badval':
            db.execute('update %s set rowid=? where rowid=1' % t, (BadVal(),))
        elif w == 'dupcreate':
            db.create_table([('a', 'real'), ('a', 'real')], table='dup')
        elif w == 'partial':
            c = cur['a.db'][t][0][0][0]
            db.execute('insert into %s (%s) values (?)' % (t, c), (None,))
            raise KeyError('caller code fails after an insert')

def queries(db, t, o, cur, kw):
    import numpy as np
    M = cur['a.db']
    for x in TABLES + ['nosuch']:
        check(db.has_table(x) == (x in M), 'has-table', lambda: '%s: %r, model %r' % (x, db.has_table(x), x in M))
    if t not in M:
        check(db.get_header(t) == [], 'header', 'of a missing table')
        return
    T = M[t]
    check(db.get_header(**kw) == [tuple(x) for x in T[0]], 'header', lambda: '%r, model %r' % (db.get_header(**kw), T[0]))
    for c in COLS + ['zz']:
        check(db.has_column(c, **kw) == (c in dict(T[0])), 'has-column', c)
    mx = max(T[1]) if T[1] else None
    check(db.get_max_rowid(**kw) == mx, 'max-rowid', lambda: '%r, model %r' % (db.get_max_rowid(**kw), mx))
    cols = [c for c in o['cols'] if c in dict(T[0])]
    if not cols:
        return
    cmd = 'select %s from %s' % (','.join(cols), t)
    a = ()
    if o['rowid'] is not None:
        cmd += ' where rowid=?'; a = (o['rowid'],)
    cmd += ' order by rowid'
    rows = expect_rows(T, cols, o['rowid'])
    got = db.execute(cmd, a).fetchall()
    check(same_rows(got, rows), 'rows', lambda: '%s: %r, model %r' % (cmd, got[:5], rows[:5]))
    d = db.get_dict(cmd, a)
    check(sorted(d) == sorted(cols) and all(same_rows([tuple(d[c])], [tuple(r[i] for r in rows)]) for i, c in enumerate(cols)), 'get-dict', lambda: '%s: %r' % (cmd, d))
    l = db.get_list1d(cmd, a)
    flat = [v for r in rows for v in r]
    check(same_rows([tuple(l)], [tuple(flat)]), 'get-list1d', lambda: '%s: %r, model %r' % (cmd, l[:6], flat[:6]))
    try:
        s = ('ok', db.get_single(cmd, a))
    except AssertionError as e:
        s = ('err', None)
    want = ('ok', flat[0]) if len(flat) == 1 else ('err', None)
    check(s[0] == want[0] and same_val(s[1], want[1]), 'get-single', lambda: '%s: %r, model %r' % (cmd, s, want))
    try:
        np.array(flat); np.array(rows)
    except Exception:
        return            # text and blobs mixed: no array
    x = db.get_array1d(cmd, a); y = np.array(flat)
    check(x.shape == y.shape and x.dtype == y.dtype and list(x) == list(y), 'get-array1d', lambda: '%r %r' % (x, y))
    x = db.get_array(cmd, a); y = np.array(rows)
    check(x.shape == y.shape and x.dtype == y.dtype and x.tolist() == y.tolist(), 'get-array', lambda: '%r %r' % (x, y))


def session(ses, plan, prog, strict, trace=None):
    """The process.  prog: shared progress (number of completed operations)."""
    from pwtools import sql
    S = dict(db=sql.SQLiteDB('a.db', table=ses['table']))
    tr = []
    for i, p in enumerate(plan):
        prog[0:4] = struct.pack('<I', i)
        try:
            real_op(S, p['op'], p['cur'], strict)
            e = None
        except Violation:
            raise
        except Exception as x:
            e = x
            err = (type(x).__name__, str(x))
            e = x = None
            e = err
        gc.collect()
        if strict:
            check((e is not None) == p['err'], 'op-outcome', lambda: '%r: %s, model says %s' % (p['op'], 'raised %s: %s' % e if e else 'returned', 'error' if p['err'] else 'success'))
        elif e is not None and (not p['err'] or e != trace[i]):
            prog[4:8] = struct.pack('<I', 1)
            return ('failed', i, e[0])
        elif e is None and p['err']:
            return ('unexpected-success', i, '')
        if strict and os.path.exists('a.db'):
            # committed state only, seen by another connection
            got = dump_plain('a.db')
            check(same_dump(got, as_dump(p['com']['a.db'])), 'other-connection', lambda: 'after %r another connection sees %s, committed is %s' % (p['op'], brief(got), brief(as_dump(p['com']['a.db']))))
            if p['op']['op'] == 'makedb' and os.path.exists(mk_file(p['op'])):
                f = mk_file(p['op'])
                got = dump_plain(f)
                check(same_dump(got, as_dump(p['com'][f])), 'makedb-state', lambda: 'after %r (%s): %s, model %s' % (p['op'], p['err'], brief(got), brief(as_dump(p['com'][f]))))
        tr.append(e)
    prog[0:4] = struct.pack('<I', len(plan))
    if ses['end'] == 'exit':
        os._exit(77)
    if ses['end'] == 'del':
        S['db'] = None
        gc.collect()
    else:
        S['db'].finish()
    S['db'] = None
    gc.collect()
    prog[0:4] = struct.pack('<I', len(plan) + 1)
    return ('done', len(plan), tr)

def read_all():
    return {f: dump_plain(f) for f in sorted(os.listdir('.')) if f.endswith(('.db', '.sqlite', '.sqlite3'))}

def mk_interrupted(m):
    """makedb interrupted at a library line -> outcome and what an independent connection sees"""
    from pwtools import sql
    from .. import sched
    rows = [[[dec(v) for v in x] for x in y] for y in m['rows']]
    def plain():
        import sqlite3
        if not os.path.exists('k.db'):
            return []
        con = sqlite3.connect('k.db', timeout=0)
        try:
            if not con.execute("select name from sqlite_master where name='k'").fetchall():
                return []
            return con.execute('select %s from k order by rowid' % ','.join(m['cols'])).fetchall()
        finally:
            con.close()
    mdb = lambda fn, i, mode: sql.makedb(fn, rows[i], m['cols'], table='k', mode=mode, close=m['close'])
    mdb('k.db', 0, 'w')
    gc.collect()
    mdb('cnt.db', 0, 'w')
    gc.collect()
    n = sched.count_lines(mdb, 'cnt.db', 1, m['mode'])[1]
    gc.collect()
    st = sched.interrupt_at(1 + int(m['frac'] * n), mdb, 'k.db', 1, m['mode'], exc=dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[m['exc']])
    if st[0] == 'ok':
        st = ('ok', None, st[2])
    gc.collect()
    a = plain()
    mdb('k.db', 2, 'a')
    gc.collect()
    return st, a, plain()

def makedb_interrupt(E, m):
    R = E.node(mk_interrupted, m)
    check(R.status == 'ok', 'makedb-after-interrupt', lambda: 'makedb of %r, then interrupted, then appended: %r %s' % (m, R, R.tb[-800:]))
    st, a, b = R.value
    if st[2]:
        E.fault('ctrl-c_in_makedb')
    E.event('makedb interrupted', st[0], st[2], len(a), len(b))
    r = [[tuple(dec(v, False) for v in x) for x in y] for y in m['rows']]
    done = r[0] + r[1] if m['mode'] == 'a' else r[1]
    ok = [done] if st[0] == 'ok' else [done, r[0]] if m['mode'] == 'a' else [done, r[0], []]
    what = 'makedb(mode=%r, close=%r) interrupted in %s -> %s' % (m['mode'], m['close'], st[2], st[0])
    check(any(same_rows(a, x) for x in ok), 'partial-makedb', lambda: '%s: rows %r; before %r, complete %r' % (what, a, r[0], done))
    check(same_rows(b, a + r[2]), 'makedb-after-interrupt', lambda: '%s, then appended: rows %r' % (what, b))

def run(scn, E):
    from ..core import rng_for
    if scn.get('mk'):
        before = snapshot(E.root)
        makedb_interrupt(E, scn['mk'])
        restore(E.root, before)
    W = {'a.db': DB()}
    E.states = []
    for si, ses in enumerate(scn['sessions']):
        W = {f: DB(D.com) for f, D in W.items()}
        W0 = copy.deepcopy(W)
        plan = sim(W, ses['ops'])
        prog = mmap.mmap(-1, 4096)
        before = snapshot(E.root)
        end = ses['end']
        E.event('session', si, end)
        if end in ('finish', 'del', 'exit', 'power', 'fault'):
            R = E.node(session, ses, plan, prog, True, datalog=(end == 'power'))
            if end == 'exit':
                if R.status == 'died' and R.exc == 'exit 77':
                    R.status, R.value = 'ok', ('done', len(plan), [])
                    com = {f: D.com for f, D in W.items()}
                    E.fault('exit_without_commit')
            else:
                com = {f: D.cur if f == 'a.db' else D.com for f, D in W.items()}
            check(R.status == 'ok', 'session-failed', lambda: '%r %s' % (R, R.tb))
            E.event(R.value)
        settle(E, W, com, 'end of session by %s' % end)
        if end == 'power':
            # cut the recorded operations anywhere
            ops = [o for o in R.ops if o.kind not in ('openr', 'read', 'stat', 'closew', 'meta')]
            if not ops:
                continue
            cut = 1 + int(ses['frac'] * len(ops))
            allowed = commits(W0, plan, W)
            import random
            pr = random.Random(ses['pseed'])
            sn = power.states(before, ops, E.root, cut, ses['keep'], lambda i: pr.random() < ses['dens'])
            restore(E.root, sn)
            E.fault('power_loss')
            got = E.node(read_all)
            check(got.status == 'ok', 'unreadable-after-power-loss', lambda: 'power lost after operation %d of %d: %r' % (cut, len(ops), got))
            got = got.value
            for f in sorted(set(got) | set(com)):
                g = got.get(f, {})
                a = allowed.get(f, [{}])
                k = [i for i, s in enumerate(a) if same_dump(g, as_dump(s))]
                check(k, 'torn-state-after-power-loss', lambda: '%s: power lost after operation %d of %d (%r): state is none of the %d committed ones: %s; committed: %s'
                      % (f, cut, len(ops), ops[min(cut, len(ops)) - 1], len(a), brief(g), [brief(as_dump(s)) for s in a][-3:]))
                E.states.append(hash((end, len(a), k[-1])) & 0xffffffff)
                W[f] = DB(a[k[-1]])
            E.event('power', cut, [(f, len(x)) for f, x in sorted(got.items())])
            for f in list(W):
                if f not in got and f != 'a.db':
                    W[f] = DB()
        elif end == 'fault':
            restore(E.root, before)
            kc = R.ctl['kcount']
            kind = ses['fault']
            budget, rule = -1, None
            if kind == 'full':
                budget = int(ses['frac'] * sum(o.ret for o in R.ops if o.kind == 'write' and o.ret > 0))
            else:
                rule = mk_fault(kind, int(ses['frac'] * R.ctl['nmut']), ses['permille'])
                if kind not in ('crash_before', 'crash_after', 'torn_crash', 'eio', 'eio_persist'):
                    # the undisturbed execution also contains the observer's reads
                    rule['at'] = int(ses['frac'] * sum(kc[x] for x in rule['kinds']))
            W = copy.deepcopy(W0)
            plan = sim(W, ses['ops'])
            prog = mmap.mmap(-1, 4096)
            R2 = E.node(session, ses, plan, prog, False, R.value[2], rules=[rule] if rule else [], budget=budget)
            done, = struct.unpack('<I', prog[0:4])
            hit = any(R2.ctl['fired']) or R2.ctl['budget_hits']
            E.event('fault', kind, bool(hit), R2.status, R2.value if R2.status == 'ok' else R2.exc, done)
            check(R2.status in ('ok', 'exc', 'crash'), 'session-died', lambda: repr(R2))
            if R2.status == 'exc':       # opening or finishing failed
                check(hit, 'unexplained-error', lambda: '%r %s' % (R2, R2.tb))
            if kind in ('short', 'short_persist', 'read_short_persist'):
                check(R2.status == 'ok' and R2.value[0] == 'done', 'benign-fault-visible', lambda: '%s: %r %r' % (kind, R2, R2.value))
            if R2.status == 'ok' and R2.value[0] == 'done':
                com = {f: D.cur if f == 'a.db' else D.com for f, D in W.items()}
                settle(E, W, com, 'returned normally with fault %s' % kind)
                continue
            check(not (R2.status == 'ok' and R2.value[0] == 'unexpected-success'), 'unexpected-success', lambda: repr((R2.value, plan[R2.value[1]]['op'])))
            got = E.node(read_all)
            check(got.status == 'ok', 'unreadable-after-fault', lambda: '%s: %r' % (kind, got))
            got = got.value
            al = inflight(W0, plan, W, done, crashed=R2.status == 'crash')
            for f in sorted(set(got) | set(al)):
                g = got.get(f, {})
                k = [i for i, s in enumerate(al.get(f, [{}])) if same_dump(g, as_dump(s))]
                check(k, 'state-after-fault', lambda: '%s: %s in operation %d %r (%s): state %s; allowed %s'
                      % (f, kind, done, plan[done]['op'] if done < len(plan) else 'end', R2.status, brief(g), [brief(as_dump(s)) for s in al.get(f, [{}])][-4:]))
                E.states.append(hash((end, kind, len(al.get(f, [{}])), k[0])) & 0xffffffff)
                W[f] = DB(al.get(f, [{}])[k[0]])

def commits(W0, plan, W):
    """all committed states in order, per file"""
    out = {}
    for f in W:
        a = [W0[f].com if f in W0 else {}]
        for p in plan:
            for cur, com in p['hist'].get(f, []):
                if a[-1] != com:
                    a.append(com)
            c = p['com'].get(f)
            if c is not None and a[-1] != c:
                a.append(c)
        if f == 'a.db':
            a.append(W[f].cur)
        out[f] = a
    return out

def inflight(W0, plan, W, done, crashed):
    """allowed durable states when operation number `done` was running"""
    out = {}
    for f in W:
        if done == 0:
            cur0 = com0 = W0[f].com if f in W0 else {}
        else:
            p = plan[done - 1]
            cur0, com0 = p['cur'].get(f, {}), p['com'].get(f, {})
        a = [com0]
        h = []
        if done < len(plan):
            h = plan[done]['hist'].get(f, [])
            if plan[done]['op']['op'] == 'makedb' and mk_file(plan[done]['op']) == f and plan[done]['op']['mode'] == 'w':
                a.append({})
        a += [com for cur, com in h]
        if f == 'a.db':
            if not crashed:
                # the object is deleted and commits what its transaction holds
                a += [cur0] + [cur for cur, com in h]
            elif done >= len(plan):
                a.append(cur0)
        out[f] = a
    return out

def settle(E, W, com, why):
    got = E.node(read_all)
    check(got.status == 'ok', 'unreadable', lambda: '%s: %r' % (why, got))
    got = got.value
    for f in sorted(set(got) | set(com)):
        g = got.get(f, {})
        w = as_dump(com.get(f, {}))
        check(same_dump(g, w), 'state-at-end', lambda: '%s: %s: %s, model %s' % (f, why, brief(g), brief(w)))
        W[f] = DB(com.get(f, {}))
        E.event(f, sorted((t, len(x[1])) for t, x in g.items()))
