"""C04 common.backup: complete new numbered copy or failure, nothing else touched."""
import os
from .. import attack as A
from ..core import check, Violation, snapshot, restore, diff_snap, BENIGN, modes, setmodes

ID = 'C04'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=3000, wall=170), thorough=dict(runs=80000, wall=1700))
RULE = ('a run = a source (file, empty file, directory tree, symlink to either; blanks, metacharacters, non-ASCII and format characters in names) with a random set of '
        'existing backups, gaps, decoys and dangling links, and a history of backups, source changes and removals, about half of the backups hit by one fault placed over '
        'the whole operation sequence; non-trivial = a backup was made or a fault fired; distinct = distinct event-log hash')
REAL = ['pwtools.common.backup', 'shutil', 'file system (tmpfs below the libc seam)']
STUB = []
LISTS = ['ops', 'pre', 'tree']
STATES = 'hash of (fault, operation hit, outcome, numbered names present)'
KINDS = ['crash_before', 'torn_crash', 'crash_after', 'enospc', 'eio', 'full', 'partial', 'short', 'short_persist', 'eintr', 'sigint', 'line',
         'close_err', 'emfile', 'eio_persist', 'read_eio', 'read_short', 'open_fail']
NAMES = ['calc.db', 'run', 'out put', 'a%sb', 'x;y', '-v', "it's", 'ümlaut', 'star*', 'sub/deep', 'file.0', 'd.1', 'a.bak']
PREFIXES = ['.', '.', '.', '.bak', '_', '', '-old-', '.%s.', ' ']

def prepare():
    import shutil
    from pwtools import common

def generate(r, tier, idx):
    kind = r.choice(['file', 'file', 'file', 'dir', 'dir', 'linkfile', 'linkdir', 'empty'])
    prefix = r.choice(PREFIXES)
    tree = [(r.choice(['a', 'b', 'sub/c', 'sub/d e', 'sub/deep/f', '.hid', 'x.0', 'e/']), r.choice([0, 1, 100, 5000, 70000, 300000]))
            for i in range(r.randrange(0, 7))] if kind in ('dir', 'linkdir') else []
    pre = []
    for i in range(r.choice([0, 0, 1, 2, 4, 12])):
        pre.append(dict(num=r.choice([i, i, i, r.randrange(0, 14)]), kind=r.choice(['file', 'file', 'dir', 'dangling', 'link', 'decoy0', 'decoyx'])))
    ops = []
    for i in range(r.choice([1, 2, 2, 3, 5])):
        o = r.choice(['backup'] * 5 + ['change', 'change', 'rmbak', 'addbak'])
        d = dict(op=o, n=r.randrange(100))
        if o == 'backup':
            d.update(kind=r.choice(KINDS) if r.random() < .6 else None, frac=r.random(), permille=r.randrange(1, 1000))
            if r.random() < .1:
                d['prefix'] = r.choice(PREFIXES)
        ops.append(d)
    return dict(name=r.choice(NAMES), kind=kind, prefix=prefix, pathkind=r.choice(['rel', 'rel', 'abs', 'dot', 'slash' if kind == 'dir' else 'rel']),
                size=r.choice([0, 1, 17, 4096, 70000, 200000]) if kind != 'empty' else 0, tree=tree, pre=pre, ops=ops)

def valid(scn):
    return any(o['op'] == 'backup' for o in scn['ops'])

def data(n, salt):
    b = b'%d:%d|' % (n, salt)
    return (b * (n // len(b) + 1))[:n]

def build(E, scn):
    R = E.root
    p = os.path.join(R, scn['name'])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    k = scn['kind']
    real = p
    if k.startswith('link'):
        os.makedirs(os.path.join(R, 'elsewhere'))
        real = os.path.join(R, 'elsewhere', 'real')
        os.symlink(real, p)
    if k in ('file', 'empty', 'linkfile'):
        open(real, 'wb').write(data(scn['size'], 1))
    else:
        os.makedirs(real, exist_ok=True)
        for i, (n, s) in enumerate(scn['tree']):
            q = os.path.join(real, n)
            if n.endswith('/'):
                os.makedirs(q, exist_ok=True); continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'wb').write(data(s, i))
        if len(scn['tree']) == 3:
            os.symlink('sub', os.path.join(real, 'lnk')) if os.path.isdir(os.path.join(real, 'sub')) and not os.path.lexists(os.path.join(real, 'lnk')) else None
    for i, b in enumerate(scn['pre']):
        add(E, scn['name'] + scn['prefix'] + str(b['num']), b['kind'], i)
    return real

def add(E, rel, kind, i):
    q = os.path.join(E.root, rel)
    if kind == 'decoy0':
        q += '0'
    if kind == 'decoyx':
        q += 'x'
    if os.path.lexists(q):
        return
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if kind == 'dir':
        os.makedirs(q); open(os.path.join(q, 'old'), 'wb').write(data(50, i))
    elif kind == 'dangling':
        os.symlink(os.path.join(E.root, 'gone%d' % i), q)
    elif kind == 'link':
        t = os.path.join(E.root, 'precious%d' % i); open(t, 'wb').write(data(60, i))
        os.symlink(t, q)
    else:
        open(q, 'wb').write(data(70, i))

def call(src, prefix):
    from pwtools import common
    common.backup(src, prefix=prefix)
    return True

def call_default(src):
    from pwtools import common
    common.backup(src)
    return True

def follow(p):
    """tree content with links followed: {rel: bytes|None}"""
    if os.path.isfile(p):
        return {'': open(p, 'rb').read()}
    if not os.path.isdir(p):
        return None
    out = {'': None}
    for n in os.listdir(p):
        sub = follow(os.path.join(p, n))
        if sub is None:
            out['/' + n] = 'dangling'
        else:
            for k, v in sub.items():
                out['/' + n + k] = v
    return out

def bits(p):
    """permission bits of all files, links followed"""
    if os.path.isdir(p):
        return {n: bits(os.path.join(p, n)) for n in os.listdir(p)}
    return oct(os.stat(p).st_mode & 0o777) if os.path.exists(p) else None

def run(scn, E):
    real = build(E, scn)
    src = scn['name']
    path = src
    if scn['pathkind'] == 'abs':
        path = os.path.join(E.root, src)
    elif scn['pathkind'] == 'dot':
        path = './' + src
    elif scn['pathkind'] == 'slash':
        path = src + '/'
    E.states = set()
    for o in scn['ops']:
        if o['op'] == 'backup':
            one(E, scn, o, path)
        elif o['op'] == 'change':
            t = real if os.path.isfile(real) else os.path.join(real, 'chg%d' % (o['n'] % 3))
            if os.path.exists(t):
                os.chmod(t, 0o644)
            open(t, 'wb').write(data(o['n'] * 37, o['n']))
        elif o['op'] == 'rmbak':
            names = sorted(n for n in os.listdir(os.path.dirname(os.path.join(E.root, src)))
                           if n.startswith(os.path.basename(src) + scn['prefix']) and n[-1].isdigit() and n != os.path.basename(src))
            names = [n for n in names if os.path.isfile(os.path.join(os.path.dirname(os.path.join(E.root, src)), n))
                     and os.path.join(os.path.dirname(os.path.join(E.root, src)), n) != real]
            if names:
                os.unlink(os.path.join(os.path.dirname(os.path.join(E.root, src)), names[o['n'] % len(names)]))
        else:
            add(E, src + scn['prefix'] + str(o['n'] % 15), 'file', 50 + o['n'])
    E.event('end')

def one(E, scn, o, path):
    src = scn['name']; prefix = o.get('prefix', scn['prefix'])
    setmodes(E.root, o['n'])
    before = snapshot(E.root)
    mb = modes(E.root)
    want = follow(os.path.join(E.root, src))
    n = 0
    while os.path.lexists(os.path.join(E.root, src + prefix + str(n))):
        n += 1
    dst = src + prefix + str(n)
    fn, args = (call_default, (path,)) if prefix == '.' and o['n'] % 2 else (call, (path, prefix))
    kind = o['kind']
    R = D = A.clean(E, fn, args, kind)
    check(D.status == 'ok', 'clean-backup-fails', lambda: 'backup(%r, prefix=%r): %r %s' % (path, prefix, D, D.tb[-800:]))
    hit = ('none',)
    if kind is not None:
        restore(E.root, before)
        setmodes(E.root, o['n'])
        mb = modes(E.root)
        R, hit = A.faulty(E, fn, args, kind, o['frac'], o['permille'], D)
    E.event('backup', o['op'], dst, hit, R.status, R.exc)
    after = snapshot(E.root)
    what = 'backup(%r, prefix=%r) with fault %s -> %s' % (path, prefix, hit, R.exc or R.status)
    check(R.status not in ('hang', 'died'), 'backup-hangs-or-dies', what)
    check(R.ctl['nescape'] == 0, 'outside-touched', lambda: R.ctl['escape'])
    for k, v in before.items():
        check(after.get(k) == v, 'source-or-backup-changed', lambda: '%s: %s changed' % (what, k))
    ma = modes(E.root)
    for k in mb:
        check(ma[k][0] == mb[k][0], 'source-or-backup-changed', lambda: '%s: permission bits of %s changed: %o -> %o' % (what, k, mb[k][0], ma[k][0]))
    new = sorted(k for k in after if k not in before)
    for k in new:
        check(k == dst or k.startswith(dst + '/'), 'wrong-target', lambda: '%s: created %s, first free number gives %s' % (what, k, dst))
    if kind in BENIGN:
        check(R.status == 'ok', 'benign-fault-fails', lambda: '%s %s' % (what, R.tb[-800:]))
    if R.status == 'ok':
        got = follow(os.path.join(E.root, dst))
        check(got == want, 'incomplete-copy-reported-as-success', lambda: '%s: %s' % (what, 'no copy' if got is None else
              [k for k in set(want) | set(got) if want.get(k, 0) != got.get(k, 0)][:5]))
        # the copy shares nothing with what was there before, so that writing to the source later leaves it alone
        inodes = {v[1]: k for k, v in mb.items()}
        for k in new:
            if k in ma:
                check(ma[k][1] not in inodes, 'copy-shares-file-with-source', lambda: '%s: %s is the same file as %s' % (what, k, inodes[ma[k][1]]))
        check(bits(os.path.join(E.root, dst)) == bits(os.path.join(E.root, src)), 'permission-bits-lost', lambda: '%s: %s -> %s' % (what,
              bits(os.path.join(E.root, src)), bits(os.path.join(E.root, dst))))
        E.probe('backup_ok')
    else:
        E.probe('backup_failed')
        if new:
            E.probe('partial_target_left')
    E.states.add(repr((hit, R.status, n, len(new))))
