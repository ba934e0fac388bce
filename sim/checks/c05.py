"""C05 no writer reports success for data that did not reach the file."""
import os
import numpy as np
from .. import attack as A, gen as G
from ..core import check, Violation, snapshot, restore, diff_snap, BENIGN, modes, setmodes

ID = 'C05'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=2400, wall=200), thorough=dict(runs=60000, wall=1700))
RULE = ('a run = a history of 1-4 writer calls (15 writers, seeded data, new or existing targets), each executed undisturbed and then with one fault placed over its whole '
        'operation sequence (disk full after n bytes, ENOSPC/EIO/EINTR/EMFILE, short and partial writes, failing close, signal, Ctrl-C at a library line, crash), followed by '
        'read-back in another process and a retry in the same process; non-trivial = the fault fired; distinct = distinct event-log hash')
REAL = ['writers and readers in pwtools.common, io, arrayio, base, batch, pwscf, lammps', 'h5py/HDF5, pickle, PyCifRW, numpy text IO', 'file system (tmpfs below the libc seam)']
STUB = []
ASSUME = ['the first line of LAMMPS data files (free-form title with the wall-clock time) is not compared']
LISTS = ['ops']
STATES = 'hash of (writer, fault, operation hit, outcome)'
KINDS = ['full', 'full', 'full', 'enospc', 'eio', 'partial', 'partial', 'short', 'short_persist', 'eintr', 'close_err', 'eio_persist', 'emfile', 'sigint',
         'line', 'crash_before', 'torn_crash', 'crash_after', 'read_eio', 'read_short']
FMTS = ['file_write', 'writetxt', 'writetxt', 'pickle', 'pickle', 'pickle', 'pickle_traj', 'h5', 'h5', 'h5', 'cif', 'xyz', 'axsf', 'lammps', 'sgroup', 'template', 'treplace',
        'treplace', 'treplace', 'pickle_parser']

def prepare():
    import h5py, CifFile
    from pwtools import common, io, arrayio, batch, crys, parse, pwscf, lammps, sql

def generate(r, tier, idx):
    ops = []
    for i in range(r.choice([1, 1, 1, 2, 3, 4])):
        f = r.choice(FMTS)
        d = dict(fmt=f, seed=r.randrange(10**6), n=r.choice([1, 2, 3, 7, 20, 60]), m=r.choice([1, 1, 2, 5]), big=r.random() < .3,
                 slot=r.randrange(3), sub=r.random() < .2, opt=r.randrange(8),
                 kind=r.choice(KINDS) if r.random() < .9 else None, frac=r.random() if r.random() < .6 else 1 - r.random() ** 4, permille=r.randrange(1, 1000),
                 retry=r.random() < .5)
        ops.append(d)
    return dict(ops=ops)

def valid(scn):
    return bool(scn['ops'])

# ---- writers: each is (write(op, path), read(op, path) -> comparable, expected(op))
def text(o):
    R = G.rs(o['seed'])
    n = o['n'] * (400 if o['big'] else 8)
    return '\n'.join('line %d %s é' % (i, ''.join(chr(97 + c) for c in R.randint(0, 26, 20))) for i in range(n)) + ('\n' if o['opt'] % 2 else '')

def txt_arr(o):
    nd = 1 + o['opt'] % 3
    n = o['n'] * (30 if o['big'] else 1)
    shape = {1: (n + 1,), 2: (n + 1, o['m'] + 1), 3: (n + 1, o['m'] + 1, 3)}[nd]
    return G.array(o['seed'], shape)

def h5_dct(o):
    d = {}
    for i in range(o['m']):
        d['/g%d/a%d_%d' % (i % 2, i, o['seed'])] = G.array(o['seed'] + i, (o['n'] * (300 if o['big'] else 1), 3))
    d['s_%d' % o['seed']] = 'text %d' % o['seed']
    d['/x/y/i_%d' % o['seed']] = o['seed']
    return d

def struct(o):
    return G.structure(o['seed'], o['n'] * (8 if o['big'] else 1))

def traj(o):
    return G.trajectory(o['seed'], o['m'] * (10 if o['big'] else 1), o['n'])

def parser(o):
    from pwtools import parse
    p = parse.StructureFileParser.__new__(parse.StructureFileParser)
    from pwtools.base import FlexibleGetters
    x = FlexibleGetters()
    x.set_attr_lst(['foo', 'bar'])
    x.foo = G.array(o['seed'], (o['n'] * (200 if o['big'] else 1), 3)); x.bar = 'b%d' % o['seed']
    return x

TEMPL = 'head %d\nXXXFOO and XXXBAR\n%s\nend XXXFOO\n'

def write(o, path):
    from pwtools import common, io, arrayio, batch
    f = o['fmt']
    if f == 'file_write':
        common.file_write(path, text(o))
    elif f == 'writetxt':
        a = txt_arr(o)
        arrayio.writetxt(path, a, axis=(o['seed'] % a.ndim) if o['opt'] >= 4 else -1)
    elif f == 'pickle':
        struct(o).dump(path)
    elif f == 'pickle_traj':
        traj(o).dump(path)
    elif f == 'pickle_parser':
        parser(o).dump(path)
    elif f == 'h5':
        io.write_h5(path, h5_dct(o), **({'mode': 'w'} if o['opt'] % 2 else {}))
    elif f == 'cif':
        io.write_cif(path, struct(o))
    elif f == 'xyz':
        io.write_xyz(path, traj(o) if o['opt'] % 2 else struct(o))
    elif f == 'axsf':
        io.write_axsf(path, traj(o) if o['opt'] % 2 else struct(o))
    elif f == 'lammps':
        io.write_lammps(path, struct(o), symbolsbasename=os.path.basename(path) + '.symbols')
    elif f == 'sgroup':
        io.write_wien_sgroup(path, struct(o))
    elif f == 'template':
        t = batch.FileTemplate(basename=os.path.basename(path), templ_dir='templ')
        t.write({'foo': 'val%d' % o['seed'], 'bar': o['n']}, calc_dir=os.path.dirname(path) or '.')
    elif f == 'treplace':
        common.file_template_replace(path, {'XXXFOO': 'val%d' % o['seed'], 'XXXBAR': str(o['n'])}, bak='.bak' if o['opt'] % 4 else '', mode='txt', disp=False)
    return True

def write_retry(o, path):
    """one attempt under the fault; if it raises, try again in this process"""
    keep = []
    try:
        write(o, path)
        return 'ok'
    except (Exception, KeyboardInterrupt) as e:
        msg = '%s: %s' % (type(e).__name__, e)
        if o['opt'] >= 4:
            keep.append(e)          # interactive sessions keep the last traceback alive
        e = None
    write(o, path)
    return 'retried', msg

def h5_dup(o, path):
    """append an existing key (documented error), then overwrite the file while the exception is still alive"""
    from pwtools import io
    d = h5_dct(o)
    io.write_h5(path, d, mode='w')
    keep = []
    try:
        io.write_h5(path, dict(d, more=1))
    except Exception as e:
        keep.append(e)
    try:
        io.read_h5(path + '.missing')
    except Exception as e:
        keep.append(e)
    io.write_h5(path, d, mode='w')
    return len(keep)

def read(o, path):
    from pwtools import common, io, arrayio
    f = o['fmt']
    if f in ('file_write', 'template', 'treplace'):
        return common.file_read(path)
    if f == 'writetxt':
        return arrayio.readtxt(path)
    if f == 'pickle':
        return G.attrs(io.read_pickle(path))
    if f == 'pickle_traj':
        return G.attrs(io.read_pickle(path))
    if f == 'pickle_parser':
        x = io.read_pickle(path)
        return dict(foo=x.foo, bar=x.bar)
    if f == 'h5':
        d = io.read_h5(path)
        return {k: v for k, v in d.items() if k.endswith('_%d' % o['seed']) or k.endswith('s_%d' % o['seed'])}
    if f == 'cif':
        s = io.read_cif(path)
        return dict(symbols=list(s.symbols), coords_frac=s.coords_frac, cryst_const=s.cryst_const)
    if f == 'xyz':
        return decode_xyz(path)
    if f == 'axsf':
        return decode_axsf(path)
    if f == 'lammps':
        return decode_lammps(path)
    if f == 'sgroup':
        return decode_sgroup(path)

def decode_xyz(path):
    L = open(path).read().split('\n'); out = []; i = 0
    while i < len(L) and L[i].strip():
        n = int(L[i]); rows = [l.split() for l in L[i + 2:i + 2 + n]]
        assert len(rows) == n
        out.append(([x[0] for x in rows], np.array([[float(y) for y in x[1:4]] for x in rows])))
        i += 2 + n
    return dict(symbols=[x[0] for x in out], coords=np.array([x[1] for x in out]))

def decode_axsf(path):
    T = open(path).read().split('\n')
    assert T[0].split()[0] == 'ANIMSTEPS' and T[1].strip() == 'CRYSTAL'
    nst = int(T[0].split()[1]); out = []; cells = []; syms = []; F = []
    i = 2
    for s in range(nst):
        while not T[i].startswith('PRIMVEC'): i += 1
        assert int(T[i].split()[1]) == s + 1
        cells.append([[float(x) for x in l.split()] for l in T[i + 1:i + 4]])
        while not T[i].startswith('PRIMCOORD'): i += 1
        assert int(T[i].split()[1]) == s + 1
        n = int(T[i + 1].split()[0])
        rows = [l.split() for l in T[i + 2:i + 2 + n]]
        syms.append([x[0] for x in rows]); out.append([[float(y) for y in x[1:4]] for x in rows]); F.append([[float(y) for y in x[4:]] for x in rows])
        i += 2 + n
    return dict(cell=np.array(cells), coords=np.array(out), symbols=syms, forces=np.array(F))

def decode_lammps(path):
    T = open(path).read().split('\n')
    num = lambda s: [l for l in T if l.strip().endswith(s)][0].split()
    n = int(num('atoms')[0])
    i = [k for k, l in enumerate(T) if l.strip() == 'Atoms'][0]
    rows = [l.split() for l in T[i + 1:] if l.strip()][:n]
    assert len(rows) == n and all(len(x) == 5 for x in rows)
    assert [int(x[0]) for x in rows] == list(range(1, n + 1))
    j = [k for k, l in enumerate(T) if l.strip() == 'Masses'][0]
    syms = open(path + '.symbols').read().split()
    return dict(n=n, types=int(num('atom types')[0]), spec=[int(x[1]) for x in rows], coords=np.array([[float(y) for y in x[2:]] for x in rows]),
                box=np.array([float(num('xlo xhi')[1]), float(num('ylo yhi')[1]), float(num('zlo zhi')[1])]), symbols=syms,
                nmass=len([l for l in T[j + 1:] if l.strip()]))

def decode_sgroup(path):
    T = [l for l in open(path).read().split('\n') if l.strip() and not l.startswith('/')]
    n = int(T[2])
    return dict(lat=T[0], cc=np.array([float(x) for x in T[1].split()]), n=n,
                coords=np.array([[float(y) for y in l.split()] for l in T[3::2][:n]]), symbols=[l.strip() for l in T[4::2][:n]])

def expected(o, before):
    f = o['fmt']
    if f == 'file_write':
        return text(o)
    if f == 'writetxt':
        return txt_arr(o)
    if f == 'pickle':
        return G.attrs(struct(o))
    if f == 'pickle_traj':
        return G.attrs(traj(o))
    if f == 'pickle_parser':
        return dict(foo=parser(o).foo, bar='b%d' % o['seed'])
    if f == 'h5':
        d = h5_dct(o)
        return {(k if k.startswith('/') else '/' + k): v for k, v in d.items()}
    if f == 'cif':
        s = struct(o)
        return dict(symbols=list(s.symbols), coords_frac=s.coords_frac, cryst_const=s.cryst_const)
    if f == 'xyz':
        t = traj(o) if o['opt'] % 2 else struct(o)
        c = t.coords if o['opt'] % 2 else t.coords[None, ...]
        return dict(symbols=[list(t.symbols)] * len(c), coords=c)
    if f == 'axsf':
        t = traj(o) if o['opt'] % 2 else struct(o)
        c, cl = (t.coords, t.cell) if o['opt'] % 2 else (t.coords[None, ...], t.cell[None, ...])
        fo = t.forces
        if fo is not None:
            fo = fo if o['opt'] % 2 else fo[None, ...]
            fo = fo / 27.211386245988
        else:
            fo = np.zeros(c.shape[:2] + (0,))
        return dict(cell=cl, coords=c, symbols=[list(t.symbols)] * len(c), forces=fo)
    if f == 'lammps':
        from pwtools import crys
        s = struct(o)
        cell = crys.cc2cell(crys.cell2cc(s.cell))
        u = sorted(set(s.symbols))
        return dict(n=len(s.symbols), types=len(u), spec=[u.index(x) + 1 for x in s.symbols], coords=np.dot(s.coords_frac, cell),
                    box=np.diag(cell), symbols=list(s.symbols), nmass=len(u))
    if f == 'sgroup':
        s = struct(o)
        return dict(lat='P', cc=s.cryst_const, n=len(s.symbols), coords=s.coords_frac, symbols=list(s.symbols))
    if f == 'template':
        return ttext(o).replace('XXXFOO', 'val%d' % o['seed']).replace('XXXBAR', str(o['n']))
    if f == 'treplace':
        return ttext(o).replace('\r\n', '\n').replace('XXXFOO', 'val%d' % o['seed']).replace('XXXBAR', str(o['n']))

TOL = dict(cif=1e-12, xyz=1e-12, axsf=1e-5, lammps=1e-9, sgroup=1e-14)

def ttext(o):
    t = TEMPL % (o['seed'], ('x' * 60 + '\n') * (o['n'] * (40 if o['big'] else 1)))
    # DOS line ends, non-ASCII text
    return t.replace('\n', '\r\n') if o['fmt'] == 'treplace' and o['seed'] % 5 == 0 else t.replace('end', 'ende für é') if o['seed'] % 5 == 1 else t

def norm(snap, o, path):
    if o['fmt'] == 'lammps' and path in snap and snap[path][0] == 'f':
        snap = dict(snap)
        snap[path] = ('f', b'\n'.join(snap[path][1].split(b'\n')[1:]))
    return snap

def run(scn, E):
    E.states = set()
    os.makedirs(os.path.join(E.root, 'templ'))
    for o in scn['ops']:
        one(E, o)
    E.event('end')

def one(E, o):
    f = o['fmt']
    path = ('d%d/' % o['slot'] if o['sub'] else '') + {'pickle_traj': 'pickle', 'pickle_parser': 'pickle'}.get(f, f) + '%d.dat' % o['slot']
    full = os.path.join(E.root, path)
    if o['sub']:
        if not (f.startswith('pickle') and o['opt'] % 2):       # dump() makes the directory itself
            os.makedirs(os.path.dirname(full), exist_ok=True)
    if f == 'template':
        open(os.path.join(E.root, 'templ', os.path.basename(path)), 'w').write(ttext(o))
    if f == 'treplace':
        open(full, 'w', newline='').write(ttext(o))
        setmodes(E.root, o['seed'], (0o644, 0o755, 0o600, 0o750))
    mb = modes(E.root)
    before = snapshot(E.root)
    kind = o['kind']
    D = A.clean(E, write, (o, path), kind)
    if f == 'h5' and D.status == 'exc' and path in before and o['opt'] % 2 == 0:
        restore(E.root, before)          # same key already there: documented error
        E.event('h5 key exists')
        return
    check(D.status == 'ok', 'clean-write-fails', lambda: '%s: %r %s' % (f, D, D.tb[-900:]))
    want = norm(snapshot(E.root), o, path)
    verify_read(E, o, path, before, 'without fault')
    for k in diff_snap(before, want):
        nm = k.split(' ', 1)[1]
        check(nm == path or nm == path + '.symbols' or (nm == path + '.bak' and f == 'treplace' and o['opt'] % 4) or (want.get(nm) == ('d',) and path.startswith(nm + '/')),
              'foreign-file-touched', lambda: '%s: %s' % (f, k))
    if f == 'treplace' and o['opt'] % 4:
        check(want.get(path + '.bak') == before[path], 'no-backup', '%s: backup copy is not the old version' % path)
        ma = modes(E.root)
        check(path not in mb or ma[path + '.bak'][0] == mb[path][0] == ma[path][0], 'no-backup', lambda: '%s: permission bits %o, after the replacement %o, backup %o' %
              (path, mb[path][0], ma[path][0], ma[path + '.bak'][0]))
        check(ma[path + '.bak'][1] != ma[path][1], 'no-backup', '%s: backup is the same file' % path)
    E.event(f, path, 'clean')
    if f == 'h5' and o['opt'] == 7:
        R = E.node(h5_dup, o, path)
        check(R.status == 'ok', 'retry-fails', lambda: 'write_h5(mode=w) after a refused append: %r %s' % (R, R.tb[-800:]))
        check(R.value == 2, 'error-swallowed', 'write_h5 of an existing key in append mode / read_h5 of a missing file did not raise')
        verify_read(E, o, path, before, 'after a refused append')
        return
    if kind is None:
        return
    restore(E.root, before)
    if o['retry'] and kind not in ('full', 'eio_persist', 'line', 'crash_before', 'torn_crash', 'crash_after'):
        R, hit = A.faulty(E, write_retry, (o, path), kind, o['frac'], o['permille'], D)
        what = '%s with fault %s, then repeated in the same process' % (f, hit)
        E.event(f, 'retry', hit, R.status, R.exc)
        alive(R, f, what)
        if R.status == 'exc' and f == 'h5' and o['opt'] % 2 == 0:
            pass        # append mode: the interrupted call may have stored some keys already (documented: keys cannot be reused)
        else:
            check(R.status == 'ok', 'retry-fails', lambda: '%s: %r %s' % (what, R, R.tb[-900:]))
        got = norm(snapshot(E.root), o, path)
        if R.status == 'ok' and f != 'treplace' and not (f == 'h5'):
            check(got.get(path) == want.get(path), 'retry-incomplete', lambda: '%s: %s' % (what, diff_snap(want, got)))
        if R.status == 'ok' and R.value == 'ok':
            check(got.get(path) == want.get(path), 'incomplete-file-reported-as-success', lambda: '%s: %s' % (what, diff_snap(want, got)))
        if R.status == 'ok' and f == 'h5':
            verify_read(E, o, path, before, what)
        if isinstance(R.value, tuple):
            E.probe('failed_then_retried_ok')
        restore(E.root, before)
        D2 = E.node(write, o, path)
        return
    R, hit = A.faulty(E, write, (o, path), kind, o['frac'], o['permille'], D)
    what = '%s with fault %s -> %s' % (f, hit, R.exc or R.status)
    E.event(f, hit, R.status, R.exc)
    E.states.add(repr((f, hit, R.status)))
    got = norm(snapshot(E.root), o, path)
    alive(R, f, what)
    check(R.ctl['nescape'] == 0, 'outside-touched', lambda: R.ctl['escape'])
    if kind in BENIGN:
        check(R.status == 'ok', 'benign-fault-fails', lambda: '%s %s' % (what, R.tb[-900:]))
    for k, v in before.items():
        if k not in (path, path + '.symbols', path + '.bak'):
            check(got.get(k) == v, 'foreign-file-touched', lambda: '%s: %s' % (what, k))
    if R.status == 'ok':
        check(got.get(path) == want.get(path) and got.get(path + '.symbols') == want.get(path + '.symbols') and got.get(path + '.bak') == want.get(path + '.bak'),
              'incomplete-file-reported-as-success', lambda: '%s: differs from the file a fault-free call writes: %s (%s instead of %s bytes)' %
              (what, diff_snap(want, got), len(got.get(path, ('', b''))[1]), len(want[path][1])))
        verify_read(E, o, path, before, what)
        E.probe('survived')
        return
    E.probe('reported')
    if f == 'treplace' and o['opt'] % 4:
        old = before[path]
        check(got.get(path) in (old, want[path]) or got.get(path + '.bak') == old, 'no-complete-version-left',
              lambda: '%s: neither the file nor its backup holds a complete version' % what)
    # the fault is gone: the same call must succeed now (h5 append mode: a torn file may legitimately be unreadable)
    if f == 'treplace':
        restore(E.root, before)
    if f == 'h5' and o['opt'] % 2 == 0:
        restore(E.root, before)
    R2 = E.node(write, o, path)
    check(R2.status == 'ok', 'retry-fails', lambda: '%s, then repeated: %r %s' % (what, R2, R2.tb[-900:]))
    got = norm(snapshot(E.root), o, path)
    check(got.get(path) == want.get(path), 'retry-incomplete', lambda: '%s, then repeated: %s' % (what, diff_snap(want, got)))

def alive(R, f, what):
    if f == 'h5' and R.status == 'died' and R.exc == 'signal 11' and A.fired(R):
        raise Violation('hdf5-segfault-on-write-error', '%s: interpreter killed by SIGSEGV inside HDF5 instead of an exception' % what)
    check(R.status not in ('hang', 'died'), 'writer-hangs-or-dies', lambda: '%s: %r %s' % (what, R, R.out[-500:]))

def verify_read(E, o, path, before, what):
    R = E.node(read, o, path)
    check(R.status == 'ok', 'cannot-read-back', lambda: '%s (%s): %r %s' % (o['fmt'], what, R, R.tb[-900:]))
    exp = expected(o, before)
    t = TOL.get(o['fmt'], 0)
    ok = G.same(exp, R.value, rtol=t, atol=t if o['fmt'] in TOL else 0)
    check(ok, 'read-back-differs', lambda: '%s (%s): %s' % (o['fmt'], what, [(k, G.brief(exp[k]), G.brief(R.value.get(k))) for k in G.diff(exp, R.value, t, t)]
          if isinstance(exp, dict) else (G.brief(exp), G.brief(R.value))))
