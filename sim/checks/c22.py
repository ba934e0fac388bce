"""C22 command line tools: complete output made from the current input, or an error."""
import functools, io, os, re, shutil
import numpy as np
from .. import attack as A, core, gen as G, tools
from ..core import check, snapshot

ID = 'C22'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=700, wall=200), thorough=dict(runs=40000, wall=1700))
RULE = ('a run = 1-4 calls of the programs in bin/ (solvate.sh, pdb2cif.py, cif2any.py, cif2sgroup.py, matdyn2fqha.py) in one directory which also has files of the user and results of earlier calls: '
        'drawn structures, numbers and kinds of inserted molecules, file and directory names, gmx missing, failing, killed or leaving partial output, wrong arguments, missing input, full standard output, '
        'one file fault or kill at any operation of the script and its child processes, input still growing; non-trivial = a fault, a failing program or an earlier result was there; distinct = distinct event-log hash')
REAL = ['bin/solvate.sh under bash with its child programs', 'bin/*.py executed as __main__ in own processes with their own descriptors', 'pwtools.io, parse, crys, pycifrw', 'file system (tmpfs below the libc seam)']
STUB = ['gmx insert-molecules: simulated, also in its failures', 'interpreter start: processes are forked from one with the libraries loaded']
ASSUME = ['a call that is told about an error (exit status not 0) or killed may leave the earlier results, none, or complete new ones', 'gmx reports its failures by its exit status',
          'matdyn2fqha.py: an input file that does not end in the middle of a number']
LISTS = ['steps']
STATES = 'hash of (program, failure, exit status zero or not, what is there afterwards)'
NAMES = ['foo', 'foo', 'foo', 'my foo', 'x-h', 'a.pdb.b', "it's", '$x', 'sub/foo', 'f*', 'bar', 'foo.old', 'ü', 'a;b', 'x--help', 'water', 'b -ci c']
FAULTS = ['crash_before', 'torn_crash', 'crash_after', 'enospc', 'eio', 'full', 'partial', 'short', 'short_persist', 'close_err', 'eio_persist', 'read_eio', 'open_fail', 'read_short', 'read_eintr', 'emfile']
GMX = ['ok', 'ok', 'ok', 'ok', 'ok', 'early', 'partial1', 'kill', 'missing', 'noout']
USER = ['other.log', 'water.pdb', '#keep#', '#foo_gmx.pdb.1#', 'gmx.pdb', 'foo.cif', 'foo_gmx.pdb.bak', 'solvate.log', 'foo_gmx', 'gmx.cif', '-rf', 'x.cif.txt', 'a b.log', '#a b#', 'PHDOS.out']
WATER = (['O', 'H', 'H'], np.array([[4.013, .831, -9.083], [4.941, .844, -8.837], [3.750, -.068, -9.293]]))
EL = ['H', 'O', 'Si', 'Al', 'N', 'Cl', 'C']

def prepare():
    from pwtools import io, crys, pwscf, parse
    import scipy.integrate

def generate(r, tier, idx):
    steps = []
    tool = r.choice(['solvate', 'solvate', 'solvate', 'cif2any', 'pdb2cif', 'cif2sgroup', 'fqha'])
    for i in range(r.choice([1, 1, 2, 2, 3, 4])):
        s = dict(tool=tool if r.random() < .85 else r.choice(['solvate', 'cif2any', 'pdb2cif', 'cif2sgroup', 'fqha']), name=r.choice(NAMES) if i == 0 or r.random() < .3 else steps[0]['name'],
                 seed=r.randrange(10**6), natoms=r.choice([1, 2, 3, 4, 7]), nmol=r.choice([0, 1, 2, 3, 12]), ext=r.random() < .7, ci=r.choice([None, None, None, 'mol.pdb', 'my mol.pdb', 'water.pdb', 'a-h.pdb']),
                 gmx=r.choice(GMX), extra=r.choice([[], [], ['-seed', '123'], ['-try', '10'], ['-rot', 'xyz'], ['-dr', '0 0 0'], ['-scale', '0.5', '-seed', '1']]),
                 how='run', old=r.random() < .4, fault=r.choice(FAULTS) if r.random() < .6 else None, at=r.random(), permille=r.randrange(1, 1000), out=r.random() < .5, stdout=r.choice(['file', 'file', 'pipe', 'full']))
        if r.random() < .15:
            s['how'] = r.choice(['noargs', 'help', 'help2', 'noinput', 'manyargs', 'badinput', 'badinput'])
        if s['tool'] == 'fqha' and r.random() < .5:
            s['grow'] = [dict(at=r.randrange(3), fr=r.random()) for i in range(r.choice([1, 2]))]
            s['fault'] = None
        steps.append(s)
    return dict(steps=steps, dir=r.choice(['w', 'w', 'my dir', 'x-h', 'a.pdb', '$d']), user=sorted(r.sample(USER, r.randrange(0, 7))))

def valid(scn):
    return bool(scn['steps'])

def shrinks(scn):
    for i, s in enumerate(scn['steps']):
        for d in (dict(natoms=1), dict(nmol=1), dict(name='foo'), dict(ci=None), dict(extra=[]), dict(fault=None), dict(gmx='ok')):
            if any(s[k] != d[k] for k in d):
                yield dict(scn, steps=scn['steps'][:i] + [dict(s, **d)] + scn['steps'][i + 1:])
    if scn['user']:
        yield dict(scn, user=scn['user'][1:])
    if scn['dir'] != 'w':
        yield dict(scn, dir='w')

# ------------------------------------------------------------------ inputs
def world(s, k=0):
    R = G.rs(s['seed'], s['natoms'], k)
    n = s['natoms'] if k == 0 else 1 + s['seed'] % 4
    cc = np.concatenate([R.uniform(4, 12, 3).round(3), R.uniform(65, 115, 3).round(2)])
    return [EL[R.randint(len(EL))] for i in range(n)], R.uniform(-9, 9, (n, 3)).round(3), cc

def pdb_text(sym, xyz, cc=None, start=1):
    t = '' if cc is None else 'TITLE     generated\nCRYST1' + ''.join('%9.3f' % x for x in cc[:3]) + ''.join('%7.2f' % x for x in cc[3:]) + ' P 1           1\n'
    for i, (a, x) in enumerate(zip(sym, xyz)):
        t += 'ATOM  %5d %4s              %8.3f%8.3f%8.3f  1.00  0.00\n' % ((i + start, a.upper()) + tuple(x))
    return t

def pdb_read(txt):
    sym, xyz, cc = [], [], None
    for l in txt.splitlines():
        if l.startswith('CRYST1'):
            cc = np.array([float(x) for x in l[6:].split()[:6]])
        if l.startswith('ATOM') or l.startswith('HETATM'):
            f = l.split()
            sym.append(f[2].lstrip('0123456789').capitalize()); xyz.append([float(x) for x in f[-5:-2]])
    return sym, np.array(xyz), cc

def cellm(cc):
    a, b, c = cc[:3]; al, be, ga = np.radians(cc[3:])
    v = np.zeros((3, 3)); v[0, 0] = a; v[1] = [b * np.cos(ga), b * np.sin(ga), 0]
    x = c * np.cos(be); y = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    v[2] = [x, y, np.sqrt(c * c - x * x - y * y)]
    return v

def cif_text(sym, frac, cc):
    return 'data_b0\n' + ''.join('_cell_%s %.4f\n' % (k, x) for k, x in zip(['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'], cc)) + \
        'loop_\n_atom_site_label\n_atom_site_type_symbol\n' + ''.join('_atom_site_fract_%s\n' % c for c in 'xyz') + \
        ''.join('%s%d %s %.6f %.6f %.6f\n' % ((a, i + 1, a) + tuple(x)) for i, (a, x) in enumerate(zip(sym, frac)))

def phdos(s):
    R = G.rs(s['seed'], s['natoms'], 9)
    n = s['natoms'] * 4 + 3
    return ''.join('%12.4f  %12.6E\n' % (2.5 * i, abs(x)) for i, x in enumerate(R.uniform(0, 3, n) * s['natoms'] * 3 / (2.5 * n) * .67))

# ------------------------------------------------------------------ gmx
def inserted(mol, n):
    """atoms added by gmx: shifted copies"""
    sym, xyz = mol
    return list(sym) * n, np.concatenate([xyz + .5 * (i + 1) for i in range(n)]) if n else np.zeros((0, 3))

def gmx(mode, args):
    import sys
    o = dict(zip(args, args[1:] + ['']))
    print('               :-) GROMACS - gmx insert-molecules, 2020.1 (-:')
    if args[:1] != ['insert-molecules']:
        print('Fatal error: unknown command'); sys.exit(1)
    if mode == 'early':
        print('Fatal error:\nCannot allocate memory'); sys.exit(1)
    try:
        a = pdb_read(open(o['-f']).read()); m = pdb_read(open(o['-ci']).read())
        n = int(o.get('-nmol', '0'))
        assert a[0] and m[0], 'no atoms'
    except Exception as e:
        print('Fatal error:\n%s' % e); sys.exit(1)
    s2, x2 = inserted(m[:2], n)
    txt = pdb_text(a[0] + s2, np.concatenate([a[1], x2]), a[2]) + 'TER\nENDMDL\n'
    if mode == 'noout':
        print('nothing to do'); sys.exit(0)
    if os.path.exists(o['-o']):
        d, b = os.path.split(o['-o'])
        os.rename(o['-o'], os.path.join(d, '#%s.1#' % b))
    with open(o['-o'], 'w') as h:
        L = txt.splitlines(True)
        for i, l in enumerate(L):
            if mode in ('partial1', 'kill') and i == max(1, len(L) - 4):
                h.flush()
                if mode == 'kill':
                    os.kill(os.getpid(), 9)
                print('Fatal error: killed'); sys.exit(1)
            h.write(l)
    print('Added %d molecules (out of %d requested)' % (n, n))

# ------------------------------------------------------------------ output
def near(a, b, tol=1e-6):
    a = np.asarray(a, float); b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))

def between(txt, a, b=None, n=0):
    """lines after the n-th line `a` up to `b` (or an empty line)"""
    L = txt.splitlines(); k = [i for i, l in enumerate(L) if l.strip().startswith(a)]
    if len(k) <= n:
        return None
    out = []
    for l in L[k[n] + 1:]:
        if (b and l.strip().startswith(b)) or (not b and not l.strip()):
            break
        out.append(l)
    return out

def num(L, skip=0):
    return [[float(x) for x in l.split()[skip:]] for l in L]

def field(txt, key, n=0):
    c = [l for l in txt.splitlines() if l.strip().startswith(key)]
    return c[n].strip()[len(key):].replace('=', ' ').split() if len(c) > n else None

BOHR = 0.529177249
def bad_any(txt, sym, frac, cc):
    """cif2any.py: what is wrong with its output, or None"""
    try:
        cell = cellm(cc); uni = sorted(set(sym))
        def is_(what, got, want, tol=1e-5):
            if isinstance(want, (list, tuple)) and want and isinstance(want[0], str) or isinstance(want, str):
                ok = got == want
            else:
                ok = near(got, want, tol)
            if not ok:
                raise AssertionError('%s is %s, the structure has %s' % (what, got, np.asarray(want).tolist()))
        for n in (0, 1):
            is_('PWscf nat', [int(x) for x in field(txt, 'nat ', n)], [len(sym)]); is_('PWscf ntyp', [int(x) for x in field(txt, 'ntyp ', n)], [len(uni)])
        is_('CELL_PARAMETERS alat', num(between(txt, 'CELL_PARAMETERS alat')), cell / cc[0])
        is_('CELL_PARAMETERS angstrom', num(between(txt, 'CELL_PARAMETERS angstrom')), cell)
        is_('CELL_PARAMETERS bohr', num(between(txt, 'CELL_PARAMETERS bohr')), cell / BOHR)
        cd = [cc[0] / BOHR, cc[1] / cc[0], cc[2] / cc[0]] + [np.cos(np.radians(x)) for x in cc[3:]]
        is_('celldm', [float(field(txt, 'celldm(%d) =' % (i + 1))[0]) for i in range(6)], cd)
        L = between(txt, 'ATOMIC_POSITIONS crystal')
        is_('ATOMIC_POSITIONS symbols', [l.split()[0] for l in L], sym); is_('ATOMIC_POSITIONS', num(L, 1), frac)
        is_('ATOMIC_SPECIES', [l.split()[0] for l in between(txt, 'ATOMIC_SPECIES', 'ATOMIC_POSITIONS')], uni)
        from pwtools import atomic_data
        z = [atomic_data.pt[u]['number'] for u in uni]
        is_('ATOMIC_SPECIES masses', [float(l.split()[1]) for l in between(txt, 'ATOMIC_SPECIES', 'ATOMIC_POSITIONS')], [atomic_data.pt[u]['mass'] for u in uni], 1e-3)
        is_('ABINIT natom', [int(x) for x in field(txt, 'natom')], [len(sym)]); is_('ABINIT ntypat', [int(x) for x in field(txt, 'ntypat')], [len(uni)])
        is_('ABINIT typat', [int(x) for x in field(txt, 'typat')], [1 + uni.index(a) for a in sym]); is_('ABINIT znucl', [int(x) for x in field(txt, 'znucl')], z)
        is_('ABINIT acell', [float(x) for x in field(txt, 'acell')], cc[:3] / BOHR); is_('ABINIT angdeg', [float(x) for x in field(txt, 'angdeg')], cc[3:])
        is_('ABINIT xred', num(between(txt, 'xred', 'pseudopotential')), frac)
        is_('ABINIT pseudopotential order', [l.split() for l in between(txt, 'pseudopotential order')] == [[a, str(b)] for a, b in zip(uni, z)], True)
        is_('CPMD cell', [float(x) for x in ' '.join(between(txt, 'CELL ABSOLUTE DEGREE', '&END')).split()], np.concatenate([cc[:3] / BOHR, cc[3:]]))
        L = between(txt, '&ATOMS', '&END')
        got = {}
        for l in L:
            f = l.split()
            if l.startswith('*'): cur = l[1:-4]; got[cur] = []
            elif len(f) == 3: got[cur].append([float(x) for x in f])
            elif len(f) == 1: got[cur, 'n'] = int(f[0])
        for u in uni:
            w = [x for a, x in zip(sym, frac) if a == u]
            is_('CPMD number of ' + u, [got[u, 'n']], [len(w)]); is_('CPMD coordinates of ' + u, got[u], w)
        is_('CP2K abc', [float(x) for x in field(txt, 'abc')], cc[:3]); is_('CP2K alpha_beta_gamma', [float(x) for x in field(txt, 'alpha_beta_gamma')], cc[3:])
        L = between(txt, 'scaled t', '&end coord')
        is_('CP2K symbols', [l.split()[0] for l in L], sym); is_('CP2K coord', num(L, 1), frac)
        is_('CP2K kinds', [l.split()[1] for l in txt.splitlines() if l.strip().startswith('&kind')], uni)
        rc = 2 * np.pi * np.linalg.inv(cell).T
        is_('reciprocal cell 1/Ang', num(between(txt, 'reciprocal cell [1/Ang]')), rc); is_('reciprocal cell 1/Bohr', num(between(txt, 'reciprocal cell [1/Bohr]')), rc * BOHR)
        is_('k-grids', len([l for l in between(txt, 'kpoint grids') if l.startswith('h =')]), 8)
    except AssertionError as e:
        return str(e)
    except Exception as e:
        return 'output incomplete: %r' % e
    return None

def bad_cif(b, sym, frac, cc):
    try:
        L = b.decode().splitlines()
        c = [float([l.split()[1] for l in L if l.startswith('_cell_' + k)][0]) for k in ['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma']]
        at = [l.split() for l in L if len(l.split()) == 5 and l.split()[0] in EL]
        if not near(c, cc): return 'cell is %s, the input has %s' % (c, list(cc))
        if [a[0] for a in at] != sym or [a[4] for a in at] != sym: return 'symbols are %s, the input has %s' % ([a[0] for a in at], sym)
        if not near([[float(x) for x in a[1:4]] for a in at], frac, 1e-5): return 'coordinates differ from the input'
    except Exception as e:
        return 'output incomplete: %r' % e
    return None

def bad_sgroup(txt, sym, frac, cc):
    try:
        L = [l for l in txt.splitlines() if l.strip() and not l.startswith('/')]
        if L[0].strip() != 'P' or not near([float(x) for x in L[1].split()], cc) or int(L[2]) != len(sym): return 'wrong head: %s' % L[:3]
        if [l.strip() for l in L[4::2]] != sym or not near([[float(x) for x in l.split()] for l in L[3::2]], frac): return 'atoms differ from the input'
    except Exception as e:
        return 'output incomplete: %r' % e
    return None

def bad_fqha(txt, texts):
    from scipy.integrate import simpson
    try:
        L = txt.splitlines()
        body = [l for l in L[2:] if l.strip()]
        d = np.array([[float(x) for x in l.split()] for l in body])
        h = L[1].split()
        if ''.join(l + '\n' for l in body) not in texts: return 'the body is no content the input file ever had'
        if int(h[1]) != len(d): return 'head says %s rows, there are %d' % (h[1], len(d))
        n = int(round(simpson(d[:, 1], x=d[:, 0]) / 3))
        if int(L[0]) != n or int(h[0]) != n: return 'head says %s atoms, the integral %d' % (L[0], n)
        if not near([float(h[2]), float(h[3])], [d[-1, 0], d[1, 0] - d[0, 0]], 1e-5): return 'head says emax, de = %s' % h[2:]
    except Exception as e:
        return 'output incomplete: %r' % e
    return None

# ------------------------------------------------------------------ run
def launch(cmd, cwd, mode, stdout):
    return tools.run(cmd, cwd, functools.partial(gmx, mode), stdout)

def run(scn, E):
    E.states = set()
    D = os.path.join(E.root, scn['dir']); os.makedirs(os.path.join(D, 'sub'))
    T = os.path.join(E.root, 'tmp'); os.makedirs(T)
    for f in scn['user']:
        with open(os.path.join(D, f), 'w') as h:
            h.write('precious %s\n' % f if not f.endswith('.pdb') else pdb_text(['N'], [[1., 2., 3.]]) + 'TER\n')
    BIN = os.path.join(core.REPO, 'bin')
    for i, s in enumerate(scn['steps']):
        one(scn, E, i, s, D, T, BIN)
    E.event('end')

def put(fn, txt, old):
    """input file; its time stamp may be older than that of everything else (mv, cp -p)"""
    if os.path.exists(fn) and open(fn).read() == txt:
        return
    with open(fn, 'w') as h:
        h.write(txt)
    if old:
        os.utime(fn, (10**9, 10**9))

def one(scn, E, i, s, D, T, BIN):
    tool = s['tool']; name = s['name']; how = s['how']
    P = lambda n: os.path.join(D, n)
    files = {}
    sy, xyz, cc = world(s)
    # ---- inputs, own files, expected content
    if tool == 'solvate':
        inp = name + '.pdb'
        files[inp] = pdb_text(sy, xyz, cc) + 'TER\n'
        mol = WATER
        args = [inp if s['ext'] else name, '-nmol', str(s['nmol'])] + s['extra']
        if s['ci']:
            mol = world(s, 1)[:2]
            ci = s['ci'] if s['ci'] != inp else 'mol.pdb'
            files[ci] = pdb_text(*mol) + 'TER\n'
            args += ['-ci', ci]
        own = [name + '_gmx.pdb', name + '_gmx.cif', name + '_gmx.cif.txt']; log = ['solvate.sh.log']
        s2, x2 = inserted(mol, s['nmol'])
        osym, oxyz = sy + s2, np.concatenate([xyz, x2])
        frac = np.dot(oxyz, np.linalg.inv(cellm(cc)))
        cmd = ['bash', os.path.join(BIN, 'solvate.sh')]
    else:
        frac = np.dot(xyz, np.linalg.inv(cellm(cc))); log = []
        if tool == 'pdb2cif':
            inp = name + '.pdb'; files[inp] = pdb_text(sy, xyz, cc)
            own = [name + '.new.cif' if s['out'] else inp + '.cif']
            args = [inp] + ([own[0]] if s['out'] else [])
        elif tool == 'fqha':
            inp = name + '.phdos'; files[inp] = phdos(s); own = [name + '.PHDOS.out']; args = [inp]
        else:
            inp = name + '.cif'
            f6 = np.round(frac, 6); cc = cc.round(4)
            frac = f6
            files[inp] = cif_text(sy, f6, cc); own = [name + '.txt']; args = [inp]
        prog = dict(pdb2cif='pdb2cif.py', fqha='matdyn2fqha.py', cif2any='cif2any.py', cif2sgroup='cif2sgroup.py')[tool]
        prog = os.path.join(BIN, prog)
        cmd = ['sh', '-c', 'o=$1; shift; if [ -n "$o" ]; then exec "$@" > "$o"; else exec "$@"; fi', 'sh', own[0] if tool != 'pdb2cif' and s['stdout'] == 'file' else '', prog]
    usage = None
    if how == 'noargs': args, usage = [], 1
    elif how == 'help' and tool in ('solvate', 'pdb2cif'): args, usage = ['-h'], 0
    elif how == 'help2' and tool in ('solvate', 'pdb2cif'): args, usage = (['--help'] if tool == 'pdb2cif' else args + ['--help']), 0
    elif how == 'manyargs' and tool == 'pdb2cif': args, usage = args + ['x', 'y'], 1
    for f, b in files.items():
        put(P(f), b, s['old'])
    if how == 'noinput':
        os.unlink(P(inp))
    elif how == 'badinput':
        with open(P(inp), 'w') as h:
            h.write('REMARK nothing\n' if s['seed'] % 2 else '')
    full = s['stdout'] == 'full' and tool != 'solvate'
    if full and tool != 'pdb2cif':
        E.fault('stdout_full')
    call = (cmd + args, D, s['gmx'], 'full' if full else None)
    mustfail = usage == 1 or how in ('noinput', 'badinput') and usage is None or (tool == 'solvate' and s['gmx'] != 'ok' and usage is None) or (full and tool != 'pdb2cif' and usage != 0)
    if usage == 0 and full:
        mustfail = False
    env = dict(TMPDIR=T)
    path = tools.shims(os.path.join(E.aux, 'bin-%d' % (s['gmx'] != 'missing')), s['gmx'] != 'missing') + ':' + BIN + ':/usr/bin:/bin'
    pre = snapshot(E.root)
    rel = os.path.relpath(D, E.root)
    mine = {os.path.join(rel, f) for f in own + log}
    what = '%s, call %d%s' % (os.path.basename(cmd[1] if tool == 'solvate' else cmd[-1]), i, '' if how == 'run' else ' (%s)' % how)
    texts = [files[inp]]
    kw = dict(env=env, path=path)
    rules = []
    if s.get('grow') and how == 'run' and tool == 'fqha':
        L = files[inp].splitlines(True)
        ks = sorted({max(3, int(g['fr'] * len(L))) for g in s['grow']})
        src = os.path.join(E.aux, 'src%d' % i)
        open(src, 'w').write(files[inp])
        import struct
        offs = [len(''.join(L[:k])) for k in ks] + [len(files[inp])]
        open(P(inp), 'w').write(files[inp][:offs[0]])
        texts = [files[inp][:o] for o in offs]
        recs = [struct.pack('<qq400s400s', a, b - a, src.encode(), P(inp).encode()) for a, b in zip(offs, offs[1:]) if b > a]
        fn = os.path.join(E.aux, 'recs%d' % i); open(fn, 'wb').write(b''.join(recs))
        ats = sorted(g['at'] for g in s['grow'])
        rules = [dict(kinds=['openr', 'read'], at=at + j, action='append', arg=j, arg2=1, appfile=fn, sub=inp) for j, at in zip(range(len(recs)), ats)]
        pre = snapshot(E.root)
    def after(R, fault, hit=None):
        hit = hit and tuple(re.sub(r'tmp/tmp\.\w+', 'tmp/T', h) for h in hit)     # (mktemp)
        w = what + ('' if not hit else ', fault %s' % (hit,))
        check(R.status in ('ok', 'crash'), 'tool-hangs-or-dies', lambda: '%s: %r %s' % (w, R, R.tb[-800:]))
        check(fault or R.status == 'ok', 'tool-hangs-or-dies', lambda: '%s: %r' % (w, R))
        check(R.ctl['nescape'] == 0, 'outside-touched', lambda: '%s: %s' % (w, R.ctl['escape']))
        now = snapshot(E.root)
        killed = R.status == 'crash'
        rc, out, err = R.value if not killed else (None, b'', b'')
        w += ', exit status %s' % rc
        for f in sorted(set(pre) | set(now)):
            if f in mine or f.rstrip('/') == 'tmp' or (killed and f.startswith('tmp/')):
                continue
            if s.get('grow') and f == os.path.join(rel, inp):
                continue
            if f not in now:
                check(False, 'other-file-removed', lambda: '%s: %s is gone' % (w, f))
            elif f not in pre:
                check(fault and f.startswith('tmp/'), 'files-left-behind', lambda: '%s: %s' % (w, re.sub(r'tmp\.\w+', 'T', f)))
            else:
                check(pre[f] == now[f], 'other-file-changed', lambda: '%s: %s' % (w, f))
        if not killed and usage != 0:
            check(rc == 0 or fault or mustfail or full, 'tool-fails', lambda: '%s: %s %s' % (w, out[-300:], err[-1200:]))
            check(rc != 0 or not mustfail or (fault and False), 'failure-not-reported', lambda: '%s%s: %s %s' % (w, '' if tool != 'solvate' else ', gmx %s' % s['gmx'], out[-300:], err[-300:]))
        if usage == 0 and not killed:
            if not full and not fault:
                check(rc == 0 and b'usage' in out, 'no-help', lambda: '%s: %s %s' % (w, out, err[-300:]))
            for f in mine:
                if not f.endswith('.log'):
                    check(now.get(f) == pre.get(f) or cmd[0] == 'sh', 'help-touches-files', lambda: '%s: %s' % (w, f))
        state = 'none'
        # the outputs
        for f in own:
            if usage is not None:
                break
            if cmd[0] == 'sh' and tool != 'pdb2cif':
                if s['stdout'] == 'full': break
                if s['stdout'] == 'file':
                    b = None if not os.path.exists(P(f)) else open(P(f), 'rb').read()
                else:
                    b = out
            else:
                b = None if not os.path.exists(P(f)) else open(P(f), 'rb').read()
            m = 'no output' if b is None else bad(f, b)
            if rc == 0:
                check(m is None, 'wrong-output', lambda: '%s: %s: %s' % (w, f, m))
                state = 'new'
            elif tool == 'solvate' and b is not None:
                old = pre.get(os.path.join(rel, f))
                check(m is None or now[os.path.join(rel, f)] == old or (killed and R.ctl['nmut'] and False), 'incomplete-output-left', lambda: '%s: %s is neither the one of before nor the new one: %s' % (w, f, m))
                state = 'old' if m else 'new'
        if rc == 0 and tool == 'solvate' and usage is None:
            check(b'Added %d molecules' % s['nmol'] in out or fault, 'wrong-output', lambda: '%s: message of gmx not shown: %s' % (w, out))
            if fault: E.probe('survived_fault')
        E.probe('killed' if killed else 'reported_error' if rc else 'success')
        E.event(i, tool, how, s['gmx'] if tool == 'solvate' else '', hit, R.status, rc, state)
        E.states.add(repr((tool, how, s['gmx'] if tool == 'solvate' else '', hit and hit[0], bool(rc), state)))
    def bad(f, b):
        if f.endswith('_gmx.pdb'):
            a = pdb_read(b.decode())
            ok = a[0] == osym and near(a[1], oxyz, 2e-3) and a[2] is not None and near(a[2], cc, 1e-3) and b.endswith(b'ENDMDL\n')
            return None if ok else 'has %s %s, expected %s' % (a[0], G.brief(a[1]), osym)
        if f.endswith('_gmx.cif') or tool == 'pdb2cif':
            return bad_cif(b, osym if tool == 'solvate' else sy, frac, cc)
        if f.endswith('_gmx.cif.txt') or tool == 'cif2any':
            return bad_any(b.decode(), osym if tool == 'solvate' else sy, frac, cc)
        if tool == 'fqha':
            return bad_fqha(b.decode(), texts)
        return bad_sgroup(b.decode(), sy, frac, cc)
    if tool == 'solvate' and s['gmx'] != 'ok' and usage is None:
        E.fault('gmx_' + s['gmx'])
    if how != 'run': E.probe('call_' + how)
    if s['fault'] and usage != 0:
        keep = os.path.join(E.aux, 'keep%d' % i)
        shutil.copytree(E.root, keep, symlinks=True)
        R0 = E.node(launch, *call, **kw)
        after(R0, False)
        for n in os.listdir(E.root):
            q = os.path.join(E.root, n)
            shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
        for n in os.listdir(keep):
            os.rename(os.path.join(keep, n), os.path.join(E.root, n))
        R, hit = A.faulty(E, launch, call, s['fault'], s['at'], s['permille'], R0, **kw)
        if A.fired(R): E.fault(s['fault'])
        after(R, True, hit)
        if not A.fired(R):
            return
        # the next call must not suffer from what this one left
        for n in os.listdir(T):
            q = os.path.join(T, n)
            shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
        for n in files:
            if how == 'run': put(P(n), files[n], s['old'])
        pre = snapshot(E.root)
        what += ' again'
    R = E.node(launch, *call, rules=rules, **kw)
    if rules and any(R.ctl['fired']): E.fault('appended_during_reading')
    after(R, False)
