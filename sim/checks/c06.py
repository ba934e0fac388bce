"""C06 truncated or empty stored files are never read as a smaller valid result."""
import os
import numpy as np
from .. import gen as G, dcdfile
from ..core import check, Violation, mk_fault

ID = 'C06'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=3000, wall=180), thorough=dict(runs=80000, wall=1700))
RULE = ('a run = one stored object (array text file of 1-3 dimensions incl. axes of length zero and one and any chunk axis; pickled structure, trajectory or parser; HDF5 file; '
        'DCD trajectory in cp2k or lammps flavour) written by a process that then dies, leaving the file cut at 1-10 seeded byte positions (dense near header end, line and '
        'frame boundaries and the end), each read back in one process, mixed with reads of the intact file and reads hit by read errors, short reads or interrupted calls; '
        'non-trivial = at least one cut read; distinct = distinct event-log hash')
REAL = ['pwtools.arrayio, io, base, dcd', '_dcd Fortran extension', 'numpy, pickle, HDF5']
STUB = ['the DCD writer (MD code) is an independent reference writer']
LISTS = ['cuts']
STATES = 'hash of (format, dims, region of the cut, outcome)'
FMTS = ['txt'] * 6 + ['pickle', 'pickle_traj', 'h5', 'h5', 'dcd', 'dcd', 'dcd', 'dcdf']

def prepare():
    import h5py
    from pwtools import arrayio, io, dcd, crys, _dcd

def generate(r, tier, idx):
    f = r.choice(FMTS)
    nd = r.choice([1, 2, 2, 3, 3, 3])
    shape = [r.choice([1, 1, 2, 3, 5, 12, 40] + ([0] if r.random() < .15 else [])) for i in range(nd)]
    cuts = []
    for i in range(r.choice([1, 2, 4, 10])):
        cuts.append(dict(where=r.choice(['any', 'any', 'line', 'linem', 'end', 'end', 'head', 'zero', 'full', 'frame', 'framem']),
                         frac=r.random(), n=r.randrange(1, 12), fault=r.choice([None, None, None, None, 'read_eio', 'read_short_persist', 'read_eintr', 'open_fail'])))
    return dict(fmt=f, seed=r.randrange(10**6), shape=shape, dtype=r.choice(['f', 'f', 'i', 'special']), axis=r.randrange(-nd, nd), explicit=r.random() < .2,
                nstep=r.choice([1, 1, 2, 3, 10]), natoms=r.choice([1, 2, 3, 10]), lammps=r.random() < .5, hdr_extra=r.choice([0, 0, 0, 1, -1]), cuts=cuts, load=r.randrange(3))

def valid(scn):
    return bool(scn['cuts'])

def shrinks(scn):
    import copy
    for i, n in enumerate(scn['shape']):
        if n > 2:
            c = copy.deepcopy(scn); c['shape'][i] = 2; yield c
    for i, c0 in enumerate(scn['cuts']):
        if c0['fault']:
            c = copy.deepcopy(scn); c['cuts'][i]['fault'] = None; yield c

def txt_data(s):
    a = G.array(s['seed'], tuple(s['shape']), 'i' if s['dtype'] == 'i' else 'f')
    if s['dtype'] == 'special' and a.size:
        f = a.reshape(-1); f[s['seed'] % f.size] = np.nan; f[(s['seed'] // 7) % f.size] = -np.inf
    return a

def dcd_data(s):
    R = G.rs(s['seed'], 5)
    cc = np.hstack([R.uniform(3, 9, (s['nstep'], 3)), R.uniform(-.4, .4, (s['nstep'], 3)) if s['lammps'] else R.uniform(60, 120, (s['nstep'], 3))])
    return cc, R.uniform(-9, 9, (s['nstep'], s['natoms'], 3)).astype(np.float32)

def write(s, path):
    from pwtools import arrayio, io
    f = s['fmt']
    if f == 'txt':
        arrayio.writetxt(path, txt_data(s), axis=s['axis'], header=not (s['explicit'] and txt_data(s).size))
    elif f == 'pickle':
        G.structure(s['seed'], s['natoms']).dump(path)
    elif f == 'pickle_traj':
        G.trajectory(s['seed'], s['nstep'], s['natoms']).dump(path)
    elif f == 'h5':
        io.write_h5(path, h5d(s))
    else:
        cc, co = dcd_data(s)
        h = 0
        if s['lammps']:
            h = s['nstep'] + (s['hdr_extra'] if f == 'dcdf' else 0)
        open(path, 'wb').write(dcdfile.make(cc, co, h))

def h5d(s):
    d = {'/a/x': G.array(s['seed'], (s['nstep'] * 7, 3)), '/b': 'txt', '/c/d/e': s['seed'], '/z1': G.array(s['seed'] + 1, (1, s['natoms'], 1))}
    if s['seed'] % 3 == 0:
        d['/empty/e'] = np.zeros((0, 3)); d['/i8'] = np.arange(s['natoms'], dtype='i8'); d['/flag'] = np.array([True, False]); d['/f4'] = G.array(s['seed'] + 2, (2,)).astype('f4')
    return d

def expected(s):
    f = s['fmt']
    if f == 'txt':
        return txt_data(s)
    if f == 'pickle':
        return G.attrs(G.structure(s['seed'], s['natoms']))
    if f == 'pickle_traj':
        return G.attrs(G.trajectory(s['seed'], s['nstep'], s['natoms']))
    if f == 'h5':
        return h5d(s)
    cc, co = dcd_data(s)
    cc = cc.copy()
    if s['lammps']:
        cc[:, 3:] = np.arccos(cc[:, 3:]) * 180.0 / np.pi
    return cc, co

def readers(s):
    from pwtools import arrayio, io, dcd, common, crys
    f = s['fmt']
    if f == 'txt':
        if s['explicit'] and txt_data(s).size:
            return [('readtxt(shape,axis)', lambda p: arrayio.readtxt(p, shape=tuple(s['shape']), axis=s['axis']))]
        def fh(p):
            with open(p) as h:
                return arrayio.readtxt(h)
        return [('readtxt', arrayio.readtxt), ('readtxt(fh)', fh)]
    if f.startswith('pickle'):
        def load(p):
            x = (crys.Trajectory if f == 'pickle_traj' else crys.Structure)(set_all_auto=False)
            import warnings
            warnings.simplefilter('ignore')
            x.load(p)
            return G.attrs(x)
        pic = lambda x: G.attrs(x) if hasattr(x, 'attr_lst') else ('not the object', x)
        return [('read_pickle', lambda p: pic(io.read_pickle(p))), ('cpickle_load', lambda p: pic(common.cpickle_load(p))), ('load', load)]
    if f == 'h5':
        return [('read_h5', io.read_h5)]
    L = s['lammps']
    return [('read_dcd_data', lambda p: dcd.read_dcd_data(p, convang=L)), ('read_dcd_data_ref', lambda p: dcd.read_dcd_data_ref(p, convang=L)),
            ('read_dcd_header', lambda p: dcd.read_dcd_header(p))]

def read_f(p, lammps, hdr):
    from pwtools import dcd
    return dcd.read_dcd_data_f(p, convang=lammps, nstephdr=hdr)

def cut_pos(s, c, data):
    n = len(data)
    w = c['where']
    if w == 'zero': return 0
    if w == 'full': return n
    if w == 'any': return int(c['frac'] * n)
    if w == 'end': return max(0, n - c['n'])
    if s['fmt'].startswith('dcd'):
        h = len(dcdfile.header(s['natoms'])); fr = 80 + 12 * s['natoms']
        if w == 'head': return min(n, h + c['n'] - 6)
        k = h + fr * int(c['frac'] * (s['nstep'] + 1))
        return max(0, min(n, k + (0 if w in ('frame', 'line') else c['n'] - 6)))
    if w == 'head':
        i = data.rfind(b'#'); j = data.find(b'\n', i) + 1
        return max(0, min(n, j + c['n'] - 6))
    nl = [i + 1 for i in range(n) if data[i:i + 1] == b'\n'] or [0]
    k = nl[int(c['frac'] * len(nl))]
    return max(0, min(n, k - (0 if w in ('line', 'frame') else c['n'])))

def do_reads(s, data, plan):
    """all cuts in one process: history of reads of the same path"""
    rd = readers(s)
    out = []
    for pos, which in plan:
        with open('f.dat', 'wb') as f:
            f.write(data[:pos])
        name, fn = rd[which % len(rd)]
        out.append((name, pos, attempt(fn, 'f.dat')))
        # damaging the file afterwards must not damage what was returned
    return out

def attempt(fn, *a):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('ok', fn(*a))
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])

def read_only(s, which):
    rd = readers(s)
    name, fn = rd[which % len(rd)]
    return (name,) + attempt(fn, 'f.dat')

def judge(s, name, pos, n, r, exp, what):
    full = pos == n
    if r[0] == 'exc':
        check(not full, 'intact-file-not-read', lambda: '%s: %s' % (what, r[1:]))
        return
    v = r[1]
    if name == 'read_dcd_header':
        check(pos >= len(dcdfile.header(s['natoms'])) and int(v['natoms']) == s['natoms'], 'wrong-data', lambda: '%s: header %s' % (what, v))
        return
    if s['fmt'].startswith('dcd'):
        cc, co = v
        k = len(co)
        check(len(cc) == k and k <= s['nstep'] and (not full or k == s['nstep']), 'wrong-number-of-frames', lambda: '%s: %d frames of %d' % (what, k, s['nstep']))
        hl = len(dcdfile.header(s['natoms'])); fr = 80 + 12 * s['natoms']
        check(hl + fr * k <= pos, 'frames-beyond-end-of-file', lambda: '%s: %d frames' % (what, k))
        check(co.shape == (k, s['natoms'], 3) and G.same(np.asarray(co), exp[1][:k]), 'wrong-data', lambda: '%s: coords differ' % what)
        check(G.same(np.asarray(cc), exp[0][:k], 1e-12, 1e-12), 'wrong-data', lambda: '%s: cell differs' % what)
        check(co.dtype == np.float32 and cc.dtype == np.float64, 'wrong-data', lambda: '%s: dtype %s %s' % (what, co.dtype, cc.dtype))
        return
    same = G.same(exp, v, 1e-15, 0)
    if full:
        check(same, 'round-trip-differs', lambda: '%s: got %s, wrote %s' % (what, G.brief(v), G.brief(exp)))
        return
    check(same, 'truncated-file-read-as-valid', lambda: '%s: got %s, wrote %s' % (what, G.brief(v), G.brief(exp)))

def run(scn, E):
    s = scn
    E.states = set()
    R = E.node(write, s, 'w.dat')
    check(R.status == 'ok', 'cannot-write', lambda: '%s %s: %r %s' % (s['fmt'], s['shape'], R, R.tb[-800:]))
    data = open(os.path.join(E.root, 'w.dat'), 'rb').read()
    os.unlink(os.path.join(E.root, 'w.dat'))
    n = len(data)
    exp = expected(s)
    plan = [(cut_pos(s, c, data), i) for i, c in enumerate(s['cuts'])]
    if s['fmt'] == 'txt' and s['explicit'] and txt_data(s).size:
        # shape given by the user: only whole lines can be told from the file
        plan = [((data.rfind(b'\n', 0, p) + 1) if p < n else p, w) for p, w in plan]
        plan = [(p, w) for p, w in plan if p > 0]
    nn = len(readers(s)) if s['fmt'] != 'dcdf' else 2
    plan += [(n, w) for w in range(nn)]
    if s['fmt'] == 'dcdf':
        for pos, w in plan:
            open(os.path.join(E.root, 'f.dat'), 'wb').write(data[:pos])
            hdr = bool(w % 2) and s['lammps']
            R = E.node(read_f, 'f.dat', s['lammps'], hdr)
            what = 'read_dcd_data_f(nstephdr=%s) of %d of %d bytes (%d frames, header says %+d)' % (hdr, pos, n, s['nstep'], s['hdr_extra'])
            E.event(what, R.status, R.exc)
            E.states.add(repr(('dcdf', pos * 8 // max(n, 1), R.status, hdr)))
            check(R.status not in ('died', 'hang', 'crash'), 'reader-kills-interpreter', lambda: '%s: %r %s' % (what, R, R.out[-300:]))
            if R.status == 'ok' and hdr and s['hdr_extra'] < 0:
                check(len(R.value[1]) == s['nstep'] + s['hdr_extra'] and G.same(np.asarray(R.value[1]), exp[1][:len(R.value[1])]), 'wrong-data', what)
                continue
            if R.status == 'exc' and hdr and (s['hdr_extra'] > 0 or s['nstep'] + s['hdr_extra'] <= 0):
                continue
            judge(s, 'read_dcd_data_f', pos, n, ('ok', R.value) if R.status == 'ok' else ('exc', R.exc, R.excmsg), exp, what)
            if pos < n: E.probe('cut_read')
        E.fault('truncated_file', len([p for p, w in plan if p < n]))
        E.event('end')
        return
    R = E.node(do_reads, s, data, plan)
    check(R.status == 'ok', 'reader-kills-interpreter', lambda: '%s: %r %s' % (s['fmt'], R, R.tb[-500:]))
    for name, pos, r in R.value:
        what = '%s of %s shape %s, first %d of %d bytes' % (name, s['fmt'], s['shape'] if s['fmt'] == 'txt' else '', pos, n)
        E.event(name, pos, r[:2] if r[0] == 'exc' else 'ok')
        E.states.add(repr((s['fmt'], len(s['shape']), s['axis'], pos * 8 // max(n, 1), r[0])))
        judge(s, name, pos, n, r, exp, what)
        E.probe('cut_read' if pos < n else 'intact_read')
    k = len([p for p, w in plan if p < n])
    if k:
        E.fault('truncated_file', k)
    # read faults on the intact file
    for c in s['cuts']:
        if c['fault'] is None:
            continue
        open(os.path.join(E.root, 'f.dat'), 'wb').write(data)
        D = E.node(read_only, s, c['n'])
        rule = mk_fault(c['fault'], 0, 1 + int(c['frac'] * 998))
        rule['sub'] = 'f.dat'
        rule['at'] = int(c['frac'] * sum(D.ctl['kcount'][k] for k in rule['kinds']) % 7)
        R = E.node(read_only, s, c['n'], rules=[rule])
        what = '%s of intact %s with %s' % (R.value[0] if R.status == 'ok' else '?', s['fmt'], c['fault'])
        E.event(what, R.status, R.value[1] if R.value else '')
        check(R.status == 'ok', 'reader-kills-interpreter', lambda: '%s: %r %s' % (what, R, R.tb[-500:]))
        name, r = R.value[0], R.value[1:]
        if c['fault'] in ('read_short_persist', 'read_eintr'):
            if s['fmt'] != 'h5':
                judge(s, name, n, n, r, exp, what)
        if r[0] == 'ok':
            judge(s, name, n, n, r, exp, what)
    E.event('end')
