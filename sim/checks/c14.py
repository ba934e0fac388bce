"""C14 failing, killed or incomplete helper programs: error, never stale or partial results."""
import os, re, sys
import numpy as np
from .. import core, ext, md, gen as G, parsers
from ..core import check, Violation

ID = 'C14'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=500, wall=150), thorough=dict(runs=20000, wall=1700))
RULE = ('a run is one of: (parse) output of a simulated MD or phonon job read through the real shell pipelines while one program of one pipeline, drawn from the profile of a fault-free pass, is missing, '
        'fails silently, prints an error, stops after part of its output with an exit code or a signal, or its shell is killed, or starting it fails; (eos) a history of ElkEOSFit '
        'objects sharing directories, with changed data and the fitter failing at any point; (vmd) a history of g(r) measurements with re-used data files; (view) viewers with failing programs; '
        'non-trivial = a fault hit; distinct = distinct event-log hash')
REAL = ['pwtools.parse, pwscf, eos, crys, visualize, common.backtick/system', 'bash, sh, grep, sed, awk, head, tail, wc', 'tclsh (interprets the generated VMD script)']
STUB = ['eos.x, vmd measurement, viewers: stand-ins; shims before the text tools add the fault and otherwise run the real tool']
ASSUME = ['exit code 1 of a program inside a pipe is not a failure (grep found nothing)', 'bash is installed']
LISTS = ['faults', 'ops']
STATES = 'hash of (kind, code, program, failure, outcome)'
CODES = ['pw_md', 'pw_vcmd', 'pw_scf', 'cpmd', 'cpmd_scf', 'cp2k', 'cp2k_dcd', 'cp2k_relax', 'cp2k_scf', 'lammps', 'lammps_dcd', 'ph_modes', 'ph_dyn', 'ph_dynmat', 'ph_ir']

def prepare():
    from pwtools import parse, io, crys, eos, pwscf, visualize, dcd, _dcd
    import scipy.interpolate, scipy.optimize

SH = ['missing', 'missing', 'exit2', 'exit3', 'exit4', 'exit139', 'stderr0', 'stderr2', 'shell', 'popen', 'tool-missing', 'tool-exit2']

def shmode(r):
    if r.random() < .45:
        return 'partial:%d:%s' % (r.choice([0, r.randrange(1000), r.randrange(900, 1001)]), r.choice(['2', '3', '-9', '-9', '-15', '-11', '-6']))
    return r.choice(SH)

def eosmode(r):
    if r.random() < .5:
        return 'ok'
    return r.choice(['early-exit1', 'silent0', 'kill0', 'stderr', 'lateexit%d' % r.choice([1, 2, 3, 127]), 'missing', 'notexec', 'cut:%d:%s' % (r.randrange(1000), r.choice(['0', '1', '2', '-9', '-11'])),
                     'cut:%d:%s' % (r.randrange(900, 1001), r.choice(['1', '-9'])), 'rows:%s:%d' % (r.choice(['EV', 'PV']), r.randrange(1000)), 'rows:%s:%d' % (r.choice(['EV', 'PV', '']), r.randrange(0, 900)),
                     'nofile:%s' % r.choice(['EV', 'PV', 'PARAM', 'EV'])])

def vmdmode(r):
    if r.random() < .45:
        return 'ok'
    return r.choice(['exit1', 'silent0', 'kill0', 'noload', 'nosel', 'nomeasure', 'missing', 'stderr', 'puts:%d' % r.randrange(9), 'killputs:%d' % r.randrange(9), 'puts:%d' % r.randrange(40)])

def generate(r, tier, idx):
    kind = r.choice(['parse', 'parse', 'parse', 'eos', 'eos', 'vmd', 'vmd', 'view'])
    s = dict(kind=kind)
    if kind == 'parse':
        s['code'] = r.choice(CODES)
        if s['code'].startswith('ph_'):
            s.update(natoms=r.choice([1, 2, 3]), nq=r.choice([1, 2, 3]), seed=r.randrange(10**6))
        else:
            s['job'] = md.spec(r, [s['code']], nstep=r.choice([3, 3, 4, 5]))
        s['faults'] = [dict(at=r.random(), mode=shmode(r)) for i in range(r.choice([2, 3, 4, 6]))]
        s['order'] = r.randrange(10**6)
    elif kind == 'eos':
        ops = []
        for i in range(r.choice([2, 3, 5, 8])):
            c = r.random()
            k = r.randrange(3)
            if c < .4 or i == 0:
                ops.append(dict(op='new', k=k, dir=r.choice(['A', 'A', 'B', None]), seed=r.randrange(10**6), n=r.choice([5, 8, 12]), natoms=r.choice([1, 1, 2]), etype=r.randrange(1, 8),
                                npoints=r.choice([12, 40, 60]), bv=r.choice(['ev', 'pv']), verbose=r.random() < .3, app=r.choice(['name', 'abs'])))
            elif c < .55:
                ops.append(dict(op='data', k=k, seed=r.randrange(10**6), how=r.choice(['attr', 'inplace'])))
            elif c < .6:
                ops.append(dict(op='bv', k=k, bv=r.choice(['ev', 'pv'])))
            ops.append(dict(op='fit', k=k, mode=eosmode(r)))
        s['ops'] = ops
    elif kind == 'vmd':
        s['ops'] = [dict(op=r.choice(['call', 'call', 'wrap']), traj=r.randrange(3), dr=r.choice([.1, .25, .05]), rmax=r.choice([2.0, 1.0, 'auto']), sel=r.randrange(3),
                         first=r.choice([0, 0, 1, 2]), last=r.choice([-1, -1, 2, 3]), step=r.choice([1, 1, 2]), usepbc=r.choice([1, 1, 0]), data=r.choice([None, 'data.txt', 'data.txt', 'a b.txt']),
                         script=r.choice([None, None, 'script.tcl', 's p.tcl']), logf=r.choice([None, None, 'vmd.log', 'l g.log']), slicefirst=r.random() < .5, verbose=r.random() < .3, tmp=r.choice(['tmp', 'tmp', 't p']),
                         mode=vmdmode(r), rm=r.random() < .1)
                    for i in range(r.choice([1, 2, 3, 5]))]
        s['seed'] = r.randrange(10**6)
    else:
        s['ops'] = [dict(viewer=r.choice(['xcrysden', 'vmd_axsf', 'vmd_xyz', 'jmol', 'avogadro']), disp=r.random() < .5, keep=r.random() < .3,
                         mode=r.choice(['ok', 'ok', 'exit1', 'exit2', 'exit127', 'kill9', 'kill15', 'kill11', 'missing']), logf=r.choice([None, 'l.log', 'l g.log']), sf=r.choice([None, 's.str', 's s.str']))
                    for i in range(r.choice([1, 2, 3]))]
        s['seed'] = r.randrange(10**6)
    return s

def valid(scn):
    return bool(scn.get('faults') or scn.get('ops'))

def shrinks(scn):
    import copy
    if scn['kind'] == 'parse' and 'job' in scn:
        for k in ('nstep', 'natoms'):
            if scn['job'][k] > 1:
                c = copy.deepcopy(scn); c['job'][k] -= 1; yield c
    if scn['kind'] == 'parse' and len(scn['faults']) > 1:
        for f in scn['faults']:
            yield dict(scn, faults=[f])
    for i, o in enumerate(scn.get('ops', [])):
        for k, v in (('mode', 'ok'), ('data', None), ('script', None), ('logf', None), ('verbose', False), ('tmp', 'tmp'), ('disp', False), ('first', 0), ('last', -1), ('step', 1), ('sf', None)):
            if k in o and o[k] != v:
                ops = list(scn['ops']); ops[i] = dict(o); ops[i][k] = v
                yield dict(scn, ops=ops)

# ------------------------------------------------------------------ parsing
def ph_files(s):
    R = G.rs(s['seed'], 5)
    n, nq = s['natoms'], s['nq']
    nm = 3 * n
    f = lambda v: '%10.6f' % v
    def modes(fr, ve):
        t = ''
        for m in range(nm):
            t += '     omega(%2d) =%15.6f [THz] =%15.6f [cm-1]\n' % (m + 1, fr[m] / 33.35641, fr[m])
            for a in range(n):
                t += ' (' + ' '.join(f(x.real) + ' ' + f(x.imag) + '  ' for x in ve[m, a]) + ')\n'
        return t
    star = ' ' + '*' * 74 + '\n'
    out = {}
    q = R.uniform(-1, 1, (nq, 3)); fr = R.uniform(-10, 900, (nq, nm)); ve = R.uniform(-1, 1, (nq, nm, n, 3)) + 1j * R.uniform(-1, 1, (nq, nm, n, 3))
    t = ''
    for i in range(nq):
        t += '     diagonalizing the dynamical matrix ...\n\n q = %s\n' % ' '.join('%12.4f' % x for x in q[i]) + star + modes(fr[i], ve[i]) + star
        d = 'Dynamical matrix file\n\n  2  %d\n     Dynamical  Matrix in cartesian axes\n\n     q = ( %s )\n\n' % (n, ' '.join('%14.9f' % x for x in q[i]))
        for a in range(n):
            d += '    1    %d\n' % (a + 1) + ''.join('  %12.8f  %12.8f  %12.8f\n' % tuple(x) for x in R.uniform(-1, 1, (3, 3)))
        d += '     Diagonalizing the dynamical matrix\n\n     q = ( %s )\n\n' % ' '.join('%14.9f' % x for x in q[i]) + star + modes(fr[i], ve[i]) + star
        out['ph.dyn%d' % (i + 1)] = d
    out['matdyn.modes'] = t
    t = '\n     diagonalizing the dynamical matrix ...\n\n# mode   [cm-1]    [THz]      IR          Raman   depol.fact\n'
    for m in range(nm):
        t += '%5d %9.2f %9.4f %9.4f %14.4f %9.4f\n' % (m + 1, fr[0, m], fr[0, m] / 33.35641, R.rand(), R.rand(), R.rand())
    out['dynmat.out'] = t + '\n     DYNMAT       :      0.01s CPU\n'
    t = ' ANIMSTEPS %d\n CRYSTAL\n PRIMVEC\n' % nm + ' 1.0 0.0 0.0\n 0.0 1.0 0.0\n 0.0 0.0 1.0\n'
    for m in range(nm):
        t += ' PRIMCOORD %d\n %d 1\n' % (m + 1, n)
        for a in range(n):
            t += ' Al ' + ' '.join('%11.6f' % x for x in R.rand(3)) + ' ' + ' '.join('%11.6f' % x for x in ve[0, m, a].real) + '\n'
    out['dynmat.axsf'] = t
    return {k: v.encode() for k, v in out.items()}

def jobs_of(s):
    """(files, [names], function(name) -> value factory)"""
    if s['code'].startswith('ph_'):
        return ph_files(s), ['r']
    J = md.job(s['job'])
    return J.full(), None

def readall(s, names, failcall, order):
    """all quantities, in a fixed order -> {name: outcome}, number of calls"""
    from pwtools import parse, pwscf
    import subprocess, warnings
    warnings.simplefilter('ignore')
    n = [0]
    real = subprocess.Popen
    class P(real):
        def __init__(self, *a, **k):
            n[0] += 1
            os.environ['PWSIM_CALL'] = str(n[0])
            if n[0] == failcall:
                raise OSError(11, 'Resource temporarily unavailable')
            real.__init__(self, *a, **k)
    subprocess.Popen = P
    out = {}
    try:
        if names == ['r']:
            na = s['natoms']
            fn = {'ph_modes': lambda: pwscf.read_matdyn_modes('job=1/matdyn.modes', natoms=na), 'ph_dyn': lambda: pwscf.read_all_dyn('job=1', nqpoints=s['nq'], natoms=na),
                  'ph_dynmat': lambda: pwscf.read_dynmat('job=1', natoms=na), 'ph_ir': lambda: pwscf.read_dynmat_ir_raman('job=1/dynmat.out', natoms=na)}[s['code']]
            r = parsers.quiet(fn)
            out['r'] = r if r[0] != 'ok' else ('ok', parsers.plain(r[1]))
        else:
            J = md.job(s['job'])
            mk = lambda: getattr(parse, J.parser)(os.path.join('job=1', J.main))
            p = mk()
            if order % 2:
                gs = parsers.getters(p)
                gs = [gs[i] for i in G.rs(order).permutation(len(gs))]
                for g in gs:
                    r = parsers.quiet(parsers.getter, p, g)
                    out[g] = r if r[0] != 'ok' else ('ok', parsers.plain(r[1]))
            else:
                r = parsers.quiet(p.get_cont)
                out['CONT'] = r if r[0] != 'ok' else ('ok', parsers.picture(r[1]))
    finally:
        subprocess.Popen = real
    return out, n[0]

def put(files):
    os.makedirs('job=1', exist_ok=True)
    for f, b in files.items():
        with open('job=1/' + f, 'wb') as h:
            h.write(b)

def parse_run(s, E):
    files, names = jobs_of(s)
    sh = ext.tools(os.path.join(E.dir, 'shims'))
    E.node(put, files)
    path = sh + ':/usr/bin:/bin'
    log = os.path.join(E.aux, 'shlog')
    R = E.node(readall, s, names, 0, s['order'], path=path, env=dict(SHIM_LOG=log), log=False)
    check(R.status == 'ok', 'reader-kills-interpreter', lambda: '%s: %r' % (s['code'], R))
    ref, ncall = R.value
    keys = sorted(set(open(log).read().split('\n')) - {''}) if os.path.exists(log) else []
    okref = [k for k in ref if ref[k][0] == 'ok']
    check(okref, 'fault-free-run-fails', lambda: '%s: %s' % (s['code'], list(ref.items())[:2]))
    E.event('profile', len(keys), ncall)
    if not keys:
        return
    for f in s['faults']:
        key = keys[int(f['at'] * len(keys)) % len(keys)]
        mode = f['mode']
        env = dict(SHIM_KEY='', SHIM_MODE=mode, SHIM_TMP=os.path.join(E.aux, 'shtmp'), SHIM_LOG='', SHIM_TOOL='')
        fc = 0
        what = 'call %s' % key[:120]
        if mode == 'popen':
            fc = 1 + int(f['at'] * ncall) % ncall
            what = 'program start number %d' % fc
        elif mode.startswith('tool-'):
            env['SHIM_TOOL'] = key.split('|')[1]; env['SHIM_MODE'] = mode[5:]
            what = 'every %s' % env['SHIM_TOOL']
        else:
            env['SHIM_KEY'] = key
        R = E.node(readall, s, names, fc, s['order'], path=path, env=env, log=False)
        check(R.status == 'ok', 'reader-kills-interpreter', lambda: '%s, %s: %s: %r' % (s['code'], what, mode, R))
        E.fault('pipeline_' + mode.split(':')[0])
        E.probe('fault_hit')
        got, _ = R.value
        nexc = 0
        for k in sorted(ref):
            if got[k][0] == 'exc':
                nexc += 1
                continue
            if ref[k][0] == 'ok' and not G.same(got[k][1], ref[k][1]):
                raise Violation('partial-or-missing-value-without-error', '%s.%s while %s of a pipeline %s: %s' % (s['code'], k, what, mode, parsers.why(got[k], ref[k])))
        E.event(key.split('|')[1], mode.split(':')[0], nexc)
        E.states.add(repr((s['code'], key.split('|')[1], mode.split(':')[0], min(nexc, 3))))

# --------------------------------------------------------------------- eos
def ev_data(seed, n):
    R = G.rs(seed, 3)
    v = np.linspace(20, 30, n) * R.uniform(.8, 1.5) + R.uniform(-.1, .1, n)
    v.sort()
    v0 = v[n // 2] + R.uniform(-.3, .3)
    e = R.uniform(-20, 0) + R.uniform(.01, .05) * (v - v0) ** 2
    return v, e

def eos_model(o, v, e):
    """ev, pv in eV, Ang^3, GPa"""
    from pwtools.constants import Ang, Bohr, eV, Ha
    V = v * Ang ** 3 / Bohr ** 3; Y = e * eV / Ha
    ee, pp = ext.eos_curve(o['etype'], 'foo', o['natoms'], V[0], V[-1], o['npoints'], [float(x) for x in V], [float(x) for x in Y])
    ee = np.array(ee) * o['natoms']; pp = np.array(pp)
    ee[:, 0] *= Bohr ** 3 / Ang ** 3; ee[:, 1] *= Ha / eV
    pp[:, 0] *= o['natoms'] * Bohr ** 3 / Ang ** 3
    return ee, pp

def eos_life(ops, bind):
    from pwtools import eos
    import warnings
    warnings.simplefilter('ignore')
    objs = {}; par = {}; dat = {}; fitted = {}
    out = []
    for i, o in enumerate(ops):
        k = o['k']
        if o['op'] == 'new':
            v, e = ev_data(o['seed'], o['n'])
            objs[k] = eos.ElkEOSFit(app='eos.x' if o['app'] == 'name' else bind + '/eos.x', energy=e, volume=v, dir=o['dir'], natoms=o['natoms'], etype=o['etype'], npoints=o['npoints'],
                                    bv_method=o['bv'], verbose=o['verbose'])
            par[k] = dict(o); dat[k] = (v, e); fitted.pop(k, None)
            continue
        if k not in objs:
            continue
        p = objs[k]
        if o['op'] == 'bv':
            p.set_bv_method(o['bv']); par[k]['bv'] = o['bv']; fitted.pop(k, None)
        elif o['op'] == 'data':
            v, e = ev_data(o['seed'], par[k]['n'])
            if o['how'] == 'attr':
                p.volume, p.energy = v, e
                dat[k] = (v, e)
            else:
                dat[k][0][:] = v; dat[k][1][:] = e
        elif o['op'] == 'fit':
            m = o['mode']
            os.environ['FAKE_EOS'] = m if m not in ('missing', 'notexec') else 'ok'
            fx = bind + '/eos.x'
            if m == 'missing':
                os.rename(fx, fx + '.away')
            if m == 'notexec':
                os.chmod(fx, 0o644)
            try:
                r = parsers.quiet(p.fit)
            finally:
                if m == 'missing':
                    os.rename(fx + '.away', fx)
                if m == 'notexec':
                    os.chmod(fx, 0o755)
            what = 'fit %d (object %d, dir %s, eos.x: %s)' % (i, k, par[k]['dir'], m)
            if r[0] == 'ok':
                verify(p, par[k], dat[k], what, m)
                fitted[k] = True
            else:
                fitted.pop(k, None)
                check(m != 'ok', 'fault-free-run-fails', lambda: '%s: %s' % (what, r[1:]))
                # nothing of earlier fits is left
                for a in ('ev', 'pv', 'bv', 'spl_ev', 'spl_pv', 'spl_bv'):
                    v = getattr(p, a, None)
                    if v is not None and a in ('ev', 'pv'):
                        w = eos_model(par[k], *dat[k])[a == 'pv']
                        check(np.shape(v) == w.shape and np.allclose(v, w, rtol=1e-4, atol=1e-4), 'stale-result-after-failure', lambda: '%s failed (%s), but %s is %s' % (what, r[1:], a, G.brief(v)))
                g = parsers.quiet(p.get_min)
                check(g[0] == 'exc', 'stale-result-after-failure', lambda: '%s failed (%s), but get_min() returns %s' % (what, r[1:], g[1]))
            out.append((i, m, r[0]))
        # fits of the other objects are untouched
        for j in fitted:
            if j != k or o['op'] != 'fit':
                if o['op'] == 'data' and j == k:
                    continue
    return out

def verify(p, o, d, what, m):
    ev, pv = eos_model(o, *d)
    for a, w in (('ev', ev), ('pv', pv)):
        v = getattr(p, a)
        check(isinstance(v, np.ndarray) and v.shape == w.shape, 'partial-result', lambda: '%s returned, %s has shape %s, not %s' % (what, a, np.shape(v), w.shape))
        sc = np.abs(w).max(axis=0)
        check((np.abs(v - w) <= 2e-5 * sc + 1e-5).all(), 'stale-or-wrong-result', lambda: '%s returned, %s[0] is %s, eos.x found %s for these data' % (what, a, v[0], w[0]))
    for a, w in (('spl_ev', ev), ('spl_pv', pv)):
        s = getattr(p, a)
        y = s(w[:, 0])
        check((np.abs(y - w[:, 1]) <= 1e-3 * np.abs(w[:, 1]).max() + 1e-4).all(), 'stale-or-wrong-result', lambda: '%s returned, %s does not follow the data' % (what, a))
    if o['bv'] == 'ev':
        from pwtools.num import Spline
        w = ev[:, 0] * Spline(ev[:, 0], ev[:, 1])(ev[:, 0], der=2) * 160.2176487
    else:
        from pwtools.num import Spline
        w = -pv[:, 0] * Spline(pv[:, 0], pv[:, 1])(pv[:, 0], der=1)
    b = p.bv
    n = len(w)
    sl = slice(n // 4, 3 * n // 4)
    check(b.shape == (n, 2) and np.allclose(b[sl, 1], w[sl], rtol=2e-2, atol=1e-2 * np.abs(w).max()), 'stale-or-wrong-result', lambda: '%s returned, bv is %s, not %s' % (what, b[sl][:2], w[sl][:2]))
    v0 = ev[ev[:, 1].argmin(), 0]
    if 0 < ev[:, 1].argmin() < n - 1:
        g = parsers.quiet(p.get_min)
        check(g[0] == 'ok', 'fault-free-run-fails', lambda: '%s: get_min: %s' % (what, g[1:]))
        h = ev[1, 0] - ev[0, 0]
        check(abs(g[1]['v0'] - v0) <= 1.01 * h, 'stale-or-wrong-result', lambda: '%s returned, get_min() gives v0=%s, the minimum is at %s' % (what, g[1]['v0'], v0))

# --------------------------------------------------------------------- vmd
SELS = [['all', 'all'], ['name Ca', 'name O'], ['all', 'name H']]

def mktraj(seed, t):
    from pwtools import crys
    R = G.rs(seed, t, 9)
    n = [4, 6, 5][t % 3]; na = [2, 3, 1][t % 3]
    return crys.Trajectory(coords_frac=R.rand(n, na, 3), cell=np.diag(R.uniform(5, 8, 3)), symbols=['H', 'O', 'Ca'][:na])

def vmd_life(s, bind):
    from pwtools import crys, io
    import warnings
    warnings.simplefilter('ignore')
    out = []
    os.makedirs('tmp'); os.makedirs('t p')
    for t in range(3):
        io.write_axsf('traj%d.axsf' % t, mktraj(s['seed'], t))
    for i, o in enumerate(s['ops']):
        os.environ['FAKE_VMD'] = o['mode'] if o['mode'] != 'missing' else 'ok'
        fx = bind + '/vmd'
        tr = mktraj(s['seed'], o['traj'])
        sel = SELS[o['sel']]
        kw = dict(dr=o['dr'], rmax=o['rmax'], sel=list(sel), first=o['first'], last=o['last'], step=o['step'], usepbc=o['usepbc'], verbose=o['verbose'], tmpdir=os.path.abspath(o['tmp']))
        if o['op'] == 'call':
            if o['rmax'] == 'auto':
                kw['rmax'] = 2.0
            for a, b in (('datafn', 'data'), ('scriptfn', 'script'), ('logfn', 'logf')):
                if o[b]:
                    kw[a] = o[b]
            fn = lambda: crys.call_vmd_measure_gofr('traj%d.axsf' % o['traj'], **kw)
        else:
            fn = lambda: crys.vmd_measure_gofr(tr, slicefirst=o['slicefirst'], **kw)
        if o['mode'] == 'missing':
            os.rename(fx, fx + '.away')
        try:
            r = parsers.quiet(fn)
        finally:
            if o['mode'] == 'missing':
                os.rename(fx + '.away', fx)
        rmax = kw['rmax'] if kw['rmax'] != 'auto' else crys.rmax_smith(tr.cell[0])
        want = ext.gofr(tr.coords, kw['dr'], rmax, sel, o['first'], o['last'], o['step'], o['usepbc'])
        what = 'measurement %d (%s, vmd: %s, %s)' % (i, o['op'], o['mode'], ', '.join('%s=%s' % (a, kw[a]) for a in ('datafn', 'first', 'last', 'step') if a in kw))
        if r[0] == 'ok':
            v = r[1]
            check(isinstance(v, np.ndarray) and v.shape == want.shape, 'partial-result', lambda: '%s returned %s, VMD measured %s values' % (what, G.brief(v), want.shape))
            check(np.allclose(v, want, rtol=1e-5, atol=1e-4), 'stale-or-wrong-result', lambda: '%s returned %s, VMD measured %s for this trajectory' % (what, v[:2], want[:2]))
        else:
            check(o['mode'] != 'ok', 'fault-free-run-fails', lambda: '%s: %s' % (what, r[1:]))
        out.append((i, o['mode'], r[0]))
    return out

def view_life(s, bind):
    from pwtools import crys, visualize
    out = []
    os.makedirs('tmp')
    st = crys.Structure(coords_frac=G.rs(s['seed']).rand(2, 3), cell=np.diag([3., 4, 5]), symbols=['H', 'O'])
    for i, o in enumerate(s['ops']):
        os.environ['FAKE_VIEW'] = o['mode'] if o['mode'] != 'missing' else 'ok'
        fx = bind + '/' + o['viewer'].split('_')[0]
        v = getattr(visualize, 'view_' + o['viewer'])
        kw = {}
        if o['logf']: kw['logfile'] = o['logf']
        if o['sf']: kw['structfile'] = o['sf']
        if o['mode'] == 'missing':
            os.rename(fx, fx + '.away')
        try:
            r = parsers.quiet(lambda: v(st, disp=o['disp'], keepfiles=o['keep'], tmpdir=os.path.abspath('tmp'), **kw))
        finally:
            if o['mode'] == 'missing':
                os.rename(fx + '.away', fx)
        what = 'view_%s(disp=%s, keepfiles=%s), viewer: %s' % (o['viewer'], o['disp'], o['keep'], o['mode'])
        if o['mode'] == 'ok':
            check(r[0] == 'ok', 'fault-free-run-fails', lambda: '%s: %s' % (what, r[1:]))
        else:
            check(r[0] == 'exc', 'failure-not-reported', lambda: '%s: no error' % what)
        out.append((i, o['mode'], r[0]))
    return out

def run(scn, E):
    E.states = set()
    k = scn['kind']
    E.event(k)
    if k == 'parse':
        return parse_run(scn, E)
    bind = ext.programs(os.path.join(E.dir, 'bin'))
    path = bind + ':/usr/bin:/bin'
    if k == 'eos':
        R = E.node(eos_life, scn['ops'], bind, path=path, log=False)
    elif k == 'vmd':
        R = E.node(vmd_life, scn, bind, path=path, log=False)
    else:
        R = E.node(view_life, scn, bind, path=path, log=False)
    check(R.status == 'ok', 'call-kills-interpreter', lambda: '%s: %r %s' % (k, R, R.tb[-800:]))
    for i, m, o in R.value:
        E.event(i, m, o)
        E.states.add(repr((k, m.split(':')[0], o)))
        if m != 'ok':
            E.fault('%s_%s' % (k, m.split(':')[0])); E.probe('fault_hit')
