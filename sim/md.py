"""Simulated MD engines: each generates, from a spec (JSON values), the exact
sequence of appends the program makes to its output files, and the numbers it
printed (the truth a parser has to report), both independent of pwtools.

job(spec) -> Job: .pre {file: text} written before the run starts,
.events [(step, file, text)], .main (file to give to the parser), .parser,
.reader, .truth {attr: [value per step]} in the units of the parser's getters,
.static {attr: value}."""
import re
import numpy as np
from . import gen as G, dcdfile

CODES = ['pw_md', 'pw_md', 'pw_vcmd', 'cpmd', 'cpmd', 'cp2k', 'cp2k', 'cp2k_dcd', 'lammps', 'lammps', 'lammps_dcd']
BOHR = None

class Job:
    def __init__(self):
        self.pre = {}; self.events = []; self.truth = {}; self.static = {}; self.files = []; self.step_of = {}
    def out(self, step, fn, txt):
        if fn not in self.files:
            self.files.append(fn)
        self.events.append((step, fn, txt.encode() if isinstance(txt, str) else txt))
    def add(self, attr, v):
        self.truth.setdefault(attr, []).append(v)
    def full(self):
        d = {k: (v.encode() if isinstance(v, str) else v) for k, v in self.pre.items()}
        for s, fn, b in self.events:
            d[fn] = d.get(fn, b'') + b
        return d

def F(v, fmt):
    """format and read back: (text, value as printed)"""
    t = fmt % v
    return t, float(t)

def rows(a, fmt, sep='', pre='', post='\n'):
    """format a 2d array; -> (text, array as printed)"""
    txt = []; val = []
    for r in a:
        t = [fmt % x for x in r]
        txt.append(pre + sep.join(t) + post)
        val.append([float(x) for x in t])
    return txt, np.array(val)

def consts():
    from pwtools import constants as c
    return c

def spec(r, codes=None, nstep=None):
    code = r.choice(codes or CODES)
    return dict(code=code, seed=r.randrange(10**6), natoms=r.choice([1, 1, 2, 2, 3, 4, 5]), nstep=nstep or r.choice([1, 2, 2, 3, 3, 4, 5, 8]), v=r.randrange(64), w=r.randrange(64))

def syms(R, n):
    return [G.SYMS[i] for i in R.randint(0, 5, n)]

def world(s):
    R = G.rs(s['seed'], s['natoms'], 91)
    n, m = s['natoms'], s['nstep']
    c = G.cell(R)
    w = dict(symbols=syms(R, n), cell0=c, cell=np.array([c * (1 + .003 * i) + R.uniform(-.02, .02, (3, 3)) for i in range(m + 1)]),
             frac=R.uniform(-.3, 1.2, (m + 1, n, 3)), forces=R.normal(size=(m + 1, n, 3)) * 10.0 ** R.randint(-4, 1), vel=R.normal(size=(m + 1, n, 3)) * 1e-3,
             etot=-20 - 3 * n + R.normal(size=m + 1) * .01, ekin=np.abs(R.normal(size=m + 1)) * .1, temp=300 + R.normal(size=m + 1) * 30,
             econst=-19 - 3 * n + R.normal(size=m + 1) * .001, stress=R.normal(size=(m + 1, 3, 3)) * 50, nscf=R.randint(4, 30, m + 1))
    w['stress'] = w['stress'] + np.swapaxes(w['stress'], 1, 2)
    w['coords'] = np.array([np.dot(w['frac'][i], w['cell'][i]) for i in range(m + 1)])
    return w

def job(s):
    return {'pw_md': pw, 'pw_vcmd': pw, 'pw_scf': pw, 'cpmd': cpmd, 'cpmd_scf': cpmd_scf, 'cp2k': cp2k, 'cp2k_dcd': cp2k, 'cp2k_relax': cp2k, 'cp2k_scf': cp2k_scf,
            'lammps': lammps, 'lammps_dcd': lammps, 'cif': cif, 'pdb': pdb}[s['code']](s, world(s))

# ------------------------------------------------------------------ PWscf
def pw(s, w):
    c = consts()
    J = Job(); n = s['natoms']; v = s['v']
    scf = s['code'] == 'pw_scf'; vcmd = s['code'] == 'pw_vcmd'
    J.main = 'pw.out'
    J.parser = {'pw_md': 'PwMDOutputFile', 'pw_vcmd': 'PwVCMDOutputFile', 'pw_scf': 'PwSCFOutputFile'}[s['code']]
    J.reader = {'pw_md': 'read_pw_md', 'pw_vcmd': 'read_pw_vcmd', 'pw_scf': 'read_pw_scf'}[s['code']]
    cu = ['alat', 'crystal', 'bohr', 'angstrom'][v % 4]
    vc = vcmd or bool(v & 4)
    blocks = [1, 1, 1, 2, 7][(v >> 3) % 5]
    has_stress = (v >> 3) % 8 != 5
    alat_t, alat = F(5.0 + (s['seed'] % 100) / 33.0, '%11.4f')
    A = J.main
    o = lambda t, step=0: J.out(step, A, t)
    o('\n     Program PWSCF v.5.0      starts on  7Nov2012 at 17:33: 4\n\n     Waiting for input...\n\n')
    o('     bravais-lattice index     =            0\n     lattice parameter (alat)  =  %s  a.u.\n     unit-cell volume          =     285.1234 (a.u.)^3\n     number of atoms/cell      = %12d\n     number of atomic types    =            2\n     kinetic-energy cutoff     =      50.0000  Ry\n' % (alat_t, n))
    cell_b = w['cell0'] / alat
    t, cell2 = rows(cell_b, '%11.6f')
    o('     crystal axes: (cart. coord. in units of alat)\n' + ''.join('               a(%d) = (%s )  \n' % (i + 1, x.rstrip('\n')) for i, x in enumerate(t)) + '\n')
    c0 = np.dot(w['frac'][0], w['cell0']) / alat
    t, coords0 = rows(c0, '%12.7f')
    o('     site n.     atom                  positions (alat units)\n' + ''.join('%10d           %-2s  tau(%4d) = (%s  )\n' % (i + 1, w['symbols'][i], i + 1, x.rstrip('\n')) for i, x in enumerate(t)) + '\n')
    o('     number of k points=  %4d  Methfessel-Paxton smearing, width (Ry)=  0.0010\n\n' % (1 + s['seed'] % 343))
    J.static.update(natoms=n, symbols=w['symbols'], nkpoints=1 + s['seed'] % 343, alat=alat)
    J.static['_cell_2d'] = cell2
    def scfrun(k):
        t, e = F(w['etot'][k], '%17.8f')
        o('     Self-consistent Calculation\n\n     iteration #  1     ecut=    50.00 Ry     beta=0.70\n     total energy              = %s Ry\n     estimated scf accuracy    <       0.00123 Ry\n\n     End of self-consistent calculation\n\n' % t, k)
        o('!    total energy              = %s Ry\n     Harris-Foulkes estimate   = %s Ry\n     estimated scf accuracy    <          2.6E-10 Ry\n\n     convergence has been achieved in %3d iterations\n\n' % (t, t, w['nscf'][k]), k)
        txt = '     Forces acting on atoms (Ry/au):\n\n'
        f = None
        for b in range(blocks):
            if b:
                txt += ['     Dispersion contribution to forces\n', '     The ionic contribution  to forces\n'][b % 2]
            tt, ff = rows(w['forces'][k] * (1 if b == 0 else .1 * b), '%14.8f')
            if b == 0:
                f = ff
            for i, x in enumerate(tt):
                txt += '     atom %4d type %2d   force = %s' % (i + 1, 1 + i % 2, x)
        o(txt, k)
        o('\n     Total force =     0.123456     Total SCF correction =     0.000001\n\n', k)
        st = None
        if has_stress:
            tt, st = rows(w['stress'][k], '%10.2f')
            t2, _ = rows(w['stress'][k] / 147105.08, '%13.8f')
            o('\n     entering subroutine stress ...\n\n          total   stress  (Ry/bohr**3)                   (kbar)     P= %7.2f\n' % np.trace(w['stress'][k] / 3) +
              ''.join(t2[i].rstrip('\n') + '    ' + tt[i] for i in range(3)) + '\n', k)
            if blocks == 7:
                o('     kinetic stress (kbar)   3909.91      0.00      0.00\n                                0.00   3909.91      0.00\n                                0.00      0.00   3909.91\n\n', k)
        return e, f, st, int(w['nscf'][k])
    r0 = scfrun(0)
    if scf:
        J.static.update(etot=r0[0], forces=r0[1], nstep_scf=r0[3], coords=coords0 * alat, cell=cell2 * alat, scf_converged=True)
        if has_stress:
            J.static['stress'] = r0[2]
        o('     Writing output data file x.save\n\n     PWSCF        : 18.32s CPU time\n')
        return J
    J.first = r0
    t, dt = F(20.0 + s['seed'] % 7, '%8.2f')
    o('\n     Molecular Dynamics Calculation\n\n     Starting temperature  =   300.00 K\n\n     temperature is controlled by velocity rescaling\n\n     Time step             = %s a.u.,  0.9676 femto-seconds\n\n' % t)
    J.static['timestep'] = dt
    cells = ['alat', 'alat=', 'bohr', 'angstrom', ''][(v >> 2) % 5]
    for k in range(1, s['nstep'] + 1):
        o('     Entering Dynamics:    iteration = %5d\n                           time      =   %.4f pico-seconds\n\n\n' % (k, .001 * k), k)
        if vcmd:
            te, e = F(w['ekin'][k], '%15.8f'); tt, T = F(w['temp'][k], '%12.4f'); tc, ec = F(w['econst'][k], '%16.8f')
            o('     Ekin = %s Ry    T = %s K  Etot = %s\n\n' % (te, tt, tc), k)
            J.add('ekin', e); J.add('temperature', T); J.add('econst', ec)
        if vc:
            fac = {'alat': alat, 'alat=': alat, 'bohr': 1.0, 'angstrom': c.Angstrom / c.Bohr, '': alat}[cells]
            tt, cc = rows(w['cell'][k] / fac, '%14.9f')
            head = {'alat': ' (alat)', 'alat=': ' (alat= %11.8f)' % alat, '': ''}.get(cells, ' (%s)' % cells)
            o('CELL_PARAMETERS%s\n' % head + ''.join(tt) + '\n', k)
            if cells == 'alat=':
                J.add('cell', cc * float('%11.8f' % alat))
            elif cells == 'angstrom':
                J.add('cell', cc * c.Angstrom / c.Bohr)
            else:
                J.add('cell', cc * fac)
        x = {'alat': w['coords'][k] / alat, 'crystal': w['frac'][k], 'bohr': w['coords'][k], 'angstrom': w['coords'][k] * .53}[cu]
        tt, xx = rows(x, '%14.9f')
        o('ATOMIC_POSITIONS (%s)\n' % cu + ''.join('%-3s   %s' % (w['symbols'][i], t) for i, t in enumerate(tt)) + '\n\n', k)
        if cu == 'crystal':
            J.add('coords_frac', xx)
        else:
            J.add('coords', {'alat': xx * alat, 'bohr': xx, 'angstrom': xx * c.Angstrom / c.Bohr}[cu])
        if not vcmd:
            te, e = F(w['ekin'][k], '%15.8f'); tt, T = F(w['temp'][k], '%15.8f'); tc, ec = F(w['econst'][k], '%15.8f')
            o('     kinetic energy (Ekin) = %s Ry\n     temperature           = %s K \n     Ekin + Etot (const)   = %s Ry\n\n' % (te, tt, tc), k)
            J.add('ekin', e); J.add('temperature', T)
        o('     Linear momentum :    0.0000000000    0.0000000000    0.0000000000\n\n     Writing output data file x.save\n     NEW-OLD atomic charge density approx. for the potential\n\n', k)
        e, f, st, ns = scfrun(k)
        J.add('etot', e); J.add('forces', f)
        if st is not None:
            J.add('stress', st)
    o('     The maximum number of steps has been reached.\n\n     End of molecular dynamics calculation\n\n     PWSCF        : 18.32s CPU time\n', s['nstep'])
    if not vc:
        J.static['cell'] = cell2 * alat
    return J

# ------------------------------------------------------------------ CPMD
CPMD_KINDS = ['bo_lanczos', 'bo_odiis', 'cp', 'npt']

def cpmd_common(J, s, w):
    n = s['natoms']
    t, cell = rows(w['cell0'] / .529, '%20.12f')
    _, fr = rows(w['frac'][0], '%20.12f')
    ft, fr = rows(w['frac'][0], '%20.12f')
    ta, _ = rows(w['cell0'], '%20.12f')
    J.pre['GEOMETRY.scale'] = 'CELL MATRIX (BOHR)\n' + ''.join(t) + '\nCELL MATRIX (ANGSTROM)\n' + ''.join(ta) + '\nSCALED ATOMIC COORDINATES\n' + \
        ''.join(x.rstrip('\n') + '         %2s %6d\n' % (w['symbols'][i], i + 1) for i, x in enumerate(ft))
    ct, _ = rows(w['coords'][0] / .529, '%22.12f')
    vt, _ = rows(w['vel'][0], '%22.12f')
    J.pre['GEOMETRY'] = ''.join(ct[i].rstrip('\n') + '     ' + vt[i] for i in range(n))
    return cell, fr

def cpmd(s, w):
    J = Job(); n = s['natoms']; kind = CPMD_KINDS[s['v'] % 4]
    J.main = 'cpmd.out'; J.parser = 'CpmdMDOutputFile'; J.reader = 'read_cpmd_md'
    cell, _ = cpmd_common(J, s, w)
    o = lambda t, step=0: J.out(step, 'cpmd.out', t)
    t, dt = F(2.0 + s['seed'] % 5, '%8.4f')
    o(' PROGRAM CPMD STARTED AT: Tue Nov  6\n\n TIME STEP FOR ELECTRONS:                                  %s\n TIME STEP FOR IONS:                                       %s\n\n' % (t, t))
    J.static.update(natoms=n, symbols=w['symbols'], timestep=dt)
    ft = kind in ('bo_lanczos', 'bo_odiis') or (kind == 'cp' and bool(s['v'] & 4))
    npt = kind == 'npt'
    stress = kind in ('cp', 'npt') and bool(s['v'] & 24)
    if not npt:
        J.static['cell'] = cell
    restart = 1 + s['w'] % (s['nstep'] + 3)
    for f in ['ENERGIES', 'TRAJECTORY'] + (['FTRAJECTORY'] if ft else []) + (['CELL'] if npt else []) + (['STRESS'] if stress else []):
        J.out(0, f, '')
    for k in range(1, s['nstep'] + 1):
        e, ec, eh, T, ekc, ekh = [w[x][k] for x in ('etot', 'econst', 'econst', 'temp', 'ekin', 'ekin')]
        if k == restart and k > 1:
            for f in ['TRAJECTORY'] + (['FTRAJECTORY'] if ft else []):
                J.out(k, f, '     <<<<<<  NEW DATA  >>>>>>\n')
        if npt:
            ct, cc = rows(w['cell'][k] / .529, '%15.6f'); gt, _ = rows(w['stress'][k] * 1e-4, '%14.6f')
            J.out(k, 'CELL', '   CELL PARAMETERS at Step:%12d\n' % k + ''.join(ct[i].rstrip('\n') + '      ' + gt[i] for i in range(3)))
            J.add('cell', cc)
        ct, cc = rows(w['coords'][k] / .529, '%24.14f'); vt, vv = rows(w['vel'][k], '%24.14f'); gt, gg = rows(w['forces'][k], '%24.14f')
        J.out(k, 'TRAJECTORY', ''.join('%7d' % k + ct[i].rstrip('\n') + vt[i] for i in range(n)))
        if ft:
            J.out(k, 'FTRAJECTORY', ''.join('%7d' % k + ct[i].rstrip('\n') + vt[i].rstrip('\n') + gt[i] for i in range(n)))
            J.add('forces', gg)
        J.add('coords', cc); J.add('velocity', vv)
        et, ev = F(e, '%17.10f'); at, av = F(ec, '%17.10f'); ht, hv = F(eh + .25, '%17.10f'); Tt, Tv = F(T, '%10.3f'); kt, kv = F(ekc * 1e-3, '%12.8f'); gt, gv = F(ekh * 1e-4, '%12.8f')
        dt_, _ = F(1e-4 * k, '%15.6E'); tc, _ = F(.17 + k, '%9.2f')
        col = {'bo_lanczos': [Tt, et, at, dt_, tc], 'bo_odiis': [kt, Tt, et, at, ht, dt_, tc], 'cp': [kt, Tt, et, at, ht, dt_, tc], 'npt': [kt, gt, Tt, et, at, ht, dt_, tc]}[kind]
        J.out(k, 'ENERGIES', '%10d' % k + ' '.join(col) + '\n')
        J.add('etot', ev); J.add('ekin', av); J.add('temperature', Tv)
        J.add('econst', ev if kind == 'bo_lanczos' else hv)
        if kind != 'bo_lanczos':
            J.add('ekin_elec', kv)
        if npt:
            from pwtools import constants as c
            J.add('ekin_cell', gv); J.add('temperature_cell', gv * 2.0 / 9.0 / c.kb * c.Ha)
        if stress:
            tt, st = rows(w['stress'][k], '%20.8f', pre='   ')
            J.out(k, 'STRESS', '   TOTAL STRESS TENSOR (kB): Step:%12d\n' % k + ''.join(tt))
            J.add('stress', st)
        o('%10d %s\n' % (k, ' '.join(col[:4])), k)
    o(' RESTART INFORMATION WRITTEN ON FILE                  ./RESTART.1\n  * PROGRAM CPMD ENDED\n', s['nstep'])
    return J

def cpmd_scf(s, w):
    J = Job(); n = s['natoms']
    J.main = 'cpmd.out'; J.parser = 'CpmdSCFOutputFile'; J.reader = 'read_cpmd_scf'
    cell, fr = cpmd_common(J, s, w)
    o = lambda t, step=0: J.out(step, 'cpmd.out', t)
    o(' PROGRAM CPMD STARTED AT: Tue Nov  6\n NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES):%4d\n' % (s['seed'] % 30 + 1))
    # initial guess: coordinates, zero gradients and energy in the same format
    def block(force):
        g = [['%12.3E' % (x if force else 0.0) for x in w['forces'][0][i]] for i in range(n)]
        return '\n   ATOM          COORDINATES            GRADIENTS (-FORCES)\n' + ''.join('%4d %2s %s %s\n' % (i + 1, w['symbols'][i], ' '.join('%8.4f' % x for x in w['coords'][0][i]), ' '.join(g[i])) for i in range(n)) + ' \n', np.array([[float(x) for x in r] for r in g])
    t0, e0 = F(w['etot'][0] + 5.0 + s['seed'] % 7, '%20.8f')
    head, _ = block(False)
    if s['w'] % 4:                      # (printed only with some options)
        o(head + ' FORCES INITIALIZATION:  0.02 SECONDS\n\n (K+E1+L+N+X)           TOTAL ENERGY = %s A.U.\n (K)                  KINETIC ENERGY =            7.97763674 A.U.\n' % t0)
    o(' NFI      GEMAX       CNORM           ETOT        DETOT      TCPU\n')
    for k in range(1, int(w['nscf'][0]) + 1):
        o('   %4d  1.0E-08   1.0E-09     -22.1    1.0E-10      0.11\n' % k)
    o(' \n RESTART INFORMATION WRITTEN ON FILE                  ./RESTART.1\n')
    tail, gg = block(True)
    o('\n ****************************************************************\n *                        FINAL RESULTS                         *\n ****************************************************************\n')
    o(tail)
    t, e = F(w['etot'][0], '%20.8f')
    o('\n (K+E1+L+N+X)           TOTAL ENERGY = %s A.U.\n (K)                  KINETIC ENERGY =            8.70567076 A.U.\n' % t)
    J.static.update(natoms=n, symbols=w['symbols'], cell=cell, coords_frac=fr, etot=e, forces=gg, nkpoints=s['seed'] % 30 + 1, nstep_scf=int(w['nscf'][0]), scf_converged=True)
    if s['v'] & 1:
        tt, st = rows(w['stress'][0], '%20.8E')
        o(' TOTAL STRESS TENSOR (kBar):\n' + ''.join(tt))
        J.static['stress'] = st
    return J

# ------------------------------------------------------------------ CP2K
def cp2k_pre(J, s, n, run):
    o = lambda t, step=0: J.out(step, 'cp2k.out', t)
    o(' GLOBAL| Preferred FFT library                                             FFTW3\n GLOBAL| Run type                                                     %8s\n GLOBAL| Global print level                                                  LOW\n' % run)
    return o

def cp2k(s, w):
    J = Job(); n = s['natoms']; v = s['v']; dcd = s['code'] == 'cp2k_dcd'; relax = s['code'] == 'cp2k_relax'
    J.main = 'cp2k.out'
    J.parser = {'cp2k': 'Cp2kMDOutputFile', 'cp2k_dcd': 'Cp2kDcdMDOutputFile', 'cp2k_relax': 'Cp2kRelaxOutputFile'}[s['code']]
    J.reader = {'cp2k': 'read_cp2k_md', 'cp2k_dcd': 'read_cp2k_md_dcd', 'cp2k_relax': 'read_cp2k_relax'}[s['code']]
    o = cp2k_pre(J, s, n, 'CELL_OPT' if relax else 'MD')
    t, dt = F(.5 * (1 + s['seed'] % 5), '%10.2f')
    if not relax:
        o(' MD| Ensemble Type                                                         NPT_F\n MD| Number of Time Steps                                                     10\n MD| Time Step [fs]                                                   %s\n MD| Temperature [K]                                                     1500.00\n' % t)
        J.static['timestep'] = dt
        o('                                                      Number of atoms:%10d\n' % n)
    J.static.update(natoms=n, symbols=w['symbols'])
    frcfile = bool(v & 1) and not relax; velfile = bool(v & 2) and not relax; stress = bool(v & 4)
    if not relax:
        J.out(0, 'PROJECT-1.ener', '#     Step Nr.          Time[fs]        Kin.[a.u.]          Temp[K]            Pot.[a.u.]        Cons Qty[a.u.]        UsedTime[s]\n')
    J.out(0, 'PROJECT-1.cell', '#   Step   Time [fs]       Ax [Angstrom]       Ay [Angstrom]       Az [Angstrom]       Bx [Angstrom]     Volume [Angstrom^3]\n')
    if stress:
        J.out(0, 'PROJECT-1.stress', '#   Step   Time [fs]            xx [bar]            xy [bar]            xz [bar]\n')
    pos = 'PROJECT-pos-1.xyz'
    if dcd:
        pos = 'PROJECT-pos-1.dcd'
        J.out(0, pos, dcdfile.header(n, 0, dt))
    m = s['nstep'] + (1 if relax else 0)
    def xyz(k, a, step):
        tt, aa = rows(a, '%20.10f')
        return '%8d\n i = %8d,%s E = %20.10f\n' % (n, k, '' if relax else ' time = %12.3f,' % (dt * k), w['etot'][min(k, s['nstep'])]) + ''.join('%3s%s' % (w['symbols'][i], t) for i, t in enumerate(tt)), aa
    if dcd:
        J.extra_sym = True
    for i in range(m):
        k = min(i, s['nstep'])
        tt, ff = rows(w['forces'][k], '%15.8f')
        frc = '\n ATOMIC FORCES in [a.u.]\n\n # Atom   Kind   Element          X              Y              Z\n' + ''.join('%7d%7d      %-2s    %s' % (j + 1, 1 + j % 2, w['symbols'][j], t) for j, t in enumerate(tt)) + ' SUM OF ATOMIC FORCES          -0.00000449     0.00000280    -0.00125210     0.00125211\n\n'
        o(frc, i)
        if frcfile or dcd:
            t2, ff = xyz(i, w['forces'][k], i)
            J.out(i, 'PROJECT-frc-1.xyz', t2)
        J.add('forces', ff)
        if dcd:
            cc = np.hstack([[3 + .1 * k, 4 + .2 * k, 5.5 + .05 * k], [80 + .3 * k, 95 - .2 * k, 100 + .1 * k]])
            x = w['coords'][k].astype(np.float32)
            J.out(i, pos, dcdfile.frame(cc, x))
            J.add('cryst_const', cc); J.add('coords', x)
        else:
            t2, xx = xyz(i, w['coords'][k], i)
            J.out(i, pos, t2)
            J.add('coords', xx)
        if velfile or dcd:
            t2, vv = xyz(i, w['vel'][k], i)
            J.out(i, 'PROJECT-vel-1.xyz', t2)
            J.add('velocity', vv)
        if not relax:
            et, ev = F(w['etot'][k], '%19.9f'); ct, cv = F(w['econst'][k], '%19.9f'); kt, kv = F(w['ekin'][k], '%19.9f'); Tt, Tv = F(w['temp'][k], '%18.9f')
            J.out(i, 'PROJECT-1.ener', '%10d%20.6f %s%s%s%s%20.9f\n' % (i, dt * i, kt, Tt, et, ct, 1.1 + k))
            J.add('etot', ev); J.add('econst', cv); J.add('ekin', kv); J.add('temperature', Tv)
        else:
            J.add('etot', float('%20.10f' % w['etot'][k]))
        if not (relax and i == m - 1):
            c9 = ['%20.10f' % x for x in w['cell'][k].reshape(-1)]
            vt, vol = F(abs(np.linalg.det(w['cell'][k])), '%25.10f')
            J.out(i, 'PROJECT-1.cell', '%8d%12.3f%s%s\n' % (i, dt * i, ''.join(c9), vt))
            cc = np.array([float(x) for x in c9]).reshape(3, 3)
            if not dcd:
                J.add('cell', cc)
            if stress:
                c9 = ['%20.10f' % x for x in (w['stress'][k] * 1e3).reshape(-1)]
                J.out(i, 'PROJECT-1.stress', '%8d%12.3f%s\n' % (i, dt * i, ''.join(c9)))
                J.add('stress', np.array([float(x) for x in c9]).reshape(3, 3))
        else:
            if not dcd:
                J.add('cell', cc)
        o(' *******************************************************************************\n ENSEMBLE TYPE                =                                            NPT_F\n STEP NUMBER                  = %48d\n' % i, i)
    return J

def cp2k_scf(s, w):
    J = Job(); n = s['natoms']
    J.main = 'cp2k.out'; J.parser = 'Cp2kSCFOutputFile'; J.reader = 'read_cp2k_scf'
    o = cp2k_pre(J, s, n, 'ENERGY_FORCE')
    t, e = F(w['etot'][0], '%21.12f')
    o(' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):       %s\n\n' % t)
    tt, ff = rows(w['forces'][0], '%15.8f')
    o(' ATOMIC FORCES in [a.u.]\n\n # Atom   Kind   Element          X              Y              Z\n' + ''.join('%7d%7d      %-2s    %s' % (j + 1, 1 + j % 2, w['symbols'][j], t) for j, t in enumerate(tt)) + ' SUM OF ATOMIC FORCES          -0.00000449     0.00000280    -0.00125210     0.00125211\n\n')
    tt, st = rows(w['stress'][0], '%20.8f')
    o(' STRESS TENSOR [GPa]\n\n            X               Y               Z\n' + ''.join('  %s %s' % ('XYZ'[i], tt[i]) for i in range(3)) + '\n 1/3 Trace(STRESS TENSOR):   1.0\n')
    J.static.update(natoms=n, symbols=w['symbols'], etot=e, forces=ff, stress=st)
    return J

# ---------------------------------------------------------------- LAMMPS
def lmp_cell(w, k):
    c = w['cell'][k]
    return dict(x=4 + abs(c[0, 0]) * .3, y=4 + abs(c[1, 1]) * .3, z=4 + abs(c[2, 2]) * .3, xy=c[0, 1], xz=c[0, 2], yz=c[1, 2])

def lammps(s, w):
    J = Job(); n = s['natoms']; v = s['v']; dcd = s['code'] == 'lammps_dcd'
    J.main = 'log.lammps'
    J.parser = 'LammpsDcdMDOutputFile' if dcd else 'LammpsTextMDOutputFile'
    J.reader = 'read_lammps_md_dcd' if dcd else 'read_lammps_md_txt'
    us = []
    for x in w['symbols']:
        if x not in us: us.append(x)
    o = lambda t, step=0: J.out(step, 'log.lammps', t)
    cols = 'Temp Volume Cella Cellb Cellc CellAlpha CellBeta CellGamma KinEng PotEng TotEng Press Pxx Pyy Pzz Pxy Pxz Pyz'.split()
    if v & 1:
        cols = [c for c in cols if not c.startswith('P') or c == 'PotEng']
    if v & 2:
        cols = cols + ['CPU']
    if v & 4:
        cols = cols[::-1]
    cols = ['Step'] + cols
    dt_t, dt = F(.5e-3 * (1 + s['seed'] % 4), '%.4g')
    symsrc = (v >> 3) % 2
    o('LAMMPS (11 Nov 2013)\n  using 1 OpenMP thread(s) per MPI task\nunits metal\nread_data lmp.struct\n  %d atoms\ndump dump_txt all custom 1 lmp.out.dump id type xsu ysu zsu xu yu zu fx fy fz vx vy vz\n' % n)
    if symsrc == 1 or dcd:
        o('dump_modify dump_xyz element %s\n' % ' '.join(us))
    if symsrc == 0:
        J.pre['lmp.struct.symbols'] = '\n'.join(w['symbols'])
    o('timestep %s\nrun %d\nMemory usage per processor = 1.73467 Mbytes\n' % (dt_t, s['nstep']))
    o(' '.join(cols) + ' \n')
    J.static.update(natoms=n, symbols=w['symbols'], timestep=dt)
    dcols = 'id type xu yu zu fx fy fz vx vy vz xsu ysu zsu'.split()
    if v & 16:
        dcols = 'id type xsu ysu zsu xu yu zu'.split()
    J.out(0, 'lmp.out.dump', '')
    if dcd:
        J.out(0, 'lmp.out.dcd', dcdfile.header(n, s['nstep'], dt))
    for i in range(s['nstep']):
        k = i
        L = lmp_cell(w, k)
        lo = .1 * k - .05
        xb = (lo + min(0, L['xy'], L['xz'], L['xy'] + L['xz']), lo + L['x'] + max(0, L['xy'], L['xz'], L['xy'] + L['xz']), L['xy'])
        yb = (lo + min(0, L['yz']), lo + L['y'] + max(0, L['yz']), L['xz'])
        zb = (lo, lo + L['z'], L['yz'])
        tt, bb = rows([xb, yb, zb], '%.6g', ' ')
        txt = 'ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS xy xz yz pp pp pp\n' % (i, n) + ''.join(tt)
        data = {'id': np.arange(1, n + 1), 'type': np.array([us.index(x) + 1 for x in w['symbols']])}
        for q, a in (('x', 'coords'), ('f', 'forces'), ('v', 'vel'), ('s', 'frac')):
            for j, d in enumerate('xyz'):
                name = {'x': d + 'u', 'f': 'f' + d, 'v': 'v' + d, 's': d + 'su'}[q]
                data[name] = np.array([float('%.6g' % x) for x in w[a][k][:, j]])
        txt += 'ITEM: ATOMS ' + ' '.join(dcols) + ' \n'
        for j in range(n):
            txt += ' '.join('%.6g' % data[c][j] for c in dcols) + ' \n'
        J.out(i, 'lmp.out.dump', txt)
        b = bb
        xy, xz, yz = b[0, 2], b[1, 2], b[2, 2]
        cell = np.zeros((3, 3))
        cell[0, 0] = (b[0, 1] - max(0, xy, xz, xy + xz)) - (b[0, 0] - min(0, xy, xz, xy + xz))
        cell[1, 1] = (b[1, 1] - max(0, yz)) - (b[1, 0] - min(0, yz))
        cell[2, 2] = b[2, 1] - b[2, 0]
        cell[1, 0], cell[2, 0], cell[2, 1] = xy, xz, yz
        st = lambda *c: np.array([data[x] for x in c]).T
        if dcd:
            x = w['coords'][k].astype(np.float32)
            cosa = np.array([.1 + .01 * k, -.2, .05])
            cc = np.array([4 + .1 * k, 5, 6 + .1 * k])
            J.out(i, 'lmp.out.dcd', dcdfile.frame(np.hstack([cc, cosa]), x))
            J.add('coords', x); J.add('cryst_const', np.hstack([cc, np.arccos(cosa) * 180 / np.pi]))
        else:
            J.add('cell', cell)
            J.add('coords', st('xu', 'yu', 'zu')); J.add('coords_frac', st('xsu', 'ysu', 'zsu'))
            if 'fx' in dcols:
                J.add('forces', st('fx', 'fy', 'fz')); J.add('velocity', st('vx', 'vy', 'vz'))
        val = dict(Step=i, Temp=w['temp'][k], Volume=130 + k * .1, Cella=5 + .1 * k, Cellb=5.5 + .01 * k, Cellc=6 - .01 * k, CellAlpha=60 + .1 * k, CellBeta=70 + .1 * k, CellGamma=80 - .1 * k,
                   KinEng=w['ekin'][k], PotEng=w['etot'][k], TotEng=w['etot'][k] + w['ekin'][k], Press=100 * w['stress'][k][0, 0], CPU=.1 * i)
        for p, (a, c) in dict(Pxx=(0, 0), Pyy=(1, 1), Pzz=(2, 2), Pxy=(0, 1), Pxz=(0, 2), Pyz=(1, 2)).items():
            val[p] = 1e3 * w['stress'][k][a, c]
        t = {c: ('%8d' if c == 'Step' else '%12.8g') % val[c] for c in cols}
        o(' '.join(t[c] for c in cols) + ' \n', i)
        f = {c: float(t[c]) for c in cols}
        J.add('temperature', f['Temp']); J.add('etot', f['PotEng']); J.add('ekin', f['KinEng'])
        if not dcd:
            J.add('volume', f['Volume'])
            J.add('cryst_const', np.array([f[c] for c in 'Cella Cellb Cellc CellAlpha CellBeta CellGamma'.split()]))
        if 'Pxx' in f:
            J.add('stress', np.array([[f['Pxx'], f['Pxy'], f['Pxz']], [f['Pxy'], f['Pyy'], f['Pyz']], [f['Pxz'], f['Pyz'], f['Pzz']]]))
    o('Loop time of 0.175041 on 1 procs (1 MPI x 1 OpenMP) for %d steps with %d atoms\n\nPair  time (%%) = 0.123985 (70.8319)\n' % (s['nstep'], n), s['nstep'])
    return J

# ------------------------------------------------------- structure files
def cif(s, w):
    """one or two data blocks; fractional or cartesian coordinates, with or
    without errors in brackets, type symbols or labels only"""
    J = Job(); v = s['v']
    J.main = 'x.cif'; J.parser = 'CifFile'; J.reader = 'read_cif'
    txt = ''
    for b in range(1 + v % 2):
        n = s['natoms'] + b
        R = G.rs(s['seed'], n, b, 5)
        sy = syms(R, n)
        cc = np.concatenate([R.uniform(3, 9, 3), R.uniform(60, 110, 3)])
        br = '(7)' if v & 2 else ''
        t = ['%.4f' % x for x in cc]
        txt += 'data_b%d\n' % b + ''.join('_cell_%s %s%s\n' % (k, x, br) for k, x in zip(['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'], t))
        frac = not v & 4
        xs = R.uniform(0, 1, (n, 3)) if frac else R.uniform(0, 5, (n, 3))
        lab = bool(v & 8)
        txt += 'loop_\n_atom_site_label\n' + ('' if lab else '_atom_site_type_symbol\n') + ''.join('_atom_site_%s_%s\n' % ('fract' if frac else 'Cartn', c) for c in 'xyz')
        tt, xv = rows(xs, '%.6f', ' ')
        txt += ''.join('%s%d %s%s' % (sy[i], i + 1, '' if lab else sy[i] + ' ', tt[i]) for i in range(n)) + '\n'
        if b == 0:
            J.static.update(symbols=sy, cryst_const=np.array([float(x) for x in t]))
            J.static['coords_frac' if frac else 'coords'] = xv
    J.out(0, J.main, txt)
    return J

def pdb(s, w):
    J = Job(); n = s['natoms']; v = s['v']
    J.main = 'x.pdb'; J.parser = 'PDBFile'; J.reader = 'read_pdb'
    R = G.rs(s['seed'], n, 6)
    cc = np.concatenate([R.uniform(3, 9, 3), R.uniform(60, 110, 3)])
    t = ['%9.3f' % x for x in cc[:3]] + ['%7.2f' % x for x in cc[3:]]
    txt = 'TITLE     generated\nCRYST1' + ''.join(t) + ' P 1           1\n'
    tt, xv = rows(R.uniform(-9, 9, (n, 3)), '%8.3f')
    sy = syms(R, n)
    for i in range(n):
        txt += '%-6s%5d %4s              %s  1.00  0.00\n' % (['ATOM', 'HETATM'][(i + v) % 2], i + 1, sy[i].upper(), tt[i].rstrip('\n'))
    J.static.update(symbols=sy, coords=xv, cryst_const=np.array([float(x) for x in t]))
    J.out(0, J.main, txt + 'END\n')
    return J
