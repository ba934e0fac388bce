"""Stand-in for pw.x and lmp, run as a program of its own (standard library
only).  Reads the real input files which the calculators write and computes a
Gaussian pair potential over the periodic lattice; everything in the input
which is a physical parameter scales the result, so a result belongs to exactly
one set of atoms and parameters.

usage: fakeqm.py pw|lmp [arguments of the program]
FAKE_MODE: ok | exit<n> | partial<permille>:<exit code or -signal> | fullexit<n>
           | noconv | dumpcut<permille> | dumpnone
"""
import math, os, signal, sys, zlib

SIGMA = 1.3

def z(sym):
    return 2.0 + zlib.crc32(('sym:' + sym).encode()) % 1000 / 1000.0

def factor(*params):
    return 0.5 + zlib.crc32(repr(params).encode()) % 100000 / 100000.0

def potential(cell, frac, q):
    """-> energy, forces, dE/dstrain (3x3) of sum_pairs q_i q_j exp(-r^2/s^2)"""
    n = len(frac)
    F = [[0.0] * 3 for i in range(n)]
    W = [[0.0] * 3 for i in range(3)]
    E = 0.0
    for i in range(n):
        for j in range(i, n):
            d = [frac[j][k] - frac[i][k] for k in range(3)]
            d = [x - math.floor(x + 0.5) for x in d]
            for a in range(-3, 4):
                for b in range(-3, 4):
                    for c in range(-3, 4):
                        if i == j and (a, b, c) == (0, 0, 0):
                            continue
                        u = (d[0] + a, d[1] + b, d[2] + c)
                        x = [u[0] * cell[0][k] + u[1] * cell[1][k] + u[2] * cell[2][k] for k in range(3)]
                        r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
                        if r2 > 70.0:
                            continue
                        w = 0.5 if i == j else 1.0
                        e = w * q[i] * q[j] * math.exp(-r2 / SIGMA**2)
                        E += e
                        g = -2.0 / SIGMA**2 * e         # dE/dx = g x
                        for k in range(3):
                            if i != j:
                                F[j][k] -= g * x[k]
                                F[i][k] += g * x[k]
                            for l in range(3):
                                W[k][l] += g * x[k] * x[l]
    return E, F, W

def det(c):
    return (c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[2][1])
            - c[0][1] * (c[1][0] * c[2][2] - c[1][2] * c[2][0])
            + c[0][2] * (c[1][0] * c[2][1] - c[1][1] * c[2][0]))

def inv(c):
    d = det(c)
    m = [[0.0] * 3 for i in range(3)]
    for i in range(3):
        for j in range(3):
            a = [r for r in range(3) if r != j]
            b = [s for s in range(3) if s != i]
            m[i][j] = (-1) ** (i + j) * (c[a[0]][b[0]] * c[a[1]][b[1]] - c[a[0]][b[1]] * c[a[1]][b[0]]) / d
    return m

def vm(v, m):
    return [sum(v[k] * m[k][j] for k in range(3)) for j in range(3)]

def pwfactor(p, k):
    return factor(*[p[x] for x in ('ecutwfc', 'ecutrho', 'electron_maxstep', 'diagonalization', 'mixing_mode', 'mixing_beta', 'conv_thr', 'tot_charge')] + list(k))

def ppfactor(dr, pp):
    return factor('pp', dr, pp)

class Bad(Exception):
    pass

# ------------------------------------------------------------------ pw.x
BOHR = 0.52917720859
RY = 13.60569193

def pw(argv, stdin):
    txt = None
    for i, a in enumerate(argv):
        if a in ('-input', '-in', '-inp', '-i'):
            txt = open(argv[i + 1]).read()
    if txt is None:
        txt = stdin.read()
    p = {}
    lines = txt.split('\n')
    i = 0
    nml = None
    while i < len(lines):
        s = lines[i].strip()
        if s.startswith('&'):
            nml = s[1:].lower()
        elif s == '/':
            nml = None
        elif nml and '=' in s:
            k, v = s.rstrip(',').split('=', 1)
            v = v.strip()
            if v.startswith("'"):
                v = v.strip("'")
            elif v.startswith('.'):
                v = v == '.true.'
            else:
                v = float(v)
            p[k.strip().lower()] = v
        elif s.split() and s.split()[0] == 'ATOMIC_SPECIES':
            break
        i += 1
    nat, ntyp = int(p['nat']), int(p['ntyp'])
    p.setdefault('tot_charge', 0.0)
    p.setdefault('ecutrho', 4 * p['ecutwfc'])
    if p['calculation'] != 'scf' or p['ibrav'] != 0 or p['tstress'] is not True or p['tprnfor'] is not True:
        raise Bad('control')
    sec = {}
    cur = None
    for l in lines[i:]:
        w = l.split()
        if w and w[0] in ('ATOMIC_SPECIES', 'CELL_PARAMETERS', 'ATOMIC_POSITIONS', 'K_POINTS'):
            cur = w[0]; sec[cur] = [w[1:]]
        elif w:
            sec[cur].append(w)
    sp = dict((w[0], w[2]) for w in sec['ATOMIC_SPECIES'][1:])
    if len(sp) != ntyp:
        raise Bad('ntyp')
    if sec['CELL_PARAMETERS'][0] != ['angstrom'] or sec['ATOMIC_POSITIONS'][0] != ['crystal'] or sec['K_POINTS'][0] != ['automatic']:
        raise Bad('units')
    cell = [[float(x) for x in w] for w in sec['CELL_PARAMETERS'][1:4]]
    at = sec['ATOMIC_POSITIONS'][1:]
    if len(at) != nat:
        raise Bad('nat')
    syms = [w[0] for w in at]
    if set(syms) != set(sp):
        raise Bad('species')
    frac = [[float(x) for x in w[1:4]] for w in at]
    k = [int(x) for x in sec['K_POINTS'][1][:6]]
    f = pwfactor(p, k)
    q = [z(s) * ppfactor(p['pseudo_dir'], sp[s]) for s in syms]
    E, F, W = potential(cell, frac, q)
    alat = math.sqrt(sum(x * x for x in cell[0]))
    V = abs(det(cell))
    o = ['', '     Program PWSCF v.6.7 starts ...', '     bravais-lattice index     =            0',
         '     lattice parameter (alat)  =      %.8f  a.u.' % (alat / BOHR),
         '     number of atoms/cell      =            %d' % nat, '     number of atomic types    =            %d' % ntyp,
         '     crystal axes: (cart. coord. in units of alat)']
    for i in range(3):
        o.append('               a(%d) = (  %.10f  %.10f  %.10f )  ' % ((i + 1,) + tuple(x / alat for x in cell[i])))
    o += ['', '   Cartesian axes', '', '     site n.     atom                  positions (alat units)']
    for i in range(nat):
        o.append('         %d           %-2s  tau(%4d) = (  %.10f  %.10f  %.10f  )' % ((i + 1, syms[i], i + 1) + tuple(x / alat for x in vm(frac[i], cell))))
    o += ['', '     number of k points=    1', '', '     total energy              =     -1.00000000 Ry', '     End of self-consistent calculation', '']
    mode = os.environ.get('FAKE_MODE', 'ok')
    if mode == 'noconv':
        o += ['     convergence NOT achieved after   1 iterations: stopping', '', '   JOB DONE.', '']
        return ('\n'.join(o)), None, 0
    o += ['!    total energy              =     %.10f Ry' % (f * E / RY), '     Harris-Foulkes estimate   =     -1.0 Ry', '',
          '     convergence has been achieved in   6 iterations', '', '     Forces acting on atoms (cartesian axes, Ry/au):', '']
    for i in range(nat):
        o.append('     atom %4d type %2d   force =  %.10f  %.10f  %.10f' % ((i + 1, 1) + tuple(f * x / RY * BOHR for x in F[i])))
    o += ['', '     Total force =     0.100000     Total SCF correction =     0.000000', '', '     Computing stress (Cartesian axis) and pressure', '']
    S = [[-f * W[i][j] / V * 1602.176487 for j in range(3)] for i in range(3)]
    o.append('          total   stress  (Ry/bohr**3)                   (kbar)     P=   %.2f' % (sum(S[i][i] for i in range(3)) / 3))
    for i in range(3):
        o.append('   0.00000000   0.00000000   0.00000000    %.8f  %.8f  %.8f' % tuple(S[i]))
    o += ['', '     Writing output data file', '', '=------------------------------------------------------------------------------=', '   JOB DONE.',
          '=------------------------------------------------------------------------------=', '']
    return '\n'.join(o), None, 0

# ------------------------------------------------------------------- lmp
def lmp(argv, stdin):
    txt = None
    for i, a in enumerate(argv):
        if a in ('-in', '-i'):
            txt = open(argv[i + 1]).read()
    if txt is None:
        txt = stdin.read()
    cmd = {}
    for l in txt.replace('&\n', ' ').split('\n'):
        w = l.split('#')[0].split()
        if w:
            cmd.setdefault(w[0], []).append(w[1:])
    if cmd['units'] != [['metal']] or cmd['boundary'] != [['p', 'p', 'p']] or cmd['run'] != [['0']] or len(cmd['read_data'][0]) != 1:
        raise Bad('input')
    data = [l.split() for l in open(cmd['read_data'][0][0]).read().split('\n')[1:]]
    n = nt = 0
    hi = {}; tilt = [0.0] * 3; atoms = {}; masses = {}; sec = None
    for w in data:
        if not w:
            continue
        if w[1:] == ['atoms']:
            n = int(w[0])
        elif w[1:] == ['atom', 'types']:
            nt = int(w[0])
        elif w[-1] in ('xhi', 'yhi', 'zhi'):
            if float(w[0]) != 0:
                raise Bad('lo')
            hi[w[-1]] = float(w[1])
        elif w[-1] == 'yz':
            tilt = [float(x) for x in w[:3]]
        elif w[0] in ('Atoms', 'Masses'):
            sec = w[0]
        elif sec == 'Atoms':
            atoms[int(w[0])] = (int(w[1]), [float(x) for x in w[2:5]])
        elif sec == 'Masses':
            masses[int(w[0])] = float(w[1])
    cell = [[hi['xhi'], 0.0, 0.0], [tilt[0], hi['yhi'], 0.0], [tilt[1], tilt[2], hi['zhi']]]
    if sorted(atoms) != list(range(1, n + 1)) or sorted(masses) != list(range(1, nt + 1)):
        raise Bad('data file')
    pc = cmd['pair_coeff'][0]
    el = pc[3:]
    if pc[:2] != ['*', '*'] or len(el) != nt:
        raise Bad('Incorrect args for pair coefficients')
    f = factor(tuple(cmd['pair_style'][0]), tuple(pc))
    ci = inv(cell)
    frac = [vm(atoms[i][1], ci) for i in range(1, n + 1)]
    q = [z(el[atoms[i][0] - 1]) for i in range(1, n + 1)]
    E, F, W = potential(cell, frac, q)
    V = abs(det(cell))
    d = cmd['dump'][0]
    dump = ['ITEM: TIMESTEP', '0', 'ITEM: NUMBER OF ATOMS', '%d' % n, 'ITEM: BOX BOUNDS xy xz yz pp pp pp']
    xy, xz, yz = tilt
    for lo, h, t in ((min(0, xy, xz, xy + xz), cell[0][0] + max(0, xy, xz, xy + xz), xy), (min(0, yz), cell[1][1] + max(0, yz), xz), (0.0, cell[2][2], yz)):
        dump.append('%.16e %.16e %.16e' % (lo, h, t))
    cols = d[5:]
    dump.append('ITEM: ATOMS ' + ' '.join(cols))
    order = list(range(n))
    if not any(w[1:] == ['sort', 'id'] for w in cmd.get('dump_modify', [])):
        order.reverse()
    for i in order:
        v = dict(id='%d' % (i + 1), type='%d' % atoms[i + 1][0])
        for k, c in enumerate('xyz'):
            v[c + 'u'] = '%.10g' % atoms[i + 1][1][k]
            v['f' + c] = '%.10g' % (f * F[i][k])
        dump.append(' '.join(v[c] for c in cols) + ' ')
    S = [[-f * W[i][j] / V * 1602176.487 for j in range(3)] for i in range(3)]
    names = dict(step='Step', temp='Temp', vol='Volume', cella='Cella', cellb='Cellb', cellc='Cellc', cellalpha='CellAlpha', cellbeta='CellBeta', cellgamma='CellGamma',
                 pe='PotEng', pxx='Pxx', pyy='Pyy', pzz='Pzz', pxy='Pxy', pxz='Pxz', pyz='Pyz')
    th = cmd['thermo_style'][0][1:]
    val = dict((k, '1') for k in names)
    val.update(step='0', temp='0', pe='%.12g' % (f * E), vol='%.10g' % V)
    for a in range(3):
        for b in range(a, 3):
            val['p' + 'xyz'[a] + 'xyz'[b]] = '%.10g' % S[a][b]
    for i, k in enumerate(('cella', 'cellb', 'cellc')):
        val[k] = '%.10g' % math.sqrt(sum(x * x for x in cell[i]))
    o = ['LAMMPS (7 Feb 2024 - Update 1)', 'Reading data file ...', '  %d atoms' % n, 'Setting up Verlet run ...', '  Unit style    : metal', '  Current step  : 0']
    o2 = ['   ' + '   '.join(names[k] for k in th), '   ' + '   '.join(val[k] for k in th), 'Loop time of 1e-06 on 1 procs for 0 steps with %d atoms' % n, '', 'Total wall time: 0:00:00', '']
    if zlib.crc32(txt.encode()) % 2:
        o2[0] = o2[0].strip(); o2[1] = '       ' + o2[1].strip()
    return '\n'.join(o) + '\n' + '\n'.join(o2), (d[4], '\n'.join(dump) + '\n', len('\n'.join(o)) + 1), 0

def finish(code):
    if code < 0:
        signal.signal(-code, signal.SIG_DFL)
        os.kill(os.getpid(), -code)
    os._exit(code)

def write(fd, s):
    b = s.encode()
    while b:
        b = b[os.write(fd, b):]

def main(argv):
    mode = os.environ.get('FAKE_MODE', 'ok')
    if os.environ.get('FAKE_LOG'):
        with open(os.environ['FAKE_LOG'], 'a') as f:
            f.write('%s %s\n' % (argv[0], mode))
    if mode.startswith('exit'):
        finish(int(mode[4:]))
    try:
        out, dump, code = (pw if argv[0] == 'pw' else lmp)(argv[1:], sys.stdin)
    except (Bad, KeyError, ValueError, IndexError, OSError) as e:
        write(1, ' %%%%%%\n     Error in routine fake (1):\n     ' + repr(e) + '\n')
        finish(1)
    logfn = 'log.lammps' if argv[0] == 'lmp' else None
    if mode.startswith('partial'):
        pm, code = mode[7:].split(':')
        total = len(out) + (len(dump[1]) if dump else 0)
        k = int(int(pm) / 1000.0 * total)
        if dump:
            # header, dump file, rest
            h = dump[2]
            write(1, out[:min(k, h)])
            if k > h:
                with open(dump[0], 'w') as f:
                    f.write(dump[1][:k - h])
            write(1, out[h:h + max(0, k - h - len(dump[1]))])
        else:
            write(1, out[:k])
        finish(int(code))
    if dump:
        b = dump[1]
        if mode.startswith('dumpcut'):
            b = b[:int(int(mode[7:]) / 1000.0 * len(b))]
        if mode != 'dumpnone':      # ('cannot open dump file', status lost)
            with open(dump[0], 'w') as f:
                f.write(b)
        with open(logfn, 'w') as f:
            f.write(out)
    write(1, out)
    finish(int(mode[8:]) if mode.startswith('fullexit') else code)

if __name__ == '__main__':
    main(sys.argv[1:])
