"""C21 output of killed or running single-point and phonon jobs: true values or nothing."""
import os, struct
import numpy as np
from .. import md, gen as G, parsers, attack
from ..core import check, Violation
from . import c10, c14

ID = 'C21'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=700, wall=200), thorough=dict(runs=60000, wall=1700))
RULE = ('a run = one simulated single-point or phonon job (pw.x, cpmd, cp2k scf and relax; ph.x dynamical matrices, matdyn.x modes and frequencies, dynmat.x with and without Raman columns; '
        '1-5 atoms, 1-4 q-points) whose files are read after the job was killed - files end at seeded bytes: anywhere, line or number boundaries, inside a number, whole stdio blocks - or are missing, '
        'or while the job appends lines, blocks or bytes at seeded file opens of the reader and its child processes, or with a read fault; non-trivial = files cut, growing or faulty; '
        'distinct = distinct event-log hash')
REAL = ['pwtools.pwscf readers, pwtools.parse, common.backtick', 'sh, grep, egrep, sed, awk, head, tail as child processes', 'bin/plot_dispersion.py (run as a program, drawing replaced by a recorder)']
STUB = ['pw.x, cpmd, cp2k, ph.x, matdyn.x, dynmat.x: generators that print the numbers they hold', 'matplotlib.pyplot: records what is plotted']
ASSUME = ['a reader of matdyn.modes may return the whole q-points which are in the file', 'scf_converged may be False as long as the line which says so is missing',
          'cpmd writes GEOMETRY and GEOMETRY.scale one after the other: at most one of them ends in the middle', 'the pw, cpmd and cp2k programs append whole lines while running; cuts inside a line are explored in the killed mode']
LISTS = ['cuts', 'grow']
STATES = 'hash of (program, quantity, kind of damage, outcome)'
PH = ['ph_modes', 'ph_dyn', 'ph_dynmat', 'ph_ir', 'ph_freq', 'ph_plot']
SCF = ['pw_scf', 'cpmd_scf', 'cp2k_scf']
WH = ['any', 'any', 'line', 'line', 'tok', 'tok', 'intok', 'intok', 'lastlines', 'end', 'end', 'block']

def prepare():
    from pwtools import parse, io, crys, pwscf, kpath

def generate(r, tier, idx):
    s = dict(code=r.choice(PH + PH + SCF + SCF[:1]), cuts=[], grow=[], order=r.randrange(10**6))
    if s['code'] in SCF:
        s['job'] = md.spec(r, [s['code']])
    else:
        s.update(natoms=r.choice([1, 1, 2, 3]), nq=r.choice([1, 2, 3, 4]), seed=r.randrange(10**6), var=r.randrange(64))
    s['mode'] = r.choice(['cut', 'cut', 'cut', 'grow', 'fault'])
    if s['mode'] == 'cut':
        for i in range(r.choice([2, 3, 5])):
            s['cuts'].append(dict(how=r.choice(['one', 'one', 'one', 'all', 'gone', 'later']), f=r.randrange(16), where=r.choice(WH), fr=r.random(), n=r.randrange(8)))
    elif s['mode'] == 'grow':
        s['t0'] = r.random() ** .7
        s['gpol'] = r.choice(['line', 'line', 'byte', 'block'])
        for i in range(r.choice([1, 2, 3, 5])):
            s['grow'].append(dict(at=r.choice([r.randrange(3), r.randrange(6), r.randrange(30)]), dt=r.choice([.05, .2, .34, .5, 1.0, 1.0])))
    else:
        for i in range(r.choice([1, 2, 3])):
            s['cuts'].append(dict(kind=r.choice(['read_eio', 'read_short', 'read_short_persist', 'read_eintr', 'open_fail', 'line']), frac=r.random(), fr=r.randrange(1000)))
    return s

def valid(scn):
    return bool(scn['cuts'] or scn['grow'])

def shrinks(scn):
    import copy
    for k in ('natoms', 'nq'):
        if scn.get(k, 1) > 1:
            yield dict(scn, **{k: scn[k] - 1})
    if 'job' in scn and scn['job']['natoms'] > 1:
        c = copy.deepcopy(scn); c['job']['natoms'] -= 1; yield c

# ------------------------------------------------------------------ the job
def ph_job(s):
    """files, truth: {quantity: value}; quantities which may be cut to whole
    q-points are marked"""
    R = G.rs(s['seed'], 11)
    n, nq, var = s['natoms'], s['nq'], s['var']
    nm = 3 * n
    pv = lambda x, fmt: float(fmt % x)
    A = lambda a, fmt: np.array([float(fmt % x) for x in np.asarray(a).reshape(-1)]).reshape(np.shape(a))
    q = R.uniform(-1, 1, (nq, 3)); fr = R.uniform(-10, 900 if var & 1 else 4000, (nq, nm))
    vr = A(R.uniform(-1, 1, (nq, nm, n, 3)), '%.6f'); vi = A(R.uniform(-1, 1, (nq, nm, n, 3)), '%.6f')
    star = ' ' + '*' * 74 + '\n'
    def modes(i):
        t = ''
        for m in range(nm):
            t += ('     omega(%2d) =%15.6f [THz] =%15.6f [cm-1]\n' if var & 2 else '    omega(%d) = %.6f [THz] = %.6f [cm-1]\n') % (m + 1, fr[i, m] / 33.35641, fr[i, m])
            for a in range(n):
                t += ' (' + ' '.join('%10.6f %10.6f  ' % (vr[i, m, a, c], vi[i, m, a, c]) for c in range(3)) + ')\n'
        return t
    F6 = A(fr, '%.6f'); V = vr + 1j * vi
    files = {}; truth = {}; pre = ()
    c = s['code']
    if c == 'ph_modes':
        t = ''
        for i in range(nq):
            t += '     diagonalizing the dynamical matrix ...\n\n q = %s\n' % ' '.join('%12.4f' % x for x in q[i]) + star + modes(i) + star
        files['matdyn.modes'] = t
        truth = dict(qpoints=A(q, '%.4f'), freqs=F6, vecs=V); pre = ('qpoints', 'freqs', 'vecs')
    elif c == 'ph_dyn':
        for i in range(nq):
            d = 'Dynamical matrix file\n\n  2  %d   2  5.6 0.0 0.0 0.0 0.0 0.0\n           1  \'Al  \'    24590.765\n' % n
            qs = [q[i]] + [R.uniform(-1, 1, 3) for k in range(var >> 2 & 3)]      # star of q
            for qq in qs:
                d += '\n     Dynamical  Matrix in cartesian axes\n\n     q = ( %s )\n\n' % ' '.join('%14.9f' % x for x in qq)
                for a in range(n * n):
                    d += '    %d    %d\n' % (a // n + 1, a % n + 1) + ''.join('  %12.8f  %12.8f  %12.8f  %12.8f  %12.8f  %12.8f\n' % tuple(x) for x in R.uniform(-1, 1, (3, 6)))
            d += '\n     Diagonalizing the dynamical matrix\n\n     q = ( %s )\n\n' % ' '.join('%14.9f' % x for x in q[i]) + star + modes(i) + star
            files['ph.dyn%d' % (i + 1)] = d
        truth = dict(qpoints=A(q, '%.9f'), freqs=F6, vecs=V)
    elif c in ('ph_dynmat', 'ph_ir'):
        ram = var >> 2 & 1
        rows = []; t = ''
        if var & 8:
            t += '\n     Program DYNMAT v.5.0.2 (svn rev. 9656) starts on 29Oct2013 at 17:49:37\n\n     Reading Dynamical Matrix from file ph.dyn\n     ...Force constants read\n     ...epsilon and Z* read\n'
        t += '\n     diagonalizing the dynamical matrix ...\n\n' * (var >> 4 & 1) + '# mode   [cm-1]    [THz]      IR' + '          Raman   depol.fact' * ram + '\n'
        for m in range(nm):
            l = '%5d %9.2f %9.4f %9.4f' % (m + 1, fr[0, m], fr[0, m] / 33.35641, R.rand() * 40)
            if ram:
                l += ' %14.4f %9.4f' % (R.rand() * 20, R.rand())
            rows.append([float(x) for x in l.split()])
            t += l + '\n'
        rows = np.array(rows)
        files['dynmat.out'] = t + '\n     DYNMAT       :     0.00s CPU         0.01s WALL\n'
        t = ' ANIMSTEPS %d\n CRYSTAL\n PRIMVEC\n' % nm + ' 1.0 0.0 0.0\n 0.0 1.0 0.0\n 0.0 0.0 1.0\n'
        for m in range(nm):
            t += ' PRIMCOORD %d\n %d 1\n' % (m + 1, n)
            for a in range(n):
                t += ' Al ' + ' '.join('%11.6f' % x for x in R.rand(3)) + ' ' + ' '.join('%11.6f' % x for x in vr[0, m, a]) + '\n'
        if c == 'ph_dynmat':
            files['dynmat.axsf'] = t
            truth = dict(qpoints=np.zeros(3), freqs=rows[:, 1], vecs=vr[0])
        else:
            truth = dict(freqs=rows[:, 1], ir=rows[:, 3], raman=rows[:, 4] if ram else None, depol=rows[:, 5] if ram else None, table=rows)
    else:
        t = ' &plot nbnd=%4d, nks=%4d /\n' % (nm, nq)
        for i in range(nq):
            t += ' ' * 10 + ''.join('%10.6f' % x for x in q[i]) + '\n'
            for j in range(0, nm, 6):
                t += ''.join('%10.4f' % x for x in fr[i, j:j + 6]) + '\n'
        files['matdyn.freq'] = t
        truth = dict(kpoints=A(q, '%.6f'), freqs=A(fr, '%.4f'))
    return {k: v.encode() for k, v in files.items()}, truth, pre

def read_ph(s, d='job=1'):
    from pwtools import pwscf
    na = s['natoms']; c = s['code']
    if c == 'ph_modes':
        return dict(zip(('qpoints', 'freqs', 'vecs'), pwscf.read_matdyn_modes(d + '/matdyn.modes', natoms=na)))
    if c == 'ph_dyn':
        return dict(zip(('qpoints', 'freqs', 'vecs'), pwscf.read_all_dyn(d, nqpoints=s['nq'], natoms=na)))
    if c == 'ph_dynmat':
        return dict(zip(('qpoints', 'freqs', 'vecs'), pwscf.read_dynmat(d, natoms=na)))
    if c == 'ph_ir':
        if s['var'] >> 5 & 1:
            return dict(table=pwscf.read_dynmat_ir_raman(d + '/dynmat.out', natoms=na, cols=None))
        return pwscf.read_dynmat_ir_raman(d + '/dynmat.out', natoms=na)
    if c == 'ph_freq':
        return dict(zip(('kpoints', 'freqs'), pwscf.read_matdyn_freq(d + '/matdyn.freq')))
    return plotted(d + '/matdyn.freq')

class Drawn(Exception):
    pass

def plotted(fn):
    """what bin/plot_dispersion.py draws"""
    import runpy, sys, types
    import pwtools
    out = {}
    plt = types.ModuleType('matplotlib.pyplot')
    def plot(x, y, *a):
        out['path'] = np.array(x); out['freqs'] = np.array(y)
    plt.plot = plot; plt.show = lambda: None
    mpl = types.ModuleType('matplotlib'); mpl.pyplot = plt
    old = {k: sys.modules.get(k) for k in ('matplotlib', 'matplotlib.pyplot')}
    av = sys.argv
    # pwtools.kpath has been imported by prepare()
    sys.modules['matplotlib'] = mpl; sys.modules['matplotlib.pyplot'] = plt
    sys.argv = ['plot_dispersion.py', fn]
    try:
        runpy.run_path(os.path.join(os.path.dirname(pwtools.__file__), '..', '..', 'bin', 'plot_dispersion.py'), run_name='__main__')
    except SystemExit as e:
        if e.code:
            raise RuntimeError('exit status %r' % e.code)
    finally:
        sys.argv = av
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return out

def read_scf(s, d='job=1'):
    from pwtools import parse
    J = md.job(s['job'])
    out = {}
    mk = lambda: getattr(parse, J.parser)(d + '/' + J.main)
    p = mk()
    at = list(p.attr_lst)
    at = [at[i] for i in G.rs(s['order']).permutation(len(at))]
    for a in at:
        out[a] = parsers.quiet(lambda: parsers.plain(parsers.getter(p if s['order'] & 1 else mk(), a)))
    r = parsers.quiet(mk().get_cont)
    out['CONT'] = r if r[0] != 'ok' else ('ok', parsers.picture(r[1]))
    return out

def read(s):
    if s['code'] in SCF:
        return read_scf(s)
    return {'ALL': parsers.quiet(lambda: {k: parsers.plain(v) for k, v in read_ph(s).items()})}

# -------------------------------------------------------------------- oracle
def num_same(v, t):
    if t is None or v is None:
        return v is None and t is None
    v = np.asarray(v); t = np.asarray(t)
    return v.shape == t.shape and bool((np.abs(v - t) <= 1e-9 * np.abs(t) + 1e-13).all())

def judge_ph(s, truth, pre, out, whole):
    r = out['ALL']
    if r[0] == 'exc':
        return []
    bad = []
    d = r[1]
    if s['code'] == 'ph_plot':
        k = truth['kpoints']
        path = np.concatenate([[0.], np.cumsum(np.sqrt(((k[1:] - k[:-1]) ** 2).sum(1)))])
        truth = dict(path=path, freqs=truth['freqs'])
        d = dict(d)
        if len(d.get('path', [])):      # where the axis starts is not said
            d['path'] = d['path'] - d['path'][0]
    if pre:
        k = len(d['qpoints'])
        if k > whole:
            bad.append(('qpoints', '%d q-points, %d are in the file' % (k, whole)))
    for a, v in d.items():
        t = truth[a]
        if a in pre:
            t = t[:len(v)]
        if not num_same(v, t):
            bad.append((a, 'is %s, the program found %s' % (G.brief(v), G.brief(t))))
    for a in truth:
        if a not in d and a not in ('table',) and not ('table' in d):
            bad.append((a, 'is missing'))
    return bad

DERIVED = c10.DERIVED
# what the program prints when the SCF cycle has converged (only then)
CONV = {'PwSCFOutputFile': b'convergence has been achieved', 'CpmdSCFOutputFile': b'FINAL RESULTS', 'Cp2kSCFOutputFile': b'SCF run converged in'}
def judge_scf(J, ref, out, files=None):
    bad = []
    for a, r in sorted(out.items()):
        if r[0] == 'exc' or r[1] is None:
            continue
        v = r[1]
        if a == 'scf_converged' and v is not False and files is not None and CONV[J.parser] not in files.get(J.main, b''):
            bad.append((a, 'is %s, but the output does not say so (yet)' % v))
            continue
        if a == 'scf_converged' and v is False:
            continue
        # so far, there are no atoms / n lines in the file with the atoms
        if a == 'symbols' and len(v) == 0:
            continue
        if a == 'natoms' and J.parser.startswith('Cpmd') and v < J.static['natoms']:
            continue
        if a == 'CONT':
            w = ref['CONT'][1] if ref['CONT'][0] == 'ok' else None
            if w is None:
                continue
            for k, x in v.items():
                if x is None:
                    continue
                if k not in w:
                    bad.append(('struct.' + k, 'is %s, the complete output gives none' % G.brief(x)))
                elif not G.same(x, w[k]):
                    bad.append(('struct.' + k, 'is %s, the complete output gives %s' % (G.brief(x), G.brief(w[k]))))
        elif ref[a][0] != 'ok' or not G.same(v, ref[a][1]):
            bad.append((a, 'is %s, the complete output gives %s' % (G.brief(v), G.brief(ref[a][1]))))
    return bad

def cut_at(c, b):
    if c['where'] == 'end':
        return max(0, len(b) - 1 - c['n'])
    if c['where'] == 'block':
        k = (512, 4096, 128)[c['n'] % 3]
        return int(c['fr'] * (len(b) // k + 1)) * k
    return c10.cut_at(None, b, c['where'], c['fr'], c['n'])

def damage(c, full):
    """files of a job killed at some moment"""
    fs = sorted(full)
    d = dict(full)
    f = fs[c['f'] % len(fs)]
    if c['how'] == 'gone':
        d.pop(f)
    elif c['how'] == 'all':
        for g in fs:
            if g == 'GEOMETRY' and c['n'] % 2:
                d.pop(g)
            elif g != 'GEOMETRY':
                d[g] = d[g][:cut_at(c, d[g])]
    else:
        d[f] = d[f][:cut_at(c, d[f])]
        if c['how'] == 'later':         # files written one after the other
            for g in fs[fs.index(f) + 1:]:
                d.pop(g)
    return d

def whole_q(s, files):
    """number of q-points of which all numbers are completely in matdyn.modes"""
    b = files.get('matdyn.modes', b'')
    b = b[:b.rfind(b'\n') + 1]
    return sum(1 for p in b.split(b' q = ')[1:] if p.count(b')\n') >= (3 * s['natoms']) * s['natoms'])

def run(scn, E):
    s = scn
    E.states = set()
    c = s['code']; scf = c in SCF
    if scf:
        J = md.job(s['job']); full = J.full(); name = J.parser
    else:
        full, truth, pre = ph_job(s); name = {'ph_modes': 'read_matdyn_modes', 'ph_dyn': 'read_all_dyn', 'ph_dynmat': 'read_dynmat', 'ph_ir': 'read_dynmat_ir_raman', 'ph_freq': 'read_matdyn_freq', 'ph_plot': 'plot_dispersion.py'}[c]
    E.node(c10.put, full)
    R = E.node(read, s)
    check(R.status == 'ok', 'reader-kills-interpreter', lambda: '%s, complete files: %r %s' % (name, R, R.tb[-600:]))
    ref = R.value
    if scf:
        for a in J.static:
            if a in ref:
                check(ref[a][0] == 'ok' and ref[a][1] is not None, 'complete-output-not-parsed', lambda: '%s.get_%s of complete output: %s' % (name, a, ref[a][1:]))
                m = c10.static_ok(ref[a][1], J.static[a])
                check(not m, 'complete-output-wrong', lambda: '%s.get_%s of complete output %s' % (name, a, m))
        judge = lambda out, files: judge_scf(J, ref, out, files)
    else:
        check(ref['ALL'][0] == 'ok', 'complete-output-not-parsed', lambda: '%s of complete output: %s' % (name, ref['ALL'][1:]))
        judge = lambda out, files: judge_ph(s, truth, pre, out, whole_q(s, files))
        m = judge(ref, full)
        check(not m, 'complete-output-wrong', lambda: '%s of complete output: %s %s' % ((name,) + m[0]))
        check(not pre or len(ref['ALL'][1]['qpoints']) == s['nq'], 'complete-output-wrong', lambda: '%s of complete output: %d q-points of %d' % (name, len(ref['ALL'][1]['qpoints']), s['nq']))
    soft = []
    def look(R, files, what, kind):
        check(R.status == 'ok', 'reader-kills-interpreter', lambda: '%s, %s: %r %s' % (name, what, R, R.tb[-600:]))
        for a, r in sorted(R.value.items()):
            o = 'exc' if r[0] == 'exc' else 'none' if r[1] is None else 'val'
            if o == 'val': E.probe('value_from_incomplete_output')
            E.event(a, o); E.states.add(repr((c, a, kind, o)))
        bad = judge(R.value, files)
        if not bad:
            return
        left = dict(bad)
        if scf and kind != 'grow':
            # numbers cut in half at the end of a file
            J2 = J
            halves = c10.complete_tokens(J2, files)
            fs = dict(files)
            for f in sorted(halves):
                fs[f] = halves[f]
                E.node(c10.put, fs)
                R2 = E.node(read, s)
                check(R2.status == 'ok', 'reader-kills-interpreter', what)
                still = {a for a, m in judge(R2.value, fs)}
                for a in sorted(left):
                    if a not in still:
                        soft.append((1, 'number-cut-in-half-at-end-of-file', '%s.%s from %s: %s: %s' % (name, a, f, what, left.pop(a))))
        for a in sorted(left):
            soft.append((0, 'invented-or-partial-value', '%s: %s: %s %s' % (name, what, a, left[a])))
    if s['mode'] == 'cut':
        for k in s['cuts']:
            files = damage(k, full)
            if files == full:
                continue
            E.node(c10.put, files)
            E.fault('killed_job'); E.fault('missing_file' if len(files) < len(full) else 'cut_file')
            R = E.node(read, s)
            miss = ', '.join('%s %s' % (f, 'short by %d of %d bytes' % (len(full[f]) - len(files[f]), len(full[f])) if f in files else 'missing') for f in sorted(full) if files.get(f) != full[f])
            look(R, files, miss, k['where'])
    elif s['mode'] == 'fault':
        for k in s['cuts']:
            E.node(c10.put, full)
            D = attack.clean(E, read, (s,), k['kind'])
            check(D.status == 'ok', 'reader-kills-interpreter', lambda: '%s: %r' % (name, D))
            E.node(c10.put, full)
            R, hit = attack.faulty(E, read, (s,), k['kind'], k['frac'], k['fr'], D)
            if k['kind'] == 'line' and R.status == 'exc':
                continue
            if k['kind'] != 'line' and attack.fired(R): E.fault(k['kind'])
            look(R, full, 'fault %s' % (hit,), k['kind'])
    else:
        # bytes in the order in which the program(s) write them
        fs = sorted(full)
        lens = [len(full[f]) for f in fs]
        tot = sum(lens)
        def state(t):
            x = int(t * tot); out = {}
            for f, L in zip(fs, lens):
                k = min(max(x, 0), L); x -= L
                b = full[f]
                if k < L and (s['gpol'] == 'line' or scf):
                    k = b.rfind(b'\n', 0, k) + 1
                elif k < L and s['gpol'] == 'block':
                    k = k // 64 * 64
                out[f] = k
            return out
        t = s['t0']; cur = state(t)
        src = os.path.join(E.aux, 'src'); os.makedirs(src, exist_ok=True)
        c10.put(full, src)
        E.node(c10.put, {f: full[f][:cur[f]] for f in fs})
        recs = []; rules = []
        fn = os.path.join(E.aux, 'recs'); jd = os.path.join(E.root, 'job=1')
        for g in s['grow']:
            t = min(1.0, t + g['dt']); new = state(t); a0 = len(recs)
            for f in fs:
                if new[f] > cur[f]:
                    recs.append(struct.pack('<qq400s400s', cur[f], new[f] - cur[f], os.path.join(src, f).encode(), os.path.join(jd, f).encode()))
            cur = new
            if len(recs) > a0:
                rules.append(dict(kinds=['openr'], at=g['at'], action='append', arg=a0, arg2=len(recs) - a0, appfile=fn, sub='job'))
        for k, r in zip(sorted(r['at'] for r in rules), rules):
            r['at'] = k
        with open(fn, 'wb') as h:
            h.write(b''.join(recs))
        R = E.node(read, s, rules=rules)
        n = sum(R.ctl['fired'][:len(rules)])
        if n: E.fault('appended_during_reading', n)
        look(R, full, 'read while the program writes', 'grow')
    E.event('end')
    if soft:
        soft.sort()
        raise Violation(soft[0][1], soft[0][2])
