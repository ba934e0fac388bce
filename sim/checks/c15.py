"""C15 Pwscf / Lammps calculators: histories of changes and failing programs."""
import copy, os, sys
import numpy as np
from .. import core, sched, fakeqm
from ..core import check, Violation, mk_fault, CRASHES, BENIGN

ID = 'C15'
LEVEL = 'fault_enumeration'
BUDGET = dict(quick=dict(runs=300, wall=200), thorough=dict(runs=30000, wall=1700))
RULE = ('a run = 1-3 lives of a user process (later ones find the files the earlier ones left) in which 1-4 calculators with own or shared directories and labels and 1-3 Atoms are created, '
        'changed (positions, cell, species, pbc, parameters, command, directory, lists changed in place, working directory) and asked for energy, forces, stress, with the program '
        'missing, failing, killed, stopping after partial output behind hidden or visible exit codes, Ctrl-C at a library line, a file fault or a crash; non-trivial = a calculation '
        'was made; distinct = distinct event-log hash')
REAL = ['pwtools.calculators', 'pwtools.crys/io/parse/pwscf/lammps', 'ASE Atoms and FileIOCalculator', 'sh, tee, grep, awk, sed', 'file system (tmpfs below the libc seam)']
STUB = ['pw.x and lmp (stand-in programs which read the real input and compute a pair potential)']
LISTS = []
STATES = 'hash of (calculator, command form, program failure, what changed since the last result, outcome)'
KINDS = ['crash_before', 'crash_after', 'torn_crash', 'enospc', 'eio', 'full', 'partial', 'short', 'close_err', 'emfile', 'eio_persist', 'read_eio', 'open_fail', 'sigint']
SYMS = ['H', 'He', 'N', 'Na', 'C', 'Ca', 'Cl', 'Al', 'Si']
PWCMD = [None, None, 'pw.x -input PREFIX.in > PREFIX.out', 'pw.x < PREFIX.in > PREFIX.out 2>&1', 'pw.x -in PREFIX.in 2>&1 | tee PREFIX.out', 'pw.x < PREFIX.in > PREFIX.out; true']
LMPCMD = [None, None, 'lmp -in PREFIX.in > PREFIX.out', 'lmp < PREFIX.in > PREFIX.out 2>&1', 'lmp -in PREFIX.in | tee PREFIX.out', 'lmp < PREFIX.in > PREFIX.out; true']
DIRS = ['.', 'd1', 'd1', 'd2', './d2', 'sub/d3', 'ABS/d1', 'ABS/x/y']
PWVAL = dict(ecutwfc=[20, 30.0, 45, 80.0], ecutrho=[None, 200, 240.0], conv_thr=[1e-10, 1e-6, 1e-05], mixing_beta=[0.3, 0.7, 0.1], mixing_mode=['plain', 'TF', 'local-TF'],
             diagonalization=['david', 'cg'], electron_maxstep=[500, 100], charge=[0.0, 1, -1.0, 0], kpts=[5.0, 2.0, 3.5, 1 / 0.35, [1, 1, 1], [2, 3, 4], [6, 6, 4], 't222'],
             pp=['pbe.UPF', 'pbe-n-kjpaw_psl.0.1.UPF', 'pz.UPF', 'LIST', 'LIST2'], pseudo_dir=['/pp/a', '/pp/b'], outdir=['/scratch', 'tmp'], calc_name=['pwscf', 'x'])
LMPVAL = dict(pair_style=['tersoff', 'eam/alloy', 'sw'], pair_coeff=['* * pot1', '* * pot2', '* * ../x.pot'])

def prepare():
    import pwtools.calculators, pwtools.parse, pwtools.io, pwtools.crys
    import ase, ase.atoms

def params(r, cls, n, force=()):
    V = PWVAL if cls == 'pw' else LMPVAL
    ks = r.sample(sorted(V), min(n, len(V)))
    d = dict((k, r.choice(V[k])) for k in ks + [k for k in force if k not in ks])
    return d

def mode(r):
    c = r.random()
    if c < .55:
        return 'ok'
    return r.choice(['exit1', 'exit127', 'exit0', 'exit2', 'partial%d:0' % r.randrange(1000), 'partial%d:0' % r.randrange(700, 1000), 'partial%d:1' % r.randrange(1000),
                     'partial%d:-9' % r.randrange(1000), 'partial%d:-11' % r.randrange(600, 1000), 'fullexit1', 'noconv', 'dumpcut%d' % r.randrange(1000), 'dumpcut%d' % r.randrange(900, 1000), 'nocmd', 'dumpnone'])

def phase(r, last):
    ops = []
    nat = r.choice([1, 1, 2, 3])
    for a in range(nat):
        ops.append(dict(op='atoms', a=a, seed=r.randrange(10**6), n=r.choice([1, 2, 2, 3]), nsp=r.choice([1, 2, 2, 3]), cell=r.choice(['aligned', 'rot', 'rot', 'left', 'ortho', 'fcc']),
                        pbc=r.random() < .85))
    nc = r.choice([1, 1, 2, 2, 3])
    cs = []
    def newcalc(k):
        cls = r.choice(['pw', 'pw', 'lmp'])
        if len(cs) > k:
            cs[k] = cls
        else:
            cs.append(cls)
        kw = params(r, cls, r.choice([0, 1, 2, 4, 8]), force=('pp', 'pseudo_dir', 'outdir') if cls == 'pw' else ('pair_coeff',))
        return dict(op='calc', k=k, cls=cls, kw=kw, label=r.choice([None, None, 'DEF', 'foo', 'pw', 'lmp']), dir=r.choice([None] + DIRS), cmd=r.choice(PWCMD if cls == 'pw' else LMPCMD),
                    backup=r.random() < .4, attach=r.randrange(nat))
    for k in range(nc):
        ops.append(newcalc(k))
    for i in range(r.choice([3, 5, 7, 9])):
        k = r.randrange(nc); a = r.randrange(nat)
        c = r.random()
        if c < .45:
            ops.append(dict(op='get', a=a, what=r.choice(['energy', 'forces', 'stress', 'all', 'all']), via=r.choice(['atoms', 'atoms', 'calc']), k=k, mode=mode(r),
                            line=r.randrange(1, r.choice([40, 400, 1500])) if r.random() < .06 else None, scribble=r.random() < .3))
        elif c < .63:
            ops.append(dict(op=r.choice(['move', 'move', 'strain', 'setcell', 'swap', 'pbc', 'wrap']), a=a, seed=r.randrange(10**6), size=r.choice([0.05, 0.3, 1e-5])))
            ops.append(dict(op='get', a=a, what=r.choice(['energy', 'forces', 'all']), via='atoms', k=k, mode=mode(r), line=None, scribble=False))
        elif c < .8:
            ops.append(dict(op='set', k=k, kw=params(r, cs[k], r.choice([1, 1, 2])), inplace=r.random() < .3))
            ops.append(dict(op='get', a=a, what=r.choice(['energy', 'forces', 'stress']), via='atoms', k=k, mode=mode(r), line=None, scribble=False))
        elif c < .85:
            ops.append(dict(op='attach', a=a, k=k))
        elif c < .89:
            ops.append(dict(op='setdir', k=k, dir=r.choice(DIRS), how=r.choice(['attr', 'set'])))
        elif c < .92:
            ops.append(dict(op='setcmd', k=k, i=r.randrange(6), label=r.choice([None, None, 'foo', 'bar'])))
        elif c < .95:
            ops.append(newcalc(k))
        elif c < .97:
            ops.append(dict(op='chdir', dir=r.choice(['.', 'w1', 'w2'])))
        elif c < .985:
            ops.append(dict(op='badcalc', what=r.choice(['nopp', 'key', 'xc'])))
        else:
            ops.append(dict(op='badset', k=k, what=r.choice(['xc', 'key'])))
    return dict(ops=ops, fault=r.choice(KINDS) if r.random() < (.35 if last else .6) else None, frac=r.random(), permille=r.randrange(1000), stale=r.random() < .25)

def generate(r, tier, idx):
    n = r.choice([1, 1, 2, 3])
    return dict(phases=[phase(r, i == n - 1) for i in range(n)])

def valid(scn):
    return bool(scn['phases'])

def shrinks(scn):
    ph = scn['phases']
    for i in range(len(ph)):
        if len(ph) > 1:
            yield dict(phases=ph[:i] + ph[i + 1:])
    for i, p in enumerate(ph):
        def put(**k):
            return dict(phases=ph[:i] + [dict(p, **k)] + ph[i + 1:])
        if p['fault']:
            yield put(fault=None)
        if p['stale']:
            yield put(stale=False)
        for j in range(len(p['ops']) - 1, -1, -1):
            yield put(ops=p['ops'][:j] + p['ops'][j + 1:])
        for j, o in enumerate(p['ops']):
            alt = []
            if o['op'] == 'get':
                if o['mode'] != 'ok':
                    alt.append(dict(mode='ok'))
                if o['line']:
                    alt.append(dict(line=None))
                if o['what'] == 'all':
                    alt += [dict(what='energy'), dict(what='forces'), dict(what='stress')]
            if o['op'] == 'calc':
                alt += [x for x in (dict(label='foo' if o['label'] else None), dict(dir=None), dict(cmd=None), dict(backup=False)) if any(o[q] != x[q] for q in x)]
                need = ('pp', 'pseudo_dir', 'outdir', 'pair_coeff')
                for q in sorted(o['kw']):
                    if q not in need:
                        alt.append(dict(kw=dict((a, b) for a, b in o['kw'].items() if a != q)))
            if o['op'] == 'atoms':
                alt += [x for x in (dict(n=1), dict(nsp=1), dict(cell='ortho'), dict(pbc=True)) if any(o[q] != x[q] for q in x)]
            for x in alt:
                yield put(ops=p['ops'][:j] + [dict(o, **x)] + p['ops'][j + 1:])

# ------------------------------------------------------------------- model
def mkcell(rs, kind):
    L = rs.uniform(3.0, 5.0, 3)
    if kind == 'ortho':
        return np.diag(L)
    if kind == 'fcc':
        return L[0] * np.array([[-.5, 0, .5], [0, .5, .5], [-.5, .5, 0]]) * 1.6
    c = np.array([[L[0], 0, 0], [rs.uniform(-.4, .4) * L[0], L[1], 0], [rs.uniform(-.4, .4) * L[0], rs.uniform(-.4, .4) * L[1], L[2]]])
    if kind == 'aligned':
        return c
    q, _ = np.linalg.qr(rs.randn(3, 3))
    if (np.linalg.det(q) < 0) != (kind == 'left'):
        q[:, 0] *= -1
    return c.dot(q)

DEFPW = dict(charge=0.0, conv_thr=1e-10, diagonalization='david', ecutrho=None, ecutwfc=80.0, electron_maxstep=500, kpts=5.0, mixing_beta=0.3, mixing_mode='plain', pp=None, pseudo_dir=None,
             outdir=None, calc_name='pwscf')
DEFLMP = dict(pair_coeff='* * ./AlN.tersoff Al N', pair_style='tersoff')

def expect(cls, P, at):
    """what the program computes for these atoms and parameters, or None if it
    has to refuse them"""
    syms = at.get_chemical_symbols()
    cell = np.array(at.get_cell())
    frac = at.get_scaled_positions(wrap=False)
    uniq = sorted(set(syms))
    if cls == 'pw':
        P = dict(P)
        if P['ecutrho'] is None:
            P['ecutrho'] = 4.0 * P['ecutwfc']
        k = P['kpts']
        if not isinstance(k, (list, tuple)):
            from ase.calculators.calculator import kpts2mp
            k = kpts2mp(at, k)
        for x in ('ecutwfc', 'ecutrho', 'electron_maxstep', 'mixing_beta', 'conv_thr'):
            P[x] = float(P[x])
        P['tot_charge'] = float(P['charge'])
        f = fakeqm.pwfactor(P, [int(x) for x in k] + [0, 0, 0])
        pp = P['pp']
        if isinstance(pp, str):
            files = dict((s, '%s.%s' % (s, pp)) for s in uniq)
        else:
            files = {}
            for x in pp:
                files[x.split('.')[0]] = x
            if sorted(files) != uniq:
                return None
        q = [fakeqm.z(s) * fakeqm.ppfactor(P['pseudo_dir'], files[s]) for s in syms]
    else:
        w = P['pair_coeff'].split()
        el = w[3:]
        if len(el) != len(uniq):
            return None
        f = fakeqm.factor((P['pair_style'],), tuple(w)) if False else fakeqm.factor(tuple(P['pair_style'].split()), tuple(w))
        q = [fakeqm.z(el[uniq.index(s)]) for s in syms]
    E, F, W = fakeqm.potential(cell.tolist(), frac.tolist(), q)
    S = f * np.array(W) / abs(np.linalg.det(cell))
    return dict(energy=f * E, forces=f * np.array(F), stress=S)

def realval(key, v, at, r=None):
    """scenario value -> value passed by the user"""
    if key == 'kpts' and v == 't222':
        return (2, 2, 2)
    if key == 'kpts' and isinstance(v, list):
        return list(v)
    if key == 'pp' and v in ('LIST', 'LIST2'):
        u = sorted(set(at.get_chemical_symbols()))
        L = ['%s.%s.UPF' % (s, 'a' if v == 'LIST' else 'b') for s in u]
        return L if v == 'LIST' else L[::-1]
    if key == 'pair_coeff':
        return v + ' ' + ' '.join(sorted(set(at.get_chemical_symbols())))
    return v

class Bad(Exception):
    pass

def kw_of(cls, kw, at):
    return dict((k, realval(k, v, at)) for k, v in kw.items())

def strip(v):
    return v

def life(p, base, log, first):
    """one life of the user's process -> list of (index, outcome, detail)"""
    from ase import Atoms
    from pwtools import calculators as C
    import warnings
    warnings.simplefilter('ignore')
    atoms = {}; calcs = {}; eff = {}; lists = {}
    out = []
    os.environ['FAKE_LOG'] = log
    for i, o in enumerate(p['ops']):
        op = o['op']
        os.environ['FAKE_MODE'] = o.get('mode', 'ok')
        bin_ = os.environ['PWSIM_BIN']
        os.environ['PATH'] = bin_ + ('/none' if o.get('mode') == 'nocmd' else '') + ':/usr/bin:/bin' if o.get('mode') != 'nocmd' else os.environ['PWSIM_NOBIN']
        res = 'ok'; det = ''
        try:
            if op == 'atoms':
                rs = np.random.RandomState(o['seed'])
                sy = [SYMS[j] for j in rs.permutation(len(SYMS))[:o['nsp']]]
                sy = [sy[j % len(sy)] for j in range(o['n'])]
                atoms[o['a']] = Atoms(sy, scaled_positions=rs.rand(o['n'], 3) * 1.4 - .2, cell=mkcell(rs, o['cell']), pbc=o['pbc'])
            elif op == 'calc':
                if o['attach'] not in atoms:
                    continue
                at = atoms[o['attach']]
                kw = kw_of(o['cls'], o['kw'], at)
                E_ = dict(DEFPW if o['cls'] == 'pw' else DEFLMP)
                E_.update(copy.deepcopy(kw))
                lists[o['k']] = kw
                if o['label']:
                    kw['label'] = o['label'] if o['label'] != 'DEF' else ('pw' if o['cls'] == 'pw' else 'lmp')
                if o['dir']:
                    kw['directory'] = o['dir'].replace('ABS', base)
                if o['cmd']:
                    kw['command'] = o['cmd']
                if o['backup']:
                    kw['backup'] = True
                calcs.pop(o['k'], None)
                c = (C.Pwscf if o['cls'] == 'pw' else C.Lammps)(**kw)
                calcs[o['k']] = c
                eff[id(c)] = (o['cls'], E_, c)
                at.calc = c
            elif op == 'badcalc':
                kw = {'nopp': dict(outdir='/o', pseudo_dir='/p'), 'key': dict(pp='x', outdir='/o', pseudo_dir='/p', nokey=1), 'xc': dict(pp='x', outdir='/o', pseudo_dir='/p', xc='PBE')}[o['what']]
                try:
                    C.Pwscf(**kw)
                except Exception:
                    det = 'raised'
                check(det == 'raised', 'bad-constructor-accepted', lambda: 'Pwscf(%s) did not raise' % kw)
            elif op == 'badset':
                if o['k'] not in calcs or not isinstance(calcs[o['k']], C.Pwscf):
                    continue
                c = calcs[o['k']]
                try:
                    c.set(**({'xc': 'PBE'} if o['what'] == 'xc' else {'nokey': 1}))
                except Exception:
                    det = 'raised'
                if o['what'] == 'xc':
                    # not usable until it is taken back
                    try:
                        c.set(xc=None)
                    except Exception:
                        pass
            elif op == 'set':
                if o['k'] not in calcs:
                    continue
                c = calcs[o['k']]
                cls, E_, _ = eff[id(c)]
                ats = [a for a in atoms.values() if a.calc is c]
                kw = kw_of(cls, dict((k, v) for k, v in o['kw'].items() if k in (PWVAL if cls == 'pw' else LMPVAL)), (ats or list(atoms.values()))[0])
                if o['inplace'] and isinstance(lists[o['k']].get('kpts'), list):
                    # the caller changes its own list and passes it again
                    L = lists[o['k']]['kpts']
                    L[0] = L[0] + 1
                    kw['kpts'] = L
                E_.update(copy.deepcopy(kw))
                lists[o['k']].update(kw)
                c.set(**kw)
            elif op == 'attach':
                if o['k'] in calcs and o['a'] in atoms:
                    atoms[o['a']].calc = calcs[o['k']]
            elif op == 'setdir':
                if o['k'] in calcs:
                    d = o['dir'].replace('ABS', base)
                    if o['how'] == 'attr':
                        calcs[o['k']].directory = d
                    else:
                        calcs[o['k']].set(directory=d)
            elif op == 'setcmd':
                if o['k'] in calcs:
                    c = calcs[o['k']]
                    cmd = (PWCMD if eff[id(c)][0] == 'pw' else LMPCMD)[o['i']]
                    if cmd:
                        c.set(command=cmd)
                    if o['label']:
                        c.set(label=o['label'])
            elif op == 'chdir':
                os.makedirs(os.path.join(base, o['dir']), exist_ok=True)
                os.chdir(os.path.join(base, o['dir']))
            elif o['a'] not in atoms:
                continue
            elif op in ('move', 'strain', 'setcell', 'swap', 'pbc', 'wrap'):
                at = atoms[o['a']]
                rs = np.random.RandomState(o['seed'])
                if op == 'move':
                    at.positions[rs.randint(len(at))] += o['size'] * rs.randn(3)
                elif op == 'strain':
                    e = np.eye(3) + o['size'] * .1 * rs.randn(3, 3)
                    at.set_cell(np.array(at.cell).dot(e), scale_atoms=True)
                elif op == 'setcell':
                    at.set_cell(mkcell(rs, rs.choice(['aligned', 'rot', 'left', 'ortho'])), scale_atoms=bool(rs.randint(2)))
                elif op == 'swap':
                    j = rs.randint(len(at))
                    at.symbols[j] = SYMS[rs.randint(len(SYMS))]
                elif op == 'pbc':
                    at.pbc = rs.rand(3) < .7
                elif op == 'wrap':
                    at.wrap(pbc=True)
            elif op == 'get':
                at = atoms[o['a']]
                c = at.calc if o['via'] == 'atoms' else calcs.get(o['k'])
                if c is None:
                    continue
                cls, E_, _ = eff[id(c)]
                want = expect(cls, E_, at)
                whats = ['energy', 'forces', 'stress'] if o['what'] == 'all' else [o['what']]
                for w in whats:
                    def ask():
                        if o['via'] == 'calc':
                            return c.get_property(w, at)
                        return at.get_potential_energy() if w == 'energy' else at.get_forces() if w == 'forces' else at.get_stress(voigt=False)
                    got = raised = None
                    try:
                        if o['line']:
                            s, got, where = sched.interrupt_at(o['line'], ask)
                            if s == 'exc':
                                raised = got
                            if where:
                                det = 'interrupted'
                        else:
                            got = ask()
                    except Exception as e:
                        raised = '%s: %s' % (type(e).__name__, str(e)[:300])
                    if raised is not None:
                        res = 'raised'
                        det = det or ('refused' if want is None else raised)
                        continue
                    what = lambda: '%s of op %d %s (%s, program %s) is %s, but the program computes %s for these atoms and parameters %s' % (
                        w, i, o['via'], cls, o['mode'], np.array(got).tolist() if got is not None else None, None if want is None else np.array(want[w]).tolist(), E_)
                    check(want is not None, 'result-of-impossible-input', what)
                    check(got is not None, 'no-result-no-error', what)
                    g = np.array(got, dtype=float)
                    if w == 'stress' and g.shape == (6,):
                        g = np.array([[g[0], g[5], g[4]], [g[5], g[1], g[3]], [g[4], g[3], g[2]]])
                    x = np.array(want[w])
                    check(g.shape == x.shape and np.all(np.abs(g - x) <= 3e-6 * max(1.0, np.abs(x).max())), 'not-of-current-state', what)
                    if o['scribble'] and isinstance(got, np.ndarray):
                        got[...] = -77.0
        except Violation:
            raise
        except KeyboardInterrupt:
            res = 'int'
        except (OSError, Exception) as e:
            res = 'raised'; det = '%s: %s' % (type(e).__name__, str(e)[:200])
        out.append((i, op, o.get('mode', ''), res, det))
    return out

def run(scn, E):
    E.states = set()
    b = os.path.join(E.dir, 'bin'); nb = os.path.join(E.dir, 'nobin')
    os.makedirs(b); os.makedirs(nb)
    for name, a in (('pw.x', 'pw'), ('lmp', 'lmp')):
        fn = os.path.join(b, name)
        open(fn, 'w').write('#!/bin/sh\nunset LD_PRELOAD FSIM_CTL\nexec %s -S -E -s -B %s %s "$@"\n' % (sys.executable, fakeqm.__file__, a))
        os.chmod(fn, 0o755)
    import shutil
    for n in ('sh', 'tee', 'grep', 'egrep', 'awk', 'mawk', 'gawk', 'sed', 'head', 'tail', 'cat', 'wc', 'tr', 'cut'):
        w = shutil.which(n, path='/usr/bin:/bin')
        if w:
            os.symlink(w, os.path.join(nb, n))
    log = os.path.join(E.dir, 'calls')
    env = dict(PWSIM_BIN=b, PWSIM_NOBIN=nb)
    for n, p in enumerate(scn['phases']):
        if p['stale']:
            stale(E.root)
            E.fault('files_of_an_earlier_run')
        rules = []
        budget = -1
        if p['fault']:
            # place the fault inside an execution without it (on a copy of the disk)
            save = core.snapshot(E.root)
            D = E.node(life, dict(p, ops=[dict(o, line=None) if 'line' in o else o for o in p['ops']]), E.root, log, n == 0, env=env)
            core.restore(E.root, save)
            if p['fault'] == 'full':
                budget = int(p['frac'] * sum(o.ret for o in D.ops if o.kind == 'write' and o.ret > 0))
            else:
                ru = mk_fault(p['fault'], int(p['frac'] * D.ctl['nmut']), p['permille'])
                if p['fault'] not in ('crash_before', 'crash_after', 'torn_crash', 'eio', 'sigint', 'eio_persist'):
                    ru['at'] = int(p['frac'] * sum(D.ctl['kcount'][x] for x in ru['kinds']))
                rules = [ru]
        try:
            os.unlink(log)
        except OSError:
            pass
        R = E.node(life, p, E.root, log, n == 0, env=env, rules=rules, budget=budget)
        check(R.status in ('ok', 'crash', 'exc', 'died'), 'hang', lambda: 'phase %d: %r' % (n, R))
        hit = any(R.ctl['fired']) or bool(R.ctl['budget_hits'])
        calls = open(log).read().split('\n')[:-1] if os.path.exists(log) else []
        for c in calls:
            m = c.split()[1]
            if m != 'ok':
                E.fault('program_' + ''.join(x for x in m.split(':')[0] if x.isalpha()) + ('_hidden_exit' if m.endswith(':0') else ''))
        if calls:
            E.probe('calculation')
        if R.status == 'ok':
            for i, op, m, res, det in R.value:
                E.event(n, i, op, m, res)
                if m == 'nocmd' and res == 'raised':
                    E.fault('program_missing')
                if det == 'interrupted':
                    E.fault('ctrl-c_at_line')
                E.states.add((op, m.rstrip('0123456789:-'), res, p['ops'][i].get('via'), det[:30]))
                if not hit and res == 'raised' and det not in ('interrupted', 'refused', 'raised') and m in ('ok', ''):
                    check(False, 'fails-without-fault', lambda: 'phase %d op %d %s raised %s' % (n, i, p['ops'][i], det))
        else:
            E.event(n, R.status, R.exc)
            if R.status == 'exc' and R.exc != 'KeyboardInterrupt' and not hit:
                check(False, 'fails-without-fault', lambda: 'phase %d: %s %s\n%s' % (n, R.exc, R.excmsg, R.tb))

def stale(root):
    """output files of other calculations, complete"""
    for d in ('.', 'd1', 'd2'):
        D = os.path.join(root, d)
        os.makedirs(D, exist_ok=True)
        for lab in ('pw', 'foo', 'lmp'):
            a = [['H'], [[.1, .2, .3]]]
            os.environ['FAKE_MODE'] = 'ok'
            txt = ("&control\ncalculation = 'scf',\ntstress = .true.\ntprnfor = .true.\npseudo_dir='/x'\n/\n&system\nibrav = 0\nnat=2\nntyp=1\necutwfc=3\nelectron_maxstep=1\ndiagonalization='cg'\n"
                   "mixing_mode='plain'\nmixing_beta=.1\nconv_thr=1\n/\nATOMIC_SPECIES\nH 1 H.x\nCELL_PARAMETERS angstrom\n3 0 0\n0 3 0\n0 0 3\nATOMIC_POSITIONS crystal\nH 0 0 0\nH .3 .3 .1\nK_POINTS automatic\n1 1 1 0 0 0\n")
            import io
            out, _, _ = fakeqm.pw([], io.StringIO(txt))
            if lab == 'lmp':
                cwd = os.getcwd()
                os.chdir(D)
                try:
                    open('x.struct', 'w').write('c\n\n2 atoms\n1 atom types\n\n0.0 3 xlo xhi\n0.0 3 ylo yhi\n0.0 3 zlo zhi\n0 0 0 xy xz yz\n\nAtoms\n\n1 1 0 0 0\n2 1 .8 .9 .3\n\nMasses\n\n1 1\n')
                    out, dump, _ = fakeqm.lmp([], io.StringIO('units metal\nboundary p p p\nread_data x.struct\npair_style s\npair_coeff * * f H\ndump d all custom 1 lmp.out.dump id type xu yu zu fx fy fz\n'
                                                              'dump_modify d sort id\nthermo_style custom step temp vol pe pxx pyy pzz pxy pxz pyz\nrun 0\n'))
                    for l in ('lmp', 'foo'):
                        open(l + '.out.dump', 'w').write(dump[1])
                    open('log.lammps', 'w').write(out)
                    open('lmp.struct.symbols', 'w').write('H\nH')
                finally:
                    os.chdir(cwd)
            open(os.path.join(D, lab + '.out'), 'w').write(out)
            open(os.path.join(D, lab + '.in'), 'w').write(txt)
