"""C20 Structure/Trajectory: consistency after any history of edits, copies, dumps, interrupts."""
import os
import numpy as np
from .. import core, sched, gen as G
from ..core import check, Violation

ID = 'C20'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=2500, wall=110), thorough=dict(runs=80000, wall=1500))
RULE = ('a run = one structure or trajectory built from a drawn set of given quantities (Cartesian or fractional coordinates or both, cell or cell constants in constant or per-step form, energies, '
        'stress, forces, velocities, time step), units and automatic-derivation flag, then 2-14 operations: derive all, derive some in drawn order, replace a primary quantity and unset what '
        'depends on it, unset derived quantities, apply units, copy, index, slice, extend to a trajectory, pickle and load, in-place changes of a copy, compress; Ctrl-C or a failed allocation hits '
        'any of them at a drawn library line and the operation is repeated; after each step all quantities are compared with an independent evaluation of their definitions; '
        'non-trivial = an operation was interrupted or units were pending when the object was copied; distinct = distinct event-log hash')
REAL = ['pwtools.crys.Structure, Trajectory, UnitsHandler', 'pwtools.base.FlexibleGetters', '_flib coordinate kernels', 'io.read_pickle']
STUB = ['none']
LISTS = ['ops']
STATES = 'hash of (kind, set attributes, units applied, last operation)'
UNITS = [None, None, {}, {'length': 0.5291772}, {'length': 0.5291772, 'energy': 27.2, 'forces': 51.4, 'stress': .1, 'time': .0241, 'velocity': 21.9, 'temperature': 2.0}, {'length': 2.0, 'stress': 1e-4}, {'time': 1000.0, 'velocity': .5},
         {'energy': 2.0}]
DERIV = ['coords', 'coords_frac', 'cell', 'cryst_const', 'volume', 'pressure', 'velocity', 'ekin', 'temperature', 'time', 'nstep', 'natoms', 'mass', 'mass_unique', 'nspecies', 'ntypat', 'order', 'symbols_unique', 'typat', 'znucl', 'znucl_unique']

def prepare():
    import pwtools.crys, pwtools.io
    import ase

OPS = ['set_all', 'set_all', 'some', 'some', 'replace', 'replace', 'replace', 'unset', 'unset', 'apply', 'copy', 'copy', 'copyedit', 'index', 'slice', 'traj', 'dump', 'load', 'compress', 'units', 'atoms']

def generate(r, tier, idx):
    traj = r.random() < .6
    ops = []
    for i in range(r.randrange(2, 15)):
        o = dict(op=r.choice(OPS), seed=r.randrange(10**6), k=r.random(), a=r.randrange(-8, 9), b=r.randrange(-8, 9), c=r.choice([None, 1, 2, 3]), what=r.choice(['cell', 'cryst_const', 'coords', 'coords_frac', 'symbols', 'velocity', 'timestep', 'stress', 'etot', 'forces']),
                 keep=r.choice(['coords', 'coords_frac']), names=r.sample(DERIV, r.choice([1, 2, 3, 6, len(DERIV)])), go=r.choice(['new', 'old']))
        if r.random() < .3:
            o['intr'] = r.randrange(1, r.choice([4, 12, 40, 200])); o['exc'] = r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
        ops.append(o)
    pos = r.choice(['coords', 'coords_frac', 'coords_frac', 'both', 'none'])
    return dict(traj=traj, nstep=r.choice([1, 2, 3, 4, 6, 7] if pos != 'none' else [2, 3, 5]), natoms=r.choice([1, 2, 3, 5]), seed=r.randrange(10**6), pos=pos,
                cell=r.choice(['cell', 'cell', 'cryst_const', 'both', 'none']), cellform=r.choice(['full', 'full', 'const', 'one']), symbols=r.random() < .85, extra=[x for x in ('etot', 'stress', 'forces', 'velocity', 'timestep', 'pressure', 'volume', 'ekin', 'temperature') if r.random() < .35],
                units=r.choice(range(len(UNITS))), auto=r.random() < .6, dtype=r.choice(['f', 'f', 'f', 'f', 'i']), ops=ops)

def valid(scn):
    return True

# ---- independent definitions ------------------------------------------------
def cc_of(cell):
    n = np.linalg.norm(cell, axis=-1)
    u = cell / n[..., None]
    c = [np.einsum('...i,...i', u[..., i, :], u[..., j, :]) for i, j in ((1, 2), (0, 2), (0, 1))]
    return np.concatenate([n, np.degrees(np.arccos(np.clip(np.stack(c, -1), -1, 1)))], -1)

def cell_of(cc):
    a, b, c = cc[..., 0], cc[..., 1], cc[..., 2]
    al, be, ga = (np.radians(cc[..., i]) for i in (3, 4, 5))
    z = np.zeros_like(a)
    va = np.stack([a, z, z], -1)
    vb = np.stack([b * np.cos(ga), b * np.sin(ga), z], -1)
    cx = c * np.cos(be); cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    return np.stack([va, vb, np.stack([cx, cy, np.sqrt(c**2 - cx**2 - cy**2)], -1)], -2)

KB, EV, AMU = 1.380649e-23, 1.602176634e-19, 1.66053907e-27

def full(P, traj):
    """all quantities following from the given (unit-converted) ones"""
    from pwtools import atomic_data as A
    D = {k: v for k, v in P.items() if v is not None}
    if traj:
        c = D.get('coords', D.get('coords_frac'))
        if c is not None: D['nstep'] = c.shape[0]
        n = D.get('nstep')
        if n is not None:
            for k, nd in (('cell', 2), ('cryst_const', 1)):
                if k in D:
                    v = np.asarray(D[k])
                    if v.ndim == nd: v = np.array([v] * n)
                    elif v.shape[0] == 1 and n != 1: v = np.array([v[0]] * n)
                    D[k] = v
    if 'symbols' in D: D['natoms'] = len(D['symbols'])
    elif D.get('coords', D.get('coords_frac')) is not None: D['natoms'] = D.get('coords', D.get('coords_frac')).shape[-2]
    if 'cell' not in D and 'cryst_const' in D: D['cell'] = cell_of(np.asarray(D['cryst_const'], float))
    if 'cryst_const' not in D and 'cell' in D: D['cryst_const'] = cc_of(np.asarray(D['cell'], float))
    if 'cell' in D:
        if 'coords' not in D and 'coords_frac' in D: D['coords'] = np.matmul(D['coords_frac'], D['cell'])
        if 'coords_frac' not in D and 'coords' in D: D['coords_frac'] = np.matmul(D['coords'], np.linalg.inv(D['cell']))
        if 'volume' not in D: D['volume'] = np.abs(np.linalg.det(np.asarray(D['cell'], float)))
    if 'pressure' not in D and 'stress' in D: D['pressure'] = np.einsum('...ii', D['stress']) / 3.0
    if 'symbols' in D:
        s = D['symbols']
        u = sorted(set(s))
        D['symbols_unique'] = u; D['order'] = {x: i + 1 for i, x in enumerate(u)}; D['ntypat'] = len(u)
        D['typat'] = [D['order'][x] for x in s]; D['nspecies'] = {x: s.count(x) for x in u}
        D['znucl'] = [A.numbers[x] for x in s]; D['znucl_unique'] = [A.numbers[x] for x in u]
        D['mass'] = np.array([A.pt[x]['mass'] for x in s]); D['mass_unique'] = np.array([A.pt[x]['mass'] for x in u])
    if traj:
        if 'velocity' not in D and 'coords' in D and 'timestep' in D:
            c = D['coords']
            v = (c[2:] - c[:-2]) / 2.0 / D['timestep']
            D['velocity'] = np.concatenate([v[:1], v, v[-1:]])
        if 'ekin' not in D and 'mass' in D and 'velocity' in D:
            D['ekin'] = ((D['velocity']**2).sum(2) * D['mass'] / 2).sum(1) * 1e10 * AMU / EV
        if 'temperature' not in D and 'ekin' in D and 'natoms' in D:
            D['temperature'] = D['ekin'] * EV / D['natoms'] / KB * 2 / 3.
        if 'timestep' in D and 'nstep' in D: D['time'] = np.arange(D['nstep']) * float(D['timestep'])
    return D

POWER = dict(cell=('length', 1), coords=('length', 1), volume=('length', 3), etot=('energy', 1), ekin=('energy', 1), stress=('stress', 1), pressure=('stress', 1), forces=('forces', 1), temperature=('temperature', 1), velocity=('velocity', 1), timestep=('time', 1))

def convert(P, units):
    u = units or {}
    out = {}
    for k, v in P.items():
        if v is not None and k in POWER and POWER[k][0] in u: v = v * u[POWER[k][0]]**POWER[k][1]
        if v is not None and k == 'cryst_const' and 'length' in u:
            v = np.array(v, float); v[..., :3] *= u['length']
        out[k] = v
    return out

def close(a, b):
    if a is None or b is None: return a is None and b is None
    if isinstance(b, (list, dict)): return (list(a) if isinstance(b, list) else a) == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    s = max(1e-30, np.abs(b).max() if b.size else 0)
    rtol = 1e-5      # physical constants of different CODATA sets
    return bool((np.abs(a - b) <= rtol * s).all())

def given(scn):
    """the quantities handed to the constructor; consistent where redundant"""
    R = G.rs(scn['seed'], scn['natoms'], scn['nstep'])
    T, n, ns = scn['traj'], scn['natoms'], scn['nstep']
    lead = (ns,) if T else ()
    P = {}
    c0 = G.cell(R)
    # without positions the number of steps is unknown: a constant cell is not possible
    form = scn['cellform'] if scn['pos'] != 'none' or not T else 'full'
    var = T and form == 'full'
    cell = np.array([c0 * (1 + .02 * i) for i in range(ns)]) if var else c0
    if scn['cell'] in ('cryst_const', 'both'):
        cell = cell_of(cc_of(cell))       # the orientation which follows from the cell constants
    if T and form == 'one': cell = cell[None] if cell.ndim == 2 else cell
    if scn['cell'] in ('cell', 'both'): P['cell'] = cell
    if scn['cell'] in ('cryst_const', 'both'): P['cryst_const'] = cc_of(cell)
    frac = R.uniform(-.2, 1.2, lead + (n, 3))
    if scn['pos'] in ('coords_frac', 'both'): P['coords_frac'] = frac
    if scn['pos'] in ('coords', 'both'): P['coords'] = np.matmul(frac, cell)
    if scn['dtype'] == 'i' and scn['pos'] == 'coords': P['coords'] = R.randint(-20, 20, lead + (n, 3))
    if scn['dtype'] == 'i' and scn['cell'] == 'cryst_const' and scn['pos'] != 'both': P['cryst_const'] = np.array([5, 6, 7, 80, 90, 100]) if P['cryst_const'].ndim == 1 else np.array([[5, 6, 7, 80, 90, 100]] * len(P['cryst_const']))
    if scn['symbols'] or scn['pos'] == 'none': P['symbols'] = [G.SYMS[i] for i in R.randint(0, len(G.SYMS), n)]
    ex = scn['extra']
    if 'etot' in ex: P['etot'] = R.normal(size=lead) if T else float(R.normal())
    if 'stress' in ex: P['stress'] = R.normal(size=lead + (3, 3))
    if 'forces' in ex: P['forces'] = R.normal(size=lead + (n, 3))
    if 'pressure' in ex and 'stress' not in ex: P['pressure'] = R.normal(size=lead) if T else float(R.normal())
    if 'volume' in ex and scn['cell'] == 'none': P['volume'] = R.uniform(9, 99, size=lead) if T else float(R.uniform(9, 99))
    if T:
        if 'velocity' in ex: P['velocity'] = R.normal(size=lead + (n, 3)) * .01
        if 'timestep' in ex and (ns > 2 or 'velocity' in ex): P['timestep'] = float(R.choice([.5, 1.0, 2.4]))
        if 'ekin' in ex: P['ekin'] = R.uniform(.1, 1, size=lead)
        if 'temperature' in ex: P['temperature'] = R.uniform(100, 999, size=lead)
    return P

class Obj:
    """a container with what is known about it"""
    def __init__(self, o, P, traj, units, applied, keep=None):
        self.o, self.P, self.traj, self.units, self.applied = o, P, traj, units, applied
        self.f32 = False
    def fork(self, o):
        x = Obj(o, dict(self.P), self.traj, self.units, self.applied)
        return x
    def conv(self):
        return self.P if self.applied else convert(self.P, self.units)

def picture(o):
    d = {k: G.attrs(o)[k] for k in G.attrs(o)}
    d['units'] = dict(o.units); d['units_applied'] = o.units_applied; d['attr_lst'] = sorted(set(o.attr_lst))
    d['class'] = type(o).__name__
    return d

def pdiff(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not G.same(a[k], b[k]))

def life(scn, root):
    import warnings
    warnings.simplefilter('ignore')
    from pwtools import crys, io
    log, states, stats = [], set(), dict(intr=0, pend=0, cmp=0)
    P = given(scn)
    units = UNITS[scn['units']]
    cls = crys.Trajectory if scn['traj'] else crys.Structure
    inp = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in P.items()}
    o = cls(set_all_auto=scn['auto'], units=units, **inp)
    X = Obj(o, P, scn['traj'], units, scn['auto'])
    if scn['auto']: X.P = convert(P, units)
    X.derived = scn['auto']

    def verify(X, what, complete, names=None):
        E = full(X.conv() if X.applied or complete else X.P, X.traj)
        for k in sorted(set(X.o.attr_lst)):
            v = getattr(X.o, k, None)
            if names is not None and k not in names and v is None: continue
            if not complete and v is None: continue
            if not complete and not X.applied: continue     # half-way states in file units
            e = E.get(k)
            stats['cmp'] += 1
            if k in ('cell', 'cryst_const') and X.traj and v is not None and e is not None and np.ndim(v) < np.ndim(e) and not complete:
                e = e[0]
            if k in ('cell', 'cryst_const') and X.traj and v is not None and e is not None and not complete and len(v) == 1 and np.ndim(v) == np.ndim(e): e = e[:1]
            check(close(v, e), 'inconsistent', lambda: '%s: %s is %s, from the primary data %s follows %s' % (what, k, np.array2string(np.asarray(v), threshold=12), sorted(X.P), np.array2string(np.asarray(e), threshold=12)))

    def call(o, fn, repeat):
        """fn(), perhaps interrupted; repeat: do it again after the interrupt"""
        if not o.get('intr'):
            return fn(), None
        exc = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[o['exc']]
        box = []
        x = sched.interrupt_at(o['intr'], lambda: box.append(fn()), exc=exc)
        if box: return box[0], None
        if not x[2]: raise Violation('operation-fails', '%s: %s' % (o['op'], x[1]))
        stats['intr'] += 1
        if repeat: return fn(), x[2]
        return None, x[2]

    def usable(X):
        """enough steps to derive a velocity"""
        c = X.P.get('coords', X.P.get('coords_frac'))
        return not (X.traj and c is not None and c.shape[0] < 3 and X.P.get('velocity') is None and X.P.get('timestep') is not None)

    others = []         # (object, picture at the time it was left, description)
    for i, op in enumerate(scn['ops']):
        k = op['op']
        what = 'step %d %s %s' % (i, k, {x: op[x] for x in ('intr', 'exc') if x in op})
        o = X.o
        if k in ('replace', 'unset', 'compress', 'some') and not X.applied: k = 'apply' if op['k'] < .5 else 'set_all'
        fired = None
        if not usable(X): break
        try:
            if k == 'set_all':
                _, fired = call(op, o.set_all, True)
                if not X.applied: X.P = X.conv(); X.applied = True
                verify(X, what + (' interrupted in %s' % fired if fired else ''), True)
                p = picture(o)
                o.set_all()
                d = pdiff(p, picture(o))
                check(not d, 'deriving-twice-changes', lambda: '%s: a second set_all() changes %s' % (what, d))
            elif k == 'apply':
                _, fired = call(op, o.apply_units, True)
                if not X.applied: X.P = X.conv(); X.applied = True
                verify(X, what + (' interrupted in %s' % fired if fired else ''), False)
                p = picture(o); o.apply_units()
                d = pdiff(p, picture(o))
                check(not d, 'units-applied-twice', lambda: '%s: a second apply_units() changes %s' % (what, d))
            elif k == 'some':
                names = [n for n in op['names'] if n in o.attr_lst]
                if X.traj: o._extend_arrays_apply_units()
                def some():
                    for n in names:
                        o.try_set_attr(n) if op['k'] < .7 else o.check_set_attr_lst([n])
                _, fired = call(op, some, True)
                verify(X, what + ' %s%s' % (names, ' interrupted in %s' % fired if fired else ''), False, names)
            elif k == 'replace':
                R = G.rs(op['seed'], 5)
                w = op['what']
                E = full(X.P, X.traj)
                ns = E.get('nstep'); n = E.get('natoms')
                lead = (ns,) if X.traj else ()
                if n is None or (X.traj and ns is None) or (w in ('velocity', 'timestep') and not X.traj): continue
                newP = {a: E[a] for a in ('cell', 'coords', 'coords_frac', 'symbols', 'etot', 'stress', 'forces', 'timestep') if a in E}
                for a in ('velocity', 'ekin', 'temperature', 'pressure', 'volume', 'cryst_const'):
                    if a in X.P: newP[a] = X.P[a]
                unset = []
                if w in ('cell', 'cryst_const'):
                    c = G.cell(R)
                    if w == 'cryst_const': c = cell_of(cc_of(c))
                    c = np.array([c * (1 + .01 * j) for j in range(ns)]) if X.traj else c
                    for a in ('cell', 'cryst_const', 'volume'): newP.pop(a, None)
                    newP[w] = c if w == 'cell' else cc_of(c)
                    unset = ['cell', 'cryst_const', 'volume']
                    drop = 'coords' if op['keep'] == 'coords_frac' else 'coords_frac'
                    if newP.get(op['keep']) is None: drop = None
                    if drop:
                        newP.pop(drop, None); unset.append(drop)
                        if drop == 'coords': unset += ['velocity', 'ekin', 'temperature']; [newP.pop(a, None) for a in ('velocity', 'ekin', 'temperature')]
                elif w in ('coords', 'coords_frac'):
                    for a in ('coords', 'coords_frac', 'velocity', 'ekin', 'temperature'): newP.pop(a, None)
                    newP[w] = R.uniform(-1, 5, lead + (n, 3)) if w == 'coords' else R.uniform(0, 1, lead + (n, 3))
                    unset = ['coords', 'coords_frac', 'velocity', 'ekin', 'temperature']
                elif w == 'symbols':
                    newP['symbols'] = [G.SYMS[j] for j in R.randint(0, len(G.SYMS), n)]
                    [newP.pop(a, None) for a in ('ekin', 'temperature')]
                    unset = ['symbols', 'symbols_unique', 'order', 'typat', 'nspecies', 'ntypat', 'znucl', 'znucl_unique', 'mass', 'mass_unique', 'ekin', 'temperature']
                elif w == 'velocity':
                    newP['velocity'] = R.normal(size=lead + (n, 3)); [newP.pop(a, None) for a in ('ekin', 'temperature')]
                    unset = ['velocity', 'ekin', 'temperature']
                elif w == 'timestep':
                    newP['timestep'] = float(R.choice([.25, 3.0])); [newP.pop(a, None) for a in ('velocity', 'ekin', 'temperature')]
                    unset = ['timestep', 'time', 'velocity', 'ekin', 'temperature']
                elif w == 'stress':
                    newP['stress'] = R.normal(size=lead + (3, 3)); newP.pop('pressure', None); unset = ['stress', 'pressure']
                elif w == 'etot':
                    newP['etot'] = R.normal(size=lead) if X.traj else float(R.normal()); unset = ['etot']
                elif w == 'forces':
                    newP['forces'] = R.normal(size=lead + (n, 3)); unset = ['forces']
                # make what is kept an attribute of the object first
                for a in ('cell', 'coords', 'coords_frac'):
                    if a in newP and a not in unset: o._extend_arrays_apply_units(); o.try_set_attr(a)
                for a in unset:
                    if a in o.attr_lst: setattr(o, a, None)
                v = newP[w]
                setattr(o, w, v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v)
                X.P = newP
                if not usable(X): break
                _, fired = call(op, o.set_all, True)
                verify(X, what + ' %s%s' % (w, ' interrupted in %s' % fired if fired else ''), True)
            elif k == 'unset':
                E = full(X.P, X.traj)
                o.set_all()
                names = [n for n in op['names'] if n in o.attr_lst and n not in ('nstep',)]
                # keep one of two mutually derivable quantities
                for a, b in (('coords', 'coords_frac'), ('cell', 'cryst_const')):
                    if a in names and b in names: names.remove(a)
                if 'cryst_const' in names and getattr(o, 'cell') is None: names.remove('cryst_const')
                if 'cell' in names:
                    # cell constants keep no orientation
                    c = E.get('cell')
                    if c is None or not close(c, cell_of(cc_of(np.asarray(c, float)))): names.remove('cell')
                for a, b in (('coords', 'coords_frac'), ('coords_frac', 'coords')):
                    if a in names and ('cell' not in E or E.get(b) is None): names.remove(a)
                for n in names: setattr(o, n, None)
                newP = dict(X.P)
                for n in names: newP.pop(n, None)
                for a in ('coords', 'coords_frac', 'cell', 'cryst_const'):
                    if a not in names and a in E: newP[a] = E[a]
                # what was derived from an unset given quantity stays set
                for a in ('velocity', 'ekin', 'temperature', 'volume', 'pressure'):
                    if a not in names and a in E: newP[a] = E[a]
                X.P = newP
                if not usable(X): break
                _, fired = call(op, o.set_all, True)
                verify(X, what + ' %s%s' % (names, ' interrupted in %s' % fired if fired else ''), True)
            elif k in ('copy', 'copyedit'):
                p = picture(o)
                if not X.applied and X.units: stats['pend'] += 1
                c, fired = call(op, o.copy, True)
                check(not pdiff(p, picture(o)), 'copy-changes-original', lambda: '%s: %s' % (what, pdiff(p, picture(o))))
                q = picture(c)
                check(not pdiff(p, q), 'copy-differs', lambda: '%s: %s' % (what, {n: (p.get(n), q.get(n)) for n in pdiff(p, q)}))
                if k == 'copyedit':
                    e = c if op['go'] == 'new' else o
                    pk = q if op['go'] == 'new' else p
                    for n in set(e.attr_lst):
                        v = getattr(e, n, None)
                        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable: v += 1.5
                        elif isinstance(v, list): v.append(v[0] if v else 1)
                        elif isinstance(v, dict): v['zz'] = 9
                    e.units['length'] = 77.0
                    rest = o if op['go'] == 'new' else c
                    d = pdiff(p, picture(rest))
                    check(not d, 'copy-not-independent', lambda: '%s: changing the %s changed %s' % (what, 'copy' if op['go'] == 'new' else 'original', d))
                    X.o = rest
                else:
                    if op['go'] == 'new': others.append((o, p, what)); X = X.fork(c)
                    else: others.append((c, q, what))
            elif k == 'index' and X.traj:
                if o.nstep is None and not (o.check_set_attr('nstep')): continue
                j = op['a'] % o.nstep
                if not X.applied or any(a in X.P and (np.ndim(X.P[a]) < nd or len(X.P[a]) != o.nstep) for a, nd in (('cell', 3), ('cryst_const', 2))):
                    o.set_all()
                    if not X.applied: X.P = X.conv(); X.applied = True
                E = full(X.P, True)
                s, fired = call(op, lambda: o[j], True)
                Y = Obj(s, {a: (E[a][j] if a not in ('symbols',) else E[a]) for a in E if a in ('cell', 'coords', 'coords_frac', 'cryst_const', 'etot', 'forces', 'stress', 'pressure', 'volume', 'symbols')}, False, X.units, True)
                s.set_all()
                verify(Y, what + ' [%d]' % j, True)
                if op['go'] == 'new': X = Y
            elif k == 'slice' and X.traj:
                o.set_all()
                if not X.applied: X.P = X.conv(); X.applied = True
                E = full(X.P, True)
                if 'nstep' not in E: continue
                sl = slice(min(op['a'], op['b']) % E['nstep'], None, op['c'])
                t, fired = call(op, lambda: o[sl], True)
                PP = {a: (E[a][sl] if a not in ('symbols', 'timestep') else E[a]) for a in E if a in ('cell', 'coords', 'coords_frac', 'cryst_const', 'etot', 'forces', 'stress', 'pressure', 'volume', 'velocity', 'ekin', 'temperature', 'symbols', 'timestep')}
                if 'timestep' in PP: PP['timestep'] = PP['timestep'] * (op['c'] or 1)
                if op['go'] == 'new':
                    X = Obj(t, PP, True, X.units, True)
                    # times of a slice are those of the trajectory; derive anew
                    t.time = None
                    if usable(X): t.set_all(); verify(X, what + ' %s' % sl, True)
            elif k == 'traj' and not X.traj:
                o.set_all()
                if not X.applied: X.P = X.conv(); X.applied = True
                E = full(X.P, False)
                if E.get('coords') is None and E.get('coords_frac') is None: continue
                m = 1 + abs(op['a']) % 4
                t, fired = call(op, lambda: o.get_traj(m), True)
                PP = {a: (np.array([E[a]] * m) if a != 'symbols' else E[a]) for a in E if a in ('cell', 'coords', 'coords_frac', 'cryst_const', 'etot', 'forces', 'stress', 'pressure', 'volume', 'symbols')}
                Y = Obj(t, PP, True, X.units, True)
                verify(Y, what + ' nstep=%d' % m, True)
                if op['go'] == 'new': X = Y
            elif k in ('dump', 'load'):
                fn = os.path.join(root, 'd%d' % i, 'x.pk')
                p = picture(o)
                if not X.applied and X.units: stats['pend'] += 1
                _, fired = call(op, lambda: o.dump(fn), True)
                check(not pdiff(p, picture(o)), 'copy-changes-original', lambda: '%s: %s' % (what, pdiff(p, picture(o))))
                if k == 'dump':
                    c = io.read_pickle(fn)
                else:
                    c = type(o)()
                    c.load(fn)
                q = picture(c)
                check(not pdiff(p, q), 'copy-differs', lambda: '%s: %s' % (what, {n: (p.get(n), q.get(n)) for n in pdiff(p, q)}))
                if op['go'] == 'new': others.append((o, p, what)); X = X.fork(c)
                else: others.append((c, q, what))
            elif k == 'compress':
                o.set_all()
                if not X.applied: X.P = X.conv(); X.applied = True
                p = picture(o)
                c, fired = call(op, lambda: crys.compress(o, copy=True, forget=[n for n in ('forces', 'stress') if op['k'] < .5]), True)
                check(not pdiff(p, picture(o)), 'copy-changes-original', lambda: what)
                q = picture(c)
                for n in set(p):
                    if n in ('forces', 'stress') and op['k'] < .5:
                        check(n not in q, 'copy-differs', lambda: '%s: %s not dropped' % (what, n))
                    elif isinstance(p[n], np.ndarray) and p[n].dtype.kind == 'f':
                        check(n in q and q[n].dtype == np.float32 and G.same(q[n], p[n].astype(np.float32)), 'copy-differs', lambda: '%s: %s' % (what, n))
                    else:
                        check(n in q and G.same(p[n], q[n]), 'copy-differs', lambda: '%s: %s' % (what, n))
            elif k == 'units' and not X.applied:
                u = UNITS[op['seed'] % len(UNITS)]
                _, fired = call(op, lambda: o.update_units(u), True)
                m = dict(X.units or {}); m.update(u or {}); X.units = m
            elif k == 'atoms' and not X.traj and X.applied:
                E = full(X.P, False)
                if not all(a in E for a in ('coords', 'coords_frac', 'cell', 'symbols')): continue
                p = picture(o)
                at = o.get_ase_atoms()
                check(close(at.get_positions(), E['coords']) and list(at.get_chemical_symbols()) == E['symbols'] and close(np.array(at.get_cell()), E['cell']), 'inconsistent', lambda: '%s: %s' % (what, at))
                at.positions[...] = 0; at.cell[...] = np.eye(3)
                c2 = crys.Structure(set_all_auto=False)
                f = o.get_fake_ase_atoms()
                check(close(f.get_scaled_positions(), E['coords_frac']) and close(f.get_positions(), E['coords']), 'inconsistent', what)
                sp = o.get_spglib()
                d = [n for n in pdiff(p, picture(o)) if n in p]
                check(not d, 'copy-not-independent', lambda: '%s: %s changed' % (what, d))
            else:
                continue
        except Violation:
            raise
        except Exception as e:
            import traceback
            raise Violation('operation-fails', '%s: %s: %s; given %s units %s\n%s' % (what, type(e).__name__, e, {a: np.shape(v) for a, v in X.P.items()}, X.units, traceback.format_exc()[-700:]))
        log.append((k, fired))
        for c, p, w in others:
            d = pdiff(p, picture(c))
            check(not d, 'copy-not-independent', lambda: '%s changed %s of the other object of %s' % (what, d, w))
        states.add(repr((X.traj, sorted(n for n in set(X.o.attr_lst) if getattr(X.o, n, None) is not None), X.o.units_applied, k, bool(fired))))
    for k, v in inp.items():
        pass
    return log, sorted(states), stats

def run(scn, E):
    E.states = set()
    R = E.node(life, scn, E.root)
    check(R.status == 'ok', 'operation-fails', lambda: '%r %s' % (R, R.tb[-1200:]))
    log, states, st = R.value
    E.states.update(states)
    for l in log: E.event(*l)
    if st['intr']: E.fault('interrupt_or_memory_error_at_line', st['intr'])
    if st['pend']: E.probe('copied_with_units_pending', st['pend'])
    E.probe('quantities_compared', st['cmp'])
