"""Histories of parser use, shared by C08 and C09."""
import copy, os, pickle, re
import numpy as np
from . import md, gen as G, sched
from .core import HarnessError

CODES = ['pw_md', 'pw_vcmd', 'pw_scf', 'cpmd', 'cpmd_scf', 'cp2k', 'cp2k_dcd', 'cp2k_relax', 'cp2k_scf', 'lammps', 'lammps_dcd', 'cif', 'pdb']
UNITS = ['length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time']
NOGET = ('get_cont', 'get_struct', 'get_traj', 'get_return_attr', 'get_default_units')

def spec_job(r):
    s = md.spec(r, CODES, nstep=r.choice([2, 3, 3, 4, 5]))
    return s

def spec_opts(r):
    o = {}
    if r.random() < .5:
        o['units'] = {u: r.choice([2.0, 0.5, 3.25, 1e-3]) for u in r.sample(UNITS, r.choice([1, 1, 2, 3]))}
    if r.random() < .3:
        o['use_alat'] = False
    if r.random() < .3:
        o['block'] = 0
    if r.random() < .3:
        o['order'] = r.randrange(10**6)
    return o

def kwds(J, code, o, tab=None):
    """keyword arguments of the parser; the units dict is one object shared by
    everybody who uses this option set"""
    k = {}
    if 'units' in o:
        k['units'] = o['units'] if tab is None else tab
    if 'use_alat' in o and code.startswith('pw'):
        k['use_alat'] = o['use_alat']
    if 'block' in o and code == 'cif':
        k['block'] = 'b0'
    if 'order' in o and code.startswith('lammps'):
        us = sorted(set(J.static.get('symbols', [])))
        R = G.rs(o['order'])
        k['order'] = {us[j]: i + 1 for i, j in enumerate(R.permutation(len(us)))}
    return k

def jobdir(i):
    return ('job%d', 'job=%d')[i % 2] % i

def put_one(i, s):
    os.makedirs(jobdir(i), exist_ok=True)
    full = md.job(s).full()
    old = {}
    for f in os.listdir(jobdir(i)):
        old[f] = os.stat(os.path.join(jobdir(i), f)).st_mtime
        if not s.get('mut') or f not in full:
            os.unlink(os.path.join(jobdir(i), f))
    for f, b in full.items():
        p = os.path.join(jobdir(i), f)
        if s.get('mut') and b'\0' not in b:
            # other numbers, same size (and same inode)
            b = re.sub(rb'(\.\d)(\d)', lambda m: m.group(1) + b'%d' % ((int(m.group(2)) + s['mut']) % 10), b)
        with open(p, 'wb') as h:
            h.write(b)
        if f in old:        # the clock has moved on since
            os.utime(p, (old[f] + 2, old[f] + 2))

def put(jobs):
    for i, s in enumerate(jobs):
        put_one(i, s)

def make(i, s, o, tab=None):
    from pwtools import parse
    J = md.job(s)
    return getattr(parse, J.parser)(os.path.join(jobdir(i), J.main), **kwds(J, s['code'], o, tab))

def getters(p):
    """names of all quantities a parser object can be asked for"""
    import inspect
    out = []
    for n in sorted(dir(type(p))):
        if n in NOGET or not (n.startswith('get_') or n.startswith('_get_')):
            continue
        f = inspect.getattr_static(type(p), n)
        if isinstance(f, (staticmethod, classmethod)) or not callable(f):
            continue
        ps = list(inspect.signature(f).parameters.values())[1:]
        if any(q.default is q.empty and q.kind not in (q.VAR_KEYWORD, q.VAR_POSITIONAL) for q in ps):
            continue
        out.append(('_' if n.startswith('_get_') else '') + n.lstrip('_')[4:])
    return out

def getter(p, attr):
    return getattr(p, '_get' + attr if attr.startswith('_') else 'get_' + attr)()

def quiet(fn, *a):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('ok', fn(*a))
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])

def plain(v):
    """comparable, independent copy of a quantity"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (int, float, str, bool, np.generic)):
        return v
    if hasattr(v, 'attr_lst'):
        return picture(v)
    return str(type(v).__name__)

def picture(c):
    out = {k: plain(v) for k, v in G.attrs(c).items()}
    out['__class__'] = type(c).__name__
    out['__units__'] = dict(c.units)
    out['__applied__'] = bool(c.units_applied)
    return out

def ref_cont(i, s, o, auto):
    p = quiet(make, i, s, o)
    if p[0] != 'ok':
        return p
    r = quiet(p[1].get_cont, auto)
    return r if r[0] != 'ok' else ('ok', picture(r[1]))

def ref_getters(i, s, o):
    """every quantity from an own parser object"""
    names = getters(make(i, s, o))
    out = {}
    for n in names:
        r = quiet(getter, make(i, s, o), n)
        out[n] = r if r[0] != 'ok' else ('ok', plain(r[1]))
    return out

def eq(a, b):
    """outcomes"""
    if a[0] != b[0]:
        return False
    return a[0] == 'exc' or G.same(a[1], b[1])

def why(a, b):
    if a[0] == 'exc':
        return 'raises %s: %s; alone it gives %s' % (a[1], a[2], G.brief(b[1]) if not isinstance(b[1], dict) else 'a result')
    if b[0] == 'exc':
        return 'gives %s; alone it raises %s: %s' % (G.brief(a[1]), b[1], b[2])
    if isinstance(a[1], dict) and isinstance(b[1], dict):
        d = G.diff(a[1], b[1])
        return '; '.join('%s is %s, alone it is %s' % (k, G.brief(a[1].get(k)), G.brief(b[1].get(k))) for k in d[:3])
    return 'is %s, alone it is %s' % (G.brief(a[1]), G.brief(b[1]))
