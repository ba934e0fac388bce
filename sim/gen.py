"""Seeded input data shared by several checks.  Everything is a function of a
spec (JSON values); nothing is drawn at execution time."""
import numpy as np

SYMS = ['H', 'C', 'N', 'O', 'Al', 'Si', 'Ti', 'Fe', 'Cl', 'Na']

def rs(*seed):
    h = 0
    for s in seed:
        h = (h * 1000003 + int(s)) % (2**31 - 1)
    return np.random.RandomState(h)

def cell(R, kind='tri'):
    if kind == 'ortho':
        return np.diag(R.uniform(3, 9, 3))
    c = np.diag(R.uniform(4, 9, 3)) + R.uniform(-.8, .8, (3, 3))
    return c

def array(seed, shape, dtype='f'):
    R = rs(seed, len(shape), 17)
    if dtype == 'i':
        return R.randint(-1000, 1000, size=shape)
    a = R.normal(size=shape) * 10.0 ** R.randint(-12, 12, size=shape)
    if a.size and R.rand() < .3:
        f = a.reshape(-1)
        f[R.randint(f.size)] = 0.0
        f[R.randint(f.size)] = -1e-300
    return a

def structure(seed, natoms, extra=True):
    from pwtools import crys
    R = rs(seed, natoms, 3)
    kw = dict(coords_frac=R.uniform(0, 1, (natoms, 3)), cell=cell(R),
              symbols=[SYMS[i] for i in R.randint(0, len(SYMS), natoms)])
    if extra:
        if R.rand() < .6: kw['forces'] = R.normal(size=(natoms, 3))
        if R.rand() < .6: kw['etot'] = float(R.normal())
        if R.rand() < .6: kw['stress'] = R.normal(size=(3, 3))
    return crys.Structure(**kw)

def trajectory(seed, nstep, natoms, varcell=True, extra=True):
    from pwtools import crys
    R = rs(seed, natoms, nstep)
    c = cell(R)
    kw = dict(coords_frac=R.uniform(0, 1, (nstep, natoms, 3)),
              cell=np.array([c * (1 + .01 * i * varcell) for i in range(nstep)]),
              symbols=[SYMS[i] for i in R.randint(0, len(SYMS), natoms)])
    if nstep > 2:       # velocities by central differences need three steps
        kw['timestep'] = float(R.choice([.5, 1.0, 41.3]))
    if extra:
        if R.rand() < .6: kw['forces'] = R.normal(size=(nstep, natoms, 3))
        if R.rand() < .6: kw['etot'] = R.normal(size=nstep)
        if R.rand() < .4: kw['stress'] = R.normal(size=(nstep, 3, 3))
        if R.rand() < .4: kw['velocity'] = R.normal(size=(nstep, natoms, 3))
    return crys.Trajectory(**kw)

def attrs(obj):
    """plain picture of a container: {name: value}"""
    out = {}
    for k in sorted(set(obj.attr_lst)):
        v = getattr(obj, k, None)
        if v is None:
            continue
        if isinstance(v, np.ndarray):
            v = v.copy()
        elif isinstance(v, dict):
            v = dict(v)
        elif isinstance(v, (list, tuple)):
            v = list(v)
        out[k] = v
    return out

def same(a, b, rtol=0, atol=0):
    """deep equality with arrays (NaN equals NaN); shapes and kinds must agree"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            if rtol == 0 and atol == 0:
                return bool(np.array_equal(a, b, equal_nan=True))
            return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(same(a[k], b.get(k), rtol, atol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating, int, np.integer)):
        if a != a and b != b:
            return True
        return bool(abs(a - b) <= atol + rtol * abs(b))
    if type(a).__module__.startswith('pwtools') and hasattr(a, 'attr_lst'):
        return same(attrs(a), attrs(b), rtol, atol)
    return a == b

def diff(a, b, rtol=0, atol=0):
    """names of differing entries of two dicts"""
    return [k for k in sorted(set(a) | set(b), key=str) if k not in a or k not in b or not same(a[k], b[k], rtol, atol)]

def brief(v):
    if isinstance(v, np.ndarray):
        return 'array%s %s' % (v.shape, np.array2string(v.reshape(-1)[:6], threshold=6))
    return repr(v)[:200]
