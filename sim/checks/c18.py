"""C18 RandomStructure under simulated random streams, histories, interrupts, threads."""
import threading
import numpy as np
from .. import core, sched
from ..core import check, Violation

ID = 'C18'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=1500, wall=110), thorough=dict(runs=40000, wall=1500))
RULE = ('a run = 1-3 generators (composition, volume/angle/length/closeness/try settings, sensible and impossible ones) used for 1-6 generations by 1-3 actors (threads under the seeded line-level '
        'scheduler or one after the other); the random source is simulated: honest pseudo-random, stuck at one value, at the ends of the interval, cycling, or switching between these after a drawn '
        'number of values; Ctrl-C hits at a drawn library line; returned structures are edited by the caller in between; every structure is checked against a search over all relevant periodic images and '
        'compared with the same generation in a fresh process; non-trivial = a generation was rejected at least once, failed or was interrupted; distinct = distinct event-log hash')
REAL = ['pwtools.random.RandomStructure, random_struct', 'pwtools.crys.Structure', '_flib.distsq_frac']
STUB = ['random source (numpy.random module-level functions)', 'thread scheduler (seeded, one library line at a time)']
LISTS = ['ops']
STATES = 'hash of (stream kind, configuration class, outcome)'
ELEMS = ['H', 'Si', 'Si', 'O', 'C', 'Al', 'Cs', 'Ca', 'Xe', 'F']
TOP = 1.0 - 2.0**-53

def prepare():
    import pwtools.random, pwtools.crys

def conf(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 6, 10])
    k = r.choice(['default', 'default', 'easy', 'easy', 'dense', 'wide', 'wide', 'tight', 'mixed', 'mixed', 'impossible'])
    sy = [r.choice(ELEMS[:r.choice([1, 3, len(ELEMS)])]) for i in range(n)]
    c = dict(symbols=sy, kind=k)
    if k != 'default' or r.random() < .5:
        c['cell_maxtry'] = r.choice([1, 3, 20, 100])
        c['atom_maxtry'] = r.choice([1, 4, 30, 100])
    if k == 'easy':
        c.update(vol_scale=r.choice([200, 500]), cell_maxtry=400, atom_maxtry=200, angle_range=[70.0, 110.0], vol_range_scale=[.2, 3.0]); c['symbols'] = sy[:4]
    elif k == 'dense':
        c.update(vol_scale=r.choice([1, 1.5, 2]), close_scale=r.choice([.5, .8, 1.0]))
    elif k == 'wide':
        c.update(angle_range=r.choice([[20.0, 160.0], [30.0, 150.0], [100.0, 140.0], [20.0, 40.0], [60.0, 160.0]]), vol_range_scale=r.choice([[.1, 2.0], [.3, 1.3], [.7, 1.3]]), vol_scale=r.choice([3, 6, 20]))
    elif k == 'tight':
        c.update(angle_range=[90.0, 90.0], length_range_scale=[1.0, 1.0], vol_range_scale=r.choice([[.9, 1.1], [.999, 1.001]]), vol_scale=r.choice([4, 8]))
    elif k == 'mixed':
        c.update(length_range_scale=r.choice([[.4, 2.0], [.7, 1.3], [1.0, 1.5]]), vol_range_scale=r.choice([[.4, 2.0], [.7, 1.3]]), close_scale=r.choice([.3, .9, 1.2, 2.0]), vol_scale=r.choice([3, 5, 10]))
    elif k == 'impossible':
        c.update(r.choice([dict(close_scale=50.0), dict(vol_range_scale=[5.0, 6.0]), dict(angle_range=[125.0, 150.0]), dict(angle_range=[150.0, 160.0]), dict(length_range_scale=[3.0, 3.1])]))
        c.setdefault('cell_maxtry', 20); c.setdefault('atom_maxtry', 20)
    return c

def stream(r):
    k = r.choice(['mt', 'mt', 'mt', 'const', 'ends', 'cycle', 'then', 'then', 'coarse'])
    s = dict(kind=k, seed=r.randrange(10**6))
    if k == 'const': s['v'] = r.choice([0.0, TOP, .5, 1e-300, r.random()])
    if k in ('cycle', 'then'): s['n'] = r.choice([1, 2, 3, 5, 6, 7, 12, 30]); s['vals'] = [r.choice([0.0, TOP, .5, r.random(), r.random()]) for i in range(r.choice([1, 2, 3, 6, 9]))]
    return s

def generate(r, tier, idx):
    nact = r.choice([1, 1, 1, 2, 3])
    thr = nact > 1
    cf = [conf(r) for i in range(max(nact, r.choice([1, 1, 2, 3])))]
    if thr:
        for c in cf:
            c['symbols'] = c['symbols'][:4]
            for k in ('cell_maxtry', 'atom_maxtry'): c[k] = min(c.get(k, 30), 30)
            if c['kind'] == 'easy': c['kind'] = 'easythr'
    ops = []
    for i in range(r.choice([1, 2, 3, 6])):
        a = r.randrange(nact)
        g = a if thr else r.randrange(len(cf))
        o = dict(op=r.choice(['gen', 'gen', 'gen', 'gen', 'shortcut', 'edit', 'nofail']), a=a, g=g, st=stream(r), edit=r.choice(['symbols', 'coords', 'cell', 'all']))
        if o['op'] == 'nofail' and (cf[g]['kind'] not in ('easy', 'easythr') or o['st']['kind'] != 'mt'): o['op'] = 'gen'
        if not thr and r.random() < .12: o['intr'] = r.randrange(1, r.choice([30, 300, 2000]))
        ops.append(o)
    return dict(confs=cf, ops=ops, threads=thr, form=r.choice(['list', 'list', 'tuple', 'array']), choices=[r.randrange(r.choice([2, 6, 30])) for i in range(r.randrange(5, 60))] if thr else [])

def valid(scn):
    return bool(scn['ops'])

class TooMany(BaseException):
    pass

class Stream:
    """source of uniform values in [0, 1); all numpy.random module functions lead here"""
    def __init__(self, spec, limit):
        self.s, self.limit, self.n = spec, limit, 0
        self.mt = np.random.RandomState(spec['seed'])
        self.buf = []
    def one(self):
        self.n += 1
        if self.n > self.limit:
            raise TooMany()
        k = self.s['kind']
        if k == 'const': return self.s['v']
        if k == 'mt': return self.mt.random_sample()
        if k == 'ends': return (0.0, TOP)[self.mt.randint(2)]
        if k == 'coarse': return self.mt.randint(4) / 4.0
        if k == 'cycle': return self.s['vals'][self.n % len(self.s['vals'])]
        if self.n <= 6 + 6 * (self.s['n'] % 3): return self.mt.random_sample()     # then: honest first, stuck later
        return self.s['vals'][self.n % len(self.s['vals'])]
    def arr(self, size):
        if size is None: return self.one()
        shp = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        return np.array([self.one() for i in range(int(np.prod(shp)))]).reshape(shp)

class Seam:
    """routes numpy.random to the stream of the current thread"""
    def __init__(self):
        self.tl = threading.local()
    def cur(self):
        return self.tl.s
    def install(self):
        import pwtools.random as M
        R = np.random
        rnd = lambda size=None: self.cur().arr(size)
        def uni(low=0.0, high=1.0, size=None):
            u = self.cur().arr(size)
            return low + (high - low) * u
        def rand(*shape):
            return self.cur().arr(shape if shape else None)
        rep = dict(rand=rand, uniform=uni, random=rnd, random_sample=rnd, ranf=rnd, sample=rnd)
        self.saved = []
        for n, f in rep.items():
            o = getattr(R, n)
            for mod in (R, M):
                for k, v in list(vars(mod).items()):
                    if v == o and (mod is M or k == n) and callable(v):
                        self.saved.append((mod, k, v)); setattr(mod, k, f)
    def remove(self):
        for m, k, v in self.saved: setattr(m, k, v)

def fresh(c, form):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in c.items() if k not in ('kind', 'symbols')}
    sy = list(c['symbols'])
    return (tuple(sy) if form == 'tuple' else np.array(sy) if form == 'array' else sy), kw

def limits(c):
    from pwtools import atomic_data
    rad = np.array([atomic_data.pt[s]['cov_rad'] for s in c['symbols']])
    vol = 4.0 / 3.0 * np.pi * (rad**3).sum() * c.get('vol_scale', 4)
    vs = c.get('vol_range_scale', [.7, 1.3]); ls = c.get('length_range_scale', [.7, 1.3]); an = c.get('angle_range', [60.0, 120.0])
    L = vol**(1 / 3.0)
    return rad, [vol * v for v in vs], [L * v for v in ls], an, (rad[:, None] + rad) * c.get('close_scale', 1)

def draws_max(c):
    return 20 * (12 * c.get('cell_maxtry', 100) + len(c['symbols']) * 6 * c.get('atom_maxtry', 1000) + 100)

def verify(st, c, what):
    rad, vr, lr, ar, dmin = limits(c)
    n = len(c['symbols'])
    check([str(s) for s in st.symbols] == c['symbols'], 'wrong-atoms', lambda: '%s: symbols %s' % (what, list(st.symbols)))
    cf, cell = np.asarray(st.coords_frac, dtype=float), np.asarray(st.cell, dtype=float)
    check(cf.shape == (n, 3) and cell.shape == (3, 3) and np.isfinite(cf).all() and np.isfinite(cell).all(), 'wrong-atoms', lambda: '%s: coords_frac %s cell %s' % (what, cf, cell))
    ln = np.sqrt((cell**2).sum(1))
    cosa = [cell[1] @ cell[2] / ln[1] / ln[2], cell[0] @ cell[2] / ln[0] / ln[2], cell[0] @ cell[1] / ln[0] / ln[1]]
    ang = np.degrees(np.arccos(np.clip(cosa, -1, 1)))
    vol = abs(np.linalg.det(cell))
    check((ln >= lr[0] * (1 - 1e-8)).all() and (ln <= lr[1] * (1 + 1e-8)).all(), 'cell-out-of-range', lambda: '%s: cell lengths %s, allowed %s' % (what, ln, lr))
    check((ang >= ar[0] - 1e-5).all() and (ang <= ar[1] + 1e-5).all(), 'cell-out-of-range', lambda: '%s: angles %s, allowed %s' % (what, ang, ar))
    check(vr[0] * (1 - 1e-7) <= vol <= vr[1] * (1 + 1e-7), 'cell-out-of-range', lambda: '%s: volume %s, allowed %s' % (what, vol, vr))
    if n > 1:
        h = 1.0 / np.sqrt((np.linalg.inv(cell)**2).sum(0))
        N = np.minimum(np.floor(dmin.max() / h + .5).astype(int) + 1, 12)
        img = np.indices(2 * N + 1).reshape(3, -1).T - N
        for i in range(n):
            s = cf[:i] - cf[i]
            s = s - np.round(s)
            if not i: continue
            d = np.sqrt((((s[:, None, :] + img) @ cell)**2).sum(-1)).min(1)
            bad = np.flatnonzero(d < dmin[i, :i] * (1 - 1e-9))
            check(not len(bad), 'atoms-too-close', lambda: '%s: distance %s of atoms %s, minimum %s' % (what, d[bad], [(i, int(j)) for j in bad], dmin[i, bad]))

def outcome(fn):
    try:
        st = fn()
        return ('ok', st)
    except TooMany:
        raise
    except Exception as e:
        return ('exc', type(e).__name__, str(e))

def digest(r):
    if r[0] != 'ok': return list(r)
    st = r[1]
    return ['ok', [str(s) for s in st.symbols], np.asarray(st.coords_frac).tolist(), np.asarray(st.cell).tolist()]

def reference(todo, form):
    """every generation in a fresh generator, in this fresh process"""
    from pwtools import random as M
    seam = Seam(); seam.install()
    out = []
    try:
        for c, op, st in todo:
            sy, kw = fresh(c, form)
            seam.tl.s = Stream(st, draws_max(c))
            try:
                if op == 'shortcut': r = outcome(lambda: M.random_struct(sy, **kw))
                else: r = outcome(lambda: M.RandomStructure(sy, **kw).get_random_struct(fail=op != 'nofail'))
                out.append(digest(r))
            except TooMany:
                out.append(['never', seam.tl.s.n])
    finally:
        seam.remove()
    return out

def life(scn, refs):
    from pwtools import random as M
    seam = Seam(); seam.install()
    log, states, stats = [], set(), dict(rej=0, fail=0, intr=0, ok=0, switch=0)
    try:
        gens, inputs = [], []
        for c in scn['confs']:
            sy, kw = fresh(c, scn['form'])
            inputs.append((sy, kw))
            gens.append(M.RandomStructure(sy, **kw))
        made = {}
        def one(i, o):
            c = scn['confs'][o['g']]
            n = len(c['symbols'])
            what = '%s(%s) #%d, random source %s' % (o['op'], {k: v for k, v in c.items() if k != 'kind'}, i, {k: v for k, v in o['st'].items()})
            if o['op'] == 'edit':
                st = made.get(o['g'])
                if st is not None:
                    if o['edit'] in ('symbols', 'all'): st.symbols[0] = 'Cs' if st.symbols[0] == 'H' else 'H'
                    if o['edit'] in ('coords', 'all'): st.coords_frac[...] = .25; st.coords[...] = 0
                    if o['edit'] in ('cell', 'all'): st.cell *= 3.0
                log.append(('edit',))
                return
            S = seam.tl.s = Stream(o['st'], draws_max(c))
            sy, kw = inputs[o['g']]
            g = gens[o['g']]
            if o['op'] == 'shortcut': fn = lambda: M.random_struct(sy, **kw)
            else: fn = lambda: g.get_random_struct(fail=o['op'] != 'nofail')
            fired = None
            try:
                if o.get('intr'):
                    box = []
                    x = sched.interrupt_at(o['intr'], lambda: box.append(outcome(fn)))
                    fired = x[2]
                    r = box[0] if box else ('intr',)
                    if x[0] == 'exc' and not fired:
                        raise TooMany() if 'TooMany' in x[1] else Violation('wrong-failure', '%s: %s' % (what, x[1]))
                else:
                    r = outcome(fn)
            except TooMany:
                raise Violation('does-not-stop', '%s: %d random numbers used, cell_maxtry %s, atom_maxtry %s' % (what, S.n, c.get('cell_maxtry'), c.get('atom_maxtry')))
            if fired and r[0] != 'ok':
                stats['intr'] += 1
                log.append(('intr', fired)); states.add(repr((o['st']['kind'], c['kind'], fired)))
                return
            if r[0] == 'ok':
                stats['ok'] += 1
                verify(r[1], c, what)
                made[o['g']] = r[1]
                if o['op'] in ('gen', 'nofail'):
                    ct = g.counters
                    ok = ct['cryst_const'] is not None and 1 <= ct['cryst_const'] <= c.get('cell_maxtry', 100) and len(ct['coords']) == n and all(1 <= x <= c.get('atom_maxtry', 1000) for x in ct['coords'])
                    check(ok, 'wrong-counters', lambda: '%s: counters %s' % (what, ct))
                    if ct['cryst_const'] > 1 or sum(ct['coords']) > n: stats['rej'] += 1
            else:
                check(r[1] == 'RandomStructureFail' and r[2], 'wrong-failure', lambda: '%s: %s' % (what, r))
                check(o['op'] != 'nofail', 'wrong-failure', lambda: '%s: %s with fail=False' % (what, r))
                check(not (c['kind'] == 'easy' and o['st']['kind'] == 'mt'), 'gives-up-early', lambda: '%s: %s, %d random numbers' % (what, r, S.n))
                lo = min(6 * c.get('cell_maxtry', 100), 6 + 3 * c.get('atom_maxtry', 1000))
                check(S.n >= lo, 'gives-up-early', lambda: '%s: %s after %d random numbers' % (what, r, S.n))
                stats['fail'] += 1
            ref = refs[i]
            if not fired:
                d = digest(r)
                check(d == ref, 'depends-on-history', lambda: '%s: got %s, in a fresh process %s' % (what, d, ref))
            s0, k0 = fresh(c, scn['form'])
            check([str(x) for x in sy] == [str(x) for x in s0] and kw == k0, 'changes-arguments', lambda: '%s: symbols %s options %s afterwards' % (what, list(sy), kw))
            log.append((o['op'], r[0], r[2] if r[0] == 'exc' else repr(digest(r))))
            states.add(repr((o['st']['kind'], c['kind'], o['op'], r[0], r[2] if r[0] == 'exc' else '')))
        if not scn['threads']:
            for i, o in enumerate(scn['ops']): one(i, o)
        else:
            def actor(k):
                def go():
                    try:
                        for i, o in enumerate(scn['ops']):
                            if o['a'] == k: one(i, o)
                    except Violation as e:
                        return e
                return go
            S = sched.Scheduler(scn['choices'])
            for x in S.run([actor(k) for k in sorted({o['a'] for o in scn['ops']})]):
                if x[0] == 'ok' and isinstance(x[1], Violation): raise x[1]
                check(x[0] == 'ok', 'wrong-failure', lambda: repr(x))
            stats['switch'] = S.switches
    finally:
        seam.remove()
    return log, sorted(states), stats

def run(scn, E):
    E.states = set()
    todo = [(scn['confs'][o['g']], o['op'], o['st']) for o in scn['ops']]
    R0 = E.node(reference, todo, scn['form'])
    check(R0.status == 'ok', 'wrong-failure', lambda: '%r %s' % (R0, R0.tb[-900:]))
    R = E.node(life, scn, R0.value)
    check(R.status == 'ok', 'wrong-failure', lambda: '%r %s' % (R, R.tb[-900:]))
    log, states, st = R.value
    E.states.update(states)
    for l in log: E.event(*l)
    for k in ('const', 'ends', 'cycle', 'then', 'coarse'):
        n = sum(o['st']['kind'] == k for o in scn['ops'] if o['op'] != 'edit')
        if n: E.fault('random_' + k, n)
    if st['intr']: E.fault('ctrl-c_at_line', st['intr'])
    if st['switch']: E.fault('thread_switch', st['switch'])
    if st['rej'] + st['fail']: E.probe('rejected_or_failed', st['rej'] + st['fail'])
    if st['ok']: E.probe('structures_checked', st['ok'])
