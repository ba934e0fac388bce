"""C10 output of a running or killed MD job: prefix of the true trajectory."""
import os, struct
import numpy as np
from .. import md, gen as G
from ..core import check, Violation

ID = 'C10'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=1600, wall=240), thorough=dict(runs=60000, wall=1700))
RULE = ('a run = one simulated MD job (pw.x md and vc-md, cpmd in four flavours, cp2k text and DCD, lammps text and DCD; 1-8 steps of 1-5 atoms) whose files are seen by the parser '
        'either after the job died - every file ends where its own buffering (line, 512 or 4096 byte block, step, byte) put it, or one file or all files cut at a seeded byte - or while '
        'the job goes on appending at seeded file opens of the parser (grep, sed, awk included); all getters are called on fresh objects and the conversion to a trajectory on one; '
        'non-trivial = job cut or growing; distinct = distinct event-log hash')
REAL = ['pwtools.parse, dcd, arrayio, crys.Trajectory, common.backtick', 'sh, grep, egrep, sed, awk, head, tail as child processes', '_dcd Fortran extension']
STUB = ['the MD programs: generators that print the numbers they hold, with their own buffering']
ASSUME = ['in the running mode the job appends whole lines; cuts inside a line are explored in the killed mode', 'all output files exist once the job has started']
LISTS = ['cuts', 'grow']
STATES = 'hash of (code, parser attribute, outcome kind, number of steps seen minus steps complete)'
POL = ['line', 'b512', 'b4096', 'step', 'byte']

def prepare():
    from pwtools import parse, io, crys, dcd, _dcd

def generate(r, tier, idx):
    s = md.spec(r)
    s['mode'] = r.choice(['cut', 'cut', 'cut', 'grow', 'grow'])
    s['cuts'] = []; s['grow'] = []
    s['order0'] = r.choice([None, 1, 2, 3, 4, 5, 6])
    if s['mode'] == 'cut':
        for i in range(r.choice([1, 2, 3])):
            s['cuts'].append(dict(how=r.choice(['crash', 'crash', 'crash', 'one', 'one', 'one', 'indep', 'full']), t=r.random(), f=r.randrange(16), pol=[r.choice(POL) for k in range(8)],
                                  where=r.choice(['any', 'line', 'line', 'tok', 'tok', 'intok', 'lastlines']), fr=[r.random() for k in range(8)], n=r.randrange(6), order=r.choice([None] + list(range(1, 12)))))
    else:
        s['t0'] = r.random() ** .7
        s['how'] = r.choice(['cont', 'cont', 'getters', 'getters'])
        s['gpol'] = r.choice(['step', 'line', 'line'])
        for i in range(r.choice([1, 2, 3, 5])):
            s['grow'].append(dict(at=r.choice([r.randrange(4), r.randrange(12), r.randrange(40)]), dt=r.choice([0.05, .2, .34, .5, 1.0]), sub=r.randrange(2)))
        s['order'] = r.randrange(10**6)
    return s

def valid(scn):
    return bool(scn['cuts'] or scn['grow'])

def shrinks(scn):
    import copy
    for k in ('nstep', 'natoms'):
        if scn[k] > 1:
            c = copy.deepcopy(scn); c[k] -= 1; yield c

# ---------------------------------------------------------------- the job
def event_prefix(J, t):
    """number of events the job has executed at time t in [0,1]"""
    return int(round(t * len(J.events)))

def cut_at(c, b, where, fr, n):
    L = len(b)
    if where == 'any':
        return int(fr * (L + 1))
    if where == 'lastlines':
        nl = [i + 1 for i in range(L) if b[i:i + 1] == b'\n'] or [L]
        k = nl[max(0, len(nl) - 1 - n)]
        return k
    if where == 'line':
        nl = [0] + [i + 1 for i in range(L) if b[i:i + 1] == b'\n']
        return nl[int(fr * len(nl))]
    # token ends / inside a token
    te = [i + 1 for i in range(L - 1) if not b[i:i + 1].isspace() and b[i + 1:i + 2].isspace()] or [L]
    k = te[int(fr * len(te))]
    return k if where == 'tok' else max(0, k - 1 - n)

def flushed(b, pol, bounds, fr):
    """what of the written bytes b has reached the file"""
    L = len(b)
    if pol == 'byte':
        return max(0, L - int(fr * 60))
    if pol == 'line':
        return b.rfind(b'\n') + 1
    if pol == 'step':
        return max([x for x in bounds if x <= L], default=0)
    k = int(pol[1:])
    return L // k * k

def files_at(J, c):
    full = J.full()
    if c['how'] == 'full':
        return dict(full)
    if c['how'] == 'one':
        fs = [f for f in J.files + sorted(J.pre)]
        f = fs[c['f'] % len(fs)]
        d = dict(full)
        d[f] = d[f][:cut_at(c, d[f], c['where'], c['fr'][0], c['n'])]
        return d
    if c['how'] == 'indep':
        d = dict(full)
        for i, f in enumerate(J.files):
            d[f] = d[f][:cut_at(c, d[f], c['where'], c['fr'][i % 8], c['n'])]
        return d
    n = event_prefix(J, c['t'])
    d = {k: v.encode() for k, v in J.pre.items()}
    for i, f in enumerate(J.files):
        b = b''.join(x[2] for x in J.events[:n] if x[1] == f)
        bounds = []; o = 0
        last = None
        for st, fn, x in J.events[:n]:
            if fn == f:
                if last is not None and st != last:
                    bounds.append(o)
                o += len(x); last = st
        d[f] = b[:flushed(b, c['pol'][i % 8], bounds, c['fr'][i % 8])]
    return d

def growth(J, s):
    """states of all files at t0 and increments; every increment is one call of
    the job's stdio flush, whole lines or steps"""
    n0 = event_prefix(J, s['t0'])
    cur = {f: 0 for f in J.files}
    def lens(n, t):
        out = {}
        for f in J.files:
            out[f] = sum(len(x[2]) for x in J.events[:n] if x[1] == f)
        return out
    l0 = lens(n0, 0)
    seq = []
    n = n0
    prev = l0
    for g in s['grow']:
        n = min(len(J.events), n + max(1, int(g['dt'] * len(J.events))))
        l1 = lens(n, 0)
        rec = [(f, prev[f], l1[f] - prev[f]) for f in J.files if l1[f] > prev[f]]
        prev = l1
        seq.append(rec)
    return l0, seq

# --------------------------------------------------------------- the parser
def attrs_of(J):
    a = list(J.truth) + [x for x in J.static if x not in ('alat', '_cell_2d')]
    return a

def attempt(fn, *a):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('ok', fn(*a))
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:160])

def put(files, d='job=1'):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    for f, b in files.items():
        with open(os.path.join(d, f), 'wb') as h:
            h.write(b)

def get(J, attr, p=None):
    from pwtools import parse
    p = p or getattr(parse, J.parser)('job=1/' + J.main)
    v = getattr(p, 'get_' + attr)()
    return v

def cont(J):
    from pwtools import parse
    p = getattr(parse, J.parser)('job=1/' + J.main)
    out = G.attrs(p.get_cont())
    # what was in the files; the rest is derived by the container
    out['_parsed'] = [k for k in p.attr_lst if getattr(p, k, None) is not None]
    return out

def probe_files(J, files, attrs, want_cont, order=None):
    """order None: a fresh parser object per getter, otherwise all getters on
    one object in that order"""
    put(files)
    p = None
    if order is not None:
        from pwtools import parse
        p = getattr(parse, J.parser)('job=1/' + J.main)
        attrs = [attrs[i] for i in G.rs(order).permutation(len(attrs))]
    out = {a: attempt(get, J, a, p) for a in attrs}
    if want_cont:
        out['CONT'] = attempt(cont, J)
    return out

def grow_cont(J):
    return {'CONT': attempt(cont, J)}

def grow_getters(J, order):
    from pwtools import parse
    at = attrs_of(J)
    R = G.rs(order)
    at = [at[i] for i in R.permutation(len(at))]
    p = getattr(parse, J.parser)('job=1/' + J.main)
    out = {}
    for a in at:
        out[a] = attempt(get, J, a, p)
    return out

# ----------------------------------------------------------------- oracle
def prefix(v, full):
    """None if v is a prefix of full (list or array over steps)"""
    t = np.asarray(full)
    if not isinstance(v, np.ndarray):
        return 'not an array: %s' % G.brief(v)
    if v.size == 0:
        return None
    if v.shape[1:] != t.shape[1:] or len(v) > len(t):
        return 'shape %s, complete run %s' % (v.shape, t.shape)
    if G.same(np.asarray(v, float), np.asarray(t[:len(v)], float), 1e-9, 1e-13):
        return None
    for k in range(len(v)):
        if not G.same(np.asarray(v[k], float), np.asarray(t[k], float), 1e-9, 1e-13):
            where = [j for j in range(len(t)) if G.same(np.asarray(v[k], float), np.asarray(t[j], float), 1e-9, 1e-13)]
            return 'step %d of %d is %s, the run had %s%s' % (k, len(v), G.brief(v[k]), G.brief(t[k]), ' (that is its step %d)' % where[0] if where else '')

def static_ok(v, t):
    if isinstance(t, np.ndarray):
        if v.ndim == t.ndim + 1:
            v = v[0]
        return None if G.same(np.asarray(v, float), t, 1e-9, 1e-13) else 'is %s, the run had %s' % (G.brief(v), G.brief(t))
    if isinstance(t, list):
        return None if list(v) == list(t) else 'is %s, the run had %s' % (v, t)
    return None if v == t else 'is %s, the run had %s' % (v, t)

# computed from other attributes if it is not in the files; the simulated
# engine prints unrelated numbers for both
DERIVED = ('cell', 'cryst_const', 'volume', 'ekin', 'temperature', 'velocity', 'coords', 'coords_frac')
DERIVED_VEL = ('velocity', 'ekin', 'temperature')

def judge_all(J, ref, out):
    """[(attr, message)] of every quantity that is not a prefix"""
    bad = []
    for a, r in out.items():
        if r[0] == 'exc':
            continue
        v = r[1]
        if a == 'CONT':
            skip = ('_parsed', 'nstep', 'time')
            if 'symbols' in v and 'symbols' in ref and len(v['symbols']) < len(ref['symbols']):
                if list(v['symbols']) == list(ref['symbols'])[:len(v['symbols'])]:
                    skip += ('symbols', 'symbols_unique', 'natoms', 'mass', 'mass_unique', 'nspecies', 'ntypat', 'order', 'typat', 'znucl', 'znucl_unique')
            for k in ('cell', 'cryst_const'):
                c = v.get(k)
                if isinstance(c, np.ndarray) and isinstance(ref.get(k), np.ndarray) and len(c) > 1 and (c == c[:1]).all() and G.same(c[0], ref[k][0], 1e-9, 1e-13):
                    # one cell in the files: the container documents that
                    # this is the cell of all steps
                    skip += (k, 'volume') + tuple(x for x in ('cell', 'cryst_const', 'coords', 'coords_frac') if x not in v['_parsed'])
            for k in sorted(v):
                if k in skip or (k in DERIVED and k not in v['_parsed'] and k in ref['_parsed']):
                    continue
                if k in DERIVED_VEL and k not in J.truth:
                    continue
                if k not in ref:
                    bad.append(('traj.' + k, 'is %s, the complete run has none' % G.brief(v[k])))
                elif isinstance(v[k], np.ndarray) and k in ('mass',):
                    if not G.same(v[k], ref[k]): bad.append(('traj.' + k, 'is %s, the run had %s' % (G.brief(v[k]), G.brief(ref[k]))))
                elif isinstance(v[k], np.ndarray):
                    m = prefix(v[k], ref[k])
                    if m: bad.append(('traj.' + k, m))
                elif not G.same(v[k], ref[k]):
                    bad.append(('traj.' + k, 'is %s, the run had %s' % (G.brief(v[k]), G.brief(ref[k]))))
        elif v is None:
            continue
        elif a == 'natoms' and isinstance(v, int) and v < J.static[a] and J.parser.startswith('Cpmd'):
            pass        # lines of GEOMETRY so far
        elif a == 'symbols' and list(v) == J.static[a][:len(v)]:
            pass        # symbols of the first atoms
        elif a == 'cell' and isinstance(v, np.ndarray) and v.ndim == 2 and '_cell_2d' in J.static:
            m = static_ok(v, J.static['_cell_2d'] * J.static['alat'])   # start cell, no step so far
            if m: bad.append((a, m))
        elif a in J.truth:
            m = prefix(v, J.truth[a])
            if m: bad.append((a, m))
        else:
            m = static_ok(v, J.static[a])
            if m: bad.append((a, m))
    return bad

def complete_tokens(J, files):
    """{name: file} with a number that was cut in half at the very end of the
    file completed"""
    full = J.full(); out = {}
    for f, b in sorted(files.items()):
        t = full[f]
        if f.endswith('.dcd') or len(b) == len(t) or not b or b[-1:].isspace() or t[len(b):len(b) + 1].isspace():
            continue
        k = len(b)
        while k < len(t) and not t[k:k + 1].isspace():
            k += 1
        out[f] = t[:k]
    return out

def nsteps(r, J):
    if r[0] == 'exc':
        return r[1]
    v = r[1]
    if v is None: return 'none'
    if isinstance(v, dict):
        return ('traj', int(v.get('nstep', -1)))
    return len(v) if isinstance(v, np.ndarray) and v.ndim else 'x'

def run(scn, E):
    s = scn
    E.states = set()
    J = md.job(s)
    attrs = attrs_of(J)
    full = J.full()
    R = E.node(probe_files, J, full, attrs, True, s.get('order0'))
    check(R.status == 'ok', 'parser-kills-interpreter', lambda: '%s complete files: %r %s' % (J.parser, R, R.tb[-600:]))
    ref = {}
    soft = []     # (cls, message), most serious first
    for a in attrs:
        r = R.value[a]
        what = '%s.get_%s of the complete files (%d steps, %d atoms)' % (J.parser, a, s['nstep'], s['natoms'])
        check(r[0] == 'ok' and r[1] is not None, 'complete-run-not-parsed', lambda: '%s: %s' % (what, r[1:]))
        if a in J.truth:
            check(len(r[1]) == len(J.truth[a]), 'complete-run-wrong', lambda: '%s: %d steps of %d' % (what, len(r[1]), len(J.truth[a])))
        m = judge_all(J, {}, {a: r})
        check(not m, 'complete-run-wrong', lambda: '%s: %s' % (what, m[0][1]))
    if R.value['CONT'][0] == 'ok':
        ref = R.value['CONT'][1]
    else:
        check(s['nstep'] < 3, 'complete-run-not-parsed', lambda: '%s.get_cont of the complete files: %s' % (J.parser, R.value['CONT'][1:]))
    if s['mode'] == 'cut':
        for ci, c in enumerate(s['cuts']):
            files = files_at(J, c)
            miss = {f: len(full[f]) - len(files[f]) for f in files if len(files[f]) != len(full[f])}
            R = E.node(probe_files, J, files, attrs, bool(ref), c.get('order', ci))
            what = '%s, run of %d steps and %d atoms killed, files short by %s' % (J.parser, s['nstep'], s['natoms'], miss)
            check(R.status == 'ok', 'parser-kills-interpreter', lambda: '%s: %r %s' % (what, R, R.tb[-600:]))
            if miss:
                E.fault('killed_job'); E.fault('cut_file', len(miss))
            for a in sorted(R.value):
                E.event(a, nsteps(R.value[a], J))
                E.states.add(repr((s['code'], a, s['nstep'], nsteps(R.value[a], J))))
                if R.value[a][0] == 'ok' and R.value[a][1] is not None and miss: E.probe('value_from_cut_run')
            bad = judge_all(J, ref, R.value)
            if not bad:
                continue
            halves = complete_tokens(J, files)
            left = {a: m for a, m in bad}
            fs = dict(files)
            for f in sorted(halves):
                if not left:
                    break
                fs[f] = halves[f]
                R2 = E.node(probe_files, J, fs, attrs, bool(ref), c.get('order', ci))
                check(R2.status == 'ok', 'parser-kills-interpreter', what)
                still = {a for a, m in judge_all(J, ref, R2.value)}
                for a in sorted(left):
                    if a not in still:
                        soft.append((1, 'number-cut-in-half-at-end-of-file', '%s.%s from %s: %s: %s' % (J.parser, a, f, what, left.pop(a))))
            for a in sorted(left):
                soft.append((0, 'wrong-step-or-value', '%s.%s: %s: %s' % (J.parser, a, what, left[a])))
    else:
        l0, seq = growth(J, s)
        files = {k: v for k, v in full.items()}
        for f in l0:
            files[f] = full[f][:l0[f]]
        src = os.path.join(E.aux, 'src'); os.makedirs(src, exist_ok=True)
        put(full, src)
        recs = []; rules = []
        fn = os.path.join(E.aux, 'recs')
        jd = os.path.join(E.root, 'job=1')
        for g, rec in zip(s['grow'], seq):
            if not rec:
                continue
            a0 = len(recs)
            for f, off, ln in rec:
                recs.append(struct.pack('<qq400s400s', off, ln, os.path.join(src, f).encode(), os.path.join(jd, f).encode()))
            rules.append(dict(kinds=['openr'], at=g['at'], action='append', arg=a0, arg2=len(rec), appfile=fn, sub='job'))
        # appends happen in this order whatever their positions
        ats = sorted(r['at'] for r in rules)
        for k, r in zip(ats, rules):
            r['at'] = k
        with open(fn, 'wb') as h:
            h.write(b''.join(recs))
        R = E.node(put, files)
        if s['how'] == 'cont' and ref:
            R = E.node(grow_cont, J, rules=rules)
        else:
            R = E.node(grow_getters, J, s['order'], rules=rules)
        what = '%s while the run goes on (%d steps, %d atoms)' % (J.parser, s['nstep'], s['natoms'])
        check(R.status == 'ok', 'parser-kills-interpreter', lambda: '%s: %r %s' % (what, R, R.tb[-600:]))
        n = sum(R.ctl['fired'][:len(rules)])
        if n: E.fault('appended_during_parsing', n)
        for a in sorted(R.value):
            E.event(a, nsteps(R.value[a], J))
            E.states.add(repr((s['code'], a, s['nstep'], nsteps(R.value[a], J), 'g')))
            if R.value[a][0] == 'ok' and R.value[a][1] is not None and n: E.probe('value_from_growing_run')
        for a, m in judge_all(J, ref, R.value):
            soft.append((0, 'wrong-step-or-value', '%s.%s: %s: %s' % (J.parser, a, what, m)))
    E.event('end')
    if soft:
        soft.sort()
        raise Violation(soft[0][1], soft[0][2])
