"""C08 parsing does not depend on what was parsed before or meanwhile."""
import copy, os
import numpy as np
from .. import md, gen as G, sched, parsers as P
from ..core import check

ID = 'C08'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=1200, wall=200), thorough=dict(runs=40000, wall=1700))
RULE = ('a run = 1-3 threads in one process, each with 2-7 operations (construct a parser, read function, conversion with and without auto-calculation, single quantities, results of earlier '
        'conversions modified by the caller, dump and load) on 1-4 files of thirteen formats with unit overrides and other options, the threads interleaved at library line events by a seeded '
        'scheduler, with a transient read failure or a Ctrl-C in part of the runs; every result is compared with the one of a fresh process; non-trivial = at least two parser objects or conversions; '
        'distinct = distinct event-log hash')
REAL = ['pwtools.io.read_*, parse (all parser classes), dcd, crys containers, base.FlexibleGetters, common.backtick', 'sh, grep, sed, awk and friends as child processes', 'PyCifRW', 'threads: real, one released at a time']
STUB = ['the MD programs: generators of their output files', 'thread scheduling: seeded', 'failing reads: libc file seam']
ASSUME = ['threads switch between library source lines, not inside C functions', 'os.path.exists does not fail (stat errors are not injected)']
LISTS = ['threads']
STATES = 'hash of (code, operation, option set, outcome kind, kind of the previous operation in the process)'

def prepare():
    from pwtools import parse, io, crys, dcd, _dcd
    import CifFile

OPS = ['read', 'read', 'new', 'new', 'cont', 'cont', 'cont', 'get', 'get', 'spoil', 'spoil', 'dump']

def generate(r, tier, idx):
    s = dict(jobs=[P.spec_job(r) for i in range(r.choice([1, 1, 2, 2, 3, 4]))], opts=[P.spec_opts(r) for i in range(r.choice([1, 2, 2, 3]))])
    if r.random() < .4:       # relatives: classes which share a base
        fam = r.choice([['pw_md', 'pw_vcmd', 'pw_scf'], ['cpmd', 'cpmd_scf'], ['cp2k', 'cp2k_dcd', 'cp2k_relax', 'cp2k_scf'], ['lammps', 'lammps_dcd', 'cp2k_dcd', 'cpmd', 'cif', 'pdb']])
        for j in s['jobs']:
            j['code'] = r.choice(fam)
    nt = r.choice([1, 1, 1, 2, 2, 3])
    s['threads'] = []
    for t in range(nt):
        ops = []
        for i in range(r.choice([2, 3, 5, 7])):
            ops.append(dict(op=r.choice(OPS), j=r.randrange(12), o=r.randrange(12), slot=r.randrange(2), a=r.randrange(1000), auto=r.random() < .7, w=r.randrange(1000)))
        s['threads'].append(ops)
    if nt == 1:
        for o in s['threads'][0]:
            if r.random() < .2: o['bare'] = 1
            if r.random() < .15: o['op'] = 'rewrite'
    s['choices'] = [r.randrange(1, 40) for i in range(r.choice([3, 7, 13]))]
    s['fault'] = r.choice([None, None, 'open', 'read', 'line', 'line' if nt == 1 else None])
    s['at'] = r.choice([r.randrange(4), r.randrange(16), r.randrange(60)])
    s['atop'] = r.randrange(8)
    s['retry'] = r.random() < .6; s['step'] = r.choice([1, 3, 3, 11, 40])
    return s

def valid(scn):
    return bool(scn['threads']) and bool(scn['jobs']) and bool(scn['opts'])

def spoil(c, w):
    """the caller does with a result what he likes"""
    k = [a for a in c.attr_lst if isinstance(getattr(c, a, None), np.ndarray)]
    if w % 4 == 0 and c.units:
        c.units['length'] = 77.0
        return 'units'
    if w % 4 == 1 and c.symbols is not None:
        c.symbols.append('Xx'); return 'symbols'
    if k:
        a = k[w % len(k)]
        v = getattr(c, a)
        if v.flags.writeable:
            v[...] = -123.0
        return a

def rewritten(s, a):
    """another run in the same directory, or other numbers in the same files"""
    if a % 2:
        return dict(s, mut=(s.get('mut', 0) + a // 2) % 9 + 1)
    return dict(s, seed=s['seed'] + 1 + a, mut=0)

def history(s, tabs):
    """one process; returns [[(op, target, outcome)] per thread], the final
    pictures of what the caller was given, and the class state"""
    from pwtools import io, parse
    Js = [md.job(x) for x in s['jobs']]
    cur = [dict(x) for x in s['jobs']]        # what is in the directories now
    log = [[] for t in s['threads']]
    prev = ['start']
    def do(t, i, o):
        j = o['j'] % len(s['jobs']); oi = o['o'] % len(s['opts'])
        J = Js[j]; code = s['jobs'][j]['code']; op = o['op']
        slots = S[t]
        if op == 'rewrite':
            # another run in the same directory
            cur[j] = rewritten(cur[j], o['a'])
            P.put_one(j, cur[j]); Js[j] = md.job(cur[j])
            for k in range(2):
                if slots[k] is not None and slots[k][1] == j:
                    slots[k] = None
            log[t].append(('rewrite', (j, o['a']), 'ok', None)); return None
        if op == 'read':
            kw = P.kwds(J, code, s['opts'][oi], tabs[oi])
            if o.get('bare'):
                os.chdir(P.jobdir(j))
                try:
                    r = P.quiet(lambda: getattr(io, J.reader)(J.main, **kw))
                finally:
                    os.chdir('..')
            else:
                r = P.quiet(lambda: getattr(io, J.reader)(os.path.join(P.jobdir(j), J.main), **kw))
            rec = (j, oi, 'cont', True)
        elif op == 'new':
            r = P.quiet(P.make, j, cur[j], s['opts'][oi], tabs[oi])
            if r[0] == 'ok':
                slots[o['slot']] = (r[1], j, oi)
            log[t].append(('new', (j, oi), r[0], None)); return r
        elif op in ('cont', 'get', 'dump'):
            if slots[o['slot']] is None:
                return None
            p, j, oi = slots[o['slot']]
            if op == 'cont':
                r = P.quiet(p.get_cont, o['auto']); rec = (j, oi, 'cont', o['auto'])
            elif op == 'get':
                at = [a for a in p.attr_lst]
                if o['w'] % 3 == 0:     # getters for quantities parse() does not set
                    at = [a for a in p.cont.attr_lst if a not in at and hasattr(p, 'get_' + a)] or at
                a = at[o['a'] % len(at)]
                r = P.quiet(P.getter, p, a)
                log[t].append(('get', (j, oi, a), r if r[0] == 'exc' else ('ok', P.plain(r[1])), None)); return r
            else:
                fn = 'p%d%d.pk' % (t, o['slot'])
                r = P.quiet(lambda: (p.dump(fn), io.read_pickle(fn))[1])
                if r[0] == 'ok':
                    slots[o['slot']] = (r[1], j, oi)
                log[t].append(('dump', (j, oi), r[0], None)); return r
        elif op == 'spoil':
            if not mine[t]:
                return None
            k = o['w'] % len(mine[t])
            spoil(mine[t][k][0], o['a'])
            mine[t][k][1] = False
            return None
        pic = r if r[0] == 'exc' else ('ok', P.picture(r[1]))
        e = [op, rec, pic, None]
        if r[0] == 'ok':
            mine[t].append([r[1], True, e])
        log[t].append(e)
        return r
    S = [[None, None] for t in s['threads']]
    mine = [[] for t in s['threads']]
    def thread(t):
        def body():
            for i, o in enumerate(s['threads'][t]):
                if s['fault'] == 'line' and len(s['threads']) == 1 and i == s['atop'] % len(s['threads'][t]):
                    n0 = len(log[t])
                    r = sched.interrupt_at(1 + s['at'] * s.get('step', 3), do, t, i, o)
                    if r[2]:
                        log[t].append(('ctrl-c', r[2], r[0], None))
                        if s.get('retry'):      # the user tries again
                            do(t, i, o)
                else:
                    r = do(t, i, o)
                    if s.get('retry') and s['fault'] and r is not None and r[0] == 'exc':
                        do(t, i, o)
        return body
    if len(s['threads']) == 1:
        thread(0)(); sw = 0
    else:
        sc = sched.Scheduler(s['choices'])
        res = sc.run([thread(t) for t in range(len(s['threads']))])
        for x in res:
            if x[0] != 'ok':
                raise RuntimeError(x)
        sw = sc.switches
    late = []
    for t in range(len(mine)):
        for c, intact, e in mine[t]:
            if intact:
                d = G.diff(P.picture(c), e[2][1])
                if d:
                    late.append((e[0], e[1], d[0], G.brief(getattr(c, d[0], None)), G.brief(e[2][1].get(d[0]))))
    return [[tuple(e) for e in l] for l in log], late, sw, tabs

def run(scn, E):
    s = scn
    E.states = set()
    R = E.node(P.put, s['jobs'])
    check(R.status == 'ok', 'harness', lambda: repr(R) + R.tb)
    tabs = [copy.deepcopy(o.get('units')) for o in s['opts']]
    rules = []
    if s['fault'] in ('open', 'read'):
        rules.append(dict(kinds=['openr' if s['fault'] == 'open' else 'read'], at=s['at'], action='err', arg=5, sub='job'))
    R = E.node(history, s, tabs, rules=rules)
    check(R.status == 'ok', 'history-crashed', lambda: '%r %s' % (R, R.tb[-1500:]))
    log, late, sw, tabs2 = R.value
    nf = sum(R.ctl['fired'])
    if nf: E.fault('transient_%s_error' % s['fault'], nf)
    if sw: E.probe('thread_switches', sw)
    nfail = nf
    check(tabs2 == tabs, 'argument-changed', lambda: 'units dict passed by the caller was %s, is %s' % (tabs, tabs2))
    refs = {}
    now = [dict(x) for x in s['jobs']]; disk = [None] * len(now)
    for i in range(len(now)):
        disk[i] = 'last'
    def ref(rec):
        i = rec[0]
        k = repr((rec, now[i]))
        if k not in refs:
            if disk[i] != now[i]:
                Q = E.node(P.put_one, i, now[i]); disk[i] = dict(now[i])
                check(Q.status == 'ok', 'harness', lambda: repr(Q) + Q.tb)
            if len(rec) == 4:
                Q = E.node(P.ref_cont, i, now[i], s['opts'][rec[1]], rec[3])
            else:
                Q = E.node(ref_one, i, now[i], s['opts'][rec[1]], rec[2])
            check(Q.status == 'ok', 'reference-crashed', lambda: repr(Q) + Q.tb[-800:])
            refs[k] = Q.value
        return refs[k]
    for t, l in enumerate(log):
        pk = 'start'
        for op, rec, out, x in l:
            if op == 'ctrl-c':
                E.fault('ctrl-c_at_line'); E.event(t, 'ctrl-c', rec); nfail += 1; continue
            if op == 'rewrite':
                E.event(t, op, rec); E.probe('files_replaced')
                now[rec[0]] = rewritten(now[rec[0]], rec[1]); continue
            if op in ('new', 'dump'):
                E.event(t, op, rec, out)
                if out == 'exc':
                    nfail -= 1
                    check(nfail >= 0, 'raises', lambda: 'thread %d: %s of %s fails' % (t, op, s['jobs'][rec[0]]['code']))
                continue
            code = s['jobs'][rec[0]]['code']
            b = ref(rec)
            E.event(t, op, rec, out[0])
            E.states.add(repr((code, op, rec[2], sorted(s['opts'][rec[1]]), out[0], pk))); pk = (op, code)
            if P.eq(out, b):
                if out[0] == 'ok': E.probe('same_as_alone')
                continue
            if out[0] == 'exc' and nfail > 0:
                nfail -= 1
                E.probe('failed_under_fault'); continue
            what = '%s %s of %s%s (options %s)' % ({'read': 'read function', 'cont': 'get_cont', 'get': 'getter'}[op], rec[2] if op == 'get' else '', code, '' if op == 'get' or rec[3] else ' auto_calc=False', s['opts'][rec[1]])
            check(False, 'depends-on-history', lambda: 'thread %d of %d: %s: %s' % (t, len(log), what, P.why(out, b)))
    check(not late, 'result-changed-later', lambda: 'result of %s %s: %s was %s, is now %s' % (late[0][0], late[0][1], late[0][2], late[0][4], late[0][3]))
    E.event('end')

def ref_one(i, s, o, a):
    r = P.quiet(P.getter, P.make(i, s, o), a)
    return r if r[0] != 'ok' else ('ok', P.plain(r[1]))
