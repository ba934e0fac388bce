"""C09 parser quantities do not depend on the order they are asked for."""
import os
import numpy as np
from .. import md, gen as G, sched, parsers as P
from ..core import check

ID = 'C09'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=800, wall=220), thorough=dict(runs=40000, wall=1700))
RULE = ('a run = one parser object of one of thirteen classes and 4-20 requests in random order: single getters (public and underscore), attribute checks, bulk parsing of all or some quantities, '
        'conversion, dump and load in this or a fresh process, some of them hit by a transient open or read error of the parser or one of its child processes, a full disk during dump, or Ctrl-C at a '
        'library line; every value is compared with the one a fresh object gives when asked for only this quantity; non-trivial = at least two requests; distinct = distinct event-log hash')
REAL = ['pwtools.parse (all parser classes), base.FlexibleGetters, dcd, io.read_pickle, common.backtick', 'sh, grep, sed, awk and friends as child processes', 'PyCifRW']
STUB = ['the MD programs: generators of their output files', 'failing reads and writes: libc file seam']
ASSUME = ['os.path.exists does not fail (stat errors are not injected)']
LISTS = ['ops']
STATES = 'hash of (parser class, request, kind of request, set of quantities already set)'

def prepare():
    from pwtools import parse, io, crys, dcd, _dcd
    import CifFile

def generate(r, tier, idx):
    s = dict(job=P.spec_job(r), opt=P.spec_opts(r), ops=[])
    for i in range(r.choice([2, 4, 8, 12, 20])):
        o = dict(op=r.choice(['get', 'get', 'get', 'get', 'check', 'check', 'check', 'assert', 'all', 'some', 'parse', 'cont', 'dump', 'return']), a=r.randrange(10**6), auto=r.random() < .7)
        if r.random() < .12:
            o['fault'] = r.choice(['open', 'open', 'read', 'line', 'line', 'full']); o['at'] = r.choice([0, 1, 2, r.randrange(8), r.randrange(30)])
        s['ops'].append(o)
    s['elsewhere'] = r.choice([None, None, r.randrange(20)])      # continue in a fresh process from this request on
    return s

def valid(scn):
    return bool(scn['ops'])

def apply(p, o, names):
    """-> [(quantity, outcome)]"""
    R = G.rs(o['a'])
    a = names[o['a'] % len(names)]
    if o['op'] == 'get':
        return a, P.getter(p, a), 'v'
    if o['op'] == 'check':
        b = p.check_set_attr(a)
        v = getattr(p, a)
        assert b == (v is not None), 'check_set_attr(%s) returned %s' % (a, b)
        return a, v, 'v'
    if o['op'] == 'assert':
        p.try_set_attr(a)
        return a, getattr(p, a), 'v'
    if o['op'] == 'return':
        return a, p.get_return_attr(a), 'v'
    if o['op'] == 'all':
        p.set_all(); return None, {k: getattr(p, k) for k in p.attr_lst}, 'd'
    if o['op'] == 'some':
        l = [p.attr_lst[i] for i in R.permutation(len(p.attr_lst))[:3]]
        p.set_all(l); return None, {k: getattr(p, k) for k in l}, 'd'
    if o['op'] == 'parse':
        p.parse(); return None, {k: getattr(p, k) for k in p.attr_lst}, 'd'
    if o['op'] == 'cont':
        return None, P.picture(p.get_cont(o['auto'])), 'c%d' % o['auto']

def session(s, lo, hi, names):
    """requests lo..hi on one object (fresh, or loaded from the dump)"""
    from pwtools import io
    if lo:
        p = io.read_pickle('hand.pk')
    else:
        try:
            p = P.make(0, s['job'], s['opt'])
        except OSError:         # the injected one hit the constructor
            p = P.make(0, s['job'], s['opt'])
    log = []; kept = []
    for i in range(lo, hi):
        o = s['ops'][i]
        if s['elsewhere'] == i and lo < i:
            break
        seen = [k for k in names if p.is_set_attr(k)]
        hit = None
        if o['op'] == 'dump':
            def fn():
                p.dump('d%d.pk' % i)
                return io.read_pickle('d%d.pk' % i)
            r = P.quiet(fn)
            if r[0] == 'ok':
                p = r[1]; r = ('ok', None)
            log.append((i, 'dump', None, r, 'v', None, len(seen))); continue
        if o.get('fault') == 'line':
            r0 = sched.interrupt_at(1 + o['at'] * 7, P.quiet, apply, p, o, names)
            hit = r0[2]
            r = r0[1] if r0[0] == 'ok' else ('exc', 'KeyboardInterrupt', '')
        else:
            r = P.quiet(apply, p, o, names)
        a = names[o['a'] % len(names)] if o['op'] in ('get', 'check', 'assert', 'return') else None
        kind = 'v' if a else 'd'
        if r[0] == 'ok':
            a, v, kind = r[1]
            if kind == 'v' and isinstance(v, np.ndarray):
                kept.append((i, a, v, v.copy()))
            r = ('ok', P.plain(v))
        elif o['op'] == 'cont':
            kind = 'c%d' % o['auto']
        log.append((i, o['op'], a, r, kind, hit, hash_seen(seen)))
    p.dump('hand.pk')
    late = [(i, a) for i, a, v, c in kept if not G.same(v, c)]
    return log, late

def hash_seen(l):
    h = 0
    for k in l:
        for c in k:
            h = (h * 31 + ord(c)) % 100003
    return h

def setup(s):
    P.put([s['job']])
    return P.getters(P.make(0, s['job'], s['opt']))

def run(scn, E):
    s = scn
    E.states = set()
    R = E.node(setup, s)
    check(R.status == 'ok', 'harness', lambda: repr(R) + R.tb)
    names = R.value
    R = E.node(P.ref_getters, 0, s['job'], s['opt'])
    check(R.status == 'ok', 'reference-crashed', lambda: repr(R) + R.tb[-800:])
    ref = R.value
    refc = {}
    code = s['job']['code']
    n = len(s['ops'])
    cuts = sorted({0, n} | ({s['elsewhere']} if s['elsewhere'] is not None and 0 < s['elsewhere'] < n else set()))
    # every faulty request needs its own process, which gets the object by dump and load
    fl = [i for i, o in enumerate(s['ops']) if o.get('fault') in ('open', 'read', 'full')]
    cuts = sorted(set(cuts) | set(fl) | {i + 1 for i in fl})
    for lo, hi in zip(cuts, cuts[1:]):
        o = s['ops'][lo]
        rules = []
        if lo in fl and hi == lo + 1:
            f = o['fault']
            if f == 'full':
                rules = [dict(kinds=['write'], at=0, action='err', arg=28, sub='d%d.pk' % lo)]
            else:
                rules = [dict(kinds=['openr' if f == 'open' else 'read'], at=o['at'], action='err', arg=5, sub='job')]
        R = E.node(session, s, lo, hi, names, rules=rules)
        check(R.status == 'ok', 'session-crashed', lambda: '%r %s' % (R, R.tb[-1200:]))
        log, late = R.value
        nf = sum(R.ctl['fired']) if rules else 0
        if nf: E.fault('transient_%s_error' % o['fault'], nf)
        for i, op, a, out, kind, hit, seen in log:
            if hit: E.fault('ctrl-c_at_line')
            bad = bool(hit) or nf > 0
            E.event(i, op, a, out[0], kind, hit)
            E.states.add(repr((code, op, a, seen)))
            what = '%s: request %d (%s %s, options %s)' % (md.job(s['job']).parser, i, op, a or '', s['opt'])
            if op == 'dump':
                check(out[0] == 'ok' or bad, 'raises', lambda: what + ' ' + repr(out)); continue
            if kind == 'v':
                b = ref[a]
            elif kind in ('c0', 'c1'):
                if kind not in refc:
                    Q = E.node(P.ref_cont, 0, s['job'], s['opt'], kind == 'c1')
                    check(Q.status == 'ok', 'reference-crashed', lambda: repr(Q) + Q.tb[-800:])
                    refc[kind] = Q.value
                b = refc[kind]
            elif out[0] == 'ok':
                e = [k for k in out[1] if ref[k][0] != 'ok']
                b = ('ok', {k: ref[k][1] for k in out[1]}) if not e else ref[e[0]]
            else:
                l = [k for k in ref if not k.startswith('_')]
                b = out if any(ref[k][0] == 'exc' for k in l) else ('ok', None)
            if P.eq(out, b):
                E.probe('same_as_fresh'); continue
            if out[0] == 'exc' and bad:
                E.probe('failed_under_fault'); continue
            check(False, 'depends-on-order', lambda: what + ' ' + P.why(out, b))
        check(not late, 'value-changed-later', lambda: '%s: value of %s returned by request %d changed later' % (code, late[0][1], late[0][0]))
    E.event('end')
