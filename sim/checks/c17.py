"""C17 TagTimer under a simulated clock, interleavings of tags, threads and interrupts."""
import io, os, re, sys, time
from .. import core, sched
from ..core import check, Violation, mk_fault

ID = 'C17'
LEVEL = 'exploration'
BUDGET = dict(quick=dict(runs=4000, wall=100), thorough=dict(runs=120000, wall=1500))
RULE = ('a run = 1-3 timers with 1-5 tags (strings, numbers, tuples, None) used through t/pt/p by 1-3 actors (threads under the seeded line-level scheduler or one after the other) while the simulated '
        'clock advances, stands still, jumps back or far ahead between and during calls, output goes to the terminal, redirected or full files, and Ctrl-C hits at a drawn library line; '
        'every printed number is compared with a set-of-states model of each tag; non-trivial = two tags or actors were active at once or the clock jumped; distinct = distinct event-log hash')
REAL = ['pwtools.timer.TagTimer']
STUB = ['clock (time.time, perf_counter, monotonic)', 'thread scheduler (seeded, one library line at a time)']
LISTS = ['actors']
STATES = 'hash of (tag states of all timers, operation)'
SIMTIME = 'sum of clock advances'
TAGS = ['a', 'b', 'outer-loop', 'inner-loop', '', '%s', 'x: y time: 3', 0, 1, 2.5, None, (), (1,), (1, 2), ('a', 'b'), 'ü']

def prepare():
    import pwtools.timer

def op(r, ntm, tags):
    c = r.random()
    dt = r.choice([0.0, 0.0, 1e-7, 0.001, 1.0, 1.0, 3.5, 86400.0, -1.0, -3600.0, -1e9, 1e10, r.random() * 100])
    k = r.randrange(ntm)
    if c < .5:
        return dict(op='t', k=k, tag=r.choice(tags), dt=dt)
    if c < .85:
        return dict(op='pt', k=k, tag=r.choice(tags), dt=dt, msg=r.choice(['', '', 'msg', 'done %d', '12.5']))
    if c < .93:
        return dict(op='p', k=k, dt=dt, msg=r.choice(['hello', '', 'x time: 7', 3, None, '%s', 'line1\nline2']))
    return dict(op='newtag', k=k, tag=r.choice(range(len(TAGS))), dt=dt)

def generate(r, tier, idx):
    ntm = r.choice([1, 1, 2, 3])
    nact = r.choice([1, 1, 2, 3])
    thr = nact > 1
    allt = r.sample(range(len(TAGS)), r.choice([2, 3, 5]) * nact if nact * 5 <= len(TAGS) else 2 * nact)
    acts = []
    for a in range(nact):
        tags = allt[a::nact] if thr else allt
        acts.append([op(r, ntm, tags) for i in range(r.choice([3, 6, 10, 20]))])
    if thr:
        for a in acts:
            for o in a:
                if o['op'] == 'newtag': o['op'] = 'p'; o['msg'] = 'x'; 
    return dict(timers=[dict(silence=r.random() < .15) for i in range(ntm)], actors=acts, start=r.choice([0.0, 1.7e9, 1.7e9, 1.0, -5.0]), tick=r.choice([0.0, 0.0, 1e-6, 0.25]),
                choices=[r.randrange(r.choice([2, 5, 20])) for i in range(r.randrange(5, 60))] if thr else [], intr=r.randrange(1, 60) if not thr and r.random() < .3 else None,
                out=r.choice(['stdout', 'stdout', 'redirect', 'file', 'file']), fault=r.choice([None, None, 'full', 'enospc', 'short', 'eintr', 'partial']), frac=r.random())

def valid(scn):
    return any(scn['actors'])

class Clock:
    def __init__(self, now, tick):
        self.now, self.tick, self.reads = now, tick, []
    def __call__(self):
        self.now += self.tick
        self.reads.append(self.now)
        return self.now
    def ns(self):
        return int(self(), 1e9)

NUM = re.compile(r'^(-?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))$')

def step_states(S, kind, c):
    """possible states after t ('t') or the stop inside pt ('stop'), clock value c"""
    out = set()
    for s in S:
        if s[0] is None: out.add((c, None))
        elif s[1] is None: out.add((s[0], c))
        elif kind == 't': out.add((c, None))
        else: out.add(s)
    return out

def life(scn, outfn):
    from pwtools import timer as T
    import warnings
    warnings.simplefilter('ignore')
    clk = Clock(scn['start'], scn['tick'])
    saved = [(m, n, getattr(m, n)) for m, n in ((time, 'time'), (time, 'perf_counter'), (time, 'monotonic'), (time, 'process_time')) if hasattr(m, n)]
    for n in ('time', 'perf_counter', 'monotonic'):
        if callable(getattr(T, n, None)):
            saved.append((T, n, getattr(T, n)))
    real = time.monotonic
    log = []
    states = set()
    pending = []
    try:
        for m, n, f in saved:
            setattr(m, n, clk)
        tms = [T.TagTimer(silence=t['silence']) if t['silence'] or i % 2 else T.TagTimer() for i, t in enumerate(scn['timers'])]
        model = {}       # (timer, tag) -> set of possible states
        stats = dict(jump=0, fail=0, sim=0.0, pt=0, intr=0)
        old = sys.stdout
        def one(o, get, expect):
            k = o['k']; tm = tms[k]; sil = scn['timers'][k]['silence']
            clk.now += o['dt']
            stats['sim'] += abs(o['dt'])
            if o['dt'] < 0 or o['dt'] > 1e5: stats['jump'] += 1
            n0 = len(clk.reads)
            tag = TAGS[o['tag']] if 'tag' in o else None
            key = (k, tag)
            S = model.get(key)
            fn = dict(t=lambda: tm.t(tag), pt=lambda: tm.pt(tag, o.get('msg', '')) if o.get('msg') else tm.pt(tag), p=lambda: tm.p(o['msg']), newtag=lambda: tm.t(tag))[o['op']]
            lineno = scn['intr']
            if lineno is not None and stats['intr'] == 0 and o.get('hit'):
                pass
            c0 = clk.now + clk.tick
            fired = None
            try:
                if scn['intr'] and not stats['intr'] and o['op'] in ('t', 'pt', 'newtag') and len(log) == scn['intr'] % 7:
                    r = sched.interrupt_at(1 + scn['intr'] // 7, fn)
                    fired = r[2]
                    if fired: stats['intr'] = 1
                    r = ('ok', None) if r[0] == 'ok' else ('exc', r[1].split(':')[0], r[1])
                else:
                    fn(); r = ('ok', None)
            except Exception as e:
                r = ('exc', type(e).__name__, str(e))
            what = '%s(%s) of timer %d%s' % (o['op'], ', '.join(repr(TAGS[o[x]] if x == 'tag' else o[x]) for x in ('tag', 'msg') if x in o), k, ' interrupted in ' + fired if fired else '')
            txt = get()
            reads = set(clk.reads[n0:]) | {c0}
            if o['op'] in ('t', 'newtag'):
                S0 = S or {(None, None)}
                new = step_states(S0, 't', c0)
                if fired:
                    new = new | S0 | {(None, None)}
                else:
                    check(r[0] == 'ok', 'timer-call-fails', lambda: '%s: %s' % (what, r))
                    check(txt == '', 'unexpected-output', lambda: '%s printed %r' % (what, txt))
                model[key] = new
            elif o['op'] == 'pt':
                stats['pt'] += 1
                if S is None:
                    check(r[0] == 'exc' and (fired or r[1] == 'ValueError'), 'unknown-tag-accepted', lambda: '%s, tag was never started: %s %r' % (what, r, txt))
                else:
                    new = step_states(S - {(None, None)}, 'stop', c0)
                    if fired:
                        model[key] = new | S
                    elif r[0] == 'exc' and (None, None) in S and r[1] == 'ValueError':
                        model[key] = S & {(None, None)}
                    else:
                        model[key] = new
                        if r[0] == 'exc':
                            check(expect['outfault'], 'timer-call-fails', lambda: '%s: %s' % (what, r))
                            stats['fail'] += 1
                        elif sil:
                            check(txt == '', 'unexpected-output', lambda: '%s printed %r though silence=True' % (what, txt))
                        elif not expect['lost']:
                            head = '--TagTimer--: %s: %s time: ' % (tag, o.get('msg', ''))
                            check(txt.startswith(head) and txt.endswith('\n') and txt.count('\n') == 1 + head.count('\n'), 'output-incomplete', lambda: '%s printed %r' % (what, txt))
                            num = txt[len(head):].strip()
                            check(NUM.match(num), 'output-incomplete', lambda: '%s printed %r' % (what, txt))
                            v = float(num)
                            ok = [s for s in new if abs(v - (s[1] - s[0])) <= 1e-9 * abs(s[1] - s[0])]
                            check(ok, 'wrong-time', lambda: '%s printed %s, the clock was %s at start and stop of this tag' % (what, num, sorted(new)))
                            model[key] = set(ok)
            else:
                if r[0] == 'exc':
                    check(expect['outfault'], 'timer-call-fails', lambda: '%s: %s' % (what, r)); stats['fail'] += 1
                else:
                    w = '' if sil else '--TagTimer--: {}\n'.format(o['msg'])
                    check(expect['lost'] or txt == w, 'output-incomplete', lambda: '%s printed %r, not %r' % (what, txt, w))
            log.append((o['op'], r[0], r[1] if r[0] == 'exc' else None))
            states.add(repr((o['op'], sorted((kk[0], tuple(x is None for x in sorted(v, key=str)[0])) for kk, v in model.items()))))
        if len(scn['actors']) == 1 or not scn['choices']:
            expect = dict(outfault=False, lost=False)
            ops = [o for a in scn['actors'] for o in a]
            if scn['out'] == 'redirect':
                import contextlib
                for o in ops:
                    b = io.StringIO()
                    with contextlib.redirect_stdout(b):
                        one(o, b.getvalue, expect)
            elif scn['out'] == 'stdout':
                sys.stdout = b = io.StringIO()
                pos = [0]
                def get():
                    t = b.getvalue()[pos[0]:]; pos[0] += len(t); return t
                for o in ops: one(o, get, expect)
            else:
                # unbuffered binary below a write-through text layer: what is printed is in the file
                f = open(outfn, 'wb', buffering=0)
                sys.stdout = io.TextIOWrapper(f, encoding='utf-8', write_through=True)
                expect['outfault'] = expect['lost'] = bool(scn['fault'] in ('full', 'enospc', 'partial', 'short'))
                pos = [0]
                def get():
                    with open(outfn, 'rb') as h:
                        t = h.read()[pos[0]:]
                    pos[0] += len(t); return t.decode('utf-8', 'replace')
                for o in ops: one(o, get, expect)
        else:
            # every call is one action; calls of several threads overlap line by line.  A call
            # reads the clock once while it is the only one moving it.
            import threading
            buf = io.StringIO(); sys.stdout = buf
            tl = threading.local()
            results = []
            class Out(io.StringIO):
                def write(self, s):
                    tl.txt = getattr(tl, 'txt', '') + s
                    return len(s)
            sys.stdout = Out()
            class TClock(Clock):
                def __call__(self):
                    v = Clock.__call__(self)
                    tl.reads = getattr(tl, 'reads', []) + [v]
                    return v
            clk2 = TClock(scn['start'], scn['tick'])
            for m, n, f in saved: setattr(m, n, clk2)
            def actor(ops):
                def go():
                    M = {}
                    for o in ops:
                        k = o['k']; tm = tms[k]; sil = scn['timers'][k]['silence']
                        clk2.now += o['dt']
                        stats['sim'] += abs(o['dt'])
                        if o['dt'] < 0 or o['dt'] > 1e5: stats['jump'] += 1
                        tl.txt = ''; tl.reads = []
                        tag = TAGS[o['tag']] if 'tag' in o else None
                        S = M.get((k, tag))
                        what = '%s(%r) of timer %d, threads' % (o['op'], tag, k)
                        try:
                            if o['op'] == 't': tm.t(tag)
                            elif o['op'] == 'pt': tm.pt(tag, o['msg'])
                            else: tm.p(o['msg'])
                            r = 'ok'
                        except Exception as e:
                            r = type(e).__name__
                        rd = tl.reads; txt = tl.txt
                        if o['op'] == 't':
                            check(r == 'ok' and len(rd) >= 1, 'timer-call-fails', lambda: '%s: %s' % (what, r))
                            s = S or (None, None)
                            M[(k, tag)] = (rd[-1], None) if s[0] is None or s[1] is not None else (s[0], rd[-1])
                        elif o['op'] == 'pt':
                            stats['pt'] += 1
                            if S is None:
                                check(r == 'ValueError', 'unknown-tag-accepted', lambda: '%s: %s %r' % (what, r, txt))
                            else:
                                check(r == 'ok', 'timer-call-fails', lambda: '%s: %s' % (what, r))
                                if S[1] is None:
                                    S = M[(k, tag)] = (S[0], rd[-1] if rd else None)
                                if sil:
                                    check(txt == '', 'unexpected-output', lambda: what)
                                else:
                                    head = '--TagTimer--: %s: %s time: ' % (tag, o['msg'])
                                    check(txt.startswith(head) and txt.endswith('\n'), 'output-incomplete', lambda: '%s printed %r' % (what, txt))
                                    v = float(txt[len(head):])
                                    check(S[1] is not None and abs(v - (S[1] - S[0])) <= 1e-9 * abs(S[1] - S[0]), 'wrong-time', lambda: '%s printed %s, the clock was %s at start and stop of this tag' % (what, v, S))
                        else:
                            w = '' if sil else '--TagTimer--: {}\n'.format(o['msg'])
                            check(r == 'ok' and txt == w, 'output-incomplete', lambda: '%s printed %r' % (what, txt))
                        log.append((o['op'], r))
                    return 'done'
                def guard():
                    try:
                        return go()
                    except Violation as e:
                        return e
                return guard
            S_ = sched.Scheduler(scn['choices'])
            rs = S_.run([actor(a) for a in scn['actors'] if a])
            for x in rs:
                if x[0] == 'ok' and isinstance(x[1], Violation):
                    raise x[1]
                check(x[0] == 'ok', 'timer-call-fails', lambda: repr(x))
            stats['switch'] = S_.switches
        sys.stdout = old
    finally:
        for m, n, f in saved:
            setattr(m, n, f)
        sys.stdout = old
    return log, stats, sorted(states)

def run(scn, E):
    E.states = set()
    rules, budget = [], -1
    if scn['out'] == 'file' and len(scn['actors']) == 1:
        n = sum(len(a) for a in scn['actors'])
        if scn['fault'] == 'full':
            budget = int(scn['frac'] * 40 * n)
        elif scn['fault']:
            rules = [mk_fault(scn['fault'], int(scn['frac'] * n), int(scn['frac'] * 999), ['write'])]
    R = E.node(life, scn, os.path.join(E.root, 'out.txt'), rules=rules, budget=budget)
    check(R.status == 'ok', 'timer-call-fails', lambda: '%r %s' % (R, R.tb[-900:]))
    log, st, states = R.value
    E.states.update(states)
    for l in log: E.event(*l)
    E.simtime += min(st['sim'], 1e12)
    if st['jump']: E.fault('clock_jump', st['jump'])
    if st['intr']: E.fault('ctrl-c_at_line')
    if st['fail']: E.probe('output_failed', st['fail'])
    if st['pt']: E.probe('times_reported', st['pt'])
    if st.get('switch'): E.fault('thread_switch', st['switch'])
