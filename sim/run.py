"""Driver: check.py ID  -> seeded runs over worker processes, minimisation,
replay file, evidence, exit code 0/1 (anything else: error of the check)."""
import argparse, copy, hashlib, importlib, json, mmap, os, pickle, random, select, shutil
import signal, struct, subprocess, sys, tempfile, time, traceback, gc

from . import core
from .core import Env, Violation, HarnessError, rng_for, VERIF

NWORK = int(os.environ.get('PWSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)

def load(pid):
    return importlib.import_module('sim.checks.' + pid.lower())

def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d['property'] == pid and d.get('status') == 'known':
                    out.append(d)
    return out

def make_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            b = tempfile.mkdtemp(prefix='pwsim.', dir=d)
            os.chmod(b, 0o777)
            return b
    raise HarnessError('no scratch')

def drop_privileges(base):
    """Run everything as an unprivileged user if possible (containment)."""
    if os.geteuid() != 0 or os.environ.get('PWSIM_KEEP_ROOT'):
        return
    so = core.fsim_so()
    try:
        os.setgroups([])
        os.setresgid(65534, 65534, 65534)
        os.setresuid(65534, 65534, 65534)
    except OSError:
        pass

def execute(mod, scn, base, name):
    """One simulated run in the current process.  -> dict"""
    E = Env(base, name)
    out = dict(violation=None, harness=None)
    t0 = time.monotonic()
    try:
        try:
            mod.run(scn, E)
        except Violation as v:
            out['violation'] = dict(cls=v.cls, msg=v.msg[:3000])
        except HarnessError as e:
            out['harness'] = traceback.format_exc()[-4000:]
        except Exception as e:
            out['harness'] = traceback.format_exc()[-4000:]
        out.update(digest=E.digest(), faults=E.faults, probes=E.probes, simtime=E.simtime,
                   nodes=E.nodes, steps=E.steps, nlog=len(E.log), states=getattr(E, 'states', None),
                   stubs=None, dt=time.monotonic() - t0)
        if os.environ.get('PWSIM_LOG'):
            out['log'] = [repr(x) for x in E.log]
    finally:
        try:
            E.cleanup()
        except Exception as e:
            out['harness'] = 'cleanup: %r' % e
    return out

def forked(mod, scn, base, name, wall=300):
    """execute() in a forked child -> dict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            out = execute(mod, scn, base, name)
            b = pickle.dumps(out)
            o = 0
            while o < len(b):
                o += os.write(w, b[o:])
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    t0 = time.monotonic()
    while True:
        rr, _, _ = select.select([r], [], [], 2)
        if rr:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
        if time.monotonic() - t0 > wall:
            os.kill(pid, signal.SIGKILL)
            break
    os.waitpid(pid, 0)
    os.close(r)
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return dict(violation=None, harness='run %s gave no result (%ds)' % (name, time.monotonic() - t0),
                    digest='', faults={}, probes={}, simtime=0, nodes=0, steps=0, nlog=0, states=None, dt=0)

def batch(mod, items, base, tag, deadline, nwork=None, stop_at_violation=True, known=()):
    """items: list of (idx, scenario or None).  Runs them over worker processes.
    Returns {idx: result}."""
    nwork = nwork or NWORK
    shared = mmap.mmap(-1, 16)
    shared[0:8] = struct.pack('<q', 1 << 60)
    pipes = []
    for w in range(nwork):
        mine = items[w::nwork]
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                drop_privileges(base)
                for idx, scn in mine:
                    if stop_at_violation and struct.unpack('<q', shared[0:8])[0] < idx:
                        break
                    if time.monotonic() > deadline:
                        break
                    if scn is None:
                        scn = mod.generate(rng_for(SEED, mod.ID, idx), TIER, idx)
                    out = forked(mod, scn, base, '%s%07d' % (tag, idx))
                    out['idx'] = idx
                    v = out['violation']
                    if v and not match_known(known, v) and stop_at_violation:
                        cur = struct.unpack('<q', shared[0:8])[0]
                        if idx < cur:
                            shared[0:8] = struct.pack('<q', idx)
                    b = pickle.dumps(out)
                    b = struct.pack('<I', len(b)) + b
                    o = 0
                    while o < len(b):
                        o += os.write(wr, b[o:])
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        pipes.append([pid, r, b''])
    res = {}
    live = {p[1]: p for p in pipes}
    while live:
        rr, _, _ = select.select(list(live), [], [], 5)
        for fd in rr:
            p = live[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                _, st = os.waitpid(p[0], 0)
                if st:
                    res[-1 - p[0]] = dict(violation=None, harness='worker died %r' % st, idx=-1, digest='', faults={}, probes={}, simtime=0, nodes=0, steps=0, nlog=0, states=None, dt=0)
                del live[fd]
                continue
            p[2] += b
            while len(p[2]) >= 4:
                n, = struct.unpack('<I', p[2][:4])
                if len(p[2]) < 4 + n:
                    break
                o = pickle.loads(p[2][4:4 + n])
                p[2] = p[2][4 + n:]
                res[o['idx']] = o
    return res

def match_known(known, v):
    for k in known:
        if k['cls'] == v['cls'] and all(s in v['msg'] for s in k.get('contains', [])):
            return k
    return None

# ----------------------------------------------------------- minimisation
def list_candidates(scn, keys):
    for key in keys:
        cur = scn
        path = key.split('.')
        ok = True
        for p in path:
            if isinstance(cur, dict) and p in cur:
                cur = cur[p]
            else:
                ok = False
        if not ok or not isinstance(cur, list):
            continue
        n = len(cur)
        size = max(1, n // 2)
        while size >= 1 and n:
            for i in range(0, n, size):
                c = copy.deepcopy(scn)
                d = c
                for p in path[:-1]:
                    d = d[p]
                del d[path[-1]][i:i + size]
                yield c
            if size == 1:
                break
            size //= 2

def candidates(mod, scn):
    for c in list_candidates(scn, getattr(mod, 'LISTS', ['ops', 'faults'])):
        yield c
    if hasattr(mod, 'shrinks'):
        for c in mod.shrinks(copy.deepcopy(scn)):
            yield c

def minimise(mod, scn, cls, base, maxtime=90, maxruns=600):
    t0 = time.monotonic(); runs = 0
    cur = scn
    progress = True
    while progress:
        progress = False
        for c in candidates(mod, cur):
            if time.monotonic() - t0 > maxtime or runs > maxruns:
                return cur, runs
            if json.dumps(c, sort_keys=True) == json.dumps(cur, sort_keys=True):
                continue
            if hasattr(mod, 'valid') and not mod.valid(c):
                continue
            runs += 1
            o = batch(mod, [(0, c)], base, 'm%d_' % runs, time.monotonic() + 300, nwork=1, stop_at_violation=False).get(0)
            if o and o['violation'] and o['violation']['cls'] == cls:
                cur = c
                progress = True
                break
    return cur, runs

# ------------------------------------------------------------------- main
SEED = 1
TIER = 'quick'

def setup_env():
    """Re-exec under the file seam with a fixed environment."""
    from . import build
    so = build.fsim()
    want = dict(LD_PRELOAD=so, PWSIM_FSIM=so, PYTHONHASHSEED=os.environ.get('PWSIM_HASHSEED', '0'),
                PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL',
                LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PWSIM_READY='1')
    if os.environ.get('PWSIM_READY') == '1':
        return
    e = dict(os.environ)
    e.update(want)
    for k in ('PYTHONPATH', 'FSIM_CTL'):
        e.pop(k, None)
    os.execve(sys.executable, [sys.executable, os.path.join(VERIF, 'check.py')] + sys.argv[1:], e)

def main():
    global SEED, TIER
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', type=int, default=0)
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--only', type=int, default=None)
    ap.add_argument('--digests')
    ap.add_argument('--nomin', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    TIER = a.tier
    setup_env()
    t0 = time.monotonic()
    sys.path.insert(0, os.path.join(core.REPO, 'src'))
    from . import build
    build.install_ext(core.REPO)
    mod = load(a.id)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    base = make_base()
    try:
        rc = _main(a, mod, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def _main(a, mod, base, t0):
    gc.collect(); gc.freeze()
    if a.replay:
        return replay(mod, a.replay, base)
    if a.selftest:
        return selftest(mod, a, base)
    if a.digests:
        # print digests of runs (used by the determinism self-test)
        lo, n = [int(x) for x in a.digests.split(':')]
        res = batch(mod, [(i, None) for i in range(lo, lo + n)], base, 'r', time.monotonic() + 3000, stop_at_violation=False)
        for i in sorted(res):
            print(i, res[i]['digest'], res[i]['violation'] and res[i]['violation']['cls'])
        return 0
    b = mod.BUDGET[TIER]
    nruns = a.runs or b['runs']
    deadline = time.monotonic() + b['wall']
    known = known_findings(mod.ID)
    print('check %s tier=%s seed=%d runs=%d workers=%d' % (mod.ID, TIER, SEED, nruns, NWORK))
    sys.stdout.flush()
    items = [(i, None) for i in (range(nruns) if a.only is None else [a.only])]
    res = batch(mod, items, base, 'r', deadline, stop_at_violation=not a.keep_going, known=known)
    bad = [r for r in res.values() if r['harness']]
    viol = sorted([r for r in res.values() if r['violation']], key=lambda r: r['idx'])
    kn = {}
    new = []
    for r in viol:
        k = match_known(known, r['violation'])
        if k:
            kn.setdefault(k['id'], [k, 0]); kn[k['id']][1] += 1
        else:
            new.append(r)
    if a.keep_going:
        by = {}
        for r in new:
            by.setdefault(r['violation']['cls'], []).append(r)
        for c in by:
            print('CLASS %s: %d runs, e.g. #%s: %s' % (c, len(by[c]), [x['idx'] for x in by[c][:4]], by[c][0]['violation']['msg'][:600]))
            if os.environ.get('PWSIM_ALL'):
                for r in by[c]: print('   #%d %s' % (r['idx'], r['violation']['msg'][:int(os.environ['PWSIM_ALL'])]))
        for r in bad[:5]:
            print('HARNESS', r['idx'], r['harness'])
        print('%d runs %.1fs' % (len(res), time.monotonic() - t0))
        print('faults', merge(res, 'faults')); print('probes', merge(res, 'probes'))
        if a.only is not None:
            for r in res.values(): print(json.dumps({k: v for k, v in r.items() if k != 'states'}, default=str, indent=1)[:6000])
        return 1 if new else 2 if bad else 0
    extra = {}
    if not new and not bad:
        # determinism: repeat a sample of the runs under another worker count
        k = b.get('recheck', 12)
        sample = sorted(random.Random(SEED).sample(sorted(res), min(k, len(res))))
        again = batch(mod, [(i, None) for i in sample], base, 'd', time.monotonic() + 120, nwork=3, stop_at_violation=False)
        diff = [i for i in again if again[i]['digest'] != res[i]['digest']]
        extra['determinism_recheck'] = dict(repeated=len(again), differing=len(diff))
        if diff:
            bad.append(dict(idx=diff[0], harness='nondeterministic run(s): %s' % diff))
    evidence(mod, res, t0, kn, new, extra)
    for kid in sorted(kn):
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (mod.ID, kn[kid][0]['what'], kn[kid][1]))
    for d in known:
        if d['id'] not in kn:
            print('KNOWN-FINDING: property=%s %s (not met by the runs of this tier)' % (mod.ID, d['what']))
    if new:
        r = new[0]
        print('violation in run %d: %s: %s' % (r['idx'], r['violation']['cls'], r['violation']['msg']))
        sys.stdout.flush()
        scn = mod.generate(rng_for(SEED, mod.ID, r['idx']), TIER, r['idx'])
        runs = 0
        if not a.nomin:
            again = batch(mod, [(0, scn)], base, 'v', time.monotonic() + 300, nwork=1, stop_at_violation=False).get(0)
            if not again or not again['violation'] or again['violation']['cls'] != r['violation']['cls']:
                print('ERROR: the violation does not reproduce from its scenario: %r' % (again and again['violation'],))
                return 2
            small, runs = minimise(mod, scn, r['violation']['cls'], base)
        else:
            small = scn
        fin = batch(mod, [(0, small)], base, 'w', time.monotonic() + 300, nwork=1, stop_at_violation=False).get(0)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        fn = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.json' % (mod.ID, SEED, r['idx']))
        with open(fn, 'w') as f:
            json.dump(dict(property=mod.ID, seed=SEED, run=r['idx'], tier=TIER, violation=fin['violation'],
                           digest=fin['digest'], minimisation_runs=runs, scenario=small, original=scn), f, indent=1)
        print('minimised (%d runs): %s: %s' % (runs, fin['violation']['cls'], fin['violation']['msg']))
        print('scenario: %s' % json.dumps(small)[:3000])
        # fresh process
        e = dict(os.environ); e.pop('PWSIM_READY', None)
        pr = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), mod.ID, '--replay', fn], env=e,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if pr.returncode != 1:
            print('ERROR: replay in a fresh process did not reproduce:\n%s' % pr.stdout.decode()[-2000:])
            return 2
        print('replay in a fresh process reproduces it: ./check.py %s --replay %s' % (mod.ID, fn))
        print('VIOLATION property=%s replay=%s' % (mod.ID, fn))
        return 1
    if bad:
        for r in bad[:5]:
            print('HARNESS ERROR run %s: %s' % (r.get('idx'), r['harness']))
        return 2
    n = len(res)
    print('%s: %d runs, no violation, %.1f s; faults %s' % (mod.ID, n, time.monotonic() - t0, merge(res, 'faults')))
    if n == 0:
        print('ERROR: no run completed'); return 2
    return 0

def merge(res, key):
    out = {}
    for r in res.values():
        for k, v in (r[key] or {}).items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))

def evidence(mod, res, t0, kn, new, extra):
    wall = time.monotonic() - t0
    digs = set(); nontriv = set()
    states = set()
    for r in res.values():
        digs.add(r['digest'])
        if r['faults'] or (r['nlog'] or 0) > 1:
            nontriv.add(r['digest'])
        for s in (r['states'] or ()):
            states.add(s)
    n = len(res)
    samples = []
    for i in sorted(x for x in res if x >= 0)[:400]:
        if res[i]['faults'] or len(samples) < 1:
            samples.append(dict(run=i, scenario=mod.generate(rng_for(SEED, mod.ID, i), TIER, i), faults=res[i]['faults'], probes=res[i]['probes']))
        if len(samples) >= 2:
            break
    s = json.dumps(samples, default=str)
    if len(s) > 12000:
        samples = [dict(run=x['run'], scenario=json.dumps(x['scenario'], default=str)[:4000], faults=x['faults']) for x in samples]
    cov = dict(evaluations=n, distinct_nontrivial=len(nontriv), rule=mod.RULE, samples=samples,
               simulated_runs=n, seeds=n, runs_per_hour=int(n / max(wall, 1e-3) * 3600),
               simulated_processes=sum(r['nodes'] for r in res.values()),
               simulated_steps=sum(r['steps'] for r in res.values()),
               simulated_time=getattr(mod, 'SIMTIME', 'no clock in this property; time is counted in operations (simulated_steps)'),
               simulated_time_s=round(sum(r['simtime'] for r in res.values()), 3),
               faults_injected=merge(res, 'faults'), probes=merge(res, 'probes'),
               distinct_event_histories=len(digs), distinct_states=len(states),
               distinct_states_measure=getattr(mod, 'STATES', 'hash of the event log of a run'),
               components_real=mod.REAL, components_stubbed=mod.STUB)
    cov.update(extra)
    d = dict(property=mod.ID, tier=TIER, seed=SEED, level=mod.LEVEL, coverage=cov,
             assumptions=list(getattr(mod, 'ASSUME', [])), wall_s=round(wall, 2), violations=len(new))
    if kn:
        cov['known_findings'] = {k: kn[k][1] for k in kn}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fn = os.path.join(VERIF, 'evidence', mod.ID + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, default=str)
    os.rename(fn + '.tmp', fn)

def replay(mod, fn, base):
    d = json.load(open(fn))
    o = batch(mod, [(0, d['scenario'])], base, 'w', time.monotonic() + 600, nwork=1, stop_at_violation=False).get(0)
    if not o or o['harness']:
        print('HARNESS ERROR', o and o['harness']); return 2
    if o['violation']:
        v = o['violation']
        print('%s: %s' % (v['cls'], v['msg']))
        if d.get('violation') and v['cls'] != d['violation']['cls']:
            print('note: recorded class was %s' % d['violation']['cls'])
        print('event-log digest %s (recorded %s)' % (o['digest'], d.get('digest')))
        print('VIOLATION property=%s replay=%s' % (mod.ID, fn))
        return 1
    print('replay: no violation')
    return 0

def selftest(mod, a, base):
    """Same runs in several fresh processes: other worker counts, other
    PYTHONHASHSEED; event logs must be identical."""
    n = a.selftest
    outs = []
    for nw, hs in ((8, '0'), (3, '0'), (1 if n <= 60 else 5, '0'), (8, '7'), (4, '123')):
        e = dict(os.environ); e.pop('PWSIM_READY', None)
        e['PWSIM_WORKERS'] = str(nw); e['PWSIM_HASHSEED'] = hs; e['VERIF_SEED'] = str(SEED)
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), mod.ID, '--digests', '0:%d' % n, '--tier', TIER],
                           env=e, stdout=subprocess.PIPE)
        outs.append([l for l in p.stdout.decode().splitlines() if l and l[0].isdigit()])
    ok = True
    for k, o in enumerate(outs[1:], 1):
        d = [x for x, y in zip(outs[0], o) if x != y]
        print('process %d: %d runs, %d differ %s' % (k, len(o), len(d), d[:3]))
        ok = ok and not d and len(o) == len(outs[0]) == n
    print('selftest %s %s' % (mod.ID, 'ok' if ok else 'FAILED'))
    return 0 if ok else 2
