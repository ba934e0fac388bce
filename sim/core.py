"""Simulator core: seeded runs, process nodes under the libc file seam, fault
rules, minimisation, replay files, evidence.

One integer (VERIF_SEED) decides everything: run number i of property P draws
from random.Random(sha256(seed, P, i)) once, when its *scenario* (a JSON value:
operations plus schedule plus fault rules) is generated.  Executing a scenario
draws nothing: it is a pure function of the scenario and the code, so the
scenario is the replay file.
"""
import zlib, ctypes, errno, gc, hashlib, json, mmap, os, pickle, random, resource
import select, shutil, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PWSIM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

KINDS = ['create', 'write', 'trunc', 'sync', 'rename', 'unlink', 'rmdir', 'mkdir',
         'link', 'closew', 'meta', 'openr', 'read', 'stat']
K = {n: i for i, n in enumerate(KINDS)}
MUT = [k for k in KINDS[:11]]
ACTIONS = ['none', 'err', 'short', 'crash_before', 'crash_after', 'torn_crash',
           'signal', 'budget', 'append', 'partial_err']
ACT = {n: i for i, n in enumerate(ACTIONS)}

class HarnessError(Exception):
    pass

class Violation(Exception):
    """Raised by oracles. cls: violation class (stable under minimisation)."""
    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg

def check(cond, cls, msg=''):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)

def rng_for(seed, prop, i):
    h = hashlib.sha256(('%s|%s|%s' % (seed, prop, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))

# ------------------------------------------------------------ fsim binding
FSIM_SO = None

def fsim_so():
    return os.environ.get('PWSIM_FSIM', '')

RULE_FMT = '<IIQQIIqqQ120s400s'
RULE_SZ = struct.calcsize(RULE_FMT)
HDR_FMT = '<IIIIiiiiQQQQqQ16Q16Q512s512s512s1024s'
HDR_SZ = struct.calcsize(HDR_FMT)
NRULE = 16
_lib = None

def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(fsim_so())
        if _lib.fsim_size() != HDR_SZ + NRULE * RULE_SZ:
            raise HarnessError('fsim layout mismatch %s %s' % (_lib.fsim_size(), HDR_SZ + NRULE * RULE_SZ))
    return _lib

def pack_ctl(root, root2, logfn, rules, owner, armed=0, logon=1, datalog=0, budget=-1):
    hdr = struct.pack(HDR_FMT, 0x51f5, armed, logon, datalog, owner, 0, 0, 0, 0, 0, 0, 0,
                      budget, 0, *([0] * 32), root.encode(), root2.encode(), logfn.encode(), b'')
    out = [hdr]
    for i in range(NRULE):
        if i < len(rules):
            r = rules[i]
            mask = 0
            for k in r['kinds']:
                mask |= 1 << K[k]
            out.append(struct.pack(RULE_FMT, 1, mask, r.get('at', 0), 0, ACT[r['action']],
                                   1 if r.get('persistent') else 0, r.get('arg', 0), r.get('arg2', 0),
                                   0, r.get('sub', '').encode(), r.get('appfile', '').encode()))
        else:
            out.append(b'\0' * RULE_SZ)
    return b''.join(out)

def unpack_ctl(b):
    v = struct.unpack_from(HDR_FMT, b, 0)
    d = dict(crashed=v[5], nmut=v[8], nread=v[9], nescape=v[10], nkill=v[11], budget=v[12],
             budget_hits=v[13], kcount=dict(zip(KINDS, v[14:30])), kfault=dict(zip(KINDS, v[30:46])),
             escape=v[49].rstrip(b'\0').decode('utf8', 'replace'))
    fired = []
    for i in range(NRULE):
        r = struct.unpack_from(RULE_FMT, b, HDR_SZ + i * RULE_SZ)
        fired.append(r[8])
    d['fired'] = fired
    return d

REC_FMT = '<IIqqqII'
REC_SZ = struct.calcsize(REC_FMT)

class Op:
    __slots__ = ('kind', 'fault', 'a', 'b', 'ret', 'path', 'data')
    def __repr__(self):
        return '%s%s %s %d %d ->%d' % (self.kind, '!' + ACTIONS[self.fault] if self.fault else '', self.path, self.a, self.b, self.ret)
    def short(self):
        return (self.kind, self.fault, self.path, self.a, self.b, self.ret)

def read_log(fn):
    out = []
    try:
        b = open(fn, 'rb').read()
    except FileNotFoundError:
        return out
    o = 0
    while o + REC_SZ <= len(b):
        k, f, a, bb, ret, pl, dl = struct.unpack_from(REC_FMT, b, o)
        o += REC_SZ
        x = Op()
        x.kind, x.fault, x.a, x.b, x.ret = KINDS[k], f, a, bb, ret
        x.path = b[o:o + pl].decode('utf8', 'surrogateescape'); o += pl
        x.data = b[o:o + dl]; o += dl
        out.append(x)
    return out

# ------------------------------------------------------------------- env
class Env:
    """Per-run environment: scratch directory and node executor."""
    def __init__(self, base, name):
        self.base = base
        self.dir = os.path.join(base, name)
        self.root = os.path.join(self.dir, 'root')    # simulated disk
        self.aux = os.path.join(self.dir, 'aux')      # harness files
        self.n = 0
        self.faults = {}      # fault kind -> times fired
        self.probes = {}      # rare condition -> hits
        self.log = []         # event log (deterministic)
        self.simtime = 0.0
        self.nodes = 0
        self.steps = 0
        os.makedirs(self.root); os.makedirs(self.aux)
        os.makedirs(os.path.join(self.dir, 'tmp'))

    def cleanup(self):
        rmtree_safe(self.dir, self.base)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def event(self, *a):
        self.log.append(a)

    def digest(self):
        return hashlib.sha256(repr(self.log).encode('utf8', 'surrogateescape')).hexdigest()[:16]

    def node(self, fn, *args, rules=(), budget=-1, datalog=False, sub='', cpu=40, wall=150,
             root=None, env=None, log=True, nofile=None, path=None, on_parent=None):
        """Run fn(*args) in a forked process ("node") below the file seam.
        Returns Res.  rules: list of fault rules; see fsim.c."""
        return run_node(self, fn, args, list(rules), budget, datalog, cpu, wall, root or self.root, env or {}, log, nofile, path, on_parent)

class Res:
    """status: ok | exc | crash | hang | died"""
    def __init__(self):
        self.status = None; self.value = None; self.exc = ''; self.excmsg = ''
        self.ctl = {}; self.ops = []; self.tb = ''; self.out = b''
    def brief(self):
        return (self.status, self.exc)
    def __repr__(self):
        return 'Res(%s %s %s)' % (self.status, self.exc, self.excmsg[:200])

def rmtree_safe(d, base):
    d = os.path.abspath(d); base = os.path.abspath(base)
    if not (d.startswith(base + '/') and '/pwsim.' in base):
        raise HarnessError('refusing to remove %s' % d)
    for dp, dns, fns in os.walk(d):
        try:
            os.chmod(dp, 0o777)
        except OSError:
            pass
    shutil.rmtree(d, ignore_errors=True)

def run_node(E, fn, args, rules, budget, datalog, cpu, wall, root, env, log, nofile, path, on_parent=None):
    E.n += 1
    E.nodes += 1
    ctlfn = os.path.join(E.dir, 'ctl%d' % E.n)
    logfn = os.path.join(E.dir, 'log%d' % E.n)
    outfn = os.path.join(E.dir, 'out%d' % E.n)
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 120
        try:
            os.close(r)
            os.setsid()
            fd = os.open('/dev/null', os.O_RDWR)
            fo = os.open(outfn, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o666)
            os.dup2(fd, 0); os.dup2(fo, 1); os.dup2(fo, 2)
            os.close(fd); os.close(fo)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            if nofile:
                resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
            os.environ['HOME'] = root
            os.environ['TMPDIR'] = os.path.join(E.dir, 'tmp')
            import tempfile
            tempfile.tempdir = None
            os.environ['FSIM_CTL'] = ctlfn
            if path is not None:
                os.environ['PATH'] = path
            os.environ.update(env)
            with open(ctlfn, 'wb') as f:
                f.write(pack_ctl(root, E.dir, logfn, rules, os.getpid(), 0, 1 if log else 0,
                                 1 if datalog else 0, budget))
            L = lib()
            if L.fsim_attach(ctlfn.encode()) != 0:
                raise HarnessError('attach')
            fdc = os.open(ctlfn, os.O_RDWR)
            mm = mmap.mmap(fdc, 8192 if False else HDR_SZ + NRULE * RULE_SZ)
            os.close(fdc)
            random.seed(12345)
            if 'numpy' in sys.modules:
                sys.modules['numpy'].random.seed(12345)
            os.chdir(root)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            out = None
            mm[4:8] = struct.pack('<I', 1)           # armed
            try:
                val = fn(*args)
                out = ('ok', val)
                val = None
            except BaseException as e:
                out = ('exc', type(e).__name__, str(e)[:4000], isinstance(e, HarnessError),
                       ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
                       isinstance(e, Violation) and (e.cls, e.msg))
                e = None
            try:
                gc.collect()
            except BaseException:
                pass
            mm[4:8] = struct.pack('<I', 0)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            b = pickle.dumps(out)
            L.fsim_detach()
            o = 0
            while o < len(b):
                o += os.write(w, b[o:o + 65536])
            code = 0
            try:
                sys.stdout.flush(); sys.stderr.flush()
            except BaseException:
                pass
        except BaseException:
            try:
                os.write(w, b'HARNESS' + traceback.format_exc().encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    if on_parent:
        on_parent(pid)
    buf = []
    t0 = time.monotonic()
    timeout = False
    while True:
        rr, _, _ = select.select([r], [], [], 1.0)
        if rr:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
        elif time.monotonic() - t0 > wall:
            timeout = True
            break
        else:
            # the pipe may be kept open by a stray grandchild
            try:
                p, st = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                break
            if p:
                os.close(r)
                _killpg(pid)
                return _mkres(E, st, b''.join(buf), ctlfn, logfn, outfn, rules, False)
    if timeout:
        _killpg(pid)
    _, st = os.waitpid(pid, 0)
    os.close(r)
    _killpg(pid)
    return _mkres(E, st, b''.join(buf), ctlfn, logfn, outfn, rules, timeout)

def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass

def _mkres(E, st, b, ctlfn, logfn, outfn, rules, timeout):
    R = Res()
    try:
        R.ctl = unpack_ctl(open(ctlfn, 'rb').read())
    except Exception as e:
        raise HarnessError('no ctl: %r %r' % (e, b[:2000]))
    R.ops = read_log(logfn)
    try:
        R.out = open(outfn, 'rb').read()
    except OSError:
        pass
    for f in (ctlfn, logfn, outfn):
        try:
            os.unlink(f)
        except OSError:
            pass
    if b.startswith(b'HARNESS'):
        raise HarnessError(b.decode())
    if timeout:
        R.status = 'hang'
    elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU,):
        R.status = 'hang'
    elif R.ctl['crashed']:
        R.status = 'crash'
    elif os.WIFSIGNALED(st):
        R.status = 'died'; R.exc = 'signal %d' % os.WTERMSIG(st)
        if os.WTERMSIG(st) == signal.SIGKILL and not timeout:
            R.status = 'died'
    elif os.WIFEXITED(st) and os.WEXITSTATUS(st) != 0:
        R.status = 'died'; R.exc = 'exit %d' % os.WEXITSTATUS(st)
    else:
        try:
            o = pickle.loads(b)
        except Exception:
            raise HarnessError('bad result pickle (%d bytes)' % len(b))
        R.status = o[0]
        if o[0] == 'ok':
            R.value = o[1]
        else:
            R.exc, R.excmsg, R.tb = o[1], o[2], o[4]
            if o[3]:
                raise HarnessError(o[2] + o[4])
            if o[5]:
                raise Violation(*o[5])
    for i, r in enumerate(rules):
        n = R.ctl['fired'][i]
        if n and r['action'] not in ('append', 'none'):
            name = r.get('name') or r['action'] + (':' + errno.errorcode.get(r['arg'], str(r['arg'])) if r['action'] == 'err' else '')
            E.fault(name, n)
    if R.ctl['budget_hits']:
        E.fault('disk_full', R.ctl['budget_hits'])
    E.steps += R.ctl['nmut'] + R.ctl['nread']
    return R

# --------------------------------------------------------- common fault rules
def gen_fault(r, nops, kinds=None, crash=True, errors=True, reads=False, where=None):
    """Draw one fault rule. nops: number of mutating ops in a clean run."""
    kinds = kinds or MUT
    at = where if where is not None else r.randrange(max(1, nops))
    c = []
    if crash:
        c += ['crash_before', 'torn_crash', 'crash_after'] * 2
    if errors:
        c += ['enospc', 'eio', 'full', 'short', 'eintr', 'sigint', 'partial']
    a = r.choice(c)
    return mk_fault(a, at, r.randrange(1, 1000), kinds)

def mk_fault(a, at, permille=500, kinds=None):
    kinds = list(kinds or MUT)
    if a in ('crash_before', 'crash_after', 'torn_crash'):
        return dict(kinds=kinds, at=at, action=a, arg=permille, name=a)
    if a == 'enospc':
        return dict(kinds=[k for k in kinds if k in ('create', 'write', 'mkdir', 'trunc', 'rename', 'sync', 'closew')], at=at, action='err', arg=errno.ENOSPC, name='ENOSPC')
    if a == 'eio':
        return dict(kinds=kinds, at=at, action='err', arg=errno.EIO, name='EIO')
    if a == 'eio_persist':
        return dict(kinds=kinds, at=at, action='err', arg=errno.EIO, persistent=1, name='EIO_persistent')
    if a == 'full':
        return dict(kinds=kinds, at=at, action='budget', arg=permille * 4, name='full_disk')
    if a == 'short':
        return dict(kinds=['write'], at=at, action='short', arg=permille, name='short_write')
    if a == 'short_persist':
        return dict(kinds=['write'], at=at, action='short', arg=permille, persistent=1, name='short_write')
    if a == 'eintr':
        return dict(kinds=['write', 'create', 'trunc', 'sync'], at=at, action='err', arg=errno.EINTR, name='EINTR')
    if a == 'sigint':
        return dict(kinds=kinds, at=at, action='signal', arg=int(signal.SIGINT), name='SIGINT')
    if a == 'partial':
        return dict(kinds=['write'], at=at, action='partial_err', arg=permille, arg2=errno.ENOSPC, name='partial_write_ENOSPC')
    if a == 'close_err':
        return dict(kinds=['closew'], at=at, action='err', arg=errno.EIO, name='close_EIO')
    if a == 'emfile':
        return dict(kinds=['create', 'trunc', 'openr'], at=at, action='err', arg=errno.EMFILE, name='EMFILE')
    if a == 'read_eio':
        return dict(kinds=['read'], at=at, action='err', arg=errno.EIO, name='read_EIO')
    if a == 'read_short':
        return dict(kinds=['read'], at=at, action='short', arg=permille, name='short_read')
    if a == 'read_short_persist':
        return dict(kinds=['read'], at=at, action='short', arg=permille, persistent=1, name='short_read')
    if a == 'read_eintr':
        return dict(kinds=['read', 'openr'], at=at, action='err', arg=errno.EINTR, name='read_EINTR')
    if a == 'open_fail':
        return dict(kinds=['openr'], at=at, action='err', arg=errno.EIO, name='open_EIO')
    raise HarnessError(a)

CRASHES = ('crash_before', 'crash_after', 'torn_crash')
# faults a correct program must absorb without any visible effect
BENIGN = ('short', 'eintr', 'short_persist', 'read_short', 'read_short_persist', 'read_eintr')

# ------------------------------------------------------------ file tree model
def snapshot(root, skip=()):
    """{relpath: ('f', bytes) | ('d',) | ('l', target)} of everything below root."""
    out = {}
    for dp, dns, fns in os.walk(root):
        dns.sort()
        rel = os.path.relpath(dp, root)
        for d in list(dns):
            p = os.path.join(dp, d)
            rp = os.path.normpath(os.path.join(rel, d))
            if os.path.islink(p):
                out[rp] = ('l', os.readlink(p)); dns.remove(d)
            else:
                out[rp] = ('d',)
        for f in fns:
            p = os.path.join(dp, f)
            rp = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(p):
                out[rp] = ('l', os.readlink(p))
            else:
                try:
                    out[rp] = ('f', open(p, 'rb').read())
                except OSError as e:
                    out[rp] = ('f!', e.errno)
    return out

def modes(root):
    """{relpath: (permission bits, inode)} of the regular files below root."""
    out = {}
    for dp, dns, fns in os.walk(root):
        for f in fns:
            p = os.path.join(dp, f)
            if not os.path.islink(p):
                st = os.stat(p)
                out[os.path.normpath(os.path.relpath(p, root))] = (st.st_mode & 0o777, st.st_ino)
    return out

def setmodes(root, salt=0, bits=(0o644, 0o644, 0o755, 0o600, 0o444, 0o750)):
    """seeded permission bits for the regular files below root"""
    for rel in modes(root):
        h = zlib.crc32(('%s %s' % (rel, salt)).encode('utf8', 'surrogateescape'))
        os.chmod(os.path.join(root, rel), bits[h % len(bits)])

def restore(root, snap):
    """Make root hold exactly snap (root must be below a pwsim scratch)."""
    if '/pwsim.' not in root:
        raise HarnessError(root)
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    for rp in sorted(snap):
        v = snap[rp]; p = os.path.join(root, rp)
        if v[0] == 'd':
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if v[0] == 'l':
                os.symlink(v[1], p)
            else:
                with open(p, 'wb') as f:
                    f.write(v[1])

def diff_snap(a, b):
    """list of human-readable differences a -> b"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append('missing %s' % k)
        elif k not in a:
            out.append('new %s' % k)
        elif a[k] != b[k]:
            out.append('changed %s' % k)
    return out
