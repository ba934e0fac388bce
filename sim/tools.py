"""Runs the programs in /repo/bin inside a node.  The shell executes the real
scripts; `#!/usr/bin/env python3` finds a stand-in of the interpreter that
hands arguments, working directory and the three standard descriptors to the
node, which forks a process with the libraries already loaded and executes the
script there as __main__ (starting an interpreter with numpy and scipy takes
seconds).  `gmx` is a simulated program served in the same way."""
import json, os, runpy, select, socket, subprocess, sys, traceback

CLIENT = r'''#!%s -ISE
import json, os, signal, socket, sys
s = socket.socket(socket.AF_UNIX)
s.connect(b'\0' + os.environb[b'PWSIM_ZYGOTE'])
socket.send_fds(s, [json.dumps([os.fsdecode(os.fsencode(a)) for a in sys.argv] + [os.getcwd()]).encode() + b'\n'], [0, 1, 2])
b = s.recv(64)
n = int(b or b'137')
if n < 0:
    signal.signal(-n, signal.SIG_DFL)
    os.kill(os.getpid(), -n)
sys.stdout = sys.stderr = None
os._exit(n)
'''

def shims(d, gmx=True):
    """directory for PATH"""
    os.makedirs(d, exist_ok=True)
    for n in ['python3', 'python'] + (['gmx'] if gmx else []):
        f = os.path.join(d, n)
        with open(f, 'w') as h:
            h.write(CLIENT % os.path.realpath('/usr/bin/python3'))
        os.chmod(f, 0o755)
    return d

def child(msg, fds, gmx):
    """forked process: run the script"""
    code = 1
    try:
        for i, f in enumerate(fds):
            os.dup2(f, i)
        for f in fds:
            if f > 2: os.close(f)
        from . import core
        core.lib().fsim_childreads(1)
        argv, cwd = msg[:-1], msg[-1]
        os.chdir(cwd)
        sys.stdin = open(0, 'r', closefd=False)
        sys.stdout = open(1, 'w', closefd=False)
        sys.stderr = open(2, 'w', closefd=False, buffering=1)
        try:
            try:
                if os.path.basename(argv[0]) == 'gmx':
                    gmx(argv[1:])
                else:
                    sys.argv = argv[1:]
                    runpy.run_path(argv[1], run_name='__main__')
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if isinstance(e.code, str):
                    sys.stderr.write(e.code + '\n')
            except BaseException:
                code = 1
                traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
            except BaseException:
                code = 120
            try:
                sys.stderr.flush()
            except BaseException:
                pass
    finally:
        os._exit(code & 255)

def run(cmd, cwd, gmx=None, stdout=None):
    """-> (exit status, output); `cmd` runs in a shell whose python3 and gmx are
    the shims"""
    name = 'pwsim-%d' % os.getpid()
    L = socket.socket(socket.AF_UNIX)
    L.bind(b'\0' + name.encode()); L.listen(4)
    out = open('/dev/full', 'w') if stdout == 'full' else subprocess.PIPE
    env = dict(os.environ, PWSIM_ZYGOTE=name, FSIM_CHILDREADS='1')
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, cwd=cwd, env=env)
    fd = os.pidfd_open(p.pid)
    bufs = {p.stderr: b''}
    if stdout != 'full':
        bufs[p.stdout] = b''
    while True:
        rr, _, _ = select.select([L, fd] + [f for f in bufs if f is not None and not f.closed], [], [])
        for f in rr:
            if f is L:
                c, _ = L.accept()
                b, fds, _, _ = socket.recv_fds(c, 1 << 16, 3)
                while not b.endswith(b'\n'):
                    x = c.recv(1 << 16)
                    if not x: break
                    b += x
                pr, pw = os.pipe()      # the script starts when our copies are closed
                pid = os.fork()
                if pid == 0:
                    L.close(); c.close(); os.close(pw)
                    os.read(pr, 1); os.close(pr)
                    child(json.loads(b), fds, gmx)
                for x in fds:
                    try:
                        os.close(x)
                    except OSError:     # injected; the script closes its own
                        pass
                os.close(pr); os.close(pw)
                # its output must not fill the pipes while we wait
                pf = os.pidfd_open(pid)
                while True:
                    r2, _, _ = select.select([pf] + [g for g in bufs if not g.closed], [], [])
                    for g in r2:
                        if g is not pf:
                            drain(g, bufs)
                    if pf in r2:
                        break
                os.close(pf)
                _, st = os.waitpid(pid, 0)
                try:
                    c.send(b'%d' % (-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)))
                except OSError:
                    pass
                c.close()
            elif f is not fd:
                drain(f, bufs)
        if fd in rr:
            break
    os.close(fd); L.close()
    rc = p.wait()
    for f in list(bufs):
        while not f.closed:
            drain(f, bufs)
    if stdout == 'full':
        out.close()
    return rc, bufs.get(p.stdout, b''), bufs[p.stderr]

def drain(f, bufs):
    b = os.read(f.fileno(), 1 << 16)
    if b: bufs[f] += b
    else: f.close()
