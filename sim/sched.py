"""Deterministic cooperative scheduling of Python threads and Ctrl-C at a
chosen line of library code (both via sys.settrace: only code below the
pwtools source directory counts)."""
import dis, os, sys, threading

from .core import REPO, HarnessError
LIB = os.path.join(REPO, 'src', 'pwtools') + os.sep
_HOOK = []

def is_lib(fn):
    return fn.startswith(LIB)

class Deadline(BaseException):
    pass

_COMP = {}
def in_comprehension(frame):
    """CPython 3.12 skips the handlers of the function for exceptions which a
    trace function raises inside an inlined comprehension (a real Ctrl-C does
    reach them), so nothing is raised there."""
    co = frame.f_code
    r = _COMP.get(co)
    if r is None:
        r = []
        try:
            ops = {i.offset: i.opname for i in dis.get_instructions(co)}
            for e in dis._parse_exception_table(co):
                if ops.get(e.target) == 'SWAP':
                    r.append((e.start, e.end))
        except AttributeError:
            pass                    # other interpreter
        _COMP[co] = r
    return any(a <= frame.f_lasti < b for a, b in r)

def count_lines(fn, *a):
    """-> (value, number of library lines executed)"""
    n = [0]
    def tr(frame, ev, arg):
        if not is_lib(frame.f_code.co_filename):
            return None
        def loc(frame, ev, arg):
            if ev == 'line':
                n[0] += 1
            return loc
        if ev == 'call':
            n[0] += 1
        return loc
    sys.settrace(tr)
    try:
        v = fn(*a)
    finally:
        sys.settrace(None)
    return v, n[0]

def interrupt_at(k, fn, *a, exc=KeyboardInterrupt):
    """Run fn(*a); raise exc at the k-th executed library line.  Returns
    ('ok', value, None) / ('exc', exception name, where)."""
    n = [0]; fired = [None]
    pid = os.getpid()
    def hit(frame):
        if os.getpid() != pid:
            return                  # preexec_fn in a forked child
        n[0] += 1
        if n[0] >= k and not in_comprehension(frame):
            fired[0] = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
            sys.settrace(None)
            raise exc('injected')
    def loc(frame, ev, arg):
        if ev == 'line' and fired[0] is None:
            hit(frame)
        return loc
    def tr(frame, ev, arg):
        if fired[0] is not None or not is_lib(frame.f_code.co_filename):
            return None
        if frame.f_code.co_name == '__del__':
            return None
        return loc
    sys.settrace(tr)
    try:
        v = fn(*a)
        sys.settrace(None)
        return ('ok', v, fired[0])
    except BaseException as e:
        sys.settrace(None)
        return ('exc', type(e).__name__ + ': ' + str(e)[:300], fired[0])
    finally:
        sys.settrace(None)

class Scheduler:
    """Runs callables as real threads of which exactly one is released at a
    time.  The choice at every switch point (a library line event) comes from
    `choose(n_runnable, step)`; pass it a seeded function."""
    def __init__(self, choices, period=1, maxsteps=2000000):
        self.choices = choices          # list of ints consumed cyclically
        self.ci = 0
        self.step = 0
        self.switches = 0
        self.maxsteps = maxsteps
        self.trace = []
        self.lock = threading.Lock()
        self.results = {}
        self.pid = os.getpid()

    def _next(self):
        if not self.choices:
            return 0
        c = self.choices[self.ci % len(self.choices)]
        self.ci += 1
        return c

    def run(self, fns):
        n = len(fns)
        self.events = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.done = threading.Semaphore(0)
        self.cur = None
        self.countdown = 1 + self._next()
        ths = []
        for i, fn in enumerate(fns):
            t = threading.Thread(target=self._thread, args=(i, fn), daemon=True)
            ths.append(t)
        for t in ths:
            t.start()
        self.cur = self._pick()
        self.events[self.cur].release()
        self.done.acquire()
        for t in ths:
            t.join()
        return [self.results[i] for i in range(n)]

    def _pick(self):
        al = sorted(self.alive)
        return al[self._next() % len(al)]

    def _thread(self, i, fn):
        self.events[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            try:
                v = ('ok', fn())
            except BaseException as e:
                v = ('exc', type(e).__name__, str(e)[:500])
        finally:
            sys.settrace(None)
        self.results[i] = v
        self.alive.discard(i)
        if self.alive:
            self.cur = self._pick()
            self.events[self.cur].release()
        else:
            self.done.release()

    def _tracer(self, i):
        def loc(frame, ev, arg):
            if ev == 'line':
                self.point(i)
            return loc
        def tr(frame, ev, arg):
            fn = frame.f_code.co_filename
            if is_lib(fn):
                return loc
            return None
        return tr

    def point(self, i):
        """A switch point of thread i (also callable from harness code)."""
        if os.getpid() != self.pid:
            return                  # preexec_fn in a forked child
        self.step += 1
        if self.step > self.maxsteps:
            return
        self.countdown -= 1
        if self.countdown > 0:
            return
        self.countdown = 1 + self._next()
        if len(self.alive) < 2:
            return
        j = self._pick()
        if j != i:
            self.switches += 1
            if len(self.trace) < 4000:
                self.trace.append((self.step, i, j))
            self.cur = j
            self.events[j].release()
            self.events[i].acquire()
