"""Place one fault somewhere in the operation sequence of a call: first an
undisturbed execution on the same state counts its operations (file seam) or
its library lines, then the state is restored and the call is executed again
with the fault."""
from . import sched
from .core import mk_fault, restore, check, HarnessError

def counted(fn, *a):
    return sched.count_lines(fn, *a)

def interrupted(fn, k, *a):
    return sched.interrupt_at(k, fn, *a)

READK = ('read_eio', 'read_short', 'read_short_persist', 'read_eintr', 'open_fail')

def clean(E, fn, args, kind=None, **kw):
    """undisturbed execution; R.value is fn's value, R.nlines the line count"""
    if kind == 'line':
        R = E.node(counted, fn, *args, **kw)
        R.nlines = 0
        if R.status == 'ok':
            R.value, R.nlines = R.value
    else:
        R = E.node(fn, *args, **kw)
        R.nlines = 0
    return R

def faulty(E, fn, args, kind, frac, permille, D, **kw):
    """execution with one fault -> (R, hit)"""
    if kind == 'line':
        k = 1 + int(frac * max(1, D.nlines))
        R = E.node(interrupted, fn, k, *args, **kw)
        where = None
        if R.status == 'ok':
            s, v, where = R.value
            R.value = v
            if where:
                E.fault('ctrl-c_at_line')
            if s == 'exc':
                R.status, R.exc, R.excmsg, R.value = 'exc', v.split(':')[0], v, None
        return R, ('line', where)
    kc = D.ctl['kcount']
    budget = -1
    rule = None
    if kind == 'full':
        budget = int(frac * sum(o.ret for o in D.ops if o.kind == 'write' and o.ret > 0))
    else:
        rule = mk_fault(kind, int(frac * D.ctl['nmut']), permille)
        if not (kind in ('crash_before', 'crash_after', 'torn_crash', 'eio', 'sigint', 'eio_persist')):
            rule['at'] = int(frac * sum(kc[x] for x in rule['kinds']))
    R = E.node(fn, *args, rules=[rule] if rule else [], budget=budget, **kw)
    last = [o for o in R.ops if o.fault]
    hit = (kind, last[0].kind, last[0].path.lstrip('/')) if last else (kind,)
    return R, hit

def fired(R):
    return any(R.ctl['fired']) or bool(R.ctl['budget_hits'])
