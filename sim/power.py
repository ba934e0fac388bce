"""Power loss: from the recorded operations of a node (datalog) build a disk
state in which every operation not made durable by a sync may be missing, in
any combination the ordering rules allow:

- data of a file is durable up to its last fsync/fdatasync; of the writes after
  it any subset of 512-byte sectors survives, its length being that of some
  prefix of the length changes;
- names (create, unlink, rename, mkdir) are durable in order; an fsync of a
  directory makes everything before durable; of the rest a prefix survives.
"""
import os

class Ino:
    def __init__(self, data=b''):
        self.data = data          # durable content
        self.pend = []            # ('w', off, bytes) | ('t', len)

def states(snap, ops, root, cut, keepf, pick):
    """snap: durable file tree at the start; ops: recorded operations; cut: the
    power fails after ops[:cut]; keepf: fraction of the pending names kept;
    pick(i): seeded bool for pending data operation i.  Returns a snapshot."""
    dur = {}
    for k, v in snap.items():
        dur['/' + k] = Ino(v[1]) if v[0] == 'f' else v
    cur = dict(dur)
    pn = []                       # pending name operations
    for o in ops[:cut]:
        p = o.path
        if o.kind in ('write', 'trunc', 'create', 'unlink', 'mkdir', 'rename', 'rmdir', 'link') and o.ret < 0:
            continue
        if o.kind == 'create':
            ino = Ino(); cur[p] = ino; pn.append(('set', p, ino))
        elif o.kind == 'mkdir':
            cur[p] = ('d',); pn.append(('set', p, ('d',)))
        elif o.kind in ('unlink', 'rmdir'):
            cur.pop(p, None); pn.append(('del', p, None))
        elif o.kind == 'rename':
            q = o.data.decode('utf8', 'surrogateescape')
            if q.startswith(root):
                q = q[len(root):]
            x = cur.pop(p, None); cur[q] = x; pn.append(('ren', p, q))
        elif o.kind == 'trunc':
            if isinstance(cur.get(p), Ino):
                cur[p].pend.append(('t', max(0, o.a)))
        elif o.kind == 'write':
            if isinstance(cur.get(p), Ino) and o.ret > 0:
                cur[p].pend.append(('w', o.a, o.data[:o.ret]))
        elif o.kind == 'sync' and o.ret == 0:
            x = cur.get(p)
            if isinstance(x, Ino):
                x.data = apply(x.data, x.pend, None); x.pend = []
            else:                 # directory
                for n in pn:
                    name(dur, n)
                pn = []
    for n in pn[:int(round(keepf * len(pn)))]:
        name(dur, n)
    out = {}
    c = [0]
    for p in sorted(dur):
        v = dur[p]
        if v is None:
            continue
        if isinstance(v, Ino):
            out[p.lstrip('/')] = ('f', apply(v.data, v.pend, pick, c))
        else:
            out[p.lstrip('/')] = v
    return out

def name(d, n):
    if n[0] == 'set':
        d[n[1]] = n[2]
    elif n[0] == 'del':
        d.pop(n[1], None)
    else:
        x = d.pop(n[1], None)
        if x is not None:
            d[n[2]] = x

def apply(data, pend, pick, c=None):
    b = bytearray(data)
    for x in pend:
        if x[0] == 't':
            if pick and not pick_next(pick, c):
                continue
            n = x[1]
            if n < len(b):
                del b[n:]
            else:
                b.extend(b'\0' * (n - len(b)))
        else:
            off, d = x[1], x[2]
            o = 0
            while o < len(d):
                e = min(len(d), (off + o) // 512 * 512 + 512 - off)
                if not pick or pick_next(pick, c):
                    if len(b) < off + e:
                        b.extend(b'\0' * (off + e - len(b)))
                    b[off + o:off + e] = d[o:e]
                o = e
    return bytes(b)

def pick_next(pick, c):
    c[0] += 1
    return pick(c[0])
