"""Channel properties (H01..H04)."""
from spec import *
import spec
import models

def one(c, rule, ps, what):
    """the single complete path of a deterministic operation, or None"""
    ok = [p for p in ps if p.status == 'ret']
    if len(ok) != 1 or len(ps) != 1:
        x = next((getattr(p, 'bad', None) for p in ps if hasattr(p, 'bad')), None)
        c.fail(rule, '%s: %s' % (what, 'ends with ' + '/'.join(sorted({str(p.status) for p in ps})) + (': %s' % x.k if x else '') if len(ok) != 1 else 'outcome depends on something else than the state'), ps[0] if ps else None, x)
        return None
    x = getattr(ok[0], 'bad', None)
    if x is not None:
        c.fail(rule, '%s: %s %s' % (what, x.k, x.name), ok[0], x)
        return None
    c.ok(rule)
    return ok[0]

# ---------------------------------------------------------------- ring buffer
def H01(c):
    caps = (0, 1, 2, 3) if c.tier == 'quick' else (0, 1, 2, 3, 4, 5)
    for kind in ('int', 'tok'):
        for cap in caps:
            for rot in range(cap + 2):
                for fill in range(cap + 1):
                    cfg = config(); cfg.unroll = 16
                    e, st = c.engine(cfg)
                    q = c.obj(e, st, 'ring')
                    E = 'drv_ring_%s_' % kind
                    p = one(c, 'H01.construct', c.step(e, st, E + 'make', [q, cap]), 'constructing a ring of capacity %d' % cap)
                    if not p: return
                    cur = p.st; buf = []; n = [0]
                    def push(st, v):
                        if kind == 'int': return c.step(e, st, E + 'push', [q, v])
                        o = c.obj(e, st, 'value'); st = st.fork(); e.store(st, o, v, 'i32', log=False)
                        return c.step(e, st, E + 'push', [q, o])
                    def do(cur, op):
                        what = 'capacity %d, %d stored, after %d earlier: %s' % (cap, len(buf), rot, op)
                        if op == 'push':
                            v = e.sym(32, 'v%d' % n[0]); n[0] += 1
                            p = one(c, 'H01.push', push(cur, v), what)
                            if not p: return None
                            want = len(buf) < cap
                            c.check(p.num(p.ret) == int(want), 'H01.push-result', what + (' is refused although there is room' if want else ' is accepted although the ring is full'), p)
                            if want: buf.append(v)
                        else:
                            o = c.obj(e, cur, 'out'); s2 = cur.fork(); old = e.sym(32, 'old'); e.store(s2, o, old, 'i32', log=False)
                            p = one(c, 'H01.pop', c.step(e, s2, E + 'pop', [q, o]), what)
                            if not p: return None
                            want = bool(buf)
                            c.check(p.num(p.ret) == int(want), 'H01.pop-result', what + (' finds nothing' if want else ' yields something'), p)
                            got = p.cell(o)
                            if want: c.check(got == buf.pop(0), 'H01.fifo', what + ' does not yield the oldest value unchanged', p)
                            else: c.check(got == old, 'H01.pop-effect', what + ' on an empty ring changes the target', p)
                        cur = p.st
                        for m, w in (('size', len(buf)), ('capacity', cap), ('empty', not buf), ('full', len(buf) == cap)):
                            r = one(c, 'H01.' + m, c.step(e, cur, E + m, [q]), what + ' then ' + m)
                            if not r: return None
                            c.check(r.num(r.ret) == int(w), 'H01.%s-value' % m, what + ': %s is reported as %s' % (m, r.num(r.ret)), r)
                        return cur
                    for i in range(rot):
                        if cap:
                            cur = cur and do(cur, 'push'); cur = cur and do(cur, 'pop')
                    for i in range(fill): cur = cur and do(cur, 'push')
                    if cur is None: return
                    keep = list(buf)
                    for op in ('push', 'pop'):
                        buf[:] = keep
                        s = do(cur, op)
                        while s is not None and buf: s = do(s, 'pop')
                        s = s and do(s, 'pop')
                        if s is None: return

# ---------------------------------------------------------------- channel against its specification
class World:
    """a channel in a canonical state together with its specification state"""
    def __init__(w, c, kind, cap, pid):
        w.c = c; w.kind = kind; w.cap = cap; w.pid = pid
        cfg = config(exact_queues=True); cfg.unroll = 16
        w.e, w.st = c.engine(cfg)
        w.buf = []; w.rd = []; w.wr = []; w.n = 0
        w.C = {'int': 'librf::channel_t<int, false, false>', 'tok': 'librf::channel_t<drv_tok, true, false>', 'mt': 'librf::channel_t<int, false, true>'}[kind]
        w.ch = c.obj(w.e, w.st, 'channel', w.C)
        w.co = c.field('librf::state_base_t', r'coroutine_handle<void>')[0]; w.so = c.field('librf::state_base_t', r'scheduler_t \*$')[0]
        p = w.do('make', [w.ch, cap])
        w.ok = p is not None
        if w.ok: w.impl = p.n(w.e.load(w.st, w.ch, 'ptr', log=False))
        w.lk = {}
    def copy(w):
        n = World.__new__(World); n.__dict__.update(w.__dict__)
        n.st = w.st.fork(); n.buf = list(w.buf); n.rd = list(w.rd); n.wr = list(w.wr)
        return n
    def desc(w):
        return '%s channel, capacity %d, %d stored, %d readers and %d writers waiting' % (w.kind, w.cap, len(w.buf), len(w.rd), len(w.wr))
    def do(w, fn, args, what=None):
        p = one(w.c, w.pid + '.' + fn, w.c.step(w.e, w.st, 'drv_ch_%s_%s' % (w.kind, fn), args), what or ('%s of %s' % (fn, w.desc())))
        if p is not None: w.st = p.st
        return p
    def handle(w):
        h = w.c.obj(w.e, w.st, 'frame', kind='heap'); ps = None
        return h
    def new_aw(w, dirn, alt=False):
        """awaiter for a read / write; returns (awaiter, value)"""
        a = w.c.obj(w.e, w.st, dirn + '-awaiter', w.C + ('::read_awaiter' if dirn == 'read' else '::write_awaiter'))
        if dirn == 'read':
            p = w.do('co_await' if alt else 'read', [a, w.ch]); return (a, None) if p else None
        v = w.e.sym(32, 'v%d' % w.n); w.n += 1
        p = w.do('shl' if alt else 'write', [a, w.ch, v])
        return (a, v) if p else None
    def state_of(w, a):
        o = w.c.field(w.C + '::read_awaiter', r'counted_ptr<')[0] if w.isread(a) else w.c.field(w.C + '::write_awaiter', r'counted_ptr<')[0]
        return w.e.norm(w.st, w.e.load(w.st, off(a, o), 'ptr', log=False))
    def isread(w, a): return w.e.rinfo[a[1]].name.startswith('read')
    # the specification
    def expect(w, dirn, a, v):
        """-> (waits, [(awaiter, kind, value)] woken, value read)"""
        if dirn == 'write':
            if w.rd and not w.buf:
                r = w.rd.pop(0); return False, [(r, v)], None
            if len(w.buf) < w.cap: w.buf.append(v); return False, [], None
            return True, [], None
        if w.buf:
            x = w.buf.pop(0)
            if w.wr: t = w.wr.pop(0); w.buf.append(t[1]); return False, [(t, None)], x
            return False, [], x
        if w.wr: t = w.wr.pop(0); return False, [(t, None)], t[1]
        return True, [], None
    def woken(w, p, want, rules):
        """the wake-ups of p against the expected ones"""
        c = w.c; e = w.e; add = p.k('sched.add')
        if not c.check(len(add) == len(want), w.pid + '.wake', '%s: %d coroutines are woken instead of %d' % (w.what, len(add), len(want)), p, add[-1] if add else None): return False
        for x, (t, v) in zip(add, want):
            s = t[2]
            if not c.check(p.n(x.a[1]) == s, w.pid + '.wake-order', w.what + ': another coroutine than the longest waiting one is woken', p, x): return False
            c.check(p.n(x.a[0]) == t[4], w.pid + '.wake-scheduler', w.what + ': a coroutine is woken on another scheduler than its own', p, x)
            if v is not None:
                late = [y for y in p.k('store') if p.n(y.a[0])[1] == t[0][1] and y.n > x.n]
                c.check(not late, w.pid + '.wake-published', w.what + ': the value is delivered after its reader was woken', p, late[0] if late else None)
                r = w.do('rresume', [t[0]], w.what + ': the woken read')
                if r is None: return False
                c.check(r.n(r.ret) == v, w.pid + '.delivered', w.what + ': the woken reader does not get the value written', r)
            else:
                if w.do('wresume', [t[0]], w.what + ': the woken write') is None: return False
            d = w.copy(); q = d.do('rdtor' if w.isread(t[0]) else 'wdtor', [t[0]], w.what + ': destroying the woken operation')
            if q is None: return False
            c.check(not q.k('sched.add', 'lock', 'q.pop', 'q.push_back'), w.pid + '.finished', w.what + ': destroying the woken operation acts on the channel again', q)
        return True
    def locked(w, p):
        """everything the operation does to the channel lies in one hold of its lock"""
        c = w.c; e = w.e
        hold = [x for x in p.k('lock', 'trylock') if p.n(x.a[0])[1] == w.impl[1]]
        out = [x for x in p.ev if x.k in ('store', 'rmw', 'load', 'cas', 'q.push_back', 'q.pop', 'q.push_front', 'q.erase') and P(p.n(x.a[0])) and p.n(x.a[0])[1] == w.impl[1] and not any(p.n(l[0])[1] == w.impl[1] for l in x.locks)]
        # constant members may be read anywhere
        out = [x for x in out if x.k != 'load']
        c.check(len(hold) == 1 and not out and not p.st.locks, w.pid + '.atomic', '%s: the operation is spread over %d lock holds' % (w.what, len(hold)) if not out else w.what + ': the channel is changed without its lock', p, out[0] if out else None)
    def alive(w, p, a, n0):
        """the operation itself owns the channel until it has released the lock"""
        c = w.c; n = n0
        for x in p.ev:
            if x.k in ('sp+', 'sp-') and P(p.n(x.a[0])) and p.n(x.a[0])[1] == w.impl[1]:
                d = p.n(x.a[1]); kind = w.e.rinfo[d[1]].kind if P(d) else ''
                if d[1] == a[1] or kind == 'stack': n += 1 if x.k == 'sp+' else -1
            if x.k == 'spmove' and p.n(x.a[0]) == w.impl and len(x.a) > 2:
                f, t = p.n(x.a[2]), p.n(x.a[1])
                own = lambda d: d[1] == a[1] or w.e.rinfo[d[1]].kind == 'stack'
                n += int(own(t)) - int(own(f))
            if any(p.n(l[0])[1] == w.impl[1] for l in x.locks) or x.k == 'unlock':
                if not c.check(n >= 1, w.pid + '.alive', w.what + ': the channel may be destroyed while its lock is held', p, x): return
        c.ok(w.pid + '.alive')
    def op(w, dirn, alt=False, via='suspend', deep=True):
        """one read or write through the awaiter protocol, compared with the specification"""
        c = w.c; e = w.e
        w.what = '%s (%s) on %s' % (dirn, via, w.desc())
        t = w.new_aw(dirn, alt)
        if t is None: return False
        a, v = t; pre = 'r' if dirn == 'read' else 'w'
        keep = (list(w.buf), list(w.rd), list(w.wr))
        waits, want, val = w.expect(dirn, a, v)
        if via == 'ready':
            p = w.do(pre + 'ready', [a])
            if p is None: return False
            if w.kind != 'mt':
                w.buf, w.rd, w.wr = keep
                return c.check(p.num(p.ret) == 0 and not p.k('sched.add', 'lock'), w.pid + '.ready', w.what + ': await_ready acts on the channel', p)
            if not c.check(p.num(p.ret) == int(not waits), w.pid + '.ready-result', w.what + ': await_ready reports %s' % p.num(p.ret), p): return False
            w.locked(p)
            if waits:
                c.check(not p.k('sched.add', 'q.push_back', 'q.push_front'), w.pid + '.ready-effect', w.what + ': a refused attempt has an effect', p)
                return True
        elif via == 'dtor':
            if waits: return True
            p = w.do(pre + 'dtor', [a])
            if p is None: return False
            w.locked(p)
            return w.woken(p, want, None)
        else:
            h = e.fresh('ptr', 'coroutine'); w.st.facts[('N', h[1])] = 1
            p = w.do(pre + 'suspend', [a, h])
            if p is None: return False
            if not c.check(p.num(p.ret) == int(waits), w.pid + '.suspend', w.what + (': the coroutine is suspended although the operation can be carried out' if not waits else ': the operation completes although nothing can take part in it'), p): return False
            w.locked(p); w.alive(p, a, 1)
            if waits:
                s = w.state_of(a)
                if not c.check(P(s) and e.rinfo[s[1]].kind == 'heap', w.pid + '.waiter', w.what + ': no waiter is registered', p): return False
                gs = p.k('get_scheduler')
                c.check(p.eq(p.cell(off(s, w.co)) or 0, h) is True, w.pid + '.handle', w.what + ': the waiter does not hold the awaiting coroutine', p)
                c.check(bool(gs) and p.eq(p.cell(off(s, w.so)) or 0, gs[-1].ret) is True, w.pid + '.scheduler', w.what + ': the waiter does not remember the scheduler of its coroutine', p)
                c.check(not p.k('sched.add'), w.pid + '.wake', w.what + ': a coroutine is woken by an operation that waits', p)
                push = [x for x in p.ev if x.k in ('q.push_back', 'q.push_front') or x.k == 'cont' and x.name.split('.')[-1] in ('push_back', 'emplace_back', 'push_front')]
                late = [x for x in p.k('store') if push and P(p.n(x.a[0])) and p.n(x.a[0])[1] == s[1] and x.n > push[-1].n and not any(p.n(l[0])[1] == w.impl[1] for l in x.locks)]
                c.check(not late, w.pid + '.published', w.what + ': the waiter is changed after it became visible', p, late[0] if late else None)
                t = (a, v, s, h, gs[-1].ret if gs else None)
                (w.rd if dirn == 'read' else w.wr).append(t)
                # the waiter keeps the channel alive
                own = [x for x in p.k('sp+') if p.n(x.a[0]) == w.impl and p.n(x.a[1])[1] == s[1]] + [x for x in p.k('spmove') if p.n(x.a[0]) == w.impl and p.n(x.a[1])[1] == s[1]]
                c.check(bool(own), w.pid + '.owned', w.what + ': the waiting operation does not keep the channel alive', p)
                return True
        if not w.woken(p, want, None): return False
        if dirn == 'read':
            r = w.do('rresume', [a], w.what + ': result')
            if r is None: return False
            c.check(r.n(r.ret) == val, w.pid + '.read-value', w.what + ': the value read is not the oldest one', r)
        else:
            if w.do('wresume', [a]) is None: return False
        # the finished awaiter does nothing more
        d = w.copy()
        p = d.do(pre + 'dtor', [a])
        if p is None: return False
        c.check(not p.k('sched.add', 'lock', 'q.pop', 'q.push_back'), w.pid + '.finished', w.what + ': destroying the finished operation acts on the channel', p)
        return True
    def drain(w):
        """read everything that is left; values must come out in order"""
        n = 0
        while w.buf or w.wr:
            if not w.op('read'): return False
            n += 1
            if n > 12: return False
        while w.rd:
            if not w.op('write'): return False
            n += 1
            if n > 12: return False
        return w.op('read')

def canonical(c, pid, kinds, caps, depth):
    """every canonical state: capacity, rotation of the ring, fill level, waiting readers (empty ring) or writers (full ring)"""
    for kind in kinds:
        for cap in caps:
            w0 = World(c, kind, cap, pid)
            if not w0.ok: return
            w0.what = 'construction'
            p = one(c, pid + '.capacity', c.step(w0.e, w0.st, 'drv_ch_%s_capacity' % kind, [w0.ch]), 'capacity()')
            if p is None: return
            c.check(p.num(p.ret) == cap, pid + '.capacity-value', 'a channel of capacity %d reports %s' % (cap, p.num(p.ret)), p)
            for rot in range(cap + 1):
                w1 = w0.copy(); ok = True
                for i in range(rot): ok = ok and w1.op('write') and w1.op('read')
                if not ok: return
                for fill in range(cap + 1):
                    w2 = w1.copy()
                    for i in range(fill): ok = ok and w2.op('write')
                    if not ok: return
                    yield w2
                    if fill == 0:
                        w3 = w2.copy()
                        for i in range(depth):
                            if not w3.op('read'): return
                            yield w3.copy()
                    if fill == cap:
                        w3 = w2.copy()
                        for i in range(depth):
                            if not w3.op('write'): return
                            yield w3.copy()

def H02(c):
    deep = c.tier == 'thorough'
    n = 0
    for w in canonical(c, 'H02', ('int', 'tok', 'mt'), (0, 1, 2, 3) if deep else (0, 1, 2), 3 if deep else 2):
        n += 1
        for dirn in ('read', 'write'):
            for alt in (False, True):
                x = w.copy()
                if x.op(dirn, alt) and not x.drain(): return
    c.check(n >= 30, 'H02.states', 'only %d canonical states could be reached' % n)

def H03(c):
    deep = c.tier == 'thorough'
    n = 0
    for w in canonical(c, 'H03', ('mt', 'int', 'tok'), (0, 1, 2, 3) if deep else (0, 1, 2), 3 if deep else 2):
        n += 1
        for dirn in ('read', 'write'):
            x = w.copy()
            if x.op(dirn, via='ready') and not x.drain(): return
    c.check(n >= 30, 'H03.states', 'only %d canonical states could be reached' % n)

def H04(c):
    deep = c.tier == 'thorough'
    for w in canonical(c, 'H04', ('int', 'tok', 'mt'), (0, 1, 2, 3) if deep else (0, 1, 2), 2):
        for dirn in ('read', 'write'):
            x = w.copy()
            if x.op(dirn, via='dtor') and not x.drain(): return

PROPS = dict(H01=H01, H02=H02, H03=H03, H04=H04)
