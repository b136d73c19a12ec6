"""Whole coroutines that use events, mutexes and channels, on schedulers of one or two threads (E07..)."""
from spec import *
import spec, itertools, os
from rules.world import *
from rules.system import W
DRIVERS = ('system', 'channel', 'sync', 'synch', 'syncm', 'scheduler', 'timer', 'future')
SPLIT = dict(E07=True, M07=True, H05=True)

def shuffles(a, b):
    """every interleaving of two sequences"""
    if not a or not b: yield list(a) + list(b); return
    for r in shuffles(a[1:], b): yield [a[0]] + r
    for r in shuffles(a, b[1:]): yield [b[0]] + r

# ---------------------------------------------------------------- E07
FORM = ('co_await e', 'wait()', 'wait_for', 'wait_until', 'wait_all', 'wait_all_for')
class EvM:
    """what events are: stored signals and waiters in order"""
    def __init__(m, n): m.c = [0] * n; m.q = [()] * n; m.w = {}
    def copy(m):
        n = EvM(0); n.c = list(m.c); n.q = list(m.q); n.w = {k: dict(x) for k, x in m.w.items()}; return n
    def add(m, k, form, ev, dl, on): m.w[k] = dict(form=form, ev=ev, dl=dl, on=on, st='new', pend=frozenset())
    def op(m, o, e):
        if o == 'start':
            w = m.w[e]; pend = set()
            for x in w['ev']:
                if m.c[x] > 0: m.c[x] -= 1
                else: pend.add(x); m.q[x] = m.q[x] + (e,)
            w['pend'] = frozenset(pend); w['st'] = 'wait' if pend else 1
        elif o == 'signal':
            if m.q[e]: m.offer(e)
            else: m.c[e] += 1
        elif o == 'all':
            while m.q[e]: m.offer(e)
        elif o == 'reset': m.c[e] = 0
        elif o == 'expire':
            w = m.w[e]
            if w['st'] == 'wait':
                w['st'] = 2; w['pend'] = frozenset(); m.q = [tuple(k for k in q if k != e) for q in m.q]
        else: raise KeyError(o)
    def offer(m, e):
        k = m.q[e][0]; m.q[e] = m.q[e][1:]; w = m.w[k]; w['pend'] = w['pend'] - {e}
        if not w['pend']: w['st'] = 1
    def batch(m, on, now):
        return [('expire', k) for k, w in m.w.items() if w['on'] == on and w['dl'] is not None and w['dl'] <= now and w['st'] == 'wait'] + [('start', k) for k, w in m.w.items() if w['on'] == on and w['st'] == 'new']
    def due(m, now):
        for k, w in m.w.items():
            if w['dl'] is not None and w['dl'] <= now: m.op('expire', k)
    def rest(m, now):
        for on in 'TS':
            for o in m.batch(on, now): m.op(*o)
        m.due(now)
    def key(m): return tuple(m.c), tuple(m.q), tuple((k, w['form'], w['ev'], w['dl'], w['st'], w['pend']) for k, w in m.w.items())
    def end(m): return tuple((k, w['st']) for k, w in m.w.items())
class Sy(W):
    DROP = ('intrusive_link_queue', 'on_notify', 'on_timeout', 'on_cancel', 'batch_lock_t')
class Ev(Sy):
    def __init__(w, c, pid, n=2):
        W.__init__(w, c, pid); w.what = 'setup events'; w.ev = w.obj('events'); w.made = {}; w.m = EvM(n); w.now = 0; w.n = n; w.hist = ()
        for k in range(n): w.do('drv_sy_event', [off(w.ev, 16 * k), 0])
    def fork(w): n = w.copy(); n.m = w.m.copy(); return n
    def at(w, e): return off(w.ev, 16 * e)
    def say(w, s): w.hist = w.hist + (s,); w.what = ', '.join(w.hist)
    def wait(w, form, e, t=0, on=None):
        k = len(w.m.w); on = on or w.S; T = form in (2, 3, 5)
        w.say('coroutine %d: %s(%s%s)' % (k, FORM[form], 'e0, e1' if form >= 4 else 'e%d' % e, ', %d' % t if T else ''))
        w.m.add(k, form, tuple(range(w.n)) if form >= 4 else (e,), (t if form == 3 else w.now + t) if T else None, 'S' if on is w.S else 'T')
        w.e.cfg.now = w.now; w.do('drv_sy_wait', [on, k, form, w.ev if form >= 4 else w.at(e), w.n, t]); return k
    def rest(w):
        """everything runs"""
        w.m.rest(w.now)
        w.p = w.idle(w.now); return w.p
    def act(w, o, e):
        w.say('%s e%d' % ({'all': 'signal_all'}.get(o, o), e)); w.m.op(o, e)
        w.p = w.do(*w.call(o, e))
    def call(w, o, e): return {'signal': 'drv_sy_signal', 'all': 'drv_sy_signal_all', 'reset': 'drv_sy_reset'}[o], [w.at(e)]
    def apply(w, op):
        if op[0] == 'wait': w.wait(op[1], op[2], 10)
        elif op[0] == 'time': w.now = 10; w.say('10 units later')
        else: w.act(*op)
        p = w.rest(); w.verify(p); return p
    def seen(w, k):
        g = w.got(k); return 'new' if g == [] else 'wait' if g == [0] else g[1] if len(g) == 3 and g[0] == 0 and g[2] == 9 else tuple(g)
    def stored(w):
        """how many signals each event has stored"""
        r = []
        for e in range(w.n):
            v = w.copy(); v.log = []; v.do('drv_sy_drain', [v.S, 90, v.at(e)]); v.idle(v.now); g = v.got(90)
            r.append(g.count(30) if g[-1:] == [9] else None)
        return r
    def verify(w, p):
        for k, x in w.m.w.items():
            s = w.seen(k)
            w.check(s == x['st'], 'resumed' if isinstance(s, tuple) or x['st'] in (1, 2) and s == 'wait' else 'outcome', 'coroutine %d: %s instead of %s (1 = notified, 2 = timed out)' % (k, s, x['st']), p)
    def close(w, alts=()):
        """everybody gets what it waits for, then nothing is left. alts: what the events can be"""
        w.what += ', the end'; alts = list(alts) or [w.m]
        def signal(e):
            for m in alts: m.op('signal', e)
            w.do('drv_sy_signal', [w.at(e)])
        for e in range(w.n):
            while any(m.q[e] for m in alts): signal(e)
        w.m = alts[0]; p = w.rest(); w.verify(p)
        w.now = 1000; p = w.rest(); w.verify(p)
        for e in range(w.n): signal(e)
        s = w.stored(); w.check(s in [m.c for m in alts], 'stored', 'after one more signal each the events have %s signals stored instead of %s' % (s, [m.c for m in alts]), p)
        for e in range(w.n): p = w.do('drv_sy_event_dtor', [w.at(e)])
        w.leaks(p)

def ev_ops(m, now, most):
    r = [(o, e) for o in ('signal', 'all', 'reset') for e in range(2)]
    if len(m.w) < most: r += [('wait', f, 0) for f in ((1, 2, 3, 4, 5) if m.w else range(6))] + ([('wait', 1, 1)] if m.w else [])
    if now == 0 and any(x['st'] == 'wait' and x['dl'] is not None for x in m.w.values()): r.append(('time',))
    return r
def ev_plan(depth, most):
    """shortest histories of the reference model that reach every situation, each with the operations that are to be tried there"""
    def run(m, now, op):
        m = m.copy()
        if op[0] == 'wait':
            f = op[1]; m.add(len(m.w), f, (0, 1) if f >= 4 else (op[2],), 10 if f == 3 else now + 10 if f in (2, 5) else None, 'S')
        elif op[0] == 'time': now = 10
        else: m.op(*op)
        m.rest(now); return m, now
    m = EvM(2); seen = {m.key() + (0,)}; level = [((), m, 0)]; out = []
    for d in range(depth):
        nxt = []
        for h, m, now in level:
            ops = ev_ops(m, now, most); out.append((h, ops))
            for op in ops:
                n, t = run(m, now, op); k = n.key() + (t,)
                if k not in seen: seen.add(k); nxt.append((h + (op,), n, t))
        level = nxt
    return out

@guard
def E07(c):
    deep = c.tier == 'thorough'
    base = Ev(c, 'E07'); base.TWO = False
    def histories(item):
        h, ops = item; w = base.fork()
        try:
            for op in h: w.apply(op)
        except Stop: return
        for op in ops:
            v = w.fork()
            try:
                v.apply(op); v.close(); c.stepcount['event histories'] = c.stepcount.get('event histories', 0) + 1
            except Stop: continue
    c.par(ev_plan(int(os.environ.get('DD', 4 if deep else 3)), 4 if deep else 3), histories)
    c.par(ev_threads(deep), lambda it: ev_pair(c, base, it))
def ev_threads(deep):
    """(name, preparation, what thread 1 does, what thread 2 does): S and T are batches of the schedulers"""
    out = []
    W0 = lambda f, e=0, on='S': ('wait', f, e, on)
    F = range(1, 6) if deep else (1, 2, 4, 5)       # wait_for and wait_until share their code
    for f in F:
        for pre in ((), (('signal', 0),)) if f < 4 else ((), (('signal', 0),), (('signal', 0), ('signal', 1))):
            # the waiter begins to wait while somebody signals
            need = [('signal', 0)] if f < 4 else [('signal', 0), ('signal', 1)]
            for b in ([need] if f < 4 else [need, need[:1]]) + [[('all', 0)], [('reset', 0)]]:
                if f in (3, 5) and not deep and b[0][0] == 'reset': continue
                if len(pre) == 2 and b[0][0] == 'signal' and not deep: continue
                out.append((pre + (W0(f),), ('S',), tuple(b)))
                if deep and len(b) == 1: out.append((pre + (W0(f),), b[0], (('S',), ('S',))))
            if deep or not pre and f in (2, 4): out.append((pre + (W0(f), W0(1, 0, 'T')), ('S',), (('T',),)))
        # it waits; the last signal comes from another thread than the one it runs on
        pre = (W0(f), 'run') + ((('signal', 1),) if f >= 4 else ())
        out.append((pre, ('signal', 0), (('S',), ('S',))))
        out.append((pre, ('all', 0), (('S',), ('S',))))
        out.append((pre, ('S',), (('signal', 0),)))
        out.append((pre, ('signal', 0), (('signal', 0),)))
        out.append((pre, ('signal', 0), (('reset', 0),)))
        out.append((pre + (W0(1, 0, 'T'), 'run'), ('signal', 0), (('signal', 0), ('S',), ('T',))))
        out.append((pre + (W0(1, 0, 'T'), 'run'), ('all', 0), (('S',), ('T',))))
        if f in (2, 3, 5):
            # the time is over at the moment of the signal
            out.append((pre + ('time',), ('S',), (('signal', 0),)))
            out.append((pre + ('time',), ('signal', 0), (('S',), ('S',))))
            out.append((pre + ('time',), ('all', 0), (('S',), ('S',))))
            out.append((pre + (W0(1, 0, 'T'), 'run', 'time'), ('signal', 0), (('S',), ('T',))))
            if deep: out.append((pre + ('time',), ('S',), (('all', 0),)))
        if f >= 4:
            out.append(((W0(f), 'run'), ('signal', 0), (('signal', 1), ('S',))))
            out.append(((W0(f), 'run', 'time') if f == 5 else (W0(f), 'run'), ('S',), (('signal', 0), ('signal', 1))))
    return out
def ev_pair(c, base, item):
    try: ev_pair1(c, base, item)
    except Stop: pass
def ev_pair1(c, base, item):
    pre, a, bs = item; w = base.fork(); w.TWO = True; on = dict(S=w.S, T=w.T)
    for o in pre:
        if o == 'run': w.rest()
        elif o == 'time': w.now = 10; w.say('10 units later')
        elif o[0] == 'wait': w.wait(o[1], o[2], 10, on[o[3]])
        else: w.act(*o)
    def name(o): return 'scheduler %s runs' % o[0] if len(o) == 1 else '%s e%d' % o
    def call(o): return ('drv_sc_batch', [on[o[0]]]) if len(o) == 1 else w.call(*o)
    def ops(o): return w.m.batch(o[0], w.now) if len(o) == 1 else [o]
    w.e.cfg.now = w.now; w.what += ' | %s | beside it: %s' % (name(a), ', '.join(map(name, bs)))
    want = {}
    for seq in shuffles(ops(a), [x for b in bs for x in ops(b)]):
        m = w.m.copy()
        for o in seq: m.op(*o)
        m.rest(w.now); want.setdefault(m.end(), {})[m.key()] = m
    num = 0
    for q, p in both(w, call(a), [call(b) for b in bs], two=False, reduce=True):
        num += 1
        try:
            q.m = w.m.copy(); q.note(p); p = q.idle(q.now); g = tuple((k, q.seen(k)) for k in q.m.w)
            if not q.check(g in want, 'threads', 'the coroutines end up as %s; possible are %s (1 = notified, 2 = timed out)' % (g, sorted(map(str, want))), p): raise Stop()
            q.close([m.copy() for m in want[g].values()])
        except Stop: pass
        finally: w.e.cfg.now = w.now
    c.check(num > 1, 'E07.interleavings', '%s: only %d interleavings' % (w.what, num))
    c.stepcount['event interleavings'] = c.stepcount.get('event interleavings', 0) + num
# ---------------------------------------------------------------- M07
LOCK = ('lock()', 'co_await m', 'lock(adopt_manual_unlock)', 'try_lock()', 'try_lock_for', 'try_lock_until', 'mutex_t::lock(m, n)', 'mutex_t::lock(adopt_manual_unlock, m, n)', 'lock() twice')
class Mu(Sy):
    """coroutines that lock, stay inside until their gate is opened, and unlock"""
    def __init__(w, c, pid):
        W.__init__(w, c, pid); w.what = 'setup mutexes'; w.mx = w.obj('mutexes'); w.gates = w.obj('gates'); w.made = {}; w.now = 0; w.hist = (); w.k = {}; w.inside = None; w.ranked = ()
        w.e.cfg.ret[r'^rand$'] = lambda e, st, ins, args, dem, name: 0
        for k in range(2): w.do('drv_sy_mutex', [off(w.mx, 16 * k)])
    def fork(w): n = w.copy(); n.k = {k: dict(x) for k, x in w.k.items()}; return n
    def say(w, s): w.hist = w.hist + (s,); w.what = ', '.join(w.hist)
    def gate(w, k, n=0): return off(w.gates, 32 * k + 16 * n)
    def start(w, form, mi, on='S'):
        k = len(w.k); S = w.S if on == 'S' else w.T; t = 10 if form == 5 else 10 - w.now
        w.say('coroutine %d%s: %s of m%d' % (k, '' if on == 'S' else ' on the other scheduler', LOCK[form], mi))
        for n in range(2): w.do('drv_sy_gate', [w.gate(k, n)])
        w.k[k] = dict(form=form, mi=mi, need=(0, 1) if form in (6, 7) else (mi,), dl=10 if form in (4, 5) else None, on=on, open=0, free=w.holder(mi) is None)
        w.e.cfg.now = w.now; w.do('drv_sy_lock', [S, k, form, w.mx, mi, t, w.gate(k)]); return k
    def open(w, k):
        x = w.k[k]; w.say('coroutine %d may leave' % k)
        w.do('drv_sy_open', [w.gate(k, x['open'])]); x['open'] += 1
    def apply(w, op):
        if op[0] == 'start': w.start(*op[1:])
        elif op[0] == 'open': w.open(op[1])
        else: w.now = 10; w.say('10 units later')
        return w.rest()
    def rest(w):
        p = w.idle(w.now); w.judge(p); return p
    def scan(w, p=None):
        """who is inside of what, from the order of what happened"""
        inside = {0: None, 1: None}; order = []; ok = True
        for k, v in w.log:
            if v in (20, 21):
                if inside[v - 20] is not None and p is not None: ok = w.check(False, 'exclusion', 'coroutine %d is inside m%d together with coroutine %d' % (k, v - 20, inside[v - 20]), p)
                inside[v - 20] = k; order.append((k, v - 20))
            elif v in (30, 31): inside[v - 30] = None
        if p is not None and ok: w.check(True, 'exclusion', '')
        return inside, order
    def holder(w, m): return w.scan()[0][m]
    def st_(w, k):
        g = w.got(k)
        return 'new' if not g else 'end' if g[-1] == 9 else 'wait' if g == [0] else 'in'
    def judge(w, p, threads=False):
        inside, order = w.scan(p)
        for m in (0, 1): w.check(w.bool('drv_sy_locked', [off(w.mx, 16 * m)]) == int(inside[m] is not None), 'free', 'm%d is %s although %s' % (m, ('locked', 'free')[inside[m] is not None], 'coroutine %d is inside' % inside[m] if inside[m] is not None else 'nobody is inside'), p)
        for k, x in w.k.items():
            g = w.got(k); s = w.st_(k); f = x['form']; E = [20 + m for m in x['need']]; L = [30 + m for m in x['need']]
            if f == 8: E, L = E + [40], [41] + L
            if 2 in g:
                w.check(g == [0, 2, 9] and (f == 3 and (not x['free'] or threads) or x['dl'] is not None and w.now >= x['dl']), 'refused', 'coroutine %d is refused the mutex: %s' % (k, g), p)
            elif s == 'wait':
                w.check(f != 3 and (x['dl'] is None or w.now < x['dl']), 'waits', 'coroutine %d waits for ever' % k, p)
                w.check(any(inside[m] is not None for m in x['need']), 'lost', 'coroutine %d waits although nobody is inside' % k, p)
            else:
                full = [0] + E + L + [9]
                n = 1 + len(E) + (0 if x['open'] == 0 else 1 if f == 8 and x['open'] == 1 else len(L) + 1)
                w.check(g == full[:n], 'course', 'coroutine %d went through %s instead of %s' % (k, g, full[:n]), p)
                if f == 3 and not threads: w.check(x['free'], 'refused', 'coroutine %d gets the mutex that is taken' % k, p)
        # first come, first served
        got = [k for k, m in order]
        for i, j in itertools.combinations(w.ranked, 2):
            if w.k[i]['mi'] == w.k[j]['mi'] and j in got: w.check(2 in w.got(i) or i in got and got.index(i) < got.index(j), 'order', 'coroutine %d overtakes coroutine %d' % (j, i), p)
        w.ranked = tuple(k for k in w.ranked if w.st_(k) == 'wait') + tuple(k for k in sorted(w.k) if k not in w.ranked and w.st_(k) == 'wait' and len(w.k[k]['need']) == 1)
    def close(w, p=None):
        """everybody may leave"""
        w.what += ', everybody may leave'
        for i in range(3 * len(w.k) + 1):
            ks = [k for k in w.k if w.st_(k) == 'in']
            if not ks: break
            w.k = {k: dict(x) for k, x in w.k.items()}; k = ks[0]; w.do('drv_sy_open', [w.gate(k, w.k[k]['open'])]); w.k[k]['open'] += 1; p = w.rest()
        w.check(all(w.st_(k) == 'end' for k in w.k), 'end', 'not all coroutines come to an end', p)
        w.now = 1000; p = w.rest()
        for k in w.k:
            for n in range(2): w.do('drv_sy_gate_dtor', [w.gate(k, n)])
        for m in range(2): p = w.do('drv_sy_mutex_dtor', [off(w.mx, 16 * m)])
        w.leaks(p)
    def key(w): return w.now, tuple((x['form'], x['mi'], w.st_(k), x['open'], x['free'] if x['form'] == 3 else 0) for k, x in w.k.items() if w.st_(k) != 'end'), w.ranked, len([k for k in w.k])

@guard
def M07(c):
    deep = c.tier == 'thorough'
    base = Mu(c, 'M07'); base.TWO = False
    first = (0, 2, 6, 8) if not deep else (0, 1, 2, 3, 4, 5, 6, 7, 8)
    second = [(f, 0) for f in range(9)] + [(0, 1), (6, 1), (7, 1)]
    third = ((0, 0), (4, 0), (6, 0)) if not deep else ((0, 0), (0, 1), (4, 0), (6, 0), (6, 1), (2, 0))
    def histories(item):
        f, (g, mi) = item; w = base.fork(); seen = set(); work = []
        try: w.apply(('start', f, 0)); w.apply(('start', g, mi))
        except Stop: return
        work.append(w)
        while work:
            w = work.pop(); ops = [('open', k) for k in w.k if w.st_(k) == 'in']
            if len(w.k) < 3: ops += [('start',) + t for t in third]
            if w.now == 0 and any(x['dl'] is not None and w.st_(k) == 'wait' for k, x in w.k.items()): ops.append(('time',))
            try: v = w.fork(); v.close()
            except Stop: pass
            for op in ops:
                v = w.fork()
                try: v.apply(op)
                except Stop: continue
                c.stepcount['mutex histories'] = c.stepcount.get('mutex histories', 0) + 1
                if v.key() not in seen: seen.add(v.key()); work.append(v)
    c.par([(f, g) for f in first for g in second], histories)
    c.par(mu_threads(deep), lambda it: mu_pair(c, base, it))
def mu_threads(deep):
    out = []
    for f in range(9):
        if not deep and f in (1, 5): continue
        L = lambda form, on, mi=0: ('start', form, mi, on)
        S = ('S',); T = ('T',)
        # both begin at the same time
        for g in (0, 2, 4, 6) if deep else (0, 6): out.append(((L(f, 'S'), L(g, 'T')), S, (T,)))
        if f in (6, 7): out.append(((L(f, 'S'), L(6, 'T', 1)), S, (T,)))
        # one leaves, the other one begins, waits or gives up
        for h in (0, 2, 6) if deep else (2, 6):
            out.append(((L(h, 'S'), 'run', ('open', 0), L(f, 'T')), S, (T,)))
            out.append(((L(h, 'S'), 'run', L(f, 'T'), ('open', 0)), T, (S,)))
            if f == 3: continue
            out.append(((L(h, 'S'), 'run', L(f, 'T'), 'run', ('open', 0)), S, (T,)))
            if f in (4, 5):
                out.append(((L(h, 'S'), 'run', L(f, 'T'), 'run', ('open', 0), 'time'), S, (T,)))
                out.append(((L(h, 'S'), 'run', L(f, 'T'), 'run', ('open', 0), 'time'), T, (S,)))
                out.append(((L(h, 'S'), 'run', L(f, 'T'), 'run', L(0, 'S'), 'run', ('open', 0), 'time'), S, (T,)))
            else: out.append(((L(h, 'S'), 'run', L(f, 'T'), 'run', L(0, 'T'), 'run', ('open', 0)), S, (T,)))
    return out
def mu_pair(c, base, item):
    pre, a, bs = item; w = base.fork(); w.TWO = True; on = dict(S=w.S, T=w.T); num = 0; n = 8 if any(o[1] in (6, 7) for o in pre if o[0] == 'start') else 2
    try:
        for o in pre:
            if o == 'run': w.rest()
            elif o == 'time': w.now = 10; w.say('10 units later')
            elif o[0] == 'start': w.start(*o[1:])
            else: w.open(o[1])
        w.e.cfg.now = w.now; w.what += ' | scheduler %s runs | beside it: %s' % (a[0], ', '.join('scheduler %s runs' % b[0] for b in bs)); what = w.what
        for q, p in both(w, ('drv_sy_batches', [on[a[0]], n]), [('drv_sy_batches', [on[b[0]], n]) for b in bs], two=False, reduce=True, limit=4000):
            num += 1
            try:
                q.note(p); q.what = what; q.k = {k: dict(x) for k, x in q.k.items()}; p = q.idle(q.now); q.judge(p, True)
                for k, x in q.k.items(): x['free'] = 2 not in q.got(k)
                q.close(p)
            except Stop: pass
            finally: w.e.cfg.now = w.now
    except Stop: return
    c.check(num > 1, 'M07.interleavings', '%s: only %d interleavings' % (w.what, num))
    c.stepcount['mutex interleavings'] = c.stepcount.get('mutex interleavings', 0) + num
# ---------------------------------------------------------------- H05
CH = dict(ci='channel_t<int>', ct='channel_t<move-only>', cm='channel_t<int, false, true>')
class Ch(Sy):
    """coroutines that write to and read from one channel; the k-th read gets the k-th value written"""
    def __init__(w, c, pid):
        W.__init__(w, c, pid); w.what = 'setup channel'; w.ch = w.obj('channel'); w.made = {}; w.hist = (); w.role = {}; w.kind = None; w.held = False
    def make(w, kind, cap):
        n = w.copy(); n.kind = kind; n.cap = cap; n.say('%s(%d)' % (CH[kind], cap)); n.do('drv_sy_%s_make' % kind, [n.ch, cap]); n.held = True; n.role = {}; return n
    def fork(w): n = w.copy(); n.role = dict(w.role); return n
    def say(w, s): w.hist = w.hist + (s,); w.what = ', '.join(w.hist)
    def start(w, role, n, form=0, on='S'):
        k = len(w.role); w.role[k] = role; S = w.S if on == 'S' else w.T
        w.say('coroutine %d%s %s %d' % (k, '' if on == 'S' else ' on the other scheduler', dict(w='writes', r='reads')[role], n))
        if role == 'w': w.do('drv_sy_%s_write' % w.kind, [S, k, w.ch, form, 10 * (k + 1), n])
        else: w.do('drv_sy_%s_read' % w.kind, [S, k, w.ch, form, n])
    def drop(w):
        w.say('the channel variable goes away'); w.held = False; return w.do('drv_sy_%s_dtor' % w.kind, [w.ch])
    def rest(w, exact=True):
        p = w.idle(0); w.judge(p, exact); return p
    def judge(w, p, exact=True):
        """exact: one thread, so operations take effect in the order in which they begin"""
        reads = []; writes = []; at = {}; done = {}; nw = 0
        for k, v in w.log:
            if w.role[k] == 'w':
                if v >= 1000: at[k] = len(writes); writes.append(v)
                elif v == 8: nw += 1; done[at[k]] = 1
            else:
                if v == 7: at[k] = len(reads); reads.append(None)
                elif v >= 1000: reads[at[k]] = v
        R = len(reads); V = len(writes)
        got = [v for v in reads if v is not None]
        w.check(len(set(got)) == len(got) and set(got) <= set(writes), 'once', 'read are %s, written were %s' % (got, writes), p)
        w.check(len(got) == min(R, V), 'reads', '%d of %d reads are over although %d values were written' % (len(got), R, V), p)
        w.check(nw == min(V, R + w.cap), 'writes', '%d of %d writes are over although %d reads were begun and the capacity is %d' % (nw, V, R, w.cap), p)
        if exact:
            w.check([v for v in reads] == [writes[i] if i < V else None for i in range(R)], 'order', 'the reads give %s, written were %s' % (reads, writes), p)
            w.check(sorted(done) == list(range(nw)), 'order', 'the writes that are over are %s of %s' % (sorted(done), writes), p)
        for k, r in w.role.items():
            if r == 'w':
                mine = [v for v in writes if (v - 1000) // 10 == k + 1]
                w.check([v for v in mine if v in got] == mine[:len([v for v in mine if v in got])], 'order', 'of the values %s of one writer %s are read' % (mine, got), p)
            else:
                g = [v for v in w.got(k) if v >= 1000]
                for j in set(v // 10 for v in g): x = [v for v in g if v // 10 == j]; w.check(x == sorted(x), 'order', 'one reader reads %s' % g, p)
        return R, V
    def close(w, p=None, exact=True):
        """the missing counterpart is added until everybody is through"""
        R, V = w.judge(p, exact)
        for i in range(12):
            if all(w.got(k)[-1:] == [9] for k in w.role): break
            R, V = w.judge(p, exact)
            if R > V: w.start('w', R - V)
            elif V > R: w.start('r', V - R)
            p = w.rest(exact)
        w.check(all(w.got(k)[-1:] == [9] for k in w.role), 'end', 'not all coroutines come to an end', p)
        R, V = w.judge(p, exact)
        if w.held: p = w.drop()
        w.leaks(p)
@guard
def H05(c):
    deep = c.tier == 'thorough'
    base = Ch(c, 'H05'); base.TWO = False
    def histories(item):
        kind, cap, first = item; work = [(base.make(kind, cap), 0)]
        work[0][0].form = 1 if cap == 1 else 0
        while work:
            w, n = work.pop()
            for op in ([first] if n == 0 else [('w', 1), ('w', 2), ('r', 1), ('r', 2)]):
                v = w.fork()
                try:
                    v.start(*op, form=(n + cap) % 2); v.rest()
                    c.stepcount['channel histories'] = c.stepcount.get('channel histories', 0) + 1
                    if n + 1 < (4 if deep else 3): work.append((v, n + 1))
                    x = v.fork(); x.close()
                except Stop: continue
        # several of them begin before anything runs
        for ops in itertools.product('wr', repeat=2 if not deep else 3):
            v = base.make(kind, cap)
            try:
                v.start(*first)
                for o in ops: v.start(o, 2)
                v.rest(); x = v.fork(); x.close()
                y = v.fork(); y.rest()
            except Stop: continue
    c.par([(k, cap, f) for k in CH for cap in ((0, 1, 2) if not deep else (0, 1, 2, 3)) for f in (('w', 1), ('w', 3), ('r', 1), ('r', 3))], histories)
    c.par(ch_threads(deep), lambda it: ch_pair(c, base, it))
def ch_threads(deep):
    out = []
    for kind in ('ci', 'cm') if not deep else CH:
        for cap in (0, 1, 2) if deep else (0, 1):
            S = lambda r, n: (r, n, 0, 'S'); T = lambda r, n: (r, n, 0, 'T')
            for a, b in ((S('w', 2), T('r', 2)), (S('r', 2), T('w', 2)), (S('w', 2), T('w', 1)), (S('r', 2), T('r', 1))):
                out.append((kind, cap, (a, b)))
            if kind == 'ci' or deep:
                out.append((kind, cap, (S('r', 1), 'run', S('w', 1), T('w', 1))))
                out.append((kind, cap, (T('r', 1), 'run', S('w', 1), T('r', 1))))
                out.append((kind, cap, (T('r', 1), T('r', 1), 'run', S('w', 2), T('w', 1))))
                out.append((kind, cap, (T('w', cap + 1), 'run', S('r', 1), T('w', 1))))
                out.append((kind, cap, (T('w', cap + 2), 'run', S('r', 2), T('r', 1))))
                # nobody but the two coroutines keeps the channel
                out.append((kind, cap, (T('r', 1), 'run', S('w', 1), 'drop')))
                out.append((kind, cap, (T('w', cap + 1), 'run', S('r', cap + 1), 'drop')))
                out.append((kind, cap, (S('w', 1), T('r', 1), 'drop')))
    return out
def ch_pair(c, base, item):
    kind, cap, pre = item; num = 0
    try:
        w = base.make(kind, cap); w.TWO = True
        for o in pre:
            if o == 'run': w.rest()
            elif o == 'drop': w.drop()
            else: w.start(*o)
        w.what += ' | both schedulers run at the same time'
        for q, p in both(w, ('drv_sy_batches', [w.S, 3]), [('drv_sy_batches', [w.T, 3])], two=False, reduce=True, limit=2000):
            num += 1
            try:
                q.note(p); q.role = dict(w.role); p = q.idle(0); q.judge(p, False)
                if q.held: q.close(p, False)
                elif q.check(all(q.got(k)[-1:] == [9] for k in q.role), 'end', 'not all coroutines come to an end', p): q.leaks(p)
            except Stop: pass
    except Stop: return
    c.check(num > 1, 'H05.interleavings', '%s: only %d interleavings' % (w.what, num))
    c.stepcount['channel interleavings'] = c.stepcount.get('channel interleavings', 0) + num
PROPS = dict(E07=E07, M07=M07, H05=H05)
