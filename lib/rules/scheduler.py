"""Scheduler, tasks, switching between schedulers (C01..C05, C07)."""
from spec import *
import spec, itertools
from rules.channel import one
DRIVERS = ('scheduler', 'future')
DROP = ('get_scheduler', 'get_root', 'scheduler_t::add_generator', 'scheduler_t::del_final')

class W:
    """schedulers and tasks, all of them with known content"""
    def __init__(w, c, pid):
        w.c = c; w.pid = pid; w.what = 'setup'; w.n = 0; w.A = w.B = None
        cfg = config(drop=DROP, exact_maps=True); cfg.unroll = 24; cfg.recursion = 8
        def resume(e, st, h):
            n = st.ex.get(('runs', h), 0); st.ex[('runs', h)] = n + 1
            s = cfg.script.get(h, [])
            return s[n] if n < len(s) else []
        def update(e, st, ins, args, dem, name):
            m = e.norm(st, args[0]); e.event(st, 'timer.update', None, (m,), ins)
            n = st.ex.get(('upd', m), 0); st.ex[('upd', m)] = n + 1
            acts = cfg.timers.get(m, ())
            a = (acts[n] if n < len(acts) else None) or cfg.outside.get((m, n))
            return models.run_chain(e, st, ins, a) if a else None
        def tempty(e, st, ins, args, dem, name):
            m = e.norm(st, args[0]); n = st.ex.get(('upd', m), 0); r = int(n >= len(cfg.timers.get(m, ())))
            x = e.event(st, 'timer.empty', None, (m,), ins); x.ret = r
            return r
        cfg.script = {}; cfg.timers = {}; cfg.outside = {}; cfg.fin = set(); cfg.element_classes = r'milk::concurrency::stop_source$'
        cfg.coro_resume = resume
        cfg.coro_done = lambda e, st, h: int(h in cfg.fin and st.ex.get(('runs', h), 0) >= len(cfg.script.get(h, ())))
        cfg.ret = dict({r'^librf::timer_manager::update\(': update, r'^librf::timer_manager::empty\(': tempty, r'^librf::timer_manager::clear\(': h_call('timer.clear')}, **cfg.ret)
        def stopped(e, st, ins, args, dem, name):
            k = e.norm(st, args[0]); e.event(st, 'stopped', str(k), (k,), ins)
            acts = cfg.stops.get(k)
            return models.run_chain(e, st, ins, acts) if acts else None
        cfg.stops = {}; cfg.no_spurious = True
        cfg.ret.update({r'^drv_stopped$': stopped, r'^std::this_thread::get_id\(\)': lambda e, st, ins, args, dem, name: 17})
        w.e, w.st = c.engine(cfg)
        w.A = w.sched('A')
        w.B = w.sched('B')
    def new(w, what):
        n = w.copy(); n.what = what; n.hook({}); return n
    def hook(w, script, timers=None, fin=(), outside=None):
        """frame -> [[(entry, arguments)]]: what a coroutine does each time it runs; timer manager -> the same for each update"""
        w.e.cfg.script = dict(script); w.e.cfg.timers = dict(timers or {}); w.e.cfg.fin = set(fin); w.e.cfg.outside = dict(outside or {})
    def copy(w):
        n = w.__class__.__new__(w.__class__); n.__dict__.update(w.__dict__); n.st = w.st.fork(); return n
    def sched(w, name):
        S = w.c.obj(w.e, w.st, 'scheduler-' + name, 'librf::scheduler_t')
        ps = w.c.step(w.e, w.st, 'drv_sc_make', [S])
        ps = [p for p in ps if p.status == 'ret']
        if not ps: raise Anchor('a scheduler cannot be constructed')
        w.st = ps[-1].st
        return S
    def ld(w, p): return w.e.norm(w.st, w.e.load(w.st, p, 'ptr', log=False))
    def do(w, fn, args, what=None):
        p = one(w.c, w.pid + '.' + fn.split('_', 2)[-1], w.c.step(w.e, w.st, fn, args), what or w.what)
        if p is None: raise Stop()
        w.st = p.st
        return p
    def ask(w, fn, args):
        """the answer of a query, without keeping its effects"""
        return w.copy().do(fn, args)
    def co(w, name, start=True):
        """a coroutine void; returns its frame, promise, future, state"""
        t = T(); w.n += 1
        t.name = name; t.h = w.c.obj(w.e, w.st, 'frame-of-' + name); t.pr = off(t.h, 16); t.f = w.c.obj(w.e, w.st, 'future-of-' + name, 'librf::future_t<void>')
        w.do('drv_sc_vpromise', [t.pr]); w.do('drv_sc_vfuture', [t.f, t.pr])
        if start: w.do('drv_sc_vinitial', [t.h])
        t.s = w.ld(t.f)
        return t
    def timer(w, S): return w.e.norm(w.st, w.ask('drv_sc_timer', [S]).ret)
    def find(w, S, t):
        p = w.ask('drv_sc_find', [S, t.s]); return p.n(p.ret)
    def empty(w, S):
        p = w.ask('drv_sc_empty', [S]); return p.num(p.ret)
    def sof(w, t):
        p = w.ask('drv_sc_of', [t.s]); return p.n(p.ret)
    def check(w, cond, rule, msg, p=None, x=None): return w.c.check(cond, '%s.%s' % (w.pid, rule), '%s: %s' % (w.what, msg), p, x)
    def queue(w):
        """(queue, its lock): what adding a state to a scheduler fills, and the lock it holds meanwhile"""
        d = w.copy(); t = d.co('probe')
        p = d.do('drv_sc_add', [w.A, t.s])
        c = [x for x in p.k('cont') if P(p.n(x.a[0])) and p.n(x.a[0])[1] == w.A[1] and x.locks]
        if not c: raise Anchor('adding a state to a scheduler fills no container of it under a lock')
        return p.n(c[0].a[0]), p.n(c[0].locks[-1][0])
    def slocks(w, p, x, states=True):
        """locks of schedulers (and of shared states) held at an event"""
        return [l for l in x.locks if p.n(l[0])[1] in (w.A[1], w.B[1])]
    def drain(w, S, limit=8):
        """run batches until nothing is queued; the coroutines resumed by each"""
        out = []
        for _ in range(limit):
            p = w.do('drv_sc_batch', [S]); r = [p.n(x.a[0]) for x in p.k('resume')]
            out.append(r)
            if p.num(p.ret) == 0: break
        return out

class T: pass
class Stop(Exception): pass

def guard(fn):
    def g(c):
        try: fn(c)
        except Stop: pass
    return g

def rel(S, p): return (S[1], p[2])

# ---------------------------------------------------------------- C01 run queue
@guard
def C01(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'C01')
    Q, L = w0.queue()
    def batch(w, S, expect, label):
        p = w.do('drv_sc_batch', [S])
        tm = w.timer(S)
        got = [p.n(x.a[0]) for x in p.k('resume')]
        w.check(got == expect, 'order', '%s: resumed %s instead of %s' % (label, names(w, got), names(w, expect)), p, (p.k('resume') or [None])[-1])
        w.check(p.num(p.ret) == int(bool(expect)), 'reports', '%s: reports %s after resuming %d coroutines' % (label, p.num(p.ret), len(got)), p)
        for x in p.k('resume', 'timer.update'):
            w.check(not w.slocks(p, x), 'unlocked', label + ': %s runs while a lock of the scheduler is held' % ('a coroutine' if x.k == 'resume' else 'the timer manager'), p, x)
        w.check(len([x for x in p.k('timer.update') if p.n(x.a[0]) == tm]) == 1 == len(p.k('timer.update')), 'timers', '%s: timers are updated %d times' % (label, len(p.k('timer.update'))), p)
        w.check(not p.st.locks, 'released', label + ': a lock stays held', p)
        qa = (S[1], Q[2])
        bad = [x for x in p.k('cont') if any(P(p.n(a)) and p.n(a)[1:] == qa for a in x.a) and not any(p.n(l[0]) == ('p', S[1], L[2]) for l in x.locks)]
        w.check(not bad, 'locked', label + ': the queue is used without its lock', p, bad[0] if bad else None)
        return p
    def names(w, hs): return '[%s]' % ' '.join(w.e.label(h).split('+')[0].replace('frame-of-', '') for h in hs)
    def add(w, S, t):
        p = w.do('drv_sc_add', [S, t.s])
        w.check(not p.k('resume'), 'add-quiet', 'queueing runs a coroutine', p)
        w.check(not p.st.locks, 'released', 'queueing: a lock stays held', p)
        n = len([x for x in p.k('ref+') if p.n(x.a[0]) == t.s]) - len([x for x in p.k('ref-') if p.n(x.a[0]) == t.s])
        w.check(n == 1, 'keeps', 'queueing a state takes %d references to it' % n, p)
        return p
    top = 5 if deep else 4
    # every number of queued states; a state that is queued twice
    pats = [tuple(range(n)) for n in range(top + 1)] + [(0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0, 1)]
    for pat in pats:
        w = w0.new('%d queued states%s' % (len(pat), '' if len(set(pat)) == len(pat) else ' (%s)' % ' '.join('XYZ'[i] for i in pat)))
        ts = [w.co('X%d' % i) for i in range(max(pat, default=-1) + 1)]
        for i in pat: add(w, w.A, ts[i])
        seen = []; exp = []
        for i in pat:
            if i not in seen: seen.append(i); exp.append(ts[i].h)       # a second resume of a started coroutine does nothing
        q = w.copy()
        p = batch(w, w.A, exp, 'batch')
        if len(pat):
            for t in ts:
                n = len([x for x in p.k('ref-') if p.n(x.a[0]) == t.s]) - len([x for x in p.k('ref+') if p.n(x.a[0]) == t.s])
                w.check(n == pat.count(ts.index(t)), 'drops', 'a batch drops %d references to a state queued %d times' % (n, pat.count(ts.index(t))), p)
                rs = [x.n for x in p.k('resume') if p.n(x.a[0]) == t.h]; dr = [x.n for x in p.k('ref-') if p.n(x.a[0]) == t.s]
                w.check(not rs or not dr or dr[-1] > rs[0], 'keeps-running', 'the last reference to a state is dropped before it was resumed', p)
            p = batch(q, q.B, [], 'batch of another scheduler')
        batch(w, w.A, [], 'the following batch')
    # coroutines that queue others while they run
    for n in range(1, top):
        for who in range(n):
            for k in (1, 2):
                w = w0.new('%d queued states, number %d queues %d more while it runs' % (n, who + 1, k))
                ts = [w.co('X%d' % i) for i in range(n)]; more = [w.co('Y%d' % i) for i in range(k)]
                w.hook({ts[who].h: [[('drv_sc_add', [w.A, m.s]) for m in more]]})
                for t in ts: add(w, w.A, t)
                batch(w, w.A, [t.h for t in ts], 'batch')
                batch(w, w.A, [m.h for m in more], 'the following batch')
                batch(w, w.A, [], 'the batch after that')
    # another thread queues a state whenever the queue is unlocked
    for n in range(0, top - 1):
        for at in range(3):
            w = w0.new('%d queued states, another thread queues one when the queue is unlocked for the %d. time' % (n, at + 1))
            ts = [w.co('X%d' % i) for i in range(n)]; t = w.co('other')
            for x in ts: add(w, w.A, x)
            cnt = {}
            QA, LA = ('p', w.A[1], Q[2]), ('p', w.A[1], L[2])
            def un(e, st, p):
                if e.norm(st, p) != LA: return
                k = st.ex.get('unl', 0); st.ex['unl'] = k + 1
                if k != at: return
                r = models.lnew(e, st, QA); e.store(st, r, t.s, 'ptr', log=False)
                models.lset(st, QA, (models.lst(st, QA) or ()) + (r,)); st.ex['other'] = 1
            w.e.cfg.havoc_on_unlock = un
            got = []
            try:
                for _ in range(5):
                    p = w.do('drv_sc_batch', [w.A]); got += [p.n(x.a[0]) for x in p.k('resume')]
                    if p.num(p.ret) == 0 and w.st.ex.get('unl', 0) > at + 1: break
            finally: w.e.cfg.havoc_on_unlock = None
            exp = [x.h for x in ts] + ([t.h] if w.st.ex.get('other') else [])
            w.check(got == exp, 'concurrent', 'resumed %s instead of %s' % (names(w, got), names(w, exp)), p)
    # yielding coroutines take turns
    for n in (1, 2, 3):
        w = w0.new('%d coroutines that yield twice' % n)
        ts = [w.co('X%d' % i) for i in range(n)]
        b = c.obj(w.e, w.st, 'flag'); d = {}
        for t in ts:
            w.do('drv_sc_vgo', [w.A, t.f]); d[t.h] = [[('drv_sc_yield', [t.h, b])]] * 2
        w.hook(d)
        for r in range(3): batch(w, w.A, [t.h for t in ts], 'round %d' % (r + 1))
        batch(w, w.A, [], 'the last batch')


# ---------------------------------------------------------------- C02 running until nothing is left
def finish(t): return [('drv_fu_void_return', [t.pr]), ('drv_fu_void_final', [t.h])]

@guard
def C02(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'C02')
    tm = w0.timer(w0.A)
    b = c.obj(w0.e, w0.st, 'flag')
    def run(w, what, runs):
        """run_until_notask on A; runs = the coroutines that have to be resumed, in this order"""
        w.what = what
        ps = c.step(w.e, w.st, 'drv_sc_run', [w.A])
        if not w.check(len(ps) == 1 and ps[0].status == 'ret', 'returns', 'run_until_notask never returns although nothing is left' if not ps else 'run_until_notask ends with ' + str(ps[0].status), ps[0] if ps else None): return
        p = ps[0]; x = getattr(p, 'bad', None)
        if not w.check(x is None, 'clean', x.k if x else '', p, x): return
        got = [p.n(x.a[0]) for x in p.k('resume')]
        w.check(got == runs, 'work', 'it resumed %d coroutines, not %d, before it returned' % (len(got), len(runs)), p, (p.k('resume') or [None])[-1])
        w.check(not p.st.locks, 'released', 'a lock stays held', p)
        n = p.st.ex.get(('upd', tm), 0)
        w.check(n >= len(w.e.cfg.timers.get(tm, ())), 'timers', 'it returned although timers are pending', p)
        bad = [x for x in p.k('resume', 'timer.update', 'destroy') if w.slocks(p, x)]
        w.check(not bad, 'unlocked', 'coroutines or timers run while a lock of the scheduler is held', p, bad[0] if bad else None)
        w.st = p.st
        w.check(w.empty(w.A) == 1, 'empty-after', 'the scheduler is not empty afterwards', p)
    def states(w, t):
        for x in t: w.check(w.find(w.A, x) == 0, 'tasks-after', 'a task is left', None)
    run(w0.new(''), 'an idle scheduler', [])
    # tasks that finish after k yields, started together
    for ks in [(0,), (1,), (2,), (0, 0), (1, 0), (2, 0, 1)] + ([(3, 1, 2), (4,)] if deep else []):
        w = w0.new('%d tasks' % len(ks)); ts = [w.co('X%d' % i) for i in range(len(ks))]; sc = {}
        for t, k in zip(ts, ks):
            w.do('drv_sc_vgo', [w.A, t.f])
            sc[t.h] = [[('drv_sc_yield', [t.h, b])]] * k + [finish(t)]
        exp = [t.h for r in range(max(ks) + 1) for t, k in zip(ts, ks) if k >= r]
        w.hook(sc, fin=[t.h for t in ts])
        run(w, 'tasks that yield %s times' % ', '.join(map(str, ks)), exp); states(w, ts)
    # a task that waits for a timer, at the k-th update; with other tasks meanwhile
    for k in range(0, 4):
        for other in (False, True):
            w = w0.new('timer'); t = w.co('X'); o = w.co('Y') if other else None
            aw = c.obj(w.e, w.st, 'awaitable'); f = c.obj(w.e, w.st, 'awaited', 'librf::future_t<void>')
            w.do('drv_fu_void_aw_make', [aw]); w.do('drv_fu_void_aw_future', [f, aw])
            w.do('drv_sc_vgo', [w.A, t.f])
            if o: w.do('drv_sc_vgo', [w.A, o.f])
            sc = {t.h: [[('drv_sc_transform', [t.pr, f]), ('drv_sc_suspend', [f, t.h])], finish(t)]}; fin = [t.h]
            exp = [t.h] + ([o.h] if o else []) + [t.h]
            if o: sc[o.h] = [finish(o)]; fin.append(o.h)
            w.hook(sc, {tm: [[]] * (k + 1) + [[('drv_fu_void_aw_set', [aw])]]}, fin)
            run(w, 'a task that waits for a timer%s, which fires at update %d' % (' and another task' if o else '', k + 2), exp); states(w, [t])
    # timers without any task
    for k in (1, 2, 3):
        w = w0.new('timers'); w.hook({}, {tm: [[]] * k}); run(w, 'timers without tasks, the last one fires at update %d' % k, [])
    # a timer starts a new task
    for k in (0, 2):
        w = w0.new('timers'); t = w.co('X'); w.hook({t.h: [finish(t)]}, {tm: [[]] * k + [[('drv_sc_vgo', [w.A, t.f])]]}, [t.h]); run(w, 'a timer starts a task', [t.h]); states(w, [t])
    # a task starts another one as its last act
    w = w0.new('nested'); ts = [w.co('X%d' % i) for i in range(3)]
    w.do('drv_sc_vgo', [w.A, ts[0].f])
    w.hook({ts[0].h: [[('drv_sc_vgo', [w.A, ts[1].f])] + finish(ts[0])], ts[1].h: [[('drv_sc_vgo', [w.A, ts[2].f])] + finish(ts[1])], ts[2].h: [finish(ts[2])]}, fin=[t.h for t in ts])
    run(w, 'tasks that start one another', [t.h for t in ts]); states(w, ts)
    # nothing queued, a task that another thread completes later: it has to go on looking
    for k in (0, 1, 3):
        for how in ('removed', 'completed', 'queued'):
            w = w0.new('outside'); t = w.co('X'); u = w.co('Z')
            w.do('drv_sc_vgo', [w.A, t.f]); w.do('drv_sc_vgo', [w.B, u.f])
            acts = dict(removed=[('drv_sc_del_final', [w.A, t.s])], completed=finish(t), queued=[('drv_sc_yield', [t.h, b])])[how]
            w.hook({t.h: [[], finish(t)]}, fin=[t.h], outside={(tm, k + 1): acts})
            ps = c.step(w.e, w.st, 'drv_sc_run', [w.A]); w.what = 'a task that is %s from outside' % how
            if w.check(len(ps) == 1 and ps[0].status == 'ret', 'returns', 'run_until_notask never returns after the last task was removed', ps[0] if ps else None):
                p = ps[0]; w.check(p.st.ex.get(('upd', tm), 0) >= k + 2, 'waits', 'run_until_notask returned while a task was left', p)
                w.check(len(p.k('resume')) == 1 + (how == 'queued'), 'outside-work', 'coroutines were resumed %d times' % len(p.k('resume')), p)
                w.st = p.st; w.check(w.find(w.B, u) != 0, 'other', 'a task of another scheduler is gone', p)
    # empty() for every combination
    for task in (0, 1):
        for queued in (0, 1):
            for timer in (0, 1):
                w = w0.new('empty() with %s, %s, %s' % ('a task' if task else 'no task', 'a queued state' if queued else 'no queued state', 'timers' if timer else 'no timers'))
                w.hook({}, {tm: [[]] * timer})
                t = w.co('X', start=False); u = w.co('Y'); v = w.co('Z')
                if task: w.do('drv_sc_vgo', [w.A, t.f])
                if queued: w.do('drv_sc_add', [w.A, u.s])
                w.do('drv_sc_vgo', [w.B, v.f])
                p = w.ask('drv_sc_empty', [w.A])
                w.check(p.num(p.ret) == int(not (task or queued or timer)), 'empty', 'reports %s' % p.num(p.ret), p)
                w.check(not p.st.locks, 'released', 'a lock stays held', p)

# ---------------------------------------------------------------- C03 tasks
@guard
def C03(c):
    w0 = W(c, 'C03'); Q, L = w0.queue()
    so = c.field('librf::state_base_t', r'scheduler_t \*$')[0]
    def queued(w, S):
        return [w.e.norm(w.st, w.e.load(w.st, r, 'ptr', log=False)) for r in (models.lst(w.st, ('p', S[1], Q[2])) or ())]
    def refs(p, s): return len([x for x in p.k('ref+') if p.n(x.a[0]) == s]) - len([x for x in p.k('ref-') if p.n(x.a[0]) == s])
    def gone(w, p, t, task):
        """the task object is destroyed exactly once, not under a lock of the scheduler, and drops its state"""
        d = [x for x in p.k('delete') if p.n(x.a[0]) == task]
        if not w.check(len(d) == 1, 'destroyed', 'the task object is destroyed %d times' % len(d), p, d[-1] if d else None): return
        w.check(not w.slocks(p, d[0]), 'destroyed-unlocked', 'the task object is destroyed while a lock of the scheduler is held', p, d[0])
        dt = [x for x in p.k('ref-') if p.n(x.a[0]) == t.s and w.slocks(p, x)]
        w.check(not dt, 'state-unlocked', 'the task lets go of its state while a lock of the scheduler is held', p, dt[0] if dt else None)
        w.check(refs(p, t.s) <= -1, 'state-released', 'the destroyed task does not let go of its state', p)
    def safe(w, p):
        bad = [x for x in p.k('cont') if any(P(p.n(a)) and p.n(a)[1] in (w.A[1], w.B[1]) for a in x.a[:1]) and not w.slocks(p, x)]
        w.check(not bad, 'locked', 'a table of the scheduler is used without a lock', p, bad[0] if bad else None)
        w.check(not p.st.locks, 'released', 'a lock stays held', p)
        for x in p.k('resume', 'destroy'): w.check(False, 'quiet', 'a coroutine runs', p, x)
    def go(w, S, t, fn='drv_sc_vgo'):
        p = w.do(fn, [S, t.f]); task = p.n(p.ret)
        safe(w, p)
        w.check(P(task), 'task', 'go yields no task', p)
        w.check(w.find(S, t) == task, 'found', 'the new task is not found in its scheduler', p)
        w.check(w.find(w.B if S == w.A else w.A, t) == 0, 'elsewhere', 'the new task is found in another scheduler', p)
        w.check(w.sof(t) == S, 'scheduler', 'the new task does not run on the scheduler it was started on', p)
        w.check(refs(p, t.s) >= 1, 'keeps', 'the task does not keep its state alive', p)
        w.check(w.empty(S) == 0, 'not-empty', 'a scheduler with a task is empty', p)
        # the scheduler is known before anybody can see the task
        return task, p
    for n in (1, 2, 3):
        for late in (False, True):
            w = w0.new('starting %d tasks%s' % (n, ' of awaitables' if late else ''))
            ts = [w.co('X%d' % i, start=not late) for i in range(n)]; tk = []
            for i, t in enumerate(ts):
                before = queued(w, w.A)
                task, p = go(w, w.A, t); tk.append(task)
                now = queued(w, w.A)
                w.check(now == before + ([] if late else [t.s]), 'queued', 'the new task is %s' % ('queued although nothing can run' if late else 'not queued once'), p)
                st = [x for x in p.k('store') if p.n(x.a[0]) == off(t.s, so)]; ins = [x for x in p.k('cont') if w.slocks(p, x)]
                w.check(bool(st) and bool(ins) and st[-1].n < ins[0].n and p.n(st[-1].a[1]) == w.A, 'published', 'the task is visible before its scheduler is set', p)
            w.check(len(set(tk)) == n, 'distinct', 'tasks are not distinct')
            for t, k in zip(ts, tk): w.check(w.find(w.A, t) == k, 'found', 'a task is lost when another one is started')
            # each of them is removed: only that one
            for i in range(n):
                v = w.copy(); v.what = 'removing task %d of %d' % (i + 1, n)
                p = v.do('drv_sc_del_final', [w.A, ts[i].s]); safe(v, p); gone(v, p, ts[i], tk[i])
                for j, t in enumerate(ts): v.check(v.find(w.A, t) == (0 if i == j else tk[j]), 'removed', 'the wrong task is found afterwards', p)
                p = v.do('drv_sc_del_final', [w.A, ts[i].s]); safe(v, p)
                v.check(not p.k('delete'), 'removed-once', 'removing it again destroys something', p)
                v = w.copy(); v.what = 'removing a task from a scheduler it does not belong to'
                p = v.do('drv_sc_del_final', [w.B, ts[i].s]); safe(v, p)
                v.check(not p.k('delete') and v.find(w.A, ts[i]) == tk[i], 'foreign', 'the task is lost', p)
                v = w.copy(); v.what = 'moving task %d of %d to another scheduler' % (i + 1, n)
                p = v.do('drv_sc_move', [w.A, w.B, ts[i].s]); safe(v, p)
                v.check(p.num(p.ret) == 1 and not [x for x in p.k('delete') if p.n(x.a[0]) in tk], 'moved', 'the task is destroyed or lost', p)
                for j, t in enumerate(ts):
                    v.check(v.find(w.A, t) == (0 if i == j else tk[j]), 'moved-from', 'the wrong task is left behind', p)
                    v.check(v.find(w.B, t) == (tk[j] if i == j else 0), 'moved-to', 'the wrong task has moved', p)
                v.check(refs(p, ts[i].s) == 0, 'moved-refs', 'moving a task changes what keeps its state alive', p)
                q = v.copy(); p = q.do('drv_sc_move', [w.A, w.B, ts[i].s]); q.check(p.num(p.ret) == 0, 'moved-once', 'the task can be taken twice', p)
                p = v.do('drv_sc_del_final', [w.B, ts[i].s]); gone(v, p, ts[i], tk[i])
            # once all of them are removed nothing is left
            for out in (range(n), range(n - 1, -1, -1)):
                v = w.copy(); v.drain(v.A)
                for i in out:
                    v.check(v.empty(v.A) == 0, 'not-empty', 'a scheduler with a task is empty'); v.do('drv_sc_del_final', [w.A, ts[i].s])
                v.check(v.empty(v.A) == 1, 'all-removed', 'the scheduler is not empty after all its tasks were removed')
                v = w.copy(); v.drain(v.A)
                for i in out: v.do('drv_sc_move', [w.A, w.B, ts[i].s])
                v.check(v.empty(v.A) == 1 and v.empty(v.B) == 0, 'all-moved', 'a scheduler whose tasks all moved away is not empty, or the new one is')
            # destroying the scheduler destroys what is left
            v = w.copy(); v.what = 'destroying a scheduler with %d tasks' % n
            p = v.do('drv_sc_dtor', [w.A])
            d = [p.n(x.a[0]) for x in p.k('delete')]
            v.check(sorted(x for x in d if x in tk) == sorted(tk), 'dtor', '%d of %d task objects are destroyed' % (len([x for x in d if x in tk]), n), p)
    # the whole life of a task: it disappears when its coroutine has finished, whatever happens before
    b = c.obj(w0.e, w0.st, 'flag')
    for k in (0, 1, 2):
        w = w0.new('a task that yields %d times' % k); t = w.co('X'); o = w.co('Y')
        task, p = go(w, w.A, t); other, p = go(w, w.A, o)
        w.hook({t.h: [[('drv_sc_yield', [t.h, b])]] * k + [finish(t)]}, fin=[t.h])
        for i in range(k + 1):
            w.check(w.find(w.A, t) == task, 'kept', 'the task is gone before its coroutine has finished')
            p = w.do('drv_sc_batch', [w.A])
        d = [x for x in p.k('delete') if p.n(x.a[0]) == task]
        w.check(w.find(w.A, t) == 0 and len(d) == 1, 'finished', 'the task of a finished coroutine is not removed and destroyed once', p)
        if d: w.check(not w.slocks(p, d[0]), 'destroyed-unlocked', 'the task object is destroyed while a lock of the scheduler is held', p, d[0])
        p = w.do('drv_sc_batch', [w.A])
        de = [x for x in p.k('destroy') if p.n(x.a[0]) == t.h]
        w.check(len(de) == 1, 'frame', 'the frame of the finished coroutine is destroyed %d times' % len(de), p)
        p = w.do('drv_sc_batch', [w.A])
        w.check(not p.k('destroy', 'resume'), 'over', 'something is left to do for a finished task', p)
        w.check(w.find(w.A, o) == other, 'kept', 'another task is gone')
    # awaitables as tasks: removed when they are completed
    for ty, fn in (('void', 'drv_sc_vgo'), ('int', 'drv_sc_go'), ('mov', 'drv_sc_go_mov'), ('ref', 'drv_sc_go_ref')):
        for how in ('set', 'exc'):
            w = w0.new('a task that is an awaitable (%s)' % ty); t = T(); t.f = c.obj(w.e, w.st, 'future', 'librf::future_t<%s>' % dict(mov='drv_mov', ref='int&').get(ty, ty)); aw = c.obj(w.e, w.st, 'awaitable'); ep = c.obj(w.e, w.st, 'exception')
            w.do('drv_fu_%s_aw_make' % ty, [aw]); w.do('drv_fu_%s_aw_future' % ty, [t.f, aw]); t.s = w.ld(t.f)
            task, p = go(w, w.A, t, fn); o = w.co('Y'); other, p = go(w, w.A, o)
            w.check(queued(w, w.A) == [o.s], 'queued', 'it is queued although nothing can run', p)
            w.e.store(w.st, ep, ('p', w.e.region('heap', 'exc', 8), 0), 'ptr', log=False)
            p = w.do('drv_fu_%s_aw_%s' % (ty, how), [aw] + ([ep] if how == 'exc' else [] if ty == 'void' else [c.obj(w.e, w.st, 'target')] if ty == 'ref' else [7]))
            w.check(w.find(w.A, t) == 0 and len([x for x in p.k('delete') if p.n(x.a[0]) == task]) == 1, 'finished', 'the task of an awaitable that was completed with %s is not removed and destroyed once' % ('a value' if how == 'set' else 'an exception'), p)
            w.check(w.find(w.A, o) == other, 'kept', 'another task is gone', p)
    # typed futures, callables
    w = w0.new('a task of a typed future'); t = T(); h = c.obj(w.e, w.st, 'frame'); pr = off(h, 16); t.f = c.obj(w.e, w.st, 'future', 'librf::future_t<int>')
    w.do('drv_sc_promise', [pr]); w.do('drv_sc_future', [t.f, pr]); w.do('drv_sc_initial', [h]); t.s = w.ld(t.f)
    v = w.copy(); task, p = go(v, w.A, t, 'drv_sc_go'); v.check(queued(v, w.A) == [t.s], 'queued', 'it is not queued once', p)
    w.what = 'a task started from a callable'; mk = c.obj(w.e, w.st, 'callable'); w.e.store(w.st, mk, t.f, 'ptr', log=False)
    f = t.f; t.f = mk; task, p = go(w, w.A, t, 'drv_sc_go_call'); w.check(queued(w, w.A) == [t.s], 'queued', 'it is not queued once', p)
    # generators
    w = w0.new('a task that is a generator'); g = c.obj(w.e, w.st, 'generator'); gp = c.obj(w.e, w.st, 'generator-frame')
    h = gp; t = T(); t.f = g
    w.do('drv_sc_gen', [g, off(gp, 16)])
    t.s = w.ld(off(g, 0)) if False else None
    p = w.do('drv_sc_go_gen', [w.A, g]); task = p.n(p.ret)
    qs = queued(w, w.A); safe(w, p)
    if w.check(len(qs) == 1, 'queued', 'it is not queued once', p):
        t.s = qs[0]
        w.check(w.find(w.A, t) == task and P(task), 'found', 'it is not found in its scheduler', p); w.check(w.sof(t) == w.A, 'scheduler', 'it does not run on the scheduler it was started on', p)
        for k in (0, 1, 2):
            v = w.new('a generator task that yields %d times' % k); v.hook({gp: [[]] * (k + 1)}, fin=[gp]); n = 0
            for i in range(k + 1):
                v.check(v.find(w.A, t) == task, 'kept', 'the task is gone before its coroutine has finished')
                p = v.do('drv_sc_batch', [w.A]); n += len(p.k('resume'))
            v.check(n == k + 1, 'runs', 'it was resumed %d times' % n, p)
            v.check(v.find(w.A, t) == 0 and len([x for x in p.k('delete') if p.n(x.a[0]) == task]) == 1, 'finished', 'its task is not removed and destroyed once when it ends', p)
            v.check(len([x for x in p.k('destroy') if p.n(x.a[0]) == gp]) == 1, 'frame', 'its frame is not destroyed once', p)
            p = v.do('drv_sc_batch', [w.A]); v.check(not p.k('resume', 'destroy') and p.num(p.ret) == 0, 'over', 'something is left to do for a finished task', p)


# ---------------------------------------------------------------- C04 which scheduler a coroutine runs on
@guard
def C04(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'C04'); Q, L = w0.queue(); b = c.obj(w0.e, w0.st, 'flag')
    def queued(w, S): return [w.e.norm(w.st, w.e.load(w.st, r, 'ptr', log=False)) for r in (models.lst(w.st, ('p', S[1], Q[2])) or ())]
    def flag(w):
        x = w.st.mem.get(b[1], {}).get(0)
        return None if x is None else w.e.norm(w.st, x[1])
    def chain(w, n, S):
        """a task and n - 1 coroutines awaited one by the other; the last one is running"""
        ts = [w.co('X%d' % i) for i in range(n)]
        task = None
        if S is not None:
            p = w.do('drv_sc_vgo', [S, ts[0].f]); task = p.n(p.ret)
            w.drain(S)
        for x, y in zip(ts, ts[1:]):
            w.do('drv_sc_transform', [x.pr, y.f]); w.do('drv_sc_suspend', [y.f, x.h])
            if S is not None: w.drain(S)
            else: w.do('drv_st_resume', [y.s])
        return ts, task
    def where(w, ts, task, S, D, label):
        """everything is on scheduler S, nothing on the others"""
        for i, t in enumerate(ts):
            w.check(w.sof(t) == S, 'chain', '%s: coroutine %d of %d is on the wrong scheduler' % (label, i + 1, len(ts)))
            p = w.ask('drv_sc_rootstate', [t.h]); w.check(p.n(p.ret) == ts[0].s, 'root', '%s: get_root_state of coroutine %d of %d is not the state of its task' % (label, i + 1, len(ts)), p)
            p = w.ask('drv_sc_cur', [t.h]); w.check(p.n(p.ret) == S, 'current', '%s: get_current_scheduler of coroutine %d of %d is wrong' % (label, i + 1, len(ts)), p)
            if S != 0: p = w.ask('drv_sc_curtask', [t.h]); w.check(p.n(p.ret) == (task or 0), 'task', '%s: get_current_task of coroutine %d of %d is wrong' % (label, i + 1, len(ts)), p)
        for X in D:
            w.check(w.find(X, ts[0]) == ((task or 0) if X == S else 0), 'registered', '%s: the task is %s' % (label, 'not registered with its scheduler' if X == S else 'still registered with another scheduler'))
            for t in ts[1:]: w.check(w.find(X, t) == 0, 'registered', label + ': an awaited coroutine is registered as a task')
    def locks_ok(w, p, label):
        w.check(not p.st.locks, 'released', label + ': a lock stays held', p)
        bad = [x for x in p.k('cont') if P(p.n(x.a[0])) and p.n(x.a[0])[1] in (w.A[1], w.B[1]) and not w.slocks(p, x)]
        w.check(not bad, 'locked', label + ': a table of a scheduler is used without its lock', p, bad[0] if bad else None)
        for x in p.k('resume', 'destroy', 'delete'): w.check(False, 'quiet', label + ': something runs or is destroyed', p, x)
    for n in (1, 2, 3) + ((4, 5) if deep else ()):
        for form in ('via', 'viaref'):
            w = w0.new('a task of %d coroutines' % n)
            ts, task = chain(w, n, w.A); t = ts[-1]; D = (w.A, w.B)
            where(w, ts, task, w.A, D, 'before switching')
            o = w.co('other'); other = w.do('drv_sc_vgo', [w.A, o.f]); other = other.n(other.ret); w.drain(w.A)
            # to the scheduler it is on already
            v = w.copy(); p = v.do('drv_sc_' + form, [t.h, w.A, b])
            v.check(flag(v) == 0, 'stay', 'switching to the scheduler it runs on suspends', p); locks_ok(v, p, 'switching to the same scheduler')
            v.check(queued(v, w.A) == queued(v, w.B) == [], 'stay-quiet', 'switching to the scheduler it runs on queues something', p); where(v, ts, task, w.A, D, 'after switching to the same scheduler')
            # to another one
            for rounds in (('B',), ('B', 'A'), ('B', 'C', 'A')):
                v = w.copy(); cur = w.A; S = dict(A=w.A, B=w.B)
                if 'C' in rounds: S['C'] = v.sched('C')
                D2 = tuple(S.values())
                for k in rounds:
                    lab = 'after switching %s%s' % ('to another scheduler', '' if len(rounds) == 1 else ' (of %s)' % ' '.join(rounds[:rounds.index(k) + 1]))
                    p = v.do('drv_sc_' + form, [t.h, S[k], b]); locks_ok(v, p, lab)
                    v.check(flag(v) == 1, 'suspends', lab + ': the coroutine goes on at once, on the old thread', p)
                    where(v, ts, task, S[k], D2, lab)
                    for X in D2: v.check(len(queued(v, X)) == int(X == S[k]), 'queued', '%s: %d states are queued on %s scheduler' % (lab, len(queued(v, X)), 'the new' if X == S[k] else 'another'), p)
                    for X in D2:
                        if X != S[k]:
                            p = v.do('drv_sc_batch', [X]); v.check(not p.k('resume'), 'left', lab + ': a coroutine is resumed on another scheduler', p)
                    p = v.do('drv_sc_batch', [S[k]]); r = [p.n(x.a[0]) for x in p.k('resume')]
                    v.check(r == [t.h], 'continues', lab + ': the coroutine is resumed %d times on the new scheduler' % len(r), p)
                    p = v.do('drv_sc_batch', [S[k]]); v.check(not p.k('resume'), 'continues', lab + ': the coroutine is resumed twice', p)
                    cur = S[k]
                v.check(v.find(w.A, o) == other and v.sof(o) == w.A, 'others', 'switching affects another task')
                # all of them finish there: each awaiting coroutine goes on, the task disappears
                v.hook({}, fin=[x.h for x in ts])
                for i in range(n - 1, -1, -1):
                    p = v.do('drv_fu_void_return', [ts[i].pr]); q = v.do('drv_fu_void_final', [ts[i].h]); r = []
                    for _ in range(4):
                        p = v.do('drv_sc_batch', [cur]); r += [p.n(x.a[0]) for x in p.k('resume')]
                    v.check(r == ([ts[i - 1].h] if i else []), 'returns', 'after coroutine %d of %d finished on its new scheduler, %d coroutines are resumed there' % (i + 1, n, len(r)), p)
                for X in D2: v.check(v.find(X, ts[0]) == 0, 'gone', 'the finished task is still registered')
        # coroutines awaited after the switch run on the new scheduler
        w = w0.new('a task of %d coroutines that switched' % n); ts, task = chain(w, n, w.A); t = ts[-1]
        w.do('drv_sc_via', [t.h, w.B, b]); w.drain(w.B)
        x = w.co('later'); w.do('drv_sc_transform', [t.pr, x.f]); w.do('drv_sc_suspend', [x.f, t.h])
        where(w, ts + [x], task, w.B, (w.A, w.B), 'a coroutine awaited afterwards')
        w.check(queued(w, w.B) == [x.s] and queued(w, w.A) == [], 'later', 'a coroutine awaited after the switch is not queued on the new scheduler')
        # yield stays on its scheduler
        w = w0.new('a task of %d coroutines that yields' % n); ts, task = chain(w, n, w.A); t = ts[-1]
        p = w.do('drv_sc_yield', [t.h, b]); locks_ok(w, p, 'yield')
        w.check(flag(w) == 1, 'yield', 'yield does not suspend', p)
        w.check(len(queued(w, w.A)) == 1 and queued(w, w.B) == [], 'yield', 'yield does not queue the coroutine once on its scheduler', p)
        where(w, ts, task, w.A, (w.A, w.B), 'after yield')
        r = w.drain(w.A); w.check(r[0] == [t.h] and not [h for q in r[1:] for h in q], 'yield', 'the yielding coroutine is not resumed once')
    # a coroutine that runs outside any scheduler goes on on the one it switches to
    for n in (1, 2):
        w = w0.new('%d coroutines without a scheduler' % n); ts, task = chain(w, n, None); t = ts[-1]
        for x in ts:
            p = w.ask('drv_sc_cur', [x.h]); w.check(p.n(p.ret) == 0, 'current', 'get_current_scheduler is not null outside schedulers', p)
        p = w.do('drv_sc_via', [t.h, w.B, b]); locks_ok(w, p, 'switching to a scheduler')
        w.check(flag(w) == 1, 'suspends', 'the coroutine goes on at once', p)
        where(w, ts, None, w.B, (w.A, w.B), 'after switching to a scheduler')
        r = w.drain(w.B); w.check(r[0] == [t.h] and not [h for q in r[1:] for h in q], 'continues', 'the coroutine is not resumed once on the scheduler')

# ---------------------------------------------------------------- C05 the scheduler of a thread
@guard
def C05(c):
    def fresh():
        cfg = config(drop=DROP, exact_maps=True); cfg.unroll = 24; cfg.recursion = 8
        e, st = c.engine(cfg)
        w = W.__new__(W); w.c = c; w.pid = 'C05'; w.e = e; w.st = st; w.what = 'setup'; w.n = 0; w.A = w.B = ('p', None, 0)
        return w
    def this(w):
        p = w.ask('drv_sc_this', []); return p.n(p.ret)
    def isg(w, v): return v == w.G
    names = ('S', 'T')
    seen = set(); todo = []
    w = fresh()
    # a thread that has not bound anything
    w.G = None; p = w.ask('drv_sc_global', []); w.G = p.n(p.ret)
    ps = [p for p in c.step(w.e, w.st, 'drv_sc_this', []) if p.status == 'ret']
    unb = [p for p in ps if isg(w, p.n(p.ret))]
    if not c.check(len(unb) == 1, 'C05.default', 'a thread without a scheduler does not use the global one', ps[0] if ps else None): return
    w.st = unb[0].st
    # specification: bound = None | name | 'L<k>' (created by a local_scheduler_t); live = schedulers that exist; locs = stack of local_scheduler_t
    w.bound = None; w.live = (); w.locs = (); w.obs = {}; w.hist = ()
    for nm in names: w.obs[nm] = c.obj(w.e, w.st, 'scheduler-' + nm, 'librf::scheduler_t')
    depth = 7 if c.tier == 'thorough' else 6
    def cp(w):
        n = w.copy(); n.obs = dict(w.obs); return n
    def key(w): return (w.bound, w.live, w.locs)
    todo = [w]; seen.add(key(w)); n = 0
    while todo:
        w = todo.pop(0); n += 1
        ops = [('make', x) for x in names if x not in w.live] + [('dtor', x) for x in w.live if x in names]
        if len(w.locs) < 3: ops += [('local', None)] + [('on', x) for x in w.live if x in names]
        if w.locs: ops.append(('end', None))
        for op, x in ops:
            v = cp(w); v.hist = w.hist + (op + (' ' + x if x else ''),); v.what = 'after ' + ', '.join(v.hist)
            if op == 'make':
                p = v.do('drv_sc_make', [v.obs[x]]); v.live += (x,)
                if v.bound is None: v.bound = x
            elif op == 'dtor':
                if any(l == ('on', x) for l in v.locs) or any(o == x for o in v.live if False): pass
                p = v.do('drv_sc_dtor', [v.obs[x]]); v.live = tuple(o for o in v.live if o != x)
                if v.bound == x: v.bound = None
            elif op in ('local', 'on'):
                k = 'loc%d' % len(v.locs); v.obs[k] = c.obj(v.e, v.st, k)
                p = v.do('drv_sc_local' if op == 'local' else 'drv_sc_local_on', [v.obs[k]] + ([v.obs[x]] if x else []))
                nw = [y for y in p.k('new') if 'timer_manager' not in (y.name or '')]
                made = v.bound is None and op == 'local'
                v.check(len(nw) == int(made), 'creates', 'local_scheduler_t creates %d schedulers' % len(nw), p)
                if made and nw: v.obs['L%d' % len(v.locs)] = p.n(nw[0].a[0]); v.bound = 'L%d' % len(v.locs)
                elif op == 'on' and v.bound is None: v.bound = x
                v.locs += ((op, x, made),)
            else:
                k = len(v.locs) - 1
                p = v.do('drv_sc_local_dtor', [v.obs['loc%d' % k]])
                d = [p.n(y.a[0]) for y in p.k('delete')]
                own = v.locs[k][2]
                v.check(sum(1 for y in d if own and y == v.obs['L%d' % k]) == int(own) and (own or not [y for y in d if y in v.obs.values()]), 'destroys', 'the end of a local_scheduler_t destroys %s' % ('its scheduler %d times' % d.count(v.obs.get('L%d' % k)) if own else 'a scheduler it did not create'), p)
                if own: v.bound = None
                v.locs = v.locs[:-1]
            got = this(v)
            want = v.obs.get(v.bound)
            ok = isg(v, got) if v.bound is None else got == want
            if not v.check(ok, 'bound', 'this thread uses %s' % ('another scheduler than the bound one' if v.bound else 'a scheduler although none is bound'), p): return
            if len(v.hist) < depth and key(v) not in seen: seen.add(key(v)); todo.append(v)
    c.check(n >= 30, 'C05.states', 'only %d situations could be reached' % n)


# ---------------------------------------------------------------- C07 asking all tasks to stop
@guard
def C07(c):
    w0 = W(c, 'C07'); e = w0.e; tA, tB = w0.timer(w0.A), w0.timer(w0.B)
    def world(what, n, which, extra=0):
        """n tasks on A and one on B; which = numbers of those whose stop state exists, each with a token and 1 + extra callbacks"""
        w = w0.new(what); e.cfg.stops = {}; ts = []
        for i in range(n + 1):
            t = w.co('X%d' % i); p = w.do('drv_sc_vgo', [w.B if i == n else w.A, t.f]); t.task = p.n(p.ret); t.i = i; t.tok = None; t.cbs = []
            ts.append(t)
        for i in which + (n,):
            t = ts[i]; t.tok = c.obj(e, w.st, 'token%d' % i); w.do('drv_sc_token', [t.tok, t.task])
            for k in range(1 + extra):
                b = c.obj(e, w.st, 'callback'); w.do('drv_sc_callback', [b, t.tok, 10 * i + k]); t.cbs.append((10 * i + k, b))
        w.drain(w.A)
        return w, ts
    def requested(w, t):
        p = w.ask('drv_sc_token_requested', [t.tok]); return p.num(p.ret)
    def stop_all(w, ts, which, gone=(), again=False):
        p = w.do('drv_sc_stop_all', [w.A])
        got = [p.n(x.a[0]) for x in p.k('stopped')]
        exp = sorted(k for i in which if not again for k, b in ts[i].cbs)
        w.check(sorted(got) == exp, 'callbacks', 'stop callbacks ran %d times instead of %d' % (len(got), len(exp)) if len(got) != len(exp) else 'the wrong stop callbacks ran', p, (p.k('stopped') or [None])[-1])
        for x in p.k('stopped', 'timer.clear'): w.check(not w.slocks(p, x), 'unlocked', '%s while a lock of the scheduler is held' % ('a stop callback runs' if x.k == 'stopped' else 'timers are cancelled'), p, x)
        tc = [p.n(x.a[0]) for x in p.k('timer.clear')]
        w.check(tc == [tA], 'timers', 'timers are cancelled %d times' % len(tc) if tc != [tB] else 'the timers of another scheduler are cancelled', p)
        w.check(not p.st.locks, 'released', 'a lock stays held', p)
        w.check(not [x for x in p.k('resume', 'destroy')], 'quiet', 'a coroutine runs', p)
        bad = [x for x in p.k('cont') if P(p.n(x.a[0])) and p.n(x.a[0])[1] in (w.A[1], w.B[1]) and not w.slocks(p, x)]
        w.check(not bad, 'locked', 'a table of the scheduler is used without a lock', p, bad[0] if bad else None)
        for t in ts:
            if t.tok is not None: w.check(requested(w, t) == int(t.i in which), 'requested', 'the token of a task %s' % ('of this scheduler is not told to stop' if t.i in which else 'of another scheduler is told to stop'), p)
            elif t.i not in gone:
                v = w.copy(); k = c.obj(e, v.st, 'late-token'); v.do('drv_sc_token', [k, t.task]); q = v.do('drv_sc_token_requested', [k])
                v.check(q.num(q.ret) == 0, 'untouched', 'a task that cannot be asked to stop is', q)
            w.check((w.find(w.B if t.i == len(ts) - 1 else w.A, t) == t.task) == (t.i not in gone), 'tasks', 'a task is lost', p)
        return p
    top = 4 if c.tier == 'thorough' else 3
    for n in range(top + 1):
        for which in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1)):
            w, ts = world('%d tasks, %d of them with a stop state' % (n, len(which)), n, which)
            stop_all(w, ts, which)
            w.what += ', asked again'; stop_all(w, ts, which, again=True)
    w, ts = world('two tasks with three callbacks each', 2, (0, 1), 2); stop_all(w, ts, (0, 1))
    # callbacks that use the scheduler
    for n in (1, 2, 3):
        for i in range(n):
            for j in range(n):
                w, ts = world('%d tasks; the stop callback of one completes %s' % (n, 'it' if i == j else 'another one'), n, tuple(range(n)))
                e.cfg.stops = {10 * i: [('drv_sc_del_final', [w.A, ts[j].s])]}; stop_all(w, ts, tuple(range(n)), gone=(j,))
            w, ts = world('%d tasks; the stop callback of one looks at the scheduler and starts a task' % n, n, tuple(range(n)))
            x = w.co('new'); e.cfg.stops = {10 * i: [('drv_sc_find', [w.A, ts[0].s]), ('drv_sc_empty', [w.A]), ('drv_sc_vgo', [w.A, x.f])]}
            stop_all(w, ts, tuple(range(n))); w.check(P(w.find(w.A, x)), 'new-task', 'the task started by a stop callback is lost')
            w, ts = world('%d tasks; the stop callback of one asks all of them to stop' % n, n, tuple(range(n)))
            e.cfg.stops = {10 * i: [('drv_sc_task_stop', [t.task]) for t in ts[:n]]}; stop_all(w, ts, tuple(range(n)))
    # one task
    w, ts = world('one task', 1, ()); t = ts[0]
    p = w.do('drv_sc_task_stop_if', [t.task]); w.check(p.num(p.ret) == 0 and not p.k('new'), 'if-possible', 'request_stop_if_possible acts on a task nobody can be told about', p)
    s1 = w.do('drv_sc_source', [t.task]); k = c.obj(e, w.st, 'token'); w.do('drv_sc_token', [k, t.task]); k2 = c.obj(e, w.st, 'token2'); q = w.do('drv_sc_token', [k2, t.task])
    w.check(not q.k('new'), 'same-source', 'the task has more than one stop state', q)
    for fn in ('drv_sc_task_stop', 'drv_sc_task_stop_if'):
        v = w.copy(); v.what = 'one task, ' + fn[7:]
        p = v.do(fn, [t.task]); v.check(p.num(p.ret) == 1, 'first', 'the first request to stop is not reported as such', p)
        for z in (k, k2):
            q = v.do('drv_sc_token_requested', [z]); v.check(q.num(q.ret) == 1, 'requested', 'a token of the task is not told to stop', q)
        p = v.do(fn, [t.task]); v.check(p.num(p.ret) == 0, 'second', 'the second request to stop is reported as the first', p)

PROPS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C07=C07)
