"""Futures, promises and awaitables (F01..F04)."""
from spec import *
import spec
from rules.channel import one

DROP = ('get_scheduler', 'get_root')
TYPES = {'life': 'drv_life', 'int': 'int', 'mov': 'drv_mov', 'ref': 'int&', 'void': 'void'}

SEL = dict(
    F01={'ready', 'result', 'value', 'exception', 'not-ready', 'one-shot', 'states', 'released'},
    F02={'quiet', 'locked', 'atomic', 'released', 'target', 'decided', 'early-removal', 'lost-wakeup', 'wake', 'removed', 'has-handler', 'final-queued', 'final-removed', 'root', 'scheduler', 'started', 'late', 'states'},
    F04={'states', 'life', 'leak', 'freed', 'size', 'kept', 'owners'},
    F03={'resume', 'resume-unlocked', 'resume-last', 'resume-atomic', 'states'})
class Only:
    """records only the rules that belong to the property"""
    def __init__(s, c, pid): s.c = c; s.sel = {pid + '.' + x for x in SEL[pid]}; s.not_ = {q + '.' + x for q in SEL for x in SEL[q]} | {pid + '.' + x for q in SEL for x in SEL[q]}
    def __getattr__(s, n): return getattr(s.c, n)
    def check(s, cond, rule, *a, **k):
        if rule in s.sel or rule not in s.not_: return s.c.check(cond, rule, *a, **k)
        return bool(cond)

def h_dealloc(e, st, ins, args, dem, name):
    e.event(st, 'dealloc', None, (e.norm(st, args[1]), e.norm(st, args[2])), ins)
    return NotImplemented

class F:
    """one shared state in a reachable configuration, together with its specification"""
    drop = DROP; live = None
    def __init__(w, c, N, kind, pid):
        w.c = c; w.N = N; w.kind = kind; w.pid = pid; w.n = 0
        cfg = config(drop=w.drop); cfg.unroll = 12
        cfg.coro_done = lambda e, st, h: 1 if w.phase in ('fin', 'gone') else 0
        cfg.ret = dict({r'^std::(__new_)?allocator<char>::deallocate\(': h_dealloc}, **cfg.ret)
        w.e, w.st = c.engine(cfg)
        e = w.e
        w.S = c.obj(e, w.st, 'scheduler', 'librf::scheduler_t', kind='lazy')
        w.co = c.field('librf::state_base_t', r'coroutine_handle<void>')[0]
        w.rv = c.field('librf::state_future_t', r'atomic<.*result_type', own=True)[0]
        w.ok = True; w.what = 'setup'
        # two awaiting coroutines: one that runs on a scheduler, one that does not (yet)
        w.par = {}
        for k in ('on', 'off'):
            h = c.obj(e, w.st, 'frame-of-awaiting-coroutine-' + k); pr = off(h, 16)
            if w.do('drv_fu_void_promise', [pr], 'a promise') is None: w.ok = False; return
            ps = w.ld(pr)
            w.par[k] = (h, pr, ps)
        h = c.obj(e, w.st, 'frame-of-typed-coroutine'); pr = off(h, 16)
        if w.do(w.E('promise'), [pr], 'a promise') is None or w.do('drv_st_set_scheduler', [w.ld(pr), w.S], 'set_scheduler') is None: w.ok = False; return
        w.par['gen'] = (h, pr, w.ld(pr))
        if w.do('drv_st_set_scheduler', [w.par['on'][2], w.S], 'set_scheduler') is None: w.ok = False; return
        w.res = None; w.aw = None; w.init = None; w.sch = None; w.parent = None; w.queued = 0; w.deld = False; w.hist = ()
        w.f = c.obj(e, w.st, 'future', 'librf::future_t<%s>' % TYPES[N])
        if kind == 'coro':
            w.h = c.obj(e, w.st, 'frame'); w.pr = off(w.h, 16); w.phase = 'new'
            if w.do(w.E('promise'), [w.pr], 'a promise') is None or w.do(w.E('return_object'), [w.f, w.pr], 'get_return_object') is None: w.ok = False; return
        else:
            w.h = None; w.phase = 'aw'
            w.a = c.obj(e, w.st, 'awaitable')
            if w.do(w.E('aw_make'), [w.a], 'an awaitable') is None or w.do(w.E('aw_future'), [w.f, w.a], 'get_future') is None: w.ok = False; return
        w.s = w.ld(w.f)
        w.lk = c.field('librf::state_future_t', r'^librf::spinlock$|lock_type', own=True)[0]
        if kind == 'coro':
            p = w.do(w.E('initial'), [w.h], 'initial_suspend')
            if p is None: w.ok = False; return
            w.quiet(p); w.init = 'I'; w.phase = 'init'
    def E(w, op): return 'drv_fu_%s_%s' % (w.N, op)
    def ld(w, p): return w.e.norm(w.st, w.e.load(w.st, p, 'ptr', log=False))
    def copy(w):
        n = w.__class__.__new__(w.__class__); n.__dict__.update(w.__dict__); n.st = w.st.fork()
        n.e.cfg.coro_done = lambda e, st, h: 1 if n.phase in ('fin', 'gone') else 0
        return n
    def key(w):
        return (w.phase, None if w.res is None else w.res[0], None if w.aw is None else w.aw[1], w.init, bool(w.sch), w.parent, min(w.queued, 1), w.deld)
    def desc(w):
        b = [dict(aw='an awaitable', init='a coroutine that has not started', run='a running coroutine', ret='a coroutine that has produced its result', fin='a finished coroutine', gone='a finished and destroyed coroutine', yielded='a coroutine suspended in co_yield')[w.phase]]
        b.append({None: 'no result', 'V': 'a value', 'E': 'an exception'}[w.res[0] if w.res else None])
        if w.aw: b.append('awaited by ' + {'on': 'a coroutine on a scheduler', 'gen': 'a coroutine on a scheduler', 'off': 'a coroutine outside a scheduler', 'self': 'itself'}[w.aw[1]])
        if w.sch: b.append('on a scheduler')
        return 'future<%s> of %s' % (TYPES[w.N], ', '.join(b))
    def do(w, fn, args, what=None):
        w.e.cfg.coro_done = lambda e, st, h: 1 if w.phase in ('fin', 'gone') else 0
        p = one(w.c, w.pid + '.' + fn.split('_', 3)[-1], w.c.step(w.e, w.st, fn, args), what or w.what)
        if p is not None: w.st = p.st; w.after(p)
        return p
    def after(w, p): pass
    def quiet(w, p):
        w.c.check(not p.k('sched.add', 'sched.del', 'resume', 'destroy'), w.pid + '.quiet', w.what + ': something is scheduled or resumed', p)
    def eff(w):
        if w.sch: return w.S
        return w.S if w.parent in ('on', 'gen') else None
    def handler(w): return w.aw is not None or w.init is not None
    def resumable(w): return w.init is not None or (w.aw is not None and w.res is not None)
    # -- what every operation must satisfy
    def common(w, p, runs=None):
        """lock discipline and queueing; runs = the coroutine that has to be resumed / destroyed by the operation"""
        c = w.c; e = w.e; pid = w.pid; hold = (w.s[1], w.lk)
        inl = lambda x: any(p.n(l[0])[1] == w.s[1] for l in x.locks)
        own = lambda x: P(p.n(x.a[0])) and p.n(x.a[0])[1] == w.s[1]
        wr = [x for x in p.ev if x.k in ('store', 'rmw') and own(x) or x.k == 'cas' and own(x) and x.ret == 1]
        out = [x for x in wr if not inl(x)]
        c.check(not out, pid + '.locked', w.what + ': the shared state is changed without its lock', p, out[0] if out else None)
        secs = [s for s in sections(p, off(w.s, w.lk)) if [x for x in s if x in wr]]
        c.check(len(secs) <= 1, pid + '.atomic', w.what + ': the change of the shared state is spread over several holds of its lock', p)
        c.check(not p.st.locks, pid + '.released', w.what + ': the lock stays held', p)
        for x in p.k('sched.add', 'sched.del'):
            c.check(p.n(x.a[0]) == w.S and p.n(x.a[1]) == w.s, pid + '.target', w.what + ': the wrong state or scheduler is involved', p, x)
        rs = p.k('resume', 'destroy')
        if runs is None:
            c.check(not rs, pid + '.resume', w.what + ': a coroutine is resumed or destroyed', p, rs[0] if rs else None)
        else:
            kind, h, why = runs
            if not c.check(len(rs) == 1 and rs[0].k == kind and p.n(rs[0].a[0]) == h, pid + '.resume', w.what + ': %s should be %s' % (why, 'resumed' if kind == 'resume' else 'destroyed'), p, rs[0] if rs else None): return False
            x = rs[0]
            c.check(not any(p.n(l[0])[1] == w.s[1] for l in x.locks), pid + '.resume-unlocked', w.what + ': the coroutine runs while the lock of the shared state is held', p, x)
            late = [y for y in wr if y.n > x.n]
            c.check(not late, pid + '.resume-last', w.what + ': the shared state is changed after the coroutine has run', p, late[0] if late else None)
        # deciding reads happen in the hold that publishes
        if wr and secs:
            mine = {p.n(y.a[0])[2] for y in wr}
            rd = [x for x in p.k('load') if own(x) and p.n(x.a[0])[2] in mine and x.n not in [y.n for y in secs[0]]]
            c.check(not rd, pid + '.resume-atomic', w.what + ': the coroutine to resume is looked up outside the hold that takes it', p, rd[0] if rd else None)
            for o in (w.co, w.rv):
                rd = [x for x in p.k('load') if own(x) and p.n(x.a[0])[2] == o]
                c.check(not rd or rd[-1].n >= secs[0][0].n, pid + '.decided', w.what + ': whether to schedule is decided on what was true before the change was published', p, rd[-1] if rd else None)
        w.queued += len(p.k('sched.add'))
        if p.k('sched.del'):
            w.deld = True
            c.check(w.res is not None, pid + '.early-removal', w.what + ': the task is removed although there is no result', p)
        return True
    def invariant(w, p):
        if w.eff() is not None and w.resumable() and w.init != 'I':
            w.c.check(w.queued >= 1, w.pid + '.lost-wakeup', w.what + ': a coroutine that can go on is not in the scheduler\'s queue', p)
        if w.eff() is not None and w.res is not None and not w.handler() and w.phase in ('fin', 'gone', 'aw') and w.sch:
            pass
    # -- operations; None: not applicable here, False: failed
    def val(w):
        w.n += 1
        e = w.e
        if w.N in ('int', 'mov', 'life'): return e.sym(32, 'v%d' % w.n)
        if w.N == 'ref': return w.c.obj(e, w.st, 'referenced-%d' % w.n)
        return None
    def op_schedule(w):
        if w.sch or w.parent or w.aw or w.phase not in ('init', 'aw'): return None
        p = w.do('drv_st_set_scheduler', [w.s, w.S])
        if p is None: return False
        w.quiet(p); w.sch = True
        q = w.copy().do('drv_st_has_handler', [w.s])
        if q is None: return False
        w.c.check(q.num(q.ret) == int(w.handler()), w.pid + '.has-handler', w.what + ': has_handler() reports %s' % q.num(q.ret), q)
        if w.handler(): w.queued += 1            # new_task enqueues it
        return p
    def result(w, fn, args, res):
        old = w.aw
        had = w.handler()
        p = w.do(w.E(fn), args)
        if p is None: return False
        w.res = res
        if not w.common(p): return False
        if w.eff():
            if had: w.c.check(len(p.k('sched.add')) >= 1, w.pid + '.wake', w.what + ': the awaiting coroutine is not queued', p)
            else: w.c.check(len(p.k('sched.del')) >= 1, w.pid + '.removed', w.what + ': the completed task is not removed from its scheduler', p)
        return p
    def op_return(w):
        if w.phase != 'run': return None
        v = w.val(); p = w.result('return', [w.pr] + ([v] if w.N != 'void' else []), ('V', v))
        w.phase = 'ret'
        return p
    def op_throw(w):
        if w.phase != 'run': return None
        p = w.result('throw', [w.pr], ('E', None))
        if p:
            x = p.k('current_exception'); w.res = ('E', x[-1].a[0] if x else None)
        w.phase = 'ret'
        return p
    def op_set(w):
        if w.phase != 'aw' or w.res is not None: return None
        v = w.val(); p = w.result('aw_set', [w.a] + ([v] if w.N != 'void' else []), ('V', v))
        return p and w.emptied(p)
    def op_exc(w):
        if w.phase != 'aw' or w.res is not None: return None
        x = w.c.obj(w.e, w.st, 'exception-ptr'); y = w.c.obj(w.e, w.st, 'the-exception'); w.e.store(w.st, x, y, 'ptr', log=False)
        p = w.result('aw_exc', [w.a, x], ('E', y))
        return p and w.emptied(p)
    def op_athrow(w):
        if w.phase != 'aw' or w.res is not None: return None
        v = w.e.sym(32, 'thrown'); p = w.result('aw_throw', [w.a, v], ('E', None))
        if not p: return p
        x = p.k('make_exception_ptr'); w.res = ('E', p.n(x[-1].a[0]) if x else None)
        return w.emptied(p)
    def emptied(w, p):
        q = w.copy().do(w.E('aw_valid'), [w.a])
        if q is None: return False
        w.c.check(q.num(q.ret) == 0, w.pid + '.one-shot', w.what + ': the awaitable can still be completed afterwards', q)
        return p
    def op_final(w):
        if w.phase != 'ret' or not w.eff(): return None
        had = w.aw is not None
        w.phase = 'fin'
        p = w.do(w.E('final'), [w.h])
        if p is None: return False
        w.init = 'F'
        if not w.common(p): return False
        w.c.check(len(p.k('sched.add')) >= 1, w.pid + '.final-queued', w.what + ': the finished coroutine is not queued for destruction', p)
        w.c.check(len(p.k('sched.del')) >= 1, w.pid + '.final-removed', w.what + ': the finished task is not removed from its scheduler', p)
        return p
    def op_yield(w):
        if w.phase != 'run' or w.N == 'void' and False: return None
        v = w.val(); p = w.do(w.E('yield'), [w.pr] + ([v] if w.N != 'void' else []))
        if p is None: return False
        w.res = ('V', v)
        if w.aw is None: w.aw = (w.h, 'self')
        if not w.common(p): return False
        w.phase = 'yielded'
        return p
    def op_resume(w):
        if not w.queued: return None                                                # only the scheduler resumes
        w.queued = max(0, w.queued - 1)
        runs = None
        if w.init == 'I': runs = ('resume', w.h, 'the coroutine itself')
        elif w.aw and w.res: runs = ('resume', w.aw[0], 'the awaiting coroutine')
        elif w.init == 'F': runs = ('destroy', w.h, 'the finished coroutine')
        p = w.do('drv_st_resume', [w.s])
        if p is None: return False
        i, a = w.init, w.aw
        if i == 'I': w.init = None; w.phase = 'run'
        elif a and w.res:
            w.aw = None
            if a[1] == 'self': w.phase = 'run'
        elif i == 'F': w.init = None; w.phase = 'gone'
        if not w.common(p, runs): return False
        if runs and i != 'I' and a and w.res and a[1] != 'self':
            if w.read(w.what + ': the awaiting coroutine') is False: return False
        # a second pass finds at most the next thing to do
        return p
    def await_(w, who):
        if w.aw is not None and w.aw[1] != who and w.phase != 'yielded': return None      # one awaiter at a time
        if w.aw is not None: return None
        if w.parent not in (None, who): return None
        h, pr, ps = w.par[who]
        if w.res is not None: w = w.copy()
        if who != 'gen':
            p = w.do(w.E('transform'), [pr, w.f])
            if p is None: return False
            w.quiet(p); w.sch = (who == 'on') or None
        p = w.do(w.E('ready'), [w.f])
        if p is None: return False
        w.quiet(p)
        if not w.c.check(p.num(p.ret) == int(w.res is not None), w.pid + '.ready', w.what + ': await_ready reports %s' % p.num(p.ret), p): return False
        if w.res is not None: return w.read(w.what) and True
        p = w.do(w.E('suspend_gen' if who == 'gen' else 'suspend'), [w.f, h])
        if p is None: return False
        w.aw = (h, who); w.parent = who; w.sch = who != 'off' or None
        if not w.common(p): return False
        q = w.copy().do('drv_st_root', [w.s])
        if q is None: return False
        w.c.check(q.n(q.ret) == ps, w.pid + '.root', w.what + ': the awaited future does not belong to the awaiting coroutine', q)
        q = w.copy().do('drv_st_scheduler', [w.s])
        if q is None: return False
        w.c.check(p.n(q.ret) == (w.S if who != 'off' else 0), w.pid + '.scheduler', w.what + ': the awaited future does not run on the scheduler of the awaiting coroutine', q)
        if w.eff() and w.init == 'I': w.c.check(w.queued >= 1, w.pid + '.started', w.what + ': the awaited coroutine is not started', p)
        return p
    def op_await_on(w): return w.await_('on')
    def op_await_off(w): return w.await_('off')
    def op_await_gen(w): return w.await_('gen')
    def op_late(w):
        """the result arrives between await_ready() and await_suspend()"""
        if w.aw is not None or w.res is None or w.parent not in (None, 'on'): return None
        h, pr, ps = w.par['on']
        p = w.do(w.E('transform'), [pr, w.f])
        if p is None: return False
        w.sch = True
        p = w.do(w.E('suspend'), [w.f, h])
        if p is None: return False
        w.aw = (h, 'on'); w.parent = 'on'
        if not w.common(p): return False
        w.c.check(bool(p.k('sched.add')), w.pid + '.late', w.what + ': await_suspend after completion does not queue the awaiting coroutine', p)
        return p
    def read(w, what):
        """co_await's result"""
        d = w.copy(); c = w.c
        ps = c.step(d.e, d.st, w.E('resume'), [w.f])
        if not c.check(len(ps) == 1, w.pid + '.result', what + ': the result of co_await depends on something else than the state'): return False
        p = ps[0]; x = getattr(p, 'bad', None)
        if not c.check(x is None, w.pid + '.result', what + ': ' + (x.k if x else ''), p, x): return False
        c.check(not p.st.locks, w.pid + '.released', what + ': the lock stays held', p)
        if w.res is None:
            t = p.k('make_exception_ptr'); r = p.k('rethrow_exception')
            return c.check(p.status == 'throw' and len(t) == 1 and t[0].name == 'librf::future_exception' and len(r) == 1 and p.n(r[0].a[0]) == p.n(t[0].a[0]), w.pid + '.not-ready', what + ': co_await without a result does not throw not_ready', p)
        if w.res[0] == 'E':
            r = p.k('rethrow_exception')
            ok = c.check(p.status == 'throw' and len(r) == 1 and w.res[1] is not None and p.n(r[0].a[0]) == w.res[1], w.pid + '.exception', what + ': co_await does not throw the exception of the future', p)
        else:
            ok = c.check(p.status == 'ret', w.pid + '.value', what + ': co_await throws although there is a value', p)
            if ok and w.N != 'void':
                ok = c.check(p.n(p.ret) == w.res[1], w.pid + '.value', what + ': co_await does not yield the value of the future', p)
        if ok: w.st = p.st
        if w.N in ('mov', 'life') or w.res[0] == 'E': w.res = (w.res[0], 'moved')       # the result has been handed over
        return ok and p
    OPS = ['schedule', 'resume', 'return', 'throw', 'yield', 'final', 'set', 'exc', 'athrow', 'await_on', 'await_off', 'await_gen', 'late']

def explore(c, pid, types, kinds=('coro', 'aw'), depth=12, visit=None, cls=F):
    n = 0; o = Only(c, pid)
    for N in types:
        for kind in kinds:
            w = cls(o, N, kind, pid)
            if not w.ok: return n
            seen = {w.key()}; todo = [(w, 0)]
            while todo:
                w, d = todo.pop(0); n += 1
                w.what = w.desc()
                if visit and visit(w.copy()) is False: return n
                for op in F.OPS:
                    x = w.copy()
                    x.what = '%s: %s' % (w.desc(), op); x.hist = w.hist + (op,)
                    p = getattr(x, 'op_' + op)()
                    if p is None: continue
                    if p is False: return n
                    if p is not True: x.invariant(p)
                    if x.key() in seen or d >= depth or x.res and x.res[1] == 'moved': continue
                    seen.add(x.key()); todo.append((x, d + 1))
    return n

ALL = ('int', 'mov', 'ref', 'void')
def F01(c):
    def visit(w):
        w.what = w.desc()
        return w.read(w.what) is not False
    n = explore(c, 'F01', ALL, visit=visit)
    c.check(n >= 100, 'F01.states', 'only %d states could be reached' % n)
def F02(c):
    n = explore(c, 'F02', ALL)
    c.check(n >= 100, 'F02.states', 'only %d states could be reached' % n)
def F03(c):
    n = explore(c, 'F03', ALL)
    c.check(n >= 100, 'F03.states', 'only %d states could be reached' % n)
    # waiters and coroutines of other kinds
    co = c.field('librf::state_base_t', r'coroutine_handle<void>')[0]; so = c.field('librf::state_base_t', r'scheduler_t \*$')[0]
    for kind in ('base', 'event', 'event_all', 'mutex', 'when', 'generator'):
        g = {}
        def init(e, st, a):
            g.update(s=a[0], h=e.load(st, off(a[0], co), 'ptr', log=False), sc=e.load(st, off(a[0], so), 'ptr', log=False))
        cfg = config(); cfg.unroll = 6
        e, ps = c.run('drv_stx_' + kind, init, cfg=cfg)
        seen = set()
        for p in ps:
            what = 'resuming a waiter (%s)' % kind
            if p.status != 'ret': continue
            none = p.eq(g['h'], 0); rs = p.k('resume'); seen.add(none is True)
            x = getattr(p, 'bad', None)
            c.check(x is None, 'F03.waiter', '%s: %s' % (what, x.k if x else ''), p, x)
            if none is True:
                c.check(not rs and not p.k('destroy', 'sched.add', 'sched.del'), 'F03.waiter-idle', what + ': resuming a waiter that has no coroutine does something', p); continue
            if not c.check(len(rs) == 1 and p.eq(rs[0].a[0], g['h']) is True, 'F03.waiter-once', '%s: its coroutine is resumed %d times' % (what, len(rs)), p, rs[-1] if rs else None): continue
            c.check(not rs[0].locks and not p.st.locks, 'F03.waiter-unlocked', what + ': the coroutine runs under a lock', p, rs[0])
            if kind != 'generator':
                w = [y for y in p.writes(off(g['s'], co))]
                c.check(bool(w) and w[-1].n < rs[0].n and p.eq(p.cell(off(g['s'], co)), 0) is True, 'F03.waiter-consumed', what + ': the coroutine is not taken from the waiter before it runs', p, rs[0])
                late = [y for y in p.k('store', 'rmw', 'sched.add', 'sched.del') if y.n > rs[0].n and P(p.n(y.a[0]))]
                c.check(not late, 'F03.waiter-last', what + ': something is changed after the coroutine has run', p, late[0] if late else None)
                c.check(not p.k('destroy', 'sched.add'), 'F03.waiter-effect', what + ': the coroutine is destroyed or queued', p)
            else:
                dn = p.k('done'); t = p.truth(('cmp', 'ne', 1, dn[-1].ret, 0)) if dn and not isinstance(dn[-1].ret, int) else (dn and bool(dn[-1].ret))
                add = [y for y in p.k('sched.add') if p.eq(y.a[1], g['s'])]; de = p.k('destroy'); dl = [y for y in p.k('sched.del') if p.eq(y.a[1], g['s'])]
                c.check(bool(dn) and dn[-1].n > rs[0].n, 'F03.generator-done', what + ': it is not tested for its end after it ran', p)
                if t: c.check(not add and len(de) == 1 and p.eq(de[0].a[0], g['h']) is True and len(dl) == 1, 'F03.generator-end', what + ': a finished coroutine is not removed and destroyed exactly once', p)
                else: c.check(len(add) == 1 and not de and not dl, 'F03.generator-again', what + ': a coroutine that goes on is not queued again exactly once', p)
        c.check(seen == {True, False}, 'F03.waiter-cases', 'resuming a waiter (%s) does not distinguish whether it has a coroutine' % kind)

class Life(F):
    """the same with real reference counts; follows what lives inside the state"""
    drop = DROP + ('state_base_t::lock', 'state_base_t::unlock')
    def after(w, p):
        if w.live is None: w.live = {}; w.size = None
        w.live = dict(w.live)
        s = getattr(w, 's', None)
        for x in p.ev:
            if x.k == 'new' and s is None and P(p.n(x.a[0])): w.sizes = dict(getattr(w, 'sizes', {})); w.sizes[p.n(x.a[0])[1]] = x.a[1]
            if x.k in ('exc.ctor', 'exc.dtor', 'exc.assign'): op, a, what = {'exc.ctor': 1, 'exc.assign': 2, 'exc.dtor': 3}[x.k], p.n(x.a[0]), 'exception'
            elif x.k == 'call' and x.name == 'drv_lv': op, a, what = p.num(x.a[0]), p.n(x.a[1]), 'value'
            else: continue
            if not P(a) or w.e.rinfo[a[1]].kind == 'stack': continue
            h = w.live.get(a)
            if op == 1:
                w.c.check(h is None, w.pid + '.life', '%s: %s is constructed over a live %s' % (w.what, what, h), p, x); w.live[a] = what
            else:
                w.c.check(h == what, w.pid + '.life', '%s: %s that does not exist is %s' % (w.what, what, {2: 'assigned to', 3: 'destroyed'}[op]), p, x)
                if op == 3: w.live.pop(a, None)
    def mine(w): return [k for k in w.live if k[1] == w.s[1]]
    def release(w, order):
        """drop every owner; the state is freed by the last one, with everything in it"""
        c = w.c; g = c.obj(w.e, w.st, 'second-future', 'librf::future_t<%s>' % TYPES[w.N]); h = c.obj(w.e, w.st, 'third-future', 'librf::future_t<%s>' % TYPES[w.N])
        base = w.desc() + ': '
        k = c.obj(w.e, w.st, 'another-awaitable')
        own = {}
        def own_of():
            r = {}
            for nm, a in (('future', w.f), ('copy', g), ('moved', h)) + ((('promise', w.pr),) if w.kind == 'coro' else (('awaitable', w.a),)):
                cell = w.st.mem.get(a[1], {}).get(a[2])
                r[nm] = cell is not None and w.e.norm(w.st, cell[1]) == w.s
            return r
        steps = dict(copy=('copy', [g, w.f]), move=('move', [h, g]), back=('assign', [g, h]), self=('assign', [h, h]), take=('massign', [g, h]),
                     f=('dtor', [w.f]), g=('dtor', [g]), h=('dtor', [h]), p=('promise_dtor', [w.pr]) if w.kind == 'coro' else ('aw_dtor', [w.a]))
        want = {'future': True, 'copy': False, 'moved': False}; last = 'promise' if w.kind == 'coro' else 'awaitable'
        want[last] = own_of()[last]
        dead = set()
        for o in order:
            fn, args = steps[o]; w.what = base + {'f': 'destroying the future', 'g': 'destroying the copy', 'h': 'destroying the moved future', 'p': 'destroying the ' + last}.get(o, o + ' of a future') + ' (sequence %s)' % ' '.join(order)
            p = w.do(w.E(fn), args)
            if p is None: return False
            if o == 'copy': want['copy'] = True
            if o == 'move': want['moved'], want['copy'] = True, False
            if o == 'back': want['copy'] = want['moved']
            if o == 'take': want['copy'], want['moved'] = want['moved'], False
            if o in 'fghp': k = {'f': 'future', 'g': 'copy', 'h': 'moved', 'p': last}[o]; want[k] = False; dead.add(k)
            d = [x for x in p.k('delete') if p.n(x.a[0])[1] == w.s[1]]
            left = any(want.values())
            if left:
                if not c.check(not d, w.pid + '.kept', w.what + ': the shared state is freed while it has owners', p, d[0] if d else None): return False
                cur = own_of()
                c.check(all(cur[x] == want[x] for x in cur if x not in dead), w.pid + '.owners', w.what + ': a future refers to the wrong state', p)
            else:
                if not c.check(len(d) == 1, w.pid + '.freed', w.what + ': the shared state is freed %d times by its last owner' % len(d), p, d[-1] if d else None): return False
                z = next((x.a[1] for x in p.k('dealloc') if P(p.n(x.a[0])) and p.n(x.a[0])[1] == w.s[1]), None)
                c.check(z is None or p.num(z) == w.sizes.get(w.s[1]), w.pid + '.size', w.what + ': the state is returned to the allocator with another size than it was taken with', p, d[0])
                c.check(not w.mine(), w.pid + '.leak', w.what + ': the %s stored in the state is not destroyed with it' % '/'.join(w.live[x] for x in w.mine()), p, d[0])
                return True
        return c.check(False, w.pid + '.freed', base + 'the shared state is never freed')

ORDERS = (('copy', 'f', 'p', 'g'), ('p', 'f'), ('copy', 'move', 'back', 'self', 'f', 'g', 'p', 'h'), ('copy', 'move', 'f', 'take', 'p', 'h', 'g'))
def F04(c):
    def visit(w):
        for o in ORDERS:
            if w.copy().release(o) is False: return False
    n = explore(c, 'F04', ('life', 'ref', 'void'), visit=visit, cls=Life)
    c.check(n >= 75, 'F04.states', 'only %d states could be reached' % n)
PROPS = dict(F01=F01, F02=F02, F03=F03, F04=F04)
