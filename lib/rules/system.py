"""Whole coroutines on real schedulers and timers (T05, W01..): the compiler's own split of each coroutine body is followed."""
from spec import *
import spec, itertools
from rules.world import *
DRIVERS = ('system', 'when', 'generator', 'scheduler', 'timer', 'future')
SPLIT = dict(T05=True, W01=True, W02=True, G01=True)
MS = 1000000

class W(World):
    DRV = 8; DROP = ()
    def __init__(w, c, pid):
        w.c = c; w.pid = pid; w.what = 'setup'
        cfg = config(drop=('librf::timer_handler::', 'timer_manager::add', 'get_scheduler', 'get_root', 'scheduler_t::add_generator', 'scheduler_t::del_final', 'librf::state_base_t::lock', 'librf::state_base_t::unlock') + w.DROP, exact_maps=True, exact_sp=True, exact_fn=True, exact_exc=True); cfg.unroll = 24; cfg.recursion = 8; cfg.no_spurious = True; cfg.exact_locks = True
        cfg.now = 0; cfg.element_classes = r'milk::concurrency::stop_source$|librf::counted_ptr<|std::unique_ptr<librf::task_t|std::pair<librf::counted_ptr<'
        def mark(e, st, ins, args, dem, name):
            e.event(st, 'mark', None, tuple(e.norm(st, a) for a in args), ins); return None
        def now(e, st, ins, args, dem, name):
            e.event(st, 'now', None, (), ins); return cfg.now
        cfg.ret.update({r'^drv_mark$': mark, r'^std::chrono::_V2::system_clock::now\(\)': now})
        w.e, w.st = c.engine(cfg)
        w.S = w.obj('scheduler'); w.do('drv_sc_make', [w.S]); w.T = w.obj('other-scheduler'); w.do('drv_sc_make', [w.T])
        w.made = {}; w.log = []
    def do(w, fn, args):
        """one step, also keeping book of what is allocated"""
        ps = w.paths(fn, args)
        w.check(len(ps) == 1 or w.what == 'setup', 'exact', '%s has %d outcomes' % (fn[w.DRV:], len(ps)), ps[-1])
        p = ps[0]; w.st = p.st
        w.note(p)
        return p
    def note(w, p):
        if hasattr(w, 'made'):
            w.made = dict(w.made)
            for x in p.ev:
                if x.k == 'new' and P(p.n(x.a[0])): w.made[p.n(x.a[0])[1]] = x
                if x.k in ('delete', 'free') and P(p.n(x.a[0])): w.made.pop(p.n(x.a[0])[1], None)
            w.log = w.log + [(p.num(x.a[0]), p.num(x.a[1])) for x in p.k('mark')]
    def batch(w, s, now):
        w.e.cfg.now = now
        return w.do('drv_sc_batch', [s])
    def got(w, who): return [v for k, v in w.log if k == who]
    def leaks(w, p):
        """every allocation made by the scenario is released again once everything is finished"""
        for r, x in w.made.items(): w.check(False, 'released', 'an object allocated at %s is never released' % x.loc, p, x)
        w.check(True, 'released', '')
    TWO = True
    def idle(w, now, who=None):
        """let both schedulers run until nothing happens any more"""
        quiet = lambda p: not any(x.k not in ('lock', 'unlock', 'now', 'cont') for x in p.ev)
        for i in range(12):
            q = w.batch(w.T, now) if w.TWO else None; p = w.batch(w.S, now)
            if quiet(p) and (q is None or quiet(q)): break
        else: w.check(False, 'quiet', 'the schedulers do not come to rest', p)
        return p

# ---------------------------------------------------------------- T05
@guard
def T05(c):
    deep = c.tier == 'thorough'
    base = W(c, 'T05'); base.made = {}
    names = ('sleep_for(d)', 'sleep_until(t)', 'co_await d', 'sleep_for_(d, s)', 'sleep_until_(t, s)', 'sleep_for(d, s)', 'sleep_until(t, s)')
    def kind(form):
        ms = form in (0, 2, 5); rel = ms or form == 3
        return MS if ms else 1, rel
    def go(v, who, form, t, start, of, times=1):
        """start a sleeper; it is asleep as of start"""
        v.e.cfg.now = start; v.do('drv_sys_go_sleep', [v.S, who, t, form, of, times])
        return v.idle(start)
    def state(v, who, n, end, p, what):
        exp = [0] + [1] * n + [9] * end
        g = v.got(who)
        if len(g) > len(exp) and g[:len(exp)] == exp: return v.check(False, 'early', '%s: coroutine %d is resumed before its deadline' % (what, who), p)
        v.check(g == exp, 'resumed' if g == exp[:len(g)] else 'outcome', '%s: coroutine %d went through %s instead of %s (1 = resumed, 100 = cancelled)' % (what, who, g, exp), p)
    for form, name in enumerate(names):
        unit, rel = kind(form)
        for of in (base.S, base.T) if form >= 3 else (base.S,):
            for t in (10, 0, -5):
                v = base.copy(); start = 7 * unit; dl = start + t * unit if rel else t * unit
                v.what = '%s with %d, started at %d%s' % (name, t, start, ', on the timer of another scheduler' if of is v.T else '')
                p = go(v, 1, form, t, start, of)
                if dl > start:
                    state(v, 1, 0, 0, p, 'at the start')
                    for now in (start + 1, dl - 1): p = v.idle(now); state(v, 1, 0, 0, p, '%d units early' % (dl - now))
                    late = v.copy(); p = late.idle(dl + 5); state(late, 1, 1, 1, p, 'woken late'); late.leaks(p)
                    p = v.idle(dl)
                state(v, 1, 1, 1, p, 'at the deadline'); v.leaks(p)
                p = v.idle(dl + 100 * unit); state(v, 1, 1, 1, p, 'later')
            # cancellation
            v = base.copy(); v.what = '%s, cancelled%s' % (name, ', on the timer of another scheduler' if of is v.T else '')
            p = go(v, 1, form, 50, 7 * unit, of); state(v, 1, 0, 0, p, 'at the start')
            o = v.copy(); o.do('drv_sys_timer_clear', [v.S if of is v.T else v.T]); p = o.idle(8 * unit); state(o, 1, 0, 0, p, 'timers of another scheduler cleared')
            o = v.copy(); o.what += ' when the deadline is over already'; o.e.cfg.now = 1000 * unit; o.do('drv_sys_timer_clear', [of]); p = o.idle(1000 * unit)
            o.check(o.got(1) == [0, 100, 9], 'cancel', 'cancelled while sleeping, the coroutine went through %s (100 = timer_canceled)' % o.got(1), p); o.leaks(p)
            v.do('drv_sys_timer_clear', [of]); p = v.idle(8 * unit)
            v.check(v.got(1) == [0, 100, 9], 'cancel', 'cancelled while sleeping, the coroutine went through %s (100 = timer_canceled)' % v.got(1), p); v.leaks(p)
            p = v.idle(1000 * unit); v.check(v.got(1) == [0, 100, 9], 'cancel', 'the coroutine is resumed again after the cancellation', p)
        # two in a row: the second one counts from the moment the first one is over
        if rel:
            v = base.copy(); v.what = '%s twice in a row' % name
            p = go(v, 1, form, 10, 0, v.S, 2); p = v.idle(9 * unit); state(v, 1, 0, 0, p, 'early')
            p = v.idle(12 * unit); state(v, 1, 1, 0, p, 'after the first'); p = v.idle(21 * unit); state(v, 1, 1, 0, p, 'before the second'); p = v.idle(22 * unit); state(v, 1, 2, 1, p, 'after the second'); v.leaks(p)
    # two sleepers
    pairs = [(a, b) for a in range(7) for b in range(7)] if deep else [(a, (a + 2) % 7) for a in range(7)] + [(0, 0), (4, 4)]
    for fa, fb in pairs:
        for ta, tb in ((10, 20), (20, 10), (10, 10)):
            v = base.copy(); v.what = '%s until %d and %s until %d' % (names[fa], ta, names[fb], tb)
            D = {}
            for who, form, t in ((1, fa, ta), (2, fb, tb)):
                unit, rel = kind(form)
                go(v, who, form, t if unit == MS else t * MS, 0, v.S); D[who] = t * MS
            for now in (9 * MS, 10 * MS, 15 * MS, 20 * MS):
                p = v.idle(now)
                for who in (1, 2): n = int(D[who] <= now); state(v, who, n, n, p, 'at %d' % now)
            v.leaks(p)
# ---------------------------------------------------------------- W01
class When(W):
    def __init__(w, c, pid):
        W.__init__(w, c, pid); w.what = 'setup when'
        w.a = w.obj('ints'); w.n = w.obj('voids'); w.made = {}
    def open(w, n=3):
        for k in range(n): w.do('drv_wh_int', [off(w.a, 16 * k)]); w.do('drv_wh_void', [off(w.n, 16 * k)])
    def close(w, n=3):
        for k in range(n): w.do('drv_wh_int_dtor', [off(w.a, 16 * k)]); p = w.do('drv_wh_void_dtor', [off(w.n, 16 * k)])
        return p
    def name(w, k): return '%s task %d' % (w.fn, k)
    def start(w, on, of): w.do('drv_wh_' + w.op, [on, 1, w.form, of, w.a, w.n]); w.gone = True
    def finish(w, k, fail=False):
        void = w.tasks[k] == 'v'
        if fail: w.do('drv_wh_vthrow' if void else 'drv_wh_throw', [off(w.n if void else w.a, 16 * k), 7])
        else: w.do('drv_wh_vset' if void else 'drv_wh_set', [off(w.n if void else w.a, 16 * k)] + ([] if void else [40 + k]))
        w.done = w.done + ((k, fail),)
    def order(w, deep, on, of, begun=False):
        """every order of starting the waiter, finishing its tasks and letting the schedulers run. yields every situation in which nothing is left to do"""
        st = [w]
        while st:
            v = st.pop()
            opts = [('f', k) for k in v.tasks if k not in [d[0] for d in v.done] and (v.gone or not begun)]
            if not v.gone: opts.append(('g',))
            if v.hist and v.hist[-1] != 'run': opts.append(('run',))
            for o in opts:
                x = v.copy()
                h = {'f': lambda: 'task %d is over' % o[1], 'g': lambda: 'start', 'run': lambda: 'run'}[o[0]]()
                x.hist = v.hist + (h,); x.what = '%s: %s' % (x.fn, ', '.join(x.hist))
                if o[0] == 'f': x.finish(o[1])
                elif o[0] == 'g': x.start(on, of)
                else:
                    x.p = x.idle(0)
                    yield x
                    if x.gone and len(x.done) == len(x.tasks): continue
                st.append(x)
    def values(w, seen=None):
        """what the waiter is to be given, as marks"""
        r = [1]
        if w.form in (3, 4, 5, 6, 10, 11, 12): r.append(500 + len(w.tasks))
        return r + [1040 + k for k in sorted(w.tasks) if w.tasks[k] == 'i']
    def judge_all(w, p):
        g = [x for x in w.got(1) if x not in (50, 51)]; full = w.gone and len(w.done) == len(w.tasks)
        if not w.gone: return w.check(g == [], 'order', 'something runs before the start', p)
        if not full: return w.check(g == [0], 'early', 'the waiter is resumed although a task is not over: %s' % g, p)
        w.check(g[:2] == [0, 1], 'resumed', 'all tasks are over and the waiter went through %s' % g, p)
        w.check(g == [0] + w.values() + [9], 'values' if g[:2] == [0, 1] and 9 in g else 'resumed', 'the waiter went through %s instead of %s (1 resumed, 500+ number of results, 1000+ value, 9 end)' % (g, [0] + w.values() + [9]), p)
    def judge_any(w, p):
        g = [x for x in w.got(1) if x not in (50, 51)]
        if not w.gone: return w.check(g == [], 'order', 'something runs before the start', p)
        D = [k for k, f in w.done if not f]
        if not w.tasks: return w.check(g == [0, 1, 499, 9], 'empty', 'waiting for any of no tasks: %s' % g, p)
        if not D: return w.check(g == [0], 'early', 'the waiter is resumed although no task is over: %s' % g, p)
        if not w.check(g[:2] == [0, 1] and g[-1:] == [9] and len(g) > 2, 'resumed', 'a task is over and the waiter went through %s' % g, p): return
        k = g[2] - 500
        if not w.check(k in w.tasks and k in (D if w.won is None else (w.won,)), 'index', 'the waiter is told that task %d was first; over are %s%s' % (k, D, '' if w.won is None else ', and task %d was alone when it ran' % w.won), p): return
        w.check(g[3:-1] == ([1040 + k] if w.tasks[k] == 'i' else []), 'value', 'the waiter is given %s as result of task %d' % (g[3:-1], k), p)

ALL = {0: (' when_all(s, f, f)', 'ii'), 1: ('when_all(f, f)', 'ii'), 2: ('when_all(s, f, void f, f)', 'ivi'), 3: ('when_all(s, begin, end)', 'ii'), 4: ('when_all(begin, end)', 'ii'), 5: ('when_all(s, container)', 'iii'), 6: ('when_all(container)', 'ii'), 7: ('when_all(s, callable, callable)', 'ii'), 8: ('when_all(s, coroutine)', 'i'), 9: ('when_all(s)', ''), 10: ('when_all(s, empty container)', ''), 11: ('when_all(s, container of callables)', 'ii'), 12: ('when_all(s, container of void f)', 'vv'), 13: ('when_all(coroutine, coroutine)', 'ii')}

def when(c, pid, op, judge):
    deep = c.tier == 'thorough'
    base = When(c, pid); base.op = op
    for form, (name, kinds) in ALL.items():
        if op == 'any' and form == 12: continue
        for of in (base.S, base.T) if form not in (1, 4, 6, 13) else (base.S,):
            if of is base.T and not deep and form not in (0, 5): continue
            v = base.copy(); v.fn = name.strip().replace('all', op) + (' on another scheduler' if of is v.T else ''); v.what = v.fn; v.form = form; v.tasks = dict(enumerate(kinds)); v.done = (); v.hist = (); v.gone = False; v.won = None
            v.open()
            for x in v.order(deep, v.S, of, begun=not deep and (form not in (0, 3) or of is v.T)):
                if op == 'any' and x.won is None and x.gone:
                    D = [k for k, f in x.done]
                    if len(D) == 1: x.won = D[0]
                judge(x, x.p)
                if x.gone and len(x.done) == len(x.tasks): y = x.copy(); p = y.close(); y.leaks(p)
    return base
def failing(c, base, op):
    """tasks that end with an exception"""
    for form, (name, kinds) in ALL.items():
        if not kinds or op == 'any' and form == 12: continue
        for bad in range(len(kinds)):
            for first in (0, 1):
                v = base.copy(); v.fn = name.strip().replace('all', op); v.form = form; v.tasks = dict(enumerate(kinds)); v.done = (); v.gone = False; v.won = None; v.hist = ()
                v.what = '%s, task %d throws %s the others are over' % (v.fn, bad, ('before', 'after')[first]); v.open(); v.start(v.S, v.S); v.idle(0)
                for k in sorted(v.tasks, key=lambda k: (k == bad) == bool(first)):
                    v.finish(k, k == bad); p = v.idle(0)
                    if op == 'any':
                        if v.won is None and k != bad: v.won = k
                        if [d for d in v.done if not d[1]]: v.judge_any(p)
                g = [x for x in v.got(1) if x not in (50, 51)]
                if op == 'all':
                    if v.check(g == [0] or g[1:] == [207, 9], 'failed-task', 'a task failed and the waiter went through %s' % g, p):
                        v.c.check(g != [0], 'W01.failed-hang', '%s: a task ends with an exception: the waiter is never resumed' % v.what, p, key='W01.failed-hang')
                elif len(kinds) > 1: q = v.close(); v.leaks(q)
        if op == 'any':
            v = base.copy(); v.fn = name.strip().replace('all', op); v.form = form; v.tasks = dict(enumerate(kinds)); v.done = (); v.gone = False; v.hist = ()
            v.what = '%s, all tasks throw' % v.fn; v.open(); v.start(v.S, v.S); v.idle(0)
            for k in v.tasks: v.finish(k, True); p = v.idle(0)
            g = [x for x in v.got(1) if x not in (50, 51)]
            if v.check(g == [0] or g[1:] == [207, 9], 'failed-tasks', 'every task failed and the waiter went through %s' % g, p):
                v.c.check(g != [0], 'W02.failed-hang', '%s: the waiter is never resumed' % v.what, p, key='W02.failed-hang')

def threads(c, base, op, judge):
    """the waiter runs on one thread, its tasks on another one"""
    deep = c.tier == 'thorough'
    for form in (0, 3, 5, 7) if deep else (0, 3):
        name, kinds = ALL[form]
        for pre in ((), (0,), tuple(range(len(kinds)))):
            for swap in (0, 1):
                if form == 3 and not deep and (not pre or not swap): continue
                v = base.copy(); v.fn = name.strip().replace('all', op) + ', tasks on the scheduler of another thread'; v.form = form; v.tasks = dict(enumerate(kinds)); v.done = (); v.gone = False; v.won = None; v.hist = ()
                v.what = '%s, over at the start: %s' % (v.fn, list(pre)); v.open()
                for k in pre: v.finish(k)
                v.start(v.S, v.T)
                if swap: v.batch(v.S, 0)
                rest = [k for k in v.tasks if k not in pre]
                A = ('drv_sc_batch', [v.T if swap else v.S]); B = [('drv_sc_batch', [v.S if swap else v.T])] * 2
                num = 0
                sets = [('drv_wh_set', [off(v.a, 16 * k), 40 + k]) for k in rest]
                if not deep and len(pre) == 1: continue
                for b in ([B] if not sets or deep else []) + ([sets] if sets else []):
                    for q, p in both(v, A, b, two=False, reduce=True):
                        num += 1
                        q.note(p)
                        if b is sets: q.done = q.done + tuple((k, False) for k in rest)
                        p = q.idle(0)
                        if op == 'any' and len(q.done) == 1: q.won = q.done[0][0]
                        judge(q, p)
                        for k in rest:
                            if k not in [d[0] for d in q.done]: q.finish(k)
                        p = q.idle(0)
                        if op == 'any' and q.won is None and len(pre) == 1: q.won = pre[0]
                        judge(q, p); p = q.close(); q.leaks(p)
                c.check(num > 1, base.pid + '.interleavings', 'only %d interleavings' % num)

@guard
def W01(c):
    base = when(c, 'W01', 'all', When.judge_all)
    failing(c, base, 'all')
    threads(c, base, 'all', When.judge_all)
@guard
def W02(c):
    base = when(c, 'W02', 'any', When.judge_any)
    failing(c, base, 'any')
    threads(c, base, 'any', When.judge_any)
# ---------------------------------------------------------------- G01
class Gen(W):
    """generator variables a and b, one iterator per generator, tasks made of generators"""
    def __init__(w, c, pid):
        W.__init__(w, c, pid); w.what = 'setup generators'; w.made = {}
        w.ob = {h: w.obj('generator-' + h) for h in 'ab'}; w.v = {h: None for h in 'ab'}; w.g = {}; w.hist = (); w.its = [w.obj('iterator%d' % k) for k in range(3)]
    def fork(w):
        n = w.copy(); n.v = dict(w.v); n.g = {k: dict(x, log=list(x['log'])) for k, x in w.g.items()}; return n
    def live(w, who): g = w.got(who); return g.count(60) - g.count(61)
    def step(w, k, p):
        """generator k was resumed once"""
        g = w.g[k]
        if g['pos'] == 'end': return
        g['pos'] = 'end' if g['pos'] == g['n'] - 1 else g['pos'] + 1
        g['log'] += ([0] if g['pos'] == 0 or g['n'] == 0 else []) + ([8] if g['pos'] == 'end' else [10 + g['pos']])
    def verify(w, p):
        for k, g in w.g.items():
            got = [x for x in w.got(k) if x < 60 and x not in (9,)]
            w.check(got == g['log'], 'lazy', 'generator %d went through %s instead of %s (0 begin, 10+ element, 8 end)' % (k, got, g['log']), p)
            want = 0 if not g['alive'] else 1 if g['pos'] in (-1, 'end') else 2
            if g.get('task') and g['alive']: want += g.get('extra', 0)
            w.check(w.live(k) == want, 'frame', 'generator %d: %d objects of its frame are alive instead of %d' % (k, w.live(k), want), p)
    def drop(w, k):
        if k is not None and k != 'e': w.g[k]['alive'] = False
    def ops(w, deep):
        for h in 'ab':
            o = 'b' if h == 'a' else 'a'; k = w.v[h]
            if k is None:
                if len(w.g) < (3 if deep else 2):
                    for n in (0, 1, 2): yield ('make', h, n)
                if w.v['b' if h == 'a' else 'a'] is not None: yield ('move', h, o)
                yield ('none', h)
            else:
                yield ('dtor', h); yield ('massign', h, h)
                if w.v[o] is not None: yield ('massign', h, o)
                if k == 'e': yield ('begin', h)
                else:
                    g = w.g[k]
                    if g['pos'] == -1: yield ('begin', h); yield ('loop', h); yield ('go', h)
                    elif g['it']: yield ('next', h); yield ('post', h)
    def apply(w, op):
        o = op[0]; h = op[1]; k = w.v[h]; w.hist += (' '.join(map(str, op)),); w.what = 'after ' + ', '.join(w.hist)
        G = w.ob[h]
        if o == 'make':
            k = len(w.g); p = w.do('drv_gn_make', [G, k, op[2]]); w.g[k] = dict(n=op[2], pos=-1, log=[], alive=True, it=False); w.v[h] = k
        elif o == 'none': p = w.do('drv_gn_none', [G]); w.v[h] = 'e'
        elif o == 'move': p = w.do('drv_gn_move', [G, w.ob[op[2]]]); w.v[h] = w.v[op[2]]; w.v[op[2]] = 'e'
        elif o == 'massign':
            p = w.do('drv_gn_massign', [G, w.ob[op[2]]])
            if op[2] != h: w.drop(k); w.v[h] = w.v[op[2]]; w.v[op[2]] = 'e'
        elif o == 'dtor': p = w.do('drv_gn_dtor', [G]); w.drop(k); w.v[h] = None
        elif o == 'begin':
            it = w.its[k if k != 'e' else 2]; p = w.do('drv_gn_begin', [G, it])
            if k == 'e': w.check(w.bool('drv_gn_end', [G, it]) == 1, 'empty', 'an empty generator has elements', p)
            else: w.step(k, p); w.g[k]['it'] = True; w.at(h, k, True)
        elif o in ('next', 'post'):
            was = w.g[k]['pos']
            p = w.do('drv_gn_' + o, [w.its[k]])
            if was == 'end': w.g[k]['it'] = False; w.check(w.bool('drv_gn_end', [G, w.its[k]]) == 1, 'end', 'the iteration does not end', p)
            else: w.step(k, p); w.at(h, k, False)
        elif o == 'loop':
            p = w.do('drv_gn_loop', [G, k]); g = w.g[k]
            g['pos'] = 'end'; g['log'] += [0] + [10 + j for j in range(g['n'])] + [8]
            exp = [1100 + j for j in range(g['n'] + 1 if g['n'] else 0)]
            got = [x for x in w.got(k) if x >= 1000]; w.check(got == exp, 'elements', 'a loop over generator %d sees %s instead of %s' % (k, got, exp), p)
        elif o == 'go':
            p = w.do('drv_gn_go', [w.S, G]); w.v[h] = 'e'; w.g[k]['task'] = True; w.run(k)
            p = w.p
        w.verify(p); return p
    def at(w, h, k, begin):
        """the iterator is at the current element"""
        g = w.g[k]; it = w.its[k]; G = w.ob[h]
        if begin and g['pos'] == 'end': g['it'] = False; w.check(w.bool('drv_gn_end', [G, it]) == 1, 'end', 'a generator without elements has one'); return
        exp = 100 + (g['n'] if g['pos'] == 'end' else g['pos'])
        w.check(w.bool('drv_gn_end', [G, it]) == 0 and w.bool('drv_gn_more', [G, it]) == 1, 'end', 'the iteration ends before element %d' % (exp - 100))
        for f in ('get', 'arrow'):
            p = w.ask('drv_gn_' + f, [it]); w.check(p.num(p.ret) == exp, 'elements', 'element %s instead of %d' % (p.num(p.ret), exp), p)
    def run(w, *ks, busy=False):
        """generators as tasks: one step per round, then they are gone"""
        left = list(ks)
        while left:
            w.p = p = w.batch(w.S, 0)
            for k in left: w.step(k, p)
            for k in [k for k in left if w.g[k]['pos'] == 'end']:
                left.remove(k); w.g[k]['alive'] = False
            w.verify(p)
            if left: w.check(w.bool('drv_sys_empty', [w.S]) == 0, 'task', 'the scheduler forgets a generator that is not over', p)
        for j in range(2): w.p = p = w.batch(w.S, 0)
        w.verify(p); w.check(busy or w.bool('drv_sys_empty', [w.S]) == 1, 'task', 'the scheduler still has a task although the generator is over', p)
    def key(w): return tuple(sorted((h, k if k in (None, 'e') else tuple(w.g[k][x] for x in ('n', 'pos', 'it'))) for h, k in w.v.items())), len(w.g)
@guard
def G01(c):
    deep = c.tier == 'thorough'
    base = Gen(c, 'G01')
    seen = {base.key()}; level = [base]; n = 0
    for d in range(7 if deep else 5):
        nxt = []
        for w in level:
            for op in w.ops(deep):
                x = w.fork()
                try: x.apply(op)
                except Stop: continue
                n += 1
                if all(v is None or v == 'e' for v in x.v.values()): x.leaks(None)
                if x.key() not in seen: seen.add(x.key()); nxt.append(x)
        level = nxt
    c.stepcount['generator histories'] = n
    # a callable that makes a generator, as a task; alone, beside a sleeping coroutine, beside each other
    def call(w, k, n): p = w.do('drv_gn_go_call', [w.S, k, n]); w.g[k] = dict(n=n, pos=-1, log=[], alive=True, it=False, task=True, extra=1); w.verify(p)
    for n in (0, 1, 2, 3):
        w = base.fork(); w.what = 'go callable, %d elements' % n
        call(w, 0, n); w.run(0); w.leaks(w.p)
        for n2 in (0, 1, 3):
            w = base.fork(); w.what = 'go callable, %d elements, and another one, %d elements' % (n, n2)
            call(w, 0, n); call(w, 1, n2); w.run(0, 1); w.leaks(w.p)
        w = base.fork(); w.what = 'go callable, %d elements, beside a sleeping coroutine' % n
        w.e.cfg.now = 0; w.do('drv_sys_go_sleep', [w.S, 7, 50, 4, w.S, 1]); w.idle(0)
        call(w, 0, n); w.run(0, busy=True); p = w.idle(60); w.check(w.got(7) == [0, 1, 9], 'beside', 'the sleeping coroutine went through %s' % w.got(7), p); w.leaks(w.p)
PROPS = dict(T05=T05, W01=W01, W02=W02, G01=G01)
