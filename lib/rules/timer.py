"""Timers and sleeping (T01..T05)."""
from spec import *
import spec, itertools
from rules.world import *
DRIVERS = ('timer', 'scheduler', 'future')
MS = 1000000

class W(World):
    """a timer manager, timers and handles with known content"""
    DRV = 7
    def __init__(w, c, pid):
        w.c = c; w.pid = pid; w.what = 'setup'; w.now = 0
        cfg = config(drop=('librf::timer_handler::', 'timer_manager::add'), exact_maps=True, exact_sp=True, exact_fn=True); cfg.unroll = 20; cfg.recursion = 6; cfg.no_spurious = True
        cfg.ret = {k: v for k, v in cfg.ret.items() if 'timer_handler' not in k and 'timer_manager' not in k}
        cfg.acts = {}; cfg.now = 0
        cfg.preempt_calls += r'|^drv_timer_done$|^drv_timer$|weak_ptr<.*::(lock|expired)\(|shared_ptr<librf::timer_manager>::~'
        def call(e, st, ins, args, dem, name):
            k = e.norm(st, args[0]); x = e.event(st, 'timer', str(k), (k, e.norm(st, args[1])), ins)
            acts = cfg.acts.get(k)
            return models.run_chain(e, st, ins, acts) if acts else None
        def mark(kind):
            def f(e, st, ins, args, dem, name):
                e.event(st, kind, None, (e.norm(st, args[0]),), ins); return None
            return f
        def now(e, st, ins, args, dem, name):
            e.event(st, 'now', None, (), ins); return cfg.now
        cfg.ret.update({r'^drv_timer$': call, r'^drv_timer_done$': mark('timer-done'), r'^drv_cb_copy$': mark('cb+'), r'^drv_cb_gone$': mark('cb-'), r'^std::chrono::_V2::system_clock::now\(\)': now})
        w.e, w.st = c.engine(cfg)
        w.m = w.obj('manager-pointer'); w.T = {}; w.live = 0
        p = w.do('drv_tm_make', [w.m])
        w.mgr = p.n(w.e.load(p.st, w.m, 'ptr', log=False))
    def new(w, what):
        n = w.copy(); n.what = what; n.T = {k: dict(v) for k, v in w.T.items()}; w.e.cfg.acts = {}; w.e.cfg.now = 0; return n
    def fork(w):
        n = w.copy(); n.T = {k: dict(v) for k, v in w.T.items()}; return n
    def add(w, t, k, form='', h=None):
        """a timer; spec record: deadline, state P(ending) S(topped) D(one)"""
        h = h or w.obj('timer-%d' % k)
        w.T[k] = dict(tp=t, s='P', h=h, form=form)
        now = w.e.cfg.now
        a = dict(_for=t - now, _ms=(t - now) // MS, _hfor=t - now).get(form, t)
        p = w.do('drv_tm_add' + form, [w.m, a, k, h]); w.see(p); return p
    def see(w, p, canceled=None, then={}):
        """compare the callbacks of this step with the specification; what was called is done"""
        for x in p.k('timer'):
            k, c = x.a[0], p.num(x.a[1])
            t = w.T.get(k)
            if t is None: continue
            if not w.check(t['s'] in 'PS', 'once', 'timer %d is called again' % k, p, x): continue
            want = 1 if t['s'] == 'S' or canceled else 0
            w.check(c == want, 'flag', 'timer %d is told canceled=%s%s' % (k, c, ' although it was stopped' if t['s'] == 'S' else ''), p, x)
            if not want: w.check(t['tp'] <= w.e.cfg.now, 'early', 'timer %d (deadline %d) is called at %d' % (k, t['tp'], w.e.cfg.now), p, x)
            w.check(not x.locks, 'unlocked', 'timer %d is called while a lock is held' % k, p, x)
            t['s'] = 'D'
            if k in then: then[k](w)
        for x in p.k('cb+', 'cb-'):
            k = x.a[0]; key = ('copies', k); w.st.ex[key] = w.st.ex.get(key, 0) + (1 if x.k == 'cb+' else -1)
        for k, t in w.T.items():
            n = w.st.ex.get(('copies', k), 0)
            if t['s'] == 'D': w.check(n == 0, 'callback-released', '%d copies of the callback of timer %d are left after it was called' % (n, k), p)
            else: w.check(n >= 1, 'callback-kept', 'the callback of timer %d is gone before it was called' % k, p)
    def order(w, p):
        """deadlines of the timers that were called because they were due are in order"""
        d = [(w.T[x.a[0]]['tp'], x) for x in p.k('timer') if p.num(x.a[1]) == 0 and x.a[0] in w.T]
        for (a, x), (b, y) in zip(d, d[1:]): w.check(a <= b, 'order', 'a timer with deadline %d is called after one with deadline %d' % (b, a), p, y)
    def due(w, now): return [k for k, t in w.T.items() if t['s'] in 'PS' and t['tp'] <= now]
    def update(w, now):
        w.e.cfg.now = now; due = w.due(now)
        p = w.do('drv_tm_update', [w.m]); w.see(p); w.order(p)
        for k in due: w.check(w.T[k]['s'] == 'D', 'due', 'timer %d (deadline %d) is not called by an update at %d' % (k, w.T[k]['tp'], now), p)
        return p
    def all_cancelled(w, fn):
        """clear / destruction of the manager"""
        live = [k for k, t in w.T.items() if t['s'] in 'PS']
        p = w.do(fn, [w.m]); w.see(p, canceled=True)
        for k in live: w.check(w.T[k]['s'] == 'D', 'cancelled', 'timer %d is not told that it is cancelled' % k, p)
        return p
    def stop(w, k, want=None):
        t = w.T[k]; h = t['form'] in ('_h', '_hfor')
        p = w.do('drv_tm_h_stop' if h else 'drv_tm_stop', [t['h']] if h else [w.m, t['h']])
        exp = int(t['s'] == 'P' and not t.get('nohandle')) if want is None else want
        if t['s'] == 'P' and exp: t['s'] = 'S'
        w.see(p)
        w.check(p.num(p.ret) == exp, 'stop', 'stopping timer %d reports %s instead of %d' % (k, p.num(p.ret), exp), p)
        w.check(not p.k('timer'), 'stop-quiet', 'stopping a timer calls a callback', p)
        return p
    def empty(w):
        p = w.ask('drv_tm_empty', [w.m]); r = p.num(p.ret)
        s = [t['s'] for t in w.T.values()]
        if 'P' in s: w.check(r == 0, 'empty', 'the manager says that it is empty while a timer is pending', p)
        elif 'S' not in s: w.check(r == 1, 'empty', 'the manager says that it is not empty', p)
        return r
    def targets(w, p, over):
        """timer objects are released: made minus released"""
        n = w.st.ex.get('made', 0) + len([x for x in p.k('new') if 'timer_target' in (x.name or '')]); w.st.ex['made'] = n
        d = w.st.ex.get('gone', 0) + len([x for x in p.k('delete') if x.name and 'timer_target' in x.name]); w.st.ex['gone'] = d
        return n - d

FORMS = ('', '_for', '_ms', '_fn', '_h', '_hfor')

def explore(w0, depth, limit, forms, deadlines, times):
    """every sequence of operations, breadth first, with one representative for each situation"""
    def key(w): return (tuple(sorted((t['tp'], t['s'], t.get('seen', 0), t['form'], t.get('nohandle', 0)) for t in w.T.values() if t['s'] != 'D')), sum(t['s'] == 'D' for t in w.T.values()), w.now)
    w = w0.new(''); w.hist = (); w.now = 0
    todo = [w]; seen = {key(w)}; n = 0
    while todo and n < limit:
        w = todo.pop(0); n += 1
        ops = []
        if len(w.T) < 3:
            ops += [('add', t * MS, forms[(len(w.T) + i) % len(forms)]) for i, t in enumerate(deadlines)]
        ops += [('stop', k) for k, t in w.T.items()]
        ops += [('update', x * MS) for x in times if x * MS >= w.now] + [('clear',), ('drop',)]
        for op in ops:
            v = w.fork(); v.hist = w.hist + (' '.join(str(x) for x in op),); v.what = 'after ' + ', '.join(v.hist); w.e.cfg.now = w.now
            if op[0] == 'add': v.add(op[1], len(v.T), op[2])
            elif op[0] == 'stop':
                v.stop(op[1])
                if v.T[op[1]]['form'] in ('_h', '_hfor'): v.T[op[1]]['nohandle'] = 1
            elif op[0] == 'update':
                v.now = op[1]; v.update(op[1])
                for t in v.T.values(): t['seen'] = 1
            elif op[0] == 'clear': v.all_cancelled('drv_tm_clear')
            elif op[0] == 'drop':
                v.all_cancelled('drv_tm_dtor'); continue
            v.empty()
            if v.T:
                u = v.fork(); u.what += ', update 40'; u.update(40 * MS); u.empty()
                u = v.fork(); u.what += ', drop'; u.all_cancelled('drv_tm_dtor'); w.e.cfg.now = v.now
            if len(v.hist) < depth and key(v) not in seen: seen.add(key(v)); todo.append(v)
    return n

@guard
def T01(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'T01')
    n = explore(w0, 8 if deep else 6, 1500 if deep else 220, FORMS, (10, 20), (5, 10, 20))
    c.check(n >= 200, 'T01.states', 'only %d situations could be reached' % n)

# ---------------------------------------------------------------- T02
@guard
def T02(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'T02')
    n = explore(w0, 7 if deep else 5, 700 if deep else 90, ('', '_h'), (10,), (5, 10))
    c.check(n >= 50, 'T02.states', 'only %d situations could be reached' % n)
    # stopping from inside a callback, of the same update or not; the one that runs itself
    for tps in itertools.product((10, 20), repeat=3):
        for seen in (0, 1):
            for i, j in itertools.product(range(3), repeat=2):
                w = w0.new('deadlines %s, %s; timer %d stops timer %d' % (tps, 'known to the manager' if seen else 'just added', i, j))
                for k, t in enumerate(tps): w.add(t, k)
                if seen: w.update(5)
                w.e.cfg.acts = {i: [('drv_tm_stop', [w.m, w.T[j]['h']])]}
                def st(v, j=j):
                    if v.T[j]['s'] == 'P': v.T[j]['s'] = 'S'
                for now in (10, 20):
                    w.e.cfg.now = now; due = w.due(now); p = w.do('drv_tm_update', [w.m]); w.see(p, then={i: st}); w.order(p)
                    for k in due: w.check(w.T[k]['s'] == 'D', 'due', 'timer %d is not called' % k, p)
                w.e.cfg.acts = {}; w.stop(i); w.stop(j); w.update(40)
    # another thread stops it while the owner updates, clears, destroys; two threads stop it
    for form in ('', '_h'):
        for seen in (0, 1):
            for n in (1, 2) if form == '' else (1,):
                for what in ('update', 'early', 'clear', 'stop') + (('dtor',) if form else ()):
                    w = w0.new('%d timers, %s; one thread stops timer 0 while another one %s' % (n, 'known to the manager' if seen else 'just added', dict(update='updates', early='updates too early', clear='clears', stop='stops it, too', dtor='destroys the manager')[what]))
                    for k in range(n): w.add(10, k, form)
                    if seen: w.update(5)
                    h = w.T[0]['h']
                    if form and what == 'stop': h2 = w.obj('copy'); w.do('drv_tm_h_copy', [h2, h])
                    else: h2 = h
                    w.e.cfg.now = 7 if what == 'early' else 10
                    S = ('drv_tm_h_stop', [h]) if form else ('drv_tm_stop', [w.m, h])
                    O = dict(update=('drv_tm_update', [w.m]), early=('drv_tm_update', [w.m]), clear=('drv_tm_clear', [w.m]), dtor=('drv_tm_dtor', [w.m]), stop=('drv_tm_h_stop', [h2]) if form else ('drv_tm_stop', [w.m, h2]))[what]
                    for first in (0, 1):
                        num = 0
                        for q, p in both(w, *((S, O) if first else (O, S)), two=deep or n < 2):
                            num += 1
                            q.T = {k: dict(v) for k, v in w.T.items()}; q.what = w.what
                            r, o = p.num(p.ret), p.num(p.st.ex[('ret', 1)])
                            mine = r if first else o
                            if what == 'stop': q.check(sorted((r, o)) == [0, 1], 'race-stop', 'the two attempts report %s' % [r, o], p)
                            cl = [p.num(x.a[1]) for x in p.k('timer') if x.a[0] == 0]
                            if what in ('update', 'clear', 'dtor') and len(cl) != 1: q.check(False, 'race-once', 'the callback is called %d times' % len(cl), p)
                            if cl: q.check(len(cl) == 1 and cl[0] == (1 if what in ('clear', 'dtor') else mine), 'race-flag', 'stopping reports %s and the callback is told canceled=%s' % (mine, cl), p)
                            elif what == 'early': q.check(mine == 1, 'race-stop', 'stopping a pending timer reports false', p)
                            for x in p.k('timer'):
                                if x.a[0] in q.T: q.check(q.T[x.a[0]]['s'] != 'D', 'race-once', 'a callback is called twice', p, x); q.T[x.a[0]]['s'] = 'D'; q.check(not x.locks, 'unlocked', 'a callback is called while a lock is held', p, x)
                            if what != 'dtor':
                                if q.T[0]['s'] == 'P': q.T[0]['s'] = 'S'
                                for x in p.k('cb+', 'cb-'): key = ('copies', x.a[0]); q.st.ex[key] = q.st.ex.get(key, 0) + (1 if x.k == 'cb+' else -1)
                                q.update(30)
                                for k, t in q.T.items(): q.check(t['s'] == 'D', 'race-due', 'timer %d is lost' % k, p)
                        c.check(num > 0, 'T02.interleavings', 'only %d interleavings (%s)' % (num, w.what))

# ---------------------------------------------------------------- T03
def lockset(w, p, sets):
    """locks held at every access to a container"""
    for x in p.k('cont'):
        if x.name.split('.')[1] in ('ctor', 'dtor'): continue
        L = {p.n(l[0]) for l in x.locks}
        for a in [x.a[0]] + ([x.a[1]] if x.name.split('.')[1] in ('move', 'assign', 'swap') and len(x.a) > 1 else []):
            a = p.n(a)
            if not P(a) or w.e.rinfo[a[1]].kind == 'stack': continue
            sets.setdefault(a, []).append((L, x, p, w.what))

@guard
def T03(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'T03'); sets = {}; shared = set()
    # which containers does adding touch
    w = w0.new('adding a timer'); p = w.add(10, 0); lockset(w, p, sets); shared |= set(sets)
    c.check(bool(shared), 'T03.containers', 'adding a timer does not store it anywhere')
    # callbacks that use the manager
    deadl = [(10, 10), (10, 20), (10, 10, 20)] + [(20, 20, 20), (20, 10, 10), (10, 20, 20)] * deep
    for tps in deadl:
        for i in range(len(tps)):
            for seen in (0, 1):
                for act in ('past', 'future', 'both', 'clear', 'update', 'empty'):
                    w = w0.new('deadlines %s, %s; timer %d %s' % (tps, 'known to the manager' if seen else 'just added', i, dict(past='adds one that is due', future='adds one that is not due', both='adds two', clear='clears the manager', update='updates', empty='asks whether the manager is empty')[act]))
                    for k, t in enumerate(tps): w.add(t, k)
                    if seen: w.update(5)
                    adds = {'past': [(8, 7)], 'future': [(25, 7)], 'both': [(8, 7), (25, 8)]}.get(act, [])
                    w.e.cfg.acts = {i: [('drv_tm_add', [w.m, t, k, w.obj('new-%d' % k)]) for t, k in adds] or [('drv_tm_' + act, [w.m])]}
                    def th(v):
                        for t, k in adds: v.T[k] = dict(tp=t, s='P', h=None, form='')
                        if act == 'clear':
                            for t in v.T.values():
                                if t['s'] == 'P': t['s'] = 'S'
                    # no timer may be called before its deadline; the ones that clear() ends are told so
                    for now in (10, 20, 30):
                        w.e.cfg.now = now; due = w.due(now); first = w.T[i]['s'] != 'D'
                        p = w.do('drv_tm_update', [w.m]); lockset(w, p, sets)
                        w.see(p, then={i: th} if first else {})
                        for k in due: w.check(w.T[k]['s'] == 'D', 're-entrant', 'timer %d (deadline %d) is not called by an update at %d' % (k, w.T[k]['tp'], now), p)
                        if act == 'clear' and w.T[i]['s'] == 'D': w.check(all(t['s'] == 'D' for t in w.T.values()), 're-entrant', 'a timer is not told that it is cancelled', p)
                    w.check(all(t['s'] == 'D' for t in w.T.values()), 're-entrant', 'a timer is lost', p)
                    w.e.cfg.acts = {}; w.empty()
    # a cleared timer adds another one
    for seen in (0, 1):
        w = w0.new('a cancelled timer adds another one'); w.add(10, 0); w.add(10, 1)
        if seen: w.update(5)
        w.e.cfg.acts = {0: [('drv_tm_add', [w.m, 12, 7, w.obj('new')])]}
        p = w.do('drv_tm_clear', [w.m]); w.see(p, canceled=True, then={0: lambda v: v.T.update({7: dict(tp=12, s='P', h=None, form='')})})
        w.check(all(w.T[k]['s'] == 'D' for k in (0, 1)), 're-entrant', 'a timer is not told that it is cancelled', p)
        w.e.cfg.acts = {}; w.update(20); w.check(7 in w.T and w.T[7]['s'] == 'D', 're-entrant', 'a timer is lost')
    # two threads
    for what in ('update', 'clear', 'add', 'empty', 'addstop'):
        for n in (0, 1, 2) if deep else (0, 1):
            for seen in (0, 1) if n else (0,):
                w = w0.new('%d timers, %s; one thread adds a timer while another one %s' % (n, 'known to the manager' if seen else 'just added', dict(update='updates', clear='clears', add='adds another one', empty='asks whether the manager is empty', addstop='adds and stops one')[what]))
                for k in range(n): w.add(10, k)
                if seen: w.update(5)
                w.e.cfg.now = 10; h7, h8 = w.obj('seven'), w.obj('eight')
                A = ('drv_tm_add', [w.m, 10, 7, h7])
                O = [('drv_tm_add', [w.m, 10, 8, h8])] + [('drv_tm_stop', [w.m, h8])] * (what == 'addstop') if what in ('add', 'addstop') else ('drv_tm_' + what, [w.m])
                orders = [(A, O)] + ([(O, A)] if isinstance(O, tuple) else [(O[0], A)] if what == 'add' else [])
                for a, b in orders:
                    num = 0
                    for q, p in both(w, a, b, two=deep or n < 1 or seen):
                        num += 1; q.T = {k: dict(v) for k, v in w.T.items()}; q.T[7] = dict(tp=10, s='P', h=h7, form='')
                        if what in ('add', 'addstop'): q.T[8] = dict(tp=10, s='S' if what == 'addstop' else 'P', h=h8, form='')
                        lockset(q, p, sets)
                        q.see(p, canceled=what == 'clear')
                        if what in ('update', 'clear'):
                            for k in range(n): q.check(q.T[k]['s'] == 'D', 'race-due', 'timer %d is not called' % k, p)
                        q.update(30)
                        for k, t in q.T.items(): q.check(t['s'] == 'D', 'race-lost', 'timer %d is lost' % k, p)
                        q.empty()
                    c.check(num > 1, 'T03.interleavings', 'only %d interleavings (%s)' % (num, w.what))
    for a, L in sets.items():
        if a not in shared: continue
        com = set.intersection(*[l for l, x, p, t in L])
        for l, x, p, t in L:
            if not c.check(bool(com) or bool(l), 'T03.guarded', '%s: the list of added timers is used (%s) without a lock' % (t, x.name), p, x): break
        c.check(bool(com), 'T03.guarded', 'no lock protects every use of the list of added timers', L[0][2], L[0][1])

# ---------------------------------------------------------------- T04
@guard
def T04(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'T04')
    H = ('a', 'b')
    def fresh():
        w = w0.new(''); w.hist = (); w.v = {h: None for h in H}; w.ob = {h: w.obj('handle-' + h) for h in H}; w.alive = True; return w
    def fork(w):
        n = w.fork(); n.v = dict(w.v); return n
    def key(w):
        ren = {}
        f = lambda x: x if x in (None, 'e') else ren.setdefault(x, len(ren))
        r = tuple(f(w.v[h]) for h in H)
        return r, tuple(sorted((f(k), t['s'], t.get('seen', 0)) for k, t in w.T.items() if k in ren or t['s'] == 'P')), w.alive
    def ops(w):
        for h in H:
            o = H[1 - H.index(h)]
            if w.v[h] is None:
                yield ('none', h)
                if w.alive and len(w.T) < 2: yield ('add_h', h)
                if w.v[o] is not None: yield ('copy', h, o); yield ('move', h, o)
            else:
                yield ('dtor', h); yield ('reset', h); yield ('stop', h); yield ('massign', h, h); yield ('assign', h, h)
                if w.v[o] is not None: yield ('assign', h, o); yield ('massign', h, o)
        if w.alive: yield ('update',); yield ('early',); yield ('drop',); yield ('clear',)
    def apply(w, op):
        o = op[0]; h = op[1] if len(op) > 1 else None; y = op[2] if len(op) > 2 else None
        w.hist += (' '.join(op),); w.what = 'after ' + ', '.join(w.hist); w.e.cfg.now = 0
        if o == 'add_h':
            k = len(w.T); p = w.add(10, k, '_h', w.ob[h]); w.v[h] = k
        elif o == 'update': p = w.update(10)
        elif o == 'early':
            p = w.update(5)
            for t in w.T.values(): t['seen'] = 1
        elif o == 'clear': p = w.all_cancelled('drv_tm_clear')
        elif o == 'drop':
            p = w.all_cancelled('drv_tm_dtor'); w.alive = False
            d = [x for x in p.k('delete') if p.n(x.a[0]) == w.mgr]
            w.check(len(d) == 1, 'weak', 'the manager is not destroyed although only timer handles are left', p)
        else:
            p = w.do('drv_tm_h_' + o, [w.ob[h]] + ([w.ob[y]] if y else []))
            if o == 'none' or o == 'reset': w.v[h] = 'e'
            elif o in ('copy', 'assign'): w.v[h] = w.v[y]
            elif o in ('move', 'massign'):
                if h != y: w.v[h] = w.v[y]; w.v[y] = 'e'
            elif o == 'dtor': w.v[h] = None
            elif o == 'stop':
                t = w.T.get(w.v[h]); exp = int(t is not None and t['s'] == 'P' and w.alive)
                w.check(p.num(p.ret) == exp, 'stop', 'stop() reports %s' % p.num(p.ret), p)
                if exp: t['s'] = 'S'
                w.v[h] = 'e'
            w.see(p)
            w.check(not p.k('timer'), 'quiet', 'a callback is called', p)
        left = w.targets(p, False)
        pend = sum(t['s'] in 'P' for t in w.T.values()); stp = sum(t['s'] == 'S' for t in w.T.values())
        if not w.alive: pend = stp = 0
        w.check(pend <= left <= pend + stp, 'released', '%d timer objects exist, %d timers are pending' % (left, pend), p)
        for x in H:
            if w.v[x] is None: continue
            t = w.T.get(w.v[x])
            want = 1 if t is None or t['s'] == 'D' or not w.alive else 0 if t['s'] == 'P' else None
            if want is not None: w.check(w.bool('drv_tm_h_expired', [w.ob[x]]) == want, 'expired', 'expired() of handle %s is not %d' % (x, want), p)
            exp = int(t is not None and t['s'] == 'P' and w.alive); q = w.ask('drv_tm_h_stop', [w.ob[x]])
            w.check(q.num(q.ret) == exp and not q.k('timer'), 'stop', 'stop() through handle %s reports %s' % (x, q.num(q.ret)), q)
    todo = [fresh()]; seen = set(); n = 0; lim = 1500 if deep else 260; depth = 8 if deep else 6
    while todo and n < lim:
        w = todo.pop(0); n += 1
        for op in list(ops(w)):
            v = fork(w); apply(v, op)
            if len(v.hist) < depth and key(v) not in seen: seen.add(key(v)); todo.append(v)
    c.check(n >= 120, 'T04.states', 'only %d situations could be reached' % n)
    # handle against the owner
    for what in ('update', 'dtor', 'clear'):
        for seen in (0, 1):
            w = w0.new('a handle is stopped while another thread %s' % dict(update='updates', dtor='drops the manager', clear='clears the manager')[what]); w.add(10, 0, '_h')
            if seen: w.update(5)
            w.e.cfg.now = 10; S = ('drv_tm_h_stop', [w.T[0]['h']]); O = ('drv_tm_' + what, [w.m])
            for a, b in ((S, O), (O, S)):
                num = 0
                for q, p in both(w, a, b):
                    num += 1; cl = p.k('timer'); q.check(len(cl) == 1, 'race-once', 'the callback is called %d times' % len(cl), p)
                    if what == 'dtor':
                        d = [x for x in p.k('delete') if p.n(x.a[0]) == w.mgr]; q.check(len(d) == 1, 'race-manager', 'the manager is destroyed %d times' % len(d), p)
                    else:
                        p = q.do('drv_tm_dtor', [w.m]); q.check(not p.k('timer'), 'race-once', 'the callback is called again', p)
                    q.check(q.bool('drv_tm_h_expired', [w.T[0]['h']]) == 1, 'race-expired', 'the handle does not know that the timer is over', p)
                c.check(num > 3, 'T04.interleavings', 'only %d interleavings' % num)

PROPS = dict(T01=T01, T02=T02, T03=T03, T04=T04)
