"""Event properties (E01..E06)."""
from spec import *

EVT = 'librf::detail::event_v2_impl'

def roles(c):
    r = {}
    r['cnt'] = c.field(EVT, r'^std::atomic<(long|int|short|long long)>$', own=True)[0]
    r['lock'] = c.field(EVT, r'^librf::spinlock$|^std::(recursive_)?mutex$', own=True)[0]
    r['q'] = c.field(EVT, r'intrusive_link_queue')[0]
    return r

def fld(p, o):
    return off(p, o)

def evt_init(g, r, indirect=False, slot=None):
    """remember the event object, its counter's initial value and the lock"""
    def init(e, st, args):
        p = args[0]
        if indirect:
            p = e.load(st, off(args[0], slot or 0), 'ptr', log=False)
            st.facts[('N', p[1])] = 1
        c = e.m.classes()[EVT]
        e.annot(p, c)
        g['evt'] = p; g['cnt'] = fld(p, r['cnt']); g['lock'] = fld(p, r['lock']); g['q'] = fld(p, r['q'])
        g['c0'] = e.load(st, g['cnt'], 'i64', log=False)
        g['args'] = args
    return init

def delta(p, g):
    """net change of the counter on this path: int or None"""
    v = p.cell(g['cnt'])
    if v is None: return 0
    d = p.e.add(v, g['c0'], 64, -1)
    if isinstance(d, int):
        return d - (1 << 64) if d >> 63 else d
    return None

def one_hold(c, rule, p, g, evs, what):
    L = g['lock']
    nl = [x for x in p.k('lock', 'trylock', 'lockall') if p.n(x.a[0]) == p.n(L)]
    bad = [x for x in evs if not p.holds(x, L)]
    if bad:
        return c.fail(rule, '%s outside the event lock' % what, p, bad[0])
    if evs and len(nl) != 1:
        return c.fail(rule, '%s: the event lock is released and re-acquired in between' % what, p, nl[-1] if nl else None)
    if p.st.locks:
        return c.fail(rule, 'event lock still held on return', p)
    c.ok(rule)

def notify_seq(c, rule, p, g):
    """pop/notify discipline: every popped waiter is notified exactly once with this event before the next pop"""
    cur = None; okk = True
    for x in p.ev:
        if x.k == 'q.pop' and p.n(x.a[0]) == p.n(g['q']):
            if cur is not None:
                c.fail(rule, 'a waiter is taken from the queue and never notified', p, cur); okk = False
            cur = x if x.ret != 0 else None
        elif x.k == 'notify':
            if cur is None or p.n(x.a[0]) != p.n(cur.ret):
                c.fail(rule, 'on_notify is called for something that was not just taken from the wait queue', p, x); okk = False
            elif len(x.a) < 2 or p.eq(x.a[1], g['evt']) is not True:
                c.fail(rule, 'the waiter is notified with another event than the signalled one', p, x); okk = False
            cur = None
        elif x.k in ('q.push_back', 'q.push_front') and p.n(x.a[0]) == p.n(g['q']):
            if cur is not None and p.n(x.a[1]) == p.n(cur.ret):
                c.fail(rule, 'the popped waiter is put back without notifying it', p, x); okk = False
    if cur is not None:
        c.fail(rule, 'a waiter is taken from the queue and never notified', p, cur); okk = False
    if okk: c.ok(rule)
    return okk

def E01(c):
    r = roles(c)
    for entry, ind in (('drv_event_signal', False), ('drv_eventt_signal', True)):
        g = {}
        e, ps = c.run(entry, evt_init(g, r, ind), need=2)
        seen = set()
        for p in ps:
            if p.status != 'ret':
                c.fail('E01.terminates', 'signal() ends with %s' % p.status, p); continue
            nts = p.k('notify'); pops = [x for x in p.k('q.pop')]
            one_hold(c, 'E01.lock', p, g, pops + nts + p.writes(g['cnt']), 'signal()')
            notify_seq(c, 'E01.pop-notify', p, g)
            won = [x for x in nts if x.ret]
            d = delta(p, g)
            if won:
                seen.add('won')
                c.check(len(won) == 1 and won[-1].n == nts[-1].n and not [x for x in pops if x.n > won[-1].n], 'E01.single', 'signal() goes on after a waiter accepted the notification', p, nts[-1])
                c.check(d == 0, 'E01.count', 'signal() woke a waiter and also changed the signal count (delta %s)' % d, p, (p.writes(g['cnt']) or [None])[-1])
            else:
                seen.add('none')
                c.check(bool(pops) and pops[-1].ret == 0, 'E01.drain', 'signal() stops although waiters may be left and none was woken', p)
                c.check(d == 1, 'E01.count', 'no waiter was woken and the signal count does not grow by exactly one (delta %s)' % d, p, (p.writes(g['cnt']) or [None])[-1])
        c.check(seen == {'won', 'none'}, 'E01.shape', 'signal() can%s wake a waiter / can%s store the signal' % ('' if 'won' in seen else 'not', '' if 'none' in seen else 'not'))
    # reset and construction
    for entry, ind in (('drv_event_reset', False), ('drv_eventt_reset', True)):
        g = {}
        e, ps = c.run(entry, evt_init(g, r, ind))
        for p in ps:
            c.check(p.cell(g['cnt']) == 0, 'E01.reset', 'reset() leaves a signal behind', p)
    g = {}
    e, ps = c.run('drv_event_ctor', lambda e, st, a: g.update(a=a))
    for p in ps:
        init = p.cell(off(g['a'][0], r['cnt']))
        b = p.truth(('cmp', 'ne', 8, g['a'][1], 0)) if isinstance(g['a'][1], tuple) and g['a'][1][0] != 'cmp' else p.truth(g['a'][1])
        if isinstance(init, int):
            c.check(b is not None and init == int(b), 'E01.initial', 'an event constructed with initially=%s starts with count %s' % (b, init), p)
        else:
            c.check(init is not None and p.n(init) == p.n(g['a'][1]) or (isinstance(init, tuple) and init[0] in ('o', 'cmp')), 'E01.initial', 'initial signal count is not derived from the constructor argument', p)
    e, ps = c.run('drv_event_is_signaled', evt_init(g, r))
    for p in ps:
        lv = [x.ret for x in p.accesses(g['cnt'])]
        for s, t in e.branch(p.st.fork(), p.ret) if isinstance(p.ret, tuple) else [(p.st, bool(p.ret))]:
            v = lv[-1] if lv else g['c0']
            pos = e.known_cmp(s, 'sgt', v, 0, 64)
            c.check(pos == t, 'E01.is_signaled', 'is_signaled() does not report count > 0', p)

def E02(c):
    r = roles(c)
    for entry, ind in (('drv_event_signal_all', False), ('drv_eventt_signal_all', True)):
        g = {}
        e, ps = c.run(entry, evt_init(g, r, ind), need=2)
        n2 = False
        for p in ps:
            if p.status != 'ret':
                c.fail('E02.terminates', 'signal_all() ends with %s' % p.status, p); continue
            nts = p.k('notify'); pops = p.k('q.pop')
            one_hold(c, 'E02.lock', p, g, pops + nts, 'signal_all()')
            notify_seq(c, 'E02.pop-notify', p, g)
            c.check(bool(pops) and pops[-1].ret == 0, 'E02.drain', 'signal_all() returns with waiters left in the queue', p, pops[-1] if pops else None)
            c.check(delta(p, g) == 0, 'E02.count', 'signal_all() changes the stored signal count', p, (p.writes(g['cnt']) or [None])[-1])
            n2 = n2 or len(nts) >= 2
        c.check(n2, 'E02.all', 'signal_all() never notifies a second waiter')

SEV = 'librf::detail::state_event_t'
STB = 'librf::state_base_t'

def suspend_common(c, pid, entry, tmo):
    r = roles(c)
    AW = 'librf::event_t::awaiter'
    aev = c.field(AW, r'event_v2_impl \*$')[0]
    co = c.field(STB, r'coroutine_handle<void>')[0]
    so = c.field(STB, r'scheduler_t \*$')[0]
    vo = c.field(SEV, r'atomic<librf::detail::event_v2_impl \*\*>|atomic<.*event_v2_impl')[0]
    g = {}
    def init(e, st, args):
        evt_init(g, r, True, aev)(e, st, args)
        g['slot'] = off(args[0], aev); g['h'] = args[1]
        sl = c.field(AW, r'counted_ptr<librf::detail::state_event_t>')[0]
        g['sslot'] = off(args[0], sl)
        e.store(st, g['sslot'], 0, 'ptr', log=False)
        if tmo:
            g['tp'] = e.load(st, off(args[0], c.field('librf::event_t::timeout_awaitor_impl<librf::event_t::awaiter>', r'time_point|long', r'tp|time|dead', own=True)[0]), 'i64', log=False)
    e, ps = c.run(entry, init, need=2)
    seen = set()
    for p in ps:
        if p.status != 'ret':
            c.fail(pid + '.terminates', 'await_suspend ends with %s' % p.status, p); continue
        d = delta(p, g)
        pushes = [x for x in p.k('q.push_back', 'q.push_front') if p.n(x.a[0]) == p.n(g['q'])]
        for t in p.rets():
            seen.add(t)
            if not t:
                c.check(d == -1 and not pushes, pid + '.consume', 'await_suspend resumes at once but consumed %s signal(s) and registered %d waiter(s)' % (-d if d is not None else '?', len(pushes)), p)
                pos = e.known_cmp(p.st, 'sgt', g['c0'], 0, 64)
                c.check(pos is True, pid + '.consume-positive', 'a signal is consumed although none may be stored', p)
                c.check(not p.k('timer.add'), pid + '.no-timer', 'timer armed although the wait is already over', p)
            else:
                c.check(d == 0, pid + '.suspend-keeps-count', 'the coroutine suspends but the signal count changed by %s' % d, p, (p.writes(g['cnt']) or [None])[-1])
                if not c.check(len(pushes) == 1, pid + '.register', 'the coroutine suspends with %d registrations in the wait queue' % len(pushes), p):
                    continue
                x = pushes[0]
                c.check(x.k == 'q.push_back', pid + '.fifo', 'the waiter is not appended to the wait queue', p, x)
                npos = e.known_cmp(p.st, 'sgt', g['c0'], 0, 64)
                c.check(npos is False, pid + '.no-missed-signal', 'the coroutine suspends although a signal may be stored', p, x)
                s = p.n(x.a[1])
                if not (P(s) and e.rinfo.get(s[1]) and e.rinfo[s[1]].kind == 'heap'):
                    c.fail(pid + '.waiter', 'what is registered is not a fresh waiter', p, x); continue
                c.check(p.eq(p.cell(off(s, co)) or 0, g['h']) is True, pid + '.handle', 'the registered waiter does not hold the awaiting coroutine', p, x)
                gs = p.k('get_scheduler')
                c.check(bool(gs) and p.eq(p.cell(off(s, so)) or 0, gs[-1].ret) is True, pid + '.scheduler', 'the registered waiter does not remember the scheduler of the waiting coroutine', p, x)
                c.check(p.eq(p.cell(off(s, vo)) or 0, g['slot']) is True, pid + '.value', 'the waiter does not report into the awaiter', p, x)
                c.check(p.eq(p.cell(g['sslot']) or 0, s) is True, pid + '.owned', 'the awaiter does not keep the waiter it registered', p, x)
                # filled in before it is visible: writes to the waiter's handle precede the end of the lock hold
                last = [y for y in p.ev if y.k == 'store' and p.n(y.a[0])[0:2] == s[0:2] and y.n > x.n and not p.holds(y, g['lock'])]
                c.check(not last, pid + '.published', 'the waiter is modified after it became visible to signalling threads', p, last[0] if last else x)
                ta = p.k('timer.add')
                if tmo:
                    vis = [y for y in p.k('unlock') if y.n > x.n and p.n(y.a[0]) == p.n(g['lock'])]
                    c.check(len(ta) == 1 and bool(vis) and ta[0].n < vis[0].n, pid + '.timer', 'timed wait: %d timers armed before the waiter becomes visible' % len(ta), p, x)
                    if ta:
                        c.check(p.eq(ta[0].a[1], g['tp']) is True, pid + '.deadline', 'the timer is armed for another point in time than the requested deadline', p, ta[0])
                        c.check(p.eq(p.cell(ta[0].a[2]) or 0, s) is True, pid + '.timer-target', 'the timer callback does not own the registered waiter', p, ta[0])
                else:
                    c.check(not ta, pid + '.timer', 'untimed wait arms a timer', p, x)
            one_hold(c, pid + '.atomic', p, g, [x for x in p.accesses(g['cnt'])] + pushes, 'check-and-register')
    c.check(seen == {True, False}, pid + '.shape', 'await_suspend lost one of its outcomes: %s' % seen)
    return g

def E03(c):
    r = roles(c)
    aev = c.field('librf::event_t::awaiter', r'event_v2_impl \*$')[0]
    g = {}
    e, ps = c.run('drv_event_ready', evt_init(g, r, True, aev), need=2)
    seen = set()
    for p in ps:
        d = delta(p, g)
        for t in p.rets():
            seen.add(t)
            pos = e.known_cmp(p.st, 'sgt', g['c0'], 0, 64)
            c.check(d == (-1 if t else 0), 'E03.ready-count', 'await_ready returns %s and changes the count by %s' % (t, d), p, (p.writes(g['cnt']) or [None])[-1])
            c.check(pos is t, 'E03.ready-truth', 'await_ready returns %s although count>0 is %s' % (t, pos), p)
            one_hold(c, 'E03.ready-lock', p, g, p.accesses(g['cnt']), 'await_ready')
    c.check(seen == {True, False}, 'E03.ready-shape', 'await_ready lost an outcome')
    suspend_common(c, 'E03', 'drv_event_suspend', False)
    suspend_common(c, 'E03', 'drv_event_suspend_to', True)
    # what the co_await returns
    g = {}
    def init(e, st, args):
        g['v'] = e.load(st, off(args[0], aev), 'ptr', log=False)
    e, ps = c.run('drv_event_resume', init)
    for p in ps:
        for s, t in (e.branch(p.st.fork(), p.ret) if isinstance(p.ret, tuple) else [(p.st, bool(p.ret))]):
            nn = e.ptr_eq(s, g['v'], 0)
            c.check(nn is (not t), 'E03.result', 'await_resume reports %s when the waiter was %s' % (t, 'not notified' if nn else 'notified'), p)

def wins(p, addr):
    """single atomic transitions of *addr from non-null to null that succeeded / failed on this path"""
    w = []; l = []
    for x in p.ev:
        if x.k == 'cas' and p.n(x.a[0]) == p.n(addr):
            (w if x.ret == 1 else l).append(x)
        elif x.k == 'rmw' and x.name == 'xchg' and p.n(x.a[0]) == p.n(addr):
            z = p.e.ptr_eq(p.st, x.ret, 0)
            (l if z is True else w).append(x)
    return w, l

def E04(c):
    vo = c.field(SEV, r'atomic<.*event_v2_impl')[0]
    co = c.field(STB, r'coroutine_handle<void>')[0]
    for entry, kind in (('drv_event_notify', 'notify'), ('drv_event_timeout', 'timeout'), ('drv_event_cancel', 'cancel')):
        g = {}
        def init(e, st, args):
            g['s'] = args[0]; g['a'] = args; g['slot'] = off(args[0], vo)
            g['co0'] = e.load(st, off(args[0], co), 'ptr', log=False)
            g['out0'] = None
        cfg = config({r'^librf::detail::event_v2_impl::remove_wait_list': h_call('remove')})
        e, ps = c.run(entry, init, cfg=cfg, need=2)
        seen = set()
        for p in ps:
            if p.status != 'ret':
                c.fail('E04.terminates', '%s ends with %s' % (kind, p.status), p); continue
            w, l = wins(p, g['slot'])
            won = bool(w)
            plain = [x for x in p.k('store') if p.n(x.a[0]) == p.n(g['slot'])]
            c.check(not plain, 'E04.atomic', 'the claim slot is written without an atomic exchange', p, plain[0] if plain else None)
            adds = p.k('sched.add')
            outs = [x for x in p.ev if x.k == 'store' and (P(p.n(x.a[0])) and p.n(x.a[0])[1] != p.n(g['s'])[1] and e.rinfo[p.n(x.a[0])[1]].kind == 'lazy')]
            if kind != 'cancel':
                for t in p.rets():
                    c.check(t == won, 'E04.%s-result' % kind, '%s returns %s although it %s the wait' % (kind, t, 'won' if won else 'lost'), p)
            seen.add(won)
            if not won:
                eff = adds + outs + p.k('timer.stop', 'timer.reset', 'remove')
                c.check(not eff, 'E04.%s-loser' % kind, '%s acts on a wait another party already ended' % kind, p, eff[0] if eff else None)
                continue
            x = w[0]
            c.check(len(w) == 1, 'E04.%s-once' % kind, 'the wait is claimed twice', p, x)
            nv = x.a[2] if x.k == 'cas' else x.a[1]
            c.check(p.eq(nv, 0) is True, 'E04.%s-claim' % kind, 'claiming the wait does not clear the slot, so it can be claimed again', p, x)
            claimed = x.a[1] if x.k == 'cas' else x.ret
            c.check(p.eq(claimed, 0) is False, 'E04.%s-nonnull' % kind, 'an already ended wait can be claimed', p, x)
            early = [y for y in adds + outs + p.k('timer.stop', 'timer.reset', 'remove') if y.n < x.n]
            c.check(not early, 'E04.%s-order' % kind, '%s acts before it has claimed the wait' % kind, p, early[0] if early else None)
            # result written through the claimed pointer
            res = [y for y in outs if p.eq(y.a[0], claimed) is True]
            want = g['a'][1] if kind == 'notify' else 0
            if kind == 'notify' and p.eq(g['a'][1], 0):
                pass
            c.check(bool(res) and p.eq(res[-1].a[1], want) is True, 'E04.%s-value' % kind, 'the awaiter is told the wrong outcome', p, res[-1] if res else x)
            conull = e.ptr_eq(p.st, g['co0'], 0)
            if kind == 'cancel':
                c.check(not adds, 'E04.cancel-quiet', 'a cancelled wait resumes the coroutine', p, adds[0] if adds else None)
                c.check(p.cell(off(g['s'], co)) == 0, 'E04.cancel-handle', 'a cancelled wait keeps the coroutine handle', p)
            else:
                if conull is False or conull is None:
                    c.check(len(adds) == (1 if conull is False else len(adds)) and (not adds or p.eq(adds[0].a[1], g['s']) is True), 'E04.%s-resume' % kind, 'the claimed waiter is scheduled %d times' % len(adds), p, adds[-1] if adds else x)
                    if conull is None:
                        c.fail('E04.%s-resume' % kind, 'scheduling does not depend on the suspended coroutine', p, x)
                    late = [y for y in outs if adds and y.n > adds[0].n]
                    c.check(not late, 'E04.%s-publish' % kind, 'the result is written after the coroutine was scheduled', p, late[0] if late else None)
            st = p.k('timer.stop', 'timer.reset')
            c.check(bool(st), 'E04.%s-timer' % kind, 'the timer of a finished wait stays armed', p, x)
            if kind == 'timeout':
                rm = p.k('remove')
                evt0 = [y for y in p.k('load') if p.eq(y.a[0], claimed) is True]
                nul = e.ptr_eq(p.st, evt0[0].ret, 0) if evt0 else None
                if nul is False:
                    c.check(len(rm) == 1 and p.eq(rm[0].a[1], g['s']) is True and p.eq(rm[0].a[0], evt0[0].ret) is True, 'E04.timeout-unregister', 'a timed-out waiter stays in the wait queue of its event', p, x)
        c.check(seen == {True, False}, 'E04.%s-shape' % kind, '%s lost an outcome: %s' % (kind, seen))


# ---------------------------------------------------------------- wait_all
SAL = 'librf::detail::state_event_all_t'
PRX = 'librf::detail::state_event_proxy_t<librf::detail::state_event_all_t>'
AAW = 'librf::event_t::all_awaiter<librf::event_t *>'

def all_roles(c):
    r = dict(cnt=c.field(SAL, r'^(long|int|short|long long)$|^std::atomic<(long|int|long long)>$', own=True), lock=c.field(SAL, r'^librf::spinlock$|^std::(recursive_)?mutex$', own=True)[0],
             res=c.field(SAL, r'^bool \*$', own=True)[0], vals=c.field(SAL, r'^std::vector<std::pair<', own=True)[0],
             co=c.field(STB, r'coroutine_handle<void>')[0], sch=c.field(STB, r'scheduler_t \*$')[0])
    r['csz'] = r['cnt'][1] * 8; r['cnt'] = r['cnt'][0]
    r['val'] = c.field(AAW, r'^bool$', own=True)[0]
    r['st'] = c.field(AAW, r'counted_ptr<librf::detail::state_event_all_t>', own=True)[0]
    r['psta'] = c.field(PRX, r'state_event_all_t \*$', own=True)[0]
    r['pidx'] = c.field(PRX, r'^(long|int)$', own=True)[0]
    r['second'] = 8
    return r

def refs(p, obj, upto):
    n = 0
    for x in p.ev:
        if x.n >= upto: break
        if x.k in ('ref+', 'ref-') and p.n(x.a[0])[:2] == p.n(obj)[:2]: n += 1 if x.k == 'ref+' else -1
    return n

def E05_suspend(c, entry, tmo):
    r = all_roles(c); er = roles(c); R = 'E05.suspend-'
    g = {}
    TAW = 'librf::event_t::timeout_awaitor_impl<%s>' % AAW
    def init(e, st, args):
        g['aw'] = args[0]; g['h'] = args[1]
        e.store(st, off(args[0], r['st']), 0, 'ptr', log=False)
        e.store(st, off(args[0], r['val']), 0, 'i8', log=False)
        if tmo:
            g['tp'] = e.load(st, off(args[0], c.field(TAW, r'time_point|long', r'tp|time|dead', own=True)[0]), 'i64', log=False)
    e, ps = c.run(entry, init, need=3)
    seen = set()
    for p in ps:
        if p.status != 'ret':
            c.fail(R + 'terminates', 'await_suspend ends with %s' % p.status, p); continue
        S = [x for x in p.k('new') if e.clsof(p.n(x.a[0])) == c.cls(SAL)]
        if not c.check(len(S) == 1, R + 'state', '%d shared wait_all states are created' % len(S), p): continue
        S = p.n(S[0].a[0])
        # per event: net change of the count, registrations
        evts = {}
        for x in p.ev:
            if x.k in ('rmw', 'cas', 'store', 'q.push_back', 'q.push_front') and x.a and P(p.n(x.a[0])):
                a = p.n(x.a[0]); f = e.field(a)
                o = er['q'] if x.k.startswith('q.') else er['cnt']
                if e.rinfo[a[1]].kind == 'lazy' and f and f[0] == EVT and isinstance(a[2], int) and a[2] == o:
                    evts.setdefault((a[1], a[2] - o), []).append(x)
        k = m = 0; order = []
        for (rid, base), xs in evts.items():
            E = ('p', rid, base)
            acc = [x for x in p.accesses(off(E, er['cnt']))]
            pu = [x for x in xs if x.k.startswith('q.')]
            first = acc[0].ret if acc and acc[0].k in ('load', 'rmw') else None
            fin = p.cell(off(E, er['cnt']))
            d = e.add(fin, first, 64, -1) if first is not None and fin is not None else None
            bad = [x for x in acc + pu if not p.holds(x, off(E, er['lock']))]
            c.check(not bad, R + 'locked', 'an event is examined or registered with outside its lock', p, bad[0] if bad else None)
            bad = [x for x in pu if not p.holds(x, off(S, r['lock']))]
            c.check(not bad, R + 'state-locked', 'a waiter becomes visible while the shared state is not locked', p, bad[0] if bad else None)
            if d == 0:
                if not c.check(len(pu) == 1, R + 'register', 'an event that was not consumed gets %d registrations' % len(pu), p, xs[-1]): continue
                pos = e.known_cmp(p.st, 'sgt', first, 0, 64)
                c.check(pos is False, R + 'missed', 'registers with an event although it may be signalled', p, pu[0])
                m += 1; order.append((pu[0].n, E, p.n(pu[0].a[1])))
                c.check(pu[0].k == 'q.push_back', R + 'fifo', 'the waiter is not appended to the wait queue', p, pu[0])
            else:
                c.check(d == mask64(-1) and not pu, R + 'consume', 'count of an event changes by %s with %d registrations' % (sgn(d), len(pu)), p, xs[-1])
                c.check(e.known_cmp(p.st, 'sgt', first, 0, 64) is True, R + 'consume-positive', 'a signal is consumed that may not be stored', p, xs[-1])
                k += 1; order.append((xs[0].n, E, 0))
        order.sort(key=lambda t: t[0])
        n = k + m
        begin, end = p.cell(off(g['aw'], c.field(AAW, r'event_t \*$', own=True)[0])), p.cell(off(g['aw'], c.field(AAW, r'event_t \*$', own=True, nth=1)[0]))
        tot = e.binop(p.st, 'sub', p.n(end), p.n(begin), 64)
        esz = int(c.m.mdget(c.cls('librf::event_t'), 'size')) // 8
        c.check(tot == n * esz, R + 'all', 'only %d of %s events are considered' % (n, tot // esz if isinstance(tot, int) else '?'), p)
        cv = p.cell(off(S, r['cnt']))
        c.check(cv == m, R + 'count', '%d events are pending but the shared counter is %s' % (m, cv), p)
        t = p.truth(p.ret)
        seen.add((t, n > 0))
        c.check(t == (m > 0), R + 'decision', 'await_suspend returns %s with %d events pending' % (t, m), p)
        ta = p.k('timer.add')
        if not t:
            c.check(p.cell(off(g['aw'], r['val'])) == 1, R + 'immediate', 'all events were consumed but the wait does not report success', p)
        else:
            aw = p.cell(off(S, r['co']))
            c.check(p.eq(aw or 0, g['h']) is True, R + 'handle', 'the shared state does not hold the awaiting coroutine', p)
            gs = p.k('get_scheduler')
            c.check(bool(gs) and p.eq(p.cell(off(S, r['sch'])) or 0, gs[-1].ret) is True, R + 'scheduler', 'the shared state does not remember the scheduler of the waiting coroutine', p)
            c.check(p.eq(p.cell(off(S, r['res'])) or 0, off(g['aw'], r['val'])) is True, R + 'result', 'the shared state does not report into the awaiter', p)
            vs = models.lst(p.st, p.n(off(S, r['vals'])))
            if c.check(vs is not None and len(vs) == n, R + 'slots', 'the shared state does not have one slot per event', p):
                for i, (nn, E, w) in enumerate(order):
                    sec = p.cell(off(vs[i], 8)) or 0
                    c.check(p.eq(sec, E) is True, R + 'slot-event', 'slot %d of the shared state does not keep its event' % i, p)
                    fst = p.cell(vs[i]) or 0
                    if w != 0:
                        c.check(p.eq(fst, w) is True, R + 'slot-waiter', 'slot %d of the shared state does not own the registered waiter' % i, p)
                        c.check(p.eq(p.cell(off(w, r['psta'])) or 0, S) is True, R + 'proxy-state', 'the registered waiter does not belong to this wait', p)
                        c.check(p.cell(off(w, r['pidx'])) == i, R + 'proxy-index', 'the waiter registered with event %d reports as event %s' % (i, p.cell(off(w, r['pidx']))), p)
            if tmo:
                c.check(len(ta) == 1, R + 'timer', 'timed wait arms %d timers' % len(ta), p)
                vis = [y for y in p.k('unlock') if p.n(y.a[0]) == p.n(off(S, r['lock']))]
                if ta:
                    c.check(bool(vis) and ta[0].n < vis[0].n, R + 'timer-order', 'the timer is armed after the waiters became visible', p, ta[0])
                    c.check(p.eq(ta[0].a[1], g['tp']) is True, R + 'deadline', 'the timer is armed for another point in time than the requested deadline', p, ta[0])
                    c.check(p.eq(p.cell(ta[0].a[2]) or 0, S) is True, R + 'timer-target', 'the timer callback does not own the shared state', p, ta[0])
        if not tmo:
            c.check(not ta, R + 'timer', 'untimed wait arms a timer', p)
        # the shared state outlives its own lock
        for u in [y for y in p.k('unlock') if p.n(y.a[0]) == p.n(off(S, r['lock']))]:
            c.check(refs(p, S, u.n) > 0, R + 'alive', 'the shared state is released while its lock is still held', p, u)
        c.check(not p.st.locks, R + 'unlock', 'a lock is still held when await_suspend returns', p)
        bad = [x for x in p.ev if x.k in ('badunlock', 'selfdeadlock', 'useafterfree')]
        c.check(not bad, R + 'clean', 'lock misuse: %s' % (bad[0].k if bad else ''), p, bad[0] if bad else None)
    c.check((True, True) in seen and (False, True) in seen, R + 'shape', 'await_suspend lost an outcome: %s' % seen)

def mask64(v): return v & ((1 << 64) - 1)
def sgn(d): return d - (1 << 64) if isinstance(d, int) and d >> 63 else d

def all_init(g, c, r, nvals=2):
    def init(e, st, args):
        S = args[0]; g['S'] = S; g['a'] = args
        e.annot(S, c.cls(SAL))
        g['c0'] = e.load(st, off(S, r['cnt']), 'i%d' % r['csz'], log=False)
        g['co0'] = e.load(st, off(S, r['co']), 'ptr', log=False)
        res = e.load(st, off(S, r['res']), 'ptr', log=False); st.facts[('N', res[1])] = 1; g['res'] = res
        g['r0'] = e.load(st, res, 'i8', log=False)
        els = []
        g['slots'] = []
        for i in range(nvals):
            q = models.lnew(e, st, off(S, r['vals']))
            a = e.load(st, q, 'ptr', log=False); b = e.load(st, off(q, 8), 'ptr', log=False)
            e.annot(b, c.cls(EVT))
            els.append(q); g['slots'].append((a, b))
        models.lset(st, off(S, r['vals']), els)
    return init

def E05_done(c, entry, kind):
    r = all_roles(c); R = 'E05.%s-' % kind; w = r['csz']
    NV = 2
    for idx in ([0, 1] if kind != 'timeout' else [None]):
        g = {}
        base = all_init(g, c, r, NV)
        def init(e, st, args):
            base(e, st, args)
            if idx is not None:
                e.assume(st, e.icmp(st, 'eq', args[-1], idx, 64), True)
                for fr in st.fr:
                    for k, v in list(fr.reg.items()):
                        if v == args[-1]: fr.reg[k] = idx
            # invariant of a pending wait: the counter never exceeds the number of slots and every unfinished slot has its event
            for fst, sec in g['slots']:
                if kind != 'cancel' and False: pass
        cfg = config({r'^librf::detail::event_v2_impl::remove_wait_list': h_call('remove')})
        e, ps = c.run(entry, init, cfg=cfg, need=2)
        seen = set()
        for p in ps:
            if p.status != 'ret':
                c.fail(R + 'terminates', '%s ends with %s' % (kind, p.status), p); continue
            L = off(g['S'], r['lock'])
            adds = p.k('sched.add')
            alive = e.known_cmp(p.st, 'sgt', g['c0'], 0, w)
            fin = p.cell(off(g['S'], r['cnt']))
            d = sgn64(e.add(fin, g['c0'], w, -1), w)
            wr = p.writes(off(g['S'], r['cnt'])) + p.writes(g['res'])
            bad = [x for x in wr if not p.holds(x, L)]
            c.check(not bad, R + 'locked', 'the shared state is changed outside its lock', p, bad[0] if bad else None)
            nl = [x for x in p.k('lock') if p.n(x.a[0]) == p.n(L)]
            c.check(len(nl) == 1 and not p.st.locks, R + 'one-hold', 'the decision is spread over %d lock holds' % len(nl), p)
            if not c.check(alive is not None, R + 'guard', 'a finished wait is not recognised', p): continue
            if not alive:
                seen.add('dead')
                eff = adds + wr + p.k('timer.stop', 'timer.reset', 'remove')
                c.check(not eff, R + 'dead', '%s acts on a wait that is already over' % kind, p, eff[0] if eff else None)
                if kind != 'cancel': c.check(p.rets() == [False], R + 'dead-result', '%s of a finished wait claims success' % kind, p)
                continue
            if kind != 'cancel': c.check(p.rets() == [True], R + 'live-result', '%s of a pending wait reports failure' % kind, p)
            conull = e.ptr_eq(p.st, g['co0'], 0)
            last = True
            if kind == 'timeout':
                c.check(fin == 0, R + 'count', 'the timed-out wait can still be completed (counter %s)' % (fin,), p)
            else:
                c.check(d == -1, R + 'count', 'one event changes the number of pending events by %s' % d, p)
                last = e.known_cmp(p.st, 'eq', fin, 0, w)
                if not c.check(last is not None, R + 'last', 'the last event is not recognised', p): continue
            if last:
                seen.add('last')
                if conull is False:
                    c.check(len(adds) == 1 and p.eq(adds[0].a[1], g['S']) is True, R + 'resume', 'the finished wait is scheduled %d times' % len(adds), p, adds[-1] if adds else None)
                else:
                    c.check(not adds and conull is True, R + 'resume', 'scheduling does not depend on the suspended coroutine', p)
                rw = p.writes(g['res'])
                c.check(bool(rw), R + 'result', 'the finished wait does not report its result', p)
                if rw:
                    if adds: c.check(rw[-1].n < adds[0].n, R + 'publish', 'the result is written after the coroutine was scheduled', p, rw[-1])
                    val = p.cell(g['res']); tv = None
                    for p, tv in p.split(val) if kind == 'notify' else ():
                        nul = [e.ptr_eq(p.st, b, 0) for a, b in g['slots']]
                        want = False if True in nul else (True if all(x is False for x in nul) else None)
                        c.check(want is not None and tv == want, R + 'value', 'wait_all reports %s although %s events were received' % (tv, 'not all' if want is False else 'all' if want else 'possibly not all'), p, rw[-1])
                    if kind != 'notify':
                        c.check(p.truth(val) is False or val == 0, R + 'value', 'wait_all reports success after %s' % kind, p, rw[-1])
                c.check(bool(p.k('timer.stop', 'timer.reset')), R + 'timer', 'the timer of a finished wait stays armed', p)
            else:
                seen.add('more')
                eff = adds + p.writes(g['res'])
                c.check(not eff, R + 'early', 'the wait completes before the last event', p, eff[0] if eff else None)
            if kind == 'timeout':
                rm = p.k('remove')
                want = [(a, b) for a, b in g['slots'] if e.ptr_eq(p.st, a, 0) is False and e.ptr_eq(p.st, b, 0) is False]
                for a, b in want:
                    hit = [x for x in rm if p.eq(x.a[0], b) is True and p.eq(x.a[1], a) is True]
                    c.check(len(hit) == 1, R + 'unregister', 'a waiter of the timed-out wait stays registered with its event', p, hit[0] if hit else None)
                bad = [x for x in rm if p.holds(x, L)]
                c.check(not bad, R + 'lock-order', 'event locks are taken while the shared state is locked', p, bad[0] if bad else None)
        need = {'notify': {'dead', 'last', 'more'}, 'cancel': {'dead', 'last', 'more'}, 'timeout': {'dead', 'last'}}[kind]
        c.check(need <= seen, R + 'shape', '%s lost an outcome: %s' % (kind, need - seen))

def sgn64(d, w):
    return d - (1 << w) if isinstance(d, int) and d >> (w - 1) else d

def E05(c):
    E05_suspend(c, 'drv_eventall_suspend', False)
    E05_suspend(c, 'drv_eventall_suspend_to', True)
    E05_done(c, 'drv_eventall_notify', 'notify')
    E05_done(c, 'drv_eventall_timeout', 'timeout')
    E05_done(c, 'drv_eventall_cancel', 'cancel')
    r = all_roles(c)
    # proxies forward to the shared state with their own index
    g = {}
    cfg = config({r'^librf::detail::state_event_all_t::on_notify': h_bool('all-notify')})
    def init(e, st, a):
        g['a'] = a; g['S'] = e.load(st, off(a[0], r['psta']), 'ptr', log=False); g['i'] = e.load(st, off(a[0], r['pidx']), 'i64', log=False)
    e, ps = c.run('drv_eventall_proxy_notify', init, cfg=cfg)
    for p in ps:
        x = p.k('all-notify')
        c.check(len(x) == 1 and p.eq(x[0].a[0], g['S']) is True and p.n(x[0].a[2]) == p.n(g['i']) and p.rets() == [bool(x[0].ret)], 'E05.proxy', 'a sub-waiter does not forward the notification of its own event', p, x[0] if x else None)
    # readiness and result
    bo, eo = c.field(AAW, r'event_t \*$', own=True)[0], c.field(AAW, r'event_t \*$', own=True, nth=1)[0]
    g = {}
    def init(e, st, a):
        g['b'] = e.load(st, off(a[0], bo), 'ptr', log=False); g['e'] = e.load(st, off(a[0], eo), 'ptr', log=False); g['a'] = a
    e, ps = c.run('drv_eventall_ready', init)
    for p in ps:
        for s, t in (e.branch(p.st.fork(), p.ret) if isinstance(p.ret, tuple) else [(p.st, bool(p.ret))]):
            c.check(e.ptr_eq(s, g['b'], g['e']) is t, 'E05.ready', 'await_ready is %s although the set of events is %s' % (t, 'empty' if not t else 'not empty'), p)
            if t:
                v = s.mem[g['a'][0][1]].get(r['val'])
                v = e.norm(s, v[1]) if v else None
                tv = e.known(s, v if isinstance(v, int) or v[0] == 'cmp' else ('cmp', 'ne', 8, v, 0)) if v is not None else None
                c.check(tv is True, 'E05.ready-value', 'waiting for no event reports failure', p)
    g = {}
    def init(e, st, a): g['v'] = e.load(st, off(a[0], r['val']), 'i8', log=False)
    e, ps = c.run('drv_eventall_resume', init)
    for p in ps:
        for s, t in (e.branch(p.st.fork(), p.ret) if isinstance(p.ret, tuple) else [(p.st, bool(p.ret))]):
            c.check(e.known_cmp(s, 'ne', g['v'], 0, 8) is t, 'E05.resume', 'await_resume does not return the recorded outcome', p)

# ---------------------------------------------------------------- timeouts, ownership, removal
def callback_rule(c, pid, entry, kind='vtimeout'):
    """the armed callback runs the timeout exactly when the timer was not cancelled, and owns the waiter until then"""
    g = {}
    cfg = config({r'^librf::detail::state_(event_all|mutex)_t::on_timeout': h_bool('vtimeout')}, timer_fire=True)
    e, ps = c.run(entry, lambda e, st, a: g.update(a=a), cfg=cfg, need=2)
    for p in ps:
        f = p.k('timer.fire'); v = p.k('vtimeout'); ta = p.k('timer.add')
        if not c.check(len(f) == 1, pid + '.callback', 'no callback is registered', p): continue
        canceled = f[0].a[1]
        c.check(len(v) == (0 if canceled else 1), pid + '.callback-once', 'the timeout runs %d times when the timer %s' % (len(v), 'was cancelled' if canceled else 'expires'), p, ta[0])
        if v: c.check(p.eq(v[0].a[0], g['a'][0]) is True, pid + '.callback-target', 'the timer times out another waiter', p, v[0])
        c.check(refs(p, g['a'][0], f[0].n) > 0, pid + '.callback-owns', 'the pending timer does not keep the waiter alive', p, ta[0])
        c.check(p.n(ta[0].a[1]) == p.n(g['a'][1]), pid + '.deadline', 'the timer is armed for another point in time than requested', p, ta[0])

def E06(c):
    r = roles(c)
    ev = c.field('librf::event_t', r'event_v2_impl')[0]
    for entry in ('drv_eventt_wait', 'drv_eventt_co_await', 'drv_eventt_wait_for', 'drv_eventt_wait_until'):
        g = {}
        def init(e, st, a):
            v = e.load(st, off(a[1], ev), 'ptr', log=False); st.facts[('N', v[1])] = 1
            g['v'] = v; g['a'] = a
        e, ps = c.run(entry, init)
        for p in ps:
            own = [x for x in p.k('sp+') if p.eq(x.a[0], g['v']) is True and p.n(x.a[1])[1] == p.n(g['a'][0])[1]]
            rel = [x for x in p.k('sp-') if p.eq(x.a[0], g['v']) is True and p.n(x.a[1])[1] == p.n(g['a'][0])[1]]
            c.check(len(own) > len(rel), 'E06.owns-event', 'the pending wait does not keep the event alive', p)
            c.check(p.eq(p.cell(off(g['a'][0], c.field('librf::event_t::awaiter', r'event_v2_impl \*$')[0])) or 0, g['v']) is True, 'E06.same-event', 'the awaiter waits for another event', p)
            if 'wait_' in entry:
                tp = p.cell(off(g['a'][0], c.field('librf::event_t::timeout_awaitor_impl<librf::event_t::awaiter>', r'time_point|long', r'tp|time|dead', own=True)[0]))
                if entry.endswith('for'):
                    now = p.m(r'system_clock::now')
                    want = e.add(now[0].ret, e.binop(p.st, 'mul', g['a'][2], 1000000, 64), 64) if now else None
                else:
                    want = g['a'][2]
                c.check(tp is not None and p.n(tp) == p.n(want), 'E06.deadline', 'the deadline of the timed wait is not the requested one', p)
    callback_rule(c, 'E06', 'drv_event_add_timer')
    callback_rule(c, 'E06', 'drv_eventall_add_timer')
    # removal from the wait list
    g = {}
    e, ps = c.run('drv_event_remove', evt_init(g, r))
    for p in ps:
        er = p.k('q.erase')
        c.check(len(er) == 1 and p.n(er[0].a[0]) == p.n(g['q']) and p.eq(er[0].a[1], g['args'][1]) is True, 'E06.remove', 'the waiter is not removed from the wait list', p)
        one_hold(c, 'E06.remove-lock', p, g, er, 'removal')
    # a destroyed awaiter whose wait is pending leaves the wait list
    aev = c.field('librf::event_t::awaiter', r'event_v2_impl \*$')[0]; sl = c.field('librf::event_t::awaiter', r'counted_ptr<librf::detail::state_event_t>')[0]
    g = {}
    def init(e, st, a):
        g['v'] = e.load(st, off(a[0], aev), 'ptr', log=False); g['s'] = e.load(st, off(a[0], sl), 'ptr', log=False)
    e, ps = c.run('drv_event_awaiter_dtor', init, need=2)
    seen = False
    for p in ps:
        if e.ptr_eq(p.st, g['s'], 0) is False and e.ptr_eq(p.st, g['v'], 0) is False:
            er = p.k('q.erase'); seen = True
            c.check(len(er) == 1 and p.eq(er[0].a[1], g['s']) is True and p.n(er[0].a[0]) == p.n(off(g['v'], r['q'])) and p.holds(er[0], off(g['v'], r['lock'])), 'E06.abandon', 'an abandoned wait stays in the wait list of its event', p)
            fr = [x for x in p.ev if x.k == 'sp-' and er and x.n < er[0].n and p.eq(x.a[0], g['v']) is True]
            c.check(not fr, 'E06.abandon-order', 'the event is released before the waiter is removed from it', p, fr[0] if fr else None)
    c.check(seen, 'E06.abandon-shape', 'an abandoned pending wait is not recognised')

PROPS = dict(E01=E01, E02=E02, E03=E03, E04=E04, E05=E05, E06=E06)
