"""Mutex properties (M01..M06)."""
from spec import *
import models

MX = 'librf::detail::mutex_v2_impl'
ST = 'librf::detail::state_mutex_t'
STB = 'librf::state_base_t'
LA = 'librf::mutex_t::lock_awaiter'
MU = 'librf::batch_unlock_t<librf::mutex_t>'
MT = 'librf::mutex_t'

def roles(c):
    r = {}
    r['lock'] = c.field(MX, r'^librf::spinlock$|^std::(recursive_)?mutex$', own=True)[0]
    r['own'] = c.field(MX, r'^std::atomic<void ?\*>$|^void ?\*$', own=True)[0]
    f = c.field(MX, r'^std::atomic<(long|int|short|long long|unsigned long|unsigned int)>$|^(long|int|unsigned long|unsigned int)$', own=True)
    r['cnt'] = f[0]; r['w'] = f[1] * 8
    r['q'] = c.field(MX, r'^std::(__cxx11::)?(list|deque|vector)<', own=True)[0]
    r['val'] = c.field(ST, r'atomic<librf::detail::mutex_v2_impl ?\*\*>|atomic<.*mutex_v2_impl', own=True)[0]
    r['root'] = c.field(ST, r'state_base_t \*$', own=True)[0]
    r['co'] = c.field(STB, r'coroutine_handle<void>')[0]
    r['sch'] = c.field(STB, r'scheduler_t \*$')[0]
    r['am'] = c.field(LA, r'mutex_v2_impl \*$', own=True)[0]
    r['as'] = c.field(LA, r'counted_ptr<librf::detail::state_mutex_t>', own=True)[0]
    r['ar'] = c.field(LA, r'state_base_t \*$', own=True)[0]
    r['tm'] = c.field(MT, r'shared_ptr<librf::detail::mutex_v2_impl>')[0]
    r['gm'] = c.field(MU, r'shared_ptr<librf::detail::mutex_v2_impl>')[0]
    r['go'] = c.field(MU, r'^void \*$', own=True)[0]
    return r

def hav(r):
    h = havoc(MX, (r['own'], r['cnt'], r['q'])); h.__dict__ if False else None
    h.lock = r['lock']
    return h

def mx(g, r, how=None, k=None):
    """remember mutex, owner, counter; how(e,st,args) -> pointer to the mutex object; k: exact number of waiters"""
    def init(e, st, args):
        p = how(e, st, args) if how else args[0]
        if P(p): st.facts[('N', p[1])] = 1
        e.annot(p, e.m.classes()[MX])
        g.update(m=p, args=args, own=off(p, r['own']), cnt=off(p, r['cnt']), lock=off(p, r['lock']), q=off(p, r['q']))
        if k is not None:
            ws = []; els = []
            for i in range(k):
                q = models.lnew(e, st, g['q'])
                w = e.load(st, q, 'ptr', log=False); st.facts[('N', w[1])] = 1
                e.annot(w, e.m.classes()[ST]); e.exact.add(w[1])
                e.store(st, off(w, 0), e.load(st, off(w, 0), 'ptr', log=False), 'ptr', log=False)
                els.append(q); ws.append((q, w))
            models.lset(st, g['q'], els)
            g['ws'] = ws
            g['o0'] = e.load(st, g['own'], 'ptr', log=False); g['c0'] = e.load(st, g['cnt'], 'i%d' % r['w'], log=False)
    return init

def cell_at(p, addr, n, c0):
    """value of *addr just before event number n"""
    v = c0
    for x in p.ev:
        if x.n >= n: break
        if x.a and P(p.n(x.a[0])) and p.n(x.a[0]) == p.n(addr):
            if x.k == 'store': v = x.a[1]
            elif x.k == 'rmw': v = p.e.binop(p.st, x.name, x.ret, x.a[1], 64) if x.name in ('add', 'sub', 'or', 'and', 'xor') else x.a[1]
            elif x.k == 'cas' and x.ret == 1: v = x.a[2]
    return p.n(v) if v is not None else None

def section_effect(p, g, r, sec, who):
    """effect of one critical section: 'none', 'acquired' or an error text"""
    e = p.e
    acc = [x for x in sec if x.k in ('load', 'store', 'rmw', 'cas') and P(p.n(x.a[0]))]
    ow = [x for x in acc if p.n(x.a[0]) == p.n(g['own'])]; cn = [x for x in acc if p.n(x.a[0]) == p.n(g['cnt'])]
    cw = [x for x in cn if x.k != 'load']; oww = [x for x in ow if x.k in ('store', 'rmw') or (x.k == 'cas' and x.ret == 1)]
    if not ow: return ('none', None) if not cw else ('the recursion count changes without looking at the owner', cw[0])
    o0 = ow[0].ret if ow[0].k in ('load', 'rmw') else None
    if o0 is None and ow[0].k == 'cas': o0 = ow[0].a[1] if ow[0].ret == 1 else None
    # net count
    d = 0
    for x in cw:
        if x.k == 'rmw' and x.name in ('add', 'sub') and isinstance(p.n(x.a[1]), int): d += signed(p.n(x.a[1]), r['w']) * (1 if x.name == 'add' else -1)
        elif x.k == 'store':
            b = [y.ret for y in cn if y.n < x.n and y.k in ('load', 'rmw')]
            dd = e.add(x.a[1], b[-1], r['w'], -1) if b else (1 if p.n(x.a[1]) == 1 and e.ptr_eq(p.st, o0, 0) is True else None)
            if not isinstance(dd, int): return 'the recursion count is overwritten', x
            d = signed(dd, r['w'])
    free = e.ptr_eq(p.st, o0, 0) if o0 is not None else None; mine = e.ptr_eq(p.st, o0, who) if o0 is not None else None
    fin = oww[-1].a[-1] if oww else o0
    if not oww and not cw:
        if free is True or mine is True: return 'nofree' if free else 'nomine', None
        return 'none', None
    if d == 1 and p.eq(fin, who) is True and (free is True or mine is True): return 'acquired', None
    if free is False and mine is not True and p.eq(fin, who) is True: return 'the mutex is taken over from its owner', (oww or cw)[0]
    return 'owner/recursion count change inconsistently (count %+d, %s)' % (d, 'owner set' if oww else 'owner unchanged'), (oww or cw)[-1]

def M01(c):
    r = roles(c)
    ways = [('drv_mutex_try_lock', None, 1, False), ('drv_mutex_lock', None, 1, True), ('drv_mutex_try_lock_until', None, 2, False)]
    h = lambda e, st, a: e.load(st, off(a[0], r['tm']), 'ptr', log=False)
    ways += [('drv_mutext_try_lock_addr', h, 1, False), ('drv_mutext_lock_addr', h, 1, True), ('drv_mutext_try_for_addr', h, 2, False), ('drv_mutext_try_until_addr', h, 2, False)]
    for entry, how, wi, block in ways:
        g = {}
        e, ps = c.run(entry, mx(g, r, how), cfg=config(havoc_on_unlock=hav(r)), need=1 if block else 2)
        who = g['args'][wi]
        e_seen = set()
        for p in ps:
            if p.status != 'ret': continue
            secs = sections(p, g['lock'])
            res = [section_effect(p, g, r, s, who) for s in secs]
            out = [x for x in p.writes(g['own']) + p.writes(g['cnt']) if not p.holds(x, g['lock'])]
            c.check(not out, 'M01.locked', 'owner or recursion count is changed outside the lock', p, out[0] if out else None)
            c.check(bool(secs) and not p.st.locks, 'M01.section', 'the mutex is not examined under its lock, or the lock leaks', p)
            bad = [x for x in res if x[0] not in ('none', 'acquired')]
            if bad:
                m = {'nofree': 'a free mutex is refused', 'nomine': 'the owner is refused its own mutex'}.get(bad[0][0], bad[0][0])
                c.fail('M01.effect', m, p, bad[0][1]); continue
            c.ok('M01.effect')
            n = len([x for x in res if x[0] == 'acquired'])
            if block: t = True
            else:
                t = p.truth(p.ret)
            c.check(t is not None and n == (1 if t else 0) and (not n or res[-1][0] == 'acquired'), 'M01.result', '%s reports %s after acquiring the mutex %d times' % (entry[4:], t, n), p)
            e_seen.add(t)
            # the caller's parameters
            if entry in ('drv_mutext_try_for_addr', 'drv_mutext_try_until_addr', 'drv_mutex_try_lock_until') and t is False:
                now = [x for x in p.m(r'system_clock::now')]
                if entry.endswith('for_addr'):
                    dl = e.add(now[0].ret, e.binop(p.st, 'mul', g['args'][1], 1000000, 64), 64) if now else None
                    now = now[1:]
                else: dl = g['args'][1]
                late = [x for x in now if dl is not None and e.known_cmp(p.st, 'sgt', x.ret, dl, 64) is True]
                c.check(bool(late) and late[-1].n == now[-1].n, 'M01.deadline', 'a timed lock gives up before its deadline', p, now[-1] if now else None)
        c.check(e_seen == ({True} if block else {True, False}), 'M01.shape', '%s lost an outcome: %s' % (entry[4:], e_seen))
    # nobody owns a new mutex
    e, ps = c.run('drv_mutex_ctor', mx(g := {}, r))
    for p in ps:
        c.check(p.eq(p.cell(g['own']), 0) is True and p.cell(g['cnt']) == 0, 'M01.initial', 'a new mutex is not free', p)
    for entry, how in (('drv_mutex_owner', None), ('drv_mutext_is_locked', h)):
        g = {}
        e, ps = c.run(entry, mx(g, r, how))
        for p in ps:
            l = [x for x in p.accesses(g['own'])]
            if how is None:
                c.check(bool(l) and p.eq(p.ret, l[-1].ret) is True and p.holds(l[-1], g['lock']), 'M01.owner', 'owner() does not report the owner', p)
            else:
                for q, t in p.split(p.ret):
                    c.check(bool(l) and q.eq(l[-1].ret, 0) is (not t), 'M01.is_locked', 'is_locked() reports %s' % t, p)

def M02(c):
    r = roles(c)
    h = lambda e, st, a: e.load(st, off(a[0], r['tm']), 'ptr', log=False)
    for entry, how, wi in (('drv_mutex_unlock', None, 1), ('drv_mutext_unlock_addr', h, 1)):
        seen = set()
        for k in (0, 1, 2, 3):
            g = {}
            e, ps = c.run(entry, mx(g, r, how, k), need=2, cfg=config({r'^librf::state_base_t::get_root\(\) const': lambda *a: NotImplemented}))
            who = g['args'][wi]
            for p in ps:
                rc = {p.n(v)[1]: w for v, w in ((p.cell(off(w, r['root'])), w) for q, w in g['ws']) if P(v)}
                bad = [x for x in p.ev if x.k not in ('sched.add', 'timer.stop') and x.a and P(p.n(x.a[0])) and p.n(x.a[0])[1] in rc]
                c.check(not bad, 'M02.gone', 'unlock looks into the coroutine of a waiter that may have given up and be gone', p, bad[0] if bad else None)
                if p.status != 'ret':
                    c.fail('M02.terminates', 'unlock ends with %s' % p.status, p, getattr(p, 'bad', None)); continue
                mine = e.ptr_eq(p.st, g['o0'], who)
                t = p.truth(p.ret) if how is None else mine
                L = models.lst(p.st, p.n(g['q'])) or ()
                cw = p.writes(g['cnt']); ow = p.writes(g['own'])
                cas = [x for x in p.k('cas', 'rmw') if x.a and P(p.n(x.a[0])) and any(p.n(x.a[0])[1] == p.n(w)[1] for q, w in g['ws'])]
                eff = cw + ow + cas
                one = [x for x in p.k('lock', 'trylock') if p.n(x.a[0]) == p.n(g['lock'])]
                bad = [x for x in eff if not p.holds(x, g['lock'])]
                c.check(not bad and len(one) == 1 and not p.st.locks, 'M02.locked', 'unlock works outside one hold of the lock', p, bad[0] if bad else None)
                if mine is not True:
                    seen.add('foreign')
                    c.check(mine is False and t is False if how is None else mine is False, 'M02.foreign', 'unlock by somebody who does not own the mutex is not refused', p)
                    c.check(not eff and len(L) == k, 'M02.foreign-effect', 'unlock by a non-owner changes the mutex', p, eff[0] if eff else None)
                    continue
                c.check(t is True, 'M02.result', 'unlock by the owner reports failure', p)
                last = e.known_cmp(p.st, 'eq', g['c0'], 1, r['w'])
                fin_c = p.cell(g['cnt']); fin_o = p.cell(g['own'])
                if fin_o is None: fin_o = g['o0']
                if last is not True:
                    seen.add('nested')
                    d = e.add(fin_c, g['c0'], r['w'], -1) if fin_c is not None else 0
                    c.check(last is False and signed(d, r['w']) == -1, 'M02.nested', 'unlock of a recursively locked mutex changes the count by %s' % (signed(d, r['w']),), p, cw[-1] if cw else None)
                    c.check(p.eq(fin_o, who) is True and len(L) == k and not cas, 'M02.nested-effect', 'a recursively locked mutex is given away by an inner unlock', p, (ow + cas)[0] if ow + cas else None)
                    continue
                # full release: offer to the waiters in order
                acc = None; offered = []
                for i, (q, w) in enumerate(g['ws']):
                    sl = off(w, r['val'])
                    win = [x for x in p.writes(sl)]
                    read = [x for x in p.accesses(sl)]
                    if read: offered.append((i, read[0].n))
                    if win: acc = (i, w, win[0]) if acc is None else acc
                    c.check(len(win) <= 1, 'M02.once', 'a waiter is notified twice', p, win[-1] if win else None)
                wins = [x for q, w in g['ws'] for x in p.writes(off(w, r['val']))]
                c.check(len(wins) <= 1, 'M02.single', 'the mutex is handed to %d waiters' % len(wins), p, wins[-1] if wins else None)
                c.check([i for i, n in offered] == list(range(len(offered))) and offered == sorted(offered, key=lambda t: t[1]), 'M02.order', 'waiters are not offered the mutex in the order they queued', p)
                gone = k - len(L)
                c.check(gone == len(offered) and list(L) == [q for q, w in g['ws']][gone:], 'M02.queue', '%d waiters were offered the mutex but %d left the queue' % (len(offered), gone), p)
                if acc:
                    seen.add('handoff')
                    i, w, x = acc
                    rt = [y for y in p.k('get_root') if p.n(y.a[0]) == p.n(w)]
                    root = rt[0].ret if rt else p.cell(off(w, r['root']))
                    c.check(i == len(offered) - 1, 'M02.stop', 'further waiters are offered a mutex that was already handed over', p, x)
                    ob, cb = cell_at(p, g['own'], x.n, g['o0']), cell_at(p, g['cnt'], x.n, g['c0'])
                    c.check(root is not None and p.eq(fin_o, root) is True and p.num(fin_c, r['w']) == 1, 'M02.owner', 'after hand-over the mutex is not owned once by the woken coroutine (count %s)' % (fin_c,), p, x)
                    c.check(root is not None and ob is not None and p.eq(ob, root) is True and p.num(cb, r['w']) == 1, 'M02.owner-first', 'the waiter can be woken before it owns the mutex', p, x)
                    st = [y for y in p.k('store') if P(p.n(y.a[0])) and e.rinfo.get(p.n(y.a[0])[1]) and y.n > x.n and p.eq(y.a[1], g['m']) is True]
                    c.check(bool(st), 'M02.told', 'the woken waiter is not told which mutex it got', p, x)
                else:
                    seen.add('free')
                    c.check(len(L) == 0 and p.eq(fin_o, 0) is True and p.num(fin_c, r['w']) == 0, 'M02.free', 'nobody took the mutex but it is not free afterwards (count %s)' % (fin_c,), p, (ow + cw)[-1] if ow + cw else None)
        c.check(seen == {'foreign', 'nested', 'handoff', 'free'}, 'M02.shape', 'unlock lost an outcome: %s' % seen)
    # awaiting unlock
    g = {}
    e, ps = c.run('drv_mutex_suspend_unlock', lambda e, st, a: g.update(m=e.load(st, off(a[0], c.field('librf::mutex_t::unlock_awaiter', r'mutex_v2_impl \*$')[0]), 'ptr', log=False)), cfg=config({r'^librf::detail::mutex_v2_impl::unlock\(': h_bool('mx.unlock')}))
    for p in ps:
        u = p.k('mx.unlock'); rt = p.k('get_root')
        c.check(len(u) == 1 and p.eq(u[0].a[0], g['m']) is True and bool(rt) and p.eq(u[0].a[1], rt[-1].ret) is True, 'M02.await-unlock', 'co_await unlock() does not release the mutex for the awaiting coroutine', p)
        c.check(p.rets() == [False], 'M02.await-unlock-continues', 'co_await unlock() suspends', p)

def M03(c):
    r = roles(c)
    TA = 'librf::event_t::timeout_awaitor_impl<librf::mutex_t::lock_awaiter>'
    for entry, tmo in (('drv_mutex_suspend', 0), ('drv_mutex_suspend_manual', 0), ('drv_mutex_suspend_to', 1)):
        g = {}
        base = mx(g, r, lambda e, st, a: e.load(st, off(a[0], r['am']), 'ptr', log=False))
        def init(e, st, a):
            base(e, st, a)
            e.store(st, off(a[0], r['as']), 0, 'ptr', log=False)
            if tmo: g['tp'] = e.load(st, off(a[0], c.field(TA, r'time_point|long', r'tp|time|dead', own=True)[0]), 'i64', log=False)
        e, ps = c.run(entry, init, cfg=config(havoc_on_unlock=hav(r)), need=2)
        seen = set()
        for p in ps:
            if p.status != 'ret':
                c.fail('M03.terminates', 'await_suspend ends with %s' % p.status, p); continue
            a = g['args']; who = p.k('get_root')
            if not c.check(bool(who), 'M03.root', 'the lock is not taken for the root coroutine of the caller', p): continue
            who = who[-1].ret
            secs = sections(p, g['lock'])
            c.check(len(secs) == 1 and not p.st.locks, 'M03.atomic', 'try and registration are spread over %d lock holds' % len(secs), p)
            eff = section_effect(p, g, r, sum(secs, []), who)
            t = p.truth(p.ret); seen.add(t)
            push = [x for x in p.k('cont') if x.a and p.n(x.a[0]) == p.n(g['q']) and x.name.split('.')[-1] in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace')]
            ta = p.k('timer.add')
            if t is False:
                c.check(eff[0] == 'acquired' and not push and not ta, 'M03.immediate', 'the coroutine continues at once although: %s, %d registrations' % (eff[0], len(push)), p, eff[1])
                mp = p.cell(off(a[0], r['am']))
                c.check(mp is None or p.eq(mp, g['m']) is True, 'M03.immediate-held', 'the awaiter forgets the mutex it just locked', p)
            else:
                c.check(t is True and eff[0] == 'none', 'M03.wait', 'the coroutine suspends although: %s' % {'nofree': 'the mutex is free', 'nomine': 'it owns the mutex already'}.get(eff[0], eff[0]), p, eff[1])
                if not c.check(len(push) == 1 and push[0].name.endswith('_back') and p.holds(push[0], g['lock']), 'M03.register', 'the coroutine suspends with %d registrations at the end of the wait queue' % len(push), p, push[0] if push else None): continue
                x = push[0]
                s = None
                for y in p.k('new'):
                    if e.clsof(p.n(y.a[0])) == c.cls(ST): s = p.n(y.a[0])
                el = p.n(x.ret) if x.ret is not None else None
                if not c.check(s is not None and el is not None and p.eq(p.cell(el) or 0, s) is True, 'M03.waiter', 'what is registered is not a fresh waiter', p, x): continue
                gs = p.k('get_scheduler')
                c.check(p.eq(p.cell(off(s, r['co'])) or 0, a[1]) is True, 'M03.handle', 'the waiter does not hold the awaiting coroutine', p, x)
                c.check(bool(gs) and p.eq(p.cell(off(s, r['sch'])) or 0, gs[-1].ret) is True, 'M03.scheduler', 'the waiter does not remember the scheduler of the caller', p, x)
                c.check(p.eq(p.cell(off(s, r['root'])) or 0, who) is True, 'M03.waiter-root', 'the waiter is registered for another owner than the caller', p, x)
                c.check(p.eq(p.cell(off(s, r['val'])) or 0, off(a[0], r['am'])) is True, 'M03.slot', 'the waiter does not report into the awaiter', p, x)
                c.check(p.eq(p.cell(off(a[0], r['as'])) or 0, s) is True, 'M03.owned', 'the awaiter does not keep the waiter', p, x)
                late = [y for y in p.k('store') if P(p.n(y.a[0])) and p.n(y.a[0])[1] == s[1] and y.n > x.n and not p.holds(y, g['lock'])]
                c.check(not late, 'M03.published', 'the waiter is changed after it became visible', p, late[0] if late else None)
                if tmo:
                    c.check(len(ta) == 1 and p.holds(ta[0], g['lock']), 'M03.timer', 'timed lock: %d timers armed before the waiter is visible' % len(ta), p, x)
                    if ta:
                        c.check(p.eq(ta[0].a[1], g['tp']) is True, 'M03.deadline', 'the timer is armed for another deadline', p, ta[0])
                        c.check(p.eq(p.cell(ta[0].a[2]) or 0, s) is True, 'M03.timer-target', 'the timer does not own the waiter', p, ta[0])
                else: c.check(not ta, 'M03.timer', 'untimed lock arms a timer', p)
        c.check(seen == {True, False}, 'M03.shape', '%s lost an outcome: %s' % (entry[4:], seen))
    # try_lock awaiter
    TRY = 'librf::mutex_t::try_awaiter'
    g = {}; o = c.field(TRY, r'mutex_v2_impl \*$')[0]
    e, ps = c.run('drv_mutex_suspend_try', mx(g, r, lambda e, st, a: e.load(st, off(a[0], o), 'ptr', log=False)), cfg=config(havoc_on_unlock=hav(r)), need=2)
    seen = set()
    for p in ps:
        rt = p.k('get_root')
        eff = section_effect(p, g, r, sum(sections(p, g['lock']), []), rt[-1].ret if rt else 0)
        v = p.cell(off(g['args'][0], o)); keep = v is None or p.eq(v, g['m']) is True
        seen.add(keep)
        c.check(p.rets() == [False] and eff[0] == ('acquired' if keep else 'none') and (keep or p.eq(v, 0) is True), 'M03.try', 'try_lock remembers %s but: %s' % ('success' if keep else 'failure', eff[0]), p, eff[1])
    c.check(seen == {True, False}, 'M03.try-shape', 'try_lock lost an outcome')
    for entry, cls, o in (('drv_mutex_resume_try', TRY, o), ('drv_mutex_resume_to', LA, r['am'])):
        g = {}
        e, ps = c.run(entry, lambda e, st, a: g.update(a=a, v=e.load(st, off(a[0], o), 'ptr', log=False)))
        for p in ps:
            for q, t in p.split(p.ret):
                c.check(q.eq(g['v'], 0) is (not t), 'M03.result', '%s reports %s although the mutex was%s acquired' % (entry[4:], t, ' not' if q.eq(g['v'], 0) else ''), p)
            c.check(p.eq(p.cell(off(g['a'][0], o)), 0) is True, 'M03.consumed', 'the awaiter still counts as unawaited after co_await', p)
    for entry in ('drv_mutex_ready', 'drv_mutex_try_ready', 'drv_mutex_unlock_ready'):
        e, ps = c.run(entry)
        for p in ps: c.check(p.rets() == [False], 'M03.ready', 'await_ready skips the locking step', p)
    # handle -> awaiter
    for entry, cls in (('drv_mutext_lock', LA), ('drv_mutext_co_await', LA), ('drv_mutext_lock_manual', LA), ('drv_mutext_try_lock', TRY), ('drv_mutext_unlock', 'librf::mutex_t::unlock_awaiter'), ('drv_mutext_try_for', LA), ('drv_mutext_try_until', LA)):
        g = {}
        e, ps = c.run(entry, mx(g, r, lambda e, st, a: e.load(st, off(a[1], r['tm']), 'ptr', log=False)))
        o = c.field(cls, r'mutex_v2_impl \*$')[0]
        for p in ps:
            c.check(p.eq(p.cell(off(g['args'][0], o)) or 0, g['m']) is True, 'M03.same-mutex', 'the awaiter refers to another mutex', p)
            if 'try_for' in entry or 'try_until' in entry:
                tp = p.cell(off(g['args'][0], c.field(TA, r'time_point|long', r'tp|time|dead', own=True)[0]))
                if entry.endswith('for'):
                    now = p.m(r'system_clock::now'); want = e.add(now[0].ret, e.binop(p.st, 'mul', g['args'][2], 1000000, 64), 64) if now else None
                else: want = g['args'][2]
                c.check(tp is not None and want is not None and p.n(tp) == p.n(want), 'M03.request', 'the timed lock uses another deadline than requested', p)

# ---------------------------------------------------------------- several mutexes
def multi_cfg(r, coro):
    def note(e, s, m, on):
        L = s.ex.get('held', ()); m = e.norm(s, m)
        s.ex['held'] = tuple(sorted(L + (m,), key=repr)) if on else tuple(x for x in L if x != m)
    def held(h, on):
        def k(e, st, ins, args, dem, name):
            x = h(e, st, ins, args, dem, name)
            if isinstance(x, list):
                for s, v in x:
                    if v == 1: note(e, s, args[0], True)
            else: note(e, st, args[0], on)
            return x
        return k
    ext = {r'^librf::detail::mutex_v2_impl::lock_until_succeed\(': held(h_call('mx.lock'), True), r'^librf::detail::mutex_v2_impl::try_lock\(': held(h_bool('mx.try'), True), r'^librf::detail::mutex_v2_impl::unlock\(': held(h_call('mx.unlock'), False)}
    if coro:
        def root(e, st, ins, args, dem, name):
            v = st.ex.get('theroot')
            if v is None:
                v = st.ex['theroot'] = e.fresh('ptr', 'root', e.m.classes().get('librf::state_base_t')); st.facts[('N', v[1])] = 1
            return v
        def h_await(e, st, ins, args, dem, name):
            """co_await lock(): the coroutine goes on once it owns the mutex (immediately or after a hand-over)"""
            a = e.norm(st, args[0]); w = root(e, st, ins, args, dem, name)
            m = e.norm(st, e.load(st, off(a, r['am']), 'ptr', log=False))
            e.event(st, 'mx.lock', None, (m, w), ins); note(e, st, m, True)
            e.store(st, off(a, r['ar']), w, 'ptr', log=False)
            return 0
        ext.update({r'^librf::state_base_t::get_root\(\) const': root,
                    r'^bool librf::mutex_t::(lock_awaiter|awaiter|manual_awaiter)::await_suspend\w*<': h_await,
                    r'^void librf::state_future_t::promise_(initial|final)_suspend': h_nop, r'promise_yield_value': h_nop, r'^(bool )?librf::state_future_t::future_await_ready\(\)': h_const(1),
                    r'::_Yield\(\) const': h_fut('yield', 1)})
    return config(ext)

def h_nop(e, st, ins, args, dem, name): return None
def h_const(v): return lambda e, st, ins, args, dem, name: v
def M04(c):
    r = roles(c)
    def mt(e, st, a): return e.load(st, off(a, r['tm']), 'ptr', log=False)
    deep = TIER == 'thorough'
    jobs = [('drv_mutext_lock_addr2', (1, 2), 0), ('drv_mutext_lock_addr3', (1, 2, 3), 0), ('drv_mutext_lock_addr2g', (2, 3), 1),
            ('drv_mutex_lock2', (1, 2), None), ('drv_mutex_lock3', (1, 2, 3), None), ('drv_mutex_lock2m', (1, 2), None)]
    for entry, ms, wi in jobs:
        n = len(ms); coro = wi is None
        g = {}
        def init(e, st, a):
            g['a'] = a; g['m'] = [mt(e, st, a[i]) for i in ms]
            for x in g['m']: st.facts[('N', x[1])] = 1
            for i, x in enumerate(g['m']):
                for y in g['m'][:i]: e.assume_ptr(st, x, y, False)
        cfg = multi_cfg(r, coro); cfg.unroll = (4 if deep else 3) if coro else 12; cfg.recursion = 4
        e, ps = c.run(entry, init, cfg=cfg, need=1)
        okn = 0
        for p in ps:
            if p.status != 'ret': continue
            if p.k('catch'): continue          # a helper coroutine failed with an exception: not the subject of this rule
            who = p.st.ex.get('theroot') if coro else g['a'][wi]
            held = []; ok = True; tried = False
            for x in p.ev:
                if x.k not in ('mx.lock', 'mx.try', 'mx.unlock'): continue
                ix = [i for i, m in enumerate(g['m']) if p.eq(x.a[0], m) is True]
                if len(ix) != 1: c.fail('M04.known', 'a mutex that was not asked for is locked or unlocked', p, x); ok = False; break
                i = ix[0]
                if who is None or p.eq(x.a[1], who) is not True: c.fail('M04.owner', 'a mutex is locked or unlocked for somebody else', p, x); ok = False; break
                if x.k == 'mx.lock':
                    if held: c.fail('M04.deadlock', 'waits for a mutex while holding another one', p, x); ok = False; break
                    held.append(i)
                elif x.k == 'mx.try':
                    if x.ret:
                        if i in held: c.fail('M04.twice', 'a mutex is locked twice', p, x); ok = False; break
                        held.append(i)
                    else: tried = True
                else:
                    if i not in held: c.fail('M04.unlock', 'a mutex that is not held is unlocked', p, x); ok = False; break
                    held.remove(i)
            if not ok: continue
            okn += tried
            c.check(sorted(held) == list(range(n)), 'M04.all', 'lock() of %d mutexes finishes holding %d of them' % (n, len(held)), p)
            G = None
            MA = 'librf::batch_unlock_t<%s>' % ', '.join(['librf::mutex_t'] * n)
            if entry.endswith('g'): G = off(g['a'][0], 0)
            if G is not None:
                vo = c.field(MA, r'^std::vector<librf::mutex_t')[0]; oo = c.field(MA, r'^void \*$')[0]
                L = models.lst(p.st, p.n(off(G, vo))) or ()
                got = [p.n(e.load(p.st, off(q, r['tm']), 'ptr', log=False)) for q in L]
                c.check(len(got) == n and all(any(p.eq(v, m) is True for v in got) for m in g['m']), 'M04.guard', 'the guard does not refer to all locked mutexes', p)
                c.check(p.eq(p.cell(off(G, oo)) or 0, who) is True, 'M04.guard-owner', 'the guard unlocks for somebody else', p)
        c.check(okn >= 1, 'M04.shape', '%s never completes after contention' % entry[4:])
    # release of several
    for entry, wi, ms in (('drv_mutext_unlock_addr2', 0, (1, 2)), ('drv_mutex_unlock2', None, (1, 2))):
        g = {}
        def init(e, st, a):
            g['a'] = a; g['m'] = [mt(e, st, a[i]) for i in ms]
        e, ps = c.run(entry, init, cfg=multi_cfg(r, wi is None))
        for p in ps:
            u = p.k('mx.unlock'); who = p.st.ex.get('theroot') if wi is None else g['a'][wi]
            c.check(len(u) == 2 and all(any(p.eq(x.a[0], m) is True for x in u) for m in g['m']) and all(p.eq(x.a[1], who) is True for x in u), 'M04.unlock-all', 'unlock() of several mutexes does not release each once for the caller', p)

def h_fut(kind, ready=None):
    def h(e, st, ins, args, dem, name):
        a = list(args); s = None
        if ins.a[1] and ins.a[1][0][2].get('sret'): s = a.pop(0)
        x = e.event(st, kind, dem[:60], tuple(e.norm(st, v) for v in a), ins)
        if s is not None:
            v = ('p', e.region('heap', kind + '.state'), 0); e.annot(v, e.m.classes().get('librf::state_t<void>'))
            e.store(st, s, v, 'ptr', ins, log=False)
            if ready is not None:
                for o, z, path, t, dc in e.m.fields(e.m.classes()['librf::state_future_t']):
                    if 'result_type' in (e.m.type_name(t) if t else ''): e.store(st, off(v, o), ready, 'i8', ins, log=False); break
        return None
    return h

# ---------------------------------------------------------------- guards
def guard_states(p, r, G):
    return p.cell(off(G, r['gm'])), p.cell(off(G, r['go']))

def M05(c):
    r = roles(c)
    ext = lambda: {r'^librf::detail::mutex_v2_impl::unlock\(': h_bool('mx.unlock'), r'^librf::mutex_t::unlock\(void\*\) const': h_call('mt.unlock')}
    def gi(g, *ixs):
        def init(e, st, a):
            g['a'] = a; g['g'] = {}
            for i in ixs:
                g['g'][i] = (e.load(st, off(a[i], r['gm']), 'ptr', log=False), e.load(st, off(a[i], r['go']), 'ptr', log=False))
        return init
    def released(p, g, i, rule, upto=None):
        m, o = g['g'][i]; u = [x for x in p.k('mx.unlock')]
        mine = [x for x in u if p.eq(x.a[0], m) is True]
        nul = p.eq(m, 0)
        c.check(nul is not None and len(mine) == (0 if nul else 1), rule, 'a guard %s releases its mutex %d times' % ('of nothing' if nul else 'holding a mutex', len(mine)), p, mine[-1] if mine else None)
        for x in mine: c.check(p.eq(x.a[1], o) is True, rule + '-owner', 'the guard releases the mutex for somebody else', p, x)
        c.check(len(u) == len(mine), rule + '-other', 'another mutex than the guarded one is released', p)
    for entry in ('drv_mguard_dtor', 'drv_mguard_unlock'):
        g = {}
        e, ps = c.run(entry, gi(g, 0), cfg=config(ext()), need=2)
        for p in ps:
            released(p, g, 0, 'M05.' + entry[11:])
            if entry.endswith('unlock'): c.check(p.eq(p.cell(off(g['a'][0], r['gm'])), 0) is True, 'M05.unlocked', 'the guard would release the mutex again', p)
    g = {}
    e, ps = c.run('drv_mguard_move', gi(g, 1), cfg=config(ext()))
    for p in ps:
        m, o = g['g'][1]
        c.check(not p.k('mx.unlock') and p.eq(p.cell(off(g['a'][0], r['gm'])), m) is True and p.eq(p.cell(off(g['a'][0], r['go'])), o) is True, 'M05.move', 'moving a guard does not transfer the mutex', p)
        c.check(p.eq(p.cell(off(g['a'][1], r['gm'])), 0) is True, 'M05.move-source', 'the moved-from guard would release the mutex too', p)
    g = {}
    e, ps = c.run('drv_mguard_assign', gi(g, 0, 1), cfg=config(ext()), need=2)
    for p in ps:
        if p.eq(g['a'][0], g['a'][1]) is True: continue
        m, o = g['g'][1]
        released(p, g, 0, 'M05.assign')
        c.check(p.eq(p.cell(off(g['a'][0], r['gm'])), m) is True and p.eq(p.cell(off(g['a'][0], r['go'])), o) is True, 'M05.assign-takes', 'move assignment does not transfer the mutex', p)
        c.check(p.eq(p.cell(off(g['a'][1], r['gm'])), 0) is True, 'M05.assign-source', 'the moved-from guard would release the mutex too', p)
    g = {}
    e, ps = c.run('drv_mguard_ctor', lambda e, st, a: g.update(a=a, m=e.load(st, off(a[2], r['tm']), 'ptr', log=False)), cfg=config(ext()))
    for p in ps:
        c.check(p.eq(p.cell(off(g['a'][0], r['gm'])), g['m']) is True and p.eq(p.cell(off(g['a'][0], r['go'])), g['a'][1]) is True and not p.k('mx.unlock'), 'M05.adopt', 'a guard adopting a locked mutex does not remember it', p)
    e, ps = c.run('drv_mguard_ctor0', lambda e, st, a: g.update(a=a))
    for p in ps: c.check(p.eq(p.cell(off(g['a'][0], r['gm'])), 0) is True, 'M05.empty', 'an empty guard would release something', p)
    # what co_await lock() returns
    g = {}
    def init(e, st, a):
        g['a'] = a; g['m'] = e.load(st, off(a[1], r['am']), 'ptr', log=False); g['r'] = e.load(st, off(a[1], r['ar']), 'ptr', log=False)
    e, ps = c.run('drv_mutex_resume', init, cfg=config(ext()), need=1)
    for p in ps:
        if p.status != 'ret': continue
        G = g['a'][0]
        if p.eq(g['m'], 0) is False:
            c.check(p.eq(p.cell(off(G, r['gm'])), g['m']) is True and p.eq(p.cell(off(G, r['go'])), g['r']) is True, 'M05.await', 'co_await lock() returns a guard for something else', p)
        else:
            c.check(p.eq(p.cell(off(G, r['gm'])), 0) is True, 'M05.await-empty', 'a wait that did not get the mutex returns a guard that releases one', p)
        c.check(p.eq(p.cell(off(g['a'][1], r['am'])), 0) is True, 'M05.await-consumed', 'the awaiter still counts as unawaited', p)
        c.check(not p.k('mx.unlock'), 'M05.await-kept', 'the mutex is released before the guard is returned', p)
    # guards of several mutexes
    MA = 'librf::batch_unlock_t<librf::mutex_t, librf::mutex_t>'
    vo = c.field(MA, r'^std::vector<librf::mutex_t')[0]; oo = c.field(MA, r'^void \*$')[0]
    def ga(g, *ixs):
        def init(e, st, a):
            g['a'] = a; g['g'] = {}
            for i in ixs:
                els = [models.lnew(e, st, off(a[i], vo)) for _ in range(2)]
                models.lset(st, off(a[i], vo), els)
                g['g'][i] = ([e.load(st, off(q, r['tm']), 'ptr', log=False) for q in els], e.load(st, off(a[i], oo), 'ptr', log=False))
        return init
    def mts(p, e, x): return p.n(e.load(p.st, off(p.n(x.a[0]), r['tm']), 'ptr', log=False))
    def rel2(p, e, g, i, rule):
        ms, o = g['g'][i]; nul = p.eq(o, 0); u = p.k('mt.unlock')
        for m in ms:
            mine = [x for x in u if x.x is not None and p.eq(x.x, m) is True]
            c.check(nul is not None and len(mine) == (0 if nul else 1), rule, 'a guard %s releases one of its mutexes %d times' % ('of nothing' if nul else 'holding mutexes', len(mine)), p, mine[-1] if mine else None)
            for x in mine: c.check(p.eq(x.a[1], o) is True, rule + '-owner', 'the guard releases the mutex for somebody else', p, x)
    def h_mtu(e, st, ins, args, dem, name):
        x = e.event(st, 'mt.unlock', None, tuple(e.norm(st, a) for a in args), ins)
        x.x = e.norm(st, e.load(st, off(x.a[0], r['tm']), 'ptr', log=False)); return None
    ext2 = {r'^librf::mutex_t::unlock\(void\*\) const': h_mtu}
    for entry in ('drv_mguard2_dtor', 'drv_mguard2_unlock'):
        g = {}
        e, ps = c.run(entry, ga(g, 0), cfg=config(ext2), need=2)
        for p in ps:
            rel2(p, e, g, 0, 'M05.batch-' + entry[12:])
            if entry.endswith('unlock'): c.check(p.eq(p.cell(off(g['a'][0], oo)), 0) is True, 'M05.batch-unlocked', 'the guard would release its mutexes again', p)
    g = {}
    e, ps = c.run('drv_mguard2_move', ga(g, 1), cfg=config(ext2))
    for p in ps:
        ms, o = g['g'][1]
        L = models.lst(p.st, p.n(off(g['a'][0], vo))) or ()
        c.check(len(L) == 2 and p.eq(p.cell(off(g['a'][0], oo)), o) is True and not p.k('mt.unlock'), 'M05.batch-move', 'moving a guard does not transfer its mutexes', p)
        c.check(not models.lst(p.st, p.n(off(g['a'][1], vo))) or p.eq(p.cell(off(g['a'][1], oo)), 0) is True, 'M05.batch-move-source', 'the moved-from guard would release the mutexes too', p)
    g = {}
    e, ps = c.run('drv_mguard2_assign', ga(g, 0, 1), cfg=config(ext2), need=2)
    for p in ps:
        if p.eq(g['a'][0], g['a'][1]) is True: continue
        ms, o = g['g'][1]
        rel2(p, e, g, 0, 'M05.batch-assign')
        L = models.lst(p.st, p.n(off(g['a'][0], vo))) or ()
        got = [p.n(e.load(p.st, off(q, r['tm']), 'ptr', log=False)) for q in L]
        c.check(len(got) == 2 and all(any(p.eq(v, m) is True for v in got) for m in ms) and p.eq(p.cell(off(g['a'][0], oo)), o) is True, 'M05.batch-assign-takes', 'move assignment does not transfer the mutexes', p)
        c.check(not models.lst(p.st, p.n(off(g['a'][1], vo))) or p.eq(p.cell(off(g['a'][1], oo)), 0) is True, 'M05.batch-assign-source', 'the moved-from guard would release the mutexes too', p)
    g = {}
    e, ps = c.run('drv_mguard2_ctor', lambda e, st, a: g.update(a=a, m=[e.load(st, off(x, r['tm']), 'ptr', log=False) for x in a[2:4]]), cfg=config(ext2))
    for p in ps:
        L = models.lst(p.st, p.n(off(g['a'][0], vo))) or ()
        got = [p.n(e.load(p.st, off(q, r['tm']), 'ptr', log=False)) for q in L]
        c.check(len(got) == 2 and all(any(p.eq(v, m) is True for v in got) for m in g['m']) and p.eq(p.cell(off(g['a'][0], oo)), g['a'][1]) is True, 'M05.batch-adopt', 'a guard adopting locked mutexes does not remember them', p)

def M06(c):
    r = roles(c)
    import rules.event as ev
    for entry, kind in (('drv_mutex_notify', 'notify'), ('drv_mutex_timeout', 'timeout'), ('drv_mutex_cancel', 'cancel')):
        g = {}
        def init(e, st, a):
            g['s'] = a[0]; g['a'] = a; g['slot'] = off(a[0], r['val'])
            g['co0'] = e.load(st, off(a[0], r['co']), 'ptr', log=False)
            sp = e.load(st, g['slot'], 'ptr', log=False); g['sp'] = sp
        e, ps = c.run(entry, init, need=2)
        seen = set()
        for p in ps:
            if p.status != 'ret': c.fail('M06.terminates', '%s ends with %s' % (kind, p.status), p); continue
            w, l = ev.wins(p, g['slot']); won = bool(w); seen.add(won)
            plain = [x for x in p.k('store') if p.n(x.a[0]) == p.n(g['slot'])]
            c.check(not plain, 'M06.atomic', 'the claim slot is written without an atomic exchange', p, plain[0] if plain else None)
            adds = p.k('sched.add')
            outs = [x for x in p.k('store') if P(p.n(x.a[0])) and p.n(x.a[0])[1] != p.n(g['s'])[1] and e.rinfo[p.n(x.a[0])[1]].kind == 'lazy']
            tst = p.k('timer.stop', 'timer.reset')
            if kind != 'cancel': c.check(p.truth(p.ret) is won, 'M06.%s-result' % kind, '%s returns %s although it %s the wait' % (kind, p.ret, 'won' if won else 'lost'), p)
            if not won:
                cs = [x for x in p.k('store') if p.n(x.a[0]) == p.n(off(g['s'], r['co']))]
                c.check(not adds and not outs and not tst and not cs, 'M06.loser', '%s of a wait that is already over has an effect' % kind, p, (adds + outs + tst + cs + [None])[0])
                continue
            c.check(len(w) == 1, 'M06.once', 'the wait is claimed twice', p, w[-1])
            want = g['a'][1] if kind == 'notify' else 0
            c.check(bool(outs) and p.eq(outs[-1].a[1], want) is True and outs[-1].n > w[0].n, 'M06.%s-value' % kind, '%s stores the wrong outcome' % kind, p, outs[-1] if outs else w[0])
            c.check(bool(tst), 'M06.timer', 'the timer of a finished wait stays armed', p, w[0])
            nul = e.ptr_eq(p.st, g['co0'], 0)
            if kind == 'cancel':
                c.check(not adds, 'M06.cancel-sched', 'a cancelled waiter is scheduled', p, adds[0] if adds else None)
                cv = p.cell(off(g['s'], r['co']))
                c.check(cv is not None and p.eq(cv, 0) is True, 'M06.cancel-handle', 'a cancelled waiter can still be resumed', p)
            else:
                c.check(nul is not None and len(adds) == (0 if nul else 1), 'M06.sched', 'the waiting coroutine is scheduled %d times' % len(adds), p, adds[-1] if adds else w[0])
                for x in adds:
                    c.check(p.eq(x.a[1], g['s']) is True and p.eq(x.a[0], p.cell(off(g['s'], r['sch'])) or 0) is True, 'M06.sched-who', 'something else than the waiter is scheduled on its scheduler', p, x)
                    c.check(not [y for y in outs if y.n > x.n], 'M06.publish', 'the outcome is written after the coroutine was scheduled', p, x)
        c.check(seen == {True, False}, 'M06.shape', '%s lost an outcome' % kind)
    ev.callback_rule(c, 'M06', 'drv_mutex_add_timer')
    # resuming the waiter
    g = {}
    e, ps = c.run('drv_mutex_state_resume', lambda e, st, a: g.update(a=a, co=e.load(st, off(a[0], r['co']), 'ptr', log=False)), need=2)
    for p in ps:
        rs = p.k('resume'); nul = e.ptr_eq(p.st, g['co'], 0); dl = p.k('sched.del')
        c.check(nul is not None and len(rs) == (0 if nul else 1), 'M06.resume', 'the waiting coroutine is resumed %d times' % len(rs), p)
        if rs:
            c.check(p.eq(rs[0].a[0], g['co']) is True, 'M06.resume-who', 'another coroutine is resumed', p, rs[0])
            cl = [x for x in p.k('store') if p.n(x.a[0]) == p.n(off(g['a'][0], r['co'])) and x.n < rs[0].n]
            c.check(bool(cl) and p.eq(cl[-1].a[1], 0) is True, 'M06.resume-once', 'the waiter still holds the coroutine while it runs', p, rs[0])
            c.check(not rs[0].locks, 'M06.resume-unlocked', 'the coroutine is resumed with a lock held', p, rs[0])
            late = [x for x in dl if x.n > rs[0].n]
            c.check(not late, 'M06.resume-last', 'the waiter is used after its coroutine ran', p, late[0] if late else None)

PROPS = dict(M01=M01, M02=M02, M03=M03, M04=M04, M05=M05, M06=M06)
