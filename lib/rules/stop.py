"""Stop sources, tokens and callbacks (K01..K03)."""
from spec import *
import spec, itertools
from rules.world import *
DRIVERS = ('stop',)

class W(World):
    """sources, tokens and callbacks with known content"""
    def __init__(w, c, pid, spurious=False):
        w.c = c; w.pid = pid; w.what = 'setup'; w.n = 0
        cfg = config(); cfg.unroll = 12; cfg.recursion = 6; cfg.no_spurious = not spurious
        cfg.stops = {}; cfg.preempt_calls = r'^drv_stop_done$'
        def stopped(e, st, ins, args, dem, name):
            k = e.norm(st, args[0]); e.event(st, 'stopped', str(k), (k,), ins)
            acts = cfg.stops.get(k)
            return models.run_chain(e, st, ins, acts) if acts and st.ex.get(('ran', k), 0) == 0 and not st.ex.update({('ran', k): 1}) else None
        def done(e, st, ins, args, dem, name):
            e.event(st, 'stop-done', None, (e.norm(st, args[0]),), ins); return None
        cfg.ret = dict({r'^drv_stopped$': stopped, r'^drv_stop_done$': done, r'^std::this_thread::get_id\(\)': lambda e, st, ins, args, dem, name: 17 + st.thr}, **cfg.ret)
        w.e, w.st = c.engine(cfg)
    def new(w, what):
        n = w.copy(); n.what = what; w.e.cfg.stops = {}; return n
    # -- building
    def source(w):
        s = w.obj('source'); w.do('drv_stp_s_make', [s]); return s
    def token(w, s):
        t = w.obj('token'); w.do('drv_stp_s_token', [t, s]); return t
    def cb(w, t, k, take=False):
        p = w.do('drv_stp_c_newt' if take else 'drv_stp_c_new', [t, k]); return p.n(p.ret)
    def cbs(w, s, n, first=0):
        out = []
        for i in range(n):
            t = w.token(s); take = (i % 2 == 1)
            out.append(w.cb(t, first + i, take)); w.do('drv_stp_t_dtor', [t])
        return out

def ran(p): return [x.a[0] for x in p.k('stopped')]
# ---------------------------------------------------------------- K01
@guard
def K01(c):
    deep = c.tier == 'thorough'
    for spurious in (False, True):
        w0 = W(c, 'K01', spurious)
        for n in range(0, (4 if deep else 3) + (not spurious)):
            w = w0.new('%d callbacks' % n); s = w.source(); s2 = w.obj('copy'); w.do('drv_stp_s_copy', [s2, s]); t = w.token(s)
            cbs = w.cbs(s, n)
            w.check(w.bool('drv_stp_t_requested', [t]) == 0 and w.bool('drv_stp_s_requested', [s2]) == 0, 'before', 'stop is requested before anybody did')
            w.check(w.bool('drv_stp_t_possible', [t]) == 1 and w.bool('drv_stp_s_possible', [s]) == 1, 'possible', 'a token of a living source says that stopping is impossible')
            for p in w.paths('drv_stp_s_request', [s]):
                w.check(p.num(p.ret) == 1, 'first', 'the first request reports %s' % p.num(p.ret), p)
                w.check(sorted(ran(p)) == list(range(n)), 'each-once', 'callbacks %s run' % ran(p), p, (p.k('stopped') or [None])[-1])
                v = w.copy(); v.st = p.st.fork()
                for q, a in ((t, 'drv_stp_t_requested'), (s, 'drv_stp_s_requested'), (s2, 'drv_stp_s_requested'), (t, 'drv_stp_t_possible')):
                    v.check(v.bool(a, [q]) == 1, 'after', '%s is false after the request' % a[8:], p)
                for x in (s, s2):
                    p = v.do('drv_stp_s_request', [x]); v.check(p.num(p.ret) == 0 and not ran(p), 'second', 'a second request reports true or runs callbacks', p)
                for take in (False, True):
                    u = v.copy(); t2 = u.token(s2); p = u.do('drv_stp_c_newt' if take else 'drv_stp_c_new', [t2, 77])
                    u.check(ran(p) == [77], 'late', 'a callback registered after the request runs %d times' % len(ran(p)), p)
                    p = u.do('drv_stp_c_delete', [p.n(p.ret)]); u.check(not ran(p), 'late', 'a callback runs at its end', p)
    w0 = W(c, 'K01')
    # without a state, without a source
    w = w0.new('a token without a state'); t = w.obj('token'); w.do('drv_stp_t_none', [t]); s = w.obj('source'); w.do('drv_stp_s_none', [s])
    for a, x in (('drv_stp_t_requested', t), ('drv_stp_t_possible', t), ('drv_stp_s_requested', s), ('drv_stp_s_possible', s), ('drv_stp_s_request', s)): w.check(w.bool(a, [x]) == 0, 'none', a[8:] + ' is true', None)
    p = w.do('drv_stp_c_new', [t, 1]); w.check(not ran(p), 'none', 'a callback runs', p); p = w.do('drv_stp_c_delete', [p.n(p.ret)]); w.check(not ran(p), 'none', 'a callback runs', p)
    w.do('drv_stp_s_sure', [s]); w.check(w.bool('drv_stp_s_possible', [s]) == 1 and w.bool('drv_stp_s_request', [s]) == 1, 'sure', 'make_sure_possible does not make stopping possible')
    w = w0.new('a token whose sources are gone'); s = w.source(); t = w.token(s); k = w.cbs(s, 2); w.do('drv_stp_s_dtor', [s])
    w.check(w.bool('drv_stp_t_possible', [t]) == 0 and w.bool('drv_stp_t_requested', [t]) == 0, 'orphan', 'stopping is still possible or requested')
    p = w.do('drv_stp_c_new', [t, 1]); w.check(not ran(p), 'orphan', 'a callback runs', p); p = w.do('drv_stp_c_delete', [p.n(p.ret)]); w.check(not ran(p), 'orphan', 'a callback runs', p)
    for x in k: p = w.do('drv_stp_c_delete', [x]); w.check(not ran(p), 'orphan', 'a callback runs', p)
    w = w0.new('a token whose sources are gone after the request'); s = w.source(); t = w.token(s); w.do('drv_stp_s_request', [s]); w.do('drv_stp_s_dtor', [s])
    w.check(w.bool('drv_stp_t_possible', [t]) == 1 and w.bool('drv_stp_t_requested', [t]) == 1, 'sticky', 'the request is forgotten')
    p = w.do('drv_stp_c_new', [t, 1]); w.check(ran(p) == [1], 'sticky', 'a callback registered then does not run once', p)
    # two states do not affect each other
    w = w0.new('two independent sources'); s = w.source(); z = w.source(); t = w.token(z); w.cbs(s, 1); w.cbs(z, 2, 10); p = w.do('drv_stp_s_request', [s])
    w.check(ran(p) == [0] and w.bool('drv_stp_t_requested', [t]) == 0, 'independent', 'the request reaches the wrong callbacks', p)
    # callbacks that use the state
    for n in (1, 2, 3):
        for i in range(n):
            w = w0.new('%d callbacks, number %d requests again, registers another one and asks' % (n, i)); s = w.source(); t = w.token(s); k = w.cbs(s, n); b = w.obj('inner')
            w.e.cfg.stops = {i: [('drv_stp_s_request', [s]), ('drv_stp_c_make', [b, t, 50]), ('drv_stp_t_requested', [t]), ('drv_stp_s_copy', [w.obj('s'), s])]}
            p = w.do('drv_stp_s_request', [s]); w.check(sorted(ran(p)) == list(range(n)) + [50] and p.num(p.ret) == 1, 're-entrant', 'callbacks %s run' % ran(p), p)
            w.check(w.bool('drv_stp_s_request', [s]) == 0, 're-entrant', 'a later request reports true')
    # two threads
    w0.new('')
    w = w0.new('one thread requests while another one registers a callback and requests'); s = w.source(); z = w.obj('copy'); w.do('drv_stp_s_copy', [z, s]); t = w.token(s); b = w.obj('callback'); seen = 0
    for q, p in both(w, ('drv_stp_s_request', [s]), [('drv_stp_c_make', [b, t, 50]), ('drv_stp_s_request', [z])]):
        seen += 1
        r = [p.num(p.ret), p.num(p.st.ex[('ret', 1)])]
        q.check(sorted(r) == [0, 1], 'race-first', 'the two requests report %s' % r, p); q.check(ran(p) == [50], 'race-each-once', 'callbacks %s run' % ran(p), p)
    c.check(seen > 20, 'K01.interleavings', 'only %d interleavings of a request with registration and request' % seen)
    for n in (0, 1, 2) if deep else (0, 1):
        w = w0.new('two threads request, %d callbacks' % n); s = w.source(); z = w.obj('copy'); w.do('drv_stp_s_copy', [z, s]); t = w.token(s); w.cbs(s, n)
        seen = 0
        for q, p in both(w, ('drv_stp_s_request', [s]), ('drv_stp_s_request', [z]), two=deep or n < 2):
            seen += 1
            r = [p.num(p.ret), p.num(p.st.ex[('ret', 1)])]
            q.check(sorted(r) == [0, 1], 'race-first', 'the two requests report %s' % r, p); q.check(sorted(ran(p)) == list(range(n)), 'race-each-once', 'callbacks %s run' % ran(p), p)
            if seen % 7 == 0: q.check(q.bool('drv_stp_t_requested', [t]) == 1, 'race-after', 'the token is not told', p)
        c.check(seen > 3, 'K01.interleavings', 'only %d interleavings of two requests' % seen)
        for first in (0, 1):
            w = w0.new('one thread requests while another one registers a callback, %d callbacks before' % n); s = w.source(); t = w.token(s); w.cbs(s, n); b = w.obj('callback')
            A, B = ('drv_stp_s_request', [s]), ('drv_stp_c_make', [b, t, 50]); seen = 0
            for q, p in both(w, *((A, B) if first else (B, A)), two=deep or n < 1):
                seen += 1
                q.check(sorted(ran(p)) == list(range(n)) + [50], 'race-register', 'callbacks %s run' % ran(p), p)
                q.check(p.num(p.ret if first else p.st.ex[('ret', 1)]) == 1, 'race-register', 'the only request reports false', p)
                p = q.do('drv_stp_c_dtor', [b]); q.check(not ran(p), 'race-register', 'a callback runs at its end', p)
                p = q.do('drv_stp_s_request', [s]); q.check(p.num(p.ret) == 0 and not ran(p), 'race-register', 'a later request runs callbacks', p)
            c.check(seen > 5, 'K01.interleavings', 'only %d interleavings of request and registration' % seen)
        w = w0.new('two threads register, %d callbacks before' % n); s = w.source(); t = w.token(s); w.cbs(s, n); b = w.obj('b'); d = w.obj('d')
        for q, p in both(w, ('drv_stp_c_make', [b, t, 50]), ('drv_stp_c_make', [d, t, 51]), two=deep or n < 1):
            q.check(not ran(p), 'race-two', 'a callback runs before the request', p)
            p = q.do('drv_stp_s_request', [s]); q.check(sorted(ran(p)) == list(range(n)) + [50, 51], 'race-two', 'callbacks %s run' % ran(p), p)

# ---------------------------------------------------------------- K02
@guard
def K02(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'K02')
    top = 4 if deep else 3
    def rest(w, s, exp, p0, what='rest'):
        p = w.do('drv_stp_s_request', [s]); w.check(sorted(ran(p)) == sorted(exp), what, 'callbacks %s run afterwards instead of %s' % (sorted(ran(p)), sorted(exp)), p)
    # ended before the request: any of them, in any order
    for spurious in (False, True):
        wx = W(c, 'K02', spurious) if spurious else w0
        for n in range(1, top + 1 - spurious):
            for out in itertools.chain.from_iterable(itertools.permutations(range(n), r) for r in range(1, n + 1)):
                w = wx.new('%d callbacks, number %s end' % (n, ', '.join(map(str, out)))); s = w.source(); k = w.cbs(s, n)
                for i in out:
                    p = w.do('drv_stp_c_delete', [k[i]]); w.check(not ran(p), 'quiet', 'a callback runs at its end', p)
                v = w.copy(); rest(v, s, [i for i in range(n) if i not in out], p)
                for i in range(n):
                    if i not in out: p = v.do('drv_stp_c_delete', [k[i]]); v.check(not ran(p), 'quiet', 'a callback runs at its end', p)
                # new ones may come
                b = w.cbs(s, 1, 30); rest(w, s, [i for i in range(n) if i not in out] + [30], p)
    # ended by a callback: itself, one that ran, one that is still to run
    for n in range(1, top + 1):
        w = w0.new(''); s = w.source(); k = w.cbs(s, n); p = w.do('drv_stp_s_request', [s]); order = ran(p)
        if sorted(order) != list(range(n)): w.check(False, 'order', 'callbacks %s run' % order, p); return
        for i in range(n):
            for gone in itertools.chain.from_iterable(itertools.permutations(range(n), r) for r in (1, 2)):
                w = w0.new('%d callbacks; the one that runs as number %d ends the one(s) of number %s' % (n, i + 1, ', '.join(str(g + 1) for g in gone))); s = w.source(); k = w.cbs(s, n)
                w.e.cfg.stops = {order[i]: [('drv_stp_c_delete', [k[order[g]]]) for g in gone]}
                p = w.do('drv_stp_s_request', [s])
                exp = [order[j] for j in range(n) if j <= i or j not in gone]
                w.check(sorted(ran(p)) == sorted(exp) and p.num(p.ret) == 1, 'inside', 'callbacks %s run instead of %s' % (ran(p), exp), p)
                for j in range(n):
                    if j not in gone: p = w.do('drv_stp_c_delete', [k[order[j]]]); w.check(not ran(p), 'quiet', 'a callback runs at its end', p)
                p = w.do('drv_stp_s_dtor', [s]); w.check(len(p.k('delete', 'free')) == 1, 'state', 'the stop state is not released by its last user', p)
    # another thread
    def order_ok(q, p, k, thr):
        """the end of callback k, on thread thr, does not return while the other thread runs it"""
        run = [x for x in p.k('stopped') if x.a[0] == k and x.ctx != thr]; done = [x for x in p.k('stop-done') if x.a[0] == k and x.ctx != thr]
        end = [x for x in p.k('delete') if x.ctx == thr and x.name and 'stop_callback' in x.name] or [x for x in p.k('delete') if x.ctx == thr]
        if run:
            q.check(bool(done), 'waits', 'the callback does not finish', p, run[0])
            e = end[-1] if end else None
            if q.check(e is not None, 'waits', 'the callback is not destroyed', p):
                q.check(e.n < run[0].n or e.n > done[0].n, 'waits', 'a callback is destroyed while another thread runs it', p, e)
                q.check(e.n > run[0].n, 'never-after', 'a callback runs after it was destroyed', p, run[0])
    for n in (1, 2, 3) if deep else (1, 2):
        for i in range(n):
            for first in (0, 1):
                w = w0.new('%d callbacks; one thread requests while another one ends number %d' % (n, i)); s = w.source(); k = w.cbs(s, n)
                A, B = ('drv_stp_s_request', [s]), ('drv_stp_c_delete', [k[i]]); seen = 0; early = late = 0
                for q, p in both(w, *((A, B) if first else (B, A)), two=deep or n < 2):
                    seen += 1
                    order_ok(q, p, i, 1 if first else 0)
                    r = ran(p); q.check(sorted(x for x in r if x != i) == [j for j in range(n) if j != i] and r.count(i) <= 1, 'race', 'callbacks %s run' % r, p)
                    q.check(p.num(p.ret if first else p.st.ex[('ret', 1)]) == 1, 'race', 'the request reports false', p)
                    early += i in r; late += i not in r
                    if seen % 5 == 1:
                        for j in range(n):
                            if j != i: p = q.do('drv_stp_c_delete', [k[j]])
                        p = q.do('drv_stp_s_dtor', [s]); q.check(len(p.k('delete', 'free')) == 1, 'race-state', 'the stop state is not released by its last user', p)
                c.check(seen > 8 and early and late, 'K02.interleavings', 'only %d interleavings of request and end (%d run it, %d do not)' % (seen, early, late))
    for n in (2, 3):
        for i, j in itertools.permutations(range(n), 2):
            w = w0.new('%d callbacks; two threads end number %d and %d' % (n, i, j)); s = w.source(); k = w.cbs(s, n)
            for q, p in both(w, ('drv_stp_c_delete', [k[i]]), ('drv_stp_c_delete', [k[j]]), two=deep or n < 3):
                q.check(not ran(p), 'quiet', 'a callback runs', p); rest(q, s, [x for x in range(n) if x not in (i, j)], p, 'race-two')
        w = w0.new('%d callbacks; one ends while another is registered' % n); s = w.source(); t = w.token(s); k = w.cbs(s, n); b = w.obj('b')
        for A, B in itertools.permutations([('drv_stp_c_delete', [k[n - 1]]), ('drv_stp_c_make', [b, t, 50])]):
            for q, p in both(w, A, B, two=deep or n < 3): q.check(not ran(p), 'quiet', 'a callback runs', p); rest(q, s, list(range(n - 1)) + [50], p, 'race-mixed')

# ---------------------------------------------------------------- K03
@guard
def K03(c):
    deep = c.tier == 'thorough'
    w0 = W(c, 'K03')
    # specification: every slot is None (no object), 0 (object without state) or the number of a state; callbacks: (state or 0, form)
    S, Tk, C = ('s0', 's1'), ('t0', 't1'), ('c0', 'c1')
    def fresh():
        w = w0.new(''); w.v = {}; w.ob = {x: w.obj(x) for x in S + Tk}; w.req = {}; w.ptr = {}; w.nst = 0; w.hist = ()
        for x in S + Tk + C: w.v[x] = None
        return w
    def cp(w):
        n = w.copy()
        for a in ('v', 'ob', 'req', 'ptr'): setattr(n, a, dict(getattr(w, a)))
        return n
    def users(w, k): return [x for x in w.v if w.v[x] == k]
    def sources(w, k): return [x for x in S if w.v[x] == k]
    def key(w):
        ren = {}
        def f(x):
            if x in (None, 0): return x
            return ren.setdefault(x, len(ren) + 1)
        return tuple(f(w.v[x]) for x in S + Tk + C), tuple(sorted((f(k), r) for k, r in w.req.items() if k in ren))
    def ops(w):
        for x in S:
            o = S[1 - S.index(x)]
            if w.v[x] is None:
                if w.nst < 2: yield ('s_make', x)
                yield ('s_none', x)
                if w.v[o] is not None: yield ('s_copy', x, o); yield ('s_move', x, o)
            else:
                yield ('s_dtor', x); yield ('s_request', x); yield ('s_assign', x, x)
                if w.v[x] == 0 and w.nst < 2: yield ('s_sure', x)
                if w.v[x]: yield ('s_sure', x)
                if w.v[o] is not None: yield ('s_assign', x, o); yield ('s_massign', x, o); yield ('s_swap', x, o)
                for t in Tk:
                    if w.v[t] is None: yield ('s_token', t, x)
        for x in Tk:
            o = Tk[1 - Tk.index(x)]
            if w.v[x] is None:
                if w.v[o] is not None: yield ('t_copy', x, o); yield ('t_move', x, o)
            else:
                yield ('t_dtor', x); yield ('t_assign', x, x)
                if w.v[o] is not None: yield ('t_assign', x, o); yield ('t_massign', x, o); yield ('t_swap', x, o)
                for k in C:
                    if w.v[k] is None: yield ('c_new', k, x); yield ('c_newt', k, x); break
        for k in C:
            if w.v[k] is not None: yield ('c_delete', k)
    def apply(w, op):
        o = op[0]; x = op[1]; y = op[2] if len(op) > 2 else None
        before = dict(w.v)
        if o == 'c_new' or o == 'c_newt': args = [w.ob[y], C.index(x)]
        elif o == 'c_delete': args = [w.ptr[x]]
        else: args = [w.ob[x]] + ([w.ob[y]] if y else [])
        p = w.do('drv_stp_' + o, args)
        exp_run = []; ret = None; made = None
        if o in ('s_make',) or o == 's_sure' and w.v[x] == 0: w.nst += 1; made = w.nst; w.v[x] = made; w.req[made] = 0
        elif o == 's_none': w.v[x] = 0
        elif o in ('s_copy', 't_copy', 's_token', 's_assign', 't_assign'): w.v[x] = w.v[y]
        elif o in ('s_move', 't_move', 's_massign', 't_massign'): w.v[x] = w.v[y]; w.v[y] = 0
        elif o in ('s_swap', 't_swap'): w.v[x], w.v[y] = w.v[y], w.v[x]
        elif o in ('s_dtor', 't_dtor', 'c_delete'): w.v[x] = None
        elif o == 's_request':
            k = w.v[x]; ret = int(bool(k) and not w.req[k])
            if ret: w.req[k] = 1; exp_run = [C.index(z) for z in C if w.v[z] == k]
        elif o in ('c_new', 'c_newt'):
            k = w.v[y]; w.ptr[x] = p.n(p.ret); w.v[x] = 0
            if k and w.req[k]: exp_run = [C.index(x)]
            elif k and [z for z in S if before[z] == k]:
                w.v[x] = k
                if o == 'c_newt': w.v[y] = 0
        w.hist += (' '.join(op),); w.what = 'after ' + ', '.join(w.hist)
        w.check(sorted(ran(p)) == exp_run, 'callbacks', 'callbacks %s run instead of %s' % (ran(p), exp_run), p)
        if ret is not None: w.check(p.num(p.ret) == ret, 'request', 'the request reports %s' % p.num(p.ret), p)
        # states: created and released
        def holders(v, k): return [z for z in v if v[z] == k]
        gone = [k for k in set(before.values()) - {None, 0} if not users(w, k)]
        isst = lambda a: 'stop_state' in (w.e.label(a) or '') or a in w.ptr.values()
        d = [x for x in p.k('delete')]
        cbp = w.ptr.get(op[1]) if o == 'c_delete' else None
        d = [z for z in d if p.n(z.a[0]) != cbp]
        ok = w.check(len(d) == len(gone), 'released', '%d stop states are released instead of %d' % (len(d), len(gone)), p, d[-1] if d else None)
        nw = [z for z in p.k('new') if o not in ('c_new', 'c_newt')]
        w.check(len(nw) == int(made is not None), 'created', '%d stop states are created' % len(nw), p)
        if not ok: raise Stop()
        for z in S + Tk:
            k = w.v[z]
            if k is None: continue
            r = int(bool(k) and w.req[k]); pos = int(bool(k)) if z in S else int(bool(k) and (w.req[k] or bool(sources(w, k))))
            w.check(w.bool('drv_stp_%s_requested' % z[0], [w.ob[z]]) == r, 'requested', '%s.stop_requested is not %s' % (z, r), p)
            w.check(w.bool('drv_stp_%s_possible' % z[0], [w.ob[z]]) == pos, 'possible', '%s.stop_possible is not %s' % (z, pos), p)
        # the end of everything from here releases everything
        u = cp(w); u.what += ', then all of them go away'
        n0 = 0
        for z in S + Tk + C:
            if u.v[z] is not None:
                q = u.do('drv_stp_c_delete', [u.ptr[z]]) if z in C else u.do('drv_stp_%s_dtor' % z[0], [u.ob[z]])
                n0 += len([y for y in q.k('delete') if q.n(y.a[0]) != u.ptr.get(z)]); u.check(not ran(q), 'callbacks', 'a callback runs at its end', q)
        want = len(set(u.v.values()) - {None, 0}); u.check(n0 == want, 'released', '%d stop states are released instead of %d' % (n0, want), p)
        return p
    depth = 9 if deep else 6
    w = fresh(); todo = [w]; seen = {key(w)}; n = 0; lim = 4000 if deep else 330
    while todo and n < lim:
        w = todo.pop(0); n += 1
        for op in list(ops(w)):
            v = cp(w); apply(v, op)
            if len(v.hist) < depth and key(v) not in seen: seen.add(key(v)); todo.append(v)
    c.check(n >= 300, 'K03.states', 'only %d situations could be reached' % n)
    # two threads: the last users leave at the same time; copies are made while others leave
    def st(w, p): return [x for x in p.k('delete') if 'stop_callback' not in (x.name or '')]
    def race(what, build, final):
        for flip in (0, 1):
            w = w0.new(what); A, B, end = build(w); seen = 0
            for q, p in both(w, *((B, A) if flip else (A, B))):
                seen += 1
                n0 = len(p.k('delete'))
                for fn, a in end:
                    p = q.do(fn, a); n0 += len(p.k('delete'))
                q.check(n0 == final, 'race-released', '%d objects are released instead of %d' % (n0, final), p)
            c.check(seen >= 2, 'K03.interleavings', 'only %d interleavings' % seen)
    def b1(w): s = w.source(); t = w.token(s); return ('drv_stp_s_dtor', [s]), ('drv_stp_t_dtor', [t]), []
    def b2(w): s = w.source(); t = w.token(s); u = w.token(s); w.do('drv_stp_s_dtor', [s]); return ('drv_stp_t_dtor', [u]), ('drv_stp_t_dtor', [t]), []
    def b3(w): s = w.source(); z = w.obj('copy'); w.do('drv_stp_s_copy', [z, s]); return ('drv_stp_s_dtor', [s]), ('drv_stp_s_dtor', [z]), []
    def b4(w): s = w.source(); t = w.token(s); u = w.obj('new'); return ('drv_stp_s_dtor', [s]), ('drv_stp_t_copy', [u, t]), [('drv_stp_t_dtor', [t]), ('drv_stp_t_dtor', [u])]
    def b5(w): s = w.source(); z = w.obj('copy'); w.do('drv_stp_s_copy', [z, s]); t = w.obj('new'); return ('drv_stp_s_dtor', [s]), ('drv_stp_s_token', [t, z]), [('drv_stp_s_dtor', [z]), ('drv_stp_t_dtor', [t])]
    def b6(w): s = w.source(); k = w.cbs(s, 1); return ('drv_stp_s_dtor', [s]), ('drv_stp_c_delete', [k[0]]), []
    def b7(w): s = w.source(); k = w.cbs(s, 2); w.do('drv_stp_s_dtor', [s]); return ('drv_stp_c_delete', [k[1]]), ('drv_stp_c_delete', [k[0]]), []
    def b8(w): s = w.source(); t = w.token(s); k = w.cbs(s, 1); w.do('drv_stp_s_request', [s]); w.do('drv_stp_s_dtor', [s]); return ('drv_stp_t_dtor', [t]), ('drv_stp_c_delete', [k[0]]), []
    def b9(w): s = w.obj('source'); w.do('drv_stp_s_none', [s]); return ('drv_stp_s_sure', [s]), ('drv_stp_s_sure', [s]), [('drv_stp_s_dtor', [s])]
    for what, b, f in (('the last source and the last token leave', b1, 1), ('the last two tokens leave', b2, 1), ('the last two sources leave', b3, 1), ('a token is copied while the last source leaves', b4, 1), ('a token is taken while another source leaves', b5, 1), ('the last source and the last callback leave', b6, 2), ('the last two callbacks leave', b7, 3), ('the last token and a callback that ran leave', b8, 2)): race(what, b, f)
    w = w0.new('two threads make sure that stopping is possible'); A, B, end = b9(w)
    for q, p in both(w, A, B):
        made = len(p.k('new')); gone = len(p.k('delete')); q.check(made - gone == 1, 'sure-once', '%d states are created and %d released' % (made, gone), p)
        s = A[1][0]; t = q.token(s); q.check(q.bool('drv_stp_s_request', [s]) == 1, 'sure-once', 'stopping is impossible', p); q.do('drv_stp_t_dtor', [t])
        p = q.do('drv_stp_s_dtor', [s]); q.check(len(p.k('delete')) == 1, 'sure-released', 'the state is not released', p)

PROPS = dict(K01=K01, K02=K02, K03=K03)
