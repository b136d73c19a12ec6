"""Building blocks: spin lock (L01), batch lock (L04), intrusive list (Q01), counted pointer (R01)."""
from spec import *
import spec
from rules.channel import one
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
SPIN = {r'^librf::spinlock::(lock|try_lock|unlock)\(': lambda *a: NotImplemented}

# ---------------------------------------------------------------- spin lock
def L01(c):
    def spec_run(entry):
        cfg = config(SPIN, widen=True); cfg.unroll = 10
        g = {}
        e, ps = c.run(entry, lambda e, st, a: g.update(s=a[0]), cfg=cfg)
        return e, g['s'], ps
    # what "free" is: the word a fresh lock holds
    cfg = config(SPIN); cfg.unroll = 6
    e, st = c.engine(cfg)
    s = c.obj(e, st, 'spinlock', 'librf::spinlock')
    p = one(c, 'L01.make', c.step(e, st, 'drv_spin_make', [s]), 'constructing a spin lock')
    if not p: return
    free = {o: p.n(v[1]) for o, v in p.st.mem[s[1]].items()}
    def seq(st, ops, what):
        for op, want in ops:
            ps = c.step(e, st, 'drv_spin_' + op, [s])
            for p in ps:
                if not c.check(p.status == 'ret', 'L01.sequence', '%s then %s ends with %s' % (what, op, p.status), p): return None
                if want is not None: c.check(p.num(p.ret) == want, 'L01.' + op, '%s: %s reports %s' % (what, op, p.num(p.ret)), p)
            if not c.check(bool(ps), 'L01.sequence', '%s then %s never returns' % (what, op)): return None
            st = p.st; what += ', ' + op
        return st
    for ops in ([('try', 1), ('try', 0), ('try', 0), ('unlock', None), ('try', 1)], [('lock', None), ('try', 0), ('unlock', None), ('lock', None), ('try', 0)]):
        if seq(p.st, ops, 'a new lock') is None: return
    def is_free(p, off_, v): return off_ in free and p.n(v) == free[off_]
    def analyse(entry):
        e, s, ps = spec_run(entry)
        for p in ps:
          if p.status != 'ret':
                c.fail('L01.' + entry[9:] + '-completes', '%s ends with %s' % (entry[9:], p.status), p); continue
          for p in ([q for q, t in p.split(p.ret)] if entry.endswith('try') and p.status == 'ret' else [p] if p.status == 'ret' else []):
            acc = [x for x in p.ev if x.k in ('store', 'rmw', 'cas') and P(p.n(x.a[0])) and p.n(x.a[0])[1] == s[1]]
            got = []; bad = None
            for x in acc:
                o = p.n(x.a[0])[2]
                if x.k == 'cas':
                    if x.ret != 1: continue
                    if is_free(p, o, x.a[1]) and not is_free(p, o, x.a[2]): got.append((x, x.x[0])); continue
                if x.k == 'rmw' and x.name == 'xchg' and not is_free(p, o, x.a[1]):
                    t = p.e.known_cmp(p.st, 'eq', p.n(x.ret), free.get(o), 32)
                    if t: got.append((x, x.x)); continue
                    if t is False: continue
                bad = bad or x
            yield e, s, p, acc, got, bad
    n = 0
    for e, s, p, acc, got, bad in analyse('drv_spin_lock'):
        n += 1
        if not c.check(bad is None, 'L01.lock-writes', 'lock() changes the lock word other than by taking a free lock', p, bad): continue
        if not c.check(len(got) == 1, 'L01.lock-held', 'lock() returns after taking the lock %d times' % len(got), p, acc[-1] if acc else None): continue
        c.check(got[0][1] in ACQ, 'L01.lock-order', 'taking the lock does not order later accesses after it (%s)' % got[0][1], p, got[0][0])
    c.check(n >= 2, 'L01.lock-paths', 'lock() has only %d paths' % n)
    seen = set()
    for e, s, p, acc, got, bad in analyse('drv_spin_try'):
        if not c.check(bad is None, 'L01.try-writes', 'try_lock() changes the lock word other than by taking a free lock', p, bad): continue
        for t in p.rets():
            seen.add(t)
            if c.check(len(got) == int(t), 'L01.try-held', 'try_lock() reports %s after taking the lock %d times' % (t, len(got)), p, acc[-1] if acc else None) and t:
                c.check(got[0][1] in ACQ, 'L01.try-order', 'taking the lock does not order later accesses after it (%s)' % got[0][1], p, got[0][0])
    c.check(seen == {True, False}, 'L01.try-shape', 'try_lock lost an outcome')
    e, s, ps = spec_run('drv_spin_unlock')
    for p in ps:
        if p.status != 'ret': c.fail('L01.unlock-completes', 'unlock ends with ' + str(p.status), p); continue
        acc = [x for x in p.ev if x.k in ('store', 'rmw', 'cas') and P(p.n(x.a[0])) and p.n(x.a[0])[1] == s[1]]
        if not c.check(len(acc) == 1 and acc[0].k in ('store', 'rmw'), 'L01.unlock', 'unlock() writes the lock word %d times' % len(acc), p): continue
        x = acc[0]; o = p.n(x.a[0])[2]
        c.check(is_free(p, o, x.a[1]) and (x.k == 'store' or x.name == 'xchg'), 'L01.unlock-free', 'unlock() does not leave the lock free', p, x)
        c.check(x.x in REL, 'L01.unlock-order', 'unlock() does not order earlier accesses before it (%s)' % x.x, p, x)

# ---------------------------------------------------------------- batch lock
def L04(c):
    deep = c.tier == 'thorough'
    sizes = (0, 1, 2, 3, 4) if not deep else (0, 1, 2, 3, 4, 5)
    for n in sizes:
        cfg = config(drop=('batch_lock_t',)); cfg.unroll = 12
        e, st = c.engine(cfg)
        v = c.obj(e, st, 'locks'); L = []
        p = one(c, 'L04.vec', c.step(e, st, 'drv_batch_vec', [v]), 'empty lock set')
        for i in range(n):
            if not p: return
            L.append(c.obj(e, p.st, 'lock%d' % i, 'librf::spinlock'))
            p = one(c, 'L04.vec', c.step(e, p.st, 'drv_batch_add', [v, L[i]]), 'adding a lock')
        if not p: return
        st = p.st
        def held(q): return sorted(q.n(l[0]) for l in q.st.locks)
        def final(q, what, want):
            x = getattr(q, 'bad', None)
            if not c.check(q.status == 'ret' and x is None, 'L04.completes', '%s %d locks: %s' % (what, n, x.k if x else q.status), q, x): return False
            return c.check(held(q) == sorted(want), 'L04.held', '%s %d locks ends with %d of them held' % (what, n, len(held(q))), q)
        for form in ('lock', 'lock_la'):
            b = c.obj(e, st, 'batch')
            ps = c.step(e, st, 'drv_batch_' + form, [b, v])
            done = 0; forms = {}
            for q in ps:
                for x in q.k('lock'):
                    other = [l for l in x.locks]
                    c.check(not other, 'L04.hold-and-wait', 'waits for one of %d locks while holding another' % n, q, x)
                for x in q.ev:
                    if x.k in ('badunlock', 'selfdeadlock'): break
                if final(q, 'locking', L): done += 1; forms.setdefault(repr(sorted(q.st.mem.get(b[1], {}).items())), q)
            c.check(done >= (1 if n < 2 else 2), 'L04.paths', 'locking %d locks has only %d complete paths' % (n, done))
            for q in list(forms.values())[:2]: after(c, e, q, b, L, n, final)
        for form in ('adopt', 'adopt_la'):
            s = st.fork()
            s.locks = tuple((l, 'lock') for l in L)
            b = c.obj(e, s, 'batch')
            for q in c.step(e, s, 'drv_batch_' + form, [b, v]):
                c.check(not q.k('lock', 'trylock', 'unlock'), 'L04.adopt', 'adopting locks that are held acts on them', q)
                if final(q, 'adopting', L): after(c, e, q, b, L, n, final)
        if n in (1, 2):
            # two batches
            w = c.obj(e, st, 'locks2'); M = []
            p = one(c, 'L04.vec', c.step(e, st, 'drv_batch_vec', [w]), 'empty lock set')
            for i in range(2):
                if not p: return
                M.append(c.obj(e, p.st, 'other%d' % i, 'librf::spinlock')); p = one(c, 'L04.vec', c.step(e, p.st, 'drv_batch_add', [w, M[i]]), 'adding a lock')
            if not p: return
            s = p.st.fork(); s.locks = tuple((l, 'lock') for l in L + M)
            a, b = c.obj(e, s, 'batch'), c.obj(e, s, 'batch2')
            p = one(c, 'L04.two', c.step(e, s, 'drv_batch_adopt', [a, v]), 'first batch'); p = p and one(c, 'L04.two', c.step(e, p.st, 'drv_batch_adopt', [b, w]), 'second batch')
            if not p: return
            for pre in ('none', 'target-empty', 'source-empty', 'both-empty'):
                q = p; hA, hB = list(L), list(M)
                if pre in ('target-empty', 'both-empty'): q = one(c, 'L04.two', c.step(e, q.st, 'drv_batch_unlock', [a]), 'unlock'); hA = []
                if q and pre in ('source-empty', 'both-empty'): q = one(c, 'L04.two', c.step(e, q.st, 'drv_batch_unlock', [b]), 'unlock'); hB = []
                if not q: return
                for r in c.step(e, q.st, 'drv_batch_assign', [a, b]):
                    if not final(r, 'move assignment (%s)' % pre, hB): continue
                    t = one(c, 'L04.two', c.step(e, r.st, 'drv_batch_dtor', [b]), 'destroying the moved-from batch')
                    if t and final(t, 'destroying the moved-from batch', hB):
                        t = one(c, 'L04.two', c.step(e, t.st, 'drv_batch_dtor', [a]), 'destroying the batch')
                        if t: final(t, 'destroying the assigned batch', [])
            for r in c.step(e, p.st, 'drv_batch_assign', [a, a]): final(r, 'self assignment', L + M)

def after(c, e, q, b, L, n, final):
    """a batch that holds its locks: destructor, unlock, move"""
    for ops in (('dtor',), ('unlock', 'dtor'), ('unlock', 'unlock', 'dtor')):
        p = q
        for i, op in enumerate(ops):
            p = one(c, 'L04.' + op, c.step(e, p.st, 'drv_batch_' + op, [b]), '%s of a batch of %d locks' % (op, n))
            if not p or not final(p, ' then '.join(ops[:i + 1]) + ' of a batch of', []): break
    m = c.obj(e, q.st, 'moved')
    p = one(c, 'L04.move', c.step(e, q.st, 'drv_batch_move', [m, b]), 'moving a batch of %d locks' % n)
    if not p or not final(p, 'moving', L): return
    p = one(c, 'L04.move', c.step(e, p.st, 'drv_batch_dtor', [b]), 'destroying the moved-from batch')
    if not p or not final(p, 'destroying a moved-from batch of', L): return
    p = one(c, 'L04.move', c.step(e, p.st, 'drv_batch_dtor', [m]), 'destroying the new batch')
    if p: final(p, 'destroying the moved-to batch of', [])

# ---------------------------------------------------------------- intrusive list
class Refs:
    """net references taken on nodes, by region"""
    def __init__(r): r.n = {}
    def copy(r): x = Refs(); x.n = dict(r.n); return x
    def run(r, p, live=()):
        """apply the reference events of p; returns the first event that drops a node of live to zero, or goes below zero"""
        bad = None
        for x in p.k('ref+', 'ref-'):
            a = p.n(x.a[0]); k = a[1] if P(a) else a
            r.n[k] = r.n.get(k, 0) + (1 if x.k == 'ref+' else -1)
            if r.n[k] < 0 or (r.n[k] == 0 and k in live): bad = bad or x
        return bad

class List:
    def __init__(w, c, kind, pid):
        w.c = c; w.kind = kind; w.pid = pid
        cfg = config({r'^drv_cnode::lock\(\)': h_ref('ref+'), r'^drv_cnode::unlock\(\)': h_ref('ref-')}, drop=('intrusive_link_queue',)); cfg.unroll = 6
        w.e, w.st = c.engine(cfg); w.refs = Refs(); w.L = []; w.n = 0
        w.q = c.obj(w.e, w.st, 'list')
        w.ok = w.do('make', [w.q]) is not None
    def copy(w):
        n = List.__new__(List); n.__dict__.update(w.__dict__); n.st = w.st.fork(); n.refs = w.refs.copy(); n.L = list(w.L); return n
    def do(w, fn, args):
        p = one(w.c, w.pid + '.' + fn, w.c.step(w.e, w.st, 'drv_iq_%s_%s' % (w.kind, fn), args), '%s on a list of %d' % (fn, len(w.L)))
        if p is not None: w.st = p.st
        return p
    def node(w):
        n = w.c.obj(w.e, w.st, 'node%d' % w.n, 'drv_node' if w.kind == 'raw' else 'drv_cnode'); w.n += 1
        p = one(w.c, w.pid + '.node', w.c.step(w.e, w.st, 'drv_cp_raw_node' if w.kind == 'raw' else 'drv_cp_node', [n]), 'node')
        if p: w.st = p.st
        return n
    def op(w, op, i=None):
        c = w.c; n = len(w.L)
        what = '%s%s on a list of %d' % (op, '' if i is None else ' of element %d' % i, n)
        before = list(w.L); gone = None
        if op in ('push_back', 'push_front'):
            x = w.node(); p = w.do(op, [w.q, x])
            w.L = w.L + [x] if op == 'push_back' else [x] + w.L
        elif op == 'erase':
            gone = w.L[i]; p = w.do(op, [w.q, gone]); w.L = w.L[:i] + w.L[i + 1:]
        else:
            o = c.obj(w.e, w.st, 'out'); w.st = w.st.fork(); w.e.store(w.st, o, 0, 'ptr', log=False)
            p = w.do('pop', [w.q, o])
            if p is None: return False
            got = p.cell(o)
            want = w.L[0] if w.L else 0
            if not c.check(got == want, w.pid + '.order', what + (' does not yield the first element' if w.L else ' yields something'), p): return False
            gone = w.L[0] if w.L else None; w.L = w.L[1:]
        if p is None: return False
        if gone is not None:
            w.st = w.st.fork(); w.st.facts[('freed', gone[1])] = 1      # the caller may dispose of it
        if w.kind == 'cnt':
            k0 = {x[1] for x in before if x != gone}
            bad = w.refs.run(p, k0)
            if not c.check(bad is None, w.pid + '.ref', what + ': a listed element loses its last reference', p, bad): return False
            c.check(all(w.refs.n.get(x[1], 0) > 0 for x in w.L), w.pid + '.owned', what + ': a listed element is not kept alive', p)
            if gone is not None:
                if op == 'pop': w.refs.n[gone[1]] -= 1      # the caller's reference
                c.check(w.refs.n.get(gone[1], 0) == 0, w.pid + '.leak', what + ': %d references to the removed element remain' % w.refs.n.get(gone[1], 0), p)
        for m, v in (('size', len(w.L)), ('empty', not w.L)):
            r = w.do(m, [w.q])
            if r is None: return False
            c.check(r.num(r.ret) == int(v), '%s.%s' % (w.pid, m), '%s: %s() reports %s' % (what, m, r.num(r.ret)), r)
        return True

def Q01(c):
    deep = 4 if c.tier == 'thorough' else 3
    n = 0
    for kind in ('raw', 'cnt'):
        w0 = List(c, kind, 'Q01')
        if not w0.ok: return
        # every way to reach a list of k elements by one last operation, then every operation, then draining it
        level = [w0]
        for k in range(deep + 1):
            nxt = []
            for w in level:
                for op, i in [('push_back', None), ('push_front', None), ('pop', None)] + [('erase', j) for j in range(len(w.L))]:
                    x = w.copy(); n += 1
                    if not x.op(op, i): continue
                    y = x.copy()
                    while y.L:
                        if not y.op('pop'): break
                    else:
                        y.op('pop'); y.op('push_back') and y.op('pop')
                    if op.startswith('push'): nxt.append(x)
                    elif x.L and k < deep:
                        for j in range(len(x.L)):
                            y = x.copy(); y.op('erase', j) and y.op('push_back') and y.op('push_front') and y.op('pop')
            level = nxt[:4]
    c.check(n >= 20, 'Q01.states', 'only %d list states' % n)

# ---------------------------------------------------------------- counted pointer
def R01(c):
    cfg = config({r'^drv_cnode::lock\(\)': h_ref('ref+'), r'^drv_cnode::unlock\(\)': h_ref('ref-')})
    e, st0 = c.engine(cfg)
    A, B = c.obj(e, st0, 'A', 'drv_cnode'), c.obj(e, st0, 'B', 'drv_cnode')
    def net(p):
        d = {}
        low = {}
        for x in p.k('ref+', 'ref-'):
            k = p.n(x.a[0])
            if not P(k): return {None: 1}, {}
            d[k[1]] = d.get(k[1], 0) + (1 if x.k == 'ref+' else -1); low[k[1]] = min(low.get(k[1], 0), d[k[1]])
        return {k: v for k, v in d.items() if v}, low
    def mk(st, name, val):
        o = c.obj(e, st, name)
        if val is not None: e.store(st, o, val, 'ptr', log=False)
        return o
    def chk(op, args, want_cells, want_net, what, safe=()):
        p = one(c, 'R01.' + op, c.step(e, args[0], 'drv_cp_' + op, args[1:]), what)
        if not p: return None
        for o, v in want_cells: c.check(p.cell(o) == v, 'R01.%s-target' % op, '%s: a pointer refers to the wrong object afterwards' % what, p)
        d, low = net(p)
        c.check(d == {k[1]: v for k, v in want_net.items() if v}, 'R01.%s-refs' % op, '%s: references change by %s' % (what, sorted(d.values())), p)
        for x in safe:
            c.check(low.get(x[1], 0) >= 0, 'R01.%s-early' % op, '%s: the object is released before it is referenced again' % what, p)
        return p
    for v in (0, A):
        nm = 'an object' if v else 'nothing'
        st = st0.fork(); d = mk(st, 'd', None)
        chk('make', [st, d, v], [(d, v)], {v: 1} if v else {}, 'construction from ' + nm)
        for op, src in (('copy', v), ('move', 0)):
            st = st0.fork(); s = mk(st, 's', v); d = mk(st, 'd', None)
            chk(op, [st, d, s], [(d, v), (s, v if op == 'copy' else 0)], ({v: 1} if v and op == 'copy' else {}), '%s of a pointer to %s' % (op, nm))
        st = st0.fork(); s = mk(st, 's', v)
        chk('reset', [st, s], [(s, 0)], {v: -1} if v else {}, 'reset of a pointer to ' + nm)
        st = st0.fork(); s = mk(st, 's', v)
        chk('dtor', [st, s], [], {v: -1} if v else {}, 'destruction of a pointer to ' + nm)
        for op in ('get', 'arrow', 'conv'):
            if op == 'arrow' and not v: continue
            st = st0.fork(); s = mk(st, 's', v); p = chk(op, [st, s], [(s, v)], {}, op)
            if p: c.check(p.n(p.ret) == v, 'R01.' + op + '-value', op + ' yields another object', p)
        for op, w in (('eq0', v == 0), ('0eq', v == 0), ('ne0', v != 0), ('0ne', v != 0)):
            st = st0.fork(); s = mk(st, 's', v); p = chk(op, [st, s], [(s, v)], {}, op)
            if p: c.check(p.num(p.ret) == int(w), 'R01.' + op + '-value', 'comparison with null is wrong', p)
        for u in (0, A, B):
            def dd(*xs):
                r = {}
                for k, n in xs:
                    if k: r[k] = r.get(k, 0) + n
                return r
            st = st0.fork(); t, s = mk(st, 't', u), mk(st, 's', v)
            chk('assign', [st, t, s], [(t, v), (s, v)], dd((v, 1), (u, -1)), 'copy assignment')
            st = st0.fork(); t, s = mk(st, 't', u), mk(st, 's', v)
            # the source gives up its object; it may keep nothing
            chk('massign', [st, t, s], [(t, v), (s, 0)], dd((u, -1)), 'move assignment')
            for op in ('swap', 'sswap'):
                st = st0.fork(); t, s = mk(st, 't', u), mk(st, 's', v)
                chk(op, [st, t, s], [(t, v), (s, u)], {}, 'swap')
            st = st0.fork(); t, s = mk(st, 't', u), mk(st, 's', v)
            p = chk('eq', [st, t, s], [], {}, 'comparison')
            if p: c.check(p.num(p.ret) == int(u == v), 'R01.eq-value', 'comparison of pointers is wrong', p)
        for op in ('assign', 'massign'):
            st = st0.fork(); t = mk(st, 't', v)
            chk(op, [st, t, t], [(t, v)], {}, 'self ' + op, [v] if v else [])
    st = st0.fork(); d = mk(st, 'd', None)
    chk('make0', [st, d], [(d, 0)], {}, 'default construction')

PROPS = dict(L01=L01, L04=L04, Q01=Q01, R01=R01)
