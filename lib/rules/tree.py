"""Coroutines that await each other (F05)."""
from spec import *
import spec, itertools, os
from rules.world import *
from rules.system import W
DRIVERS = ('system', 'tree', 'scheduler', 'timer', 'future')
SPLIT = dict(F05=True)

END, THROW, GATE, INT, VOID, REF, YIELD, VIA, KEEP, KEPT, WHERE, DROP, START = range(13)
TEXT = {THROW: 'throw', GATE: 'co_await awaitable %d', INT: 'co_await int coroutine %d', VOID: 'co_await void coroutine %d', REF: 'co_await int& coroutine %d', YIELD: 'yield()', VIA: 'via(%d)', KEEP: 'create coroutine %d', KEPT: 'co_await the created one', WHERE: 'get_current_scheduler()', DROP: 'drop the created one', START: 'start the created one'}
def text(o): return TEXT[o[0]] % o[1] if '%' in TEXT[o[0]] else TEXT[o[0]]
def code(prog):
    r = 0
    for k, (op, a) in enumerate(prog): r |= (op | a << 4) << 8 * k
    return r
class Block(Exception): pass
class Thrown(Exception): pass

class Model:
    """what a task does: its coroutines run like nested calls"""
    def __init__(m, progs, gates): m.progs = progs; m.gates = gates; m.marks = []
    def root(m, who, on):
        m.on = on
        try: m.node(who, 0); return True
        except Thrown: return True
        except Block: return False
    def mark(m, who, v): m.marks.append((who, v, m.on))
    def node(m, who, kind):
        m.mark(who, 0); kept = task = None
        for op, a in m.progs[who]:
            if op == THROW: m.mark(who, 8); raise Thrown(50 + who)
            elif op in (YIELD, DROP): m.mark(who, op)
            elif op == VIA: m.on = a; m.mark(who, 7)
            elif op == KEEP: kept = a; m.mark(who, 800 + a)
            elif op == START:
                here = m.on; m.mark(who, 12)
                try: task = ('v', m.node(kept, 0))
                except Thrown as x: task = ('e', x.args[0])
                except Block: task = ('b',)
                task += (m.on,); m.on = here
            elif op == WHERE: m.mark(who, 300 + m.on)
            else:
                try:
                    if op == GATE:
                        g = m.gates.get(a)
                        if g is None: raise Block()
                        if g[0]: raise Thrown(g[1])
                        v = g[1]
                    elif op == KEPT and task:
                        if task[0] == 'b': raise Block()
                        m.on = task[2]
                        if task[0] == 'e': raise Thrown(task[1])
                        v = task[1]
                    else: v = m.node(kept if op == KEPT else a, 0); v += {VOID: -400, REF: -300}.get(op, 0)
                    m.mark(who, v)
                except Thrown as x: m.mark(who, 2000 + x.args[0])
        m.mark(who, 9); return 1000 + who

class Tr(W):
    def __init__(w, c, pid):
        W.__init__(w, c, pid); w.what = 'setup coroutines'; w.x = w.obj('programs'); w.made = {}; w.gates = {}; w.hist = (); w.roots = (); w.progs = {}; w.on = (); w.where = None
    def fork(w): n = w.copy(); n.gates = dict(w.gates); return n
    def say(w, s): w.hist = w.hist + (s,); w.what = ', '.join(w.hist)
    def note(w, p):
        if hasattr(w, 'made'):
            W.note(w, p); w.on = w.on + tuple((p.num(x.a[0]), w.where) for x in p.k('mark'))
    def load(w, progs):
        w.progs = progs; w.say('; '.join('coroutine %d: %s' % (k, ', '.join(map(text, p)) or 'nothing') for k, p in sorted(progs.items())))
        w.do('drv_tr_make', [w.x, w.S, w.T])
        for k, p in progs.items(): w.do('drv_tr_prog', [w.x, k, code(p)])
    def go(w, who, kind=0, on=0): w.do('drv_tr_go', [w.x, who, kind, on]); w.roots = w.roots + ((who, on),)
    def give(w, k, v, bad=0):
        w.say('awaitable %d gets %s' % (k, 'an exception' if bad else 'a value')); w.gates[k] = (bad, v)
        return w.do(*w.call(k, v, bad))
    def call(w, k, v, bad=0): return 'drv_tr_' + ('fail' if bad else 'give'), [w.x, k, v]
    def batch(w, s, now):
        w.where = 0 if s is w.S else 1
        try: return W.batch(w, s, now)
        finally: w.where = None
    def rest(w): p = w.idle(0); w.judge(p); return p
    threads = False
    def judge(w, p, threads=False):
        threads = threads or w.threads
        for who, on in w.roots:
            m = Model(w.progs, w.gates); m.root(who, on); kin = {k for k, v, s in m.marks} | {who}
            for k in sorted(kin):
                want = [v for j, v, s in m.marks if j == k]; g = w.got(k)
                if not w.check(g == want, 'twice' if len(g) > len(want) and g[:len(want)] == want else 'resumed' if want[:len(g)] == g else 'result', 'coroutine %d went through %s instead of %s (9 end, 8 throws, 2000+ catches, 1000+ result)' % (k, g, want), p): raise Stop()
            seq = [k for k in w.log if k[0] in kin]; want = [(k, v) for k, v, s in m.marks]
            if any(o == START for q in w.progs.values() for o, a in q): continue
            w.check(seq == want, 'order', 'the coroutines run in the order %s instead of %s' % (seq, want), p)
            if not threads:
                at = [s for (k, v), (j, s) in zip(w.log, w.on) if k in kin]
                w.check(at == [s for k, v, s in m.marks], 'scheduler', 'the coroutines run on the schedulers %s instead of %s' % (at, [s for k, v, s in m.marks]), p)
    def close(w):
        """everything that is awaited comes, then nothing is left"""
        w.what += ', the end'
        for k in range(4):
            if k not in w.gates: w.gates = dict(w.gates); w.gates[k] = (0, 70 + k); w.do(*w.call(k, 70 + k))
        p = w.rest()
        for who, on in w.roots:
            m = Model(w.progs, w.gates); w.check(m.root(who, on), 'end', 'coroutine %d does not come to an end' % who, p)
        for s in (w.S, w.T): w.check(w.bool('drv_sc_empty', [s]) == 1, 'tasks', 'a scheduler still has a task although all are over', p)
        p = w.do('drv_tr_dtor', [w.x]); w.leaks(p); return p

def trees(deep):
    """programs: numbers of coroutines are their depth in the tree"""
    leaf = [(), ((THROW, 0),), ((GATE, 0),), ((GATE, 0), (THROW, 0)), ((YIELD, 0),), ((VIA, 1), (WHERE, 0)), ((GATE, 0), (VIA, 1)), ((VIA, 1), (GATE, 0)), ((GATE, 0), (GATE, 1))]
    for kind in (INT, VOID, REF):
        for l in leaf:
            roots = [((kind, 1),), ((kind, 1), (WHERE, 0), (INT, 2))]
            if deep or kind == INT: roots += [((VIA, 1), (kind, 1), (VIA, 0)), ((YIELD, 0), (kind, 1), (YIELD, 0)), ((kind, 1), (THROW, 0)), ((GATE, 2), (kind, 1), (GATE, 3))]
            for r in roots: yield {0: r, 1: l, 2: ((YIELD, 0),)}
    for k1 in (INT, VOID, REF):
        for k2 in (INT, VOID, REF):
            if not deep and k1 != INT and k2 != INT: continue
            for l in leaf if deep or (k1, k2) == (INT, INT) else leaf[2:4]:
                yield {0: ((k1, 1),), 1: ((k2, 2),), 2: l}
                yield {0: ((k1, 1), (WHERE, 0)), 1: ((k2, 2), (GATE, 2)), 2: l}
                if deep: yield {0: ((GATE, 3), (k1, 1)), 1: ((YIELD, 0), (k2, 2), (THROW, 0)), 2: l}
    for l in leaf:
        yield {0: ((KEEP, 1), (KEPT, 0)), 1: l}
        yield {0: ((KEEP, 1), (GATE, 2), (VIA, 1), (KEPT, 0), (WHERE, 0)), 1: l}
        yield {0: ((KEEP, 1), (INT, 2), (KEPT, 0)), 1: l, 2: ((YIELD, 0),)}
    # a coroutine that was started and is awaited later
    for l in [x for x in leaf if (VIA, 1) not in x] + [((GATE, 0), (VIA, 1), (WHERE, 0))]:
        yield {0: ((KEEP, 1), (START, 0), (KEPT, 0), (WHERE, 0)), 1: l}
        if (VIA, 1) not in l:
            yield {0: ((KEEP, 1), (START, 0), (GATE, 2), (KEPT, 0)), 1: l}
            yield {0: ((KEEP, 1), (START, 0), (YIELD, 0), (YIELD, 0), (KEPT, 0)), 1: l}
            yield {0: ((KEEP, 1), (START, 0), (INT, 2), (KEPT, 0)), 1: l, 2: ((YIELD, 0),)}
            yield {0: ((KEEP, 1), (START, 0), (DROP, 0), (GATE, 2)), 1: l}
            yield {0: ((INT, 2), (WHERE, 0)), 1: l, 2: ((KEEP, 1), (START, 0), (YIELD, 0), (KEPT, 0))}
def used(progs): return sorted({a for p in progs.values() for o, a in p if o == GATE})

@guard
def F05(c):
    deep = c.tier == 'thorough'
    base = Tr(c, 'F05')
    def run(progs):
        gs = used(progs)
        for kind in ((0, 1, 2) if deep or len(progs) == 2 else (0,)):
            v = base.fork(); v.load(progs)
            # every order in which the awaited values come: before the start, or while everybody waits
            work = [(v, tuple(gs), False)]; moved = any(START in [o for o, a in q] for q in progs.values()) and any((VIA, 1) in q for q in progs.values())
            while work:
                w, left, gone = work.pop()
                try:
                    if not gone:
                        x = w.fork(); x.say('start'); x.go(0, kind); x.rest(); work.append((x, left, True))
                    for k in left if gone or deep and not moved else left[:0 if moved else 1]:
                        for bad in (0, 1):
                            if bad and not gone and not deep: continue
                            x = w.fork(); p = x.give(k, 70 + k, bad)
                            if gone: p = x.rest()
                            work.append((x, tuple(j for j in left if j != k), gone))
                    if gone: x = w.fork(); x.close(); c.stepcount['coroutine trees'] = c.stepcount.get('coroutine trees', 0) + 1
                except Stop: continue
    if not os.environ.get('TT'): c.par(list(trees(deep)), run)
    c.par(list(threads(deep)), lambda it: pair(c, base, it))
def threads(deep):
    """(programs, what has happened, what thread 1 does, what thread 2 does)"""
    S = ('S',); T = ('T',); G = lambda k, bad=0: ('give', k, bad)
    for kind in (INT, VOID, REF) if deep else (INT, VOID):
        for bad in (0, 1):
            for l in ([(GATE, 0)], [(GATE, 0), (YIELD, 0)], [(GATE, 0), (THROW, 0)]) if deep else ([(GATE, 0)],):
                p = {0: ((kind, 1),), 1: tuple(l)}
                yield p, ('go',), S, (G(0, bad),)
                yield p, ('go', S), S, (G(0, bad),)
                yield p, ('go', S), G(0, bad), (S, S)
                yield p, ('go', S, S), G(0, bad), (S, S)
                yield p, ('go', S, S), S, (G(0, bad),)
    for bad in (0, 1):
        p = {0: ((GATE, 0), (WHERE, 0))}
        yield p, ('go',), S, (G(0, bad),)
        yield p, ('go',), G(0, bad), (S, S)
        yield p, ('go', S), G(0, bad), (S, S)
        yield p, ('go', S), S, (G(0, bad),)
        p = {0: ((GATE, 0), (GATE, 1))}
        yield p, ('go', S), G(0, bad), (S, G(1), S)
        yield p, ('go', S, G(0)), S, (G(1, bad),)
        yield p, ('go', S), S, (G(0, bad), G(1, bad))
    # moving to the scheduler of another thread, and back
    for kind in (INT, VOID, REF) if deep else (INT,):
        yield {0: ((VIA, 1), (WHERE, 0))}, ('go',), S, (T, T)
        yield {0: ((VIA, 1), (VIA, 0), (WHERE, 0))}, ('go',), S, (T, T)
        yield {0: ((VIA, 1), (VIA, 0), (WHERE, 0))}, ('go', S), T, (S, S)
        yield {0: ((kind, 1), (WHERE, 0)), 1: ((VIA, 1), (WHERE, 0))}, ('go', S), S, (T, T)
        yield {0: ((kind, 1), (VIA, 0), (WHERE, 0)), 1: ((VIA, 1),)}, ('go', S, S, T), T, (S, S)
        yield {0: ((kind, 1), (WHERE, 0)), 1: ((VIA, 1), (GATE, 0))}, ('go', S, S), T, (G(0),)
        yield {0: ((kind, 1), (WHERE, 0)), 1: ((VIA, 1), (GATE, 0))}, ('go', S, S, T), G(0), (T, S, T)
        yield {0: ((kind, 1), (WHERE, 0)), 1: ((GATE, 0), (VIA, 1))}, ('go', S, S), G(0), (S, T, S)
        yield {0: ((kind, 1), (WHERE, 0)), 1: ((GATE, 0), (VIA, 1))}, ('go', S, S, G(0)), S, (T, T)
    # two tasks on two schedulers
    for a, b in itertools.product((((INT, 1),), ((GATE, 0),), ((VIA, 1),), ((YIELD, 0),)), (((INT, 3),), ((GATE, 1),), ((VIA, 0),))):
        p = {0: a, 1: ((YIELD, 0),), 2: b, 3: ((THROW, 0),)}
        yield p, ('go', 'go2'), S, (T,)
        if deep: yield p, ('go', 'go2', S), S, (T, T); yield p, ('go', 'go2', S), T, (S, S); yield p, ('go', 'go2', S, T), S, (T, T)
        yield p, ('go',), S, ('go2', T) if deep else ('go2',)
def pair(c, base, item):
    progs, pre, a, bs = item; w = base.fork(); w.load(progs)
    try:
        for o in pre:
            if o == 'go': w.say('start'); w.go(0)
            elif o == 'go2': w.say('start coroutine 2 on the other scheduler'); w.go(2, 0, 1)
            elif o[0] == 'give': w.give(o[1], 70 + o[1], o[2])
            else: w.say('scheduler %s runs' % o[0]); w.batch(w.S if o == ('S',) else w.T, 0)
    except Stop: return
    def call(o):
        if o == 'go2': return 'drv_tr_go', [w.x, 2, 0, 1]
        return w.call(o[1], 70 + o[1], o[2]) if o[0] == 'give' else ('drv_sc_batch', [w.S if o == ('S',) else w.T])
    def name(o): return 'start coroutine 2 on the other scheduler' if o == 'go2' else 'awaitable %d gets %s' % (o[1], ('a value', 'an exception')[o[2]]) if o[0] == 'give' else 'scheduler %s runs' % o[0]
    w.what += ' | %s | beside it: %s' % (name(a), ', '.join(map(name, bs)))
    num = 0
    for q, p in both(w, call(a), [call(b) for b in bs], two=False, reduce=True):
        num += 1; q.gates = dict(w.gates)
        for o in (a,) + bs:
            if o[0] == 'give': q.gates[o[1]] = (o[2], 70 + o[1])
            if o == 'go2': q.roots = w.roots + ((2, 1),)
        try: q.note(p); p = q.idle(0); q.judge(p, True); q.threads = True; q.close()
        except Stop: pass
    c.check(num > (len(progs) < 4), 'F05.interleavings', '%s: only %d interleavings' % (w.what, num))
    c.stepcount['coroutine interleavings'] = c.stepcount.get('coroutine interleavings', 0) + num
PROPS = dict(F05=F05)
