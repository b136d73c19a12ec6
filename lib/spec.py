"""Glue between the analysis engine and the per-property rules."""
import re, os, sys, pickle
import engine, models
from engine import Engine, Config, EngineError, STATE, PUSHED
P = models.P; off = models.off; qual = models.qual; argtext = models.argtext

class Anchor(Exception):
    """something the rules are anchored on is gone: no verdict"""

# ------------------------------------------------------------------ primitives used when analysing clients
def h_ref(kind):
    def h(e, st, ins, args, dem, name):
        e.event(st, kind, e.label(e.norm(st, args[0])), (e.norm(st, args[0]),), ins)
        return None if ins.ty == 'void' else e.fresh(ins.ty, 'r')
    return h

def node_cls(e, dem):
    k = dem.find('intrusive_link_queue<')
    if k < 0: return None
    T = models.tmpl_args(dem, k + len('intrusive_link_queue'))[0]
    return e.m.classes().get(T)

def h_queue(e, st, ins, args, dem, name):
    """intrusive queue as an abstract FIFO: content unknown, pops fork empty / non-empty"""
    q = qual(dem); meth = q.split('::')[-1]
    a = list(args); sret = None
    if ins.a[1] and ins.a[1][0][2].get('sret'):
        sret = a.pop(0)
    this = e.norm(st, a[0])
    def deref(x):
        x = e.norm(st, x)
        if P(x) and e.rinfo.get(x[1]) and e.rinfo[x[1]].kind == 'stack':
            return e.load(st, x, 'ptr', ins, log=False)
        return x
    if e.cfg.__dict__.get('exact_queues'):
        k = ('qx', this); L = st.ex.get(k, ())
        if meth == 'push_back': v = deref(a[1]); e.event(st, 'q.push_back', e.label(this), (this, v), ins); st.ex[k] = L + (v,); return None
        if meth == 'push_front': v = deref(a[1]); e.event(st, 'q.push_front', e.label(this), (this, v), ins); st.ex[k] = (v,) + L; return None
        if meth == 'erase': v = deref(a[1]); e.event(st, 'q.erase', e.label(this), (this, v), ins); st.ex[k] = tuple(x for x in L if x != v); return None
        if meth == 'empty': return int(not L)
        if meth == 'size': return len(L)
        if meth == 'try_pop':
            r = L[0] if L else 0
            ev = e.event(st, 'q.pop', e.label(this), (this,), ins); ev.ret = r; st.ex[k] = L[1:]
            if sret is not None: e.store(st, sret, r, 'ptr', ins, log=False); return None
            return r
    if meth in ('push_back', 'push_front', 'erase'):
        v = deref(a[1])
        ev = e.event(st, 'q.' + meth, e.label(this), (this, v), ins)
        return None
    if meth == 'try_pop':
        s2 = st.fork(); st.nf += 1; s2.nf += 1
        r = e.fresh('ptr', 'waiter', node_cls(e, dem)); st.facts[('N', r[1])] = 1
        ev = e.event(st, 'q.pop', e.label(this), (this,), ins); ev.ret = r
        ev2 = e.event(s2, 'q.pop', e.label(this), (this,), ins); ev2.ret = 0
        if sret is not None:
            e.store(st, sret, r, 'ptr', ins, log=False); e.store(s2, sret, 0, 'ptr', ins, log=False)
            return [(st, None), (s2, None)]
        return [(st, r), (s2, 0)]
    if meth == 'empty':
        ev = e.event(st, 'q.empty', e.label(this), (this,), ins)
        r = e.sym(1, 'q.empty'); ev.ret = r
        return ('cmp', 'ne', 1, r, 0)
    if meth in ('size',):
        return e.sym(64, 'q.size')
    return NotImplemented

def h_call(kind, throws=False):
    def h(e, st, ins, args, dem, name):
        ev = e.event(st, kind, e.label(e.norm(st, args[0])) if args and P(e.norm(st, args[0])) else None, tuple(e.norm(st, a) for a in args), ins)
        if ins.ty == 'void': return None
        r = e.fresh(ins.ty, kind)
        if ins.ty == 'i1': r = ('cmp', 'ne', 1, r, 0)
        ev.ret = r
        return r
    return h

def h_bool(kind):
    """call with an unknown boolean outcome, one path each"""
    def h(e, st, ins, args, dem, name):
        a = tuple(e.norm(st, x) for x in args)
        s2 = st.fork(); st.nf += 1; s2.nf += 1
        ev = e.event(st, kind, dem, a, ins); ev.ret = 1
        ev2 = e.event(s2, kind, dem, a, ins); ev2.ret = 0
        return [(st, 1), (s2, 0)]
    return h

def h_sched(nullable):
    """effective scheduler of a state: its own one if known, else that of its root (cached, optionally null)"""
    def h(e, st, ins, args, dem, name):
        this = e.norm(st, args[0])
        k = ('effsched', this)
        v = st.ex.get(k)
        if v is None:
            v = e.fresh('ptr', 'scheduler', e.m.classes().get('librf::scheduler_t'))
            if not nullable: st.facts[('N', v[1])] = 1
            st.ex[k] = v
        x = e.event(st, 'get_scheduler', e.label(this), (this,), ins); x.ret = v
        return v
    return h

def h_root(e, st, ins, args, dem, name):
    this = e.norm(st, args[0])
    k = ('root', this)
    v = st.ex.get(k)
    if v is None:
        v = e.fresh('ptr', 'root', e.m.classes().get('librf::state_base_t')); st.facts[('N', v[1])] = 1
        st.ex[k] = v
    x = e.event(st, 'get_root', e.label(this), (this,), ins); x.ret = v
    return v

def h_batch(e, st, ins, args, dem, name):
    """batch_lock_t over a vector of locks: all of them are acquired (the algorithm has rules of its own)"""
    meth = qual(dem).split('::')[-1]; at = argtext(dem)
    this = e.norm(st, args[0])
    if meth == 'batch_lock_t':
        if 'batch_lock_t<' in at: return NotImplemented
        v = e.norm(st, args[2] if 'adopt_lock' in at else args[1])
        L = models.lst(st, v) or ()
        got = []
        for x in L:
            q = e.norm(st, e.load(st, x, 'ptr', ins, log=False))
            got.append(q)
            if 'adopt_lock' not in at: models.lock_acquire(e, st, q, ins, 'lockall')
        if not L and models.cget(st, v)[0] != 'E':
            e.event(st, 'lockunknown', e.label(v), (v,), ins)
        st.ex[('batch', this)] = tuple(got)
        return None
    if meth in ('~batch_lock_t', 'unlock'):
        for q in st.ex.pop(('batch', this), ()):
            models.lock_release(e, st, q, ins)
        return None
    return NotImplemented

COMMON = {
    r'^librf::batch_lock_t<': h_batch,
    r'^librf::state_base_t::get_scheduler\(\) const': h_sched(False),
    r'^librf::state_base_t::get_root\(\) const': h_root,
    r'^librf::state_base_t::lock\(\)': h_ref('ref+'),
    r'^librf::state_base_t::unlock\(\)': h_ref('ref-'),
    r'^librf::intrusive_link_queue<.*>::(push_back|push_front|erase|try_pop|empty|size)\(': h_queue,
    r'^librf::scheduler_t::add_generator\(': h_call('sched.add'),
    r'^librf::scheduler_t::del_final\(': h_call('sched.del'),
    r'^librf::scheduler_t::timer\(\)': None,
    r'^librf::timer_handler::stop\(\)': h_call('timer.stop'),
    r'^librf::timer_handler::reset\(\)': h_call('timer.reset'),
    r'^librf::timer_handler::operator=': None,
    r'virtual .*::on_notify$': h_bool('notify'),
    r'virtual .*::on_timeout$': h_bool('vtimeout'),
    r'virtual .*::on_cancel$': h_call('vcancel'),
}
COMMON = {k: v for k, v in COMMON.items() if v}

def find_fn(e, rx):
    k = ('findfn', rx)
    if k not in e._slot:
        r = re.compile(rx)
        e._slot[k] = [n for n, d in e.m.dem.items() if n in e.m.funcs and r.match(d)]
    return e._slot[k]

def h_timer_add(e, st, ins, args, dem, name):
    """timer_manager::add / add_handler: remember deadline and callback; with cfg.timer_fire run the callback right away"""
    at = models.split_args(argtext(dem))
    a = list(args); sret = None
    if ins.a[1] and ins.a[1][0][2].get('sret'): sret = a.pop(0)
    this = e.norm(st, a[0])
    when = e.load(st, a[1], 'i64', ins, log=False) if P(e.norm(st, a[1])) else a[1]
    q = qual(dem).split('::')[-1]
    k = dem.index('timer_manager::' + q + '<') + len('timer_manager::' + q)
    T = models.tmpl_args(dem, k)[-1]
    fns = find_fn(e, re.escape(T) + r'::operator\(\)\(bool\)')
    clo = ('p', e.region('heap', 'timer-callback'), 0)
    src = e.norm(st, a[2])
    if P(src):
        e.copybytes(st, clo, src, 64)
        cells = e.cells_w(st, src[1])
        if not (at[-1].endswith('const&')):
            for o, c in list(cells.items()):
                if isinstance(o, int) and src[2] <= o < src[2] + 64 and c[0] == 8 and P(e.norm(st, c[1])):
                    cells[o] = (8, 0)
        c = e.clsof(src)
        if c: e.annot(clo, c)
    ev = e.event(st, 'timer.add', 'duration' if at[0].startswith('std::chrono::duration') else 'time_point', (this, when, clo), ins)
    ev.x = fns[0] if fns else None
    if sret is not None:
        c = e.cells_w(st, sret[1]); e.clobber(c, sret[2], 32)
        e.store(st, sret, e.fresh('ptr', 'timer-mgr'), 'ptr', ins, log=False); e.store(st, off(sret, 16), e.fresh('ptr', 'timer-target'), 'ptr', ins, log=False)
    if e.cfg.__dict__.get('timer_fire') and fns:
        s2 = st.fork(); st.nf += 1; s2.nf += 1
        out = []
        for s, b in ((st, 0), (s2, 1)):
            e.event(s, 'timer.fire', None, (clo, b), ins)
            e.push(s, e.m.funcs[fns[0]], [clo, b], ins, lambda e, s, v: None)
            out.append((s, STATE))
        return out
    return None
COMMON[r'librf::timer_manager::add(_handler)?<'] = h_timer_add

TIER = 'quick'
def config(extra=None, drop=(), **kw):
    c = Config()
    c.ret = {}
    for k, v in (extra or {}).items():
        c.ret[k] = v
    for k, v in COMMON.items():
        if not any(d in k for d in drop):
            c.ret.setdefault(k, v)
    for k, v in kw.items():
        setattr(c, k, v)
    return c

class Path:
    def __init__(self, e, st):
        self.e = e; self.st = st; self.ev = st.events()
        for i, x in enumerate(self.ev): x.n = i
        self.ret = st.ret; self.status = st.status
    def n(self, v):
        return self.e.norm(self.st, v)
    def k(self, *kinds):
        return [x for x in self.ev if x.k in kinds]
    def m(self, rx, kinds=None):
        return [x for x in self.ev if x.name and re.search(rx, x.name) and (kinds is None or x.k in kinds)]
    def eq(self, a, b):
        return self.e.ptr_eq(self.st, a, b) if any(isinstance(z, tuple) and z[0] == 'p' for z in (self.n(a), self.n(b))) else (self.e.known_cmp(self.st, 'eq', self.n(a), self.n(b), 64))
    def cell(self, p, size=None):
        p = self.n(p)
        c = self.st.mem.get(p[1], {}).get(p[2])
        return None if c is None else self.n(c[1])
    def num(self, v, w=64):
        """the number v must be on this path, or None"""
        v = self.n(v)
        if v is None or isinstance(v, int): return v
        r = self.e.rngv(self.st, v, w)
        return r[0][0] if len(r) == 1 and r[0][0] == r[0][1] else None
    def holds(self, ev, p):
        p = self.n(p)
        return any(self.n(l[0]) == p for l in ev.locks)
    def truth(self, v):
        return self.e.known(self.st, self.n(v)) if v is not None else None
    def split(self, v):
        """(path, truth) for both values a boolean may still have on this path"""
        v = self.n(v)
        if isinstance(v, int): return [(self, bool(v))]
        if v[0] not in ('cmp', 'not', 'and', 'or'): v = ('cmp', 'ne', 8, v, 0)
        t = self.e.known(self.st, v)
        if t is not None: return [(self, bool(t))]
        out = []
        for s, t in self.e.branch(self.st.fork(), v):
            q = Path.__new__(Path); q.__dict__.update(self.__dict__); q.st = s
            out.append((q, bool(t)))
        return out
    def at(self, ev):
        """address of a memory event"""
        return self.n(ev.a[0])
    def writes(self, p):
        p = self.n(p)
        return [x for x in self.ev if (x.k in ('store', 'rmw') or (x.k == 'cas' and x.ret == 1)) and self.n(x.a[0]) == p]
    def accesses(self, p):
        p = self.n(p)
        return [x for x in self.ev if x.k in ('store', 'rmw', 'cas', 'load') and self.n(x.a[0]) == p]
    def rets(self):
        """possible truth values of the (bool) return value"""
        t = self.truth(self.ret)
        return [True, False] if t is None else [t]
    def trace(self, limit=60):
        out = []
        for x in self.ev:
            if x.k in ('load',) : continue
            a = [self.e.label(self.n(y)) if isinstance(self.n(y), tuple) and self.n(y)[0] == 'p' else repr(self.n(y)) for y in (x.a or ())]
            out.append('%s %s(%s)%s @%s%s' % (x.k, x.name or '', ', '.join(a), '' if x.ret is None else ' -> %s' % short(x.ret), x.loc, ' {%s}' % ','.join(str(l[1]) for l in x.locks) if x.locks else ''))
        return out[-limit:]

def short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + '...'

class Ctx:
    def __init__(self, mod, pid, tier='quick'):
        self.m = mod; self.pid = pid; self.tier = tier
        self.obl = {}; self.viol = []; self.notes = []; self.engines = []; self.entries = []; self.samples = []; self.stepcount = {}
        self.funcs = set(); self.calls = 0; self.paths = 0; self.insts = 0; self.states = 0; self.cut = 0; self.pruned = 0; self.asserts = 0
    # -- running
    def run(self, entry, init=None, cfg=None, args=None, need=1, want=('ret',)):
        cfg = cfg or config()
        e = Engine(self.m, cfg)
        if ('@' + entry) not in self.m.funcs and entry not in self.m.funcs:
            raise Anchor('entry %s missing' % entry)
        st = e.entry(entry, args=args, init=init)
        out = e.run(st)
        ps = [Path(e, s) for s in out]
        s = e.stats
        self.funcs |= s['funcs']; self.calls += len(s['calls']); self.paths += len(ps); self.insts += s['insts']; self.states += s['states']; self.cut += s['cut']; self.pruned += s['pruned']; self.asserts += s['asserts']
        self.entries.append('%s: %d paths' % (entry, len(ps)))
        e.args = None
        for p in ps:
            for x in p.ev:
                if x.k in ('nullderef', 'useafterfree', 'doublefree', 'badunlock', 'selfdeadlock', 'deadlock', 'endderef', 'badresume'):
                    p.bad = x
        if need and not [p for p in ps if p.status in want]:
            bad = [p for p in ps if hasattr(p, 'bad')] or ps
            if not bad: raise Anchor('entry %s: no complete path' % entry)
            x = getattr(bad[0], 'bad', None)
            self.fail(self.pid + '.completes', 'no path of %s completes: %s' % (entry, '%s %s' % (x.k, x.name) if x else bad[0].status), bad[0], x)
        if len(self.samples) < 6 and ps:
            self.samples.append(dict(entry=entry, status=ps[0].status, events=[l[:200] for l in ps[0].trace(14)]))
        return e, ps
    # -- sequences of operations on one abstract state
    def engine(self, cfg=None):
        e = Engine(self.m, cfg or config())
        return e, e.new_state()
    def obj(self, e, st, name, cls=None, size=None, kind='heap'):
        p = ('p', e.region(kind, name, size), 0)
        if cls: e.annot(p, self.cls(cls))
        if kind == 'lazy': st.facts[('N', p[1])] = 1
        return p
    def step(self, e, st, entry, args):
        """all paths of one operation from state st; each path only lists the events of this operation"""
        f = self.m.funcs.get('@' + entry)
        if f is None: raise Anchor('entry %s missing' % entry)
        s = st.fork(); s.status = None; s.hist = None; s.ret = None
        e.push(s, f, list(args))
        i0, c0, u0 = e.stats['insts'], e.stats['cut'], e.stats['pruned']
        ps = [Path(e, x) for x in e.run(s)]
        self.insts += e.stats['insts'] - i0; self.cut += e.stats['cut'] - c0; self.pruned += e.stats['pruned'] - u0
        self.paths += len(ps); self.funcs |= e.stats['funcs']; self.steps = getattr(self, 'steps', 0) + 1
        self.calls_set = getattr(self, 'calls_set', set()) | e.stats['calls']
        self.stepcount[entry] = self.stepcount.get(entry, 0) + 1
        if len(self.samples) < 6 and ps and self.stepcount[entry] in (1, 5): self.samples.append(dict(entry=entry, status=ps[0].status, events=[l[:200] for l in ps[0].trace(14)]))
        for p in ps:
            for x in p.ev:
                if x.k in ('nullderef', 'useafterfree', 'doublefree', 'badunlock', 'selfdeadlock', 'deadlock', 'endderef', 'badresume'): p.bad = x
        return ps
    # -- independent parts on several processors
    def par(self, items, fn, procs=8):
        """fn(item) for every item, each worker in a process of its own; what they checked is collected"""
        items = list(items); procs = min(procs, len(items), os.cpu_count() or 1)
        if procs < 2:
            for x in items: fn(x)
            return
        kids = []; sys.stdout.flush(); sys.stderr.flush()
        nxt = os.pipe()                                     # one byte per item still to be taken
        q = [k.to_bytes(4, 'little') for k in range(len(items))]
        for k in range(procs):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); os.close(nxt[1])
                    for _, o in kids: os.close(o)
                    d = Ctx(self.m, self.pid, self.tier); d.samples = list(self.samples); n0 = len(d.samples);
                    self.__dict__.update(d.__dict__); self.steps = 0; self.calls_set = set(); self.skipped = 0
                    while True:
                        t = os.read(nxt[0], 4)
                        if len(t) < 4: break
                        fn(items[int.from_bytes(t, 'little')])
                        if len(self.viol) >= 8:            # enough to report: leave the rest
                            while os.read(nxt[0], 4096): pass
                            break
                    out = dict(obl=self.obl, viol=self.viol, paths=self.paths, insts=self.insts, cut=self.cut, pruned=self.pruned, steps=self.steps, calls_set=self.calls_set, skipped=self.skipped, funcs=self.funcs, stepcount=self.stepcount, samples=self.samples[n0:], notes=self.notes)
                except BaseException as x:
                    import traceback
                    out = dict(error=(x.__class__.__name__, str(x), traceback.format_exc()))
                try:
                    with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
                finally: os._exit(0)
            os.close(w); kids.append((pid, r))
        os.close(nxt[0])
        try:
            for t in q: os.write(nxt[1], t)
        except BrokenPipeError: pass
        os.close(nxt[1]); err = None
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f: b = f.read()
            os.waitpid(pid, 0)
            if not b: err = err or ('EngineError', 'a worker was ended', ''); continue
            o = pickle.loads(b)
            if 'error' in o: err = err or o['error']; continue
            for k, (n, g) in o['obl'].items(): x = self.obl.setdefault(k, [0, 0]); x[0] += n; x[1] += g
            self.viol += o['viol']; self.notes += o['notes']; self.funcs |= o['funcs']; self.calls_set = getattr(self, 'calls_set', set()) | o['calls_set']
            for k in ('paths', 'insts', 'cut', 'pruned'): setattr(self, k, getattr(self, k) + o[k])
            for k in ('steps', 'skipped'): setattr(self, k, getattr(self, k, 0) + o[k])
            for k, n in o['stepcount'].items(): self.stepcount[k] = self.stepcount.get(k, 0) + n
            self.samples = (self.samples + o['samples'])[:6]
        if err:
            if err[0] == 'Anchor': raise Anchor(err[1])
            raise EngineError('%s: %s\n%s' % err)
    # -- recording
    def ok(self, rule, n=1):
        self.obl.setdefault(rule, [0, 0])
        self.obl[rule][0] += n; self.obl[rule][1] += n
    def fail(self, rule, msg, path=None, ev=None, loc=None, key=None):
        self.obl.setdefault(rule, [0, 0])
        self.obl[rule][0] += 1
        l = loc or (ev.loc if ev is not None else None) or self.where(path)
        k = key or '%s|%s' % (rule, re.sub(r':\d+$', '', l or '?'))
        self.viol.append(dict(rule=rule, msg=msg, loc=l, key=k, trace=path.trace() if path else []))
    def where(self, path):
        if path is None: return '?'
        for x in reversed(path.ev):
            if x.loc and x.loc != '?': return x.loc
        return '?'
    def check(self, cond, rule, msg, path=None, ev=None, key=None):
        if cond: self.ok(rule)
        else: self.fail(rule, msg, path, ev, key=key)
        return bool(cond)
    # -- roles
    def cls(self, name):
        c = self.m.classes().get(name)
        if c is None:
            z = lambda n: n.replace(' ', '')
            if not hasattr(self.m, '_clsz'): self.m._clsz = {z(k): v for k, v in self.m.classes().items()}
            c = self.m._clsz.get(z(name))
        if c is None:
            raise Anchor('class %s missing' % name)
        return c
    def field(self, cname, trx=None, nrx=None, own=False, nth=0, opt=False):
        """(offset, size, name) of the member whose type name matches"""
        c = self.cls(cname)
        out = []
        for o, z, path, t, dc in self.m.fields(c):
            if own and dc != c: continue
            tn = self.tname(t)
            if trx and not re.search(trx, tn): continue
            if nrx and not re.search(nrx, path[-1] if path else ''): continue
            if out and o < out[-1][0] + max(out[-1][1], 1): continue
            out.append((o, z, path[-1] if path else '?'))
        if len(out) <= nth:
            if opt: return None
            raise Anchor('member of %s with type %s / name %s missing' % (cname, trx, nrx))
        return out[nth]
    def tname(self, t):
        if t is None: return ''
        s = self.m.md.get(t, '')
        if 'DW_TAG_pointer_type' in s or 'reference_type' in s:
            b = self.m.mdget(t, 'baseType')
            return (self.tname(self.m.strip(b[1:])) if b and b.startswith('!') else 'void') + ' *'
        if 'DICompositeType' in s:
            return self.m.type_name(t)
        return self.m.mdget(t, 'name') or ''

def havoc(cname, offs, rid=None):
    """hook: once a lock of an object of class cname is released, other threads may change its members at offs"""
    def h(e, st, p):
        f = e.field(p)
        if not P(p) or not isinstance(p[2], int): return
        if rid is not None and p[1] not in rid: return
        if e.rinfo.get(p[1]) is None or e.rinfo[p[1]].kind not in ('lazy',): return
        lo = h.lock
        base = p[2] - lo
        c = e.cells_w(st, p[1])
        for o in offs:
            c.pop(base + o, None)
            st.cont.pop((p[1], base + o), None)
            for k in [k for k in st.cont if len(k) == 3 and k[:2] == (p[1], base + o)]: del st.cont[k]
    return h

def sections(p, L):
    """[(events inside one hold of lock L)]"""
    out = []; cur = None
    for x in p.ev:
        if x.k in ('lock', 'trylock', 'lockall') and p.n(x.a[0]) == p.n(L):
            cur = []; out.append(cur)
        elif x.k == 'unlock' and p.n(x.a[0]) == p.n(L): cur = None
        elif cur is not None: cur.append(x)
    return out

def signed(d, w=64):
    return d - (1 << w) if isinstance(d, int) and d >> (w - 1) else d
