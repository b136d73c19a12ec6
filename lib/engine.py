"""Path-sensitive interprocedural typestate/dataflow analysis over clang -O0 IR.

An abstract state is (call-string, finite map (region,offset)->abstract value,
interval-set / (dis)equality facts, held locks, event history).  Values are
constants, region pointers, or uninterpreted terms; every input is unknown
(regions are materialised lazily).  States are explored with a worklist and
pruned at loop heads when the canonicalised state and the set of event
signatures repeat.  No solver is involved and nothing of the analysed program
is executed."""
import re, sys, itertools
from ir import *

class EngineError(Exception):
    pass

_uid = itertools.count(1)

def mask(w):
    return (1 << w) - 1

def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
SWP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

def rset_and(a, b):
    out = []
    for x in a:
        for y in b:
            lo = max(x[0], y[0]); hi = min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return tuple(sorted(out))

def rset_shift(rs, c, w):
    M = 1 << w
    out = []
    for lo, hi in rs:
        lo2 = (lo + c) % M; n = hi - lo
        if lo2 + n < M:
            out.append((lo2, lo2 + n))
        else:
            out.append((lo2, M - 1)); out.append((0, lo2 + n - M))
    out.sort()
    r = []
    for x in out:
        if r and x[0] <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(r[-1][1], x[1]))
        else:
            r.append(x)
    return tuple(r)

def pred_set(pred, k, w):
    M = mask(w); k &= M; H = 1 << (w - 1)
    if pred == 'eq': return ((k, k),)
    if pred == 'ne':
        return tuple(x for x in ((0, k - 1), (k + 1, M)) if x[0] <= x[1])
    if pred == 'ult': return ((0, k - 1),) if k else ()
    if pred == 'ule': return ((0, k),)
    if pred == 'ugt': return ((k + 1, M),) if k < M else ()
    if pred == 'uge': return ((k, M),)
    # signed: shift by H to become unsigned
    s = pred_set('u' + pred[1:], (k + H) & M, w)
    return rset_shift(s, H, w)

class Ev:
    """one event of the history"""
    __slots__ = ('k', 'name', 'a', 'locks', 'loc', 'stack', 'ret', 'n', 'ctx', 'x')
    def __init__(self, k, name, a, locks, loc, stack):
        self.k = k; self.name = name; self.a = a; self.locks = locks; self.loc = loc; self.stack = stack; self.ret = None; self.n = 0; self.ctx = None; self.x = None
    def __repr__(self):
        return '%s %s%s%s @%s%s' % (self.k, self.name, ''.join(' ' + repr(x) for x in (self.a or ())), ' ->%r' % (self.ret,) if self.ret is not None else '', self.loc,
                                    ' [%s]' % ','.join(str(l[1]) for l in self.locks) if self.locks else '')

class Frame:
    __slots__ = ('f', 'blk', 'i', 'prev', 'reg', 'call', 'vis', 'fk', 'uid', 'onret', 'exc')
    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.blk = self.blk; n.i = self.i; n.prev = self.prev; n.reg = dict(self.reg); n.call = self.call
        n.vis = dict(self.vis); n.fk = self.fk; n.uid = self.uid; n.onret = self.onret; n.exc = self.exc
        return n

class State:
    __slots__ = ('fr', 'mem', 'own', 'facts', 'preds', 'alias', 'locks', 'hist', 'nf', 'status', 'ret', 'exc', 'cont', 'caught', 'ex', 'sus', 'thr')
    def fork(self):
        n = State.__new__(State)
        n.thr = self.thr
        n.sus = None if self.sus is None else ([f.copy() for f in self.sus[0]],) + self.sus[1:]
        n.fr = [f.copy() for f in self.fr]
        n.mem = dict(self.mem)
        self.own = set(); n.own = set()
        n.facts = dict(self.facts); n.preds = dict(self.preds); n.alias = dict(self.alias)
        n.locks = self.locks; n.hist = self.hist
        n.nf = self.nf; n.status = self.status; n.ret = self.ret; n.exc = self.exc
        n.cont = dict(self.cont); n.caught = self.caught; n.ex = dict(self.ex)
        return n
    def events(self):
        out = []
        h = self.hist
        while h is not None:
            out.append(h[1]); h = h[0]
        out.reverse()
        return out

class RI:
    """static region info"""
    __slots__ = ('kind', 'name', 'ann', 'size', 'parent')
    def __init__(self, kind, name, size=None, parent=None):
        self.kind = kind; self.name = name; self.ann = {}; self.size = size; self.parent = parent

NOACCESS = r'^operator delete|^free$|^llvm\.|addressof|^std::(move|forward|__to_address)|deallocate'

class Footprint:
    """which memory the threads of an interleaving touch; regions made since the start are numbered from there, so that runs can be compared"""
    def __init__(self):
        self.base = next(_uid); self.A = {}; self.B = (set(), set())
    def add(self, st, p, write, e):
        if not (isinstance(p, tuple) and p[0] == 'p'): return
        r = p[1]; ri = e.rinfo.get(r)
        if ri is not None and (ri.kind == 'stack' or ri.name == 'const'): return
        if isinstance(r, int) and r > self.base: r = ('+', r - self.base)
        if st.thr == 1: self.B[write].add(r)
        elif not st.ex.get('preempted'):
            k = st.ex.get('points', 0) - 1
            if k not in self.A: self.A[k] = (set(), set())
            self.A[k][write].add(r)
    def conflict(self, k, B):
        a = self.A.get(k)
        return a is not None and bool(a[1] & (B[0] | B[1]) or a[0] & B[1])

class Config:
    def __init__(self):
        self.opaque = []          # regexes on demangled names: recorded as events, not entered
        self.watch = []           # regexes: recorded as 'enter' events and still entered
        self.ret = {}             # demangled-name regex -> fn(engine,state,args,inst)->[(state,val)]
        self.throws = []          # regexes of opaque callees that may throw
        self.log_load = True
        self.log_store = True
        self.log_stack = False
        self.unroll = 2
        self.maxdepth = 60
        self.max_states = 200000
        self.recursion = 1
        self.havoc_on_lock = False
        self.atomics_fresh = True
        self.malloc_zero = False
        self.stable_under_lock = True
        self.preempt = None           # (n, [(entry, args)]): a second thread runs these when the first one is about to touch shared memory for the n-th time; with a third element m the first one goes on when the second is about to do so for the m-th time
        self.preempt_calls = r'^librf::spinlock::(lock|try_lock|unlock)\(|^std::(scoped_lock|unique_lock|lock_guard)<.*::(~|lock|unlock|scoped_lock|unique_lock|lock_guard)'

PREEMPT_OPS = ('load', 'store', 'cmpxchg', 'atomicrmw', 'call', 'invoke')
WRAP = ('librf::spinlock', 'librf::counted_ptr<', 'librf::intrusive_link_', 'librf::without_lock_deadlock')
LIBNS = ('librf::', 'milk::', 'resumef::', 'drv')

class Engine:
    def __init__(self, mod, cfg=None):
        self.m = mod; self.cfg = cfg or Config()
        self.rinfo = {}
        self.stats = dict(states=0, paths=0, insts=0, cut=0, pruned=0, asserts=0, funcs=set(), calls=set(), opaque=set(), lazies=0, depthcut=0)
        self._ckind = {}; self._cpre = {}
        self._live = {}
        import models
        self.models = models.TABLE
        self._slot = {}
        self._vparams = {}
        self.exact = set()     # regions whose dynamic type is the annotated class
    # ------------------------------------------------------------ regions
    def region(self, kind, name, size=None, parent=None):
        rid = next(_uid)
        self.rinfo[rid] = RI(kind, name, size, parent)
        return rid
    def annot(self, p, cls):
        """remember that class `cls` (DI ref) lives at p"""
        if cls is None or not isinstance(p, tuple) or p[0] != 'p' or not isinstance(p[2], int):
            return
        ri = self.rinfo.get(p[1])
        if ri is None:
            return
        cur = ri.ann.get(p[2])
        if cur is None:
            ri.ann[p[2]] = cls
        elif cur != cls:
            a = int(self.m.mdget(cur, 'size') or 0); b = int(self.m.mdget(cls, 'size') or 0)
            if b > a:
                ri.ann[p[2]] = cls
    def clsof(self, p):
        ri = self.rinfo.get(p[1])
        return ri.ann.get(p[2]) if ri else None
    def field(self, p):
        """(class name, field name, typeref, (rid, base offset)) of address p, or None"""
        ri = self.rinfo.get(p[1])
        if ri is None or not isinstance(p[2], int):
            return None
        best = None
        for base in sorted(ri.ann):
            cls = ri.ann[base]
            if base > p[2]:
                break
            sz = int(self.m.mdget(cls, 'size') or 0) // 8
            if p[2] >= base + max(sz, 1):
                continue
            cn = self.m.type_name(cls)
            lib = cn.startswith(LIBNS)
            rel = p[2] - base
            cand = None
            for o, z, path, t, dc in self.m.fields(cls):
                if o <= rel < o + max(z, 1):
                    # first component declared in a library class, deepest library-declared member
                    dn = self.m.type_name(dc)
                    islib = dn.startswith(LIBNS)
                    wrap = dn.startswith(WRAP)
                    if cand is None or (islib and len(path) >= 1 and not (wrap and cand[5])) or (not cand[5] and not islib and rel - o <= cand[4]):
                        cand = (dn, path[-1] if path else '', t, (p[1], base), rel - o, islib)
            if cand and (best is None or (cand[5] and not best[5]) or (cand[5] and lib and not (best[5] and cn.startswith(WRAP)))):
                best = cand
        return best
    def tagless(self, n):
        return n
    def label(self, p):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return repr(p)
        f = self.field(p)
        if f:
            return '%s::%s' % (f[0], f[1])
        ri = self.rinfo.get(p[1])
        if ri is None:
            return repr(p)
        return '%s+%s' % (ri.name, p[2])
    # ------------------------------------------------------------ value helpers
    def sym(self, w, hint):
        return ('s', next(_uid), w, hint)
    def fresh(self, ty, hint, pointee=None):
        if ty == 'ptr':
            rid = self.region('lazy', hint)
            if pointee:
                self.rinfo[rid].ann[0] = pointee
            return ('p', rid, 0)
        if isinstance(ty, str):
            m = INTW.match(ty)
            if m:
                return self.sym(int(m.group(1)), hint)
            return ('s', next(_uid), 64, hint)
        u = self.m.resolve(ty)
        if u[0] == 'struct':
            return ('agg', tuple(self.fresh(e, hint) for e in u[1]))
        if u[0] == 'array':
            return ('agg', tuple(self.fresh(u[2], hint) for _ in range(min(u[1], 8))))
        return ('u',)
    def norm(self, st, v):
        if isinstance(v, tuple) and v[0] == 'p':
            a = st.alias
            while v[1] in a:
                r, d = a[v[1]]
                if r is None:
                    return 0
                v = ('p', r, self.addoff(v[2], d))
            if st.facts.get(('N', v[1])) == 0 and v[2] == 0:
                return 0
        elif isinstance(v, tuple) and v[0] == 'o' and v[1] in ('sub', 'sdiv', 'ashr', 'udiv', 'lshr') and _hasp(v):
            a = self.norm(st, v[3]); b = self.norm(st, v[4])
            if a != v[3] or b != v[4]:
                return self.binop(st, v[1], a, b, v[2])
        elif isinstance(v, tuple) and v[0] == 'lin' and any(_hasp(k) for k, x in v[3]):
            r = v[2]
            for k, x in v[3]:
                r = self.add(r, self.binop(st, 'mul', self.norm(st, k), x, v[1]), v[1])
            return r
        return v
    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return self.add(a, b, 64)
    # linear terms
    def lin(self, v, w):
        """-> (const, {base:coef})"""
        if isinstance(v, int):
            return v, {}
        if v[0] == 'lin':
            return v[2], dict(v[3])
        return 0, {v: 1}
    def mklin(self, c, d, w):
        d = {k: x for k, x in d.items() if x}
        M = mask(w)
        if not d:
            return c & M
        if (c & M) == 0 and len(d) == 1:
            (k, x), = d.items()
            if x == 1:
                return k
        return ('lin', w, c & M, tuple(sorted(d.items(), key=repr)))
    def add(self, a, b, w, sign=1):
        c1, d1 = self.lin(a, w); c2, d2 = self.lin(b, w)
        for k, x in d2.items():
            d1[k] = d1.get(k, 0) + sign * x
        return self.mklin(c1 + sign * c2, d1, w)
    def width(self, v):
        if isinstance(v, tuple):
            if v[0] == 's': return v[2]
            if v[0] == 'lin': return v[1]
            if v[0] == 'o': return v[2]
            if v[0] == 'cmp': return 1
        return 64
    def rng(self, st, b, w):
        """interval set of base term b"""
        r = st.facts.get(b)
        if r is None:
            if isinstance(b, tuple) and b[0] == 'cmp':
                return ((0, 1),)
            if isinstance(b, tuple) and b[0] == 'o':
                if b[1] == 'and' and isinstance(b[4], int):
                    return ((0, b[4]),)
                if b[1] == 'urem' and isinstance(b[4], int) and b[4]:
                    return ((0, b[4] - 1),)
                if b[1] == 'zext':
                    return self.rngv(st, b[3], self.width(b[3]))
                if b[1] == 'lshr' and isinstance(b[4], int):
                    return ((0, mask(w) >> b[4]),)
            return ((0, mask(w)),)
        return r
    def rngv(self, st, v, w):
        if isinstance(v, int):
            v &= mask(w)
            return ((v, v),)
        if v[0] == 'lin':
            if len(v[3]) == 1 and v[3][0][1] == 1:
                return rset_shift(self.rng(st, v[3][0][0], w), v[2], w)
            return ((0, mask(w)),)
        if v[0] == 'cmp':
            t = self.known(st, v)
            return ((0, 1),) if t is None else ((int(t), int(t)),)
        return self.rng(st, v, w)
    def binop(self, st, op, a, b, w):
        M = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            a &= M; b &= M
            try:
                return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                        'shl': lambda: a << b if b < w else 0, 'lshr': lambda: a >> b if b < w else 0, 'ashr': lambda: sx(a, w) >> min(b, w - 1),
                        'udiv': lambda: a // b, 'urem': lambda: a % b, 'sdiv': lambda: int(sx(a, w) / sx(b, w)),
                        'srem': lambda: sx(a, w) - sx(b, w) * int(sx(a, w) / sx(b, w))}[op]() & M
            except (KeyError, ZeroDivisionError):
                return ('o', op, w, a, b)
        pa = isinstance(a, tuple) and a[0] == 'p'; pb = isinstance(b, tuple) and b[0] == 'p'
        if pa and pb and op == 'sub' and a[1] == b[1]:
            return self.add(a[2], b[2], w, -1)
        if op in ('add', 'sub') and not pa and not pb:
            return self.add(a, b, w, 1 if op == 'add' else -1)
        if op == 'xor' and isinstance(a, tuple) and a[0] == 'cmp' and b == 1:
            return ('cmp', NEG[a[1]], a[2], a[3], a[4])
        if op == 'xor' and b == 1 and w == 1:
            return ('cmp', 'eq', 1, a, 0)
        if op == 'mul' and isinstance(b, int):
            c, d = self.lin(a, w)
            return self.mklin(c * b, {k: x * b for k, x in d.items()}, w)
        if op == 'shl' and isinstance(b, int):
            c, d = self.lin(a, w)
            return self.mklin(c << b, {k: x << b for k, x in d.items()}, w)
        if op in ('and', 'or'):
            if a == b: return a
            if isinstance(a, int): a, b = b, a
            if b == 0: return 0 if op == 'and' else a
            if b == M: return a if op == 'and' else M
            if w == 1 and b == 1:
                return a if op == 'and' else 1
        if op in ('mul', 'xor'):
            if b == 0 and op == 'xor': return a
            if isinstance(a, int) or (not isinstance(b, int) and repr(a) > repr(b)):
                a, b = b, a
        return ('o', op, w, a, b)
    def icmp(self, st, pred, a, b, w):
        """-> 0/1 or cmp term"""
        a = self.norm(st, a); b = self.norm(st, b)
        if isinstance(a, int) and not isinstance(b, int):
            a, b, pred = b, a, SWP[pred]
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w); a &= M; b &= M
            if pred[0] == 's':
                a = sx(a, w); b = sx(b, w)
            k = pred.lstrip('su') if pred not in ('eq', 'ne') else pred
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
        if isinstance(a, tuple) and a[0] == 'cmp' and isinstance(b, int):
            if pred == 'ne' and b == 0 or pred == 'eq' and b == 1:
                return a
            if pred == 'eq' and b == 0 or pred == 'ne' and b == 1:
                return ('cmp', NEG[a[1]], a[2], a[3], a[4])
        return ('cmp', pred, w, a, b)
    def ptr_eq(self, st, a, b):
        """None unknown, else bool"""
        a = self.norm(st, a); b = self.norm(st, b)
        if a == b:
            return True
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if not isinstance(a, tuple) or a[0] != 'p':
                if isinstance(a, tuple) and a[0] in ('f', 'vt', 'fn'):
                    return False
                return None
            if b != 0:
                return st.preds.get(('peq', a, b))
            ri = self.rinfo.get(a[1])
            if ri is None or ri.kind != 'lazy':
                return False
            n = st.facts.get(('N', a[1]))
            if n is not None:
                return n == 0
            if a[2] != 0:
                return False
            return None
        if a[0] == 'f' or b[0] == 'f':
            return False if a[0] == b[0] else None
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                if isinstance(a[2], int) and isinstance(b[2], int):
                    return a[2] == b[2]
                d = self.add(a[2], b[2], 64, -1)
                if isinstance(d, int):
                    return d == 0
                return None
            ka = self.rinfo.get(a[1]); kb = self.rinfo.get(b[1])
            ka = ka.kind if ka else 'glob'; kb = kb.kind if kb else 'glob'
            if ka != 'lazy' and kb != 'lazy':
                return False
            if self.unrelated(a[1], b[1]):
                return False
            if 'stack' in (ka, kb) or 'heap' in (ka, kb):
                # a pointer that was there before cannot be the fresh object
                if not st.ex.get('escape_alias'):
                    return False
            k = ('peq',) + tuple(sorted((a, b), key=repr))
            return st.preds.get(k)
        return None
    def unrelated(self, r1, r2):
        c1 = self.rinfo[r1].ann.get(0) if r1 in self.rinfo else None
        c2 = self.rinfo[r2].ann.get(0) if r2 in self.rinfo else None
        if c1 is None or c2 is None or c1 == c2:
            return False
        n1 = self.m.type_name(c1); n2 = self.m.type_name(c2)
        if not (n1.startswith(LIBNS) and n2.startswith(LIBNS)) or n1 == n2:
            return False
        return not (self.derives(c1, c2) or self.derives(c2, c1))
    def derives(self, c, b):
        if c == b:
            return True
        return any(self.derives(x, b) for x, o in self.m.bases(c))
    def known(self, st, v):
        """truth of an i1 value: True/False/None"""
        if isinstance(v, int):
            return bool(v & 1)
        if v[0] == 'cmp':
            _, pred, w, a, b = v
            a = self.norm(st, a); b = self.norm(st, b)
            isp = any(isinstance(x, tuple) and x[0] in ('p', 'f', 'vt', 'fn') for x in (a, b))
            if isp:
                if pred in ('eq', 'ne'):
                    e = self.ptr_eq(st, a, b)
                    return None if e is None else (e if pred == 'eq' else not e)
                if all(isinstance(x, tuple) and x[0] == 'p' for x in (a, b)) and a[1] == b[1]:
                    return self.known_cmp(st, pred, a[2], b[2], 64)
                return st.preds.get(v)
            return self.known_cmp(st, pred, a, b, w)
        r = self.rngv(st, v, self.width(v))
        if len(r) == 1 and r[0][0] == r[0][1]:
            return bool(r[0][0] & 1)
        return None
    def known_cmp(self, st, pred, a, b, w):
        if isinstance(a, int) and not isinstance(b, int):
            a, b, pred = b, a, SWP[pred]
        if isinstance(a, int) and isinstance(b, int):
            return bool(self.icmp(st, pred, a, b, w))
        if a == b:
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        if isinstance(b, int):
            r = self.rngv(st, a, w)
            s = pred_set(pred, b, w)
            x = rset_and(r, s)
            if not x:
                return False
            if x == r:
                return True
            return None
        if pred in ('eq', 'ne'):
            d = self.add(a, b, w, -1)
            if isinstance(d, int):
                return (d == 0) == (pred == 'eq')
            # single base difference
            r = self.rngv(st, d, w)
            if not rset_and(r, ((0, 0),)):
                return pred == 'ne'
        # range reasoning between terms
        ra = self.rngv(st, a, w); rb = self.rngv(st, b, w)
        if pred[0] == 'u' and ra and rb:
            amin, amax, bmin, bmax = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
            if pred == 'ult':
                if amax < bmin: return True
                if amin >= bmax: return False
            if pred == 'uge':
                if amin >= bmax: return True
                if amax < bmin: return False
            if pred == 'ugt':
                if amin > bmax: return True
                if amax <= bmin: return False
            if pred == 'ule':
                if amax <= bmin: return True
                if amin > bmax: return False
        # order facts on a difference (no wrap assumed): x+c1 ? y+c2
        k = self.predkey(pred, w, a, b)
        if k[1] in st.preds:
            return st.preds[k[1]] if k[0] else not st.preds[k[1]]
        if k[1][1] in ('ult', 'slt'):
            # neither equal nor the other way round
            q = k[1]
            if st.preds.get(('P', q[1], w, q[4], q[3])) is False and st.preds.get(self.predkey('eq', w, q[3], q[4])[1]) is False:
                return k[0]
        return None
    def predkey(self, pred, w, a, b):
        pos = True
        if pred in ('ne', 'uge', 'ugt', 'sge', 'sgt'):
            if pred in ('ugt', 'sgt'):
                a, b, pred = b, a, SWP[pred]
            else:
                pred = NEG[pred]; pos = False
                # uge a b == not ult a b
        if pred in ('ule', 'sle'):
            # a<=b == not b<a
            a, b = b, a; pred = {'ule': 'ult', 'sle': 'slt'}[pred]; pos = not pos
        if pred == 'eq' and repr(a) > repr(b):
            a, b = b, a
        return pos, ('P', pred, w, a, b)
    def assume(self, st, v, val):
        """refine st with truth(v)==val; False if infeasible"""
        k = self.known(st, v)
        if k is not None:
            return k == val
        if v[0] == 'cmp':
            _, pred, w, a, b = v
            a = self.norm(st, a); b = self.norm(st, b)
            if not val:
                pred = NEG[pred]
            isp = any(isinstance(x, tuple) and x[0] in ('p', 'f', 'vt', 'fn') for x in (a, b))
            if isp:
                if pred == 'eq' or pred == 'ne':
                    return self.assume_ptr(st, a, b, pred == 'eq')
                st.preds[v] = val
                return True
            return self.assume_cmp(st, pred, a, b, w)
        w = self.width(v)
        return self.assume_cmp(st, 'ne' if val else 'eq', v, 0, w)
    def assume_ptr(self, st, a, b, eq):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if isinstance(a, tuple) and a[0] == 'p' and b == 0:
                st.facts[('N', a[1])] = 0 if eq else 1
            else:
                st.preds[('peq', a, b)] = eq
            return True
        k = ('peq',) + tuple(sorted((a, b), key=repr))
        if not eq:
            st.preds[k] = False
            return True
        if a[0] != 'p' or b[0] != 'p':
            st.preds[k] = True
            return True
        if a[1] == b[1]:
            st.preds[k] = True
            return True
        # unify lazy region into the other
        ra = self.rinfo.get(a[1])
        if ra is None or ra.kind != 'lazy':
            a, b = b, a
        ra = self.rinfo.get(a[1]); rb = self.rinfo.get(b[1])
        if ra is not None and rb is not None and rb.kind == 'lazy' and ra.kind == 'lazy' and b[1] > a[1]:
            a, b = b, a
        d = self.addoff(b[2], -a[2] if isinstance(a[2], int) else self.add(0, a[2], 64, -1))
        na = st.facts.get(('N', a[1]))
        nb = st.facts.get(('N', b[1]))
        if na == 1 and nb == 0 or na == 0 and nb == 1:
            return False
        if na is not None and nb is None:
            st.facts[('N', b[1])] = na
        st.alias[a[1]] = (b[1], d)
        ca = st.mem.get(a[1])
        if ca and isinstance(d, int):
            tgt = self.cells_w(st, b[1])
            for o, c in ca.items():
                if isinstance(o, int) and o + d not in tgt:
                    tgt[o + d] = c
            for o, c in self.rinfo[a[1]].ann.items():
                if b[1] in self.rinfo:
                    self.annot(('p', b[1], o + d), c)
        # disequalities
        for kk, vv in list(st.preds.items()):
            if kk[0] == 'peq' and not vv and len(kk) == 3:
                if self.norm(st, kk[1]) == self.norm(st, kk[2]):
                    return False
        return True
    def assume_cmp(self, st, pred, a, b, w):
        if isinstance(a, int) and not isinstance(b, int):
            a, b, pred = b, a, SWP[pred]
        if isinstance(b, int):
            s = pred_set(pred, b, w)
            if isinstance(a, tuple) and a[0] == 'lin' and len(a[3]) == 1 and a[3][0][1] == 1:
                base = a[3][0][0]
                s = rset_shift(s, -a[2], w)
            else:
                base = a
            if isinstance(base, tuple) and base[0] == 'cmp':
                ok1 = bool(rset_and(s, ((1, 1),))); ok0 = bool(rset_and(s, ((0, 0),)))
                if ok1 and ok0: return True
                if ok1: return self.assume(st, base, True)
                if ok0: return self.assume(st, base, False)
                return False
            r = rset_and(self.rng(st, base, w), s)
            if not r:
                return False
            st.facts[base] = r
            if isinstance(base, tuple) and base[0] == 'o' and base[1] == 'zext':
                r2 = rset_and(self.rngv(st, base[3], self.width(base[3])), r)
                if not r2:
                    return False
                if isinstance(base[3], tuple) and base[3][0] == 's':
                    st.facts[base[3]] = r2
            return True
        if pred in ('eq', 'ne'):
            d = self.add(a, b, w, -1)
            if isinstance(d, tuple) and d[0] == 'lin' and len(d[3]) == 1 and d[3][0][1] in (1,):
                return self.assume_cmp(st, pred, d, 0, w)
        pos, k = self.predkey(pred, w, a, b)
        st.preds[k] = pos
        if k[1] in ('ult', 'slt') and pos:
            p2, k2 = self.predkey('eq', w, k[3], k[4])
            st.preds.setdefault(k2, False)
            st.preds.setdefault(('P', k[1], w, k[4], k[3]), False)
            if k[1] == 'ult':
                # b > a >= min(a)
                ra = self.rngv(st, k[3], w); 
                if ra and isinstance(k[4], tuple) and k[4][0] in ('s', 'o'):
                    r = rset_and(self.rng(st, k[4], w), ((ra[0][0] + 1, mask(w)),))
                    if not r: return False
                    st.facts[k[4]] = r
        return True
    def branch(self, st, v):
        """[(state, bool)]; st may be consumed"""
        k = self.known(st, v)
        if k is not None:
            return [(st, k)]
        s2 = st.fork()
        out = []
        if self.assume(st, v, True):
            st.nf += 1
            out.append((st, True))
        if self.assume(s2, v, False):
            s2.nf += 1
            out.append((s2, False))
        return out
    # ------------------------------------------------------------ memory
    def cells(self, st, rid):
        return st.mem.get(rid) or {}
    def cells_w(self, st, rid):
        c = st.mem.get(rid)
        if c is None:
            c = st.mem[rid] = {}
            st.own.add(rid)
        elif rid not in st.own:
            c = st.mem[rid] = dict(c)
            st.own.add(rid)
        return c
    def tysize(self, ty):
        return self.m.lay(ty)[0]
    def gregion(self, st, name):
        rid = ('g', name)
        if rid not in self.rinfo:
            self.rinfo[rid] = RI('glob', name)
        return ('p', rid, 0)
    def load(self, st, p, ty, inst=None, log=True, atomic=None):
        p = self.norm(st, p)
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int) or p[0] in ('u',):
                self.event(st, 'nullderef', 'load', (p,), inst)
                st.status = 'nullderef'
                return ('u',)
            if p[0] == 'vt':
                return ('u',)
            # pointer from an integer term
            p = self.toptr(st, p)
        if isinstance(ty, tuple) and self.m.resolve(ty)[0] in ('struct', 'array'):
            u = self.m.resolve(ty)
            sz, al, offs = self.m.lay(ty)
            if u[0] == 'struct':
                return ('agg', tuple(self.load(st, ('p', p[1], self.addoff(p[2], o)), e, inst, log) for e, o in zip(u[1], offs)))
            es = self.m.lay(u[2])[0]
            return ('agg', tuple(self.load(st, ('p', p[1], self.addoff(p[2], i * es)), u[2], inst, log) for i in range(min(u[1], 16))))
        ri = self.rinfo.get(p[1])
        n = self.tysize(ty)
        if ('freed', p[1]) in st.facts and ri.kind != 'stack':
            self.event(st, 'useafterfree', self.label(p), (p,), inst)
        c = st.mem.get(p[1])
        v = None
        if c is not None:
            cell = c.get(p[2])
            if cell is not None and cell[0] == n:
                v = cell[1]
            elif isinstance(p[2], int):
                v = self.load_mixed(st, c, p, n)
            else:
                v = self.load_symoff(st, c, p, n)
        if v is not None and atomic and self.cfg.atomics_fresh and ri.kind in ('lazy', 'glob') and not (self.cfg.stable_under_lock and st.locks):
            v = None
        if v is None:
            v = self.lazy(st, p, ty, ri)
            if n:
                cw = self.cells_w(st, p[1])
                if isinstance(p[2], int):
                    self.clobber(cw, p[2], n)
                cw[p[2]] = (n, v)
        v = self.norm(st, v)
        if ty == 'ptr' and isinstance(v, tuple) and v[0] in ('s', 'o', 'lin'):
            v = self.toptr(st, v)
            self.cells_w(st, p[1])[p[2]] = (n, v)
        if log and self.cfg.log_load and (ri.kind != 'stack' or self.cfg.log_stack):
            e = self.event(st, 'load', None, (p,), inst)
            e.ret = v; e.x = atomic
        return v
    def toptr(self, st, v):
        k = ('ptrof', v)
        r = st.ex.get(k)
        if r is None:
            rid = self.region('lazy', 'ptr(%s)' % (v[3] if v[0] == 's' else v[0],))
            r = ('p', rid, 0)
            st.ex[k] = r
        return r
    def load_symoff(self, st, c, p, n):
        for o, cell in c.items():
            if cell[0] == n:
                d = self.add(o, p[2], 64, -1)
                if d == 0:
                    return cell[1]
        return None
    def load_mixed(self, st, c, p, n):
        o = p[2]
        # inside a bigger constant cell
        for o2, cell in c.items():
            if not isinstance(o2, int) or not o2 <= o < o2 + cell[0]:
                continue
            if o2 + cell[0] >= o + n and cell[0] > n:
                if isinstance(cell[1], int):
                    return (cell[1] >> (8 * (o - o2))) & mask(8 * n)
                return None if cell[1] == ('u',) else ('o', 'extract', 8 * n, cell[1], o - o2)
        # assembled from smaller cells
        parts = []
        k = o
        anyc = False
        while k < o + n:
            cell = c.get(k)
            if cell is None or k + cell[0] > o + n or cell[0] == 0:
                return None
            anyc = True
            parts.append((k - o, cell)); k += cell[0]
        if not anyc:
            return None
        if all(isinstance(x[1][1], int) for x in parts):
            return sum((x[1][1] & mask(8 * x[1][0])) << (8 * x[0]) for x in parts)
        return ('o', 'concat', 8 * n, tuple((d, cc[0], cc[1]) for d, cc in parts), 0)
    def lazy(self, st, p, ty, ri):
        self.stats['lazies'] += 1
        f = self.field(p)
        hint = ('%s::%s' % (f[0].split('::')[-1], f[1])) if f else '%s+%s' % (ri.name if ri else '?', p[2] if isinstance(p[2], int) else '?')
        if ri.kind == 'glob':
            g = self.m.gval(ri.name)
            if g is not None and isinstance(p[2], int) and ' constant ' in ' ' + self.m.globals[ri.name]:
                v = self.const_at(st, g, p[2], ty)
                if v is not None:
                    return v
        if f and f[1].startswith('_vptr') or (f is None and ty == 'ptr' and False):
            cls = self.clsof(p)
            return ('vt', cls if cls else None, p)
        if ty == 'ptr':
            pc = None
            if f and f[2] and f[4] == 0:
                pc = self.pointee(f[2])
            return self.fresh('ptr', hint, pc)
        if ty == 'i64' and f and f[2] and f[4] == 0 and self.ptr_atomic(f[2]):
            return self.fresh('ptr', hint)
        return self.fresh(ty, hint)
    def ptr_atomic(self, ref):
        k = ('patom', ref)
        r = self._slot.get(k)
        if r is None:
            n = self.m.type_name(ref) if 'DICompositeType' in self.m.md.get(ref, '') else ''
            r = self._slot[k] = bool(re.match(r'std::(__)?atomic(_base)?<.*\*>$', n))
        return r
    def pointee(self, ref):
        s = self.m.md.get(ref, '')
        if 'DIDerivedType' in s and ('DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue_reference_type' in s):
            b = self.m.mdget(ref, 'baseType')
            b = self.m.strip(b[1:]) if b else None
            if b and 'DICompositeType' in self.m.md.get(b, ''):
                return self.m.defn(b)
        elif 'DICompositeType' in s:
            # smart pointer: single pointer member to T
            fs = self.m.fields(ref)
            if fs:
                for o, z, path, t, dc in fs:
                    if o == 0 and t and 'DW_TAG_pointer_type' in self.m.md.get(t, ''):
                        return self.pointee(t)
        return None
    def const_at(self, st, g, off, ty):
        t, v = g
        while True:
            if v[0] in ('zero',):
                return 0
            if v[0] == 'agg':
                u = self.m.resolve(t)
                if u[0] == 'struct':
                    offs = self.m.lay(t)[2]
                    for (et, ev), o in zip(v[1], offs):
                        if o <= off < o + self.m.lay(et)[0]:
                            t, v, off = et, ev, off - o
                            break
                    else:
                        return None
                    continue
                es = self.m.lay(u[2])[0]
                i = off // es
                if i >= len(v[1]):
                    return None
                (t, v), off = v[1][i], off % es
                continue
            if off != 0:
                return None
            r = self.const(st, v, t)
            return r
    def clobber(self, c, o, n):
        if not n:
            return
        if len(c) < 40:
            dead = [k for k, x in c.items() if isinstance(k, int) and k < o + n and o < k + x[0]]
        else:
            dead = [k for k in range(o - 15, o + n) if k in c and k < o + n and o < k + c[k][0]]
        for k in dead:
            kn, kv = c[k]
            del c[k]
            if k < o and isinstance(kv, int) and o - k in (1, 2, 4, 8):
                c[k] = (o - k, kv & mask(8 * (o - k)))
            e = o + n
            if k + kn > e and isinstance(kv, int) and (k + kn - e) in (1, 2, 4, 8):
                c[e] = (k + kn - e, kv >> (8 * (e - k)))
    def store(self, st, p, v, ty, inst=None, log=True, atomic=None):
        p = self.norm(st, p)
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int) or p[0] == 'u':
                self.event(st, 'nullderef', 'store', (p, v), inst)
                st.status = 'nullderef'
                return
            p = self.toptr(st, p)
        if isinstance(v, tuple) and v[0] == 'agg':
            u = self.m.resolve(ty)
            sz, al, offs = self.m.lay(ty)
            if u[0] == 'struct':
                for x, e, o in zip(v[1], u[1], offs):
                    self.store(st, ('p', p[1], self.addoff(p[2], o)), x, e, inst, log)
            else:
                es = self.m.lay(u[2])[0]
                for i, x in enumerate(v[1]):
                    self.store(st, ('p', p[1], self.addoff(p[2], i * es)), x, u[2], inst, log)
            return
        ri = self.rinfo.get(p[1])
        n = self.tysize(ty)
        if ('freed', p[1]) in st.facts and ri.kind != 'stack':
            self.event(st, 'useafterfree', self.label(p), (p,), inst)
        if log and self.cfg.log_store and (ri.kind != 'stack' or self.cfg.log_stack):
            e = self.event(st, 'store', None, (p, v), inst)
            e.x = atomic
        c = self.cells_w(st, p[1])
        if isinstance(p[2], int):
            self.clobber(c, p[2], n)
        else:
            for o in list(c):
                if o != p[2] and c[o][0] == n and not isinstance(o, int):
                    d = self.add(o, p[2], 64, -1)
                    if isinstance(d, int):
                        continue
                    kn = self.known_cmp(st, 'eq', o, p[2], 64)
                    if kn is not False:
                        del c[o]
        c[p[2]] = (n, v)
    def copybytes(self, st, d, s, n, inst=None, move=False):
        d = self.norm(st, d); s = self.norm(st, s)
        if not (isinstance(d, tuple) and isinstance(s, tuple) and d[0] == 'p' and s[0] == 'p'):
            return
        if not isinstance(n, int) or not isinstance(s[2], int) or not isinstance(d[2], int):
            return
        src = dict(self.cells(st, s[1]))
        ri = self.rinfo.get(s[1])
        # materialise missing words of lazily known memory
        if ri and ri.kind in ('lazy', 'glob', 'heap') and n <= 256:
            o = s[2]
            end = s[2] + n
            cov = sorted((k, x[0]) for k, x in src.items() if isinstance(k, int) and s[2] <= k < end)
            pos = s[2]
            todo = []
            for k, z in cov + [(end, 0)]:
                while pos < k:
                    step = 8 if pos % 8 == 0 and pos + 8 <= k else 1
                    for step in (8, 4, 2, 1):
                        if pos % step == 0 and pos + step <= k:
                            break
                    todo.append((pos, step)); pos += step
                pos = max(pos, k + z)
            for o, z in todo:
                f = self.field(('p', s[1], o))
                ty = 'i%d' % (8 * z)
                if f and f[2] and f[4] == 0 and z == 8 and 'DW_TAG_pointer_type' in self.m.md.get(f[2], ''):
                    ty = 'ptr'
                self.load(st, ('p', s[1], o), ty, inst, log=False)
            src = dict(self.cells(st, s[1]))
        dc = self.cells_w(st, d[1])
        self.clobber(dc, d[2], n)
        log = self.cfg.log_store and self.rinfo.get(d[1]) and self.rinfo[d[1]].kind != 'stack'
        for k, x in src.items():
            if isinstance(k, int) and s[2] <= k and k + x[0] <= s[2] + n:
                dc[k - s[2] + d[2]] = x
                if log:
                    self.event(st, 'store', None, (('p', d[1], k - s[2] + d[2]), x[1]), inst)
    # ------------------------------------------------------------ events
    def event(self, st, k, name, a, inst=None):
        fr = st.fr
        if a and self.cfg.__dict__.get('fp') is not None and k not in ('load', 'store'):
            for p in a: self.cfg.fp.add(st, self.norm(st, p), 1, self)
        loc = None
        if inst is not None and inst.dbg:
            loc = self.m.locstr(inst.dbg)
        if loc is None or not (loc.startswith(('include/', 'source/')) ):
            # nearest frame inside the library
            for f in reversed(fr[:-1] if fr else []):
                b = f.f.blocks[f.blk]
                ci = b[f.i - 1] if 0 < f.i <= len(b) else None
                if ci is not None and ci.dbg:
                    l2 = self.m.locstr(ci.dbg)
                    if l2.startswith(('include/', 'source/')):
                        loc = l2
                        break
        e = Ev(k, name, a, st.locks, loc or '?', tuple(f.f.name for f in fr))
        e.ctx = st.thr
        st.hist = (st.hist, e)
        return e
    # ------------------------------------------------------------ evaluation
    def const(self, st, v, ty):
        k = v[0]
        if k == 'i':
            if isinstance(ty, str):
                m = INTW.match(ty)
                if m:
                    return v[1] & mask(int(m.group(1)))
            return v[1]
        if k == 'null':
            return 0
        if k == 'undef':
            return ('u',)
        if k == 'zero':
            if isinstance(ty, tuple):
                u = self.m.resolve(ty)
                if u[0] == 'struct':
                    return ('agg', tuple(self.const(st, v, e) for e in u[1]))
                if u[0] == 'array':
                    return ('agg', tuple(self.const(st, v, u[2]) for _ in range(u[1])))
            return 0
        if k == 'g':
            if v[1] in self.m.funcs or v[1] in self.m.decls:
                return ('f', v[1])
            return self.gregion(st, v[1])
        if k == 'cgep':
            _, bt, base, idx = v
            b = self.const(st, base, 'ptr')
            off, t = 0, bt
            for j, (it, iv) in enumerate(idx):
                n = iv[1] if iv[0] == 'i' else 0
                if j == 0:
                    off += n * self.tysize(bt)
                else:
                    u = self.m.resolve(t)
                    if u[0] == 'struct':
                        off += self.m.lay(t)[2][n]; t = u[1][n]
                    else:
                        off += n * self.tysize(u[2]); t = u[2]
            if isinstance(b, tuple) and b[0] == 'p':
                return ('p', b[1], b[2] + off)
            return b
        if k == 'ccast':
            return self.const(st, v[2], v[3])
        if k == 'cbin':
            a = self.const(st, v[2], v[4]); b = self.const(st, v[3], v[4])
            w = int(v[4][1:]) if isinstance(v[4], str) and v[4][0] == 'i' else 64
            return self.binop(st, v[1], a, b, w)
        if k == 'agg':
            return ('agg', tuple(self.const(st, e, t) for t, e in v[1]))
        if k == 'c':
            return ('s', 'c' + str(v[1]), 64, 'fp')
        if k == 'cstr':
            return ('u',)
        raise EngineError('const %r' % (v,))
    def val(self, st, fr, v, ty):
        if v[0] == 'l':
            try:
                return self.norm(st, fr.reg[v[1]])
            except KeyError:
                raise EngineError('reg %s in %s %s' % (v[1], fr.f.dem, fr.blk))
        return self.const(st, v, ty)
    # ------------------------------------------------------------ running
    def new_state(self):
        st = State.__new__(State)
        st.fr = []; st.mem = {}; st.own = set(); st.facts = {}; st.preds = {}; st.alias = {}
        st.locks = (); st.hist = None; st.nf = 0; st.status = None; st.ret = None; st.exc = None; st.cont = {}; st.caught = (); st.ex = {}; st.sus = None; st.thr = 0
        return st
    def param_classes(self, f):
        """DI class pointed to by each IR parameter (by name), from dbg.declare lines and the method class"""
        r = self._vparams.get(f.name)
        if r is None:
            r = self._vparams[f.name] = self.m.param_types(f)
        return r
    def push(self, st, f, args, call=None, onret=None):
        fr = Frame.__new__(Frame)
        f.blocks
        fr.f = f; fr.blk = f.entry; fr.i = 0; fr.prev = None; fr.reg = {}; fr.call = call; fr.vis = {}; fr.fk = st.nf; fr.uid = next(_uid); fr.onret = onret; fr.exc = None
        f.blocks
        for (t, n, a), v in zip(f.params, args):
            fr.reg[n] = v
        if f.dbg:
            pc = self.param_classes(f)
            for (t, n, a), v in zip(f.params, args):
                c = pc.get(n)
                if c and isinstance(v, tuple) and v[0] == 'p':
                    self.annot(v, c)
        st.fr.append(fr)
        self.stats['funcs'].add(f.name)
        if len(st.fr) > self.cfg.maxdepth:
            raise EngineError('depth ' + ' > '.join(x.f.dem[:60] for x in st.fr[-6:]))
    def entry(self, name, args=None, init=None):
        f = self.m.funcs.get('@' + name) or self.m.funcs.get(name)
        if f is None:
            raise EngineError('missing entry ' + name)
        st = self.new_state()
        if args is None:
            args = []
            pc = self.param_classes(f)
            for t, n, a in f.params:
                v = self.fresh(t, 'arg:' + n.lstrip('%'))
                if t == 'ptr' and isinstance(v, tuple):
                    st.facts[('N', v[1])] = 1
                args.append(v)
        self.push(st, f, args)
        if init:
            r = init(self, st, args)
            if r is not None:
                st = r
        return st
    def run(self, st):
        """explore; returns list of final states"""
        done = []
        self.base = next(_uid)
        work = [st] if isinstance(st, State) else list(st)
        self.seen = set(); self.swapped = set()
        n0 = 0
        while work:
            s = work.pop()
            n0 += 1
            if n0 > self.cfg.max_states:
                raise EngineError('state budget exceeded')
            out = self.advance(s)
            for x in out:
                if x.status is None:
                    work.append(x)
                elif x.status not in ('drop', 'assert', 'pruned', 'cut'):
                    done.append(x)
                    self.stats['paths'] += 1
        self.stats['states'] += n0
        return done
    def shared(self, st, fr, ins):
        """does the instruction touch memory another thread can reach, or a lock"""
        if ins.op in ('call', 'invoke'):
            c = ins.a[0]
            if c[0] != 'g': return False
            k = self._cpre.get(c[1])
            if k is None: k = self._cpre[c[1]] = bool(re.search(self.cfg.preempt_calls, self.m.dem.get(c[1], c[1])))
            return k
        p = self.val(st, fr, ins.a[1] if ins.op in ('store', 'atomicrmw') else ins.a[0], 'ptr')
        p = self.norm(st, p)
        ri = self.rinfo.get(p[1]) if isinstance(p, tuple) and p[0] == 'p' else None
        return ri is not None and ri.kind != 'stack' and ri.name != 'const'
    def foot(self, st, fr, ins):
        """collect what the two threads of an interleaving touch: per section between two switching points of the first one, and all of the second one"""
        F = self.cfg.fp; o = ins.op
        if o in ('call', 'invoke'):
            c = ins.a[0]
            if c[0] == 'g':
                k = self._cpre.get(('m', c[1]))
                if k is None: k = self._cpre['m', c[1]] = self.classify(c[1])[0] == 'model' or c[1] not in self.m.funcs
                if not k: return
            for t, v, at in ins.a[1]:
                if t == 'ptr': F.add(st, self.norm(st, self.val(st, fr, v, t)), 1, self)
        elif o in ('load', 'store', 'cmpxchg', 'atomicrmw'):
            F.add(st, self.norm(st, self.val(st, fr, ins.a[1] if o in ('store', 'atomicrmw') else ins.a[0], 'ptr')), o != 'load', self)
    def swap(self, st):
        """go on with the other thread"""
        fr, locks, thr = st.sus
        st.sus = (st.fr, st.locks, st.thr); st.fr = fr; st.locks = locks; st.thr = thr
    def advance(self, st):
        pre = self.cfg.__dict__.get('preempt'); fp = self.cfg.__dict__.get('fp')
        while True:
            fr = st.fr[-1]
            blk = fr.f.blocks[fr.blk]
            if fr.i >= len(blk):
                raise EngineError('fell off block')
            ins = blk[fr.i]
            if pre is not None and ins.op in PREEMPT_OPS and st.sus is None and not st.ex.get('preempted') and self.shared(st, fr, ins):
                n = st.ex.get('points', 0); st.ex['points'] = n + 1
                if n == pre[0]:
                    st.ex['preempted'] = 1
                    st.sus = (st.fr, st.locks, st.thr); st.fr = []; st.locks = (); st.thr = 1
                    for fn, a in reversed(pre[1]): self.push(st, self.m.funcs['@' + fn], list(a))
                    continue
            if pre is not None and len(pre) > 2 and ins.op in PREEMPT_OPS and st.thr == 1 and st.sus is not None and not st.ex.get('preempted2') and self.shared(st, fr, ins):
                n = st.ex.get('points2', 0); st.ex['points2'] = n + 1
                if n == pre[2]:
                    st.ex['preempted2'] = 1; self.swap(st)
                    continue
            if fp is not None: self.foot(st, fr, ins)
            fr.i += 1
            self.stats['insts'] += 1
            r = getattr(self, 'op_' + ins.op)(st, fr, ins)
            if r is not None:
                return r
            if st.status is not None:
                return [st]
    def jump(self, st, fr, target):
        """None to go on with st, or [] when pruned"""
        fr.prev = fr.blk; fr.blk = target; fr.i = 0
        blk = fr.f.blocks[target]
        # phis
        vals = []
        k = 0
        while k < len(blk) and blk[k].op == 'phi':
            for v, l in blk[k].a:
                if l == fr.prev:
                    vals.append((blk[k].res, self.val(st, fr, v, blk[k].ty)))
                    break
            k += 1
        for r, v in vals:
            fr.reg[r] = v
        fr.i = k
        if target in fr.f.loop_heads():
            n, nf = fr.vis.get(target, (0, -1))
            tot = fr.vis.get((target, 't'), (0, 0))[0] + 1
            fr.vis[(target, 't')] = (tot, 0)
            if nf == -1 or nf == st.nf:
                n2 = n
            else:
                n2 = n + 1
            fr.vis[target] = (n2, st.nf)
            if self.cfg.__dict__.get('widen') and tot >= 2:
                self.widen(st, fr, target)
            if n2 > self.cfg.unroll or tot > 70:
                self.stats['cut'] += 1
                st.status = 'cut'
                return [st]
            if n2 >= 1 or (st.sus is not None and tot >= 2):
                key = self.canon(st)
                if key in self.seen and st.sus is not None and key not in self.swapped:
                    self.swapped.add(key); self.swap(st)      # this thread only spins: the other one goes on
                    return None
                if key in self.seen:
                    self.stats['pruned'] += 1
                    st.status = 'pruned'
                    return [st]
                self.seen.add(key)
        return None
    def widen(self, st, fr, target):
        """forget the local numbers that changed since the last visit of this loop head"""
        k = (target, 'w'); old = fr.vis.get(k, {}); now = {}
        for rid in list(st.mem):
            ri = self.rinfo.get(rid)
            if ri is None or ri.kind != 'stack' or ri.parent != fr.uid: continue
            for o, (z, v) in list(self.cells(st, rid).items()):
                if isinstance(o, int): now[(rid, o)] = (z, v)
        for a, (z, v) in now.items():
            w = old.get(a)
            if w is not None and w != (z, v) and not P2(self.norm(st, v)) and not P2(self.norm(st, w[1])):
                now[a] = (z, self.sym(z * 8, 'w'))
                self.cells_w(st, a[0])[a[1]] = now[a]
        fr.vis[k] = now
    def live(self, f):
        r = self._live.get(f.name)
        if r is not None:
            return r
        use = {}; defs = {}
        def refs(x, out):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                    out.add(x[1]); return
                for y in x:
                    refs(y, out)
            elif isinstance(x, list):
                for y in x: refs(y, out)
        gens = {}; kills = {}; sc = {}
        phiuse = {}
        for b, ins in f.blocks.items():
            g = set(); k = set()
            for i in ins:
                if i.op == 'phi':
                    for v, l in i.a:
                        if v[0] == 'l':
                            phiuse.setdefault(l, set()).add(v[1])
                    k.add(i.res); continue
                o = set(); refs(i.a, o)
                g |= (o - k)
                if i.res: k.add(i.res)
            gens[b] = g; kills[b] = k; sc[b] = succs(ins[-1])
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                o = set(phiuse.get(b, ()))
                for s in sc[b]: o |= live[s]
                n = gens[b] | (o - kills[b])
                if n != live[b]:
                    live[b] = n; ch = True
        for b, ins in f.blocks.items(): live[('phi', b)] = set(i.res for i in ins if i.op == 'phi'); live[('use', b)] = phiuse.get(b, set())
        self._live[f.name] = live
        return live
    def canon(self, st):
        ren = {}
        out = []
        seen = set()
        queue = []
        def cv(v):
            if isinstance(v, tuple):
                if v and v[0] == 'p':
                    v = self.norm(st, v)
                    if not isinstance(v, tuple):
                        return v
                    r = v[1]
                    if isinstance(r, int) and r >= self.base:
                        if r not in ren:
                            ren[r] = len(ren); queue.append(r)
                        else:
                            pass
                        return ('p', ren[r], cv(v[2]))
                    if r not in seen:
                        seen.add(r); queue.append(r)
                    return v
                if v and v[0] == 's':
                    fct = st.facts.get(v)
                    if isinstance(v[1], int) and v[1] < self.base: return ('s', -v[1], v[2], fct)
                    if v[1] not in ren:
                        ren[v[1]] = len(ren)
                    return ('s', ren[v[1]], v[2], fct)
                r = tuple(cv(x) for x in v)
                fct = st.facts.get(v) if v and v[0] in ('o', 'lin', 'cmp') else None
                return r if fct is None else (r, fct)
            return v
        for idx, fr in enumerate(st.fr + (st.sus[0] if st.sus is not None else [])):
            L = self.live(fr.f); lv = L[fr.blk] | L[('phi', fr.blk)] if idx == len(st.fr) - 1 else None
            if lv is None:
                regs = fr.reg
                b = fr.f.blocks[fr.blk]
                # registers needed after the pending call
                need = set()
                k = set()
                lvs = self.live(fr.f)
                for i in b[fr.i:]:
                    need |= set(x for x in _refs(i.a) if x not in k)
                    if i.res: k.add(i.res)
                nx = set(lvs[('use', fr.blk)])
                for s in succs(b[-1]) + (list(fr.call_targets()) if hasattr(fr, 'call_targets') else []):
                    nx |= lvs[s]
                if b[fr.i - 1].op == 'invoke':
                    nx |= lvs[b[fr.i - 1].x[0]] | lvs[b[fr.i - 1].x[1]]
                lv = need | nx
            out.append((fr.f.name, fr.blk, fr.i, tuple((r, cv(fr.reg[r])) for r in sorted(lv) if r in fr.reg)))
        if st.sus is not None: out.append(('sus', len(st.fr), st.thr, tuple(cv(l[0]) for l in st.sus[1])))
        out.append(('locks', tuple((cv(l[0]),) + tuple(l[1:]) for l in st.locks)))
        for k, v in st.ex.items():
            if k in ('frame', 'points', 'points2') or isinstance(k, tuple) and k[0] in ('elem', 'elemsrc', 'elemkey', 'fn', 'anyptr'): continue
            out.append(('ex', cv(k), cv(v)))
        done = set()
        while queue:
            r = queue.pop(0)
            if r in done: continue
            done.add(r)
            c = st.mem.get(r)
            nf = st.facts.get(('N', r)); fz = ('freed', r) in st.facts
            ent = []
            if c:
                for o in sorted(c, key=lambda x: (0, x) if isinstance(x, int) else (1, repr(x))):
                    ent.append((cv(o), c[o][0], cv(c[o][1])))
            ck = tuple((k[1], cv(v[0])) for k, v in st.cont.items() if k[0] == r)
            out.append((ren.get(r, r), nf, fz, tuple(ent), ck))
        sig = frozenset(e_sig(e) for e in st.events())
        try:
            return (hash(tuple(map(repr, out))), sig)
        except TypeError:
            return (repr(out), sig)
    # ------------------------------------------------------------ instructions
    def op_alloca(self, st, fr, ins):
        rid = self.region('stack', fr.f.name + ins.res, self.tysize(ins.ty), fr.uid)
        if ins.res.startswith('%') and fr.f.dbg:
            pass
        fr.reg[ins.res] = ('p', rid, 0)
        c = self.m.var_class(fr.f, ins.res)
        if c:
            self.rinfo[rid].ann[0] = c
    def alive(self, st, fr, p, ins):
        """variables of functions that have returned are gone"""
        ri = self.rinfo.get(p[1])
        if ri is not None and ri.kind == 'stack' and ri.parent is not None and ri.parent != fr.uid:
            if not any(f.uid == ri.parent for f in reversed(st.fr)) and not (st.sus and any(f.uid == ri.parent for f in st.sus[0])):
                self.event(st, 'useafterfree', 'a local variable of a function that has returned', (p,), ins)
    def gone(self, st, fr, p, ins, dem):
        """library functions are not given memory that was released"""
        p = self.norm(st, p)
        if isinstance(p, tuple) and p[0] == 'p' and ('freed', p[1]) in st.facts and self.rinfo[p[1]].kind != 'stack' and not re.search(NOACCESS, dem):
            self.event(st, 'useafterfree', self.label(p), (p,), ins)
    def op_load(self, st, fr, ins):
        p = self.val(st, fr, ins.a[0], 'ptr')
        if isinstance(p, tuple) and p[0] == 'p': self.alive(st, fr, p, ins)
        v = None
        if isinstance(p, tuple) and p[0] == 'vtslot':
            v = ('vf', p[1], p[2], p[3])
        elif isinstance(p, tuple) and p[0] == 'vt':
            v = ('vf', p[1], 0, p[2])
        else:
            v = self.load(st, p, ins.ty, ins, atomic=ins.a[1])
        fr.reg[ins.res] = v
    def op_store(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0], ins.ty); p = self.val(st, fr, ins.a[1], 'ptr')
        if isinstance(p, tuple) and p[0] == 'p': self.alive(st, fr, p, ins)
        self.store(st, p, v, ins.ty, ins, atomic=ins.a[2])
    def op_getelementptr(self, st, fr, ins):
        bt, base, idx = ins.a
        b = self.val(st, fr, base, 'ptr')
        off = 0; t = bt
        for j, (it, iv) in enumerate(idx):
            n = self.val(st, fr, iv, it)
            if isinstance(n, int) and isinstance(it, str):
                n = sx(n, int(it[1:])) if int(it[1:]) > 1 else n
            if j == 0:
                sz = self.tysize(bt)
                d = n * sz if isinstance(n, int) else self.binop(st, 'mul', n, sz, 64)
            else:
                u = self.m.resolve(t)
                if u[0] == 'struct':
                    d = self.m.lay(t)[2][n]; t = u[1][n]
                else:
                    sz = self.tysize(u[2]); t = u[2]
                    d = n * sz if isinstance(n, int) else self.binop(st, 'mul', n, sz, 64)
            off = self.addoff(off, d)
        if isinstance(b, tuple) and b[0] == 'p':
            r = ('p', b[1], self.addoff(b[2], off))
        elif isinstance(b, tuple) and b[0] == 'vt':
            r = ('vtslot', b[1], off // 8 if isinstance(off, int) else 0, b[2])
        elif isinstance(b, tuple) and b[0] in ('s', 'o', 'lin'):
            q = self.toptr(st, b)
            r = ('p', q[1], self.addoff(q[2], off))
        elif b == 0 and off == 0:
            r = 0
        elif b == 0:
            # member of a null object: remember the null base
            r = ('nullgep', off)
        else:
            r = b
        if isinstance(r, tuple) and r[0] == 'nullgep':
            r = ('u',) if False else 0 if off == 0 else ('u',)
        fr.reg[ins.res] = r
    def op_br(self, st, fr, ins):
        if len(ins.a) == 1:
            return self.jump(st, fr, ins.a[0])
        v = self.val(st, fr, ins.a[0], 'i1')
        if isinstance(v, tuple) and v[0] == 'u':
            v = self.sym(1, 'undef')
        out = []
        br = self.branch(st, v)
        if len(br) == 1:
            s, b = br[0]
            r = self.jump(s, s.fr[-1], ins.a[1] if b else ins.a[2])
            return r if s is st or r is not None else [s]
        for s, b in br:
            r = self.jump(s, s.fr[-1], ins.a[1] if b else ins.a[2])
            out.append(s)
        return out
    def op_switch(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0], ins.ty)
        w = int(ins.ty[1:])
        if isinstance(v, tuple) and v[0] == 'u':
            v = self.sym(w, 'undef')
        if isinstance(v, int):
            for cv, l in ins.a[2]:
                if cv[1] & mask(w) == v:
                    return self.jump(st, fr, l)
            return self.jump(st, fr, ins.a[1])
        out = []
        rest = st
        for cv, l in ins.a[2]:
            c = self.icmp(rest, 'eq', v, cv[1] & mask(w), w)
            nrest = None
            for s, b in self.branch(rest, c):
                if b:
                    self.jump(s, s.fr[-1], l); out.append(s)
                else:
                    nrest = s
            rest = nrest
            if rest is None:
                break
        if rest is not None:
            self.jump(rest, rest.fr[-1], ins.a[1]); out.append(rest)
        return out
    def op_icmp(self, st, fr, ins):
        pr, a, b = ins.a
        w = int(ins.ty[1:]) if isinstance(ins.ty, str) and ins.ty[0] == 'i' else 64
        x = self.val(st, fr, a, ins.ty); y = self.val(st, fr, b, ins.ty)
        if (isinstance(x, tuple) and x[0] == 'u') or (isinstance(y, tuple) and y[0] == 'u'):
            fr.reg[ins.res] = self.sym(1, 'undefcmp'); return
        fr.reg[ins.res] = self.icmp(st, pr, x, y, w)
    def op_fcmp(self, st, fr, ins):
        fr.reg[ins.res] = self.sym(1, 'fcmp')
    def op_bin(self, st, fr, ins):
        op, a, b = ins.a
        w = int(ins.ty[1:]) if isinstance(ins.ty, str) and ins.ty[0] == 'i' else 64
        x = self.val(st, fr, a, ins.ty); y = self.val(st, fr, b, ins.ty)
        if x == ('u',) or y == ('u',):
            fr.reg[ins.res] = self.sym(w, 'undef'); return
        fr.reg[ins.res] = self.binop(st, op, x, y, w)
    def op_cast(self, st, fr, ins):
        op, v, ft = ins.a
        x = self.val(st, fr, v, ft)
        if op in ('zext', 'sext', 'trunc'):
            fw = int(ft[1:]); tw = int(ins.ty[1:])
            if isinstance(x, int):
                x = (sx(x, fw) if op == 'sext' else x) & mask(tw)
            elif x[0] == 'u':
                x = self.sym(tw, 'undef')
            elif x[0] == 'cmp':
                pass
            elif op == 'trunc' and tw == 1:
                r = self.rngv(st, x, fw)
                x = ('cmp', 'ne', fw, x, 0) if r and r[-1][1] <= 1 or fw == 8 else ('cmp', 'ne', fw, self.binop(st, 'and', x, 1, fw), 0)
            else:
                r = self.rngv(st, x, fw)
                if len(r) == 1 and r[0][0] == r[0][1]:
                    x = (sx(r[0][0], fw) if op == 'sext' else r[0][0]) & mask(tw)
                elif op == 'trunc' and isinstance(x, tuple) and x[0] == 'o' and x[1] in ('zext', 'sext') and self.width(x[3]) == tw:
                    x = x[3]
                else:
                    x = ('o', op, tw, x, fw)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            pass
        else:
            x = ('o', op, self.tysize(ins.ty) * 8, x, 0) if not isinstance(x, int) else self.sym(64, op)
        fr.reg[ins.res] = x
    def op_select(self, st, fr, ins):
        c = self.val(st, fr, ins.a[0], 'i1')
        out = []
        for s, b in self.branch(st, c):
            f = s.fr[-1]
            f.reg[ins.res] = self.val(s, f, ins.a[1] if b else ins.a[2], ins.ty)
            out.append(s)
        if len(out) == 1 and out[0] is st:
            return None
        return out
    def op_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0], None)
        for i in ins.a[1]:
            if isinstance(v, tuple) and v[0] == 'agg':
                v = v[1][i]
            else:
                v = ('u',)
        fr.reg[ins.res] = v
    def op_insertvalue(self, st, fr, ins):
        (v, w, idx) = ins.a
        a = self.val(st, fr, v, ins.ty); x = self.val(st, fr, w, None)
        u = self.m.resolve(ins.ty)
        def setv(a, u, idx):
            n = len(u[1]) if u[0] == 'struct' else u[1]
            l = list(a[1]) if isinstance(a, tuple) and a[0] == 'agg' else [('u',)] * n
            if len(idx) == 1:
                l[idx[0]] = x
            else:
                l[idx[0]] = setv(l[idx[0]], self.m.resolve(u[1][idx[0]] if u[0] == 'struct' else u[2]), idx[1:])
            return ('agg', tuple(l))
        fr.reg[ins.res] = setv(a, u, ins.a[2])
    def op_phi(self, st, fr, ins):
        return None
    def op_unreachable(self, st, fr, ins):
        st.status = 'drop'
        return [st]
    def op_asm(self, st, fr, ins):
        if ins.res:
            fr.reg[ins.res] = self.fresh(ins.ty, 'asm')
    def op_fence(self, st, fr, ins):
        self.event(st, 'fence', ins.a[0], (), ins)
    def islocal(self, st, p):
        ri = self.rinfo.get(p[1]) if isinstance(p, tuple) and p[0] == 'p' else None
        return ri is not None and ri.kind in ('stack',)
    def op_cmpxchg(self, st, fr, ins):
        q, e, nv, so, fo, weak = ins.a
        p = self.norm(st, self.val(st, fr, q, 'ptr')); ev = self.val(st, fr, e, ins.ty); n = self.val(st, fr, nv, ins.ty)
        w = self.tysize(ins.ty) * 8
        out = []
        local = self.islocal(st, p)
        # success
        cur = self.load(st, p, ins.ty, ins, log=False, atomic=so)
        s2 = st.fork()
        c = self.icmp(st, 'eq', cur, ev, w)
        if self.assume(st, c, True):
            st.nf += 1
            f = st.fr[-1]
            x = self.event(st, 'cas', None, (p, ev, n), ins); x.ret = 1; x.x = (so, fo)
            self.store(st, p, n, ins.ty, ins, log=False)
            f.reg[ins.res] = ('agg', (ev, 1))
            out.append(st)
        # failure: another value, or spurious
        f = s2.fr[-1]
        cur2 = cur
        c2 = self.icmp(s2, 'eq', cur2, ev, w)
        ok = True
        if not weak or True:
            ok = self.assume(s2, c2, False)
            if not ok and weak and not local and not self.cfg.__dict__.get('no_spurious'):
                ok = True          # spurious failure
            elif ok and weak and not local and False:
                pass
        if ok:
            s2.nf += 1
            x = self.event(s2, 'cas', None, (p, ev, n), ins); x.ret = 0; x.x = (so, fo)
            f.reg[ins.res] = ('agg', (cur2, 0))
            out.append(s2)
        return out
    def op_atomicrmw(self, st, fr, ins):
        o, q, v, od = ins.a
        p = self.norm(st, self.val(st, fr, q, 'ptr')); x = self.val(st, fr, v, ins.ty)
        w = self.tysize(ins.ty) * 8
        cur = self.load(st, p, ins.ty, ins, log=False, atomic=od)
        if o == 'xchg':
            n = x
        elif o in ('add', 'sub', 'and', 'or', 'xor'):
            n = self.binop(st, o, cur, x, w)
        else:
            n = self.sym(w, o)
        e = self.event(st, 'rmw', o, (p, x), ins); e.ret = cur; e.x = od
        self.store(st, p, n, ins.ty, ins, log=False)
        fr.reg[ins.res] = cur
    def op_ret(self, st, fr, ins):
        v = None
        if ins.a[0] is not None:
            v = self.val(st, fr, ins.a[0], ins.ty)
        return self.do_return(st, v)
    def do_return(self, st, v):
        fr = st.fr.pop()
        if fr.onret:
            r = fr.onret(self, st, v)
            if r is not None:
                if isinstance(r, list):
                    return r
                v = r
        if not st.fr:
            if st.sus is not None:
                self.event(st, 'thread-end', None, (st.thr,)); st.ex[('ret', st.thr)] = v
                st.fr, st.locks, st.thr = st.sus; st.sus = None
                return None
            if st.thr: st.ex[('ret', st.thr)] = v; v = st.ex.get(('ret', 0)); st.thr = 0
            st.status = 'ret'; st.ret = v
            return [st]
        self.finish_call(st, fr.call, v)
        return None if st.status is None else [st]
    def finish_call(self, st, call, v):
        fr = st.fr[-1]
        if call is None:
            return
        if call.res is not None:
            fr.reg[call.res] = v if v is not None else ('u',)
        if call.op == 'invoke':
            self.jump(st, fr, call.x[0])
    # ------------------------------------------------------------ exceptions
    def throw(self, st, tinfo, obj):
        """start unwinding"""
        st.exc = (tinfo, obj)
        return self.unwind(st)
    def unwind(self, st):
        while st.fr:
            fr = st.fr[-1]
            b = fr.f.blocks[fr.blk]
            ci = b[fr.i - 1]
            if ci.op == 'invoke':
                fr.exc = st.exc
                self.jump(st, fr, ci.x[1])
                return [st]
            popped = st.fr.pop()
        st.status = 'throw'
        return [st]
    def op_landingpad(self, st, fr, ins):
        exc = st.exc
        clauses = re.findall(r'catch ptr (@(?:"[^"]*"|[-\w$.]+)|null)', ins.a[2])
        eo = exc[1] if exc else ('u',)
        out = []
        if exc is None:
            return None
        ti = exc[0]
        sel = None
        if ti is not None:
            for c in clauses:
                if c == 'null' or c == ti or self.ti_base(c, ti):
                    sel = self.tid(c); break
            if sel is None:
                sel = 0 if True else None
            fr.reg[ins.res] = ('agg', (eo, sel))
            return None
        # unknown type
        res = []
        for c in clauses:
            s = st.fork(); s.nf += 1
            s.fr[-1].reg[ins.res] = ('agg', (eo, self.tid(c)))
            res.append(s)
            if c == 'null':
                return res
        st.fr[-1].reg[ins.res] = ('agg', (eo, 0))
        res.append(st)
        return res
    def tid(self, c):
        if c == 'null':
            return 1
        d = self._slot.setdefault('tid', {})
        return d.setdefault(c, len(d) + 2)
    def ti_base(self, base, ti):
        seen = set(); st = [ti]
        while st:
            t = st.pop()
            if t == base: return True
            if t in seen: continue
            seen.add(t)
            st += re.findall(r'@_ZTI[\w$.]+', self.m.globals.get(t, ''))
        return False
    def op_resume(self, st, fr, ins):
        fr.i = len(fr.f.blocks[fr.blk])
        st.fr.pop()
        return self.unwind(st)
    # ------------------------------------------------------------ calls
    def op_call(self, st, fr, ins):
        return self.call(st, fr, ins)
    op_invoke = op_call
    def classify(self, name):
        k = self._ckind.get(name)
        if k is None:
            dem = self.m.dem.get(name, name)
            k = ('body', None)
            for rx, h in self.cfg.ret.items():
                if re.search(rx, dem):
                    k = ('model', h, True); break
            else:
                for rx in self.cfg.opaque:
                    if re.search(rx, dem):
                        k = ('opaque', None); break
                else:
                    h = self.models(dem, name)
                    if h is not None and getattr(h, '__name__', '') in ('m_function', 'm_get_pointer') and self.cfg.__dict__.get('exact_fn'): h = None
                    if h is not None:
                        k = ('model', h, False)
                    elif name not in self.m.funcs:
                        k = ('opaque', None)
            watch = any(re.search(rx, dem) for rx in self.cfg.watch)
            k = k + (watch,) if len(k) == 3 else (k[0], k[1], False, watch)
            self._ckind[name] = k
        return k
    def call(self, st, fr, ins):
        callee, cargs = ins.a
        args = []
        for t, v, at in cargs:
            x = self.val(st, fr, v, t)
            if at.get('byval') and isinstance(x, tuple) and x[0] == 'p':
                rid = self.region('stack', 'byval')
                self.copybytes(st, ('p', rid, 0), x, self.tysize(at['byval']))
                x = ('p', rid, 0)
            args.append(x)
        if callee[0] == 'g':
            name = callee[1]
        else:
            v = self.val(st, fr, callee, 'ptr')
            if isinstance(v, tuple) and v[0] == 'f':
                name = v[1]
            elif isinstance(v, tuple) and v[0] == 'vf':
                return self.vcall(st, fr, ins, v, args)
            else:
                e = self.event(st, 'icall', self.hintof(v), tuple([v] + args), ins)
                return self.opaque_ret(st, ins, e, 'icall')
        return self.call_named(st, fr, ins, name, args)
    def hintof(self, v):
        if isinstance(v, tuple) and v[0] == 'p' and v[1] in self.rinfo:
            return self.rinfo[v[1]].name
        return repr(v)
    def call_named(self, st, fr, ins, name, args):
        k = self.classify(name)
        self.stats['calls'].add((fr.f.name, ins.dbg, name))
        dem = self.m.dem.get(name, name)
        if k[3]:
            self.event(st, 'enter', dem, tuple(args), ins)
        if k[0] == 'model':
            for x in args:
                if isinstance(x, tuple) and x and x[0] == 'p': self.gone(st, fr, x, ins, dem)
            r = k[1](self, st, ins, args, dem, name)
            if r is not NotImplemented:
                return self.after_model(st, ins, r)
        if k[0] in ('body', 'model') and name in self.m.funcs:
            f = self.m.funcs[name]
            rec = sum(1 for x in st.fr if x.f is f)
            if rec < self.cfg.recursion:
                self.push(st, f, args, ins)
                return None
            e = self.event(st, 'call', dem, tuple(args), ins); e.x = 'recursive'
            return self.opaque_ret(st, ins, e, dem)
        self.stats['opaque'].add(dem)
        e = self.event(st, 'call', dem, tuple(args), ins)
        # sret
        for (t, v, at), x in zip(ins.a[1], args):
            if at.get('sret') and isinstance(x, tuple) and x[0] == 'p':
                c = self.cells_w(st, x[1])
                if isinstance(x[2], int):
                    self.clobber(c, x[2], self.tysize(at['sret']))
        return self.opaque_ret(st, ins, e, dem)
    def opaque_ret(self, st, ins, e, dem):
        v = None
        if ins.ty != 'void':
            v = self.fresh(ins.ty, 'ret:' + str(dem)[:80])
            if ins.ty == 'i1':
                v = ('cmp', 'ne', 1, v, 0)
        e.ret = v
        out = None
        if any(re.search(rx, str(dem)) for rx in self.cfg.throws):
            s2 = st.fork(); s2.nf += 1
            self.event(s2, 'throws', dem, (), ins)
            out = [st] + self.throw(s2, None, self.fresh('ptr', 'exc'))
        self.finish_call(st, ins, v)
        return out
    def after_model(self, st, ins, r):
        """r: None | value | list of (state, value) | ('states', [...])"""
        if isinstance(r, list):
            out = []
            for s, v in r:
                if s.status is None and v is not STATE:
                    self.finish_call(s, ins, v)
                out.append(s)
            if len(out) == 1 and out[0] is st and st.status is None:
                return None
            return out
        if r is PUSHED:
            return None
        if 'dying' in st.ex:
            from models import bury
            bury(self, st, ins, r)
            return None
        self.finish_call(st, ins, r)
        return None
    # virtual calls
    def vmethod(self, cls, slot):
        """(declared name, implementation symbol or None)"""
        n = None; c = cls; impl = None
        name = self.m.vslot_name(cls, slot)
        vt = self.m.vtable_of(cls)
        if vt and slot < len(vt):
            impl = vt[slot]
        return name, impl
    def vcall(self, st, fr, ins, v, args):
        cls, slot = v[1], v[2]
        obj = self.norm(st, args[0]) if args else None
        if cls is None and obj is not None and isinstance(obj, tuple) and obj[0] == 'p':
            cls = self.clsof(obj)
        name = impl = None
        if obj is not None and P2(obj) and obj[1] in self.exact and obj[2] == 0: cls = self.rinfo[obj[1]].ann.get(0) or cls
        if cls:
            name, impl = self.vmethod(cls, slot)
        cn = self.m.type_name(cls) if cls else '?'
        full = '%s::%s' % (cn, name)
        for rx, h in self.cfg.ret.items():
            if re.search(rx, 'virtual ' + full):
                r = h(self, st, ins, args, 'virtual ' + full, None)
                return self.after_model(st, ins, r)
        if impl and P2(obj) and obj[1] in self.exact and impl in self.m.funcs:
            return self.call_named(st, fr, ins, impl, args)
        e = self.event(st, 'vcall', full, tuple(args), ins)
        return self.opaque_ret(st, ins, e, 'virtual ' + full)

def P2(v): return isinstance(v, tuple) and v and v[0] == 'p'
def _hasp(v):
    return isinstance(v, tuple) and bool(v) and (v[0] == 'p' or v[0] in ('o', 'lin', 'cmp') and any(_hasp(x) for x in v[1:])
                                    or isinstance(v[0], tuple) and any(_hasp(x) for x in v))

STATE = object()
PUSHED = object()

def _refs(x):
    out = set()
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                out.add(x[1]); return
            for y in x: go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(x)
    return out

def e_sig(e):
    return (e.k, e.name, e.loc, e.ret if isinstance(e.ret, int) else None)
