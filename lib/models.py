"""Transfer functions for the C++ runtime and standard library primitives the
analysed code calls.  Keyed on the qualified name of the callee."""
import re, functools
from engine import STATE, PUSHED, RI, Ev

@functools.lru_cache(maxsize=None)
def qual(dem):
    s = dem
    s = s.replace('operator<=>', 'operator_ss').replace('operator->*', 'operator_pm').replace('operator->', 'operator_arrow').replace('operator<<', 'operator_shl').replace('operator>>', 'operator_shr')
    s = s.replace('operator<=', 'operator_le').replace('operator>=', 'operator_ge').replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('operator()', 'operator_call')
    s = s.replace('(anonymous namespace)', 'anon').replace('operator new[]', 'operator_newa').replace('operator new', 'operator_new').replace('operator delete[]', 'operator_deletea').replace('operator delete', 'operator_delete')
    s = re.sub(r'operator (bool|[\w:<]+)', lambda m: 'operator_bool' if m.group(1) == 'bool' else 'operator_conv', s, count=1) if 'operator ' in s else s
    s = re.sub(r'\[abi:\w+\]', '', s)
    out = []
    d = 0
    b = 0
    for i, c in enumerate(s):
        if c == '{': b += 1
        if b == 0:
            if c == '<': d += 1
            elif c == '>': d -= 1
            elif c == '(' and d == 0:
                r = ''.join(out)
                if r.endswith('decltype') or r.endswith('decltype '):
                    # decltype (...) return type: skip the group
                    d += 0
                    out.append('\x01')
                else:
                    break
            elif d == 0:
                out.append(c)
        if c == '}':
            b -= 1
            if b == 0 and d == 0: out.append('{lambda}')
    r = ''.join(out)
    if '\x01' in r:
        # decltype(...) prefix: fall back to a regex on the tail
        m = re.search(r'([\w:~{}]+)$', re.sub(r'\(.*', '', r.split('\x01')[-1].split(')')[-1].strip()) or '')
        r = m.group(1) if m else r
    r = r.strip().split(' ')[-1]
    return r.replace('std::__cxx11::', 'std::').replace('std::__n4861::', 'std::').replace('std::__1::', 'std::')

@functools.lru_cache(maxsize=None)
def argtext(dem):
    """text of the parameter list"""
    d = 0
    i = len(dem) - 1
    if dem.endswith(' const'):
        i -= 6
    if i < 0 or dem[i] != ')':
        return ''
    j = i
    while j >= 0:
        if dem[j] == ')': d += 1
        elif dem[j] == '(':
            d -= 1
            if d == 0: break
        j -= 1
    return dem[j + 1:i]

P = lambda v: isinstance(v, tuple) and v[0] == 'p'
def off(p, n):
    return ('p', p[1], p[2] + n) if isinstance(p[2], int) else ('p', p[1], ('lin', 64, n, ((p[2], 1),)))

# --------------------------------------------------------------- memory
def m_new(e, st, ins, args, dem, name):
    rid = e.region('heap', 'new', args[0] if isinstance(args[0], int) else None)
    p = ('p', rid, 0)
    ev = e.event(st, 'new', None, (p, args[0]), ins)
    return p

def m_delete(e, st, ins, args, dem, name):
    p = e.norm(st, args[0])
    if p == 0:
        return None
    ev = e.event(st, 'delete', e.label(p), (p,) + tuple(args[1:2]), ins)
    if P(p):
        if ('freed', p[1]) in st.facts:
            e.event(st, 'doublefree', e.label(p), (p,), ins)
        st.facts[('freed', p[1])] = 1
        n = st.facts.get(('N', p[1]))
    return None

def m_memcpy(e, st, ins, args, dem, name):
    d = e.norm(st, args[0]); s = e.norm(st, args[1]); n = args[2]
    e.copybytes(st, d, s, n, ins)
    return None if ins.ty == 'void' else args[0]

def m_memset(e, st, ins, args, dem, name):
    d = e.norm(st, args[0]); n = args[2]
    if P(d) and isinstance(n, int) and isinstance(d[2], int):
        c = e.cells_w(st, d[1])
        e.clobber(c, d[2], n)
        if args[1] == 0:
            o = d[2]
            end = o + n
            while o < end:
                for z in (8, 4, 2, 1):
                    if o % z == 0 and o + z <= end: break
                c[o] = (z, 0); o += z
        ri = e.rinfo.get(d[1])
        if ri and ri.kind != 'stack' and e.cfg.log_store:
            e.event(st, 'store', None, (d, args[1]), ins)
    return None if ins.ty == 'void' else args[0]

def m_nop(e, st, ins, args, dem, name):
    if ins.ty == 'void': return None
    return e.fresh(ins.ty, 'r')

def m_arg0(e, st, ins, args, dem, name):
    return args[0]

def m_ovf(op):
    def h(e, st, ins, args, dem, name):
        return ('agg', (e.binop(st, op, args[0], args[1], 64), 0))
    return h

def m_assert(e, st, ins, args, dem, name):
    e.stats['asserts'] += 1
    if e.cfg.__dict__.get('report_asserts'):
        e.event(st, 'assert', None, (), ins)
        st.status = 'assertfail'
    else:
        st.status = 'assert'
    return [(st, STATE)]

def m_terminate(e, st, ins, args, dem, name):
    e.event(st, 'terminate', dem, (), ins)
    st.status = 'terminate'
    return [(st, STATE)]

def m_drop(e, st, ins, args, dem, name):
    st.status = 'drop'
    return [(st, STATE)]

# --------------------------------------------------------------- exceptions
def m_cxa_alloc(e, st, ins, args, dem, name):
    return ('p', e.region('heap', 'exception'), 0)

def m_cxa_throw(e, st, ins, args, dem, name):
    ti = args[1]
    t = ti[1][1] if P(ti) and isinstance(ti[1], tuple) else None
    e.event(st, 'throw', e.m.dem.get(t, t), tuple(args[:1]), ins)
    return [(s, STATE) for s in e.throw(st, t, args[0])]

def m_begin_catch(e, st, ins, args, dem, name):
    st.caught = st.caught + (st.exc,)
    e.event(st, 'catch', st.exc[0] if st.exc else None, (), ins)
    return args[0]

def m_end_catch(e, st, ins, args, dem, name):
    st.caught = st.caught[:-1]
    return None

def m_rethrow(e, st, ins, args, dem, name):
    x = st.caught[-1] if st.caught else (None, ('u',))
    x = x or (None, ('u',))
    e.event(st, 'rethrow', x[0], (), ins)
    return [(s, STATE) for s in e.throw(st, x[0], x[1])]

def m_rethrow_exception(e, st, ins, args, dem, name):
    v = ('u',)
    if P(args[0]):
        v = e.load(st, args[0], 'ptr', ins, log=False)
    e.event(st, 'rethrow_exception', None, (v,), ins)
    t = st.ex.get(('exctype', e.norm(st, v)[1])) if P(e.norm(st, v)) else None
    return [(s, STATE) for s in e.throw(st, t, v)]

def m_current_exception(e, st, ins, args, dem, name):
    # sret
    x = st.caught[-1] if st.caught and e.cfg.__dict__.get('exact_exc') else None
    p = e.norm(st, x[1]) if x and P(e.norm(st, x[1])) else ('p', e.region('heap', 'current_exception'), 0)
    if x and x[0]: st.ex[('exctype', p[1])] = x[0]
    e.event(st, 'current_exception', None, (p,), ins)
    e.store(st, args[0], p, 'ptr', ins, log=False)
    return None

def m_make_exception_ptr(e, st, ins, args, dem, name):
    m = re.search(r'make_exception_ptr<([\w:]+)>', dem)
    p = ('p', e.region('heap', 'exc:' + (m.group(1) if m else '?')), 0)
    e.event(st, 'make_exception_ptr', m.group(1) if m else None, (p,), ins)
    if e.cfg.__dict__.get('exact_exc') and m:
        k = ('ti', name)
        if k not in e._slot:
            mg = re.match(r'@?_ZSt18make_exception_ptrI(.*)', name).group(1)
            e._slot[k] = max((g for g in list(e.m.globals) + ['@_ZTIi'] if g.startswith('@_ZTI') and mg.startswith(g[5:] + 'E')), key=len, default=None)
        if e._slot[k]: st.ex[('exctype', p[1])] = e._slot[k]
        a = e.norm(st, args[1]) if len(args) > 1 else None
        if P(a): e.copybytes(st, p, a, 64)
        elif a is not None: e.store(st, p, a, ins.a[1][1][0], ins, log=False)
    e.store(st, args[0], p, 'ptr', ins, log=False)
    return None

def m_excptr(e, st, ins, args, dem, name):
    q = qual(dem); at = argtext(dem)
    meth = q.split('::')[-1]
    this = args[0]
    if meth in ('exception_ptr', '~exception_ptr', 'operator='):
        e.event(st, {'exception_ptr': 'exc.ctor', '~exception_ptr': 'exc.dtor'}.get(meth, 'exc.assign'), None, (e.norm(st, this),), ins)
    if meth == 'exception_ptr':
        if at in ('', 'decltype(nullptr)', 'std::nullptr_t'):
            e.store(st, this, 0, 'ptr', ins)
        elif at.endswith('&&'):
            v = e.load(st, args[1], 'ptr', ins); e.store(st, args[1], 0, 'ptr', ins); e.store(st, this, v, 'ptr', ins)
        elif at.endswith('const&'):
            e.store(st, this, e.load(st, args[1], 'ptr', ins), 'ptr', ins)
        else:
            e.store(st, this, args[1], 'ptr', ins)
        return None
    if meth == 'operator=':
        v = e.load(st, args[1], 'ptr', ins)
        if at.endswith('&&'):
            e.store(st, args[1], 0, 'ptr', ins)
        e.store(st, this, v, 'ptr', ins)
        return this
    if meth == '~exception_ptr':
        return None
    if meth == 'operator_bool':
        v = e.load(st, this, 'ptr', ins)
        return e.icmp(st, 'ne', v, 0, 64)
    if meth == 'swap':
        a = e.load(st, this, 'ptr', ins); b = e.load(st, args[1], 'ptr', ins)
        e.store(st, this, b, 'ptr', ins); e.store(st, args[1], a, 'ptr', ins)
        return None
    return NotImplemented

# --------------------------------------------------------------- shared_ptr
def obj_of(e, st, sp, ins):
    return e.load(st, sp, 'ptr', ins, log=False)

def sp_set(e, st, sp, v, ctl, ins, log=True):
    e.store(st, sp, v, 'ptr', ins, log=log)
    e.store(st, off(sp, 8), ctl, 'ptr', ins, log=False)

def sp_ctl(e, st, sp, ins):
    return e.load(st, off(sp, 8), 'ptr', ins, log=False)

def ev_own(e, st, k, v, sp, ins):
    if v != 0 and v != ('u',):
        e.event(st, k, e.label(v) if P(v) else None, (v, sp), ins)
        if e.cfg.__dict__.get('exact_sp') and k[0] == 's' and P(v):
            r = e.norm(st, v)[1]; x = st.ex.get(('spc', r))
            if x is not None:
                n = x[0] + (1 if k == 'sp+' else -1)
                st.ex[('spc', r)] = (n, x[1])
                if n == 0: st.ex['dying'] = st.ex.get('dying', ()) + (r,)

def own_new(e, st, p, T, ins):
    """object p, owned by shared_ptrs from now on"""
    if e.cfg.__dict__.get('exact_sp') and P(p): st.ex[('spc', p[1])] = (0, T)

def dtor_of(e, T):
    k = ('dtor', T)
    if k not in e._slot:
        n = re.sub(r'<.*', '', T).split('::')[-1]
        e._slot[k] = next((f for f, d in e.m.dem.items() if d == '%s::~%s()' % (T, n) and f in e.m.funcs), None)
    return e._slot[k]

def bury(e, st, ins, r):
    """destroy the objects whose last shared_ptr went away in this call, then return r from the call"""
    dead = st.ex.pop('dying')
    first = True
    def fin(rid, last):
        def f(e, s, v):
            m_delete(e, s, ins, [('p', rid, 0)], '', '')
            return r if last else None
        return f
    for i, rid in enumerate(reversed(dead)):
        T = st.ex[('spc', rid)][1]; d = dtor_of(e, T); last = i == 0
        e.push(st, e.m.funcs[d or '@drv_nothing'], [('p', rid, 0)] if d else [], ins if last else None, fin(rid, last))
    return PUSHED

def m_sp(e, st, ins, args, dem, name):
    q = qual(dem); at = argtext(dem); meth = q.split('::')[-1]
    weak = 'weak_ptr' in q
    this = args[0]
    inc, dec = ('wp+', 'wp-') if weak else ('sp+', 'sp-')
    if meth in ('shared_ptr', '__shared_ptr', 'weak_ptr', '__weak_ptr'):
        if at in ('', 'decltype(nullptr)', 'std::nullptr_t'):
            sp_set(e, st, this, 0, 0, ins); return None
        if at.endswith('&&') :
            v = obj_of(e, st, args[1], ins); c = sp_ctl(e, st, args[1], ins)
            sp_set(e, st, args[1], 0, 0, ins); sp_set(e, st, this, v, c, ins)
            e.event(st, 'spmove', None, (v, this, args[1]), ins)
            return None
        if at.endswith('const&') and ('_ptr<' in at):
            v = obj_of(e, st, args[1], ins); c = sp_ctl(e, st, args[1], ins)
            sp_set(e, st, this, v, c, ins); ev_own(e, st, inc, v, this, ins)
            return None
        if at.endswith('*') :
            own_new(e, st, e.norm(st, args[1]), at.rstrip('* '), ins)
            sp_set(e, st, this, args[1], ('p', e.region('heap', 'ctl'), 0), ins); ev_own(e, st, inc, args[1], this, ins)
            return None
        if 'weak_ptr' in at:      # from weak, nothrow
            v = obj_of(e, st, args[1], ins); c = sp_ctl(e, st, args[1], ins)
            return lockw(e, st, ins, this, v, c)
        if at.startswith('std::unique_ptr'):
            return NotImplemented
        return NotImplemented
    if meth == 'operator=':
        old = obj_of(e, st, this, ins)
        if at.endswith('&&'):
            v = obj_of(e, st, args[1], ins); c = sp_ctl(e, st, args[1], ins)
            if args[1] != this:
                sp_set(e, st, args[1], 0, 0, ins)
            sp_set(e, st, this, v, c, ins)
            e.event(st, 'spmove', None, (v, this, args[1]), ins)
        else:
            v = obj_of(e, st, args[1], ins); c = sp_ctl(e, st, args[1], ins)
            sp_set(e, st, this, v, c, ins); ev_own(e, st, inc, v, this, ins)
        ev_own(e, st, dec, old, this, ins)
        return this
    if meth == 'reset' and len(args) == 1:
        old = obj_of(e, st, this, ins)
        sp_set(e, st, this, 0, 0, ins); ev_own(e, st, dec, old, this, ins)
        return None
    if meth in ('~shared_ptr', '~__shared_ptr', '~weak_ptr', '~__weak_ptr'):
        old = obj_of(e, st, this, ins)
        ev_own(e, st, dec, old, this, ins)
        return None
    if meth in ('get', 'operator_arrow', 'operator*', '_M_get'):
        return obj_of(e, st, this, ins)
    if meth == 'operator_bool':
        return e.icmp(st, 'ne', obj_of(e, st, this, ins), 0, 64)
    if meth == 'swap':
        a = obj_of(e, st, this, ins), sp_ctl(e, st, this, ins); b = obj_of(e, st, args[1], ins), sp_ctl(e, st, args[1], ins)
        sp_set(e, st, this, b[0], b[1], ins); sp_set(e, st, args[1], a[0], a[1], ins)
        return None
    if meth == 'lock':          # sret, this
        v = obj_of(e, st, args[1], ins); c = sp_ctl(e, st, args[1], ins)
        return lockw(e, st, ins, args[0], v, c)
    if meth == 'expired':
        v = obj_of(e, st, this, ins)
        x = st.ex.get(('spc', v[1])) if P(v) else (0,) if v == 0 else None
        if x is not None:
            e.event(st, 'expired', None, (v,), ins).ret = int(x[0] == 0); return int(x[0] == 0)
        r = e.sym(1, 'expired')
        ev = e.event(st, 'expired', None, (v,), ins); ev.ret = r
        return ('cmp', 'ne', 1, r, 0)
    if meth == 'use_count':
        v = obj_of(e, st, this, ins); x = st.ex.get(('spc', v[1])) if P(v) else None
        return x[0] if x is not None else e.sym(64, 'use_count')
    return NotImplemented

def lockw(e, st, ins, dst, v, c):
    out = []
    x = st.ex.get(('spc', v[1])) if P(v) else None
    if x is not None or v == 0 and e.cfg.__dict__.get('exact_sp'):
        if not x or x[0] == 0: v = c = 0
        sp_set(e, st, dst, v, c, ins); e.event(st, 'wplock', None, (v, dst), ins).ret = int(v != 0); ev_own(e, st, 'sp+', v, dst, ins)
        return None
    s2 = st.fork()
    ok = True
    if v == 0:
        ok = False
    if ok:
        if P(v):
            if st.facts.get(('N', v[1])) == 0:
                ok = False
            else:
                st.facts[('N', v[1])] = 1
    if ok:
        st.nf += 1
        sp_set(e, st, dst, v, c, ins); ev = e.event(st, 'wplock', None, (v, dst), ins); ev.ret = 1
        ev_own(e, st, 'sp+', v, dst, ins)
        out.append((st, None))
    s2.nf += 1
    sp_set(e, s2, dst, 0, 0, ins); ev = e.event(s2, 'wplock', None, (v, dst), ins); ev.ret = 0
    out.append((s2, None))
    return out

def m_esft(e, st, ins, args, dem, name):
    q = qual(dem); meth = q.split('::')[-1]
    if meth in ('enable_shared_from_this', '~enable_shared_from_this', 'operator='):
        return args[0] if ins.ty != 'void' else None
    if meth in ('shared_from_this', 'weak_from_this'):
        dst, this = args[0], e.norm(st, args[1])
        m = re.match(r'(?:.*? )?std::enable_shared_from_this<(.*)>::', dem)
        p = this
        if m and P(this):
            T = m.group(1)
            for o, c in e.rinfo[this[1]].ann.items():
                if e.m.type_name(c) == T and o <= this[2]:
                    p = ('p', this[1], o)
        sp_set(e, st, dst, p, ('p', e.region('lazy', 'ctl'), 0), ins)
        ev_own(e, st, 'sp+' if meth[0] == 's' else 'wp+', p, dst, ins)
        return None
    return NotImplemented

def find_construct(e, name, T):
    """function below `name` that placement-constructs T: std::_Construct / construct_at"""
    k = ('fc', name)
    if k in e._slot:
        return e._slot[k]
    seen = set(); st = [name]; r = None
    while st:
        n = st.pop(0)
        if n in seen or n not in e.m.funcs: continue
        seen.add(n)
        dm = e.m.dem.get(n, '')
        if re.match(r'(?:void|.*\*|[^(]*) ?std::(_Construct|construct_at)<%s[,>]' % re.escape(T), dm) or ('::construct<%s' % T in dm and 'allocator_traits' in dm and False):
            r = n; break
        for b in e.m.funcs[n].blocks.values():
            for i in b:
                if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                    st.append(i.a[0][1])
    e._slot[k] = r
    return r

@functools.lru_cache(maxsize=None)
def tmpl_args(s, start):
    """template argument list of s[start] == '<' -> list of strings"""
    d = 0; cur = []; out = []
    for c in s[start:]:
        if c in '<(': 
            d += 1
            if d == 1: continue
        elif c in '>)':
            d -= 1
            if d == 0:
                out.append(''.join(cur).strip()); return out
        if c == ',' and d == 1:
            out.append(''.join(cur).strip()); cur = []; continue
        cur.append(c)
    return out

def m_make_shared(e, st, ins, args, dem, name):
    k = dem.index('make_shared<') + len('make_shared')
    T = tmpl_args(dem, k)[0]
    dst = args[0]
    rid = e.region('heap', 'shared:' + T)
    p = ('p', rid, 0)
    cls = e.m.classes().get(T)
    if cls: e.annot(p, cls)
    ev = e.event(st, 'new', T, (p, e.m.lay(('named', '%' + T))[0] if False else None), ins)
    own_new(e, st, p, T, ins)
    ctl = ('p', e.region('heap', 'ctl'), 0)
    fn = find_construct(e, name, T)
    def fin(e, st, v):
        sp_set(e, st, dst, p, ctl, ins)
        ev_own(e, st, 'sp+', p, dst, ins)
        return None
    if fn is None:
        fin(e, st, None)
        return None
    e.push(st, e.m.funcs[fn], [p] + list(args[1:]), ins, fin)
    return PUSHED

def m_sp_eq(e, st, ins, args, dem, name):
    at = argtext(dem)
    if 'shared_ptr<' not in at:
        return NotImplemented
    neg = 'operator!=' in dem
    a = obj_of(e, st, args[0], ins) if P(args[0]) else 0
    parts = at
    if 'nullptr' in at:
        b = 0
        if at.startswith('decltype') : a = obj_of(e, st, args[1], ins)
    else:
        b = obj_of(e, st, args[1], ins)
    return e.icmp(st, 'ne' if neg else 'eq', a, b, 64)

# --------------------------------------------------------------- locks
def lock_acquire(e, st, p, ins, kind='lock'):
    p = e.norm(st, p)
    lab = e.label(p)
    for l in st.locks:
        if l[0] == p:
            e.event(st, 'selfdeadlock', lab, (p,), ins)
    ev = e.event(st, kind, lab, (p,), ins)
    st.locks = st.locks + ((p, lab),)
    if e.cfg.havoc_on_lock:
        e.cfg.havoc_on_lock(e, st, p)

def lock_release(e, st, p, ins):
    p = e.norm(st, p)
    lab = e.label(p)
    ls = list(st.locks)
    for i in range(len(ls) - 1, -1, -1):
        if e.norm(st, ls[i][0]) == p:
            del ls[i]; break
    else:
        e.event(st, 'badunlock', lab, (p,), ins)
    e.event(st, 'unlock', lab, (p,), ins)
    st.locks = tuple(ls)
    if e.cfg.__dict__.get('havoc_on_unlock'):
        e.cfg.havoc_on_unlock(e, st, p)

def blocked(e, st, p):
    """the lock is held by the other thread: that one goes on, this one tries again later"""
    if st.sus is None: return False
    p = e.norm(st, p)
    if not any(e.norm(st, l[0]) == p for l in st.sus[1]): return False
    w = st.ex.get(('waits', 1 - st.thr))
    if w and any(e.norm(st, l[0]) == w[0] for l in st.locks):
        e.event(st, 'deadlock', e.label(p), (p,)); return False
    st.ex[('waits', st.thr)] = (p,)
    st.fr[-1].i -= 1; e.swap(st)
    return True

def m_lock(e, st, ins, args, dem, name):
    if blocked(e, st, args[0]): return PUSHED
    st.ex.pop(('waits', st.thr), None)
    lock_acquire(e, st, args[0], ins); return None

def m_unlock(e, st, ins, args, dem, name):
    lock_release(e, st, args[0], ins); return None

def m_trylock(e, st, ins, args, dem, name):
    if st.sus is not None and any(e.norm(st, l[0]) == e.norm(st, args[0]) for l in st.sus[1]):
        e.event(st, 'trylock-fail', e.label(e.norm(st, args[0])), tuple(args[:1]), ins)
        return 0
    if e.cfg.__dict__.get('exact_locks'):
        if any(e.norm(st, l[0]) == e.norm(st, args[0]) for l in st.locks):
            e.event(st, 'trylock-fail', e.label(e.norm(st, args[0])), tuple(args[:1]), ins)
            return 0
        lock_acquire(e, st, args[0], ins, 'trylock'); return 1
    s2 = st.fork()
    st.nf += 1; s2.nf += 1
    lock_acquire(e, st, args[0], ins, 'trylock')
    ev = e.event(s2, 'trylock-fail', e.label(e.norm(s2, args[0])), tuple(args[:1]), ins)
    return [(st, 1), (s2, 0)]

def m_stdlock(e, st, ins, args, dem, name):
    for a in args:
        lock_acquire(e, st, a, ins, 'lockall')
    return None

# --------------------------------------------------------------- containers
def ckey(p):
    return (p[1], p[2])

def cget(st, p):
    return st.cont.get(ckey(p), (None, 0))

def cset(st, p, status, bump=True):
    s, v = cget(st, p)
    st.cont[ckey(p)] = (status, v + 1 if bump else v)
    if bump:
        for k in [k for k in st.cont if k[:2] == ckey(p) and len(k) == 3]:
            del st.cont[k]

def elem(e, st, p, hint):
    rid = e.region('lazy', 'elem(%s)' % e.label(p))
    st.ex[('elem', rid)] = (ckey(p), hint)
    return ('p', rid, 0)

def endp(e, st, p):
    rid = ('end',) + ckey(p)
    if rid not in e.rinfo:
        e.rinfo[rid] = RI('end', 'end(%s)' % e.label(p))
    return ('p', rid, 0)

def is_end(st, v):
    return P(v) and isinstance(v[1], tuple) and v[1][0] == 'end'

# exact content of short, locally built vectors: status ('L', (element address, ...))
def lst(st, p):
    s = cget(st, p)[0]
    return s[1] if isinstance(s, tuple) and s[0] == 'L' else None

def lset(st, p, els):
    s, v = cget(st, p)
    st.cont[ckey(p)] = ((('L', tuple(els)) if len(els) <= 6 else 'N') if els else 'E', v + 1)
    for k in [k for k in st.cont if k[:2] == ckey(p) and len(k) == 3]:
        del st.cont[k]

def lnew(e, st, p, src=None, n=64):
    r = elem(e, st, p, 'exact')
    st.facts[('N', r[1])] = 1; st.facts[('V', r[1])] = 1
    if src is not None and P(e.norm(st, src)):
        e.copybytes(st, r, src, n)
    return r

def lclone(e, st, this, status):
    if isinstance(status, tuple) and status[0] == 'L':
        return ('L', tuple(lnew(e, st, this, x) for x in status[1]))
    return status

def esize(e, dem):
    """size of the element type of a vector method's class"""
    k = dem.find('vector<')
    if k < 0: return 64
    T = tmpl_args(dem, k + 6)[0]
    if T.endswith('*'): return 8
    c = e.m.classes().get(T)
    if c:
        return int(e.m.mdget(c, 'size') or 0) // 8 or 64
    return {'bool': 1, 'char': 1, 'int': 4, 'long': 8, 'unsigned long': 8}.get(T, 64)

def seq_T(dem, cls):
    k = dem.find(cls + '<')
    return tmpl_args(dem, k + len(cls))[0] if k >= 0 else ''

def el_own(e, st, T, r, sign, ins):
    """reference bookkeeping when an element is copied (+) or destroyed (-)"""
    if el_fn(e, T, 'dtor'): return      # the real functions are followed
    if T.startswith('librf::counted_ptr<'): k = 'ref'
    elif T.startswith('std::shared_ptr<'): k = 'sp'
    else: return
    v = e.norm(st, e.load(st, r, 'ptr', ins, log=False))
    if v == 0 or v == ('u',): return
    if k == 'sp': ev_own(e, st, 'sp' + sign, v, r, ins)
    else: e.event(st, 'ref' + sign, e.label(v) if P(v) else None, (v,), ins)

def exact_vector(e, st, ins, this, a, at, dem, meth, ev, sret, cls='vector'):
    """std::vector / std::list / std::deque whose content is known element by element"""
    L = lst(st, this)
    status = cget(st, this)[0]
    T = seq_T(dem, cls)
    if meth in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and (L is not None or status == 'E') and len(a) == 2 and P(e.norm(st, a[1])):
        src = e.norm(st, a[1])
        x = ev()
        t = split_args(at)[0] if at else ''
        c = e.m.classes().get(T)
        n = 8 if T.endswith('*') else (int(e.m.mdget(c, 'size') or 0) // 8 or 64) if c else 64
        front = meth.endswith('front')
        if T.startswith('std::reference_wrapper<') and 'reference_wrapper' not in t:
            r = lnew(e, st, this); e.store(st, r, src, 'ptr', ins, log=False)
        elif (T.startswith('librf::counted_ptr<') and 'counted_ptr' not in t) or (T.endswith('*') and 'counted_ptr' not in t and not t.rstrip('& ').replace(' const', '').endswith('*')):
            r = lnew(e, st, this)
            v = e.load(st, src, 'ptr', ins, log=False)
            e.store(st, r, v, 'ptr', ins, log=False); el_own(e, st, T, r, '+', ins)
        else:
            r = lnew(e, st, this, src, n)
            if T.startswith('librf::counted_ptr<'):
                # element type may be constructed from a raw pointer reference
                e.store(st, r, e.load(st, src, 'ptr', ins, log=False), 'ptr', ins, log=False)
            if t.endswith('&&') and re.match(r'(std::(shared_ptr|unique_ptr|pair|function)|librf::counted_ptr)<', T):
                for o in range(0, min(n, 16), 8): e.store(st, off(src, o), 0, 'ptr', ins, log=False)
            else:
                el_own(e, st, T, r, '+', ins)
        x.ret = r; x.x = [('*', src, e.load(st, r, 'ptr', ins, log=False))]
        lset(st, this, ((r,) + (L or ())) if front else (L or ()) + (r,))
        raw = T.startswith('librf::counted_ptr<') and 'counted_ptr' not in t
        cc = el_fn(e, T, 'raw' if raw else 'copy' if not t.endswith('&&') else 'move')
        if cc:
            if raw: src = e.norm(st, e.load(st, src, 'ptr', ins, log=False))
            elif t.endswith('&&'): e.copybytes(st, src, r, n)
            for o in [o for o in e.cells_w(st, r[1])]: del e.cells_w(st, r[1])[o]
            ret = r if ins.ty == 'ptr' else None
            e.push(st, e.m.funcs[cc], [r, src], ins, lambda e, s, v: ret)
            return PUSHED
        return r if ins.ty == 'ptr' else None
    if L is None:
        return NotImplemented
    if meth == 'size': ev().ret = len(L); return len(L)
    if meth == 'empty': ev().ret = 0; return 0
    if meth in ('operator[]', 'at') and isinstance(e.norm(st, a[1]), int) and 0 <= e.norm(st, a[1]) < len(L):
        x = ev(); x.ret = L[e.norm(st, a[1])]; return x.ret
    if meth in ('front', 'begin', 'cbegin', 'data'): x = ev(); x.ret = L[0]; return L[0]
    if meth == 'back': x = ev(); x.ret = L[-1]; return L[-1]
    if meth in ('pop_back', 'pop_front'):
        r = L[-1] if meth == 'pop_back' else L[0]
        ev().ret = r; el_own(e, st, T, r, '-', ins)
        lset(st, this, L[:-1] if meth == 'pop_back' else L[1:])
        d = el_fn(e, T, 'dtor')
        return run_chain(e, st, ins, [(d, [r])]) if d else None
    if meth == 'erase' and len(a) == 2:
        y = e.norm(st, a[1])
        if P(y) and y not in L and e.rinfo.get(y[1]) and e.rinfo[y[1]].kind == 'stack': y = e.norm(st, e.load(st, y, 'ptr', ins, log=False))
        if y in L:
            i = L.index(y)
            x = ev(); x.ret = y; el_own(e, st, T, y, '-', ins)
            lset(st, this, L[:i] + L[i + 1:])
            nx = L[i + 1] if i + 1 < len(L) else endp(e, st, this)
            d = el_fn(e, T, 'dtor')
            if d: e.push(st, e.m.funcs[d], [y], ins, lambda e, s, v: nx); return PUSHED
            return nx
    if meth in ('clear', '~' + cls):
        ev()
        for r in L: el_own(e, st, T, r, '-', ins)
        cset(st, this, 'E')
        d = el_fn(e, T, 'dtor')
        return run_chain(e, st, ins, [(d, [r]) for r in L]) if d else None
    return NotImplemented

def el_fn(e, T, what):
    """special member function of a class kept in an exact container that has to be followed"""
    rx = e.cfg.__dict__.get('element_classes')
    if not rx or not re.match(rx, T): return None
    k = ('elfn', T, what)
    if k not in e._slot:
        n = re.sub(r'<.*', '', T).split('::')[-1]; t = tmpl_args(T, T.find('<')) if '<' in T else ['']
        want = {'copy': '%s::%s(%s const&)' % (T, n, T), 'move': '%s::%s(%s&&)' % (T, n, T), 'dtor': '%s::~%s()' % (T, n), 'raw': '%s::%s(%s*)' % (T, n, t[0])}[what]
        e._slot[k] = next((f for f, d in e.m.dem.items() if d == want and f in e.m.funcs), None)
    return e._slot[k]

def exact_assoc(e, st, ins, this, a, at, dem, meth, ev, sret, cls):
    """maps whose content is known element by element (keys at offset 0 of an element, values at offset 8)"""
    status = cget(st, this)[0]
    L = lst(st, this)
    if L is None:
        if status != 'E': return NotImplemented
        L = ()
    isset = cls.endswith('set'); multi = 'multi' in cls; ordered = not cls.startswith('unordered')
    ta = tmpl_args(dem, dem.find(cls + '<') + len(cls)); T = ta[0] if isset else ta[1]
    T = T.strip()
    c = e.m.classes().get(T)
    vn = 0 if isset else 8 if T.endswith('*') else (int(e.m.mdget(c, 'size') or 0) // 8 or 8) if c else 8
    own = 'up' if T.startswith('std::unique_ptr<') else 'sp' if T.startswith('std::shared_ptr<') else 'ref' if T.startswith('librf::counted_ptr<') else None
    mdtor = None if isset else el_fn(e, T, 'dtor')
    def key(r): return e.norm(st, e.load(st, r, 'ptr', ins, log=False))
    def mark(sign, r):
        v = e.norm(st, e.load(st, off(r, 8), 'ptr', ins, log=False)) if own else 0
        if not own or v == 0 or v == ('u',) or mdtor: return
        if own == 'sp': ev_own(e, st, 'sp' + sign, v, off(r, 8), ins)
        elif own == 'ref': e.event(st, 'ref' + sign, e.label(v) if P(v) else None, (v,), ins)
        elif sign == '-': e.event(st, 'delete', 'owned element', (v,), ins)
    def same(x, y):
        t = e.known_cmp(st, 'eq', x, y, 64) if not P(x) and not P(y) else e.ptr_eq(st, x, y)
        return t
    def put(k, fill):
        for r in L:
            if not multi and same(key(r), k): return r, 0
        r = lnew(e, st, this); e.store(st, r, k, 'ptr', ins, log=False)
        if fill: fill(r)
        i = len(L)
        if ordered:
            if not isinstance(k, int) or any(not isinstance(key(x), int) for x in L): return None
            i = sum(1 for x in L if key(x) <= k)
        lset(st, this, L[:i] + (r,) + L[i:])
        return r, 1
    def result(pr, forced=None):
        r, n = pr
        if ins.ty == 'ptr': return r
        u = e.m.resolve(ins.ty)
        if u[0] == 'struct' and len(u[1]) == 2: return ('agg', (r, n))
        return None
    def deref(x, n=8):
        x = e.norm(st, x)
        return e.norm(st, e.load(st, x, 'ptr', ins, log=False)) if P(x) else x
    def value_from(src, t):
        """fill the mapped value from an argument"""
        def f(r):
            if isset: return
            src_ = e.norm(st, src)
            if not P(src_): e.store(st, off(r, 8), src_, 'ptr', ins, log=False); return
            raw = own and t.rstrip('& ').replace(' const', '').endswith('*')
            if own == 'sp' and t.rstrip('& ').endswith('*'): return
            if own and raw:
                e.store(st, off(r, 8), e.load(st, src_, 'ptr', ins, log=False), 'ptr', ins, log=False)
                if own == 'ref': mark('+', r)
                return
            e.copybytes(st, off(r, 8), src_, vn)
            if t.endswith('&&') and own:
                for o in range(0, vn, 8): e.store(st, off(src_, o), 0, 'ptr', ins, log=False)
            else: mark('+', r)
        return f
    ts = split_args(at)
    def args_of(a, ts):
        """(key, filler) of emplace-like arguments"""
        if len(a) == 2 and isset or len(a) == 3 and not isset:
            return deref(a[1]), (None if isset else value_from(a[2], ts[1] if len(ts) > 1 else ''))
        if len(a) == 2 and 'pair<' in ts[0] and P(e.norm(st, a[1])):
            src = e.norm(st, a[1])
            return deref(src), value_from(off(src, 8), '&&' if ts[0].endswith('&&') else 'const&')
        return None
    if meth in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if meth == 'emplace_hint' or meth == 'insert' and 'iterator' in ts[0] and len(a) > 2: a = [a[0]] + a[2:]; ts = ts[1:]
        kf = args_of(a, ts)
        if kf is None: return NotImplemented
        pr = put(*kf)
        if pr is None: return NotImplemented
        x = ev(); x.ret = pr[0]
        if pr[1] == 0 and meth == 'insert_or_assign': mark('-', pr[0]); kf[1](pr[0])
        if pr[1] == 0 and meth == 'emplace' and own == 'up' and len(a) == 3 and ts[1].rstrip('& ').endswith('*'):
            e.event(st, 'delete', 'refused element', (deref(a[2]),), ins)
        return result(pr)
    if meth == 'operator[]':
        def zero(r):
            for o in range(0, vn, 8): e.store(st, off(r, 8 + o), 0, 'ptr', ins, log=False)
        pr = put(deref(a[1]), zero)
        if pr is None: return NotImplemented
        x = ev(); x.ret = off(pr[0], 8); return off(pr[0], 8)
    if meth in ('find', 'count', 'contains', 'at', 'lower_bound', 'upper_bound'):
        k = deref(a[1]); hits = []
        for i, r in enumerate(L):
            if meth in ('lower_bound', 'upper_bound'):
                if not isinstance(k, int) or not isinstance(key(r), int): return NotImplemented
                if key(r) < k or meth == 'upper_bound' and key(r) == k: continue
                hits.append(r); continue
            t = same(key(r), k)
            if t is None: return NotImplemented
            if t: hits.append(r)
        x = ev()
        if meth == 'count': x.ret = len(hits); return len(hits)
        if meth == 'contains': x.ret = int(bool(hits)); return x.ret
        if meth == 'at': return off(hits[0], 8) if hits else NotImplemented
        x.ret = hits[0] if hits else endp(e, st, this); return x.ret
    if meth == 'erase':
        y = e.norm(st, a[1])
        if P(y) and y not in L and not is_end(st, y) and ('elem', y[1]) not in st.ex:
            v = e.norm(st, e.load(st, y, 'ptr', ins, log=False))
            if v in L and 'iterator' in at: y = v
            else:
                gone = [r for r in L if same(key(r), v)]
                x = ev()
                for r in gone: mark('-', r)
                lset(st, this, [r for r in L if r not in gone])
                if mdtor and gone:
                    for r in gone[1:]: e.push(st, e.m.funcs[mdtor], [off(r, 8)], None)
                    n = len(gone); e.push(st, e.m.funcs[mdtor], [off(gone[0], 8)], ins, lambda e, s, v: n); return PUSHED
                return len(gone)
        if y in L:
            i = L.index(y); x = ev(); x.ret = y; mark('-', y)
            lset(st, this, L[:i] + L[i + 1:])
            if mdtor:
                nx = L[i + 1] if i + 1 < len(L) else endp(e, st, this)
                e.push(st, e.m.funcs[mdtor], [off(y, 8)], ins, lambda e, s, v: nx); return PUSHED
            return L[i + 1] if i + 1 < len(L) else endp(e, st, this)
        return NotImplemented
    if not L: return NotImplemented
    if meth == 'size': ev().ret = len(L); return len(L)
    if meth == 'empty': ev().ret = 0; return 0
    if meth in ('begin', 'cbegin'): x = ev(); x.ret = L[0]; return L[0]
    if meth in ('clear', '~' + cls):
        ev()
        for r in L: mark('-', r)
        cset(st, this, 'E')
        return run_chain(e, st, ins, [(mdtor, [off(r, 8)]) for r in L]) if mdtor else None
    return NotImplemented

def m_cont(e, st, ins, args, dem, name):
    q = qual(dem); meth = q.split('::')[-1]; cls = q.split('::')[-2]
    at = argtext(dem)
    # struct return first?
    a = list(args)
    sret = None
    if ins.a[1] and ins.a[1][0][2].get('sret'):
        sret = a.pop(0)
    this = e.norm(st, a[0])
    if not P(this):
        return NotImplemented
    if 'base' in q:
        pass
    def ev(k=None, extra=()):
        return e.event(st, 'cont', cls + '.' + (k or meth), (this,) + tuple(a[1:]) + tuple(extra), ins)
    if cls in ('vector', 'list', 'deque'):
        r = exact_vector(e, st, ins, this, a, at, dem, meth, ev, sret, cls)
        if r is not NotImplemented: return r
        if cls == 'vector' and meth == 'resize' and cget(st, this)[0] == 'E' and isinstance(e.norm(st, a[1]), int) and e.norm(st, a[1]) <= 4:
            ev(); lset(st, this, [lnew(e, st, this, a[2] if len(a) > 2 else None, esize(e, dem)) for _ in range(e.norm(st, a[1]))]); return None
    elif e.cfg.__dict__.get('exact_maps'):
        r = exact_assoc(e, st, ins, this, a, at, dem, meth, ev, sret, cls)
        if r is not NotImplemented: return r
    if meth == cls:      # constructor
        if at in ('', ) or at.startswith('std::allocator') and not at.endswith('&&'):
            cset(st, this, 'E'); return None
        if at.endswith('&&') or at.endswith('&&, std::integral_constant<bool, true>'):
            src = e.norm(st, a[1]); s, v = cget(st, src)
            ev('move', (src,))
            cset(st, this, s); cset(st, src, 'E'); return None
        if at.endswith('const&') and len(a) == 2 and P(e.norm(st, a[1])):
            src = e.norm(st, a[1]); s, v = cget(st, src)
            ev('copy', (src,))
            cset(st, this, lclone(e, st, this, s)); return None
        if cls in ('vector', 'list', 'deque') and at.startswith('std::initializer_list') and len(a) >= 3 and isinstance(e.norm(st, a[2]), int) and e.norm(st, a[2]) <= 6 and P(e.norm(st, a[1])):
            T = seq_T(dem, cls); c = e.m.classes().get(T); n = 8 if T.endswith('*') else (int(e.m.mdget(c, 'size') or 0) // 8 or 8) if c else 8
            els = []
            for i in range(e.norm(st, a[2])):
                r = lnew(e, st, this, off(e.norm(st, a[1]), i * n), n); el_own(e, st, T, r, '+', ins); els.append(r)
            ev('ctor'); lset(st, this, els); return None
        ev('ctor'); cset(st, this, None); return None
    if meth == '~' + cls:
        ev('dtor'); return None
    if meth == 'operator=':
        src = e.norm(st, a[1])
        if P(src) and 'initializer_list' not in at:
            s, v = cget(st, src); ev('assign', (src,))
            cset(st, this, s if at.endswith('&&') else lclone(e, st, this, s))
            if at.endswith('&&'): cset(st, src, 'E')
        else:
            ev(); cset(st, this, None)
        return this
    if meth == 'clear':
        ev(); cset(st, this, 'E'); return None
    if meth == 'swap':
        o = e.norm(st, a[1])
        ev()
        s1, s2 = cget(st, this)[0], cget(st, o)[0]
        cset(st, this, s2); cset(st, o, s1)
        return None
    if meth == 'empty':
        s, v = cget(st, this)
        x = ev()
        if s == 'E': x.ret = 1; return 1
        if s == 'N': x.ret = 0; return 0
        x2 = st.fork(); st.nf += 1; x2.nf += 1
        cset(st, this, 'E', False); cset(x2, this, 'N', False)
        x.ret = None
        e.event(st, 'cont?', cls + '.empty', (this,), ins).ret = 1
        e.event(x2, 'cont?', cls + '.empty', (this,), ins).ret = 0
        return [(st, 1), (x2, 0)]
    if meth == 'size':
        s, v = cget(st, this)
        x = ev()
        if s == 'E': return 0
        k = ckey(this) + ('size',)
        r = st.cont.get(k)
        if r is None:
            r = e.sym(64, 'size(%s)' % e.label(this))
            st.cont[k] = r
        if s is None:
            x2 = st.fork(); st.nf += 1; x2.nf += 1
            cset(st, this, 'E', False); cset(x2, this, 'N', False)
            x2.facts[r] = ((1, 1 << 40),)
            return [(st, 0), (x2, r)]
        st.facts.setdefault(r, ((1, 1 << 40),))
        return r
    if meth in ('reserve', 'shrink_to_fit', 'resize', 'max_load_factor', 'rehash'):
        if meth == 'resize':
            ev(); cset(st, this, None)
        return None
    if meth in ('begin', 'cbegin'):
        s, v = cget(st, this)
        ev()
        if s == 'E': return endp(e, st, this)
        k = ckey(this) + ('front',)
        r = st.cont.get(k)
        if r is None:
            r = st.cont[k] = elem(e, st, this, 'front')
        if s == 'N': st.facts[('V', r[1])] = 1
        return r
    if meth in ('end', 'cend'):
        ev()
        return endp(e, st, this)
    if meth in ('front', 'top'):
        x = ev()
        k = ckey(this) + ('front',)
        r = st.cont.get(k)
        if r is None or is_end(st, r):
            r = st.cont[k] = elem(e, st, this, 'front')
        x.ret = r
        st.facts[('N', r[1])] = 1
        return r
    if meth in ('back',):
        x = ev()
        k = ckey(this) + ('back',)
        r = st.cont.get(k)
        if r is None:
            r = st.cont[k] = elem(e, st, this, 'back')
        st.facts[('N', r[1])] = 1
        x.ret = r
        return r
    if meth in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        x = ev()
        snap = []
        for y in a[1:]:
            y = e.norm(st, y)
            if P(y):
                snap.append(('*', y, e.load(st, y, 'ptr', ins, log=False) if e.rinfo.get(y[1]) else None))
        x.x = snap
        rv = None
        out = []
        cset(st, this, 'N')
        r = elem(e, st, this, 'new')
        x.ret = r
        st.facts[('N', r[1])] = 1; st.facts[('V', r[1])] = 1
        if P(e.norm(st, a[-1])):
            src = e.norm(st, a[-1])
            if meth in ('push_back', 'emplace_back', 'push_front') or True:
                st.ex[('elemsrc', r[1])] = src
        # ownership moves out of rvalue arguments
        for y, t in zip(a[1:], split_args(at)):
            y = e.norm(st, y)
            if P(y) and t.endswith('&&') and re.match(r'(std::(shared_ptr|unique_ptr|pair|function)|librf::counted_ptr)<', t):
                if meth in ('push_back', 'emplace_back', 'push_front'):
                    e.copybytes(st, r, y, 16)
                n = 16 if 'shared_ptr' in t else 8
                for o in range(0, n, 8):
                    e.store(st, off(y, o), 0, 'ptr', ins, log=False)
            elif P(y) and t.endswith('const&') and meth in ('push_back', 'emplace_back'):
                e.copybytes(st, r, y, 16)
                if 'shared_ptr<' in t:
                    v = e.load(st, y, 'ptr', ins, log=False)
                    ev_own(e, st, 'sp+', v, r, ins)
        if ins.ty == 'void':
            return None
        if ins.ty == 'ptr':
            return r
        u = e.m.resolve(ins.ty)
        if u[0] == 'struct' and len(u[1]) == 2:
            return ('agg', (r, e.sym(8, 'inserted')))
        return e.fresh(ins.ty, 'ins')
    if meth == 'find':
        x = ev()
        kv = e.load(st, a[1], 'ptr', ins, log=False) if P(e.norm(st, a[1])) else a[1]
        x.x = [('*', a[1], kv)]
        s, v = cget(st, this)
        if s == 'E': return endp(e, st, this)
        k = ckey(this) + ('find', repr(kv))
        r = elem(e, st, this, 'find')
        st.ex[('elemkey', r[1])] = kv
        x.ret = r
        return r
    if meth == 'erase':
        x = ev()
        y = e.norm(st, a[1])
        kv = None
        if P(y):
            kv = e.load(st, y, 'ptr', ins, log=False) if not is_end(st, y) and not (('elem', y[1]) in st.ex) else y
        x.x = [('*', y, kv)]
        cset(st, this, None)
        if ins.ty == 'i64':
            return e.sym(64, 'erased')
        if ins.ty == 'ptr':
            return elem(e, st, this, 'next')
        return e.fresh(ins.ty, 'erase') if ins.ty != 'void' else None
    if meth in ('pop_front', 'pop_back', 'pop'):
        ev(); cset(st, this, None); return None
    if meth in ('operator[]', 'at', 'lower_bound', 'upper_bound', 'data'):
        x = ev()
        r = elem(e, st, this, meth); x.ret = r
        if meth in ('operator[]', 'at', 'data'):
            st.facts[('N', r[1])] = 1; st.facts[('V', r[1])] = 1
        return r
    if meth in ('count', 'capacity', 'max_size', 'contains'):
        ev()
        return e.fresh(ins.ty, meth)
    if meth in ('remove_if', 'remove', 'splice', 'merge', 'equal_range'):
        ev(); cset(st, this, None)
        return e.fresh(ins.ty, meth) if ins.ty != 'void' else None
    if meth.startswith('_M_') or meth.startswith('_S_'):
        ev()
        return e.fresh(ins.ty, meth) if ins.ty != 'void' else None
    return NotImplemented

@functools.lru_cache(maxsize=None)
def split_args(at):
    d = 0; cur = []; out = []
    for c in at:
        if c in '<({': d += 1
        elif c in '>)}': d -= 1
        if c == ',' and d == 0:
            out.append(''.join(cur).strip()); cur = []; continue
        cur.append(c)
    if cur: out.append(''.join(cur).strip())
    return out

def it_load(e, st, p, ins):
    return e.load(st, p, 'ptr', ins, log=False)

def m_iter(e, st, ins, args, dem, name):
    q = qual(dem); meth = q.split('::')[-1]
    at = argtext(dem)
    this = e.norm(st, args[0])
    if meth in ('operator*', 'operator_arrow', 'base'):
        if meth == 'base': return this
        v = it_load(e, st, this, ins)
        if is_end(st, v):
            e.event(st, 'endderef', e.label(v), (v,), ins)
            st.status = 'endderef'
            return [(st, STATE)]
        if P(v):
            st.facts[('V', v[1])] = 1; st.facts[('N', v[1])] = 1
        return v
    if meth in ('operator++', 'operator--'):
        v = it_load(e, st, this, ins)
        if P(v):
            st.facts[('V', v[1])] = 1
        if P(v) and ('elem', v[1]) in st.ex:
            k, h = st.ex[('elem', v[1])]
            base = ('p', k[0], k[1])
            nv = None
            for ck, cv in st.cont.items():
                if len(ck) == 2 and isinstance(cv[0], tuple) and cv[0][0] == 'L' and v in cv[0][1]:
                    i = cv[0][1].index(v) + (1 if meth.endswith('++') else -1)
                    nv = cv[0][1][i] if i < len(cv[0][1]) else endp(e, st, ('p',) + ck)
            if nv is None:
                nv = elem(e, st, base, 'next')
        else:
            nv = e.fresh('ptr', 'it++')
        e.store(st, this, nv, 'ptr', ins, log=False)
        if at == 'int':
            return v if ins.ty == 'ptr' else (None if ins.ty == 'void' else v)
        return this
    if meth in ('operator==', 'operator!='):
        a = it_load(e, st, this, ins); b = it_load(e, st, e.norm(st, args[1]), ins)
        return it_eq(e, st, ins, a, b, meth == 'operator!=')
    if meth in ('operator+', 'operator-', 'operator+=', 'operator-=', 'operator[]') and '__normal_iterator' in q:
        v = it_load(e, st, this, ins); n = e.norm(st, args[1])
        w = it_where(e, st, v)
        if w and isinstance(n, int):
            n = n - (1 << 64) if n >> 63 else n
            L, i = w; i = i + n if '+' in meth or meth == 'operator[]' else i - n
            if 0 <= i <= len(L[1]):
                r = L[1][i] if i < len(L[1]) else endp(e, st, ('p',) + L[0])
                if meth.endswith('='): e.store(st, this, r, 'ptr', ins, log=False); return this
                return r
        if meth.endswith('='): e.store(st, this, e.fresh('ptr', 'it'), 'ptr', ins, log=False); return this
        return e.fresh('ptr', 'it')
    return NotImplemented

def it_where(e, st, v):
    """((vector key, elements), index) of an iterator into an exactly known vector"""
    v = e.norm(st, v)
    if is_end(st, v):
        k = v[1][1:]
        cv = st.cont.get(k)
        if cv and isinstance(cv[0], tuple) and cv[0][0] == 'L': return (k, cv[0][1]), len(cv[0][1])
        if cv and cv[0] == 'E': return (k, ()), 0
        return None
    for ck, cv in st.cont.items():
        if len(ck) == 2 and isinstance(cv[0], tuple) and cv[0][0] == 'L' and v in cv[0][1]:
            return (ck, cv[0][1]), cv[0][1].index(v)
    return None

def m_it_free_arith(e, st, ins, args, dem, name):
    at = argtext(dem)
    if '__normal_iterator' not in at: return NotImplemented
    a = it_load(e, st, e.norm(st, args[0]), ins); b = it_load(e, st, e.norm(st, args[1]), ins)
    wa, wb = it_where(e, st, a), it_where(e, st, b)
    meth = qual(dem).split('::')[-1]
    if meth == 'operator-':
        if wa and wb and wa[0][0] == wb[0][0]: return (wa[1] - wb[1]) & ((1 << 64) - 1)
        if e.norm(st, a) == e.norm(st, b): return 0
        return e.sym(64, 'it-it')
    return NotImplemented

def it_eq(e, st, ins, a, b, neg):
    a = e.norm(st, a); b = e.norm(st, b)
    if a == b:
        return int(not neg)
    if is_end(st, a): a, b = b, a
    if is_end(st, b) and P(a):
        if is_end(st, a) or st.facts.get(('V', a[1])) == 1:
            return int(neg)
        ek = st.ex.get(('elem', a[1]))
        s2 = st.fork(); st.nf += 1; s2.nf += 1
        # equal to end
        st.alias[a[1]] = (b[1], 0)
        s2.facts[('V', a[1])] = 1; s2.facts[('N', a[1])] = 1
        if ek:
            kk = ek[0]
            if ek[1] == 'front':
                s, v = st.cont.get(kk, (None, 0)); st.cont[kk] = ('E', v)
            s, v = s2.cont.get(kk, (None, 0)); s2.cont[kk] = ('N', v)
        e.event(st, 'iter', 'end', (b,), ins)
        e.event(s2, 'iter', 'elem', (a,), ins)
        return [(st, int(not neg)), (s2, int(neg))]
    return e.icmp(st, 'ne' if neg else 'eq', a, b, 64)

def m_iter_free_eq(e, st, ins, args, dem, name):
    at = argtext(dem)
    if 'iterator' not in at:
        return m_sp_eq(e, st, ins, args, dem, name)
    a = it_load(e, st, e.norm(st, args[0]), ins); b = it_load(e, st, e.norm(st, args[1]), ins)
    return it_eq(e, st, ins, a, b, 'operator!=' in qual(dem))

def m_swap(e, st, ins, args, dem, name):
    if re.search(r'std::swap<(?:std::)?.*', dem) and re.match(r'std::(vector|map|list|unordered_map|multimap|deque|set)<', argtext(dem)):
        a = e.norm(st, args[0]); b = e.norm(st, args[1])
        e.event(st, 'cont', 'swap', (a, b), ins)
        s1, s2 = cget(st, a)[0], cget(st, b)[0]
        cset(st, a, s2); cset(st, b, s1)
        return None
    return NotImplemented

# --------------------------------------------------------------- std::function
def m_function(e, st, ins, args, dem, name):
    q = qual(dem); meth = q.split('::')[-1]; at = argtext(dem)
    a = list(args); sret = None
    if ins.a[1] and ins.a[1][0][2].get('sret'):
        sret = a.pop(0)
    this = e.norm(st, a[0])
    def get(p):
        return e.load(st, p, 'ptr', ins, log=False)
    def put(p, v):
        e.store(st, p, v, 'ptr', ins, log=False)
    if meth == 'function':
        if at in ('', 'decltype(nullptr)', 'std::nullptr_t'):
            put(this, 0); return None
        if at.startswith('std::function<') and at.endswith('&&'):
            put(this, get(a[1])); put(a[1], 0); return None
        if at.startswith('std::function<') and at.endswith('const&'):
            put(this, get(a[1])); return None
        # from a callable
        inv = None
        for b in e.m.funcs[name].blocks.values() if name in e.m.funcs else ():
            for i in b:
                if i.op == 'store' and i.a[0][0] == 'g' and '_M_invoke' in e.m.dem.get(i.a[0][1], ''):
                    inv = i.a[0][1]
        rid = e.region('heap', 'callable')
        v = ('p', rid, 0)
        st.ex[('fn', rid)] = (inv, e.norm(st, a[1]) if len(a) > 1 else None)
        if len(a) > 1 and P(e.norm(st, a[1])):
            e.copybytes(st, v, a[1], 64)
        e.event(st, 'mkfn', e.m.dem.get(inv, None), (v, a[1] if len(a) > 1 else None), ins)
        put(this, v)
        return None
    if meth == '~function':
        return None
    if meth == 'operator=':
        if 'nullptr' in at:
            put(this, 0)
        elif at.startswith('std::function<'):
            v = get(a[1])
            if at.endswith('&&') and e.norm(st, a[1]) != this: put(a[1], 0)
            put(this, v)
        else:
            return NotImplemented
        return this
    if meth == 'operator_bool':
        return e.icmp(st, 'ne', get(this), 0, 64)
    if meth == 'swap':
        x = get(this); y = get(a[1]); put(this, y); put(a[1], x); return None
    if meth == 'operator_call':
        v = get(this)
        ev = e.event(st, 'fncall', e.label(this), (v,) + tuple(a[1:]), ins)
        ev.x = this
        if e.norm(st, v) == 0:
            st.status = 'badfunc'
            return [(st, STATE)]
        if P(v):
            st.facts[('N', v[1])] = 1
        fn = st.ex.get(('fn', v[1])) if P(v) else None
        if fn and fn[0] and fn[0] in e.m.funcs and e.cfg.__dict__.get('inline_fn', True):
            f = e.m.funcs[fn[0]]
            # functor storage: local -> inline functor bytes ; heap -> pointer to the closure
            rid = e.region('stack', 'any_data')
            store = ('p', rid, 0)
            big = any('_M_get_pointer' in e.m.dem.get(i.a[0][1], '') for b in f.blocks.values() for i in b if i.op in ('call', 'invoke') and i.a[0][0] == 'g')
            e.copybytes(st, store, v, 64)
            st.ex[('anyptr', rid)] = v
            extra = []
            for x in a[1:]:
                if P(e.norm(st, x)):
                    extra.append(x)
                else:
                    r2 = e.region('stack', 'fnarg')
                    e.store(st, ('p', r2, 0), x, 'i8' if e.width(x) == 1 or isinstance(x, int) else 'i64', ins, log=False)
                    extra.append(('p', r2, 0))
            try:
                e.push(st, f, ([sret] if sret is not None else []) + [store] + extra, ins)
            except Exception:
                raise
            return PUSHED
        if ins.ty == 'void': r = None
        else: r = e.fresh(ins.ty, 'fnret')
        ev.ret = r
        if any(re.search(rx, 'std::function::operator()') for rx in e.cfg.throws):
            s2 = st.fork(); s2.nf += 1; st.nf += 1
            return [(st, r)] + [(s, STATE) for s in e.throw(s2, None, ('u',))]
        return r
    return NotImplemented

def m_get_pointer(e, st, ins, args, dem, name):
    # _Function_base::_Base_manager<F>::_M_get_pointer(_Any_data const&): the closure is stored in place here
    return args[0]

# --------------------------------------------------------------- coroutines
def run_chain(e, st, ins, acts):
    """entry points executed one after the other in place of the call"""
    for i, (fn, a) in enumerate(reversed(acts)):
        e.push(st, e.m.funcs[fn if fn in e.m.funcs else '@' + fn], list(a), ins if i == 0 else None)
    return PUSHED

def real_frame(e, st, h):
    """a frame laid out by the compiler (resume and destroy function first)"""
    if not P(h): return False
    c = st.mem.get(h[1], {}).get(off(h, 8)[2])
    c = c and e.norm(st, c[1])
    return isinstance(c, tuple) and c[0] == 'f'

def frame_call(e, st, ins, h, o):
    h = e.norm(st, h)
    if not real_frame(e, st, h): return None
    if e.freed(st, h) if hasattr(e, 'freed') else st.facts.get(('freed', h[1])):
        e.event(st, 'useafterfree', 'coroutine', (h,), ins)
    f = e.norm(st, e.load(st, off(h, o), 'ptr', ins, log=False))
    if not (isinstance(f, tuple) and f[0] == 'f'):
        e.event(st, 'badresume', None, (h,), ins); st.status = 'bad'
        return [(st, STATE)]
    e.push(st, e.m.funcs[f[1]], [h], ins)
    return PUSHED

def m_coro(e, st, ins, args, dem, name):
    n = name[1:]
    if n.startswith('vf.'): n = 'llvm' + n[2:]
    if n.startswith('llvm.coro.resume'):
        e.event(st, 'resume', None, tuple(args), ins)
        r = frame_call(e, st, ins, args[0], 0)
        if r is not None: return r
        f = e.cfg.__dict__.get('coro_resume')
        if f is not None:
            acts = f(e, st, e.norm(st, args[0]))
            if acts: return run_chain(e, st, ins, acts)
        if e.cfg.__dict__.get('resume_throws'):
            s2 = st.fork(); s2.nf += 1; st.nf += 1
            e.event(s2, 'resume-throws', None, tuple(args), ins)
            return [(st, None)] + [(s, STATE) for s in e.throw(s2, None, ('u',))]
        return None
    if n.startswith('llvm.coro.destroy'):
        e.event(st, 'destroy', None, tuple(args), ins)
        r = frame_call(e, st, ins, args[0], 8)
        if r is not None: return r
        if P(args[0]) and e.cfg.__dict__.get('free_on_destroy'):
            st.facts[('freed', args[0][1])] = 1
        return None
    if n.startswith('llvm.coro.done'):
        k = ('done', args[0])
        r = st.ex.get(k)
        h = e.norm(st, args[0])
        if real_frame(e, st, h):
            r = int(e.norm(st, e.load(st, h, 'ptr', ins, log=False)) == 0)
            x = e.event(st, 'done', None, tuple(args), ins); x.ret = r
            return r
        f = e.cfg.__dict__.get('coro_done')
        if f is not None:
            r = f(e, st, args[0])
            x = e.event(st, 'done', None, tuple(args), ins); x.ret = r
            return r
        if r is None or True:
            r = e.sym(1, 'coro.done')
        x = e.event(st, 'done', None, tuple(args), ins); x.ret = r
        return ('cmp', 'ne', 1, r, 0)
    if n.startswith('llvm.coro.promise'):
        p = e.norm(st, args[0]); fr = args[2]
        if not P(p):
            return ('u',)
        return ('p', p[1], p[2] - 16) if fr == 1 else ('p', p[1], p[2] + 16)
    if n.startswith('llvm.coro.begin'):
        st.ex['frame'] = args[1]
        return args[1]
    if n.startswith('llvm.coro.size'):
        return e.sym(64, 'coro.size')
    if n.startswith('llvm.coro.alloc'):
        return 1
    if n.startswith('llvm.coro.free'):
        return args[1] if len(args) > 1 else ('u',)
    if n.startswith('llvm.coro.suspend'):
        final = args[1] if len(args) > 1 else 0
        e.event(st, 'suspend', 'final' if final else 'normal', (), ins)
        if final:
            return 1        # destroyed at final suspend
        return 0
    if n.startswith('llvm.coro.end'):
        return 0
    if n.startswith('llvm.coro.frame'):
        return st.ex.get('frame', ('u',))
    if ins.ty == 'void':
        return None
    return ('u',)

def m_sym(e, st, ins, args, dem, name):
    x = e.event(st, 'call', dem, tuple(args), ins)
    if ins.ty == 'void': return None
    x.ret = e.fresh(ins.ty, qual(dem).split('::')[-1])
    return x.ret

def m_typeid(e, st, ins, args, dem, name):
    v = args[0]
    if P(v) and isinstance(v[1], tuple):
        return e.tid(v[1][1])
    return e.sym(32, 'typeid')

def m_minmax(e, st, ins, args, dem, name):
    a, b = args[0], args[1]
    w = int(ins.ty[1:])
    sg = 's' if '.s' in name else 'u'
    pr = sg + ('gt' if 'max' in name else 'lt')
    out = []
    for s, t in e.branch(st, e.icmp(st, pr, a, b, w)):
        out.append((s, a if t else b))
    return out

EXACT = {
    '__assert_fail': m_assert, 'abort': m_terminate, 'std::terminate': m_terminate, '__clang_call_terminate': m_terminate,
    'exit': m_drop, '__cxa_pure_virtual': m_drop,
    '__cxa_allocate_exception': m_cxa_alloc, '__cxa_free_exception': m_nop, '__cxa_throw': m_cxa_throw, '__cxa_begin_catch': m_begin_catch,
    '__cxa_end_catch': m_end_catch, '__cxa_rethrow': m_rethrow, '__cxa_get_exception_ptr': m_arg0,
    'std::rethrow_exception': m_rethrow_exception, 'std::current_exception': m_current_exception, 'std::make_exception_ptr': m_make_exception_ptr,
    'malloc': m_new, 'free': m_delete, 'operator_delete': m_delete, 'operator_deletea': m_delete,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, '__cxa_atexit': m_nop, '__cxa_guard_acquire': m_nop, '__cxa_guard_release': m_nop, '__cxa_guard_abort': m_nop,
    'librf::spinlock::lock': m_lock, 'librf::spinlock::unlock': m_unlock, 'librf::spinlock::try_lock': m_trylock,
    'std::mutex::lock': m_lock, 'std::mutex::unlock': m_unlock, 'std::mutex::try_lock': m_trylock,
    'std::recursive_mutex::lock': m_lock, 'std::recursive_mutex::unlock': m_unlock, 'std::recursive_mutex::try_lock': m_trylock,
    'std::lock': m_stdlock, 'std::make_shared': m_make_shared, 'std::swap': m_swap,
    'std::this_thread::get_id': m_sym, 'std::this_thread::sleep_for': m_sym,
    'std::chrono::_V2::system_clock::now': m_sym, 'std::chrono::_V2::steady_clock::now': m_sym,
    'std::operator==': m_iter_free_eq, 'std::operator!=': m_iter_free_eq, 'std::__detail::operator==': m_iter_free_eq, 'std::__detail::operator!=': m_iter_free_eq,
    '__gnu_cxx::operator-': m_it_free_arith,
    '__gnu_cxx::operator==': m_iter_free_eq, '__gnu_cxx::operator!=': m_iter_free_eq,
}
CONT = re.compile(r'std::(vector|list|deque|map|multimap|unordered_map|unordered_multimap|set|unordered_set)::[^:]+$')
ITER = re.compile(r'(__gnu_cxx::__normal_iterator|std::_Rb_tree_iterator|std::_Rb_tree_const_iterator|std::_List_iterator|std::_List_const_iterator|std::_Deque_iterator|std::__detail::_Node_iterator|std::__detail::_Node_const_iterator)::[^:]+$')
SPRX = re.compile(r'std::(shared_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|__weak_ptr)::[^:]+$')

def TABLE(dem, name):
    n = name[1:]
    if n.startswith('vf.coro.'): return m_coro
    if n.startswith('llvm.'):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'): return m_memcpy
        if n.startswith('llvm.memset'): return m_memset
        if n.startswith('llvm.coro.'): return m_coro
        if n.startswith('llvm.threadlocal.address') or n.startswith('llvm.expect') or n.startswith('llvm.launder'): return m_arg0
        if n.startswith('llvm.trap'): return m_drop
        if n.startswith('llvm.eh.typeid.for'): return m_typeid
        if n.startswith('llvm.umul.with.overflow'): return m_ovf('mul')
        if n.startswith('llvm.uadd.with.overflow'): return m_ovf('add')
        if n.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')): return m_minmax
        return m_nop
    q = qual(dem)
    h = EXACT.get(q)
    if h is not None:
        return h
    if q in ('operator_new', 'operator_newa'):
        return m_new if 'void*' not in argtext(dem) else m_place
    if SPRX.match(q): return m_sp
    if q.startswith('std::enable_shared_from_this::'): return m_esft
    if CONT.match(q): return m_cont
    if ITER.match(q): return m_iter
    if q.startswith('std::function::'): return m_function
    if '_Base_manager' in q and q.endswith('_M_get_pointer'): return m_get_pointer
    if q.startswith('std::__exception_ptr::exception_ptr::'): return m_excptr
    return None

def m_place(e, st, ins, args, dem, name):
    return args[1]
