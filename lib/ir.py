"""Reader for the textual LLVM IR clang emits for the analysed unit (clang -O0,
front-end output, no optimisation passes): functions, resolved callees, struct
layouts, debug-info types.  Nothing in here executes anything."""
import os, re, subprocess, bisect

class IRError(Exception):
    pass

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
| (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
| (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
| (?P<md>![\w.]*(?:\([^)]*\))?)
| (?P<attr>\#\d+)
| (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
| (?P<word>[A-Za-z_$.][\w$.]*)
| (?P<dots>\.\.\.)
| (?P<p><\{|\}>|[()\[\]{}<>,=*:|])
| (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        c = s[pos]
        if c == ';':
            break
        t = m(s, pos)
        if t is None:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        pos = t.end()
        k = t.lastgroup
        if k != 'ws':
            out.append(t.group(k))
    return out

def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n

INTW = re.compile(r'i(\d+)$')
PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext',
    'inreg', 'noalias', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror', 'noreturn', 'nounwind',
    'allocptr', 'noext', 'dead_on_unwind', 'dead_on_return', 'initializes', 'writable', 'nofpclass', 'range'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'alignstack', 'allocalign', 'preallocated', 'inalloca', 'byref'}
LINKAGE = {'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'external', 'available_externally',
           'hidden', 'default', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'dso_preemptable', 'linkonce', 'common', 'appending',
           'fastcc', 'ccc', 'coldcc', 'comdat', 'noundef', 'extern_weak'}

class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        v = self.next()
        if v != x:
            raise IRError('expected %r got %r in %r' % (x, v, ' '.join(self.t)[:200]))
    def skip_paren(self):
        d = 0
        while True:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return
    # ---- types
    def type(self):
        v = self.next()
        if v == 'ptr':
            t = 'ptr'
        elif v == '{' or v == '<{':
            close = '}' if v == '{' else '}>'
            el = []
            if self.peek() != close:
                while True:
                    el.append(self.type())
                    if not self.accept(','):
                        break
            self.expect(close)
            t = ('struct', tuple(el), v == '<{')
        elif v == '[' or v == '<':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']' if v == '[' else '>')
            t = ('array', n, e)
        elif v[0] == '%':
            t = ('named', unq(v))
        else:
            t = v
        while self.peek() == '(' :
            # function type
            self.next()
            while self.peek() != ')':
                if self.accept('...'):
                    pass
                else:
                    self.type()
                    self.attrs()
                self.accept(',')
            self.expect(')')
            t = ('func', t)
        return t
    def attrs(self):
        a = {}
        while True:
            v = self.peek()
            if v is None:
                return a
            if v in PARAM_ATTRS:
                self.next(); a[v] = True
                if self.peek() == '(':
                    self.skip_paren()
            elif v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    if v in ('sret', 'byval'):
                        self.next(); a[v] = self.type(); self.expect(')')
                    else:
                        self.skip_paren()
                else:
                    self.next()
                a.setdefault(v, True)
            elif v[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return a
    # ---- values
    def value(self, ty):
        v = self.next()
        c = v[0]
        if c == '%':
            return ('l', unq(v))
        if c == '@':
            return ('g', unq(v))
        if c.isdigit() or (c == '-' and len(v) > 1):
            if '.' in v or v.startswith('0x'):
                return ('c', v)
            return ('i', int(v))
        if v == 'true':
            return ('i', 1)
        if v == 'false':
            return ('i', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison', 'none'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            self.accept('inbounds')
            while self.peek() in ('inrange', 'nuw', 'nusw'):
                self.next()
                if self.peek() == '(':
                    if self.t[self.i + 2] == ',':
                        break
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.expect('('); ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ccast', v, x, ft, tt)
        if v in ('sub', 'add', 'mul', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', v, a, b, t1)
        if v in ('{', '<{', '['):
            close = {'{': '}', '<{': '}>', '[': ']'}[v]
            el = []
            while self.peek() != close:
                t = self.type(); el.append((t, self.value(t))); self.accept(',')
            self.next()
            return ('agg', el)
        if c == 'c' and v.startswith('c"'):
            return ('cstr', v)
        if c == '!' or v == 'metadata':
            return ('undef',)
        raise IRError('value: %r in %r' % (v, ' '.join(self.t)[:300]))
    def typed(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'idx', 'x')
    def __init__(self, op, res, ty, a, dbg):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.x = None
    def __repr__(self):
        return '<%s = %s %r>' % (self.res, self.op, self.a)

class Func:
    __slots__ = ('name', 'dem', 'params', 'rty', 'text', 'dbg', 'mod', '_blocks', 'entry', 'internal', 'nparams', 'line0', '_lh', 'dbgvars')
    def __init__(self):
        self._blocks = None; self._lh = None
    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._parse_body(self)
        return self._blocks
    def loop_heads(self):
        if self._lh is None:
            self._lh = _loop_heads(self)
        return self._lh
    def __repr__(self):
        return '<F %s>' % self.dem

def succs(inst):
    if inst.op == 'br':
        return list(inst.a[1:]) if len(inst.a) == 3 else [inst.a[0]]
    if inst.op == 'switch':
        return [inst.a[1]] + [b for _, b in inst.a[2]]
    if inst.op == 'invoke':
        return [inst.x[0], inst.x[1]]
    return []

def _loop_heads(f):
    heads = set(); color = {}
    st = [(f.entry, iter(succs(f.blocks[f.entry][-1])))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1
                st.append((s, iter(succs(f.blocks[s][-1]))))
                break
            elif c == 1:
                heads.add(s)
        else:
            color[b] = 2
            st.pop()
    return heads

LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):')
DBGRE = re.compile(r', !dbg !(\d+)')
SRCLOC = re.compile(r', !(?!dbg)[\w.]+ !\d+')

class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.md = {}
        self._mdcache = {}
        self._mdg = {}; self._tn = {}; self._vc = {}
        self._lay = {}
        self._fields = {}
        self._load(path)
    def _load(self, path):
        lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
        i = 0; n = len(lines)
        names = []
        while i < n:
            L = lines[i]
            if not L:
                i += 1; continue
            c = L[0]
            if c == '%':
                eq = L.index(' = type ')
                self.types[unq(L[:eq])] = L[eq + 8:]
            elif c == '@':
                k = L.find(' = ')
                self.globals[unq(L[:k])] = L[k + 3:]
                if ' alias ' in L:
                    am = re.search(r' ptr @("(?:[^"\\\\]|\\\\.)*"|[-\w$.]+)\s*$', L)
                    if am: self.aliases[unq(L[:k])] = unq('@' + am.group(1))
            elif c == '!':
                k = L.find(' = ')
                if k > 0:
                    self.md[L[1:k]] = L[k + 3:]
            elif L.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func()
                f.mod = self
                f.text = (L, i + 1, j)
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', L)
                f.name = unq('@' + m.group(1))
                f.internal = ' internal ' in L[:m.start()]
                d = re.search(r' !dbg !(\d+)', L)
                f.dbg = d.group(1) if d else None
                self.funcs[f.name] = f
                names.append(f.name[1:])
                i = j
            elif L.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', L)
                self.decls[unq('@' + m.group(1))] = L
                names.append(unq('@' + m.group(1))[1:])
            i += 1
        self.lines = lines
        names += [g[1:] for g in self.globals if g.startswith('@_ZTV')]
        import shutil
        flt = shutil.which('c++filt') or shutil.which('llvm-cxxfilt-18') or '/usr/lib/llvm-18/bin/llvm-cxxfilt'
        out = subprocess.run([flt], input='\n'.join(names), text=True, capture_output=True, check=True).stdout.split('\n')
        self.dem = {}
        rest = [a for a, b in zip(names, out) if a == b and a.startswith('_Z')]
        alt = {}
        f2 = shutil.which('llvm-cxxfilt-18') or shutil.which('llvm-cxxfilt') or '/usr/lib/llvm-18/bin/llvm-cxxfilt'
        if rest and os.path.exists(f2):
            # constrained templates: only LLVM's demangler reads them
            for a, b in zip(rest, subprocess.run([f2], input='\n'.join(rest), text=True, capture_output=True, check=True).stdout.split('\n')):
                b = b.split(' requires ')[0]
                b = re.sub(r'(?<!operator)(?<!operator>)>(?=>)', '> ', b)
                alt[a] = b
        for a, b in zip(names, out):
            self.dem['@' + a] = alt.get(a, b)
        for f in self.funcs.values():
            f.dem = self.dem.get(f.name, f.name)
            self._parse_header(f)
        for a, t in self.aliases.items():
            if t in self.funcs:
                self.funcs.setdefault(a, self.funcs[t])
                self.dem[a] = self.dem.get(t, t)
        self.bydem = {}
        for f in self.funcs.values():
            self.bydem.setdefault(f.dem, []).append(f)
    def _parse_header(self, f):
        L = f.text[0]
        k = L.index('@')
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', L)
        # return type
        pre = L[len('define '):m.start()]
        pt = [t for t in tokenize(pre)]
        p = P(pt, self)
        while p.peek() in LINKAGE or (p.peek() in PARAM_ATTRS) or p.peek() in PARAM_ATTRS_ARG:
            if p.peek() in LINKAGE:
                p.next()
            else:
                p.attrs()
        f.rty = p.type()
        d = 0; e = m.end() - 1
        j = e
        instr = False
        while True:
            ch = L[j]
            if ch == '"':
                instr = not instr
            elif not instr:
                if ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0:
                        break
            j += 1
        p = P(tokenize(L[e + 1:j]), self)
        ps = []
        cnt = 0
        while p.peek() is not None:
            if p.accept('...'):
                continue
            t = p.type(); a = p.attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next())
            else:
                nm = '%%%d' % cnt
            if re.match(r'%\d+$', nm):
                cnt = int(nm[1:]) + 1
            ps.append((t, nm, a)); p.accept(',')
        f.params = ps
    def _parse_body(self, f):
        _, a, b = f.text
        blocks = {}
        f.dbgvars = {}
        # implicit entry label: number of unnamed params
        cnt = sum(1 for t, n, _ in f.params if re.match(r'%\d+$', n))
        cur = None
        order = []
        i = a
        lines = self.lines
        first = LABEL.match(lines[a])
        if not first:
            cur = '%' + str(cnt); blocks[cur] = []; order.append(cur)
        while i < b:
            L = lines[i]; i += 1
            if not L.strip():
                continue
            m = LABEL.match(L)
            if m and L[0] != ' ':
                cur = unq('%' + m.group(1)); blocks[cur] = []; order.append(cur)
                continue
            s = L.strip()
            if s.startswith('switch '):
                while not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[-1]:
                    s += ' ' + lines[i].strip(); i += 1
            elif 'invoke ' in s and ' to label ' not in s:
                while ' to label ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif ' landingpad ' in s:
                while lines[i].strip().startswith(('catch', 'cleanup', 'filter')):
                    s += ' ' + lines[i].strip(); i += 1
            if '@llvm.dbg.' in s or '@llvm.lifetime' in s:
                if '@llvm.dbg.declare' in s:
                    dm = re.search(r'metadata ptr (%(?:"[^"]*"|[-\w$.]+)), metadata !(\d+), metadata !DIExpression\(([^)]*)\)', s)
                    if dm:
                        f.dbgvars[unq(dm.group(1))] = (dm.group(2), dm.group(3))
                continue
            ins = self._inst(s)
            if ins is not None:
                blocks[cur].append(ins)
        f._blocks = blocks
        f.entry = order[0]
    def _inst(self, s):
        m = DBGRE.search(s)
        dbg = None
        if m:
            dbg = m.group(1)
            s = s[:m.start()] + s[m.end():]
        s = SRCLOC.sub('', s)
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = unq(p.next()); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            t = p.type()
            return Inst(op, res, t, (), dbg)
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile')
            t = p.type(); p.expect(','); pt, v = p.typed()
            o = None
            if at:
                o = p.next()
                if o == 'syncscope':
                    p.skip_paren(); o = p.next()
            return Inst(op, res, t, (v, o), dbg)
        if op == 'store':
            at = p.accept('atomic'); p.accept('volatile')
            t, v = p.typed(); p.expect(','); pt, q = p.typed()
            o = p.next() if at else None
            return Inst(op, res, t, (v, q, o), dbg)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type(); p.expect(','); pt, base = p.typed()
            idx = []
            while p.accept(','):
                if p.peek() and p.peek()[0] == '!':
                    break
                idx.append(p.typed())
            return Inst(op, res, 'ptr', (bt, base, tuple(idx)), dbg)
        if op in ('call', 'invoke'):
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            p.attrs()
            t = p.type()
            p.attrs()
            if p.peek() == 'asm':
                return Inst('asm', res, t, (), dbg)
            if isinstance(t, tuple) and t[0] == 'func':
                t = t[1]
            callee = p.value('ptr')
            p.expect('(')
            args = []
            while p.peek() != ')':
                if p.peek() == 'metadata':
                    p.next()
                    d = 0
                    while p.peek() not in (',', ')') or d:
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    args.append(('md', ('undef',), {}))
                else:
                    ty = p.type(); at = p.attrs(); args.append((ty, p.value(ty), at))
                p.accept(',')
            p.expect(')')
            ins = Inst(op, res, t, (callee, tuple(args)), dbg)
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.expect('label'); n = unq(p.next()); p.expect('unwind'); p.expect('label'); u = unq(p.next())
                ins.x = (n, u)
            return ins
        if op == 'br':
            if p.accept('label'):
                return Inst(op, None, None, (unq(p.next()),), dbg)
            t, v = p.typed(); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
            return Inst(op, None, None, (v, a, b), dbg)
        if op == 'switch':
            t, v = p.typed(); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
            cs = []
            while not p.accept(']'):
                ct, cv = p.typed(); p.expect(','); p.expect('label'); cs.append((cv, unq(p.next())))
            return Inst(op, None, t, (v, d, tuple(cs)), dbg)
        if op == 'ret':
            if p.accept('void'):
                return Inst(op, None, 'void', (None,), dbg)
            t, v = p.typed()
            return Inst(op, None, t, (v,), dbg)
        if op in ('icmp', 'fcmp'):
            pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, res, t, (pr, a, b), dbg)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'disjoint'):
                p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst('bin', res, t, (op, a, b), dbg)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            p.accept('nneg')
            t, v = p.typed(); p.expect('to'); tt = p.type()
            return Inst('cast', res, tt, (op, v, t), dbg)
        if op == 'phi':
            t = p.type(); inc = []
            while p.accept('['):
                v = p.value(t); p.expect(','); l = unq(p.next()); p.expect(']'); inc.append((v, l)); p.accept(',')
            return Inst(op, res, t, tuple(inc), dbg)
        if op == 'select':
            _, c = p.typed(); p.expect(','); t, a = p.typed(); p.expect(','); _, b = p.typed()
            return Inst(op, res, t, (c, a, b), dbg)
        if op == 'extractvalue':
            t, v = p.typed(); idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, (v, tuple(idx)), dbg)
        if op == 'insertvalue':
            t, v = p.typed(); p.expect(','); t2, w = p.typed(); idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, (v, w, tuple(idx)), dbg)
        if op == 'landingpad':
            cl = 'cleanup' if 'cleanup' in s else ''
            catches = 'catch' in s
            return Inst(op, res, None, (cl, catches, s), dbg)
        if op == 'resume':
            t, v = p.typed()
            return Inst(op, None, t, (v,), dbg)
        if op == 'unreachable':
            return Inst(op, None, None, (), dbg)
        if op == 'cmpxchg':
            weak = p.accept('weak'); p.accept('volatile')
            _, q = p.typed(); p.expect(','); t, e = p.typed(); p.expect(','); _, nv = p.typed()
            so = p.next(); fo = p.next()
            return Inst(op, res, t, (q, e, nv, so, fo, weak), dbg)
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); _, q = p.typed(); p.expect(','); t, v = p.typed(); od = p.next()
            return Inst(op, res, t, (o, q, v, od), dbg)
        if op == 'fence':
            return Inst(op, None, None, (p.next(),), dbg)
        if op in ('fneg', 'freeze'):
            t, v = p.typed()
            return Inst('cast', res, t, ('bitcast', v, t), dbg)
        raise IRError('inst: ' + s)
    # ---------- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            s = self.types.get(t[1])
            if s is None or s == 'opaque':
                return ('struct', (), False)
            if isinstance(s, str):
                s = P(tokenize(s), self).type()
                self.types[t[1]] = s
            t = s
        return t
    def lay(self, t):
        """(size, align, offsets)"""
        r = self._lay.get(t)
        if r is not None:
            return r
        u = self.resolve(t)
        if u == 'ptr':
            r = (8, 8, None)
        elif isinstance(u, str):
            m = INTW.match(u)
            if m:
                w = int(m.group(1)); b = 1
                while b * 8 < w:
                    b *= 2
                r = (b, min(b, 16), None)
            else:
                b = {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'void': 0, 'fp128': 16, 'label': 0, 'metadata': 0, 'token': 0}[u]
                r = (b, max(b, 1), None)
        elif u[0] == 'array':
            s, a, _ = self.lay(u[2]); r = (s * u[1], a, None)
        elif u[0] == 'struct':
            off = 0; al = 1; offs = []
            for e in u[1]:
                s, a, _ = self.lay(e)
                if u[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            r = (8, 8, None)
        self._lay[t] = r
        return r
    # ---------- metadata
    def mdget(self, ref, key):
        k = (ref, key)
        r = self._mdg.get(k, 0)
        if r == 0: r = self._mdg[k] = self._mdget(ref, key)
        return r
    def _mdget(self, ref, key):
        s = self.md.get(ref)
        if s is None:
            return None
        m = re.search(r'[( ]%s: ("(?:[^"\\]|\\.)*"|[^,)]+)' % key, s)
        if not m:
            return None
        v = m.group(1)
        return v[1:-1] if v[0] == '"' else v
    def loc(self, dbg):
        if dbg is None:
            return None
        r = self._mdcache.get(dbg)
        if r is None:
            line = self.mdget(dbg, 'line'); sc = self.mdget(dbg, 'scope')
            r = (self.scope_file(sc), int(line or 0))
            self._mdcache[dbg] = r
        return r
    def scope_file(self, sc):
        if sc is None:
            return '?'
        k = ('f', sc)
        r = self._mdcache.get(k)
        if r is None:
            ref = sc.lstrip('!')
            f = self.mdget(ref, 'file')
            if f:
                r = self.mdget(f.lstrip('!'), 'filename')
                d = self.mdget(f.lstrip('!'), 'directory')
                if r and not r.startswith('/') and d:
                    r = d + '/' + r
            else:
                s2 = self.mdget(ref, 'scope')
                r = self.scope_file(s2) if s2 else '?'
            self._mdcache[k] = r
        return r
    def locstr(self, dbg):
        l = self.loc(dbg)
        if not l:
            return '?'
        f = l[0] or '?'
        for pre in ('/repo/', os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/'):
            if f.startswith(pre):
                f = f[len(pre):]
        return '%s:%d' % (f, l[1])
    def func_class(self, f):
        """debug-info composite type of the class a member function belongs to (or None)"""
        k = ('fc', f.name)
        if k in self._mdcache:
            return self._mdcache[k]
        r = None
        if f.dbg:
            sc = self.mdget(f.dbg, 'scope')
            if sc and sc.startswith('!'):
                s = self.md.get(sc[1:], '')
                if 'DICompositeType' in s:
                    t = self.params_di(f)
                    r = sc[1:]
                    # static member functions have no artificial 'this'
                    if not self.has_this(f):
                        r = None
        self._mdcache[k] = r
        return r
    def params_di(self, f):
        return None
    def has_this(self, f):
        ty = self.mdget(f.dbg, 'type')
        if not ty:
            return False
        tl = self.mdget(ty[1:], 'types')
        if not tl:
            return False
        els = self.md.get(tl[1:], '')
        refs = re.findall(r'!(\d+)|null', els)
        refs = [x for x in re.findall(r'(!\d+|null)', els)]
        if len(refs) < 2 or refs[1] == 'null':
            return False
        s = self.md.get(refs[1][1:], '')
        return 'DIFlagArtificial' in s
    def strip(self, ref):
        """strip cv/typedef"""
        seen = 0
        while ref and seen < 20:
            s = self.md.get(ref, '')
            if 'DIDerivedType' in s and re.search(r'tag: DW_TAG_(typedef|const_type|volatile_type|atomic_type|restrict_type)', s):
                b = self.mdget(ref, 'baseType')
                ref = b[1:] if b else None
            else:
                return ref
            seen += 1
        return ref
    def type_name(self, ref):
        """qualified name of a composite type"""
        r = self._tn.get(ref)
        if r is None: r = self._tn[ref] = self._type_name(ref)
        return r
    def _type_name(self, ref):
        s = self.md.get(ref, '')
        n = self.mdget(ref, 'name') or ''
        sc = self.mdget(ref, 'scope')
        while sc and sc.startswith('!'):
            m = self.md.get(sc[1:], '')
            if 'DINamespace' in m or 'DICompositeType' in m:
                nn = self.mdget(sc[1:], 'name')
                if nn:
                    n = nn + '::' + n
                sc = self.mdget(sc[1:], 'scope')
            else:
                break
        return n
    def defn(self, ref):
        s = self.md.get(ref, '')
        if 'elements:' in s and 'DIFlagFwdDecl' not in s:
            return ref
        ident = self.mdget(ref, 'identifier')
        k = ('defs',)
        d = self._mdcache.get(k)
        if d is None:
            d = {}
            for r, t in self.md.items():
                if 'DICompositeType' in t and 'elements:' in t and 'DIFlagFwdDecl' not in t:
                    i = self.mdget(r, 'identifier')
                    if i:
                        d[i] = r
            self._mdcache[k] = d
        r = d.get(ident) if ident else None
        if r is None:
            r = self.classes().get(self.type_name(ref))
        return r or ref
    def ptr_class(self, ref):
        """class a pointer/reference type points to, or None"""
        ref = self.strip(ref) if ref else None
        s = self.md.get(ref, '') if ref else ''
        if 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue_reference_type' in s:
            b = self.mdget(ref, 'baseType')
            b = self.strip(b[1:]) if b else None
            if b and 'DICompositeType' in self.md.get(b, ''):
                return self.defn(b)
        return None
    def var_type(self, f, res):
        f.blocks
        d = f.dbgvars.get(res)
        if d is None:
            return None
        t = self.mdget(d[0], 'type')
        return self.strip(t[1:]) if t else None
    def var_class(self, f, res):
        k = (f.name, res); r = self._vc.get(k, 0)
        if r == 0: r = self._vc[k] = self._var_class(f, res)
        return r
    def _var_class(self, f, res):
        t = self.var_type(f, res)
        if t and 'DICompositeType' in self.md.get(t, ''):
            return self.defn(t)
        return None
    def var_name(self, f, res):
        f.blocks
        d = f.dbgvars.get(res)
        return self.mdget(d[0], 'name') if d else None
    def param_types(self, f):
        f.blocks
        out = {}
        pn = set(n for t, n, a in f.params)
        for t, n, a in f.params:
            if n in f.dbgvars:          # passed indirectly
                ty = self.var_type(f, n)
                c = self.var_class(f, n) or self.ptr_class(ty)
                if c:
                    out[n] = c
        for ins in f.blocks[f.entry]:
            if ins.op == 'store' and ins.a[0][0] == 'l' and ins.a[0][1] in pn and ins.a[1][0] == 'l':
                t = self.var_type(f, ins.a[1][1])
                if t:
                    d = f.dbgvars[ins.a[1][1]]
                    c = self.ptr_class(t)
                    if c is None and 'DW_OP_deref' in d[1] and 'DICompositeType' in self.md.get(t, ''):
                        c = self.defn(t)
                    if c:
                        out[ins.a[0][1]] = c
        return out
    def vtable_of(self, cls):
        k = ('vt', cls)
        if k in self._mdcache:
            return self._mdcache[k]
        r = None
        i = self.mdget(cls, 'identifier')
        if i and i.startswith('_ZTS'):
            g = self.gval('@_ZTV' + i[4:])
        else:
            if not hasattr(self, '_vtn'): self._vtn = {d[11:].replace(' ', ''): n for n, d in self.dem.items() if d.startswith('vtable for ')}
            n = self._vtn.get(self.type_name(cls).replace(' ', ''))
            g = self.gval(n) if n else None
        if g:
            if g and g[1][0] == 'agg':
                arr = g[1][1][0][1]
                if arr[0] == 'agg':
                    r = [e[1][1] if e[1][0] == 'g' else None for e in arr[1]][2:]
        self._mdcache[k] = r
        return r
    def bases(self, cls):
        out = []
        el = self.mdget(cls, 'elements')
        if el:
            for e in re.findall(r'!(\d+)', self.md.get(el[1:], '')):
                s = self.md.get(e, '')
                if 'DW_TAG_inheritance' in s:
                    b = self.mdget(e, 'baseType')
                    if b:
                        out.append((self.defn(self.strip(b[1:])), int(self.mdget(e, 'offset') or 0) // 8))
        return out
    def vslot_name(self, cls, slot):
        el = self.mdget(cls, 'elements')
        if el:
            for e in re.findall(r'!(\d+)', self.md.get(el[1:], '')):
                s = self.md.get(e, '')
                if 'DISubprogram' in s and 'DIFlagVirtual' in s or ('DISubprogram' in s and 'virtualIndex' in s):
                    vi = self.mdget(e, 'virtualIndex')
                    nm = self.mdget(e, 'name')
                    if vi is not None and int(vi) == slot:
                        return nm
                    if vi is not None and nm and nm.startswith('~') and int(vi) + 1 == slot:
                        return nm
        for b, o in self.bases(cls):
            n = self.vslot_name(b, slot)
            if n:
                return n
        return None
    def fields(self, ref):
        """flattened [(offset, size, path, typeref, declaring class)] sorted by offset; only direct and inherited
        members, nested composites recursed"""
        r = self._fields.get(ref)
        if r is not None:
            return r
        self._fields[ref] = []
        out = []
        el = self.mdget(ref, 'elements')
        if el:
            for e in re.findall(r'!(\d+)', self.md.get(el[1:], '')):
                s = self.md.get(e, '')
                if 'DIDerivedType' not in s or 'DIFlagStaticMember' in s:
                    continue
                tag = self.mdget(e, 'tag')
                off = int(self.mdget(e, 'offset') or 0) // 8
                bt = self.mdget(e, 'baseType')
                b = self.strip(bt[1:]) if bt and bt.startswith('!') else None
                if tag == 'DW_TAG_member':
                    nm = self.mdget(e, 'name') or ''
                    size = int(self.mdget(e, 'size') or 0) // 8
                    out.append((off, size, (nm,) if nm else (), b, ref))
                    if b and 'DICompositeType' in self.md.get(b, ''):
                        for o, z, pth, t, dc in self.fields(b):
                            out.append((off + o, z, ((nm,) if nm else ()) + pth, t, dc))
                elif tag == 'DW_TAG_inheritance':
                    if b:
                        for o, z, pth, t, dc in self.fields(b):
                            out.append((off + o, z, pth, t, dc))
        out.sort(key=lambda x: (x[0], len(x[2])))
        self._fields[ref] = out
        return out
    def classes(self):
        """qualified type name -> metadata ref (definitions only)"""
        k = ('classes',)
        r = self._mdcache.get(k)
        if r is None:
            r = {}
            for ref, s in self.md.items():
                if 'DICompositeType(tag: DW_TAG_structure_type' in s or 'DICompositeType(tag: DW_TAG_class_type' in s:
                    if 'elements:' in s and 'DIFlagFwdDecl' not in s:
                        r.setdefault(self.type_name(ref), ref)
            self._mdcache[k] = r
        return r
    def gval(self, name):
        """parsed initializer of a global (only for vtables / constants)"""
        k = ('gv', name)
        if k in self._mdcache:
            return self._mdcache[k]
        r = None
        s = self.globals.get(name)
        if s:
            m = re.search(r'\b(constant|global) ', s)
            if m and not s.startswith('external'):
                body = s[m.end():]
                try:
                    p = P(tokenize(body), self)
                    t = p.type()
                    r = (t, p.value(t))
                except (IRError, IndexError):
                    r = None
        self._mdcache[k] = r
        return r
