"""Reader for textual LLVM IR (clang 18, opaque pointers), just what clang -O0 emits for C++.

A Module is read once per translation unit; function bodies are parsed lazily.
"""
import re, subprocess

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hexf>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[a-zA-Z_$][-a-zA-Z0-9_$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)

def toks(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise SyntaxError('tok %r' % s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out

ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','readnone','writeonly','returned','immarg','nest','dead_on_unwind','writable','nofree','swiftself','noreturn','nounwind','inalloca_','fastcc','ccc','tail','musttail','notail','local_unnamed_addr','unnamed_addr','dso_local','inbounds','exact','nuw','nsw','volatile','disjoint','nneg','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','allocptr','allocalign','swiftasync','inrange'}
PATTRS = {'align','dereferenceable','dereferenceable_or_null','sret','byval','byref','inalloca','elementtype','preallocated','range','nofpclass','memory','allocsize'}

def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n

class P:
    def __init__(self, t):
        self.t = t; self.i = 0
    def pk(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else ('eof', '')
    def nx(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, s):
        if self.pk()[1] == s:
            self.i += 1; return True
        return False
    def exp(self, s):
        if not self.acc(s):
            raise SyntaxError('expected %s got %r' % (s, self.t[self.i:self.i+6]))
    def type(self):
        k, v = self.nx()
        if k == 'word':
            if v == 'ptr':
                t = ('ptr',)
                if self.pk()[1] == 'addrspace':
                    self.i += 4
            elif v in ('void', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'token', 'half', 'opaque'):
                t = (v,)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            else:
                raise SyntaxError('type ' + v)
        elif v == '{':
            t = self._struct(False)
        elif v == '<':
            if self.acc('{'):
                t = self._struct(True); self.exp('>')
            else:
                n = int(self.nx()[1]); self.exp('x'); e = self.type(); self.exp('>')
                t = ('vec', n, e)
        elif v == '[':
            n = int(self.nx()[1]); self.exp('x'); e = self.type(); self.exp(']')
            t = ('array', n, e)
        elif k == 'loc':
            t = ('named', unq(v))
        else:
            raise SyntaxError('type %r' % v)
        while self.pk()[1] == '(':   # function type
            self.i += 1; ps = []; va = False
            while not self.acc(')'):
                if self.acc('...'):
                    va = True
                else:
                    ps.append(self.type())
                self.acc(',')
            t = ('fn', t, ps, va)
        while self.acc('*'):
            t = ('ptr',)
        return t
    def _struct(self, packed):
        fs = []
        while not self.acc('}'):
            fs.append(self.type()); self.acc(',')
        return ('struct', tuple(fs), packed)
    def attrs(self):
        a = {}
        while True:
            k, v = self.pk()
            if k == 'word' and v in PATTRS and not (v == 'align' and False):
                self.i += 1
                if self.pk()[1] == '(':
                    d = 0; st = self.i
                    while True:
                        x = self.nx()[1]
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                    if v in ('sret', 'byval'):
                        a[v] = P(self.t[st+1:self.i-1]).type()
                    else:
                        a[v] = True
                elif v == 'align':
                    self.i += 1
            elif k == 'word' and v in ATTRS:
                self.i += 1; a[v] = True
            elif k == 'attr':
                self.i += 1
            else:
                return a
    def value(self, ty):
        k, v = self.nx()
        if k == 'loc': return ('r', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if ty[0] in ('float', 'double'):
                import struct as _s
                f = float(v)
                return ('fc', _s.unpack('<Q', _s.pack('<d', f))[0])   # always as double bits
            return ('c', int(v))
        if k == 'hexf':
            return ('fc', int(v[2:].lstrip('KMLHR'), 16))
        if k == 'str' and v.startswith('c"'):
            return ('bytes', unesc(v[2:-1]))
        if k == 'word':
            if v in ('true', 'false'): return ('c', 1 if v == 'true' else 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('undef',)
            if v == 'getelementptr':
                self.attrs()
                self.exp('('); et = self.type(); self.exp(',')
                args = []
                while True:
                    self.attrs()
                    t = self.type(); args.append((t, self.value(t)))
                    if not self.acc(','): break
                self.exp(')')
                return ('gep', et, args)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                self.attrs()
                self.exp('('); t = self.type(); x = self.value(t); self.exp(','); t2 = self.type(); y = self.value(t2); self.exp(')')
                return ('cbin', v, t, x, y)
            if v == 'icmp':
                pred = self.nx()[1]
                self.exp('('); t = self.type(); x = self.value(t); self.exp(','); t2 = self.type(); y = self.value(t2); self.exp(')')
                return ('cicmp', pred, t, x, y)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
        if v in ('{', '[', '<'):
            if v == '<' and self.pk()[1] == '{':
                self.i += 1; close = '}'
            else:
                close = {'{': '}', '[': ']', '<': '>'}[v]
            es = []
            while not self.acc(close):
                t = self.type(); es.append((t, self.value(t))); self.acc(',')
            if v == '<' and close == '}': self.exp('>')
            return ('agg', es)
        raise SyntaxError('value %r %r' % (k, v))

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1', 'replace'); i += 1
    return bytes(out)

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'text')
    def __repr__(self): return self.text

class Fn:
    def __init__(self, mod, name, header, lines):
        self.mod = mod; self.name = name; self.header = header; self.lines = lines
        self._parsed = False
        m = re.search(r'!dbg !(\d+)', header)
        self.dbgid = m.group(1) if m else None
        self._file = None
    @property
    def file(self):
        if self._file is None:
            self._file = self.mod.subprogram_file(self.dbgid) if self.dbgid else ''
        return self._file
    @property
    def dem(self):
        return self.mod.dem(self.name)
    def parse(self):
        if self._parsed: return
        self._parsed = True
        h = self.header
        p = P(toks(h[h.index('define')+6:]))
        # linkage etc.
        while p.pk()[0] == 'word' and p.pk()[1] in ('linkonce_odr','internal','private','weak_odr','available_externally','external','weak','linkonce','dso_local','hidden','protected','default','fastcc','noundef') :
            p.nx()
        p.attrs()
        self.rty = p.type()
        p.nx()  # name
        p.exp('(')
        self.params = []; self.vararg = False
        while not p.acc(')'):
            if p.acc('...'):
                self.vararg = True; continue
            t = p.type(); a = p.attrs()
            k, v = p.nx()
            self.params.append((t, unq(v), a))
            p.acc(',')
        self.blocks = {}; self.order = []
        cur = None; buf = []
        ls = self.lines
        joined = []
        for l in ls:
            s = l.strip()
            if not s or s.startswith(';'): continue
            if re.match(r'^[-a-zA-Z$._0-9"]+:', l) :
                joined.append(l); continue
            if joined and (s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch ptr') or s.startswith('filter [') or (joined[-1].count('[') > joined[-1].count(']') and 'switch' in joined[-1])):
                joined[-1] += ' ' + s
            else:
                joined.append(s)
        for s in joined:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                nm = m.group(1)
                if nm.startswith('"'): nm = nm[1:-1]
                cur = nm; self.blocks[cur] = []; self.order.append(cur); continue
            if cur is None:
                cur = '__entry'; self.blocks[cur] = []; self.order.append(cur)
            self.blocks[cur].append(parse_ins(s))
        self.entry = self.order[0]
        self._loops = None
    def succs(self, b):
        last = self.blocks[b][-1]
        if last.op == 'br': return [last.a[0]] if len(last.a) == 1 else [last.a[1], last.a[2]]
        if last.op == 'switch': return [last.a[1]] + [x[1] for x in last.a[2]]
        if last.op == 'invoke': return [last.a[3], last.a[4]]
        return []
    def loops(self):
        """natural loops: header -> set of blocks"""
        self.parse()
        if self._loops is not None: return self._loops
        # dominators (simple iterative)
        succ = {b: self.succs(b) for b in self.order}
        pred = {b: [] for b in self.order}
        for b, ss in succ.items():
            for s in ss: pred[s].append(b)
        reach = []; seen = set(); st = [self.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); reach.append(b); st += succ[b]
        dom = {b: set(seen) for b in seen}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in reach:
                if b == self.entry: continue
                ps = [dom[p] for p in pred[b] if p in seen]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]: dom[b] = d; ch = True
        L = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = {s}; st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [q for q in pred[x] if q in seen]
                    L.setdefault(s, set()).update(body)
        self._loops = L
        return L

def strip_meta(p):
    pass

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

def parse_ins(s):
    ins = Ins(); ins.text = s; ins.dst = None; ins.a = None; ins.ty = None
    m = re.search(r'!dbg !(\d+)', s)
    ins.dbg = m.group(1) if m else None
    m = re.search(r',\s*![a-zA-Z]', s)
    if m: s = s[:m.start()]
    p = P(toks(s))
    if p.pk()[0] == 'loc' and p.pk(1)[1] == '=':
        ins.dst = unq(p.nx()[1]); p.nx()
    op = p.nx()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.nx()[1]
    ins.op = op
    if op == 'alloca':
        p.attrs()
        ins.ty = p.type(); n = None
        if p.acc(','):
            if p.pk()[1] != 'align':
                t = p.type(); n = (t, p.value(t))
        ins.a = (n,)
    elif op == 'load':
        at = False
        while p.pk()[1] in ('volatile', 'atomic'): p.nx()
        ins.ty = p.type(); p.exp(','); t = p.type(); ins.a = (p.value(t),)
    elif op == 'store':
        while p.pk()[1] in ('volatile', 'atomic'): p.nx()
        ins.ty = p.type(); v = p.value(ins.ty); p.exp(','); t = p.type(); ins.a = (v, p.value(t))
    elif op == 'getelementptr':
        p.attrs(); ins.ty = p.type(); p.exp(','); args = []
        while True:
            p.attrs(); t = p.type(); args.append((t, p.value(t)))
            if not p.acc(','): break
        ins.a = args
    elif op in BIN:
        fl = p.attrs(); ins.ty = p.type(); x = p.value(ins.ty); p.exp(','); ins.a = (x, p.value(ins.ty), fl)
    elif op == 'fneg':
        p.attrs(); ins.ty = p.type(); ins.a = (p.value(ins.ty),)
    elif op in CAST:
        p.attrs(); t = p.type(); v = p.value(t); p.exp('to'); ins.ty = p.type(); ins.a = (t, v)
    elif op in ('icmp', 'fcmp'):
        p.attrs(); pred = p.nx()[1]; ins.ty = p.type(); x = p.value(ins.ty); p.exp(','); ins.a = (pred, x, p.value(ins.ty))
    elif op == 'br':
        t = p.type()
        if t == ('label',):
            ins.a = (unq(p.nx()[1]),)
        else:
            c = p.value(t); p.exp(','); p.exp('label'); a = unq(p.nx()[1]); p.exp(','); p.exp('label'); b = unq(p.nx()[1])
            ins.a = (c, a, b)
    elif op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = unq(p.nx()[1]); p.exp('[')
        cs = []
        while not p.acc(']'):
            tt = p.type(); c = p.value(tt); p.exp(','); p.exp('label'); cs.append((c[1], unq(p.nx()[1])))
        ins.ty = t; ins.a = (v, d, cs)
    elif op == 'ret':
        t = p.type(); ins.ty = t
        ins.a = (None,) if t == ('void',) else (p.value(t),)
    elif op in ('call', 'invoke'):
        p.attrs()
        while p.pk()[1] in ('fastcc', 'ccc'): p.nx()
        p.attrs()
        t = p.type()
        va = False
        if t[0] == 'fn': va = t[3]; t = t[1]
        ins.ty = t
        callee = p.value(('ptr',)); p.exp('(')
        args = []
        while not p.acc(')'):
            tt = p.type()
            if tt == ('metadata',):
                # skip to , or )
                d = 0
                while True:
                    x = p.pk()[1]
                    if d == 0 and x in (',', ')'): break
                    if x in '([{': d += 1
                    if x in ')]}': d -= 1
                    p.nx()
                args.append((tt, ('undef',), {}))
            else:
                a = p.attrs(); v = p.value(tt); args.append((tt, v, a))
            p.acc(',')
        if op == 'invoke':
            p.attrs(); p.exp('to'); p.exp('label'); ok = unq(p.nx()[1]); p.exp('unwind'); p.exp('label'); uw = unq(p.nx()[1])
            ins.a = (callee, args, va, ok, uw)
        else:
            ins.a = (callee, args, va)
    elif op == 'landingpad':
        ins.ty = p.type(); cl = []; cleanup = False
        while p.pk()[0] != 'eof':
            w = p.nx()[1]
            if w == 'cleanup': cleanup = True
            elif w == 'catch':
                t = p.type(); cl.append(p.value(t))
            elif w == 'filter':
                break
        ins.a = (cleanup, cl)
    elif op == 'resume':
        ins.ty = p.type(); ins.a = (p.value(ins.ty),)
    elif op == 'unreachable':
        ins.a = ()
    elif op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.acc(','): ix.append(int(p.nx()[1]))
        ins.ty = t; ins.a = (v, ix)
    elif op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2); ix = []
        while p.acc(','): ix.append(int(p.nx()[1]))
        ins.ty = t; ins.a = (v, t2, e, ix)
    elif op == 'select':
        p.attrs(); t = p.type(); c = p.value(t); p.exp(','); t1 = p.type(); x = p.value(t1); p.exp(','); t2 = p.type(); y = p.value(t2)
        ins.ty = t1; ins.a = (c, x, y)
    elif op == 'phi':
        p.attrs(); ins.ty = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(ins.ty); p.exp(','); b = unq(p.nx()[1]); p.exp(']'); inc.append((v, b))
            if not p.acc(','): break
        ins.a = inc
    elif op == 'freeze':
        ins.ty = p.type(); ins.a = (p.value(ins.ty),)
    elif op in ('cmpxchg', 'atomicrmw', 'fence'):
        ins.a = ()
    else:
        ins.a = ()
    return ins

class Module:
    def __init__(self, path, dem_cache=None):
        self.path = path
        self.fns = {}; self.types = {}; self.globs = {}; self.meta = {}; self.declares = set()
        self._dem = {}
        self.aliases = {}
        cur = None
        names = []
        with open(path) as f:
            for l in f:
                if cur is not None:
                    if l.startswith('}'):
                        cur = None
                    else:
                        cur.append(l.rstrip('\n'))
                    continue
                c = l[0]
                if c == 'd' and l.startswith('define'):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                    nm = m.group(1).strip('"')
                    cur = []
                    self.fns[nm] = Fn(self, nm, l.rstrip()[:-1], cur); names.append(nm)
                elif c == 'd' and l.startswith('declare'):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                    nm = m.group(1).strip('"'); self.declares.add(nm); names.append(nm)
                elif c == '%':
                    n, _, d = l.partition(' = type ')
                    if d:
                        self.types[unq(n.strip())] = d.strip()
                elif c == '@':
                    n, _, d = l.partition(' = ')
                    nm = unq(n.strip())
                    if ' alias ' in d or d.startswith('alias'):
                        m = re.search(r'ptr @("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*$', d.strip())
                        if m: self.aliases[nm] = m.group(1).strip('"')
                        names.append(nm)
                    else:
                        self.globs[nm] = d.strip(); names.append(nm)
                elif c == '!':
                    m = re.match(r'^!(\d+) = (.*)$', l)
                    if m: self.meta[m.group(1)] = m.group(2)
        self._names = names
        self._tcache = {}
        self._glparsed = {}
        # demangle everything at once
        r = subprocess.run(['c++filt', '-i'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            self._dem[a] = b
        self.bydem = {}
        for a in self.fns:
            self.bydem.setdefault(self._dem[a], []).append(a)
    def dem(self, n):
        if n in self._dem: return self._dem[n]
        r = subprocess.run(['c++filt', '-i', n], capture_output=True, text=True).stdout.strip()
        self._dem[n] = r
        return r
    def subprogram_file(self, id):
        d = self.meta.get(id, '')
        m = re.search(r'file: !(\d+)', d)
        if not m: return ''
        f = self.meta.get(m.group(1), '')
        fm = re.search(r'filename: "([^"]*)"', f); dm = re.search(r'directory: "([^"]*)"', f)
        fn = fm.group(1) if fm else ''
        if fn and not fn.startswith('/') and dm: fn = dm.group(1) + '/' + fn
        return fn
    def line(self, dbg):
        if not dbg: return 0
        d = self.meta.get(dbg, '')
        m = re.search(r'line: (\d+)', d)
        return int(m.group(1)) if m else 0
    # ---- types
    def resolve(self, t):
        while t[0] == 'named':
            n = t[1]
            if n not in self._tcache:
                d = self.types.get(n)
                if d is None: raise KeyError('type ' + n)
                self._tcache[n] = ('opaque',) if d.startswith('opaque') else P(toks(d)).type()
            t = self._tcache[n]
        return t
    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i': return min(8, max(1, 1 << ((t[1]+7)//8 - 1).bit_length())) if t[1] > 8 else 1
        if k == 'ptr' or k == 'double' or k == 'fn': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'array': return self.align(t[2])
        if k == 'vec': return min(16, self.size(t))
        if k == 'struct':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise KeyError(t)
    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1]+7)//8
            a = self.align(t)
            return (n + a - 1)//a*a
        if k in ('ptr', 'double', 'fn'): return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'void': return 0
        if k == 'array': return t[1]*self.size(t[2])
        if k == 'vec': return t[1]*self.size(t[2])
        if k == 'struct': return self.layout(t)[1]
        raise KeyError(t)
    def layout(self, t):
        t = self.resolve(t)
        offs = []; o = 0
        for f in t[1]:
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1)//a*a
            offs.append(o); o += self.size(f)
        a = self.align(t)
        return offs, (o + a - 1)//a*a
    def glob(self, name):
        """-> (type, init value or None, const)"""
        if name in self._glparsed: return self._glparsed[name]
        d = self.globs.get(name)
        if d is None: return None
        m = re.match(r'^(?:(?:private|internal|linkonce_odr|weak_odr|external|available_externally|weak|common|dso_local|hidden|protected|unnamed_addr|local_unnamed_addr|thread_local(?:\([a-z]+\))?|externally_initialized)\s+)*(constant|global)\s+', d)
        if not m:
            self._glparsed[name] = None; return None
        p = P(toks(strip_trail(d[m.end():])))
        t = p.type(); v = None
        if p.pk()[0] != 'eof' and p.pk()[1] != ',':
            v = p.value(t)
        r = (t, v, m.group(1) == 'constant')
        self._glparsed[name] = r
        return r

def strip_trail(s):
    # drop ", align 8, !dbg .., comdat, section" conservatively: tokenizer handles commas; leave
    return re.sub(r',\s*!.*$', '', s)
