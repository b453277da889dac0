"""Assumed contracts of libstdc++ (string, map, vector, unordered_map) and of protobuf's descriptor / printer API, for the code generator.

std::string is a byte rope; std::map<string,string> a finite map with constant keys; io::Printer::Print appends the expanded
template to the output text (an event)."""
import re, z3
from rope import *
from sym import *
import qtmodels as Q
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
def short(d): return d.replace(STR, 'STR').replace('google::protobuf::', 'gp::').replace('[abi:cxx11]', '')
class GMap:
    """std::map<string,string>: constant key -> Ptr of the value string"""
    __slots__ = ('d',)
    def __init__(s, d=None): s.d = dict(d or {})
    def __repr__(s): return 'GMap%r' % (sorted(s.d),)
class GVec:
    __slots__ = ('l',)
    def __init__(s, l=()): s.l = tuple(l)
def rope(eng, st, p): return st.mem[eng.get_abs(st, p, BA, 'string').buf]['rope']
def put(eng, st, p, r): eng.put_abs(st, p, BA(eng.new_buf(st, r, 'str')), 32)
def newstr(eng, st, r): p = Ptr(eng.alloc(st, 'string', 32), 0); put(eng, st, p, r); return p
def const(r):
    """bytes of a rope that is entirely literal, else None"""
    n = simp(r.len())
    if not isint(n): return None
    bs = [r.at(k) for k in range(n)]
    return bytes(bs) if all(isint(b) for b in bs) else None
def key(eng, st, p):
    k = const(rope(eng, st, p))
    if k is None: raise Unsupported('map key is not a constant')
    return k
def sym(name, *args):
    """an arbitrary non-empty text that is a function of args"""
    so = [a.sort() for a in args]
    f = z3.Function(name, *so, ArrS); g = z3.Function(name + '_len', *so, z3.BitVecSort(64)); return Rope([Sl(f(*args), 0, g(*args))]), g(*args)
def req(eng, st, a, b):
    """equality of two texts as a condition"""
    import ser
    x, y = const(a), const(b)
    if x is not None and y is not None: return x == y
    if x is not None and len(x) <= 64: return ser.rope_must_eq(eng, st, a, b)
    if y is not None and len(y) <= 64: return ser.rope_must_eq(eng, st, b, a)
    if Q.same_rope(a, b): return True
    raise Unsupported('comparison of two texts neither of which is a constant')
def expand(eng, st, t, m):
    """Printer::Print of template t (bytes) with the variables m"""
    out = Rope(); ps = t.split(b'$')
    if len(ps) % 2 == 0: raise Unsupported('unbalanced $ in template')
    for i, p in enumerate(ps):
        if i % 2 == 0: out = out + lit(p)
        elif p == b'': out = out + lit(b'$')
        elif p in m.d: out = out + rope(eng, st, m.d[p])
        else: raise Unsupported('template variable %r not defined' % p)
    return out
def install_gen(eng):
    _model = eng.model; base = len(eng.models)
    def model(rx):
        """rx over the shortened demangled name"""
        rx = rx.replace('STR', re.escape(STR)).replace('gp::', 'google::protobuf::')
        return _model(rx)
    A = eng.assumptions.add
    # ---------------------------------------------------------------- std::string
    S = r'^STR::'
    @model(S + r'basic_string\(\)$')
    def _(eng, st, a, c): put(eng, st, a[0], Rope())
    @model(S + r'basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$')
    def _(eng, st, a, c): put(eng, st, a[0], text(eng, st, a[1]))
    @model(S + r'basic_string\(STR ?(const&|&&)(, std::allocator<char> const&)?\)$')
    def _(eng, st, a, c): put(eng, st, a[0], rope(eng, st, a[1]))      # a moved-from string is not used again by this code; keeping its text is one allowed outcome
    @model(S + r'~basic_string\(\)$|^std::allocator<.*>::~?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(')
    def _(eng, st, a, c): return None
    @model(S + r'(operator=|assign)\(STR ?(const&|&&)\)$')
    def _(eng, st, a, c): put(eng, st, a[0], rope(eng, st, a[1])); return a[0]
    @model(S + r'(operator=|assign)\(char const\*\)$')
    def _(eng, st, a, c): put(eng, st, a[0], text(eng, st, a[1])); return a[0]
    @model(S + r'(operator\+=|append)\(STR const&\)$')
    def _(eng, st, a, c): put(eng, st, a[0], rope(eng, st, a[0]) + rope(eng, st, a[1])); return a[0]
    @model(S + r'(operator\+=|append)\(char const\*\)$')
    def _(eng, st, a, c): put(eng, st, a[0], rope(eng, st, a[0]) + text(eng, st, a[1])); return a[0]
    @model(S + r'(operator\+=|push_back)\(char\)$')
    def _(eng, st, a, c): put(eng, st, a[0], rope(eng, st, a[0]) + Rope([Lit([a[1] if isint(a[1]) else simp(bv(a[1], 8))])])); return a[0]
    @model(S + r'(size|length)\(\) const$')
    def _(eng, st, a, c): return simp(rope(eng, st, a[0]).len())
    @model(S + r'empty\(\) const$')
    def _(eng, st, a, c): n = simp(rope(eng, st, a[0]).len()); return n == 0 if isint(n) else simpb(n == 0)
    @model(S + r'(operator\[\]|at)\(unsigned long\)( const)?$')
    def _(eng, st, a, c):
        v = eng.get_abs(st, a[0], BA, 'string'); return Ptr(v.buf, a[1])
    @model(S + r'(front)\(\)( const)?$')
    def _(eng, st, a, c): return Ptr(eng.get_abs(st, a[0], BA, 'string').buf, 0)
    @model(S + r'c_str\(\) const$|' + S + r'data\(\) const$')
    def _(eng, st, a, c): return Ptr(eng.get_abs(st, a[0], BA, 'string').buf, 0)
    @model(S + r'compare\(STR const&\) const$')
    def _(eng, st, a, c): r = req(eng, st, rope(eng, st, a[0]), rope(eng, st, a[1])); return (0 if r else 1) if isinstance(r, bool) else z3.If(r, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    @model(S + r'(find|rfind|find_first_of|find_last_of|replace|resize|substr|erase|insert)\(')
    def _(eng, st, a, c): raise Unsupported(short(c.dem))
    @model(r'^STR std::operator\+<char, .*>\((.*)\)$')
    def _(eng, st, a, c):
        ts = Q.split_targs(c.m.group(1)); rs = []
        for t, p in zip(ts, a[1:]):
            t = t.strip(); rs.append(text(eng, st, p) if t == 'char const*' else Rope([Lit([p])]) if t == 'char' else rope(eng, st, p))
        put(eng, st, a[0], rs[0] + rs[1])
    @model(r'^bool std::operator(==|!=)<char, .*>\((.*)\)$')
    def _(eng, st, a, c):
        ts = Q.split_targs(c.m.group(2)); rs = [text(eng, st, p) if t.strip() == 'char const*' else rope(eng, st, p) for t, p in zip(ts, a)]
        r = req(eng, st, *rs)
        if c.m.group(1) == '!=': r = not r if isinstance(r, bool) else simpb(z3.Not(r))
        return r
    @model(r'^std::__cxx11::to_string\((int|unsigned int|long|unsigned long)\)$')
    def _(eng, st, a, c):
        A('std::to_string(n) is the decimal text of n, a function of n that is injective (libstdc++)'); w = 64 if 'long' in c.m.group(1) else 32; x = bv(simp(bv(a[1], w)), w); r, n = sym('DEC%d' % w, x); st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 20))); put(eng, st, a[0], r)
    @model(r'^(tolower|toupper)$')
    def _(eng, st, a, c):
        A('tolower/toupper in the C locale (libc)'); x = bv(a[0], 32); lo, hi, d = (65, 90, 32) if c.m.group(1) == 'tolower' else (97, 122, -32); return simp(z3.If(z3.And(x >= lo, x <= hi), x + d, x))
    # ---------------------------------------------------------------- std::pair<const string, string>, std::map<string, string>
    @model(r'^std::pair<STR( const)?, STR >::pair<(.*)>\((.*)\)$')
    def _(eng, st, a, c):
        ts = Q.split_targs(c.m.group(3))
        for k, (t, p) in enumerate(zip(ts, a[1:])):
            put(eng, st, Ptr(a[0].obj, add64(a[0].off, 32*k)), text(eng, st, p) if re.search(r'char (const)? ?\(&&?\) ?\[|char const\* ?(const)?&', t) else rope(eng, st, p))
    @model(r'^std::pair<STR( const)?, STR >::~pair\(\)$')
    def _(eng, st, a, c): return None
    M = r'^std::map<STR, STR, std::less<STR >, std::allocator<std::pair<STR const, STR > > >::'
    @model(M + r'map\(std::initializer_list<')
    def _(eng, st, a, c):
        n = a[2] if isint(a[2]) else eng.conc(st, a[2])
        if n is None: raise Unsupported('map of symbolic size')
        d = {}
        for k in range(n):
            e = Ptr(a[1].obj, add64(a[1].off, 64*k)); kk = key(eng, st, e)
            if kk not in d: d[kk] = newstr(eng, st, rope(eng, st, Ptr(e.obj, add64(e.off, 32))))
        eng.put_abs(st, a[0], GMap(d), 48)
    @model(M + r'map\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], GMap(), 48)
    @model(M + r'(map|operator=)\((std::map<.*)(const&|&&)\)$')
    def _(eng, st, a, c):
        m = eng.get_abs(st, a[1], GMap, 'map'); eng.put_abs(st, a[0], GMap({k: newstr(eng, st, rope(eng, st, p)) for k, p in m.d.items()}), 48); return a[0]
    @model(M + r'~map\(\)$')
    def _(eng, st, a, c): return None
    @model(M + r'operator\[\]\(')
    def _(eng, st, a, c):
        m = eng.get_abs(st, a[0], GMap, 'map'); k = key(eng, st, a[1])
        if k not in m.d: m = GMap(m.d); m.d[k] = newstr(eng, st, Rope()); eng.put_abs(st, a[0], m, 48)
        return m.d[k]
    @model(M + r'at\(')
    def _(eng, st, a, c):
        m = eng.get_abs(st, a[0], GMap, 'map'); k = key(eng, st, a[1])
        if k not in m.d: raise Unsupported('map::at of a missing key')
        return m.d[k]
    # ---------------------------------------------------------------- std::vector<string> of constants, unordered_map<Type, string>
    V = r'^std::vector<STR, std::allocator<STR > >::'
    @model(V + r'vector\(std::initializer_list<')
    def _(eng, st, a, c):
        n = a[2] if isint(a[2]) else eng.conc(st, a[2]); o = Ptr(eng.alloc(st, 'vector data', 32*n), 0)
        for k in range(n): put(eng, st, Ptr(o.obj, 32*k), rope(eng, st, Ptr(a[1].obj, add64(a[1].off, 32*k))))
        eng.put_abs(st, a[0], GVec((o, n)), 24)
    @model(V + r'(begin|end|cbegin|cend)\(\)( const)?$')
    def _(eng, st, a, c): o, n = vec(eng, st, a[0]); return Ptr(o.obj, 0 if 'begin' in c.m.group(1) else 32*n)
    @model(V + r'size\(\) const$')
    def _(eng, st, a, c): return vec(eng, st, a[0])[1]
    @model(V + r'empty\(\) const$')
    def _(eng, st, a, c): return vec(eng, st, a[0])[1] == 0
    @model(V + r'operator\[\]\(')
    def _(eng, st, a, c): o, n = vec(eng, st, a[0]); return Ptr(o.obj, mul32(a[1]))
    @model(V + r'vector\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], GVec((Ptr(eng.alloc(st, 'vector data', 0), 0), 0)), 24)
    @model(V + r'~vector\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^__gnu_cxx::__normal_iterator<STR const\*, .*> std::find<__gnu_cxx::__normal_iterator<STR const\*, .*>\(')
    def _(eng, st, a, c):
        b, e, p = a[0], a[1], a[2]; b = asp(eng, st, b); e = asp(eng, st, e); want = rope(eng, st, p); out = []; cur = st
        for k in range(b.off, e.off, 32):
            r = req(eng, cur, rope(eng, cur, Ptr(b.obj, k)), want)
            if r is True: out.append((cur, ('ret', Ptr(b.obj, k)))); return out
            if r is False: continue
            s2 = cur.fork(); s2.assume(r); cur = cur.fork(); cur.assume(z3.Not(r))
            if eng.check(s2)[0] != 'unsat': out.append((s2, ('ret', Ptr(b.obj, k))))
            if eng.check(cur)[0] == 'unsat': return out
        out.append((cur, ('ret', Ptr(b.obj, e.off)))); return out
    U = r'^std::unordered_map<gp::FieldDescriptor::Type, STR, .*>::'
    @model(r'^std::pair<gp::FieldDescriptor::Type const, STR >::pair<(.*)>\((.*)\)$')
    def _(eng, st, a, c):
        t = eng.load(st, a[1], 4); eng.store(st, a[0], 4, t); put(eng, st, Ptr(a[0].obj, add64(a[0].off, 8)), text(eng, st, a[2]) if 'char' in Q.split_targs(c.m.group(2))[1].replace('char_traits', '').replace(STR, '') else rope(eng, st, a[2]))
    @model(r'^std::pair<gp::FieldDescriptor::Type const, STR >::~pair\(\)$')
    def _(eng, st, a, c): return None
    @model(U + r'unordered_map\(std::initializer_list<')
    def _(eng, st, a, c):
        n = a[2] if isint(a[2]) else eng.conc(st, a[2]); d = {}
        for k in range(n):
            e = Ptr(a[1].obj, add64(a[1].off, 40*k)); t = eng.load(st, e, 4); o = Ptr(eng.alloc(st, 'node', 48), 0); eng.store(st, o, 4, t); put(eng, st, Ptr(o.obj, 8), rope(eng, st, Ptr(e.obj, add64(e.off, 8)))); d.setdefault(t, o)
        eng.put_abs(st, a[0], GMap(d), 56)
    @model(U + r'~unordered_map\(\)$')
    def _(eng, st, a, c): return None
    @model(U + r'(find|count)\(')
    def _(eng, st, a, c):
        m = eng.get_abs(st, a[0], GMap, 'table'); t = eng.load(st, a[1], 4); out = []; cur = st; cnt = c.m.group(1) == 'count'
        if isint(t): return (1 if t in m.d else 0) if cnt else m.d.get(t, NULL)
        for k, p in m.d.items():
            s2 = cur.fork(); s2.assume(bv(t, 32) == k); cur = cur.fork(); cur.assume(bv(t, 32) != k)
            if eng.check(s2)[0] != 'unsat': out.append((s2, ('ret', 1 if cnt else p)))
        if eng.check(cur)[0] != 'unsat': out.append((cur, ('ret', 0 if cnt else NULL)))
        return out
    @model(U + r'(end|cend)\(\)( const)?$|^decltype.* std::c?end<std::unordered_map<gp::FieldDescriptor::Type')
    def _(eng, st, a, c): return NULL
    @model(U + r'at\(')
    def _(eng, st, a, c):
        m = eng.get_abs(st, a[0], GMap, 'table'); t = eng.load(st, a[1], 4)
        if isint(t) and t in m.d: return Ptr(m.d[t].obj, 8)
        raise Unsupported('table::at')
    # ---------------------------------------------------------------- protobuf
    @model(r'^gp::io::Printer::Print\(std::map<')
    def _(eng, st, a, c): emit(eng, st, expand(eng, st, cs(eng, st, a[2]), eng.get_abs(st, a[1], GMap, 'variables')))
    @model(r'^void gp::io::Printer::Print<.*>\(char const\*')
    def _(eng, st, a, c):
        if len(a) > 2: raise Unsupported('variadic Print')
        emit(eng, st, expand(eng, st, cs(eng, st, a[1]), GMap()))
    @model(r'^gp::io::Printer::(PrintRaw|WriteRaw)\(')
    def _(eng, st, a, c): raise Unsupported(c.dem)
    @model(r'^gp::io::Printer::(Indent|Outdent)\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^std::__shared_ptr_access<gp::io::Printer.*>::operator->\(\) const$')
    def _(eng, st, a, c): return Ptr(eng.the_printer, 0)
    @model(r'^gp::(Descriptor|FieldDescriptor|EnumDescriptor|FileDescriptor|EnumValueDescriptor)::(\w+)(\[abi:cxx11\])?\((int)?\) const$')
    def _(eng, st, a, c): return eng.desc(eng, st, c.m.group(1), c.m.group(2), a)
    @model(r'^__assert_fail$')
    def _(eng, st, a, c): eng.fail(st, 'assertion-holds', 'assert'); raise PathEnd()
    eng.models[:] = eng.models[base:] + eng.models[:base]
def emit(eng, st, r): st.trace = st.trace + (('out', r),)
def asp(eng, st, p): return p.p if isinstance(p, PInt) else p
def mul32(x): return x*32 if isint(x) else simp(bv(x, 64)*32)
def vec(eng, st, p): v = eng.get_abs(st, p, GVec, 'vector'); return v.l
def cs(eng, st, p): return bytes(Q.cstr(eng, st, asp(eng, st, p)))
def text(eng, st, p):
    p = asp(eng, st, p)
    if p.obj is not None and p.obj.kind == 'buf': return sub_rope(st.mem[p.obj]['rope'], p.off, sub64(st.mem[p.obj]['rope'].len(), p.off))
    return lit(cs(eng, st, p))
