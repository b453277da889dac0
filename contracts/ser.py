"""Contracts of the protobuf serializer (src/protobuf): spec functions, contracts, goal builders."""
import re
import z3
from rope import *
from sym import *
import sym as S, qtmodels as Q, build
from qtmodels import Var, Str, Lst, SymSeg, UMap, AMap, rope_of, share, mkba, put_ba
from vrun import Goal

MO = ('mo', 'src/protobuf/qprotobufmetaobject.cpp', build.PB)
SPECS = [MO, ('ser', 'src/protobuf/qprotobufserializer.cpp', build.PB), ('mp', 'src/protobuf/qprotobufmetaproperty.cpp', build.PB),
         ('vtypes', build.VERIF + '/native/vtypes.cpp', ['-fno-access-control'])]
ASRV = 'aser', 'src/protobuf/qabstractprotobufserializer.cpp', build.PB

OOR = '_ZTISt12out_of_range'; INV = '_ZTISt16invalid_argument'
VARINT, FIX64, LEN, FIX32 = 0, 1, 2, 5
# public field type -> (kind, width in bits, wire type)
SCALARS = {
 'int32': ('plain', 32, VARINT), 'int64': ('plain', 64, VARINT), 'uint32': ('plain', 32, VARINT), 'uint64': ('plain', 64, VARINT),
 'sint32': ('zigzag', 32, VARINT), 'sint64': ('zigzag', 64, VARINT), 'bool': ('bool', 8, VARINT),
 'fixed32': ('fixed', 32, FIX32), 'sfixed32': ('fixed', 32, FIX32), 'float': ('fixed', 32, FIX32),
 'fixed64': ('fixed', 64, FIX64), 'sfixed64': ('fixed', 64, FIX64), 'double': ('fixed', 64, FIX64)}
LISTS = [k for k in SCALARS if k != 'bool']

def type_names(run):
    """C++ type behind every public field type name, from the IR of native/vtypes.cpp"""
    m = run.mods['vtypes']; out = {}
    for n, f in m.fns.items():
        if n.startswith('vt_'):
            f.parse()
            for b in f.blocks.values():
                for i in b:
                    if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                        mm = re.match(r'^int qMetaTypeId<(.+)>\(\)$', m.dem(i.a[0][1]))
                        if mm: out[n[3:]] = Q.norm_t(mm.group(1))
    return out

def tnames(eng):
    r = eng.run_ctx
    if not hasattr(r, '_tn'): r._tn = type_names(r)
    return r._tn

# ------------------------------------------------------------------ spec functions
def zx(x, w):
    return x if isint(x) else (x if w == 64 else z3.ZeroExt(64 - w, x))
def zigzag(x, w):
    if isint(x): return ((x << 1) ^ (M(w) if x >> (w-1) else 0)) & M(w)
    return (x << 1) ^ (x >> (w-1))
def unzigzag(u, w):
    return z3.LShR(u, 1) ^ (-(u & 1))
def wire_word(kind, w, x):
    """64-bit number whose minimal varint encodes x (varint kinds)"""
    if kind == 'plain': return zx(x, w)
    if kind == 'zigzag': return zx(zigzag(x, w), w)
    if kind == 'bool': return z3.If(bv(x, 8) != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if not isint(x) else int(x != 0)
def enc(eng, kind, w, x):
    if kind == 'fixed': return Rope([Lit(eng.split_bytes(x, w//8))])
    return Rope([Vi(simp(wire_word(kind, w, x)))])
def header_word(idx, wt):
    """idx: 32-bit term"""
    if isint(idx): return (idx << 3) | wt
    return simp(z3.ZeroExt(32, (idx << 3) | wt))
def fixed_bytes(arr, off, n):
    return z3.Concat(*[z3.Select(arr, B64(add64(off, i))) for i in reversed(range(n))])
def dec_val(kind, w, v64):
    """decoded value from the 64-bit varint value"""
    if kind == 'bool': w = 32
    u = v64 if w == 64 else z3.Extract(w-1, 0, v64)
    return unzigzag(u, w) if kind == 'zigzag' else u

# ------------------------------------------------------------------ meta object models
class MProp:
    __slots__ = ('mo', 'idx')
    def __init__(s, mo, idx): s.mo = mo; s.idx = idx
    def __repr__(s): return 'MProp(%s)' % (s.idx,)
class Meta:
    """abstract message: value(eng, st, idx) -> Var of property idx ; tid(idx)"""
    def __init__(s, value=None, tid=None): s.value = value; s.tid = tid

def mprop(eng, st, p):
    v = eng.get_abs(st, p, None, 'QMetaProperty')
    if not isinstance(v, MProp): raise Unsupported('QMetaProperty %r' % (v,))
    return v
def install_meta(eng):
    model = eng.model
    eng.meta = None
    @model(r'^QMetaProperty::QMetaProperty\(QMetaProperty (const&|&&)\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 32, mprop(eng, st, a[1]))
    @model(r'^QMetaProperty::operator=\(QMetaProperty (const&|&&)\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 32, mprop(eng, st, a[1])); return a[0]
    @model(r'^QMetaProperty::QMetaProperty\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 32, MProp(None, None))
    @model(r'^QMetaObject::property\(int\) const$')
    def _(eng, st, a, c): eng.store(st, a[0], 32, MProp(a[1], a[2]))
    @model(r'^QMetaObject::propertyCount\(\) const$')
    def _(eng, st, a, c):
        n = fbv('propcount', 32); st.assume(n >= 0); return n
    @model(r'^QMetaProperty::(name|typeName)\(\) const$')
    def _(eng, st, a, c):
        m = mprop(eng, st, a[0]); return Ptr(Obj('propname', None, 'propname', (c.m.group(1), m)), 0)
    @model(r'^QMetaProperty::(userType|type)\(\) const$')
    def _(eng, st, a, c): return eng.meta.tid(mprop(eng, st, a[0]).idx)
    @model(r'^QMetaProperty::read\(QObject const\*\) const$|^QMetaProperty::readOnGadget\(void const\*\) const$')
    def _(eng, st, a, c):
        m = mprop(eng, st, a[1]); st.ev('read', m.idx, a[2]); eng.setv(st, a[0], eng.meta.value(eng, st, m.idx))
    @model(r'^QMetaProperty::write\(QObject\*, QVariant const&\) const$|^QMetaProperty::writeOnGadget\(void\*, QVariant const&\) const$')
    def _(eng, st, a, c):
        m = mprop(eng, st, a[0]); st.ev('write', m.idx, a[1], eng.V(st, a[2])); return True
    @model(r'^QMetaProperty::(isValid|isReadable|isWritable)\(\) const$')
    def _(eng, st, a, c): return True
    @model(r'^QObject::property\(char const\*\) const$')
    def _(eng, st, a, c):
        p = a[2]
        if p.obj is None or p.obj.kind != 'propname': raise Unsupported('property name %r' % (p,))
        m = p.obj.info[1]; st.ev('read', m.idx, a[1]); eng.setv(st, a[0], eng.meta.value(eng, st, m.idx))
    @model(r'^QObject::setProperty\(char const\*, QVariant const&\)$')
    def _(eng, st, a, c):
        p = a[1]
        if p.obj is None or p.obj.kind != 'propname': raise Unsupported('property name %r' % (p,))
        st.ev('write', p.obj.info[1].idx, a[0], eng.V(st, a[2])); return True
    @model(r'^QMetaProperty::(enumerator)\(\) const$')
    def _(eng, st, a, c): return None

# ------------------------------------------------------------------ fixtures
def cfn(eng, name):
    f = eng.find_fn(name)
    if f is None: raise Unsupported('missing ' + name)
    return f
def one(eng, rx, mangled=False):
    fs = eng.by_dem(rx)
    if not fs: raise Unsupported('no function matches ' + rx)
    return fs[0]
def run1(eng, st, fn, args, what=''):
    """run a function expected to return on exactly one path -> (state, value)"""
    ub, eng.check_ub = eng.check_ub, eng.check_ub
    rs = [(s, o) for s, o in eng.run(st, fn, args) if o[0] == 'ret']
    if len(rs) != 1: raise Unsupported('%s: %d return paths' % (what or fn.dem, len(rs)))
    return rs[0][0], rs[0][1][1]

def base(eng):
    """state after the serializer's constructor: -> (state, d pointer, q pointer)"""
    st = State()
    q = eng.alloc(st, 'QProtobufSerializer', 64, 'heap', {'isnull': False}); d = eng.alloc(st, 'QProtobufSerializerPrivate', 64)
    fn = one(eng, r'QProtobufSerializerPrivate::QProtobufSerializerPrivate\(QtProtobuf::QProtobufSerializer\*\)$')
    st, _ = run1(eng, st, fn, [Ptr(d, 0), Ptr(q, 0)], 'constructor')
    # QProtobufSerializer: vtable pointer, then the d pointer
    eng.store(st, Ptr(q, 8), 8, Ptr(d, 0))
    vt = '_ZTVN10QtProtobuf19QProtobufSerializerE'
    if any(vt in m.globs for m in eng.mods): eng.store(st, Ptr(q, 0), 8, Ptr(eng.global_ptr(st, eng.mods[0], vt).obj, 16))
    return st, Ptr(d, 0), Ptr(q, 0)

def qobj(eng, st, name):
    return Ptr(eng.alloc(st, name, None, 'heap', {'isnull': False}), 0)

QBA_MAX = (1 << 31) - 26      # QByteArray: MaxAllocSize - sizeof(QArrayData) - 1
def symbytes(eng, st, name, maxlen=QBA_MAX):
    """arbitrary byte array value: -> (BA, arr, n)"""
    arr = farr(name); n = fbv(name + '_n', 64); st.assume(z3.ULE(n, maxlen))
    buf = eng.new_buf(st, Rope([Sl(arr, 0, n)]), name)
    eng.inputs[name] = Rope([Sl(arr, 0, n)])
    return BA(buf), arr, n

def iter_at(eng, st, ba, n, p):
    """iterator over ba standing at offset p (0 <= p <= n), made by the real constructor and operator+="""
    hold = eng.alloc(st, 'container', 8); eng.put_abs(st, Ptr(hold, 0), share(st, ba), 8)
    it = eng.alloc(st, 'it', sizeof_it(eng))
    st, _ = run1(eng, st, cfn(eng, 'v_it_new'), [Ptr(it, 0), Ptr(hold, 0)], 'iterator constructor')
    if not (isint(p) and p == 0):
        st.assume(z3.ULE(p, B64(n)))
        st, _ = run1(eng, st, cfn(eng, 'v_it_adv'), [Ptr(it, 0), simp(z3.Extract(31, 0, p))], 'iterator advance')
    return st, Ptr(it, 0)
def sizeof_it(eng):
    return 64
def it_pos(eng, st, it):
    s, v = run1(eng, st, cfn(eng, 'v_it_pos'), [it], 'iterator position')
    if isinstance(v, PInt): v = v.p
    return v
def it_buf(eng, st, it):
    """-> (buffer object, rope, pos)"""
    v = it_pos(eng, st, it)
    if v.obj is None or v.obj.kind != 'buf': raise Unsupported('iterator into %r' % (v,))
    return v.obj, st.mem[v.obj]['rope'], v.off
def it_adv(eng, st, it, n):
    """advance by n (64-bit term < 2^31, known to fit)"""
    ob = eng.obls; eng.obls = []
    try: st, _ = run1(eng, st, cfn(eng, 'v_it_adv'), [it, simp(z3.Extract(31, 0, B64(n)))], 'iterator advance')
    finally: eng.obls = ob
    return st

def metaprop(eng, st, idx, mo=None):
    o = eng.alloc(st, 'metaProperty', 64)
    src = eng.alloc(st, 'qmp', 32); eng.store(st, Ptr(src, 0), 32, MProp(mo, None))
    nm = eng.alloc(st, 'json', 8); eng.put_abs(st, Ptr(nm, 0), Str(Rope()), 8)
    st, _ = run1(eng, st, cfn(eng, 'v_mp_new'), [Ptr(o, 0), Ptr(src, 0), idx, Ptr(nm, 0)], 'QProtobufMetaProperty')
    return st, Ptr(o, 0)
def mp_index(eng, st, p):
    s, v = run1(eng, st, cfn(eng, 'v_mp_idx'), [p], 'protoFieldIndex')
    return v

def field_no(eng, st, name='field'):
    i = fbv(name, 32); st.assume(z3.And(i >= 1, z3.ULE(i, (1 << 29) - 1))); eng.inputs[name] = i
    return i

HAS = z3.Function('HAS', z3.BitVecSort(32), z3.BoolSort())
PIDX = z3.Function('PIDX', z3.BitVecSort(32), z3.BitVecSort(32))
FNUM = z3.Function('FNUM', z3.BitVecSort(64), z3.BitVecSort(32))
def message(eng, st, tid=None, value=None):
    """a message of an arbitrary class: -> (state, QProtobufMetaObject*, QObject*).  propertyOrdering is an arbitrary map
    field number -> property index (HAS, PIDX); iteration i visits field number FNUM(i)."""
    smo = qobj(eng, st, 'staticMetaObject')
    npr = fbv('nfields', 64); st.assume(z3.ULT(npr, 1 << 31))
    def mk(eng, st, key):
        o = eng.alloc(st, 'node', None, 'heap')
        eng.store(st, Ptr(o, 0), 4, key); eng.store(st, Ptr(o, 8), 4, simp(PIDX(bv(key, 32)))); eng.put_abs(st, Ptr(o, 16), Str(Rope()), 8)
        return Ptr(o, 0)
    am = AMap('ordering', lambda k: HAS(bv(k, 32)), mk, npr, lambda i: simp(FNUM(B64(i))))
    po = eng.alloc(st, 'propertyOrdering', 56); eng.store(st, Ptr(po, 0), 56, am)
    mo = eng.alloc(st, 'QProtobufMetaObject', 64)
    fn = one(eng, r'QProtobufMetaObject::QProtobufMetaObject\(QMetaObject const&')
    st, _ = run1(eng, st, fn, [Ptr(mo, 0), smo, Ptr(po, 0)], 'QProtobufMetaObject')
    obj = qobj(eng, st, 'message')
    eng.meta = Meta(value or (lambda eng, st, idx: Var(None, None, tid=fbv('oldtid', 32))), tid)
    return st, Ptr(mo, 0), obj, npr
def complete(arr, n, p, L):
    return z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, B64(n) - B64(p)))
def header_at(eng, st, arr, n, p, idx, wt):
    """assume a complete header (field number idx, wire type wt) at p -> position after it"""
    L = VLEN(arr, B64(p)); st.assume(complete(arr, n, p, L)); st.assume(z3.Extract(31, 0, VVAL(arr, B64(p))) == z3.Extract(31, 0, B64(header_word(idx, wt))))
    return simp(B64(p) + L)

def require_rope(eng, st, got, want, name, info=None):
    return eng.oblige(st, rope_must_eq(eng, st, got, want), name, info, assume=False)
def rope_must_eq(eng, st, got, want):
    if Q.same_rope(got, want): return True
    lg = simp(got.len())
    # cancel common prefix / suffix pieces
    xs, ys = list(got.ps), list(want.ps)
    while xs and ys and Q.same_piece(xs[0], ys[0]): xs.pop(0); ys.pop(0)
    while xs and ys and Q.same_piece(xs[-1], ys[-1]): xs.pop(); ys.pop()
    X, Y = Rope(xs), Rope(ys)
    lx = simp(X.len())
    if isint(lx) and lx <= 64:
        return simpb(band(eqv(Y.len(), lx), *[eqv(X.at(i), Y.at(i), 8) for i in range(lx)]))
    return Q.rope_eq_cond(eng, st, X, Y)

# ------------------------------------------------------------------ contracts
NS = r'QtProtobuf::QProtobufSerializerPrivate::'
WID = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8, 'unsigned long long': 64}

def plain_ba(eng, st, p):
    v = eng.get_abs(st, p, None, 'QByteArray')
    return rope_of(eng, st, v) if isinstance(v, BA) else None

def c_serializeVarintCommon(eng, st, a, c):
    m = re.search(r'serializeVarintCommon<([^,>]+)', c.dem); w = WID.get(m.group(1))
    if w is None: return inline(eng, st, a, c)
    x = eng.load(st, a[1], w//8)
    put_ba(eng, st, a[0], Rope([Vi(simp(zx(x, w)))]))
def inline(eng, st, a, c):
    fn = eng.find_fn(c.name)
    if fn is None: raise Unsupported('no body for ' + c.dem)
    return eng.run(st, fn, a, c.depth)
def c_encodeHeader(eng, st, a, c):
    idx, wt = a[1], a[2]
    ok = True if isint(idx) and 1 <= idx < (1 << 29) else eng.prove(st, z3.And(bv(idx, 32) >= 1, bv(idx, 32) < (1 << 29)))[0] == 'proved'
    if not ok or not isint(wt) or wt > 7: return inline(eng, st, a, c)
    put_ba(eng, st, a[0], Rope([Vi(header_word(idx, wt))]))
def c_prepend(eng, st, a, c):
    r = plain_ba(eng, st, a[1])
    n = simp(r.len())
    if not isint(n) and eng.prove(st, z3.ULT(n, 1 << 31))[0] != 'proved': return inline(eng, st, a, c)
    put_ba(eng, st, a[0], Rope([Vi(n)]) + r)
def parse_it(eng, st, it):
    o, rope, p = it_buf(eng, st, it)
    if len(rope.ps) != 1 or not isinstance(rope.ps[0], Sl) or not isint(rope.ps[0].off) or rope.ps[0].off != 0: return None
    return o, rope.ps[0].arr, rope.ps[0].n, p
def c_varint(eng, st, a, c):
    m = re.search(r'deserializeVarintCommon<([^,>]+)', c.dem); w = WID.get(m.group(1))
    b = parse_it(eng, st, a[0])
    if b is None or w is None: return inline(eng, st, a, c)
    o, arr, n, p = b
    L = VLEN(arr, B64(p)); v = VVAL(arr, B64(p))
    ok = z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, B64(n) - B64(p)))
    outs = []
    s2 = st.fork(); s2.assume(z3.Not(ok))
    if eng.feasible(st, ok):
        st.assume(ok)
        st = it_adv(eng, st, a[0], L)
        outs.append((st, ('ret', simp(z3.Extract(w-1, 0, v)) if w < 64 else v)))
    if eng.check(s2)[0] != 'unsat': outs.append((s2, ('exc', Exc(OOR))))
    return outs
def hdr_ok(h):
    return z3.And(z3.LShR(h, 3) != 0, z3.Or((h & 7) == 0, (h & 7) == 1, (h & 7) == 2, (h & 7) == 5))
def c_decodeHeader(eng, st, a, c):
    b = parse_it(eng, st, a[0])
    if b is None: return inline(eng, st, a, c)
    o, arr, n, p = b
    L = VLEN(arr, B64(p)); h = z3.Extract(31, 0, VVAL(arr, B64(p)))
    ok = z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, B64(n) - B64(p)))
    outs = []
    s2 = st.fork(); s2.assume(z3.Not(ok))
    if eng.feasible(st, ok):
        st.assume(ok)
        st = it_adv(eng, st, a[0], L)
        eng.store(st, a[1], 4, simp(z3.LShR(h, 3))); eng.store(st, a[2], 4, simp(h & 7))
        outs.append((st, ('ret', simpb(hdr_ok(h)))))
    if eng.check(s2)[0] != 'unsat': outs.append((s2, ('exc', Exc(OOR))))
    return outs
def c_lenDelim(eng, st, a, c):
    b = parse_it(eng, st, a[1])
    if b is None: return inline(eng, st, a, c)
    o, arr, n, p = b
    L = VLEN(arr, B64(p)); ln = z3.ZeroExt(32, z3.Extract(31, 0, VVAL(arr, B64(p))))
    ok = z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, B64(n) - B64(p)), z3.ULE(ln, B64(n) - B64(p) - L))
    outs = []
    s2 = st.fork(); s2.assume(z3.Not(ok))
    if eng.feasible(st, ok):
        st.assume(ok)
        st = it_adv(eng, st, a[1], simp(L + ln))
        put_ba(eng, st, a[0], Rope([Sl(arr, simp(B64(p) + L), simp(ln))]))
        outs.append((st, ('ret', None)))
    if eng.check(s2)[0] != 'unsat': outs.append((s2, ('exc', Exc(OOR))))
    return outs

CONTRACTS = {
 'serializeVarintCommon': (NS + r'serializeVarintCommon<', c_serializeVarintCommon),
 'encodeHeader': (NS + r'encodeHeader\(', c_encodeHeader),
 'prependLengthDelimitedSize': (NS + r'prependLengthDelimitedSize\(', c_prepend),
 'serializeLengthDelimited': (NS + r'serializeLengthDelimited\(', c_prepend),
 'deserializeVarintCommon': (NS + r'deserializeVarintCommon<', c_varint),
 'decodeHeader': (NS + r'decodeHeader\(', c_decodeHeader),
 'deserializeLengthDelimited': (NS + r'deserializeLengthDelimited\(', c_lenDelim),
}

# ---- contract goals
def contract_goals():
    gs = []
    def g_varint(eng, fn):
        m = re.search(r'serializeVarintCommon<([^,>]+)', fn.dem); w = WID[m.group(1)]
        st = State(); x = fbv('value', w); eng.inputs['value'] = x
        v = eng.alloc(st, 'value', w//8); eng.store(st, Ptr(v, 0), w//8, x)
        r = eng.alloc(st, 'ret', 8)
        for s, o in eng.run(st, fn, [Ptr(r, 0), Ptr(v, 0)]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
            require_rope(eng, s, plain_ba(eng, s, Ptr(r, 0)), Rope([Vi(simp(zx(x, w)))]), 'ensures-minimal-varint')
    gs.append(('serializeVarintCommon', 0, g_varint))
    def g_hdr(eng, fn):
        st = State(); i = field_no(eng, st); 
        for wt in (0, 1, 2, 5):
            s0 = st.fork(); r = eng.alloc(s0, 'ret', 8)
            for s, o in eng.run(s0, fn, [Ptr(r, 0), i, wt]):
                eng.posts += 1
                if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
                require_rope(eng, s, plain_ba(eng, s, Ptr(r, 0)), Rope([Vi(header_word(i, wt))]), 'ensures-header-word', 'wire type %d' % wt)
    gs.append(('encodeHeader', 1, g_hdr))
    def g_prep(eng, fn):
        st = State(); ba, arr, n = symbytes(eng, st, 'data'); d = eng.alloc(st, 'data', 8); eng.put_abs(st, Ptr(d, 0), share(st, ba), 8)
        r = eng.alloc(st, 'ret', 8)
        for s, o in eng.run(st, fn, [Ptr(r, 0), Ptr(d, 0)]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
            require_rope(eng, s, plain_ba(eng, s, Ptr(r, 0)), Rope([Vi(n), Sl(arr, 0, n)]), 'ensures-length-prefix-and-bytes')
            require_rope(eng, s, plain_ba(eng, s, Ptr(d, 0)), Rope([Sl(arr, 0, n)]), 'frame-argument-unchanged')
    gs.append(('prependLengthDelimitedSize', 1, g_prep))
    gs.append(('serializeLengthDelimited', 2, g_prep))
    def dec_setup(eng):
        st = State(); ba, arr, n = symbytes(eng, st, 'data'); p = fbv('pos', 64); eng.inputs['pos'] = p
        st, it = iter_at(eng, st, ba, n, p)
        return st, ba, arr, n, p, it
    def g_dvar(eng, fn):
        m = re.search(r'deserializeVarintCommon<([^,>]+)', fn.dem); w = WID[m.group(1)]
        st, ba, arr, n, p, it = dec_setup(eng)
        L = VLEN(arr, p); v = VVAL(arr, p)
        ok = z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, n - p))
        for s, o in eng.run(st, fn, [it]):
            eng.posts += 1
            if o[0] == 'ret':
                eng.oblige(s, ok, 'returns-only-if-complete')
                eng.oblige(s, bv(o[1], w) == (z3.Extract(w-1, 0, v) if w < 64 else v), 'ensures-value', assume=False)
                _, _, q = it_buf(eng, s, it)
                eng.oblige(s, B64(q) == p + L, 'ensures-position', assume=False)
            else:
                eng.oblige(s, z3.Not(ok), 'throws-only-if-incomplete', assume=False)
                eng.oblige(s, o[1].ty == OOR, 'exception-type', str(o[1].ty), assume=False)
    gs.append(('deserializeVarintCommon', 0, g_dvar))
    def g_dhdr(eng, fn):
        st, ba, arr, n, p, it = dec_setup(eng)
        fi = eng.alloc(st, 'fieldIndex', 4); wt = eng.alloc(st, 'wireType', 4)
        eng.store(st, Ptr(fi, 0), 4, fbv('fi0', 32)); eng.store(st, Ptr(wt, 0), 4, fbv('wt0', 32))
        L = VLEN(arr, p); h = z3.Extract(31, 0, VVAL(arr, p))
        ok = z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, n - p))
        for s, o in eng.run(st, fn, [it, Ptr(fi, 0), Ptr(wt, 0)]):
            eng.posts += 1
            if o[0] == 'ret':
                eng.oblige(s, ok, 'returns-only-if-complete')
                eng.oblige(s, zb(o[1]) == hdr_ok(h), 'ensures-validity', assume=False)
                eng.oblige(s, bv(eng.load(s, Ptr(fi, 0), 4), 32) == z3.LShR(h, 3), 'ensures-field-number', assume=False)
                eng.oblige(s, bv(eng.load(s, Ptr(wt, 0), 4), 32) == (h & 7), 'ensures-wire-type', assume=False)
                _, _, q = it_buf(eng, s, it)
                eng.oblige(s, B64(q) == p + L, 'ensures-position', assume=False)
            else:
                eng.oblige(s, z3.Not(ok), 'throws-only-if-incomplete', assume=False)
                eng.oblige(s, o[1].ty == OOR, 'exception-type', str(o[1].ty), assume=False)
    gs.append(('decodeHeader', 1, g_dhdr))
    def g_dlen(eng, fn):
        st, ba, arr, n, p, it = dec_setup(eng)
        r = eng.alloc(st, 'ret', 8)
        L = VLEN(arr, p); ln = z3.ZeroExt(32, z3.Extract(31, 0, VVAL(arr, p)))
        ok = z3.And(L != 0, z3.ULE(L, 10), z3.ULE(L, n - p), z3.ULE(ln, n - p - L))
        for s, o in eng.run(st, fn, [Ptr(r, 0), it]):
            eng.posts += 1
            if o[0] == 'ret':
                eng.oblige(s, ok, 'returns-only-if-complete')
                require_rope(eng, s, plain_ba(eng, s, Ptr(r, 0)), Rope([Sl(arr, simp(p + L), ln)]), 'ensures-bytes')
                _, _, q = it_buf(eng, s, it)
                eng.oblige(s, B64(q) == p + L + ln, 'ensures-position', assume=False)
            else:
                eng.oblige(s, z3.Not(ok), 'throws-only-if-incomplete', assume=False)
                eng.oblige(s, o[1].ty == OOR, 'exception-type', str(o[1].ty), assume=False)
    gs.append(('deserializeLengthDelimited', 1, g_dlen))
    return gs

def setup(run, extra=(), only=None):
    """load modules, prove the helper contracts -> list of proved contract names"""
    run.load(*(SPECS + list(extra)))
    run.models.append(install_meta)
    run.contracts.update(CONTRACTS)
    e = run.engine()
    goals = []
    for name, lv, gf in contract_goals():
        if only is not None and name not in only: continue
        rx = CONTRACTS[name][0]
        for f in e.by_dem(rx):
            goals.append(Goal('contract %s' % f.dem, lambda eng, f=f, gf=gf: gf(eng, f), lv, contract=name))
    return run.prove_contracts(goals)
