"""Assumed contracts (models) of the Qt / libstdc++ functions the repository calls.

Every model used in a run is reported as trusted.  QByteArray and QString are byte ropes (QString: its UTF-8
form), QList a sequence, QVariant a (type, value) pair.
"""
import re, itertools
import z3
from rope import *
from sym import *
import sym as S

# ------------------------------------------------------------------ C++ type names
SC = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
      'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}

def split_targs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def targs(t):
    i = t.index('<'); return split_targs(t[i+1:t.rindex('>')])

def norm_t(t):
    t = t.strip()
    t = re.sub(r'\bconst\b', '', t).strip()
    while t.endswith('&'): t = t[:-1].strip()
    t = re.sub(r'\s+', ' ', t)
    t = t.replace('QtProtobuf::int32_placeholder', '')
    if t == 'QStringList': return 'QList<QString>'
    if t == 'QByteArrayList': return 'QList<QByteArray>'
    t = t.replace('> >', '>>').replace('> >', '>>')
    return t

def under(t):
    """scalar type behind transparent<>"""
    t = norm_t(t)
    m = re.match(r'^QtProtobuf::transparent<(.+), ?(\d+)>$', t)
    return m.group(1) if m else t

ENUMS = {'QNetworkReply::NetworkError': 4, 'QtProtobuf::QGrpcStatus::StatusCode': 4}
def sc_size(t):
    u = under(t)
    if u in SC: return SC[u]
    if u.endswith('*'): return 8
    if u in ENUMS: return ENUMS[u]
    return None

# ------------------------------------------------------------------ values
class Str:
    __slots__ = ('rope', 'null')
    def __init__(s, rope, null=False): s.rope = rope; s.null = null
    def __repr__(s): return 'Str(%r)' % (s.rope,)

def maynull(eng, st, v, rope):
    """isNull(): an empty value of unknown origin may be the null one"""
    if v.null is not False: return v.null
    e = eqv(rope.len(), 0)
    if e is False: return False
    key = ('null', id(rope)) if len(rope.ps) != 1 or not isinstance(rope.ps[0], Sl) else ('null', rope.ps[0].arr.get_id())
    b = eng.__dict__.setdefault('nullbits', {}).get(key)
    if b is None: b = eng.nullbits[key] = (z3.FreshConst(z3.BoolSort(), 'null'), rope)
    if key[1] == id(rope): eng.taint(st, 'isNull() of a computed value')
    return simpb(z3.And(zb(e), b[0]))

class Var:
    """QVariant: tn = C++ type name (None: invalid), val, tid overrides the numeric type id"""
    __slots__ = ('tn', 'val', 'tid', 'null')
    def __init__(s, tn=None, val=None, tid=None, null=False): s.tn = tn; s.val = val; s.tid = tid; s.null = null
    def __repr__(s): return 'Var(%s,%r)' % (s.tn, s.val)

class SymSeg:
    __slots__ = ('name', 'n', 'at', 'st')
    def __init__(s, name, n, at=None, st=None): s.name = name; s.n = n; s.at = at; s.st = st    # st: at with (eng, state, index)
    def __repr__(s): return 'Seg(%s,%s)' % (s.name, s.n)

class Lst:
    __slots__ = ('segs', 'obj', 'tn')
    def __init__(s, segs, tn=None): s.segs = tuple(x for x in segs if not (isinstance(x, tuple) and not x)); s.obj = None; s.tn = tn
    def len(s):
        t = 0
        for g in s.segs: t = add64(t, len(g) if isinstance(g, tuple) else g.n)
        return t
    def append(s, v):
        if s.segs and isinstance(s.segs[-1], tuple): return Lst(s.segs[:-1] + (s.segs[-1] + (v,),), s.tn)
        return Lst(s.segs + ((v,),), s.tn)
    def concat(s, o):
        return Lst(s.segs + o.segs, s.tn)
    def __repr__(s): return 'Lst%r' % (s.segs,)

# ------------------------------------------------------------------ helpers
def B(eng, st, p, what='QByteArray'):
    v = eng.get_abs(st, p, None, what)
    if isinstance(v, Ptr) or not isinstance(v, BA): raise Unsupported('%s: %r at %r' % (what, v, p))
    return v
def rope_of(eng, st, ba):
    return st.mem[ba.buf]['rope']
def share(st, ba):
    st.wcells(ba.buf)['shared'] = True
    return ba
def mkba(eng, st, rope, null=False):
    return BA(eng.new_buf(st, rope, 'ba'), null)
def put_ba(eng, st, p, rope, null=False):
    eng.put_abs(st, p, mkba(eng, st, rope, null), 8)
def i32len(r):
    n = simp(r.len())
    return n & 0xffffffff if isint(n) else simp(z3.Extract(31, 0, n))
def sx(x, w=32, eng=None, st=None):
    """sign-extend a w-bit value to 64"""
    if isint(x): return sgn(x, w) & M(64)
    if eng is not None: return simp(eng.extend(st, x, w, 64, True))
    return simp(z3.SignExt(64 - w, x))
def cstr(eng, st, p):
    """bytes of a C string constant"""
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind in ('glob', 'stack', 'heap'):
        out = []
        off = p.off
        while True:
            b = eng.byte_at(st, p.obj, off + len(out))
            if b is None or not isint(b): raise Unsupported('C string not constant')
            if b == 0: return bytes(out)
            out.append(b)
            if len(out) > 4096: raise Unsupported('C string too long')
    if isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.info, bytes): return p.obj.info
    raise Unsupported('C string %r' % (p,))
def ret_obj(ctx, args):
    """index of first real argument and sret pointer"""
    return args[0], args[1:]

def zero_val(eng, st, tn):
    tn = norm_t(tn)
    n = sc_size(tn)
    if n: return NULL if under(tn).endswith('*') else 0
    if tn == 'QByteArray': return mkba(eng, st, Rope(), True)
    if tn == 'QString': return Str(Rope(), True)
    if tn.startswith('QList<'): return Lst((), targs(tn)[0])
    if tn == 'QVariant': return Var()
    f = ZERO.get(tn.split('<')[0])
    if f: return f(eng, st, tn)
    raise Unsupported('default value of ' + tn)
ZERO = {}
SIZES = {'QByteArray': 8, 'QString': 8, 'QVariant': 16}
def cpp_size(tn):
    tn = norm_t(tn)
    n = sc_size(tn)
    if n: return n
    if tn in SIZES: return SIZES[tn]
    h = tn.split('<')[0]
    if h in ('QList', 'QMap', 'QPointer_'): return 8
    if h in ('QSharedPointer', 'std::shared_ptr'): return 16
    if h in CPPSIZE: return CPPSIZE[h]
    raise Unsupported('size of ' + tn)
CPPSIZE = {}
def read_val(eng, st, p, tn):
    tn = norm_t(tn)
    n = sc_size(tn)
    if n:
        v = eng.load(st, p, n, ('ptr',) if under(tn).endswith('*') else None)
        if isinstance(v, PInt): v = v.p
        if isint(v) and under(tn).endswith('*'): v = NULL if v == 0 else Ptr(None, v)
        return v
    v = eng.get_abs(st, p, None, 'read ' + tn)
    if isinstance(v, BA): share(st, v)
    fz = getattr(v, 'freeze', None)
    return fz(eng, st) if fz else v
def write_val(eng, st, p, tn, v):
    tn = norm_t(tn)
    eng.store(st, p, cpp_size(tn), v)
def val_obj(eng, st, tn, v, kind='heap', name=None):
    o = eng.alloc(st, name or ('val:' + tn), cpp_size(tn), kind)
    write_val(eng, st, Ptr(o, 0), tn, v)
    return Ptr(o, 0)

_TID = {}
FIXED_TID = {'bool': 1, 'int': 2, 'unsigned int': 3, 'long long': 4, 'unsigned long long': 5, 'double': 6, 'QString': 10, 'QByteArray': 12,
             'QList<QString>': 11, 'long': 32, 'short': 33, 'char': 34, 'unsigned long': 35, 'unsigned short': 36, 'unsigned char': 37, 'float': 38}
def tid_of(tn):
    tn = norm_t(tn)
    if tn in FIXED_TID: return FIXED_TID[tn]
    return _TID.setdefault(tn, 1024 + len(_TID))
def tn_of(tid):
    for d in (FIXED_TID, _TID):
        for k, v in d.items():
            if v == tid: return k
    return None
def var_tid(v):
    if v.tid is not None: return v.tid
    return 0 if v.tn is None else tid_of(v.tn)

def seg_at(eng, st, g, d):
    return g.at(d) if g.st is None else g.st(eng, st, d)
def seq_at(eng, st, l, i):
    """element i (int or BV64) of Lst l; forks are not made: the segment must be determined"""
    off = 0
    for g in l.segs:
        n = len(g) if isinstance(g, tuple) else g.n
        if isinstance(g, tuple):
            if isint(i) and isint(off):
                if i < off + n: return g[i - off]
            else:
                d = simp(sub64(i, off))
                if isint(d) and d < n: return g[d]
                for k in range(n):
                    if eng.prove(st, eqv(i, add64(off, k)))[0] == 'proved': return g[k]
        else:
            d = sub64(i, off)
            if isint(d) and isint(n):
                if d < n: return seg_at(eng, st, g, d)
            elif eng.prove(st, z3.ULT(B64(d), B64(n)))[0] == 'proved': return seg_at(eng, st, g, d)
        off = simp(add64(off, n))
    raise Unsupported('list element index not determined')

def utf8_assumption(eng):
    eng.assumptions.add('QString is represented by its UTF-8 form: decoded text is valid UTF-8 without a leading byte order mark (Qt replaces or drops anything else)')

def list_obj(st, l):
    if l.obj is None: l.obj = Obj('list', None, 'lst', l)
    return l.obj

def install(eng):
    model = eng.model
    R = lambda st, v: [(st, ('ret', v))]
    # ---------------------------------------------------------------- exceptions / memory
    @model(r'^__cxa_allocate_exception$')
    def _(eng, st, a, c): return Ptr(eng.alloc(st, 'exception', None, 'exc', None), 0)
    @model(r'^__cxa_free_exception$')
    def _(eng, st, a, c): return None
    @model(r'^__cxa_throw$')
    def _(eng, st, a, c):
        o = a[0].obj
        e = Exc(a[1].obj.name, None, getattr(o, 'info', None)); 
        return e
    @model(r'^__cxa_begin_catch$')
    def _(eng, st, a, c):
        st.caught = st.caught + (a[0].obj.info,)
        return a[0]
    @model(r'^__cxa_get_exception_ptr$')
    def _(eng, st, a, c): return a[0]
    @model(r'^__cxa_end_catch$')
    def _(eng, st, a, c):
        st.caught = st.caught[:-1]; return None
    @model(r'^__cxa_rethrow$')
    def _(eng, st, a, c):
        if not st.caught: raise Unsupported('rethrow')
        return st.caught[-1]
    @model(r'^__clang_call_terminate$|^std::terminate\(\)$')
    def _(eng, st, a, c):
        eng.fail(st, 'no-terminate', 'std::terminate reached'); return []
    @model(r'^std::(invalid_argument|out_of_range|runtime_error|length_error|logic_error|exception|domain_error)::')
    def _(eng, st, a, c): return None
    @model(r'^operator new\(unsigned long\)$|^operator new\[\]\(unsigned long\)$|^malloc$')
    def _(eng, st, a, c):
        n = a[0] if isint(a[0]) else None
        o = eng.alloc(st, 'new', n, 'heap'); st.ghost['live'] = st.ghost.get('live', frozenset()) | {o}
        return Ptr(o, 0)
    @model(r'^operator delete(\[\])?\(void\*|^free$')
    def _(eng, st, a, c):
        p = a[0]
        if isinstance(p, Ptr) and p.obj is not None:
            if p.obj in st.dead: eng.fail(st, 'no-double-free', repr(p.obj))
            st.dead = st.dead | {p.obj}
            st.ghost['live'] = st.ghost.get('live', frozenset()) - {p.obj}
        return None
    @model(r'^qt_assert(_x)?\(')
    def _(eng, st, a, c):
        eng.fail(st, 'assertion', 'Q_ASSERT fails'); return []
    @model(r'^abort$|^std::abort')
    def _(eng, st, a, c):
        eng.fail(st, 'no-abort'); return []
    @model(r'^__assert_fail$')
    def _(eng, st, a, c):
        eng.fail(st, 'assertion', 'assert fails'); return []
    @model(r'^__cxa_atexit$')
    def _(eng, st, a, c): return 0
    @model(r'^std::__throw_(\w+)')
    def _(eng, st, a, c):
        return Exc({'out_of_range': '_ZTISt12out_of_range', 'bad_function_call': '_ZTISt17bad_function_call', 'length_error': '_ZTISt12length_error'}.get(c.m.group(1).rstrip('(').split('_fmt')[0], '_ZTISt13runtime_error'))
    # ---------------------------------------------------------------- logging: no effects
    @model(r'^(QMessageLogger|QDebug|QNoDebug|QLoggingCategory|qtprotobuflog|QtProtobuf::.*log\w*\(\)|QDebugStateSaver)\b.*')
    def _(eng, st, a, c): return log_ret(eng, st, a, c)
    @model(r'^(QDebug|QNoDebug)&? .*')
    def _(eng, st, a, c): return log_ret(eng, st, a, c)
    @model(r'^(operator<<|QDebug operator<<)\(QDebug')
    def _(eng, st, a, c): return log_ret(eng, st, a, c)
    def log_ret(eng, st, a, c):
        ty = c.ins.ty if c.ins is not None else ('void',)
        if ty == ('i', 1): return False
        if ty == ('ptr',): return a[0] if a and isinstance(a[0], Ptr) else Ptr(eng.alloc(st, 'log', 64, 'heap'), 0)
        return None
    # ---------------------------------------------------------------- QByteArray
    def cell_ba(name): pass
    @model(r'^QByteArray::QByteArray\(\)$')
    def _(eng, st, a, c): put_ba(eng, st, a[0], Rope(), True)
    @model(r'^QByteArray::QByteArray\(QByteArray const&\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], share(st, B(eng, st, a[1])), 8)
    @model(r'^QByteArray::QByteArray\(QByteArray&&\)$')
    def _(eng, st, a, c):
        v = B(eng, st, a[1]); eng.put_abs(st, a[0], v, 8); put_ba(eng, st, a[1], Rope(), True)
    @model(r'^QByteArray::QByteArray\(int, char\)$')
    def _(eng, st, a, c):
        n = a[1] if isint(a[1]) else eng.conc(st, sx(a[1], 32, eng, st))
        if n is None or n > 4096: raise Unsupported('QByteArray(int,char) with symbolic size')
        put_ba(eng, st, a[0], Rope([Lit([a[2]]*n)]))
    @model(r'^QByteArray::QByteArray\(char const\*, int\)$')
    def _(eng, st, a, c):
        p, n = a[1], a[2]
        if isinstance(p, Ptr) and p.obj is None: put_ba(eng, st, a[0], Rope(), True); return
        n = simp(n)
        if not isint(n):
            k = eng.conc(st, sx(n, 32, eng, st)) 
            if k is not None: n = k & 0xffffffff
        if isint(n) and sgn(n, 32) == -1:
            put_ba(eng, st, a[0], Rope([Lit(list(cstr(eng, st, p)))])); return
        outs = []
        if p.obj.kind != 'buf':
            if not isint(n): raise Unsupported('QByteArray(ptr, symbolic n) from %r' % p)
            n = sgn(n, 32)
            bs = [eng.load(st, Ptr(p.obj, add64(p.off, i)), 1) for i in range(n)]
            put_ba(eng, st, a[0], Rope([Lit(bs)])); return
        n64 = sx(n, 32, eng, st)
        rope = st.mem[p.obj]['rope']; ln = rope.len()
        if not isint(n):
            # size -1 means strlen; other negative sizes are treated as programming errors
            eng.oblige(st, bv(n, 32) >= 0, 'copy-size-non-negative', 'size passed to QByteArray(const char*, int)')
        off = simp(p.off)
        ok = z3.And(z3.ULE(B64(off), B64(ln)), z3.ULE(B64(n64), B64(ln) - B64(off)))
        eng.oblige(st, simpb(ok), 'read-in-bounds', 'copied range lies inside the buffer')
        put_ba(eng, st, a[0], sub_rope(rope, off, n64))
    @model(r'^QByteArray::QByteArray\(char const\*\)$')
    def _(eng, st, a, c): put_ba(eng, st, a[0], Rope([Lit(list(cstr(eng, st, a[1])))]))
    @model(r'^QByteArray::~QByteArray\(\)$')
    def _(eng, st, a, c): eng.destroy(st, a[0], 8)
    @model(r'^QByteArray::(operator=|swap)\((QByteArray const&|QByteArray&&|QByteArray&)\)$')
    def _(eng, st, a, c):
        v = B(eng, st, a[1])
        if '&&' in c.dem or 'swap' in c.dem:
            w = B(eng, st, a[0]); eng.put_abs(st, a[0], v, 8); eng.put_abs(st, a[1], w, 8) if not same_cell(a[0], a[1]) else None
        else: eng.put_abs(st, a[0], share(st, v), 8)
        return a[0]
    def same_cell(p, q): return p.obj is q.obj and isint(p.off) and isint(q.off) and p.off == q.off
    def ba_edit(eng, st, p, rope):
        old = B(eng, st, p)
        if not st.mem[old.buf].get('shared'): st.dead = st.dead | {old.buf}
        eng.put_abs(st, p, mkba(eng, st, rope), 8)
        return p
    eng.ba_edit = lambda *a: ba_edit(eng, *a)
    def aslit(eng, st, p, n=None):
        """rope of a const char* argument"""
        if n is not None and not isint(n): n = eng.conc(st, sx(n, 32, eng, st))
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'buf':
            if n is None: raise Unsupported('strlen of buffer')
            return sub_rope(st.mem[p.obj]['rope'], p.off, n)
        b = cstr(eng, st, p) if n is None else [eng.load(st, Ptr(p.obj, add64(p.off, i)), 1) for i in range(n)]
        return Rope([Lit(list(b))])
    def arg_rope(eng, st, dem_args, a):
        t = dem_args[0]
        if t.startswith('QByteArray'): return rope_of(eng, st, B(eng, st, a[0]))
        if t == 'char': return Rope([Lit([a[0]])])
        if t == 'char const*': return aslit(eng, st, a[0], sgn(a[1], 32) if len(dem_args) > 1 and isint(a[1]) else (a[1] if len(dem_args) > 1 else None))
        if t == 'int' and len(dem_args) == 2:
            n = eng.conc(st, sx(a[0], 32, eng, st))
            if n is None or n > 4096: raise Unsupported('append(int,char)')
            return Rope([Lit([a[1]]*n)])
        raise Unsupported('QByteArray edit arg ' + t)
    def dargs(dem):
        return split_targs(dem[dem.index('(')+1:dem.rindex(')')])
    @model(r'^QByteArray::(append|operator\+=|push_back)\((.*)\)$')
    def _(eng, st, a, c):
        r = arg_rope(eng, st, dargs(c.dem), a[1:])
        return ba_edit(eng, st, a[0], rope_of(eng, st, B(eng, st, a[0])) + r)
    @model(r'^QByteArray::(prepend|push_front)\((.*)\)$')
    def _(eng, st, a, c):
        r = arg_rope(eng, st, dargs(c.dem), a[1:])
        return ba_edit(eng, st, a[0], r + rope_of(eng, st, B(eng, st, a[0])))
    @model(r'^(QByteArray const )?operator\+\((QByteArray const&|QByteArray&&|char|char const\*), (QByteArray const&|QByteArray&&|char|char const\*)\)$')
    def _(eng, st, a, c):
        ds = dargs(c.dem)
        r = arg_rope(eng, st, [ds[0]], [a[1]]) + arg_rope(eng, st, [ds[1]], [a[2]])
        put_ba(eng, st, a[0], r)
    @model(r'^QByteArray::(size|count|length)\(\) const$')
    def _(eng, st, a, c): return i32len(rope_of(eng, st, B(eng, st, a[0])))
    @model(r'^QByteArray::isEmpty\(\) const$')
    def _(eng, st, a, c): return eqv(rope_of(eng, st, B(eng, st, a[0])).len(), 0)
    @model(r'^QByteArray::isNull\(\) const$')
    def _(eng, st, a, c): v = B(eng, st, a[0]); return maynull(eng, st, v, rope_of(eng, st, v))
    @model(r'^QByteArray::(constData|data|operator char const\*|begin|cbegin|constBegin)\(\) const$|^QByteArray::(constData|cbegin|constBegin)\(\)')
    def _(eng, st, a, c): return Ptr(B(eng, st, a[0]).buf, 0)
    @model(r'^QByteArray::(end|cend|constEnd)\(\) const$')
    def _(eng, st, a, c):
        v = B(eng, st, a[0]); return Ptr(v.buf, simp(rope_of(eng, st, v).len()))
    def detach(eng, st, p):
        v = B(eng, st, p)
        if st.mem[v.buf].get('shared'):
            v = mkba(eng, st, rope_of(eng, st, v)); eng.put_abs(st, p, v, 8)
        return v
    @model(r'^QByteArray::(data|begin)\(\)$')
    def _(eng, st, a, c): return Ptr(detach(eng, st, a[0]).buf, 0)
    @model(r'^QByteArray::end\(\)$')
    def _(eng, st, a, c):
        v = detach(eng, st, a[0]); return Ptr(v.buf, simp(rope_of(eng, st, v).len()))
    @model(r'^QByteArray::(at|operator\[\])\((int|unsigned int)\) const$')
    def _(eng, st, a, c):
        return eng.buf_load(st, Ptr(B(eng, st, a[0]).buf, sx(a[1], 32, eng, st)), 1)
    @model(r'^QByteArray::operator\[\]\((int|unsigned int)\)$')
    def _(eng, st, a, c):
        # QByteRef {QByteArray &a; int i}
        return [(st, ('ret', [a[0], a[1]]))] if c.ins.ty[0] == 'struct' else Unsup('QByteRef')
    @model(r'^QByteArray::(back|front)\(\) const$')
    def _(eng, st, a, c):
        v = B(eng, st, a[0]); r = rope_of(eng, st, v)
        return eng.buf_load(st, Ptr(v.buf, 0 if 'front' in c.dem else sub64(r.len(), 1)), 1)
    @model(r'^QByteArray::clear\(\)$')
    def _(eng, st, a, c): put_ba(eng, st, a[0], Rope(), True)
    @model(r'^QByteArray::(reserve|squeeze|detach)\(')
    def _(eng, st, a, c): return None
    @model(r'^QByteArray::fill\(char, int\)$')
    def _(eng, st, a, c):
        n = a[2] if isint(a[2]) else eng.conc(st, sx(a[2], 32, eng, st))
        if n is None: raise Unsupported('fill')
        if sgn(n & 0xffffffff, 32) == -1: n = eng.conc(st, rope_of(eng, st, B(eng, st, a[0])).len())
        if n is None: raise Unsupported('fill')
        return ba_edit(eng, st, a[0], Rope([Lit([a[1]]*n)]))
    @model(r'^QByteArray::resize\(int\)$')
    def _(eng, st, a, c):
        r = rope_of(eng, st, B(eng, st, a[0])); n = a[1] if isint(a[1]) else eng.conc(st, sx(a[1], 32, eng, st)); l = simp(r.len())
        if n is not None and isint(l):
            if n <= l: return ba_edit(eng, st, a[0], sub_rope(r, 0, n))
            return ba_edit(eng, st, a[0], r + Rope([Lit([fbv('uninit', 8) for _ in range(n - l)])]))
        n64 = sx(a[1], 32, eng, st)
        if eng.prove(st, z3.And(bv(a[1], 32) >= 0, z3.ULE(B64(n64), B64(l))))[0] == 'proved':
            return ba_edit(eng, st, a[0], sub_rope(r, 0, n64))
        raise Unsupported('resize')
    @model(r'^QByteArray::(chop|truncate)\(int\)$')
    def _(eng, st, a, c):
        r = rope_of(eng, st, B(eng, st, a[0])); n = sx(a[1], 32, eng, st); l = r.len()
        nn = add64(0, sub64(l, n)) if 'chop' in c.dem else n
        if eng.prove(st, z3.And(B64(nn) >= 0, z3.ULE(B64(nn), B64(l))))[0] != 'proved': raise Unsupported('chop/truncate')
        return ba_edit(eng, st, a[0], sub_rope(r, 0, nn))
    def mid(eng, st, r, pos, ln):
        """QByteArray::mid semantics: fork into cases -> list of (state, rope)"""
        L = B64(r.len()); P = B64(sx(pos, 32, eng, st)); N = B64(sx(ln, 32, eng, st))
        outs = []
        # QContainerImplHelper::mid
        cases = []
        zero = z3.BitVecVal(0, 64)
        full_rest = z3.Or(N < 0, N > L - P)
        cases.append((P > L, None))                                   # null
        cases.append((z3.And(P <= L, P >= 0, full_rest), (P, L - P)))
        cases.append((z3.And(P <= L, P >= 0, z3.Not(full_rest)), (P, N)))
        cases.append((z3.And(P < 0, z3.Or(N < 0, N + P >= L)), (zero, L)))
        cases.append((z3.And(P < 0, N >= 0, N + P < L, N + P <= 0), None))
        cases.append((z3.And(P < 0, N >= 0, N + P < L, N + P > 0), (zero, N + P)))
        for cond, w in cases:
            cond = simpb(cond)
            if cond is False: continue
            if cond is not True and not eng.feasible(st, cond): continue
            s2 = st.fork()
            if cond is not True: s2.assume(cond)
            outs.append((s2, Rope() if w is None else sub_rope(r, simp(w[0]), simp(w[1])), w is None))
            if cond is True: break
        return outs
    @model(r'^QByteArray::(mid|left|right)\((int|int, int)\) const$')
    def _(eng, st, a, c):
        r = rope_of(eng, st, B(eng, st, a[1])); k = c.m.group(1)
        if k == 'mid': args = (a[2], a[3])
        elif k == 'left':
            n = bv(a[2], 32); args = (0, simp(z3.If(n < 0, z3.BitVecVal(0, 32), n)))
        else: raise Unsupported('right')
        res = []
        for s2, rr, nul in mid(eng, st, r, *args):
            put_ba(eng, s2, a[0], rr, nul); res.append((s2, ('ret', None)))
        return res
    @model(r'^QByteArray::remove\(int, int\)$')
    def _(eng, st, a, c):
        r = rope_of(eng, st, B(eng, st, a[0])); L = B64(r.len()); P = B64(sx(a[1], 32, eng, st)); N = B64(sx(a[2], 32, eng, st))
        res = []
        for cond, f in ((z3.Or(N <= 0, z3.UGE(P, L)), lambda: r),
                        (z3.And(N > 0, z3.ULT(P, L), N >= L - P), lambda: sub_rope(r, 0, simp(P))),
                        (z3.And(N > 0, z3.ULT(P, L), N < L - P), lambda: sub_rope(r, 0, simp(P)) + sub_rope(r, simp(P + N), simp(L - P - N)))):
            cond = simpb(cond)
            if cond is False or (cond is not True and not eng.feasible(st, cond)): continue
            s2 = st.fork()
            if cond is not True: s2.assume(cond)
            ba_edit(eng, s2, a[0], f()); res.append((s2, ('ret', a[0])))
        return res
    @model(r'^operator(==|!=)\(QByteArray const&, QByteArray const&\)$|^(bool )?QByteArray::operator(==|!=)\(QByteArray const&\) const$')
    def _(eng, st, a, c):
        x = rope_of(eng, st, B(eng, st, a[0])); y = rope_of(eng, st, B(eng, st, a[1]))
        e = rope_eq_term(eng, st, x, y)
        return bnot(e) if '!=' in c.dem else e
    @model(r'^QByteArray::toHex\(')
    def _(eng, st, a, c): put_ba(eng, st, a[0], Rope([Sl(farr('hex'), 0, 0)]))
    @model(r'^QByteArray::toInt\(bool\*, int\) const$')
    def _(eng, st, a, c):
        return simp(TOINT(*rope_key(eng, st, rope_of(eng, st, B(eng, st, a[0])))))
    # ---------------------------------------------------------------- QString
    def G(eng, st, p):
        v = eng.get_abs(st, p, None, 'QString')
        if not isinstance(v, Str): raise Unsupported('QString: %r' % (v,))
        return v
    eng.G = lambda *a: G(eng, *a)
    @model(r'^QString::QString\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Str(Rope(), True), 8)
    @model(r'^QString::QString\((QString const&|QString&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], G(eng, st, a[1]), 8)
    @model(r'^QString::QString\(char const\*\)$|^QString::QString\(QByteArray const&\)$')
    def _(eng, st, a, c):
        eng.put_abs(st, a[0], Str(aslit(eng, st, a[1]) if 'char const' in c.dem else rope_of(eng, st, B(eng, st, a[1]))), 8)
    @model(r'^QString::~QString\(\)$')
    def _(eng, st, a, c): eng.destroy(st, a[0], 8)
    @model(r'^QString::operator=\((QString const&|QString&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], G(eng, st, a[1]), 8); return a[0]
    @model(r'^QString::(operator=|operator\+=|append)\(char const\*\)$')
    def _(eng, st, a, c):
        r = aslit(eng, st, a[1])
        eng.put_abs(st, a[0], Str(r if c.m.group(1) == 'operator=' else G(eng, st, a[0]).rope + r), 8); return a[0]
    @model(r'^QString::(append|operator\+=)\(QString const&\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Str(G(eng, st, a[0]).rope + G(eng, st, a[1]).rope), 8); return a[0]
    @model(r'^QString::prepend\(QString const&\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Str(G(eng, st, a[1]).rope + G(eng, st, a[0]).rope), 8); return a[0]
    @model(r'^QString::(toUtf8|toUtf8_helper)\(.*|^QString::toUtf8')
    def _(eng, st, a, c): put_ba(eng, st, a[0], G(eng, st, a[1]).rope)
    @model(r'^QString::(toLatin1|toLocal8Bit|toAscii)')
    def _(eng, st, a, c):
        r = G(eng, st, a[1]).rope
        if all(isinstance(p, Lit) and all(isint(b) and b < 128 for b in p.bs) for p in r.ps): put_ba(eng, st, a[0], r)
        else:
            n = fbv('l1len', 64); st.assume(z3.ULT(n, 1 << 30)); put_ba(eng, st, a[0], Rope([Sl(farr('latin1'), 0, n)]))
    @model(r'^QString::fromUtf8\(QByteArray const&\)$')
    def _(eng, st, a, c):
        # Qt 5 stops at the first NUL of the byte array
        r = rope_of(eng, st, B(eng, st, a[1])); n = simp(r.len()); utf8_assumption(eng)
        if isint(n) and n <= 64 and all(isint(r.at(i)) for i in range(n)):
            bs = [r.at(i) for i in range(n)]
            if 0 in bs: r = Rope([Lit(bs[:bs.index(0)])])
            eng.put_abs(st, a[0], Str(r), 8); return
        if r.ps and all(isinstance(q, Sl) and str(q.arr) in getattr(eng, 'nonul', ()) for q in r.ps): eng.put_abs(st, a[0], Str(r), 8); return      # known to hold no NUL
        k = fbv('strnlen', 64); st.assume(z3.ULE(k, B64(n))); st.assume(z3.Or(k == B64(n), B8(r.at(k)) == 0))
        st.assume(z3.Implies(k == 0, z3.Or(B64(n) == 0, B8(r.at(0)) == 0)))
        s2 = st.fork(); st.assume(k == B64(n)); eng.put_abs(st, a[0], Str(r), 8)
        s2.assume(z3.ULT(k, B64(n))); eng.put_abs(s2, a[0], Str(sub_rope(r, 0, k)), 8)
        return [(s, ('ret', None)) for s in (st, s2) if eng.check(s)[0] != 'unsat']
    @model(r'^QString::fromUtf8\(char const\*, int\)$')
    def _(eng, st, a, c):
        n = a[2]; utf8_assumption(eng)
        if isint(n) and sgn(n, 32) == -1: eng.put_abs(st, a[0], Str(aslit(eng, st, a[1])), 8); return
        p = a[1]; n64 = sx(n, 32, eng, st)
        if p.obj is None or p.obj.kind != 'buf': eng.put_abs(st, a[0], Str(aslit(eng, st, p, n)), 8); return
        rope = st.mem[p.obj]['rope']; off = simp(p.off)
        if not isint(n): eng.oblige(st, bv(n, 32) >= 0, 'copy-size-non-negative')
        eng.oblige(st, simpb(z3.And(z3.ULE(B64(off), B64(rope.len())), z3.ULE(B64(n64), B64(rope.len()) - B64(off)))), 'read-in-bounds', 'fromUtf8 range')
        eng.put_abs(st, a[0], Str(sub_rope(rope, off, n64)), 8)
    @model(r'^QString::(fromLatin1|fromLocal8Bit|fromAscii)\(')
    def _(eng, st, a, c):
        n = fbv('l1len', 64); st.assume(z3.ULT(n, 1 << 30))
        try:
            r = aslit(eng, st, a[1])
            if all(b < 128 for q in r.ps for b in q.bs): eng.put_abs(st, a[0], Str(r), 8); return
        except (Unsupported, AttributeError, TypeError): pass
        eng.put_abs(st, a[0], Str(Rope([Sl(farr('latin1'), 0, n)])), 8)
    @model(r'^QString::number\(')
    def _(eng, st, a, c):
        n = fbv('numlen', 64); st.assume(z3.ULT(n, 100)); eng.put_abs(st, a[0], Str(Rope([Sl(farr('num'), 0, n)])), 8)
    @model(r'^QString::(isEmpty|isNull)\(\) const$')
    def _(eng, st, a, c):
        s = G(eng, st, a[0]); return eqv(s.rope.len(), 0) if 'isEmpty' in c.dem else maynull(eng, st, s, s.rope)
    @model(r'^(QString const )?operator\+\((QString const&|QString&&|char const\*), (QString const&|QString&&|char const\*)\)$')
    def _(eng, st, a, c):
        ds = dargs(c.dem); rs = []
        for d, x in zip(ds, a[1:]): rs.append(aslit(eng, st, x) if d.startswith('char') else G(eng, st, x).rope)
        eng.put_abs(st, a[0], Str(rs[0] + rs[1]), 8)
    @model(r'^(bool )?operator(==|!=)\(QString const&, QString const&\)$|^QString::operator(==|!=)\(QString const&\) const$')
    def _(eng, st, a, c):
        e = rope_eq_term(eng, st, G(eng, st, a[0]).rope, G(eng, st, a[1]).rope)
        return bnot(e) if '!=' in c.dem else e
    # ---------------------------------------------------------------- qMetaTypeId / QVariant
    @model(r'^int qMetaTypeId<(.+)>\(\)$')
    def _(eng, st, a, c): return tid_of(c.m.group(1))
    @model(r'^int qRegisterMetaType<(.+?)>\(')
    def _(eng, st, a, c): return tid_of(c.m.group(1))
    def V(eng, st, p):
        v = eng.get_abs(st, p, None, 'QVariant')
        if not isinstance(v, Var): raise Unsupported('QVariant: %r' % (v,))
        return v
    eng.V = lambda *a: V(eng, *a)
    def setv(eng, st, p, v): eng.store(st, p, 16, v)
    eng.setv = lambda *a: setv(eng, *a)
    @model(r'^QVariant::QVariant\(\)$')
    def _(eng, st, a, c): setv(eng, st, a[0], Var())
    @model(r'^QVariant::QVariant\((QVariant const&|QVariant&&)\)$')
    def _(eng, st, a, c):
        v = V(eng, st, a[1]); setv(eng, st, a[0], v)
        if '&&' in c.dem: setv(eng, st, a[1], Var())
    @model(r'^QVariant::~QVariant\(\)$')
    def _(eng, st, a, c): eng.destroy(st, a[0], 16)
    @model(r'^QVariant::operator=\((QVariant const&|QVariant&&)\)$')
    def _(eng, st, a, c): setv(eng, st, a[0], V(eng, st, a[1])); return a[0]
    @model(r'^QVariant::(swap)\(QVariant&\)$')
    def _(eng, st, a, c):
        x, y = V(eng, st, a[0]), V(eng, st, a[1]); setv(eng, st, a[0], y); setv(eng, st, a[1], x)
    @model(r'^QVariant QVariant::fromValue<(.+)>\((.+) const&\)$')
    def _(eng, st, a, c):
        tn = norm_t(c.m.group(1))
        if tn == 'QVariant': setv(eng, st, a[0], V(eng, st, a[1])); return
        setv(eng, st, a[0], Var(tn, read_val(eng, st, a[1], tn)))
    @model(r'^void QVariant::setValue<(.+)>\((.+)\)$')
    def _(eng, st, a, c):
        tn = norm_t(c.m.group(1))
        setv(eng, st, a[0], Var(tn, read_val(eng, st, a[1], tn)))
    @model(r'^QVariant::QVariant\((int|unsigned int|long long|unsigned long long|bool|double|float|QString const&|QByteArray const&)\)$')
    def _(eng, st, a, c):
        tn = norm_t(c.m.group(1)); 
        if tn in SC: 
            v = a[1]
            if tn == 'bool': v = (int(v) if isinstance(v, bool) else (z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v))
            setv(eng, st, a[0], Var(tn, v))
        else: setv(eng, st, a[0], Var(tn, read_val(eng, st, a[1], tn)))
    @model(r'^QVariant::QVariant\((char const\*|QLatin1String)\)$')
    def _(eng, st, a, c): setv(eng, st, a[0], Var('QString', Str(aslit(eng, st, a[1]))))
    @model(r'^(.+) QVariant::value<(.+)>\(\) const$|^(.+) qvariant_cast<(.+)>\(QVariant const&\)$')
    def _(eng, st, a, c):
        tn = norm_t(c.m.group(2) or c.m.group(4))
        sret = c.ins.ty == ('void',)
        p = a[1] if sret else a[0]
        v = V(eng, st, p)
        conv = variant_convert(eng, st, v, tn)
        if sret: write_val(eng, st, a[0], tn, conv); return None
        if c.ins.ty == ('i', 1): return tobool(conv) if not z3.is_bv(conv) else simpb(conv != 0)
        return conv
    @model(r'^QVariant::(userType|type)\(\) const$')
    def _(eng, st, a, c): return var_tid(V(eng, st, a[0]))
    @model(r'^QVariant::isNull\(\) const$')
    def _(eng, st, a, c):
        v = V(eng, st, a[0])
        if v.tn is None and v.tid is None: return True
        if v.null is not False: return v.null
        if isinstance(v.val, (BA, Str)): return maynull(eng, st, v.val, rope_of(eng, st, v.val) if isinstance(v.val, BA) else v.val.rope)
        return False
    @model(r'^QVariant::isValid\(\) const$')
    def _(eng, st, a, c):
        t = var_tid(V(eng, st, a[0])); return t != 0 if isint(t) else simpb(t != 0)
    @model(r'^QVariant::(data|constData)\(\) const$|^QVariant::data\(\)$')
    def _(eng, st, a, c):
        v = V(eng, st, a[0])
        if v.tn is None: raise Unsupported('data() of untyped variant')
        n = sc_size(v.tn)
        o = eng.alloc(st, 'vardata', 8 if n else cpp_size(v.tn), 'heap')
        if n:
            # QVariant's inline storage is zero-initialised before a small value is placed in it
            eng.zero(st, o, 0, 8)
            eng.store(st, Ptr(o, 0), n, v.val)
        else: write_val(eng, st, Ptr(o, 0), v.tn, v.val)
        return Ptr(o, 0)
    def variant_convert(eng, st, v, tn):
        if v.tn is not None and norm_t(v.tn) == tn: 
            if isinstance(v.val, BA): share(st, v.val)
            return v.val
        if v.tn is None and v.tid is None: return zero_val(eng, st, tn)
        h = VCONV.get((norm_t(v.tn) if v.tn else None, tn))
        if h: return h(eng, st, v)
        raise Unsupported('QVariant conversion %s -> %s' % (v.tn, tn))
    eng.variant_convert = lambda *a: variant_convert(eng, *a)
    # ---------------------------------------------------------------- QList
    LST = r'(?:QList<(.+)>|QStringList|QByteArrayList)'
    def LV(eng, st, p):
        v = eng.get_abs(st, p, None, 'QList')
        if not isinstance(v, Lst): raise Unsupported('QList: %r' % (v,))
        return v
    eng.LV = lambda *a: LV(eng, *a)
    def elt(c):
        m = re.match(r'^QList<(.+)>::(?:\w|~|operator|const_iterator|iterator)', c.dem)
        d = c.dem
        if d.startswith('QStringList'): return 'QString'
        # first QList<...> balanced
        i = d.index('QList<') + 6; depth = 1; j = i
        while depth:
            if d[j] == '<': depth += 1
            elif d[j] == '>': depth -= 1
            j += 1
        return norm_t(d[i:j-1])
    @model(r'^(QList<.+>|QStringList)::(QList|QStringList)\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, Lst((), elt(c)))
    @model(r'^(QList<.+>|QStringList)::(QList|QStringList)\((QList<.+>|QStringList)( const&|&&)\)$')
    def _(eng, st, a, c):
        eng.store(st, a[0], 8, LV(eng, st, a[1]))
        if '&&)' in c.dem: eng.store(st, a[1], 8, Lst((), elt(c)))
    @model(r'^(QList<.+>|QStringList)::~(QList|QStringList)\(\)$')
    def _(eng, st, a, c): eng.destroy(st, a[0], 8)
    @model(r'^(QList<.+>|QStringList)::(operator=|swap)\((QList<.+>|QStringList)( const&|&&|&)\)$')
    def _(eng, st, a, c):
        x = LV(eng, st, a[0]); y = LV(eng, st, a[1])
        eng.store(st, a[0], 8, y)
        if ' const&)' not in c.dem and not same_cell(a[0], a[1]): eng.store(st, a[1], 8, x)
        return a[0]
    def has_len(st, l): pass
    @model(r'^(QList<.+>|QStringList)::(count|size|length)\(\) const$')
    def _(eng, st, a, c):
        n = simp(LV(eng, st, a[0]).len())
        return n if isint(n) else simp(z3.Extract(31, 0, n))
    @model(r'^(QList<.+>|QStringList)::(isEmpty|empty)\(\) const$')
    def _(eng, st, a, c): return eqv(LV(eng, st, a[0]).len(), 0)
    @model(r'^(QList<.+>|QStringList)::(append|push_back|operator\+=|operator<<)\((.+) const&\)$')
    def _(eng, st, a, c):
        l = LV(eng, st, a[0]); e = elt(c); at = norm_t(split_targs(c.m.group(3))[0])
        if at.startswith('QList<') and at != e:
            eng.store(st, a[0], 8, l.concat(LV(eng, st, a[1])))
        else: eng.store(st, a[0], 8, l.append(read_val(eng, st, a[1], e)))
        return a[0]
    @model(r'^(QList<.+>|QStringList)::(prepend|push_front)\((.+) const&\)$')
    def _(eng, st, a, c):
        l = LV(eng, st, a[0]); e = elt(c)
        eng.store(st, a[0], 8, Lst(((read_val(eng, st, a[1], e),),) + l.segs, l.tn)); return a[0]
    @model(r'^(QList<.+>|QStringList)::clear\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, Lst((), elt(c)))
    @model(r'^(QList<.+>|QStringList)::reserve\(')
    def _(eng, st, a, c): return None
    @model(r'^(QList<.+>|QStringList)::detach(_helper)?\(')
    def _(eng, st, a, c): return None
    @model(r'^(QList<.+>|QStringList)::(at|operator\[\]|value)\(int\) const$')
    def _(eng, st, a, c):
        e = elt(c)
        sret = c.ins.ty == ('void',)
        p, i = (a[1], a[2]) if sret else (a[0], a[1])
        l = LV(eng, st, p); i64 = sx(i, 32, eng, st); n = l.len()
        eng.oblige(st, simpb(z3.ULT(B64(i64), B64(n))) if not (isint(i64) and isint(n)) else i64 < n, 'list-index-in-range')
        v = seq_at(eng, st, l, i64)
        if sret: write_val(eng, st, a[0], e, v); return None
        return val_obj(eng, st, e, v)
    @model(r'^(QList<.+>|QStringList)::(first|constFirst|last|constLast|front|back)\(\) const$')
    def _(eng, st, a, c):
        l = LV(eng, st, a[0]); n = l.len(); first = 'irst' in c.dem.split('::')[-1] or 'front' in c.dem
        eng.oblige(st, bnot(eqv(n, 0)), 'list-not-empty')
        return val_obj(eng, st, elt(c), seq_at(eng, st, l, 0 if first else sub64(n, 1)))
    @model(r'^(QList<.+>|QStringList)::(begin|cbegin|constBegin|end|cend|constEnd)\(\)( const)?$')
    def _(eng, st, a, c):
        sret = c.ins.ty == ('void',)
        l = LV(eng, st, a[1] if sret else a[0])
        off = 0 if 'egin' in c.dem.rsplit('::', 1)[1] else simp(B64(l.len())*8) if not isint(l.len()) else l.len()*8
        p = Ptr(list_obj(st, l), off)
        if sret: eng.store(st, a[0], 8, p); return None
        return p
    IT = r'^QList<.+>::(const_iterator|iterator)::'
    def itp(eng, st, p):
        v = eng.load(st, p, 8, ('ptr',))
        if isinstance(v, PInt): v = v.p
        if not isinstance(v, Ptr) or v.obj is None or v.obj.kind != 'lst': raise Unsupported('list iterator %r' % (v,))
        return v
    @model(IT + r'(const_iterator|iterator)\((.*)\)$')
    def _(eng, st, a, c):
        if len(a) > 1:
            v = a[1]
            if isinstance(v, Ptr) and (v.obj is None or v.obj.kind != 'lst'): v = itp(eng, st, v)
            eng.store(st, a[0], 8, v)
    @model(IT + r'operator(\*|->)\(\) const$')
    def _(eng, st, a, c):
        p = itp(eng, st, a[0]); l = p.obj.info; e = elt(c)
        i = p.off >> 3 if isint(p.off) else simp(z3.LShR(p.off, 3))
        n = l.len()
        eng.oblige(st, i < n if isint(i) and isint(n) else simpb(z3.ULT(B64(i), B64(n))), 'iterator-dereferenceable')
        return val_obj(eng, st, e, seq_at(eng, st, l, i))
    @model(IT + r'operator(\+\+|--)\(\)$')
    def _(eng, st, a, c):
        p = itp(eng, st, a[0]); d = 8 if '++' in c.dem else M(64) - 7
        eng.store(st, a[0], 8, Ptr(p.obj, simp(add64(p.off, d)))); return a[0]
    @model(IT + r'operator(\+\+|--)\(int\)$')
    def _(eng, st, a, c):
        sret = c.ins.ty == ('void',)
        q = a[1] if sret else a[0]
        p = itp(eng, st, q); d = 8 if '++' in c.dem else M(64) - 7
        eng.store(st, q, 8, Ptr(p.obj, simp(add64(p.off, d))))
        if sret: eng.store(st, a[0], 8, p); return None
        return p
    @model(IT + r'operator(==|!=)\(QList<.+>::(const_)?iterator const&\) const$')
    def _(eng, st, a, c):
        p, q = itp(eng, st, a[0]), itp(eng, st, a[1])
        e = eng.icmp(st, 'eq', ('ptr',), p, q)
        return bnot(e) if '!=' in c.dem else e
    @model(IT + r'operator=\(')
    def _(eng, st, a, c): eng.store(st, a[0], 8, itp(eng, st, a[1])); return a[0]
    # ---------------------------------------------------------------- misc Qt
    @model(r'^(unsigned int|int|unsigned short|short|unsigned long|long|unsigned long long|long long) q(To|From)(Big|Little)Endian<.*>\((?!void const)(.*)\)$')
    def _(eng, st, a, c):
        n = SC[c.m.group(1)]; x = a[0]
        if c.m.group(3) == 'Little': return x
        return eng.cat_bytes(list(reversed(eng.split_bytes(x, n))))
    @model(r'^(unsigned int|int|unsigned short|short|unsigned long|long) qFrom(Big|Little)Endian<.*>\(void const\*\)$')
    def _(eng, st, a, c):
        n = SC[c.m.group(1)]; x = eng.load(st, a[0], n)
        if c.m.group(2) == 'Little': return x
        return eng.cat_bytes(list(reversed(eng.split_bytes(x, n))))
    @model(r'^void qTo(Big|Little)Endian<(.*)>\((.*), void\*\)$')
    def _(eng, st, a, c):
        n = SC[c.m.group(2)]; x = a[0]
        eng.store(st, a[1], n, x if c.m.group(1) == 'Little' else eng.cat_bytes(list(reversed(eng.split_bytes(x, n)))))
    @model(r'^(std::remove_reference<.*>::type&& )?std::move<|^(.*&& )std::forward<|^(.*& )std::forward<|^std::addressof<|^.* std::__addressof<|^typename std::remove_reference.*std::move')
    def _(eng, st, a, c): return a[0]
    @model(r'^.*std::(addressof|__addressof|forward|move|__niter_base)<.*>\(.*\)$')
    def _(eng, st, a, c): return a[0]
    @model(r'^.* std::(min|max)<(.*)>\(.*const&, .*const&\)$')
    def _(eng, st, a, c):
        tn = c.m.group(2); n = sc_size(tn)
        if not n: raise Unsupported('min/max')
        x, y = eng.load(st, a[0], n), eng.load(st, a[1], n)
        if isint(x) and isint(y):
            sg = not tn.startswith('unsigned')
            X, Y = (sgn(x, 8*n), sgn(y, 8*n)) if sg else (x, y)
            r = min(X, Y) if c.m.group(1) == 'min' else max(X, Y); r &= M(8*n)
        else:
            X, Y = bv(x, 8*n), bv(y, 8*n)
            lt = z3.ULT(X, Y) if tn.startswith('unsigned') else X < Y
            r = simp(z3.If(lt, X, Y) if c.m.group(1) == 'min' else z3.If(lt, Y, X))
        return val_obj(eng, st, tn, r)
    @model(r'^.* (qMin|qMax)<(.*)>\(.*const&, .*const&\)$')
    def _(eng, st, a, c):
        tn = c.m.group(2); n = sc_size(tn)
        if not n: raise Unsupported('min/max')
        x, y = bv(eng.load(st, a[0], n), 8*n), bv(eng.load(st, a[1], n), 8*n)
        lt = z3.ULT(x, y) if tn.startswith('unsigned') else x < y
        return val_obj(eng, st, tn, simp(z3.If(lt, x, y) if c.m.group(1) == 'qMin' else z3.If(lt, y, x)))
    @model(r'^(.*) std::distance<(.*)>\(')
    def _(eng, st, a, c):
        if c.m.group(2).strip() in ('char const*', 'char*') and isinstance(a[0], Ptr) and a[0].obj is a[1].obj:
            return simp(sub64(a[1].off, a[0].off))
        raise Unsupported('std::distance')
    @model(r'^(memcpy|memmove)$')
    def _(eng, st, a, c): eng.memcpy(st, a[0], a[1], a[2]); return a[0]
    @model(r'^QBasicAtomicInteger<|^QAtomicInt|^QAtomicOps')
    def _(eng, st, a, c): raise Unsupported('atomic ' + c.dem)
    install_umap(eng)

VCONV = {}
TOINT = z3.Function('TOINT', ArrS, z3.BitVecSort(64), z3.BitVecSort(32))
RKEYS = {}
def rope_key(eng, st, r):
    """(array, length) denoting the bytes of a rope; only for single slices at offset 0 or literals"""
    if len(r.ps) == 1 and isinstance(r.ps[0], Sl) and isint(r.ps[0].off) and r.ps[0].off == 0:
        return r.ps[0].arr, B64(r.ps[0].n)
    if not r.ps: return z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8)), z3.BitVecVal(0, 64)
    raise Unsupported('rope key')

def rope_eq_cond(eng, st, x, y, fresh=True):
    """formula that, when valid for the fresh index, means x == y (to be proved, not assumed)"""
    lx, ly = x.len(), y.len()
    le = eqv(lx, ly)
    if le is False: return False
    if isint(lx) and isint(ly) and lx <= 64:
        return simpb(band(*[eqv(x.at(i), y.at(i), 8) for i in range(lx)]))
    # piecewise structural prefix cancellation
    xs, ys = list(x.ps), list(y.ps)
    conds = [le]
    while xs and ys and same_piece(xs[0], ys[0]): xs.pop(0); ys.pop(0)
    while xs and ys and same_piece(xs[-1], ys[-1]): xs.pop(); ys.pop()
    if not xs and not ys: return True
    k = fbv('k', 64)
    X, Y = Rope(xs), Rope(ys)
    lx2 = X.len()
    conds = [eqv(lx2, Y.len())]
    # aligned pieces
    if len(xs) == len(ys) == 1 and isinstance(xs[0], (Sl,)) and isinstance(ys[0], (Sl,)) and xs[0].arr.eq(ys[0].arr):
        return simpb(band(eqv(xs[0].n, ys[0].n), bor(eqv(xs[0].off, ys[0].off), eqv(xs[0].n, 0))))
    conds.append(implies(simpb(z3.ULT(k, B64(lx2))), simpb(B8(X.at(k)) == B8(Y.at(k)))))
    return simpb(band(*conds))
def same_piece(p, q):
    if type(p) is not type(q): return False
    if isinstance(p, Lit): return len(p.bs) == len(q.bs) and all((isint(a) and isint(b) and a == b) or (not isint(a) and not isint(b) and a.eq(b)) for a, b in zip(p.bs, q.bs))
    if isinstance(p, Sl): return p.arr.eq(q.arr) and teq(p.off, q.off) and teq(p.n, q.n)
    if isinstance(p, Vi): return teq(p.x, q.x)
    f = getattr(p, 'same', None)
    if f: return f(q)
    return p is q
def teq(a, b):
    if isint(a) and isint(b): return a == b
    if isint(a) or isint(b): return False
    return simp(a).eq(simp(b)) if not isint(simp(a)) and not isint(simp(b)) else simp(a) == simp(b)

REQ = {}
def rope_eq_term(eng, st, x, y):
    """boolean usable on both sides of a branch"""
    ids = getattr(eng, 'rope_ids', None)
    if ids is not None:                                     # values of which only identity matters: content equal iff ids equal
        k = [ids.get(str(r.ps[0].arr)) if len(r.ps) == 1 and isinstance(r.ps[0], Sl) else None for r in (x, y)]
        if None not in k and all(isint(r.ps[0].off) and r.ps[0].off == 0 for r in (x, y)): return simpb(k[0] == k[1])
    lx, ly = simp(x.len()), simp(y.len())
    if isint(lx) and isint(ly):
        if lx != ly: return False
        if lx <= 64: return simpb(band(*[eqv(x.at(i), y.at(i), 8) for i in range(lx)]))
    if same_rope(x, y): return True
    c = rope_eq_cond(eng, st, x, y)
    if eng.prove(st, c)[0] == 'proved': return True
    b = fbool('ropeeq')
    # equal ropes have equal length and equal bytes at every probed index; unequal ones differ somewhere
    k = fbv('diff', 64)
    st.assume(z3.Implies(b, zb(eqv(lx, ly))))
    st.assume(z3.Implies(z3.Not(b), z3.Or(z3.Not(zb(eqv(lx, ly))), z3.And(z3.ULT(k, B64(lx)), B8(x.at(k)) != B8(y.at(k))))))
    for i in range(6):
        st.assume(z3.Implies(z3.And(b, z3.ULT(z3.BitVecVal(i, 64), B64(lx))), B8(x.at(i)) == B8(y.at(i))))
    return b
def same_rope(x, y):
    return len(x.ps) == len(y.ps) and all(same_piece(p, q) for p, q in zip(x.ps, y.ps))

# ------------------------------------------------------------------ unordered_map<int, X>
class UMap:
    """concrete map: key -> node object.  Immutable python value stored in the map object's cell."""
    __slots__ = ('d', 'base')          # base: AMap consulted for keys not in d
    def __init__(s, d=None, base=None): s.d = d or {}; s.base = base
    def __repr__(s): return 'UMap(%d)' % len(s.d)

class AMap:
    """abstract const map int -> struct: has(k), node(eng, st, k) ; n entries, entry i"""
    __slots__ = ('name', 'has', 'mk', 'n', 'key')
    def __init__(s, name, has, mk, n=None, key=None): s.name = name; s.has = has; s.mk = mk; s.n = n; s.key = key

def install_umap(eng):
    model = eng.model
    def ksize(kt): return 8 if kt == 'QString' else sc_size(kt)
    UM = r'^std::unordered_map<(?P<kv>.+)>::'
    END = Obj('umap.end', None, 'umapend')
    eng.umap_end = Ptr(END, 0)
    def kv(c):
        d = c.dem; i = d.index('std::unordered_map<') + len('std::unordered_map<'); depth = 1; j = i
        while depth:
            if d[j] == '<': depth += 1
            elif d[j] == '>': depth -= 1
            j += 1
        ts = split_targs(d[i:j-1]); return ts[0], ts[1]
    def U(eng, st, p):
        if isinstance(p, Ptr) and p.obj is None: eng.fail(st, 'null-deref', 'unordered_map of a null object'); raise S.PathEnd()
        x = st.mem.get(p.obj, {}).get(p.off if isint(p.off) else 0)
        if eng.on_access is not None: eng.on_access(st, p.obj, p.off, 'r')
        if x is None or not isinstance(x[1], (UMap, AMap)):
            off = p.off
            if p.obj.kind == 'glob' or p.obj.kind in ('stack', 'heap'):
                eng.destroy(st, p, 56)
                eng.store(st, p, 56, UMap()); return st.mem[p.obj][off][1]
            raise Unsupported('unordered_map at %r' % (p,))
        return x[1]
    eng.U = lambda *a: U(eng, *a)
    skeys = {}
    def strkey(r):
        """a text as a map key: equal numbers exactly for equal texts (a constant for a known text, unknown for an unknown one)"""
        n = r.len()
        if isint(n):
            bs = [r.at(i) for i in range(n)]
            if all(isint(b) for b in bs): k = ('lit', bytes(b & 255 for b in bs)); return z3.BitVecVal(skeys.setdefault(k, len(skeys) + 1), 64)
        if len(r.ps) != 1: raise Unsupported('text as a key')
        x = r.ps[0]; k = ('sym', repr(x)); return skeys.setdefault(k, z3.BitVec('KEY%d' % len(skeys), 64))
    eng.strkey = strkey
    def keyof(eng, st, p, kt):
        if kt == 'QString': return strkey(eng.get_abs(st, p, Str, 'key').rope)
        n = ksize(kt)
        return eng.load(st, p, n, ('ptr',) if under(kt).endswith('*') else None)
    def keq(eng, st, a, b, n):
        if isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)): return eng.icmp(st, 'eq', ('ptr',), a, b)
        return eqv(a, b, 8*n)
    def node(eng, st, m, key):
        return m.d[key]
    def lookup(eng, st, m, key, n, at=None):
        """-> list of (state, node Ptr or None)"""
        if isinstance(m, UMap) and m.base is not None:
            outs = []; none = []
            for k, (kk, nd) in m.d.items():
                e = keq(eng, st, key, kk, n)
                if e is False: continue
                if e is True: return outs + [(st, nd)]
                if eng.feasible(st, e):
                    s2 = st.fork(); s2.assume(e); outs.append((s2, nd))
                none.append(z3.Not(e))
            s3 = st.fork()
            for x in none: s3.assume(x)
            if none and eng.check(s3)[0] == 'unsat': return outs
            for s4, nd in lookup(eng, s3, m.base, key, n):
                if nd is not None:
                    mm = UMap(dict(m.d), m.base); mm.d[len(mm.d) + 7000] = (key, nd); put_map(s4, at, mm)
                outs.append((s4, nd))
            return outs
        if isinstance(m, AMap):
            h = m.has(key); outs = []
            h = simpb(h) if not isinstance(h, bool) else h
            if h is not False and (h is True or eng.feasible(st, h)):
                s2 = st.fork(); 
                if h is not True: s2.assume(h)
                outs.append((s2, m.mk(eng, s2, key)))
            if h is not True and (h is False or eng.feasible(st, z3.Not(h))):
                s3 = st.fork()
                if h is not False: s3.assume(z3.Not(h))
                outs.append((s3, None))
            return outs
        if isint(key):
            for k, (kk, nd) in m.d.items():
                if isint(kk) and kk == key: return [(st, nd)]
            if all(isint(kk) for kk, nd in m.d.values()): return [(st, None)]
        outs = []; none = []
        for k, (kk, nd) in m.d.items():
            e = keq(eng, st, key, kk, n)
            if e is False: continue
            if e is True: return outs + [(st, nd)]
            if eng.feasible(st, e):
                s2 = st.fork(); s2.assume(e); outs.append((s2, nd))
            none.append(z3.Not(e))
        s3 = st.fork()
        for x in none: s3.assume(x)
        if not none or eng.check(s3)[0] != 'unsat': outs.append((s3, None))
        return outs
    def put_map(st, at, mm):
        st.wcells(at.obj)[at.off] = (56, mm)
    @model(UM + r'unordered_map\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 56, UMap())
    @model(UM + r'~unordered_map\(\)$')
    def _(eng, st, a, c): return None
    @model(UM + r'(empty|size)\(\) const$')
    def _(eng, st, a, c):
        m = U(eng, st, a[0])
        if isinstance(m, AMap): raise Unsupported('size of abstract map')
        return (len(m.d) == 0) if 'empty' in c.dem.rsplit('::', 1)[1] else len(m.d)
    def new_node(eng, st, c, key):
        kt, vt = kv(c); n = ksize(kt)
        o = eng.alloc(st, 'node', None, 'heap')
        if kt != 'QString': eng.store(st, Ptr(o, 0), n, key)
        return Ptr(o, 0), n
    def nobase(m):
        if m.base is not None: raise Unsupported('erase on abstract map')
    def voff(c):
        kt, vt = kv(c); n = ksize(kt); a = min(sc_size(vt) or 8, 8); return (n + a - 1)//a*a
    @model(UM + r'operator\[\]\(')
    def _(eng, st, a, c):
        kt, vt = kv(c); n = ksize(kt); m = U(eng, st, a[0]); key = keyof(eng, st, a[1], kt)
        res = []
        for s2, nd in lookup(eng, st, m, key, n, a[0]):
            if nd is None:
                nd, _ = new_node(eng, s2, c, key); eng.zero(s2, nd.obj, voff(c), 128)
                mm = UMap(dict(m.d), m.base); mm.d[len(mm.d)] = (key, nd); eng.store(s2, a[0], 56, mm)
            res.append((s2, ('ret', Ptr(nd.obj, voff(c)))))
        return res
    @model(UM + r'at\(')
    def _(eng, st, a, c):
        kt, vt = kv(c); n = ksize(kt); res = []
        for s2, nd in lookup(eng, st, U(eng, st, a[0]), keyof(eng, st, a[1], kt), n, a[0]):
            res.append((s2, ('exc', Exc('_ZTISt12out_of_range')) if nd is None else ('ret', Ptr(nd.obj, voff(c)))))
        return res
    @model(UM + r'find\(')
    def _(eng, st, a, c):
        kt, vt = kv(c); n = ksize(kt)
        m = U(eng, st, a[0]); end = umap_itptr(m, m.n) if isinstance(m, AMap) and m.n is not None and m.key is not None else eng.umap_end
        return [(s2, ('ret', end if nd is None else nd)) for s2, nd in lookup(eng, st, m, keyof(eng, st, a[1], kt), n, a[0])]
    @model(UM + r'count\(')
    def _(eng, st, a, c):
        kt, vt = kv(c); n = ksize(kt)
        return [(s2, ('ret', 0 if nd is None else 1)) for s2, nd in lookup(eng, st, U(eng, st, a[0]), keyof(eng, st, a[1], kt), n, a[0])]
    @model(UM + r'(end|cend)\(\)( const)?$')
    def _(eng, st, a, c):
        m = U(eng, st, a[0])
        if isinstance(m, AMap) and m.n is not None and m.key is not None: return umap_itptr(m, m.n)
        return eng.umap_end
    @model(UM + r'(begin|cbegin)\(\)( const)?$')
    def _(eng, st, a, c):
        m = U(eng, st, a[0])
        if isinstance(m, AMap) and m.n is not None: return umap_itptr(m, 0)
        raise Unsupported('iteration over unordered_map')
    def umap_itptr(m, i):
        if not hasattr(m, 'name'): raise Unsupported('x')
        o = ITOBJ.setdefault(id(m), Obj('umapit', None, 'umapit', m))
        return Ptr(o, i*8 if isint(i) else simp(i*8))
    ITOBJ = {}
    eng.umap_itptr = umap_itptr
    @model(UM + r'erase\((.*)\)$')
    def _(eng, st, a, c):
        kt, vt = kv(c); n = ksize(kt); m = U(eng, st, a[0])
        if isinstance(m, AMap): raise Unsupported('erase on abstract map')
        if '_Node' in c.dem.rsplit('erase(', 1)[1]:
            p = a[1]
            if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'stack': p = eng.load(st, p, 8, ('ptr',))
            if p.obj is eng.umap_end.obj: eng.fail(st, 'erase-valid-iterator'); return []
            mm = UMap({k: v for k, v in m.d.items() if v[1].obj is not p.obj}, nobase(m))
            st.dead = st.dead | {p.obj}
            eng.store(st, a[0], 56, mm); return eng.umap_end
        res = []
        for s2, nd in lookup(eng, st, m, keyof(eng, st, a[1], kt), n, a[0]):
            if nd is not None:
                eng.store(s2, a[0], 56, UMap({k: v for k, v in m.d.items() if v[1].obj is not nd.obj}, nobase(m))); s2.dead = s2.dead | {nd.obj}
            res.append((s2, ('ret', 0 if nd is None else 1)))
        return res
    def copy_cells(eng, st, f, t):
        """copy of the value at f (the rest of its object, at most 256 bytes)"""
        for k, x in sorted(((k, x) for k, x in st.mem.get(f.obj, {}).items() if isint(k)), key=lambda e: e[0]):
            if f.off <= k < f.off + 256:
                v = x[1]
                if isinstance(v, BA): share(st, v)
                eng.store(st, Ptr(t.obj, t.off + k - f.off), x[0], v)
    @model(r'^std::pair<.* std::unordered_map<(?P<kv>.+)>::(emplace|try_emplace|insert_or_assign)<')
    def _(eng, st, a, c):
        """key and value given apart; the value is copied or moved"""
        kt, vt = kv(c); n = ksize(kt); m = U(eng, st, a[0]); op = c.m.group(2)
        if len(a) != 3 or not isinstance(a[2], Ptr): raise Unsupported('unordered_map::' + op)
        key = keyof(eng, st, a[1], kt); res = []
        for s2, nd in lookup(eng, st, m, key, n, a[0]):
            ins = nd is None
            if ins:
                nd, _ = new_node(eng, s2, c, key); mm = UMap(dict(m.d), m.base); mm.d[len(mm.d) + 1000*(len(mm.d))] = (key, nd); eng.store(s2, a[0], 56, mm)
            if ins or op == 'insert_or_assign':
                if eng.on_access is not None: eng.on_access(s2, nd.obj, voff(c), 'w')
                copy_cells(eng, s2, a[2], Ptr(nd.obj, voff(c)))
            res.append((s2, ('ret', [nd, ins])))
        return res
    @model(UM + r'insert\((.*)\)$')
    def _(eng, st, a, c):
        kt, vt = kv(c); n = ksize(kt); m = U(eng, st, a[0])
        src = a[1]; key = keyof(eng, st, src, kt); res = []
        for s2, nd in lookup(eng, st, m, key, n, a[0]):
            ins = nd is None
            if nd is None:
                nd, _ = new_node(eng, s2, c, key)
                vo = voff(c); copy_cells(eng, s2, Ptr(src.obj, src.off + vo), Ptr(nd.obj, vo))
                mm = UMap(dict(m.d), m.base); mm.d[len(mm.d) + 1000*(len(mm.d))] = (key, nd); eng.store(s2, a[0], 56, mm)
            res.append((s2, ('ret', [nd, ins])))
        return res
    # node iterators: 8-byte struct holding the node pointer
    NI = r'^std::__detail::_Node_(const_)?iterator(_base)?<.+>::'
    def ni(eng, st, p):
        v = eng.load(st, p, 8, ('ptr',))
        return v.p if isinstance(v, PInt) else v
    @model(NI + r'_Node_(const_)?iterator(_base)?\(')
    def _(eng, st, a, c):
        if len(a) > 1:
            v = a[1]
            if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'stack': v = ni(eng, st, v)
            eng.store(st, a[0], 8, v)
    @model(NI + r'operator(->|\*)\(\) const$')
    def _(eng, st, a, c):
        v = ni(eng, st, a[0])
        if v.obj is eng.umap_end.obj: eng.fail(st, 'iterator-dereferenceable', 'end()'); raise S.PathEnd()
        if v.obj.kind == 'umapit':
            m = v.obj.info; i = v.off >> 3 if isint(v.off) else simp(z3.LShR(v.off, 3))
            eng.oblige(st, simpb(z3.ULT(B64(i), B64(m.n))), 'iterator-dereferenceable')
            return m.mk(eng, st, m.key(i))
        return v
    @model(NI + r'operator\+\+\((int)?\)$')
    def _(eng, st, a, c):
        v = ni(eng, st, a[0])
        if v.obj.kind != 'umapit': raise Unsupported('++ on node iterator')
        eng.store(st, a[0], 8, Ptr(v.obj, simp(add64(v.off, 8))))
        return v if '(int)' in c.dem else a[0]
    @model(r'^(bool )?std::__detail::operator(==|!=)(<.*>)?\(std::__detail::_Node_(const_)?iterator')
    def _(eng, st, a, c):
        x, y = ni(eng, st, a[0]), ni(eng, st, a[1])
        e = eng.icmp(st, 'eq', ('ptr',), x, y)
        return bnot(e) if c.m.group(2) == '!=' else e
