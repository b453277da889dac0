"""Assumed contracts of gRPC's C++ API (ByteBuffer, Slice, Status, unary call, client reader) and of QThread, for the native channel."""
import re, z3
from rope import *
from sym import *
import qtmodels as Q
from qtmodels import Str
from net import un, Status, fire, live, events
from gen import rope as srope, put as sput, text, STR
I64 = z3.BitVecSort(64)
class BB:
    """grpc::ByteBuffer: its bytes, and how Dump would cut and judge them"""
    __slots__ = ('rope', 'id')
    n = 0
    def __init__(s, r): BB.n += 1; s.rope = r; s.id = BB.n
    def __repr__(s): return 'BB(%r)' % (s.rope,)
class NS:
    """grpc::Status"""
    __slots__ = ('code', 'msg')
    def __init__(s, c, m): s.code = c; s.msg = m
    def __repr__(s): return 'NS(%r,%r)' % (s.code, s.msg)
class SliceV:
    __slots__ = ('rope',)
    def __init__(s, r): s.rope = r
class SlVec:
    __slots__ = ('buf',)
    def __init__(s, b): s.buf = b
class VInfo:
    def __init__(s, n, stride, elem, kind): s.n = n; s.stride = stride; s.elem = elem; s.kind = kind
class Meth:
    __slots__ = ('name', 'type')
    def __init__(s, n, t): s.name = n; s.type = t
def symrope(eng, st, name, bound=1 << 30):
    n = fbv(name + '_len', 64); st.assume(z3.ULT(n, bound)); r = Rope([Sl(farr(name), 0, n)]); eng.inputs[name] = r; return r
def nstatus(eng, st, name):
    c = fbv(name + '_code', 32); eng.inputs[name + '_code'] = c; st.assume(z3.And(c >= 0, c <= 16)); return NS(c, symrope(eng, st, name + '_message', 1 << 24))
def bbuf(eng, st, p): return eng.get_abs(st, un(p), BB, 'ByteBuffer')
def dump_status(eng, st, b):
    """the verdict of Dump on buffer b: a function of the buffer"""
    k = ('dump', b.id)
    if k not in st.ghost: st.ghost[k] = nstatus(eng, st, 'dump')
    return st.ghost[k]
def content(b):
    r = b.rope
    if len(r.ps) == 1 and isinstance(r.ps[0], Sl): return r.ps[0].arr, r.ps[0].off, r.ps[0].n
    raise Unsupported('content of a native buffer: %r' % (r,))
def cstr(eng, st, p):
    """the text at p up to a NUL byte -> (state, text) pairs"""
    r = text(eng, st, p); n = simp(r.len())
    if p.obj is None or p.obj.kind != 'buf' or isint(n) or not r.ps: return [(st, r)]
    k = fbv('strlen', 64); st.assume(z3.And(z3.ULE(k, B64(n)), z3.Or(k == B64(n), B8(r.at(k)) == 0))); s2 = st.fork(); st.assume(k == B64(n)); s2.assume(z3.ULT(k, B64(n)))
    return [(s, x) for s, x in ((st, r), (s2, sub_rope(r, 0, k))) if eng.check(s)[0] != 'unsat']
def OFF(b): return z3.Function('slice_off_%d' % b.id, I64, I64)
def install_chan(eng):
    model = eng.model; A = eng.assumptions.add; base = len(eng.models)
    # ------------------------------------------------------------ ByteBuffer, Slice
    B = r'^grpc::ByteBuffer::'
    @model(B + r'ByteBuffer\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), BB(Rope()), 8)
    @model(B + r'ByteBuffer\(grpc::Slice const\*, unsigned long\)$')
    def _(eng, st, a, c):
        A('a ByteBuffer made of slices holds their bytes in order; copying, swapping and assigning keep them (gRPC)')
        if not isint(a[2]): raise Unsupported('number of slices')
        r = Rope()
        for k in range(a[2]): r = r + slice_at(eng, st, Ptr(un(a[1]).obj, add64(un(a[1]).off, 32*k)))
        eng.put_abs(st, un(a[0]), BB(r), 8)
    @model(B + r'(ByteBuffer|operator=)\(grpc::ByteBuffer( const&|&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), bbuf(eng, st, a[1]), 8); return a[0]
    @model(B + r'~ByteBuffer\(\)$')
    def _(eng, st, a, c): return None
    @model(B + r'Clear\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), BB(Rope()), 8)
    @model(B + r'Length\(\) const$')
    def _(eng, st, a, c): return simp(bbuf(eng, st, a[0]).rope.len())
    @model(B + r'Swap\(grpc::ByteBuffer\*\)$')
    def _(eng, st, a, c): x, y = bbuf(eng, st, a[0]), bbuf(eng, st, a[1]); eng.put_abs(st, un(a[0]), y, 8); eng.put_abs(st, un(a[1]), x, 8)
    def slice_at(eng, st, p):
        p = un(p)
        if p.obj.kind == 'vec':
            i = p.obj.info; k = p.off // 32 if isint(p.off) else simp(z3.UDiv(p.off, z3.BitVecVal(32, 64)))
            eng.oblige(st, simpb(z3.ULT(B64(p.off), 32*B64(i.n))), 'iterator-dereferenceable'); return i.elem(eng, st, k)
        return eng.get_abs(st, p, SliceV, 'Slice').rope
    @model(B + r'Dump\(std::vector<grpc::Slice')
    def _(eng, st, a, c):
        A('ByteBuffer::Dump gives slices that hold the bytes of the buffer in order, or a failure status (gRPC)')
        b = bbuf(eng, st, a[1]); s = dump_status(eng, st, b); eng.put_abs(st, un(a[0]), s, 72)
        arr, off, n = content(b); f = OFF(b); cnt = fbv('slices', 64); eng.inputs['slices'] = cnt; st.assume(z3.And(z3.ULT(cnt, 1 << 31), f(z3.BitVecVal(0, 64)) == 0, f(cnt) == B64(n)))
        def elem(eng, st, k):
            k = B64(k); st.assume(z3.Implies(z3.ULT(k, cnt), z3.And(z3.ULE(f(k), f(k + 1)), z3.ULE(f(k + 1), B64(n))))); return Rope([Sl(arr, simp(B64(off) + f(k)), simp(f(k + 1) - f(k)))])
        o = eng.alloc(st, 'slices', None, 'vec'); o.info = VInfo(cnt, 32, elem, 'slices'); eng.destroy(st, un(a[2]), 24); eng.store(st, un(a[2]), 24, SlVec(o))
    @model(B + r'(DumpToSingleSlice|TrySingleSlice)\(grpc::Slice\*\) const$')
    def _(eng, st, a, c):
        b = bbuf(eng, st, a[1]); s = dump_status(eng, st, b); eng.put_abs(st, un(a[0]), s, 72); eng.put_abs(st, un(a[2]), SliceV(b.rope), 32)
        if 'Try' in c.dem: raise Unsupported('TrySingleSlice')
    @model(r'^grpc::Slice::Slice\(void const\*, unsigned long\)$')
    def _(eng, st, a, c):
        A('Slice(p, n) copies n bytes from p (gRPC)'); p, n = un(a[1]), a[2]
        if p.obj is None:
            eng.oblige(st, eqv(n, 0), 'read-in-bounds', 'slice of a null pointer'); eng.put_abs(st, un(a[0]), SliceV(Rope()), 32); return
        if p.obj.kind != 'buf': raise Unsupported('slice of %r' % (p,))
        r = st.mem[p.obj]['rope']; eng.oblige(st, simpb(z3.And(z3.ULE(B64(p.off), B64(r.len())), z3.ULE(B64(n), B64(r.len()) - B64(p.off)))), 'read-in-bounds', 'slice')
        eng.put_abs(st, un(a[0]), SliceV(sub_rope(r, p.off, n)), 32)
    @model(r'^grpc::Slice::Slice\(std::__cxx11::basic_string<')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), SliceV(srope(eng, st, a[1])), 32)
    @model(r'^grpc::Slice::Slice\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), SliceV(Rope()), 32)
    @model(r'^grpc::Slice::(Slice|operator=)\(grpc::Slice( const&|&&)?\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), SliceV(slice_at(eng, st, a[1])), 32); return a[0]
    @model(r'^grpc::Slice::~Slice\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^grpc::Slice::size\(\) const$')
    def _(eng, st, a, c): return simp(slice_at(eng, st, a[0]).len())
    @model(r'^grpc::Slice::(begin|end)\(\) const$')
    def _(eng, st, a, c): r = slice_at(eng, st, a[0]); return Ptr(eng.new_buf(st, r, 'slice'), 0 if c.m.group(1) == 'begin' else simp(r.len()))
    V = r'^std::vector<grpc::Slice, std::allocator<grpc::Slice> >::'
    @model(V + r'vector\(\)$')
    def _(eng, st, a, c): o = eng.alloc(st, 'slices', None, 'vec'); o.info = VInfo(0, 32, None, 'slices'); eng.store(st, un(a[0]), 24, SlVec(o))
    def sv(eng, st, p):
        x = st.mem.get(un(p).obj, {}).get(un(p).off)
        if x is None or not isinstance(x[1], SlVec): raise Unsupported('vector of slices')
        return x[1].buf
    @model(V + r'(~vector|reserve|shrink_to_fit)\(')
    def _(eng, st, a, c): return None
    @model(V + r'(begin|end|cbegin|cend)\(\)( const)?$')
    def _(eng, st, a, c): o = sv(eng, st, a[0]); return Ptr(o, 0) if 'begin' in c.m.group(1) else Ptr(o, simp(32*B64(o.info.n)))
    @model(V + r'(size|empty)\(\) const$')
    def _(eng, st, a, c): n = sv(eng, st, a[0]).info.n; return eqv(n, 0) if c.m.group(1) == 'empty' else n
    @model(V + r'(operator\[\]|at)\(unsigned long\)( const)?$')
    def _(eng, st, a, c): return Ptr(sv(eng, st, a[0]), simp(32*B64(a[1])))
    # ------------------------------------------------------------ Status
    T = r'^grpc::Status::'
    def ns(eng, st, p): return eng.get_abs(st, un(p), NS, 'grpc::Status')
    @model(T + r'Status\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), NS(0, Rope()), 72)
    @model(T + r'(Status|operator=)\(grpc::Status( const&|&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), ns(eng, st, a[1]), 72); return a[0]
    @model(T + r'Status\(grpc::StatusCode, std::__cxx11::basic_string<')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), NS(a[1], srope(eng, st, a[2])), 72)
    @model(T + r'~Status\(\)$')
    def _(eng, st, a, c): return None
    @model(T + r'ok\(\) const$')
    def _(eng, st, a, c): return eqv(ns(eng, st, a[0]).code, 0, 32)
    @model(T + r'error_code\(\) const$')
    def _(eng, st, a, c): return ns(eng, st, a[0]).code
    @model(T + r'error_message(\[abi:cxx11\])?\(\) const$')
    def _(eng, st, a, c): A('grpc::Status keeps its code and message'); sput(eng, st, un(a[0]), ns(eng, st, a[1]).msg)
    # ------------------------------------------------------------ strings
    @model(r'^QString::toStdString(\[abi:cxx11\])?\(\) const$')
    def _(eng, st, a, c): sput(eng, st, un(a[0]), eng.get_abs(st, un(a[1]), Str, 'QString').rope)
    @model(r'^QString::fromStdString\(')
    def _(eng, st, a, c): Q.utf8_assumption(eng); eng.put_abs(st, un(a[0]), Str(srope(eng, st, a[1])), 8)
    @model(r'^QString::QString\(char const\*\)$|^QString::fromUtf8\(char const\*, int\)$')
    def _(eng, st, a, c):
        p = un(a[1])
        if len(a) > 2 and isint(a[2]) and a[2] not in (-1, 0xffffffff) or len(a) > 2 and not isint(a[2]):
            eng.put_abs(st, un(a[0]), Str(sub_rope(text(eng, st, p), 0, simp(zx(a[2], 32)))), 8); return
        return [(s2, ('ret', eng.put_abs(s2, un(a[0]), Str(r), 8))) for s2, r in cstr(eng, st, p)]
    @model(r'^' + re.escape(STR) + r'::basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$')
    def _(eng, st, a, c): return [(s2, ('ret', sput(eng, s2, un(a[0]), r))) for s2, r in cstr(eng, st, un(a[1]))]
    @model(r'^QByteArray::append\(char const\*\)$')
    def _(eng, st, a, c):
        out = []
        for s2, r in cstr(eng, st, un(a[1])): Q.put_ba(eng, s2, un(a[0]), s2.mem[eng.get_abs(s2, a[0], BA, 'data').buf]['rope'] + r); out.append((s2, ('ret', a[0])))
        return out
    @model(r'^QString::arg\(QString const&, int, QChar\) const$')
    def _(eng, st, a, c):
        A('QString::arg replaces the lowest-numbered place marker; service and method names contain no %'); t = eng.get_abs(st, un(a[1]), Str, 'QString').rope; v = eng.get_abs(st, un(a[2]), Str, 'QString').rope; best = None
        for pi, q in enumerate(t.ps):
            if isinstance(q, Lit):
                for j in range(len(q.bs) - 1):
                    if q.bs[j] == 37 and isint(q.bs[j+1]) and 49 <= q.bs[j+1] <= 57 and (best is None or q.bs[j+1] < best): best = q.bs[j+1]
        if best is None: raise Unsupported('QString::arg without a marker')
        out = []
        for q in t.ps:
            if not isinstance(q, Lit): out.append(q); continue
            j = 0; cur = []
            while j < len(q.bs):
                if q.bs[j] == 37 and j + 1 < len(q.bs) and isint(q.bs[j+1]) and q.bs[j+1] == best: out += [Lit(cur)] + list(v.ps); cur = []; j += 2
                else: cur.append(q.bs[j]); j += 1
            out.append(Lit(cur))
        eng.put_abs(st, un(a[0]), Str(Rope([x for x in out if not (isinstance(x, Lit) and not x.bs)])), 8)
    @model(r'^(QChar::QChar|QLatin1Char::QLatin1Char)\(')
    def _(eng, st, a, c): return None
    # ------------------------------------------------------------ the call itself
    @model(r'^grpc::internal::RpcMethod::RpcMethod\(char const\*, grpc::internal::RpcMethod::RpcType\)$')
    def _(eng, st, a, c): eng.put_abs(st, un(a[0]), Meth(text(eng, st, a[1]), a[2]), 24)
    @model(r'^grpc::internal::RpcMethod::~RpcMethod\(\)$|^grpc::ClientContext::~?ClientContext\(\)$|^QObject::QObject\(QObject\*\)$|^QObject::~QObject\(\)$')
    def _(eng, st, a, c): return None
    def meth(eng, st, p): return eng.get_abs(st, un(p), Meth, 'RpcMethod')
    @model(r'^grpc::Status grpc::internal::BlockingUnaryCall<grpc::ByteBuffer, grpc::ByteBuffer')
    def _(eng, st, a, c):
        A('BlockingUnaryCall sends the request and yields the status and the response of the server (gRPC)')
        m = meth(eng, st, a[2]); s = nstatus(eng, st, 'server'); r = BB(symrope(eng, st, 'response')); st.ev('unary', un(a[1]), m.name, m.type, un(a[3]), bbuf(eng, st, a[4]).rope, s, r); eng.put_abs(st, un(a[5]), r, 8); eng.put_abs(st, un(a[0]), s, 72)
    @model(r'^grpc::ClientReader<grpc::ByteBuffer>\* grpc::internal::ClientReaderFactory<grpc::ByteBuffer>::Create<')
    def _(eng, st, a, c):
        A('ClientReaderFactory::Create sends the request; Read yields the messages of the server in order, Finish its status (gRPC)')
        m = meth(eng, st, a[1]); p = Ptr(eng.alloc(st, 'reader', 256), 0); p.obj.info = 'reader'; st.ev('open', un(a[0]), m.name, m.type, un(a[2]), bbuf(eng, st, a[3]).rope, p); return p
    @model(r'^grpc::ClientReader<grpc::ByteBuffer>::Read\(')
    def _(eng, st, a, c):
        if un(a[0]).obj.info != 'reader': raise Unsupported('reader')
        k = st.ghost.get('reads', z3.BitVecVal(0, 64)); s2 = st.fork(); st.ghost['reads'] = simp(k + 1); eng.put_abs(st, un(a[1]), message(eng, st, k), 8); return [(st, ('ret', True)), (s2, ('ret', False))]
    @model(r'^grpc::ClientReader<grpc::ByteBuffer>::Finish\(\)$')
    def _(eng, st, a, c): s = nstatus(eng, st, 'server'); st.ev('finish', un(a[1]), s); eng.put_abs(st, un(a[0]), s, 72)
    @model(r'^grpc::ClientReader<grpc::ByteBuffer>::~ClientReader\(\)$')
    def _(eng, st, a, c): st.ev('closed', un(a[0]))
    @model(r'^grpc::ClientContext::TryCancel\(\)$')
    def _(eng, st, a, c): st.ev('cancel', un(a[0]))
    # ------------------------------------------------------------ threads
    @model(r'^QThread\* QThread::create<(.*)>\(')
    def _(eng, st, a, c):
        A('QThread::create(f) runs a copy of f once after start(), and then signals finished(); queued signals keep their order (Qt)')
        src = un(a[0]); o = eng.alloc(st, 'functor', None, 'heap')
        for k, x in list(st.mem.get(src.obj, {}).items()):
            if isint(k) and k >= src.off: eng.store(st, Ptr(o, k - src.off), x[0], x[1])
        l = c.dem[len('QThread* QThread::create<'):c.dem.index('>(' + c.dem[len('QThread* QThread::create<'):][:12])]
        t = Ptr(eng.alloc(st, 'thread', 64), 0); t.obj.info = ('thread', l, Ptr(o, 0)); st.ev('newthread', t); return t
    @model(r'^QThread::start\(')
    def _(eng, st, a, c): st.ev('start', un(a[0]))
    @model(r'^QThread::wait\(')
    def _(eng, st, a, c): st.ev('wait', un(a[0])); return True
    @model(r'^QDeadlineTimer::')
    def _(eng, st, a, c): return None
    @model(r'^QtProtobuf::QGrpcChannelStream::dataReady\(QByteArray const&\)$')
    def _(eng, st, a, c): st.ev('emit', un(a[0]), st.mem[eng.get_abs(st, a[1], BA, 'data').buf]['rope'])
    @model(r'^QtProtobuf::(QGrpcChannelStream|QGrpcChannelCall)::finished\(\)$')
    def _(eng, st, a, c): st.ev('ended', un(a[0])); return [(s, ('ret', None)) for s in fire(eng, st, un(a[0]), '::finished')]
    @model(r'^QEventLoop::exec\(')
    def _(eng, st, a, c):
        lo = un(a[0]).obj; res = []; ts = events(st, 'start')
        eng.oblige(st, len(ts) == 1, 'one-worker-started-before-waiting', assume=False)
        if len(ts) != 1: return []
        for s in thread_run(eng, st, ts[0][1]):
            for s2 in fire(eng, s, ts[0][1], 'QThread::finished'):
                eng.oblige(s2, bool(s2.ghost.get(('quit', lo))), 'event-loop-left-when-the-call-finishes', assume=False)
                if s2.ghost.get(('quit', lo)): res.append((s2, ('ret', 0)))
        return res
    @model(r'^std::(__)?shared_ptr<.+>::reset<')
    def _(eng, st, a, c): eng.store(st, un(a[0]), 8, un(a[1])); eng.store(st, Ptr(un(a[0]).obj, add64(un(a[0]).off, 8)), 8, NULL)
    eng.models[:] = eng.models[base:] + eng.models[:base]
def message(eng, st, k):
    """the k-th message of the server"""
    k = B64(simp(k)); f, g = z3.Function('MSG', I64, ArrS), z3.Function('MSGLEN', I64, I64); st.assume(z3.ULT(g(k), 1 << 30))
    b = BB(Rope([Sl(f(k), 0, g(k))])); return b
def thread_run(eng, st, t):
    """the worker function of thread t, from start to end -> states"""
    _, l, o = t.obj.info; fn = [f for m in eng.mods for n, f in m.fns.items() if m.dem(n).startswith(l + '::operator()(')]
    if len(fn) != 1: raise Unsupported('worker of ' + l)
    out = []
    for s, r in eng.run(st.fork(), fn[0], [o], 1):
        if r[0] != 'ret': eng.fail(s, 'no-exception-in-worker', str(r[1])); continue
        out.append(s)
    return out
