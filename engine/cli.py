"""Assumed contracts used by the client: threads, blocking invocation, std::function, std::vector of streams and handlers,
std::find/find_if, weak pointers, QPointer, an arbitrary channel and an arbitrary message codec."""
import z3
from sym import *
from rope import *
import sym as S, qtmodels as Q, net
from qtmodels import Str, mkba
from net import un, Status, live, events, fire
class FnV:
    """value of a std::function: id None = empty"""
    __slots__ = ('id',)
    def __init__(s, i): s.id = i
    def __repr__(s): return 'Fn(%r)' % (s.id,)
class HVec:
    """vector of handlers: n earlier ones (abstract), then extra"""
    __slots__ = ('buf', 'extra')
    def __init__(s, buf, extra=()): s.buf = buf; s.extra = extra
class VInfo:
    """contiguous elements of a vector, seen through iterators"""
    def __init__(s, n, stride, elem, kind): s.n = n; s.stride = stride; s.elem = elem; s.kind = kind
class SVec:
    """vector of shared streams: known members (pointers, all distinct), others abstract; gone: members that were erased"""
    __slots__ = ('n', 'known', 'gone', 'idx', 'buf', 'complete')
    def __init__(s, n, known=(), gone=(), idx=None, buf=None, complete=False): s.n = n; s.known = tuple(known); s.gone = tuple(gone); s.idx = idx or {}; s.buf = buf; s.complete = complete
    def has(s, o): return any(p.obj is o for p in s.known)
class QP:
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
def install_client(eng):
    """models in front of the general ones"""
    mine = []
    def model(rx):
        import re
        def d(f): mine.append((re.compile(rx), f)); return f
        return d
    # ------------------------------------------------------------ threads
    @model(r'^QObject::thread\(\) const$|^QtProtobuf::QAbstractGrpcChannel::thread\(\) const$')
    def _(eng, st, a, c): return eng.own_thread
    @model(r'^QThread::currentThread\(\)$')
    def _(eng, st, a, c): return st.ghost.get('cur', eng.own_thread)
    @model(r'^QMetaObject::invokeMethodImpl\(QObject\*, QtPrivate::QSlotObjectBase\*, Qt::ConnectionType, void\*\)$')
    def _(eng, st, a, c):
        """BlockingQueuedConnection: the slot runs in the receiver's thread, then the caller continues"""
        if not isint(a[2]) or a[2] != 3: raise Unsupported('queued invocation')
        old = st.ghost.get('cur', eng.own_thread); eng.oblige(st, old is not eng.own_thread, 'blocking-invocation-only-from-another-thread')
        st.ghost['cur'] = eng.own_thread; res = []
        for s, o in net.slotcall(eng, st, un(a[1]), un(a[0]), (), un(a[3])):
            s.ghost['cur'] = old; res.append((s, ('ret', True) if o[0] == 'ret' else o))
        return res
    # ------------------------------------------------------------ std::function<void (QByteArray const&)>
    F = r'^std::function<void \(QByteArray const&\)>::'
    def fv(eng, st, p): return eng.get_abs(st, p, FnV, 'std::function')
    @model(F + r'function\((decltype\(nullptr\)|std::nullptr_t)?\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], FnV(None), 32)
    @model(F + r'(function|operator=)\(std::function<void \(QByteArray const&\)>( const&|&&)\)$')
    def _(eng, st, a, c):
        v = elem(eng, st, a[1]) if un(a[1]).obj.kind == 'vec' else fv(eng, st, a[1]); eng.put_abs(st, a[0], v, 32)
        if c.dem.endswith('&&)') and un(a[1]).obj.kind != 'vec': eng.put_abs(st, a[1], FnV(None), 32)
        return a[0]
    @model(F + r'function<(?P<l>.+), void>\(')
    def _(eng, st, a, c):
        src = un(a[1]); o = eng.alloc(st, 'functor', None, 'heap')
        for k, x in list(st.mem.get(src.obj, {}).items()):
            if isint(k) and k >= src.off: eng.store(st, Ptr(o, k - src.off), x[0], x[1])
        eng.put_abs(st, a[0], FnV(('lambda', c.m.group('l'), Ptr(o, 0))), 32)
    @model(F + r'~function\(\)$')
    def _(eng, st, a, c): return None
    @model(F + r'operator bool\(\) const$')
    def _(eng, st, a, c): v = elem(eng, st, a[0]) if un(a[0]).obj.kind == 'vec' else fv(eng, st, a[0]); return v.id is not None
    @model(F + r'operator\(\)\(QByteArray const&\) const$')
    def _(eng, st, a, c):
        v = elem(eng, st, a[0]) if un(a[0]).obj.kind == 'vec' else fv(eng, st, a[0]); d = st.mem[eng.get_abs(st, a[1], BA, 'data').buf]['rope']
        if v.id is None: return [(st, ('exc', Exc('_ZTISt17bad_function_call')))]
        st.ev('call', v.id, d)
        if isinstance(v.id, tuple) and v.id[0] == 'lambda': return eng.run(st, fn_of(eng, v.id[1] + '::operator()('), [v.id[2], a[1]], 1)
        if eng.on_handler: eng.on_handler(st)
    def fn_of(eng, prefix):
        for m in eng.mods:
            for n, f in m.fns.items():
                if m.dem(n).replace('bool ', '', 1).startswith(prefix) or m.dem(n).startswith(prefix): return f
        raise Unsupported('no body of ' + prefix)
    # ------------------------------------------------------------ std::vector<handler>
    HV = r'^std::vector<std::function<void \(QByteArray const&\)>, [^:]*std::allocator<.*?> >::'
    def elem(eng, st, p):
        p = un(p); o = p.obj; i = o.info
        if o in st.dead: eng.fail(st, 'no-use-after-free', 'vector element'); raise S.PathEnd()
        k = p.off // i.stride if isint(p.off) else simp(z3.UDiv(p.off, z3.BitVecVal(i.stride, 64)))
        eng.oblige(st, simpb(z3.ULT(B64(p.off), i.stride*B64(i.n))), 'iterator-dereferenceable'); return i.elem(eng, st, k)
    eng.vec_elem = elem
    def hv(eng, st, p):
        x = st.mem.get(un(p).obj, {}).get(un(p).off)
        if x is None or not isinstance(x[1], HVec): raise Unsupported('handler vector %r' % (p,))
        return x[1]
    def mkbuf(st, n, stride, el, kind): o = eng.alloc(st, kind, None, 'vec'); o.info = VInfo(n, stride, el, kind); return o
    eng.mkvec = mkbuf
    @model(HV + r'vector\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 24, HVec(None))
    @model(HV + r'vector\(std::vector<.*> const&\)$')
    def _(eng, st, a, c):
        v = hv(eng, st, a[1]); b = v.buf and mkbuf(st, v.buf.info.n, 32, v.buf.info.elem, 'handlers'); eng.store(st, a[0], 24, HVec(b, v.extra))
    @model(HV + r'(~vector|reserve|shrink_to_fit)\(')
    def _(eng, st, a, c): return None
    @model(HV + r'(push_back|emplace_back(<.*>)?)\(')
    def _(eng, st, a, c):
        v = hv(eng, st, a[0]); f = fv(eng, st, a[1]); 
        if v.buf is not None: st.dead = st.dead | {v.buf}
        nb = v.buf and mkbuf(st, v.buf.info.n, 32, v.buf.info.elem, 'handlers'); eng.store(st, a[0], 24, HVec(nb, v.extra + (f.id,)))
    @model(HV + r'(begin|end|cbegin|cend)\(\)( const)?$')
    def _(eng, st, a, c):
        v = hv(eng, st, a[0])
        if v.extra: raise Unsupported('iteration over handlers just added')
        if v.buf is None: return Ptr(mkbuf(st, 0, 32, None, 'handlers'), 0)
        return Ptr(v.buf, 0) if 'begin' in c.dem.rsplit('::', 1)[1] else Ptr(v.buf, simp(32*B64(v.buf.info.n)))
    @model(HV + r'(size|empty)\(\) const$')
    def _(eng, st, a, c):
        v = hv(eng, st, a[0]); n = simp(B64(v.buf.info.n if v.buf else 0) + len(v.extra)); return eqv(n, 0) if 'empty' in c.dem.rsplit('::', 1)[1] else n
    @model(HV + r'operator\[\]\(unsigned long\)( const)?$')
    def _(eng, st, a, c): 
        v = hv(eng, st, a[0]); return Ptr(v.buf, simp(32*B64(a[1])))
    # ------------------------------------------------------------ std::vector<std::shared_ptr<QGrpcStream>>
    SV = r'^std::vector<std::shared_ptr<QtProtobuf::QGrpcStream>, .*?> >::'
    def sv(eng, st, p):
        x = st.mem.get(un(p).obj, {}).get(un(p).off)
        if x is None or not isinstance(x[1], SVec): raise Unsupported('stream vector %r' % (p,))
        return x[1]
    def put(eng, st, p, v): eng.destroy(st, un(p), 24); eng.store(st, un(p), 24, v)
    def cell(eng, st, strm):
        o = eng.alloc(st, 'element', 16); o.info = ('element', strm.obj); p = Ptr(o, 0); eng.store(st, p, 8, strm); eng.store(st, Ptr(o, 8), 8, NULL); return p
    eng.svec = lambda st, p: sv(eng, st, p); eng.put_svec = lambda st, p, v: put(eng, st, p, v)
    @model(SV + r'vector\(\)$')
    def _(eng, st, a, c): put(eng, st, a[0], SVec(0, complete=True))
    @model(SV + r'vector\(std::vector<.*> const&\)$')
    def _(eng, st, a, c): v = sv(eng, st, a[1]); put(eng, st, a[0], SVec(v.n, v.known, v.gone, v.idx, v.buf, v.complete))
    @model(SV + r'(~vector|reserve|shrink_to_fit)\(')
    def _(eng, st, a, c): return None
    @model(SV + r'(push_back|emplace_back(<.*>)?)\(')
    def _(eng, st, a, c):
        v = sv(eng, st, a[0]); p = un(eng.load(st, a[1], 8, ('ptr',))); st.ev('remember', p); put(eng, st, a[0], SVec(simp(B64(v.n) + 1), v.known + (p,), [g for g in v.gone if g is not p.obj], v.idx, None, v.complete))
        if v.buf is not None: st.dead = st.dead | {v.buf}
    @model(SV + r'erase\(__gnu_cxx::__normal_iterator<[^,]*, .*>\)$')
    def _(eng, st, a, c):
        v = sv(eng, st, a[0]); it = un(a[1]); it = un(eng.load(st, it, 8, ('ptr',))) if it.obj.kind == 'stack' else it
        if it.obj.kind == 'vec': raise Unsupported('erase by position') if not isinstance(it.obj.info, VInfo) else Unsupported('erase by position')
        if not (isinstance(it.obj.info, tuple) and it.obj.info[0] == 'element'): eng.fail(st, 'erase-valid-iterator'); raise S.PathEnd()
        o = it.obj.info[1]; p = [x for x in v.known if x.obj is o]
        if not p: eng.fail(st, 'erase-valid-iterator'); raise S.PathEnd()
        if len(a) > 2:
            e = un(a[2]); e = un(eng.load(st, e, 8, ('ptr',))) if e.obj.kind == 'stack' else e
            if e.obj.kind != 'vec' or eng.prove(st, B64(e.off) == 16*B64(v.n))[0] != 'proved': raise Unsupported('erase of a range')
            eng.oblige(st, eqv(v.n, 1), 'no-other-stream-is-forgotten')
        st.ev('forget', p[0]); st.dead = st.dead | {it.obj} | ({v.buf} if v.buf is not None else set()); put(eng, st, a[0], SVec(simp(B64(v.n) - 1), [x for x in v.known if x.obj is not o], v.gone + (o,), {}, None, v.complete)); return it
    def buf(eng, st, p):
        v = sv(eng, st, p)
        if v.buf is None:
            b = eng.alloc(st, 'streams', None, 'vec'); b.info = VInfo(v.n, 16, None, 'streams'); b.info.owner = un(p); put(eng, st, p, SVec(v.n, v.known, v.gone, v.idx, b, v.complete)); return b
        return v.buf
    @model(SV + r'(begin|cbegin)\(\)( const)?$')
    def _(eng, st, a, c): return Ptr(buf(eng, st, a[0]), 0)
    @model(SV + r'(end|cend)\(\)( const)?$')
    def _(eng, st, a, c): v = sv(eng, st, a[0]); return Ptr(buf(eng, st, a[0]), simp(16*B64(v.n)))
    @model(SV + r'(size|empty)\(\) const$')
    def _(eng, st, a, c): v = sv(eng, st, a[0]); return eqv(v.n, 0) if 'empty' in c.dem.rsplit('::', 1)[1] else v.n
    NI = r'^__gnu_cxx::__normal_iterator<(const )?std::(shared_ptr<QtProtobuf::QGrpcStream>|function<void \(QByteArray const&\)>)( const)?\*, .*> >::'
    def other(eng, st, at, v, i=None):
        """one more member, different from the known ones (data structure invariant: pairwise different)"""
        s = st; f = eng.mk_member(s, 'active%d' % len(v.known)); known = v.known + (f,); put(eng, s, at, SVec(v.n, known, v.gone, v.idx, v.buf, v.complete)); return f
    def member_at(eng, st, b, off):
        """element at an iterator position -> [(state, stream)]"""
        at = b.info.owner; v = sv(eng, st, at); i = simp(z3.UDiv(B64(off), z3.BitVecVal(16, 64))); outs = []; non = []
        for p in v.known:
            ix = v.idx.get(p.obj)
            if ix is None: raise Unsupported('iteration behind modifications')
            e = simpb(B64(ix) == i)
            if eng.feasible(st, e): s2 = st.fork(); s2.assume(e); outs.append((s2, p))
            non.append(z3.Not(zb(e)))
        s3 = st.fork()
        for x in non: s3.assume(x)
        if not v.complete and eng.check(s3)[0] != 'unsat':
            v = sv(eng, s3, at); p = other(eng, s3, at, v); v = sv(eng, s3, at); d = dict(v.idx); d[p.obj] = i; put(eng, s3, at, SVec(v.n, v.known, v.gone, d, v.buf, v.complete)); outs.append((s3, p))
        return outs
    @model(NI + r'operator(\*|->)\(\) const$')
    def _(eng, st, a, c):
        p = un(a[0]); p = un(eng.load(st, p, 8, ('ptr',)))
        if p.obj in st.dead: eng.fail(st, 'no-use-after-free', 'vector element'); raise S.PathEnd()
        if p.obj.kind == 'vec' and p.obj.info.kind == 'streams':
            eng.oblige(st, simpb(z3.ULT(B64(p.off), 16*B64(p.obj.info.n))), 'iterator-dereferenceable'); return [(s, ('ret', cell(eng, s, m))) for s, m in member_at(eng, st, p.obj, p.off)]
        return p
    def pred(eng, c): 
        d = c.dem; i = d.index('find_if<'); depth = 0; j = i + 7
        while True:
            if d[j] == '<': depth += 1
            elif d[j] == '>' and d[j-1] != '-': 
                depth -= 1
                if depth == 0: break
            j += 1
        return fn_of(eng, Q.split_targs(d[i+8:j])[-1].strip() + '::operator()(')
    @model(r'^.*\bstd::(find_if|any_of)<__gnu_cxx::__normal_iterator<std::shared_ptr<QtProtobuf::QGrpcStream>')
    def _(eng, st, a, c):
        """first element that satisfies the predicate (its real body), or last when no element does"""
        if 'find_if<' not in c.dem: raise Unsupported('any_of')
        b = un(a[0]).obj; at = b.info.owner; v = sv(eng, st, at); f = pred(eng, c); outs = []
        if not (isint(un(a[0]).off) and un(a[0]).off == 0): raise Unsupported('partial search')
        def test(s, p): 
            r = []
            for s2, o in eng.run(s, f, [a[2], cell(eng, s, p)], 1):
                if o[0] != 'ret': outs.append((s2, o)); continue
                r.append((s2, o[1] if not isint(o[1]) else bool(o[1])))
            return r
        cur = [st]
        for p in v.known:
            nxt = []
            for s in cur:
                for s2, r in test(s, p):
                    if r is True or r is not False and eng.feasible(s2, zb(r)):
                        s3 = s2.fork()
                        if r is not True: s3.assume(zb(r))
                        outs.append((s3, ('ret', cell(eng, s3, p))))
                    if r is False or r is not True and eng.feasible(s2, z3.Not(zb(r))):
                        s3 = s2.fork()
                        if r is not False: s3.assume(z3.Not(zb(r)))
                        nxt.append(s3)
            cur = nxt
        for s in cur:
            if not v.complete:
                s3 = s.fork(); p = other(eng, s3, at, sv(eng, s3, at))
                for s4, r in test(s3, p):
                    if r is False or r is not True and not eng.feasible(s4, zb(r)): continue
                    if r is not True: s4.assume(zb(r))
                    outs.append((s4, ('ret', cell(eng, s4, p))))
            outs.append((s, ('ret', a[1])))
        return outs
    @model(r'^.*\bstd::(find|count)<__gnu_cxx::__normal_iterator<std::shared_ptr<QtProtobuf::QGrpcStream>')
    def _(eng, st, a, c):
        b = un(a[0]).obj; v = sv(eng, st, b.info.owner); p = un(eng.load(st, a[2], 8, ('ptr',)))
        if p.obj is None or not (v.has(p.obj) or p.obj in v.gone or v.complete or p.obj in eng.never_members): raise Unsupported('membership of %r' % (p,))
        h = v.has(p.obj)
        if 'std::count<' in c.dem: return 1 if h else 0
        return cell(eng, st, p) if h else a[1]
    # ------------------------------------------------------------ shared and weak pointers
    @model(r'^(.* )?std::__shared_ptr<.+>::reset<.+>\(.*\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, un(a[1])); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL)
    @model(r'^std::shared_ptr<.+>::shared_ptr<.+>\(.*\)$')
    def _(eng, st, a, c):
        if '::shared_ptr<QtProtobuf::QGrpcStream, void>(std::weak_ptr' in c.dem: raise Unsupported('shared from weak')
        eng.store(st, a[0], 8, un(a[1])); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL)
    @model(r'^.*\bstd::make_shared<QMetaObject::Connection>\(')
    def _(eng, st, a, c): o = eng.alloc(st, 'connection', 8); eng.store(st, Ptr(o, 0), 8, NULL); eng.store(st, a[0], 8, Ptr(o, 0)); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL)
    @model(r'^bool std::operator(==|!=)<.*>\(std::shared_ptr<.*> const&, (decltype\(nullptr\)|std::nullptr_t|std::shared_ptr<.*> const&)\)$')
    def _(eng, st, a, c):
        x = un(eng.load(st, a[0], 8, ('ptr',)))
        if 'nullptr' in c.dem.rsplit(',', 1)[1]: e = x.obj is None
        else: y = un(eng.load(st, a[1], 8, ('ptr',))); e = x.obj is y.obj
        return (not e) if c.m.group(1) == '!=' else e
    @model(r'^(.* )?std::(__)?weak_ptr<.+>::(__)?weak_ptr(<.+>)?\(.*\)$|^(.* )?std::(__)?weak_ptr<.+>::operator=(<.+>)?\(')
    def _(eng, st, a, c):
        eng.store(st, a[0], 8, un(eng.load(st, a[1], 8, ('ptr',))) if len(a) > 1 else NULL); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL); return a[0]
    @model(r'^std::(__)?weak_ptr<.+>::~(__)?weak_ptr\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^std::(__)?weak_ptr<.+>::(lock|expired)\(\) const$')
    def _(eng, st, a, c):
        lk = 'lock' in c.dem.rsplit('::', 1)[1]; p = un(eng.load(st, a[1] if lk else a[0], 8, ('ptr',))); alive = p.obj is not None and st.ghost.get(('referenced', p.obj), True)
        if not lk: return not alive
        eng.store(st, a[0], 8, p if alive else NULL); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL)
    # ------------------------------------------------------------ QObject, QPointer
    @model(r'^QObject::QObject\(QObject\*\)$')
    def _(eng, st, a, c): st.ghost['parent', un(a[0]).obj] = un(a[1])
    @model(r'^QObject::~QObject\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QObject::parent\(\) const$')
    def _(eng, st, a, c): return st.ghost['parent', un(a[0]).obj]
    QPR = r'^QPointer<.+>::'
    @model(QPR + r'QPointer\(QPointer<.+>( const&|&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], eng.get_abs(st, a[1], QP, 'QPointer'), 16)
    @model(QPR + r'~QPointer\(\)$')
    def _(eng, st, a, c): return None
    @model(QPR + r'isNull\(\) const$')
    def _(eng, st, a, c): return eng.get_abs(st, a[0], QP, 'QPointer').p.obj is None
    @model(QPR + r'(operator\*|operator->|data|operator .*)\(\) const$')
    def _(eng, st, a, c):
        p = eng.get_abs(st, a[0], QP, 'QPointer').p
        if c.dem.endswith('operator*() const') and p.obj is None: eng.fail(st, 'no-null-dereference', 'QPointer'); raise S.PathEnd()
        return p
    # ------------------------------------------------------------ QString/QLatin1String of literals
    @model(r'^QString::QString\(QLatin1String\)$|^QString::operator=\(QLatin1String\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Str(Rope([Sl(z3.Array('latin1text', z3.BitVecSort(64), z3.BitVecSort(8)), 0, 5)])), 8)
    # ------------------------------------------------------------ arbitrary message codec
    @model(r'^UMsg::ser\(')
    def _(eng, st, a, c): p = Ptr(eng.alloc(st, 'encoded', 8), 0); eng.put_abs(st, p, Q.share(st, st.ghost['encoded']), 8); st.ev('encode', un(a[0]), un(a[1])); return p
    @model(r'^v_user_deserialize$')
    def _(eng, st, a, c):
        st.ev('decode', un(a[0]), un(a[1]), st.mem[eng.get_abs(st, a[2], BA, 'data').buf]['rope']); res = []
        for ex in (None,) + EXCS:
            s = st.fork(); s.ghost['decoded'] = ex; res.append((s, ('ret', None) if ex is None else ('exc', Exc(ex))))
        return res
    @model(r'^__cxa_guard_acquire$')
    def _(eng, st, a, c): return 1
    @model(r'^__cxa_guard_release$')
    def _(eng, st, a, c): eng.store(st, un(a[0]), 1, 1)
    @model(r'^__cxa_guard_abort$|^__cxa_atexit$')
    def _(eng, st, a, c): return 0
    @model(r'^strlen$')
    def _(eng, st, a, c):
        p = un(a[0]); n = 0
        while n < 4096:
            x = eng.load(st, Ptr(p.obj, add64(p.off, n)), 1)
            if not isint(x): raise Unsupported('strlen')
            if x == 0: return n
            n += 1
        raise Unsupported('strlen')
    eng.models[:] = mine + [m for m in eng.models if 'QGrpcStream::handler' not in m[0].pattern]; eng._mcache.clear()
    eng.on_handler = None; eng.never_members = set()
    eng.own_thread = Ptr(Obj('ownThread', 8, 'heap'), 0); eng.other_thread = Ptr(Obj('otherThread', 8, 'heap'), 0)
EXCS = ('_ZTISt16invalid_argument', '_ZTISt12out_of_range', '_ZTISt13runtime_error', '_ZTISt12length_error', '_ZTISt11logic_error', '_ZTISt9bad_alloc', '_ZTISt17bad_function_call', '_ZTIi')
