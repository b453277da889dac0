"""Assumed contracts of the Qt event and network layer: connections, timers, replies, requests; events are ghost state."""
import z3
from sym import *
from rope import *
import sym as S, qtmodels as Q
from qtmodels import Str, mkba, Var
from loops import CutSpec
def un(p): return p.p if isinstance(p, PInt) else p
def live(st):
    """live connections: number -> (sender, signal, receiver, slot object or method name)"""
    d = {}
    for e in st.trace:
        if e[0] == 'connect': d[e[1]] = e[2:]
        elif e[0] == 'disconnect': d.pop(e[1], None)
    return d
def events(st, *kinds): return [e for e in st.trace if e[0] in kinds]
class Reply:
    """ghost description of one network reply"""
    def __init__(s, k): s.k = k
    def __repr__(s): return 'reply%d' % s.k
def mkreply(eng, st, k=None):
    k = k or 1 + sum(e[0] == 'newreply' for e in st.trace)
    o = eng.alloc(st, 'reply%d' % k, 256); o.info = Reply(k); p = Ptr(o, 0); eng.store(st, p, 8, Ptr(eng.reply_vt, 0)); st.ev('newreply', k, p)
    e = fbv('reply%d_error' % k, 32); eng.inputs['reply%d_error' % k] = e; st.ghost['err', k] = e; eng.err_domain(st, e); st.ghost['fin', k] = fbool('reply%d_finished' % k)
    n = fbv('reply%d_n' % k, 64); st.assume(z3.ULT(n, 1 << 30)); st.ghost['body', k] = st.ghost['body0', k] = Rope([Sl(farr('reply%d_body' % k), 0, n)])
    return p
def R(eng, st, p):
    p = un(p)
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.obj.info, Reply): raise Unsupported('network reply %r' % (p,))
    return p.obj.info.k
def sname(eng, p):
    """name of the member function a void** points to"""
    p = un(p)
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'fn': return eng.dem(p.obj.name).split('(')[0]
    raise Unsupported('connection to %r' % (p,))
def fire(eng, st, sender, signal, args=()):
    """run the live connections of one signal in connection order -> states"""
    outs = [st]; last = signal.rsplit('::', 1)[1]
    for k, (snd, sig, rcv, slot) in sorted(live(st).items()):
        if un(snd).obj is not sender.obj or sig.rsplit('::', 1)[1] != last: continue
        nxt = []
        for s in outs:
            if k not in live(s): nxt.append(s); continue
            for s2, o in slotcall(eng, s, slot, rcv, args):
                if o[0] != 'ret': eng.fail(s2, 'no-exception-from-slot', str(o[1])); continue
                nxt.append(s2)
        outs = nxt
    return outs
def slotcall(eng, st, slot, rcv, args, ret=NULL):
    f = un(eng.load(st, Ptr(slot.obj, slot.off + 8), 8, ('ptr',)))          # m_impl behind the reference count
    if not (isinstance(f, Ptr) and f.obj is not None and f.obj.kind == 'fn'): raise Unsupported('slot object')
    fn = eng.find_fn(f.obj.name)
    arr = Ptr(eng.alloc(st, 'sigargs', 8*(len(args) + 1)), 0); eng.store(st, arr, 8, ret)
    for i, a in enumerate(args): eng.store(st, Ptr(arr.obj, 8*(i + 1)), 8, a)
    return eng.run(st, fn, [1, slot, rcv, arr, NULL], 1)
def absvt(eng, name, get):
    """vtable object whose slot i is the abstract function get(i)"""
    o = Obj(name, 8*64, 'heap'); return o
def slot_of(eng, st, helper, args):
    """index of the virtual function that helper calls on its last argument"""
    seen = []
    vt = eng.alloc(st, 'vt', 8*64)
    for i in range(64):
        def f(e, s, a, c, i=i): seen.append(i); return None
        eng.store(st, Ptr(vt, 8*i), 8, Ptr(Obj('slot%d' % i, 1, 'absfn', f), 0))
    o = Ptr(eng.alloc(st, 'probe', 64), 0); eng.store(st, o, 8, Ptr(vt, 0))
    import ser
    eng.run(st, ser.cfn(eng, helper), list(args) + [o])
    if len(seen) != 1: raise Unsupported('slot of ' + helper)
    return seen[0]
def vtable(eng, st, name, fns):
    vt = eng.alloc(st, name, 8*64)
    for i in range(64):
        f = fns.get(i)
        if f is None:
            def f(e, s, a, c, i=i): raise Unsupported('virtual function %d of %s' % (i, name))
        eng.store(st, Ptr(vt, 8*i), 8, Ptr(Obj('%s.%d' % (name, i), 1, 'absfn', f), 0))
    return vt
class Status:
    """value of a QGrpcStatus"""
    __slots__ = ('code', 'msg')
    def __init__(s, c, m): s.code = c; s.msg = m
    def __repr__(s): return 'Status(%r,%r)' % (s.code, s.msg)
class HeaderCut(CutSpec):
    """the loop over call credentials only adds request headers"""
    name = 'credentials'
    def wants(self, eng, fn, blk, kinds): return 'umapit' in kinds
    def ev_step(self, ctx, evs):
        for e in evs:
            if e[0] not in ('header',): raise Unsupported('effect %r in credential loop' % (e,))
    def var_value(self, ctx, cell, old): return old
    def var_step(self, ctx, cell, old, new): pass
def install_net(eng):
    model = eng.model
    def N(st): return 1 + sum(e[0] == 'connect' for e in st.trace)
    # ------------------------------------------------------------ QObject connections
    @model(r'^QObject::connectImpl\(')
    def _(eng, st, a, c):
        snd, sig, rcv, slot = un(a[1]), sname(eng, eng.load(st, a[2], 8, ('ptr',))), un(a[3]), un(a[5])
        k = N(st); h = eng.alloc(st, 'conn%d' % k, 8); h.info = ('conn', k)
        st.ev('connect', k, snd, sig, rcv, slot); eng.store(st, a[0], 8, Ptr(h, 0))
    @model(r'^QObject::disconnect\(QMetaObject::Connection const&\)$')
    def _(eng, st, a, c):
        v = un(eng.load(st, a[0], 8, ('ptr',)))
        if isinstance(v, Ptr) and v.obj is not None and isinstance(v.obj.info, tuple) and v.obj.info[0] == 'conn': k = v.obj.info[1]; r = k in live(st); st.ev('disconnect', k); return r
        if isinstance(v, Ptr) and v.obj is None or isint(v) and v == 0: return False
        raise Unsupported('connection %r' % (v,))
    @model(r'^QMetaObject::Connection::Connection\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, NULL)
    @model(r'^QMetaObject::Connection::~Connection\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QMetaObject::Connection::Connection\(QMetaObject::Connection( const&|&&)\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, eng.load(st, a[1], 8, ('ptr',)))
    @model(r'^QMetaObject::Connection::operator=\(QMetaObject::Connection( const&|&&)\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, eng.load(st, a[1], 8, ('ptr',))); return a[0]
    @model(r'^QMetaObject::Connection::operator .*\(\) const$')        # safe bool: a null member pointer is -1; true while connected
    def _(eng, st, a, c):
        v = un(eng.load(st, a[0], 8, ('ptr',)))
        on = isinstance(v, Ptr) and v.obj is not None and v.obj.info[1] in live(st)
        return 0 if on else (1 << 64) - 1
    @model(r'^QtPrivate::QSlotObjectBase::QSlotObjectBase\(void \(\*\)')
    def _(eng, st, a, c): eng.store(st, a[0], 4, 1); eng.store(st, Ptr(a[0].obj, a[0].off + 8), 8, a[1])
    @model(r'^QTimer::singleShotImpl\(')
    def _(eng, st, a, c): st.ev('timer', a[0], un(a[2]), un(a[3]))
    @model(r'^QObject::deleteLater\(\)$')
    def _(eng, st, a, c): st.ev('deleteLater', un(a[0]))
    @model(r'^QMutexLocker::|^QMutex::|^QBasicMutex::|^QMutexLocker')
    def _(eng, st, a, c): return None
    # ------------------------------------------------------------ std::shared_ptr without its count
    SP = r'^std::(__)?shared_ptr<.+>::'
    def cp(eng, st, d, s): eng.store(st, d, 8, eng.load(st, s, 8, ('ptr',))); eng.store(st, Ptr(d.obj, add64(d.off, 8)), 8, NULL)
    @model(SP + r'shared_ptr<[^()]*>\([^()]*\*\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, un(a[1])); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL)
    @model(SP + r'(shared_ptr|operator=)(<[^()]*>)?\(std::(__)?shared_ptr<.*( const&|&&)\)$')
    def _(eng, st, a, c):
        cp(eng, st, a[0], a[1])
        if c.dem.endswith('&&)') and not (a[0].obj is a[1].obj and Q.teq(a[0].off, a[1].off)): eng.store(st, a[1], 8, NULL)
        return a[0]
    @model(SP + r'shared_ptr\((decltype\(nullptr\)|std::nullptr_t)?\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, NULL); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, NULL)
    @model(SP + r'~shared_ptr\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^std::(__shared_ptr_access|__shared_ptr|shared_ptr)<.+>::(operator\*|operator->|get)\(\) const$')
    def _(eng, st, a, c): return un(eng.load(st, a[0], 8, ('ptr',)))
    @model(r'^std::(__shared_ptr|shared_ptr)<.+>::operator bool\(\) const$')
    def _(eng, st, a, c): return un(eng.load(st, a[0], 8, ('ptr',))).obj is not None
    @model(SP + r'reset\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, NULL)
    # ------------------------------------------------------------ request
    @model(r'^QUrl::QUrl\(QUrl const&\)$|^QUrl::operator=\(QUrl( const&|&&)\)$|^QUrl::QUrl\(QUrl&&\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], eng.get_abs(st, a[1], Term, 'url')); return a[0]
    @model(r'^QUrl::setPath\(')
    def _(eng, st, a, c): u = eng.get_abs(st, a[0], Term, 'url'); eng.put_abs(st, a[0], Term('url', u.args[0], eng.get_abs(st, a[1], Str, 'path').rope))
    @model(r'^QUrl::~QUrl\(\)$|^QNetworkRequest::~QNetworkRequest\(\)$|^QHash<QLatin1String, QVariant>::~QHash\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QNetworkRequest::QNetworkRequest\(QUrl const&\)$')
    def _(eng, st, a, c): st.ghost['reqs'] = n = st.ghost.get('reqs', 0) + 1; eng.put_abs(st, a[0], Term('req', eng.get_abs(st, a[1], Term, 'url'), n))
    @model(r'^QNetworkRequest::(QNetworkRequest|operator=)\(QNetworkRequest( const&|&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], eng.get_abs(st, a[1], Term, 'request')); return a[0]
    @model(r'^QNetworkRequest::(setHeader|setRawHeader|setSslConfiguration|setAttribute)\(')
    def _(eng, st, a, c):
        """each is recorded: (request, kind, name or number, value)"""
        def val(p):
            try: return eng.get_abs(st, p, None, 'value')
            except Unsupported: return None
        def rope(p): return st.mem[eng.get_abs(st, p, BA, 'header').buf]['rope']
        k = c.m.group(1); n = eng.get_abs(st, a[0], Term, 'request').args[1]
        if k == 'setRawHeader': st.ev('header', n, k, rope(a[1]), rope(a[2]))
        elif k == 'setSslConfiguration': st.ev('header', n, k, None, val(a[1]))
        else: st.ev('header', n, k, a[1], eng.V(st, a[2]))
    @model(r'^QNetworkAccessManager::post\(QNetworkRequest const&, QByteArray const&\)$')
    def _(eng, st, a, c):
        rq = eng.get_abs(st, a[1], Term, 'request'); b = st.mem[eng.get_abs(st, a[2], BA, 'body').buf]['rope']
        p = mkreply(eng, st); st.ev('post', rq.args[0], b, p, rq.args[1]); return p
    H = r'^QHash<QLatin1String, QVariant>::'
    @model(H + r'(begin|end|cbegin|cend|constBegin|constEnd)\(\)( const)?$')
    def _(eng, st, a, c):
        if 'begin' in c.dem.rsplit('::', 1)[1].lower(): return eng.umap_itptr(eng.credmap, 0)
        return eng.umap_itptr(eng.credmap, eng.credmap.n)
    HI = H + r'(const_)?iterator::'
    def it(eng, st, p): return un(eng.load(st, p, 8, ('ptr',)))
    @model(HI + r'operator(==|!=)\(')
    def _(eng, st, a, c):
        x = it(eng, st, a[0]); y = a[1] if not (isinstance(a[1], Ptr) and a[1].obj is not None and a[1].obj.kind == 'stack') else it(eng, st, a[1])
        e = eng.icmp(st, 'eq', ('ptr',), x, y); return bnot(e) if c.m.group(2) == '!=' else e
    @model(HI + r'operator\+\+\(\)$')
    def _(eng, st, a, c): v = it(eng, st, a[0]); eng.store(st, a[0], 8, Ptr(v.obj, simp(add64(v.off, 8)))); return a[0]
    @model(HI + r'operator\+\+\(int\)$')
    def _(eng, st, a, c):
        if len(a) > 2: raise Unsupported('iterator returned in memory')
        v = it(eng, st, a[0]); eng.store(st, a[0], 8, Ptr(v.obj, simp(add64(v.off, 8)))); return v
    @model(HI + r'(key|value|operator\*|operator->)\(\) const$')
    def _(eng, st, a, c):
        v = it(eng, st, a[0]); o = eng.alloc(st, 'credential', 16); p = Ptr(o, 0)
        if 'key' in c.dem.rsplit('::', 1)[1]: eng.store(st, p, 4, 5); ks = eng.alloc(st, 'credkey', 4); eng.store(st, Ptr(ks, 0), 1, 107); eng.store(st, Ptr(ks, 1), 1, 0); eng.store(st, Ptr(o, 8), 8, Ptr(ks, 0))
        else: eng.setv(st, p, Var('QString', Str(Rope([Sl(farr('cred'), 0, 7)]))))
        return p
    @model(r'^QVariant::toString\(\) const$')
    def _(eng, st, a, c): n = fbv('strlen', 64); st.assume(z3.ULT(n, 1 << 20)); eng.put_abs(st, a[0], Str(Rope([Sl(farr('str'), 0, n)])), 8)
    @model(r'^QLatin1String::data\(\) const$')
    def _(eng, st, a, c): return eng.load(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, ('ptr',))
    # ------------------------------------------------------------ reply
    @model(r'^QNetworkReply::error\(\) const$')
    def _(eng, st, a, c): return st.ghost['err', R(eng, st, a[0])]
    @model(r'^QNetworkReply::(isFinished|isRunning)\(\) const$')
    def _(eng, st, a, c): f = st.ghost['fin', R(eng, st, a[0])]; return bnot(f) if 'isRunning' in c.dem else f
    @model(r'^QNetworkReply::rawHeader\(QByteArray const&\) const$')
    def _(eng, st, a, c):
        k = R(eng, st, a[1]); nm = st.mem[eng.get_abs(st, a[2], BA, 'header').buf]['rope']; n = nm.len()
        if not isint(n) or any(not isint(nm.at(i)) for i in range(n)): raise Unsupported('header name')
        Q.put_ba(eng, st, a[0], header(eng, st, k, bytes(nm.at(i) for i in range(n)).decode()))
    @model(r'^QIODevice::errorString\(\) const$')
    def _(eng, st, a, c): k = R(eng, st, a[1]); eng.put_abs(st, a[0], Str(Rope([Sl(z3.Array('errstr%d' % k, z3.BitVecSort(64), z3.BitVecSort(8)), 0, 9)])), 8)
    @model(r'^QIODevice::readAll\(\)$')
    def _(eng, st, a, c): k = R(eng, st, a[1]); b = st.ghost['body', k]; st.ghost['body', k] = Rope(); st.ev('read', k); Q.put_ba(eng, st, a[0], b)
    # ------------------------------------------------------------ event loop
    @model(r'^QEventLoop::QEventLoop\(QObject\*\)$|^QEventLoop::~QEventLoop\(\)$')
    def _(eng, st, a, c): st.ghost['quit', un(a[0]).obj] = False
    @model(r'^QEventLoop::(quit|exit)\(')
    def _(eng, st, a, c): st.ghost['quit', un(a[0]).obj] = True
    @model(r'^QEventLoop::exec\(')
    def _(eng, st, a, c):
        """the network answers while the loop runs; it must then have been left"""
        p = [e[2] for e in events(st, 'newreply')][-1]; lo = un(a[0]).obj; res = []
        for s in finish(eng, st, p):
            eng.oblige(s, bool(s.ghost.get(('quit', lo))), 'event-loop-left-when-the-reply-finishes', assume=False)
            if s.ghost.get(('quit', lo)): res.append((s, ('ret', 0)))
        return res
    @model(r'^QFlags<.*>::QFlags\(')
    def _(eng, st, a, c): eng.store(st, a[0], 4, a[1] if len(a) > 1 and isint(a[1]) else 0)
    # ------------------------------------------------------------ status and signals of the library
    GS = r'^QtProtobuf::QGrpcStatus::'
    @model(GS + r'QGrpcStatus\(QtProtobuf::QGrpcStatus::StatusCode, QString const&\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Status(a[1], eng.get_abs(st, a[2], Str, 'message').rope), 8)
    @model(GS + r'QGrpcStatus\(QtProtobuf::QGrpcStatus::StatusCode, QLatin1String')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Status(a[1], Term('latin1')), 8)
    @model(GS + r'(QGrpcStatus|operator=)\(QtProtobuf::QGrpcStatus( const&|&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], eng.get_abs(st, a[1], Status, 'status'), 8); return a[0]
    @model(GS + r'~QGrpcStatus\(\)$')
    def _(eng, st, a, c): return None
    @model(GS + r'code\(\) const$')
    def _(eng, st, a, c): return eng.get_abs(st, a[0], Status, 'status').code
    @model(GS + r'message\(\) const$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Str(eng.get_abs(st, a[1], Status, 'status').msg), 8)
    @model(GS + r'operator(==|!=)\(QtProtobuf::QGrpcStatus::StatusCode\) const$')
    def _(eng, st, a, c): e = eqv(eng.get_abs(st, a[0], Status, 'status').code, a[1], 32); return bnot(e) if c.m.group(1) == '!=' else e
    @model(r'^QtProtobuf::(QGrpcAsyncOperationBase|QGrpcStream|QGrpcCallReply)::(finished|error|messageReceived)\((.*)\)$')
    def _(eng, st, a, c):
        p = un(a[0]); nm = c.m.group(2); st.ev('signal', nm, p, eng.get_abs(st, a[1], Status, 'status') if len(a) > 1 else None)
        return [(s, ('ret', None)) for s in fire(eng, st, p, '::' + nm, a[1:])]
    @model(r'^QtProtobuf::QAbstractGrpcClient::error\(QtProtobuf::QGrpcStatus const&\) const$')
    def _(eng, st, a, c): st.ev('clienterror', un(a[0]), eng.get_abs(st, a[1], Status, 'status'))
    @model(r'^QtProtobuf::QGrpcStream::handler\(QByteArray const&\)$')
    def _(eng, st, a, c):
        b = st.mem[eng.get_abs(st, a[1], BA, 'message').buf]['rope']; st.ev('deliver', un(a[0]), b)
        for k in [x[1] for x in list(st.ghost) if isinstance(x, tuple) and x[0] == 'fin']:      # the handler may end the call
            f = st.ghost['fin', k]; g = fbool('ended_by_handler'); st.ghost['fin', k] = g if f is False else True if f is True else simpb(z3.Or(f, g))
    @model(r'^QString QString::arg<|^QString::arg\(|^QString::arg<')
    def _(eng, st, a, c): n = fbv('arglen', 64); st.assume(z3.ULT(n, 1 << 20)); eng.put_abs(st, a[0], Str(Rope([Sl(farr('argstr'), 0, n)])), 8)
    # ------------------------------------------------------------ map built from an initialiser list of (int, int) pairs
    @model(r'^std::unordered_map<(.+)>::unordered_map\(std::initializer_list<')
    def _(eng, st, a, c):
        base, n = un(a[1]), a[2]; m = Q.UMap(); d = {}
        for i in range(n):
            key = eng.load(st, Ptr(base.obj, add64(base.off, 8*i)), 4); v = eng.load(st, Ptr(base.obj, add64(base.off, 8*i + 4)), 4)
            if not isint(key): raise Unsupported('initialiser list')
            if key in d: continue
            nd = Ptr(eng.alloc(st, 'node', None, 'heap'), 0); eng.store(st, nd, 4, key); eng.store(st, Ptr(nd.obj, 4), 4, v); d[key] = (key, nd)
        m.d = d; eng.destroy(st, a[0], 56); eng.store(st, a[0], 56, m)
    eng.err_domain = lambda st, e: None
    eng.setup_net = lambda st: setup(eng, st)
def header(eng, st, k, name):
    a = z3.Array('HDR%d_%s' % (k, name), z3.BitVecSort(64), z3.BitVecSort(8)); eng.nonul = getattr(eng, 'nonul', frozenset()) | {str(a)}; eng.assumptions.add('HTTP header values contain no NUL byte'); n = z3.BitVec('HDRLEN%d_%s' % (k, name), 64); st.assume(z3.ULT(n, 1 << 20)); return Rope([Sl(a, 0, n)])
def finish(eng, st, p):
    """the reply p finishes now (with the error, header and body it has) -> states after its finished() signal"""
    st.ghost['fin', R(eng, st, p)] = True; return fire(eng, st, p, 'QNetworkReply::finished')
def setup(eng, st):
    ia = slot_of(eng, st, 'v_abort', []); m = Ptr(eng.alloc(st, 'm', 8), 0); ic = slot_of(eng, st, 'v_creds', [m])
    def abort(eng, st, a, c):
        k = R(eng, st, a[0]); f = st.ghost['fin', k]; st.ev('abort', k); outs = []
        if f is not True:
            s = st.fork(); s.assume(zb(bnot(f)))
            if eng.check(s)[0] != 'unsat':
                s.ghost['err', k] = 5; outs += [(x, ('ret', None)) for x in finish(eng, s, un(a[0]))]
        if f is not False:
            s = st.fork(); s.assume(zb(f)); s.ghost['fin', k] = True
            if eng.check(s)[0] != 'unsat': outs.append((s, ('ret', None)))
        return outs
    eng.reply_vt = vtable(eng, st, 'QNetworkReply', {ia: abort})
    def creds(eng, st, a, c): eng.put_abs(st, a[0], Term('credentials')); st.ev('creds')
    eng.cred_vt = vtable(eng, st, 'Credentials', {ic: creds, **getattr(eng, 'more_creds', lambda st: {})(st)})
    eng.credmap = Q.AMap('credentials', None, None, z3.BitVec('ncred', 64), lambda i: i); st.assume(z3.ULT(eng.credmap.n, 1 << 20))
    return st
