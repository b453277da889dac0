"""The HTTP/2 channel under the assumed Qt event and network contracts (engine/net.py)."""
from ser import *
import net, build, grpcnat
from net import *
from loops import with_cuts, CutSpec
VN = ('vnet', build.VERIF + '/native/vnet.cpp', ['-fno-access-control', '-DQT_BUILD_GRPC_LIB'])
MAP = {1: 14, 2: 14, 3: 14, 4: 4, 5: 14, 6: 7, 7: 2, 8: 14, 9: 2, 10: 14, 11: 7, 99: 2, 101: 14, 102: 14, 103: 14, 104: 4, 105: 16, 199: 2, 201: 7, 202: 7, 203: 5, 204: 7, 205: 15, 206: 3, 207: 15, 299: 2, 301: 2, 302: 12, 399: 2, 401: 13, 402: 12, 403: 14, 499: 2}
def mapped(e):
    """specified status of a network error (a known enumerator)"""
    r = z3.BitVecVal(2, 32)
    for k, v in MAP.items(): r = z3.If(bv(e, 32) == k, z3.BitVecVal(v, 32), r)
    return r
def known(e): return z3.Or(*[bv(e, 32) == k for k in (0,) + tuple(MAP)])
BVS = z3.BitVecSort; A8 = z3.ArraySort(BVS(64), BVS(8))
CK, CKL, CV, CVL = z3.Function('credKey', BVS(64), A8), z3.Function('credKeyLen', BVS(64), BVS(64)), z3.Function('credText', BVS(64), A8), z3.Function('credTextLen', BVS(64), BVS(64))
def dom(st, i, *fs):
    for f in fs: st.assume(z3.And(z3.ULT(f(i), 1 << 20), z3.UGT(f(i), 0)))
def keyrope(i): return Rope([Sl(CK(i), 0, CKL(i))])
def textrope(i): return Rope([Sl(CV(i), 0, CVL(i))])
class Cred:
    """value of the i-th credential"""
    def __init__(s, i): s.i = i
def install_creds(eng):
    """call credentials: entry i has the name credKey(i) and a value whose text is credText(i), neither of them empty"""
    model = eng.model; base = len(eng.models); old = list(eng.models); A = eng.assumptions.add
    A('credential names and texts are not empty, below 1 MiB and without NUL; names differ from each other and from the gRPC headers (Qt/HTTP)')
    HI = r'^QHash<QLatin1String, QVariant>::(const_)?iterator::'
    def idx(eng, st, p): v = un(eng.load(st, p, 8, ('ptr',))); return simp(z3.LShR(B64(v.off), 3))
    @model(HI + r'key\(\) const$')
    def _(eng, st, a, c):
        i = B64(idx(eng, st, a[0])); dom(st, i, CKL); o = eng.alloc(st, 'credkey', 16); t = eng.alloc(st, 'credname', None, 'buf'); st.wcells(t)['rope'] = keyrope(i); t.info = ('credname', i)
        eng.store(st, Ptr(o, 0), 4, simp(z3.Extract(31, 0, CKL(i)))); eng.store(st, Ptr(o, 8), 8, Ptr(t, 0)); return Ptr(o, 0)
    @model(HI + r'(value|operator\*)\(\) const$')
    def _(eng, st, a, c): i = B64(idx(eng, st, a[0])); p = Ptr(eng.alloc(st, 'credential', 16), 0); eng.setv(st, p, Var('credential', Cred(i))); return p
    @model(r'^QVariant::toString\(\) const$')
    def _(eng, st, a, c):
        v = eng.V(st, a[1])
        if isinstance(v.val, Cred): dom(st, v.val.i, CVL); eng.put_abs(st, a[0], Str(textrope(v.val.i)), 8)
        elif v.tn == 'QString': eng.put_abs(st, a[0], v.val, 8)
        else: raise Unsupported('text of a variant')
    @model(r'^QByteArray::QByteArray\(char const\*(, int)?\)$')
    def _(eng, st, a, c):
        p = un(a[1]); n = simp(a[2]) if len(a) > 2 else (1 << 32) - 1
        if isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.info, tuple) and p.obj.info[0] == 'credname' and isint(p.off) and p.off == 0:
            i = p.obj.info[1]
            if isint(n) and n == (1 << 32) - 1 or not isint(n) and eng.prove(st, bv(n, 32) == z3.Extract(31, 0, CKL(i)))[0] == 'proved': Q.put_ba(eng, st, a[0], keyrope(i)); return
        for rx, fn in old:
            m = rx.search(c.dem) 
            if m: c.m = m; return fn(eng, st, a, c)
        raise Unsupported('QByteArray(const char *)')
    @model(r'^QSslConfiguration::(QSslConfiguration|operator=)\(QSslConfiguration( const&|&&)\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], eng.get_abs(st, a[1], Term, 'ssl configuration'), 8); return a[0]
    @model(r'^QSslConfiguration::QSslConfiguration\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Term('no-ssl'), 8)
    @model(r'^QSslConfiguration::~QSslConfiguration\(\)$')
    def _(eng, st, a, c): return None
    eng.models[:] = eng.models[base:] + eng.models[:base]
class H: pass
def sstr(eng, st, name):
    n = fbv(name + '_len', 64); st.assume(z3.ULT(n, 1 << 24)); r = Rope([Sl(farr(name), 0, n)]); eng.inputs[name] = r; p = Ptr(eng.alloc(st, name, 8), 0); eng.put_abs(st, p, Str(r), 8); return p, r
def start(eng, globs=True):
    eng.mods[:] = [eng.run_ctx.mods['vnet']]; net.install_net(eng); install_creds(eng); st = State(); h = H(); eng.depth_limit = 120
    eng.setup_net(st); eng.err_domain = lambda st, e: st.assume(known(e))
    if globs:
        for n, f in eng.mods[0].fns.items():
            if '__cxx_global_var_init' in n:
                rs = eng.run(st, f, []); st = [s for s, o in rs if o[0] == 'ret'][0]
    h.chan = Ptr(eng.alloc(st, 'channel', 256), 0); h.priv = Ptr(eng.alloc(st, 'channelPrivate', 512), 0); h.cred = Ptr(eng.alloc(st, 'credentials', 64), 0)
    eng.store(st, h.cred, 8, Ptr(eng.cred_vt, 0))
    st, _ = run1(eng, st, cfn(eng, 'v_attach'), [h.chan, h.priv, h.cred])
    vt = '_ZTVN10QtProtobuf17QGrpcHttp2ChannelE'; eng.store(st, h.chan, 8, Ptr(eng.global_ptr(st, eng.mods[0], vt).obj, 16))
    st, u = run1(eng, st, cfn(eng, 'v_url'), [h.priv]); h.url = Term('base'); eng.put_abs(st, u, Term('url', h.url, Rope()))
    h.m, h.mr = sstr(eng, st, 'method'); h.s, h.sr = sstr(eng, st, 'service')
    ba, arr, n = symbytes(eng, st, 'payload', QBA_MAX - 64); h.arg = Ptr(eng.alloc(st, 'arg', 8), 0); eng.put_abs(st, h.arg, ba, 8); h.ar = Rope([Sl(arr, 0, n)]); h.n = n
    st.trace = (); return st, h
def mkasync(eng, st, h):
    h.rep = Ptr(eng.alloc(st, 'callReply', 512), 0); st, d = run1(eng, st, cfn(eng, 'v_data'), [h.rep]); old, _, _ = symbytes(eng, st, 'oldData'); eng.put_abs(st, d, old, 8); h.data = d; return st
def mkstream(eng, st, h):
    h.stream = Ptr(eng.alloc(st, 'stream', 512), 0); h.client = Ptr(eng.alloc(st, 'client', 512), 0)
    st, p = run1(eng, st, cfn(eng, 'v_s_method'), [h.stream]); eng.put_abs(st, p, Str(h.mr), 8)
    st, p = run1(eng, st, cfn(eng, 'v_s_arg'), [h.stream]); eng.put_abs(st, p, Q.share(st, eng.get_abs(st, h.arg, BA, 'arg')), 8); return st
def run(eng, st, f, args, cuts=()):
    for s, o in with_cuts(eng, [net.HeaderCut()] + list(cuts), lambda: eng.run(st.fork(), cfn(eng, f), list(args))):
        if o[0] != 'ret': eng.fail(s, 'no-exception', '%s %s' % (f, o[1])); continue
        yield s
def rope_at(eng, s, p): return s.mem[eng.get_abs(s, p, BA, 'bytes').buf]['rope']
def be32(n): n = B64(n); return [simp(z3.Extract(8*k + 7, 8*k, n)) for k in (3, 2, 1, 0)]
def posted(eng, s, h, what, count=1, base=None):
    ps = [e for e in (s.trace if base is None else s.trace[base:]) if e[0] == 'post']
    eng.oblige(s, len(ps) == count, what, '%d requests' % len(ps), assume=False)
    for e in ps:
        want = Rope([Lit([0] + be32(h.n))]) + h.ar; eng.posts += 1
        eng.oblige(s, rope_must_eq(eng, s, e[2], want), what, 'body is the framed payload', assume=False)
        path = Rope([Lit([47])]) + h.sr + Rope([Lit([47])]) + h.mr
        eng.oblige(s, isinstance(e[1], Term) and e[1].args[0] is h.url and rope_must_eq(eng, s, e[1].args[1], path), what, 'addressed to /service/method', assume=False)
def status(s, k): return k
def server(eng, s, k): return simp(Q.TOINT(*Q.rope_key(eng, s, net.header(eng, s, k, 'grpc-status'))))
def outcome(eng, s, k): 
    """(specified status, body delivered) of finished reply k; the body is what it carried when it finished"""
    e = s.ghost['err', k]; return simp(z3.If(bv(e, 32) == 0, server(eng, s, k), mapped(e)))
def payload_is(eng, s, got, body, ok, what):
    """got = body without its five-byte prefix when ok, nothing otherwise"""
    for cond, f in ((ok, lambda s2: after5(eng, s2, body)), (bnot(ok), lambda s2: Rope())):
        s2 = s.fork(); s2.assume(zb(cond))
        if eng.check(s2)[0] == 'unsat': continue
        eng.oblige(s2, rope_must_eq(eng, s2, got, f(s2)), what, 'status Ok' if f(s2).ps else 'failure', assume=False)
def after5(eng, s, body):
    n = B64(body.len()); sl = body.ps[0]; m = simp(z3.If(z3.UGE(n, 5), n - 5, z3.BitVecVal(0, 64))); return Rope([Sl(sl.arr, 5, m)])
def g_sync_req(eng):
    st, h = start(eng); r = Ptr(eng.alloc(st, 'status', 8), 0); ret = Ptr(eng.alloc(st, 'ret', 8), 0); Q.put_ba(eng, st, ret, Rope())
    for s in run(eng, st, 'v_sync', [r, h.chan, h.m, h.s, h.arg, ret]): posted(eng, s, h, 'one-framed-request')
def g_async_req(eng):
    st, h = start(eng); st = mkasync(eng, st, h)
    for s in run(eng, st, 'v_async', [h.chan, h.m, h.s, h.arg, h.rep]): posted(eng, s, h, 'one-framed-request')
def g_stream_req(eng):
    st, h = start(eng); st = mkstream(eng, st, h)
    for s in run(eng, st, 'v_stream', [h.chan, h.stream, h.s, h.client]): posted(eng, s, h, 'one-framed-request')

MSG = 'grpc-message'
def bodies(st): return {x[1]: st.ghost[x] for x in st.ghost if isinstance(x, tuple) and x[0] == 'body'}
def msg_is(eng, s, m, k, what):
    eng.oblige(s, isinstance(m, Rope) and rope_must_eq(eng, s, m, net.header(eng, s, k, MSG)), what, 'message of the server', assume=False)
def g_sync(eng):
    """the reply finishes before or while the call waits"""
    st, h = start(eng); r = Ptr(eng.alloc(st, 'status', 8), 0); ret = Ptr(eng.alloc(st, 'ret', 8), 0); old, _, _ = symbytes(eng, st, 'oldret'); eng.put_abs(st, ret, old, 8)
    keep = {}; mk = net.mkreply
    for s in run(eng, st, 'v_sync', [r, h.chan, h.m, h.s, h.arg, ret]):
        eng.posts += 1; k = 1; v = eng.get_abs(s, r, None, 'status'); body = s.ghost['body0', 1]
        want = outcome(eng, s, k)
        eng.oblige(s, isinstance(v, Status) and eqv(v.code, want, 32), 'status-is-the-reported-one', assume=False)
        if isinstance(v, Status): msg_is(eng, s, v.msg, k, 'status-carries-the-message')
        payload_is(eng, s, rope_at(eng, s, ret), body, eqv(want, 0, 32), 'payload-only-with-status-ok')
        fin = s.ghost['fin', 1]; eng.oblige(s, fin, 'returns-only-after-the-reply-finished', assume=False)
def finished_once(eng, s, h, base, what):
    """signals of the call reply since base"""
    return [e for e in s.trace[base:] if e[0] == 'signal' and un(e[2]).obj is h.rep.obj]
def g_async(eng):
    st, h = start(eng); st = mkasync(eng, st, h)
    for s in run(eng, st, 'v_async', [h.chan, h.m, h.s, h.arg, h.rep]):
        eng.oblige(s, not events(s, 'signal'), 'no-outcome-before-the-reply', assume=False); b0 = len(s.trace); p = events(s, 'newreply')[-1][2]; body = s.ghost['body0', 1]
        for s2 in net.finish(eng, s.fork(), p):
            eng.posts += 1; sig = finished_once(eng, s2, h, b0, ''); want = outcome(eng, s2, 1); ok = eqv(want, 0, 32)
            eng.oblige(s2, len(sig) == 1, 'exactly-one-outcome', '%d outcomes' % len(sig), assume=False)
            if len(sig) != 1: continue
            e = sig[0]
            eng.oblige(s2, zb(ok) == z3.BoolVal(e[1] == 'finished'), 'finished-exactly-with-status-ok', e[1], assume=False)
            if e[1] == 'error':
                eng.oblige(s2, eqv(e[3].code, want, 32), 'error-carries-the-reported-status', assume=False); msg_is(eng, s2, e[3].msg, 1, 'error-carries-the-message')
            payload_is(eng, s2, rope_at(eng, s2, h.data), body, ok, 'payload-only-with-status-ok')
            b1 = len(s2.trace)                                  # whatever is signalled later, nothing is delivered again
            for ev in ((p, 'QNetworkReply::finished', ()), (h.rep, '::finished', ()), ):
                for s3 in fire(eng, s2.fork(), *ev): eng.posts += 1; eng.oblige(s3, not finished_once(eng, s3, h, b1, ''), 'nothing-delivered-twice', ev[1], assume=False)
            eng.oblige(s2, any(x[0] == 'deleteLater' and x[1].obj is p.obj for x in s2.trace), 'reply-released', assume=False)
def g_async_abort(eng):
    """the application aborts the call: error(Aborted) is signalled by QGrpcCallReply; the reply's own end is then ignored"""
    st, h = start(eng); st = mkasync(eng, st, h)
    for s in run(eng, st, 'v_async', [h.chan, h.m, h.s, h.arg, h.rep]):
        p = events(s, 'newreply')[-1][2]; c = fbv('code', 32); eng.inputs['code'] = c
        sp = Ptr(eng.alloc(s, 'abortStatus', 8), 0); eng.put_abs(s, sp, Status(c, Rope()), 8); b0 = len(s.trace)
        for s2 in fire(eng, s.fork(), h.rep, '::error', (sp,)):
            ab = eqv(c, 10, 32); eng.posts += 1
            if not eng.feasible(s2, zb(ab)): continue
            s2.assume(zb(ab)); eng.oblige(s2, any(x[0] == 'deleteLater' and x[1].obj is p.obj for x in s2.trace), 'aborted-reply-released', assume=False)
            for s3 in net.finish(eng, s2, p): eng.posts += 1; eng.oblige(s3, not finished_once(eng, s3, h, b0, ''), 'no-outcome-after-abort', assume=False)

# ---------------------------------------------------------------- received stream: W[0, N) = carried-over bytes ++ new chunk
class Wire:
    def __init__(s, eng, st, first=False):
        s.arr = farr('wire'); s.N = fbv('received', 64); s.nC = z3.BitVecVal(0, 64) if first else fbv('carried', 64); s.nD = simp(s.N - s.nC); st.assume(z3.ULE(s.N, QBA_MAX - 64)); st.assume(z3.ULE(s.nC, s.N))
        eng.inputs['carried'] = s.nC; eng.inputs['wire'] = Rope([Sl(s.arr, 0, s.N)])
    def be(s, p): return simp(z3.ZeroExt(32, z3.Concat(*[z3.Select(s.arr, B64(p) + i) for i in (1, 2, 3, 4)])))
    def L(s, p): return simp(s.be(p) + 5)
    def full(s, p): """a complete message starts at p"""; p = B64(p); return z3.And(z3.ULE(p, s.N), z3.UGE(s.N - p, 5), z3.UGE(s.N - p, s.L(p)))
    def expected(s, p, n=None): n = s.N if n is None else n; return simp(z3.If(z3.UGE(n - B64(p), 5), s.L(p), z3.BitVecVal(5, 64)))
    def rest(s, p): return Rope([Sl(s.arr, simp(B64(p)), simp(s.N - B64(p)))])
class StreamCut(CutSpec):
    """iteration: position p -> p + length of the message at p, that message delivered"""
    name = 'stream'; ghost0 = z3.BitVecVal(0, 64)
    def __init__(s, w, stream, k): s.w = w; s.stream = stream; s.k = k
    def wants(self, eng, fn, blk, kinds): return 'ba' in kinds or 'int' in kinds and 'umapit' not in kinds
    def ghost(self, ctx):
        ctx.g = fbv('p', 64); st = ctx.st; st.assume(z3.ULE(ctx.g, self.w.N)); st.ghost['pos'] = ctx.g
        f = st.ghost['fin', self.k]; g = fbool('ended'); st.ghost['fin', self.k] = g if f is False else simpb(z3.Or(zb(f), g))
    def ghost_next(self, ctx): return ctx.g + self.w.L(ctx.g)
    def fold(self, ctx, t): t.ghost['pos'] = simp(self.ghost_next(ctx))
    def ba_value(self, ctx, cell, r0): return self.w.rest(ctx.g)
    def int_cands(self, ctx, w, v0):
        p = ctx.g; W = self.w; cs = [(('expected',), W.expected(p)), (('pos',), p), (('left',), W.N - p), (('declared',), W.be(p))]
        return [(n, z3.Extract(w - 1, 0, e) if w < 64 else e) for n, e in cs]
    def ev_step(self, ctx, evs):
        s = ctx.st; eng = ctx.eng; p = ctx.g0; W = self.w; ds = [e for e in evs if e[0] == 'deliver']
        eng.oblige(s, len(ds) == 1 and len(ds) == len([e for e in evs if e[0] != 'header']), 'one-message-per-iteration', '%d' % len(ds), assume=False)
        if len(ds) != 1: return
        eng.oblige(s, ds[0][1].obj is self.stream.obj, 'delivered-to-its-own-stream', assume=False)
        eng.oblige(s, W.full(p), 'delivered-only-when-complete', assume=False)
        s2 = s.fork(); s2.assume(W.full(p))
        eng.oblige(s2, rope_must_eq(eng, s2, ds[0][2], Rope([Sl(W.arr, simp(p + 5), simp(W.L(p) - 5))])), 'message-delivered-unmodified', assume=False)
    def invariant(self, ctx, entry=False): return [('position inside the received bytes', z3.ULE(ctx.g, self.w.N))]
    def var_value(self, ctx, cell, old):
        if isinstance(old, Ptr) and old.obj is None or isinstance(old, Var): return old
        raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new): pass
def entry_of(eng, s, h, p):
    m = eng.U(s, h.map)
    for k, (key, nd) in m.d.items():
        if isinstance(un(key), Ptr) and un(key).obj is p.obj: return nd
    return None
def open_stream(eng):
    st, h = start(eng); st = mkstream(eng, st, h); out = []
    for s in run(eng, st, 'v_stream', [h.chan, h.stream, h.s, h.client]):
        s, h.map = run1(eng, s, cfn(eng, 'v_streams'), [h.priv]); h.reply = events(s, 'newreply')[-1][2]; out.append((s, h))
    return out
def ndata(s, nd): return {k: x for k, x in s.mem[nd.obj].items() if isint(k) and k >= 8}
def chunk(eng, s, h, W, rx, layout):
    """one readyRead with W's new chunk; -> end states (checked)"""
    k = R(eng, s, h.reply); s.ghost['body', k] = Rope([Sl(W.arr, simp(W.nC), W.nD)]); s.ghost['fin', k] = fbool('finished_already'); base = len(s.trace)
    other = Ptr(eng.alloc(s, 'otherReply', 64), 0); other.obj.info = Reply(99); ond = Ptr(eng.alloc(s, 'onode', None), 0); eng.store(s, ond, 8, other)
    if layout:
        for off, x in layout.items():
            if x == 'ba': eng.put_abs(s, Ptr(ond.obj, off), mkba(eng, s, Rope([Sl(farr('otherBytes'), 0, 3)])), 8)
            else: eng.store(s, Ptr(ond.obj, off), x[1], fbv('o', 8*x[1]))
    m = eng.U(s, h.map); mm = Q.UMap(dict(m.d)); mm.d['other'] = (other, ond); eng.store(s, h.map, 56, mm); o0 = dict(s.mem[ond.obj])
    spec = StreamCut(W, h.stream, k)
    def go(): return fire(eng, s.fork(), h.reply, 'QIODevice::readyRead')
    res = []
    for s2 in with_cuts(eng, [spec], go):
        eng.posts += 1; ev = s2.trace[base:]; f = s2.ghost['fin', k]; cut = [e for e in ev if e[0] == 'loop']; ds = [e for e in ev if e[0] == 'deliver']
        if not cut: 
            p = z3.BitVecVal(0, 64)
            if ds: raise Unsupported('messages delivered outside a loop')
        else:
            p = s2.ghost['pos']
            if ds: raise Unsupported('messages delivered behind the loop')
        eng.oblige(s2, len(cut) <= 1, 'one-delivery-loop', assume=False)
        eng.oblige(s2, implies(bnot(f), z3.Not(W.full(p))), 'every-complete-message-delivered-while-running', assume=False)
        eng.oblige(s2, len([e for e in ev if e[0] in ('signal', 'post', 'abort')]) == 0, 'no-other-effect', assume=False)
        nd = entry_of(eng, s2, h, h.reply); s3 = s2.fork(); s3.assume(zb(bnot(f)))
        if eng.check(s3)[0] != 'unsat':
            if nd is None: eng.oblige(s3, eqv(p, W.N), 'incomplete-bytes-are-kept', 'entry dropped', assume=False)
            else:
                d = ndata(s3, nd); bas = [x[1] for x in d.values() if isinstance(x[1], BA)]
                if len(bas) != 1: raise Unsupported('layout of the carried-over data')
                eng.oblige(s3, rope_must_eq(eng, s3, s3.mem[bas[0].buf]['rope'], W.rest(p)), 'incomplete-bytes-are-kept', assume=False); res.append((s3, nd, p))
        on = s2.mem.get(ond.obj); mo = eng.U(s2, h.map)
        eng.oblige(s2, on == o0 and 'other' in mo.d, 'other-streams-untouched', assume=False)
    return res
def inv_ints(eng, W, res):
    """layout of the carried-over record: where the bytes are, and which integers always are the expected size"""
    lay = None
    for s, nd, p in res:
        l = {}
        for off, x in ndata(s, nd).items():
            if isinstance(x[1], BA): l[off] = 'ba'
            else: l[off] = ('expected' if eng.prove(s, bv(x[1], 8*x[0]) == (W.expected(p) if x[0] == 8 else z3.Extract(8*x[0] - 1, 0, W.expected(p))))[0] == 'proved' else 'any', x[0])
        if lay is None: lay = l
        elif lay != l: lay = {o: (v if v == l.get(o) else ('any', v[1])) for o, v in lay.items()}
    return lay
def g_first(eng):
    for s, h in open_stream(eng): W = Wire(eng, s, True); chunk(eng, s, h, W, None, None)
def g_next(eng):
    for s, h in open_stream(eng):
        s0 = s.fork(); W0 = Wire(eng, s0, True); n = len(eng.obls), eng.posts; lay = inv_ints(eng, W0, chunk(eng, s0, h, W0, None, None)); del eng.obls[n[0]:]; eng.posts = n[1]
        if lay is None: raise Unsupported('no carried-over data')
        W = Wire(eng, s); nd = Ptr(eng.alloc(s, 'node', None), 0); eng.store(s, nd, 8, h.reply)
        for off, x in lay.items():
            if x == 'ba': eng.put_abs(s, Ptr(nd.obj, off), mkba(eng, s, Rope([Sl(W.arr, 0, W.nC)])), 8)
            else:
                v = W.expected(0, W.nC) if x[0] == 'expected' else fbv('any', 8*x[1]); eng.store(s, Ptr(nd.obj, off), x[1], z3.Extract(8*x[1] - 1, 0, v) if x[0] == 'expected' and x[1] < 8 else v)
        m = Q.UMap({0: (h.reply, nd)}); eng.store(s, h.map, 56, m)
        for s2, nd2, p in chunk(eng, s, h, W, None, lay):
            for off, x in lay.items():
                if x != 'ba' and x[0] == 'expected': eng.oblige(s2, bv(s2.mem[nd2.obj][off][1], 8*x[1]) == (W.expected(p) if x[1] == 8 else z3.Extract(8*x[1] - 1, 0, W.expected(p))), 'record-invariant-kept', assume=False)
# ---------------------------------------------------------------- end of a stream (P29)
def sigs(s, h, base): return [e for e in s.trace[base:] if e[0] == 'signal' and un(e[2]).obj is h.stream.obj]
def released(eng, s, p, what): eng.oblige(s, any(x[0] == 'deleteLater' and x[1].obj is p.obj for x in s.trace), what, assume=False)
def silent(eng, s, h, p, what):
    """reply p has no effect any more, whatever it still signals, and neither has its stream on it"""
    b = len(s.trace); k = R(eng, s, p); base = s.fork(); s0 = s.fork(); s0.ghost['body', k] = Rope([Sl(farr('late'), 0, fbv('late_n', 64))])
    for s2 in fire(eng, s0.fork(), p, 'QIODevice::readyRead'): eng.posts += 1; eng.oblige(s2, not [e for e in s2.trace[b:] if e[0] in ('deliver', 'signal', 'post')], what, 'data after the end', assume=False)
    if s.ghost['fin', k] is not True:
        for s2 in net.finish(eng, s.fork(), p): eng.posts += 1; eng.oblige(s2, not [e for e in s2.trace[b:] if e[0] in ('deliver', 'signal', 'post')], what, 'end of the released reply', assume=False)
def g_ch_end(eng):
    """the reply of a stream finishes, for every network error and server status"""
    for s, h in open_stream(eng):
        for c, (snd, sig, rcv, slot) in live(s).items():
            if un(snd).obj is h.reply.obj and sig.rsplit('::', 1)[1] in ('finished', 'readyRead'): eng.oblige(s, un(rcv).obj is h.stream.obj, 'connection-dies-with-the-stream', sig, assume=False)
        end(eng, s, h, h.reply, 1)
def end(eng, s, h, p, depth):
    k = R(eng, s, p); b = len(s.trace); err = s.ghost['err', k]; st = s.fork(); 
    for s2 in with_cuts(eng, [net.HeaderCut()], lambda: net.finish(eng, st.fork(), p)):
        eng.posts += 1; sg = sigs(s2, h, b); closed = bv(err, 32) == 2; ps = [e for e in s2.trace[b:] if e[0] == 'post']; want = outcome(eng, s2, k)
        eng.oblige(s2, not [e for e in s2.trace[b:] if e[0] == 'timer' and e[2].obj is not p.obj and not any(e[2].obj is q[3].obj for q in ps)], 'no-timer', assume=False); released(eng, s2, p, 'reply-of-the-ended-stream-released')
        if ps:
            eng.oblige(s2, closed, 'reopened-only-when-the-remote-host-closed', assume=False); eng.oblige(s2, not sg, 'silently-reopened', assume=False); posted(eng, s2, h, 'reopened-once-with-its-request', 1, b)
            if len(ps) == 1 and depth: h2 = h; end(eng, s2, h, ps[0][3], depth - 1); stop(eng, s2, h, ps[0][3])
        else:
            eng.oblige(s2, z3.Not(closed), 'reopened-when-the-remote-host-closed', assume=False); eng.oblige(s2, len(sg) == 1, 'exactly-one-outcome', '%d' % len(sg), assume=False)
            if len(sg) == 1:
                eng.oblige(s2, zb(eqv(want, 0, 32)) == z3.BoolVal(sg[0][1] == 'finished'), 'finished-exactly-with-status-ok', sg[0][1], assume=False)
                if sg[0][1] == 'error':
                    eng.oblige(s2, eqv(sg[0][3].code, want, 32), 'error-carries-the-reported-status', assume=False)
                    s3 = s2.fork(); s3.assume(bv(err, 32) == 0)
                    if eng.check(s3)[0] != 'unsat': msg_is(eng, s3, sg[0][3].msg, k, 'error-carries-the-message')
        silent(eng, s2, h, p, 'ended-reply-is-silent')
        if not ps:
            b2 = len(s2.trace)
            for s3 in fire(eng, s2.fork(), h.stream, '::finished'): eng.posts += 1; eng.oblige(s3, not [e for e in s3.trace[b2:] if e[0] in ('post', 'signal', 'deliver')], 'nothing-reopened-after-the-end', assume=False)
def stop(eng, s, h, p):
    """the application cancels the stream, or its client goes away"""
    for who, sig in ((h.stream, '::finished'), (h.client, '::destroyed')):
        b = len(s.trace)
        for s2 in with_cuts(eng, [net.HeaderCut()], lambda: fire(eng, s.fork(), who, sig)):
            eng.posts += 1; eng.oblige(s2, not [e for e in s2.trace[b:] if e[0] in ('post', 'signal', 'deliver')], 'cancelled-stream-not-reopened', sig, assume=False); released(eng, s2, p, 'reply-of-the-cancelled-stream-released'); silent(eng, s2, h, p, 'cancelled-reply-is-silent')
            b2 = len(s2.trace); nd = entry_of(eng, s2, h, p)
            if sig == '::destroyed': eng.oblige(s2, nd is None, 'carried-over-bytes-dropped', assume=False)
def g_ch_stop(eng):
    for s, h in open_stream(eng): stop(eng, s, h, h.reply)
