"""The gRPC client, its streams and replies over an arbitrary channel (engine/net.py, engine/cli.py: assumed contracts)."""
from ser import *
import net, cli, build, grpcnat
from net import *
from cli import *
from loops import with_cuts, CutSpec
VC = ('vclient', build.VERIF + '/native/vclient.cpp', ['-fno-access-control', '-DQT_BUILD_GRPC_LIB'])
class H: pass
def ident(eng, r): return eng.rope_ids[str(r.ps[0].arr)]
def opaque(eng, name): a = farr(name); eng.rope_ids[str(a)] = fbv(name + '_id', 64); return a
def text(eng, st, name):
    n = fbv(name + '_len', 64); st.assume(z3.ULT(n, 1 << 20)); return Rope([Sl(opaque(eng, name), 0, n)])
def qstr(eng, st, name): r = text(eng, st, name); p = Ptr(eng.alloc(st, name, 8), 0); eng.put_abs(st, p, Str(r), 8); return p, r
def qbytes(eng, st, name): r = text(eng, st, name); p = Ptr(eng.alloc(st, name, 8), 0); eng.put_abs(st, p, mkba(eng, st, r), 8); return p, r
def field(eng, st, f, p): return run1(eng, st, cfn(eng, f), [p])[1]
def rope_at(eng, s, p): return s.mem[eng.get_abs(s, p, BA, 'bytes').buf]['rope']
def same(a, b): return len(a.ps) == 1 and len(b.ps) == 1 and a.ps[0].arr.eq(b.ps[0].arr)
class M:
    """ghost description of a stream: its method, argument, handlers"""
def mk_member(eng, st, name):
    p = Ptr(eng.alloc(st, name, 512), 0); m = M(); m.p = p; m.mr = text(eng, st, name + '_method'); m.ar = text(eng, st, name + '_arg'); p.obj.info = m
    eng.put_abs(st, field(eng, st, 'v_s_method', p), Str(m.mr), 8); eng.put_abs(st, field(eng, st, 'v_s_arg', p), mkba(eng, st, m.ar), 8); m.data = field(eng, st, 'v_s_data', p); eng.put_abs(st, m.data, mkba(eng, st, Rope()), 8)
    n = fbv(name + '_handlers', 64); st.assume(z3.ULT(n, 1 << 31)); m.n = n; m.hp = field(eng, st, 'v_s_handlers', p); m.hv = HVec(eng.mkvec(st, n, 32, lambda e, s, i: FnV(('old', name, i)), 'handlers')); eng.store(st, m.hp, 24, m.hv)
    for q in st.ghost.get('members', ()): st.assume(z3.Not(z3.And(ident(eng, q.mr) == ident(eng, m.mr), ident(eng, q.ar) == ident(eng, m.ar))))
    st.ghost['members'] = st.ghost.get('members', ()) + (m,); return p
def start(eng, channel=True, other=False, witness=True):
    eng.mods[:] = [eng.run_ctx.mods['vclient']]; net.install_net(eng); cli.install_client(eng); eng.depth_limit = 120; eng.rope_ids = {}; st = State(); h = H(); eng.err_domain = lambda st, e: None
    eng.mk_member = lambda s, nm: mk_member(eng, s, nm)
    h.client = Ptr(eng.alloc(st, 'client', 512), 0); h.priv = Ptr(eng.alloc(st, 'clientPrivate', 512), 0); st, _ = run1(eng, st, cfn(eng, 'v_c_setup'), [h.client, h.priv])
    h.sp = field(eng, st, 'v_c_service', h.priv); h.sr = text(eng, st, 'service'); eng.put_abs(st, h.sp, Str(h.sr), 8); h.streams = field(eng, st, 'v_c_streams', h.priv); h.chp = field(eng, st, 'v_c_channel', h.priv)
    def q(s, p): return eng.get_abs(s, p, Str, 'string').rope
    def chsync(e, s, a, c):
        s.ev('chcall', q(s, a[2]), q(s, a[3]), rope_at(eng, s, a[4]), s.ghost.get('cur', eng.own_thread)); code = fbv('code', 32); eng.inputs['channel_status'] = code; m = text(eng, s, 'why'); s.ghost['status'] = (code, m); eng.put_abs(s, a[0], Status(code, m), 8); b = text(eng, s, 'body'); s.ghost['body'] = b; eng.put_abs(s, a[5], mkba(eng, s, b), 8)
    def chasync(e, s, a, c): s.ev('chasync', q(s, a[1]), q(s, a[2]), rope_at(eng, s, a[3]), un(a[4]))
    def chstream(e, s, a, c): p = un(a[1]); s.ev('chstream', p, q(s, a[2]), un(a[3]), q(s, field(eng, s, 'v_s_method', p)), rope_at(eng, s, field(eng, s, 'v_s_arg', p)))
    def chser(e, s, a, c): eng.store(s, a[0], 8, h.ser if s.ghost.get('ser', True) else NULL); eng.store(s, Ptr(a[0].obj, a[0].off + 8), 8, NULL)
    h.ser = Ptr(eng.alloc(st, 'serializer', 64), 0)
    h.vt = vtable(eng, st, 'channelVt', {slot_of(eng, st.fork(), f, []): g for f, g in (('v_ch_sync', chsync), ('v_ch_async', chasync), ('v_ch_stream', chstream), ('v_ch_ser', chser))})
    h.ch = Ptr(eng.alloc(st, 'channel', 64), 0); eng.store(st, h.ch, 8, Ptr(h.vt, 0))
    if channel: eng.store(st, h.chp, 8, h.ch)
    n = fbv('active', 64); st.assume(z3.ULT(n, 1 << 31)); h.w = None; idx = {}
    if witness: h.w = mk_member(eng, st, 'active0'); i = fbv('active0_index', 64); st.assume(z3.ULT(i, n)); idx = {h.w.obj: i}
    eng.put_svec(st, h.streams, SVec(n, (h.w,) if witness else (), (), idx)); h.n = n
    h.m, h.mr = qstr(eng, st, 'method'); h.a, h.ar = qbytes(eng, st, 'arg'); h.out = Ptr(eng.alloc(st, 'result', 16), 0)
    if other: st.ghost['cur'] = eng.other_thread
    st.trace = (); return st, h
class FindCut(CutSpec):
    """hand-written search over the active streams: nothing in front of i matches"""
    name = 'search'
    def __init__(s, h): s.h = h
    def wants(self, eng, fn, blk, kinds): return 'vec' in kinds
    def invariant(self, ctx, entry=False):
        h = self.h
        if h.w is None or h.match is None: return []
        v = ctx.eng.svec(ctx.st, h.streams); ix = v.idx.get(h.w.obj)
        return [] if ix is None else [('no earlier stream matches', z3.Implies(z3.ULT(ix, B64(ctx.i)), z3.Not(h.match)))]
    def var_value(self, ctx, cell, old): return old
    def var_step(self, ctx, cell, old, new): pass
def matches(eng, m, h): return z3.And(ident(eng, m.mr) == ident(eng, h.mr), ident(eng, m.ar) == ident(eng, h.ar))
def run(eng, st, f, args, h=None, cuts=()):
    if h is not None and h.w is not None: h.match = matches(eng, h.w.obj.info, h)
    elif h is not None: h.match = None
    for s, o in with_cuts(eng, list(cuts) + ([FindCut(h)] if h is not None else []), lambda: eng.run(st.fork(), cfn(eng, f), list(args))):
        if o[0] != 'ret': eng.fail(s, 'no-exception', '%s %s' % (f, o[1])); continue
        eng.posts += 1; yield s
def clerr(s, b=0): return [e for e in s.trace[b:] if e[0] == 'clienterror']
def ev(s, k, b=0): return [e for e in s.trace[b:] if e[0] == k]
def hids(s, m): v = s.mem[m.hp.obj][m.hp.off][1]; return (v.buf.info.elem if v.buf else None, v.buf.info.n if v.buf else 0, v.extra)
def want_one_error(eng, s, h, what, code=None, msg=None, b=0):
    es = clerr(s, b); eng.oblige(s, len(es) == 1 and es[0][1].obj is h.client.obj, what, '%d signals' % len(es), assume=False)
    if len(es) == 1 and code is not None: eng.oblige(s, eqv(es[0][2].code, code, 32), what, 'status signalled', assume=False)
    if len(es) == 1 and msg is not None: eng.oblige(s, isinstance(es[0][2].msg, Rope) and same(es[0][2].msg, msg), what, 'message signalled', assume=False)
# ---------------------------------------------------------------- P23
def status_at(eng, s, p): v = eng.get_abs(s, p, Status, 'status'); return v
def g_sync(eng):
    for other in (False, True):
        for channel in (True, False):
            st, h = start(eng, channel, other); r = Ptr(eng.alloc(st, 'ret', 8), 0); eng.put_abs(st, r, mkba(eng, st, text(eng, st, 'oldret')), 8)
            for s in run(eng, st, 'v_c_sync', [h.out, h.client, h.m, h.a, r]):
                v = status_at(eng, s, h.out); cs = ev(s, 'chcall')
                if channel:
                    eng.oblige(s, len(cs) == 1 and same(cs[0][1], h.mr) and same(cs[0][2], h.sr) and same(cs[0][3], h.ar) and cs[0][4] is eng.own_thread, 'channel-called-once-with-the-request', assume=False)
                    if len(cs) != 1: continue
                    code, msg = s.ghost['status']; eng.oblige(s, eqv(v.code, code, 32), 'status-returned', assume=False); eng.oblige(s, isinstance(v.msg, Rope) and same(v.msg, msg), 'message-returned', assume=False)
                    eng.oblige(s, same(rope_at(eng, s, r), s.ghost['body']), 'payload-returned', assume=False)
                    es = clerr(s)
                    if es: eng.oblige(s, bnot(eqv(code, 0, 32)), 'nothing-signalled-on-success', assume=False); want_one_error(eng, s, h, 'failure-signalled-once', code, msg)
                    else: eng.oblige(s, eqv(code, 0, 32), 'failure-signalled', assume=False)
                else: eng.oblige(s, not cs and eqv(v.code, 2, 32), 'unknown-without-channel', assume=False); want_one_error(eng, s, h, 'missing-channel-signalled-once', 2)
def g_async(eng):
    for other in (False, True):
        for channel in (True, False):
            st, h = start(eng, channel, other)
            for s in run(eng, st, 'v_c_async', [h.out, h.client, h.m, h.a]):
                r = un(eng.load(s, h.out, 8, ('ptr',))); cs = ev(s, 'chasync')
                if not channel: eng.oblige(s, r.obj is None and not cs, 'no-reply-without-channel', assume=False); want_one_error(eng, s, h, 'missing-channel-signalled-once', 2); continue
                eng.oblige(s, r.obj is not None and len(cs) == 1 and same(cs[0][1], h.mr) and same(cs[0][2], h.sr) and same(cs[0][3], h.ar) and cs[0][4].obj is r.obj, 'channel-called-once-with-the-request', assume=False); eng.oblige(s, not clerr(s), 'nothing-signalled-yet', assume=False)
                if r.obj is None: continue
                s.ghost.pop('cur', None); b = len(s.trace); sp = Ptr(eng.alloc(s, 'st', 8), 0); code = fbv('ecode', 32); msg = text(eng, s, 'emsg'); eng.put_abs(s, sp, Status(code, msg), 8)
                for s2 in fire(eng, s.fork(), r, '::error', (sp,)):
                    eng.posts += 1; want_one_error(eng, s2, h, 'failure-signalled-once', code, msg, b); b2 = len(s2.trace)
                    for sig, a in (('::error', (sp,)), ('::finished', ())):
                        for s3 in fire(eng, s2.fork(), r, sig, a): eng.posts += 1; eng.oblige(s3, not clerr(s3, b2), 'nothing-signalled-after-the-end', sig, assume=False)
                for s2 in fire(eng, s.fork(), r, '::finished', ()):
                    eng.posts += 1; eng.oblige(s2, not clerr(s2, b), 'nothing-signalled-on-success', assume=False)
                    for s3 in fire(eng, s2.fork(), r, '::error', (sp,)): eng.posts += 1; eng.oblige(s3, not clerr(s3, b), 'nothing-signalled-after-the-end', assume=False)
                for s2, o in eng.run(s.fork(), cfn(eng, 'v_r_abort'), [r]): eng.posts += 1; eng.oblige(s2, o[0] == 'ret', 'abort-returns', assume=False); want_one_error(eng, s2, h, 'abort-signalled-once', 10, None, b)
def umsg(eng, st, name): return Ptr(eng.alloc(st, name, 64), 0)
WANT = {None: 0, '_ZTISt16invalid_argument': 3, '_ZTISt12out_of_range': 11}
def decoded_code(s): return WANT.get(s.ghost['decoded'], 13)
def setup_msg(eng, st, h):
    h.enc = text(eng, st, 'encoded'); st.ghost['encoded'] = mkba(eng, st, h.enc); h.arg = umsg(eng, st, 'argMessage'); h.res = umsg(eng, st, 'retMessage'); h.qp = Ptr(eng.alloc(st, 'qpointer', 16), 0)
def g_call(eng):
    """typed synchronous call"""
    for channel in (True, False):
        for ser in (True, False):
            for null in (False, True):
                st, h = start(eng, channel); setup_msg(eng, st, h); st.ghost['ser'] = ser; eng.put_abs(st, h.qp, QP(NULL if null else h.res), 16)
                for s in run(eng, st, 'v_c_call', [h.out, h.client, h.m, h.arg, h.qp]):
                    v = status_at(eng, s, h.out); cs = ev(s, 'chcall')
                    if null: eng.oblige(s, eqv(v.code, 3, 32) and not cs, 'invalid-argument-for-null-result', assume=False); want_one_error(eng, s, h, 'null-result-signalled-once', 3); continue
                    if not channel or not ser: eng.oblige(s, eqv(v.code, 2, 32) and not cs, 'unknown-without-serializer', assume=False); want_one_error(eng, s, h, 'missing-serializer-signalled-once', 2); continue
                    eng.oblige(s, len(cs) == 1 and same(cs[0][3], h.enc) and same(cs[0][1], h.mr), 'encoded-argument-sent-once', assume=False)
                    if len(cs) != 1: continue
                    code = s.ghost['status'][0]; ds = ev(s, 'decode')
                    if ds:
                        eng.oblige(s, eqv(code, 0, 32), 'decoded-only-on-success', assume=False); eng.oblige(s, len(ds) == 1 and ds[0][1].obj is h.res.obj and same(ds[0][3], s.ghost['body']), 'response-decoded-once', assume=False)
                        w = decoded_code(s); eng.oblige(s, eqv(v.code, w, 32), 'status-of-the-failure-kind', str(s.ghost['decoded']), assume=False)
                        if w == 0: eng.oblige(s, not clerr(s), 'nothing-signalled-on-success', assume=False)
                        else: want_one_error(eng, s, h, 'decode-failure-signalled-once', w)
                    else:
                        eng.oblige(s, bnot(eqv(code, 0, 32)), 'success-is-decoded', assume=False); eng.oblige(s, eqv(v.code, code, 32) , 'status-returned', assume=False); want_one_error(eng, s, h, 'failure-signalled-once', code, s.ghost['status'][1])
def g_callasync(eng):
    for channel in (True, False):
        for ser in (True, False):
            for f in ('v_c_callasync', 'v_c_stream1'):
                st, h = start(eng, channel, witness=False); setup_msg(eng, st, h); st.ghost['ser'] = ser
                if f == 'v_c_stream1': eng.put_svec(st, h.streams, SVec(0, complete=True))
                for s in run(eng, st, f, [h.out, h.client, h.m, h.arg], h):
                    r = un(eng.load(s, h.out, 8, ('ptr',))); cs = ev(s, 'chasync') + ev(s, 'chstream')
                    if not channel or not ser: eng.oblige(s, r.obj is None and not cs, 'nothing-started-without-serializer', assume=False); want_one_error(eng, s, h, 'missing-serializer-signalled-once', 2); continue
                    eng.oblige(s, r.obj is not None and len(cs) == 1 and same(cs[0][3] if cs[0][0] == 'chasync' else cs[0][5], h.enc) and same(cs[0][1] if cs[0][0] == 'chasync' else cs[0][4], h.mr), 'started-once-with-the-encoded-argument', assume=False); eng.oblige(s, not clerr(s), 'nothing-signalled', assume=False)
def g_streamdecode(eng):
    """typed stream: a message that cannot be decoded is reported with its kind and does not escape"""
    for gone in (False, True):
        st, h = start(eng, witness=False); setup_msg(eng, st, h); eng.put_svec(st, h.streams, SVec(0, complete=True)); eng.put_abs(st, h.qp, QP(h.res), 16)
        for s in run(eng, st, 'v_c_stream2', [h.out, h.client, h.m, h.arg, h.qp], h):
            r = un(eng.load(s, h.out, 8, ('ptr',)))
            if r.obj is None: eng.fail(s, 'stream-opened'); continue
            b = len(s.trace); hp = field(eng, s, 'v_s_handlers', r); hv = s.mem[hp.obj][hp.off][1]
            if hv.buf is not None or len(hv.extra) != 1 or not isinstance(hv.extra[0], tuple): raise Unsupported('handlers of a typed stream')
            _, lam, cap = hv.extra[0]; d, dr = qbytes(eng, s, 'message'); f = [fn for m in eng.mods for n, fn in m.fns.items() if m.dem(n).startswith(lam + '::operator()(')][0]
            if gone:
                for k, x in list(s.mem[cap.obj].items()):
                    if isinstance(x[1], QP): s.wcells(cap.obj)[k] = (x[0], QP(NULL))
            for s2, o in eng.run(s.fork(), f, [cap, d]):
                eng.posts += 1; eng.oblige(s2, o[0] == 'ret', 'no-exception-escapes', assume=False)
                if gone: eng.oblige(s2, not ev(s2, 'decode', b), 'not-decoded-into-nothing', assume=False); want_one_error(eng, s2, h, 'missing-target-signalled-once', 3, b=b); continue
                ds = ev(s2, 'decode', b); eng.oblige(s2, len(ds) == 1 and ds[0][1].obj is h.res.obj and same(ds[0][3], dr), 'message-decoded-once', assume=False); w = decoded_code(s2)
                if w == 0: eng.oblige(s2, not clerr(s2, b), 'nothing-signalled-on-success', assume=False)
                else: want_one_error(eng, s2, h, 'decode-failure-signalled-once', w, b=b)
# ---------------------------------------------------------------- P24
def fnv(eng, st, name): p = Ptr(eng.alloc(st, 'handlerArg', 32), 0); eng.put_abs(st, p, FnV(name), 32); return p
def open_any(eng, other=False, witness=True, hname='new', channel=True):
    st, h = start(eng, channel, other, witness); h.h = fnv(eng, st, hname); h.hname = hname; h.match = None
    for s in run(eng, st, 'v_c_stream', [h.out, h.client, h.m, h.a, h.h], h): yield s, h, un(eng.load(s, h.out, 8, ('ptr',)))
def is_member(r): return isinstance(r.obj.info, M)
def g_open(eng):
    for other in (False, True):
        for witness in (True, False):
            for hname in ('new', None):
                for s, h, r in open_any(eng, other, witness, hname):
                    eng.oblige(s, not clerr(s) and r.obj is not None, 'stream-returned', assume=False)
                    if r.obj is None: continue
                    op = ev(s, 'chstream'); add = (hname,) if hname else (); mw = matches(eng, h.w.obj.info, h) if witness else z3.BoolVal(False)
                    v = eng.svec(s, h.streams)
                    if is_member(r):
                        m = r.obj.info; eng.oblige(s, matches(eng, m, h), 'shared-stream-has-the-same-method-and-argument', assume=False)
                        eng.oblige(s, not op and not ev(s, 'remember') and not ev(s, 'forget') and not [e for e in s.trace if e[0] in ('signal', 'timer')], 'sharing-opens-nothing', assume=False)
                        eng.oblige(s, hids(s, m) == (m.hv.buf.info.elem, m.n, add), 'handler-added-to-the-shared-stream', repr(hids(s, m)[2]), assume=False)
                    else:
                        m = None; hp = field(eng, s, 'v_s_handlers', r); hv = s.mem[hp.obj][hp.off][1]; eng.oblige(s, hv.buf is None and hv.extra == add, 'handler-registered-with-the-new-stream', assume=False)
                        eng.oblige(s, len(op) == 1 and op[0][1].obj is r.obj and same(op[0][2], h.sr) and op[0][3].obj is h.client.obj and same(op[0][4], h.mr) and same(op[0][5], h.ar), 'one-stream-opened-with-the-request', '%d' % len(op), assume=False)
                        eng.oblige(s, len(ev(s, 'remember')) == 1 and v.has(r.obj) and not ev(s, 'forget'), 'new-stream-remembered', assume=False)
                        eng.oblige(s, z3.Not(mw), 'no-second-stream-for-the-same-request', assume=False)
                    for q in s.ghost.get('members', ()):
                        if q is not m: eng.oblige(s, hids(s, q) == (q.hv.buf.info.elem, q.n, ()), 'other-streams-untouched', assume=False)
                        eng.oblige(s, v.has(q.p.obj), 'active-streams-kept', assume=False)
def g_nochannel(eng):
    for other in (False, True):
        for s, h, r in open_any(eng, other, True, 'new', False): eng.oblige(s, r.obj is None and not ev(s, 'chstream') and not ev(s, 'remember'), 'nothing-opened-without-channel', assume=False); want_one_error(eng, s, h, 'missing-channel-signalled-once', 2)
def opened(eng, hname='new'):
    """states with a stream r that was opened here, among arbitrary other active streams"""
    for s, h, r in open_any(eng, False, False, hname):
        if r.obj is None or is_member(r): continue
        s = s.fork(); m = M(); m.p = r; m.mr = h.mr; m.ar = h.ar; r.obj.info = m; s.ghost['members'] = (m,); h.r = r
        n = fbv('nowActive', 64); s.assume(z3.ULT(n, 1 << 31)); h.w = mk_member(eng, s, 'otherActive'); i, j = fbv('i_r', 64), fbv('i_w', 64); s.assume(z3.And(z3.ULT(i, n), z3.ULT(j, n), i != j))
        eng.put_svec(s, h.streams, SVec(n, (h.w, r), (), {h.w.obj: j, r.obj: i})); h.match = z3.BoolVal(False); yield s, h, r
def stp(eng, s): sp = Ptr(eng.alloc(s, 'st', 8), 0); code = fbv('ecode', 32); msg = text(eng, s, 'emsg'); eng.put_abs(s, sp, Status(code, msg), 8); return sp, code, msg
def firec(eng, s, h, r, sig, args=()): return with_cuts(eng, [FindCut(h)], lambda: fire(eng, s.fork(), r, sig, args))
def finish_ways(eng, s, h, r):
    for s2 in firec(eng, s, h, r, '::finished'): yield s2, 'finished'
    for cur in ('own', 'other'):
        t = s.fork()
        if cur == 'other': t.ghost['cur'] = eng.other_thread
        for s2, o in with_cuts(eng, [FindCut(h)], lambda: eng.run(t.fork(), cfn(eng, 'v_s_abort'), [r])):
            if o[0] != 'ret': eng.fail(s2, 'abort-returns'); continue
            s2.ghost.pop('cur', None); yield s2, 'abort'
def quiet(eng, s, h, r, what):
    """no signal of r has any effect any more"""
    sp, _, _ = stp(eng, s); b = len(s.trace)
    for sig, a in (('::error', (sp,)), ('::finished', ())):
        for s3 in firec(eng, s, h, r, sig, a): eng.posts += 1; eng.oblige(s3, not [e for e in s3.trace[b:] if e[0] in ('clienterror', 'timer', 'chstream', 'forget', 'remember', 'post')], what, sig, assume=False)
def g_forget(eng):
    for s, h, r in opened(eng):
        b = len(s.trace)
        for s2, way in finish_ways(eng, s, h, r):
            eng.posts += 1; v = eng.svec(s2, h.streams); f = ev(s2, 'forget', b)
            eng.oblige(s2, len(f) == 1 and f[0][1].obj is r.obj and not v.has(r.obj), 'finished-stream-forgotten', way, assume=False); eng.oblige(s2, v.has(h.w.obj), 'other-streams-kept', way, assume=False)
            eng.oblige(s2, not ev(s2, 'chstream', b) and not ev(s2, 'timer', b), 'finishing-opens-nothing', way, assume=False); quiet(eng, s2, h, r, 'no-effect-after-finish')
        sp, code, msg = stp(eng, s)
        for s2 in firec(eng, s, h, r, '::error', (sp,)): eng.posts += 1; v = eng.svec(s2, h.streams); eng.oblige(s2, v.has(r.obj) and v.has(h.w.obj) and not ev(s2, 'forget', b) and not ev(s2, 'remember', b), 'error-forgets-nothing', assume=False)
class HandlerCut(CutSpec):
    name = 'handlers'
    def __init__(s, m, dr): s.m = m; s.dr = dr
    def wants(self, eng, fn, blk, kinds): return 'vec' in kinds
    def ev_step(self, ctx, evs):
        eng = ctx.eng; s = ctx.st; cs = [e for e in evs if e[0] == 'call']
        eng.oblige(s, len(cs) == 1 and len(evs) == 1 and isinstance(cs[0][1], tuple) and cs[0][1][0] == 'old' and eng.prove(s, eqv(cs[0][1][2], ctx.i0))[0] == 'proved', 'each-handler-called-once', repr(evs)[:120], assume=False)
        if len(cs) == 1: eng.oblige(s, same(cs[0][2], self.dr), 'handler-sees-the-message', assume=False)
        for o, k, p in ctx.iters:
            if p.obj in s.dead: eng.oblige(s, eqv(ctx.i, p.obj.info.n), 'iterated-vector-not-modified-by-handlers', assume=False)
    def var_value(self, ctx, cell, old): return old
    def var_step(self, ctx, cell, old, new): pass
def g_deliver(eng):
    st, h = start(eng, witness=False); p = mk_member(eng, st, 'stream'); m = p.obj.info; d, dr = qbytes(eng, st, 'message'); st.trace = ()
    def added(s):
        v = s.mem[m.hp.obj][m.hp.off][1]
        if v.buf is None: return
        s.dead = s.dead | {v.buf}; n2 = fbv('nh', 64); s.assume(z3.ULT(n2, 1 << 31)); eng.store(s, m.hp, 24, HVec(eng.mkvec(s, n2, 32, lambda e, s, i: FnV(('later', i)), 'handlers')))
    eng.on_handler = added
    for s in run(eng, st, 'v_s_handler', [p, d], None, [HandlerCut(m, dr)]):
        lo = ev(s, 'loop'); eng.oblige(s, len(lo) == 1 and lo[0][1] == 'handlers' and eng.prove(s, eqv(lo[0][2], m.n))[0] == 'proved', 'every-handler-called', repr(lo), assume=False)
        sg = ev(s, 'signal'); eng.oblige(s, len(sg) == 1 and sg[0][1] == 'messageReceived' and not ev(s, 'call'), 'reception-signalled-once', assume=False)
        eng.oblige(s, same(rope_at(eng, s, m.data), dr), 'message-readable-from-the-stream', assume=False)
def g_add(eng):
    for hname in ('new', None):
        st, h = start(eng, witness=False); p = mk_member(eng, st, 'stream'); m = p.obj.info; st.trace = ()
        for s in run(eng, st, 'v_s_add', [p, fnv(eng, st, hname)]): eng.oblige(s, hids(s, m) == (m.hv.buf.info.elem, m.n, (hname,) if hname else ()), 'handler-appended', assume=False)
def g_equal(eng):
    st, h = start(eng, witness=False); a = Ptr(eng.alloc(st, 'a', 512), 0); ms = []
    for nm in ('a', 'b'):
        st.ghost['members'] = (); ms.append(mk_member(eng, st, nm))
    for s, o in eng.run(st, cfn(eng, 'v_s_eq'), ms):
        x, y = ms[0].obj.info, ms[1].obj.info; eng.posts += 1; eng.oblige(s, zb(o[1] if not isint(o[1]) else bool(o[1])) == z3.And(ident(eng, x.mr) == ident(eng, y.mr), ident(eng, x.ar) == ident(eng, y.ar)), 'equal-iff-same-method-and-argument', assume=False)
# ---------------------------------------------------------------- P29
def g_error(eng):
    """an error is signalled once and arms exactly one timer bound to the client"""
    for s, h, r in opened(eng):
        b = len(s.trace); sp, code, msg = stp(eng, s)
        for s2, way in finish_ways(eng, s, h, r): quiet(eng, s2, h, r, 'no-effect-after-finish')
        for s2 in firec(eng, s, h, r, '::error', (sp,)):
            eng.posts += 1; want_one_error(eng, s2, h, 'stream-error-signalled-once', code, msg, b); t = ev(s2, 'timer', b)
            eng.oblige(s2, len(t) == 1 and isint(t[0][1]) and 0 < t[0][1] < 1 << 31, 'one-back-off-timer', '%d timers' % len(t), assume=False); eng.oblige(s2, len(t) == 1 and t[0][2].obj is h.client.obj, 'timer-dies-with-the-client', assume=False)
            eng.oblige(s2, not ev(s2, 'chstream', b), 'not-reopened-before-the-back-off', assume=False)
            if len(t) != 1: continue
            for c, (snd, sig, rcv, slot) in live(s2).items():
                if un(snd).obj is r.obj and sig.rsplit('::', 1)[1] in ('error', 'finished'): eng.oblige(s2, un(rcv).obj is h.client.obj, 'connection-dies-with-the-client', sig, assume=False)
            def timer(s, what, n):
                b2 = len(s.trace)
                for s3, o in with_cuts(eng, [FindCut(h)], lambda: net.slotcall(eng, s.fork(), t[0][3], t[0][2], ())):
                    eng.posts += 1; op = ev(s3, 'chstream', b2); eng.oblige(s3, o[0] == 'ret' and len(op) == n, what, 'opened %d times' % len(op), assume=False)
                    if n and len(op) == 1: eng.oblige(s3, op[0][1].obj is r.obj and same(op[0][2], h.sr) and op[0][3].obj is h.client.obj and same(op[0][4], h.mr) and same(op[0][5], h.ar), 'reopened-with-its-method-and-argument', assume=False)
                    eng.oblige(s3, not [e for e in s3.trace[b2:] if e[0] in ('timer', 'clienterror', 'remember', 'forget')], 'reopening-has-no-other-effect', assume=False)
                    if n:                     # the re-opened stream behaves like before: another error arms another timer, finishing forgets it
                        for s4 in firec(eng, s3, h, r, '::error', (sp,)): eng.posts += 1; eng.oblige(s4, len(ev(s4, 'timer', b2)) == 1 and len(clerr(s4, b2)) == 1, 'next-error-handled-alike', assume=False)
            timer(s2, 'active-stream-reopened-exactly-once', 1)
            for s3, way in finish_ways(eng, s2, h, r):
                quiet(eng, s3, h, r, 'no-effect-after-finish')
                for ref in (True, False):
                    s4 = s3.fork(); s4.ghost['referenced', r.obj] = ref; timer(s4, 'finished-stream-never-reopened', 0)
