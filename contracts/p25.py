"""The native gRPC channel: payloads and statuses cross it unchanged (gRPC's own API and QThread assumed, engine/chan.py)."""
from ser import *
import net, gen, chan, build, grpcnat
from net import *
from chan import *
from h2 import sstr, rope_at, H
from loops import with_cuts, CutSpec
VC = ('vchan', build.VERIF + '/native/vchan.cpp', ['-fno-access-control'] + build.GRPC)
def native(run): grpcnat.native(run)
PB = r'^QtProtobuf::parseByteBuffer\('
def start(eng):
    eng.mods[:] = [eng.run_ctx.mods['vchan']]; net.install_net(eng); gen.install_gen(eng); chan.install_chan(eng); st = State(); h = H(); eng.depth_limit = 120
    ok = Ptr(eng.alloc(st, 'grpc::Status::OK', 72), 0); eng.put_abs(st, ok, NS(0, Rope()), 72); eng.store(st, eng.global_ptr(st, eng.mods[0], '_ZN4grpc6Status2OKE'), 8, ok, init=True)
    return st, h
def text_is(eng, s, got, want, what, why=''): eng.oblige(s, isinstance(got, Rope) and rope_must_eq(eng, s, got, want), what, why, assume=False)
def qba(eng, st, name):
    ba, arr, n = symbytes(eng, st, name, 1 << 30); p = Ptr(eng.alloc(st, name, 8), 0); eng.put_abs(st, p, ba, 8); return p, Rope([Sl(arr, 0, n)])
class SliceCut(CutSpec):
    """after i slices the data is what it was, followed by the bytes of the first i slices"""
    name = 'slices'; maxlen = (1 << 31) - 1
    def __init__(s, b, d0): s.b = b; s.d0 = d0
    def wants(self, eng, fn, blk, kinds): return 'ba' in kinds
    def ba_value(self, ctx, cell, r0):
        if r0 is not None and not Q.same_rope(r0, self.d0): return None
        arr, off, n = content(self.b); f = OFF(self.b); ctx.st.assume(z3.ULE(f(B64(ctx.i)), B64(n))); return self.d0 + Rope([Sl(arr, off, simp(f(B64(ctx.i))))])
    def invariant(self, ctx, entry=False):
        cnt = self.eng.inputs['slices']; f = OFF(self.b); return [('at most all slices', z3.ULE(B64(ctx.i), cnt)), ('inside the buffer', z3.ULE(f(B64(ctx.i)), B64(self.b.rope.len())))]
    def var_value(self, ctx, cell, old):
        if isinstance(old, SliceV): return SliceV(symrope(ctx.eng, ctx.st, 'anyslice'))
        raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new): pass
def g_parse(eng):
    st, h = start(eng); b = BB(symrope(eng, st, 'buffer')); p = Ptr(eng.alloc(st, 'buf', 8), 0); eng.put_abs(st, p, b, 8); d, dr = qba(eng, st, 'old'); st.assume(z3.ULT(B64(dr.len()) + B64(b.rope.len()), 1 << 30)); o = Ptr(eng.alloc(st, 'status', 72), 0)
    sp = SliceCut(b, dr); sp.eng = eng
    for s, r in with_cuts(eng, [sp], lambda: eng.run(st.fork(), cfn(eng, 'v_parse'), [o, p, d])):
        eng.posts += 1
        if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
        v = eng.get_abs(s, o, NS, 'status'); w = dump_status(eng, s, b); eng.oblige(s, eqv(v.code, w.code, 32), 'status-of-the-conversion', assume=False); okc = eqv(w.code, 0, 32)
        for cond, want in ((okc, dr + b.rope), (bnot(okc), dr)):
            s2 = s.fork(); s2.assume(zb(cond))
            if eng.check(s2)[0] == 'unsat': continue
            text_is(eng, s2, rope_at(eng, s2, d), want, 'bytes-of-the-buffer-appended' if cond is okc else 'nothing-appended-on-failure')
            if cond is not okc: text_is(eng, s2, v.msg, w.msg, 'message-of-the-conversion')
            else: text_is(eng, s2, v.msg, Rope(), 'no-message-on-success')
def c_parse(eng, st, a, c):
    """contract of parseByteBuffer, proved by g_parse"""
    b = bbuf(eng, st, a[1]); w = dump_status(eng, st, b); out = []; okc = eqv(w.code, 0, 32)
    for cond in (okc, bnot(okc)):
        s = st.fork(); s.assume(zb(cond))
        if eng.check(s)[0] == 'unsat': continue
        if cond is okc: d0 = rope_at(eng, s, a[2]); eng.oblige(s, simpb(z3.ULT(B64(d0.len()) + B64(b.rope.len()), 1 << 31)), 'precondition', 'size of the data'); Q.put_ba(eng, s, un(a[2]), d0 + b.rope); eng.put_abs(s, un(a[0]), NS(0, Rope()), 72)
        else: eng.put_abs(s, un(a[0]), w, 72)
        out.append((s, ('ret', None)))
    return out
def g_unparse(eng):
    st, h = start(eng); d, dr = qba(eng, st, 'payload'); p = Ptr(eng.alloc(st, 'buf', 8), 0); eng.put_abs(st, p, BB(symrope(eng, st, 'before')), 8)
    for s, r in eng.run(st, cfn(eng, 'v_unparse'), [d, p]):
        eng.posts += 1
        if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
        text_is(eng, s, bbuf(eng, s, p).rope, dr, 'buffer-holds-the-payload'); text_is(eng, s, rope_at(eng, s, d), dr, 'payload-untouched')
# ---------------------------------------------------------------- one call
def setup(eng):
    st, h = start(eng); h.chan = Ptr(eng.alloc(st, 'channel', 64), 0); h.priv = Ptr(eng.alloc(st, 'private', 64), 0); h.pub = Ptr(eng.alloc(st, 'public', 64), 0)
    st, q = run1(eng, st, cfn(eng, 'v_channel'), [h.priv]); eng.store(st, q, 8, h.chan); eng.store(st, Ptr(q.obj, add64(q.off, 8)), 8, NULL); st, q = run1(eng, st, cfn(eng, 'v_dptr'), [h.pub]); eng.store(st, q, 8, h.priv)
    h.m, h.mr = sstr(eng, st, 'method'); h.s, h.sr = sstr(eng, st, 'service'); h.arg, h.ar = qba(eng, st, 'payload'); h.path = Rope([Lit([47])]) + h.sr + Rope([Lit([47])]) + h.mr; st.trace = (); return st, h
def judge(eng, s, h, code, msg, what):
    """the call made, and what it must report -> (condition of success, response)"""
    u = events(s, 'unary'); eng.oblige(s, len(u) == 1, 'one-call', '%d calls' % len(u), assume=False)
    if len(u) != 1: return None
    _, ch, name, ty, ctx, req, ns, resp = u[0]
    eng.oblige(s, ch.obj is h.chan.obj and ty == 0, 'call-on-this-channel', assume=False); text_is(eng, s, name, h.path, 'addressed-to-service-and-method'); text_is(eng, s, req, h.ar, 'request-is-the-payload')
    d = dump_status(eng, s, resp); ok1 = eqv(ns.code, 0, 32); ok2 = eqv(d.code, 0, 32)
    for cond, w in ((bnot(ok1), ns), (band(ok1, bnot(ok2)), d), (band(ok1, ok2), None)):
        s2 = s.fork(); s2.assume(zb(cond))
        if eng.check(s2)[0] == 'unsat': continue
        eng.oblige(s2, eqv(code, w.code if w else 0, 32), what, 'code', assume=False)
        if w is not None: text_is(eng, s2, msg, w.msg, what, 'message')
    return band(ok1, ok2), resp.rope
def payload(eng, s, got, ok, want, what):
    for cond, w in ((ok, want), (bnot(ok), Rope())):
        s2 = s.fork(); s2.assume(zb(cond))
        if eng.check(s2)[0] != 'unsat': text_is(eng, s2, got, w, what, 'success' if w is want else 'failure')
def g_sync(f):
    def go(eng):
        st, h = setup(eng); o = Ptr(eng.alloc(st, 'status', 8), 0); ret, _ = qba(eng, st, 'oldret')
        for s, r in eng.run(st, cfn(eng, f), [o, h.pub if f == 'v_csync' else h.priv, h.m, h.s, h.arg, ret]):
            eng.posts += 1
            if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
            v = eng.get_abs(s, o, Status, 'status'); x = judge(eng, s, h, v.code, v.msg, 'status-returned-unchanged')
            if x: payload(eng, s, rope_at(eng, s, ret), x[0], x[1], 'response-returned-unchanged')
    return go
def mkreply(eng, st, h):
    h.rep = Ptr(eng.alloc(st, 'callReply', 512), 0); st, d = run1(eng, st, cfn(eng, 'v_data'), [h.rep]); old, _, _ = symbytes(eng, st, 'oldData'); eng.put_abs(st, d, old, 8); h.data = d; return st
def outcomes(s, h, b=0): return [e for e in s.trace[b:] if e[0] == 'signal' and un(e[2]).obj is h.rep.obj]
def begin_async(eng, f):
    st, h = setup(eng); st = mkreply(eng, st, h)
    for s, r in eng.run(st, cfn(eng, f), [h.pub if f == 'v_casync' else h.priv, h.m, h.s, h.arg, h.rep]):
        if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
        t = events(s, 'start'); eng.oblige(s, len(t) == 1 and not outcomes(s, h), 'one-worker-started', assume=False)
        if len(t) == 1: yield s, h, t[0][1]
def g_async(f):
    def go(eng):
        for s, h, t in begin_async(eng, f):
            for s1 in thread_run(eng, s, t):
                eng.oblige(s1, not outcomes(s1, h), 'no-outcome-from-the-worker-thread', assume=False)
                for s2 in fire(eng, s1, t, 'QThread::finished'):
                    eng.posts += 1; sig = outcomes(s2, h); eng.oblige(s2, len(sig) == 1, 'exactly-one-outcome', '%d outcomes' % len(sig), assume=False)
                    if len(sig) != 1: continue
                    e = sig[0]; err = e[1] == 'error'; u = events(s2, 'unary')
                    if err: x = judge(eng, s2, h, e[3].code, e[3].msg, 'status-reported-unchanged')
                    else: x = judge(eng, s2, h, 0, Rope(), 'finished-only-on-success')
                    if x is None: continue
                    eng.oblige(s2, zb(bnot(x[0]) if err else x[0]), 'finished-exactly-on-success', e[1], assume=False); payload(eng, s2, rope_at(eng, s2, h.data), x[0], x[1], 'response-delivered-unchanged')
    return go
def g_abort(eng):
    for s, h, t in begin_async(eng, 'v_async'):
        sp = Ptr(eng.alloc(s, 'st', 8), 0); eng.put_abs(s, sp, Status(10, Rope()), 8); b = len(s.trace)
        for s1 in fire(eng, s, h.rep, '::error', (sp,)):
            for s2 in thread_run(eng, s1, t):
                for s3 in fire(eng, s2, t, 'QThread::finished'): eng.posts += 1; eng.oblige(s3, not outcomes(s3, h, b), 'no-outcome-after-abort', assume=False)
# ---------------------------------------------------------------- one stream
class ReadCut(CutSpec):
    """iteration: message k is read and handed over, unchanged"""
    name = 'reads'; ghost0 = z3.BitVecVal(0, 64)
    def wants(self, eng, fn, blk, kinds): return True
    def ghost(self, ctx): ctx.g = fbv('k', 64); ctx.st.assume(z3.ULT(ctx.g, 1 << 62)); ctx.st.ghost['reads'] = ctx.g
    def ghost_next(self, ctx): return ctx.g + 1
    def fold(self, ctx, t): t.ghost['reads'] = simp(ctx.g + 1)
    def ev_step(self, ctx, evs):
        eng, s = ctx.eng, ctx.st; es = [e for e in evs if e[0] == 'emit']; eng.oblige(s, len(es) == 1 and len(evs) == 1, 'each-message-handed-over-once', '%d times' % len(es), assume=False)
        if len(es) == 1: eng.oblige(s, es[0][1].obj is self.sub.obj, 'handed-over-by-its-own-stream', assume=False); text_is(eng, s, es[0][2], message(eng, s, ctx.g0).rope, 'message-handed-over-unchanged')
        eng.oblige(s, s.ghost['reads'] == ctx.g0 + 1, 'one-message-per-iteration', assume=False)
    def var_value(self, ctx, cell, old):
        if isinstance(old, BB): return BB(symrope(ctx.eng, ctx.st, 'before'))
        if isinstance(old, NS): return nstatus(ctx.eng, ctx.st, 'before')
        if isinstance(old, Ptr) and old.obj is None: return old
        raise Unsupported('loop modifies %r' % (old,))
    def ba_value(self, ctx, cell, r0): raise Unsupported('byte array kept across messages')
    def var_step(self, ctx, cell, old, new): pass
def begin_stream(eng, f='v_stream'):
    st, h = setup(eng); h.stream = Ptr(eng.alloc(st, 'stream', 512), 0); h.client = Ptr(eng.alloc(st, 'client', 512), 0)
    st, p = run1(eng, st, cfn(eng, 'v_s_method'), [h.stream]); eng.put_abs(st, p, Str(h.mr), 8); st, p = run1(eng, st, cfn(eng, 'v_s_arg'), [h.stream]); eng.put_abs(st, p, Q.share(st, eng.get_abs(st, h.arg, BA, 'arg')), 8)
    for s, r in eng.run(st, cfn(eng, f), [h.pub if f == 'v_cstream' else h.priv, h.stream, h.s, h.client]):
        if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
        o, t = events(s, 'open'), events(s, 'start'); eng.oblige(s, len(o) == 1 and len(t) == 1, 'one-native-stream-opened', assume=False)
        if len(o) != 1 or len(t) != 1: continue
        _, ch, name, ty, ctx, req, rd = o[0]; eng.oblige(s, ch.obj is h.chan.obj and ty == 2, 'stream-on-this-channel', assume=False); text_is(eng, s, name, h.path, 'addressed-to-service-and-method'); text_is(eng, s, req, h.ar, 'request-is-the-payload')
        h.ctx = ctx; h.sub = [un(x[0]) for x in live(s).values() if x[1].endswith('QGrpcChannelStream::dataReady')]
        eng.oblige(s, len(h.sub) == 1, 'messages-connected-once', assume=False)
        h.conns = live(s)
        if len(h.sub) == 1: h.sub = h.sub[0]; yield s, h, t[0][1]
def worker(eng, s, h, t):
    c = ReadCut(); c.sub = h.sub; return with_cuts(eng, [c], lambda: thread_run(eng, s, t))
def g_stream(f):
    def go(eng):
        for s, h, t in begin_stream(eng, f):
            for s1 in worker(eng, s, h, t):
                eng.posts += 1; fs = events(s1, 'finish'); es = [e for e in s1.trace if e[0] == 'emit']; eng.oblige(s1, not es, 'no-message-outside-the-loop', assume=False)
                k = s1.ghost.get('reads'); ls = events(s1, 'loop'); eng.oblige(s1, len(ls) == 1, 'messages-read', assume=False)
                if fs: want = fs[0][2]; eng.oblige(s1, len(fs) == 1, 'finished-once', assume=False)
                else:                                    # left early: only because message k - 1 could not be converted
                    d = [v for x, v in s1.ghost.items() if isinstance(x, tuple) and x[0] == 'dump']; eng.oblige(s1, len(d) >= 1, 'left-before-the-end', assume=False)
                    if not d: continue
                    want = d[-1]; eng.oblige(s1, zb(bnot(eqv(want.code, 0, 32))), 'left-before-the-end-only-on-failure', assume=False)
                s1, q = run1(eng, s1, cfn(eng, 'v_stream_status'), [h.sub]); v = eng.get_abs(s1, q, Status, 'status'); eng.oblige(s1, eqv(v.code, want.code, 32), 'status-kept', assume=False); text_is(eng, s1, v.msg, want.msg, 'message-kept')
                b = len(s1.trace)
                for s2 in fire(eng, s1, t, 'QThread::finished'):
                    eng.posts += 1; sig = [e for e in s2.trace[b:] if e[0] == 'signal' and un(e[2]).obj is h.stream.obj]; okc = eqv(want.code, 0, 32)
                    eng.oblige(s2, implies(bnot(okc), len(sig) == 1 and sig[0][1] == 'error'), 'failure-reported-once', assume=False); eng.oblige(s2, implies(okc, not [e for e in sig if e[1] == 'error']), 'no-error-on-success', assume=False)
                    for e in sig:
                        if e[1] == 'error': eng.oblige(s2, eqv(e[3].code, want.code, 32), 'status-reported-unchanged', assume=False); text_is(eng, s2, e[3].msg, want.msg, 'status-reported-unchanged', 'message')
                    silent(eng, s2, h, t, 'nothing-after-the-end')
    return go
def silent(eng, s, h, t, what, queued=False):
    b = len(s.trace); d, dr = qba(eng, s, 'late')
    for snd, sig, a in (((h.sub, '::dataReady', (d,)), (t, 'QThread::finished', ())) if queued else ()) + ((h.stream, '::finished', ()), (h.client, '::destroyed', (NULL,))):
        for s2 in fire(eng, s.fork(), snd, sig, a): eng.posts += 1; eng.oblige(s2, not [e for e in s2.trace[b:] if e[0] in ('deliver', 'signal')], what, sig, assume=False)
    for k, (snd, sig, rcv, slot) in sorted(h.conns.items()):     # a message queued by the worker before the disconnection still reaches the slot (Qt)
        if queued and un(snd).obj is h.sub.obj and sig.endswith('::dataReady'):
            for s2, o in slotcall(eng, s.fork(), slot, rcv, (d,)): eng.posts += 1; eng.oblige(s2, o[0] == 'ret' and not [e for e in s2.trace[b:] if e[0] in ('deliver', 'signal')], what, 'queued message', assume=False)
def g_deliver(eng):
    for s, h, t in begin_stream(eng):
        d, dr = qba(eng, s, 'message'); b = len(s.trace)
        for s2 in fire(eng, s.fork(), h.sub, '::dataReady', (d,)):
            eng.posts += 1; ds = [e for e in s2.trace[b:] if e[0] == 'deliver']; eng.oblige(s2, len(ds) == 1 and ds[0][1].obj is h.stream.obj, 'message-delivered-once', '%d times' % len(ds), assume=False)
            if len(ds) == 1: text_is(eng, s2, ds[0][2], dr, 'message-delivered-unchanged')
            eng.oblige(s2, live(s2) == live(s), 'still-connected', assume=False)
        for snd, sig, a in ((h.stream, '::finished', ()), (h.client, '::destroyed', (NULL,))):
            b = len(s.trace)
            for s2 in fire(eng, s.fork(), snd, sig, a): eng.posts += 1; eng.oblige(s2, any(e[0] == 'cancel' and e[1].obj is h.ctx.obj for e in s2.trace[b:]), 'native-stream-cancelled', sig, assume=False); silent(eng, s2, h, t, 'nothing-after-cancellation', True)
GOALS = [Goal('parseQByteArray: the buffer holds the payload', g_unparse), Goal('synchronous call: request, response and status unchanged', g_sync('v_sync')), Goal('QGrpcChannel::call, synchronous', g_sync('v_csync')), Goal('asynchronous call: exactly one outcome, unchanged', g_async('v_async')),
         Goal('QGrpcChannel::call, asynchronous', g_async('v_casync')), Goal('aborted call: no outcome', g_abort), Goal('stream: every message handed over once, in order, unchanged; status unchanged', g_stream('v_stream')), Goal('QGrpcChannel::stream', g_stream('v_cstream')), Goal('stream: delivery and cancellation', g_deliver)]
def verify(run):
    run.load(VC); run.contracts['parseByteBuffer'] = (PB, c_parse)
    ok = run.prove_contracts([Goal('parseByteBuffer: every byte of every slice, in order', g_parse, contract='parseByteBuffer')])
    for r in run.results: r['kind'] = 'property'
    run.prove(GOALS, ok)
