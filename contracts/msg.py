"""Abstractions for whole messages: every codec is an opaque contract, values are opaque tags.

 tag (64 bit)           an arbitrary property value; PROPV(i) the value of property i
 built-in codec of type t   serializer(value, idx): bytes BENC(t, tag, idx), header wanted unless NOHDR(t, tag)
                            deserializer at p: value BDEC(t, p, old tag), moves to BEND(t, p), or throws unless BOK(t, p)
 registered codec of t      serializer appends CENC(t, tag, idx); deserializer: CDEC, CEND, COK
"""
from lists import *
from p16 import prepare
B = z3.BitVecSort
PROPV = z3.Function('PROPV', B(32), B(64)); PTID = z3.Function('PTID', B(32), B(32))
BUILTIN = z3.Function('BUILTIN', B(32), z3.BoolSort()); WT = z3.Function('WT', B(32), B(32)); NOHDR = z3.Function('NOHDR', B(32), B(64), z3.BoolSort())
FA = {n: (z3.Function(n + '_bytes', B(32), B(64), B(32), ArrS), z3.Function(n + '_len', B(32), B(64), B(32), B(64))) for n in ('BENC', 'CENC', 'FIELD')}
DEC = {n: (z3.Function(n + '_value', B(32), B(64), B(64), B(64)), z3.Function(n + '_end', B(32), B(64), B(64)), z3.Function(n + '_ok', B(32), B(64), z3.BoolSort())) for n in ('BDEC', 'CDEC')}
def enc_piece(st, n, t, tag, idx):
    t, tag, idx = bv(t, 32), bv(tag, 64), bv(idx, 32)
    l = simp(FA[n][1](t, tag, idx)); st.assume(z3.ULE(l, QBA_MAX - 4096))
    return Rope([Sl(simp(FA[n][0](t, tag, idx)), 0, l)])
def opaque(tag, tid=None): return Var(None, Term('tag', tag), tid=tid)
def tag_of(v):
    if isinstance(v, Var) and isinstance(v.val, Term) and v.val.op == 'tag': return v.val.args[0]
    raise Unsupported('value of unknown origin %r' % (v,))
def prop_value(eng, st, i): return opaque(simp(PROPV(bv(i, 32))), simp(PTID(bv(i, 32))))
def ld(eng, st, p):
    v = eng.load(st, p, 8, ('ptr',)); return v.p if isinstance(v, PInt) else v
# ------------------------------------------------------------------ opaque codecs
def absfn(eng, st, p, tag, invoke):
    def manager(eng, st, a, c):
        if isint(a[2]) and a[2] == 2: [eng.store(st, Ptr(a[0].obj, a[0].off + k), 8, eng.load(st, Ptr(a[1].obj, a[1].off + k), 8)) for k in (0, 8)]
        return False
    eng.store(st, p, 8, Term('callable', *tag)); eng.store(st, Ptr(p.obj, p.off + 8), 8, Term('callable2', *tag))
    eng.store(st, Ptr(p.obj, p.off + 16), 8, Ptr(Obj('manager', 1, 'absfn', manager), 0)); eng.store(st, Ptr(p.obj, p.off + 24), 8, Ptr(Obj('invoker', 1, 'absfn', invoke), 0))
def decode_at(eng, st, kind, t, it, vp):
    """contract of a deserializer of type t: at the iterator, into the variant"""
    b = parse_it(eng, st, it)
    if b is None: raise Unsupported('iterator into a built buffer')
    o, arr, n, p = b; p = B64(p); old = eng.V(st, vp); t = bv(t, 32)
    end = DEC[kind][1](t, p); ok = z3.And(DEC[kind][2](t, p), z3.UGE(end, p), z3.ULE(end, n))
    outs = []; s2 = st.fork(); s2.assume(z3.Not(ok))
    if eng.feasible(st, ok):
        st.assume(ok); st.assume(z3.ULE(end - p, n)); st.ev('decode', kind, t, p, tag_of(old), eng_this(st))
        st = it_adv(eng, st, it, simp(end - p))
        eng.setv(st, vp, opaque(simp(DEC[kind][0](t, p, bv(tag_of(old), 64))), old.tid))
        outs.append((st, ('ret', None)))
    if eng.check(s2)[0] != 'unsat': outs.append((s2, ('exc', Exc(OOR))))
    return outs
def eng_this(st): return None
def b_handler(eng, st, p, key, raw):
    t = bv(key, 32)
    def ser(eng, st, a, c):           # sret, [functor,] QVariant const&, int&
        if raw: a = [a[0], None] + list(a[1:])
        v = eng.V(st, a[2]); idx = eng.load(st, a[3], 4); tag = tag_of(v)
        eng.oblige(st, eqv(var_tid32(v), t, 32), 'codec-belongs-to-the-value-type', assume=False)
        put_ba(eng, st, a[0], enc_piece(st, 'BENC', t, tag, idx)); st.ev('encode', 'BENC', t, tag, idx)
        nh = simpb(NOHDR(t, bv(tag, 64))); outs = []
        s2 = st.fork()
        if eng.feasible(st, nh): st.assume(nh); eng.store(st, a[3], 4, 0xffffffff); outs.append((st, ('ret', None)))
        if eng.feasible(s2, z3.Not(zb(nh))): s2.assume(z3.Not(zb(nh))); outs.append((s2, ('ret', None)))
        return outs
    def des(eng, st, a, c): return decode_at(eng, st, 'BDEC', t, *(a[0:2] if raw else a[1:3]))
    w = simp(WT(t)); st.assume(z3.Or(w == 0, w == 1, w == 2, w == 5))
    if raw:
        eng.store(st, p, 8, Ptr(Obj('serializer', 1, 'absfn', ser), 0)); eng.store(st, Ptr(p.obj, p.off + 8), 8, Ptr(Obj('deserializer', 1, 'absfn', des), 0)); eng.store(st, Ptr(p.obj, p.off + 16), 4, w); return
    absfn(eng, st, p, ('bser', key), ser); absfn(eng, st, Ptr(p.obj, p.off + 32), ('bdes', key), des)
    eng.store(st, Ptr(p.obj, p.off + 64), 4, w)
def var_tid32(v): return bv(Q.var_tid(v), 32)
def c_handler(eng, st, p, tag):
    t = bv(tag[1], 32)
    def ser(eng, st, a, c):           # functor, serializer*&, QVariant const&, metaproperty const&, QByteArray&
        v = eng.V(st, a[2]); idx = mp_index(eng, st, a[3]); r = plain_ba(eng, st, a[4]); g = tag_of(v)
        eng.oblige(st, eqv(var_tid32(v), t, 32), 'codec-belongs-to-the-value-type', assume=False)
        st.ev('encode', 'CENC', t, g, idx, ld(eng, st, a[1]))
        put_ba(eng, st, a[4], r + enc_piece(st, 'CENC', t, g, idx))
    def des(eng, st, a, c):           # functor, serializer*&, iterator&, QVariant&
        st.ev('this', ld(eng, st, a[1]))
        return decode_at(eng, st, 'CDEC', t, a[2], a[3])
    absfn(eng, st, p, ('cser', tag[1]), ser); absfn(eng, st, Ptr(p.obj, p.off + 32), ('cdes', tag[1]), des)
    eng.store(st, Ptr(p.obj, p.off + 64), 4, fbv('htype', 32))
def abstract_codecs(eng, st):
    """replace the table of built-in codecs and the registry by arbitrary ones"""
    maps = [(ob, k) for ob, c in st.mem.items() for k, x in c.items() if isint(k) and isinstance(x, tuple) and isinstance(x[1], UMap) and x[1].d and 'HandlersRegistry' not in ob.name]
    if len(maps) != 1: raise Unsupported('%d built-in codec tables' % len(maps))
    nd0 = list(st.mem[maps[0][0]][maps[0][1]][1].d.values())[0][1]; x = st.mem[nd0.obj].get(nd0.off + 8)
    raw = x is not None and isinstance(x[1], Ptr) and x[1].obj.kind == 'fn'
    def mk(eng, st, k):
        nd = eng.alloc(st, 'node', None, 'heap', 'entry'); eng.store(st, Ptr(nd, 0), 4, k); b_handler(eng, st, Ptr(nd, 8), k, raw); return Ptr(nd, 0)
    st.wcells(maps[0][0])[maps[0][1]] = (56, UMap({}, AMap('built-in codecs', lambda k: BUILTIN(bv(k, 32)), mk)))
    st, _ = prepare(eng, st, c_handler)
    return st
from p16 import R_HAS
def override(eng, rx, f):
    eng.contract_rx.insert(0, (re.compile(rx), f)); eng._ccache.clear()
# ------------------------------------------------------------------ P10
def c_serializeProperty(eng, st, a, c):
    """opaque contract: the encoding of this value under this number"""
    v = eng.V(st, a[2]); idx = mp_index(eng, st, a[3])
    put_ba(eng, st, a[0], enc_piece(st, 'FIELD', var_tid32(v), tag_of(v), idx)); st.ev('field', idx, tag_of(v), a[1])
class MsgCut(EncCut):
    name = 'message'
    def assume(self, ctx): ctx.st.assume(z3.And(FNUM(ctx.i) >= 1, FNUM(ctx.i) < (1 << 29)))
    idx = False
    def __init__(s, step, obj): EncCut.__init__(s, step); s.obj = obj
    def wants(self, eng, fn, blk, kinds): return 'umapit' in kinds
    def ev_step(self, ctx, evs):
        for e in evs:
            if e[0] not in ('read', 'field'): ctx.eng.oblige(ctx.st, False, 'loop-step', 'only reads its fields: %r' % (e[0],), assume=False)
            if e[0] == 'read': ctx.eng.oblige(ctx.st, isinstance(e[2], Ptr) and e[2].obj is self.obj, 'loop-step', 'reads the given message', assume=False)
def ser_message(eng, st, q, mo, obj):
    r = eng.alloc(st, 'ret', 8)
    step = lambda i: field_piece(ctxst[0], simp(FNUM(B64(i))))
    ctxst = [st]
    cut = MsgCut(step, obj.obj)
    def ba_step(ctx, cell): ctxst[0] = ctx.st; return step(ctx.i0)
    cut.ba_step = ba_step
    g = lambda: [(s, o, r) for s, o in eng.run(st.fork(), one(eng, r'^QtProtobuf::QProtobufSerializer::serializeMessage\('), [Ptr(r, 0), q, obj, mo])]
    return with_cuts(eng, [cut], g)
def field_piece(st, num):
    i = simp(PIDX(bv(num, 32))); return enc_piece(st, 'FIELD', simp(PTID(bv(i, 32))), simp(PROPV(bv(i, 32))), num)
def g_message(eng):
    st, d, q = base(eng); st, mo, obj, n = message(eng, st, tid=lambda i: simp(PTID(bv(i, 32))), value=prop_value); eng.inputs['nfields'] = n
    eng.assumptions.add('field numbers in a message\'s propertyOrdering are between 1 and 2^29-1')
    override(eng, NS + r'serializeProperty\(', c_serializeProperty)
    for s, o, r in ser_message(eng, st, q, mo, obj):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        got = plain_ba(eng, s, Ptr(r, 0)); pre = find_pre(got)
        if not pre: eng.oblige(s, z3.And(n == 0, B64(got.len()) == 0), 'every-field-once', assume=False); continue
        if len(pre) != 1: eng.fail(s, 'every-field-once', repr(got)); continue
        eng.oblige(s, eqv(pre[0].i, n), 'every-field-once', assume=False); require_rope(eng, s, got, Rope([pre[0]]), 'nothing-but-the-fields')
def g_property(eng):
    st, d, q = base(eng); st = abstract_codecs(eng, st); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx)
    t = fbv('type', 32); tag = fbv('value', 64); var = eng.alloc(st, 'variant', 16); eng.setv(st, Ptr(var, 0), opaque(tag, t)); r = eng.alloc(st, 'ret', 8)
    st.trace = ()
    for s, o in eng.run(st, one(eng, NS + r'serializeProperty\('), [Ptr(r, 0), d, Ptr(var, 0), mp]):
        eng.posts += 1
        enc = [e for e in s.trace if e[0] == 'encode']
        if o[0] != 'ret':
            eng.oblige(s, band(z3.Not(BUILTIN(t)), z3.Not(R_HAS(t)), not enc), 'fails-only-without-codec', str(o[1]), assume=False); continue
        if len(enc) != 1: eng.fail(s, 'exactly-one-codec-runs', repr(enc)); continue
        e = enc[0]; got = plain_ba(eng, s, Ptr(r, 0))
        eng.oblige(s, band(eqv(e[2], t, 32), eqv(e[3], tag), eqv(e[4], idx, 32)), 'codec-gets-own-value-and-number', assume=False)
        eng.oblige(s, BUILTIN(t) if e[1] == 'BENC' else z3.Not(BUILTIN(t)), 'codec-of-the-type', assume=False)
        body = enc_piece(s, e[1], t, tag, idx)
        if e[1] == 'CENC':
            eng.oblige(s, isinstance(e[5], Ptr) and e[5].obj is q.obj, 'delegates-with-this-serializer', assume=False)
            require_rope(eng, s, got, body, 'exactly-the-delegated-encoding')
        else:
            nh = eng.prove(s, NOHDR(t, tag))[0] == 'proved'
            require_rope(eng, s, got, body if nh else enc_hdr(idx, simp(WT(t))) + body, 'header-iff-value-present')
        eng.oblige(s, not [x for x in s.trace if x[0] == 'write'], 'message-unchanged', assume=False)
def enc_hdr(idx, w):
    return Rope([Vi(simp(z3.ZeroExt(32, (bv(idx, 32) << 3) | bv(w, 32))))])
# ------------------------------------------------------------------ P11
REND = z3.Function('RECORD_end', B(64), B(64)); ROK = z3.Function('RECORD_ok', B(64), z3.BoolSort())
def c_deserializeProperty(eng, st, a, c):
    """opaque contract: one record at the iterator is consumed (at least its header) or an exception is raised"""
    b = parse_it(eng, st, a[3])
    if b is None: raise Unsupported('iterator')
    o, arr, n, p = b; p = B64(p); end = REND(p); ok = z3.And(ROK(p), z3.UGT(end, p), z3.ULE(end, B64(n)))
    outs = []; s2 = st.fork(); s2.assume(z3.Not(ok))
    if eng.feasible(st, ok):
        st.assume(ok); st.ev('record', a[1], a[2], p); st = it_adv(eng, st, a[3], simp(end - p)); outs.append((st, ('ret', None)))
    if eng.check(s2)[0] != 'unsat': s2.ev('bad', p); outs.append((s2, ('exc', Exc('record'))))
    return outs
class RecCut(CutSpec):
    """iteration i consumes exactly the record at POS(i)"""
    name = 'records'
    def __init__(s, obj, mo): s.obj = obj; s.mo = mo
    def wants(self, eng, fn, blk, kinds): return 'buf' in kinds
    def pos(self, ctx):
        if len(ctx.q) != 1: raise Unsupported('record loop over %d buffers' % len(ctx.q))
        return list(ctx.q.values())[0]
    def assume(self, ctx):
        qq, p0 = self.pos(ctx); i = ctx.i
        ctx.st.assume(POS(z3.BitVecVal(0, 64)) == 0); ctx.st.assume(POS(i + 1) == REND(POS(i)))
    def invariant(self, ctx, entry=False):
        qq, p0 = self.pos(ctx)
        if entry: return [('starts at the first byte', B64(qq) == 0)]
        return [('the read position is the start of record i', B64(qq) == POS(B64(ctx.i)))]
    def ev_step(self, ctx, evs):
        eng, s = ctx.eng, ctx.st
        evs = [e for e in evs if e[0] in ('record', 'write', 'bad')]
        eng.oblige(s, len(evs) == 1 and evs[0][0] == 'record', 'loop-step', 'exactly one record per iteration', assume=False)
        if len(evs) == 1 and evs[0][0] == 'record':
            eng.oblige(s, eqv(evs[0][3], POS(ctx.i0)), 'loop-step', 'the record is the next one', assume=False)
            eng.oblige(s, evs[0][1].obj is self.obj.obj and evs[0][2].obj is self.mo.obj, 'loop-step', 'decoded into the given message', assume=False)
def g_records(eng):
    st, d, q = base(eng); st, mo, obj, _ = message(eng, st, tid=lambda i: simp(PTID(bv(i, 32))), value=prop_value)
    ba, arr, n = symbytes(eng, st, 'input'); data = eng.alloc(st, 'data', 8); eng.put_abs(st, Ptr(data, 0), share(st, ba), 8)
    override(eng, NS + r'deserializeProperty\(', c_deserializeProperty); st.trace = ()
    g = lambda: list(eng.run(st.fork(), one(eng, r'^QtProtobuf::QProtobufSerializer::deserializeMessage\('), [q, obj, mo, Ptr(data, 0)]))
    for s, o in with_cuts(eng, [RecCut(obj, mo)], g):
        eng.posts += 1
        lp = [e for e in s.trace if e[0] == 'loop']; rest = [e for e in s.trace if e[0] in ('record', 'write', 'bad')]
        if len(lp) > 1: eng.fail(s, 'records-in-one-pass', repr(s.trace)); continue
        i = lp[0][2] if lp else z3.BitVecVal(0, 64); s.assume(POS(z3.BitVecVal(0, 64)) == 0)
        if o[0] == 'ret':
            eng.oblige(s, eqv(POS(i), n), 'stops-only-at-the-end-of-input', assume=False); eng.oblige(s, not rest, 'nothing-after-the-last-record', repr(rest), assume=False)
        else:
            eng.oblige(s, o[1].ty == 'record' and len(rest) == 1 and rest[0][0] == 'bad', 'fails-only-on-a-bad-record', str(o[1]), assume=False)
            if len(rest) == 1: eng.oblige(s, eqv(rest[0][1], POS(i)), 'fails-only-on-a-bad-record', assume=False)
def g_record(eng):
    """one record, any message, any codec: the field with its number, and only it"""
    f = fixture(eng, tid=lambda i: simp(PTID(bv(i, 32))), value=prop_value); f['st'] = st = abstract_codecs(eng, f['st']); st.trace = ()
    hc, hv, num, w, p1 = hdr(f); pi = simp(PIDX(num)); t = simp(PTID(bv(pi, 32)))
    st.assume(z3.Implies(z3.And(hc, hv), HAS(num)))          # unknown numbers: g_unknown
    for s, o in dprop(eng, f, [SkipCut(f['arr'], exact=False)]):
        eng.posts += 1; ws = writes(f, s); dc = [e for e in s.trace if e[0] == 'decode']
        if o[0] != 'ret':
            eng.oblige(s, not ws, 'a-failed-record-changes-nothing', assume=False)
            if o[1].ty == INV: eng.oblige(s, z3.And(hc, z3.Not(hv)), 'invalid-argument-only-for-a-bad-header', assume=False)
            continue
        eng.oblige(s, z3.And(hc, hv), 'record-with-invalid-header-is-rejected')
        eng.oblige(s, len(dc) == 1 and len(ws) == 1, 'exactly-one-field-updated', '%d decoded, %d written' % (len(dc), len(ws)), assume=False)
        if len(dc) != 1 or len(ws) != 1: continue
        e = dc[0]; x = ws[0]
        eng.oblige(s, eqv(x[1], pi, 32), 'writes-the-field-with-that-number', assume=False)
        eng.oblige(s, x[2].obj is f['obj'].obj, 'writes-the-given-message', assume=False)
        eng.oblige(s, band(eqv(e[2], t, 32), BUILTIN(t) if e[1] == 'BDEC' else z3.Not(BUILTIN(t))), 'codec-of-the-field-type', assume=False)
        eng.oblige(s, eqv(e[3], p1), 'codec-starts-after-the-header', assume=False)
        eng.oblige(s, eqv(e[4], PROPV(bv(pi, 32))), 'codec-sees-the-current-value', assume=False)
        eng.oblige(s, eqv(tag_of(x[3]), DEC[e[1]][0](bv(t, 32), B64(p1), PROPV(bv(pi, 32)))), 'writes-the-decoded-value', assume=False)
        th = [y for y in s.trace if y[0] == 'this']
        for y in th: eng.oblige(s, isinstance(y[1], Ptr) and y[1].obj is f['q'].obj, 'delegates-with-this-serializer', assume=False)
        _, _, pos = it_buf(eng, s, f['it']); eng.oblige(s, B64(pos) == DEC[e[1]][1](bv(t, 32), B64(p1)), 'continues-after-the-payload', assume=False)
def g_unknown(eng):
    f = fixture(eng, tid=lambda i: simp(PTID(bv(i, 32))), value=prop_value); f['st'] = st = abstract_codecs(eng, f['st']); st.trace = ()
    hc, hv, num, w, p1 = hdr(f); st.assume(z3.And(hc, hv, z3.Not(HAS(num))))
    for s, o in dprop(eng, f, [SkipCut(f['arr'], exact=False)]):
        eng.posts += 1
        eng.oblige(s, not [e for e in s.trace if e[0] in ('write', 'decode')], 'unknown-number-changes-nothing', assume=False)
        _, _, pos = it_buf(eng, s, f['it'])
        if o[0] == 'ret': eng.oblige(s, z3.And(z3.UGE(B64(pos), p1), z3.ULE(B64(pos), f['n'])), 'resumes-after-the-header', assume=False)
# ------------------------------------------------------------------ P12
from qtmap import *
import qtmap
KEYT, VALT = z3.BitVec('keytype', 32), z3.BitVec('valuetype', 32)
def g_pair(eng):
    st, d, q = base(eng); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx); r = eng.alloc(st, 'ret', 8)
    kt, vt, k, v = fbv('kt', 32), fbv('vt', 32), fbv('key', 64), fbv('value', 64)
    K = eng.alloc(st, 'key', 16); eng.setv(st, Ptr(K, 0), opaque(k, kt)); V = eng.alloc(st, 'value', 16); eng.setv(st, Ptr(V, 0), opaque(v, vt))
    override(eng, NS + r'serializeProperty\(', c_serializeProperty)
    a, b = enc_piece(st, 'FIELD', kt, k, 1), enc_piece(st, 'FIELD', vt, v, 2); n = simp(B64(a.len()) + B64(b.len())); st.assume(z3.ULE(B64(n), QBA_MAX - 4096))
    for s, o in eng.run(st, one(eng, r'^QtProtobuf::QProtobufSerializer::serializeMapPair\('), [Ptr(r, 0), q, Ptr(K, 0), Ptr(V, 0), mp]):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        require_rope(eng, s, plain_ba(eng, s, Ptr(r, 0)), Rope([Vi(header_word(idx, 2)), Vi(n)]) + a + b, 'entry-is-key-1-value-2')
KV = z3.Function('ENTRY_key', B(64), B(64)); VV = z3.Function('ENTRY_value', B(64), B(64)); SKE = z3.Function('SKIPPED_end', B(64), B(32), B(64)); SKO = z3.Function('SKIPPED_ok', B(64), B(32), z3.BoolSort())
def c_skip(eng, st, a, c):
    """contract: moves forward inside the buffer or throws (the exact amount is P05)"""
    b = parse_it(eng, st, a[0])
    if b is None: return inline(eng, st, a, c)
    o, arr, n, p = b; p = B64(p); w = bv(a[1], 32); end = SKE(p, w); ok = z3.And(SKO(p, w), z3.UGE(end, p), z3.ULE(end, n)); outs = []
    s2 = st.fork(); s2.assume(z3.Not(ok))
    if eng.feasible(st, ok):
        st.assume(ok); st.ev('skip', p, w); st = it_adv(eng, st, a[0], simp(end - p)); outs.append((st, ('ret', simp(z3.Extract(31, 0, end - p)))))
    if eng.check(s2)[0] != 'unsat': outs.append((s2, ('exc', Exc('skip'))))
    return outs
def g_skip_contract(eng, fn):
    st = State(); ba, arr, n = symbytes(eng, st, 'data'); p = fbv('pos', 64); st, it = iter_at(eng, st, ba, n, p); w = fbv('wire', 32)
    for s, o in with_cuts(eng, [SkipCut(arr, exact=False)], lambda: list(eng.run(st.fork(), fn, [it, w]))):
        eng.posts += 1; eng.oblige(s, not [e for e in s.trace if e[0] not in ('loop',)], 'no-effects', assume=False)
        if o[0] == 'ret': _, _, q = it_buf(eng, s, it); eng.oblige(s, z3.And(z3.UGE(B64(q), p), z3.ULE(B64(q), n)), 'ensures-forward-inside-buffer', assume=False)
SKIPC = (NS + r'skipSerializedFieldBytes\(', c_skip)
class EntryCut(CutSpec):
    name = 'entry'
    def __init__(s, f, kc, vc, start): s.f = f; s.kc = kc; s.vc = vc; s.start = start
    def wants(self, eng, fn, blk, kinds): return 'buf' in kinds and 'arint' not in fn.dem
    def pos(self, ctx):
        if len(ctx.q) != 1: raise Unsupported('entry loop over %d buffers' % len(ctx.q))
        return list(ctx.q.values())[0]
    def part(self, i):
        p = POS(i); arr = self.f['arr']; L = VLEN(arr, p); h = z3.Extract(31, 0, VVAL(arr, p)); return z3.LShR(h, 3), h & 7, p + L
    def step(self, i, which):
        num, w, p1 = self.part(i); kt, vt = self.f['kt'], self.f['vt']
        kb = BUILTIN(vt)
        d = lambda j, t, old: z3.If(BUILTIN(t), DEC['BDEC'][j](*((t, p1, old) if j == 0 else (t, p1))), DEC['CDEC'][j](*((t, p1, old) if j == 0 else (t, p1))))
        if which == 'pos': return z3.If(num == 1, DEC['BDEC'][1](kt, p1), z3.If(num == 2, d(1, vt, None), SKE(p1, w)))
        if which == 'key': return z3.If(num == 1, DEC['BDEC'][0](kt, p1, KV(i)), KV(i))
        return z3.If(num == 2, d(0, vt, VV(i)), VV(i))
    def assume(self, ctx):
        i = ctx.i; z = z3.BitVecVal(0, 64)
        ctx.st.assume(z3.And(POS(z) == B64(self.start), KV(z) == self.f['k0'], VV(z) == self.f['v0'], POS(i + 1) == self.step(i, 'pos'), KV(i + 1) == self.step(i, 'key'), VV(i + 1) == self.step(i, 'value')))
    def invariant(self, ctx, entry=False):
        qq, p0 = self.pos(ctx)
        if entry: return [('starts right after the entry length', B64(qq) == B64(self.start))]
        return [('the read position is the start of part i', B64(qq) == POS(B64(ctx.i)))]
    def which(self, cell):
        return 'key' if cell[0] is self.kc.obj else 'value' if cell[0] is self.vc.obj else None
    def var_value(self, ctx, cell, old):
        w = self.which(cell)
        if w and isinstance(old, Var): return opaque(simp(KV(ctx.i) if w == 'key' else VV(ctx.i)), old.tid)
        if isinstance(old, UMap) or (isinstance(old, Ptr)): return old
        raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new):
        w = self.which(cell)
        if w: ctx.eng.oblige(ctx.st, eqv(tag_of(new), (KV if w == 'key' else VV)(B64(ctx.i))), 'loop-step', '%s after part i' % w, assume=False)
    def ev_step(self, ctx, evs):
        eng, s = ctx.eng, ctx.st; num, w, p1 = self.part(ctx.i0)
        ws = [e for e in evs if e[0] in ('write',)]; eng.oblige(s, not ws, 'loop-step', 'no message is touched', assume=False)
        for e in evs:
            if e[0] == 'decode': eng.oblige(s, z3.Or(num == 1, num == 2), 'loop-step', 'only parts 1 and 2 are decoded', assume=False)
        eng.oblige(s, hdr_ok(z3.Extract(31, 0, VVAL(self.f['arr'], POS(ctx.i0)))), 'loop-step', 'invalid entry header is rejected', assume=False)
def g_entry(eng):
    st, d, q = base(eng); st = abstract_codecs(eng, st); st.trace = ()
    ba, arr, n = symbytes(eng, st, 'input'); p = fbv('pos', 64); eng.inputs['pos'] = p; st, it = iter_at(eng, st, ba, n, p)
    f = dict(arr=arr, n=n, p=p, kt=fbv('keytype', 32), vt=fbv('valuetype', 32), k0=fbv('key0', 64), v0=fbv('value0', 64))
    st.assume(z3.ULE(p, n)); st.assume(BUILTIN(f['kt']))
    K = Ptr(eng.alloc(st, 'key', 16), 0); eng.setv(st, K, opaque(f['k0'], f['kt'])); V = Ptr(eng.alloc(st, 'value', 16), 0); eng.setv(st, V, opaque(f['v0'], f['vt']))
    L = VLEN(arr, p); cnt = z3.ZeroExt(32, z3.Extract(31, 0, VVAL(arr, p))); start = simp(p + L)
    g = lambda: list(eng.run(st.fork(), one(eng, r'^QtProtobuf::QProtobufSerializer::deserializeMapPair\('), [q, K, V, it]))
    for s, o in with_cuts(eng, [EntryCut(f, K, V, start)], g):
        eng.posts += 1
        if o[0] != 'ret': continue
        lp = [e for e in s.trace if e[0] == 'loop']
        eng.oblige(s, z3.And(complete(arr, n, p, L), z3.ULE(cnt, n - start)), 'returns-only-for-a-complete-entry')
        i = lp[0][2] if lp else z3.BitVecVal(0, 64)
        if not lp: s.assume(z3.And(KV(i) == f['k0'], VV(i) == f['v0']))
        eng.oblige(s, o[1] is True or z3.is_bool(o[1]) and eng.prove(s, o[1])[0] == 'proved' or (isint(o[1]) and o[1] == 1), 'reports-success', assume=False)
        eng.oblige(s, eqv(tag_of(eng.V(s, K)), KV(i)), 'key-is-the-last-part-1-or-the-default', assume=False)
        eng.oblige(s, eqv(tag_of(eng.V(s, V)), VV(i)), 'value-is-the-last-part-2-or-the-default', assume=False)
        _, _, pos = it_buf(eng, s, it); eng.oblige(s, B64(pos) == start + cnt, 'stops-right-after-the-entry', assume=False)
# templates -----------------------------------------------------------
STAG = z3.Function('TEXT', ArrS, B(64), B(64)); EOBJ = z3.Function('ELEMENT', B(64), B(64)); ENULL = z3.Function('ELEMENT_null', B(64), z3.BoolSort())
def val_tag(eng, st, v):
    """64-bit identity of a typed value"""
    x = v.val
    if isinstance(x, Term) and x.op == 'tag': return x.args[0]
    if isint(x): return x
    if z3.is_bv(x): return simp(z3.ZeroExt(64 - x.size(), x)) if x.size() < 64 else x
    if isinstance(x, (Str, BA)):
        r = x.rope if isinstance(x, Str) else rope_of(eng, st, x)
        if not r.ps: return simp(STAG(z3.K(B(64), z3.BitVecVal(0, 8)), z3.BitVecVal(0, 64)))
        if len(r.ps) == 1 and isinstance(r.ps[0], Sl) and isint(r.ps[0].off) and r.ps[0].off == 0: return simp(STAG(r.ps[0].arr, B64(r.ps[0].n)))
    if isinstance(x, Ptr):
        if x.obj is None: return 0
        if isinstance(x.obj.info, dict) and 'tag' in x.obj.info: return x.obj.info['tag']
    raise Unsupported('identity of %r' % (x,))
MK = {'ii': ('QMap<int32,sint64>', 'int', 'long'), 'sb': ('QMap<QString,QByteArray>', 's', 'b'), 'sm': ('QMap<QString,message>', 's', 'm')}
KAR = {x: (z3.Function('MAP%s_bytes' % x, B(64), ArrS), z3.Function('MAP%s_len' % x, B(64), B(64))) for x in 'kv'}
KI = z3.Function('MAPkey', B(64), B(32)); VI = z3.Function('MAPvalue', B(64), B(64))
def telem(eng, st, which, T, i):
    i = B64(i)
    if T == 'int': return simp(KI(i))
    if T == 'long': return simp(VI(i))
    if T == 'm':
        c = simpb(ENULL(i)); o = eng.alloc(st, 'element', None, 'heap', {'isnull': c, 'tag': simp(EOBJ(i))}); return SP(Ptr(o, 0), c)
    r = Rope([Sl(simp(KAR[which][0](i)), 0, simp(KAR[which][1](i)))]); st.assume(z3.ULE(KAR[which][1](i), QBA_MAX - 4096))
    return Str(r) if T == 's' else mkba(eng, st, r)
def tval(T, i, which):
    i = B64(i)
    if T == 'int': return simp(z3.ZeroExt(32, KI(i)))
    if T == 'long': return simp(VI(i))
    if T == 'm': return simp(EOBJ(i))
    return simp(STAG(KAR[which][0](i), KAR[which][1](i)))
FA['PAIR'] = (z3.Function('PAIR_bytes', B(64), B(64), B(32), ArrS), z3.Function('PAIR_len', B(64), B(64), B(32), B(64)))
def pair_piece(st, k, v, idx):
    k, v, idx = bv(k, 64), bv(v, 64), bv(idx, 32); l = simp(FA['PAIR'][1](k, v, idx)); st.assume(z3.ULE(l, QBA_MAX - 4096)); return Rope([Sl(simp(FA['PAIR'][0](k, v, idx)), 0, l)])
def c_pair(eng, st, a, c):
    k, v = eng.V(st, a[2]), eng.V(st, a[3]); st.ev('pair', k.tn, v.tn)
    put_ba(eng, st, a[0], pair_piece(st, val_tag(eng, st, k), val_tag(eng, st, v), mp_index(eng, st, a[4])))
MTN = {}
def find_tn(eng, kind):
    """C++ type names used by the template instantiation, from its QVariant::value<> call"""
    m = eng.run_ctx.mods['vtmpl']; fn = cfn(eng, 'v_ser_' + kind); seen = []
    todo = [fn.name]; done = set()
    while todo:
        n = todo.pop()
        if n in done or n not in m.fns: continue
        done.add(n); f = m.fns[n]; f.parse()
        for b in f.blocks.values():
            for i in b:
                if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                    dm = m.dem(i.a[0][1]); mm = re.match(r'^.+ QVariant::value<(.+)>\(\) const$', dm)
                    if mm: return Q.norm_t(mm.group(1))
                    if dm.startswith('void QtProtobufPrivate::'): todo.append(i.a[0][1])
    raise Unsupported('value type of v_ser_' + kind)
class NullSkip(EncCut):
    """iteration i appends step(i), or nothing when element i is null"""
    def wants(self, eng, fn, blk, kinds): return 'umapit' in kinds or 'lst' in kinds
    def ba_step(self, ctx, cell):
        c = simpb(self.null(ctx.i0)) if self.null else False
        if c is not False and ctx.eng.prove(ctx.st, c)[0] == 'proved': return Rope()
        if c is not False: ctx.eng.oblige(ctx.st, bnot(c), 'loop-step', 'null elements are skipped', assume=False)
        return self.step(ctx.st, ctx.i0)
    def ev_step(self, ctx, evs):
        if [e for e in evs if e[0] in ('write',)]: ctx.eng.oblige(ctx.st, False, 'loop-step', 'no side effects', assume=False)
def run_template(eng, st, q, wrapper, var, mp, spec, vals):
    """buffer starts with arbitrary bytes; -> (state, outcome, rope appended)"""
    ba, arr, n = symbytes(eng, st, 'buffer', 1 << 20); buf = Ptr(eng.alloc(st, 'buffer', 8), 0); eng.put_abs(st, buf, ba, 8)
    g = lambda: list(eng.run(st.fork(), cfn(eng, wrapper), [q, var, mp, buf]))
    return Rope([Sl(arr, 0, n)]), buf, with_cuts(eng, [spec], g)
def g_sermap(kind):
    nm, KT, VT = MK[kind]
    def go(eng):
        install_map(eng); st, d, q = base(eng); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx)
        n = fbv('entries', 64); st.assume(z3.ULT(n, 1 << 31)); eng.inputs['entries'] = n
        qm = QM('map', n, lambda e, s, i: telem(e, s, 'k', KT, i), lambda e, s, i: telem(e, s, 'v', VT, i))
        var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var(find_tn(eng, 'map_' + kind), qm))
        override(eng, r'QtProtobuf::QProtobufSerializer::serializeMapPair\(', c_pair)
        sp = NullSkip(lambda s, i: pair_piece(s, tval(KT, i, 'k'), tval(VT, i, 'v'), idx)); sp.null = (lambda i: ENULL(B64(i))) if VT == 'm' else None
        b0, buf, rs = run_template(eng, st, q, 'v_ser_map_' + kind, var, mp, sp, None)
        for s, o in rs:
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
            got = plain_ba(eng, s, buf); pre = find_pre(got)
            if not pre: eng.oblige(s, n == 0, 'one-field-per-entry', assume=False); require_rope(eng, s, got, b0, 'nothing-but-the-entries'); continue
            eng.oblige(s, len(pre) == 1 and eqv(pre[0].i, n), 'one-field-per-entry', assume=False); require_rope(eng, s, got, b0 + Rope([pre[0]]), 'nothing-but-the-entries')
    return Goal('serializeMap %s: one field per entry' % nm, go)
def g_desmap(kind):
    nm, KT, VT = MK[kind]
    def go(eng):
        install_map(eng); st, d, q = base(eng); tn = find_tn(eng, 'map_' + kind)
        ba, arr, n = symbytes(eng, st, 'input'); p = fbv('pos', 64); st, it = iter_at(eng, st, ba, n, p)
        m = fbv('entries', 64); old = QM('old', m, lambda e, s, i: None, lambda e, s, i: None)
        var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var(tn, old))
        kt, vt = Q.targs(tn); 
        if VT == 'm': vt = Q.targs(vt)[0] + '*'
        seen = {}
        def pair(eng, st, a, c):
            k, v = eng.V(st, a[1]), eng.V(st, a[2]); st.ev('pair', k, v, a[0], a[3])
            s2 = st.fork(); st.assume(fbool('pairok'))
            nk = telem(eng, st, 'k', KT, 0); nv = telem(eng, st, 'v', VT, 0)
            if isinstance(nv, SP): nv = nv.p
            seen['k'], seen['v'] = nk, nv
            eng.setv(st, a[1], Var(k.tn, nk)); eng.setv(st, a[2], Var(v.tn, nv)); return [(st, ('ret', True)), (s2, ('exc', Exc('pair')))]
        override(eng, r'QtProtobuf::QProtobufSerializer::deserializeMapPair\(', pair); st.trace = ()
        for s, o in eng.run(st, cfn(eng, 'v_des_map_' + kind), [q, it, var]):
            eng.posts += 1; ps = [e for e in s.trace if e[0] == 'pair']
            eng.oblige(s, len(ps) == 1, 'reads-exactly-one-entry', assume=False)
            if len(ps) != 1: continue
            k, v = ps[0][1], ps[0][2]
            eng.oblige(s, Q.norm_t(k.tn) == Q.norm_t(kt) and is_default(k.val), 'key-starts-at-default', '%s %r' % (k.tn, k.val), assume=False)
            eng.oblige(s, Q.norm_t(v.tn).replace(' ', '') == Q.norm_t(vt).replace(' ', '') and is_default(v.val), 'value-starts-at-default', '%s %r' % (v.tn, v.val), assume=False)
            r = eng.V(s, var)
            if o[0] != 'ret':
                eng.oblige(s, r.val is old, 'a-bad-entry-changes-nothing', assume=False); continue
            x = r.val
            if not isinstance(x, QM) or Q.norm_t(r.tn) != tn: eng.fail(s, 'map-type-kept', repr(r)); continue
            eng.oblige(s, x.name == 'old' and len(x.puts) == 1, 'keeps-the-other-entries', repr(x), assume=False)
            if len(x.puts) != 1: continue
            kk, vv = x.puts[0]
            if isinstance(vv, SP): vv = vv.p
            eng.oblige(s, same_val(eng, s, kk, seen['k']), 'inserts-under-the-decoded-key', repr(kk), assume=False); eng.oblige(s, same_val(eng, s, vv, seen['v']), 'inserts-the-decoded-value', repr(vv), assume=False)
    return Goal('deserializeMap %s: inserts exactly the decoded entry' % nm, go)
def is_default(v):
    if isint(v): return v == 0
    if isinstance(v, Str): return not v.rope.ps
    if isinstance(v, Ptr): return v.obj is None
    if isinstance(v, BA): return v.null is True
    return False
def same_val(eng, st, a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj
    if isinstance(a, BA) and isinstance(b, BA): return Q.same_rope(rope_of(eng, st, a), rope_of(eng, st, b))
    if isinstance(a, Str) and isinstance(b, Str): return Q.same_rope(a.rope, b.rope)
    if (isint(a) or z3.is_bv(a)) and (isint(b) or z3.is_bv(b)): return eqv(a, b, a.size() if z3.is_bv(a) else b.size() if z3.is_bv(b) else 64)
    return False
TMPL = ('vtmpl', build.VERIF + '/native/vtmpl.cpp', ['-fno-access-control'])
