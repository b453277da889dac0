"""P13 nested and repeated messages, P14 enums, P15 deserialize<T>."""
from msg import *
VMO = '_ZN4VMsg18protobufMetaObjectE'
S_ = r'QtProtobuf::QProtobufSerializer::'
FA['MSG'] = (z3.Function('MSG_bytes', B(64), B(64), ArrS), z3.Function('MSG_len', B(64), B(64), B(64)))
FA['OBJ'] = (z3.Function('OBJ_bytes', B(64), B(32), ArrS), z3.Function('OBJ_len', B(64), B(32), B(64)))
def piece(st, n, a, b):
    l = simp(FA[n][1](a, b)); st.assume(z3.ULE(l, QBA_MAX - 4096)); return Rope([Sl(simp(FA[n][0](a, b)), 0, l)])
def otag(p):
    if isinstance(p, PInt): p = p.p
    if isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.info, dict) and 'tag' in p.obj.info: return B64(p.obj.info['tag'])
    raise Unsupported('object of unknown origin %r' % (p,))
def tagged(eng, st, name, tag=None, isnull=False):
    t = fbv(name, 64) if tag is None else tag; return Ptr(eng.alloc(st, name, None, 'heap', {'isnull': isnull, 'tag': t}), 0), t
def vmo(eng, st): return eng.global_ptr(st, eng.run_ctx.mods['vtmpl'], VMO)
def same_ptr(a, b):
    a = a.p if isinstance(a, PInt) else a; b = b.p if isinstance(b, PInt) else b
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and Q.teq(a.off, b.off)
def ser_start(eng):
    install_map(eng); install_msg(eng); st, d, q = base(eng); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx); return st, d, q, idx, mp
def des_start(eng):
    install_map(eng); install_msg(eng); st, d, q = base(eng)
    ba, arr, n = symbytes(eng, st, 'input'); p = fbv('pos', 64); eng.inputs['pos'] = p; st, it = iter_at(eng, st, ba, n, p); st.assume(z3.ULE(p, n)); st.trace = ()
    return st, d, q, arr, n, p, it
# ------------------------------------------------------------------ the opaque message class VMsg
MCON = z3.Function('MSG_content', B(64), B(64))       # content of an existing message object
def install_msg(eng):
    model = eng.model
    def content(eng, st, p):
        p = p.p if isinstance(p, PInt) else p
        c = st.mem[p.obj].get(0) if p.obj in st.mem else None
        if c is not None and isinstance(c[1], Term) and c[1].op == 'content': return c[1].args[0]
        return simp(MCON(otag(p)))
    eng.content = content
    def put(eng, st, p, t): eng.store(st, Ptr(p.obj, 0), 8, Term('content', t))
    eng.put_content = put
    @model(r'^VMsg::VMsg\(\)$')
    def _(eng, st, a, c): st.ev('ctor', a[0]); put(eng, st, a[0], z3.BitVecVal(0, 64))
    @model(r'^VMsg::VMsg\(VMsg const&\)$')
    def _(eng, st, a, c): st.ev('ctor', a[0]); put(eng, st, a[0], content(eng, st, a[1]))
    @model(r'^VMsg::~VMsg\(\)$')
    def _(eng, st, a, c): st.ev('dtor', a[0])
    @model(r'^VMsg::operator=\(VMsg const&\)$')
    def _(eng, st, a, c): st.ev('assign', a[0]); put(eng, st, a[0], content(eng, st, a[1])); return a[0]
    @model(r'^VMsg::operator(==|!=)\(VMsg const&\) const$')
    def _(eng, st, a, c):
        e = eqv(content(eng, st, a[0]), content(eng, st, a[1])); return bnot(e) if c.m.group(1) == '!=' else e
# ------------------------------------------------------------------ P13
def c_serializeMessage(eng, st, a, c):
    put_ba(eng, st, a[0], piece(st, 'MSG', otag(a[2]), otag(a[3])))
def g_ser_obj(which):
    def go(eng):
        st, d, q, idx, mp = ser_start(eng); obj, t = tagged(eng, st, 'message'); mo, m = tagged(eng, st, 'metaobject'); r = Ptr(eng.alloc(st, 'ret', 8), 0)
        override(eng, S_ + r'serializeMessage\(', c_serializeMessage); body = piece(st, 'MSG', t, m); st.trace = ()
        for s, o in eng.run(st, one(eng, '^' + S_ + which + r'\('), [r, q, obj, mo, mp]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
            require_rope(eng, s, plain_ba(eng, s, r), Rope([Vi(header_word(idx, 2)), Vi(body.len())]) + body, 'one-field-holding-the-message')
            eng.oblige(s, not [e for e in s.trace if e[0] == 'write'], 'message-unchanged', assume=False)
    return Goal('%s: one length-delimited field' % which, go)
def c_desmsg(eng, st, a, c):
    st.ev('msg', a[1], a[2], plain_ba(eng, st, a[3])); s2 = st.fork(); st.assume(fbool('msgok')); return [(st, ('ret', None)), (s2, ('exc', Exc('nested')))]
def g_des_obj(which):
    def go(eng):
        st, d, q, arr, n, p, it = des_start(eng); obj, _ = tagged(eng, st, 'message'); mo, _ = tagged(eng, st, 'metaobject')
        override(eng, S_ + r'deserializeMessage\(', c_desmsg)
        f = dict(arr=arr, n=n); fits, L = payload_fits(f, 'len', 0, p); vl = VLEN(arr, B64(p))
        for s, o in eng.run(st, one(eng, '^' + S_ + which + r'\('), [q, obj, mo, it]):
            eng.posts += 1; ms = [e for e in s.trace if e[0] == 'msg']
            if o[0] == 'exc' and o[1].ty != 'nested':
                eng.oblige(s, band(z3.Not(fits), not ms), 'fails-only-if-the-block-does-not-fit', str(o[1]), assume=False); continue
            eng.oblige(s, fits, 'decodes-only-a-complete-block')
            if len(ms) != 1: eng.fail(s, 'decodes-the-block-once', repr(ms)); continue
            eng.oblige(s, same_ptr(ms[0][1], obj) and same_ptr(ms[0][2], mo), 'into-the-given-message', assume=False)
            require_rope(eng, s, ms[0][3], Rope([Sl(arr, simp(B64(p) + vl), simp(L - vl))]), 'exactly-the-delimited-bytes')
            if o[0] == 'ret':
                _, _, pos = it_buf(eng, s, it); eng.oblige(s, B64(pos) == B64(p) + L, 'continues-after-the-block', assume=False)
                if 'List' in which: eng.oblige(s, o[1] is True or isint(o[1]) and o[1] == 1 or z3.is_bool(o[1]) and eng.prove(s, o[1])[0] == 'proved', 'reports-success', assume=False)
    return Goal('%s: fills from exactly the delimited bytes' % which, go)
def c_serobj(eng, st, a, c):
    eng.oblige(st, same_ptr(a[3], vmo(eng, st)), 'meta-object-of-the-class', assume=False)
    put_ba(eng, st, a[0], piece(st, 'OBJ', otag(a[2]), bv(mp_index(eng, st, a[4]), 32)))
def g_tser_obj(eng):
    st, d, q, idx, mp = ser_start(eng); obj, t = tagged(eng, st, 'message')
    var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var('VMsg*', obj)); override(eng, S_ + r'serializeObject\(', c_serobj)
    b0, buf, rs = run_template(eng, st, q, 'v_ser_object', var, mp, NullSkip(None), None)
    for s, o in rs:
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        require_rope(eng, s, plain_ba(eng, s, buf), b0 + piece(s, 'OBJ', t, idx), 'appends-exactly-the-message-field')
def sp_list(n, name='messages'):
    return Lst((SymSeg((name, 'm'), n, None, lambda e, s, i: telem(e, s, 'v', 'm', i)),), 'QSharedPointer<VMsg>')
def g_tser_list(eng):
    st, d, q, idx, mp = ser_start(eng); n = fbv('count', 64); st.assume(z3.ULT(n, (1 << 31) - 1)); eng.inputs['count'] = n
    var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var('QList<QSharedPointer<VMsg>>', sp_list(n)))
    override(eng, S_ + r'serialize(List)?Object\(', c_serobj)
    sp = NullSkip(lambda s, i: piece(s, 'OBJ', EOBJ(B64(i)), idx)); sp.null = lambda i: ENULL(B64(i))
    b0, buf, rs = run_template(eng, st, q, 'v_ser_list', var, mp, sp, None)
    for s, o in rs:
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        got = plain_ba(eng, s, buf); pre = find_pre(got)
        if not pre: eng.oblige(s, n == 0, 'one-field-per-element', assume=False); require_rope(eng, s, got, b0, 'nothing-but-the-elements'); continue
        eng.oblige(s, len(pre) == 1 and eqv(pre[0].i, n), 'one-field-per-element', assume=False); require_rope(eng, s, got, b0 + Rope([pre[0]]), 'nothing-but-the-elements')
def c_desobj(eng, st, a, c):
    p = a[1].p if isinstance(a[1], PInt) else a[1]
    st.ev('obj', p, a[2], a[3], a[0], eng.content(eng, st, p)); s2 = st.fork(); st.assume(fbool('objok'))
    eng.put_content(eng, st, p, z3.BitVec('DECODED', 64)); return [(st, ('ret', True if 'List' in c.dem else None)), (s2, ('exc', Exc('nested')))]
def fresh_checks(eng, s, q, it, old):
    """-> the decoded object, or None"""
    os = [e for e in s.trace if e[0] == 'obj']
    if len(os) != 1: eng.fail(s, 'decodes-one-message', repr(os)); return None
    x = os[0]
    eng.oblige(s, same_ptr(x[2], vmo(eng, s)) and same_ptr(x[4], q) and same_ptr(x[3], it), 'decodes-with-this-serializer-at-this-position', assume=False)
    fresh = [e for e in s.trace if e[0] == 'ctor' and same_ptr(e[1], x[1])]
    eng.oblige(s, len(fresh) == 1 and eqv(x[5], 0) is not False and x[1].obj.kind == 'heap', 'into-a-fresh-default-message', assume=False)
    eng.oblige(s, eqv(x[5], 0), 'into-a-fresh-default-message', assume=False)
    return x[1]
def g_tdes_obj(eng):
    st, d, q, arr, n, p, it = des_start(eng); old, t = tagged(eng, st, 'old', isnull=fbool('oldnull')); var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var('VMsg*', old))
    override(eng, S_ + r'deserializeObject\(', c_desobj); st.trace = ()
    for s, o in eng.run(st, cfn(eng, 'v_des_object'), [q, it, var]):
        eng.posts += 1; r = eng.V(s, var)
        if o[0] == 'exc' and o[1].ty == 'nested': eng.oblige(s, r.val is old, 'a-bad-message-changes-nothing', assume=False); continue
        if o[0] == 'exc': eng.fail(s, 'no-other-exception', str(o[1])); continue
        x = fresh_checks(eng, s, q, it, old)
        if x is None: continue
        eng.oblige(s, Q.norm_t(r.tn) == 'VMsg*' and same_ptr(r.val, x), 'value-is-the-decoded-message', assume=False)
        eng.oblige(s, not [e for e in s.trace if e[0] == 'dtor' and same_ptr(e[1], x)], 'decoded-message-stays-alive', assume=False)
def g_tdes_list(eng):
    st, d, q, arr, n, p, it = des_start(eng); m = fbv('oldcount', 64); st.assume(z3.ULT(m, (1 << 31) - 2)); old = sp_list(m, 'old'); tn = Q.norm_t('QList<QSharedPointer<VMsg>>')
    var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var(tn, old)); override(eng, S_ + r'deserialize(List)?Object\(', c_desobj); st.trace = ()
    for s, o in eng.run(st, cfn(eng, 'v_des_list'), [q, it, var]):
        eng.posts += 1; r = eng.V(s, var)
        if o[0] == 'exc' and o[1].ty == 'nested': eng.oblige(s, r.val is old, 'a-bad-message-changes-nothing', assume=False); continue
        if o[0] == 'exc': eng.fail(s, 'no-other-exception', str(o[1])); continue
        x = fresh_checks(eng, s, q, it, None)
        if x is None: continue
        v = r.val
        if Q.norm_t(r.tn) != tn or not isinstance(v, Lst): eng.fail(s, 'list-type-kept', repr(r)); continue
        if not (len(v.segs) == 2 and v.segs[0] is old.segs[0] and isinstance(v.segs[1], tuple) and len(v.segs[1]) == 1): eng.fail(s, 'appends-exactly-one-element', repr(v)); continue
        e = v.segs[1][0]; eng.oblige(s, isinstance(e, SP) and same_ptr(e.p, x) and e.null is False, 'element-is-the-decoded-message', repr(e), assume=False)
        eng.oblige(s, not [y for y in s.trace if y[0] == 'dtor' and same_ptr(y[1], x)], 'decoded-message-stays-alive', assume=False)
P13 = [g_ser_obj('serializeObject'), g_ser_obj('serializeListObject'), g_des_obj('deserializeObject'), g_des_obj('deserializeListObject'),
       Goal('serializeObject<T>: the message the value holds', g_tser_obj), Goal('serializeList<T>: one field per non-null element in order', g_tser_list),
       Goal('deserializeObject<T>: a fresh message', g_tdes_obj), Goal('deserializeList<T>: appends one fresh message', g_tdes_list)]
# ------------------------------------------------------------------ P14
VE = 'VMsg::VE'
Q.ENUMS[VE] = 4
Q.ENUMS['QMetaEnum'] = 16
INT64 = 'int64'
def install_enum(eng):
    @eng.model(r'^QMetaEnum QMetaEnum::fromType<.+>\(\)$')
    def _(eng, st, a, c): return (NULL, 0)
def metaenum(eng, st): return Ptr(eng.alloc(st, 'metaEnum', 16), 0)
def g_enum_scalar(eng):
    """serializeEnum(v): header + varint of v, nothing for zero"""
    st, d, q, idx, mp = ser_start(eng); x = fbv('value', 64); eng.inputs['value'] = x; r = Ptr(eng.alloc(st, 'ret', 8), 0)
    fn = one(eng, '^' + S_ + r'serializeEnum\(')
    for s, o in eng.run(st, fn, [r, q, x, metaenum(eng, st), mp]):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        got = plain_ba(eng, s, r); s0 = s.fork(); s0.assume(x == 0)
        if eng.check(s0)[0] != 'unsat': eng.oblige(s0, eqv(got.len(), 0), 'zero-is-omitted', assume=False)
        s.assume(x != 0)
        if eng.check(s)[0] != 'unsat': require_rope(eng, s, got, Rope([Vi(header_word(idx, 0)), Vi(x)]), 'varint-of-the-64-bit-value')
def g_denum_scalar(eng):
    st, d, q, arr, n, p, it = des_start(eng); out = Ptr(eng.alloc(st, 'value', 8), 0); eng.store(st, out, 8, fbv('old', 64))
    f = dict(arr=arr, n=n); fits, L = payload_fits(f, 'varint', 64, p)
    for s, o in eng.run(st, one(eng, '^' + S_ + r'deserializeEnum\('), [q, out, metaenum(eng, st), it]):
        eng.posts += 1
        if o[0] != 'ret': eng.oblige(s, z3.Not(fits), 'fails-only-on-an-incomplete-varint', assume=False); continue
        eng.oblige(s, fits, 'succeeds-only-on-a-complete-varint'); eng.oblige(s, eqv(eng.load(s, out, 8), VVAL(arr, p)), 'value-of-the-varint', assume=False)
        _, _, pos = it_buf(eng, s, it); eng.oblige(s, B64(pos) == B64(p) + L, 'stops-right-after-it', assume=False)
def g_enum_list(eng):
    st, d, q, idx, mp = ser_start(eng); tn = tnames(eng)['int64List']; l, n = list_input(eng, st, INT64, tn); r = Ptr(eng.alloc(st, 'ret', 8), 0)
    lp = Ptr(eng.alloc(st, 'list', 8), 0); eng.store(st, lp, 8, l); E = elems(INT64)
    g = lambda: list(eng.run(st.fork(), one(eng, '^' + S_ + r'serializeEnumList\('), [r, q, lp, metaenum(eng, st), mp]))
    for s, o in with_cuts(eng, [EncCut(lambda i: Rope([Vi(E(i))]))], g):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        got = plain_ba(eng, s, r); s1 = s.fork(); s1.assume(n == 0)
        if eng.check(s1)[0] != 'unsat': eng.oblige(s1, eqv(got.len(), 0), 'empty-list-emits-nothing', assume=False)
        s.assume(n != 0)
        if eng.check(s)[0] == 'unsat': continue
        pre = find_pre(got)
        if len(pre) != 1: eng.fail(s, 'block-holds-the-elements', repr(got)); continue
        eng.oblige(s, eqv(pre[0].i, n), 'every-element-present', assume=False); require_rope(eng, s, got, Rope([Vi(header_word(idx, 2)), Vi(pre[0].n), pre[0]]), 'one-length-delimited-block')
def g_denum_list(eng):
    st, d, q, arr, n, p, it = des_start(eng); out = Ptr(eng.alloc(st, 'list', 8), 0); eng.store(st, out, 8, Lst((), Q.targs(tnames(eng)['int64List'])[0]))
    f = dict(arr=arr, n=n); fits, L = payload_fits(f, 'len', 0, p); st.assume(fits); start = B64(p) + VLEN(arr, B64(p)); end = B64(p) + L
    g = lambda: list(eng.run(st.fork(), one(eng, '^' + S_ + r'deserializeEnumList\('), [q, out, metaenum(eng, st), it]))
    for s, o in with_cuts(eng, [DecCut(arr, INT64, n)], g):
        eng.posts += 1
        if o[0] != 'ret': continue
        v = eng.LV(s, out); cnt = v.len()
        if len(v.segs) == 0: eng.oblige(s, start == end, 'empty-list-only-for-empty-block', assume=False)
        elif len(v.segs) == 1 and isinstance(v.segs[0], SymSeg) and v.segs[0].name[0].startswith('decode-list'):
            s.assume(POS(z3.BitVecVal(0, 64)) == start); eng.oblige(s, POS(B64(cnt)) == end, 'every-element-of-the-block-decoded', assume=False)
        else: eng.fail(s, 'list-content', repr(v))
        _, _, pos = it_buf(eng, s, it); eng.oblige(s, B64(pos) == end, 'consumes-exactly-the-block', assume=False)
def c_enum(eng, st, a, c):
    st.ev('enum', a[2], a[0], a[1]); put_ba(eng, st, a[0], piece(st, 'OBJ', B64(a[2]), bv(mp_index(eng, st, a[4]), 32)))
def g_tser_enum(eng):
    install_enum(eng); st, d, q, idx, mp = ser_start(eng); x = fbv('value', 32); eng.inputs['value'] = x
    var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var(VE, x)); override(eng, S_ + r'serializeEnum\(', c_enum)
    b0, buf, rs = run_template(eng, st, q, 'v_ser_enum', var, mp, NullSkip(None), None)
    for s, o in rs:
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        ev = [e for e in s.trace if e[0] == 'enum']
        if len(ev) != 1: eng.fail(s, 'one-field', repr(ev)); continue
        eng.oblige(s, eqv(ev[0][1], z3.SignExt(32, x)), 'keeps-the-value', assume=False)
        require_rope(eng, s, plain_ba(eng, s, buf), b0 + piece(s, 'OBJ', B64(simp(z3.SignExt(32, x))), idx), 'appends-exactly-its-field')
def g_tdes_enum(eng):
    install_enum(eng); st, d, q, arr, n, p, it = des_start(eng); x = fbv('decoded', 64); var = Ptr(eng.alloc(st, 'variant', 16), 0); old = Var(VE, fbv('old', 32)); eng.setv(st, var, old)
    def c(eng, st, a, c):
        st.ev('enum', a[0], a[3]); s2 = st.fork(); eng.store(st, a[1], 8, x); st.assume(fbool('ok')); return [(st, ('ret', None)), (s2, ('exc', Exc('nested')))]
    override(eng, S_ + r'deserializeEnum\(', c); st.trace = ()
    for s, o in eng.run(st, cfn(eng, 'v_des_enum'), [q, it, var]):
        eng.posts += 1; r = eng.V(s, var); ev = [e for e in s.trace if e[0] == 'enum']
        if o[0] != 'ret': eng.oblige(s, o[1].ty == 'nested' and r.val is old.val, 'a-bad-value-changes-nothing', assume=False); continue
        eng.oblige(s, len(ev) == 1 and same_ptr(ev[0][1], q) and same_ptr(ev[0][2], it), 'decodes-one-value', assume=False)
        eng.oblige(s, band(Q.norm_t(r.tn) == VE, eqv(r.val, simp(z3.Extract(31, 0, x)), 32)), 'stores-the-decoded-value', repr(r), assume=False)
EN32 = z3.Function('ENUM_elem', B(64), B(32)); EN64 = z3.Function('ENUM_decoded', B(64), B(64))
class EnumCut(EncCut):
    """iteration i appends the converted element i"""
    name = 'enum-list'
    def __init__(s, want, w): s.want = want; s.w = w
    def lst_step(self, ctx, cell, tail):
        eng, s = ctx.eng, ctx.st; eng.oblige(s, len(tail) == 1, 'loop-step', 'exactly one element appended per iteration', assume=False)
        if len(tail) == 1: eng.oblige(s, eqv(tail[0], self.want(ctx.i0), self.w), 'loop-step', 'appended element is element i', assume=False)
def g_tser_enums(eng):
    install_enum(eng); st, d, q, idx, mp = ser_start(eng); n = fbv('count', 64); st.assume(z3.ULT(n, (1 << 31) - 1)); eng.inputs['count'] = n
    l = Lst((SymSeg(('enums', VE), n, lambda i: simp(EN32(B64(i)))),), VE); var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var('QList<%s>' % VE, l))
    def c(eng, st, a, c):
        st.ev('enums', eng.LV(st, a[2]), a[1]); put_ba(eng, st, a[0], piece(st, 'OBJ', z3.BitVecVal(0, 64), bv(mp_index(eng, st, a[4]), 32)))
    override(eng, S_ + r'serializeEnumList\(', c)
    b0, buf, rs = run_template(eng, st, q, 'v_ser_enums', var, mp, EnumCut(lambda i: z3.SignExt(32, EN32(B64(i))), 64), None)
    for s, o in rs:
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        ev = [e for e in s.trace if e[0] == 'enums']
        if len(ev) != 1: eng.fail(s, 'one-block', repr(ev)); continue
        v = ev[0][1]; sl = v.segs
        if not sl: eng.oblige(s, n == 0, 'every-element-once', assume=False)
        elif len(sl) == 1 and isinstance(sl[0], SymSeg) and sl[0].name[0].startswith('enum-list'): eng.oblige(s, eqv(sl[0].n, n), 'every-element-once', assume=False)
        else: eng.fail(s, 'every-element-once', repr(v))
        require_rope(eng, s, plain_ba(eng, s, buf), b0 + piece(s, 'OBJ', z3.BitVecVal(0, 64), idx), 'appends-exactly-its-field')
def g_tdes_enums(eng):
    install_enum(eng); st, d, q, arr, n, p, it = des_start(eng); m = fbv('oldcount', 64); k = fbv('count', 64); st.assume(z3.And(z3.ULT(m, 1 << 30), z3.ULT(k, 1 << 30)))
    old = Lst((SymSeg(('old', VE), m, lambda i: fbv('o', 32)),), VE); tn = Q.norm_t('QList<%s>' % VE); var = Ptr(eng.alloc(st, 'variant', 16), 0); eng.setv(st, var, Var(tn, old))
    def c(eng, st, a, c):
        st.ev('enums', a[0], a[3], eng.LV(st, a[1])); s2 = st.fork(); st.assume(fbool('ok'))
        eng.store(st, a[1], 8, Lst((SymSeg(('decoded', INT64), k, lambda i: simp(EN64(B64(i)))),), eng.LV(st, a[1]).tn)); return [(st, ('ret', None)), (s2, ('exc', Exc('nested')))]
    override(eng, S_ + r'deserializeEnumList\(', c); st.trace = ()
    g = lambda: list(eng.run(st.fork(), cfn(eng, 'v_des_enums'), [q, it, var]))
    for s, o in with_cuts(eng, [EnumCut(lambda i: z3.Extract(31, 0, EN64(B64(i))), 32)], g):
        eng.posts += 1; r = eng.V(s, var); ev = [e for e in s.trace if e[0] == 'enums']
        if o[0] != 'ret': eng.oblige(s, o[1].ty == 'nested' and r.val is old, 'a-bad-block-changes-nothing', assume=False); continue
        eng.oblige(s, len(ev) == 1 and same_ptr(ev[0][1], q) and same_ptr(ev[0][2], it), 'decodes-one-block', assume=False)
        v = r.val
        if Q.norm_t(r.tn) != tn or not isinstance(v, Lst): eng.fail(s, 'list-type-kept', repr(r)); continue
        if not v.segs or v.segs[0] is not old.segs[0]: eng.fail(s, 'keeps-the-earlier-values', repr(v)); continue
        sl = v.segs[1:]
        if not sl: eng.oblige(s, k == 0, 'appends-every-value', assume=False)
        elif len(sl) == 1 and isinstance(sl[0], SymSeg) and sl[0].name[0].startswith('enum-list'): eng.oblige(s, eqv(sl[0].n, k), 'appends-every-value', assume=False)
        else: eng.fail(s, 'appends-every-value', repr(v))
P14 = [Goal('serializeEnum: every 64-bit value', g_enum_scalar), Goal('deserializeEnum: every input', g_denum_scalar), Goal('serializeEnumList: every list', g_enum_list, budget=200),
       Goal('deserializeEnumList: every block', g_denum_list, budget=200), Goal('serializeEnum<T>: the enum value itself', g_tser_enum), Goal('deserializeEnum<T>: the decoded value', g_tdes_enum),
       Goal('serializeEnumList<T>: every list', g_tser_enums), Goal('deserializeEnumList<T>: appends every value', g_tdes_enums)]
# ------------------------------------------------------------------ P15
def g_replace(eng):
    install_map(eng); install_msg(eng); st, d, q = base(eng); obj, t = tagged(eng, st, 'target'); ba, arr, n = symbytes(eng, st, 'input'); data = Ptr(eng.alloc(st, 'data', 8), 0); eng.put_abs(st, data, share(st, ba), 8)
    part = z3.BitVec('PARTIAL', 64); full = z3.BitVec('DECODED', 64); bad = fbool('fails')
    def c(eng, st, a, c):
        p = a[1]; st.ev('msg', p, a[2], plain_ba(eng, st, a[3]), a[0], eng.content(eng, st, p)); s2 = st.fork(); st.assume(z3.Not(bad)); s2.assume(bad)
        eng.put_content(eng, st, p, full); eng.put_content(eng, s2, p, part); return [(st, ('ret', None)), (s2, ('exc', Exc('nested')))]
    override(eng, S_ + r'deserializeMessage\(', c); st.trace = ()
    for s, o in eng.run(st, cfn(eng, 'v_deserialize'), [q, obj, data]):
        eng.posts += 1; ms = [e for e in s.trace if e[0] == 'msg']
        if len(ms) != 1: eng.fail(s, 'decodes-once', repr(ms)); continue
        e = ms[0]; eng.oblige(s, eqv(e[5], 0), 'decodes-into-a-message-at-its-defaults', assume=False)
        eng.oblige(s, same_ptr(e[2], vmo(eng, s)) and same_ptr(e[4], q), 'of-the-target-class', assume=False); require_rope(eng, s, e[3], Rope([Sl(arr, 0, n)]), 'from-exactly-the-given-bytes')
        if o[0] == 'ret': eng.oblige(s, z3.Not(bad), 'failure-is-passed-on', assume=False); eng.oblige(s, eqv(eng.content(eng, s, obj), full), 'target-holds-exactly-what-was-decoded', assume=False)
        else:
            eng.oblige(s, o[1].ty == 'nested', 'passes-on-the-failure', str(o[1]), assume=False)
            eng.oblige(s, eqv(eng.content(eng, s, obj), part), 'target-holds-only-what-was-decoded-on-failure', assume=False)
        eng.oblige(s, not [x for x in s.trace if x[0] == 'dtor' and same_ptr(x[1], obj)], 'target-stays-alive', assume=False)
P15 = [Goal('deserialize<T>: previous content replaced', g_replace)]
