from lists import *
import sernat
native = sernat.native
def g_enc(T):
    def f(eng):
        tn = tnames(eng)[T + 'List']; eng.inputs['type'] = T + 'List'
        if T == 'string': Q.utf8_assumption(eng)
        st, d, q = base(eng); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx)
        n = fbv('count', 64); st.assume(z3.ULT(n, (1 << 31) - 1)); eng.inputs['count'] = n
        var = eng.alloc(st, 'variant', 16); eng.setv(st, Ptr(var, 0), Var(tn, blob_list(eng, st, T, n)))
        step = lambda i: Rope([Vi(header_word(idx, 2)), Vi(simp(ELEN(B64(i))))]) + blob(i)
        for s, o, r in enc_list(eng, st, d, idx, mp, var, [EncCut(step)]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
            got = plain_ba(eng, s, Ptr(r, 0)); pre = find_pre(got)
            if not pre: eng.oblige(s, z3.And(n == 0, B64(got.len()) == 0), 'empty-list-emits-nothing', assume=False); continue
            if len(pre) != 1: eng.fail(s, 'elements-once', repr(got)); continue
            eng.oblige(s, eqv(pre[0].i, n), 'one-field-per-element', assume=False)
            require_rope(eng, s, got, Rope([pre[0]]), 'nothing-but-the-element-fields')
    return Goal('encode repeated %s: every list' % T, f)
def g_dec(T):
    def go(eng):
        tn = tnames(eng)[T + 'List']; eng.inputs['type'] = T + 'List'
        m = fbv('oldcount', 64); holder = {}
        f = fixture(eng, tn, value=lambda eng, st, i: Var(tn, holder['l'])); st = f['st']; st.assume(z3.ULT(m, (1 << 31) - 2))
        holder['l'] = blob_list(eng, st, T, m, 'old')
        idx = field_no(eng, st); st.assume(HAS(idx)); p1 = header_at(eng, st, f['arr'], f['n'], f['p'], idx, 2)
        ok, L = payload_fits(f, 'len', 0, p1); st.assume(ok); vl = VLEN(f['arr'], B64(p1))
        want = Rope([Sl(f['arr'], simp(B64(p1) + vl), simp(L - vl))])
        for s, o in dprop(eng, f):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception-on-valid-field', str(o[1])); continue
            ws = writes(f, s)
            if len(ws) != 1: eng.fail(s, 'exactly-one-write', repr(ws)); continue
            e = ws[0]; eng.oblige(s, eqv(e[1], PIDX(idx), 32), 'writes-own-property', assume=False)
            rd = [x for x in s.trace[len(st.trace):] if x[0] == 'read']
            v = e[3].val
            if e[3].tn != tn or not isinstance(v, Lst): eng.fail(s, 'written-type', str(e[3].tn)); continue
            if not (len(v.segs) == 2 and v.segs[0] is holder['l'].segs[0] and isinstance(v.segs[1], tuple) and len(v.segs[1]) == 1):
                eng.fail(s, 'appends-exactly-one-element', repr(v)); continue
            for x in rd: eng.oblige(s, eqv(x[1], PIDX(idx), 32), 'keeps-own-elements', assume=False)
            x = v.segs[1][0]; rope = rope_of(eng, s, x) if T == 'bytes' else x.rope
            require_rope(eng, s, rope, want, 'element-is-exactly-the-delimited-bytes')
            _, _, pos = it_buf(eng, s, f['it']); eng.oblige(s, B64(pos) == B64(p1) + L, 'stops-right-after-them', assume=False)
    return Goal('decode repeated %s: appends exactly one element' % T, go)
def verify(run):
    ok = setup(run, only=('serializeVarintCommon', 'encodeHeader', 'prependLengthDelimitedSize', 'serializeLengthDelimited', 'deserializeVarintCommon', 'decodeHeader', 'deserializeLengthDelimited'))
    run.prove([g_enc(T) for T in ('string', 'bytes')] + [g_dec(T) for T in ('string', 'bytes')], ok)
