from dec import *
import sernat
native = sernat.native
def content(eng, st, T, name='value'):
    ba, arr, n = symbytes(eng, st, name, maxlen=QBA_MAX - 64)
    if T == 'string': eng.inputs.pop(name, None); Q.utf8_assumption(eng)
    return (ba if T == 'bytes' else Str(Rope([Sl(arr, 0, n)]))), arr, n
def g_enc(T):
    def f(eng):
        st, d, q = base(eng); eng.inputs['type'] = T
        v, arr, n = content(eng, st, T); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx)
        if T == 'bytes': v = share(st, v)
        var = eng.alloc(st, 'variant', 16); eng.setv(st, Ptr(var, 0), Var(tnames(eng)[T], v)); r = eng.alloc(st, 'ret', 8)
        for s, o in eng.run(st, one(eng, NS + r'serializeProperty\('), [Ptr(r, 0), d, Ptr(var, 0), mp]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
            got = plain_ba(eng, s, Ptr(r, 0))
            s1 = s.fork(); s1.assume(n == 0)
            if eng.check(s1)[0] != 'unsat':   # an empty value may be omitted or sent as an empty field
                eng.oblige(s1, z3.Or(B64(got.len()) == 0, zb(rope_must_eq(eng, s1, got, Rope([Vi(header_word(idx, 2)), Vi(0)])))), 'empty-value', assume=False)
            s.assume(n != 0)
            if eng.check(s)[0] == 'unsat': continue
            require_rope(eng, s, got, Rope([Vi(header_word(idx, 2)), Vi(n), Sl(arr, 0, n)]), 'header-length-content')
    return Goal('encode %s: every content and length' % T, f)
def g_dec(T):
    def go(eng):
        eng.inputs['type'] = T
        f = fixture(eng, tnames(eng)[T]); st = f['st']; idx = field_no(eng, st); st.assume(HAS(idx))
        p1 = header_at(eng, st, f['arr'], f['n'], f['p'], idx, 2)
        ok, L = payload_fits(f, 'len', 0, p1); st.assume(ok)
        vl = VLEN(f['arr'], B64(p1)); want = Rope([Sl(f['arr'], simp(B64(p1) + vl), simp(L - vl))])
        for s, o in dprop(eng, f):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception-on-valid-field', str(o[1])); continue
            ws = writes(f, s)
            if len(ws) != 1: eng.fail(s, 'exactly-one-write', repr(ws)); continue
            e = ws[0]; eng.oblige(s, eqv(e[1], PIDX(idx), 32), 'writes-own-property', assume=False)
            if e[3].tn != tnames(eng)[T]: eng.fail(s, 'written-type', str(e[3].tn)); continue
            rope = rope_of(eng, s, e[3].val) if T == 'bytes' else e[3].val.rope
            require_rope(eng, s, rope, want, 'decodes-exactly-the-delimited-bytes')
            _, _, pos = it_buf(eng, s, f['it']); eng.oblige(s, B64(pos) == B64(p1) + L, 'stops-right-after-them', assume=False)
    return Goal('decode %s: every buffer, position and length' % T, go)
def verify(run):
    ok = setup(run, only=('serializeVarintCommon', 'encodeHeader', 'prependLengthDelimitedSize', 'serializeLengthDelimited', 'deserializeVarintCommon', 'decodeHeader', 'deserializeLengthDelimited'))
    run.prove([g_enc(T) for T in ('string', 'bytes')] + [g_dec(T) for T in ('string', 'bytes')], ok)
