from dec import *
import sernat
native = sernat.native
def g_enc(wt):
    def f(eng):
        st = State(); i = field_no(eng, st); r = eng.alloc(st, 'ret', 8)
        for s, o in eng.run(st, one(eng, NS + r'encodeHeader\('), [Ptr(r, 0), i, wt]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
            require_rope(eng, s, plain_ba(eng, s, Ptr(r, 0)), Rope([Vi(header_word(i, wt))]), 'header-is-minimal-varint-of-number*8+type')
    return Goal('encodeHeader, wire type %d, every field number' % wt, f)
def g_dec(eng):
    st = State(); ba, arr, n = symbytes(eng, st, 'input'); p = fbv('pos', 64); eng.inputs['pos'] = p
    st, it = iter_at(eng, st, ba, n, p)
    fi = eng.alloc(st, 'fieldIndex', 4); wt = eng.alloc(st, 'wireType', 4)
    eng.store(st, Ptr(fi, 0), 4, fbv('fi0', 32)); eng.store(st, Ptr(wt, 0), 4, fbv('wt0', 32))
    L = VLEN(arr, p); h = z3.Extract(31, 0, VVAL(arr, p)); ok = complete(arr, n, p, L)
    for s, o in eng.run(st, one(eng, NS + r'decodeHeader\('), [it, Ptr(fi, 0), Ptr(wt, 0)]):
        eng.posts += 1
        if o[0] != 'ret': eng.oblige(s, z3.Not(ok), 'throws-only-if-incomplete', assume=False); continue
        eng.oblige(s, ok, 'returns-only-if-complete')
        eng.oblige(s, zb(o[1]) == hdr_ok(h), 'accepts-exactly-the-valid-headers', assume=False)
        s1 = s.fork(); s1.assume(hdr_ok(h))
        eng.oblige(s1, bv(eng.load(s1, Ptr(fi, 0), 4), 32) == z3.LShR(h, 3), 'field-number', assume=False)
        eng.oblige(s1, bv(eng.load(s1, Ptr(wt, 0), 4), 32) == (h & 7), 'wire-type', assume=False)
        _, _, q = it_buf(eng, s, it); eng.oblige(s, B64(q) == p + L, 'consumes-exactly-the-header', assume=False)
def g_reject(eng):
    """a record with an invalid header is rejected by the message decoder, whatever the fields of the message"""
    f = fixture(eng, 'int'); hc, hv, num, wt, p1 = hdr(f); f['st'].assume(hc); f['st'].assume(z3.Not(hv))
    for s, o in dprop(eng, f):
        eng.posts += 1
        if o[0] == 'ret': eng.fail(s, 'invalid-header-rejected'); continue
        eng.oblige(s, not writes(f, s), 'nothing-written', assume=False)
def lemma(eng):
    st = State(); i = field_no(eng, st); eng.posts += 1
    for wt in (0, 1, 2, 5):
        u = B64(header_word(i, wt)); ln = vi_len(u); junk = [fbv('b', 8) for _ in range(10)]
        g = lambda k: z3.If(z3.ULT(z3.BitVecVal(k, 64), ln), vi_byte(u, k), junk[k])
        eng.oblige(st, vd_len(g) == ln, 'round-trip-length', assume=False)
        h = z3.Extract(31, 0, vd_val(g))
        eng.oblige(st, z3.And(z3.LShR(h, 3) == i, (h & 7) == wt, hdr_ok(h)), 'round-trip-number-and-type', assume=False)
def verify(run):
    ok = setup(run, only=('deserializeVarintCommon', 'serializeVarintCommon'))
    run.prove([g_enc(w) for w in (0, 1, 2, 5)] + [Goal('decodeHeader, arbitrary buffer and position', g_dec), Goal('invalid header is rejected by the message decoder', g_reject),
               Goal('lemma: decode(encode(number, type))', lemma)], ok)
