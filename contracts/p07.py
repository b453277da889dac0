from lists import *
import p02, sernat
native = sernat.native
def elem_enc(eng, T, i):
    kind, w, wt = SCALARS[T]; return enc(eng, kind, w, elems(T)(i))
def g_enc(T):
    def f(eng):
        tn = tnames(eng)[T + 'List']; eng.inputs['type'] = T + 'List'
        st, d, q = base(eng); idx = field_no(eng, st); st, mp = metaprop(eng, st, idx)
        l, n = list_input(eng, st, T, tn)
        var = eng.alloc(st, 'variant', 16); eng.setv(st, Ptr(var, 0), Var(tn, l))
        for s, o, r in enc_list(eng, st, d, idx, mp, var, [EncCut(lambda i: elem_enc(eng, T, i))]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
            got = plain_ba(eng, s, Ptr(r, 0))
            s1 = s.fork(); s1.assume(n == 0)
            if eng.check(s1)[0] != 'unsat': eng.oblige(s1, eqv(got.len(), 0), 'empty-list-emits-nothing', assume=False)
            s.assume(n != 0)
            if eng.check(s)[0] == 'unsat': continue
            pre = find_pre(got)
            if len(pre) != 1: eng.fail(s, 'block-holds-the-elements', repr(got)); continue
            eng.oblige(s, eqv(pre[0].i, n), 'every-element-present', assume=False)
            require_rope(eng, s, got, Rope([Vi(header_word(idx, 2)), Vi(pre[0].n), pre[0]]), 'one-length-delimited-block')
    return Goal('encode packed list of %s: every length and content' % T, f)
def g_dec(T):
    def go(eng):
        tn = tnames(eng)[T + 'List']; eng.inputs['type'] = T + 'List'
        f = fixture(eng, tn); st = f['st']; idx = field_no(eng, st); st.assume(HAS(idx)); arr = f['arr']
        p1 = header_at(eng, st, arr, f['n'], f['p'], idx, 2)
        ok, L = payload_fits(f, 'len', 0, p1); st.assume(ok)
        start = B64(p1) + VLEN(arr, B64(p1)); end = B64(p1) + L
        cut = DecCut(arr, T, f['n'])
        rs = dprop(eng, f, [cut])
        for s, o in rs:
            eng.posts += 1
            if o[0] != 'ret': continue        # a block whose elements do not end at its end: rejected (P03)
            ws = writes(f, s)
            if len(ws) != 1: eng.fail(s, 'exactly-one-write', repr(ws)); continue
            e = ws[0]; eng.oblige(s, eqv(e[1], PIDX(idx), 32), 'writes-own-property', assume=False)
            v = e[3].val
            if e[3].tn != tn or not isinstance(v, Lst): eng.fail(s, 'written-type', str(e[3].tn)); continue
            cnt = v.len()
            if len(v.segs) == 0: eng.oblige(s, start == end, 'empty-list-only-for-empty-block', assume=False)
            elif len(v.segs) == 1 and isinstance(v.segs[0], SymSeg) and v.segs[0].name[0].startswith('decode-list'):
                s.assume(POS(z3.BitVecVal(0, 64)) == start)
                eng.oblige(s, POS(B64(cnt)) == end, 'every-element-of-the-block-decoded', assume=False)
            else: eng.fail(s, 'list-content', repr(v))
            _, _, pos = it_buf(eng, s, f['it']); eng.oblige(s, B64(pos) == end, 'consumes-exactly-the-block', assume=False)
    return Goal('decode packed list of %s: every block' % T, go, budget=200)
def g_total(T):
    """a block made of complete elements is never rejected: at every element start before the end the iteration succeeds"""
    def go(eng):
        tn = tnames(eng)[T + 'List']; eng.inputs['type'] = T + 'List'
        f = fixture(eng, tn); st = f['st']; idx = field_no(eng, st); st.assume(HAS(idx)); arr = f['arr']
        p1 = header_at(eng, st, arr, f['n'], f['p'], idx, 2)
        ok, L = payload_fits(f, 'len', 0, p1); st.assume(ok)
        start = B64(p1) + VLEN(arr, B64(p1)); end = B64(p1) + L
        class C(DecCut):
            def assume(self, ctx):
                DecCut.assume(self, ctx); i = ctx.i; e = self.elen(POS(i))
                # well-formed block: element i starts before the end => it is complete and ends inside the block
                ctx.st.assume(z3.ULE(POS(i), end))
                ctx.st.assume(z3.Implies(z3.ULT(POS(i), end), z3.And(e != 0, z3.ULE(e, 10), z3.ULE(e, end - POS(i)))))
        for s, o in dprop(eng, f, [C(arr, T, f['n'])]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'well-formed-block-accepted', str(o[1]))
    return Goal('well-formed packed list of %s is always accepted' % T, go, budget=200)
def verify(run):
    ok = setup(run, only=('serializeVarintCommon', 'encodeHeader', 'prependLengthDelimitedSize', 'deserializeVarintCommon', 'decodeHeader'))
    run.prove([g_enc(T) for T in LISTS] + [g_dec(T) for T in LISTS] + [g_total(T) for T in LISTS] + [p02.lemma(T) for T in LISTS], ok)
