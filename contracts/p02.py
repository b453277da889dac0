from ser import *
import sernat
native = sernat.native
def val_ok(eng, st, T, var, want):
    """the written QVariant holds the wanted value of field type T (bool: a 32-bit word may stand for it, non-zero meaning true)"""
    kind, w, wt = SCALARS[T]
    if kind == 'bool':
        if var.tn not in ('bool', 'unsigned int'): return False
        return (bv(var.val, 8 if var.tn == 'bool' else 32) != 0) == (want != 0)
    if var.tn != tnames(eng)[T]: return False
    return eqv(var.val, want, w)
def goal(T):
    kind, w, wt = SCALARS[T]
    def f(eng):
        st, d, q = base(eng); eng.inputs['type'] = T
        ba, arr, n = symbytes(eng, st, 'input')
        p = fbv('pos', 64); eng.inputs['pos'] = p
        st, it = iter_at(eng, st, ba, n, p)
        idx = field_no(eng, st)
        tid = Q.tid_of(tnames(eng)[T])
        st, mo, obj, _ = message(eng, st, tid=lambda i: tid, value=lambda eng, st, i: Var(tnames(eng)[T], fbv('old', w)))
        st.assume(HAS(idx))
        p1 = header_at(eng, st, arr, n, p, idx, wt)
        if kind == 'fixed':
            st.assume(z3.ULE(w//8, n - p1)); want = fixed_bytes(arr, p1, w//8); L = w//8
        else:
            L = VLEN(arr, p1); st.assume(complete(arr, n, p1, L)); want = dec_val(kind, w, VVAL(arr, p1))
        tr = len(st.trace)
        fn = one(eng, NS + r'deserializeProperty\(')
        for s, o in eng.run(st, fn, [d, obj, mo, it]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception-on-valid-field', str(o[1])); continue
            ws = [e for e in s.trace[tr:] if e[0] == 'write']
            if len(ws) != 1: eng.fail(s, 'exactly-one-write', repr(ws)); continue
            e = ws[0]
            eng.oblige(s, eqv(e[1], PIDX(idx), 32), 'writes-own-property', assume=False)
            eng.oblige(s, e[2].obj is obj.obj, 'writes-own-object', assume=False)
            eng.oblige(s, val_ok(eng, s, T, e[3], want), 'decoded-value', str(T), assume=False)
            _, _, pos = it_buf(eng, s, it)
            eng.oblige(s, B64(pos) == p1 + L, 'consumes-exactly', assume=False)
    return Goal('decode %s: every buffer, position and value' % T, f)
def lemma(T):
    kind, w, wt = SCALARS[T]
    def f(eng):
        st = State(); x = fbv('value', w); eng.inputs['value'] = x; eng.inputs['type'] = T
        if kind == 'bool': st.assume(z3.ULE(x, 1))
        eng.posts += 1
        if kind == 'fixed':
            bs = eng.split_bytes(x, w//8); eng.oblige(st, z3.Concat(*reversed(bs)) == x, 'round-trip', assume=False); return
        u = wire_word(kind, w, x); get = lambda k: vi_byte(u, k)
        # at k beyond the encoding the buffer holds arbitrary bytes
        junk = [fbv('b', 8) for _ in range(10)]; ln = vi_len(u)
        g = lambda k: z3.If(z3.ULT(z3.BitVecVal(k, 64), ln), vi_byte(u, k), junk[k])
        eng.oblige(st, vd_len(g) == ln, 'round-trip-length', assume=False)
        v = dec_val(kind, w, vd_val(g))
        eng.oblige(st, ((v != 0) == (x != 0)) if kind == 'bool' else v == x, 'round-trip-value', assume=False)
    return Goal('lemma: decode(encode(x)) = x for %s' % T, f)
def verify(run):
    ok = setup(run, only=('deserializeVarintCommon', 'decodeHeader'))
    run.prove([goal(T) for T in SCALARS] + [lemma(T) for T in SCALARS], ok)
