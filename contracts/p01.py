from ser import *
import sernat
native = sernat.native
def goal(T):
    kind, w, wt = SCALARS[T]
    def f(eng):
        st, d, q = base(eng)
        x = fbv('value', w); eng.inputs['value'] = x; eng.inputs['type'] = T
        if kind == 'bool': st.assume(z3.ULE(x, 1))
        idx = field_no(eng, st); st, mp = metaprop(eng, st, idx)
        var = eng.alloc(st, 'variant', 16); eng.setv(st, Ptr(var, 0), Var(tnames(eng)[T], x))
        r = eng.alloc(st, 'ret', 8)
        fn = one(eng, NS + r'serializeProperty\(')
        for s, o in eng.run(st, fn, [Ptr(r, 0), d, Ptr(var, 0), mp]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
            got = plain_ba(eng, s, Ptr(r, 0))
            full = Rope([Vi(header_word(idx, wt))]) + enc(eng, kind, w, x)
            if kind == 'fixed': require_rope(eng, s, got, full, 'field-encoding'); continue
            s1 = s.fork(); s1.assume(x == 0)
            eng.oblige(s1, eqv(got.len(), 0), 'zero-omitted', assume=False)
            s.assume(x != 0)
            require_rope(eng, s, got, full, 'field-encoding')
    return Goal('encode %s: every value, every field number' % T, f)
def verify(run):
    ok = setup(run, only=('serializeVarintCommon', 'encodeHeader'))
    run.prove([goal(T) for T in SCALARS], ok)
