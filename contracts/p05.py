from dec import *
import sernat
native = sernat.native
def fits(f, wt, p1):
    if wt == VARINT:
        e = SKIP(f['arr'], B64(p1)); return z3.ULE(e, f['n']), e
    ok, L = payload_fits(f, 'fixed' if wt != LEN else 'len', {FIX32: 32, FIX64: 64}.get(wt), p1)
    return ok, B64(p1) + L
def g_skip(wt):
    def go(eng):
        f = fixture(eng, 'int'); hc, hv, num, w, p1 = hdr(f); st = f['st']
        st.assume(hc); st.assume(num != 0); st.assume(w == wt); st.assume(z3.Not(HAS(num)))
        if wt == VARINT: st.assume(skip_axioms(f['arr'], p1))
        ok, end = fits(f, wt, p1)
        for s, o in dprop(eng, f, [SkipCut(f['arr'])]):
            eng.posts += 1
            eng.oblige(s, not writes(f, s), 'unknown-field-changes-nothing', assume=False)
            if o[0] == 'ret':
                _, _, pos = it_buf(eng, s, f['it'])
                eng.oblige(s, ok, 'returns-only-if-payload-fits')
                eng.oblige(s, B64(pos) == end, 'skips-exactly-the-payload', assume=False)
            else: eng.oblige(s, z3.Not(ok), 'throws-only-if-payload-does-not-fit', assume=False)
    return Goal('unknown field of wire type %d is skipped exactly' % wt, go, budget=200)
def g_bad(eng):
    """no defined length: exception"""
    for wt in (3, 4, 6, 7):
        f = fixture(eng, 'int'); hc, hv, num, w, p1 = hdr(f); st = f['st']
        st.assume(hc); st.assume(num != 0); st.assume(w == wt); st.assume(z3.Not(HAS(num)))
        for s, o in dprop(eng, f):
            eng.posts += 1; eng.oblige(s, o[0] == 'exc' and not writes(f, s), 'undefined-length-raises', 'wire type %d' % wt, assume=False)
def verify(run):
    ok = setup(run, only=('deserializeVarintCommon', 'decodeHeader'))
    run.prove([g_skip(w) for w in (0, 1, 2, 5)] + [Goal('unknown field of undefined length raises an exception', g_bad)], ok)
