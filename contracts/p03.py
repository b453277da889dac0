from dec import *
import sernat
native = sernat.native
LEN = {'string': 'QString', 'bytes': 'QByteArray', 'stringList': None, 'bytesList': None}
def safe_post(eng, f, s, o, extra=None):
    """postcondition of every decoding step on arbitrary bytes"""
    eng.posts += 1
    _, _, pos = it_buf(eng, s, f['it'])
    if o[0] == 'ret':
        eng.oblige(s, z3.And(z3.UGT(B64(pos), f['p']), z3.ULE(B64(pos), f['n'])), 'position-advances-within-input', assume=False)
    else:
        eng.oblige(s, z3.And(z3.UGE(B64(pos), f['p']), z3.ULE(B64(pos), f['n'])), 'position-stays-within-input', assume=False)
        eng.oblige(s, not writes(f, s), 'nothing-delivered-with-an-exception', assume=False)
        eng.oblige(s, o[1].ty in (OOR, INV), 'exception-type', str(o[1].ty), assume=False)
def g_type(T):
    def f(eng):
        eng.inputs['type'] = T
        if T in SCALARS: kind, w, wt = SCALARS[T]
        else: kind, w = 'len', 0
        f = fixture(eng, tnames(eng)[T]); hc, hv, num, wt, p1 = hdr(f)
        f['st'].assume(z3.ForAll([z3.BitVec('k', 32)], HAS(z3.BitVec('k', 32)))) if False else f['st'].assume(HAS(num))
        fits, L = payload_fits(f, kind, w, p1)
        for s, o in dprop(eng, f):
            safe_post(eng, f, s, o)
            ok = z3.And(hc, hv, fits)
            if o[0] == 'ret': eng.oblige(s, ok, 'delivered-only-if-it-fits', assume=False)
            else: eng.oblige(s, z3.Not(ok), 'exception-only-if-it-does-not-fit', assume=False)
    return Goal('decode %s from arbitrary bytes: safe, monotone, exception iff it does not fit' % T, f)
def g_unknown(eng):
    f = fixture(eng, 'int'); hc, hv, num, wt, p1 = hdr(f); f['st'].assume(z3.Not(HAS(num)))
    for s, o in dprop(eng, f, [SkipCut(f['arr'])]):
        safe_post(eng, f, s, o)
        eng.oblige(s, not writes(f, s), 'unknown-field-writes-nothing', assume=False)
        if o[0] == 'ret':
            eng.oblige(s, z3.And(hc, hv), 'delivered-only-if-it-fits', assume=False)
class ListCut(CutSpec):
    """the loop of a packed list: any number of elements, position inside the buffer"""
    name = 'packed'
    def __init__(s): pass
    def wants(self, eng, fn, blk, kinds): return 'buf' in kinds
    def assume(self, ctx):
        for qq, p0 in ctx.q.values(): ctx.st.assume(z3.UGE(qq, B64(p0)))
    def invariant(self, ctx, entry=False): return [('position never moves back', z3.UGE(qq, B64(p0))) for qq, p0 in ctx.q.values()]
    def var_value(self, ctx, cell, old):
        if isinstance(old, Var) and old.tn is None: return old
        raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new): pass
    def lst_step(self, ctx, cell, tail): pass
def g_list(T):
    def f(eng):
        eng.inputs['type'] = T + 'List'
        f = fixture(eng, tnames(eng)[T + 'List']); hc, hv, num, wt, p1 = hdr(f); f['st'].assume(HAS(num))
        fits, L = payload_fits(f, 'len', 0, p1)
        for s, o in dprop(eng, f, [ListCut()]):
            safe_post(eng, f, s, o)
            if o[0] == 'ret':
                eng.oblige(s, z3.And(hc, hv, fits), 'delivered-only-if-it-fits')
                _, _, pos = it_buf(eng, s, f['it']); eng.oblige(s, B64(pos) == B64(p1) + L, 'consumes-exactly-the-block', assume=False)
    return Goal('decode packed list of %s from arbitrary bytes' % T, f, budget=200)
# ---- the self-checking iterator itself
def it_fix(eng):
    st = State(); ba, arr, n = symbytes(eng, st, 'input'); p = fbv('pos', 64); eng.inputs['pos'] = p
    st, it = iter_at(eng, st, ba, n, p)
    return st, it, arr, n, p
def g_it(op):
    def f(eng):
        st, it, arr, n, p = it_fix(eng); c = fbv('count', 32); eng.inputs['count'] = c; cs = z3.SignExt(32, c)
        tgt = it
        if op in ('plus', 'copy', 'assign'): tgt = Ptr(eng.alloc(st, 'it2', 64), 0)
        if op == 'assign': st, _ = run1(eng, st, cfn(eng, 'v_it_copy'), [tgt, it]); st, _ = run1(eng, st, cfn(eng, 'v_it_new'), [tgt, st_hold(eng, st)])
        args = {'adv': [it, c], 'back': [it, c], 'plus': [tgt, it, c], 'inc': [it], 'dec': [it], 'copy': [tgt, it], 'assign': [tgt, it]}[op]
        want, ok = {'adv': (p + cs, z3.And(c >= 0, z3.ULE(cs, n - p))), 'plus': (p + cs, z3.And(c >= 0, z3.ULE(cs, n - p))), 'back': (p - cs, z3.And(c >= 0, z3.ULE(cs, p))),
                    'inc': (p + 1, z3.ULT(p, n)), 'dec': (p - 1, z3.UGT(p, 0)), 'copy': (p, True), 'assign': (p, True)}[op]
        for s, o in eng.run(st, cfn(eng, 'v_it_' + op), args):
            eng.posts += 1
            if o[0] == 'ret':
                eng.oblige(s, ok, 'returns-only-inside')
                _, _, q = it_buf(eng, s, tgt); eng.oblige(s, B64(q) == want, 'moves-exactly', assume=False)
                s, sz = run1(eng, s, cfn(eng, 'v_it_size'), [tgt]); eng.oblige(s, z3.SignExt(32, bv(sz, 32)) == n - B64(q), 'size-left-invariant', assume=False)
            else:
                eng.oblige(s, bnot(ok), 'throws-only-outside', assume=False)
                if op != 'plus' and tgt is it:
                    _, _, q = it_buf(eng, s, it); eng.oblige(s, B64(q) == p, 'position-kept-on-exception', assume=False)
    return Goal('iterator %s: for every size, position and count' % op, f)
def st_hold(eng, st):
    ba, arr, n = symbytes(eng, st, 'other'); h = eng.alloc(st, 'hold', 8); eng.put_abs(st, Ptr(h, 0), share(st, ba), 8); return Ptr(h, 0)
def verify(run):
    ok = setup(run, only=('deserializeVarintCommon', 'decodeHeader', 'deserializeLengthDelimited'))
    run.prove([g_type(T) for T in list(SCALARS) + list(LEN)] + [g_list(T) for T in LISTS] + [Goal('unknown field from arbitrary bytes', g_unknown, budget=200)]
              + [g_it(x) for x in ('adv', 'back', 'plus', 'inc', 'dec', 'copy', 'assign')], ok)
