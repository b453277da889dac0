"""Loop contracts for repeated fields."""
from dec import *
from loops import Pre
def elems(T):
    kind, w, wt = SCALARS[T]; f = z3.Function('ELEM_' + T, z3.BitVecSort(64), z3.BitVecSort(w))
    return lambda i: simp(f(B64(i)))
POS = z3.Function('POS', z3.BitVecSort(64), z3.BitVecSort(64))     # POS(i): where element i of the packed block starts
class EncCut(CutSpec):
    """iteration i appends step(i) to the byte array being built"""
    name = 'encode-list'; maxlen = QBA_MAX - 64; idx = True
    def __init__(s, step): s.step = step
    def invariant(self, ctx, entry=False):
        n = ctx.eng.inputs.get('count', ctx.eng.inputs.get('entries'))
        return [('position inside the list', z3.ULE(B64(ctx.i), B64(n)))] if ctx.eng.idx_loops and n is not None else []
    def wants(self, eng, fn, blk, kinds): return 'lst' in kinds
    def ba_step(self, ctx, cell): return self.step(ctx.i0)
    def var_value(self, ctx, cell, old):
        if isinstance(old, Ptr) and old.obj is None or isinstance(old, Var): return old
        raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new): pass
class DecCut(CutSpec):
    """iteration i decodes one element at POS(i) and appends it to the list being built"""
    name = 'decode-list'
    def __init__(s, arr, T, n): s.arr = arr; s.T = T; s.n = n
    def wants(self, eng, fn, blk, kinds): return 'buf' in kinds
    def elen(self, p):
        kind, w, wt = SCALARS[self.T]
        return z3.BitVecVal(w//8, 64) if kind == 'fixed' else VLEN(self.arr, p)
    def val(self, p):
        kind, w, wt = SCALARS[self.T]
        return fixed_bytes(self.arr, p, w//8) if kind == 'fixed' else dec_val(kind, w, VVAL(self.arr, p))
    def one(self, ctx):
        if len(ctx.q) != 1: raise Unsupported('packed loop over %d buffers' % len(ctx.q))
        return list(ctx.q.values())[0]
    def assume(self, ctx):
        qq, p0 = self.one(ctx); i = ctx.i
        ctx.st.assume(POS(z3.BitVecVal(0, 64)) == B64(p0)); ctx.st.assume(z3.UGE(qq, B64(p0)))
        ctx.st.assume(POS(i + 1) == POS(i) + self.elen(POS(i)))      # definition of POS
    def invariant(self, ctx, entry=False):
        qq, p0 = self.one(ctx)
        if entry: return []
        return [('the read position is the start of element i', B64(qq) == POS(B64(ctx.i))), ('position never moves back', z3.UGE(qq, B64(p0)))]
    def var_value(self, ctx, cell, old):
        if isinstance(old, Var) and old.tn is None: return old
        raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new): pass
    def lst_step(self, ctx, cell, tail):
        s = ctx.st; eng = ctx.eng; kind, w, wt = SCALARS[self.T]
        eng.oblige(s, len(tail) == 1, 'loop-step', 'exactly one element appended per iteration', assume=False)
        if len(tail) == 1: eng.oblige(s, eqv(tail[0], self.val(POS(ctx.i0)), w), 'loop-step', 'appended element is the one encoded at its position', assume=False)
def lst_val(T, n, f=None):
    return Lst((SymSeg(('elems', T), n, f or elems(T)),), None)
def list_input(eng, st, T, tn, name='count'):
    n = fbv(name, 64); st.assume(z3.ULT(n, (1 << 31) - 1)); eng.inputs[name] = n
    l = lst_val(T, n); l.tn = Q.targs(tn)[0]
    return l, n
def enc_list(eng, st, d, idx, mp, var, cuts):
    r = eng.alloc(st, 'ret', 8)
    g = lambda: [(s, o, r) for s, o in eng.run(st.fork(), one(eng, NS + r'serializeProperty\('), [Ptr(r, 0), d, Ptr(var, 0), mp])]
    return with_cuts(eng, cuts, g)
def find_pre(got): return [p for p in got.ps if isinstance(p, Pre)]
EARR = z3.Function('EARR', z3.BitVecSort(64), ArrS); ELEN = z3.Function('ELEN', z3.BitVecSort(64), z3.BitVecSort(64))
def blob(i): return Rope([Sl(simp(EARR(B64(i))), 0, simp(ELEN(B64(i))))])
def blob_list(eng, st, T, n, name='blobs'):
    """list of n strings / byte arrays with arbitrary contents"""
    def at(eng, st, i):
        st.assume(z3.ULE(ELEN(B64(i)), QBA_MAX - 64))
        return Str(blob(i)) if T == 'string' else mkba(eng, st, blob(i))
    return Lst((SymSeg((name, T), n, None, at),), {'string': 'QString', 'bytes': 'QByteArray'}[T])
