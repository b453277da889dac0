"""Decoder fixtures shared by several properties: deserializeProperty on an arbitrary buffer at an arbitrary position."""
from ser import *
from loops import CutSpec, with_cuts
SKIP = z3.Function('SKIPEND', ArrS, z3.BitVecSort(64), z3.BitVecSort(64))   # position after the varint starting here
def skip_axioms(arr, x):
    x = B64(x)
    return z3.And(SKIP(arr, x) == z3.If(z3.Extract(7, 7, z3.Select(arr, x)) == 1, SKIP(arr, x + 1), x + 1),
                  z3.Implies(z3.ULT(x, 1 << 40), z3.UGT(SKIP(arr, x), x)), z3.Implies(z3.ULT(x, 1 << 40), z3.UGT(SKIP(arr, x + 1), x + 1)))
class SkipCut(CutSpec):
    """a loop that only moves one read position: every byte passed has its continuation bit set"""
    name = 'skip'
    def __init__(s, arr, exact=True): s.arr = arr; s.exact = exact
    def wants(self, eng, fn, blk, kinds): return kinds == {'buf', 'int'} or kinds == {'buf'}
    def assume(self, ctx):
        (qq, p0), = list(ctx.q.values()) or [(None, None)]
        ctx.st.assume(z3.UGE(qq, B64(p0)))
        if self.exact:
            ctx.st.assume(skip_axioms(self.arr, qq)); ctx.st.assume(skip_axioms(self.arr, p0))
    def invariant(self, ctx, entry=False):
        (qq, p0), = list(ctx.q.values())
        r = [('position never moves back', z3.UGE(qq, B64(p0)))]
        if self.exact: r.append(('the varint skipped is the one that started here', SKIP(self.arr, B64(qq)) == SKIP(self.arr, B64(p0))))
        return r
def fixture(eng, tn=None, old=None, known=None, tid=None, value=None):
    """-> dict(st, d, ba, arr, n, p, it, mo, obj)"""
    st, d, q = base(eng)
    ba, arr, n = symbytes(eng, st, 'input')
    p = fbv('pos', 64); eng.inputs['pos'] = p
    st, it = iter_at(eng, st, ba, n, p)
    if tn is not None:
        t = Q.tid_of(tn); tid = lambda i: t
        value = value or (lambda eng, st, i: old if old is not None else Var(tn, Q.zero_val(eng, st, tn)))
    st, mo, obj, _ = message(eng, st, tid=tid, value=value)
    return dict(st=st, d=d, q=q, ba=ba, arr=arr, n=n, p=p, it=it, mo=mo, obj=obj)
def dprop(eng, f, cuts=()):
    fn = one(eng, NS + r'deserializeProperty\(')
    g = lambda: list(eng.run(f['st'].fork(), fn, [f['d'], f['obj'], f['mo'], f['it']]))
    return with_cuts(eng, list(cuts), g) if cuts else g()
def writes(f, s): return [e for e in s.trace[len(f['st'].trace):] if e[0] == 'write']
def hdr(f):
    """-> (complete, valid, number, wire type, position after the header)"""
    arr, n, p = f['arr'], f['n'], f['p']
    L = VLEN(arr, p); h = z3.Extract(31, 0, VVAL(arr, p))
    return complete(arr, n, p, L), hdr_ok(h), z3.LShR(h, 3), h & 7, simp(p + L)
def payload_fits(f, kind, w, p1):
    """-> (condition, length) of a complete payload at p1"""
    arr, n = f['arr'], f['n']
    if kind == 'fixed': return z3.And(z3.ULE(B64(p1), n), z3.ULE(w//8, n - B64(p1))), z3.BitVecVal(w//8, 64)
    L = VLEN(arr, B64(p1))
    if kind == 'len':
        ln = z3.ZeroExt(32, z3.Extract(31, 0, VVAL(arr, B64(p1))))
        return z3.And(complete(arr, n, p1, L), z3.ULE(ln, n - B64(p1) - L), z3.ULE(B64(p1) + L + ln, n)), L + ln      # last conjunct is redundant, it helps the solver
    return complete(arr, n, p1, L), L
