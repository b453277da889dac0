from obj import *
import sernat
native = sernat.native
LZ = ('vlazy', build.VERIF + '/native/vlazy.cpp', ['-fno-access-control'])
ID = {x: z3.Function('ELEM%s' % x, B(64), B(64)) for x in 'ab'}; NU = {x: z3.Function('NULL%s' % x, B(64), z3.BoolSort()) for x in 'ab'}
HASB = z3.Function('HASKEYb', B(64), z3.BoolSort())
def sp_at(eng, st, x, i):
    i = B64(i); c = simpb(NU[x](i)); return SP(Ptr(eng.alloc(st, 'element', None, 'heap', {'isnull': c, 'tag': simp(ID[x](i))}), 0), c)
def equal(i, j):
    """element i of a equals element j of b: both absent, or both present with equal content"""
    i, j = B64(i), B64(j); na, nb = NU['a'](i), NU['b'](j)
    return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), MCON(ID['a'](i)) == MCON(ID['b'](j))))
class CmpCut(CutSpec):
    """every pair passed so far was equal"""
    name = 'compare'
    def __init__(s, eq, n): s.eq = eq; s.n = n; s.orders = [lambda i: i, lambda i: simp(B64(n) - 1 - B64(i))]
    def wants(self, eng, fn, blk, kinds): return 'lst' in kinds or 'umapit' in kinds or 'int' in kinds
    def invariant(self, ctx, entry=False): return [('position inside the list', z3.ULE(B64(ctx.i), B64(self.n)))]
    def ev_step(self, ctx, evs):
        """iteration i compares the pair at i, or (in every iteration alike) the i-th pair from the end"""
        ok = [f for f in self.orders if ctx.eng.prove(ctx.st, self.eq(f(ctx.i0)))[0] == 'proved']
        if ok: self.orders = ok
        ctx.eng.oblige(ctx.st, self.eq(self.orders[0](ctx.i0)), 'loop-step', 'goes on only after an equal pair', assume=False)
    def var_value(self, ctx, cell, old): return old
    def var_step(self, ctx, cell, old, new): pass
def outcome(eng, st, fn, args, na, nb, eq):
    cut = CmpCut(eq, na); rs = list(with_cuts(eng, [cut], lambda: list(eng.run(st.fork(), cfn(eng, fn), args))))
    for s, o in rs:
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        lp = [e for e in s.trace if e[0] == 'loop']; r = zb(o[1] if not isint(o[1]) else bool(o[1])); i = lp[0][2] if lp else None
        if len(lp) > 1: raise Unsupported('several loops')
        st, sf = s.fork(), s.fork(); st.assume(r); sf.assume(z3.Not(r))
        if eng.check(st)[0] != 'unsat':
            eng.oblige(st, na == nb, 'equal-only-with-the-same-size', assume=False)
            eng.oblige(st, (i == na) if i is not None else na == 0, 'equal-only-after-every-pair-was-compared', assume=False)
        if eng.check(sf)[0] != 'unsat':
            eng.oblige(sf, z3.Or(na != nb, z3.And(z3.ULT(i, na), z3.Not(eq(cut.orders[0](i))))) if i is not None else na != nb, 'different-only-with-a-witness', assume=False)
def g_list(eng):
    install_map(eng); install_msg(eng); st = State(); na, nb = fbv('size_a', 64), fbv('size_b', 64); ps = []
    eng.inputs.update(size_a=na, size_b=nb)
    for x, n in (('a', na), ('b', nb)):
        st.assume(z3.ULT(n, 1 << 31)); p = Ptr(eng.alloc(st, x, 8), 0); ps.append(p)
        eng.store(st, p, 8, Lst((SymSeg((x, 'm'), n, None, lambda e, s, i, x=x: sp_at(e, s, x, i)),), 'QSharedPointer<VMsg>'))
    eq = lambda i: equal(i, i)
    outcome(eng, st, 'v_cmp_list', ps, na, nb, eq)
def g_map(w, T):
    def go(eng):
        install_map(eng); install_msg(eng); st = State(); na, nb = fbv('size_a', 64), fbv('size_b', 64); eng.inputs.update(size_a=na, size_b=nb)
        st.assume(z3.And(z3.ULT(na, 1 << 31), z3.ULT(nb, 1 << 31)))
        kt = lambda i: B64(tval(T, i, 'k'))
        def look(eng, st, k):
            t = simp(B64(val_tag(eng, st, Var(None, k)))); return simpb(HASB(t)), sp_at(eng, st, 'b', t)
        mb = fbv('keyb', 64)
        A = QM('a', na, lambda e, s, i: telem(e, s, 'k', T, i), lambda e, s, i: sp_at(e, s, 'a', i)); Bm = QM('b', nb, None, None, lookup=look)
        pa, pb = Ptr(eng.alloc(st, 'a', 8), 0), Ptr(eng.alloc(st, 'b', 8), 0); eng.store(st, pa, 8, A); eng.store(st, pb, 8, Bm)
        eq = lambda i: z3.And(HASB(kt(i)), equal(i, kt(i)))
        outcome(eng, st, w, [pa, pb], na, nb, eq)
    return go
P17 = [Goal('repeatedValueCompare(list of messages): every pair of lists', g_list), Goal('repeatedValueCompare(map string to message): every pair of maps', g_map('v_cmp_map', 's')),
       Goal('repeatedValueCompare(map int32 to message): every pair of maps', g_map('v_cmp_mapi', 'int'))]
def verify(run):
    run.load(LZ); run.models.append(install_meta); run.prove(P17)
