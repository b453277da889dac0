"""Status objects: every code and message, every reachable operand state (fresh, copied, assigned, moved from)."""
from obj import *
import natprog
VS = ('vstatus', build.VERIF + '/native/vstatus.cpp', ['-fno-access-control', '-DQT_BUILD_GRPC_LIB'])
def native(run):
    natprog.run_prog(run, 'nat_status', [build.VERIF + '/native/nat_status.cpp'], ['-DQT_BUILD_GRPC_LIB'], args=[run.seed, 3000 if run.tier == 'quick' else 60000], what='random sequences of operations on three status objects')
class SV:
    def __init__(s, p, code, msg): s.p = p; s.code = code; s.msg = msg
def symstr(eng, st, name):
    n = fbv(name + '_len', 64); st.assume(z3.ULT(n, 1 << 30)); r = Rope([Sl(farr(name), 0, n)]); eng.inputs[name] = r; return r
def make(eng, st, kind, nm):
    p = Ptr(eng.alloc(st, nm, 8), 0)
    if kind == 'default': st, _ = run1(eng, st, cfn(eng, 'v_st_default'), [p]); return st, SV(p, 0, Rope())
    c = fbv(nm + '_code', 32); eng.inputs[nm + '_code'] = c
    if kind == 'codeonly': st, _ = run1(eng, st, cfn(eng, 'v_st_code1'), [p, c]); return st, SV(p, c, Rope())
    m = symstr(eng, st, nm + '_msg'); q = Ptr(eng.alloc(st, nm + '_qs', 8), 0); eng.put_abs(st, q, Str(m), 8)
    st, _ = run1(eng, st, cfn(eng, 'v_st_make'), [p, c, q])
    if kind == 'movedfrom':
        t = Ptr(eng.alloc(st, nm + '_to', 8), 0); st, _ = run1(eng, st, cfn(eng, 'v_st_move'), [t, p]); return st, SV(p, None, None)
    if kind == 'copied':
        t = Ptr(eng.alloc(st, nm + '_copy', 8), 0); st, _ = run1(eng, st, cfn(eng, 'v_st_copy'), [t, p]); return st, SV(t, c, m)
    return st, SV(p, c, m)
LIVE = ('made', 'default', 'codeonly', 'copied')
def reports(eng, st, v, what):
    """v reports exactly its code and message"""
    for s, o in eng.run(st.fork(), cfn(eng, 'v_st_code'), [v.p]):
        if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
        eng.posts += 1; eng.oblige(s, eqv(o[1], v.code, 32), what, 'code', assume=False)
    r = Ptr(eng.alloc(st, 'ret', 8), 0)
    for s, o in eng.run(st.fork(), cfn(eng, 'v_st_msg'), [r, v.p]):
        if o[0] != 'ret': eng.fail(s, 'no-exception'); continue
        g = s.mem[r.obj].get(0); g = g[1] if g else None
        eng.posts += 1; eng.oblige(s, isinstance(g, Str) and rope_must_eq(eng, s, g.rope, v.msg), what, 'message', assume=False)
def call(eng, st, f, *a):
    for s, o in eng.run(st.fork(), cfn(eng, f), list(a)):
        if o[0] != 'ret': eng.fail(s, 'no-exception', f); continue
        yield s, o[1]
def g_make(eng):
    for k in LIVE:
        st, v = make(eng, State(), k, 'a'); reports(eng, st, v, 'reports-what-it-was-made-with')
        t = Ptr(eng.alloc(st, 't', 8), 0)
        for s, _ in call(eng, st, 'v_st_copy', t, v.p):
            reports(eng, s, SV(t, v.code, v.msg), 'copy-preserves'); reports(eng, s, v, 'copying-leaves-the-source')
            for s2, _ in call(eng, s, 'v_st_del', v.p): reports(eng, s2, SV(t, v.code, v.msg), 'copy-outlives-the-source')
        for s, _ in call(eng, st, 'v_st_move', t, v.p): reports(eng, s, SV(t, v.code, v.msg), 'move-preserves')
def g_assign(eng):
    for ka in LIVE + ('movedfrom',):
        for kb in LIVE:
            st, a = make(eng, State(), ka, 'a'); st, b = make(eng, st, kb, 'b')
            for s, r in call(eng, st, 'v_st_assign', a.p, b.p):
                eng.oblige(s, same_ptr(r, a.p), 'returns-the-target', assume=False); reports(eng, s, SV(a.p, b.code, b.msg), 'assignment-preserves'); reports(eng, s, b, 'assignment-leaves-the-source')
                for s2, _ in call(eng, s, 'v_st_del', b.p): reports(eng, s2, SV(a.p, b.code, b.msg), 'assigned-outlives-the-source')
            for s, r in call(eng, st, 'v_st_massign', a.p, b.p):
                eng.oblige(s, same_ptr(r, a.p), 'returns-the-target', assume=False); reports(eng, s, SV(a.p, b.code, b.msg), 'move-assignment-preserves')
        if ka != 'movedfrom':
            for f in ('v_st_assign', 'v_st_massign'):
                for s, r in call(eng, st, f, a.p, a.p): reports(eng, s, a, 'self-assignment-changes-nothing')
def g_compare(eng):
    for ka in LIVE:
        for kb in LIVE:
            st, a = make(eng, State(), ka, 'a'); st, b = make(eng, st, kb, 'b'); same = zb(eqv(a.code, b.code, 32))
            for s, r in call(eng, st, 'v_st_eq', a.p, b.p): eng.posts += 1; eng.oblige(s, zb(r if not isint(r) else bool(r)) == same, 'equal-iff-same-code', assume=False)
            for f, neg in (('v_st_eqc', 0), ('v_st_nec', 1), ('v_st_ceq', 0), ('v_st_cne', 1)):
                c = fbv('code', 32); eng.inputs['code'] = c; same1 = zb(eqv(a.code, c, 32))
                for s, r in call(eng, st, f, a.p, c): eng.posts += 1; eng.oblige(s, zb(r if not isint(r) else bool(r)) == (z3.Not(same1) if neg else same1), 'compares-the-code', f, assume=False)
def verify(run):
    run.load(VS); run.prove([Goal('construction, copy and move', g_make), Goal('assignment from every state to every state', g_assign), Goal('comparison', g_compare)])
