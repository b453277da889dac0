"""Lazy message pointer: ghost table of signal connections and of deleted objects, arbitrary reachable operand states."""
from obj import *
import p17, natprog
def native(run):
    n = 4000 if run.tier == 'quick' else 60000
    for q in ('', 'n'):
        natprog.run_prog(run, 'nat_lazy' + q, [build.VERIF + '/native/nat_lazy.cpp'], ['-DV_NOQML'] if q else [], ('Qt5Qml', 'Qt5Core') if not q else ('Qt5Core',), [run.seed * 100000, n], what='random sequences of 14 operations on three lazy pointers (%s Qt QML)' % ('without' if q else 'with'))
LQ = p17.LZ; LN = ('vlazyn', build.VERIF + '/native/vlazy.cpp', ['-fno-access-control', '-DV_NOQML'])
JS = z3.Function('OWNED_BY_JS', B(64), z3.BoolSort())
def un(p): return p.p if isinstance(p, PInt) else p
def conns(st):
    d = {}
    for e in st.trace:
        if e[0] == 'connect': d[e[1]] = (e[2], e[3])
        elif e[0] == 'disconnect': d.pop(e[1], None)
    return d
def deleted(st, p): return sum(1 for e in st.trace if e[0] == 'delete' and e[1].obj is p.obj)
def install_lazy(eng, qml):
    install_map(eng); install_msg(eng); model = eng.model; cnt = [0]
    @model(r'^QQmlEngine::objectOwnership\(QObject\*\)$')
    def _(eng, st, a, c):
        p = un(a[0])
        if p.obj is None: return 0
        eng.oblige(st, not deleted(st, p), 'object-still-alive', 'ownership of a deleted object')
        i = p.obj.info
        if isinstance(i, dict) and 'tag' in i: return simp(z3.If(JS(B64(i['tag'])), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return 0
    def destroy(eng, st, p):
        """the object goes away: every live connection to its destroyed() signal fires"""
        outs = [st]
        for k, (snd, (fn, cap)) in conns(st).items():
            if un(snd).obj is not p.obj: continue
            nxt = []
            for s in outs:
                if k not in conns(s): nxt.append(s); continue
                fn.parse(); box = Ptr(eng.alloc(s, "lambda", 8), 0); eng.store(s, box, 8, cap)
                for s2, o in eng.run(s, fn, [box] + [p]*(len(fn.params) - 1)):
                    if o[0] != 'ret': eng.fail(s2, 'no-exception-from-destroyed-handler'); continue
                    nxt.append(s2)
            outs = nxt
        return outs
    eng.destroy_obj = destroy
    @model(r'^std::default_delete<VMsg>::operator\(\)\(VMsg\*\) const$')
    def _(eng, st, a, c):
        p = un(a[1])
        if p.obj is None: return None
        eng.oblige(st, not deleted(st, p), 'deleted-at-most-once'); st.ev('delete', p)
        return [(s, ('ret', None)) for s in destroy(eng, st, p)]
    @model(r'^.*QMetaObject::Connection>::type QObject::connect<.*>\(.*, (.*\{lambda\([^()]*\)#\d+\})(, Qt::ConnectionType)?\)$')
    def _(eng, st, a, c):
        lam = None; want = c.m.group(1).split(', QObject const*, ')[-1]
        want = want[want.rindex('QProtobufLazyMessagePointer<'):] if 'QProtobufLazyMessagePointer<' in want else want
        for md in eng.mods:
            for n in md.fns:
                if md.dem(n).startswith(want + '::operator()('): lam = md.fns[n]
        if lam is None: raise Unsupported('connected functor ' + want)
        snd = un(a[1])
        if snd.obj is None: eng.store(st, a[0], 8, NULL); return None
        cnt[0] += 1; st.ev('connect', cnt[0], snd, (lam, a[-2] if c.m.group(2) else a[-1])); h = eng.alloc(st, 'conn%d' % cnt[0], 8); h.info = ('conn', cnt[0]); eng.store(st, a[0], 8, Ptr(h, 0)); return None
    @model(r'^QObject::disconnect\(QMetaObject::Connection const&\)$')
    def _(eng, st, a, c):
        v = eng.load(st, a[0], 8, ('ptr',)); v = un(v)
        if isinstance(v, Ptr) and v.obj is not None and isinstance(v.obj.info, tuple) and v.obj.info[0] == 'conn': k = v.obj.info[1]; live = k in conns(st); st.ev('disconnect', k); return live
        if isinstance(v, Ptr) and v.obj is None or isint(v) and v == 0: return False
        raise Unsupported('connection %r' % (v,))
    @model(r'^QMetaObject::Connection::Connection\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, NULL)
    @model(r'^QMetaObject::Connection::~Connection\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QMetaObject::Connection::Connection\(QMetaObject::Connection const&\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, eng.load(st, a[1], 8, ('ptr',)))
    @model(r'^QMetaObject::Connection::operator=\(QMetaObject::Connection const&\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, eng.load(st, a[1], 8, ('ptr',))); return a[0]
class W:
    """one lazily created sub-message in one of its reachable states"""
    def __init__(s, name, L, obj): s.name = name; s.L = L; s.obj = obj
KINDS = ('new', 'untracked', 'tracked', 'lost', 'movedfrom')
def make(eng, st, kind, name):
    """-> (state, W) ; 'untracked' also stands for lazily created and then used"""
    L = Ptr(eng.alloc(st, name, 64), 0); obj = None
    if kind == 'untracked':
        obj, _ = tagged(eng, st, name + '_obj'); st, _ = run1(eng, st, cfn(eng, 'v_lz_new'), [L, obj]); return st, W(kind, L, obj)
    st, _ = run1(eng, st, cfn(eng, 'v_lz_none'), [L])
    if kind == 'new': return st, W(kind, L, None)
    obj, _ = tagged(eng, st, name + '_obj'); st, _ = run1(eng, st, cfn(eng, 'v_lz_reset'), [L, obj])
    if kind == 'tracked': return st, W(kind, L, obj)
    if kind == 'lost':
        ss = eng.destroy_obj(eng, st, obj)
        if len(ss) != 1: raise Unsupported('destroyed handler')
        return ss[0], W(kind, L, None)
    t = Ptr(eng.alloc(st, name + '_to', 64), 0); rs = [(s, o) for s, o in eng.run(st, cfn(eng, 'v_lz_move'), [t, L]) if o[0] == 'ret']
    if not rs: raise Unsupported('move')
    return rs[0][0], W(kind, L, None)
def call(eng, st, f, *a):
    for s, o in eng.run(st.fork(), cfn(eng, f), list(a)):
        if o[0] != 'ret': eng.fail(s, 'no-exception', '%s %s' % (f, o[1])); continue
        yield s, o[1]
def truth(eng, s, v): return v if isinstance(v, bool) else bool(v) if isint(v) else None
def holds(eng, s, L, obj, what):
    """L holds exactly obj (None: nothing), seen through its own operators"""
    for s2, v in call(eng, s, 'v_lz_bool', L):
        eng.oblige(s2, zb(v) == z3.BoolVal(obj is not None) if not isinstance(v, (bool, int)) else bool(v) == (obj is not None), what, 'presence', assume=False)
        if obj is not None:
            for s3, p in call(eng, s2, 'v_lz_get', L): eng.oblige(s3, isinstance(un(p), Ptr) and un(p).obj is obj.obj, what, 'object', assume=False)
def watched(eng, s, L, obj, what, exact=True):
    """live connections that act on L: one, from obj (tracked), or none"""
    mine = [(snd, cap) for snd, (fn, cap) in conns(s).values() if isinstance(un(cap), Ptr) and un(cap).obj is L.obj]
    if obj is None: eng.oblige(s, not mine, what, 'no connection left', assume=False)
    else: eng.oblige(s, len(mine) == 1 and un(mine[0][0]).obj is obj.obj, what, 'follows the object: %d connections' % len(mine), assume=False)
def freed(eng, s, obj, qml, what, base=0):
    """deleted exactly when nobody else owns it"""
    if obj is None: return
    js = JS(B64(obj.obj.info['tag'])) if qml else z3.BoolVal(False); n = deleted(s, obj)
    if not qml and n == 0: eng.notes.append(('finding', 'no-qml-leak', what)); return
    eng.oblige(s, z3.If(js, z3.BoolVal(n == 0), z3.BoolVal(n == 1)), what, '%d deletions' % n, assume=False)
def cont(eng, s, w): return eng.content(eng, s, w.obj) if w.obj is not None else z3.BitVecVal(0, 64)
def begin(eng, qml):
    eng.mods[:] = [eng.run_ctx.mods['vlazy' if qml else 'vlazyn']]; install_lazy(eng, qml); return State()
def each(eng, qml, kinds=KINDS):
    for k in kinds:
        st = begin(eng, qml) if k == kinds[0] else State()
        st, w = make(eng, st, k, 'a'); yield st, w
ACC = ('v_lz_get', 'v_lz_deref', 'v_lz_arrow')
def g_access(qml):
    def go(eng):
        for st, w in each(eng, qml):
            n0 = len(st.trace)
            for f in ACC:
                for s, p in call(eng, st, f, w.L):
                    eng.posts += 1; p = un(p); new = [e for e in s.trace[n0:] if e[0] == 'ctor']; oth = [e for e in s.trace[n0:] if e[0] in ('delete', 'dtor')]
                    eng.oblige(s, not oth, 'access-destroys-nothing', assume=False)
                    if w.obj is not None: eng.oblige(s, isinstance(p, Ptr) and p.obj is w.obj.obj and not new, 'access-yields-the-held-object', w.name + f, assume=False)
                    else:
                        ok = isinstance(p, Ptr) and p.obj is not None and len(new) == 1 and un(new[0][1]).obj is p.obj
                        eng.oblige(s, ok, 'first-access-creates-exactly-one', w.name + f, assume=False)
                        if not ok: continue
                        eng.oblige(s, eqv(eng.content(eng, s, p), 0), 'created-at-its-defaults', assume=False)
                    holds(eng, s, w.L, p, 'stays-present'); n1 = len(s.trace)
                    for g in ACC:
                        for s2, p2 in call(eng, s, g, w.L): eng.oblige(s2, isinstance(un(p2), Ptr) and un(p2).obj is p.obj and len(s2.trace) == n1, 'every-access-yields-the-same-object', f + g, assume=False)
            for s, v in call(eng, st, 'v_lz_bool', w.L): eng.oblige(s, zb(v if not isint(v) else bool(v)) == z3.BoolVal(w.obj is not None), 'bool-tells-presence', w.name, assume=False)
    return go
def g_compare(qml):
    def go(eng):
        for st, a in each(eng, qml):
            for k in KINDS:
                st2, b = make(eng, st.fork(), k, 'b'); n0 = len(st2.trace)
                for f in ('v_lz_eq', 'v_lz_ne'):
                    for x, y in ((a, b), (b, a), (a, a)):
                        want = simpb(cont(eng, st2, x) == cont(eng, st2, y))
                        for s, v in call(eng, st2, f, x.L, y.L):
                            eng.posts += 1; v = zb(v if not isint(v) else bool(v)); w = zb(want)
                            eng.oblige(s, v == (z3.Not(w) if f == 'v_lz_ne' else w), 'equal-iff-same-content', '%s %s %s' % (f, x.name, y.name), assume=False)
                            ev = s.trace[n0:]; eng.oblige(s, not [e for e in ev if e[0] in ('delete', 'connect', 'disconnect')], 'operands-untouched', assume=False)
                            eng.oblige(s, sum(e[0] == 'ctor' for e in ev) == sum(e[0] == 'dtor' for e in ev), 'no-object-leaks', assume=False)
                            for z in (x, y): holds(eng, s, z.L, z.obj, 'operands-untouched')
    return go
def g_reset(qml):
    def go(eng):
        for st, a in each(eng, qml):
            p, _ = tagged(eng, st, 'newobj')
            for s, _ in call(eng, st, 'v_lz_reset', a.L, p):
                eng.posts += 1; holds(eng, s, a.L, p, 'holds-the-new-object'); watched(eng, s, a.L, p, 'forgets-it-when-it-is-destroyed'); freed(eng, s, a.obj, qml, 'old-object-freed-once-unless-owned-elsewhere')
                eng.oblige(s, not deleted(s, p), 'new-object-stays-alive', assume=False)
    return go
def after_move(eng, s, qml, to, frm, n):
    holds(eng, s, to.L, frm.obj, 'target-holds-the-moved-object'); holds(eng, s, frm.L, None, 'source-is-left-empty')
    watched(eng, s, to.L, frm.obj, 'target-forgets-it-when-it-is-destroyed'); watched(eng, s, frm.L, None, 'source-no-longer-reacts'); freed(eng, s, to.obj, qml, 'old-object-freed-once-unless-owned-elsewhere')
    if frm.obj is not None: eng.oblige(s, not deleted(s, frm.obj), 'moved-object-stays-alive', assume=False)
def g_move(qml):
    def go(eng):
        for st, a in each(eng, qml):
            t = W('fresh', Ptr(eng.alloc(st, 'to', 64), 0), None)
            for s, _ in call(eng, st, 'v_lz_move', t.L, a.L): eng.posts += 1; after_move(eng, s, qml, t, a, len(st.trace))
            for k in KINDS:
                st2, b = make(eng, st.fork(), k, 'b')
                for s, r in call(eng, st2, 'v_lz_assign', a.L, b.L):
                    eng.posts += 1; eng.oblige(s, isinstance(un(r), Ptr) and un(r).obj is a.L.obj, 'assignment-returns-the-target', assume=False); after_move(eng, s, qml, a, b, len(st2.trace))
            c0 = conns(st)
            for s, r in call(eng, st, 'v_lz_assign', a.L, a.L):
                eng.posts += 1; holds(eng, s, a.L, a.obj, 'self-assignment-changes-nothing'); eng.oblige(s, conns(s).keys() == c0.keys() and not (a.obj is not None and deleted(s, a.obj)), 'self-assignment-changes-nothing', assume=False)
    return go
def g_end(qml):
    def go(eng):
        for st, a in each(eng, qml):
            for s, _ in call(eng, st, 'v_lz_del', a.L):
                eng.posts += 1; freed(eng, s, a.obj, qml, 'object-freed-once-unless-owned-elsewhere'); watched(eng, s, a.L, None, 'nothing-reacts-after-the-end')
            if a.name == 'tracked':
                for s in eng.destroy_obj(eng, st.fork(), a.obj):
                    eng.posts += 1; holds(eng, s, a.L, None, 'forgets-an-object-destroyed-elsewhere'); eng.oblige(s, not deleted(s, a.obj), 'does-not-free-it-again', assume=False)
            if a.obj is None:        # created on demand: freed with its owner
                for s, p in call(eng, st, 'v_lz_get', a.L):
                    for s2, _ in call(eng, s, 'v_lz_del', a.L): 
                        eng.posts += 1
                        if not qml and deleted(s2, un(p)) == 0: eng.notes.append(('finding', 'no-qml-leak', 'created-object-freed-once'))
                        else: eng.oblige(s2, deleted(s2, un(p)) == 1, 'created-object-freed-once', assume=False)
    return go
def verify(run):
    run.load(LQ, LN); run.models.append(install_meta)
    gs = []
    for qml in (True, False):
        t = ' (with Qt QML)' if qml else ' (without Qt QML)'
        gs += [Goal('access: created at most once, one object' + t, g_access(qml)), Goal('comparison by content' + t, g_compare(qml)), Goal('replacing the held object' + t, g_reset(qml)), Goal('moving' + t, g_move(qml)), Goal('destruction' + t, g_end(qml))]
    run.prove(gs)
