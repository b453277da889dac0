"""P16: handler registry: lock discipline, last registration wins."""
from ser import *
import sernat
from locks import install_locks, exclude, held
native = sernat.native
R_HAS = z3.Function('REGISTERED', z3.BitVecSort(32), z3.BoolSort())
REG = r'^QtProtobufPrivate::registerHandler\(int'; FIND = r'^QtProtobufPrivate::findHandler\(int\)'
HSIZE = 72
def opaque_fn(eng, st, p, tag):
    """an arbitrary non-empty std::function (libstdc++ layout: 16-byte functor, manager, invoker); its manager copies the functor"""
    def manager(eng, st, a, c):
        if isint(a[2]) and a[2] == 2: [eng.store(st, Ptr(a[0].obj, a[0].off + k), 8, eng.load(st, Ptr(a[1].obj, a[1].off + k), 8)) for k in (0, 8)]
        return False
    def invoker(eng, st, a, c): raise Unsupported('handler called')
    eng.store(st, p, 8, Term('callable', *tag)); eng.store(st, Ptr(p.obj, p.off + 8), 8, Term('callable2', *tag))
    eng.store(st, Ptr(p.obj, p.off + 16), 8, Ptr(Obj('manager', 1, 'absfn', manager), 0)); eng.store(st, Ptr(p.obj, p.off + 24), 8, Ptr(Obj('invoker', 1, 'absfn', invoker), 0))
def opaque_handler(eng, st, p, tag):
    opaque_fn(eng, st, p, ('serializer',) + tag); opaque_fn(eng, st, Ptr(p.obj, p.off + 32), ('deserializer',) + tag)
    eng.store(st, Ptr(p.obj, p.off + 64), 4, fbv('htype', 32))
def snapshot(st, p):
    """the two callables and the type stored at p: ((callable, manager, invoker) or None) * 2"""
    c = st.mem[p.obj]; out = []
    def at(o, n):
        x = c.get(p.off + o); return x[1] if x else 0
    for o in (0, 32):
        mg = at(o + 16, 8); mg = mg.p if isinstance(mg, PInt) else mg
        if (isint(mg) and mg == 0) or (isinstance(mg, Ptr) and mg.obj is None): out.append(None)
        else:
            iv = at(o + 24, 8); iv = iv.p if isinstance(iv, PInt) else iv
            out.append(((at(o, 8), at(o + 8, 8)), mg.obj, iv.obj))
    return out + [at(64, 4)]
def same(a, b):
    if a is None or b is None: return a is b
    return a[0][0] is b[0][0] and a[0][1] is b[0][1] and a[1] is b[1] and a[2] is b[2]
def require(eng, s, got, want, name):
    eng.oblige(s, same(got[0], want[0]), name, 'serializer', assume=False); eng.oblige(s, same(got[1], want[1]), name, 'deserializer', assume=False)
def prepare(eng, st=None, handler=None):
    """state with the registry created and holding arbitrary registrations"""
    install_locks(eng)
    st = st or State()
    o = eng.alloc(st, 'probe', HSIZE)
    st, _ = run1(eng, st, one(eng, FIND), [Ptr(o, 0), 1], 'first use')
    maps = [(ob, k) for ob, c in st.mem.items() for k, x in c.items() if isint(k) and isinstance(x, tuple) and isinstance(x[1], UMap) and 'HandlersRegistry' in ob.name]
    if len(maps) != 1: raise Unsupported('%d handler tables' % len(maps))
    prior = {}
    def mk(eng, st, k):
        oa, eng.on_access = eng.on_access, None
        nd = eng.alloc(st, 'node', None, 'heap', 'entry'); eng.store(st, Ptr(nd, 0), 4, k); (handler or opaque_handler)(eng, st, Ptr(nd, 8), ('prior', k)); prior[nd] = snapshot(st, Ptr(nd, 8)); eng.on_access = oa; return Ptr(nd, 0)
    am = AMap('registrations', lambda k: R_HAS(bv(k, 32)), mk)
    st.wcells(maps[0][0])[maps[0][1]] = (56, UMap({}, am))
    st.trace = ()
    return st, prior
EMPTY = [None, None]
def g_find(eng):
    st, prior = prepare(eng); t = fbv('type', 32); eng.inputs['type'] = t; r = eng.alloc(st, 'ret', HSIZE)
    for s, o in eng.run(st, one(eng, FIND), [Ptr(r, 0), t]):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        lookup_ok(eng, s, snapshot(s, Ptr(r, 0)), t, prior)
def lookup_ok(eng, s, got, t, prior):
    """the handler of an arbitrary earlier registration, or an empty one"""
    if got[0] is None and got[1] is None: eng.oblige(s, z3.Not(R_HAS(t)), 'empty-only-when-not-registered', assume=False)
    else:
        eng.oblige(s, R_HAS(t), 'found-only-when-registered')
        w = [x for x in prior.values() if same(got[0], x[0])]
        if not w: eng.fail(s, 'returns-the-registered-handler', repr(got)); return
        require(eng, s, got, w[0], 'returns-the-registered-handler'); eng.oblige(s, eqv(got[2], w[0][2], 32), 'returns-the-registered-handler', 'type', assume=False)
def g_last(eng):
    st, prior = prepare(eng); t = fbv('registered', 32); u = fbv('looked_up', 32); eng.inputs.update(registered=t, looked_up=u)
    h = eng.alloc(st, 'handler', HSIZE); opaque_handler(eng, st, Ptr(h, 0), ('new',)); H = snapshot(st, Ptr(h, 0))
    r = eng.alloc(st, 'ret', HSIZE)
    for s, o in eng.run(st, one(eng, REG), [t, Ptr(h, 0)]):
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        for s2, o2 in eng.run(s, one(eng, FIND), [Ptr(r, 0), u]):
            eng.posts += 1
            if o2[0] != 'ret': eng.fail(s2, 'no-exception', str(o2[1])); continue
            got = snapshot(s2, Ptr(r, 0))
            if same(got[0], H[0]) and got[0] is not None:
                eng.oblige(s2, t == u, 'new-handler-only-for-its-type'); require(eng, s2, got, H, 'last-registration-wins')
                eng.oblige(s2, eqv(got[2], H[2], 32), 'last-registration-wins', 'type', assume=False)
            else:
                eng.oblige(s2, t != u, 'last-registration-wins'); lookup_ok(eng, s2, got, u, prior)
def g_locks(eng):
    """collect every access to shared memory with the rights held there, over all paths of both operations"""
    st, prior = prepare(eng); acc = []; caps = dict(st.ghost.get('caps', {}))
    shared = set(o for o in st.mem if o.kind == 'glob' and not o.name.startswith('_ZGV')) 
    def rec(s, o, off, kind):
        if o in shared: acc.append(((o.name, off if isint(off) else None), kind, held(s), eng.cur_op))
        elif o.kind == 'heap' and (o.info == 'entry' or o.name == 'node'): acc.append((('entry', None), kind, held(s), eng.cur_op))
    eng.on_access = rec
    t = fbv('type', 32); h = eng.alloc(st, 'handler', HSIZE); opaque_handler(eng, st, Ptr(h, 0), ('new',)); r = eng.alloc(st, 'ret', HSIZE)
    for op, rx, args in (('registerHandler', REG, [t, Ptr(h, 0)]), ('findHandler', FIND, [Ptr(r, 0), t])):
        eng.cur_op = op
        for s, o in eng.run(st.fork(), one(eng, rx), args):
            eng.posts += 1
            eng.oblige(s, not held(s), 'every-right-given-back', '%s ends with %d right(s) held' % (op, len(held(s))), assume=False)
    eng.on_access = None
    seen = set()
    for i, a in enumerate(acc):
        for b in acc[i:]:
            if a[0] != b[0] or 'w' not in (a[1], b[1]): continue
            k = (a[0], frozenset([(a[1:]), (b[1:])]))
            if k in seen: continue
            seen.add(k)
            eng.oblige(st, exclude(a[2], b[2], caps), 'conflicting-accesses-exclude-each-other', '%s: %s in %s and %s in %s' % (a[0][0], a[1], a[3], b[1], b[3]), assume=False)
    eng.oblige(st, any(a[1] == 'w' for a in acc), 'the-table-is-observed', 'some access was seen', assume=False)
    # lock order: no two locks are acquired in both orders
    order = eng.lock_order
    reach = set(order)
    while True:
        more = set((a, d) for a, b in reach for c, d in reach if b == c) - reach
        if not more: break
        reach |= more
    eng.oblige(st, not any(a == b for a, b in reach), 'acquisition-order-acyclic', assume=False)
def verify(run):
    run.load(ASRV)
    run.prove([Goal('findHandler: the registered handler, or an empty one', g_find), Goal('registerHandler then findHandler: last registration wins', g_last),
               Goal('every access to the handler table holds excluding rights; all rights are given back', g_locks)])
