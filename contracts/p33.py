"""The serializer registry: every content, identifier and plugin name."""
from obj import *
import natprog, net, sym
VR = ('vreg', build.VERIF + '/native/vreg.cpp', ['-fno-access-control', '-DQT_PROTOBUF_PLUGIN_PATH="/nowhere"'])
un = net.un
def native(run):
    R = build.REPO + '/src/protobuf/'
    natprog.run_prog(run, 'nat_reg', [build.VERIF + '/native/nat_reg.cpp', build.VERIF + '/native/vjsonstub.cpp', R + 'qprotobufserializer.cpp', R + 'qabstractprotobufserializer.cpp', R + 'qprotobufmetaobject.cpp', R + 'qprotobufmetaproperty.cpp', R + 'qtprotobuflogging.cpp'], ['-fno-access-control', '-DQT_PROTOBUF_PLUGIN_PATH="/nowhere"', '-DQT_BUILD_PROTOBUF_LIB'], args=[run.seed, 4000 if run.tier == 'quick' else 60000], what='random registry contents, lookups and queries')
K = z3.BitVecSort(64); BOOL = z3.BoolSort()
PH = z3.Function('PLUGIN', K, BOOL); SH = z3.Function('SERIALIZER', K, K, BOOL); ME = z3.Function('NO_METADATA', K, BOOL)
VF = z3.Function('METADATA_float', K, K, z3.BitVecSort(32)); VI = z3.Function('METADATA_int', K, K, z3.BitVecSort(32))
def key(eng, lit): return eng.strkey(Rope([Lit(list(lit))]))
def install(eng):
    net.install_net(eng); model = eng.model; base = len(eng.models); A = eng.assumptions.add
    G = lambda st, p: eng.get_abs(st, p, Str, 'string').rope
    def latin(eng, st, n, p):
        p = un(p)
        if not isint(n): raise Unsupported('QLatin1String')
        return Rope([Lit([eng.load(st, Ptr(p.obj, add64(p.off, i)), 1) for i in range(n)])])
    @model(r'^QString::QString\(QLatin1String\)$')
    def _(eng, st, a, c):
        n = a[1] if isint(a[1]) else eng.conc(st, a[1]); eng.put_abs(st, a[0], Str(latin(eng, st, n & 0xffffffff, a[2])), 8)
    @model(r'^QLatin1String::QLatin1String\(char const\*\)$')
    def _(eng, st, a, c): t = Q.cstr(eng, st, a[1]); eng.store(st, a[0], 4, len(t)); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8)), 8, a[1])
    @model(r'^strlen$')
    def _(eng, st, a, c): return len(Q.cstr(eng, st, a[0]))
    M = r'^QMap<QString, QVariant>::'
    def meta(eng, st, p): return eng.get_abs(st, p, Term, 'metadata')
    @model(M + r'(isEmpty|empty)\(\) const$')
    def _(eng, st, a, c): return ME(meta(eng, st, a[0]).args[0])
    @model(M + r'QMap\(\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Term('nometa'), 8)
    @model(M + r'~QMap\(\)$|^QJsonObject::~?QJsonObject\(\)$|^QList<QVariant>::~?QList\(\)$')
    def _(eng, st, a, c): return None
    @model(M + r'value\(QString const&, QVariant const&\) const$')
    def _(eng, st, a, c):
        d = eng.V(st, a[3])
        A('QVariantMap::value(k) is the stored value, a fixed function of map and key; toFloat and toInt are functions of it (Qt)')
        eng.setv(st, a[0], Var('meta', (meta(eng, st, a[1]).args[0], eng.strkey(G(st, a[2])))))
    @model(r'^QVariant::(toFloat|toInt)\(bool\*\) const$')
    def _(eng, st, a, c):
        v = eng.V(st, a[0])
        if v.tn != 'meta': raise Unsupported('number of a variant')
        return simp((VF if c.m.group(1) == 'toFloat' else VI)(*v.val))
    @model(r'^QtProtobuf::(QProtobufSerializer|QProtobufJsonSerializer)::\1\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, Term('new', c.m.group(1)))
    @model(r'^std::(__shared_ptr_access|__shared_ptr|shared_ptr)<.+>::(operator\*|operator->)\(\) const$')
    def _(eng, st, a, c):
        v = un(eng.load(st, a[0], 8, ('ptr',)))
        if isint(v) and v == 0 or isinstance(v, Ptr) and v.obj is None: eng.fail(st, 'null-deref', 'null shared pointer dereferenced'); raise sym.PathEnd()
        return v
    @model(r'^qgetenv\(char const\*\)$')
    def _(eng, st, a, c): ba, _, _ = symbytes(eng, st, 'environment'); eng.put_abs(st, a[0], ba, 8)
    @model(r'^std::default_delete<QtProtobuf::QProtobufSerializerRegistryPrivate>::|^std::(__uniq_ptr_impl|unique_ptr)<QtProtobuf::QProtobufSerializerRegistryPrivate.*>::~')
    def _(eng, st, a, c): return None
    eng.models[:] = eng.models[base:] + eng.models[:base]
def fnd(eng, n): return cfn(eng, n)
def sstr(eng, st, name):
    n = fbv(name + '_len', 64); st.assume(z3.ULT(n, 1 << 24)); r = Rope([Sl(farr(name), 0, n)]); eng.inputs[name] = r; p = Ptr(eng.alloc(st, name, 8), 0); eng.put_abs(st, p, Str(r), 8); return p, eng.strkey(r)
def globs(eng, st):
    for n, f in eng.mods[0].fns.items():
        if '__cxx_global_var_init' in n:
            rs = eng.run(st, f, []); st = [s for s, o in rs if o[0] == 'ret'][0]
    return st
def start(eng):
    """a registry holding arbitrary plugins, each with arbitrary serializers and metadata"""
    eng.mods[:] = [eng.run_ctx.mods['vreg']]; install(eng); st = globs(eng, State())
    reg = Ptr(eng.alloc(st, 'registry', 64), 0); priv = Ptr(eng.alloc(st, 'private', 256), 0); st, _ = run1(eng, st, fnd(eng, 'v_attach'), [reg, priv]); st, mp = run1(eng, st, fnd(eng, 'v_plugins'), [priv]); mp = un(mp); recs = {}
    def ptr(eng, st, p, o): eng.store(st, p, 8, Ptr(o, 0)); eng.store(st, Ptr(p.obj, p.off + 8), 8, NULL)
    def mkser(pk):
        def mk(eng, st, k):
            nd = eng.alloc(st, 'sernode', None, 'heap'); o = eng.alloc(st, 'serializer', 64, 'heap', ('serializer', pk, k)); ptr(eng, st, Ptr(nd, 8), o); return Ptr(nd, 0)
        return mk
    def mkrec(eng, st, k):
        nd = eng.alloc(st, 'plugnode', None, 'heap'); o = eng.alloc(st, 'record', 512, 'heap'); ptr(eng, st, Ptr(nd, 8), o)
        s2, sp = run1(eng, st.fork(), fnd(eng, 'v_serializers'), [Ptr(o, 0)]); s2, me = run1(eng, s2, fnd(eng, 'v_meta'), [Ptr(o, 0)])
        eng.store(st, un(sp), 56, Q.UMap({}, Q.AMap('serializers', lambda x: SH(k, bv(x, 64)), mkser(k)))); eng.put_abs(st, un(me), Term('meta', k), 8); return Ptr(nd, 0)
    eng.store(st, mp, 56, Q.UMap({}, Q.AMap('plugins', lambda k: PH(bv(k, 64)), mkrec)))
    st.assume(PH(key(eng, b'Default'))); st.trace = (); return st, reg, mp
def unchanged(eng, s, mp, ops=()):
    """no plugin is added; where one is, the lookups and queries that follow have to go on treating it as unknown, which leaves the goal undecided"""
    grown = False
    for k, (kk, nd) in s.mem[mp.obj][mp.off][1].d.items():
        if eng.check(s, z3.Not(PH(bv(kk, 64))))[0] == 'unsat': eng.oblige(s, PH(bv(kk, 64)), 'lookup-adds-no-plugin', assume=False)
        else: grown = True
    if not grown: return
    for f, args, post in ops:
        for s2, o in eng.run(s.fork(), fnd(eng, f), args(s)): post(s2, o)
    raise Unsupported('a lookup or query adds an entry to the table of plugins')
def result(eng, s, out): return un(eng.load(s, out, 8, ('ptr',)))
def get_post(eng, out, pk, ik):
    known = z3.And(PH(pk), SH(pk, ik))
    def post(s, o):
        if o[0] == 'exc':
            eng.oblige(s, z3.Not(known), 'a-known-serializer-is-found', str(o[1]), assume=False); eng.oblige(s, getattr(o[1], 'ty', '') == '_ZTISt12out_of_range', 'unknown-is-out-of-range', str(o[1]), assume=False); return
        eng.oblige(s, known, 'an-unknown-serializer-is-reported'); r = result(eng, s, out)
        ok = isinstance(r, Ptr) and r.obj is not None and isinstance(r.obj.info, tuple) and r.obj.info[0] == 'serializer'
        eng.oblige(s, ok, 'returns-a-registered-serializer', repr(r), assume=False)
        if ok: eng.oblige(s, z3.And(bv(r.obj.info[1], 64) == pk, bv(r.obj.info[2], 64) == ik), 'returns-the-serializer-of-that-plugin-and-id', assume=False)
    return post
METAS = (('v_version', b'version', VF), ('v_pversion', b'protobufVersion', VF), ('v_rating', b'rating', VI))
def meta_post(eng, pk, name, fn):
    want = z3.If(z3.And(PH(pk), z3.Not(ME(pk))), fn(pk, key(eng, name)), z3.BitVecVal(0, 32))
    def post(s, o):
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); return
        eng.oblige(s, bv(o[1], 32) == want, 'reports-the-metadata-of-the-plugin', assume=False)
    return post
def follow(eng, reg, out, i, ik, p, pk):
    return [('v_get2', lambda s: [out, reg, i, p], get_post(eng, out, pk, ik))] + [(f, lambda s: [reg, p], meta_post(eng, pk, n, fn)) for f, n, fn in METAS]
def g_get(two):
    def go(eng):
        st, reg, mp = start(eng); i, ik = sstr(eng, st, 'id'); p, pk = sstr(eng, st, 'plugin'); out = Ptr(eng.alloc(st, 'ret', 16), 0); ops = follow(eng, reg, out, i, ik, p, pk); post = get_post(eng, out, pk if two else key(eng, b'Default'), ik)
        for s, o in eng.run(st, fnd(eng, 'v_get2' if two else 'v_get1'), [out, reg, i] + ([p] if two else [])): eng.posts += 1; post(s, o); unchanged(eng, s, mp, ops)
    return go
def g_meta(f, name, fn):
    def go(eng):
        st, reg, mp = start(eng); i, ik = sstr(eng, st, 'id'); p, pk = sstr(eng, st, 'plugin'); out = Ptr(eng.alloc(st, 'ret', 16), 0); ops = follow(eng, reg, out, i, ik, p, pk); post = meta_post(eng, pk, name, fn)
        for s, o in eng.run(st, fnd(eng, f), [reg, p]): eng.posts += 1; post(s, o); unchanged(eng, s, mp, ops)
    return go
def g_create(eng):
    eng.mods[:] = [eng.run_ctx.mods['vreg']]; install(eng); st = globs(eng, State()); priv = Ptr(eng.alloc(st, 'private', 256), 0); reg = Ptr(eng.alloc(st, 'registry', 64), 0)
    for s, o in eng.run(st, fnd(eng, 'v_create'), [priv]):
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        s, _ = run1(eng, s, fnd(eng, 'v_attach'), [reg, priv])
        for two in (0, 1):
            for idn, cls in ((b'protobuf', 'QProtobufSerializer'), (b'json', 'QProtobufJsonSerializer'), (b'unknown', None)):
                s1 = s.fork(); i = Ptr(eng.alloc(s1, 'id', 8), 0); eng.put_abs(s1, i, Str(Rope([Lit(list(idn))])), 8); d = Ptr(eng.alloc(s1, 'plugin', 8), 0); eng.put_abs(s1, d, Str(Rope([Lit(list(b'Default'))])), 8); out = Ptr(eng.alloc(s1, 'ret', 16), 0)
                for s2, o2 in eng.run(s1, fnd(eng, 'v_get2' if two else 'v_get1'), [out, reg, i] + ([d] if two else [])):
                    eng.posts += 1
                    if cls is None: eng.oblige(s2, o2[0] == 'exc', 'an-unknown-serializer-is-reported', assume=False); continue
                    eng.oblige(s2, o2[0] == 'ret', 'the-default-serializers-exist', idn.decode(), assume=False)
                    if o2[0] == 'ret':
                        r = result(eng, s2, out); x = s2.mem[r.obj].get(r.off) if isinstance(r, Ptr) and r.obj is not None and isint(r.off) else None
                        eng.oblige(s2, x is not None and isinstance(x[1], Term) and x[1].args == (cls,), 'the-default-serializers-exist', '%s %r' % (idn.decode(), x), assume=False)
def verify(run):
    run.load(VR); run.prove([Goal('a new registry has the default serializers', g_create), Goal('getSerializer(id)', g_get(False)), Goal('getSerializer(id, plugin)', g_get(True))] + [Goal(f.replace('v_', 'metadata: '), g_meta(f, n, fn)) for f, n, fn in METAS])
