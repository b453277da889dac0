"""The code generator: the ordering table and the property list of a message class agree, field by field, for every message description."""
from ser import *
import gennat, gen, build
from gen import *
from loops import with_cuts, CutSpec
native = gennat.native
VG = ('vgen', build.VERIF + '/native/vgen.cpp', ['-fno-access-control', '-I%s/src/generator' % build.REPO] + build.GEN)
I64 = z3.BitVecSort(64); I32 = z3.BitVecSort(32)
NF = z3.Function('field_count', I64, I32); FLD = z3.Function('field_of', I64, I32, I64); NUM = z3.Function('field_number', I64, I32); TYP = z3.Function('field_type', I64, I32)
REP = z3.Function('is_repeated', I64, z3.BoolSort()); MAP = z3.Function('is_map', I64, z3.BoolSort()); QT = z3.Function('is_qt_type', I64, z3.BoolSort()); MT = z3.Function('message_type', I64, I64); ET = z3.Function('enum_type', I64, I64)
QML = z3.Bool('option_qml')
KEYS = 'classname type full_type scope_type list_type full_list_type scope_list_type namespaces scope_namespaces qml_package property_type property_list_type getter_type setter_type'.split()
SCALAR = {1: 'double', 2: 'float', 3: 'QtProtobuf::int64', 4: 'QtProtobuf::uint64', 5: 'QtProtobuf::int32', 6: 'QtProtobuf::fixed64', 7: 'QtProtobuf::fixed32', 8: 'bool', 9: 'QString', 12: 'QByteArray', 13: 'QtProtobuf::uint32',
          15: 'QtProtobuf::sfixed32', 16: 'QtProtobuf::sfixed64', 17: 'QtProtobuf::sint32', 18: 'QtProtobuf::sint64'}
LISTS = {k: ('QtProtobuf::' + v[0].upper() + v[1:] if k in (1, 2, 8) else v) + 'List' for k, v in SCALAR.items()}
def dptr(eng, st, t):
    t = simp(t); k = 'desc:%s' % t
    for o in st.mem:
        if o.kind == 'desc' and o.name == k: return Ptr(o, 0)
    return Ptr(eng.alloc(st, k, 8, 'desc', ('descriptor', t)), 0)
def did(p): return p.obj.info[1] if isinstance(p, Ptr) and p.obj is not None else z3.BitVecVal(0, 64)
def desc(eng, st, cls, name, a):
    sret = name in ()
    x = did(a[0])
    if cls == 'Descriptor':
        if name == 'field_count': st.assume(NF(x) >= 0); return NF(x)
        if name == 'field':
            f = FLD(x, bv(simp(a[1]), 32)); facts(st, f)
            if z3.is_app(x) and x.decl().name() == 'message_type': st.assume(z3.Implies(MAP(x.arg(0)), z3.Not(REP(f))))     # key and value of a map entry are singular
            return dptr(eng, st, f)
        if name in ('name', 'full_name'): return stext(eng, st, 'message_' + name, x)
    if cls == 'FieldDescriptor':
        if name == 'number': st.assume(z3.And(NUM(x) >= 1, NUM(x) < (1 << 29))); return NUM(x)
        if name == 'type': return TYP(x)
        if name == 'is_repeated': return REP(x)
        if name == 'is_map': return MAP(x)
        if name in ('camelcase_name', 'json_name', 'name', 'lowercase_name'): return stext(eng, st, name, x)
        if name == 'message_type': return dptr(eng, st, MT(x)) if eng.prove(st, TYP(x) == 11)[0] == 'proved' else undecided(name)
        if name == 'enum_type': return dptr(eng, st, ET(x)) if eng.prove(st, TYP(x) == 14)[0] == 'proved' else undecided(name)
    raise Unsupported('descriptor %s::%s' % (cls, name))
def undecided(n): raise Unsupported('descriptor %s of a field of unknown type' % n)
def facts(st, f): st.assume(z3.And(TYP(f) >= 1, TYP(f) <= 18, TYP(f) != 10, z3.Implies(MAP(f), z3.And(REP(f), TYP(f) == 11)), z3.Implies(QT(f), TYP(f) == 11)))
def stext(eng, st, name, x):
    r, n = sym(name, x); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 16))); return newstr(eng, st, r)
def install(eng):
    install_gen(eng); eng.desc = desc; model = eng.model; A = eng.assumptions.add
    eng.mods[:] = [eng.run_ctx.mods['vgen']]; eng.depth_limit = 120
    @model(r'^QtProtobuf::generator::GeneratorOptions::instance\(\)$')
    def _(eng, st, a, c): return Ptr(eng.the_printer, 0)
    @model(r'^QtProtobuf::generator::GeneratorOptions::hasQml\(\) const$')
    def _(eng, st, a, c): return QML
    @model(r'^QtProtobuf::generator::common::produce(Message|Enum|Qt)TypeMap(\[abi:cxx11\])?\(')
    def _(eng, st, a, c):
        A('the C++ names of message, enum and Qt types are a function of the type and the scope (produceMessageTypeMap, produceEnumTypeMap, produceQtTypeMap: assumed here, compared with the compiled classes by the native harness)')
        d = {}
        for k in KEYS:
            r, n = sym('%s_%s' % (c.m.group(1), k), did(a[1]), did(a[2])); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 16))); d[k.encode()] = newstr(eng, st, r)
        eng.put_abs(st, a[0], GMap(d), 48)
    @model(r'^QtProtobuf::generator::common::isQtType\(')
    def _(eng, st, a, c): A('isQtType is a function of the field, true only for message fields'); return QT(did(a[0]))
def inits(eng, st):
    for n, f in eng.mods[0].fns.items():
        if '__cxx_global_var_init' in n:
            snap = list(eng.obls)
            try: rs = eng.run(st.fork(), f, []); st = [s for s, o in rs if o[0] == 'ret'][0]
            except Unsupported: eng.obls[:] = snap
    return st
def start(eng, kind):
    install(eng); st = State(); eng.the_printer = eng.alloc(st, 'printer', 8)
    st = inits(eng, st)
    p = Ptr(eng.alloc(st, 'generator', 512), 0); d = fbv('message', 64); eng.inputs['message'] = d
    for what, v in (('desc', dptr(eng, st, d)), ('prn', Ptr(eng.the_printer, 0))):
        st, q = run1(eng, st, cfn(eng, 'v_%s_%s' % (kind, what)), [p]); eng.store(st, q, 8, v)
    st, q = run1(eng, st, cfn(eng, 'v_%s_map' % kind), [p]); m = {}
    for k in KEYS: r, n = sym('Message_' + k, d, z3.BitVecVal(0, 64)); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 16))); m[k.encode()] = newstr(eng, st, r)
    eng.put_abs(st, q, GMap(m), 48); st.trace = (); eng.inputs['fields'] = NF(d); st.assume(NF(d) >= 0); return st, p, d
def joined(evs):
    r = Rope()
    for e in evs:
        if e[0] != 'out': raise Unsupported('event %r' % (e,))
        r = Rope(r.ps + e[1].ps)
    return r
def skeleton(r):
    """literal text with '@' for every symbolic piece, and those pieces (None: a symbolic byte)"""
    s = ''; at = []
    for p in r.ps:
        if isinstance(p, Lit):
            for b in p.bs:
                if isint(b): s += chr(b)
                else: s += '\x01'; at.append(None)
        elif isinstance(p, Sl): s += '@'; at.append(p)
        else: raise Unsupported('text piece %r' % (p,))
    return s, at
def fn_of(p):
    return (p.arr.decl().name(), [p.arr.arg(k) for k in range(p.arr.num_args())]) if p is not None and z3.is_app(p.arr) else (None, [])
class Loop(CutSpec):
    def __init__(s, d): s.d = d
    def wants(self, eng, fn, blk, kinds): return kinds == {'int'}
    def invariant(self, ctx, entry=False): return [('at most as many entries as fields', z3.ULE(B64(ctx.i), z3.ZeroExt(32, NF(self.d))))]
    def var_value(self, ctx, cell, old): raise Unsupported('loop modifies %r' % (old,))
class OrderLoop(Loop):
    name = 'ordering'
    def ev_step(self, c, evs):
        eng, s = c.eng, c.st; sk, at = skeleton(joined(evs)); t = ''.join(sk.split()); i = z3.Extract(31, 0, B64(c.i0)); f = FLD(self.d, bv(simp(i), 32))
        def ob(x, why): eng.oblige(s, x, 'loop-step', why, assume=False)
        ob('{' in t, 'field i is listed in the ordering table')
        if '{' not in t: return
        if t.startswith(','): ob(i != 0, 'entries are separated by commas')
        elif not t.endswith(','): ob(i == 0, 'entries are separated by commas')
        t = t.strip(',')
        if not re.match(r'^\{@,\{@,[^{}]*\}\}$', t):
            if t.count('{@,{@') > 1: ob(False, 'field i is listed exactly once')
            raise Unsupported('form of the ordering entry: %s' % t)
        for k, (want, why) in enumerate(((NUM(f), 'entry i carries the number of field i'), (i + 1, 'entry i carries the index of the i-th property'))):
            nm, args = fn_of(at[k])
            if nm not in ('DEC32', 'DEC64'): ob(False, why + ' (it is %s)' % nm); continue
            a = args[0]; ob((a if a.size() == 32 else z3.Extract(31, 0, a)) == want, why)
def g_order(eng):
    st, p, d = start(eng, 'def')
    for s, o in with_cuts(eng, [OrderLoop(d)], lambda: eng.run(st.fork(), cfn(eng, 'v_def_ordering'), [p])):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        ls = [e for e in s.trace if e[0] == 'loop']
        if not ls: eng.oblige(s, NF(d) == 0, 'every-field-is-listed', 'no loop over the fields', assume=False); continue
        if len(ls) != 1: raise Unsupported('several loops')
        eng.oblige(s, B64(ls[0][2]) == z3.ZeroExt(32, NF(d)), 'every-field-is-listed', 'the loop covers all fields', assume=False)
        k = s.trace.index(ls[0])
        for part in (s.trace[:k], s.trace[k+1:]): eng.oblige(s, all(fn_of(x)[0] not in ('DEC32', 'DEC64') for x in skeleton(joined(part))[1]), 'nothing-else-is-listed', assume=False)
PKEYS = KEYS + ['property_name', 'property_name_cap', 'scriptable', 'key_type', 'value_type', 'number']
def ptext(st, key, f, scope):
    r, n = sym('P_' + key, f, scope); st.assume(z3.ULT(n, 1 << 17)); return r
def c_producePropertyMap(eng, st, a, c):
    """contract: the map of a field is a function of the field and the scope (what it holds is proved per field type below)"""
    f, sc = did(a[1]), did(a[2]); d = {k.encode(): newstr(eng, st, ptext(st, k, f, sc)) for k in PKEYS}
    if eng.prove(st, MAP(f))[0] == 'proved': d[b'value_list_type'] = newstr(eng, st, ptext(st, 'value_list_type', f, sc))
    if eng.prove(st, z3.And(TYP(f) != 11, TYP(f) != 14))[0] == 'proved': d[b'qml_alias_type'] = newstr(eng, st, ptext(st, 'qml_alias_type', f, sc))
    eng.put_abs(st, a[0], GMap(d), 48)
PPM = r'^QtProtobuf::generator::common::producePropertyMap(\[abi:cxx11\])?\('
def g_map(k, lst, m):
    def go(eng):
        install(eng); st = State(); eng.the_printer = eng.alloc(st, 'printer', 8); st = inits(eng, st); f, d = fbv('field', 64), fbv('message', 64); facts(st, f); st.assume(z3.And(TYP(f) == k, REP(f) == lst, MAP(f) == m, NUM(f) >= 1, NUM(f) < (1 << 29)))
        out = Ptr(eng.alloc(st, 'map', 48), 0); fp, dp = dptr(eng, st, f), dptr(eng, st, d); eng.contract_rx.insert(0, (re.compile(PPM), c_producePropertyMap)); eng.inputs['number'] = NUM(f)
        fn = one(eng, PPM)
        for s, o in eng.run(st, fn, [out, fp, dp]):
            eng.posts += 1
            if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
            mp = eng.get_abs(s, out, GMap, 'map').d; rp = lambda key: rope(eng, s, mp[key]) if key in mp else Rope()
            def ob(x, why): eng.oblige(s, x, 'field-map', why, assume=False)
            for key in PKEYS + (['value_list_type'] if m else []) + (['qml_alias_type'] if k in SCALAR else []):
                if key.encode() not in mp: raise Unsupported('the map of a field has no entry %s' % key)
            nm, args = fn_of((rp(b'number').ps or [None])[0]); ob(nm == 'DEC32' and len(rp(b'number').ps) == 1, 'number is the decimal text of the field number')
            if nm == 'DEC32': ob(args[0] == NUM(f), 'number is the number of the field')
            # the name: camel case with a small first letter, and a suffix for words that QML reserves
            cam, n = sym('camelcase_name', f); arr = cam.ps[0].arr; c0 = z3.Select(arr, z3.BitVecVal(0, 64)); low = z3.If(z3.And(c0 >= 65, c0 <= 90), c0 + 32, c0); up = lambda b: z3.If(z3.And(b >= 97, b <= 122), b - 32, b)
            lowered = Rope([Lit([simp(low)]), Sl(arr, 1, simp(n - 1))]); res = [rope_must_eq(eng, s, lit(w), lowered) for w in (b'id', b'property', b'import')]; reserved = z3.Or(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in res])
            for key, fst in ((b'property_name', low), (b'property_name_cap', up(low))):
                for suffix, cond in ((b'_proto', reserved), (b'', z3.Not(reserved))):
                    s2 = s.fork(); s2.assume(cond)
                    if eng.check(s2)[0] == 'unsat': continue
                    want = Rope([Lit([simp(fst)]), Sl(arr, 1, simp(n - 1))]) + lit(suffix); eng.oblige(s2, same_text(eng, s2, rp(key), want), 'field-map', '%s is made of the name of the field' % key.decode(), assume=False)
            if k in SCALAR:
                for key, w in (('property_type', SCALAR[k]), ('property_list_type', LISTS[k]), ('scope_type', SCALAR[k]), ('scope_list_type', LISTS[k]), ('setter_type', LISTS[k] if lst else SCALAR[k])):
                    got = const(rp(key.encode())); ob(got == w.encode(), '%s of protobuf type %d is %s (it is %s)' % (key, k, w, got))
                al = const(rp(b'qml_alias_type'))
                if k in (5, 7, 15) and not lst: ob(al == (b'unsigned int' if k == 7 else b'int'), 'the QML alias has the matching built-in type (it is %s)' % al)
            else:
                for key in ('property_type', 'property_list_type', 'scope_type', 'scope_list_type'):
                    r = rp(key.encode()); nm, args = fn_of(r.ps[0] if len(r.ps) == 1 else None); kinds = ('Enum_' + key,) if k == 14 else ('Message_' + key, 'Qt_' + key)
                    ob(nm in kinds, '%s is the %s of its own type (it is %s)' % (key, key, nm))
                    if nm in kinds:
                        ob(args[0] == (ET(f) if k == 14 else MT(f)), '%s belongs to the type of this field' % key)
                        if k == 11: eng.oblige(s, QT(f) if nm.startswith('Qt_') else z3.Not(QT(f)), 'field-map', 'Qt types are mapped to Qt classes', assume=False)
            if m:
                for key, j, src in (('key_type', 0, 'scope_type'), ('value_type', 1, 'scope_type'), ('value_list_type', 1, 'scope_list_type')):
                    r = rp(key.encode()); nm, args = fn_of(r.ps[0] if len(r.ps) == 1 else None); ob(nm == 'P_' + src, '%s is the type of the map entry part (it is %s)' % (key, nm))
                    if nm == 'P_' + src: ob(args[0] == FLD(MT(f), z3.BitVecVal(j, 32)), '%s is taken from part %d of the entry' % (key, j))
    return Goal('producePropertyMap: %s%s' % ('map' if m else 'repeated ' if lst else '', '' if m else TNAME[k]), go, contract='producePropertyMap')
TNAME = {11: 'message', 14: 'enum', **{k: v.split(':')[-1] for k, v in SCALAR.items()}}
def same_text(eng, st, a, b):
    """equality of texts, also when one of them has been fixed by the path to a constant"""
    if Q.same_rope(a, b): return True
    return rope_must_eq(eng, st, a, b)
class PropLoop(Loop):
    name = 'properties'
    def ev_step(self, c, evs):
        eng, s = c.eng, c.st
        if any(e[0] == 'loop' for e in c.entry.trace): return            # properties after the field properties do not move them
        r = joined(evs); sk, at = skeleton(r); i = z3.Extract(31, 0, B64(c.i0)); f = simp(FLD(self.d, bv(simp(i), 32)))
        def ob(x, why): eng.oblige(s, x, 'loop-step', why, assume=False)
        ob(sk.count('Q_PROPERTY(') == 1, 'exactly one property is declared for field i')
        if sk.count('Q_PROPERTY(') != 1: return
        tail = sk[sk.index('Q_PROPERTY(') + 11:]; head = sk[:sk.index('Q_PROPERTY(')]
        x = re.match(r'@( *\*)? *@', tail)
        if head.strip() or not x or len(at) < 3: raise Unsupported('form of the property: %s' % sk)
        for k, p in enumerate(at):
            nm, args = fn_of(p)
            if nm not in ['P_' + y for y in PKEYS]: raise Unsupported('property made of %s' % nm)
            ob(z3.And(args[0] == f, args[1] == self.d), 'property i is made from field i'); 
            if k == 1: ob(nm == 'P_property_name', 'the property is named after the field')
        t = fn_of(at[0])[0]; lst = z3.And(REP(f), z3.Not(MAP(f))); pure = z3.And(TYP(f) == 11, z3.Not(REP(f)), z3.Not(QT(f)))
        if t not in ('P_property_type', 'P_property_list_type'): raise Unsupported('type of the property: %s' % t)
        ob(lst if t == 'P_property_list_type' else z3.Not(lst), 'repeated fields have a list type, others the plain type'); ob(pure if x.group(1) else z3.Not(pure), 'singular messages are held by pointer, others by value')
def g_props(eng):
    st, p, d = start(eng, 'dec')
    for s, o in with_cuts(eng, [PropLoop(d)], lambda: eng.run(st.fork(), cfn(eng, 'v_dec_properties'), [p])):
        eng.posts += 1
        if o[0] != 'ret': eng.fail(s, 'no-exception', str(o[1])); continue
        ls = [k for k, e in enumerate(s.trace) if e[0] == 'loop']
        if not ls: eng.oblige(s, NF(d) == 0, 'every-field-is-a-property', assume=False); continue
        eng.oblige(s, B64(s.trace[ls[0]][2]) == z3.ZeroExt(32, NF(d)), 'every-field-is-a-property', 'the loop covers all fields', assume=False)
        eng.oblige(s, 'Q_PROPERTY(' not in skeleton(joined(s.trace[:ls[0]]))[0], 'no-property-before-the-fields', assume=False)
GOALS = [Goal('printFieldsOrdering: entry i carries the number of field i and index i+1, for every number of fields', g_order), Goal('printProperties: the i-th property is field i, with its name and type, for every message', g_props)]
def verify(run):
    run.load(VG); run.contracts['producePropertyMap'] = (PPM, c_producePropertyMap)
    ok = run.prove_contracts([g_map(k, l, False) for k in list(SCALAR) + [11, 14] for l in (False, True)] + [g_map(11, True, True)])
    for r in run.results: r['kind'] = 'property'          # what a field's map holds is itself part of the property
    run.prove(GOALS, ok)
