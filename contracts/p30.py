"""Generated message classes are values: the classes the generator of /repo produces now, one per field kind, every content."""
from ser import *
import val, gentool, natprog, sernat, os, re
from val import *
from net import un
SC = {'int32': 4, 'int64': 8, 'uint32': 4, 'uint64': 8, 'sint32': 4, 'sint64': 8, 'fixed32': 4, 'fixed64': 8, 'sfixed32': 4, 'sfixed64': 8, 'float': 4, 'double': 8, 'bool': 1, 'E': 4}
def cap(k): return k[0].upper() + k[1:]
NAT = {}                                   # classes too large for the proof: random contents only
def schema():
    """class -> [(field, kind)]; kind: ('sc', size, float), 'ov', 'deep', 'msg'"""
    out = {}; body = []
    def add(name, fs, pre='', num=lambda n: n):
        out[name] = [(f, k) for f, t, k in fs]; body.append('message %s { %s%s }' % (name, pre, ' '.join('%s %s = %d;' % (t, f, num(n)) for n, (f, t, k) in enumerate(fs, 1))))
    E = 'enum E { E0 = 0; E1 = 1; E2 = 2147483647; EN = -1; EM = -2147483648; } '
    def sk(t): return ('sc', SC[t], t in ('float', 'double'))
    three = lambda t, k: [(f, t, k) for f in ('a', 'b', 'c')]
    for t in SC: add('V' + cap(t), three(t, sk(t)), E if t == 'E' else '')
    for t in ('string', 'bytes'): add('V' + cap(t), three(t, 'ov'))
    add('VTop', three('Top', ('sc', 4, False))); add('VMsg', three('Leaf', 'msg'))
    for t in list(SC) + ['string', 'bytes']:
        if t != 'bool': add('R' + cap(t), three('repeated ' + t, 'ov'), E if t == 'E' else '')
    add('RMsg', three('repeated Leaf', 'deep'))
    for n, (k, v) in dict(IntString=('int32', 'string'), StringMsg=('string', 'Leaf'), ZigZag=('sint32', 'sint64'), BoolInt=('bool', 'int32'), FixBytes=('fixed64', 'bytes'), IntEnum=('int32', 'E'), IntMsg=('int64', 'Leaf'), UDouble=('uint64', 'double')).items():
        add('M' + n, [(f, 'map<%s, %s>' % (k, v), 'deep' if v == 'Leaf' else 'ov') for f in ('a', 'b')], E if v == 'E' else '')
    add('Mix', [('a', 'sint64', sk('sint64')), ('b', 'bytes', 'ov'), ('c', 'Leaf', 'msg'), ('d', 'repeated Leaf', 'deep')])
    inner = 'message Inner { sint64 z = 1; bytes b = 2; } '
    add('Nest', [('a', 'Inner', 'msg'), ('b', 'repeated Inner', 'deep'), ('c', 'map<int32, Inner>', 'deep'), ('d', 'Inner', 'msg')], inner)
    wide = ['int32', 'string', 'repeated sint32', 'Leaf', 'Top', 'sfixed32', 'bytes', 'repeated Leaf']
    add('Wide', [('wordNumber%s' % 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i], t, 'msg' if t == 'Leaf' else 'deep' if t == 'repeated Leaf' else sk(t) if t in SC else ('sc', 4, False) if t == 'Top' else 'ov') for i, t in enumerate(wide)], num=lambda n: [15, 1, 16, 2047, 2048, 20000, 536870911, 4][n - 1])
    add('One', [('only', 'fixed32', sk('fixed32'))]); add('None', [])
    del out['None']; body[-1] = 'message None { }'
    kinds = ['int32', 'string', 'sint64', 'repeated uint32', 'bool', 'bytes', 'Top', 'double', 'repeated string', 'fixed32']
    add('Many', [('f%d' % i, kinds[i % 10], None) for i in range(20)] + [('l%d' % i, 'Leaf', None) for i in range(2)], num=lambda n: n*n*n*40 - 39); NAT['Many'] = out.pop('Many')
    return out, 'syntax = "proto3";\npackage vg;\nenum Top { T0 = 0; T1 = 1; TX = 77; }\nmessage Leaf { sint64 z = 1; bytes b = 2; }\n' + '\n'.join(body) + '\n'
CLS, PROTO = schema()
LEAF = ('vg::Leaf', 'vg::Nest_QtProtobufNested::Inner')
ALIAS = {'VInt32': 'abc', 'VFixed32': 'abc', 'VSfixed32': 'abc', 'One': ['only'], 'Wide': ['wordNumberA', 'wordNumberF']}
def helpers(hdr=''):
    o = ['// Entry points over the generated classes.', '#include <new>', '#include <utility>', '#include "vg.qpb.cpp"', 'extern "C" {']
    for c, fs in CLS.items():
        T = 'vg::' + c
        for f, k in fs: o.append('using T_%s_%s = std::decay_t<decltype(std::declval<const %s &>().%s())>;' % (c, f, T, f))
        for n in range(1, len(fs) + 1): o.append('void v_%s_full%d(%s *o, %s) { new (o) %s(%s); }' % (c, n, T, ', '.join('const T_%s_%s &%s' % (c, f, f) for f, _ in fs[:n]), T, ', '.join(f for f, _ in fs[:n])))
        o.append(('void v_C_def(T *o) { new (o) T(); }\nvoid v_C_copy(T *o, const T &x) { new (o) T(x); }\nvoid v_C_move(T *o, T &x) { new (o) T(std::move(x)); }\nT *v_C_asg(T *o, const T &x) { return &(*o = x); }\nT *v_C_masg(T *o, T &x) { return &(*o = std::move(x)); }\nbool v_C_eq(const T &a, const T &b) { return a == b; }\nbool v_C_ne(const T &a, const T &b) { return a != b; }').replace('_C_', '_%s_' % c).replace('T(', T + '(').replace('T ', T + ' '))
        for f, k in fs: o.append('void v_%s_set_%s(%s *o, const T_%s_%s &v) { o->set%s(v); }\nvoid v_%s_get_%s(T_%s_%s *r, const %s *o) { new (r) T_%s_%s(o->%s()); }' % (c, f, T, c, f, cap(f), c, f, c, f, T, c, f, f))
        for f, k in fs:
            if '_p(const' in hdr and re.search(r'class %s : (?:(?!\n};).)*\bset%s_p\(const ' % (c, cap(f)), hdr, re.S): o.append('void v_%s_setp_%s(%s *o, const decltype(std::declval<const %s &>().%s_p()) &v) { o->set%s_p(v); }\nvoid v_%s_getp_%s(T_%s_%s *r, const %s *o) { new (r) decltype(std::declval<const %s &>().%s_p())(o->%s_p()); }' % (c, f, T, T, f, cap(f), c, f, c, f, T, T, f, f))
    return '\n'.join(o + ['}', ''])
def harness(hdr=''):
    o = ['#include "vg.qpb.h"', '#include "nat_val.h"', '#include <QCoreApplication>', 'int main(int argc, char **argv) { QCoreApplication app(argc, argv); rng.seed(argc > 1 ? atoi(argv[1]) : 1); for (int n = argc > 2 ? atoi(argv[2]) : 1; n; --n) {']
    for c, fs in list(CLS.items()) + list(NAT.items()):
        T = 'vg::' + c; ty = lambda f: 'std::decay_t<decltype(std::declval<const %s &>().%s())>' % (T, f)
        o.append('{ ' + ' '.join('using T_%s = %s;' % (f, ty(f)) for f, _ in fs)); o.append('Check<%s, %s>::check("%s", [](%s) { return new %s(%s); }, [](const T_%s &v) { return new %s(v); }, std::make_index_sequence<%d>(), %s); }' % (T, ', '.join('T_' + f for f, _ in fs), c, ', '.join('const T_%s &%s' % (f, f) for f, _ in fs), T, ', '.join(f for f, _ in fs), fs[0][0], T, len(fs),
            ', '.join('Fd<%s, T_%s>{"%s", [](const %s &o) -> T_%s { return o.%s(); }, [](%s &o, const T_%s &v) { o.set%s(v); }, &%s::%sChanged}' % (T, f, f, T, f, f, T, f, cap(f), T, f) for f, _ in fs)))
    for c, fs in CLS.items():
        for f, k in fs:
            if re.search(r'class %s : (?:(?!\n};).)*\bset%s_p\(const ' % (c, cap(f)), hdr, re.S):
                o.append('for (qint64 x : {0LL, 1LL, -1LL, 2147483647LL, -2147483648LL, 128LL}) { using T = vg::%s; T a, b; a.set%s(decltype(a.%s())(7)); b = a; int n = 0; QObject::connect(&a, &T::%sChanged, [&n] { ++n; }); using A = decltype(a.%s_p()); a.set%s_p(A(x)); b.set%s(decltype(b.%s())(A(x))); if (a != b || a.%s_p() != A(x)) fail("%s", "alias of %s"); if (n != 1) fail("%s", "notifications of the alias of %s"); a.set%s_p(A(x)); if (n != 1) fail("%s", "notification without a change: alias of %s"); ++count_; }' % (c, cap(f), f, f, f, cap(f), cap(f), f, f, c, f, c, f, cap(f), c, f))
    return '\n'.join(o + ['} { vg::None a, b; vg::None c(a), d(std::move(b)); a = c; b = std::move(d); if (!(a == b) || a != b) fail("None", "comparison"); }', 'printf("OK %u\\n", count_); fflush(stdout); _exit(0); }', ''])
def native(run):
    d = gen(run, ':QML'); open(d + '/nat_val.cpp', 'w').write(harness(open(d + '/vg.qpb.h').read())); build.moc(d + '/vg.qpb.h', d + '/moc_vg.cpp', FL(d))
    natprog.run_prog(run, 'nat_val', [d + '/nat_val.cpp', d + '/vg.qpb.cpp', d + '/moc_vg.cpp'] + sernat.LIBSRC, FL(d) + ['-I' + build.VERIF + '/native'], ('Qt5Core', 'Qt5Qml'), [run.seed, 1 if run.tier == 'quick' else 30], what='generated classes on random contents')
FL = lambda d: ['-I' + build.VERIF + '/native/inc', '-I' + d, '-DQT_BUILD_PROTOBUF_LIB']
def gen(run, opt=''):
    d = os.path.join(build.scratch(), 'valgen' + opt[1:])
    if not os.path.isdir(d):
        os.makedirs(d); open(d + '/vg.proto', 'w').write(PROTO); rc, err = gentool.generate(['vg.proto'], d, d, 'SINGLE' + opt)
        if rc: raise build.BuildError('generator failed: ' + err[-1500:])
        open(d + '/vval.cpp', 'w').write(helpers(open(d + '/vg.qpb.h').read()))
    return d
# ---------------------------------------------------------------- contents
def val_new(eng, st, kind, name):
    """an arbitrary value of a field -> (pointer to it, value)"""
    if kind == 'msg': w = fbv(name, 64); eng.inputs[name] = w; p = Ptr(eng.alloc(st, name, None), 0); eng.put_abs(st, p, MV(w), 8); return p, w
    if kind in ('ov', 'deep'): w = fbv(name, 64); eng.inputs[name] = w; p = Ptr(eng.alloc(st, name, 8), 0); eng.put_abs(st, p, OV(w), 8); return p, w
    n = kind[1]; w = fbv(name, 8*n); eng.inputs[name] = w
    if n == 1: st.assume(z3.ULE(w, 1))
    p = Ptr(eng.alloc(st, name, n), 0); eng.store(st, p, n, w); return p, w
def default(kind): return z3.BitVecVal(0, 64 if isinstance(kind, str) else 8*kind[1])
def fp(w): return z3.fpBVToFP(w, z3.Float32() if w.size() == 32 else z3.Float64())
def same(kind, a, b):
    """the value is carried: bit-equal, or equal numbers (the sign of zero is not kept)"""
    a, b = bv(a, b.size()), b
    if not isinstance(kind, str) and kind[2]: return z3.Or(a == b, z3.fpEQ(fp(a), fp(b)))
    return a == b
def equal(kind, a, b):
    if kind == 'deep': return DEEP(a) == DEEP(b)
    if not isinstance(kind, str) and kind[2]: return z3.fpEQ(fp(bv(a, b.size())), fp(b))
    return bv(a, b.size()) == b
class Case:
    def __init__(s, eng, c, mod='vval'): s.eng = eng; s.c = c; s.fs = CLS[c]; s.mod = mod
    def fn(s, n): return cfn(s.eng, 'v_%s_%s' % (s.c, n))
    def start(s): s.eng.mods[:] = [s.eng.run_ctx.mods[s.mod]]; val.install_val(s.eng, LEAF); return State()
    def obj(s, st, name): return Ptr(s.eng.alloc(st, name, None, 'heap'), 0)
    def any(s, st, name):
        """an arbitrary object of the class -> (state, pointer, values)"""
        vs = [val_new(s.eng, st, k, '%s.%s' % (name, f)) for f, k in s.fs]; p = s.obj(st, name); st, _ = run1(s.eng, st, s.fn('full%d' % len(s.fs)), [p] + [v[0] for v in vs]); st.trace = (); return st, p, [v[1] for v in vs]
    def read(s, st, p):
        """the values the getters report -> (state, values)"""
        out = []
        for f, k in s.fs:
            r = Ptr(s.eng.alloc(st, 'r', None if k == 'msg' else 8), 0); st, _ = run1(s.eng, st, s.fn('get_' + f), [r, p], 'getter of ' + f)
            out.append(ov(s.eng, st, r, MV if k == 'msg' else OV) if isinstance(k, str) else s.eng.load(st, r, k[1]))
        return st, out
    def expect(s, st, p, want, what):
        st, got = s.read(st.fork(), p)
        for (f, k), g, w in zip(s.fs, got, want): s.eng.oblige(st, same(k, g, w), what, f, assume=False)
    def paths(s, st, fn, args):
        for s2, r in s.eng.run(st, fn, args):
            s.eng.posts += 1
            if r[0] != 'ret': s.eng.fail(s2, 'no-exception', str(r[1])); continue
            yield s2, r[1]
def g_values(c, mod='vval'):
    def go(eng):
        C = Case(eng, c, mod); st = C.start(); o = C.obj(st, 'o')
        for s, _ in C.paths(st.fork(), C.fn('def'), [o]): C.expect(s, o, [default(k) for f, k in C.fs], 'default-constructed-fields-are-default')
        for n in range(1, len(C.fs) + 1):
            st = State(); vs = [val_new(eng, st, k, f) for f, k in C.fs[:n]]; o = C.obj(st, 'o')
            for s, _ in C.paths(st, C.fn('full%d' % n), [o] + [v[0] for v in vs]): C.expect(s, o, [v[1] for v in vs] + [default(k) for f, k in C.fs[n:]], 'constructed-with-its-arguments')
        for op in ('copy', 'move', 'asg', 'masg'):
            st = State(); st, src, sv = C.any(st, 'source'); want = sv
            if op in ('copy', 'move'): dst = C.obj(st, 'target'); old = None
            else: st, dst, old = C.any(st, 'target')
            for s, r in C.paths(st, C.fn(op), [dst, src]):
                C.expect(s, dst, sv, {'copy': 'copy-carries-every-field', 'move': 'move-carries-every-field', 'asg': 'assignment-carries-every-field', 'masg': 'move-assignment-carries-every-field'}[op])
                if op in ('copy', 'asg'): C.expect(s, src, sv, 'source-untouched')
                if old is not None:
                    eng.oblige(s, isinstance(un(r), Ptr) and un(r).obj is dst.obj and Q.teq(un(r).off, dst.off), 'assignment-returns-its-target', assume=False)
                    for (f, k), a, b in zip(C.fs, old, sv):
                        if not [e for e in s.trace if e[0] == 'changed' and e[1].obj is dst.obj and e[2] == f]: eng.oblige(s, same(k, a, b), 'change-notified', f, assume=False)
        st, x, v = C.any(State(), 'self')
        for s, r in C.paths(st, C.fn('asg'), [x, x]): C.expect(s, x, v, 'self-assignment-keeps-every-field')
    return go
def g_fields(c, mod='vval'):
    def go(eng):
        C = Case(eng, c, mod); C.start()
        for i, (f, k) in enumerate(C.fs):
            st, o, old = C.any(State(), 'object'); p, w = val_new(eng, st, k, 'value')
            for s, _ in C.paths(st, C.fn('set_' + f), [o, p]):
                C.expect(s, o, [w if j == i else v for j, v in enumerate(old)], 'setter-of-%s-changes-only-it' % f)
                ch = [e for e in s.trace if e[0] == 'changed']; eng.oblige(s, all(e[1].obj is o.obj and e[2] == f for e in ch), 'setter-notifies-only-its-field', f, assume=False)
                eng.oblige(s, implies(bnot(same(k, old[i], w)), len(ch) == 1), 'change-notified-once', f, assume=False); eng.oblige(s, implies(simpb(equal(k, old[i], w) if k != 'deep' else old[i] == w), not ch), 'no-notification-without-change', f, assume=False)
        for op in ('eq', 'ne'):
            st, x, a = C.any(State(), 'left'); st, y, b = C.any(st, 'right'); want = z3.And([equal(k, u, v) for (f, k), u, v in zip(C.fs, a, b)])
            for s, r in C.paths(st, C.fn(op), [x, y]): r = zb(r) if not z3.is_bv(r) else r == 1; eng.oblige(s, r == (want if op == 'eq' else z3.Not(want)), 'equal-exactly-when-every-field-is' if op == 'eq' else 'unequal-is-not-equal', assume=False)
        if any(k == 'msg' for f, k in C.fs):              # an unset sub-message counts as the default one
            st, x, a = C.any(State(), 'left'); y = C.obj(st, 'fresh'); st, _ = run1(eng, st, C.fn('def'), [y])
            for s, r in C.paths(st, C.fn('eq'), [x, y]): r = zb(r) if not z3.is_bv(r) else r == 1; eng.oblige(s, r == z3.And([equal(k, u, default(k)) for (f, k), u in zip(C.fs, a)]), 'equal-to-a-fresh-message-exactly-when-default', assume=False)
            for op in ('copy', 'asg', 'masg'):
                y = C.obj(st := State(), 'fresh'); st, _ = run1(eng, st, C.fn('def'), [y])
                if op == 'copy': d = C.obj(st, 'target')
                else: st, d, _ = C.any(st, 'target')
                for s, r in C.paths(st, C.fn(op), [d, y]): C.expect(s, d, [default(k) for f, k in C.fs], 'unset-sub-message-is-carried-as-default')
    return go
def g_alias(c):
    """the scriptable alias of an integer field is that field"""
    def go(eng):
        C = Case(eng, c, 'vvalq'); C.start()
        for i, (f, k) in enumerate(C.fs):
            if f not in ALIAS[c]: continue
            st, o, old = C.any(State(), 'object'); r = Ptr(eng.alloc(st, 'r', 8), 0)
            for s, _ in C.paths(st.fork(), C.fn('getp_' + f), [r, o]): eng.oblige(s, eng.load(s, r, 4) == old[i], 'alias-reads-its-field', f, assume=False)
            p, w = val_new(eng, st, k, 'value')
            for s, _ in C.paths(st, C.fn('setp_' + f), [o, p]):
                C.expect(s, o, [w if j == i else v for j, v in enumerate(old)], 'alias-of-%s-changes-only-it' % f); ch = [e for e in s.trace if e[0] == 'changed']
                eng.oblige(s, all(e[1].obj is o.obj and e[2] == f for e in ch), 'alias-notifies-only-its-field', f, assume=False); eng.oblige(s, z3.If(old[i] == w, not ch, len(ch) == 1), 'alias-change-notified-once', f, assume=False)
    return go
NAMES = (': construction, copy, move, assignment', ': getters, setters, comparison')
GOALS = [g for c in CLS for g in (Goal(c + NAMES[0], g_values(c)), Goal(c + NAMES[1], g_fields(c)))] + [Goal('%s: scriptable aliases' % c, g_alias(c)) for c in ALIAS]
QGOALS = [g for c in CLS for g in (Goal(c + ' (QML)' + NAMES[0], g_values(c, 'vvalq')), Goal(c + ' (QML)' + NAMES[1], g_fields(c, 'vvalq')))]
def verify(run):
    d, q = gen(run), gen(run, ':QML'); run.load(('vval', d + '/vval.cpp', FL(d) + ['-fno-access-control']), ('vvalq', q + '/vval.cpp', FL(q) + ['-fno-access-control'])); run.prove(GOALS + (QGOALS if run.tier != 'quick' else []), [])
