"""google.protobuf.Timestamp and QDateTime: the conversions that the generator of /repo adds to the generated class."""
from ser import *
import val, gentool, natprog, sernat, os
from val import *
from net import un
SRC = '''#include <new>
#include "google/protobuf/timestamp.qpb.cpp"
using namespace google::protobuf;
extern "C" {
void v_make(Timestamp *o, const QtProtobuf::int64 &s, const QtProtobuf::int32 &n) { new (o) Timestamp(s, n); }
void v_from(Timestamp *o, const QDateTime &d) { new (o) Timestamp(d); }
void v_to(QDateTime *r, const Timestamp &t) { new (r) QDateTime(t); }
long long v_seconds(const Timestamp &t) { return t.seconds(); }
int v_nanos(const Timestamp &t) { return t.nanos(); }
}
'''
FL = lambda d: ['-I' + build.VERIF + '/native/inc', '-I' + d, '-DQT_BUILD_PROTOBUF_LIB']
def gen(run):
    d = os.path.join(build.scratch(), 'tsgen')
    if not os.path.isdir(d):
        inc = next((p for p in ('/usr/include', '/usr/local/include') if os.path.exists(p + '/google/protobuf/timestamp.proto')), '/usr/include')
        rc, err = gentool.generate(['google/protobuf/timestamp.proto'], d, inc, 'SINGLE:QML:FOLDER')
        if rc: raise build.BuildError('generator failed on timestamp.proto: ' + err[-1500:])
        open(d + '/vts.cpp', 'w').write(SRC)
    return d
def native(run):
    d = gen(run); build.moc(d + '/google/protobuf/timestamp.qpb.h', d + '/moc_ts.cpp', FL(d))
    natprog.run_prog(run, 'nat_ts', [build.VERIF + '/native/nat_ts.cpp', d + '/google/protobuf/timestamp.qpb.cpp', d + '/moc_ts.cpp'] + sernat.LIBSRC, FL(d), ('Qt5Core', 'Qt5Qml'), [run.seed, 20000 if run.tier == 'quick' else 2000000], what='random instants through Timestamp')
# ---------------------------------------------------------------- assumed contract of QDateTime: a number of milliseconds since the epoch
MAXMS = 2**62
def install_ts(eng):
    model = eng.model; A = eng.assumptions.add; base = len(eng.models)
    def ms(st, p): return ov(eng, st, p)
    def put(st, p, w): A('QDateTime is an instant in milliseconds since the epoch; conversions to and from it are exact (Qt)'); eng.put_abs(st, un(p), OV(w), 8)
    @model(r'^QDateTime::toMSecsSinceEpoch\(\) const$')
    def _(eng, st, a, c): return ms(st, a[0])
    @model(r'^QDateTime::toSecsSinceEpoch\(\) const$')
    def _(eng, st, a, c): return simp(ms(st, a[0]) / z3.BitVecVal(1000, 64))
    @model(r'^QDateTime::from(MSecs|Secs)SinceEpoch\(long long(, .*)?\)$')
    def _(eng, st, a, c): put(st, a[0], bv(a[1], 64) * (1 if c.m.group(1) == 'MSecs' else 1000))
    @model(r'^QDateTime::add(MSecs|Secs)\(long long\) const$')
    def _(eng, st, a, c): put(st, a[0], ms(st, a[1]) + bv(a[2], 64) * (1 if c.m.group(1) == 'MSecs' else 1000))
    @model(r'^QDateTime::(QDateTime|operator ?=)\(QDateTime( const&|&&)\)$')
    def _(eng, st, a, c): put(st, a[0], ms(st, a[1])); return a[0]
    @model(r'^QDateTime::(toUTC|toLocalTime)\(\) const$')
    def _(eng, st, a, c): put(st, a[0], ms(st, a[1]))
    @model(r'^QDateTime::~QDateTime\(\)$|^QObject::~?QObject\(|^google::protobuf::Timestamp::\w+Changed\(\)$')
    def _(eng, st, a, c): return None
    eng.models[:] = eng.models[base:] + eng.models[:base]
def start(eng):
    eng.mods[:] = [eng.run_ctx.mods['vts']]; install_ts(eng); return State()
QV, RV = z3.BitVec('q', 64), z3.BitVec('r', 64)
def divlemma(st, ms):
    """the defining facts of truncated division by 1000, over fresh names for quotient and remainder"""
    st.assume(z3.And(QV * 1000 + RV == ms, RV > -1000, RV < 1000, z3.Implies(ms >= 0, RV >= 0), z3.Implies(ms <= 0, RV <= 0), QV <= MAXMS // 1000 + 1, QV >= -MAXMS // 1000 - 1))
def named(ms, f):
    """the formula with those names for msecs / 1000 and msecs % 1000"""
    L = z3.BitVecVal(1000, 64); f = simp(f) if z3.is_expr(f) else f
    if not z3.is_expr(f): return f
    for t, v in ((ms / L, QV), (z3.SRem(ms, L), RV)): f = z3.substitute(f, (t, v), (z3.simplify(t), v))
    return f
def instant(eng, st):
    ms = fbv('msecs', 64); eng.inputs['msecs'] = ms; st.assume(z3.And(ms >= -MAXMS, ms <= MAXMS)); divlemma(st, ms); d = Ptr(eng.alloc(st, 'datetime', 8), 0); eng.put_abs(st, d, OV(ms), 8); return d, ms
def paths(eng, st, fn, args):
    for s, r in eng.run(st, cfn(eng, fn), args):
        eng.posts += 1
        if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
        yield s, r[1]
def fields(eng, st, t):
    for s, a in paths(eng, st, 'v_seconds', [t]):
        for s, b in paths(eng, s, 'v_nanos', [t]): yield s, bv(a, 64), bv(b, 32)
W = lambda x: z3.SignExt(128 - x.size(), x)
def g_round(eng):
    st = start(eng); d, ms = instant(eng, st); t = Ptr(eng.alloc(st, 'timestamp', None, 'heap'), 0); r = Ptr(eng.alloc(st, 'back', 8), 0)
    for s, _ in paths(eng, st, 'v_from', [t, d]):
        for s, _ in paths(eng, s, 'v_to', [r, t]): eng.oblige(s, named(ms, ov(eng, s, r)) == ms, 'date-time-comes-back-as-the-same-instant', assume=False)
def g_seconds(eng):
    st = start(eng); d, ms = instant(eng, st); t = Ptr(eng.alloc(st, 'timestamp', None, 'heap'), 0); L = z3.BitVecVal(1000, 64)
    for s, _ in paths(eng, st, 'v_from', [t, d]):
        for s, a, b in fields(eng, s, t): a = named(ms, a); b = named(ms, b); eng.oblige(s, z3.Or(a == QV, a == QV - z3.If(RV < 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))), 'seconds-are-whole-seconds-since-the-epoch', assume=False); eng.oblige(s, z3.Implies(RV == 0, b == 0), 'a-whole-second-has-no-fraction', assume=False)
    st = State(); sec = fbv('seconds', 64); eng.inputs['seconds'] = sec; st.assume(z3.And(sec >= -62135596800, sec <= 253402300799))
    p = Ptr(eng.alloc(st, 's', 8), 0); eng.store(st, p, 8, sec); q = Ptr(eng.alloc(st, 'n', 4), 0); eng.store(st, q, 4, z3.BitVecVal(0, 32)); t = Ptr(eng.alloc(st, 'timestamp', None, 'heap'), 0); r = Ptr(eng.alloc(st, 'back', 8), 0)
    for s, _ in paths(eng, st, 'v_make', [t, p, q]):
        for s, _ in paths(eng, s, 'v_to', [r, t]): eng.oblige(s, ov(eng, s, r) == sec * 1000, 'whole-seconds-are-read-exactly', assume=False)
KEY = 'timestamp-nanos-are-microseconds'
def g_meaning(eng):
    """seconds * 10^9 + nanos is the instant in nanoseconds, with 0 <= nanos < 10^9; the deviation in known-findings.txt is exactly: nanos = (msecs % 1000) * 1000 and back"""
    def want(s, good, known, name):
        g = eng.prove(s, good)[0]; k = None if g == 'proved' else eng.prove(s, known)[0]
        if k == 'proved': eng.notes.append(('finding', KEY, name)); return
        if k == 'unknown': eng.taint(s, 'neither the meaning nor the recorded deviation could be decided')
        eng.oblige(s, good, name, assume=False)
    st = start(eng); d, ms = instant(eng, st); t = Ptr(eng.alloc(st, 'timestamp', None, 'heap'), 0); L = z3.BitVecVal(1000, 64)
    for s, _ in paths(eng, st, 'v_from', [t, d]):
        for s, a, b in fields(eng, s, t): a = named(ms, a); b = named(ms, b); want(s, z3.And(b >= 0, b < 10**9, W(a) * 10**9 + W(b) == W(QV) * 10**9 + W(RV) * 10**6), z3.And(a == QV, z3.SignExt(32, b) == RV * 1000), 'timestamp-denotes-the-instant')
    st = State(); sec = fbv('seconds', 64); n = fbv('nanos', 32); eng.inputs['seconds'] = sec; eng.inputs['nanos'] = n; st.assume(z3.And(sec >= -62135596800, sec <= 253402300799, n >= 0, n < 10**9))
    p = Ptr(eng.alloc(st, 's', 8), 0); eng.store(st, p, 8, sec); q = Ptr(eng.alloc(st, 'n', 4), 0); eng.store(st, q, 4, n); t = Ptr(eng.alloc(st, 'timestamp', None, 'heap'), 0); r = Ptr(eng.alloc(st, 'back', 8), 0)
    for s, _ in paths(eng, st, 'v_make', [t, p, q]):
        for s, _ in paths(eng, s, 'v_to', [r, t]): want(s, ov(eng, s, r) == sec * 1000 + z3.SignExt(32, z3.UDiv(n, z3.BitVecVal(10**6, 32))), ov(eng, s, r) == sec * 1000 + z3.SignExt(32, z3.UDiv(n, z3.BitVecVal(1000, 32))), 'instant-of-a-timestamp')
GOALS = [Goal('a date-time survives the trip through Timestamp', g_round), Goal('whole seconds are exact in both directions', g_seconds), Goal('seconds and nanos have the meaning protobuf gives them', g_meaning)]
def verify(run):
    d = gen(run); run.load(('vts', d + '/vts.cpp', FL(d))); run.prove(GOALS, [])
