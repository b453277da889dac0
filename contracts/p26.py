"""Qt value types and their protobuf counterparts."""
from obj import *
import natprog, gentool, sernat, os
def gen(run):
    d = os.path.join(build.scratch(), 'qtgen')
    if not os.path.isdir(d):
        rc, err = gentool.generate(['QtProtobuf/QtCore.proto', 'QtProtobuf/QtGui.proto'], d, build.REPO + '/src/qttypes', 'SINGLE:QML:FOLDER')
        if rc: raise build.BuildError('generator failed on the Qt types: ' + err[-1500:])
        for h in ('QtCore', 'QtGui'): build.moc('%s/QtProtobuf/%s.qpb.h' % (d, h), '%s/moc_%s.cpp' % (d, h), FL(d))
    return d
FL = lambda d: ['-I' + build.VERIF + '/native/inc', '-I' + build.VERIF + '/native/gen', '-I' + d, '-I%s/src/qttypes' % build.REPO, '-DQT_GUI_LIB', '-DQT_BUILD_PROTOBUF_LIB', '-DQT_BUILD_PROTOBUF_QT_TYPES_LIB']
def native(run):
    d = gen(run); mocs = [d + '/moc_QtCore.cpp', d + '/moc_QtGui.cpp']
    natprog.run_prog(run, 'nat_qt', [build.VERIF + '/native/nat_qt.cpp', d + '/QtProtobuf/QtCore.qpb.cpp', d + '/QtProtobuf/QtGui.qpb.cpp'] + mocs + sernat.LIBSRC, FL(d), ('Qt5Core', 'Qt5Qml', 'Qt5Gui'), [run.seed, 600 if run.tier == 'quick' else 200000], dict(QT_QPA_PLATFORM='offscreen', TZ='Europe/Berlin'), timeout=240 if run.tier == 'quick' else 1500, what='random values of every supported Qt type, converted, sent over the wire and through the registered handlers')
# ------------------------------------------------------------------ assumed contracts of Qt
YR = z3.Function('QDate_year', B(64), B(32)); MO = z3.Function('QDate_month', B(64), B(32)); DY = z3.Function('QDate_day', B(64), B(32)); JD = z3.Function('QDate_of', B(32), B(32), B(32), B(64))
NULLDATE = -0x8000000000000000 & (2**64 - 1)
def install_qt(eng):
    model = eng.model; A = eng.assumptions.add
    @model(r'^QObject::QObject\(QObject\*\)$|^QObject::~QObject\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QtProtobuf::\w+::\w+Changed\(\)$')           # signals: nobody is connected to a message that lives only inside a conversion
    def _(eng, st, a, c): return None
    @model(r'^QMetaObject::Connection::Connection\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, NULL)
    @model(r'^QMetaObject::Connection::~Connection\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QObject::disconnect\(QMetaObject::Connection const&\)$')
    def _(eng, st, a, c): return False
    @model(r'^QQmlEngine::objectOwnership\(QObject\*\)$')
    def _(eng, st, a, c): return 0
    # ---- text forms
    @model(r'^QUrl::QUrl\(QString const&, QUrl::ParsingMode\)$')
    def _(eng, st, a, c):
        r = eng.get_abs(st, a[1], Str, 'url text').rope; mode = a[2]
        if isint(mode) and mode == 0 and len(r.ps) == 1 and isinstance(r.ps[0], Sl) and z3.is_app(r.ps[0].arr) and r.ps[0].arr.decl().name() in ('URL_text', 'URL_encoded'): v = r.ps[0].arr.arg(0)
        elif isint(mode) and mode == 1 and len(r.ps) == 1 and isinstance(r.ps[0], Sl) and z3.is_app(r.ps[0].arr) and r.ps[0].arr.decl().name() == 'URL_encoded': v = r.ps[0].arr.arg(0)
        else: eng.taint(st, 'QUrl parsing of a text form without an assumed contract'); v = fbv('otherurl', 64)
        eng.put_abs(st, a[0], Term('url', v), 8)
    @model(r'^QUrl::(url|toString)\(')
    def _(eng, st, a, c):
        u = eng.get_abs(st, a[1], Term, 'url'); o = a[2]; o = o if isint(o) else eng.conc(st, o)
        A('QUrl: parsing (tolerant mode) the pretty-decoded or fully encoded text of a URL that has a text form yields an equal URL (Qt)')
        if o in (0, 0x1f00000): eng.put_abs(st, a[0], Str(txt(st, 'URL_text' if o == 0 else 'URL_encoded', u.args[0])), 8)
        else: eng.taint(st, 'QUrl formatting options %r without an assumed contract' % (o,)); eng.put_abs(st, a[0], Str(txt(st, 'URL_other', u.args[0])), 8)
    @model(r'^QUrl::toEncoded\(')
    def _(eng, st, a, c): raise Unsupported(c.dem)
    @model(r'^QUrl::~QUrl\(\)$|^QDateTime::~QDateTime\(\)$|^QImage::~QImage\(\)$|^QBuffer::~QBuffer\(\)$|^QDataStream::~QDataStream\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QUuid::QUuid\(QString const&\)$')
    def _(eng, st, a, c):
        r = eng.get_abs(st, a[1], Str, 'uuid text').rope; x = r.ps[0] if len(r.ps) == 1 else None
        if isinstance(x, Sl) and z3.is_app(x.arr) and x.arr.decl().name() == 'UUID_text':
            for k in range(2): eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8*k)), 8, x.arr.arg(k))
        else:
            eng.taint(st, 'QUuid parsing of a text form without an assumed contract')
            for k in range(2): eng.store(st, Ptr(a[0].obj, add64(a[0].off, 8*k)), 8, fbv('otheruuid', 64))
    @model(r'^QUuid::toString\((QUuid::StringFormat)?\) const$')
    def _(eng, st, a, c):
        A('QUuid: parsing the text of a UUID (with or without braces) yields the same UUID (Qt)'); w = [bv(eng.load(st, Ptr(a[1].obj, add64(a[1].off, 8*k)), 8), 64) for k in range(2)]
        m = a[2] if len(a) > 2 else 0; m = m if isint(m) else eng.conc(st, m)
        if m not in (0, 1): eng.taint(st, 'QUuid string format without an assumed contract')
        f = z3.Function('UUID_text' if m in (0, 1) else 'UUID_other', B(64), B(64), ArrS); n = fbv('uuidlen', 64); st.assume(z3.ULE(n, 64)); eng.put_abs(st, a[0], Str(Rope([Sl(f(*w), 0, n)])), 8)
    # ---- QColor: (rgba) -> colour
    @model(r'^QColor::fromRgba\(unsigned int\)$')
    def _(eng, st, a, c): A('QColor: rgba() of the colour made by fromRgba(v) is v, and equal rgba gives an equal colour for 8-bit RGB colours (Qt)'); eng.put_abs(st, a[0], Term('color', bv(a[1], 32)), 16)
    @model(r'^QColor::fromRgb\(unsigned int\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Term('color', simp(bv(a[1], 32) | 0xff000000)), 16)
    @model(r'^QColor::QColor\(unsigned int\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Term('color', simp(bv(a[1], 32) | 0xff000000)), 16)
    @model(r'^QColor::(rgba|rgb)\(\) const$')
    def _(eng, st, a, c): v = eng.get_abs(st, a[0], Term, 'colour').args[0]; return v if c.m.group(1) == 'rgba' else simp(v | 0xff000000)
    # ---- calendar
    @model(r'^QDate::(year|month|day)\(\) const$')
    def _(eng, st, a, c):
        A('QDate: QDate(d.year(), d.month(), d.day()) == d for every valid date, and the null date has components 0 (Qt)')
        j = bv(eng.load(st, a[0], 8), 64); st.assume(z3.If(j == NULLDATE, z3.And(YR(j) == 0, MO(j) == 0, DY(j) == 0), z3.And(MO(j) != 0, DY(j) != 0))); st.assume(JD(YR(j), MO(j), DY(j)) == j); return simp({'year': YR, 'month': MO, 'day': DY}[c.m.group(1)](j))
    @model(r'^QDate::QDate\(int, int, int\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, simp(JD(bv(a[1], 32), bv(a[2], 32), bv(a[3], 32))))
    @model(r'^QDateTime::QDateTime\(QDate const&, QTime const&, Qt::TimeSpec\)$')
    def _(eng, st, a, c):
        A('QDateTime: a local date-time is determined by its date and time, which date() and time() return (Qt)')
        j = bv(eng.load(st, a[1], 8), 64); t = bv(eng.load(st, a[2], 4), 32); sp = a[3] if isint(a[3]) else eng.conc(st, a[3]); eng.put_abs(st, a[0], Term('datetime', j, t, z3.BitVecVal(sp, 32)), 8)
    @model(r'^QDateTime::(date|time)\(\) const$')
    def _(eng, st, a, c): v = eng.get_abs(st, a[0], Term, 'date-time'); return v.args[0 if c.m.group(1) == 'date' else 1]
    # ---- QTransform
    @model(r'^QTransform::QTransform\((double(, )?){9}\)$')
    def _(eng, st, a, c):
        A('QTransform(h11..h33) stores its nine arguments as m11..m33 (Qt)')
        for k, off in enumerate((0, 8, 48, 16, 24, 56, 32, 40, 64)): eng.store(st, Ptr(a[0].obj, add64(a[0].off, off)), 8, a[1 + k])
        eng.store(st, Ptr(a[0].obj, add64(a[0].off, 72)), 2, 0); eng.store(st, Ptr(a[0].obj, add64(a[0].off, 80)), 8, NULL)
    # ---- QDataStream of one character
    @model(r'^QDataStream::QDataStream\(QByteArray\*, QFlags<QIODevice::OpenModeFlag>\)$')
    def _(eng, st, a, c): A('QDataStream writes and reads a QChar as its 16-bit code, most significant byte first (Qt)'); eng.put_abs(st, a[0], Term('ws', a[1]), 8)
    @model(r'^QDataStream::QDataStream\(QByteArray const&\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Term('rs', st.mem[eng.get_abs(st, a[1], BA, 'data').buf]['rope'], 0), 8)
    @model(r'^QDataStream::setByteOrder\(|^QDataStream::setVersion\(')
    def _(eng, st, a, c): raise Unsupported(c.dem)
    @model(r'^operator<<\(QDataStream&, QChar\)$')
    def _(eng, st, a, c):
        p = eng.get_abs(st, a[0], Term, 'stream').args[0]; v = bv(a[1], 16); old = st.mem[eng.get_abs(st, p, BA, 'target').buf]['rope']
        eng.put_abs(st, p, BA(eng.new_buf(st, old + Rope([Lit([simp(z3.Extract(15, 8, v)), simp(z3.Extract(7, 0, v))])]), 'ba')), 8); return a[0]
    @model(r'^operator>>\(QDataStream&, QChar&\)$')
    def _(eng, st, a, c):
        t = eng.get_abs(st, a[0], Term, 'stream'); r, k = t.args; eng.put_abs(st, a[0], Term('rs', r, k + 2), 8); n = r.len()
        s2 = st.fork(); st.assume(z3.ULE(k + 2, B64(n))); s2.assume(z3.UGT(k + 2, B64(n))); eng.store(s2, a[1], 2, 0); out = []
        if eng.check(st)[0] != 'unsat': eng.store(st, a[1], 2, simp(z3.Concat(bv(r.at(k), 8), bv(r.at(k + 1), 8)))); out.append((st, ('ret', a[0])))
        if eng.check(s2)[0] != 'unsat': out.append((s2, ('ret', a[0])))
        return out
    # ---- QImage and QBuffer
    @model(r'^QBuffer::QBuffer\(QByteArray\*, QObject\*\)$')
    def _(eng, st, a, c): eng.put_abs(st, a[0], Term('buffer', a[1], 0), 8)
    @model(r'^QBuffer::open\(')
    def _(eng, st, a, c): v = eng.get_abs(st, a[0], Term, 'buffer'); m = a[1] if isint(a[1]) else eng.conc(st, a[1]); eng.put_abs(st, a[0], Term('buffer', v.args[0], m), 8); return True
    def fmt(eng, st, p):
        p = p.p if isinstance(p, PInt) else p
        if isint(p) and p == 0 or p.obj is None: return b''
        if p.obj.kind == 'buf':
            r = st.mem[p.obj]['rope']; n = simp(r.len())
            if isint(n) and n < 16 and all(isint(r.at(k)) for k in range(n)): return bytes(r.at(k) for k in range(n))
            raise Unsupported('image format text')
        return bytes(Q.cstr(eng, st, p))
    @model(r'^QImage::save\(QIODevice\*, char const\*, int\) const$')
    def _(eng, st, a, c):
        A('QImage: an image written as PNG and read back as PNG (or with the format detected) is equal, for images a PNG file can hold (Qt)')
        im = eng.get_abs(st, a[0], Term, 'image'); b = eng.get_abs(st, a[1], Term, 'buffer'); f = fmt(eng, st, a[2]).upper()
        if not b.args[1] & 2: return False
        name = 'PNG_of' if f == b'PNG' else 'OTHER_' + f.decode('latin1'); r = txt(st, name, im.args[0]); eng.put_abs(st, b.args[0], BA(eng.new_buf(st, r, 'ba')), 8); return True
    @model(r'^QImage::fromData\(unsigned char const\*, int, char const\*\)$')
    def _(eng, st, a, c):
        p = a[1]; r = st.mem[p.obj]['rope'] if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'buf' else Rope(); x = r.ps[0] if len(r.ps) == 1 else None; f = fmt(eng, st, a[3]).upper()
        if isinstance(x, Sl) and z3.is_app(x.arr) and x.arr.decl().name().startswith(('PNG_of', 'OTHER_')):
            eng.oblige(st, band(eqv(p.off, 0), eqv(B64(x.off), 0), simpb(z3.Extract(31, 0, B64(x.n)) == bv(a[2], 32))), 'the-whole-image-file-is-read')
            good = x.arr.decl().name() == 'PNG_of' and f in (b'PNG', b''); v = x.arr.arg(0) if good else fbv('otherimage', 64)
            if not good and x.arr.decl().name() != 'PNG_of': eng.taint(st, 'image format without an assumed contract')
        else: eng.taint(st, 'image data of unknown origin'); v = fbv('otherimage', 64)
        eng.put_abs(st, a[0], Term('image', v), 32)
def txt(st, name, v):
    f = z3.Function(name, B(64), ArrS); g = z3.Function(name + '_len', B(64), B(64)); n = g(v); st.assume(z3.ULT(n, 1 << 24)); return Rope([Sl(f(v), 0, n)])
# ------------------------------------------------------------------ goals
def trip(eng, T, build_in, post, sz):
    install_map(eng); install_qt(eng); st = State(); i = Ptr(eng.alloc(st, 'value', sz), 0); o = Ptr(eng.alloc(st, 'result', sz), 0); build_in(eng, st, i); st.trace = ()
    for s, r in eng.run(st, cfn(eng, 'v_rt_' + T), [o, i]):
        eng.posts += 1
        if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
        post(eng, s, i, o)
def words(T, n, w, fp=False, pre=None, sz=None):
    """the value is n words of w bits"""
    def bi(eng, st, i):
        vs = []
        for k in range(n): v = fbv('v%d' % k, w); eng.inputs['word %d' % k] = v; vs.append(v); eng.store(st, Ptr(i.obj, k*w//8), w//8, v)
        if pre: pre(eng, st, vs)
        eng._vs = vs
    def po(eng, s, i, o):
        for k in range(n):
            g = bv(eng.load(s, Ptr(o.obj, k*w//8), w//8), w); v = eng._vs[k]; F = z3.Float32() if w == 32 else z3.Float64()
            e = z3.Or(g == v, z3.fpEQ(z3.fpBVToFP(g, F), z3.fpBVToFP(v, F)), z3.And(z3.fpIsNaN(z3.fpBVToFP(g, F)), z3.fpIsNaN(z3.fpBVToFP(v, F)))) if fp else g == v
            eng.oblige(s, e, 'equal-value', 'word %d' % k, assume=False)
    return Goal('%s: every value' % T, lambda eng: trip(eng, T, bi, po, sz or n*w//8))
def opaque(T, op, sz, mk, pre=None):
    def bi(eng, st, i): vs = mk(eng); eng._vs = vs; eng.put_abs(st, i, Term(op, *vs), sz); pre and pre(eng, st, vs)
    def po(eng, s, i, o):
        v = s.mem[o.obj].get(0); v = v[1] if v else None
        if not (isinstance(v, Term) and v.op == op): raise Unsupported('%s result %r' % (T, v))
        eng.oblige(s, band(*[eqv(x, y, y.size()) for x, y in zip(v.args, eng._vs)]), 'equal-value', assume=False)
    return Goal('%s: every value' % T, lambda eng: trip(eng, T, bi, po, sz))
def one_in(name, w=64):
    def mk(eng): v = fbv(name, w); eng.inputs[name] = v; return [v]
    return mk
def dt_in(eng):
    j, t = fbv('julianday', 64), fbv('msec', 32); eng.inputs.update(julianday=j, msec=t); return [j, t, z3.BitVecVal(0, 32)]
def ms_ok(eng, st, vs): st.assume(z3.ULT(vs[-1] if len(vs) == 1 else vs[1], 86400000))
def rect_ok(eng, st, vs):           # x1 y1 x2 y2: width and height representable
    for a, b in ((vs[0], vs[2]), (vs[1], vs[3])):
        d = z3.SignExt(2, b) - z3.SignExt(2, a) + 1; st.assume(z3.And(d >= -(1 << 31), d < (1 << 31)))
GOALS = [words('QSize', 2, 32), words('QPoint', 2, 32), words('QSizeF', 2, 64, True), words('QPointF', 2, 64, True), words('QRect', 4, 32, pre=rect_ok), words('QRectF', 4, 64, True),
         words('QVector2D', 2, 32, True), words('QVector3D', 3, 32, True), words('QVector4D', 4, 32, True), words('QMatrix4x4', 16, 32, True, sz=68), words('QTransform', 9, 64, True, sz=88), words('QQuaternion', 4, 32, True),
         words('QUuid', 2, 64), words('QChar', 1, 16), words('QTime', 1, 32, pre=ms_ok), words('QDate', 1, 64),
         opaque('QUrl', 'url', 8, one_in('url')), opaque('QColor', 'color', 16, one_in('rgba', 32)), opaque('QDateTime', 'datetime', 8, dt_in, ms_ok), opaque('QImage', 'image', 32, one_in('image'))]
# ------------------------------------------------------------------ polygons
PXY = {w: [z3.Function('POINT_%s%d' % (c, w), B(64), B(w)) for c in 'xy'] for w in (32, 64)}
class VI:
    """buffer of a vector of points"""
    def __init__(s, lst, n, w): s.lst = lst; s.n = n; s.w = w; s.stride = w // 4
    def read(s, eng, st, off, n):
        off = B64(off); i = simp(z3.UDiv(off, z3.BitVecVal(s.stride, 64))) if not isint(simp(off)) else simp(off) // s.stride; r = simp(z3.URem(off, z3.BitVecVal(s.stride, 64)))
        if not isint(r):
            for k in (0, s.w // 8):
                if eng.prove(st, off == B64(i)*s.stride + k)[0] == 'proved': r = k
        if not isint(r): raise Unsupported('unaligned read of a point')
        eng.oblige(st, z3.ULT(B64(i), B64(s.n)), 'read-in-bounds', 'point of the vector'); e = Q.seq_at(eng, st, s.lst, i); b = s.w // 8
        if n == b and r in (0, b): return e[r // b]
        if r == 0 and n == 2*b: return simp(z3.Concat(bv(e[1], s.w), bv(e[0], s.w)))
        raise Unsupported('read of part of a point')
def install_poly(eng):
    model = eng.model; W = lambda c: 32 if c.m.group(1) == 'QPoint' else 64; V = r'^QVector<(QPointF?)>::'
    def g(eng, st, p):
        v = eng.get_abs(st, p, Lst, 'vector'); return v
    def rd(eng, st, p, w): return tuple(eng.load(st, Ptr(p.obj, simp(add64(p.off, k*w//8))), w//8) for k in range(2))
    def buf(st, l, w):
        if l.obj is None: l.obj = eng.alloc(st, 'points', None, 'vec'); l.obj.info = VI(l, l.len(), w)
        return l.obj
    @model(V + r'QVector\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, Lst((), c.m.group(1)))
    @model(V + r'QVector\(QVector<QPointF?>( const&|&&)\)$')
    def _(eng, st, a, c):
        eng.store(st, a[0], 8, g(eng, st, a[1]))
        if c.dem.endswith('&&)'): eng.store(st, a[1], 8, Lst((), c.m.group(1)))
    @model(V + r'~QVector\(\)$')
    def _(eng, st, a, c): return None
    @model(V + r'(reserve|squeeze|detach)\(')
    def _(eng, st, a, c): return None
    @model(V + r'(append|push_back|operator<<|operator\+=)\(QPointF?( const&|&&)\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, g(eng, st, a[0]).append(rd(eng, st, a[1], W(c)))); return a[0]
    @model(V + r'(prepend|push_front)\(QPointF?( const&|&&)\)$')
    def _(eng, st, a, c): l = g(eng, st, a[0]); eng.store(st, a[0], 8, Lst(((rd(eng, st, a[1], W(c)),),) + l.segs, l.tn))
    @model(V + r'(size|count|length)\(\) const$')
    def _(eng, st, a, c): n = simp(g(eng, st, a[0]).len()); return n if isint(n) else simp(z3.Extract(31, 0, n))
    @model(V + r'(isEmpty|empty)\(\) const$')
    def _(eng, st, a, c): return eqv(g(eng, st, a[0]).len(), 0)
    @model(V + r'(at|operator\[\])\(int\)( const)?$')
    def _(eng, st, a, c): l = g(eng, st, a[0]); i = simp(z3.SignExt(32, bv(a[1], 32))); return Ptr(buf(st, l, W(c)), simp(B64(i) * (W(c)//4)))
    @model(V + r'(begin|cbegin|constBegin|end|cend|constEnd|data|constData)\(\)( const)?$')
    def _(eng, st, a, c):
        l = g(eng, st, a[0]); w = W(c); return Ptr(buf(st, l, w), simp(B64(l.len())*(w//4)) if 'nd' in c.m.group(2) else 0)
def point_template(eng, T, w):
    """cells of a message point holding (x, y), as its own constructor writes them -> make(st, x, y)"""
    st = State(); x, y = fbv('tx', w), fbv('ty', w); o = eng.alloc(st, 'point', None, 'heap'); fn = [f for f in fns(eng, r'^QtProtobuf::%s::%s\((int|double), (int|double), QObject\*\)$' % (T, T))]
    st, _ = run1(eng, st, fn[0], [Ptr(o, 0), x, y, NULL]); cells = dict(st.mem[o])
    def mk(st, vx, vy):
        q = eng.alloc(st, 'point', None, 'heap')
        for k, v in cells.items(): st.mem[q][k] = (v[0], vx if z3.is_expr(v[1]) and v[1].eq(x) else vy if z3.is_expr(v[1]) and v[1].eq(y) else v[1]) if isint(k) else v
        return Ptr(q, 0)
    if not (any(z3.is_expr(v[1]) and v[1].eq(x) for k, v in cells.items() if isint(k)) and any(z3.is_expr(v[1]) and v[1].eq(y) for k, v in cells.items() if isint(k))): raise Unsupported('message point keeps its coordinates elsewhere')
    at = {c: [k for k, v in cells.items() if isint(k) and z3.is_expr(v[1]) and v[1].eq(q)][0] for c, q in (('x', x), ('y', y))}
    return mk, at
def fns(eng, rx): return [m.fns[n] for m in eng.mods for n in m.fns if re.search(rx, m.dem(n))]
def feq(a, b, w):
    if w == 32: return bv(a, 32) == bv(b, 32)
    F = z3.Float64(); fa, fb = z3.fpBVToFP(bv(a, w), F), z3.fpBVToFP(bv(b, w), F); return z3.Or(bv(a, w) == bv(b, w), z3.fpEQ(fa, fb), z3.And(z3.fpIsNaN(fa), z3.fpIsNaN(fb)))
class PolyCut(EncCut):
    name = 'points'
    def __init__(s, w, at, n): s.w = w; s.at = at; s.n = n
    def invariant(self, ctx, entry=False): return [('at most as many points as the source has', z3.ULE(B64(ctx.i), B64(self.n)))]
    def wants(self, eng, fn, blk, kinds): return 'lst' in kinds or 'vec' in kinds or 'list' in kinds
    def var_value(self, ctx, cell, old):
        if isinstance(old, (Ptr, SP)): return old
        raise Unsupported('loop modifies %r' % (old,))
    def lst_step(self, ctx, cell, tail):
        eng, s, w = ctx.eng, ctx.st, self.w; eng.oblige(s, len(tail) == 1, 'loop-step', 'exactly one point per point', assume=False)
        if len(tail) != 1: return
        e = tail[0]
        if isinstance(e, SP):
            eng.oblige(s, e.null is False, 'loop-step', 'a message for every point', assume=False)
            for k, c in enumerate('xy'): eng.oblige(s, feq(eng.load(s, Ptr(e.p.obj, simp(add64(e.p.off, self.at[c]))), w//8), PXY[w][k](B64(ctx.i0)), w), 'loop-step', 'point i keeps its %s' % c, assume=False)
        elif isinstance(e, tuple):
            for k, c in enumerate('xy'): eng.oblige(s, feq(e[k], PXY[w][k](B64(ctx.i0)), w), 'loop-step', 'point i keeps its %s' % c, assume=False)
        else: raise Unsupported('polygon element %r' % (e,))
def g_poly(T, fwd):
    w = 64 if T == 'QPolygonF' else 32; P = 'QPointF' if w == 64 else 'QPoint'
    def go(eng):
        install_map(eng); install_qt(eng); install_poly(eng); mk, at = point_template(eng, P, w); st = State(); n = fbv('count', 64); st.assume(z3.ULT(n, (1 << 31) - 1)); eng.inputs['count'] = n
        val = lambda i: tuple(simp(f(B64(i))) for f in PXY[w])
        if fwd:
            i = Ptr(eng.alloc(st, 'polygon', 8), 0); eng.store(st, i, 8, Lst((SymSeg(('points', P), n, val),), P)); fn = fns(eng, r'^QtProtobuf::convert\(%s const&\)$' % T)[0]
        else:
            i = Ptr(eng.alloc(st, 'message', None), 0); c = fns(eng, r'^QtProtobuf::%s::%s\(QObject\*\)$' % (T, T))[0]; st, _ = run1(eng, st, c, [i, NULL]); k = [k for k, v in st.mem[i.obj].items() if isint(k) and isinstance(v[1], Lst)]
            if len(k) != 1: raise Unsupported('message polygon layout')
            eng.store(st, Ptr(i.obj, k[0]), 8, Lst((SymSeg(('messages', P), n, None, lambda e, s, j: SP(mk(s, *val(j)), False)),), 'QSharedPointer<QtProtobuf::%s>' % P)); fn = fns(eng, r'^QtProtobuf::convert\(QtProtobuf::%s const&\)$' % T)[0]
        o = Ptr(eng.alloc(st, 'result', None), 0); st.trace = ()
        for s, r in with_cuts(eng, [PolyCut(w, at, n)], lambda: list(eng.run(st.fork(), fn, [o, i]))):
            eng.posts += 1
            if r[0] != 'ret': eng.fail(s, 'no-exception', str(r[1])); continue
            ls = [v[1] for k, v in s.mem[o.obj].items() if isint(k) and isinstance(v[1], Lst)]
            if len(ls) != 1: raise Unsupported('result %r' % (s.mem[o.obj],))
            l = ls[0]; eng.oblige(s, eqv(l.len(), n), 'same-number-of-points', assume=False)
            if l.segs and not (len(l.segs) == 1 and isinstance(l.segs[0], SymSeg) and str(l.segs[0].name[0]).startswith('points')): raise Unsupported('result list %r' % (l,))
    return Goal('%s: %s, every number of points' % (T, 'to the message' if fwd else 'from the message'), go)
GOALS += [g_poly(T, f) for T in ('QPolygon', 'QPolygonF') for f in (True, False)]
def verify(run):
    d = gen(run); run.load(('vqt', build.VERIF + '/native/vqt.cpp', FL(d) + ['-fno-access-control'])); run.prove(GOALS)
