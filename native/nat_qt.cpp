// Round trip of random Qt values through their protobuf counterparts: convert(convert(x)) == x, and the same through the
// registered serialization handlers (the wire).  Exit 0 and "OK n", or a FAIL line naming type and value.
#include <QtGui>
#include <QProtobufSerializer>
#include "qtprotobufqttypes.cpp"
#include "qprotobufmetaproperty.h"
#include "qprotobufselfcheckiterator.h"
#include <random>
#include <cstdio>
static std::mt19937_64 R; static long N = 0, BAD = 0;
static quint64 r64() { return R(); }
static int ri() { static const int s[] = {0, 1, -1, 2, 63, 64, -64, -65, 127, 128, 255, 256, 32767, 65536, -65536, 0x3fffffff, -0x40000000}; return r64() % 3 ? int(r64() >> (r64() % 60)) * (r64() & 1 ? 1 : -1) : s[r64() % 17]; }
static int rs() { return ri() / 4; }   // sums stay representable
static double rd() { static const double s[] = {0, -0.0, 1, -1, 0.1, 1e300, -1e300, 5e-324, 1e-7, 1.0/3, 123456789.123456789, 1e9, 2147483648.5}; quint64 b = r64(); double d; if (r64() % 2) return s[r64() % 13]; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 3.5; }
static float rf() { static const float s[] = {0, -0.0f, 1, -1, 0.1f, 1e38f, -1e38f, 1e-45f, 1.0f/3, 16777216}; quint32 b = quint32(r64()); float d; if (r64() % 2) return s[r64() % 10]; memcpy(&d, &b, 4); return std::isfinite(d) ? d : 3.5f; }
template <class T> static QByteArray show(const T &v) { QString s; QDebug(&s) << v; return s.toUtf8(); }
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(const QPointF &a, const QPointF &b) { return a.x() == b.x() && a.y() == b.y(); }
static bool same(const QSizeF &a, const QSizeF &b) { return a.width() == b.width() && a.height() == b.height(); }
static bool same(const QRectF &a, const QRectF &b) { return a.x() == b.x() && a.y() == b.y() && a.width() == b.width() && a.height() == b.height(); }
static bool same(const QPolygonF &a, const QPolygonF &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
static bool same(const QVector2D &a, const QVector2D &b) { return a.x() == b.x() && a.y() == b.y(); }
static bool same(const QVector3D &a, const QVector3D &b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
static bool same(const QVector4D &a, const QVector4D &b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z() && a.w() == b.w(); }
static bool same(const QQuaternion &a, const QQuaternion &b) { return a.scalar() == b.scalar() && same(a.vector(), b.vector()); }
static bool same(const QTransform &a, const QTransform &b) { return a.m11() == b.m11() && a.m12() == b.m12() && a.m13() == b.m13() && a.m21() == b.m21() && a.m22() == b.m22() && a.m23() == b.m23() && a.m31() == b.m31() && a.m32() == b.m32() && a.m33() == b.m33(); }
static bool same(const QMatrix4x4 &a, const QMatrix4x4 &b) { for (int i = 0; i < 16; i++) if (a.constData()[i] != b.constData()[i]) return false; return true; }
static bool same(const QDateTime &a, const QDateTime &b) { return a == b && a.date() == b.date() && a.time() == b.time(); }
static const char *only = nullptr;
template <class Q, class P> static void one(const char *tn, const Q &v) {
    N++;
    P m(QtProtobuf::convert(v)); Q w = QtProtobuf::convert(m);
    if (!same(v, w)) { BAD++; printf("FAIL %s: %s became %s\n", tn, show(v).constData(), show(w).constData()); return; }
    QtProtobuf::QProtobufSerializer ser; QtProtobuf::QProtobufMetaProperty pr(P::staticMetaObject.property(1), 5, "f");
    QByteArray buf; auto h = QtProtobufPrivate::findHandler(qMetaTypeId<Q>());
    if (!h.serializer || !h.deserializer) { BAD++; printf("FAIL %s: no handler registered\n", tn); return; }
    // through the wire, as the message alone
    QByteArray b = ser.serializeMessage(&m, P::protobufMetaObject); P m2; ser.deserializeMessage(&m2, P::protobufMetaObject, b); Q x = QtProtobuf::convert(m2);
    if (!same(v, x)) { BAD++; printf("FAIL %s: %s became %s on the wire\n", tn, show(v).constData(), show(x).constData()); return; }
    h.serializer(&ser, QVariant::fromValue<Q>(v), pr, buf);
    if (buf.isEmpty()) { BAD++; printf("FAIL %s: handler wrote nothing for %s\n", tn, show(v).constData()); return; }
    QByteArray body = buf.mid(1);   // one-byte header for field 5; what remains is length + message
    if (quint8(buf[0]) != (5 << 3 | 2)) { BAD++; printf("FAIL %s: handler wrote header %02x\n", tn, quint8(buf[0])); return; }
    QtProtobuf::QProtobufSelfcheckIterator it(body); QVariant out; h.deserializer(&ser, it, out);
    if (out.userType() != qMetaTypeId<Q>() || !same(v, out.value<Q>())) { BAD++; printf("FAIL %s: %s became %s through its handler\n", tn, show(v).constData(), show(out.value<Q>()).constData()); return; }
}
#define ONE(T, v) do { if (!only || !strcmp(only, #T)) one<::T, QtProtobuf::T>(#T, v); } while (0)
static ::QUrl rurl() {
    static const char *f[] = {"", "http://a.b/c", "https://u:p@h.example:8080/p%20q/%2541/%2Fx?k=v&k2=%26%3D#fr%23ag", "file:///tmp/a b", "mailto:x@y.z", "relative/path?x", "?q", "#f", "http://[::1]:80/", "http://ex\xc3\xa4mple.org/\xc3\xbc?\xe2\x82\xac", "qrc:/a/b", "urn:a:b:c", "//h/p", "/abs", "http://h/%00", "http://h/a%0Ab", "http://h?a+b%2Bc", "data:,A%20brief%20note", "http://h/%e2%82%ac%FF", "ftp://user@h/;type=a"};
    if (r64() % 3 == 0) return ::QUrl(QString::fromUtf8(f[r64() % 20]));
    ::QUrl u; static const char *sch[] = {"http", "https", "ftp", "x-y"}; u.setScheme(sch[r64() % 4]); u.setHost(QString("h%1.org").arg(r64() % 100));
    auto rndstr = [&](bool slash) { QString s; int n = r64() % 12; for (int i = 0; i < n; i++) { static const ushort cs[] = {'a', 'Z', '0', '%', '#', '?', '/', '&', '=', '+', ' ', '@', ':', '"', '<', '[', '|', 0xe9, 0x20ac, 0x4e2d, '~', ';', '\\', '^', '`', '{', 0x7f}; ushort c = cs[r64() % 27]; if (c == '/' && !slash) c = '_'; s += ::QChar(c); } return s; };
    if (r64() % 2) u.setPort(int(r64() % 65536)); if (r64() % 3 == 0) { u.setUserName(rndstr(false), ::QUrl::DecodedMode); if (r64() & 1) u.setPassword(rndstr(false), ::QUrl::DecodedMode); }
    u.setPath("/" + rndstr(false), ::QUrl::DecodedMode); if (r64() & 1) u.setQuery(rndstr(true), ::QUrl::DecodedMode); if (r64() & 1) u.setFragment(rndstr(true), ::QUrl::DecodedMode);
    return u.isValid() && ::QUrl(u.url(::QUrl::FullyEncoded)) == u /* text form exists */ ? u : ::QUrl("http://x/");
}
int main(int c, char **a) {
    R.seed(c > 1 ? atoll(a[1]) : 1); long n = c > 2 ? atol(a[2]) : 1000; if (c > 3) only = a[3];
    QtProtobuf::qRegisterProtobufTypes(); QtProtobuf::qRegisterProtobufQtTypes();
    for (int i = 0; i < 65536; i += (n < 100000 ? 7 : 1)) ONE(QChar, ::QChar(ushort(i)));
    for (int ms = 0; ms < 86400000; ms += (n < 100000 ? 99991 : 997)) ONE(QTime, ::QTime::fromMSecsSinceStartOfDay(ms)); ONE(QTime, ::QTime(23, 59, 59, 999));
    for (long i = 0; i < n && BAD < 20; i++) {
        ONE(QUrl, rurl()); ONE(QChar, ::QChar(ushort(r64()))); { ::QUuid u{uint(r64()), ushort(r64()), ushort(r64()), uchar(r64()), uchar(r64()), uchar(r64()), uchar(r64()), uchar(r64()), uchar(r64()), uchar(r64()), uchar(r64())}; ONE(QUuid, r64() % 20 ? u : ::QUuid()); }
        ::QTime t = ::QTime::fromMSecsSinceStartOfDay(int(r64() % 86400000)); ::QDate d; int y = int(r64() % 3 ? 1 + r64() % 4000 : r64() % 100000) * (r64() % 4 ? 1 : -1); d.setDate(y ? y : 1, 1 + r64() % 12, 1 + r64() % 28); if (r64() % 5 == 0) d = ::QDate(2000 + 4 * int(r64() % 20), 2, 29); if (r64() % 7 == 0) d = ::QDate::fromJulianDay(qint64(r64() % 2000000000) - 500000000);
        ONE(QTime, t); ONE(QDate, d); { ::QDateTime dt(d, t); if (dt.isValid()) ONE(QDateTime, dt); }
        if (r64() % 50 == 0) ONE(QDate, ::QDate());
        ONE(QSize, ::QSize(ri(), ri())); ONE(QSizeF, ::QSizeF(rd(), rd())); ONE(QPoint, ::QPoint(ri(), ri())); ONE(QPointF, ::QPointF(rd(), rd()));
        ONE(QRect, ::QRect(rs(), rs(), rs(), rs())); ONE(QRectF, ::QRectF(rd(), rd(), rd(), rd())); ONE(QSize, ::QSize()); ONE(QRect, ::QRect()); ONE(QRectF, ::QRectF());
        { ::QPolygon p; ::QPolygonF q; int k = r64() % 5; for (int j = 0; j < k; j++) { p << ::QPoint(ri(), ri()); q << ::QPointF(rd(), rd()); } if (i % 8 == 0 && k) { ONE(QPolygon, p); ONE(QPolygonF, q); } else if (k) { if (!same(p, QtProtobuf::convert(QtProtobuf::convert(p)))) { BAD++; printf("FAIL QPolygon %s\n", show(p).constData()); } if (!same(q, QtProtobuf::convert(QtProtobuf::convert(q)))) { BAD++; printf("FAIL QPolygonF %s\n", show(q).constData()); } N += 2; } else { ONE(QPolygon, p); ONE(QPolygonF, q); } }
        ONE(QColor, ::QColor::fromRgba(QRgb(r64()))); ONE(QColor, ::QColor(int(r64() % 256), int(r64() % 256), int(r64() % 256), r64() % 2 ? 255 : int(r64() % 256)));
        ONE(QMatrix4x4, ::QMatrix4x4(rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf(), rf())); { ::QMatrix4x4 m; if (r64() & 1) m.translate(rf(), 1, 2); if (r64() & 1) m.rotate(30, 1, 0, 0); ONE(QMatrix4x4, m); }
        ONE(QVector2D, ::QVector2D(rf(), rf())); ONE(QVector3D, ::QVector3D(rf(), rf(), rf())); ONE(QVector4D, ::QVector4D(rf(), rf(), rf(), rf()));
        ONE(QTransform, ::QTransform(rd(), rd(), rd(), rd(), rd(), rd(), rd(), rd(), rd())); ONE(QTransform, ::QTransform()); ONE(QQuaternion, ::QQuaternion(rf(), rf(), rf(), rf())); ONE(QQuaternion, ::QQuaternion());
        if (i % 40 == 0) { static const ::QImage::Format fs[] = {::QImage::Format_ARGB32, ::QImage::Format_RGB32}; ::QImage im(1 + int(r64() % 9), 1 + int(r64() % 9), fs[r64() % 2]); for (int y2 = 0; y2 < im.height(); y2++) for (int x2 = 0; x2 < im.width(); x2++) im.setPixel(x2, y2, QRgb(r64())); ONE(QImage, im); }
    }
    if (BAD) { printf("FAIL %ld of %ld\n", BAD, N); return 1; }
    printf("OK %ld\n", N); return 0;
}
