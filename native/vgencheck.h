#pragma once
#include <qprotobufserializer.h>
#include <QMetaProperty>
#include <cstdio>
static int fails = 0, checks = 0;
static void fail(const char *m, int n, const char *what, const char *more = "") { if (fails++ < 40) printf("FAIL message %s field %d: %s %s\n", m, n, what, more); }
static int done() { if (fails) return 1; printf("OK %d\n", checks); return 0; }
template<typename M> struct C {
    const char *name;
    C(const char *n, int nf) : name(n) { ++checks; if (int(M::propertyOrdering.size()) != nf) fail(n, 0, "the ordering table does not list every field once"); QSet<int> s; for (auto &p : M::propertyOrdering) { if (s.contains(p.second.qtProperty)) fail(n, p.first, "two field numbers share a property"); s.insert(p.second.qtProperty); } }
    QMetaProperty prop(int num) { auto it = M::propertyOrdering.find(num); return it == M::propertyOrdering.end() ? QMetaProperty() : M::staticMetaObject.property(it->second.qtProperty); }
    template<typename T> void field(int num, const char *, const char *c, int) {
        ++checks; auto p = prop(num); if (!p.isValid()) return fail(name, num, "no property is stored for the field number");
        QByteArray n = p.name(), e(c); if (n != e && n != e + "_p" && n != e + "Data") fail(name, num, "the stored index is another field's property:", p.name());
        if (p.userType() != qMetaTypeId<T>() && QMetaType::type(p.typeName()) != qMetaTypeId<T>()
            && !(p.isEnumType() && QMetaType::type(QByteArray(p.enumerator().scope()) + "::" + p.enumerator().name()) == qMetaTypeId<T>())) fail(name, num, "wrong C++ type:", p.typeName());
    }
    template<typename T> static bool eq(const T &a, const T &b) { return a == b; }
    template<typename T> void same(const T &a, const T &b, int num) { ++checks; if (!eq(a, b)) fail(name, num, "the getter does not return the value of the property"); }
    template<typename T> void value(const M &m, int num, const T &v) { ++checks; auto p = prop(num); if (!p.isValid()) return; if (!eq(p.read(&m).template value<T>(), v)) fail(name, num, "the property does not read what the field's setter stored"); }
    template<typename T> void write(M &m, int num, const T &v) { ++checks; auto p = prop(num); if (!p.isValid()) return; p.write(&m, QVariant::fromValue<T>(v)); }
    static bool vi(const QByteArray &b, int &i, quint64 &v) { v = 0; for (int k = 0; k < 10; ++k) { if (i >= b.size()) return false; quint8 c = b[i++]; v |= quint64(c & 0x7f) << (7 * k); if (!(c & 0x80)) return true; } return false; }
    void wire(M &m, int num, int wt) {
        ++checks; QtProtobuf::QProtobufSerializer s; QByteArray b = m.serialize(&s); int i = 0; bool seen = false;
        while (i < b.size()) {
            quint64 k, l; if (!vi(b, i, k)) return fail(name, num, "malformed output"); int w = int(k & 7), n = int(k >> 3); bool empty = false;
            if (w == 0) { if (!vi(b, i, l)) return fail(name, num, "malformed output"); } else if (w == 1) { empty = b.mid(i, 8) == QByteArray(8, 0); i += 8; } else if (w == 5) { empty = b.mid(i, 4) == QByteArray(4, 0); i += 4; } else if (w == 2) { if (!vi(b, i, l)) return fail(name, num, "malformed output"); i += int(l); empty = l == 0; } else return fail(name, num, "malformed output");
            if (n == num) { seen = true; if (w != wt) fail(name, num, "wrong wire type for the field's type"); }
            else if (!empty && !isMsg(n)) fail(name, num, "an unset field is written, or the field is written under another number");
        }
        if (i != b.size()) fail(name, num, "malformed output"); if (!seen) fail(name, num, "the field is not written under its number");
    }
    bool isMsg(int n) { auto p = prop(n); return p.isValid() && QByteArray(p.typeName()).endsWith('*'); }
};
