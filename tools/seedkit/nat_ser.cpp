// Replay harness for the serializer: reads one JSON command per line, answers one JSON line. Public API only.
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <string>
#include <thread>
#include <atomic>
#include <vector>
#include <QJsonDocument>
#include <QJsonObject>
#include <QJsonArray>
#include <QMetaProperty>
#include <QCoreApplication>
#include "qtprotobuftypes.h"
#include "qprotobufserializer.h"
#include "qprotobufselfcheckiterator.h"
#include "vmsg.qpb.h"
using namespace QtProtobuf;
using It = QProtobufSelfcheckIterator;

static QByteArray unhex(const QJsonValue &v) { return QByteArray::fromHex(v.toString().toLatin1()); }
// ---- scalar <-> json string
template<class T> T sc(const QJsonValue &v) { return T(v.toString().toLongLong()); }
template<> uint64 sc<uint64>(const QJsonValue &v) { return uint64(v.toString().toULongLong()); }
template<> fixed64 sc<fixed64>(const QJsonValue &v) { return fixed64(v.toString().toULongLong()); }
template<> bool sc<bool>(const QJsonValue &v) { return v.toString() != "0"; }
template<> float sc<float>(const QJsonValue &v) { quint32 b = v.toString().toUInt(); float f; memcpy(&f, &b, 4); return f; }
template<> double sc<double>(const QJsonValue &v) { quint64 b = v.toString().toULongLong(); double f; memcpy(&f, &b, 8); return f; }
template<> QString sc<QString>(const QJsonValue &v) { return v.isNull() ? QString() : v.toString().isEmpty() ? QString("") : [](const QByteArray &b) { return QString::fromUtf8(b.constData(), b.size()); }(unhex(v)); }
template<> QByteArray sc<QByteArray>(const QJsonValue &v) { return v.isNull() ? QByteArray() : v.toString().isEmpty() ? QByteArray("") : unhex(v); }
template<class T> struct I { static qint64 g(T v) { return v._t; } };
template<class T> QJsonValue js(const T &v) { return QString::number(qint64(v._t)); }
template<> QJsonValue js<uint32>(const uint32 &v) { return QString::number(quint64(v)); }
template<> QJsonValue js<uint64>(const uint64 &v) { return QString::number(quint64(v)); }
template<> QJsonValue js<sint32>(const sint32 &v) { return QString::number(qint64(v)); }
template<> QJsonValue js<sint64>(const sint64 &v) { return QString::number(qint64(v)); }
template<> QJsonValue js<fixed64>(const fixed64 &v) { return QString::number(quint64(v._t)); }
template<> QJsonValue js<bool>(const bool &v) { return QString(v ? "1" : "0"); }
template<> QJsonValue js<float>(const float &v) { quint32 b; memcpy(&b, &v, 4); return QString::number(b); }
template<> QJsonValue js<double>(const double &v) { quint64 b; memcpy(&b, &v, 8); return QString::number(b); }
template<> QJsonValue js<QString>(const QString &v) { return QString(v.toUtf8().toHex()); }
template<> QJsonValue js<QByteArray>(const QByteArray &v) { return QString(v.toHex()); }
using E = vmsg::All::E;
template<> E sc<E>(const QJsonValue &v) { return E(v.toString().toLongLong()); }
template<> QJsonValue js<E>(const E &v) { return QString::number(qint64(v)); }

struct Codec { std::function<QVariant(const QJsonValue &)> in; std::function<QJsonValue(const QVariant &)> out; };
static QHash<int, Codec> codecs;
static void fill(QObject *o, const QProtobufMetaObject &mo, const QJsonObject &v);
static QJsonObject dump(const QObject *o, const QProtobufMetaObject &mo);
template<class T> void scalar() { codecs[qMetaTypeId<T>()] = { [](const QJsonValue &v) { return QVariant::fromValue<T>(sc<T>(v)); }, [](const QVariant &v) { return js<T>(v.value<T>()); } }; }
template<class T> void list() { codecs[qMetaTypeId<QList<T>>()] = {
    [](const QJsonValue &v) { QList<T> l; for (auto e : v.toArray()) l.append(sc<T>(e)); return QVariant::fromValue<QList<T>>(l); },
    [](const QVariant &v) { QJsonArray a; for (const T &e : v.value<QList<T>>()) a.append(js<T>(e)); return QJsonValue(a); } }; }
template<class K, class V> void map() { codecs[qMetaTypeId<QMap<K, V>>()] = {
    [](const QJsonValue &v) { QMap<K, V> m; for (auto e : v.toArray()) m[sc<K>(e.toArray()[0])] = sc<V>(e.toArray()[1]); return QVariant::fromValue<QMap<K, V>>(m); },
    [](const QVariant &v) { QJsonArray a; auto m = v.value<QMap<K, V>>(); for (auto it = m.begin(); it != m.end(); ++it) { QJsonArray p; p.append(js<K>(it.key())); p.append(js<V>(it.value())); a.append(p); } return QJsonValue(a); } }; }
template<class T> QSharedPointer<T> mk(const QJsonValue &e) { if (e.isNull()) return {}; QSharedPointer<T> p(new T); fill(p.data(), T::protobufMetaObject, e.toObject()); return p; }
template<class T> QJsonValue md(const QSharedPointer<T> &p) { return p ? QJsonValue(dump(p.data(), T::protobufMetaObject)) : QJsonValue(); }
template<class T> void msg() {
    codecs[qMetaTypeId<T *>()] = { [](const QJsonValue &v) { T *t = new T; fill(t, T::protobufMetaObject, v.toObject()); return QVariant::fromValue<T *>(t); },
                                   [](const QVariant &v) { T *t = v.value<T *>(); return t ? QJsonValue(dump(t, T::protobufMetaObject)) : QJsonValue(); } };
    codecs[qMetaTypeId<QList<QSharedPointer<T>>>()] = {
        [](const QJsonValue &v) { QList<QSharedPointer<T>> l; for (auto e : v.toArray()) l.append(mk<T>(e)); return QVariant::fromValue(l); },
        [](const QVariant &v) { QJsonArray a; for (auto &e : v.value<QList<QSharedPointer<T>>>()) a.append(md<T>(e)); return QJsonValue(a); } };
}
template<class K, class T> void mapm() { codecs[qMetaTypeId<QMap<K, QSharedPointer<T>>>()] = {
    [](const QJsonValue &v) { QMap<K, QSharedPointer<T>> m; for (auto e : v.toArray()) m[sc<K>(e.toArray()[0])] = mk<T>(e.toArray()[1]); return QVariant::fromValue(m); },
    [](const QVariant &v) { QJsonArray a; auto m = v.value<QMap<K, QSharedPointer<T>>>(); for (auto it = m.begin(); it != m.end(); ++it) { QJsonArray p; p.append(js<K>(it.key())); p.append(md<T>(it.value())); a.append(p); } return QJsonValue(a); } }; }
static void fill(QObject *o, const QProtobufMetaObject &mo, const QJsonObject &v) {
    for (auto it = v.begin(); it != v.end(); ++it) {
        QMetaProperty p = mo.staticMetaObject.property(mo.propertyOrdering.at(it.key().toInt()));
        p.write(o, codecs[p.userType()].in(it.value()));
    }
}
static QJsonObject dump(const QObject *o, const QProtobufMetaObject &mo) {
    QJsonObject r;
    for (auto &f : mo.propertyOrdering) { QMetaProperty p = mo.staticMetaObject.property(f.second); r[QString::number(f.first)] = codecs[p.userType()].out(p.read(o)); }
    return r;
}
template<class F> QJsonObject guarded(F f) {
    try { return f(); }
    catch (std::out_of_range &) { return {{"exc", "out_of_range"}}; }
    catch (std::invalid_argument &) { return {{"exc", "invalid_argument"}}; }
    catch (std::exception &e) { return {{"exc", "other"}}; }
}
template<class T> QJsonObject runMsg(const QJsonObject &c) {
    const QString op = c["op"].toString();
    QProtobufSerializer s;
    if (op == "ser") { T t; fill(&t, T::protobufMetaObject, c["v"].toObject()); return {{"out", QString(t.serialize(&s).toHex())}}; }
    if (op == "deser") {   // into a message with previous content v
        T t; fill(&t, T::protobufMetaObject, c["v"].toObject());
        QByteArray in = unhex(c["in"]); in.squeeze();
        QJsonObject r = guarded([&]() -> QJsonObject { t.deserialize(&s, in); return {}; });
        if (!c["nodump"].toBool()) r["v"] = dump(&t, T::protobufMetaObject);
        return r;
    }
    if (op == "rt") {  // serialize, decode, compare
        T t; fill(&t, T::protobufMetaObject, c["v"].toObject()); QByteArray b = t.serialize(&s);
        T u; QJsonObject r = guarded([&]() -> QJsonObject { u.deserialize(&s, b); return {}; });
        r["eq"] = (u == t) && !(u != t); r["v"] = dump(&u, T::protobufMetaObject); return r;
    }
    if (op == "eq") { T a, b; fill(&a, T::protobufMetaObject, c["a"].toObject()); fill(&b, T::protobufMetaObject, c["b"].toObject()); return {{"eq", a == b}, {"ne", a != b}}; }
    return {{"err", "op"}};
}
static QJsonObject iter(const QJsonObject &c) {
    QByteArray in = unhex(c["in"]); in.squeeze(); const char *beg = in.constData();
    It a(in), b(in); QJsonArray tr;
    for (auto v : c["ops"].toArray()) {
        QJsonArray o = v.toArray(); QString k = o[0].toString(); int n = int(o[1].toDouble());
        QJsonObject r = guarded([&]() -> QJsonObject {
            if (k == "adv") a += n; else if (k == "back") a -= n; else if (k == "inc") ++a; else if (k == "dec") --a;
            else if (k == "plus") { It x = a + n; return {{"p", double(x.data() - beg)}}; }
            else if (k == "get") return {{"b", int((unsigned char)*a)}};
            else if (k == "copy") { It x(a); b = x; }
            else if (k == "swap") { It x(a); a = b; b = x; }
            else if (k == "cmp") return {{"eq", a == b}, {"ne", a != b}};
            else if (k == "size") return {{"n", a.size()}};
            return {}; });
        r["pos"] = double(a.data() - beg); tr.append(r);
    }
    return {{"tr", tr}};
}
static QByteArray pat(int i, int n) { QByteArray b; for (int k = 0; k < n; ++k) b.append(char(i * 31 + k)); return b; }
static void dummyS(const QAbstractProtobufSerializer *, const QVariant &, const QProtobufMetaProperty &, QByteArray &) {}
static void dummyD(const QAbstractProtobufSerializer *, It &, QVariant &) {}
static QJsonObject registry(const QJsonObject &c) {   // concurrent registrations and look-ups
    std::atomic<bool> bad{false}; std::vector<std::thread> ts; int n = c["n"].toInt();
    for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] {
        for (int i = 0; i < n; ++i) {
            int id = 900000 + t * 100000 + i;
            if (QtProtobufPrivate::findHandler(id).serializer) bad = true;
            QtProtobufPrivate::registerHandler(id, {dummyS, dummyD, i % 2 ? QtProtobufPrivate::ListHandler : QtProtobufPrivate::MapHandler});
            auto h = QtProtobufPrivate::findHandler(id);
            if (!h.serializer || !h.deserializer || h.type != (i % 2 ? QtProtobufPrivate::ListHandler : QtProtobufPrivate::MapHandler)) bad = true;
            QtProtobufPrivate::registerHandler(id, {dummyS, dummyD, QtProtobufPrivate::ObjectHandler});
            if (QtProtobufPrivate::findHandler(id).type != QtProtobufPrivate::ObjectHandler) bad = true;
            if (i) { auto g = QtProtobufPrivate::findHandler(id - 1); if (!g.serializer || g.type != QtProtobufPrivate::ObjectHandler) bad = true; }
        } });
    for (auto &t : ts) t.join();
    return {{"bad", bool(bad)}};
}
int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    QtProtobuf::qRegisterProtobufTypes();
    scalar<int32>(); scalar<int64>(); scalar<uint32>(); scalar<uint64>(); scalar<sint32>(); scalar<sint64>(); scalar<bool>(); scalar<fixed32>(); scalar<sfixed32>(); scalar<float>();
    scalar<fixed64>(); scalar<sfixed64>(); scalar<double>(); scalar<QString>(); scalar<QByteArray>(); scalar<E>();
    list<int32>(); list<int64>(); list<uint32>(); list<uint64>(); list<sint32>(); list<sint64>(); list<fixed32>(); list<sfixed32>(); list<float>(); list<fixed64>(); list<sfixed64>(); list<double>();
    list<QByteArray>(); list<E>();
    codecs[qMetaTypeId<QStringList>()] = { [](const QJsonValue &v) { QStringList l; for (auto e : v.toArray()) l.append(sc<QString>(e)); return QVariant::fromValue(l); },
        [](const QVariant &v) { QJsonArray a; for (auto &e : v.value<QStringList>()) a.append(js<QString>(e)); return QJsonValue(a); } };
    map<int32, QString>(); map<sint32, sint64>(); map<QString, QByteArray>(); map<uint64, double>(); map<int64, uint32>(); map<fixed32, bool>(); map<bool, int32>(); map<int32, E>();
    map<sfixed64, sfixed32>(); map<uint32, float>(); map<fixed64, fixed64>(); mapm<QString, vmsg::Sub>();
    msg<vmsg::Sub>(); msg<vmsg::Leaf>();
    std::string line;
    while (std::getline(std::cin, line)) {
        QJsonObject c = QJsonDocument::fromJson(QByteArray::fromStdString(line)).object(), r;
        QString op = c["op"].toString(), cls = c["cls"].toString();
        if (op == "it") r = iter(c);
        else if (op == "reg") r = registry(c);
        else if (cls == "All") r = runMsg<vmsg::All>(c);
        else if (cls == "Sub") r = runMsg<vmsg::Sub>(c);
        else if (cls == "Leaf") r = runMsg<vmsg::Leaf>(c);
        else if (cls == "Num") r = runMsg<vmsg::Num>(c);
        std::cout << QJsonDocument(r).toJson(QJsonDocument::Compact).toStdString() << std::endl;
    }
}
