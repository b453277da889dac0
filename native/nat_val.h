// Value semantics of one generated class, on random contents.
#include <QObject>
#include <QList>
#include <QMap>
#include <QStringList>
#include <QSharedPointer>
#include <limits>
#include <random>
#include <tuple>
#include <memory>
#include <string>
#include <cstdio>
#include <unistd.h>
static std::mt19937 rng; static unsigned count_ = 0;
static void fail(const std::string &c, const std::string &w) { printf("FAIL %s: %s\n", c.c_str(), w.c_str()); fflush(stdout); _exit(1); }
template<class T, class = void> struct Gen { static T make() { static const qint64 v[] = {0, 0, 1, -1, 2, 127, 128, -128, 65535, 2147483647, -2147483648LL, 9223372036854775807LL, -9223372036854775807LL - 1}; return T(v[rng() % 13]); } static bool eq(const T &a, const T &b) { return a == b; } static T def() { return T(0); } };
template<> struct Gen<bool> { static bool make() { return rng() % 2; } static bool eq(bool a, bool b) { return a == b; } static bool def() { return false; } };
template<class T> struct Gen<T, std::enable_if_t<std::is_enum<T>::value>> { static T make() { static const int v[] = {0, 1, 77}; return static_cast<T>(v[rng() % 3]); } static bool eq(T a, T b) { return a == b; } static T def() { return static_cast<T>(0); } };
template<class T> struct Gen<T, std::enable_if_t<std::is_floating_point<T>::value>> { static T make() { static const T v[] = {0, 1, T(-1.5), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), T(-0.0)}; return v[rng() % 7]; } static bool eq(T a, T b) { return a == b; } static T def() { return 0; } };
template<> struct Gen<QString> { static QString make() { static const char *v[] = {"", "a", "b", "long text \xc3\xa9", "A"}; return QString::fromUtf8(v[rng() % 5]); } static bool eq(const QString &a, const QString &b) { return a == b; } static QString def() { return {}; } };
template<> struct Gen<QByteArray> { static QByteArray make() { return QByteArray("ab\0c", rng() % 5); } static bool eq(const QByteArray &a, const QByteArray &b) { return a == b; } static QByteArray def() { return {}; } };
template<> struct Gen<vg::Leaf> { static vg::Leaf make() { return rng() % 3 ? vg::Leaf(Gen<QtProtobuf::sint64>::make(), Gen<QByteArray>::make()) : vg::Leaf(); } static bool eq(const vg::Leaf &a, const vg::Leaf &b) { return a.z() == b.z() && a.b() == b.b(); } static vg::Leaf def() { return {}; } };
template<> struct Gen<vg::Nest_QtProtobufNested::Inner> { static vg::Nest_QtProtobufNested::Inner make() { return rng() % 3 ? vg::Nest_QtProtobufNested::Inner(Gen<QtProtobuf::sint64>::make(), Gen<QByteArray>::make()) : vg::Nest_QtProtobufNested::Inner(); } static bool eq(const vg::Nest_QtProtobufNested::Inner &a, const vg::Nest_QtProtobufNested::Inner &b) { return a.z() == b.z() && a.b() == b.b(); } static vg::Nest_QtProtobufNested::Inner def() { return {}; } };
template<class T> struct Gen<QSharedPointer<T>> { static QSharedPointer<T> make() { return QSharedPointer<T>(new T(Gen<T>::make())); } static bool eq(const QSharedPointer<T> &a, const QSharedPointer<T> &b) { return a == b || (a && b && Gen<T>::eq(*a, *b)); } };
template<class L, class T> static L mklist() { L l; for (unsigned k = rng() % 4; k; --k) l.append(Gen<T>::make()); return l; }
template<class L> static bool eqlist(const L &a, const L &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!Gen<std::decay_t<decltype(a[i])>>::eq(a[i], b[i])) return false; return true; }
template<class T> struct Gen<QList<T>> { static QList<T> make() { return mklist<QList<T>, T>(); } static bool eq(const QList<T> &a, const QList<T> &b) { return eqlist(a, b); } static QList<T> def() { return {}; } };
template<> struct Gen<QStringList> { static QStringList make() { return mklist<QStringList, QString>(); } static bool eq(const QStringList &a, const QStringList &b) { return eqlist(a, b); } static QStringList def() { return {}; } };
template<class K, class V> struct Gen<QMap<K, V>> { static QMap<K, V> make() { QMap<K, V> m; for (unsigned k = rng() % 4; k; --k) { K key = Gen<K>::make(); m[key] = Gen<V>::make(); } return m; }
    static bool eq(const QMap<K, V> &a, const QMap<K, V> &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (!(i.key() == j.key()) || !Gen<V>::eq(i.value(), j.value())) return false; return true; } static QMap<K, V> def() { return {}; } };
template<class T> static T dup(const T &x) { return x; }
template<class T> static QSharedPointer<T> dup(const QSharedPointer<T> &x) { return x ? QSharedPointer<T>(new T(*x)) : x; }
template<class T> static QList<T> dup(const QList<T> &x) { QList<T> r; for (auto &e : x) r.append(dup(e)); return r; }
template<class K, class V> static QMap<K, V> dup(const QMap<K, V> &x) { QMap<K, V> r; for (auto i = x.begin(); i != x.end(); ++i) r[i.key()] = dup(i.value()); return r; }
template<class C, class T> struct Fd { const char *n; T (*get)(const C &); void (*set)(C &, const T &); void (C::*sig)(); };
template<class C, class... T> struct Check { template<size_t... I> static void check(const char *name, C *(*mk)(const T &...), C *(*mk1)(const std::tuple_element_t<0, std::tuple<T...>> &), std::index_sequence<I...>, Fd<C, T>... fd) {
    using Tup = std::tuple<T...>; constexpr size_t N = sizeof...(T);
    auto any = [] { return Tup(Gen<T>::make()...); }; auto def = Tup(Gen<T>::def()...); auto make = [&](const Tup &v) { return std::unique_ptr<C>(mk(std::get<I>(v)...)); };
    auto expect = [&](const C &o, const Tup &v, const char *what) { (void)std::initializer_list<int>{(Gen<T>::eq(fd.get(o), std::get<I>(v)) ? 0 : (fail(name, std::string(what) + ", field " + fd.n), 0))...}; ++count_; };
    auto eqs = [&](const Tup &a, const Tup &b) { bool r = true; (void)std::initializer_list<int>{(r = r && Gen<T>::eq(std::get<I>(a), std::get<I>(b)), 0)...}; return r; };
    struct Watch { int n[N] = {}; }; auto watch = [&](C *o, Watch &w) { (void)std::initializer_list<int>{(QObject::connect(o, fd.sig, o, [&w] { ++w.n[I]; }), 0)...}; };
    for (int k = 0; k < 60; ++k) {
        Tup v = any(), u = k % 3 ? any() : k % 2 ? v : Tup(dup(std::get<I>(v))...); if (k % 4 == 1) (void)std::initializer_list<int>{(rng() % 2 ? (std::get<I>(u) = k % 8 == 1 ? std::get<I>(v) : dup(std::get<I>(v)), 0) : 0)...};
        { C o; expect(o, def, "default-constructed"); } { auto o = make(v); expect(*o, v, "constructed"); }
        { Tup w = def; std::get<0>(w) = std::get<0>(v); std::unique_ptr<C> o(mk1(std::get<0>(v))); expect(*o, w, "constructed from the first field"); }
        { auto s = make(v); C o(*s); expect(o, v, "copy"); expect(*s, v, "source of a copy"); } { auto s = make(v); C o(std::move(*s)); expect(o, v, "move"); }
        { auto s = make(v), o = make(u); Watch w; watch(o.get(), w); C &r = (*o = *s); expect(*o, v, "assignment"); expect(*s, v, "source of an assignment"); if (&r != o.get()) fail(name, "assignment result"); (void)std::initializer_list<int>{(!Gen<T>::eq(std::get<I>(u), std::get<I>(v)) && !w.n[I] ? (fail(name, std::string("assignment changed a field silently: ") + fd.n), 0) : 0)...}; }
        { auto s = make(v), o = make(u); Watch w; watch(o.get(), w); C &r = (*o = std::move(*s)); expect(*o, v, "move assignment"); if (&r != o.get()) fail(name, "assignment result"); (void)std::initializer_list<int>{(!Gen<T>::eq(std::get<I>(u), std::get<I>(v)) && !w.n[I] ? (fail(name, std::string("move assignment changed a field silently: ") + fd.n), 0) : 0)...}; }
        { auto o = make(v); C &r = *o; *o = r; expect(*o, v, "self-assignment"); } { C s; auto o = make(v); *o = s; expect(*o, def, "assignment of a fresh message"); C c(s); expect(c, def, "copy of a fresh message"); }
        { auto a = make(v), b = make(u); bool w = eqs(v, u); if ((*a == *b) != w || (*a != *b) == w) fail(name, "comparison"); C f; w = eqs(v, def); if ((*a == f) != w || (f == *a) != w || (f != *a) == w) fail(name, "comparison with a fresh message"); ++count_; }
        (void)std::initializer_list<int>{[&] { auto o = make(v); Watch w; watch(o.get(), w); Tup x = v; std::get<I>(x) = std::get<I>(u); fd.set(*o, std::get<I>(u)); expect(*o, x, (std::string("setter of ") + fd.n).c_str()); int all = 0; for (int q : w.n) all += q; bool ch = !Gen<T>::eq(std::get<I>(u), std::get<I>(v)); if (ch && (w.n[I] != 1 || all != 1)) fail(name, std::string("notifications of the setter of ") + fd.n); auto s = fd.get(*o); int b = w.n[I]; fd.set(*o, s); if (w.n[I] != b) fail(name, std::string("notification without a change: ") + fd.n); return 0; }()...};
    }
} };
