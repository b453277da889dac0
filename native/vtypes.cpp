// Instantiates the header-only parts of /repo that the verifier needs and names the public field types.
#include <new>
#include <QVariant>
#include "qprotobufserializer.h"
#include "qprotobufserializer_p.h"
#include "qprotobufmetaproperty.h"
#include "qprotobufmetaobject.h"
using namespace QtProtobuf;
using It = QProtobufSelfcheckIterator;
#define T(name, type) extern "C" int vt_##name() { return qMetaTypeId<type>(); }
T(float, float) T(double, double) T(int32, QtProtobuf::int32) T(int64, QtProtobuf::int64) T(uint32, QtProtobuf::uint32) T(uint64, QtProtobuf::uint64)
T(sint32, QtProtobuf::sint32) T(sint64, QtProtobuf::sint64) T(fixed32, QtProtobuf::fixed32) T(fixed64, QtProtobuf::fixed64)
T(sfixed32, QtProtobuf::sfixed32) T(sfixed64, QtProtobuf::sfixed64) T(bool, bool) T(string, QString) T(bytes, QByteArray)
T(floatList, QtProtobuf::FloatList) T(doubleList, QtProtobuf::DoubleList) T(int32List, QtProtobuf::int32List) T(int64List, QtProtobuf::int64List)
T(uint32List, QtProtobuf::uint32List) T(uint64List, QtProtobuf::uint64List) T(sint32List, QtProtobuf::sint32List) T(sint64List, QtProtobuf::sint64List)
T(fixed32List, QtProtobuf::fixed32List) T(fixed64List, QtProtobuf::fixed64List) T(sfixed32List, QtProtobuf::sfixed32List) T(sfixed64List, QtProtobuf::sfixed64List)
T(stringList, QStringList) T(bytesList, QByteArrayList)
extern "C" {
void v_it_new(void *p, const QByteArray &b) { new (p) It(b); }
void v_it_copy(void *p, const It &o) { new (p) It(o); }
void v_it_assign(It &a, const It &b) { a = b; }
void v_it_adv(It &i, int n) { i += n; }
void v_it_back(It &i, int n) { i -= n; }
void v_it_plus(void *p, const It &o, int n) { new (p) It(o + n); }
void v_it_inc(It &i) { ++i; }
void v_it_dec(It &i) { --i; }
char v_it_deref(It &i) { return *i; }
const char *v_it_pos(const It &i) { return i.data(); }
bool v_it_eq(const It &a, const It &b) { return a == b; }
bool v_it_ne(const It &a, const It &b) { return a != b; }
int v_it_size(const It &a) { return a.size(); }
int v_it_sizeof() { return sizeof(It); }
int v_mp_sizeof() { return sizeof(QProtobufMetaProperty); }
void v_mp_new(void *p, const QMetaProperty &m, int idx, const QString &s) { new (p) QProtobufMetaProperty(m, idx, s); }
int v_mp_idx(const QProtobufMetaProperty &m) { return m.protoFieldIndex(); }
}
