// Instantiates QProtobufLazyMessagePointer and repeatedValueCompare for an opaque message class.
#ifdef V_NOQML
#undef QT_QML_LIB
#endif
#include <new>
#include <QMap>
#include <QSharedPointer>
#include <QObject>
#include "qtprotobuftypes.h"
#include "qprotobuflazymessagepointer.h"
class VMsg : public QObject { public:
    static const QMetaObject staticMetaObject; const QMetaObject *metaObject() const override; void *qt_metacast(const char *) override; int qt_metacall(QMetaObject::Call, int, void **) override;
    VMsg(); VMsg(const VMsg &); ~VMsg() override; VMsg &operator=(const VMsg &); bool operator==(const VMsg &) const; bool operator!=(const VMsg &) const;
};
using L = QProtobufLazyMessagePointer<VMsg>; using SP = QSharedPointer<VMsg>;
extern "C" {
bool v_cmp_list(const QList<SP> &a, const QList<SP> &b) { return QtProtobuf::repeatedValueCompare(a, b); }
bool v_cmp_map(const QMap<QString, SP> &a, const QMap<QString, SP> &b) { return QtProtobuf::repeatedValueCompare(a, b); }
bool v_cmp_mapi(const QMap<QtProtobuf::int32, SP> &a, const QMap<QtProtobuf::int32, SP> &b) { return QtProtobuf::repeatedValueCompare(a, b); }
bool v_cmp_mapv(const QMap<QtProtobuf::int32, QString> &a, const QMap<QtProtobuf::int32, QString> &b) { return QtProtobuf::repeatedValueCompare(a, b); }
void v_lz_new(void *p, VMsg *m) { new (p) L(m); }
void v_lz_none(void *p) { new (p) L; }
void v_lz_move(void *p, L *o) { new (p) L(std::move(*o)); }
void v_lz_del(L *p) { p->~L(); }
VMsg *v_lz_deref(const L *p) { return &**p; }
VMsg *v_lz_arrow(const L *p) { return p->operator->(); }
VMsg *v_lz_get(const L *p) { return p->get(); }
bool v_lz_eq(const L *a, const L *b) { return *a == *b; }
bool v_lz_ne(const L *a, const L *b) { return *a != *b; }
void v_lz_reset(const L *p, VMsg *m) { p->reset(m); }
L *v_lz_assign(L *p, L *o) { return &(*p = std::move(*o)); }
bool v_lz_bool(const L *p) { return bool(*p); }
}
