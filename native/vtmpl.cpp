// Instantiates the header templates of /repo for an opaque message type, an opaque enum and opaque registered handlers.
#include <new>
#include <QVariant>
#include <QMap>
#include <QSharedPointer>
#include "qprotobufserializer.h"
#include "qprotobufserializer_p.h"
#include "qprotobufmetaproperty.h"
#include "qprotobufmetaobject.h"
#include "qprotobuflazymessagepointer.h"
using namespace QtProtobuf;
using It = QProtobufSelfcheckIterator;
class VMsg : public QObject { public:
    static const QMetaObject staticMetaObject; const QMetaObject *metaObject() const override; void *qt_metacast(const char *) override; int qt_metacall(QMetaObject::Call, int, void **) override;
    VMsg(); VMsg(const VMsg &); ~VMsg() override; VMsg &operator=(const VMsg &); bool operator==(const VMsg &) const; bool operator!=(const VMsg &) const;
    static void registerTypes();
    static const QProtobufMetaObject protobufMetaObject;
    enum VE : int { V0 = 0 };
};
inline const QMetaObject *qt_getEnumMetaObject(VMsg::VE) { return &VMsg::staticMetaObject; }
inline const char *qt_getEnumName(VMsg::VE) { return "VE"; }
Q_DECLARE_METATYPE(VMsg::VE)
Q_DECLARE_METATYPE(QList<VMsg::VE>)
Q_DECLARE_METATYPE(QList<QSharedPointer<VMsg>>)
using MII = QMap<QtProtobuf::int32, QtProtobuf::sint64>; using MSB = QMap<QString, QByteArray>; using MSM = QMap<QString, QSharedPointer<VMsg>>;
Q_DECLARE_METATYPE(MII)
Q_DECLARE_METATYPE(MSB)
Q_DECLARE_METATYPE(MSM)
using S = const QAbstractProtobufSerializer *;
extern "C" {
void vh_ser(S, const QVariant &, const QProtobufMetaProperty &, QByteArray &);
void vh_des(S, It &, QVariant &);
void v_reg(int id) { QtProtobufPrivate::registerHandler(id, { vh_ser, vh_des, QtProtobufPrivate::MapHandler }); }
void v_find(void *p, int id) { new (p) QtProtobufPrivate::SerializationHandler(QtProtobufPrivate::findHandler(id)); }
void v_ser_object(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeObject<VMsg>(s, v, m, b); }
void v_des_object(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeObject<VMsg>(s, i, v); }
void v_ser_list(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeList<VMsg>(s, v, m, b); }
void v_des_list(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeList<VMsg>(s, i, v); }
void v_ser_enum(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeEnum<VMsg::VE>(s, v, m, b); }
void v_des_enum(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeEnum<VMsg::VE>(s, i, v); }
void v_ser_enums(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeEnumList<VMsg::VE>(s, v, m, b); }
void v_des_enums(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeEnumList<VMsg::VE>(s, i, v); }
void v_ser_map_ii(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeMap<QtProtobuf::int32, QtProtobuf::sint64>(s, v, m, b); }
void v_des_map_ii(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeMap<QtProtobuf::int32, QtProtobuf::sint64>(s, i, v); }
void v_ser_map_sb(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeMap<QString, QByteArray>(s, v, m, b); }
void v_des_map_sb(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeMap<QString, QByteArray>(s, i, v); }
void v_ser_map_sm(S s, const QVariant &v, const QProtobufMetaProperty &m, QByteArray &b) { QtProtobufPrivate::serializeMap<QString, VMsg>(s, v, m, b); }
void v_des_map_sm(S s, It &i, QVariant &v) { QtProtobufPrivate::deserializeMap<QString, VMsg>(s, i, v); }
void v_deserialize(QAbstractProtobufSerializer *s, VMsg *m, const QByteArray &d) { s->deserialize<VMsg>(m, d); }
void v_serialize(void *r, QAbstractProtobufSerializer *s, const VMsg *m) { new (r) QByteArray(s->serialize<VMsg>(m)); }
void v_register_msg() { qRegisterProtobufType<VMsg>(); }
void v_register_map() { qRegisterProtobufMapType<QtProtobuf::int32, QtProtobuf::sint64>(); }
void v_register_mapm() { qRegisterProtobufMapType<QString, VMsg>(); }
void v_register_enum() { qRegisterProtobufEnumType<VMsg::VE>(); }
int vtm_msgp() { return qMetaTypeId<VMsg *>(); }
void v_ctor_ser(void *p) { new (p) QProtobufSerializer; }
}
