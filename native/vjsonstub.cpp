// QProtobufJsonSerializer is left out of this build: its source needs the microjson submodule, which is
// empty here. QProtobufSerializerRegistry constructs one unconditionally, so the symbols have to exist for
// the rest to link and start. Nothing is implemented: any use of it ends the process.
#include "qprotobufjsonserializer.h"

namespace QtProtobuf {
class QProtobufJsonSerializerPrivate {};
}

using namespace QtProtobuf;

#define LEFT_OUT qFatal("%s: the JSON serializer is left out of this build (microjson is missing)", Q_FUNC_INFO)

QProtobufJsonSerializer::QProtobufJsonSerializer() {}
QProtobufJsonSerializer::~QProtobufJsonSerializer() = default;

QByteArray QProtobufJsonSerializer::serializeMessage(const QObject *, const QProtobufMetaObject &) const { LEFT_OUT; }
void QProtobufJsonSerializer::deserializeMessage(QObject *, const QProtobufMetaObject &, const QByteArray &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeObject(const QObject *, const QProtobufMetaObject &, const QProtobufMetaProperty &) const { LEFT_OUT; }
void QProtobufJsonSerializer::deserializeObject(QObject *, const QProtobufMetaObject &, QProtobufSelfcheckIterator &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeListBegin(const QProtobufMetaProperty &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeListObject(const QObject *, const QProtobufMetaObject &, const QProtobufMetaProperty &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeListEnd(QByteArray &, const QProtobufMetaProperty &) const { LEFT_OUT; }
bool QProtobufJsonSerializer::deserializeListObject(QObject *, const QProtobufMetaObject &, QProtobufSelfcheckIterator &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeMapBegin(const QProtobufMetaProperty &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeMapPair(const QVariant &, const QVariant &, const QProtobufMetaProperty &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeMapEnd(QByteArray &, const QProtobufMetaProperty &) const { LEFT_OUT; }
bool QProtobufJsonSerializer::deserializeMapPair(QVariant &, QVariant &, QProtobufSelfcheckIterator &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeEnum(int64, const QMetaEnum &, const QProtobufMetaProperty &) const { LEFT_OUT; }
QByteArray QProtobufJsonSerializer::serializeEnumList(const QList<int64> &, const QMetaEnum &, const QProtobufMetaProperty &) const { LEFT_OUT; }
void QProtobufJsonSerializer::deserializeEnum(int64 &, const QMetaEnum &, QProtobufSelfcheckIterator &) const { LEFT_OUT; }
void QProtobufJsonSerializer::deserializeEnumList(QList<int64> &, const QMetaEnum &, QProtobufSelfcheckIterator &) const { LEFT_OUT; }
