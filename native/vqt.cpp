// The real conversions between Qt values and their protobuf counterparts, with the message classes generated from /repo.
#include <new>
#include "qtprotobufqttypes.cpp"
#include "QtProtobuf/QtCore.qpb.cpp"
#include "QtProtobuf/QtGui.qpb.cpp"
#include "moc_QtCore.cpp"
#include "moc_QtGui.cpp"
#define RT(T) void v_rt_##T(::T *o, const ::T &i) { QtProtobuf::T m(QtProtobuf::convert(i)); new (o) ::T(QtProtobuf::convert(m)); }
extern "C" {
RT(QUrl) RT(QChar) RT(QUuid) RT(QColor) RT(QTime) RT(QDate) RT(QDateTime) RT(QSize) RT(QSizeF) RT(QPoint) RT(QPointF) RT(QRect) RT(QRectF) RT(QPolygon) RT(QPolygonF)
RT(QMatrix4x4) RT(QVector2D) RT(QVector3D) RT(QVector4D) RT(QTransform) RT(QQuaternion) RT(QImage)
}
