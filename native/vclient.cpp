// Helpers over the real client, stream and call reply: field access, calls, and a message type with arbitrary codec results.
#include "qabstractgrpcclient.cpp"
#include "qgrpcstream.cpp"
#include "qgrpccallreply.cpp"
using namespace QtProtobuf; typedef QAbstractGrpcClient C; typedef QAbstractGrpcClientPrivate P;
extern "C" { void v_user_serialize(QByteArray *, const void *, void *); void v_user_deserialize(void *, void *, const QByteArray *); }
struct UMsg : QObject { QByteArray serialize(QAbstractProtobufSerializer *s) const { return *(QByteArray *)ser(s); } void *ser(QAbstractProtobufSerializer *s) const; void deserialize(QAbstractProtobufSerializer *s, const QByteArray &d) { v_user_deserialize(this, s, &d); } };
extern "C" {
void v_c_setup(C *c, P *p) { new (&c->dPtr) std::unique_ptr<P>(p); new (&p->channel) std::shared_ptr<QAbstractGrpcChannel>(); new (&p->activeStreams) std::vector<QGrpcStreamShared>(); }
void *v_c_channel(P *p) { return &p->channel; }
const void *v_c_service(P *p) { return &p->service; }
void *v_c_streams(P *p) { return &p->activeStreams; }
void *v_s_method(QGrpcStream *s) { return &s->m_method; }
void *v_s_arg(QGrpcStream *s) { return &s->m_arg; }
void *v_s_handlers(QGrpcStream *s) { return &s->m_handlers; }
void *v_s_data(QGrpcStream *s) { return &static_cast<QGrpcAsyncOperationBase *>(s)->m_data; }
void v_c_sync(QGrpcStatus *o, C *c, const QString &m, const QByteArray &a, QByteArray &r) { new (o) QGrpcStatus(c->call(m, a, r)); }
void v_c_async(QGrpcCallReplyShared *o, C *c, const QString &m, const QByteArray &a) { new (o) QGrpcCallReplyShared(c->call(m, a)); }
void v_c_stream(QGrpcStreamShared *o, C *c, const QString &m, const QByteArray &a, const StreamHandler &h) { new (o) QGrpcStreamShared(c->stream(m, a, h)); }
void v_c_attach(C *c, const std::shared_ptr<QAbstractGrpcChannel> &ch) { c->attachChannel(ch); }
void v_c_call(QGrpcStatus *o, C *c, const QString &m, const UMsg &a, const QPointer<UMsg> &r) { new (o) QGrpcStatus(c->call(m, a, r)); }
void v_c_callasync(QGrpcCallReplyShared *o, C *c, const QString &m, const UMsg &a) { new (o) QGrpcCallReplyShared(c->call(m, a)); }
void v_c_stream2(QGrpcStreamShared *o, C *c, const QString &m, const UMsg &a, const QPointer<UMsg> &r) { new (o) QGrpcStreamShared(c->stream(m, a, r)); }
void v_c_stream1(QGrpcStreamShared *o, C *c, const QString &m, const UMsg &a) { new (o) QGrpcStreamShared(c->stream(m, a)); }
void v_c_decode(QGrpcStatus *o, C *c, UMsg &r, const QByteArray &d) { new (o) QGrpcStatus(c->tryDeserialize(r, d)); }
void v_s_abort(QGrpcStream *s) { s->QGrpcStream::abort(); }
void v_r_abort(QGrpcCallReply *s) { s->QGrpcCallReply::abort(); }
void v_s_handler(QGrpcStream *s, const QByteArray &d) { s->handler(d); }
void v_s_add(QGrpcStream *s, const StreamHandler &h) { s->addHandler(h); }
bool v_s_eq(const QGrpcStream &a, const QGrpcStream &b) { return a == b; }
void v_ch_sync(QAbstractGrpcChannel *c) { QByteArray r; c->call(QString(), QString(), QByteArray(), r); }
void v_ch_async(QAbstractGrpcChannel *c) { c->call(QString(), QString(), QByteArray(), nullptr); }
void v_ch_stream(QAbstractGrpcChannel *c) { c->stream(nullptr, QString(), nullptr); }
void v_ch_ser(QAbstractGrpcChannel *c) { c->serializer(); }
}
