// Helpers over the real native gRPC channel: field access and direct calls.
#include "qgrpcchannel.cpp"
using namespace QtProtobuf;
extern "C" {
void v_parse(grpc::Status *o, const grpc::ByteBuffer &b, QByteArray &d) { new (o) grpc::Status(parseByteBuffer(b, d)); }
void v_unparse(const QByteArray &d, grpc::ByteBuffer &b) { parseQByteArray(d, b); }
void v_call_new(QGrpcChannelCall *o, grpc::Channel *c, const QString &m, const QByteArray &a) { new (o) QGrpcChannelCall(c, m, a, nullptr); }
void v_stream_new(QGrpcChannelStream *o, grpc::Channel *c, const QString &m, const QByteArray &a) { new (o) QGrpcChannelStream(c, m, a, nullptr); }
void v_call_del(QGrpcChannelCall *o) { o->QGrpcChannelCall::~QGrpcChannelCall(); }
void v_stream_del(QGrpcChannelStream *o) { o->QGrpcChannelStream::~QGrpcChannelStream(); }
QGrpcStatus *v_call_status(QGrpcChannelCall *o) { return &o->status; }
QByteArray *v_call_response(QGrpcChannelCall *o) { return &o->response; }
QGrpcStatus *v_stream_status(QGrpcChannelStream *o) { return &o->status; }
void v_sync(QGrpcStatus *o, QGrpcChannelPrivate *c, const QString &m, const QString &s, const QByteArray &a, QByteArray &r) { new (o) QGrpcStatus(c->call(m, s, a, r)); }
void v_async(QGrpcChannelPrivate *c, const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) { c->call(m, s, a, r); }
void v_stream(QGrpcChannelPrivate *c, QGrpcStream *st, const QString &s, QAbstractGrpcClient *cl) { c->stream(st, s, cl); }
void v_csync(QGrpcStatus *o, QGrpcChannel *c, const QString &m, const QString &s, const QByteArray &a, QByteArray &r) { new (o) QGrpcStatus(c->QGrpcChannel::call(m, s, a, r)); }
void v_casync(QGrpcChannel *c, const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) { c->QGrpcChannel::call(m, s, a, r); }
void v_cstream(QGrpcChannel *c, QGrpcStream *st, const QString &s, QAbstractGrpcClient *cl) { c->QGrpcChannel::stream(st, s, cl); }
void *v_channel(QGrpcChannelPrivate *p) { return &p->m_channel; }
void *v_dptr(QGrpcChannel *p) { return &p->dPtr; }
const QByteArray *v_data(QGrpcAsyncOperationBase *r) { return &r->m_data; }
QString *v_s_method(QGrpcStream *s) { return &s->m_method; }
QByteArray *v_s_arg(QGrpcStream *s) { return &s->m_arg; }
unsigned long v_sizes(int k) { return k == 0 ? sizeof(QGrpcChannelCall) : k == 1 ? sizeof(QGrpcChannelStream) : k == 2 ? sizeof(grpc::ByteBuffer) : sizeof(grpc::Status); }
}
