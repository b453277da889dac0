// Helpers over the real HTTP/2 channel: field access and calls of virtual functions (to learn their slots).
#include "qgrpchttp2channel.cpp"
#include "qgrpccredentials.cpp"
using namespace QtProtobuf; typedef QGrpcHttp2ChannelPrivate P;
extern "C" {
void v_abort(QNetworkReply *r) { r->abort(); }
void v_close(QNetworkReply *r) { r->close(); }
void v_creds(QGrpcCredentialMap *o, QAbstractGrpcCredentials *c) { new (o) QGrpcCredentialMap(c->callCredentials()); }
void v_ccreds(QGrpcCredentialMap *o, QAbstractGrpcCredentials *c) { new (o) QGrpcCredentialMap(c->channelCredentials()); }
void v_attach(QGrpcHttp2Channel *c, P *p, QAbstractGrpcCredentials *k) { new (&c->dPtr) std::unique_ptr<P>(p); new (&p->credentials) std::unique_ptr<QAbstractGrpcCredentials>(k); new (&p->activeStreamReplies) decltype(p->activeStreamReplies)(); }
QUrl *v_url(P *p) { return &p->url; }
QSslConfiguration *v_ssl(P *p) { return &p->sslConfig; }
int v_http2attr() { return QNetworkRequest::Http2DirectAttribute; }
int v_contenttype() { return QNetworkRequest::ContentTypeHeader; }
void v_open(QGrpcHttp2Channel *c, const QUrl &u, std::unique_ptr<QAbstractGrpcCredentials> *k) { new (c) QGrpcHttp2Channel(u, std::move(*k)); }
P *v_priv(QGrpcHttp2Channel *c) { return c->dPtr.get(); }
void v_setcred(std::unique_ptr<QAbstractGrpcCredentials> *o, QAbstractGrpcCredentials *k) { new (o) std::unique_ptr<QAbstractGrpcCredentials>(k); }
void *v_getcred(P *p) { return p->credentials.get(); }
void *v_streams(P *p) { return &p->activeStreamReplies; }
void v_sync(QGrpcStatus *o, QGrpcHttp2Channel *c, const QString &m, const QString &s, const QByteArray &a, QByteArray &r) { new (o) QGrpcStatus(c->QGrpcHttp2Channel::call(m, s, a, r)); }
void v_async(QGrpcHttp2Channel *c, const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) { c->QGrpcHttp2Channel::call(m, s, a, r); }
void v_stream(QGrpcHttp2Channel *c, QGrpcStream *st, const QString &s, QAbstractGrpcClient *cl) { c->QGrpcHttp2Channel::stream(st, s, cl); }
const QByteArray *v_data(QGrpcAsyncOperationBase *r) { return &r->m_data; }
QString *v_s_method(QGrpcStream *s) { return &s->m_method; }
QByteArray *v_s_arg(QGrpcStream *s) { return &s->m_arg; }
unsigned long v_sizes(int k) { return k == 0 ? sizeof(QGrpcHttp2Channel) : k == 1 ? sizeof(P) : k == 2 ? sizeof(QGrpcStream) : sizeof(QGrpcCallReply); }
void v_sig(int k, void *o) { if (k == 0) ((QNetworkReply *)o)->finished(); else if (k == 1) ((QGrpcStream *)o)->finished(); else ((QIODevice *)o)->readyRead(); }
}
