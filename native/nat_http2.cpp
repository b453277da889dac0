#include "vfakenet.h"
std::vector<FakeReply *> FakeReply::alive; std::function<void(FakeReply *)> FakeNAM::onRequest;
#define QNetworkAccessManager FakeNAM
#include "qgrpchttp2channel.cpp"
#undef QNetworkAccessManager
#include "qgrpcinsecurecredentials.h"
#include "qgrpcuserpasswordcredentials.h"
#include "qgrpcsslcredentials.h"
#include <unistd.h>
#include <random>
#include <map>
using namespace QtProtobuf; using NE = QNetworkReply::NetworkError;
struct Creds : QAbstractGrpcCredentials { QGrpcCredentialMap m; QGrpcCredentialMap callCredentials() override { return m; } QGrpcCredentialMap channelCredentials() override { return {}; } };
struct Client : QAbstractGrpcClient { Client() : QAbstractGrpcClient("svc") {} };
static std::mt19937 rng; static std::string ctx; static unsigned count_ = 0;
static void fail(const std::string &w) { printf("FAIL %s: %s\n", w.c_str(), ctx.c_str()); fflush(stdout); _exit(1); }
static QByteArray rnd(int n) { QByteArray b(n, 0); for (auto &c : b) c = char(rng()); return b; }
static int len() { static const int L[] = {0, 1, 2, 4, 5, 6, 11, 127, 128, 255, 256, 257, 1000, 4095, 65535, 65536, 65537, 200000}; return rng() % 4 ? L[rng() % 18] : rng() % 300; }
static QByteArray frame(const QByteArray &p) { QByteArray b; b.append('\0'); quint32 n = p.size(); b.append(char(n >> 24)).append(char(n >> 16)).append(char(n >> 8)).append(char(n)); return b + p; }
static FakeReply *last() { return FakeReply::alive.empty() ? nullptr : FakeReply::alive.back(); }
static void spin() { QCoreApplication::sendPostedEvents(nullptr, 0); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QCoreApplication::processEvents(); }
static std::unique_ptr<QGrpcHttp2Channel> chan(bool creds = false) { std::unique_ptr<Creds> c(new Creds); if (creds) { c->m.insert(QLatin1String("user-name"), QVariant("alice")); c->m.insert(QLatin1String("x-long"), QVariant(QString(300, 'q'))); } return std::unique_ptr<QGrpcHttp2Channel>(new QGrpcHttp2Channel(QUrl("http://h.example:99"), std::move(c))); }
static void reqok(FakeReply *r, const QString &s, const QString &m, const QByteArray &a) {
    if (!r) fail("no request was made"); if (r->sent != frame(a)) fail("request body is not the framed payload, prefix " + r->sent.left(8).toHex().toStdString());
    if (r->url_.path() != "/" + s + "/" + m) fail("request path " + r->url_.path().toStdString()); if (r->url_.host() != "h.example" || r->url_.port() != 99) fail("request host"); }
static const std::map<int, int> MAP = {{1,14},{2,14},{3,14},{4,4},{5,14},{6,7},{7,2},{8,14},{9,2},{10,14},{11,7},{99,2},{101,14},{102,14},{103,14},{104,4},{105,16},{199,2},{201,7},{202,7},{203,5},{204,7},{205,15},{206,3},{207,15},{299,2},{301,2},{302,12},{399,2},{401,13},{402,12},{403,14},{499,2}};
static void p19(unsigned n) {
    static const int BIG[] = {(1 << 20) + 1, (1 << 22) + 7, (1 << 24) - 1, 1 << 24, (1 << 24) + 3, (1 << 26) + 5}; static const char *SN[] = {"qtprotobuf.tests.Svc", "S", " padded. Name ", "a.b_c.Very0Long", "MiXed/Case"}; static const char *MN[] = {"doIt", "testMethod2", "X", " m", "UPPER_lower"};
    for (unsigned k = 0; k < n + 18; ++k) {
        auto c = chan(k % 3 == 0); QString s = SN[rng() % 5], m = MN[rng() % 5]; QByteArray a = k < n ? rnd(len()) : QByteArray(BIG[(k - n) / 3], 'x'); ctx = "payload of " + std::to_string(a.size()) + " bytes, kind " + std::to_string(k % 3); Client cl; FakeReply::alive.clear(); FakeNAM::onRequest = nullptr;
        if (k % 3 == 0) { FakeNAM::onRequest = [](FakeReply *r) { QTimer::singleShot(0, r, [r] { r->finish(QNetworkReply::NoError, 0, ""); }); }; QByteArray ret; c->call(m, s, a, ret); reqok(last(), s, m, a); }
        else if (k % 3 == 1) { QGrpcCallReply rep(&cl); c->call(m, s, a, &rep); reqok(last(), s, m, a); if (FakeReply::alive.size() != 1) fail("requests made"); delete last(); }
        else { QGrpcStream st(m, a, {}, &cl); c->stream(&st, s, &cl); reqok(last(), s, m, a); if (FakeReply::alive.size() != 1) fail("requests made"); delete last(); }
        ++count_;
    }
}
static void p20one(int e, int status, const QByteArray &body, const QByteArray &msg, int kind, bool sync, bool hdr) {
    auto c = chan(); Client cl; FakeReply::alive.clear(); QByteArray wire = frame(body); int want = e ? MAP.at(e) : hdr ? status : 0; QByteArray data = want == 0 ? body : QByteArray();
    ctx = "network error " + std::to_string(e) + " status " + std::to_string(status) + " body " + std::to_string(body.size()) + (sync ? " sync" : " async") + " kind " + std::to_string(kind) + " message '" + msg.toStdString() + "'";
    auto play = [=](FakeReply *r) { r->buf = wire; r->finish(NE(e), status, msg, hdr); };
    if (sync) {
        FakeNAM::onRequest = [=](FakeReply *r) { if (kind == 1) play(r); else QTimer::singleShot(0, r, [=] { play(r); }); };
        QByteArray ret = "previous content"; QGrpcStatus st = c->call("m", "s", "arg", ret);
        if (st.code() != want) fail("status " + std::to_string(st.code()) + " expected " + std::to_string(want)); if (ret != data) fail("returned " + std::to_string(ret.size()) + " bytes: " + ret.left(16).toHex().toStdString()); if (st.message() != QString::fromUtf8(msg)) fail("status message");
    } else {
        FakeNAM::onRequest = nullptr; QGrpcCallReply *rep = new QGrpcCallReply(&cl); int fin = 0, err = 0; QGrpcStatus got(QGrpcStatus::Unknown);
        QObject::connect(rep, &QGrpcCallReply::finished, [&] { ++fin; }); QObject::connect(rep, &QGrpcCallReply::error, [&](const QGrpcStatus &s) { ++err; got = s; });
        rep->setData("previous content"); c->call("m", "s", "arg", rep); FakeReply *r = last(); if (fin || err) fail("outcome before the reply");
        if (kind == 2) { rep->abort(); if (fin || err != 1 || got.code() != QGrpcStatus::Aborted || !rep->m_data.isEmpty()) fail("abort"); r = last(); if (r) play(r); if (fin || err != 1) fail("outcome after abort"); spin(); if (last()) fail("aborted reply kept"); }
        else { play(r); if (fin + err != 1) fail("outcomes " + std::to_string(fin + err)); if (want == 0 ? fin != 1 : (got.code() != want || got.message() != QString::fromUtf8(msg))) fail("outcome is not the reported one, got status " + std::to_string(got.code())); if (rep->m_data != data) fail("reply data " + std::to_string(rep->m_data.size())); if (r) emit r->finished(); spin(); if (fin + err != 1) fail("outcome delivered twice"); if (last()) fail("finished reply kept"); }
        delete rep; if (last()) delete last(); }
    ++count_;
}
static void p20(unsigned n) {
    for (auto &p : MAP) for (int kind = 0; kind < 3; ++kind) for (int sync = 0; sync < 2; ++sync) for (int st : {0, 5}) p20one(p.first, st, "body", kind ? "" : "text", kind, sync && kind < 2, true);
    for (int st = 0; st < 18; ++st) for (int kind = 0; kind < 3; ++kind) for (int sync = 0; sync < 2; ++sync) for (int l : {0, 1, 5, 300}) p20one(0, st, rnd(l), kind == 1 ? "" : "server says \xc3\xa9", kind, sync && kind < 2, true);
    for (int kind = 0; kind < 2; ++kind) for (int sync = 0; sync < 2; ++sync) p20one(0, 0, "xyz", "", kind, sync, false);
    for (unsigned k = 0; k < n; ++k) p20one(0, 0, rnd(len()), "", rng() % 2, rng() % 2, true);
}
static void p21(unsigned n) {
    for (unsigned k = 0; k < n; ++k) {
        auto c = chan(); Client cl; FakeReply::alive.clear(); FakeNAM::onRequest = nullptr; std::vector<QByteArray> got, got2; int seen = 0, fin = 0, err = 0;
        std::vector<QGrpcStream *> sts; std::vector<FakeReply *> rs; std::vector<std::vector<QByteArray>> outs(2); int ns = 1 + (k % 4 == 0);
        for (int i = 0; i < ns; ++i) { auto *st = new QGrpcStream("m", QByteArray::number(i), [i, &outs](const QByteArray &b) { outs[i].push_back(b); }, &cl); QObject::connect(st, &QGrpcStream::finished, [&] { ++fin; }); QObject::connect(st, &QGrpcStream::error, [&] { ++err; }); c->stream(st, "s", &cl); sts.push_back(st); rs.push_back(last()); }
        std::vector<std::vector<QByteArray>> msgs(ns); std::vector<QByteArray> wire(ns); std::vector<std::vector<int>> ends(ns); std::vector<int> pos(ns, 0);
        for (int i = 0; i < ns; ++i) { int cnt = rng() % 5; for (int j = 0; j < cnt; ++j) { msgs[i].push_back(rnd(rng() % 3 ? rng() % 12 : len() % 70000)); wire[i] += frame(msgs[i].back()); ends[i].push_back(wire[i].size()); } if (rng() % 3 == 0) wire[i] += frame(rnd(20)).left(1 + rng() % 24); else if (rng() % 4 == 0) { static const char *H[] = {"7fffffff", "80000000", "ffffffff", "fffffffb", "fffffffa", "7ffffffb", "01000000", "80000003"}; wire[i] += QByteArray(1, 0) + QByteArray::fromHex(H[rng() % 8]) + rnd(rng() % 40); } }
        if (k % 500 == 3) { msgs[0].push_back(QByteArray((1 << 24) + 9, 'z')); ends[0].clear(); wire[0].clear(); for (auto &m : msgs[0]) { wire[0] += frame(m); ends[0].push_back(wire[0].size()); } }
        ctx = "seed " + std::to_string(k); for (auto e : ends[0]) ctx += " end" + std::to_string(e); ctx += " chunks:";
        int mode = rng() % 4;
        for (bool more = true; more;) { more = false;
            for (int i = 0; i < ns; ++i) { int left = wire[i].size() - pos[i]; if (!left) continue; more = true; int m = mode == 0 ? 1 : mode == 1 ? 1 + rng() % 7 : mode == 2 ? 1 + rng() % (left) : left; if (wire[i].size() > 5000 && m < 500) m = 500 + rng() % 5000; if (wire[i].size() > 1000000) m = 1000000 + rng() % 9000000; m = qMin(m, left); if (ctx.size() < 900) ctx += " " + std::to_string(m);
                rs[i]->feed(wire[i].mid(pos[i], m)); pos[i] += m; size_t want = 0; for (auto e : ends[i]) want += e <= pos[i];
                if (outs[i].size() != want) fail("delivered " + std::to_string(outs[i].size()) + " messages, expected " + std::to_string(want) + " after " + std::to_string(pos[i]) + " bytes");
                if (rng() % 5 == 0) rs[i]->feed(QByteArray());
                for (size_t j = 0; j < want; ++j) if (outs[i][j] != msgs[i][j]) fail("message " + std::to_string(j) + " differs"); } }
        if (fin || err) fail("stream ended early"); for (int i = 0; i < ns; ++i) { size_t w = outs[i].size(); rs[i]->finish(QNetworkReply::NoError, 0, ""); if (outs[i].size() != w) fail("message after the end"); } if (fin != ns || err) fail("stream end not reported once"); spin();
        for (auto s : sts) delete s; ++count_;
    }
}
static void p29one(int closes, int e, int status, int how, bool data, bool hdr) {
    auto c = chan(); std::unique_ptr<Client> cl(new Client); FakeReply::alive.clear(); FakeNAM::onRequest = nullptr; std::vector<QByteArray> out; int fin = 0, err = 0; QGrpcStatus got(QGrpcStatus::Ok);
    ctx = std::to_string(closes) + " times closed by the remote host, then " + (how == 0 ? "network error " + std::to_string(e) + " status " + std::to_string(status) : how == 1 ? "cancelled" : how == 2 ? "client destroyed" : "stream destroyed") + (data ? ", data between" : "") + (hdr ? "" : ", no status header");
    QPointer<QGrpcStream> st(new QGrpcStream("meth", "argument", [&](const QByteArray &b) { out.push_back(b); }, nullptr)); QObject::connect(st.data(), &QGrpcStream::finished, [&] { ++fin; }); QObject::connect(st.data(), &QGrpcStream::error, [&](const QGrpcStatus &x) { ++err; got = x; });
    c->stream(st, "svc", cl.get()); QPointer<FakeReply> r(last()); reqok(r, "svc", "meth", "argument"); size_t reqs = 1, want = 0;
    for (int i = 0; i < closes; ++i) { if (data) { r->feed(frame("one")); r->feed(frame("partial").left(7)); ++want; } QPointer<FakeReply> old = r; r->finish(QNetworkReply::RemoteHostClosedError, -1, ""); if (fin || err) fail("re-opening is not silent"); if (FakeReply::alive.size() != ++reqs) fail("requests " + std::to_string(FakeReply::alive.size()) + " expected " + std::to_string(reqs)); r = last(); reqok(r, "svc", "meth", "argument"); if (old) { old->buf = frame("stale"); emit old->readyRead(); } spin(); if (old) fail("closed reply kept"); if (FakeReply::alive.size() != reqs || fin || err) fail("late effect of the closed reply"); }
    if (data) { r->feed(frame("two")); ++want; r->feed(frame("rest").left(6)); } if (out.size() != want) fail("delivered " + std::to_string(out.size()) + " expected " + std::to_string(want));
    if (how == 0) { int w = e ? MAP.at(e) : hdr ? status : 0; r->finish(NE(e), status, "why", hdr); if (FakeReply::alive.size() != reqs) fail("re-opened after the end"); if (fin + err != 1) fail("outcomes " + std::to_string(fin + err)); if (w == 0 ? fin != 1 : got.code() != w) fail("outcome is not the reported one: " + std::to_string(got.code())); if (!e && w && got.message() != "why") fail("message of the server"); }
    else if (how == 1) { st->abort(); if (fin != 1 || err) fail("cancelling: outcomes"); } else if (how == 2) { cl.reset(); if (fin || err) fail("outcome of a destroyed client"); } else { delete st.data(); }
    if (how && r && how != 3) { if (r->isRunning()) fail("reply still running"); }
    int f0 = fin, e0 = err; if (r) { r->buf = frame("late"); emit r->readyRead(); if (how && r->isRunning()) r->finish(QNetworkReply::RemoteHostClosedError, -1, ""); }
    if (FakeReply::alive.size() != reqs) fail("re-opened after the end"); if (out.size() != want) fail("message after the end"); if (fin != f0 || err != e0) fail("outcome after the end");
    if (how == 0 && st) { emit st->finished(); if (FakeReply::alive.size() != reqs) fail("re-opened"); } spin(); if (r && how != 3) fail("ended reply kept"); if (r) delete r.data(); delete st.data(); ++count_; }
static void p29(unsigned n) {
    for (int cl = 0; cl < 3; ++cl) for (int d = 0; d < 2; ++d) { for (auto &p : MAP) if (p.first != 2) p29one(cl, p.first, 0, 0, d, true); for (int s = 0; s < 18; ++s) p29one(cl, 0, s, 0, d, true); p29one(cl, 0, 0, 0, d, false); for (int h = 1; h < 4; ++h) p29one(cl, 0, 0, h, d, true); }
    for (unsigned k = 0; k < n; ++k) p29one(rng() % 9, 0, rng() % 17, rng() % 4, rng() % 2, true); }
// P32: headers, credentials, SSL configuration
struct Creds2 : QAbstractGrpcCredentials { QGrpcCredentialMap &m, &ch; int *asked; Creds2(QGrpcCredentialMap &a, QGrpcCredentialMap &b, int *n) : m(a), ch(b), asked(n) {} QGrpcCredentialMap callCredentials() override { ++*asked; return m; } QGrpcCredentialMap channelCredentials() override { return ch; } };
static void hdrs(FakeReply *r, const QGrpcCredentialMap &m, const QSslConfiguration &ssl) {
    if (!r) fail("no request"); auto &q = r->req_;
    if (q.header(QNetworkRequest::ContentTypeHeader).toByteArray() != "application/grpc") fail("content type " + q.header(QNetworkRequest::ContentTypeHeader).toByteArray().toStdString());
    if (q.rawHeader("te") != "trailers") fail("te header is '" + q.rawHeader("te").toStdString() + "'"); if (q.attribute(QNetworkRequest::Http2DirectAttribute) != QVariant(true)) fail("HTTP/2 direct attribute");
    if (q.sslConfiguration() != ssl) fail("SSL configuration of the request");
    for (auto i = m.begin(); i != m.end(); ++i) { QByteArray n(i.key().data(), i.key().size()); if (!q.hasRawHeader(n)) fail("no header for the credential " + n.toStdString()); if (q.rawHeader(n) != i.value().toString().toUtf8()) fail("header " + n.toStdString() + " is '" + q.rawHeader(n).toStdString() + "'"); }
}
static QSslConfiguration sslcfg(int k) { QSslConfiguration c = k % 2 ? QSslConfiguration() : QSslConfiguration::defaultConfiguration(); c.setProtocol(k % 3 ? QSsl::TlsV1_2 : QSsl::AnyProtocol); c.setPeerVerifyDepth(3 + k % 5); c.setPeerVerifyMode(k % 2 ? QSslSocket::VerifyNone : QSslSocket::VerifyPeer); return c; }
static void calls(QGrpcHttp2Channel *c, Client &cl, int kind, const QGrpcCredentialMap &m, const QSslConfiguration &ssl) {
    FakeReply::alive.clear(); FakeNAM::onRequest = nullptr;
    if (kind == 0) { FakeNAM::onRequest = [](FakeReply *r) { QTimer::singleShot(0, r, [r] { r->finish(QNetworkReply::NoError, 0, ""); }); }; QByteArray ret; c->call("m", "s", "arg", ret); hdrs(last(), m, ssl); FakeNAM::onRequest = nullptr; spin(); }
    else if (kind == 1) { QGrpcCallReply rep(&cl); c->call("m", "s", "arg", &rep); hdrs(last(), m, ssl); delete last(); }
    else { QGrpcStream st("m", "arg", [](const QByteArray &) {}, &cl); c->stream(&st, "s", &cl); hdrs(last(), m, ssl); FakeReply *r = last(); if (kind == 3) { r->finish(QNetworkReply::RemoteHostClosedError, -1, ""); if (last() == r || FakeReply::alive.size() != 2) fail("not re-opened"); hdrs(last(), m, ssl); } for (auto *p : std::vector<FakeReply *>(FakeReply::alive)) delete p; }
    ++count_; }
static void p32(unsigned n) {
    static const char *KN[] = {"user-name", "user-password", "authorization", "x-long-key-with-many-parts", "k", "Token-Bin", "x1", "x2", "x3", "x4", "x5", "x6"};
    auto val = [](int k) -> QVariant { switch (k % 8) { case 0: return "alice"; case 1: return QString::fromUtf8("p\xc3\xa4ss \xe2\x82\xac \xf0\x9f\x98\x80"); case 2: return 42; case 3: return QByteArray("raw bytes"); case 4: return true; case 5: return QString(5000, 'q'); case 6: return -7.5; default: return QString(" x "); } };
    for (unsigned k = 0; k < n; ++k) {
        QGrpcCredentialMap m, ch; int asked = 0; bool https = k % 3 == 1, has = k % 5 != 2; QSslConfiguration cfg = sslcfg(k); if (has) ch.insert(QLatin1String(SslConfigCredential), QVariant::fromValue(cfg)); if (k % 4 == 1) ch.insert(QLatin1String("other"), "x");
        ctx = std::string(https ? "https" : "http") + (has ? " with" : " without") + " SSL configuration, run " + std::to_string(k);
        const char *U = https ? "https://h.example:99" : k % 3 == 2 ? "http://h.example:99" : "//h.example:99"; std::unique_ptr<QGrpcHttp2Channel> c; bool thrown = false;
        try { c.reset(new QGrpcHttp2Channel(QUrl(U), std::unique_ptr<QAbstractGrpcCredentials>(new Creds2(m, ch, &asked)))); } catch (const std::invalid_argument &) { thrown = true; }
        if (thrown != (https && !has)) fail(thrown ? "channel rejected" : "https channel without SSL configuration"); if (thrown) { ++count_; continue; }
        Client cl; for (int call = 0; call < 6; ++call) { int a0 = asked;
            if (rng() % 2) m.clear(); int cnt = rng() % 7; for (int j = 0; j < cnt; ++j) m.insert(QLatin1String(KN[rng() % 12]), val(rng()));
            ctx = "call " + std::to_string(call) + " with " + std::to_string(m.size()) + " credentials, run " + std::to_string(k); int kind = call % 4; FakeReply::alive.clear(); calls(c.get(), cl, kind, m, https ? cfg : QSslConfiguration()); if (asked == a0) fail("credentials not asked for the call"); }
    }
    { ctx = "user and password credentials"; for (int k = 0; k < 4; ++k) { QString u = k & 1 ? "bob" : QString::fromUtf8("j\xc3\xbcrgen"), w = k & 2 ? "secret" : "p w"; auto c = std::make_unique<QGrpcHttp2Channel>(QUrl("https://h.example:99"), QGrpcSslCredentials(sslcfg(k)) | QGrpcUserPasswordCredentials<>(u, w)); auto c2 = std::make_unique<QGrpcHttp2Channel>(QUrl("http://h.example:99"), QGrpcUserPasswordCredentials<>(u, w) | QGrpcInsecureChannelCredentials());
        QGrpcCredentialMap m{{QLatin1String("user-name"), u}, {QLatin1String("user-password"), w}}; Client cl; for (int kind = 0; kind < 4; ++kind) { calls(c.get(), cl, kind, m, sslcfg(k)); calls(c2.get(), cl, kind, m, QSslConfiguration()); } } }
    { ctx = "no scheme"; QGrpcHttp2Channel c(QUrl("//h.example:99"), QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials()); Client cl; FakeReply::alive.clear(); QGrpcCallReply rep(&cl); c.call("m", "s", "a", &rep); if (last()->url_.scheme() != "http") fail("scheme " + last()->url_.scheme().toStdString()); delete last(); }
}
int main(int argc, char **argv) { QCoreApplication app(argc, argv); std::string w = argv[1]; rng.seed(strtoul(argv[2], 0, 10)); unsigned n = strtoul(argv[3], 0, 10);
    if (w == "P19") p19(n); else if (w == "P20") p20(n); else if (w == "P29") p29(n); else if (w == "P32") p32(n); else p21(n); printf("OK %u\n", count_); }
