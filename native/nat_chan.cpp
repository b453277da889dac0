// The real native channel against an in-process gRPC server that answers from a script.
#include "qgrpcchannel.cpp"
#include <grpcpp/grpcpp.h>
#include <grpcpp/generic/async_generic_service.h>
#include <QCoreApplication>
#include <QTimer>
#include <QElapsedTimer>
#include <QPointer>
#include <QTemporaryDir>
#include <random>
#include <mutex>
#include <condition_variable>
#include <unistd.h>
using namespace QtProtobuf;
struct Client : QAbstractGrpcClient { Client() : QAbstractGrpcClient("svc") {} };
static std::mt19937 rng; static std::string ctx; static unsigned count_ = 0;
static void fail(const std::string &w) { printf("FAIL %s: %s\n", w.c_str(), ctx.c_str()); fflush(stdout); _exit(1); }
static std::string rnd(size_t n) { std::string b(n, 0); for (auto &c : b) c = char(rng() % 5 ? rng() : 0); return b; }
static size_t len() { static const size_t L[] = {0, 1, 2, 5, 127, 128, 255, 256, 1000, 4095, 4096, 8191, 16384, 65535, 65536, 70000}; return rng() % 4 ? L[rng() % 16] : rng() % 300; }
static grpc::ByteBuffer cut(const std::string &s, unsigned parts) {      // the bytes as several slices, some of them empty
    std::vector<grpc::Slice> v; size_t p = 0; for (unsigned k = 0; k + 1 < parts; ++k) { size_t n = rng() % 3 ? rng() % (s.size() - p + 1) : 0; v.emplace_back(s.data() + p, n); p += n; } v.emplace_back(s.data() + p, s.size() - p);
    return grpc::ByteBuffer(v.data(), v.size()); }
static std::string all(const grpc::ByteBuffer &b) { std::vector<grpc::Slice> v; std::string r; if (b.Dump(&v).ok()) for (auto &s : v) r.append((const char *)s.begin(), s.size()); return r; }
// ---------------------------------------------------------------- the scripted server
struct Script { std::vector<grpc::ByteBuffer> out; grpc::Status st; bool hold = false; };
static std::mutex mx; static std::condition_variable cv; static Script script; static std::vector<std::pair<std::string, std::string>> seen; static int cancelled = 0;
struct Reactor : grpc::ServerGenericBidiReactor {
    grpc::ByteBuffer req; Script s; size_t k = 0; std::string m;
    Reactor(const std::string &m) : m(m) { StartRead(&req); }
    void OnReadDone(bool ok) override { { std::lock_guard<std::mutex> l(mx); s = script; seen.emplace_back(m, ok ? all(req) : "no request"); } next(); }
    void next() { if (k < s.out.size()) StartWrite(&s.out[k++]); else if (!s.hold) Finish(s.st); }
    void OnWriteDone(bool ok) override { if (ok) next(); else Finish(s.st); }
    void OnCancel() override { bool f; { std::lock_guard<std::mutex> l(mx); ++cancelled; f = s.hold && k >= s.out.size(); } cv.notify_all(); if (f) Finish(grpc::Status::CANCELLED); }
    void OnDone() override { delete this; }
};
struct Service : grpc::CallbackGenericService { grpc::ServerGenericBidiReactor *CreateReactor(grpc::GenericCallbackServerContext *c) override { return new Reactor(c->method()); } };
static void setScript(std::vector<grpc::ByteBuffer> o, grpc::Status s, bool hold = false) { std::lock_guard<std::mutex> l(mx); script.out = o; script.st = s; script.hold = hold; seen.clear(); cancelled = 0; }
static void sent(const std::string &path, const std::string &req) { std::lock_guard<std::mutex> l(mx); if (seen.size() != 1) fail("requests seen by the server: " + std::to_string(seen.size())); if (seen[0].first != path) fail("method called: " + seen[0].first); if (seen[0].second != req) fail("request is not the payload (" + std::to_string(seen[0].second.size()) + " bytes)"); }
template<class F> static void until(F f, const char *what) { QElapsedTimer t; t.start(); while (!f()) { QCoreApplication::processEvents(QEventLoop::AllEvents, 20); if (t.elapsed() > 20000) fail(std::string("nothing after 20 s: ") + what); } }
static void settle(int ms) { QElapsedTimer t; t.start(); do QCoreApplication::processEvents(QEventLoop::AllEvents, 5); while (t.elapsed() < ms); }
static QByteArray Q(const std::string &s) { return QByteArray(s.data(), int(s.size())); }
static const std::vector<std::string> MSGS = {"", "plain", std::string("before\0after", 12), std::string("\0", 1), "unicode \xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", "percent %41 %1", " spaces  and\ttab\nnewline ", std::string(2000, 'm')};
static bool same(const QGrpcStatus &q, int code, const std::string &m) { return int(q.code()) == code && q.message() == QString::fromStdString(m); }
static std::string show(const QGrpcStatus &q) { return std::to_string(int(q.code())) + " '" + q.message().toStdString() + "' (" + std::to_string(q.message().size()) + ")"; }
int main(int argc, char **argv) {
    QCoreApplication app(argc, argv); unsigned seed = argc > 1 ? atoi(argv[1]) : 1, n = argc > 2 ? atoi(argv[2]) : 40; rng.seed(seed);
    // conversions, for every way to cut the bytes
    for (unsigned k = 0; k < n * 40; ++k) {
        std::string s = rnd(k < 300 ? k : len()), old = rnd(rng() % 3 ? 0 : rng() % 40); QByteArray d = Q(old); unsigned parts = 1 + rng() % 6; ctx = "buffer of " + std::to_string(s.size()) + " bytes in " + std::to_string(parts) + " slices, " + std::to_string(old.size()) + " bytes before";
        grpc::Status st = parseByteBuffer(cut(s, parts), d); if (!st.ok()) fail("conversion failed"); if (d != Q(old + s)) fail("bytes of the buffer are not appended"); 
        grpc::ByteBuffer b; QByteArray p = Q(s); parseQByteArray(p, b); if (all(b) != s) fail("buffer does not hold the payload"); if (p != Q(s)) fail("payload changed"); ++count_; }
    { QByteArray d = "old"; grpc::ByteBuffer none; ctx = "invalid buffer"; grpc::Status st = parseByteBuffer(none, d); if (st.ok() || d != "old") fail("failed conversion"); ++count_; }
    QTemporaryDir dir("/tmp/vchanXXXXXX"); std::string addr = "unix:" + dir.path().toStdString() + "/s"; Service svc; grpc::ServerBuilder sb; sb.RegisterCallbackGenericService(&svc); sb.AddListeningPort(addr, grpc::InsecureServerCredentials()); auto server = sb.BuildAndStart(); if (!server) { printf("FAIL server\n"); return 1; }
    std::unique_ptr<QGrpcChannel> ch(new QGrpcChannel(QUrl(QString::fromStdString(addr)), grpc::InsecureChannelCredentials())); Client cl;
    static const size_t BIG[] = {1 << 20, (1 << 20) + 1, 3000000, 65537}; static const char *SV[] = {"qtprotobuf.tests.Svc", "S", "a.b_c.Very0Long"}; static const char *MT[] = {"testMethod", "m", "With_0"};
    for (unsigned k = 0; k < n * 3; ++k) {
        std::string sv = SV[rng() % 3], mt = MT[rng() % 3], req = rnd(k < 12 ? BIG[k % 4] : len()), resp = rnd(k < 12 ? BIG[(k + 1) % 4] : len()), msg = MSGS[rng() % MSGS.size()]; int code = rng() % 2 ? 0 : rng() % 17; if (k >= 12 && k < 46) code = (k - 12) / 2; if (!code) msg = "";
        std::string path = "/" + sv + "/" + mt; bool async = k % 2; ctx = std::string(async ? "asynchronous" : "synchronous") + " call, request " + std::to_string(req.size()) + " bytes, response " + std::to_string(resp.size()) + " bytes, status " + std::to_string(code) + " '" + msg + "'";
        setScript(code ? std::vector<grpc::ByteBuffer>() : std::vector<grpc::ByteBuffer>{cut(resp, 1 + rng() % 4)}, grpc::Status(grpc::StatusCode(code), msg)); ++count_;
        if (!async) { QByteArray ret = "left over"; QGrpcStatus st = ch->call(QString::fromStdString(mt), QString::fromStdString(sv), Q(req), ret); sent(path, req); if (!same(st, code, msg)) fail("status " + show(st)); if (ret != (code ? QByteArray() : Q(resp))) fail("response differs, " + std::to_string(ret.size()) + " bytes"); }
        else { QGrpcCallReply *rep = new QGrpcCallReply(&cl); int fin = 0, err = 0; QGrpcStatus got(QGrpcStatus::Unknown); QObject::connect(rep, &QGrpcCallReply::finished, [&] { ++fin; }); QObject::connect(rep, &QGrpcCallReply::error, [&](const QGrpcStatus &s) { ++err; got = s; });
            ch->call(QString::fromStdString(mt), QString::fromStdString(sv), Q(req), rep); until([&] { return fin + err > 0; }, "outcome"); settle(1); sent(path, req);
            if (fin != (code ? 0 : 1) || err != (code ? 1 : 0)) fail("outcomes: finished " + std::to_string(fin) + ", error " + std::to_string(err)); if (code && !same(got, code, msg)) fail("status " + show(got)); if (rep->m_data != (code ? QByteArray() : Q(resp))) fail("response differs"); delete rep; } }
    for (unsigned k = 0; k < n; ++k) {                                   // an aborted call has no further outcome
        ctx = "aborted call " + std::to_string(k); std::string resp = rnd(len()); setScript({cut(resp, 2)}, grpc::Status::OK); QGrpcCallReply *rep = new QGrpcCallReply(&cl); int fin = 0, err = 0; QObject::connect(rep, &QGrpcCallReply::finished, [&] { ++fin; }); QObject::connect(rep, &QGrpcCallReply::error, [&] { ++err; });
        ch->call("m", "s", Q(rnd(3)), rep); if (k % 3 == 0) usleep(2000); rep->abort(); settle(4); if (fin || err != 1) fail("outcomes after abort: finished " + std::to_string(fin) + ", error " + std::to_string(err)); delete rep; ++count_; }
    for (unsigned k = 0; k < n * 2; ++k) {                               // streams
        std::string sv = SV[rng() % 3], mt = MT[rng() % 3], req = rnd(len()), msg = MSGS[rng() % MSGS.size()]; int code = rng() % 3 ? rng() % 17 : 0; if (!code) msg = ""; unsigned c = k % 8 == 7 ? 60 : rng() % 6; std::vector<std::string> ms; std::vector<grpc::ByteBuffer> bs; for (unsigned i = 0; i < c; ++i) { ms.push_back(rnd(k == 0 ? BIG[i % 4] : len())); bs.push_back(cut(ms.back(), 1 + rng() % 4)); }
        ctx = "stream of " + std::to_string(c) + " messages, status " + std::to_string(code) + " '" + msg + "'"; bool hold = k % 4 == 3; setScript(bs, grpc::Status(grpc::StatusCode(code), msg), hold); if (hold) ctx += ", held open"; ++count_;
        std::vector<QByteArray> got; int fin = 0, err = 0; QGrpcStatus gs(QGrpcStatus::Unknown); std::unique_ptr<Client> own(new Client); auto *st = new QGrpcStream(QString::fromStdString(mt), Q(req), [&](const QByteArray &b) { got.push_back(b); }, nullptr); QObject::connect(st, &QGrpcStream::finished, [&] { ++fin; }); QObject::connect(st, &QGrpcStream::error, [&](const QGrpcStatus &s) { ++err; gs = s; });
        ch->stream(st, QString::fromStdString(sv), own.get());
        until([&] { return got.size() >= c && (hold || !code || err); }, "messages and status"); settle(hold || !code ? 12 : 3); sent("/" + sv + "/" + mt, req);
        if (got.size() != c) fail("messages delivered: " + std::to_string(got.size())); for (unsigned i = 0; i < c; ++i) if (got[i] != Q(ms[i])) fail("message " + std::to_string(i) + " differs");
        if (fin) fail("finished by itself"); if (err != (code && !hold ? 1 : 0)) fail("errors: " + std::to_string(err)); if (err && !same(gs, code, msg)) fail("status " + show(gs));
        if (hold) { if (k % 8 == 3) st->abort(); else own.reset(); settle(3); std::unique_lock<std::mutex> l(mx); if (!cv.wait_for(l, std::chrono::seconds(20), [] { return cancelled > 0; })) fail("native stream not cancelled"); l.unlock(); settle(3); if (err) fail("error after cancellation"); }
        delete st; settle(1); }
    for (unsigned k = 0; k < n; ++k) {                                   // nothing is delivered after the stream was finished, not even what was already queued
        unsigned c = 2 + rng() % 5, stop = rng() % c; ctx = "stream of " + std::to_string(c) + " messages, aborted while handling message " + std::to_string(stop); std::vector<grpc::ByteBuffer> bs; for (unsigned i = 0; i < c; ++i) bs.push_back(cut(rnd(5), 1)); setScript(bs, grpc::Status(grpc::StatusCode::INTERNAL, "end"), k % 2);
        unsigned got = 0; int err = 0; QGrpcStream *st = nullptr; Client own; st = new QGrpcStream("m", "a", [&](const QByteArray &) { if (got++ == stop) st->abort(); }, nullptr); QObject::connect(st, &QGrpcStream::error, [&] { ++err; }); ch->stream(st, "s", &own); usleep(3000); until([&] { return got > stop; }, "message"); settle(6);
        if (got != stop + 1) fail("messages delivered after the abort: " + std::to_string(got - stop - 1)); if (err) fail("error after the abort"); delete st; ++count_; }
    ch.reset(); server->Shutdown(std::chrono::system_clock::now() + std::chrono::milliseconds(200));
    printf("OK %u\n", count_); fflush(stdout); dir.remove(); _exit(0);
}
