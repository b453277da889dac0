// Real client, stream and call reply classes over a scripted channel.
#include "qabstractgrpcclient.h"
#include "qabstractgrpcchannel.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qgrpcstatus.h"
#include "qprotobufserializerregistry_p.h"
#include <QCoreApplication>
#include <QElapsedTimer>
#include <QThread>
#include <QTimer>
#include <memory>
#include <map>
#include <random>
#include <functional>
#include <unistd.h>
using namespace QtProtobuf;
static std::mt19937 rng; static std::string ctx; static unsigned count_ = 0;
static void fail(const std::string &w) { printf("FAIL %s: %s\n", w.c_str(), ctx.c_str()); fflush(stdout); _exit(1); }
static void spin() { QCoreApplication::sendPostedEvents(nullptr, 0); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QCoreApplication::processEvents(); }
struct Chan : QAbstractGrpcChannel {
    QGrpcStatus next{QGrpcStatus::Ok}; QByteArray body; bool ser = true; int syncs = 0, asyncs = 0; QString m, s; QByteArray a; QPointer<QGrpcCallReply> rep; QThread *on = nullptr;
    std::vector<QGrpcStream *> opened; std::vector<std::pair<QString, QByteArray>> openedAs;
    QGrpcStatus call(const QString &method, const QString &service, const QByteArray &args, QByteArray &ret) override { ++syncs; m = method; s = service; a = args; on = QThread::currentThread(); ret = body; return next; }
    void call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *r) override { ++asyncs; m = method; s = service; a = args; rep = r; }
    void stream(QGrpcStream *st, const QString &service, QAbstractGrpcClient *) override { s = service; opened.push_back(st); openedAs.push_back({st->method(), st->arg()}); }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser ? QProtobufSerializerRegistry::instance().getSerializer("protobuf") : nullptr; }
};
struct Msg : QObject { int how = 0; QByteArray seen; QByteArray out;
    QByteArray serialize(QAbstractProtobufSerializer *) const { return out; }
    void deserialize(QAbstractProtobufSerializer *, const QByteArray &d) { seen = d; switch (how) { case 1: throw std::invalid_argument("x"); case 2: throw std::out_of_range("x"); case 3: throw std::runtime_error("x"); case 4: throw 7; case 5: throw std::length_error("x"); case 6: throw std::bad_alloc(); case 7: throw std::domain_error("x"); } } };
struct Client : QAbstractGrpcClient { Client() : QAbstractGrpcClient("svc.Name") { connect(this, &QAbstractGrpcClient::error, [this](const QGrpcStatus &s) { errs.push_back(s); }); } std::vector<QGrpcStatus> errs;
    QGrpcStatus sync(const QString &m, const Msg &a, const QPointer<Msg> &r) { return call(m, a, r); }
    QGrpcCallReplyShared async(const QString &m, const Msg &a) { return call(m, a); }
    QGrpcStreamShared open(const QString &m, const Msg &a, const QPointer<Msg> &r) { return stream(m, a, r); }
    QGrpcStreamShared open0(const QString &m, const Msg &a) { return stream(m, a); }
    QGrpcStatus rawcall(const QString &m, const QByteArray &a, QByteArray &r) { return QAbstractGrpcClient::call(m, a, r); }
    QGrpcStreamShared rawstream(const QString &m, const QByteArray &a, const StreamHandler &h) { return QAbstractGrpcClient::stream(m, a, h); } };
static void same(const QGrpcStatus &a, const QGrpcStatus &b, const char *w) { if (a.code() != b.code() || a.message() != b.message()) fail(std::string(w) + " " + std::to_string(a.code()) + " '" + a.message().toStdString() + "'"); }
template<class F> static void inThread(F f) { QThread *t = QThread::create(f); t->start(); while (!t->isFinished()) QCoreApplication::processEvents(QEventLoop::AllEvents, 5); t->wait(); delete t; }
static void p23(unsigned n) {
    static const int CODES[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    static const int WANT[] = {0, QGrpcStatus::InvalidArgument, QGrpcStatus::OutOfRange, QGrpcStatus::Internal, QGrpcStatus::Internal, QGrpcStatus::Internal, QGrpcStatus::Internal, QGrpcStatus::Internal};
    for (unsigned k = 0; k < n; ++k) {
        Client c; auto ch = std::make_shared<Chan>(); bool att = rng() % 5; int code = rng() % 2 ? 0 : CODES[rng() % 17]; ch->next = QGrpcStatus(QGrpcStatus::StatusCode(code), code ? "why " + QString::number(k) : QString()); ch->body = QByteArray(rng() % 9, 'b'); ch->ser = rng() % 6; bool thr = k % 10 == 0; int how = rng() % 8; bool nul = rng() % 8 == 0; bool raw = rng() % 3 == 0;
        ctx = std::string("channel ") + (att ? "attached" : "missing") + " code " + std::to_string(code) + " decode outcome " + std::to_string(how) + (ch->ser ? "" : " no serializer") + (thr ? " other thread" : "") + (nul ? " null result" : "") + (raw ? " raw" : "");
        if (att) c.attachChannel(ch); Msg a; a.out = "argument" + QByteArray::number(k); QPointer<Msg> r(nul ? nullptr : new Msg); if (r) r->how = how; QGrpcStatus st(QGrpcStatus::Cancelled); QByteArray ret;
        auto go = [&] { if (raw) st = c.rawcall("meth", a.out, ret); else st = c.sync("meth", a, r); };
        try { if (thr) inThread(go); else go(); } catch (...) { fail("exception escapes the call"); }
        QGrpcStatus want(QGrpcStatus::Ok); bool called = false, msgKnown = true;
        if (raw) { if (!att) { want = QGrpcStatus(QGrpcStatus::Unknown); msgKnown = false; } else { called = true; want = ch->next; } }
        else if (nul) { want = QGrpcStatus(QGrpcStatus::InvalidArgument); msgKnown = false; } else if (!att || !ch->ser) { want = QGrpcStatus(QGrpcStatus::Unknown); msgKnown = false; }
        else { called = true; if (code) want = ch->next; else { want = QGrpcStatus(QGrpcStatus::StatusCode(WANT[how])); msgKnown = how == 0; } }
        if (st.code() != want.code()) fail("returned status " + std::to_string(st.code()) + " expected " + std::to_string(want.code())); if (msgKnown) same(st, want, "returned status");
        if (st.code() == QGrpcStatus::Ok) { if (!c.errs.empty()) fail("error signalled for a success"); } else { if (c.errs.size() != 1) fail("failure signalled " + std::to_string(c.errs.size()) + " times"); if (c.errs[0].code() != st.code()) fail("signalled status " + std::to_string(c.errs[0].code())); if (called && code) same(c.errs[0], want, "signalled status"); }
        if (ch->syncs != (called ? 1 : 0)) fail("channel called " + std::to_string(ch->syncs) + " times"); if (called && (ch->m != "meth" || ch->s != "svc.Name" || ch->a != a.out)) fail("request differs"); if (called && thr && ch->on != c.thread()) fail("channel called from another thread");
        if (called && raw && ret != ch->body) fail("returned bytes"); if (called && !raw && !code && r->seen != ch->body) fail("decoded bytes");
        delete r.data(); ++count_;
        // asynchronous: the reply's failure is signalled once, nothing after that
        Client c2; auto ch2 = std::make_shared<Chan>(); if (att) c2.attachChannel(ch2); ch2->ser = ch->ser; QGrpcCallReplyShared rp = c2.async("am", a); bool ok = att && ch->ser;
        if (bool(rp) != ok) fail("asynchronous reply"); if (!ok) { if (c2.errs.size() != 1) fail("asynchronous call without channel: failure signalled " + std::to_string(c2.errs.size()) + " times"); continue; }
        if (ch2->asyncs != 1 || ch2->m != "am" || ch2->s != "svc.Name" || ch2->a != a.out || ch2->rep != rp.get()) fail("asynchronous request"); int mode = rng() % 3; if (rng() % 2) rp.reset(); spin(); if (!ch2->rep) fail("pending reply deleted");
        QPointer<QGrpcCallReply> q = ch2->rep; QGrpcStatus e(QGrpcStatus::DataLoss, "lost"); if (mode == 0) emit q->finished(); else if (mode == 1) emit q->error(e); else q->abort();
        if (c2.errs.size() != (mode ? 1u : 0u)) fail("asynchronous failure signalled " + std::to_string(c2.errs.size()) + " times, mode " + std::to_string(mode)); if (mode == 1) same(c2.errs[0], e, "asynchronous failure"); if (mode == 2 && c2.errs[0].code() != QGrpcStatus::Aborted) fail("abort status");
        if (q) { emit q->error(e); emit q->finished(); } if (c2.errs.size() != (mode ? 1u : 0u)) fail("asynchronous failure signalled again"); rp.reset(); spin(); if (q) fail("finished reply kept"); ++count_;
    }
    for (int how = 0; how < 8; ++how) { Client c; auto ch = std::make_shared<Chan>(); c.attachChannel(ch); Msg a; QPointer<Msg> r(new Msg); r->how = how; auto st = c.open("m", a, r); ctx = "stream decode outcome " + std::to_string(how); try { st->handler("data"); } catch (...) { fail("exception escapes the handler"); } if (c.errs.size() != (how ? 1u : 0u)) fail("stream decode failure signalled " + std::to_string(c.errs.size())); if (how && c.errs[0].code() != WANT[how]) fail("stream decode status"); delete r.data(); c.errs.clear(); st->handler("data"); if (c.errs.size() != 1) fail("null target signalled"); st->abort(); ++count_; }
}
struct S { QString m; QByteArray a; QGrpcStreamShared sp; std::vector<int> hs; };
static void p24(unsigned n) {
    for (unsigned k = 0; k < n; ++k) {
        Client c; auto ch = std::make_shared<Chan>(); c.attachChannel(ch); std::vector<S> act; std::vector<QGrpcStreamShared> keep; ctx = "history:"; std::map<int, std::vector<QByteArray>> got; int nh = 0; unsigned opens = 0; int len = 1 + rng() % 30;
        std::function<void(const QString &, const QByteArray &, bool, int)> open = [&](const QString &m, const QByteArray &a, bool h, int nest) {
            int id = h ? ++nh : 0; ctx += " open(" + m.toStdString() + "," + a.toStdString() + ",h" + std::to_string(id) + (nest ? "n" : "") + ")"; StreamHandler f; if (h) f = [&, id, nest, m, a](const QByteArray &d) { got[id].push_back(d); if (nest && got[id].size() == 1) for (int j = 0; j < nest; ++j) open(m, a, true, 0); };
            QGrpcStreamShared r = c.rawstream(m, a, f); if (!r) fail("no stream returned"); S *x = nullptr; for (auto &s : act) if (s.m == m && s.a == a) x = &s;
            if (x) { if (r != x->sp) fail("not the active stream"); } else { ++opens; act.push_back(S{m, a, r, {}}); x = &act.back(); if (ch->opened.empty() || ch->opened.back() != r.get() || r->method() != m || r->arg() != a || ch->s != "svc.Name") fail("opened stream differs"); }
            if (h) x->hs.push_back(id); if (ch->opened.size() != opens) fail("streams opened " + std::to_string(ch->opened.size()) + " expected " + std::to_string(opens)); };
        for (int i = 0; i < len; ++i) { int op = rng() % 10;
            if (op < 5) { static const char *A[] = {"", "a", "b", "aa"}; static const char *M[] = {"m", "n", ""}; open(M[rng() % 3], rng() % 8 ? QByteArray(A[rng() % 4]) : rng() % 2 ? QByteArray("a\0b", 3) : QByteArray(40 << (rng() % 8), 'x') + (rng() % 2 ? "y" : "z"), rng() % 5, rng() % 6 == 0 ? 1 + rng() % 8 : 0); if (k % 100 == 7 && i == 0) for (int j = 0; j < 150; ++j) open("m", "a", true, 0); }
            else if (op < 8 && !act.empty()) { size_t j = rng() % act.size(); auto hs = act[j].hs; QByteArray d = QByteArray::number(i) + "data"; ctx += " message(" + std::to_string(j) + ")"; std::map<int, size_t> before; for (int h : hs) before[h] = got[h].size(); int recv = 0; auto cn = QObject::connect(act[j].sp.get(), &QGrpcStream::messageReceived, [&] { ++recv; }); act[j].sp->handler(d); QObject::disconnect(cn); if (recv != 1) fail("messageReceived " + std::to_string(recv)); for (int h : hs) { auto &g = got[h]; if (g.size() != before[h] + 1 || g.back() != d) fail("handler " + std::to_string(h) + " got " + std::to_string(g.size() - before[h]) + " messages"); } for (auto &s : act) if (&s != &act[j]) for (int h : s.hs) if (!got[h].empty() && got[h].back() == d && std::find(hs.begin(), hs.end(), h) == hs.end()) { bool own = false; for (int q : act[j].hs) own |= q == h; if (!own) fail("message of another stream"); } }
            else if (op == 8 && !act.empty()) { size_t j = rng() % act.size(); ctx += " finish(" + std::to_string(j) + ")"; auto sp = act[j].sp; act.erase(act.begin() + j); if (rng() % 2) keep.push_back(sp); if (rng() % 2) sp->abort(); else emit sp->finished(); if (rng() % 2) emit sp->finished(); sp.reset(); spin(); }
            else if (op == 9) { ctx += " spin"; spin(); } }
        ++count_;
    }
}
struct Sc { std::unique_ptr<Client> c; std::shared_ptr<Chan> ch, ch2; QGrpcStreamShared sp, other; std::string what; size_t opens = 0, opens2 = 0, oo = 1; QString m; QByteArray a; bool aborted = false, failed = false, dead = false; };
static void p29(unsigned n) {
    std::vector<std::unique_ptr<Sc>> v;
    for (unsigned k = 0; k < n; ++k) {
        v.emplace_back(new Sc); Sc &s = *v.back(); s.c.reset(new Client); s.ch = std::make_shared<Chan>(); s.ch2 = std::make_shared<Chan>(); s.c->attachChannel(s.ch); s.m = "m" + QString::number(k); s.a = QByteArray::number(k); s.sp = s.c->rawstream(s.m, s.a, {}); s.opens = 1; QGrpcStream *raw = s.sp.get(); bool hold = rng() % 2; ctx = "scenario:"; if (hold) ctx += " held"; else s.sp.reset();
        bool other = rng() % 3 == 0; if (other) { s.other = s.c->rawstream("other", "o", {}); s.opens++; ctx += " other"; } int len = 1 + rng() % 4; bool pend = false; size_t e0 = 0;
        for (int i = 0; i < len && !s.dead; ++i) switch (rng() % 6) {
            case 0: case 1: if (s.aborted && hold && ctx.find("attach") == std::string::npos) { ctx += " late-error"; e0 = s.c->errs.size(); emit raw->error(QGrpcStatus(QGrpcStatus::Unavailable, "x")); emit raw->finished(); if (s.c->errs.size() != e0) fail("error of a finished stream signalled"); break; } if (s.aborted || pend) break; ctx += " error"; e0 = s.c->errs.size(); emit raw->error(QGrpcStatus(QGrpcStatus::Unavailable, "x")); pend = true; if (s.c->errs.size() != e0 + 1) fail("stream error signalled " + std::to_string(s.c->errs.size() - e0) + " times"); if (s.ch->opened.size() != s.opens) fail("re-opened without back-off"); break;
            case 2: if (s.aborted) break; ctx += " abort"; raw->abort(); s.aborted = true; spin(); break;
            case 3: if (s.aborted) break; ctx += " finished"; emit raw->finished(); s.aborted = true; spin(); break;
            case 4: if (rng() % 3) break; ctx += " attach"; s.c->attachChannel(s.ch2); s.aborted = true; if (s.opens2 == 0) s.opens2 = 0; i = len; spin(); break;
            case 5: if (rng() % 4) break; ctx += " destroy"; s.sp.reset(); s.other.reset(); s.c.reset(); s.dead = true; break; }
        if (s.aborted && !s.dead && rng() % 3 == 0) { ctx += " again"; auto t = s.c->rawstream(s.m, s.a, {}); Chan *cc = s.ch2->thread() && ctx.find("attach") != std::string::npos ? s.ch2.get() : s.ch.get(); if (cc == s.ch2.get()) s.opens2++; else s.opens++; s.other = t; }
        if (pend && !s.aborted && !s.dead) s.opens++; s.what = ctx; ++count_;
    }
    // several active streams: finishing one leaves the others to be re-opened
    struct Mu { std::unique_ptr<Client> c; std::shared_ptr<Chan> ch; std::vector<QGrpcStreamShared> sp; std::vector<bool> fin, err; size_t opens; }; std::vector<std::unique_ptr<Mu>> mu;
    for (unsigned k = 0; k < n / 4 + 1; ++k) { mu.emplace_back(new Mu); Mu &x = *mu.back(); x.c.reset(new Client); x.ch = std::make_shared<Chan>(); x.c->attachChannel(x.ch); size_t cnt = 2 + rng() % 5; for (size_t i = 0; i < cnt; ++i) x.sp.push_back(x.c->rawstream("m" + QString::number(i % 2), QByteArray::number(int(i)), {})); x.fin.assign(cnt, false); x.err.assign(cnt, false); x.opens = cnt;
        for (int r = 0; r < 6; ++r) { size_t i = rng() % cnt; if (rng() % 2) { if (!x.fin[i]) { x.fin[i] = true; if (rng() % 2) x.sp[i]->abort(); else emit x.sp[i]->finished(); } } else if (!x.fin[i] && !x.err[i]) { x.err[i] = true; emit x.sp[i]->error(QGrpcStatus(QGrpcStatus::StatusCode(1 + rng() % 16), "x")); } }
        for (size_t i = 0; i < cnt; ++i) if (x.err[i] && !x.fin[i]) x.opens++; }
    QElapsedTimer t; t.start(); while (t.elapsed() < 1900) QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents, 50), t.elapsed() < 1900 ? (void)QThread::msleep(5) : (void)0;
    for (auto &p : v) { ctx = p->what; if (p->ch->opened.size() != p->opens) fail("streams opened " + std::to_string(p->ch->opened.size()) + " times, expected " + std::to_string(p->opens)); if (p->ch2->opened.size() != p->opens2) fail("streams opened on the new channel " + std::to_string(p->ch2->opened.size()) + " times, expected " + std::to_string(p->opens2)); for (auto &o : p->ch->openedAs) if (!(o.first == p->m && o.second == p->a) && !(o.first == "other" && o.second == "o")) fail("opened with another method or argument"); }
    ctx = "several streams"; for (auto &x : mu) { if (x->ch->opened.size() != x->opens) fail("streams opened " + std::to_string(x->ch->opened.size()) + " times, expected " + std::to_string(x->opens)); std::map<QGrpcStream *, int> cn; for (auto o : x->ch->opened) cn[o]++; for (size_t i = 0; i < x->sp.size(); ++i) if (cn[x->sp[i].get()] != 1 + (x->err[i] && !x->fin[i])) fail("a stream was opened " + std::to_string(cn[x->sp[i].get()]) + " times"); ++count_; }
    // a second error after the re-opening is handled like the first
    unsigned m = 0; for (auto &p : v) { if (p->dead || p->aborted) continue; ctx = p->what + " second error"; ++m; emit p->ch->opened[0]->error(QGrpcStatus(QGrpcStatus::Unavailable)); }
    QElapsedTimer t2; t2.start(); while (t2.elapsed() < 1900) { QCoreApplication::processEvents(QEventLoop::AllEvents, 50); QThread::msleep(5); }
    for (auto &p : v) { if (p->dead || p->aborted) continue; ctx = p->what + " second error"; if (p->ch->opened.size() != p->opens + 1) fail("streams opened " + std::to_string(p->ch->opened.size()) + " times, expected " + std::to_string(p->opens + 1)); ++count_; }
}
int main(int argc, char **argv) { QCoreApplication app(argc, argv); std::string w = argv[1]; rng.seed(strtoul(argv[2], 0, 10)); unsigned n = strtoul(argv[3], 0, 10);
    if (w == "P23") p23(n); else if (w == "P24") p24(n); else p29(n); printf("OK %u\n", count_); }
