// Scripted transport under the real HTTP/2 channel: QNetworkAccessManager is replaced by a subclass that records requests.
#pragma once
#include <QCoreApplication>
#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QSslConfiguration>
#include <QTimer>
#include <QEventLoop>
#include <QUrl>
#include <vector>
#include <functional>
class FakeReply : public QNetworkReply { public:
    QByteArray buf, sent; int aborts = 0; QUrl url_; QNetworkRequest req_;
    static std::vector<FakeReply *> alive;
    FakeReply(const QNetworkRequest &r, const QByteArray &b) : sent(b), url_(r.url()), req_(r) { setRequest(r); setUrl(r.url()); open(QIODevice::ReadOnly | QIODevice::Unbuffered); alive.push_back(this); }
    ~FakeReply() { for (auto &p : alive) if (p == this) p = nullptr; }
    void abort() override { ++aborts; if (!isFinished()) finish(QNetworkReply::OperationCanceledError, -1, QByteArray()); }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return buf.size() + QIODevice::bytesAvailable(); }
    qint64 readData(char *d, qint64 n) override { n = qMin<qint64>(n, buf.size()); memcpy(d, buf.constData(), n); buf.remove(0, n); return n; }
    void feed(const QByteArray &b) { buf += b; emit readyRead(); }
    void finish(NetworkError e, int status, const QByteArray &msg, bool hdr = true) {
        if (hdr && status >= 0) setRawHeader("grpc-status", QByteArray::number(status)); if (!msg.isEmpty()) setRawHeader("grpc-message", msg);
        if (e != NoError) setError(e, QStringLiteral("net error")); setFinished(true); emit finished(); }
};
class FakeNAM : public QNetworkAccessManager { public:
    static std::function<void(FakeReply *)> onRequest;
    using QNetworkAccessManager::QNetworkAccessManager;
    QNetworkReply *createRequest(Operation, const QNetworkRequest &r, QIODevice *d) override { auto *p = new FakeReply(r, d ? d->readAll() : QByteArray()); if (onRequest) onRequest(p); return p; }
};
