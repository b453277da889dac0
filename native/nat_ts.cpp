// Random instants through google.protobuf.Timestamp.
#include "google/protobuf/timestamp.qpb.h"
#include <QDateTime>
#include <cstdio>
#include <random>
#include <unistd.h>
int main(int argc, char **argv) {
    std::mt19937_64 rng(argc > 1 ? atoi(argv[1]) : 1); unsigned n = argc > 2 ? atoi(argv[2]) : 1000;
    auto bad = [](const char *w, qint64 v) { printf("FAIL %s: %lld\n", w, (long long)v); fflush(stdout); _exit(1); };
    for (unsigned k = 0; k < n; ++k) {
        qint64 ms; unsigned sh = rng() % 47;
        switch (k % 4) { case 0: ms = qint64(rng() >> (17 + sh)); break; case 1: ms = -qint64(rng() >> (17 + sh)); break; case 2: ms = qint64(rng() % 3000000000ULL) * 1000; break; default: { static const qint64 v[] = {0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, 253402300799999LL, -62135596800000LL, 1500, -1500, 4294967296000LL, 2147483648000LL, 2147483647999LL}; ms = v[rng() % 16]; } }
        QDateTime d = QDateTime::fromMSecsSinceEpoch(ms, k % 2 ? Qt::UTC : Qt::LocalTime);
        google::protobuf::Timestamp t(d); QDateTime b = t;
        if (b.toMSecsSinceEpoch() != d.toMSecsSinceEpoch() || b != d) bad("date-time to Timestamp and back, milliseconds", ms);
        qint64 s = t.seconds(), fl = ms / 1000 - (ms % 1000 < 0); if (s != ms / 1000 && s != fl) bad("seconds of the Timestamp of milliseconds", ms);
        if (ms % 1000 == 0 && t.nanos() != 0) bad("fraction of a whole second", ms);
        google::protobuf::Timestamp w(ms / 1000, 0); QDateTime x = w; if (x.toMSecsSinceEpoch() != ms / 1000 * 1000) bad("date-time of whole seconds", ms / 1000);
        google::protobuf::Timestamp c(t); if (QDateTime(c) != b || !(c == t)) bad("copy", ms);
    }
    printf("OK %u\n", n); fflush(stdout); _exit(0);
}
