#include <random>
#include <string>
#include <cstdio>
#include "qgrpcstatus.cpp"
using S = QtProtobuf::QGrpcStatus;
struct V { S s; int c; QString m; bool moved; };
int main(int, char **v) {
    setvbuf(stdout, 0, _IOLBF, 0); unsigned base = strtoul(v[1], 0, 10) * 1000003u, n = strtoul(v[2], 0, 10);
    for (unsigned k = 0; k < n; ++k) {
        std::mt19937 r(base + k); std::string ops; V x[3] = {{S(), 0, "", false}, {S(), 0, "", false}, {S(), 0, "", false}};
        auto fail = [&](const char *w) { printf("FAIL %s after %s\n", w, ops.c_str()); exit(1); };
        for (int t = 0; t < 12; ++t) {
            int i = r() % 3, j = r() % 3, op = r() % 6; V &a = x[i], &b = x[j]; ops += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") "; printf("%s\n", ops.c_str());
            switch (op) {
            case 0: { int c = r() % 18; QString m = r() % 2 ? QString::number(r()) : QString(); a.s = S(S::StatusCode(c), m); a.c = c; a.m = m; a.moved = false; break; }
            case 1: if (!b.moved) { a.s = b.s; a.c = b.c; a.m = b.m; a.moved = false; } break;
            case 2: if (!b.moved && i != j) { a.s = std::move(b.s); a.c = b.c; a.m = b.m; a.moved = false; b.moved = true; } break;
            case 3: if (!b.moved && i != j) { S t(std::move(b.s)); b.moved = true; if (t.code() != b.c || t.message() != b.m) fail("move construction"); a.s = S(t); a.c = b.c; a.m = b.m; a.moved = false; } break;
            case 4: if (!a.moved && !b.moved) { bool e = a.c == b.c; if ((a.s == b.s) != e || (a.s == S::StatusCode(b.c)) != e || (S::StatusCode(b.c) == a.s) != e || (a.s != S::StatusCode(b.c)) == e || (S::StatusCode(b.c) != a.s) == e) fail("comparison"); } break;
            case 5: if (!b.moved) { S t(b.s); if (t.code() != b.c || t.message() != b.m) fail("copy"); } break; }
            for (auto &y : x) if (!y.moved && (y.s.code() != y.c || y.s.message() != y.m)) fail("content");
        }
    }
    printf("OK %u\n", n);
}
