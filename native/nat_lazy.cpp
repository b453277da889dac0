// Bounded replay harness: random operation sequences on QProtobufLazyMessagePointer against a small oracle.
#ifdef V_NOQML
#undef QT_QML_LIB
#endif
#include <QObject>
#include <QSharedPointer>
#include <set>
#include <string>
#include <vector>
#include <random>
#include <cstdio>
#include <new>
#include "qtprotobuftypes.h"
#include "qprotobuflazymessagepointer.h"
static std::set<QObject *> live; static int twice = 0;
struct VMsg : QObject { int c = 0; bool js = false; VMsg() { live.insert(this); } ~VMsg() { if (!live.erase(this)) ++twice; } bool operator==(const VMsg &o) const { return c == o.c; } bool operator!=(const VMsg &o) const { return c != o.c; } };
using L = QProtobufLazyMessagePointer<VMsg>;
static bool leaks = false; static bool probe() { VMsg *o = new VMsg; L *l = new L; l->reset(o); delete l; bool r = live.count(o); if (r) delete o; return r; }
struct Slot { L *l; VMsg *held; bool tracked; };
static std::string run(unsigned seed, std::string &ops) {
    std::mt19937 r(seed); Slot s[3]; for (auto &x : s) x = {new L, nullptr, false}; std::vector<VMsg *> loose; live.clear(); twice = 0;
    auto gone = [&](VMsg *o) -> bool { if (!o) return false; if (o->js || leaks) { loose.push_back(o); return false; } return true; };
    auto chk = [&](const char *w) -> std::string { for (int i = 0; i < 3; ++i) { if (bool(*s[i].l) != (s[i].held != nullptr)) return std::string(w) + ": presence of slot " + char('0' + i); if (s[i].held && !live.count(s[i].held)) return std::string(w) + ": held object destroyed"; if (s[i].held && (s[i].l->get() != s[i].held || &**s[i].l != s[i].held || s[i].l->operator->() != s[i].held)) return std::string(w) + ": other object"; }
        for (auto o : loose) if (!live.count(o)) return std::string(w) + ": object owned elsewhere destroyed"; size_t n = loose.size(); for (auto &x : s) n += x.held != nullptr; if (live.size() != n) return std::string(w) + ": " + std::to_string(live.size()) + " live objects, expected " + std::to_string(n); if (twice) return "object destroyed twice"; return ""; };
    for (int k = 0; k < 14; ++k) {
        int i = r() % 3, j = r() % 3; char b[64]; int op = r() % 10; snprintf(b, 64, "%d(%d,%d) ", op, i, j); ops += b; Slot &a = s[i], &o = s[j];
        switch (op) {
        case 0: { VMsg *p = r() % 3 == 0 ? a.l->get() : r() % 2 ? &**a.l : a.l->operator->(); if (!p || !live.count(p)) return "access yields no object"; if (a.held && p != a.held) return "access yields another object"; if (!a.held && p->c) return "created with content"; a.tracked = a.held ? a.tracked : false; a.held = p; break; }
        case 1: if (a.held) a.held->c = r() % 3; break;
        case 2: { VMsg *n = new VMsg; n->c = r() % 3; gone(a.held); a.l->reset(n); a.held = n; a.tracked = true; break; }
        case 3: { bool e = (a.held ? a.held->c : 0) == (o.held ? o.held->c : 0); if ((*a.l == *o.l) != e || (*a.l != *o.l) == e) return "comparison"; break; }
        case 4: case 5: { if (i != j) { gone(a.held); a.held = o.held; a.tracked = o.held != nullptr; o.held = nullptr; o.tracked = false; } *a.l = std::move(*o.l); break; }
        case 6: { L *n = new L(std::move(*a.l)); a.tracked = a.held != nullptr; delete a.l; a.l = n; break; }
        case 7: if (a.held && a.tracked) { VMsg *p = a.held; a.held = nullptr; a.tracked = false; delete p; } break;
        case 8: gone(a.held); delete a.l; a = {new L, nullptr, false}; break;
        case 9:
#ifndef V_NOQML
            if (a.held) { a.held->js = true; QQmlEngine::setObjectOwnership(a.held, QQmlEngine::JavaScriptOwnership); }
#endif
            break; }
        auto e = chk(b); if (!e.empty()) return e;
        if (!loose.empty() && r() % 2) { VMsg *p = loose.back(); loose.pop_back(); delete p; e = chk("destroying a released object"); if (!e.empty()) return e; }
    }
    for (auto &x : s) { gone(x.held); x.held = nullptr; delete x.l; x.l = new L; } auto e = chk("end"); for (auto &x : s) delete x.l; for (auto p : loose) delete p; return e;
}
int main(int c, char **v) { unsigned base = strtoul(v[1], 0, 10); 
#ifdef V_NOQML
    leaks = probe();      // known finding: without Qt QML nothing is ever freed
#endif
    unsigned  n = strtoul(v[2], 0, 10); for (unsigned k = base; k < base + n; ++k) { printf("seed %u\n", k); fflush(stdout); std::string ops, e = run(k, ops); if (!e.empty()) { printf("FAIL %s after %s\n", e.c_str(), ops.c_str()); return 1; } } printf("OK %u\n", n); }
