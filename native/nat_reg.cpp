// The real serializer registry against a reference table: random contents, lookups, metadata queries and loads.
#include <new>
#include <map>
#include <random>
#include <cstdio>
#include <cstdlib>
#include "qprotobufserializerregistry.cpp"
using R = QProtobufSerializerRegistry; using RR = QProtobufSerializerRegistryPrivateRecord; using SS = std::shared_ptr<QAbstractProtobufSerializer>;
static std::mt19937 rng; static long runs = 0;
static unsigned rnd(unsigned n) { return rng() % n; }
static void fail(const char *what, const QString &id, const QString &pl) { printf("FAIL %s id=\"%s\" plugin=\"%s\"\n", what, qPrintable(id), qPrintable(pl)); fflush(stdout); exit(1); }
static QString name() { static const char *N[] = {"", "a", "A", "Default", "default", "protobuf", "json", "Protobuf", "xml", "Default ", "plugin", "\xc3\xa9", "longer plugin name with spaces", "version"}; return QString::fromUtf8(N[rnd(14)]); }
struct Meta { bool any; float v, pv; int r; QStringList types; };
int main(int argc, char **argv) {
    rng.seed(argc > 1 ? atoi(argv[1]) : 1); long n = argc > 2 ? atol(argv[2]) : 1000;
    for (long k = 0; k < n; ++k) {
        alignas(R) unsigned char mem[sizeof(R)]; R *r = new (mem) R; std::map<QString, std::map<QString, SS>> ref; std::map<QString, Meta> meta;
        auto &dm = r->dPtr->m_plugins; if (dm.size() != 1 || !dm.count("Default")) fail("a new registry has exactly the default plugin", "", "");
        if (!dynamic_cast<QProtobufSerializer *>(r->getSerializer("protobuf").get())) fail("protobuf is the binary serializer", "protobuf", "");
        if (!dynamic_cast<QProtobufJsonSerializer *>(r->getSerializer("json").get())) fail("json is the JSON serializer", "json", "");
        ref["Default"]["protobuf"] = r->getSerializer("protobuf"); ref["Default"]["json"] = r->getSerializer("json"); meta["Default"] = {false, 0, 0, 0, {}};
        for (unsigned i = rnd(5); i > 0; --i) {
            const QString p = name(); if (ref.count(p)) continue;
            auto rec = std::make_shared<RR>(); Meta m{rnd(3) != 0, rnd(100) / 4.f, rnd(100) / 8.f, int(rnd(1000)) - 500, {}};
            for (unsigned j = rnd(4); j > 0; --j) { const QString id = name(); SS s(new QProtobufSerializer); rec->serializers[id] = s; ref[p][id] = s; if (!id.isEmpty()) m.types << id; }
            ref[p]; if (m.any) { QVariantList l; for (auto &t : m.types) l << t; if (rnd(2)) l << QString(); rec->metaData = {{"version", m.v}, {"protobufVersion", m.pv}, {"rating", m.r}, {"types", l}}; }
            dm[p] = rec; meta[p] = m;
        }
        for (unsigned i = 0; i < 12; ++i, ++runs) {
            const QString id = name(), p = name(); const bool one = rnd(3) == 0; const QString from = one ? QString("Default") : p; SS got; bool threw = false;
            switch (rnd(6)) {
            case 0: { auto m = meta.find(p); float w = m != meta.end() && m->second.any ? m->second.v : 0; if (r->pluginVersion(p) != w) fail("version of the plugin", "", p); } break;
            case 1: { auto m = meta.find(p); float w = m != meta.end() && m->second.any ? m->second.pv : 0; if (r->pluginProtobufVersion(p) != w) fail("protobuf version of the plugin", "", p); } break;
            case 2: { auto m = meta.find(p); int w = m != meta.end() && m->second.any ? m->second.r : 0; if (r->pluginRating(p) != w) fail("rating of the plugin", "", p); } break;
            case 3: { auto m = meta.find(p); QStringList w = m != meta.end() && m->second.any ? m->second.types : QStringList(); if (r->pluginSerializers(p) != w) fail("serializers of the plugin", "", p); } break;
            default:
                try { got = one ? r->getSerializer(id) : r->getSerializer(id, p); } catch (const std::out_of_range &) { threw = true; }
                auto a = ref.find(from); bool known = a != ref.end() && a->second.count(id);
                if (threw == known) fail(known ? "a known serializer is found" : "an unknown serializer is reported", id, from);
                if (known && got != a->second[id]) fail("the serializer of that plugin and id", id, from);
            }
        }
        r->~R();
    }
    printf("OK %ld\n", runs); return 0;
}
