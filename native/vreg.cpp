// The real QProtobufSerializerRegistry, reached through plain functions.
#include <new>
#include "qprotobufserializerregistry.cpp"
using R = QProtobufSerializerRegistry; using RP = QProtobufSerializerRegistryPrivate; using RR = QProtobufSerializerRegistryPrivateRecord; using SS = std::shared_ptr<QAbstractProtobufSerializer>;
extern "C" {
void v_attach(R *r, RP *p) { new (&r->dPtr) std::unique_ptr<RP>(p); }
void *v_plugins(RP *p) { return &p->m_plugins; }
void *v_serializers(RR *p) { return &p->serializers; }
void *v_meta(RR *p) { return &p->metaData; }
void v_create(RP *p) { new (p) RP; }
void v_get1(SS *out, R &r, const QString &id) { new (out) SS(r.getSerializer(id)); }
void v_get2(SS *out, R &r, const QString &id, const QString &plugin) { new (out) SS(r.getSerializer(id, plugin)); }
float v_version(R &r, const QString &plugin) { return r.pluginVersion(plugin); }
float v_pversion(R &r, const QString &plugin) { return r.pluginProtobufVersion(plugin); }
int v_rating(R &r, const QString &plugin) { return r.pluginRating(plugin); }
}
