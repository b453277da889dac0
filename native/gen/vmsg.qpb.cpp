/* This file is autogenerated. DO NOT CHANGE. All changes will be lost */

#include "vmsg.qpb.h"
using namespace QtProtobuf;

namespace vmsg {
static QtProtobuf::ProtoTypeRegistrar<Leaf> ProtoTypeRegistrarLeaf(qRegisterProtobufType<Leaf>);
Leaf::~Leaf()
{}

const QtProtobuf::QProtobufMetaObject Leaf::protobufMetaObject = QtProtobuf::QProtobufMetaObject(Leaf::staticMetaObject, Leaf::propertyOrdering);
const QtProtobuf::QProtobufPropertyOrdering Leaf::propertyOrdering = {{1, {1, "z"}}
    ,{2, {2, "b"}}};

void Leaf::registerTypes()
{
    qRegisterMetaType<Leaf>("vmsg::Leaf");
    qRegisterMetaType<Leaf*>("vmsg::Leaf*");
    qRegisterMetaType<LeafRepeated>("vmsg::LeafRepeated");
}
Leaf::Leaf(QObject *parent) : QObject(parent)
    , m_z(0)
{
}
Leaf::Leaf(QtProtobuf::sint64 z,QObject *parent) : QObject(parent)
    , m_z(z)
{
}
Leaf::Leaf(QtProtobuf::sint64 z,const QByteArray &b,QObject *parent) : QObject(parent)
    , m_z(z)
    , m_b(b)
{
}
Leaf::Leaf(const Leaf &other) : QObject()
{
    setZ(other.m_z);
    setB(other.m_b);
}
Leaf &Leaf::operator =(const Leaf &other)
{
    setZ(other.m_z);
    setB(other.m_b);
    return *this;
}
Leaf::Leaf(Leaf &&other) : QObject()
{
    setZ(std::exchange(other.m_z, 0));
    other.zChanged();
    m_b = std::move(other.m_b);
    other.bChanged();
}
Leaf &Leaf::operator =(Leaf &&other)
{
    setZ(std::exchange(other.m_z, 0));
    other.zChanged();
    if (m_b != other.m_b) {
        m_b = std::move(other.m_b);
        bChanged();
        other.bChanged();
    }return *this;
}
bool Leaf::operator ==(const Leaf &other) const
{
    return m_z == other.m_z
        && m_b == other.m_b;
}
bool Leaf::operator !=(const Leaf &other) const
{
    return !this->operator ==(other);
}

void Leaf::setB(const QByteArray &b)
{
    if (m_b != b) {
        m_b = b;
        bChanged();
    }
}


}


namespace vmsg {
static QtProtobuf::ProtoTypeRegistrar<Sub> ProtoTypeRegistrarSub(qRegisterProtobufType<Sub>);
Sub::~Sub()
{}

const QtProtobuf::QProtobufMetaObject Sub::protobufMetaObject = QtProtobuf::QProtobufMetaObject(Sub::staticMetaObject, Sub::propertyOrdering);
const QtProtobuf::QProtobufPropertyOrdering Sub::propertyOrdering = {{1, {1, "i"}}
    ,{2, {2, "s"}}
    ,{3, {3, "leaf"}}
    ,{4, {4, "l"}}
    ,{5, {5, "ls"}}};

void Sub::registerTypes()
{
    qRegisterMetaType<Sub>("vmsg::Sub");
    qRegisterMetaType<Sub*>("vmsg::Sub*");
    qRegisterMetaType<SubRepeated>("vmsg::SubRepeated");
}
Sub::Sub(QObject *parent) : QObject(parent)
    , m_i(0)
    , m_leaf(nullptr)
{
}
Sub::Sub(QtProtobuf::int32 i,QObject *parent) : QObject(parent)
    , m_i(i)
    , m_leaf(nullptr)
{
}
Sub::Sub(QtProtobuf::int32 i,const QString &s,QObject *parent) : QObject(parent)
    , m_i(i)
    , m_s(s)
    , m_leaf(nullptr)
{
}
Sub::Sub(QtProtobuf::int32 i,const QString &s,const Leaf &leaf,QObject *parent) : QObject(parent)
    , m_i(i)
    , m_s(s)
    , m_leaf(new Leaf(leaf))
{
}
Sub::Sub(QtProtobuf::int32 i,const QString &s,const Leaf &leaf,const QtProtobuf::int32List &l,QObject *parent) : QObject(parent)
    , m_i(i)
    , m_s(s)
    , m_leaf(new Leaf(leaf))
    , m_l(l)
{
}
Sub::Sub(QtProtobuf::int32 i,const QString &s,const Leaf &leaf,const QtProtobuf::int32List &l,const LeafRepeated &ls,QObject *parent) : QObject(parent)
    , m_i(i)
    , m_s(s)
    , m_leaf(new Leaf(leaf))
    , m_l(l)
    , m_ls(ls)
{
}
Sub::Sub(const Sub &other) : QObject()
    , m_leaf(nullptr)
{
    setI(other.m_i);
    setS(other.m_s);
    if (m_leaf != other.m_leaf) {
        *m_leaf = *other.m_leaf;
    }
    setL(other.m_l);
    setLs(other.m_ls);
}
Sub &Sub::operator =(const Sub &other)
{
    setI(other.m_i);
    setS(other.m_s);
    if (m_leaf != other.m_leaf) {
        *m_leaf = *other.m_leaf;
        leafChanged();
    }
    setL(other.m_l);
    setLs(other.m_ls);
    return *this;
}
Sub::Sub(Sub &&other) : QObject()
    , m_leaf(nullptr)
{
    setI(std::exchange(other.m_i, 0));
    other.iChanged();
    m_s = std::move(other.m_s);
    other.sChanged();
    if (m_leaf != other.m_leaf) {
        *m_leaf = std::move(*other.m_leaf);
    }
    m_l = std::move(other.m_l);
    other.lChanged();
    m_ls = std::move(other.m_ls);
    other.lsChanged();
}
Sub &Sub::operator =(Sub &&other)
{
    setI(std::exchange(other.m_i, 0));
    other.iChanged();
    if (m_s != other.m_s) {
        m_s = std::move(other.m_s);
        sChanged();
        other.sChanged();
    }if (m_leaf != other.m_leaf) {
        *m_leaf = std::move(*other.m_leaf);
        leafChanged();
        other.leafChanged();
    }
    if (m_l != other.m_l) {
        m_l = std::move(other.m_l);
        lChanged();
        other.lChanged();
    }if (m_ls != other.m_ls) {
        m_ls = std::move(other.m_ls);
        lsChanged();
        other.lsChanged();
    }return *this;
}
bool Sub::operator ==(const Sub &other) const
{
    return m_i == other.m_i
        && m_s == other.m_s
        && (m_leaf == other.m_leaf
            || *m_leaf == *other.m_leaf)

        && m_l == other.m_l
        && QtProtobuf::repeatedValueCompare(m_ls, other.m_ls);
}
bool Sub::operator !=(const Sub &other) const
{
    return !this->operator ==(other);
}

Leaf *Sub::leaf_p() const
{
    return m_leaf.get();
}

Leaf &Sub::leaf() const
{
    return *m_leaf;
}

void Sub::setS(const QString &s)
{
    if (m_s != s) {
        m_s = s;
        sChanged();
    }
}

void Sub::setLeaf_p(Leaf *leaf)
{
    if (m_leaf.get() != leaf) {
        m_leaf.reset(leaf);
        leafChanged();
    }
}

void Sub::setLeaf(const Leaf &leaf)
{
    if (*m_leaf != leaf) {
        *m_leaf = leaf;
        leafChanged();
    }
}

void Sub::setLs(const LeafRepeated &ls)
{
    if (m_ls != ls) {
        m_ls = ls;
        lsChanged();
    }
}


}


namespace vmsg {
static QtProtobuf::ProtoTypeRegistrar<All> ProtoTypeRegistrarAll(qRegisterProtobufType<All>);
All::~All()
{}

const QtProtobuf::QProtobufMetaObject All::protobufMetaObject = QtProtobuf::QProtobufMetaObject(All::staticMetaObject, All::propertyOrdering);
const QtProtobuf::QProtobufPropertyOrdering All::propertyOrdering = {{1, {1, "fInt32"}}
    ,{2, {2, "fInt64"}}
    ,{3, {3, "fUint32"}}
    ,{4, {4, "fUint64"}}
    ,{5, {5, "fSint32"}}
    ,{6, {6, "fSint64"}}
    ,{7, {7, "fBool"}}
    ,{8, {8, "fFixed32"}}
    ,{9, {9, "fSfixed32"}}
    ,{10, {10, "fFloat"}}
    ,{11, {11, "fFixed64"}}
    ,{12, {12, "fSfixed64"}}
    ,{13, {13, "fDouble"}}
    ,{14, {14, "fString"}}
    ,{15, {15, "fBytes"}}
    ,{16, {16, "lInt32"}}
    ,{17, {17, "lInt64"}}
    ,{18, {18, "lUint32"}}
    ,{19, {19, "lUint64"}}
    ,{20, {20, "lSint32"}}
    ,{21, {21, "lSint64"}}
    ,{22, {22, "lFixed32"}}
    ,{23, {23, "lSfixed32"}}
    ,{24, {24, "lFloat"}}
    ,{25, {25, "lFixed64"}}
    ,{26, {26, "lSfixed64"}}
    ,{27, {27, "lDouble"}}
    ,{28, {28, "lString"}}
    ,{29, {29, "lBytes"}}
    ,{30, {30, "fEnum"}}
    ,{31, {31, "lEnum"}}
    ,{32, {32, "fSub"}}
    ,{33, {33, "lSub"}}
    ,{34, {34, "mIs"}}
    ,{35, {35, "mSs"}}
    ,{36, {36, "mZz"}}
    ,{37, {37, "mSb"}}
    ,{38, {38, "mUd"}}
    ,{39, {39, "mLu"}}
    ,{40, {40, "mFb"}}
    ,{41, {41, "mBi"}}
    ,{42, {42, "mIe"}}
    ,{43, {43, "mXx"}}
    ,{44, {44, "mUf"}}
    ,{45, {45, "mFf"}}
    ,{536870911, {46, "far"}}};

void All::registerTypes()
{
    qRegisterMetaType<All>("vmsg::All");
    qRegisterMetaType<All*>("vmsg::All*");
    qRegisterMetaType<AllRepeated>("vmsg::AllRepeated");
    qRegisterProtobufEnumType<All::E>();
    qRegisterMetaType<All::E>("E");
    qRegisterMetaType<All::E>("vmsg::All::E");
    qRegisterMetaType<All::ERepeated>("vmsg::All::ERepeated");
    qRegisterProtobufEnumType<All::E>();
    qRegisterMetaType<All::E>("E");
    qRegisterMetaType<All::E>("vmsg::All::E");
    qRegisterMetaType<All::ERepeated>("vmsg::All::ERepeated");
    qRegisterMetaType<All::MIsEntry>("vmsg::All::MIsEntry");
    qRegisterMetaType<All::MIsEntry>("vmsg::All::MIsEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::int32, QString>();
    qRegisterMetaType<All::MSsEntry>("vmsg::All::MSsEntry");
    qRegisterMetaType<All::MSsEntry>("vmsg::All::MSsEntryRepeated");
    qRegisterProtobufMapType<QString, Sub>();
    qRegisterMetaType<All::MZzEntry>("vmsg::All::MZzEntry");
    qRegisterMetaType<All::MZzEntry>("vmsg::All::MZzEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::sint32, QtProtobuf::sint64>();
    qRegisterMetaType<All::MSbEntry>("vmsg::All::MSbEntry");
    qRegisterMetaType<All::MSbEntry>("vmsg::All::MSbEntryRepeated");
    qRegisterProtobufMapType<QString, QByteArray>();
    qRegisterMetaType<All::MUdEntry>("vmsg::All::MUdEntry");
    qRegisterMetaType<All::MUdEntry>("vmsg::All::MUdEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::uint64, double>();
    qRegisterMetaType<All::MLuEntry>("vmsg::All::MLuEntry");
    qRegisterMetaType<All::MLuEntry>("vmsg::All::MLuEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::int64, QtProtobuf::uint32>();
    qRegisterMetaType<All::MFbEntry>("vmsg::All::MFbEntry");
    qRegisterMetaType<All::MFbEntry>("vmsg::All::MFbEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::fixed32, bool>();
    qRegisterMetaType<All::MBiEntry>("vmsg::All::MBiEntry");
    qRegisterMetaType<All::MBiEntry>("vmsg::All::MBiEntryRepeated");
    qRegisterProtobufMapType<bool, QtProtobuf::int32>();
    qRegisterMetaType<All::MIeEntry>("vmsg::All::MIeEntry");
    qRegisterMetaType<All::MIeEntry>("vmsg::All::MIeEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::int32, All::E>();
    qRegisterMetaType<All::MXxEntry>("vmsg::All::MXxEntry");
    qRegisterMetaType<All::MXxEntry>("vmsg::All::MXxEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::sfixed64, QtProtobuf::sfixed32>();
    qRegisterMetaType<All::MUfEntry>("vmsg::All::MUfEntry");
    qRegisterMetaType<All::MUfEntry>("vmsg::All::MUfEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::uint32, float>();
    qRegisterMetaType<All::MFfEntry>("vmsg::All::MFfEntry");
    qRegisterMetaType<All::MFfEntry>("vmsg::All::MFfEntryRepeated");
    qRegisterProtobufMapType<QtProtobuf::fixed64, QtProtobuf::fixed64>();
}
All::All(QObject *parent) : QObject(parent)
    , m_fInt32(0)
    , m_fInt64(0)
    , m_fUint32(0)
    , m_fUint64(0)
    , m_fSint32(0)
    , m_fSint64(0)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(0)
    , m_fUint32(0)
    , m_fUint64(0)
    , m_fSint32(0)
    , m_fSint64(0)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(0)
    , m_fUint64(0)
    , m_fSint32(0)
    , m_fSint64(0)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(0)
    , m_fSint32(0)
    , m_fSint64(0)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(0)
    , m_fSint64(0)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(0)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(false)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(0)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(0.0)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(0)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(0.0)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(All::E::E0)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(nullptr)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_mBi(mBi)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_mBi(mBi)
    , m_mIe(mIe)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_mBi(mBi)
    , m_mIe(mIe)
    , m_mXx(mXx)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,const All::MUfEntry &mUf,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_mBi(mBi)
    , m_mIe(mIe)
    , m_mXx(mXx)
    , m_mUf(mUf)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,const All::MUfEntry &mUf,const All::MFfEntry &mFf,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_mBi(mBi)
    , m_mIe(mIe)
    , m_mXx(mXx)
    , m_mUf(mUf)
    , m_mFf(mFf)
    , m_far(0)
{
}
All::All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,const All::MUfEntry &mUf,const All::MFfEntry &mFf,QtProtobuf::int32 far,QObject *parent) : QObject(parent)
    , m_fInt32(fInt32)
    , m_fInt64(fInt64)
    , m_fUint32(fUint32)
    , m_fUint64(fUint64)
    , m_fSint32(fSint32)
    , m_fSint64(fSint64)
    , m_fBool(fBool)
    , m_fFixed32(fFixed32)
    , m_fSfixed32(fSfixed32)
    , m_fFloat(fFloat)
    , m_fFixed64(fFixed64)
    , m_fSfixed64(fSfixed64)
    , m_fDouble(fDouble)
    , m_fString(fString)
    , m_fBytes(fBytes)
    , m_lInt32(lInt32)
    , m_lInt64(lInt64)
    , m_lUint32(lUint32)
    , m_lUint64(lUint64)
    , m_lSint32(lSint32)
    , m_lSint64(lSint64)
    , m_lFixed32(lFixed32)
    , m_lSfixed32(lSfixed32)
    , m_lFloat(lFloat)
    , m_lFixed64(lFixed64)
    , m_lSfixed64(lSfixed64)
    , m_lDouble(lDouble)
    , m_lString(lString)
    , m_lBytes(lBytes)
    , m_fEnum(fEnum)
    , m_lEnum(lEnum)
    , m_fSub(new Sub(fSub))
    , m_lSub(lSub)
    , m_mIs(mIs)
    , m_mSs(mSs)
    , m_mZz(mZz)
    , m_mSb(mSb)
    , m_mUd(mUd)
    , m_mLu(mLu)
    , m_mFb(mFb)
    , m_mBi(mBi)
    , m_mIe(mIe)
    , m_mXx(mXx)
    , m_mUf(mUf)
    , m_mFf(mFf)
    , m_far(far)
{
}
All::All(const All &other) : QObject()
    , m_fSub(nullptr)
{
    setFInt32(other.m_fInt32);
    setFInt64(other.m_fInt64);
    setFUint32(other.m_fUint32);
    setFUint64(other.m_fUint64);
    setFSint32(other.m_fSint32);
    setFSint64(other.m_fSint64);
    setFBool(other.m_fBool);
    setFFixed32(other.m_fFixed32);
    setFSfixed32(other.m_fSfixed32);
    setFFloat(other.m_fFloat);
    setFFixed64(other.m_fFixed64);
    setFSfixed64(other.m_fSfixed64);
    setFDouble(other.m_fDouble);
    setFString(other.m_fString);
    setFBytes(other.m_fBytes);
    setLInt32(other.m_lInt32);
    setLInt64(other.m_lInt64);
    setLUint32(other.m_lUint32);
    setLUint64(other.m_lUint64);
    setLSint32(other.m_lSint32);
    setLSint64(other.m_lSint64);
    setLFixed32(other.m_lFixed32);
    setLSfixed32(other.m_lSfixed32);
    setLFloat(other.m_lFloat);
    setLFixed64(other.m_lFixed64);
    setLSfixed64(other.m_lSfixed64);
    setLDouble(other.m_lDouble);
    setLString(other.m_lString);
    setLBytes(other.m_lBytes);
    setFEnum(other.m_fEnum);
    setLEnum(other.m_lEnum);
    if (m_fSub != other.m_fSub) {
        *m_fSub = *other.m_fSub;
    }
    setLSub(other.m_lSub);
    setMIs(other.m_mIs);
    setMSs(other.m_mSs);
    setMZz(other.m_mZz);
    setMSb(other.m_mSb);
    setMUd(other.m_mUd);
    setMLu(other.m_mLu);
    setMFb(other.m_mFb);
    setMBi(other.m_mBi);
    setMIe(other.m_mIe);
    setMXx(other.m_mXx);
    setMUf(other.m_mUf);
    setMFf(other.m_mFf);
    setFar(other.m_far);
}
All &All::operator =(const All &other)
{
    setFInt32(other.m_fInt32);
    setFInt64(other.m_fInt64);
    setFUint32(other.m_fUint32);
    setFUint64(other.m_fUint64);
    setFSint32(other.m_fSint32);
    setFSint64(other.m_fSint64);
    setFBool(other.m_fBool);
    setFFixed32(other.m_fFixed32);
    setFSfixed32(other.m_fSfixed32);
    setFFloat(other.m_fFloat);
    setFFixed64(other.m_fFixed64);
    setFSfixed64(other.m_fSfixed64);
    setFDouble(other.m_fDouble);
    setFString(other.m_fString);
    setFBytes(other.m_fBytes);
    setLInt32(other.m_lInt32);
    setLInt64(other.m_lInt64);
    setLUint32(other.m_lUint32);
    setLUint64(other.m_lUint64);
    setLSint32(other.m_lSint32);
    setLSint64(other.m_lSint64);
    setLFixed32(other.m_lFixed32);
    setLSfixed32(other.m_lSfixed32);
    setLFloat(other.m_lFloat);
    setLFixed64(other.m_lFixed64);
    setLSfixed64(other.m_lSfixed64);
    setLDouble(other.m_lDouble);
    setLString(other.m_lString);
    setLBytes(other.m_lBytes);
    setFEnum(other.m_fEnum);
    setLEnum(other.m_lEnum);
    if (m_fSub != other.m_fSub) {
        *m_fSub = *other.m_fSub;
        fSubChanged();
    }
    setLSub(other.m_lSub);
    setMIs(other.m_mIs);
    setMSs(other.m_mSs);
    setMZz(other.m_mZz);
    setMSb(other.m_mSb);
    setMUd(other.m_mUd);
    setMLu(other.m_mLu);
    setMFb(other.m_mFb);
    setMBi(other.m_mBi);
    setMIe(other.m_mIe);
    setMXx(other.m_mXx);
    setMUf(other.m_mUf);
    setMFf(other.m_mFf);
    setFar(other.m_far);
    return *this;
}
All::All(All &&other) : QObject()
    , m_fSub(nullptr)
{
    setFInt32(std::exchange(other.m_fInt32, 0));
    other.fInt32Changed();
    setFInt64(std::exchange(other.m_fInt64, 0));
    other.fInt64Changed();
    setFUint32(std::exchange(other.m_fUint32, 0));
    other.fUint32Changed();
    setFUint64(std::exchange(other.m_fUint64, 0));
    other.fUint64Changed();
    setFSint32(std::exchange(other.m_fSint32, 0));
    other.fSint32Changed();
    setFSint64(std::exchange(other.m_fSint64, 0));
    other.fSint64Changed();
    setFBool(std::exchange(other.m_fBool, 0));
    other.fBoolChanged();
    setFFixed32(std::exchange(other.m_fFixed32, 0));
    other.fFixed32Changed();
    setFSfixed32(std::exchange(other.m_fSfixed32, 0));
    other.fSfixed32Changed();
    setFFloat(std::exchange(other.m_fFloat, 0));
    other.fFloatChanged();
    setFFixed64(std::exchange(other.m_fFixed64, 0));
    other.fFixed64Changed();
    setFSfixed64(std::exchange(other.m_fSfixed64, 0));
    other.fSfixed64Changed();
    setFDouble(std::exchange(other.m_fDouble, 0));
    other.fDoubleChanged();
    m_fString = std::move(other.m_fString);
    other.fStringChanged();
    m_fBytes = std::move(other.m_fBytes);
    other.fBytesChanged();
    m_lInt32 = std::move(other.m_lInt32);
    other.lInt32Changed();
    m_lInt64 = std::move(other.m_lInt64);
    other.lInt64Changed();
    m_lUint32 = std::move(other.m_lUint32);
    other.lUint32Changed();
    m_lUint64 = std::move(other.m_lUint64);
    other.lUint64Changed();
    m_lSint32 = std::move(other.m_lSint32);
    other.lSint32Changed();
    m_lSint64 = std::move(other.m_lSint64);
    other.lSint64Changed();
    m_lFixed32 = std::move(other.m_lFixed32);
    other.lFixed32Changed();
    m_lSfixed32 = std::move(other.m_lSfixed32);
    other.lSfixed32Changed();
    m_lFloat = std::move(other.m_lFloat);
    other.lFloatChanged();
    m_lFixed64 = std::move(other.m_lFixed64);
    other.lFixed64Changed();
    m_lSfixed64 = std::move(other.m_lSfixed64);
    other.lSfixed64Changed();
    m_lDouble = std::move(other.m_lDouble);
    other.lDoubleChanged();
    m_lString = std::move(other.m_lString);
    other.lStringChanged();
    m_lBytes = std::move(other.m_lBytes);
    other.lBytesChanged();
    m_fEnum = other.m_fEnum;
    m_lEnum = std::move(other.m_lEnum);
    other.lEnumChanged();
    if (m_fSub != other.m_fSub) {
        *m_fSub = std::move(*other.m_fSub);
    }
    m_lSub = std::move(other.m_lSub);
    other.lSubChanged();
    m_mIs = std::move(other.m_mIs);
    other.mIsChanged();
    m_mSs = std::move(other.m_mSs);
    other.mSsChanged();
    m_mZz = std::move(other.m_mZz);
    other.mZzChanged();
    m_mSb = std::move(other.m_mSb);
    other.mSbChanged();
    m_mUd = std::move(other.m_mUd);
    other.mUdChanged();
    m_mLu = std::move(other.m_mLu);
    other.mLuChanged();
    m_mFb = std::move(other.m_mFb);
    other.mFbChanged();
    m_mBi = std::move(other.m_mBi);
    other.mBiChanged();
    m_mIe = std::move(other.m_mIe);
    other.mIeChanged();
    m_mXx = std::move(other.m_mXx);
    other.mXxChanged();
    m_mUf = std::move(other.m_mUf);
    other.mUfChanged();
    m_mFf = std::move(other.m_mFf);
    other.mFfChanged();
    setFar(std::exchange(other.m_far, 0));
    other.farChanged();
}
All &All::operator =(All &&other)
{
    setFInt32(std::exchange(other.m_fInt32, 0));
    other.fInt32Changed();
    setFInt64(std::exchange(other.m_fInt64, 0));
    other.fInt64Changed();
    setFUint32(std::exchange(other.m_fUint32, 0));
    other.fUint32Changed();
    setFUint64(std::exchange(other.m_fUint64, 0));
    other.fUint64Changed();
    setFSint32(std::exchange(other.m_fSint32, 0));
    other.fSint32Changed();
    setFSint64(std::exchange(other.m_fSint64, 0));
    other.fSint64Changed();
    setFBool(std::exchange(other.m_fBool, 0));
    other.fBoolChanged();
    setFFixed32(std::exchange(other.m_fFixed32, 0));
    other.fFixed32Changed();
    setFSfixed32(std::exchange(other.m_fSfixed32, 0));
    other.fSfixed32Changed();
    setFFloat(std::exchange(other.m_fFloat, 0));
    other.fFloatChanged();
    setFFixed64(std::exchange(other.m_fFixed64, 0));
    other.fFixed64Changed();
    setFSfixed64(std::exchange(other.m_fSfixed64, 0));
    other.fSfixed64Changed();
    setFDouble(std::exchange(other.m_fDouble, 0));
    other.fDoubleChanged();
    if (m_fString != other.m_fString) {
        m_fString = std::move(other.m_fString);
        fStringChanged();
        other.fStringChanged();
    }if (m_fBytes != other.m_fBytes) {
        m_fBytes = std::move(other.m_fBytes);
        fBytesChanged();
        other.fBytesChanged();
    }if (m_lInt32 != other.m_lInt32) {
        m_lInt32 = std::move(other.m_lInt32);
        lInt32Changed();
        other.lInt32Changed();
    }if (m_lInt64 != other.m_lInt64) {
        m_lInt64 = std::move(other.m_lInt64);
        lInt64Changed();
        other.lInt64Changed();
    }if (m_lUint32 != other.m_lUint32) {
        m_lUint32 = std::move(other.m_lUint32);
        lUint32Changed();
        other.lUint32Changed();
    }if (m_lUint64 != other.m_lUint64) {
        m_lUint64 = std::move(other.m_lUint64);
        lUint64Changed();
        other.lUint64Changed();
    }if (m_lSint32 != other.m_lSint32) {
        m_lSint32 = std::move(other.m_lSint32);
        lSint32Changed();
        other.lSint32Changed();
    }if (m_lSint64 != other.m_lSint64) {
        m_lSint64 = std::move(other.m_lSint64);
        lSint64Changed();
        other.lSint64Changed();
    }if (m_lFixed32 != other.m_lFixed32) {
        m_lFixed32 = std::move(other.m_lFixed32);
        lFixed32Changed();
        other.lFixed32Changed();
    }if (m_lSfixed32 != other.m_lSfixed32) {
        m_lSfixed32 = std::move(other.m_lSfixed32);
        lSfixed32Changed();
        other.lSfixed32Changed();
    }if (m_lFloat != other.m_lFloat) {
        m_lFloat = std::move(other.m_lFloat);
        lFloatChanged();
        other.lFloatChanged();
    }if (m_lFixed64 != other.m_lFixed64) {
        m_lFixed64 = std::move(other.m_lFixed64);
        lFixed64Changed();
        other.lFixed64Changed();
    }if (m_lSfixed64 != other.m_lSfixed64) {
        m_lSfixed64 = std::move(other.m_lSfixed64);
        lSfixed64Changed();
        other.lSfixed64Changed();
    }if (m_lDouble != other.m_lDouble) {
        m_lDouble = std::move(other.m_lDouble);
        lDoubleChanged();
        other.lDoubleChanged();
    }if (m_lString != other.m_lString) {
        m_lString = std::move(other.m_lString);
        lStringChanged();
        other.lStringChanged();
    }if (m_lBytes != other.m_lBytes) {
        m_lBytes = std::move(other.m_lBytes);
        lBytesChanged();
        other.lBytesChanged();
    }m_fEnum = other.m_fEnum;
    if (m_lEnum != other.m_lEnum) {
        m_lEnum = std::move(other.m_lEnum);
        lEnumChanged();
        other.lEnumChanged();
    }if (m_fSub != other.m_fSub) {
        *m_fSub = std::move(*other.m_fSub);
        fSubChanged();
        other.fSubChanged();
    }
    if (m_lSub != other.m_lSub) {
        m_lSub = std::move(other.m_lSub);
        lSubChanged();
        other.lSubChanged();
    }if (m_mIs != other.m_mIs) {
        m_mIs = std::move(other.m_mIs);
        mIsChanged();
        other.mIsChanged();
    }if (m_mSs != other.m_mSs) {
        m_mSs = std::move(other.m_mSs);
        mSsChanged();
        other.mSsChanged();
    }if (m_mZz != other.m_mZz) {
        m_mZz = std::move(other.m_mZz);
        mZzChanged();
        other.mZzChanged();
    }if (m_mSb != other.m_mSb) {
        m_mSb = std::move(other.m_mSb);
        mSbChanged();
        other.mSbChanged();
    }if (m_mUd != other.m_mUd) {
        m_mUd = std::move(other.m_mUd);
        mUdChanged();
        other.mUdChanged();
    }if (m_mLu != other.m_mLu) {
        m_mLu = std::move(other.m_mLu);
        mLuChanged();
        other.mLuChanged();
    }if (m_mFb != other.m_mFb) {
        m_mFb = std::move(other.m_mFb);
        mFbChanged();
        other.mFbChanged();
    }if (m_mBi != other.m_mBi) {
        m_mBi = std::move(other.m_mBi);
        mBiChanged();
        other.mBiChanged();
    }if (m_mIe != other.m_mIe) {
        m_mIe = std::move(other.m_mIe);
        mIeChanged();
        other.mIeChanged();
    }if (m_mXx != other.m_mXx) {
        m_mXx = std::move(other.m_mXx);
        mXxChanged();
        other.mXxChanged();
    }if (m_mUf != other.m_mUf) {
        m_mUf = std::move(other.m_mUf);
        mUfChanged();
        other.mUfChanged();
    }if (m_mFf != other.m_mFf) {
        m_mFf = std::move(other.m_mFf);
        mFfChanged();
        other.mFfChanged();
    }setFar(std::exchange(other.m_far, 0));
    other.farChanged();
    return *this;
}
bool All::operator ==(const All &other) const
{
    return m_fInt32 == other.m_fInt32
        && m_fInt64 == other.m_fInt64
        && m_fUint32 == other.m_fUint32
        && m_fUint64 == other.m_fUint64
        && m_fSint32 == other.m_fSint32
        && m_fSint64 == other.m_fSint64
        && m_fBool == other.m_fBool
        && m_fFixed32 == other.m_fFixed32
        && m_fSfixed32 == other.m_fSfixed32
        && m_fFloat == other.m_fFloat
        && m_fFixed64 == other.m_fFixed64
        && m_fSfixed64 == other.m_fSfixed64
        && m_fDouble == other.m_fDouble
        && m_fString == other.m_fString
        && m_fBytes == other.m_fBytes
        && m_lInt32 == other.m_lInt32
        && m_lInt64 == other.m_lInt64
        && m_lUint32 == other.m_lUint32
        && m_lUint64 == other.m_lUint64
        && m_lSint32 == other.m_lSint32
        && m_lSint64 == other.m_lSint64
        && m_lFixed32 == other.m_lFixed32
        && m_lSfixed32 == other.m_lSfixed32
        && m_lFloat == other.m_lFloat
        && m_lFixed64 == other.m_lFixed64
        && m_lSfixed64 == other.m_lSfixed64
        && m_lDouble == other.m_lDouble
        && m_lString == other.m_lString
        && m_lBytes == other.m_lBytes
        && m_fEnum == other.m_fEnum
        && m_lEnum == other.m_lEnum
        && (m_fSub == other.m_fSub
            || *m_fSub == *other.m_fSub)

        && QtProtobuf::repeatedValueCompare(m_lSub, other.m_lSub)
        && QtProtobuf::repeatedValueCompare(m_mIs, other.m_mIs)
        && QtProtobuf::repeatedValueCompare(m_mSs, other.m_mSs)
        && QtProtobuf::repeatedValueCompare(m_mZz, other.m_mZz)
        && QtProtobuf::repeatedValueCompare(m_mSb, other.m_mSb)
        && QtProtobuf::repeatedValueCompare(m_mUd, other.m_mUd)
        && QtProtobuf::repeatedValueCompare(m_mLu, other.m_mLu)
        && QtProtobuf::repeatedValueCompare(m_mFb, other.m_mFb)
        && QtProtobuf::repeatedValueCompare(m_mBi, other.m_mBi)
        && QtProtobuf::repeatedValueCompare(m_mIe, other.m_mIe)
        && QtProtobuf::repeatedValueCompare(m_mXx, other.m_mXx)
        && QtProtobuf::repeatedValueCompare(m_mUf, other.m_mUf)
        && QtProtobuf::repeatedValueCompare(m_mFf, other.m_mFf)
        && m_far == other.m_far;
}
bool All::operator !=(const All &other) const
{
    return !this->operator ==(other);
}

Sub *All::fSub_p() const
{
    return m_fSub.get();
}

Sub &All::fSub() const
{
    return *m_fSub;
}

void All::setFString(const QString &fString)
{
    if (m_fString != fString) {
        m_fString = fString;
        fStringChanged();
    }
}

void All::setFBytes(const QByteArray &fBytes)
{
    if (m_fBytes != fBytes) {
        m_fBytes = fBytes;
        fBytesChanged();
    }
}

void All::setLString(const QStringList &lString)
{
    if (m_lString != lString) {
        m_lString = lString;
        lStringChanged();
    }
}

void All::setLBytes(const QByteArrayList &lBytes)
{
    if (m_lBytes != lBytes) {
        m_lBytes = lBytes;
        lBytesChanged();
    }
}

void All::setFSub_p(Sub *fSub)
{
    if (m_fSub.get() != fSub) {
        m_fSub.reset(fSub);
        fSubChanged();
    }
}

void All::setFSub(const Sub &fSub)
{
    if (*m_fSub != fSub) {
        *m_fSub = fSub;
        fSubChanged();
    }
}

void All::setLSub(const SubRepeated &lSub)
{
    if (m_lSub != lSub) {
        m_lSub = lSub;
        lSubChanged();
    }
}

void All::setMIs(const All::MIsEntry &mIs)
{
    if (m_mIs != mIs) {
        m_mIs = mIs;
        mIsChanged();
    }
}

void All::setMSs(const All::MSsEntry &mSs)
{
    if (m_mSs != mSs) {
        m_mSs = mSs;
        mSsChanged();
    }
}

void All::setMZz(const All::MZzEntry &mZz)
{
    if (m_mZz != mZz) {
        m_mZz = mZz;
        mZzChanged();
    }
}

void All::setMSb(const All::MSbEntry &mSb)
{
    if (m_mSb != mSb) {
        m_mSb = mSb;
        mSbChanged();
    }
}

void All::setMUd(const All::MUdEntry &mUd)
{
    if (m_mUd != mUd) {
        m_mUd = mUd;
        mUdChanged();
    }
}

void All::setMLu(const All::MLuEntry &mLu)
{
    if (m_mLu != mLu) {
        m_mLu = mLu;
        mLuChanged();
    }
}

void All::setMFb(const All::MFbEntry &mFb)
{
    if (m_mFb != mFb) {
        m_mFb = mFb;
        mFbChanged();
    }
}

void All::setMBi(const All::MBiEntry &mBi)
{
    if (m_mBi != mBi) {
        m_mBi = mBi;
        mBiChanged();
    }
}

void All::setMIe(const All::MIeEntry &mIe)
{
    if (m_mIe != mIe) {
        m_mIe = mIe;
        mIeChanged();
    }
}

void All::setMXx(const All::MXxEntry &mXx)
{
    if (m_mXx != mXx) {
        m_mXx = mXx;
        mXxChanged();
    }
}

void All::setMUf(const All::MUfEntry &mUf)
{
    if (m_mUf != mUf) {
        m_mUf = mUf;
        mUfChanged();
    }
}

void All::setMFf(const All::MFfEntry &mFf)
{
    if (m_mFf != mFf) {
        m_mFf = mFf;
        mFfChanged();
    }
}


}


namespace vmsg {
static QtProtobuf::ProtoTypeRegistrar<Num> ProtoTypeRegistrarNum(qRegisterProtobufType<Num>);
Num::~Num()
{}

const QtProtobuf::QProtobufMetaObject Num::protobufMetaObject = QtProtobuf::QProtobufMetaObject(Num::staticMetaObject, Num::propertyOrdering);
const QtProtobuf::QProtobufPropertyOrdering Num::propertyOrdering = {{1, {1, "a"}}
    ,{100, {2, "b"}}
    ,{3000, {3, "c"}}
    ,{20000, {4, "d"}}
    ,{536870911, {5, "e"}}
    ,{15, {6, "f"}}
    ,{16, {7, "g"}}
    ,{2047, {8, "h"}}};

void Num::registerTypes()
{
    qRegisterMetaType<Num>("vmsg::Num");
    qRegisterMetaType<Num*>("vmsg::Num*");
    qRegisterMetaType<NumRepeated>("vmsg::NumRepeated");
}
Num::Num(QObject *parent) : QObject(parent)
    , m_a(0)
    , m_c(0)
    , m_d(0)
    , m_e(0)
    , m_f(false)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_c(0)
    , m_d(0)
    , m_e(0)
    , m_f(false)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(0)
    , m_d(0)
    , m_e(0)
    , m_f(false)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(c)
    , m_d(0)
    , m_e(0)
    , m_f(false)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(c)
    , m_d(d)
    , m_e(0)
    , m_f(false)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(c)
    , m_d(d)
    , m_e(e)
    , m_f(false)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,bool f,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(c)
    , m_d(d)
    , m_e(e)
    , m_f(f)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,bool f,const QByteArray &g,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(c)
    , m_d(d)
    , m_e(e)
    , m_f(f)
    , m_g(g)
    , m_h(0.0)
{
}
Num::Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,bool f,const QByteArray &g,double h,QObject *parent) : QObject(parent)
    , m_a(a)
    , m_b(b)
    , m_c(c)
    , m_d(d)
    , m_e(e)
    , m_f(f)
    , m_g(g)
    , m_h(h)
{
}
Num::Num(const Num &other) : QObject()
{
    setA(other.m_a);
    setB(other.m_b);
    setC(other.m_c);
    setD(other.m_d);
    setE(other.m_e);
    setF(other.m_f);
    setG(other.m_g);
    setH(other.m_h);
}
Num &Num::operator =(const Num &other)
{
    setA(other.m_a);
    setB(other.m_b);
    setC(other.m_c);
    setD(other.m_d);
    setE(other.m_e);
    setF(other.m_f);
    setG(other.m_g);
    setH(other.m_h);
    return *this;
}
Num::Num(Num &&other) : QObject()
{
    setA(std::exchange(other.m_a, 0));
    other.aChanged();
    m_b = std::move(other.m_b);
    other.bChanged();
    setC(std::exchange(other.m_c, 0));
    other.cChanged();
    setD(std::exchange(other.m_d, 0));
    other.dChanged();
    setE(std::exchange(other.m_e, 0));
    other.eChanged();
    setF(std::exchange(other.m_f, 0));
    other.fChanged();
    m_g = std::move(other.m_g);
    other.gChanged();
    setH(std::exchange(other.m_h, 0));
    other.hChanged();
}
Num &Num::operator =(Num &&other)
{
    setA(std::exchange(other.m_a, 0));
    other.aChanged();
    if (m_b != other.m_b) {
        m_b = std::move(other.m_b);
        bChanged();
        other.bChanged();
    }setC(std::exchange(other.m_c, 0));
    other.cChanged();
    setD(std::exchange(other.m_d, 0));
    other.dChanged();
    setE(std::exchange(other.m_e, 0));
    other.eChanged();
    setF(std::exchange(other.m_f, 0));
    other.fChanged();
    if (m_g != other.m_g) {
        m_g = std::move(other.m_g);
        gChanged();
        other.gChanged();
    }setH(std::exchange(other.m_h, 0));
    other.hChanged();
    return *this;
}
bool Num::operator ==(const Num &other) const
{
    return m_a == other.m_a
        && m_b == other.m_b
        && m_c == other.m_c
        && m_d == other.m_d
        && m_e == other.m_e
        && m_f == other.m_f
        && m_g == other.m_g
        && m_h == other.m_h;
}
bool Num::operator !=(const Num &other) const
{
    return !this->operator ==(other);
}

void Num::setB(const QString &b)
{
    if (m_b != b) {
        m_b = b;
        bChanged();
    }
}

void Num::setG(const QByteArray &g)
{
    if (m_g != g) {
        m_g = g;
        gChanged();
    }
}


}

