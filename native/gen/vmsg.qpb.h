/* This file is autogenerated. DO NOT CHANGE. All changes will be lost */

#pragma once

#include <QObject>
#include <QMetaType>
#include <QList>
#include <QProtobufObject>
#include <QProtobufLazyMessagePointer>
#include <QSharedPointer>

#include <memory>
#include <unordered_map>

#include <QByteArray>
#include <QString>

namespace vmsg {
class Leaf;
using LeafRepeated = QList<QSharedPointer<Leaf>>;

}


namespace vmsg {
class Sub;
using SubRepeated = QList<QSharedPointer<Sub>>;

}


namespace vmsg {
class All;
using AllRepeated = QList<QSharedPointer<All>>;

}


namespace vmsg {
class Num;
using NumRepeated = QList<QSharedPointer<Num>>;

}


namespace vmsg {
namespace Leaf_QtProtobufNested {
}

class Leaf : public QObject
{
    Q_OBJECT
    Q_PROTOBUF_OBJECT
    Q_DECLARE_PROTOBUF_SERIALIZERS(Leaf)
    Q_PROPERTY(QtProtobuf::sint64 z READ z WRITE setZ NOTIFY zChanged SCRIPTABLE false)
    Q_PROPERTY(QByteArray b READ b WRITE setB NOTIFY bChanged SCRIPTABLE true)

public:
    Leaf(QObject *parent = nullptr);
    Leaf(QtProtobuf::sint64 z,QObject *parent = nullptr);
    Leaf(QtProtobuf::sint64 z,const QByteArray &b,QObject *parent = nullptr);
    virtual ~Leaf();
    Leaf(const Leaf &other);
    Leaf &operator =(const Leaf &other);
    Leaf(Leaf &&other);
    Leaf &operator =(Leaf &&other);
    bool operator ==(const Leaf &other) const;
    bool operator !=(const Leaf &other) const;

    QtProtobuf::sint64 z() const {
        return m_z;
    }


    QByteArray b() const {
        return m_b;
    }

    void setZ(const QtProtobuf::sint64 &z) {
        if (m_z != z) {
            m_z = z;
            zChanged();
        }
    }

    void setB(const QByteArray &b);
    static void registerTypes();

signals:
    void zChanged();
    void bChanged();

private:

private:
    QtProtobuf::sint64 m_z;
    QByteArray m_b;
};

using LeafRepeated = QList<QSharedPointer<Leaf>>;

}

Q_DECLARE_METATYPE(vmsg::Leaf)
Q_DECLARE_METATYPE(vmsg::LeafRepeated)

namespace vmsg {
namespace Sub_QtProtobufNested {
}

class Sub : public QObject
{
    Q_OBJECT
    Q_PROTOBUF_OBJECT
    Q_DECLARE_PROTOBUF_SERIALIZERS(Sub)
    Q_PROPERTY(QtProtobuf::int32 i READ i WRITE setI NOTIFY iChanged SCRIPTABLE true)
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::Leaf *leaf READ leaf_p WRITE setLeaf_p NOTIFY leafChanged)
    Q_PROPERTY(QtProtobuf::int32List l READ l WRITE setL NOTIFY lChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::LeafRepeated lsData READ ls WRITE setLs NOTIFY lsChanged SCRIPTABLE true)

public:
    Sub(QObject *parent = nullptr);
    Sub(QtProtobuf::int32 i,QObject *parent = nullptr);
    Sub(QtProtobuf::int32 i,const QString &s,QObject *parent = nullptr);
    Sub(QtProtobuf::int32 i,const QString &s,const Leaf &leaf,QObject *parent = nullptr);
    Sub(QtProtobuf::int32 i,const QString &s,const Leaf &leaf,const QtProtobuf::int32List &l,QObject *parent = nullptr);
    Sub(QtProtobuf::int32 i,const QString &s,const Leaf &leaf,const QtProtobuf::int32List &l,const LeafRepeated &ls,QObject *parent = nullptr);
    virtual ~Sub();
    Sub(const Sub &other);
    Sub &operator =(const Sub &other);
    Sub(Sub &&other);
    Sub &operator =(Sub &&other);
    bool operator ==(const Sub &other) const;
    bool operator !=(const Sub &other) const;

    const QtProtobuf::int32 i() const {
        return m_i;
    }


    QString s() const {
        return m_s;
    }


    Leaf &leaf() const;

    QtProtobuf::int32List l() const {
        return m_l;
    }

    QtProtobuf::int32List &l() {
        return m_l;
    }


    LeafRepeated ls() const {
        return m_ls;
    }

    LeafRepeated &ls() {
        return m_ls;
    }

    void setI(const QtProtobuf::int32 &i) {
        if (m_i != i) {
            m_i = i;
            iChanged();
        }
    }

    void setS(const QString &s);
    void setLeaf(const Leaf &leaf);
    void setL(const QtProtobuf::int32List &l) {
        if (m_l != l) {
            m_l = l;
            lChanged();
        }
    }

    void setLs(const LeafRepeated &ls);
    static void registerTypes();

signals:
    void iChanged();
    void sChanged();
    void leafChanged();
    void lChanged();
    void lsChanged();

private:
    Leaf *leaf_p() const;
    void setLeaf_p(Leaf *leaf);

private:
    QtProtobuf::int32 m_i;
    QString m_s;
    QProtobufLazyMessagePointer<Leaf> m_leaf;
    QtProtobuf::int32List m_l;
    LeafRepeated m_ls;
};

using SubRepeated = QList<QSharedPointer<Sub>>;

}

Q_DECLARE_METATYPE(vmsg::Sub)
Q_DECLARE_METATYPE(vmsg::SubRepeated)

namespace vmsg {
namespace All_QtProtobufNested {
}

class All : public QObject
{
    Q_OBJECT
    Q_PROTOBUF_OBJECT
    Q_DECLARE_PROTOBUF_SERIALIZERS(All)
    Q_PROPERTY(QtProtobuf::int32 fInt32 READ fInt32 WRITE setFInt32 NOTIFY fInt32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::int64 fInt64 READ fInt64 WRITE setFInt64 NOTIFY fInt64Changed SCRIPTABLE false)
    Q_PROPERTY(QtProtobuf::uint32 fUint32 READ fUint32 WRITE setFUint32 NOTIFY fUint32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::uint64 fUint64 READ fUint64 WRITE setFUint64 NOTIFY fUint64Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sint32 fSint32 READ fSint32 WRITE setFSint32 NOTIFY fSint32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sint64 fSint64 READ fSint64 WRITE setFSint64 NOTIFY fSint64Changed SCRIPTABLE false)
    Q_PROPERTY(bool fBool READ fBool WRITE setFBool NOTIFY fBoolChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::fixed32 fFixed32 READ fFixed32 WRITE setFFixed32 NOTIFY fFixed32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sfixed32 fSfixed32 READ fSfixed32 WRITE setFSfixed32 NOTIFY fSfixed32Changed SCRIPTABLE true)
    Q_PROPERTY(float fFloat READ fFloat WRITE setFFloat NOTIFY fFloatChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::fixed64 fFixed64 READ fFixed64 WRITE setFFixed64 NOTIFY fFixed64Changed SCRIPTABLE false)
    Q_PROPERTY(QtProtobuf::sfixed64 fSfixed64 READ fSfixed64 WRITE setFSfixed64 NOTIFY fSfixed64Changed SCRIPTABLE false)
    Q_PROPERTY(double fDouble READ fDouble WRITE setFDouble NOTIFY fDoubleChanged SCRIPTABLE true)
    Q_PROPERTY(QString fString READ fString WRITE setFString NOTIFY fStringChanged SCRIPTABLE true)
    Q_PROPERTY(QByteArray fBytes READ fBytes WRITE setFBytes NOTIFY fBytesChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::int32List lInt32 READ lInt32 WRITE setLInt32 NOTIFY lInt32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::int64List lInt64 READ lInt64 WRITE setLInt64 NOTIFY lInt64Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::uint32List lUint32 READ lUint32 WRITE setLUint32 NOTIFY lUint32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::uint64List lUint64 READ lUint64 WRITE setLUint64 NOTIFY lUint64Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sint32List lSint32 READ lSint32 WRITE setLSint32 NOTIFY lSint32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sint64List lSint64 READ lSint64 WRITE setLSint64 NOTIFY lSint64Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::fixed32List lFixed32 READ lFixed32 WRITE setLFixed32 NOTIFY lFixed32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sfixed32List lSfixed32 READ lSfixed32 WRITE setLSfixed32 NOTIFY lSfixed32Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::FloatList lFloat READ lFloat WRITE setLFloat NOTIFY lFloatChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::fixed64List lFixed64 READ lFixed64 WRITE setLFixed64 NOTIFY lFixed64Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sfixed64List lSfixed64 READ lSfixed64 WRITE setLSfixed64 NOTIFY lSfixed64Changed SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::DoubleList lDouble READ lDouble WRITE setLDouble NOTIFY lDoubleChanged SCRIPTABLE true)
    Q_PROPERTY(QStringList lString READ lString WRITE setLString NOTIFY lStringChanged SCRIPTABLE true)
    Q_PROPERTY(QByteArrayList lBytes READ lBytes WRITE setLBytes NOTIFY lBytesChanged SCRIPTABLE true)
    Q_PROPERTY(E fEnum READ fEnum WRITE setFEnum NOTIFY fEnumChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::ERepeated lEnum READ lEnum WRITE setLEnum NOTIFY lEnumChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::Sub *fSub READ fSub_p WRITE setFSub_p NOTIFY fSubChanged)
    Q_PROPERTY(vmsg::SubRepeated lSubData READ lSub WRITE setLSub NOTIFY lSubChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MIsEntry mIs READ mIs WRITE setMIs NOTIFY mIsChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MSsEntry mSs READ mSs WRITE setMSs NOTIFY mSsChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MZzEntry mZz READ mZz WRITE setMZz NOTIFY mZzChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MSbEntry mSb READ mSb WRITE setMSb NOTIFY mSbChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MUdEntry mUd READ mUd WRITE setMUd NOTIFY mUdChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MLuEntry mLu READ mLu WRITE setMLu NOTIFY mLuChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MFbEntry mFb READ mFb WRITE setMFb NOTIFY mFbChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MBiEntry mBi READ mBi WRITE setMBi NOTIFY mBiChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MIeEntry mIe READ mIe WRITE setMIe NOTIFY mIeChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MXxEntry mXx READ mXx WRITE setMXx NOTIFY mXxChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MUfEntry mUf READ mUf WRITE setMUf NOTIFY mUfChanged SCRIPTABLE true)
    Q_PROPERTY(vmsg::All::MFfEntry mFf READ mFf WRITE setMFf NOTIFY mFfChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::int32 far READ far WRITE setFar NOTIFY farChanged SCRIPTABLE true)

public:
    enum E {
        E0 = 0,
        E1 = 1,
        E2 = 2147483647,
        EN = -1,
        EM = -2147483648,
    };
    Q_ENUM(E)
    using ERepeated = QList<E>;
    using MIsEntry = QMap<QtProtobuf::int32, QString>;
    using MSsEntry = QMap<QString, QSharedPointer<Sub>>;
    using MZzEntry = QMap<QtProtobuf::sint32, QtProtobuf::sint64>;
    using MSbEntry = QMap<QString, QByteArray>;
    using MUdEntry = QMap<QtProtobuf::uint64, double>;
    using MLuEntry = QMap<QtProtobuf::int64, QtProtobuf::uint32>;
    using MFbEntry = QMap<QtProtobuf::fixed32, bool>;
    using MBiEntry = QMap<bool, QtProtobuf::int32>;
    using MIeEntry = QMap<QtProtobuf::int32, All::E>;
    using MXxEntry = QMap<QtProtobuf::sfixed64, QtProtobuf::sfixed32>;
    using MUfEntry = QMap<QtProtobuf::uint32, float>;
    using MFfEntry = QMap<QtProtobuf::fixed64, QtProtobuf::fixed64>;
    All(QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,const All::MUfEntry &mUf,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,const All::MUfEntry &mUf,const All::MFfEntry &mFf,QObject *parent = nullptr);
    All(QtProtobuf::int32 fInt32,QtProtobuf::int64 fInt64,QtProtobuf::uint32 fUint32,QtProtobuf::uint64 fUint64,QtProtobuf::sint32 fSint32,QtProtobuf::sint64 fSint64,bool fBool,QtProtobuf::fixed32 fFixed32,QtProtobuf::sfixed32 fSfixed32,float fFloat,QtProtobuf::fixed64 fFixed64,QtProtobuf::sfixed64 fSfixed64,double fDouble,const QString &fString,const QByteArray &fBytes,const QtProtobuf::int32List &lInt32,const QtProtobuf::int64List &lInt64,const QtProtobuf::uint32List &lUint32,const QtProtobuf::uint64List &lUint64,const QtProtobuf::sint32List &lSint32,const QtProtobuf::sint64List &lSint64,const QtProtobuf::fixed32List &lFixed32,const QtProtobuf::sfixed32List &lSfixed32,const QtProtobuf::FloatList &lFloat,const QtProtobuf::fixed64List &lFixed64,const QtProtobuf::sfixed64List &lSfixed64,const QtProtobuf::DoubleList &lDouble,const QStringList &lString,const QByteArrayList &lBytes,All::E fEnum,const All::ERepeated &lEnum,const Sub &fSub,const SubRepeated &lSub,const All::MIsEntry &mIs,const All::MSsEntry &mSs,const All::MZzEntry &mZz,const All::MSbEntry &mSb,const All::MUdEntry &mUd,const All::MLuEntry &mLu,const All::MFbEntry &mFb,const All::MBiEntry &mBi,const All::MIeEntry &mIe,const All::MXxEntry &mXx,const All::MUfEntry &mUf,const All::MFfEntry &mFf,QtProtobuf::int32 far,QObject *parent = nullptr);
    virtual ~All();
    All(const All &other);
    All &operator =(const All &other);
    All(All &&other);
    All &operator =(All &&other);
    bool operator ==(const All &other) const;
    bool operator !=(const All &other) const;

    const QtProtobuf::int32 fInt32() const {
        return m_fInt32;
    }


    const QtProtobuf::int64 fInt64() const {
        return m_fInt64;
    }


    QtProtobuf::uint32 fUint32() const {
        return m_fUint32;
    }


    QtProtobuf::uint64 fUint64() const {
        return m_fUint64;
    }


    QtProtobuf::sint32 fSint32() const {
        return m_fSint32;
    }


    QtProtobuf::sint64 fSint64() const {
        return m_fSint64;
    }


    bool fBool() const {
        return m_fBool;
    }


    const QtProtobuf::fixed32 fFixed32() const {
        return m_fFixed32;
    }


    const QtProtobuf::sfixed32 fSfixed32() const {
        return m_fSfixed32;
    }


    float fFloat() const {
        return m_fFloat;
    }


    const QtProtobuf::fixed64 fFixed64() const {
        return m_fFixed64;
    }


    const QtProtobuf::sfixed64 fSfixed64() const {
        return m_fSfixed64;
    }


    double fDouble() const {
        return m_fDouble;
    }


    QString fString() const {
        return m_fString;
    }


    QByteArray fBytes() const {
        return m_fBytes;
    }


    QtProtobuf::int32List lInt32() const {
        return m_lInt32;
    }

    QtProtobuf::int32List &lInt32() {
        return m_lInt32;
    }


    QtProtobuf::int64List lInt64() const {
        return m_lInt64;
    }

    QtProtobuf::int64List &lInt64() {
        return m_lInt64;
    }


    QtProtobuf::uint32List lUint32() const {
        return m_lUint32;
    }

    QtProtobuf::uint32List &lUint32() {
        return m_lUint32;
    }


    QtProtobuf::uint64List lUint64() const {
        return m_lUint64;
    }

    QtProtobuf::uint64List &lUint64() {
        return m_lUint64;
    }


    QtProtobuf::sint32List lSint32() const {
        return m_lSint32;
    }

    QtProtobuf::sint32List &lSint32() {
        return m_lSint32;
    }


    QtProtobuf::sint64List lSint64() const {
        return m_lSint64;
    }

    QtProtobuf::sint64List &lSint64() {
        return m_lSint64;
    }


    QtProtobuf::fixed32List lFixed32() const {
        return m_lFixed32;
    }

    QtProtobuf::fixed32List &lFixed32() {
        return m_lFixed32;
    }


    QtProtobuf::sfixed32List lSfixed32() const {
        return m_lSfixed32;
    }

    QtProtobuf::sfixed32List &lSfixed32() {
        return m_lSfixed32;
    }


    QtProtobuf::FloatList lFloat() const {
        return m_lFloat;
    }

    QtProtobuf::FloatList &lFloat() {
        return m_lFloat;
    }


    QtProtobuf::fixed64List lFixed64() const {
        return m_lFixed64;
    }

    QtProtobuf::fixed64List &lFixed64() {
        return m_lFixed64;
    }


    QtProtobuf::sfixed64List lSfixed64() const {
        return m_lSfixed64;
    }

    QtProtobuf::sfixed64List &lSfixed64() {
        return m_lSfixed64;
    }


    QtProtobuf::DoubleList lDouble() const {
        return m_lDouble;
    }

    QtProtobuf::DoubleList &lDouble() {
        return m_lDouble;
    }


    QStringList lString() const {
        return m_lString;
    }

    QStringList &lString() {
        return m_lString;
    }


    QByteArrayList lBytes() const {
        return m_lBytes;
    }

    QByteArrayList &lBytes() {
        return m_lBytes;
    }


    All::E fEnum() const {
        return m_fEnum;
    }


    All::ERepeated lEnum() const {
        return m_lEnum;
    }

    All::ERepeated &lEnum() {
        return m_lEnum;
    }


    Sub &fSub() const;

    SubRepeated lSub() const {
        return m_lSub;
    }

    SubRepeated &lSub() {
        return m_lSub;
    }


    All::MIsEntry mIs() const {
        return m_mIs;
    }

    All::MIsEntry &mIs() {
        return m_mIs;
    }


    All::MSsEntry mSs() const {
        return m_mSs;
    }

    All::MSsEntry &mSs() {
        return m_mSs;
    }


    All::MZzEntry mZz() const {
        return m_mZz;
    }

    All::MZzEntry &mZz() {
        return m_mZz;
    }


    All::MSbEntry mSb() const {
        return m_mSb;
    }

    All::MSbEntry &mSb() {
        return m_mSb;
    }


    All::MUdEntry mUd() const {
        return m_mUd;
    }

    All::MUdEntry &mUd() {
        return m_mUd;
    }


    All::MLuEntry mLu() const {
        return m_mLu;
    }

    All::MLuEntry &mLu() {
        return m_mLu;
    }


    All::MFbEntry mFb() const {
        return m_mFb;
    }

    All::MFbEntry &mFb() {
        return m_mFb;
    }


    All::MBiEntry mBi() const {
        return m_mBi;
    }

    All::MBiEntry &mBi() {
        return m_mBi;
    }


    All::MIeEntry mIe() const {
        return m_mIe;
    }

    All::MIeEntry &mIe() {
        return m_mIe;
    }


    All::MXxEntry mXx() const {
        return m_mXx;
    }

    All::MXxEntry &mXx() {
        return m_mXx;
    }


    All::MUfEntry mUf() const {
        return m_mUf;
    }

    All::MUfEntry &mUf() {
        return m_mUf;
    }


    All::MFfEntry mFf() const {
        return m_mFf;
    }

    All::MFfEntry &mFf() {
        return m_mFf;
    }


    const QtProtobuf::int32 far() const {
        return m_far;
    }

    void setFInt32(const QtProtobuf::int32 &fInt32) {
        if (m_fInt32 != fInt32) {
            m_fInt32 = fInt32;
            fInt32Changed();
        }
    }

    void setFInt64(const QtProtobuf::int64 &fInt64) {
        if (m_fInt64 != fInt64) {
            m_fInt64 = fInt64;
            fInt64Changed();
        }
    }

    void setFUint32(const QtProtobuf::uint32 &fUint32) {
        if (m_fUint32 != fUint32) {
            m_fUint32 = fUint32;
            fUint32Changed();
        }
    }

    void setFUint64(const QtProtobuf::uint64 &fUint64) {
        if (m_fUint64 != fUint64) {
            m_fUint64 = fUint64;
            fUint64Changed();
        }
    }

    void setFSint32(const QtProtobuf::sint32 &fSint32) {
        if (m_fSint32 != fSint32) {
            m_fSint32 = fSint32;
            fSint32Changed();
        }
    }

    void setFSint64(const QtProtobuf::sint64 &fSint64) {
        if (m_fSint64 != fSint64) {
            m_fSint64 = fSint64;
            fSint64Changed();
        }
    }

    void setFBool(const bool &fBool) {
        if (m_fBool != fBool) {
            m_fBool = fBool;
            fBoolChanged();
        }
    }

    void setFFixed32(const QtProtobuf::fixed32 &fFixed32) {
        if (m_fFixed32 != fFixed32) {
            m_fFixed32 = fFixed32;
            fFixed32Changed();
        }
    }

    void setFSfixed32(const QtProtobuf::sfixed32 &fSfixed32) {
        if (m_fSfixed32 != fSfixed32) {
            m_fSfixed32 = fSfixed32;
            fSfixed32Changed();
        }
    }

    void setFFloat(const float &fFloat) {
        if (m_fFloat != fFloat) {
            m_fFloat = fFloat;
            fFloatChanged();
        }
    }

    void setFFixed64(const QtProtobuf::fixed64 &fFixed64) {
        if (m_fFixed64 != fFixed64) {
            m_fFixed64 = fFixed64;
            fFixed64Changed();
        }
    }

    void setFSfixed64(const QtProtobuf::sfixed64 &fSfixed64) {
        if (m_fSfixed64 != fSfixed64) {
            m_fSfixed64 = fSfixed64;
            fSfixed64Changed();
        }
    }

    void setFDouble(const double &fDouble) {
        if (m_fDouble != fDouble) {
            m_fDouble = fDouble;
            fDoubleChanged();
        }
    }

    void setFString(const QString &fString);
    void setFBytes(const QByteArray &fBytes);
    void setLInt32(const QtProtobuf::int32List &lInt32) {
        if (m_lInt32 != lInt32) {
            m_lInt32 = lInt32;
            lInt32Changed();
        }
    }

    void setLInt64(const QtProtobuf::int64List &lInt64) {
        if (m_lInt64 != lInt64) {
            m_lInt64 = lInt64;
            lInt64Changed();
        }
    }

    void setLUint32(const QtProtobuf::uint32List &lUint32) {
        if (m_lUint32 != lUint32) {
            m_lUint32 = lUint32;
            lUint32Changed();
        }
    }

    void setLUint64(const QtProtobuf::uint64List &lUint64) {
        if (m_lUint64 != lUint64) {
            m_lUint64 = lUint64;
            lUint64Changed();
        }
    }

    void setLSint32(const QtProtobuf::sint32List &lSint32) {
        if (m_lSint32 != lSint32) {
            m_lSint32 = lSint32;
            lSint32Changed();
        }
    }

    void setLSint64(const QtProtobuf::sint64List &lSint64) {
        if (m_lSint64 != lSint64) {
            m_lSint64 = lSint64;
            lSint64Changed();
        }
    }

    void setLFixed32(const QtProtobuf::fixed32List &lFixed32) {
        if (m_lFixed32 != lFixed32) {
            m_lFixed32 = lFixed32;
            lFixed32Changed();
        }
    }

    void setLSfixed32(const QtProtobuf::sfixed32List &lSfixed32) {
        if (m_lSfixed32 != lSfixed32) {
            m_lSfixed32 = lSfixed32;
            lSfixed32Changed();
        }
    }

    void setLFloat(const QtProtobuf::FloatList &lFloat) {
        if (m_lFloat != lFloat) {
            m_lFloat = lFloat;
            lFloatChanged();
        }
    }

    void setLFixed64(const QtProtobuf::fixed64List &lFixed64) {
        if (m_lFixed64 != lFixed64) {
            m_lFixed64 = lFixed64;
            lFixed64Changed();
        }
    }

    void setLSfixed64(const QtProtobuf::sfixed64List &lSfixed64) {
        if (m_lSfixed64 != lSfixed64) {
            m_lSfixed64 = lSfixed64;
            lSfixed64Changed();
        }
    }

    void setLDouble(const QtProtobuf::DoubleList &lDouble) {
        if (m_lDouble != lDouble) {
            m_lDouble = lDouble;
            lDoubleChanged();
        }
    }

    void setLString(const QStringList &lString);
    void setLBytes(const QByteArrayList &lBytes);
    void setFEnum(const All::E &fEnum) {
        if (m_fEnum != fEnum) {
            m_fEnum = fEnum;
            fEnumChanged();
        }
    }

    void setLEnum(const All::ERepeated &lEnum) {
        if (m_lEnum != lEnum) {
            m_lEnum = lEnum;
            lEnumChanged();
        }
    }

    void setFSub(const Sub &fSub);
    void setLSub(const SubRepeated &lSub);
    void setMIs(const All::MIsEntry &mIs);
    void setMSs(const All::MSsEntry &mSs);
    void setMZz(const All::MZzEntry &mZz);
    void setMSb(const All::MSbEntry &mSb);
    void setMUd(const All::MUdEntry &mUd);
    void setMLu(const All::MLuEntry &mLu);
    void setMFb(const All::MFbEntry &mFb);
    void setMBi(const All::MBiEntry &mBi);
    void setMIe(const All::MIeEntry &mIe);
    void setMXx(const All::MXxEntry &mXx);
    void setMUf(const All::MUfEntry &mUf);
    void setMFf(const All::MFfEntry &mFf);
    void setFar(const QtProtobuf::int32 &far) {
        if (m_far != far) {
            m_far = far;
            farChanged();
        }
    }

    static void registerTypes();

signals:
    void fInt32Changed();
    void fInt64Changed();
    void fUint32Changed();
    void fUint64Changed();
    void fSint32Changed();
    void fSint64Changed();
    void fBoolChanged();
    void fFixed32Changed();
    void fSfixed32Changed();
    void fFloatChanged();
    void fFixed64Changed();
    void fSfixed64Changed();
    void fDoubleChanged();
    void fStringChanged();
    void fBytesChanged();
    void lInt32Changed();
    void lInt64Changed();
    void lUint32Changed();
    void lUint64Changed();
    void lSint32Changed();
    void lSint64Changed();
    void lFixed32Changed();
    void lSfixed32Changed();
    void lFloatChanged();
    void lFixed64Changed();
    void lSfixed64Changed();
    void lDoubleChanged();
    void lStringChanged();
    void lBytesChanged();
    void fEnumChanged();
    void lEnumChanged();
    void fSubChanged();
    void lSubChanged();
    void mIsChanged();
    void mSsChanged();
    void mZzChanged();
    void mSbChanged();
    void mUdChanged();
    void mLuChanged();
    void mFbChanged();
    void mBiChanged();
    void mIeChanged();
    void mXxChanged();
    void mUfChanged();
    void mFfChanged();
    void farChanged();

private:
    Sub *fSub_p() const;
    void setFSub_p(Sub *fSub);

private:
    QtProtobuf::int32 m_fInt32;
    QtProtobuf::int64 m_fInt64;
    QtProtobuf::uint32 m_fUint32;
    QtProtobuf::uint64 m_fUint64;
    QtProtobuf::sint32 m_fSint32;
    QtProtobuf::sint64 m_fSint64;
    bool m_fBool;
    QtProtobuf::fixed32 m_fFixed32;
    QtProtobuf::sfixed32 m_fSfixed32;
    float m_fFloat;
    QtProtobuf::fixed64 m_fFixed64;
    QtProtobuf::sfixed64 m_fSfixed64;
    double m_fDouble;
    QString m_fString;
    QByteArray m_fBytes;
    QtProtobuf::int32List m_lInt32;
    QtProtobuf::int64List m_lInt64;
    QtProtobuf::uint32List m_lUint32;
    QtProtobuf::uint64List m_lUint64;
    QtProtobuf::sint32List m_lSint32;
    QtProtobuf::sint64List m_lSint64;
    QtProtobuf::fixed32List m_lFixed32;
    QtProtobuf::sfixed32List m_lSfixed32;
    QtProtobuf::FloatList m_lFloat;
    QtProtobuf::fixed64List m_lFixed64;
    QtProtobuf::sfixed64List m_lSfixed64;
    QtProtobuf::DoubleList m_lDouble;
    QStringList m_lString;
    QByteArrayList m_lBytes;
    All::E m_fEnum;
    All::ERepeated m_lEnum;
    QProtobufLazyMessagePointer<Sub> m_fSub;
    SubRepeated m_lSub;
    All::MIsEntry m_mIs;
    All::MSsEntry m_mSs;
    All::MZzEntry m_mZz;
    All::MSbEntry m_mSb;
    All::MUdEntry m_mUd;
    All::MLuEntry m_mLu;
    All::MFbEntry m_mFb;
    All::MBiEntry m_mBi;
    All::MIeEntry m_mIe;
    All::MXxEntry m_mXx;
    All::MUfEntry m_mUf;
    All::MFfEntry m_mFf;
    QtProtobuf::int32 m_far;
};

using AllRepeated = QList<QSharedPointer<All>>;

}

Q_DECLARE_METATYPE(vmsg::All)
Q_DECLARE_METATYPE(vmsg::AllRepeated)
Q_DECLARE_METATYPE(vmsg::All::E)
Q_DECLARE_METATYPE(vmsg::All::ERepeated)
#ifndef Q_PROTOBUF_MAP_QtProtobuf_int32_QtProtobuf_int32
#define Q_PROTOBUF_MAP_QtProtobuf_int32_QtProtobuf_int32
Q_DECLARE_METATYPE(vmsg::All::MIsEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QString_QString
#define Q_PROTOBUF_MAP_QString_QString
Q_DECLARE_METATYPE(vmsg::All::MSsEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_sint32_QtProtobuf_sint32
#define Q_PROTOBUF_MAP_QtProtobuf_sint32_QtProtobuf_sint32
Q_DECLARE_METATYPE(vmsg::All::MZzEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QString_QString
#define Q_PROTOBUF_MAP_QString_QString
Q_DECLARE_METATYPE(vmsg::All::MSbEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_uint64_QtProtobuf_uint64
#define Q_PROTOBUF_MAP_QtProtobuf_uint64_QtProtobuf_uint64
Q_DECLARE_METATYPE(vmsg::All::MUdEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_int64_QtProtobuf_int64
#define Q_PROTOBUF_MAP_QtProtobuf_int64_QtProtobuf_int64
Q_DECLARE_METATYPE(vmsg::All::MLuEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_fixed32_QtProtobuf_fixed32
#define Q_PROTOBUF_MAP_QtProtobuf_fixed32_QtProtobuf_fixed32
Q_DECLARE_METATYPE(vmsg::All::MFbEntry)
#endif
#ifndef Q_PROTOBUF_MAP_bool_bool
#define Q_PROTOBUF_MAP_bool_bool
Q_DECLARE_METATYPE(vmsg::All::MBiEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_int32_QtProtobuf_int32
#define Q_PROTOBUF_MAP_QtProtobuf_int32_QtProtobuf_int32
Q_DECLARE_METATYPE(vmsg::All::MIeEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_sfixed64_QtProtobuf_sfixed64
#define Q_PROTOBUF_MAP_QtProtobuf_sfixed64_QtProtobuf_sfixed64
Q_DECLARE_METATYPE(vmsg::All::MXxEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_uint32_QtProtobuf_uint32
#define Q_PROTOBUF_MAP_QtProtobuf_uint32_QtProtobuf_uint32
Q_DECLARE_METATYPE(vmsg::All::MUfEntry)
#endif
#ifndef Q_PROTOBUF_MAP_QtProtobuf_fixed64_QtProtobuf_fixed64
#define Q_PROTOBUF_MAP_QtProtobuf_fixed64_QtProtobuf_fixed64
Q_DECLARE_METATYPE(vmsg::All::MFfEntry)
#endif

namespace vmsg {
namespace Num_QtProtobufNested {
}

class Num : public QObject
{
    Q_OBJECT
    Q_PROTOBUF_OBJECT
    Q_DECLARE_PROTOBUF_SERIALIZERS(Num)
    Q_PROPERTY(QtProtobuf::int32 a READ a WRITE setA NOTIFY aChanged SCRIPTABLE true)
    Q_PROPERTY(QString b READ b WRITE setB NOTIFY bChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::sint64 c READ c WRITE setC NOTIFY cChanged SCRIPTABLE false)
    Q_PROPERTY(QtProtobuf::fixed32 d READ d WRITE setD NOTIFY dChanged SCRIPTABLE true)
    Q_PROPERTY(QtProtobuf::uint64 e READ e WRITE setE NOTIFY eChanged SCRIPTABLE true)
    Q_PROPERTY(bool f READ f WRITE setF NOTIFY fChanged SCRIPTABLE true)
    Q_PROPERTY(QByteArray g READ g WRITE setG NOTIFY gChanged SCRIPTABLE true)
    Q_PROPERTY(double h READ h WRITE setH NOTIFY hChanged SCRIPTABLE true)

public:
    Num(QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,bool f,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,bool f,const QByteArray &g,QObject *parent = nullptr);
    Num(QtProtobuf::int32 a,const QString &b,QtProtobuf::sint64 c,QtProtobuf::fixed32 d,QtProtobuf::uint64 e,bool f,const QByteArray &g,double h,QObject *parent = nullptr);
    virtual ~Num();
    Num(const Num &other);
    Num &operator =(const Num &other);
    Num(Num &&other);
    Num &operator =(Num &&other);
    bool operator ==(const Num &other) const;
    bool operator !=(const Num &other) const;

    const QtProtobuf::int32 a() const {
        return m_a;
    }


    QString b() const {
        return m_b;
    }


    QtProtobuf::sint64 c() const {
        return m_c;
    }


    const QtProtobuf::fixed32 d() const {
        return m_d;
    }


    QtProtobuf::uint64 e() const {
        return m_e;
    }


    bool f() const {
        return m_f;
    }


    QByteArray g() const {
        return m_g;
    }


    double h() const {
        return m_h;
    }

    void setA(const QtProtobuf::int32 &a) {
        if (m_a != a) {
            m_a = a;
            aChanged();
        }
    }

    void setB(const QString &b);
    void setC(const QtProtobuf::sint64 &c) {
        if (m_c != c) {
            m_c = c;
            cChanged();
        }
    }

    void setD(const QtProtobuf::fixed32 &d) {
        if (m_d != d) {
            m_d = d;
            dChanged();
        }
    }

    void setE(const QtProtobuf::uint64 &e) {
        if (m_e != e) {
            m_e = e;
            eChanged();
        }
    }

    void setF(const bool &f) {
        if (m_f != f) {
            m_f = f;
            fChanged();
        }
    }

    void setG(const QByteArray &g);
    void setH(const double &h) {
        if (m_h != h) {
            m_h = h;
            hChanged();
        }
    }

    static void registerTypes();

signals:
    void aChanged();
    void bChanged();
    void cChanged();
    void dChanged();
    void eChanged();
    void fChanged();
    void gChanged();
    void hChanged();

private:

private:
    QtProtobuf::int32 m_a;
    QString m_b;
    QtProtobuf::sint64 m_c;
    QtProtobuf::fixed32 m_d;
    QtProtobuf::uint64 m_e;
    bool m_f;
    QByteArray m_g;
    double m_h;
};

using NumRepeated = QList<QSharedPointer<Num>>;

}

Q_DECLARE_METATYPE(vmsg::Num)
Q_DECLARE_METATYPE(vmsg::NumRepeated)
