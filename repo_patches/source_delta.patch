From dc9ff141f8a95a96768a08e08767295dd9637502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 01/18] fix: reject length prefixes of 2 GiB and more instead
 of moving the read position backwards

---
 src/protobuf/qprotobufselfcheckiterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..998c273 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -75,19 +75,19 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
 
     QProtobufSelfcheckIterator &operator -=(int count) {
-        m_sizeLeft += count;
-        if (m_sizeLeft > m_containerSize) {
+        if (count < 0 || count > m_containerSize - m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft += count;
         m_it -= count;
         return *this;
     }
-- 
2.43.0


From 26f518051939ffbd35e2c57f06d231679579c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 02/18] fix: reject varints longer than ten bytes instead of
 shifting out of range

---
 src/protobuf/qprotobufserializer_p.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..df9218e 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -281,6 +281,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k >= 64) {
+                throw std::out_of_range("Varint is longer than 10 bytes. Deserialization failed");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
-- 
2.43.0


From 0ce5242d6c35299fb52e27ac6b2e14285892c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 03/18] fix: check that a fixed-width value fits into the input
 before reading it

---
 src/protobuf/qprotobufserializer_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index df9218e..b9877e5 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -306,8 +306,9 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
+        const auto data = QByteArray::const_iterator(it);
         it += sizeof(V);
+        variantValue = QVariant::fromValue(*(V *)data);
     }
 
     template <typename V,
-- 
2.43.0


From c996783eff4ce2c16f6d9dafc298fbcf01435c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 04/18] fix: check that a length-delimited value fits into the
 input before copying it

---
 src/protobuf/qprotobufserializer_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index b9877e5..83070db 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -379,9 +379,9 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         unsigned int length = deserializeVarintCommon<uint32>(it);
-        QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
+        const auto data = QByteArray::const_iterator(it);
         it += length;
-        return result;
+        return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
-- 
2.43.0


From 5b7887eb670b2b69af363e9d6f398ea68e5c8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 05/18] fix: reject invalid headers and skip unknown fields
 inside map entries

---
 src/protobuf/qprotobufserializer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..70fac75 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -332,12 +332,17 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map entry received doesn't contain valid header byte. "
+                                        "Seems stream is broken");
+        }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
             handler.deserializer(it, key);
+        } else if (mapIndex != 2) {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         } else {
             //TODO: replace with some common function
             int userType = value.userType();
-- 
2.43.0


From aefefc01b79d56606d8a19565515558b1c489f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:43 +0000
Subject: [PATCH 06/18] fix: compare repeated message fields without
 dereferencing null or missing elements

---
 src/protobuf/qtprotobuftypes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..b5c0259 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -283,7 +283,7 @@ bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QShared
     auto itA = std::begin(a);
     auto itB = std::begin(b);
     while (itA != std::end(a) && itB != std::end(b)) {
-        if (*itA != *itB && *(*itA) != *(*itB)) {
+        if (*itA != *itB && (itA->isNull() || itB->isNull() || *(*itA) != *(*itB))) {
             return false;
         }
         ++itA;
@@ -305,8 +305,12 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
     }
 
     for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
-        if (b.value((*itA).first) != (*itA).second
-                && *(b.value((*itA).first)) != *((*itA).second)) {
+        auto itB = b.constFind((*itA).first);
+        if (itB == b.constEnd()) {
+            return false;
+        }
+        if (itB.value() != (*itA).second
+                && (itB.value().isNull() || (*itA).second.isNull() || *(itB.value()) != *((*itA).second))) {
             return false;
         }
     }
-- 
2.43.0


From 43cbccefb047ad950f4812870ed72bd1284eeb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:43 +0000
Subject: [PATCH 07/18] fix: return from lazy message pointer operators and
 keep ownership tracking when moving

---
 src/protobuf/qprotobuflazymessagepointer.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 0123f77..d84e6b4 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -55,7 +55,7 @@ public:
         if (m_ptr == nullptr) {
             m_ptr.reset(new T);
         }
-        m_ptr.operator->();
+        return m_ptr.operator->();
     }
 
     T *get() const {
@@ -87,9 +87,14 @@ public:
         m_ptr.reset(p);
     }
 
-    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {}
+    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) {
+        takeFrom(other);
+    }
     QProtobufLazyMessagePointer &operator =(QProtobufLazyMessagePointer &&other) {
-        m_ptr = std::move(other.m_ptr);
+        if (this != &other) {
+            takeFrom(other);
+        }
+        return *this;
     }
 
     explicit operator bool() const noexcept {
@@ -97,6 +102,17 @@ public:
     }
 
 private:
+    void takeFrom(QProtobufLazyMessagePointer &other) {
+        QObject::disconnect(other.m_destroyed);
+        if (other.m_ptr != nullptr) {
+            reset(other.m_ptr.release());
+        } else {
+            checkAndRelease();
+            QObject::disconnect(m_destroyed);
+            m_ptr.reset();
+        }
+    }
+
     void checkAndRelease() const {
 #if defined(QT_QML_LIB)
         bool qmlCheck = QQmlEngine::objectOwnership(m_ptr.get()) == QQmlEngine::JavaScriptOwnership;
-- 
2.43.0


From 04d104ce90b62eac900831c5aa273b443cc0d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:43 +0000
Subject: [PATCH 08/18] fix: do not iterate over active streams while aborting
 them

---
 src/grpc/qabstractgrpcclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..cf0895d 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -63,11 +63,12 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
+    //Aborted streams remove itself from activeStreams, so iterate over the copy
+    for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
 }
-- 
2.43.0


From 90a24e61592297c4f77fcf194bc2a93532dd36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:00 +0000
Subject: [PATCH 09/18] fix: reassemble streamed messages for every
 fragmentation of the received data

---
 src/grpc/qgrpchttp2channel.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..0255546 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -101,7 +101,7 @@ namespace QtProtobuf {
 struct QGrpcHttp2ChannelPrivate {
     //! \private
     struct ExpectedData {
-        int expectedSize;
+        qint64 expectedSize;
         QByteArray container;
     };
 
@@ -192,8 +192,12 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    //Total size of the first message in the container including size header, size header only if it's not complete yet
+    static qint64 getExpectedDataSize(const QByteArray &container) {
+        if (container.size() < GrpcMessageSizeHeaderSize) {
+            return GrpcMessageSizeHeaderSize;
+        }
+        return qint64(qFromBigEndian(*reinterpret_cast<const quint32 *>(container.data() + 1))) + GrpcMessageSizeHeaderSize;
     }
 };
 
@@ -273,6 +277,8 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
 {
     assert(grpcStream != nullptr);
     QNetworkReply *networkReply = dPtr->post(grpcStream->method(), service, grpcStream->arg(), true);
+    //Data of aborted stream might be left in case if address of its reply is reused
+    dPtr->activeStreamReplies.erase(networkReply);
 
     std::shared_ptr<QMetaObject::Connection> finishConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
@@ -285,34 +291,25 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
 
         if (replyIt == dPtr->activeStreamReplies.end()) {
             qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
-
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
-            }
+            qProtoDebug() << "First chunk received: " << data.size();
 
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
+            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{GrpcMessageSizeHeaderSize, QByteArray{}};
             replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
         }
 
         QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
         dataContainer.container.append(data);
+        dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
 
         qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
         while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
             qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
             grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
             dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
-            }
+            dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
         }
 
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
+        if (dataContainer.container.isEmpty() || networkReply->isFinished()) {
             dPtr->activeStreamReplies.erase(replyIt);
         }
     });
-- 
2.43.0


From a280b0875b88fa6f2aa8a539e230d8740eb8c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 10/18] fix: keep the part of a string field that follows a NUL
 character when decoding

---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 src/protobuf/qprotobufserializer_p.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 70fac75..7a5a4ca 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -68,7 +68,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
 
     QStringList list = previousValue.value<QStringList>();
     QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value));
+    list.append(QString::fromUtf8(value.constData(), value.size()));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 83070db..52966e0 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -352,7 +352,8 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        variantValue = QVariant::fromValue(QString::fromUtf8(deserializeLengthDelimited(it)));
+        const QByteArray data = deserializeLengthDelimited(it);
+        variantValue = QVariant::fromValue(QString::fromUtf8(data.constData(), data.size()));
     }
 
     //-------------------------List types deserializers--------------------------
-- 
2.43.0


From c306095ace9bc0d3590035a8e45997055de089e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:50 +0000
Subject: [PATCH 11/18] fix: allow assignment to a status that was moved out

The copy assignment dereferenced the private pointer of the target, which
is null after a move.
---
 src/grpc/qgrpcstatus.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcstatus.cpp b/src/grpc/qgrpcstatus.cpp
index 5aa1c73..d6a1d42 100644
--- a/src/grpc/qgrpcstatus.cpp
+++ b/src/grpc/qgrpcstatus.cpp
@@ -52,8 +52,8 @@ QGrpcStatus::QGrpcStatus(QGrpcStatus &&other) : dPtr(std::move(other.dPtr))
 
 QGrpcStatus &QGrpcStatus::operator =(const QGrpcStatus &other)
 {
-    dPtr->m_code = other.dPtr->m_code;
-    dPtr->m_message = other.dPtr->m_message;
+    //Status might be moved out already
+    dPtr = std::make_unique<QGrpcStatusPrivate>(other.dPtr->m_code, other.dPtr->m_message);
     return *this;
 }
 
-- 
2.43.0


From 905c0b6de21daa9aadd527d2b7febd9007bbd0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 12/18] fix: don't iterate stream handlers while a handler adds
 another one

A handler that subscribes to the same stream again appends to m_handlers
while QGrpcStream::handler iterates over it, which invalidates the iterator
and reads freed memory.
---
 src/grpc/qgrpcstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..5dcbf2d 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,8 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        //Handlers may add new handlers to this stream, so iterate over the copy
+        for (auto handler : std::vector<StreamHandler>(m_handlers)) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From 3e8378d149b4f2f444e62decef7c3aa667039303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 13/18] fix: don't restore a stream that was finished during
 the back-off

After a stream error the stream is restored by timeout whenever it is still
referenced. If the application keeps its reference and aborts the stream
before the timeout, the cancelled stream was opened again.
---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index cf0895d..b2a75f1 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -160,7 +160,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                //Stream might be finished or aborted while waiting for timeout, it should not be restored then
+                if (stream && std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream) != std::end(dPtr->activeStreams)) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From 152625ed835be7e6609972ec1aea623aa671e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:20 +0000
Subject: [PATCH 14/18] fix: register and declare every nested enum once,
 whichever fields use it

Nested enums were declared to the meta type system and registered per field
of the message: two fields of the same enum declared it twice (the generated
header did not compile), and an enum used only by other messages was never
registered (serializing such a field threw std::bad_function_call).
Iterate over the enums of the message instead.
---
 src/generator/messagedeclarationprinter.cpp | 11 ++++++-----
 src/generator/messagedefinitionprinter.cpp  |  8 ++++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index e09dac2..2b2d0ef 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -190,12 +190,13 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        auto enumMap = common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor);
+        mPrinter->Print(enumMap, Templates::DeclareMetaTypeTemplate);
+        mPrinter->Print(enumMap, Templates::DeclareMetaTypeListTemplate);
+    }
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             propertyMap["key_type_underscore"] = propertyMap["key_type"];
             utils::replace(propertyMap["key_type_underscore"], "::", "_");
 
diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..43bbd32 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,11 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        mPrinter->Print(common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor), Templates::RegisterLocalEnumTemplate);
+    }
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From d8ba1002cfe35bb379d5689512cfdaeb0f00c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:30 +0000
Subject: [PATCH 15/18] fix: keep the whole native gRPC status message

The message of a grpc::Status may contain NUL bytes; going through
c_str() cut it at the first one.
---
 src/grpc/qgrpcchannel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..69ace98 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -98,7 +98,7 @@ QGrpcChannelStream::QGrpcChannelStream(grpc::Channel *channel, const QString &me
             if (!status.ok()) {
                 this->status = {
                     (QGrpcStatus::StatusCode) status.error_code(),
-                    status.error_message().c_str()
+                    QString::fromStdString(status.error_message())
                 };
 
                 return; // exit thread
@@ -111,7 +111,7 @@ QGrpcChannelStream::QGrpcChannelStream(grpc::Channel *channel, const QString &me
 
         this->status = {
             (QGrpcStatus::StatusCode) status.error_code(),
-            status.error_message().c_str()
+            QString::fromStdString(status.error_message())
         };
 
         return; // exit thread
@@ -159,7 +159,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         if (!status.ok()) {
             this->status = {
                 static_cast<QGrpcStatus::StatusCode>(status.error_code()),
-                status.error_message().c_str()
+                QString::fromStdString(status.error_message())
             };
 
             return; // exit thread
@@ -169,7 +169,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
 
         this->status = {
             static_cast<QGrpcStatus::StatusCode>(status.error_code()),
-            status.error_message().c_str()
+            QString::fromStdString(status.error_message())
         };
     });
 
-- 
2.43.0


From d147f2b17e3a040144630d28962038a3a98f8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:40 +0000
Subject: [PATCH 16/18] fix: do not deliver queued messages of a finished
 native gRPC stream

A message queued by the reader thread before the client finished the
stream was still delivered to the handlers afterwards, because
disconnecting does not withdraw events that are already posted.
---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 69ace98..0431b7a 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -273,8 +273,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        //Data might be queued before stream was finished, it should not be delivered then
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From 4bf2ac472cb83f64648aac14c183988550b12980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 17/18] fix: notify the change of an enum field by move
 assignment of a message

---
 src/generator/messagedefinitionprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index 43bbd32..12ae18b 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -302,7 +302,7 @@ void MessageDefinitionPrinter::printMoveSemantic()
                 mPrinter->Print(propertyMap, Templates::MoveFieldTemplate);
             }
             else {
-                mPrinter->Print(propertyMap, Templates::EnumMoveFieldTemplate);
+                mPrinter->Print(propertyMap, Templates::CopyFieldTemplate);
             }
         }
     });
-- 
2.43.0


From bb84fe75ea418ad2f90ce4c18b68f4f90099ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:59 +0000
Subject: [PATCH 18/18] fix: report an unknown serializer plugin instead of
 dereferencing null

getSerializer(id, plugin) added an empty record for a plugin that was never
loaded and dereferenced it; it now throws std::out_of_range, as for an unknown id.
---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0

