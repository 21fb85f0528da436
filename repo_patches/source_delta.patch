From 7b9e6b8121951b9d7dae0ddd629bb5d63c2856c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:28 +0000
Subject: [PATCH 01/37] fix: do not start another backend connection once the
 session has ended

A pending name resolution or a connect aborted by the teardown went on with
the next endpoint, reopening the backend socket of a session whose client had
already gone.
---
 libamqpprox/amqpprox_session.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9dca7b4..1fa64e6 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -310,6 +310,12 @@ void Session::attemptConnection(
 void Session::attemptResolvedConnection(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
+    if (finished()) {
+        LOG_WARN << "Not attempting a connection because the session has "
+                    "already ended";
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
-- 
2.43.0


From 8db60f37365e13f2b4f9fb7ff86dc378c3c717a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 02/37] fix: start each backend connection attempt on a fresh
 socket

Failover reused the socket of the failed attempt. A socket keeps the address
family it was opened with, so a candidate of the other family could never be
reached, and a connection that failed after being made leaked into the next
attempt.
---
 libamqpprox/amqpprox_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 1fa64e6..ebbc698 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -1002,6 +1002,11 @@ void Session::handleConnectionError(
              << "' error_code=" << TlsUtil::augmentTlsError(ec)
              << " conn=" << ConnectionSummary(*this);
 
+    // The next endpoint may be of another address family, and the failure may
+    // have come after the connection was made: start over with a new socket.
+    boost::system::error_code closeEc;
+    d_clientSocket->close(closeEc);
+
     attemptResolvedConnection(connectionManager);
 }
 
-- 
2.43.0


From 70d5857c9fb6ed6460edb478b1478b825e822520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:37 +0000
Subject: [PATCH 03/37] fix: accept handshake methods of the broker only from
 the broker

---
 libamqpprox/amqpprox_connector.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 61e0111..11fda26 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -60,6 +60,17 @@ std::ostream &streamOutMethod(std::ostream &os, const Method &method)
     return os << "Unknown: " << method.methodType;
 }
 
+// While acting as a client only the broker may drive the handshake forward
+void expectFromServer(const Method &method, FlowType direction)
+{
+    if (direction != FlowType::EGRESS) {
+        std::ostringstream oss;
+        oss << "Received method from client before the connection is open: ";
+        streamOutMethod(oss, method);
+        throw std::runtime_error(oss.str());
+    }
+}
+
 template <typename T>
 void decodeMethod(T            *t,
                   const Method &method,
@@ -194,6 +205,7 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a client
     case State::AWAITING_CONNECTION: {
+        expectFromServer(method, direction);
         decodeMethod(&d_receivedStart, method, methodPayload, direction);
 
         LOG_TRACE << "Server Start: " << d_receivedStart;
@@ -216,6 +228,7 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a client
     case State::STARTOK_SENT: {
+        expectFromServer(method, direction);
         decodeMethod(&d_receivedTune, method, methodPayload, direction);
         LOG_TRACE << "Server Tune: " << d_receivedTune;
 
@@ -224,6 +237,7 @@ void Connector::receive(const Method &method, FlowType direction)
         d_state = State::OPEN_SENT;
     } break;
     case State::OPEN_SENT: {
+        expectFromServer(method, direction);
         if (method.methodType == methods::OpenOk::methodType()) {
             // We are good to go
             d_state = State::OPEN;
-- 
2.43.0


From c84087795f7fbd8e50544899d949c49f1746969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 04/37] fix: tell the client when the broker refuses its Open

---
 libamqpprox/amqpprox_connector.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 11fda26..5c6386c 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -238,20 +238,20 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     case State::OPEN_SENT: {
         expectFromServer(method, direction);
-        if (method.methodType == methods::OpenOk::methodType()) {
-            // We are good to go
-            d_state = State::OPEN;
+        // Anything but OpenOk here is the broker refusing the connection
+        decodeMethod(&d_openOk, method, methodPayload, direction);
 
-            d_eventSource_p->connectionEstablished().emit(
-                d_sessionState_p->id());
+        // We are good to go
+        d_state = State::OPEN;
 
-            if (!d_reconnection) {
-                sendResponse(d_openOk, true);
-            }
+        d_eventSource_p->connectionEstablished().emit(d_sessionState_p->id());
 
-            if (d_connectionReadyHandler) {
-                d_connectionReadyHandler();
-            }
+        if (!d_reconnection) {
+            sendResponse(d_openOk, true);
+        }
+
+        if (d_connectionReadyHandler) {
+            d_connectionReadyHandler();
         }
     } break;
     case State::CLIENT_CLOSE_SENT: {
-- 
2.43.0


From 6b596c6765374cef8642592ca04c74f2dbb5d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 05/37] fix: send the Close of a refused client also when its
 text is too long

---
 libamqpprox/amqpprox_connector.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 5c6386c..739e845 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -438,7 +438,13 @@ void Connector::synthesizeMessage(methods::Close  &replyMethod,
                                   uint16_t         methodId)
 {
     d_buffer = Buffer();  // forget inbound buffer
-    replyMethod.setReply(code, std::string(text), classId, methodId);
+
+    // The reply text is a short string, which could not be encoded if longer
+    replyMethod.setReply(
+        code,
+        std::string(text.substr(0, Constants::shortStringLimit())),
+        classId,
+        methodId);
     sendResponse(replyMethod, sendToIngressSide);
 }
 
-- 
2.43.0


From a68935cf1ef8f1205c871eda94ceb0ab62d48493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 06/37] fix: record the broker as the cause when its TLS
 handshake fails

---
 libamqpprox/amqpprox_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index ebbc698..f77ad00 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -406,7 +406,7 @@ void Session::attemptEndpointConnection(
                             d_sessionState.id()));
 
                     if (ec) {
-                        handleSessionError("ssl", FlowType::INGRESS, ec);
+                        handleSessionError("ssl", FlowType::EGRESS, ec);
                         return;
                     }
 
@@ -435,7 +435,7 @@ void Session::attemptEndpointConnection(
                     [this, self, hscb{std::move(handshake_cb)}](error_code ec,
                                                                 std::size_t) {
                         if (ec) {
-                            handleSessionError("write", FlowType::INGRESS, ec);
+                            handleSessionError("write", FlowType::EGRESS, ec);
                             return;
                         }
 
-- 
2.43.0


From 8e8cea5470d7376b510f3d7eaf2a97b702af837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:15 +0000
Subject: [PATCH 07/37] fix: advance the round robin once for each connection

---
 libamqpprox/amqpprox_backendset.cpp           | 2 +-
 libamqpprox/amqpprox_connectionmanager.cpp    | 7 +++++++
 libamqpprox/amqpprox_robinbackendselector.cpp | 1 -
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_backendset.cpp b/libamqpprox/amqpprox_backendset.cpp
index cd43dda..c9e9685 100644
--- a/libamqpprox/amqpprox_backendset.cpp
+++ b/libamqpprox/amqpprox_backendset.cpp
@@ -31,7 +31,7 @@ BackendSet::BackendSet(std::vector<BackendSet::Partition> partitions)
 // MANIPULATORS
 uint64_t BackendSet::markPartition(uint64_t partitionId)
 {
-    if (partitionId > d_markers.size()) {
+    if (partitionId >= d_markers.size()) {
         return 0;
     }
 
diff --git a/libamqpprox/amqpprox_connectionmanager.cpp b/libamqpprox/amqpprox_connectionmanager.cpp
index 1fa0892..63a9d88 100644
--- a/libamqpprox/amqpprox_connectionmanager.cpp
+++ b/libamqpprox/amqpprox_connectionmanager.cpp
@@ -33,6 +33,13 @@ ConnectionManager::ConnectionManager(std::shared_ptr<BackendSet> backendSet,
 , d_markerSnapshot(d_backendSet->markers())
 , d_backendSelector_p(backendSelector)
 {
+    // Move the markers on exactly once for each connection, so that the next
+    // one starts from the next backend however often this one asks.
+    if (d_backendSelector_p) {
+        for (uint64_t i = 0; i < d_markerSnapshot.size(); ++i) {
+            d_backendSet->markPartition(i);
+        }
+    }
 }
 
 const Backend *ConnectionManager::getConnection(uint64_t retryCount) const
diff --git a/libamqpprox/amqpprox_robinbackendselector.cpp b/libamqpprox/amqpprox_robinbackendselector.cpp
index a51e2ed..d37e6ba 100644
--- a/libamqpprox/amqpprox_robinbackendselector.cpp
+++ b/libamqpprox/amqpprox_robinbackendselector.cpp
@@ -46,7 +46,6 @@ RobinBackendSelector::select(BackendSet                  *backendSet,
         }
         else {
             uint64_t point = (marker + retry) % partitionSize;
-            backendSet->markPartition(i);
             return backendSet->partitions()[i][point];
         }
 
-- 
2.43.0


From cd93c122aecca6a313a6a24a0f8b71b9b8fde8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:50 +0000
Subject: [PATCH 08/37] fix: write a well-formed PROXY header for IPv6 and for
 DNS backends

---
 libamqpprox/amqpprox_session.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index f77ad00..490cfa5 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -111,6 +111,15 @@ std::string getConnectionName(const Connector &connector)
     return {};
 }
 
+boost::asio::ip::address toV6(const boost::asio::ip::address &address)
+{
+    if (address.is_v4()) {
+        return boost::asio::ip::make_address_v6(boost::asio::ip::v4_mapped,
+                                                address.to_v4());
+    }
+    return address;
+}
+
 void logException(const std::string_view error,
                   const SessionState    &sessionState,
                   FlowType               direction)
@@ -455,15 +464,23 @@ std::string Session::getProxyProtocolHeader(const Backend *currentBackend)
 {
     // For now only Proxy Protocol V1 is supported
     LOG_INFO << "Proxy Protocol V1 is enabled for: " << d_sessionState;
-    auto              remoteClient = d_sessionState.getIngress().second;
-    std::stringstream remoteClientAddress;
-    remoteClientAddress << remoteClient.address();
+    auto remoteClient       = d_sessionState.getIngress().second;
+    auto sourceAddress      = remoteClient.address();
+    auto destinationAddress = d_sessionState.getEgress().second.address();
+    auto inetProtocol       = ProxyProtocolHeaderV1::InetProtocol::TCP4;
+
+    if (sourceAddress.is_v6() || destinationAddress.is_v6()) {
+        // Both addresses of a header are of the same family
+        inetProtocol       = ProxyProtocolHeaderV1::InetProtocol::TCP6;
+        sourceAddress      = toV6(sourceAddress);
+        destinationAddress = toV6(destinationAddress);
+    }
 
     // Add Proxy Protocol-V1 Header
     ProxyProtocolHeaderV1 header =
-        ProxyProtocolHeaderV1(ProxyProtocolHeaderV1::InetProtocol::TCP4,
-                              remoteClientAddress.str(),
-                              currentBackend->ip(),
+        ProxyProtocolHeaderV1(inetProtocol,
+                              sourceAddress.to_string(),
+                              destinationAddress.to_string(),
                               remoteClient.port(),
                               currentBackend->port());
 
-- 
2.43.0


From 4e016f4bfa39b8841f15b1616dfc340540f12f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:22 +0000
Subject: [PATCH 09/37] fix: hold back connection attempts and client data
 while paused, resume both on unpause

---
 libamqpprox/amqpprox_session.cpp | 96 +++++++++++++++++++++++++-------
 libamqpprox/amqpprox_session.h   |  5 ++
 2 files changed, 80 insertions(+), 21 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 490cfa5..bf3ede8 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -168,6 +168,9 @@ Session::Session(
 , d_egressStartedAt()
 , d_resolvedEndpoints()
 , d_resolvedEndpointsIndex(0)
+, d_pauseCount(0)
+, d_ingressHeld(false)
+, d_heldAttempt()
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
@@ -232,17 +235,21 @@ void Session::start()
 void Session::attemptConnection(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
-    if (d_sessionState.getPaused()) {
-        LOG_DEBUG << "Not establishing a connection because paused";
-        return;
-    }
-
     if (finished()) {
         LOG_WARN << "Not establishing a connection because client already "
                  << " disconnected";
         return;
     }
 
+    if (d_sessionState.getPaused()) {
+        LOG_DEBUG << "Not establishing a connection because paused";
+        d_heldAttempt = [this, connectionManager] {
+            attemptConnection(connectionManager);
+        };
+        d_sessionState.setReadyToConnectOnUnpause(true);
+        return;
+    }
+
     const Backend *backend =
         connectionManager->getConnection(d_egressRetryCounter);
 
@@ -325,6 +332,15 @@ void Session::attemptResolvedConnection(
         return;
     }
 
+    if (d_sessionState.getPaused()) {
+        LOG_DEBUG << "Not attempting a connection because paused";
+        d_heldAttempt = [this, connectionManager] {
+            attemptResolvedConnection(connectionManager);
+        };
+        d_sessionState.setReadyToConnectOnUnpause(true);
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
@@ -563,6 +579,11 @@ void Session::establishConnection()
         else if (authResponseData.result() == authproto::AuthResponse::ALLOW) {
             LOG_TRACE << "Authenticated/Authorized client, reason: "
                       << authResponseData.reason();
+            if (d_sessionState.getPaused()) {
+                LOG_DEBUG << "Not establishing a connection because paused";
+                d_sessionState.setReadyToConnectOnUnpause(true);
+                return;
+            }
             if (authResponseData.has_authdata()) {
                 authproto::SASL sasl = authResponseData.authdata();
                 d_connector.setAuthMechanismCredentials(sasl.authmechanism(),
@@ -615,6 +636,7 @@ void Session::print(std::ostream &os)
 
 void Session::pause()
 {
+    ++d_pauseCount;
     if (!d_sessionState.getPaused()) {
         d_sessionState.setPaused(true);
     }
@@ -622,26 +644,55 @@ void Session::pause()
 
 void Session::unpause()
 {
-    if (d_sessionState.getPaused()) {
-        if (d_sessionState.getReadyToConnectOnUnpause()) {
-            BOOST_LOG_SCOPED_THREAD_ATTR(
-                "Vhost",
-                boost::log::attributes::constant<std::string>(
-                    d_sessionState.getVirtualHost()));
-            BOOST_LOG_SCOPED_THREAD_ATTR(
-                "ConnID",
-                boost::log::attributes::constant<uint64_t>(
-                    d_sessionState.id()));
-            LOG_DEBUG << "Session unpaused. Starting to acquire connection";
+    // Called from the control socket thread, while the session belongs to the
+    // event loop. A pause that comes before the event loop gets here wins.
+    auto self(shared_from_this());
+    d_ioContext.dispatch([this, self, pauseCount = d_pauseCount.load()] {
+        if (!d_sessionState.getPaused() || pauseCount != d_pauseCount) {
+            return;
+        }
 
-            d_sessionState.setReadyToConnectOnUnpause(false);
-            d_sessionState.setPaused(false);
-            establishConnection();
+        BOOST_LOG_SCOPED_THREAD_ATTR(
+            "Vhost",
+            boost::log::attributes::constant<std::string>(
+                d_sessionState.getVirtualHost()));
+        BOOST_LOG_SCOPED_THREAD_ATTR(
+            "ConnID",
+            boost::log::attributes::constant<uint64_t>(d_sessionState.id()));
+
+        if (!d_sessionState.getReadyToConnectOnUnpause()) {
+            this->disconnect(true);
+            return;
+        }
+
+        d_sessionState.setPaused(false);
+        if (pauseCount != d_pauseCount) {
+            d_sessionState.setPaused(true);
+            return;
+        }
+
+        if (finished()) {
+            return;
+        }
+
+        LOG_DEBUG << "Session unpaused. Starting to acquire connection";
+
+        d_sessionState.setReadyToConnectOnUnpause(false);
+        if (d_heldAttempt) {
+            auto heldAttempt = std::move(d_heldAttempt);
+            d_heldAttempt    = nullptr;
+            heldAttempt();
         }
         else {
-            this->disconnect(true);
+            establishConnection();
         }
-    }
+
+        // Go on with what the client sent in the meantime
+        if (d_ingressHeld && !d_sessionState.getPaused() && !finished()) {
+            d_ingressHeld = false;
+            handleData(FlowType::INGRESS);
+        }
+    });
 }
 
 void Session::disconnectUnauthClient(const FieldTable &clientProperties,
@@ -848,6 +899,9 @@ void Session::readData(FlowType direction)
                     !d_sessionState.getPaused()) {
                     handleData(direction);
                 }
+                else {
+                    d_ingressHeld = true;
+                }
             }
             else if (ec == boost::asio::error::would_block) {
                 readData(direction);
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 545a9b0..9d7142b 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -32,7 +32,9 @@
 #include <boost/asio.hpp>
 #include <boost/asio/steady_timer.hpp>
 
+#include <atomic>
 #include <chrono>
+#include <functional>
 #include <iosfwd>
 #include <memory>
 #include <string>
@@ -85,6 +87,9 @@ class Session : public std::enable_shared_from_this<Session> {
     TimePoint                    d_egressStartedAt;
     std::vector<boost::asio::ip::tcp::endpoint> d_resolvedEndpoints;
     uint32_t                                    d_resolvedEndpointsIndex;
+    std::atomic<uint64_t>                       d_pauseCount;
+    bool                                        d_ingressHeld;
+    std::function<void()>                       d_heldAttempt;
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
-- 
2.43.0


From 2733efc6820ded9ef39e8f9773159139db07891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:09 +0000
Subject: [PATCH 10/37] fix: check the bounds of every value decoded from a
 field table

---
 libamqpprox/amqpprox_types.cpp | 71 +++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 10 deletions(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index e0252b5..973bd43 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,17 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+template <typename T>
+bool decodeNumber(T *number, Buffer &buffer)
+{
+    if (buffer.available() < sizeof(T)) {
+        return false;
+    }
+
+    *number = buffer.copy<T>();
+    return true;
+}
+
 template <typename T>
 bool decodeString(std::string *string, Buffer &buffer)
 {
@@ -133,21 +144,37 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
 {
     assert(outValue != nullptr);
 
-    char type = buffer.copy<char>();
+    char type;
+    if (!decodeNumber(&type, buffer)) {
+        return false;
+    }
+
     switch (type) {
     case 't':  // boolean
     {
-        FieldValue value(type, (buffer.copy<char>() != 0));
+        char octet;
+        if (!decodeNumber(&octet, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (octet != 0));
         *outValue = value;
     } break;
     case 'b':  // short-short-int
     {
-        FieldValue value(type, (int64_t)buffer.copy<big_int8_t>());
+        big_int8_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (int64_t)number);
         *outValue = value;
     } break;
     case 'B':  // short-short-uint
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint8_t>());
+        big_uint8_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (uint64_t)number);
         *outValue = value;
     } break;
     case 'U':
@@ -155,28 +182,48 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
         // fall through
     case 's':  // short-int
     {
-        FieldValue value('s', (int64_t)buffer.copy<big_int16_t>());
+        big_int16_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value('s', (int64_t)number);
         *outValue = value;
     } break;
     case 'u':  // short-uint
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint16_t>());
+        big_uint16_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (uint64_t)number);
         *outValue = value;
     } break;
     case 'I':  // long-int
     {
-        FieldValue value(type, (int64_t)buffer.copy<big_int32_t>());
+        big_int32_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (int64_t)number);
         *outValue = value;
     } break;
     case 'i':  // long-uint
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint32_t>());
+        big_uint32_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (uint64_t)number);
         *outValue = value;
     } break;
     case 'l':  // long-long-int
     case 'L':  // compatibility long-long-int
     {
-        FieldValue value(type, (int64_t)buffer.copy<big_int64_t>());
+        big_int64_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (int64_t)number);
         *outValue = value;
     } break;
     case 'f':  // float
@@ -226,7 +273,11 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     } break;
     case 'T':  // timestamp
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint64_t>());
+        big_uint64_t number;
+        if (!decodeNumber(&number, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (uint64_t)number);
         *outValue = value;
     } break;
     case 'F':  // field-table
-- 
2.43.0


From 18344be069f3f628a2ddc823f948c6dae974b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:20 +0000
Subject: [PATCH 11/37] fix: reject method frames too short to hold a method

---
 libamqpprox/amqpprox_packetprocessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index 59959f8..fff47f3 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -87,7 +87,13 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
 
         if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {
             Method method;
-            Method::decode(&method, frame.payload, frame.length);
+            if (!Method::decode(&method, frame.payload, frame.length)) {
+                LOG_ERROR << "Method frame of length " << frame.length
+                          << " is too short to hold a method";
+                // Not acceptable in any state: puts the connector into error
+                d_connector.receive(Buffer(frame.payload, frame.length));
+                break;
+            }
 
             LOG_TRACE << ((direction == FlowType::INGRESS) ? "->" : "<-")
                       << " Frame: TYPE=" << (int)frame.type
-- 
2.43.0


From 45cee3b4a957f22d4e0c2e198ac9b2c301209ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:14 +0000
Subject: [PATCH 12/37] fix: end the session when a handshake message cannot be
 encoded

---
 libamqpprox/amqpprox_connector.cpp | 2 ++
 libamqpprox/amqpprox_types.cpp     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 739e845..93be638 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -423,10 +423,12 @@ void Connector::sendResponse(const T &response, bool sendToIngressSide)
         }
         else {
             LOG_FATAL << "Cannot encode frame: " << response;
+            throw std::runtime_error("Cannot encode frame");
         }
     }
     else {
         LOG_FATAL << "Cannot encode response: " << response;
+        throw std::runtime_error("Cannot encode response");
     }
 }
 
diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 973bd43..650f072 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -472,6 +472,9 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
                              const std::vector<FieldValue> &vector)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
@@ -520,6 +523,9 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
 bool Types::encodeFieldTable(Buffer &buffer, const FieldTable &table)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
-- 
2.43.0


From 1468129b0523760bc40cf74d00ebdf444fad15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:28 +0000
Subject: [PATCH 13/37] fix: limit how deep tables and arrays from a peer may
 nest

A table or array from a client or a broker is decoded and printed by
recursion, so a few kilobytes of nested headers exhausted the stack and took
the whole proxy down. Deeper nesting than any real peer uses is now refused
like any other malformed table.
---
 libamqpprox/amqpprox_types.cpp | 31 ++++++++++++++++++++++++-------
 libamqpprox/amqpprox_types.h   | 14 +++++++++++---
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 650f072..521d655 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,9 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// Tables and arrays are decoded recursively, and nesting is up to the peer
+const std::size_t MAX_NESTING = 64;
+
 template <typename T>
 bool decodeNumber(T *number, Buffer &buffer)
 {
@@ -140,7 +143,9 @@ bool Types::encodeByteVector(Buffer                     &buffer,
     return true;
 }
 
-bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
+bool Types::decodeFieldValue(FieldValue *outValue,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
     assert(outValue != nullptr);
 
@@ -265,7 +270,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'A':  // field-array
     {
         std::vector<FieldValue> val;
-        if (!decodeFieldArray(&val, buffer)) {
+        if (!decodeFieldArray(&val, buffer, depth + 1)) {
             return false;
         }
         FieldValue value(type, val);
@@ -283,7 +288,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'F':  // field-table
     {
         auto sp = std::make_shared<FieldTable>();
-        if (!decodeFieldTable(sp.get(), buffer)) {
+        if (!decodeFieldTable(sp.get(), buffer, depth + 1)) {
             return false;
         }
         FieldValue value(type, sp);
@@ -442,10 +447,16 @@ bool Types::encodeFieldValue(Buffer &buffer, const FieldValue &fv)
     return true;
 }
 
-bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
+bool Types::decodeFieldArray(std::vector<FieldValue> *vector,
+                             Buffer                  &buffer,
+                             std::size_t              depth)
 {
     assert(vector != nullptr);
 
+    if (depth > MAX_NESTING) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -458,7 +469,7 @@ bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
     auto arrayBuffer = buffer.consume(arrayLength);
     while (arrayBuffer.available() > 0) {
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, arrayBuffer)) {
+        if (!decodeFieldValue(&value, arrayBuffer, depth)) {
             return false;
         }
 
@@ -492,8 +503,14 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
     return true;
 }
 
-bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
+bool Types::decodeFieldTable(FieldTable *table,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
+    if (depth > MAX_NESTING) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -511,7 +528,7 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
         }
 
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, tBuffer)) {
+        if (!decodeFieldValue(&value, tBuffer, depth)) {
             return false;
         }
 
diff --git a/libamqpprox/amqpprox_types.h b/libamqpprox/amqpprox_types.h
index a66fcd0..879e914 100644
--- a/libamqpprox/amqpprox_types.h
+++ b/libamqpprox/amqpprox_types.h
@@ -102,9 +102,12 @@ class Types {
      * type
      * \param value AMQP field type stored as `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth how many tables and arrays this one is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldValue(FieldValue *value, Buffer &buffer);
+    static bool decodeFieldValue(FieldValue *value,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field type and write the data into the specified
@@ -121,10 +124,12 @@ class Types {
      * \param vector AMQP field type array stored as std::vector of
      * `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth how many tables and arrays this one is nested in
      * \return true in case of success, otherwise false
      */
     static bool decodeFieldArray(std::vector<FieldValue> *vector,
-                                 Buffer                  &buffer);
+                                 Buffer                  &buffer,
+                                 std::size_t              depth = 0);
 
     /**
      * \brief Encode AMQP field type array and write the data into the
@@ -141,9 +146,12 @@ class Types {
      * table type
      * \param table AMQP field table type stored as `FieldTable`
      * \param buffer raw data stored as `Buffer`
+     * \param depth how many tables and arrays this one is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldTable(FieldTable *table, Buffer &buffer);
+    static bool decodeFieldTable(FieldTable *table,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field table and write the data into the specified
-- 
2.43.0


From 8029cf11f29d81a5e0abca7844f929e41ba27ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:57 +0000
Subject: [PATCH 14/37] fix: drop removed backends from farms and keep them
 alive for connections being made

---
 libamqpprox/amqpprox_backendstore.cpp       | 35 ++++++++++++++-------
 libamqpprox/amqpprox_backendstore.h         | 23 ++++++++++++--
 libamqpprox/amqpprox_connectionselector.cpp |  2 +-
 libamqpprox/amqpprox_farm.cpp               | 34 +++++++++++++++-----
 libamqpprox/amqpprox_farm.h                 | 14 +++++++--
 5 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/libamqpprox/amqpprox_backendstore.cpp b/libamqpprox/amqpprox_backendstore.cpp
index 55bce56..bcd374e 100644
--- a/libamqpprox/amqpprox_backendstore.cpp
+++ b/libamqpprox/amqpprox_backendstore.cpp
@@ -22,33 +22,38 @@ namespace amqpprox {
 
 BackendStore::BackendStore()
 : d_backends()
+, d_removedBackends()
+, d_generation(0)
+, d_mutex()
 {
 }
 
 int BackendStore::insert(const Backend &backend)
 {
-    auto namedBackend = lookup(backend.name());
+    std::lock_guard<std::mutex> lg(d_mutex);
 
-    if (namedBackend) {
+    if (d_backends.count(backend.name())) {
         return 1;
     }
 
-    std::lock_guard<std::mutex> lg(d_mutex);
-    d_backends.insert(std::make_pair(backend.name(), backend));
-    auto addrKey = std::make_pair(backend.ip(), backend.port());
+    d_backends.insert(
+        std::make_pair(backend.name(), std::make_shared<Backend>(backend)));
+    ++d_generation;
     return 0;
 }
 
 int BackendStore::remove(const std::string &name)
 {
-    auto backend = lookup(name);
-    if (!backend) {
+    std::lock_guard<std::mutex> lg(d_mutex);
+
+    auto it = d_backends.find(name);
+    if (it == d_backends.end()) {
         return 1;
     }
 
-    std::lock_guard<std::mutex> lg(d_mutex);
-    auto addrKey = std::make_pair(backend->ip(), backend->port());
-    d_backends.erase(name);
+    d_removedBackends.push_back(it->second);
+    d_backends.erase(it);
+    ++d_generation;
     return 0;
 }
 
@@ -60,15 +65,21 @@ const Backend *BackendStore::lookup(const std::string &name) const
         return nullptr;
     }
     else {
-        return &(it->second);
+        return it->second.get();
     }
 }
 
+uint64_t BackendStore::generation() const
+{
+    std::lock_guard<std::mutex> lg(d_mutex);
+    return d_generation;
+}
+
 void BackendStore::print(std::ostream &os) const
 {
     std::lock_guard<std::mutex> lg(d_mutex);
     for (const auto &backend : d_backends) {
-        os << backend.second << std::endl;
+        os << *backend.second << std::endl;
     }
 }
 
diff --git a/libamqpprox/amqpprox_backendstore.h b/libamqpprox/amqpprox_backendstore.h
index 071a468..1614f81 100644
--- a/libamqpprox/amqpprox_backendstore.h
+++ b/libamqpprox/amqpprox_backendstore.h
@@ -18,10 +18,14 @@
 
 #include <amqpprox_backend.h>
 
+#include <cstdint>
 #include <iosfwd>
 #include <map>
+#include <memory>
 #include <mutex>
+#include <string>
 #include <unordered_map>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -30,15 +34,30 @@ namespace amqpprox {
  * \brief Represents Backend store
  */
 class BackendStore {
-    std::unordered_map<std::string, Backend> d_backends;
-    mutable std::mutex                       d_mutex;
+    using BackendPtr = std::shared_ptr<const Backend>;
+
+    std::unordered_map<std::string, BackendPtr> d_backends;
+    // Connections being made may still refer to a backend when it is removed
+    std::vector<BackendPtr> d_removedBackends;
+    uint64_t                d_generation;
+    mutable std::mutex      d_mutex;
 
   public:
     BackendStore();
     int insert(const Backend &backend);
     int remove(const std::string &name);
 
+    /**
+     * \returns the backend of that name or nullptr. The backend outlives its
+     * removal from the store.
+     */
     const Backend *lookup(const std::string &name) const;
+
+    /**
+     * \returns a number that changes whenever a backend is added or removed
+     */
+    uint64_t generation() const;
+
     void           print(std::ostream &os) const;
 };
 
diff --git a/libamqpprox/amqpprox_connectionselector.cpp b/libamqpprox/amqpprox_connectionselector.cpp
index e6b1cb0..f2ed72b 100644
--- a/libamqpprox/amqpprox_connectionselector.cpp
+++ b/libamqpprox/amqpprox_connectionselector.cpp
@@ -83,7 +83,7 @@ SessionState::ConnectionStatus ConnectionSelector::acquireConnection(
     if (isFarm) {
         // Return the BackendSet and BackendSelector generated by the Farm
         try {
-            const auto &farm = d_farmStore_p->getFarmByName(resourceName);
+            auto &farm = d_farmStore_p->getFarmByName(resourceName);
 
             connectionManager.reset(new ConnectionManager(
                 farm.backendSet(), farm.backendSelector()));
diff --git a/libamqpprox/amqpprox_farm.cpp b/libamqpprox/amqpprox_farm.cpp
index 2ddf61a..5859787 100644
--- a/libamqpprox/amqpprox_farm.cpp
+++ b/libamqpprox/amqpprox_farm.cpp
@@ -35,6 +35,8 @@ Farm::Farm(const std::string              &name,
 , d_backendStore_p(backendStore)
 , d_backendSelector_p(backendSelector)
 , d_partitionPolicies()
+, d_memberBackends()
+, d_backendStoreGeneration(0)
 , d_backendSet()
 , d_mutex()
 {
@@ -81,13 +83,10 @@ void Farm::repartition()
 
 void Farm::doRepartitionWhileLocked(std::lock_guard<std::mutex> & /* guard */)
 {
-    std::vector<BackendSet::Partition> partitions(1);
-    BackendSet::Partition             &initialPartition = partitions[0];
-
     // Create the initial partition
-    for (const auto &member : d_backendMembers) {
-        initialPartition.push_back(d_backendStore_p->lookup(member));
-    }
+    d_backendStoreGeneration = d_backendStore_p->generation();
+    d_memberBackends         = lookupMembers();
+    std::vector<BackendSet::Partition> partitions(1, d_memberBackends);
 
     auto newSet = std::make_shared<BackendSet>(std::move(partitions));
 
@@ -114,9 +113,30 @@ void Farm::members(std::vector<std::string> *members) const
               std::back_inserter(*members));
 }
 
-std::shared_ptr<BackendSet> Farm::backendSet() const
+std::vector<const Backend *> Farm::lookupMembers() const
+{
+    std::vector<const Backend *> backends;
+    for (const auto &member : d_backendMembers) {
+        if (const Backend *backend = d_backendStore_p->lookup(member)) {
+            backends.push_back(backend);
+        }
+    }
+    return backends;
+}
+
+std::shared_ptr<BackendSet> Farm::backendSet()
 {
     std::lock_guard<std::mutex> lg(d_mutex);
+
+    // Members may have been removed from the backend store or replaced since
+    const uint64_t generation = d_backendStore_p->generation();
+    if (generation != d_backendStoreGeneration) {
+        if (lookupMembers() != d_memberBackends) {
+            doRepartitionWhileLocked(lg);
+        }
+        d_backendStoreGeneration = generation;
+    }
+
     return d_backendSet;
 }
 
diff --git a/libamqpprox/amqpprox_farm.h b/libamqpprox/amqpprox_farm.h
index 1463002..a2bd6f0 100644
--- a/libamqpprox/amqpprox_farm.h
+++ b/libamqpprox/amqpprox_farm.h
@@ -21,6 +21,8 @@
 #include <amqpprox_backendstore.h>
 #include <amqpprox_partitionpolicy.h>
 
+#include <cstdint>
+#include <memory>
 #include <mutex>
 #include <string>
 #include <unordered_set>
@@ -39,6 +41,8 @@ class Farm {
     BackendStore                  *d_backendStore_p;     // HELD NOT OWNED
     BackendSelector               *d_backendSelector_p;  // HELD NOT OWNED
     std::vector<PartitionPolicy *> d_partitionPolicies;
+    std::vector<const Backend *>   d_memberBackends;
+    uint64_t                       d_backendStoreGeneration;
     std::shared_ptr<BackendSet>    d_backendSet;
 
     mutable std::mutex d_mutex;
@@ -52,6 +56,11 @@ class Farm {
      */
     void setBackendSet(std::shared_ptr<BackendSet> backendSet);
 
+    /**
+     * \returns the members that are in the backend store
+     */
+    std::vector<const Backend *> lookupMembers() const;
+
     /**
      * \brief Perform repartitioning of the `BackendSet` for this farm. The
      * behaviour of this function is undefined unless it is called within a
@@ -122,9 +131,10 @@ class Farm {
     void members(std::vector<std::string> *members) const;
 
     /**
-     * \returns shared pointer to the `BackendSet`
+     * \returns shared pointer to the `BackendSet`, which holds the members as
+     * they are in the backend store now
      */
-    std::shared_ptr<BackendSet> backendSet() const;
+    std::shared_ptr<BackendSet> backendSet();
 
     /**
      * \returns pointer to the `BackendSelector` in play for the farm
-- 
2.43.0


From 163660ac378148d47779e17e02a1fe9a4a99f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:10 +0000
Subject: [PATCH 15/37] fix: keep a farm alive while a connection takes its
 backends from it

---
 libamqpprox/amqpprox_connectionselector.cpp |  4 ++--
 libamqpprox/amqpprox_farmstore.cpp          |  8 +++++++-
 libamqpprox/amqpprox_farmstore.h            | 10 +++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_connectionselector.cpp b/libamqpprox/amqpprox_connectionselector.cpp
index f2ed72b..1641831 100644
--- a/libamqpprox/amqpprox_connectionselector.cpp
+++ b/libamqpprox/amqpprox_connectionselector.cpp
@@ -83,10 +83,10 @@ SessionState::ConnectionStatus ConnectionSelector::acquireConnection(
     if (isFarm) {
         // Return the BackendSet and BackendSelector generated by the Farm
         try {
-            auto &farm = d_farmStore_p->getFarmByName(resourceName);
+            auto farm = d_farmStore_p->getSharedFarmByName(resourceName);
 
             connectionManager.reset(new ConnectionManager(
-                farm.backendSet(), farm.backendSelector()));
+                farm->backendSet(), farm->backendSelector()));
         }
         catch (std::runtime_error &e) {
             LOG_WARN << "Unable to acquire backend from Farm: " << resourceName
diff --git a/libamqpprox/amqpprox_farmstore.cpp b/libamqpprox/amqpprox_farmstore.cpp
index f90f5b1..9a29ade 100644
--- a/libamqpprox/amqpprox_farmstore.cpp
+++ b/libamqpprox/amqpprox_farmstore.cpp
@@ -54,6 +54,12 @@ void FarmStore::repartitionAll()
 
 // ACCESSORS
 Farm &FarmStore::getFarmByName(const std::string &name) const
+{
+    return *getSharedFarmByName(name);
+}
+
+std::shared_ptr<Farm>
+FarmStore::getSharedFarmByName(const std::string &name) const
 {
     std::lock_guard<std::mutex> lg(d_mutex);
 
@@ -62,7 +68,7 @@ Farm &FarmStore::getFarmByName(const std::string &name) const
         throw std::runtime_error("No such farm");
     }
 
-    return *(farm->second);
+    return farm->second;
 }
 
 void FarmStore::print(std::ostream &os) const
diff --git a/libamqpprox/amqpprox_farmstore.h b/libamqpprox/amqpprox_farmstore.h
index e1ec2d5..f538200 100644
--- a/libamqpprox/amqpprox_farmstore.h
+++ b/libamqpprox/amqpprox_farmstore.h
@@ -33,7 +33,7 @@ namespace amqpprox {
 class FarmStore {
   private:
     // PRIVATE TYPES
-    using FarmMap = std::unordered_map<std::string, std::unique_ptr<Farm>>;
+    using FarmMap = std::unordered_map<std::string, std::shared_ptr<Farm>>;
 
     // DATA
     FarmMap            d_farms;
@@ -69,6 +69,14 @@ class FarmStore {
      */
     Farm &getFarmByName(const std::string &name) const;
 
+    /**
+     * \brief Return a farm that stays valid when it is removed from the store
+     * or replaced
+     * \param name of farm to retrieve
+     * \returns the Farm named
+     */
+    std::shared_ptr<Farm> getSharedFarmByName(const std::string &name) const;
+
     /**
      * \brief Print all of the farms in the store
      */
-- 
2.43.0


From 9dbdfecfe97bcd5038b4d920ee059ff32020a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:24 +0000
Subject: [PATCH 16/37] fix: survive failing listeners and keep each accept
 loop to its own listener

---
 libamqpprox/amqpprox_server.cpp | 61 +++++++++++++++++++++++----------
 libamqpprox/amqpprox_server.h   |  9 ++---
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 5b297df..3f08758 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -118,7 +118,8 @@ int Server::run()
 void Server::closeListeners()
 {
     for (auto &p : d_listeningSockets) {
-        p.second.close();
+        boost::system::error_code ec;
+        p.second->close(ec);
     }
 }
 
@@ -130,6 +131,9 @@ void Server::stop()
 void Server::startListening(int port, bool secure)
 {
     d_ioContext.dispatch([this, port, secure] {
+        auto acceptor =
+            std::make_shared<boost::asio::ip::tcp::acceptor>(d_ioContext);
+
         {
             std::lock_guard<std::mutex> lg(d_mutex);
             auto                        it = d_listeningSockets.find(port);
@@ -138,16 +142,30 @@ void Server::startListening(int port, bool secure)
                 return;
             }
 
-            boost::asio::ip::tcp::acceptor acceptor(d_ioContext);
-            tcp::endpoint                  local_endpoint(tcp::v4(), port);
-            acceptor.open(local_endpoint.protocol());
-            acceptor.set_option(boost::asio::socket_base::reuse_address(true));
-            acceptor.bind(local_endpoint);
-            acceptor.listen(boost::asio::socket_base::max_connections);
-            d_listeningSockets.emplace(port, std::move(acceptor));
+            tcp::endpoint             local_endpoint(tcp::v4(), port);
+            boost::system::error_code ec;
+            acceptor->open(local_endpoint.protocol(), ec);
+            if (!ec) {
+                acceptor->set_option(
+                    boost::asio::socket_base::reuse_address(true), ec);
+            }
+            if (!ec) {
+                acceptor->bind(local_endpoint, ec);
+            }
+            if (!ec) {
+                acceptor->listen(boost::asio::socket_base::max_connections,
+                                 ec);
+            }
+            if (ec) {
+                LOG_ERROR << "Unable to listen on port: " << port
+                          << ", reason: " << ec.message();
+                return;
+            }
+
+            d_listeningSockets.emplace(port, acceptor);
         }
 
-        doAccept(port, secure);
+        doAccept(port, secure, acceptor);
     });
 }
 
@@ -158,7 +176,7 @@ void Server::stopListening(int port)
         auto                        it = d_listeningSockets.find(port);
         if (it != d_listeningSockets.end()) {
             boost::system::error_code ec;
-            it->second.close(ec);
+            it->second->close(ec);
             d_listeningSockets.erase(it);
             if (ec) {
                 LOG_WARN << "Closing listening socket failed: "
@@ -170,10 +188,13 @@ void Server::stopListening(int port)
 
 void Server::stopAllListening()
 {
-    std::lock_guard<std::mutex> lg(d_mutex);
-    for (auto &p : d_listeningSockets) {
-        stopListening(p.first);
-    }
+    // Evaluated on the event loop, so that listeners which were asked for
+    // earlier but are not listening yet are stopped too
+    d_ioContext.dispatch([this] {
+        std::lock_guard<std::mutex> lg(d_mutex);
+        closeListeners();
+        d_listeningSockets.clear();
+    });
 }
 
 void Server::timer()
@@ -191,11 +212,13 @@ void Server::doTimer()
     // listening.
 }
 
-void Server::doAccept(int port, bool secure)
+void Server::doAccept(int port, bool secure, const AcceptorPtr &acceptor)
 {
     std::lock_guard<std::mutex> lg(d_mutex);
     auto                        it = d_listeningSockets.find(port);
-    if (it == d_listeningSockets.end()) {
+    if (it == d_listeningSockets.end() || it->second != acceptor) {
+        // The listener this accept loop belongs to has been stopped, another
+        // one may have been started on the same port since
         return;
     }
 
@@ -203,9 +226,9 @@ void Server::doAccept(int port, bool secure)
         std::make_shared<MaybeSecureSocketAdaptor<>>(
             d_ioContext, d_ingressTlsContext, secure);
 
-    it->second.async_accept(
+    acceptor->async_accept(
         incomingSocket->socket(),
-        [this, port, secure, incomingSocket](error_code ec) {
+        [this, port, secure, acceptor, incomingSocket](error_code ec) {
             if (!ec) {
                 std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
@@ -240,7 +263,7 @@ void Server::doAccept(int port, bool secure)
                 // accept again.
             }
 
-            doAccept(port, secure);
+            doAccept(port, secure, acceptor);
         });
 }
 
diff --git a/libamqpprox/amqpprox_server.h b/libamqpprox/amqpprox_server.h
index 0d6f01a..a3ce2e5 100644
--- a/libamqpprox/amqpprox_server.h
+++ b/libamqpprox/amqpprox_server.h
@@ -44,7 +44,8 @@ class DataRateLimitManager;
  * collection. It is the primary thread, where event loop runs.
  */
 class Server {
-    using SessionPtr = std::shared_ptr<Session>;
+    using SessionPtr  = std::shared_ptr<Session>;
+    using AcceptorPtr = std::shared_ptr<boost::asio::ip::tcp::acceptor>;
 
     boost::asio::io_context                  d_ioContext;
     boost::asio::ssl::context                d_ingressTlsContext;
@@ -52,8 +53,8 @@ class Server {
     boost::asio::deadline_timer              d_timer;
     std::unordered_map<uint64_t, SessionPtr> d_sessions;
     std::unordered_set<SessionPtr>           d_deletingSessions;
-    std::unordered_map<int, boost::asio::ip::tcp::acceptor> d_listeningSockets;
-    DNSResolver                                             d_dnsResolver;
+    std::unordered_map<int, AcceptorPtr>     d_listeningSockets;
+    DNSResolver                              d_dnsResolver;
     ConnectionSelectorInterface    *d_connectionSelector_p;  // HELD NOT OWNED
     EventSource                    *d_eventSource_p;         // HELD NOT OWNED
     BufferPool                     *d_bufferPool_p;          // HELD NOT OWNED
@@ -179,7 +180,7 @@ class Server {
     DNSResolver *getDNSResolverPtr();
 
   private:
-    void doAccept(int port, bool secure);
+    void doAccept(int port, bool secure, const AcceptorPtr &acceptor);
     void doTimer();
     void timer();
     void closeListeners();
-- 
2.43.0


From 447026a80d85510202b305e37d58a538b5de9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:32 +0000
Subject: [PATCH 17/37] fix: reject LISTEN STOP of an invalid port instead of
 stopping all

---
 libamqpprox/amqpprox_listencontrolcommand.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_listencontrolcommand.cpp b/libamqpprox/amqpprox_listencontrolcommand.cpp
index 896d8cd..67f2153 100644
--- a/libamqpprox/amqpprox_listencontrolcommand.cpp
+++ b/libamqpprox/amqpprox_listencontrolcommand.cpp
@@ -63,12 +63,19 @@ void ListenControlCommand::handleCommand(const std::string & /* command */,
             }
         }
         else if (subcommand == "STOP") {
-            int port = -1;
-            if (iss >> port && port > 0 && port <= 65535) {
+            std::string argument;
+            if (!(iss >> argument)) {
+                serverHandle->stopAllListening();
+                return;
+            }
+
+            std::istringstream portStream(argument);
+            int                port = -1;
+            if (portStream >> port && port > 0 && port <= 65535) {
                 serverHandle->stopListening(port);
             }
             else {
-                serverHandle->stopAllListening();
+                output << "Invalid port provided.\n";
             }
         }
         else {
-- 
2.43.0


From 4fdf9e082b89410c94eedc71bc8bcda9677ba048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:54 +0000
Subject: [PATCH 18/37] fix: read a session's vhost and hostname mapper under
 its lock

---
 libamqpprox/amqpprox_sessionstate.cpp | 19 +++++++++++++------
 libamqpprox/amqpprox_sessionstate.h   |  9 +++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/libamqpprox/amqpprox_sessionstate.cpp b/libamqpprox/amqpprox_sessionstate.cpp
index c57e38f..96543ac 100644
--- a/libamqpprox/amqpprox_sessionstate.cpp
+++ b/libamqpprox/amqpprox_sessionstate.cpp
@@ -55,12 +55,18 @@ SessionState::SessionState(
 {
 }
 
+std::shared_ptr<HostnameMapper> SessionState::hostnameMapper() const
+{
+    std::lock_guard<std::mutex> lg(d_lock);
+    return d_hostnameMapper;
+}
+
 void SessionState::setEgress(boost::asio::io_context       &ioContext,
                              boost::asio::ip::tcp::endpoint local,
                              boost::asio::ip::tcp::endpoint remote)
 {
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    if (auto mapper = hostnameMapper()) {
+        mapper->prime(ioContext, {local, remote});
     }
 
     std::lock_guard<std::mutex> lg(d_lock);
@@ -72,8 +78,8 @@ void SessionState::setIngress(boost::asio::io_context       &ioContext,
                               boost::asio::ip::tcp::endpoint local,
                               boost::asio::ip::tcp::endpoint remote)
 {
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    if (auto mapper = hostnameMapper()) {
+        mapper->prime(ioContext, {local, remote});
     }
 
     std::lock_guard<std::mutex> lg(d_lock);
@@ -163,10 +169,11 @@ void SessionState::setLimitedConnection()
 std::string
 SessionState::hostname(const boost::asio::ip::tcp::endpoint &endpoint) const
 {
-    if (!d_hostnameMapper) {
+    auto mapper = hostnameMapper();
+    if (!mapper) {
         return boost::lexical_cast<std::string>(endpoint.address());
     }
-    return d_hostnameMapper->mapToHostname(endpoint);
+    return mapper->mapToHostname(endpoint);
 }
 
 void SessionState::getTotals(uint64_t *ingressPackets,
diff --git a/libamqpprox/amqpprox_sessionstate.h b/libamqpprox/amqpprox_sessionstate.h
index 683f589..62e21bd 100644
--- a/libamqpprox/amqpprox_sessionstate.h
+++ b/libamqpprox/amqpprox_sessionstate.h
@@ -77,6 +77,11 @@ class SessionState {
     mutable std::mutex              d_lock;
     std::shared_ptr<HostnameMapper> d_hostnameMapper;
 
+    /**
+     * \return the hostname mapper, which may be replaced on another thread
+     */
+    std::shared_ptr<HostnameMapper> hostnameMapper() const;
+
   public:
     typedef std::pair<boost::asio::ip::tcp::endpoint,
                       boost::asio::ip::tcp::endpoint>
@@ -207,7 +212,7 @@ class SessionState {
     /**
      * \return the virtual host
      */
-    inline const std::string &getVirtualHost() const;
+    inline std::string getVirtualHost() const;
 
     /**
      * \return the state(paused/unpaused) of the virtual host
@@ -274,7 +279,7 @@ inline SessionState::EndpointPair SessionState::getIngress() const
     return std::make_pair(d_ingressLocalEndpoint, d_ingressRemoteEndpoint);
 }
 
-inline const std::string &SessionState::getVirtualHost() const
+inline std::string SessionState::getVirtualHost() const
 {
     std::lock_guard<std::mutex> lg(d_lock);
     return d_virtualHost;
-- 
2.43.0


From 676ecf1f1062e332d24f49a14559857860ae202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:19 +0000
Subject: [PATCH 19/37] fix: read the server's auth service and hostname mapper
 under its lock

---
 libamqpprox/amqpprox_server.cpp | 13 +++++++++++--
 libamqpprox/amqpprox_server.h   |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 3f08758..1e13c38 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -230,6 +230,14 @@ void Server::doAccept(int port, bool secure, const AcceptorPtr &acceptor)
         incomingSocket->socket(),
         [this, port, secure, acceptor, incomingSocket](error_code ec) {
             if (!ec) {
+                std::shared_ptr<HostnameMapper>         hostnameMapper;
+                std::shared_ptr<AuthInterceptInterface> authIntercept;
+                {
+                    std::lock_guard<std::mutex> lg(d_mutex);
+                    hostnameMapper = d_hostnameMapper;
+                    authIntercept  = d_authIntercept;
+                }
+
                 std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
@@ -242,9 +250,9 @@ void Server::doAccept(int port, bool secure, const AcceptorPtr &acceptor)
                                               d_eventSource_p,
                                               d_bufferPool_p,
                                               &d_dnsResolver,
-                                              d_hostnameMapper,
+                                              hostnameMapper,
                                               d_localHostname,
-                                              d_authIntercept,
+                                              authIntercept,
                                               secure,
                                               d_limitManager);
 
@@ -362,6 +370,7 @@ boost::asio::io_context &Server::ioContext()
 
 std::shared_ptr<AuthInterceptInterface> Server::getAuthIntercept() const
 {
+    std::lock_guard<std::mutex> lg(d_mutex);
     return d_authIntercept;
 }
 
diff --git a/libamqpprox/amqpprox_server.h b/libamqpprox/amqpprox_server.h
index a3ce2e5..725ada4 100644
--- a/libamqpprox/amqpprox_server.h
+++ b/libamqpprox/amqpprox_server.h
@@ -58,7 +58,7 @@ class Server {
     ConnectionSelectorInterface    *d_connectionSelector_p;  // HELD NOT OWNED
     EventSource                    *d_eventSource_p;         // HELD NOT OWNED
     BufferPool                     *d_bufferPool_p;          // HELD NOT OWNED
-    std::mutex                      d_mutex;
+    mutable std::mutex              d_mutex;
     std::shared_ptr<HostnameMapper> d_hostnameMapper;
     std::string                     d_localHostname;
     std::shared_ptr<AuthInterceptInterface> d_authIntercept;
-- 
2.43.0


From 95bf14e6018ab8edcf015a02636f4dc689a07232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:06 +0000
Subject: [PATCH 20/37] fix: do not let a vhost pause overtake its unpause

---
 libamqpprox/amqpprox_vhostestablishedpauser.cpp |  7 ++++---
 libamqpprox/amqpprox_vhoststate.cpp             |  9 +++++++++
 libamqpprox/amqpprox_vhoststate.h               | 11 +++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_vhostestablishedpauser.cpp b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
index 7daf9d2..43ed50d 100644
--- a/libamqpprox/amqpprox_vhostestablishedpauser.cpp
+++ b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
@@ -30,9 +30,10 @@ EventSubscriptionHandle vhostEstablishedPauser(EventSource *eventSource,
 {
     return eventSource->connectionVhostEstablished().subscribe(
         [=](uint64_t id, const std::string &vhost) {
-            if (vhostState->isPaused(vhost)) {
-                auto session = server->getSession(id);
-                session->pause();
+            auto session = server->getSession(id);
+            if (session) {
+                vhostState->ifPaused(vhost,
+                                     [&session] { session->pause(); });
             }
         });
 }
diff --git a/libamqpprox/amqpprox_vhoststate.cpp b/libamqpprox/amqpprox_vhoststate.cpp
index 569a359..ab201e0 100644
--- a/libamqpprox/amqpprox_vhoststate.cpp
+++ b/libamqpprox/amqpprox_vhoststate.cpp
@@ -44,6 +44,15 @@ bool VhostState::isPaused(const std::string &vhost)
     return d_vhosts[vhost].isPaused();
 }
 
+void VhostState::ifPaused(const std::string           &vhost,
+                          const std::function<void()> &function)
+{
+    std::lock_guard<std::mutex> lg(d_mutex);
+    if (d_vhosts[vhost].isPaused()) {
+        function();
+    }
+}
+
 void VhostState::setPaused(const std::string &vhost, bool paused)
 {
     std::lock_guard<std::mutex> lg(d_mutex);
diff --git a/libamqpprox/amqpprox_vhoststate.h b/libamqpprox/amqpprox_vhoststate.h
index 5421da5..d30e47d 100644
--- a/libamqpprox/amqpprox_vhoststate.h
+++ b/libamqpprox/amqpprox_vhoststate.h
@@ -16,6 +16,7 @@
 #ifndef BLOOMBERG_AMQPPROX_VHOSTSTATE
 #define BLOOMBERG_AMQPPROX_VHOSTSTATE
 
+#include <functional>
 #include <mutex>
 #include <string>
 #include <unordered_map>
@@ -66,6 +67,16 @@ class VhostState {
      */
     bool isPaused(const std::string &vhost);
 
+    /**
+     * \brief Invoke a function if a vhost is paused. The vhost can not be
+     * unpaused before the function has returned.
+     *
+     * \param vhost The vhost name to retrieve the state for
+     * \param function to invoke, which must not use this object
+     */
+    void ifPaused(const std::string           &vhost,
+                  const std::function<void()> &function);
+
     /**
      * \brief Set the specified vhost to the given paused state
      *
-- 
2.43.0


From ab5306dc575eeb64c74c17e52181fffcb0caffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:26 +0000
Subject: [PATCH 21/37] fix: account the statistics of each session separately

---
 libamqpprox/amqpprox_sessioncleanup.cpp |   6 +-
 libamqpprox/amqpprox_statcollector.cpp  | 222 ++++++------------------
 libamqpprox/amqpprox_statcollector.h    |  43 +++--
 3 files changed, 81 insertions(+), 190 deletions(-)

diff --git a/libamqpprox/amqpprox_sessioncleanup.cpp b/libamqpprox/amqpprox_sessioncleanup.cpp
index 0985196..db0712d 100644
--- a/libamqpprox/amqpprox_sessioncleanup.cpp
+++ b/libamqpprox/amqpprox_sessioncleanup.cpp
@@ -41,9 +41,13 @@ bool SessionCleanup::cleanup(Control *control, Server *server)
     // sessions that are disconnected to be deleted.
     auto visitor = [this, server, &sessionsDeleted](
                        const std::shared_ptr<Session> &session) {
+        // Sessions run on another thread: one that ends after this is cleaned
+        // next time, so that all of what it did is collected first.
+        bool finished = session->finished();
+
         d_statCollector_p->collect(session->state());
 
-        if (session->finished()) {
+        if (finished) {
             LOG_TRACE << "Cleaning session: " << session->state();
             sessionsDeleted.push_back(session);
         }
diff --git a/libamqpprox/amqpprox_statcollector.cpp b/libamqpprox/amqpprox_statcollector.cpp
index bf5fb01..2a904c2 100644
--- a/libamqpprox/amqpprox_statcollector.cpp
+++ b/libamqpprox/amqpprox_statcollector.cpp
@@ -26,7 +26,7 @@ namespace amqpprox {
 
 StatCollector::StatCollector()
 : d_current()
-, d_previous()
+, d_collectedTotals()
 , d_cpuMonitor_p(nullptr)
 , d_bufferPool_p(nullptr)
 , d_collectPerSourceStats(true)
@@ -35,7 +35,6 @@ StatCollector::StatCollector()
 
 void StatCollector::reset()
 {
-    d_previous.swap(d_current);
     StatSnapshot temp;
     d_current.swap(temp);
 }
@@ -52,59 +51,61 @@ void StatCollector::setBufferPool(BufferPool *pool)
 
 void StatCollector::collect(const SessionState &session)
 {
-    uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
-        ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
-        egressLatencyCount, egressLatencyTotal;
-
-    session.getTotals(&ingressPackets,
-                      &ingressFrames,
-                      &ingressBytes,
-                      &ingressLatencyTotal,
-                      &ingressLatencyCount,
-                      &egressPackets,
-                      &egressFrames,
-                      &egressBytes,
-                      &egressLatencyTotal,
-                      &egressLatencyCount);
+    SessionTotals totals;
+    session.getTotals(&totals.d_ingressPackets,
+                      &totals.d_ingressFrames,
+                      &totals.d_ingressBytes,
+                      &totals.d_ingressLatencyTotal,
+                      &totals.d_ingressLatencyCount,
+                      &totals.d_egressPackets,
+                      &totals.d_egressFrames,
+                      &totals.d_egressBytes,
+                      &totals.d_egressLatencyTotal,
+                      &totals.d_egressLatencyCount);
 
     using DiscoType  = SessionState::DisconnectType;
     auto discoStatus = session.getDisconnectType();
-
-    auto addStats = [&egressPackets,
-                     &ingressPackets,
-                     &egressFrames,
-                     &ingressFrames,
-                     &egressBytes,
-                     &ingressBytes,
-                     &egressLatencyTotal,
-                     &ingressLatencyTotal,
-                     &egressLatencyCount,
-                     &ingressLatencyCount,
-                     &session,
-                     &discoStatus](ConnectionStats &statsObject) {
-        statsObject.statsValue("packetsSent") += egressPackets;
-        statsObject.statsValue("packetsReceived") += ingressPackets;
-        statsObject.statsValue("framesSent") += egressFrames;
-        statsObject.statsValue("framesReceived") += ingressFrames;
-        statsObject.statsValue("bytesSent") += egressBytes;
-        statsObject.statsValue("bytesReceived") += ingressBytes;
+    totals.d_removed = discoStatus != DiscoType::NOT_DISCONNECTED;
+
+    SessionTotals &previous = d_collectedTotals[session.id()];
+
+    auto addStats = [&totals, &previous, &session, &discoStatus](
+                        ConnectionStats &statsObject) {
+        statsObject.statsValue("packetsSent") +=
+            totals.d_egressPackets - previous.d_egressPackets;
+        statsObject.statsValue("packetsReceived") +=
+            totals.d_ingressPackets - previous.d_ingressPackets;
+        statsObject.statsValue("framesSent") +=
+            totals.d_egressFrames - previous.d_egressFrames;
+        statsObject.statsValue("framesReceived") +=
+            totals.d_ingressFrames - previous.d_ingressFrames;
+        statsObject.statsValue("bytesSent") +=
+            totals.d_egressBytes - previous.d_egressBytes;
+        statsObject.statsValue("bytesReceived") +=
+            totals.d_ingressBytes - previous.d_ingressBytes;
         statsObject.addDistributionStats(
-            "sendLatency", egressLatencyTotal, egressLatencyCount);
+            "sendLatency",
+            totals.d_egressLatencyTotal - previous.d_egressLatencyTotal,
+            totals.d_egressLatencyCount - previous.d_egressLatencyCount);
         statsObject.addDistributionStats(
-            "receiveLatency", ingressLatencyTotal, ingressLatencyCount);
+            "receiveLatency",
+            totals.d_ingressLatencyTotal - previous.d_ingressLatencyTotal,
+            totals.d_ingressLatencyCount - previous.d_ingressLatencyCount);
 
-        if (discoStatus == DiscoType::DISCONNECTED_CLIENT) {
+        if (discoStatus == DiscoType::NOT_DISCONNECTED) {
+            statsObject.statsValue("activeConnectionCount") += 1;
+        }
+        else if (previous.d_removed) {
+            // Counted already, before the session was marked for deletion
+        }
+        else if (discoStatus == DiscoType::DISCONNECTED_CLIENT) {
             statsObject.statsValue("removedConnectionClientSnapped") += 1;
         }
         else if (discoStatus == DiscoType::DISCONNECTED_SERVER) {
             statsObject.statsValue("removedConnectionBrokerSnapped") += 1;
         }
-        else if (discoStatus == DiscoType::DISCONNECTED_CLEANLY ||
-                 discoStatus == DiscoType::DISCONNECTED_PROXY) {
-            statsObject.statsValue("removedConnectionGraceful") += 1;
-        }
         else {
-            statsObject.statsValue("activeConnectionCount") += 1;
+            statsObject.statsValue("removedConnectionGraceful") += 1;
         }
 
         // We count paused separately
@@ -146,93 +147,21 @@ void StatCollector::collect(const SessionState &session)
     }
 
     addStats(d_current.overall());
+
+    previous = totals;
 }
 
 void StatCollector::deletedSession(const SessionState &session)
 {
-    // Implementation notes:
-    //
-    // This method is required because the accumulated statistics are not kept
-    // per session in this component, and only accumulated across various axes.
-    // Each session object contains a counter of total bytes, packets and
-    // frames for each direction, because these are ever increasing totals,
-    // we latch the values and compare them in this class versus the last
-    // collected values. A-B-A type issues arise when the only session for one
-    // of the axes is deleted in one collection cycle, which must have its
-    // values counted, then it is reestablished in the subsequent cycle under a
-    // new session. This leaves a vhost/backend/source with a large count on
-    // the d_previous snapshot, and a small count on the d_current. These
-    // cannot be compared, so instead before resetting the accumulation
-    // interval, but after retrieving any statistics, we remove the
-    // accumulation totals for all the deleted sessions again in this method.
-
-    auto vhost = session.getVirtualHost();
-
-    // For backends we care about the broker's port to disambiguate
-    // the different brokers running on a host.  Note that we are
-    // using '_' as the separator, as ':' is not compatible with
-    // statsD.
-    auto backend =
-        session.hostname(session.getEgress().second) + "_" +
-        boost::lexical_cast<std::string>(session.getEgress().second.port());
-
-    // For sources we only look at the machine, not the ephemeral port
-    auto source = session.hostname(session.getIngress().second);
-
-    auto &vhostStats   = d_current.vhosts()[vhost];
-    auto &backendStats = d_current.backends()[backend];
-    auto &sourceStats  = d_current.sources()[source];
-
-    uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
-        ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
-        egressLatencyCount, egressLatencyTotal;
-
-    session.getTotals(&ingressPackets,
-                      &ingressFrames,
-                      &ingressBytes,
-                      &ingressLatencyTotal,
-                      &ingressLatencyCount,
-                      &egressPackets,
-                      &egressFrames,
-                      &egressBytes,
-                      &egressLatencyTotal,
-                      &egressLatencyCount);
-
-    auto remStats = [&egressPackets,
-                     &ingressPackets,
-                     &egressFrames,
-                     &ingressFrames,
-                     &egressBytes,
-                     &ingressBytes,
-                     &egressLatencyTotal,
-                     &ingressLatencyTotal,
-                     &egressLatencyCount,
-                     &ingressLatencyCount](ConnectionStats &statsObject) {
-        statsObject.statsValue("packetsSent") -= egressPackets;
-        statsObject.statsValue("packetsReceived") -= ingressPackets;
-        statsObject.statsValue("framesSent") -= egressFrames;
-        statsObject.statsValue("framesReceived") -= ingressFrames;
-        statsObject.statsValue("bytesSent") -= egressBytes;
-        statsObject.statsValue("bytesReceived") -= ingressBytes;
-        statsObject.addDistributionStats(
-            "sendLatency", -egressLatencyTotal, -egressLatencyCount);
-        statsObject.addDistributionStats(
-            "receiveLatency", -ingressLatencyTotal, -ingressLatencyCount);
-    };
-
-    remStats(vhostStats);
-    remStats(backendStats);
-    remStats(sourceStats);
-    remStats(d_current.overall());
+    d_collectedTotals.erase(session.id());
 }
 
 void StatCollector::populateStats(StatSnapshot *snap)
 {
-    populateMap(&snap->sources(), d_current.sources(), d_previous.sources());
-    populateMap(&snap->vhosts(), d_current.vhosts(), d_previous.vhosts());
-    populateMap(
-        &snap->backends(), d_current.backends(), d_previous.backends());
-    populateProgramStats(&snap->overall());
+    snap->sources()  = d_current.sources();
+    snap->vhosts()   = d_current.vhosts();
+    snap->backends() = d_current.backends();
+    snap->overall()  = d_current.overall();
 
     if (d_cpuMonitor_p && d_cpuMonitor_p->valid()) {
         auto &pstats     = snap->process();
@@ -260,55 +189,6 @@ void StatCollector::populateStats(StatSnapshot *snap)
     }
 }
 
-void StatCollector::populateProgramStats(ConnectionStats *programStats) const
-{
-    ConnectionStats val;
-    val             = d_current.overall();
-    auto &prevStats = d_previous.overall();
-
-    for (auto &name : ConnectionStats::sessionMetrics()) {
-        val.statsValue(name) -= prevStats.statsValue(name);
-    }
-
-    for (auto &name : ConnectionStats::distributionMetrics()) {
-        const auto &prevDistribution = prevStats.distributionPair(name);
-        val.addDistributionStats(
-            name, -prevDistribution.first, -prevDistribution.second);
-    }
-
-    *programStats = val;
-}
-
-void StatCollector::populateMap(StatSnapshot::StatsMap       *map,
-                                const StatSnapshot::StatsMap &source,
-                                const StatSnapshot::StatsMap &previous) const
-{
-    StatSnapshot::StatsMap output(source);
-    ConnectionStats        zeroStats;
-
-    for (auto &k : output) {
-        const ConnectionStats *prevValue = &zeroStats;
-
-        auto it = previous.find(k.first);
-        if (it != previous.end()) {
-            prevValue = &it->second;
-        }
-
-        auto &val = k.second;
-        for (auto &name : ConnectionStats::sessionMetrics()) {
-            val.statsValue(name) -= prevValue->statsValue(name);
-        }
-
-        for (auto &name : ConnectionStats::distributionMetrics()) {
-            const auto &prevDistribution = prevValue->distributionPair(name);
-            val.addDistributionStats(
-                name, -prevDistribution.first, -prevDistribution.second);
-        }
-    }
-
-    map->swap(output);
-}
-
 void StatCollector::collectPerSourceStats(bool enabled)
 {
     d_collectPerSourceStats = enabled;
diff --git a/libamqpprox/amqpprox_statcollector.h b/libamqpprox/amqpprox_statcollector.h
index 3d19a15..7e695a9 100644
--- a/libamqpprox/amqpprox_statcollector.h
+++ b/libamqpprox/amqpprox_statcollector.h
@@ -35,10 +35,9 @@ class SessionState;
  * \brief Collect statistics from Sessions for a time periodicity.
  *
  * This accumulates statistics along a number of axes such as vhost, backend
- * and source. It is designed to accumulate between those points until reset,
- * upon which time some previous values are latched and the returned values are
- * based upon the difference from the previous values with respect to each
- * axis.
+ * and source. It is designed to accumulate between those points until reset.
+ * The totals of each session are latched when they are collected, and what is
+ * accumulated is their difference from the values latched previously.
  *
  * The basic workflow for dealing with this class is:
  *  1. Call `collect` with each session you want accumulated
@@ -49,10 +48,25 @@ class SessionState;
  */
 class StatCollector {
   private:
-    StatSnapshot d_current;
-    StatSnapshot d_previous;
-    CpuMonitor  *d_cpuMonitor_p;  // HELD NOT OWNED
-    BufferPool  *d_bufferPool_p;  // HELD NOT OWNED
+    /// What has been accumulated from a session already
+    struct SessionTotals {
+        uint64_t d_ingressPackets      = 0;
+        uint64_t d_ingressFrames       = 0;
+        uint64_t d_ingressBytes        = 0;
+        uint64_t d_ingressLatencyTotal = 0;
+        uint64_t d_ingressLatencyCount = 0;
+        uint64_t d_egressPackets       = 0;
+        uint64_t d_egressFrames        = 0;
+        uint64_t d_egressBytes         = 0;
+        uint64_t d_egressLatencyTotal  = 0;
+        uint64_t d_egressLatencyCount  = 0;
+        bool     d_removed             = false;
+    };
+
+    StatSnapshot                                d_current;
+    std::unordered_map<uint64_t, SessionTotals> d_collectedTotals;
+    CpuMonitor *d_cpuMonitor_p;  // HELD NOT OWNED
+    BufferPool *d_bufferPool_p;  // HELD NOT OWNED
 
     std::atomic<bool> d_collectPerSourceStats;
 
@@ -75,9 +89,9 @@ class StatCollector {
     void collect(const SessionState &session);
 
     /**
-     * \brief Delete the accumulated metrics for deleted specified session
-     * \param session `SessionState` object, whose accumulated metrics will be
-     * removed from maintined collection
+     * \brief Forget the specified session, which will not be collected again
+     * \param session `SessionState` object, whose latched totals will be
+     * removed from maintained collection
      */
     void deletedSession(const SessionState &session);
 
@@ -105,13 +119,6 @@ class StatCollector {
      * \param snapshot pointere to `StatSnapshot`
      */
     void populateStats(StatSnapshot *snapshot);
-
-  private:
-    void populateProgramStats(ConnectionStats *programStats) const;
-
-    void populateMap(StatSnapshot::StatsMap       *map,
-                     const StatSnapshot::StatsMap &source,
-                     const StatSnapshot::StatsMap &previous) const;
 };
 
 }
-- 
2.43.0


From 0dd002e81c568bfe2743f104069f0052d34f78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 22/37] fix: recognise all control command keywords regardless
 of case

---
 libamqpprox/amqpprox_limitcontrolcommand.cpp | 1 +
 libamqpprox/amqpprox_statcontrolcommand.cpp  | 1 +
 libamqpprox/amqpprox_tlscontrolcommand.cpp   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/libamqpprox/amqpprox_limitcontrolcommand.cpp b/libamqpprox/amqpprox_limitcontrolcommand.cpp
index a48c504..ef45a4b 100644
--- a/libamqpprox/amqpprox_limitcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_limitcontrolcommand.cpp
@@ -450,6 +450,7 @@ void LimitControlCommand::handleCommand(const std::string & /* command */,
             return;
         }
 
+        boost::to_upper(subcommand);
         isDisable = true;
     }
 
diff --git a/libamqpprox/amqpprox_statcontrolcommand.cpp b/libamqpprox/amqpprox_statcontrolcommand.cpp
index a6b72b2..3d9296d 100644
--- a/libamqpprox/amqpprox_statcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_statcontrolcommand.cpp
@@ -229,6 +229,7 @@ void StatControlCommand::handleCommand(const std::string   &command,
             outputFunctor("Missing stop type.\n", true);
             return;
         }
+        boost::to_upper(type);
         if (type == "SEND") {
             stopSendStats(&d_functors);
             outputFunctor("Stopped sending stats.\n", true);
diff --git a/libamqpprox/amqpprox_tlscontrolcommand.cpp b/libamqpprox/amqpprox_tlscontrolcommand.cpp
index 1f20f4f..6dbefeb 100644
--- a/libamqpprox/amqpprox_tlscontrolcommand.cpp
+++ b/libamqpprox/amqpprox_tlscontrolcommand.cpp
@@ -125,6 +125,7 @@ void TlsControlCommand::handleCommand(const std::string & /* command */,
     else if ("CIPHERS" == command) {
         std::string argument;
         iss >> argument;
+        boost::to_upper(argument);
         if ("PRINT" == argument) {
             output << "Ciphers:\n";
             logCipherSuites(context, output);
-- 
2.43.0


From cc49c92413be4b070a89b0c10794987040393097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:20 +0000
Subject: [PATCH 23/37] fix: answer a control command that fails instead of
 ending the control thread

---
 libamqpprox/amqpprox_control.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index 1fc52db..cf9d6ec 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -92,8 +92,18 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
 
         auto controlCommand = d_control_p->getControlCommand(commandVerb);
         if (controlCommand) {
-            controlCommand->handleCommand(
-                commandVerb, remaining, outputFunc, d_server_p, d_control_p);
+            try {
+                controlCommand->handleCommand(commandVerb,
+                                              remaining,
+                                              outputFunc,
+                                              d_server_p,
+                                              d_control_p);
+            }
+            catch (const std::exception &e) {
+                LOG_ERROR << "Control '" << input << "' failed: " << e.what();
+                sendOutput(std::string("Command failed: ") + e.what() + "\n",
+                           true);
+            }
         }
         else {
             auto helpCommand = d_control_p->getControlCommand("HELP");
-- 
2.43.0


From 1bfc9cd5556de77c8f4293aabe159b8438dfb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:15 +0000
Subject: [PATCH 24/37] fix: do not take an error status of the auth service
 for an allow

---
 libamqpprox/amqpprox_httpauthintercept.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libamqpprox/amqpprox_httpauthintercept.cpp b/libamqpprox/amqpprox_httpauthintercept.cpp
index eb192fa..b7fa5a5 100644
--- a/libamqpprox/amqpprox_httpauthintercept.cpp
+++ b/libamqpprox/amqpprox_httpauthintercept.cpp
@@ -233,6 +233,20 @@ void HttpAuthIntercept::onRead(
         return;
     }
 
+    if (beast::http::to_status_class(response->result()) !=
+        beast::http::status_class::successful) {
+        const std::string errorMsg =
+            "Auth service at " + d_hostname + ":" + d_port + d_target +
+            " answered with http status " +
+            std::to_string(response->result_int());
+        LOG_ERROR << errorMsg;
+        authproto::AuthResponse errorResponseData;
+        errorResponseData.set_result(authproto::AuthResponse::DENY);
+        errorResponseData.set_reason(errorMsg);
+        responseCb(errorResponseData);
+        return;
+    }
+
     authproto::AuthResponse authResponseData;
     if (!authResponseData.ParseFromString(response->body())) {
         const std::string errorMsg = "Unable to deserialize auth response "
-- 
2.43.0


From efc9fa935a696f4538765e51de21adfccdcefcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:38 +0000
Subject: [PATCH 25/37] fix: do not drop a throttled read when the quota is
 refreshed first

---
 libamqpprox/amqpprox_maybesecuresocketadaptor.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_maybesecuresocketadaptor.h b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
index 12a3c64..2823aa8 100644
--- a/libamqpprox/amqpprox_maybesecuresocketadaptor.h
+++ b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
@@ -423,10 +423,6 @@ class MaybeSecureSocketAdaptor
                         // lifetime
                         (void)dataRateTimer;
 
-                        if (error == boost::asio::error::operation_aborted) {
-                            return;
-                        }
-
                         std::shared_ptr<MaybeSecureSocketAdaptor> self =
                             weakSelf.lock();
                         if (!self) {
@@ -435,6 +431,9 @@ class MaybeSecureSocketAdaptor
                             return;
                         }
 
+                        // This wait is aborted when the usage was refreshed
+                        // by an earlier one, which had expired already when
+                        // this one was started. The read is due either way.
                         self->onTimer(error);
                         self->async_read_some(null_buffer, handler);
                     });
-- 
2.43.0


From 9f073faf0e5c4ca38abeedcb149562f5bd61be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 26/37] fix: count every byte of a TLS client for its data rate
 limit

---
 libamqpprox/amqpprox_maybesecuresocketadaptor.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_maybesecuresocketadaptor.h b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
index 2823aa8..33b401b 100644
--- a/libamqpprox/amqpprox_maybesecuresocketadaptor.h
+++ b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
@@ -354,7 +354,11 @@ class MaybeSecureSocketAdaptor
                 return result;
             }
 
-            return d_socket->read_some(buffers, ec);
+            size_t result = d_socket->read_some(buffers, ec);
+
+            recordReadUsage(result);
+
+            return result;
         }
         else {
             size_t result = d_socket->next_layer().read_some(buffers, ec);
-- 
2.43.0


From f063a7aac76f91f8a8d6752fb8c8bf26b7c6b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:58 +0000
Subject: [PATCH 27/37] fix: release an event subscription when its handle is
 reassigned

---
 libamqpprox/amqpprox_eventsourcesignal.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libamqpprox/amqpprox_eventsourcesignal.h b/libamqpprox/amqpprox_eventsourcesignal.h
index d557b26..321f57a 100644
--- a/libamqpprox/amqpprox_eventsourcesignal.h
+++ b/libamqpprox/amqpprox_eventsourcesignal.h
@@ -20,6 +20,7 @@
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <utility>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -79,12 +80,24 @@ class EventSubscriptionHandle {
     {
     }
 
-    EventSubscriptionHandle(const EventSubscriptionHandle &) = default;
-    EventSubscriptionHandle &
-    operator=(const EventSubscriptionHandle &) = default;
+    // A copy going out of scope would end the subscription of the original
+    EventSubscriptionHandle(const EventSubscriptionHandle &)            = delete;
+    EventSubscriptionHandle &operator=(const EventSubscriptionHandle &) = delete;
 
-    EventSubscriptionHandle(EventSubscriptionHandle &&)            = default;
-    EventSubscriptionHandle &operator=(EventSubscriptionHandle &&) = default;
+    EventSubscriptionHandle(EventSubscriptionHandle &&) = default;
+
+    /**
+     * \brief Take over another subscription, releasing the one held
+     */
+    EventSubscriptionHandle &operator=(EventSubscriptionHandle &&rhs)
+    {
+        if (this != &rhs) {
+            release();
+            d_subscriptionLocation = std::move(rhs.d_subscriptionLocation);
+            d_subscriptionId       = rhs.d_subscriptionId;
+        }
+        return *this;
+    }
 
     /**
      * \brief Explicitly release the subscription
-- 
2.43.0


From 91f04a0dfd19a71d8b9ee4c9babb585204aa5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:21 +0000
Subject: [PATCH 28/37] fix: protect the datacenter name, which farms read on
 the event loop

---
 libamqpprox/amqpprox_datacenter.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_datacenter.h b/libamqpprox/amqpprox_datacenter.h
index cdba267..5a04878 100644
--- a/libamqpprox/amqpprox_datacenter.h
+++ b/libamqpprox/amqpprox_datacenter.h
@@ -18,6 +18,7 @@
 
 #include <amqpprox_logging.h>
 
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -30,7 +31,8 @@ namespace amqpprox {
 class Datacenter {
   private:
     // DATA
-    std::string d_datacenter;
+    std::string        d_datacenter;
+    mutable std::mutex d_mutex;
 
   public:
     // MANIPULATORS
@@ -44,17 +46,19 @@ class Datacenter {
     /**
      * \return the datacenter name
      */
-    const std::string &get() const;
+    std::string get() const;
 };
 
 inline void Datacenter::set(std::string datacenter)
 {
     LOG_DEBUG << "Set datacenter to value: " << datacenter;
+    std::lock_guard<std::mutex> lg(d_mutex);
     d_datacenter = std::move(datacenter);
 }
 
-inline const std::string &Datacenter::get() const
+inline std::string Datacenter::get() const
 {
+    std::lock_guard<std::mutex> lg(d_mutex);
     return d_datacenter;
 }
 
-- 
2.43.0


From 9ca68b6dc28cface5ecd1958a1acf734585ba39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 29/37] fix: keep the cipher suites in force when a new list is
 refused

---
 libamqpprox/amqpprox_tlscontrolcommand.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_tlscontrolcommand.cpp b/libamqpprox/amqpprox_tlscontrolcommand.cpp
index 6dbefeb..b68e89b 100644
--- a/libamqpprox/amqpprox_tlscontrolcommand.cpp
+++ b/libamqpprox/amqpprox_tlscontrolcommand.cpp
@@ -135,8 +135,15 @@ void TlsControlCommand::handleCommand(const std::string & /* command */,
             std::string cipherList;
             std::getline(iss, cipherList);
 
-            int rc = SSL_CTX_set_cipher_list(context.native_handle(),
+            // A list without any known cipher suite clears the current one, so
+            // try it out first
+            boost::asio::ssl::context trial(boost::asio::ssl::context::tlsv12);
+            int rc = SSL_CTX_set_cipher_list(trial.native_handle(),
                                              cipherList.c_str());
+            if (rc) {
+                rc = SSL_CTX_set_cipher_list(context.native_handle(),
+                                             cipherList.c_str());
+            }
 
             if (!rc) {
                 output << "Failed to set cipher suite. ";
-- 
2.43.0


From af5163977d264dad696cc087130a525241fe2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:14 +0000
Subject: [PATCH 30/37] fix: do not lose the Close to the broker when the
 client answers with Close and CloseOk at once

---
 libamqpprox/amqpprox_connector.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 93be638..ff6d589 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -154,6 +154,12 @@ void Connector::receive(const Buffer &buffer)
 
 void Connector::receive(const Method &method, FlowType direction)
 {
+    if (d_state == State::SERVER_CLOSE_SENT && direction == FlowType::INGRESS) {
+        // The client is done with. Its messages may have come together with
+        // the one which led to the Close, which is still to be sent.
+        return;
+    }
+
     d_buffer = Buffer();
     Buffer methodPayload(method.payload, method.length);
 
@@ -296,13 +302,9 @@ void Connector::receive(const Method &method, FlowType direction)
             LOG_TRACE
                 << "Received Close/CloseOk after sending Close to server.";
             if (isClose) {
-                sendResponse(d_closeOk,
-                             direction ==
-                                 FlowType::INGRESS);  // send CloseOk back
-            }
-            if (direction == FlowType::EGRESS) {
-                d_state = State::CLOSED;
+                sendResponse(d_closeOk, false);  // send CloseOk back
             }
+            d_state = State::CLOSED;
         }
         else {
             LOG_WARN << "Incorrect method(" << method.methodType
-- 
2.43.0


From 29bc8d1f79443c3edad059c798fb86a87ec1732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:14 +0000
Subject: [PATCH 31/37] fix: keep the Close of a graceful disconnect apart from
 data being written and read

---
 libamqpprox/amqpprox_session.cpp | 97 ++++++++++++++++++++++++++++++--
 libamqpprox/amqpprox_session.h   | 15 +++++
 2 files changed, 108 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index bf3ede8..7465b51 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -171,6 +171,8 @@ Session::Session(
 , d_pauseCount(0)
 , d_ingressHeld(false)
 , d_heldAttempt()
+, d_clientWrites(0)
+, d_closeRequested(false)
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
@@ -749,11 +751,79 @@ void Session::disconnect(bool forcible)
         });
     }
     else {
-        d_connector.synthesizeClose(true);
-        sendSyntheticData();
+        // Called from the control socket thread, while the session belongs to
+        // the event loop
+        auto self(shared_from_this());
+        d_ioContext.dispatch([this, self] {
+            BOOST_LOG_SCOPED_THREAD_ATTR(
+                "Vhost",
+                boost::log::attributes::constant<std::string>(
+                    d_sessionState.getVirtualHost()));
+            BOOST_LOG_SCOPED_THREAD_ATTR(
+                "ConnID",
+                boost::log::attributes::constant<uint64_t>(
+                    d_sessionState.id()));
+
+            sendCloseToClient();
+        });
     }
 }
 
+void Session::sendCloseToClient()
+{
+    const auto state = d_connector.state();
+    if (finished() || state == Connector::State::CLIENT_CLOSE_SENT ||
+        state == Connector::State::SERVER_CLOSE_SENT ||
+        state == Connector::State::CLOSED) {
+        // Already ending
+        return;
+    }
+
+    if (state != Connector::State::OPEN) {
+        // No connection to close by protocol yet
+        disconnect(true);
+        return;
+    }
+
+    // Must not be mixed with a write in progress, whose completion gets back
+    // here
+    d_closeRequested = d_clientWrites > 0;
+    if (d_closeRequested) {
+        return;
+    }
+
+    d_connector.synthesizeClose(true);
+    sendClose(FlowType::INGRESS);
+}
+
+void Session::sendClose(FlowType direction)
+{
+    const Buffer outBuffer = d_connector.outBuffer();
+    auto         data      = std::make_shared<std::string>(
+        static_cast<const char *>(outBuffer.ptr()), outBuffer.available());
+    d_connector.resetOutBuffer();
+
+    auto &writeSocket = readSocket(direction);
+    auto  self(shared_from_this());
+    boost::asio::async_write(
+        writeSocket,
+        boost::asio::buffer(*data),
+        [this, self, data, direction](error_code ec, std::size_t) {
+            BOOST_LOG_SCOPED_THREAD_ATTR(
+                "Vhost",
+                boost::log::attributes::constant<std::string>(
+                    d_sessionState.getVirtualHost()));
+            BOOST_LOG_SCOPED_THREAD_ATTR(
+                "ConnID",
+                boost::log::attributes::constant<uint64_t>(
+                    d_sessionState.id()));
+
+            if (ec) {
+                handleSessionError("write", direction, ec);
+            }
+        });
+}
+
 void Session::backendDisconnect()
 {
     auto self(shared_from_this());
@@ -786,8 +856,14 @@ void Session::handleWriteData(FlowType                    direction,
                               MaybeSecureSocketAdaptor<> &writeSocket,
                               Buffer                      data)
 {
+    const bool toClient = &writeSocket == d_serverSocket.get();
+    if (toClient) {
+        ++d_clientWrites;
+    }
+
     auto self(shared_from_this());
-    auto writeHandler = [this, self, direction](error_code ec, std::size_t) {
+    auto writeHandler = [this, self, direction, toClient](error_code ec,
+                                                          std::size_t) {
         BOOST_LOG_SCOPED_THREAD_ATTR(
             "Vhost",
             boost::log::attributes::constant<std::string>(
@@ -796,6 +872,10 @@ void Session::handleWriteData(FlowType                    direction,
             "ConnID",
             boost::log::attributes::constant<uint64_t>(d_sessionState.id()));
 
+        if (toClient) {
+            --d_clientWrites;
+        }
+
         auto &watermark = waterMark(direction);
         if (0 == watermark) {
             bufferHandle(direction).release();
@@ -807,6 +887,10 @@ void Session::handleWriteData(FlowType                    direction,
             return;
         }
 
+        if (d_closeRequested) {
+            sendCloseToClient();
+        }
+
         uint64_t latency =
             std::chrono::duration_cast<std::chrono::milliseconds>(
                 TimePoint() - startedAt(direction))
@@ -954,6 +1038,11 @@ void Session::handleData(FlowType direction)
                             *d_serverSocket,
                             ingressWrite);
         }
+        else if (egressWrite.size() && direction == FlowType::INGRESS &&
+                 d_connector.state() == Connector::State::SERVER_CLOSE_SENT) {
+            // The client is done with, only the server is still to answer
+            sendClose(FlowType::EGRESS);
+        }
         else if (egressWrite.size()) {
             handleWriteData(isOpen ? FlowType::INGRESS : FlowType::EGRESS,
                             *d_clientSocket,
@@ -1014,7 +1103,7 @@ void Session::handleSessionError(const char               *action,
                  << " direction=" << direction;
 
         d_connector.synthesizeClose(false);
-        sendSyntheticData();  // sending Close to server side
+        sendClose(FlowType::EGRESS);  // sending Close to server side
 
         d_connector.synthesizeCloseError(true);
         sendSyntheticData();  // sending Close error to client side
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 9d7142b..228668b 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -90,6 +90,8 @@ class Session : public std::enable_shared_from_this<Session> {
     std::atomic<uint64_t>                       d_pauseCount;
     bool                                        d_ingressHeld;
     std::function<void()>                       d_heldAttempt;
+    unsigned int                                d_clientWrites;
+    bool                                        d_closeRequested;
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
@@ -226,6 +228,19 @@ class Session : public std::enable_shared_from_this<Session> {
      */
     void sendSyntheticData();
 
+    /**
+     * \brief Start a graceful disconnect by sending Close to the client, as
+     * soon as no other write to the client is in progress
+     */
+    void sendCloseToClient();
+
+    /**
+     * \brief Send the Close in connector's buffer next to the ordinary data
+     * flow, which goes on reading by itself
+     * \param direction specifies the side to send it to, INGRESS is the client
+     */
+    void sendClose(FlowType direction);
+
     /**
      * \brief Handle the incoming data that's been received
      * \param direction specifies direction of the data flow (ingress/egress)
-- 
2.43.0


From c7c1d3fd712f8220244fedd5a577149d3510ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 32/37] fix: print connections without racing with the
 sessions' waiting times

---
 libamqpprox/amqpprox_session.cpp | 8 ++++----
 libamqpprox/amqpprox_session.h   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 7465b51..fa4c7ed 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -159,8 +159,8 @@ Session::Session(
 , d_eventSource_p(eventSource)
 , d_bufferPool_p(bufferPool)
 , d_dnsResolver_p(dnsResolver)
-, d_ingressWaitingSince()
-, d_egressWaitingSince()
+, d_ingressWaitingSince(TimePoint())
+, d_egressWaitingSince(TimePoint())
 , d_egressRetryCounter(0)
 , d_ingressCurrentlyReading(false)
 , d_ingressStartedAt()
@@ -629,9 +629,9 @@ void Session::print(std::ostream &os)
 {
     TimePoint now = std::chrono::high_resolution_clock::now();
     std::chrono::duration<double> ingressTime =
-        now - timePoint(FlowType::INGRESS);
+        now - timePoint(FlowType::INGRESS).load();
     std::chrono::duration<double> egressTime =
-        now - timePoint(FlowType::EGRESS);
+        now - timePoint(FlowType::EGRESS).load();
     os << d_sessionState << " " << ingressTime.count() << ":"
        << egressTime.count() << std::endl;
 }
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 228668b..dfe2555 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -78,8 +78,8 @@ class Session : public std::enable_shared_from_this<Session> {
     EventSource                 *d_eventSource_p;         // HELD NOT OWNED
     BufferPool                  *d_bufferPool_p;          // HELD NOT OWNED
     DNSResolver                 *d_dnsResolver_p;
-    TimePoint                    d_ingressWaitingSince;
-    TimePoint                    d_egressWaitingSince;
+    std::atomic<TimePoint>       d_ingressWaitingSince;
+    std::atomic<TimePoint>       d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
     bool                         d_ingressCurrentlyReading;
     TimePoint                    d_ingressStartedAt;
@@ -320,7 +320,7 @@ class Session : public std::enable_shared_from_this<Session> {
      * \param direction specifies direction of the data flow (ingress/egress)
      * \return a mutable reference to the time we last saw traffic
      */
-    inline TimePoint &timePoint(FlowType direction);
+    inline std::atomic<TimePoint> &timePoint(FlowType direction);
 
     /**
      * \param direction specifies direction of the data flow (ingress/egress)
@@ -419,7 +419,7 @@ inline std::size_t &Session::waterMark(FlowType direction)
                                           : d_clientWaterMark;
 }
 
-inline Session::TimePoint &Session::timePoint(FlowType direction)
+inline std::atomic<Session::TimePoint> &Session::timePoint(FlowType direction)
 {
     return direction == FlowType::INGRESS ? d_ingressWaitingSince
                                           : d_egressWaitingSince;
-- 
2.43.0


From 4a87ccf7fcb7138ed72a03fcd1fdcd37991087fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:50 +0000
Subject: [PATCH 33/37] fix: do not leave a session with a data rate limit that
 was changed while it opened

---
 libamqpprox/amqpprox_session.cpp | 5 ++++-
 libamqpprox/amqpprox_session.h   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index fa4c7ed..0e1c00b 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -176,6 +176,7 @@ Session::Session(
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
+, d_updateLimitsMutex()
 {
     boost::system::error_code ec;
     d_serverSocket->setDefaultOptions(ec);
@@ -1199,7 +1200,9 @@ void Session::performDisconnectBoth()
 
 void Session::updateDataRateLimits()
 {
-    // Called from the control socket thread
+    // Called from the control socket thread and main thread, neither may
+    // overwrite what the other one set with a limit it read earlier
+    std::lock_guard<std::mutex> lg(d_updateLimitsMutex);
 
     const std::size_t limit =
         d_limitManager->getDataRateLimit(d_sessionState.getVirtualHost());
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index dfe2555..9166124 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -37,6 +37,7 @@
 #include <functional>
 #include <iosfwd>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -95,6 +96,7 @@ class Session : public std::enable_shared_from_this<Session> {
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
+    std::mutex                   d_updateLimitsMutex;
   public:
     // CREATORS
     Session(boost::asio::io_context                           &ioContext,
-- 
2.43.0


From 170fe4e1b86409722836befd35be01e5d584791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:04 +0000
Subject: [PATCH 34/37] fix: keep a StatsD metric alive until it has been sent

---
 libamqpprox/amqpprox_statsdpublisher.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_statsdpublisher.cpp b/libamqpprox/amqpprox_statsdpublisher.cpp
index 28b598a..7e52dee 100644
--- a/libamqpprox/amqpprox_statsdpublisher.cpp
+++ b/libamqpprox/amqpprox_statsdpublisher.cpp
@@ -18,6 +18,8 @@
 #include <amqpprox_connectionstats.h>
 #include <amqpprox_logging.h>
 
+#include <memory>
+
 namespace Bloomberg {
 namespace amqpprox {
 
@@ -72,15 +74,17 @@ StatsDPublisher::StatsDPublisher(boost::asio::io_context *ioContext,
 
 void StatsDPublisher::sendMetric(const std::string &metric)
 {
-    auto writeHandler = [metric](const boost::system::error_code &ec,
-                                 std::size_t bytesTransferred) {
+    // The handler keeps the buffer alive until the metric has been sent
+    auto spMetric     = std::make_shared<std::string>(metric);
+    auto writeHandler = [spMetric](const boost::system::error_code &ec,
+                                   std::size_t bytesTransferred) {
         if (ec) {
-            LOG_WARN << "Failed to send metric: " << metric
+            LOG_WARN << "Failed to send metric: " << *spMetric
                      << "error code: " << ec;
         }
     };
     d_socket.async_send_to(
-        boost::asio::buffer(metric), d_statsdEndpoint, writeHandler);
+        boost::asio::buffer(*spMetric), d_statsdEndpoint, writeHandler);
 }
 
 void StatsDPublisher::publish(const ConnectionStats &stats,
-- 
2.43.0


From 72ab12ff9489bd8e5216fa5d642ccadb7acfe37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:04 +0000
Subject: [PATCH 35/37] fix: keep delimiters of StatsD metrics out of the tags

---
 libamqpprox/amqpprox_statsdpublisher.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_statsdpublisher.cpp b/libamqpprox/amqpprox_statsdpublisher.cpp
index 7e52dee..195cb97 100644
--- a/libamqpprox/amqpprox_statsdpublisher.cpp
+++ b/libamqpprox/amqpprox_statsdpublisher.cpp
@@ -27,6 +27,18 @@ namespace {
 
 enum class MetricType { GAUGE, COUNTER, DISTRIBUTION };
 
+/// Characters that delimit the parts of a metric can't occur in a tag
+std::string tagValue(std::string value)
+{
+    for (char &c : value) {
+        if (c == ',' || c == '=' || c == ':' || c == '|' || c == '\n' ||
+            c == '\r') {
+            c = '_';
+        }
+    }
+    return value;
+}
+
 template <typename T>
 std::string
 formatMetric(MetricType                                              type,
@@ -40,7 +52,7 @@ formatMetric(MetricType                                              type,
         metric += ",";
         metric += tag.first;
         metric += "=";
-        metric += tag.second;
+        metric += tagValue(tag.second);
     }
     metric += ":";
     metric += std::to_string(value);
-- 
2.43.0


From f949c0ebd093e681b41a448d68f6bd2c562179a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:04 +0000
Subject: [PATCH 36/37] fix: escape names in the JSON statistics

---
 libamqpprox/amqpprox_jsonstatformatter.cpp | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_jsonstatformatter.cpp b/libamqpprox/amqpprox_jsonstatformatter.cpp
index 4b29439..6f6fd8c 100644
--- a/libamqpprox/amqpprox_jsonstatformatter.cpp
+++ b/libamqpprox/amqpprox_jsonstatformatter.cpp
@@ -21,6 +21,29 @@
 namespace Bloomberg {
 namespace amqpprox {
 
+namespace {
+
+void jsonString(std::ostream &os, const std::string &value)
+{
+    static const char hexDigits[] = "0123456789abcdef";
+
+    os << "\"";
+    for (unsigned char c : value) {
+        if (c == '"' || c == '\\') {
+            os << '\\' << c;
+        }
+        else if (c < 0x20) {
+            os << "\\u00" << hexDigits[c >> 4] << hexDigits[c & 0xf];
+        }
+        else {
+            os << c;
+        }
+    }
+    os << "\"";
+}
+
+}
+
 void JsonStatFormatter::format(std::ostream &os, const ConnectionStats &stats)
 {
     os << "{"
@@ -60,7 +83,8 @@ void JsonStatFormatter::format(std::ostream                 &os,
             firstIteration = false;
         }
 
-        os << "\"" << stat.first << "\": ";
+        jsonString(os, stat.first);
+        os << ": ";
         format(os, stat.second);
     }
     os << "}";
-- 
2.43.0


From 13d15dbfba3d98fb39f9085d19b82d73b8ae267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 37/37] fix: write the output of a control session in order

---
 libamqpprox/amqpprox_control.cpp | 34 +++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index cf9d6ec..8e66cfa 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -21,7 +21,10 @@
 
 #include <boost/algorithm/string.hpp>
 
+#include <deque>
 #include <iostream>
+#include <string>
+#include <utility>
 
 using boost::asio::local::stream_protocol;
 using namespace boost::system;
@@ -54,6 +57,9 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     boost::asio::streambuf  d_streamBuf;
     bool                    d_finished;
 
+    /// Output to be written, and whether it is the last. Written in order.
+    std::deque<std::pair<std::string, bool>> d_pendingOutput;
+
   public:
     ControlSession(stream_protocol::socket socket,
                    Server                 *server,
@@ -65,6 +71,7 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     , d_eventSource_p(eventSource)
     , d_streamBuf()
     , d_finished(false)
+    , d_pendingOutput()
     {
     }
 
@@ -118,28 +125,41 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
             return false;
         }
 
+        // Only one write can be outstanding, the rest waits for its turn
+        d_pendingOutput.emplace_back(output, finishOutput);
+        if (d_pendingOutput.size() == 1) {
+            writeOutput();
+        }
+
+        return true;
+    }
+
+    void writeOutput()
+    {
         auto self(shared_from_this());
-        auto spOutput = std::make_shared<std::string>(output);
         boost::asio::async_write(
             d_socket,
-            boost::asio::buffer(spOutput->data(), spOutput->length()),
-            [this, finishOutput, self, spOutput](error_code  ec,
-                                                 std::size_t length) {
+            boost::asio::buffer(d_pendingOutput.front().first),
+            [this, self](error_code ec, std::size_t length) {
                 if (ec) {
                     d_finished = true;
                     return;
                 }
 
-                if (finishOutput) {
+                if (d_pendingOutput.front().second) {
                     d_finished = true;
                     error_code shutdownErr;
                     d_socket.shutdown(stream_protocol::socket::shutdown_both,
                                       shutdownErr);
                     d_socket.close();
+                    return;
                 }
-            });
 
-        return true;
+                d_pendingOutput.pop_front();
+                if (!d_pendingOutput.empty()) {
+                    writeOutput();
+                }
+            });
     }
 
     void start() { readInput(); }
-- 
2.43.0

