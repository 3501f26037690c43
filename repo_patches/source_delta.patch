From 5e84a727591259d1c81585c98d78f8da547dd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 01/77] fix: apply the filters of one SUBSCRIBE in packet order

The deferred subscriptions were collected with emplace_front(), so they
were applied in reverse: with the same filter given twice the options of
the first one stayed in effect, and retained messages were delivered in
reverse order of the filters.
---
 mqttpacket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..6eb9b2b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1869,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
-- 
2.43.0


From f59c000a7e9ce72826029fe440152ad1ff53ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 02/77] fix: keep the subscription identifier of queued
 retained and will messages

getNewPublish() only set it when copying from a packet, so retained
messages and wills that were queued for redelivery or for an off-line
session lost (or got a stale) subscription identifier.
---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From 016ca1a9fa5ce5dcc455c3c1d07a1af78896f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 03/77] fix: release packet id and quota of QoS messages too
 big for the client

When a QoS 1/2 publish was dropped because it exceeds the client's
maximum packet size, its packet id, flow control slot and queue entry were
kept, although the client can never acknowledge it. Enough of those
stopped all QoS traffic to that client.
---
 session.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/session.cpp b/session.cpp
index 29310b8..aa1cd09 100644
--- a/session.cpp
+++ b/session.cpp
@@ -300,7 +300,14 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     if (!c->isRetainedAvailable())
         effectiveRetain = false;
 
-    return c->writeMqttPacketAndBlameThisClient(copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+    const PacketDropReason drop_reason = c->writeMqttPacketAndBlameThisClient(
+        copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+
+    // [MQTT-3.1.2-25]: behave as if we completed sending it. Nothing will ever be acked, so we need to release the ID and quota.
+    if (drop_reason == PacketDropReason::BiggerThanPacketLimit && pack_id)
+        clearQosMessage(pack_id.value(), true);
+
+    return drop_reason;
 }
 
 /**
@@ -399,7 +406,12 @@ void Session::sendAllPendingQosData()
             Publish &pub = std::get<Publish>(p);
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+            const PacketDropReason drop_reason = c->writeMqttPacketAndBlameThisClient(
+                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+
+            // [MQTT-3.1.2-25]: behave as if we completed sending it.
+            if (drop_reason == PacketDropReason::BiggerThanPacketLimit)
+                clearQosMessage(std::get<uint16_t>(p), true);
         }
 
         for(uint16_t id : copiedQoS2Ids)
-- 
2.43.0


From 8186874b4047bcaa6d7dec91d2d7586e3ff7ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 04/77] fix: disconnect of a taken over connection must not
 touch the session of its successor

---
 client.cpp            | 6 +++---
 lockedsharedptr.h     | 7 +++++++
 session.cpp           | 7 +++++--
 session.h             | 2 +-
 subscriptionstore.cpp | 2 +-
 threaddata.cpp        | 6 +++++-
 6 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..5ff7524 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1217,11 +1217,11 @@ const std::optional<std::string> &Client::getRemotePrefix() const
 
 void Client::clearWill()
 {
+    if (session)
+        session->clearWill(willPublish);
+
     willPublish.reset();
     stagedWillPublish.reset();
-
-    if (session)
-        session->clearWill();
 }
 
 std::string Client::getClientIdOrPrefix() const
diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index b38ddd5..7f366c4 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,6 +25,13 @@ public:
         p.reset();
     }
 
+    void reset_if_same(const std::shared_ptr<T> &r)
+    {
+        std::lock_guard<std::mutex> l(m);
+        if (p == r)
+            p.reset();
+    }
+
     std::shared_ptr<T> getCopy()
     {
         std::lock_guard<std::mutex> l(m);
diff --git a/session.cpp b/session.cpp
index aa1cd09..740b33a 100644
--- a/session.cpp
+++ b/session.cpp
@@ -428,9 +428,12 @@ bool Session::hasActiveClient()
     return !client.expired();
 }
 
-void Session::clearWill()
+/**
+ * @brief Session::clearWill clears the will if it is still the one given. It may already be the will of a newer connection.
+ */
+void Session::clearWill(const std::shared_ptr<WillPublish> &will)
 {
-    this->willPublish.reset();
+    this->willPublish.reset_if_same(will);
 }
 
 std::shared_ptr<WillPublish> Session::getWill()
diff --git a/session.h b/session.h
index 6dbcbac..b11938f 100644
--- a/session.h
+++ b/session.h
@@ -129,7 +129,7 @@ public:
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData();
     bool hasActiveClient();
-    void clearWill();
+    void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..017338f 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -399,7 +399,7 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..2223f9c 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,7 +437,11 @@ void ThreadData::clientDisconnectActions(
         store->queueOrSendWillMessage(willPublish, session);
     }
 
-    if (session && session->getDestroyOnDisconnect())
+    if (session && session->hasActiveClient())
+    {
+        // A newer connection has taken over the session, so its fate is no longer up to the connection that is gone.
+    }
+    else if (session && session->getDestroyOnDisconnect())
     {
         store->removeSession(session);
     }
-- 
2.43.0


From 1df55eb3a56ff8d19098a4fc8ae272c943700130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 05/77] fix: end the session at once when DISCONNECT sets
 session expiry 0

---
 session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session.cpp b/session.cpp
index 740b33a..55d57fe 100644
--- a/session.cpp
+++ b/session.cpp
@@ -571,6 +571,10 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     }
 
     this->sessionExpiryInterval = newVal;
+
+    // The session ends when the network connection closes [MQTT-3.14.2.2.2]
+    if (newVal == 0)
+        destroyOnDisconnect = true;
 }
 
 void Session::setQueuedRemovalAt()
-- 
2.43.0


From 0a13ac0241ce93d5fe1132ae18a2df3437f711f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 06/77] fix: publish the will of a session that is replaced by
 a clean start

---
 subscriptionstore.cpp | 11 +++++++++++
 threaddata.cpp        |  4 +++-
 types.h               |  1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 017338f..e9feb07 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -327,6 +327,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
+    std::shared_ptr<Session> replacedSession;
 
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
@@ -361,6 +362,8 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
         if (!session || session->getDestroyOnDisconnect() || clean_start)
         {
+            replacedSession = session;
+
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
@@ -369,6 +372,14 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
     }
 
     session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
+
+    // The will of a session that ends must not wait for its delay any longer. Wills not queued yet are still with their disconnecting client.
+    if (replacedSession)
+    {
+        const std::shared_ptr<WillPublish> will = replacedSession->getWill();
+        if (will && will->getIsQueued())
+            queueOrSendWillMessage(will, replacedSession, true);
+    }
 }
 
 /**
diff --git a/threaddata.cpp b/threaddata.cpp
index 2223f9c..fd77e65 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -434,7 +434,9 @@ void ThreadData::clientDisconnectActions(
 
     if (willPublish)
     {
-        store->queueOrSendWillMessage(willPublish, session);
+        // When the session doesn't exist anymore, because a client with the same ID did a clean start, there is no delay to wait for.
+        const bool sessionEnded = session && !session->hasActiveClient() && store->lockSession(clientid) != session;
+        store->queueOrSendWillMessage(willPublish, session, sessionEnded);
     }
 
     if (session && session->hasActiveClient())
diff --git a/types.h b/types.h
index 1044692..065fe6c 100644
--- a/types.h
+++ b/types.h
@@ -293,6 +293,7 @@ public:
     WillPublish(const Publish &other);
     void setQueuedAt();
     uint32_t getQueuedAtAge() const;
+    bool getIsQueued() const { return isQueued; }
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
 
-- 
2.43.0


From f956ef29cfd02d250e52b9fa6630d65c8e2d09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 07/77] fix: stale removal entry must not end a session before
 its own expiry

---
 session.cpp           | 9 +++++++++
 session.h             | 1 +
 subscriptionstore.cpp | 7 +++----
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/session.cpp b/session.cpp
index 55d57fe..d57e4c0 100644
--- a/session.cpp
+++ b/session.cpp
@@ -583,6 +583,15 @@ void Session::setQueuedRemovalAt()
     this->removalQueued = true;
 }
 
+/**
+ * @brief Session::getRemoveAt gets the moment the session should be removed, as counted from its last queued removal.
+ */
+std::chrono::seconds Session::getRemoveAt() const
+{
+    const std::chrono::time_point<std::chrono::steady_clock> removeAt = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);
+    return std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
+}
+
 uint32_t Session::getSessionExpiryInterval() const
 {
     return this->sessionExpiryInterval;
diff --git a/session.h b/session.h
index b11938f..48f595e 100644
--- a/session.h
+++ b/session.h
@@ -148,6 +148,7 @@ public:
 
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
+    std::chrono::seconds getRemoveAt() const;
     void setQueuedRemovalAt();
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index e9feb07..a6303da 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1308,8 +1308,8 @@ void SubscriptionStore::removeExpiredSessionsClients()
             {
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
-                // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                // A session could have been picked up again (and left again), so we have to verify its expiration status.
+                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemoveAt() <= secondsSinceEpoch)
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1451,9 +1451,8 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
     if (!session)
         return;
 
-    std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
-    std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
     session->setQueuedRemovalAt();
+    const std::chrono::seconds secondsSinceEpoch = session->getRemoveAt();
 
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
     queuedSessionRemovals[secondsSinceEpoch].push_back(session);
-- 
2.43.0


From c4b1526d96de01e4367e5cd0a333120613c13a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 08/77] fix: don't count the age of saved messages double when
 loading them

---
 retainedmessagesdb.cpp         | 6 +++++-
 sessionsandsubscriptionsdb.cpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..afdb2aa 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -222,7 +222,11 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         pub.username = username;
 
         if (pub.expireInfo)
-            pub.expireInfo.value().createdAt = timepointFromAge(newPubAge);
+        {
+            // The interval in the saved packet is what was left of it at the time of saving.
+            pub.expireInfo->expiresAfter += std::chrono::seconds(originalPubAge);
+            pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+        }
 
         RetainedMessage msg(pub);
         if (logger->wouldLog(LOG_DEBUG))
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..1ea775e 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -190,7 +190,11 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
                     const uint32_t newPubAge = persistence_state_age + originalPubAge;
                     if (pub.expireInfo)
+                    {
+                        // The interval in the saved packet is what was left of it at the time of saving.
+                        pub.expireInfo->expiresAfter += std::chrono::seconds(originalPubAge);
                         pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+                    }
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
-- 
2.43.0


From ef538f4f20f326c3f26bea623c7521006cc119ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 09/77] fix: expiry interval of a will starts when it is
 published

---
 sessionsandsubscriptionsdb.cpp | 7 ++++++-
 subscriptionstore.cpp          | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 1ea775e..aa62b84 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -417,7 +417,12 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
             if (hasWillThatShouldSurviveRestart)
             {
-                MqttPacket willpacket(ProtocolVersion::Mqtt5, *will);
+                // The expiry interval doesn't start counting until the will is published.
+                WillPublish will_copy(*will);
+                if (will_copy.expireInfo)
+                    will_copy.expireInfo->createdAt = std::chrono::steady_clock::now();
+
+                MqttPacket willpacket(ProtocolVersion::Mqtt5, will_copy);
 
                 // Dummy, to please the parser on reading.
                 if (will->qos > 0)
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index a6303da..b93e307 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -424,6 +424,10 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
+        // The expiry interval is relative to the publication of the will, see MQTT 3.1.3.2.4.
+        if (will->expireInfo)
+            will->expireInfo->createdAt = std::chrono::steady_clock::now();
+
         PublishCopyFactory factory(will.get());
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
-- 
2.43.0


From cf0868ed65bb99ccb9500006b26eb72bb9bb5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 10/77] fix: packet ids of loaded sessions are in use

---
 session.cpp                    | 5 +++++
 session.h                      | 1 +
 sessionsandsubscriptionsdb.cpp | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/session.cpp b/session.cpp
index d57e4c0..cca6c73 100644
--- a/session.cpp
+++ b/session.cpp
@@ -90,6 +90,11 @@ void Session::QoSData::loadNextPacketId(const uint16_t id)
     this->nextPacketId = id;
 }
 
+void Session::QoSData::loadUsedPacketId(const uint16_t id)
+{
+    usedIds.insert(id);
+}
+
 void Session::QoSData::clearExpiredMessagesFromQueue()
 {
     const auto now = std::chrono::steady_clock::now();
diff --git a/session.h b/session.h
index 48f595e..7802743 100644
--- a/session.h
+++ b/session.h
@@ -72,6 +72,7 @@ class Session
         void markQoSLogPrinted();
         bool currentPackedIdLogPrinted() const;
         void loadNextPacketId(const uint16_t id);
+        void loadUsedPacketId(const uint16_t id);
         void clearExpiredMessagesFromQueue();
         void decreaseFlowControlQuotaAgain(const uint16_t packet_id);
         void increaseFlowControlQuota(const uint16_t packet_id);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index aa62b84..ec2cae3 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -199,6 +199,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint32_t nrOfIncomingPacketIds = readUint32(eofFound);
@@ -219,6 +220,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint16_t nextPacketId = readUint16(eofFound);
-- 
2.43.0


From 9c6cf26d50feba09b9f5f95b9d4b74edab1d62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 11/77] fix: load queued messages with a subscription
 identifier from the state file

The state file made the program refuse to start: 'Subscription identifiers
cannot be sent to servers.'
---
 mqttpacket.cpp                 | 12 +++++++++++-
 mqttpacket.h                   |  2 +-
 sessionsandsubscriptionsdb.cpp |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 6eb9b2b..3e86c13 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2027,7 +2027,7 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     sender->writeMqttPacket(response);
 }
 
-void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
+void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, const bool fromSavedState)
 {
     assert(externallyReceived);
 
@@ -2153,6 +2153,16 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
 
                 dontReuseBites = true;
 
+                // Queued messages of sessions are saved with the identifier of the subscription they are for.
+                if (fromSavedState)
+                {
+                    publishData.subscriptionIdentifier = decodeVariableByteIntAtPos();
+#ifdef TESTING
+                    publishData.subscriptionIdentifierTesting = publishData.subscriptionIdentifier;
+#endif
+                    break;
+                }
+
 #ifndef TESTING
                 if (sender->getClientType() != ClientType::LocalBridge)
                     throw ProtocolError("Subscription identifiers cannot be sent to servers.", ReasonCodes::ProtocolError);
diff --git a/mqttpacket.h b/mqttpacket.h
index a868296..9e46451 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -151,7 +151,7 @@ public:
     void handleSubAck(std::shared_ptr<Client> &sender);
     void handleUnsubscribe(std::shared_ptr<Client> &sender);
     void handlePing(std::shared_ptr<Client> &sender);
-    void parsePublishData(std::shared_ptr<Client> &sender);
+    void parsePublishData(std::shared_ptr<Client> &sender, const bool fromSavedState = false);
     void handlePublish(std::shared_ptr<Client> &sender);
     void parsePubAckData();
     void handlePubAck(std::shared_ptr<Client> &sender);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index ec2cae3..a6fde0d 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -182,7 +182,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     cirbuf.advanceHead(packlen);
                     MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-                    pack.parsePublishData(dummyClient);
+                    pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
 
                     pub.client_id = sender_clientid;
-- 
2.43.0


From 35e8fbaaadc552cf2f6180b827b3578d6f40c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 12/77] fix: messages of loaded sessions count towards
 max_qos_msg_pending_per_client

---
 sessionsandsubscriptionsdb.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index a6fde0d..c9f968b 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -156,6 +156,8 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
             logger->logf(LOG_DEBUG, "Loading session '%s'.", ses->getClientId().c_str());
 
+            std::vector<uint16_t> loadedPacketIds;
+
             {
                 MutexLocked<Session::QoSData> qos_locked = ses->qos.lock();
 
@@ -200,6 +202,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
                     qos_locked->loadUsedPacketId(id);
+                    loadedPacketIds.push_back(id);
                 }
 
                 const uint32_t nrOfIncomingPacketIds = readUint32(eofFound);
@@ -236,7 +239,20 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
             // We will set the session expiry interval as it would have had time continued. If a connection picks up session, it will update
             // it with a more relevant value.
             // The protocol version 5 is just dummy, to get the behavior I want.
-            ses->setSessionProperties(0xFFFF, sessionExpiryInterval, 0, ProtocolVersion::Mqtt5);
+            ses->setSessionProperties(settings.maxQosMsgPendingPerClient, sessionExpiryInterval, 0, ProtocolVersion::Mqtt5);
+
+            {
+                // The loaded messages count towards the limit, like they did before they were saved.
+                MutexLocked<Session::QoSData> qos_locked = ses->qos.lock();
+
+                for (const uint16_t id : loadedPacketIds)
+                {
+                    if (qos_locked->flowControlExhausted())
+                        break;
+
+                    qos_locked->decreaseFlowControlQuotaAgain(id);
+                }
+            }
 
             const uint16_t hasWill = readUint16(eofFound);
 
-- 
2.43.0


From 4a412bc9b3aef4ad1bba5970d0aa6f2fa4444f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:33 +0000
Subject: [PATCH 13/77] fix: let new messages wait for the CONNACK and the
 pending messages of a connection

A message arriving while a session was being picked up could be sent before the CONNACK, overtake the messages still pending, be sent twice (with its place in
the receive maximum lost), or stay in the queue without being sent until the next reconnect.
---
 client.h       |   3 +-
 mqttpacket.cpp |   2 +-
 session.cpp    | 144 +++++++++++++++++++++++++++++++------------------
 session.h      |  14 ++++-
 threaddata.cpp |   2 +-
 5 files changed, 108 insertions(+), 57 deletions(-)

diff --git a/client.h b/client.h
index a27230b..54731f6 100644
--- a/client.h
+++ b/client.h
@@ -15,6 +15,7 @@ See LICENSE for license details.
 #include <unistd.h>
 #include <vector>
 #include <mutex>
+#include <atomic>
 #include <iostream>
 #include <time.h>
 #include <optional>
@@ -116,7 +117,7 @@ class Client
     CirBuf readbuf;
     MutexOwned<WriteBuf> writebuf;
 
-    bool authenticated = false;
+    std::atomic<bool> authenticated { false };
     bool connectPacketSeen = false;
     bool readyForReading = true;
     DisconnectStage disconnectStage = DisconnectStage::NotInitiated;
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 3e86c13..a64dabd 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1489,7 +1489,7 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
 
-    session->sendAllPendingQosData();
+    session->sendAllPendingQosData(sender);
 }
 
 AuthPacketData MqttPacket::parseAuthData()
diff --git a/session.cpp b/session.cpp
index cca6c73..696fdf3 100644
--- a/session.cpp
+++ b/session.cpp
@@ -43,6 +43,7 @@ void Session::QoSData::resetFlowControlCounters(const uint16_t receive_max)
 {
     this->flowControlCealing = receive_max;
     this->flowControlQuota = receive_max;
+    this->quotaTakenByUnsent = 0;
 }
 
 bool Session::QoSData::flowControlExhausted() const
@@ -162,6 +163,21 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+void Session::QoSData::markQuotaTakenByUnsent()
+{
+    this->quotaTakenByUnsent++;
+}
+
+/**
+ * @brief Session::QoSData::startResend ends the period in which messages are only queued. Everything queued will be counted as it is sent.
+ */
+void Session::QoSData::startResend()
+{
+    this->flowControlQuota = std::min<int>(this->flowControlQuota + this->quotaTakenByUnsent, this->flowControlCealing);
+    this->quotaTakenByUnsent = 0;
+    this->resendPending = false;
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
@@ -182,6 +198,13 @@ std::shared_ptr<Client> Session::makeSharedClient()
 
 void Session::assignActiveConnection(const std::shared_ptr<Client> &client)
 {
+    MutexLocked<QoSData> qos_locked = qos.lock();
+    assignActiveConnection(qos_locked, client);
+}
+
+void Session::assignActiveConnection(MutexLocked<QoSData> &qos_locked, const std::shared_ptr<Client> &client)
+{
+    qos_locked->resendPending = true;
     this->client = client;
     this->willPublish = client->getWill();
     this->removalQueued = false;
@@ -197,9 +220,12 @@ void Session::assignActiveConnection(const std::shared_ptr<Session> &thisSession
     if (username != client->getUsername())
         throw ProtocolError("Cannot take over session with different username", ReasonCodes::NotAuthorized);
 
-    thisSession->assignActiveConnection(client);
     client->assignSession(thisSession);
-    thisSession->setSessionProperties(clientReceiveMax, sessionExpiryInterval, clean_start, client->getProtocolVersion());
+
+    // At once, so that no message can get to the new connection before the pending data.
+    MutexLocked<QoSData> qos_locked = qos.lock();
+    thisSession->assignActiveConnection(qos_locked, client);
+    thisSession->setSessionProperties(qos_locked, clientReceiveMax, sessionExpiryInterval, clean_start, client->getProtocolVersion());
 }
 
 /**
@@ -233,8 +259,8 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         return PacketDropReason::AuthDenied;
     }
 
-    const std::shared_ptr<Client> c = makeSharedClient();
-
+    std::shared_ptr<Client> c; // Must outlive the lock of the QoS data, because the destructor of a client can need it.
+    bool hold_back = false;
     std::optional<std::string> topic_override;
 
     {
@@ -259,6 +285,9 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         const Settings *settings = ThreadGlobals::getSettings();
         MutexLocked<QoSData> qos_locked = qos.lock();
 
+        // Under the lock, because when a connection is picked up in between, the message would stay in the queue, unsent.
+        c = makeSharedClient();
+
         // We don't clear expired messages for online clients. It would slow down the 'happy flow' and those packets are already in the output
         // buffer, so we can't clear them anyway.
         if (!c)
@@ -295,11 +324,25 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
             return PacketDropReason::QoSTODOSomethingSomething;
         }
 
-        if (!destroyOnDisconnect)
+        if (!destroyOnDisconnect || qos_locked->resendPending)
             qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override);
+
+        // It will be sent along with the rest of the pending data.
+        if (c && qos_locked->resendPending)
+        {
+            qos_locked->markQuotaTakenByUnsent();
+            hold_back = true;
+        }
+    }
+    else
+    {
+        c = makeSharedClient();
+
+        // The first packet must be the CONNACK [MQTT-3.2.0-1].
+        hold_back = c && !c->getAuthenticated();
     }
 
-    if (!c)
+    if (!c || hold_back)
         return PacketDropReason::ClientOffline;
 
     if (!c->isRetainedAvailable())
@@ -330,12 +373,7 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
     if (logger->wouldLog(LOG_PUBLISH))
         logger->logf(LOG_PUBLISH, "Clearing QoS message for '%s', packet id '%d'. Left in queue: %d", client_id.c_str(), packet_id, qos_locked->getQueuedCount());
 
-    if (!destroyOnDisconnect)
-        result = qos_locked->eraseQueuedPublish(packet_id);
-    else
-    {
-        result = true;
-    }
+    result = qos_locked->eraseQueuedPublish(packet_id) || destroyOnDisconnect;
 
     if (qosHandshakeEnds && result)
     {
@@ -359,69 +397,64 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
  * never know that, because IT will have received the PUBACK from FlashMQ. The QoS system is not between publisher
  * and subscriber. Users are required to implement something themselves.
  */
-void Session::sendAllPendingQosData()
+void Session::sendAllPendingQosData(const std::shared_ptr<Client> &c)
 {
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::shared_ptr<Client> c = makeSharedClient();
-    if (c)
-    {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t>> copiedPublishes;
-        std::vector<uint16_t> copiedQoS2Ids;
-
-        {
-            MutexLocked<QoSData> qos_locked = qos.lock();
+    std::shared_ptr<Client> current; // Must outlive the lock, because the destructor of a client can need it.
 
-            std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
-            while (qp_)
-            {
-                std::shared_ptr<QueuedPublish> qp = qp_;
-                qp_ = qp_->next.lock();
+    // Locked for as long as it takes, so that other threads can't get their messages in front of the pending ones.
+    MutexLocked<QoSData> qos_locked = qos.lock();
 
-                Publish &pub = qp->getPublish();
+    current = makeSharedClient();
 
-                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
-                {
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
+    // The session may already have been taken over by a newer connection, which will do this itself.
+    if (c && c == current)
+    {
+        qos_locked->startResend();
 
-                if (qos_locked->flowControlExhausted())
-                {
-                    logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
+        std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
+        while (qp_)
+        {
+            std::shared_ptr<QueuedPublish> qp = qp_;
+            qp_ = qp_->next.lock();
 
-                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+            Publish &pub = qp->getPublish();
 
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());
+            if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
+            {
+                qos_locked->eraseQueuedPublish(qp->getPacketId());
+                qos_locked->releasePacketId(qp->getPacketId());
+                continue;
             }
 
-            for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
+            if (qos_locked->flowControlExhausted())
             {
-                copiedQoS2Ids.push_back(packet_id);
+                logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
+                qos_locked->eraseQueuedPublish(qp->getPacketId());
+                qos_locked->releasePacketId(qp->getPacketId());
+                continue;
             }
-        }
 
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t> &p : copiedPublishes)
-        {
-            Publish &pub = std::get<Publish>(p);
-            PublishCopyFactory fac(&pub);
+            qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+
+            Publish copy(pub);
+            PublishCopyFactory fac(&copy);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
             const PacketDropReason drop_reason = c->writeMqttPacketAndBlameThisClient(
-                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+                fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
 
             // [MQTT-3.1.2-25]: behave as if we completed sending it.
             if (drop_reason == PacketDropReason::BiggerThanPacketLimit)
-                clearQosMessage(std::get<uint16_t>(p), true);
+            {
+                qos_locked->eraseQueuedPublish(qp->getPacketId());
+                qos_locked->increaseFlowControlQuota(qp->getPacketId());
+            }
         }
 
-        for(uint16_t id : copiedQoS2Ids)
+        for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
         {
-            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, id);
+            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, packet_id);
             MqttPacket packet(pubRel);
             c->writeMqttPacketAndBlameThisClient(packet);
         }
@@ -555,7 +588,12 @@ bool Session::getDestroyOnDisconnect() const
 void Session::setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version)
 {
     MutexLocked<QoSData> qos_locked = qos.lock();
+    setSessionProperties(qos_locked, clientReceiveMax, sessionExpiryInterval, clean_start, protocol_version);
+}
 
+void Session::setSessionProperties(MutexLocked<QoSData> &qos_locked, uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start,
+                                   ProtocolVersion protocol_version)
+{
     // Flow control is not part of the session state, so/but/and because we call this function every time a client connects, we reset it properly.
     qos_locked->resetFlowControlCounters(clientReceiveMax);
 
diff --git a/session.h b/session.h
index 7802743..b7cd022 100644
--- a/session.h
+++ b/session.h
@@ -47,10 +47,18 @@ class Session
         int flowControlCealing = 0xFFFF;
         int flowControlQuota = 0xFFFF;
 
+        // Quota taken by messages that were queued, but not sent, because 'resendPending' was set.
+        int quotaTakenByUnsent = 0;
+
     public:
         std::set<uint16_t> incomingQoS2MessageIds;
         std::set<uint16_t> outgoingQoS2MessageIds;
 
+        /**
+         * Set as long as the current connection has not been sent the pending QoS data yet. New messages have to queue up behind it.
+         */
+        bool resendPending = false;
+
         std::chrono::time_point<std::chrono::steady_clock> lastExpiredMessagesAt = std::chrono::steady_clock::now();
 
         QoSData(const uint16_t maxQosMsgPendingPerClient) :
@@ -81,6 +89,8 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        void markQuotaTakenByUnsent();
+        void startResend();
     };
 
     friend class SessionsAndSubscriptionsDB;
@@ -124,11 +134,12 @@ public:
     const std::optional<std::string> &getFmqClientGroupId() const { return fmq_client_group_id; }
     std::shared_ptr<Client> makeSharedClient();
     void assignActiveConnection(const std::shared_ptr<Client> &client);
+    void assignActiveConnection(MutexLocked<QoSData> &qos_locked, const std::shared_ptr<Client> &client);
     void assignActiveConnection(const std::shared_ptr<Session> &thisSession, const std::shared_ptr<Client> &client,
                                 uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start);
     PacketDropReason writePacket(PublishCopyFactory &copyFactory, const uint8_t max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier);
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
-    void sendAllPendingQosData();
+    void sendAllPendingQosData(const std::shared_ptr<Client> &c);
     bool hasActiveClient();
     void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
@@ -148,6 +159,7 @@ public:
     bool getDestroyOnDisconnect() const;
 
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
+    void setSessionProperties(MutexLocked<QoSData> &qos_locked, uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
     std::chrono::seconds getRemoveAt() const;
     void setQueuedRemovalAt();
diff --git a/threaddata.cpp b/threaddata.cpp
index fd77e65..6c40004 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -222,7 +222,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
-            client->getSession()->sendAllPendingQosData();
+            client->getSession()->sendAllPendingQosData(client);
             client->handleAfterAsyncQueue(client);
         }
         else // Reauth (to authenticated clients) sends AUTH on success.
-- 
2.43.0


From 8ad60ab08cedddabd832f5cca0796000c9a8674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 14/77] fix: ACL file user names and topics may contain spaces

A 'user a b' line assigned the rules that follow to user 'a'.
---
 plugin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plugin.cpp b/plugin.cpp
index cc678da..6b6a37b 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -832,7 +832,8 @@ void Authentication::loadMosquittoAclFile()
             if (line.empty() || startsWith(line, "#"))
                 continue;
 
-            const std::vector<std::string> fields = splitToVector(line, ' ', 3, false);
+            // The last field, being a topic or user name, may contain spaces.
+            const std::vector<std::string> fields = splitToVector(line, ' ', 2, false);
 
             if (fields.size() < 2)
                 throw ConfigFileException(formatString("Line does not have enough fields: %s", line.c_str()));
@@ -847,6 +848,7 @@ void Authentication::loadMosquittoAclFile()
                 if (fields.size() == 3)
                 {
                     topic = fields[2];
+                    ltrim(topic);
                     g = stringToAclGrant(fields[1]);
                 }
                 else if (fields.size() == 2)
@@ -864,7 +866,8 @@ void Authentication::loadMosquittoAclFile()
             }
             else if (firstWord == "user")
             {
-                currentUser = fields[1];
+                currentUser = line.substr(fields[0].size());
+                ltrim(currentUser);
             }
             else
             {
-- 
2.43.0


From c172575ad228c5e42fe746aeb1187bbe12275144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 15/77] fix: placeholders in ACL patterns don't match as
 literal topic levels

---
 acltree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acltree.cpp b/acltree.cpp
index d0952b9..e57dc90 100644
--- a/acltree.cpp
+++ b/acltree.cpp
@@ -195,7 +195,11 @@ void AclTree::findPermissionRecursive(std::vector<std::string>::const_iterator c
 
     const auto next_subtopic_it = ++cur_published_subtopic_it;
 
-    if (this_node->hasChild(cur_published_subtop))
+    // The nodes of the placeholders are not literal topic levels.
+    const bool isPlaceholder = (this_node->hasUserWildcard() && cur_published_subtop == "%u") ||
+                               (this_node->hasClientidWildcard() && cur_published_subtop == "%c");
+
+    if (!isPlaceholder && this_node->hasChild(cur_published_subtop))
     {
         const AclNode *sub_node = this_node->getChildren(cur_published_subtop);
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
-- 
2.43.0


From 08d47046b28711fd9afe09da4427c0a558a8ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 16/77] fix: registering a will needs write access, not read
 access, in the ACL file

---
 plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index 6b6a37b..3adea95 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -897,7 +897,7 @@ AuthResult Authentication::aclCheckFromMosquittoAclFile(const std::string &clien
     if (access == AclAccess::subscribe)
         return AuthResult::success;
 
-    AclGrant ag = access == AclAccess::write ? AclGrant::Write : AclGrant::Read;
+    AclGrant ag = (access == AclAccess::write || access == AclAccess::register_will) ? AclGrant::Write : AclGrant::Read;
     AuthResult result = aclTree.findPermission(subtopics, ag, username, clientid);
     return result;
 }
-- 
2.43.0


From f1de023ce7c8a0eb5efae6070543b3b048a0e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 17/77] fix: packet id of a denied QoS 2 publish is free for
 the next message

---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index a64dabd..fc971a1 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2338,6 +2338,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         else
         {
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
+
+            // A PUBREC with an error ends the exchange, so the client can use the packet ID for a new message.
+            if (qos_org == 2 && this->protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
         }
     }
 
-- 
2.43.0


From d6e97e9bea23e665d4057d6d5a0855938044f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 18/77] fix: password file line with nothing but separators in
 the hash is dropped

---
 plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.cpp b/plugin.cpp
index 3adea95..74cf347 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -748,6 +748,9 @@ void Authentication::loadMosquittoPasswordFile()
 
                 std::vector<std::string> fields2 = splitToVector(fields[1], '$', 4, false);
 
+                if (fields2.empty())
+                    throw std::runtime_error("Password fields must start with $6$ or $7$");
+
                 int iterations = -1;
                 int saltField = -1;
                 int hashField = -1;
-- 
2.43.0


From 065b97c97c7bc7392d24e0f94b60fff15aa65cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 19/77] fix: invalid format string when an empty field is found
 in the password file

---
 plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index 74cf347..4047a18 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -742,7 +742,7 @@ void Authentication::loadMosquittoPasswordFile()
                 {
                     if (field.size() == 0)
                     {
-                        throw std::runtime_error(formatString("An empty field was found in '%'", line.c_str()));
+                        throw std::runtime_error(formatString("An empty field was found in '%s'", line.c_str()));
                     }
                 }
 
-- 
2.43.0


From a01183411319274a96001564e040e0e75e294c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:22 +0000
Subject: [PATCH 20/77] fix: creation limit of retained nodes must not freeze
 existing retained messages

---
 subscriptionstore.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index b93e307..982a379 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1040,9 +1040,6 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
             if (!enforcement_node && cur_level >= settings->retainedMessagesNodeCreationLimitEnforcementDepth)
                 enforcement_node = *deepestNode;
 
-            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
-                return true;
-
             auto pos = (*deepestNode)->children.find(*subtopic_pos);
 
             if (pos == (*deepestNode)->children.end())
@@ -1096,7 +1093,8 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
             if (!enforcement_node && cur_level >= settings->retainedMessagesNodeCreationLimitEnforcementDepth)
                 enforcement_node = *deepestNode;
 
-            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
+            // The limit is on creating nodes. Messages in existing nodes can always be replaced and cleared.
+            if (enforcement_node && !(*deepestNode)->getChildren(*subtopic_pos) && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
                 return true;
 
             std::shared_ptr<RetainedMessageNode> &selectedChildren = (*deepestNode)->children[*subtopic_pos];
-- 
2.43.0


From 1594507883b47f145c9789f868a53a22c5d9832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 21/77] fix: an incompletely written state file must not
 replace the previous one

---
 persistencefile.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..5cf027e 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -66,6 +66,8 @@ void PersistenceFile::writeCheck(const void *ptr, size_t size, size_t n, FILE *s
 {
     if (fwrite(ptr, size, n, s) != n)
     {
+        // The file is incomplete, so it must never replace the previous one.
+        discard = true;
         throw std::runtime_error(formatString("Error writing: %s", strerror(errno)));
     }
 }
@@ -423,11 +425,19 @@ void PersistenceFile::closeFile()
 
     if (openMode == FileMode::write)
     {
+        // Flushing may have failed before, also implicitly. What was in the buffer is lost then.
+        if (!discard && (fflush(f) != 0 || ferror(f)))
+        {
+            discard = true;
+            throw std::runtime_error(formatString("Writing of '%s' failed.", this->filePathTemp.c_str()));
+        }
+
         if (!discard)
             hashFile();
 
-        if (fflush(f) != 0)
+        if (fflush(f) != 0 && !discard)
         {
+            discard = true;
             std::string msg(strerror(errno));
             throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
         }
-- 
2.43.0


From ea68d3b9dd8549f9a54328d76eadfdfa0d2346fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 22/77] fix: a failing save of retained messages must not
 terminate the broker

---
 retainedmessagesdb.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index afdb2aa..02fada7 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,14 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        closeFile();
+    }
+    catch(std::exception &ex)
+    {
+        logger->log(LOG_WARNING) << ex.what();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
-- 
2.43.0


From c10c610a7c8f2563725430e6ea0bf5115c1e989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 23/77] fix: saved time stamps from 2038 onwards are read back
 wrong

---
 persistencefile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 5cf027e..9b977bc 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -256,8 +256,8 @@ int64_t PersistenceFile::readInt64(bool &eofFound)
         eofFound = true;
 
     unsigned char *buf_ = buf.data();
-    const uint64_t val1 = ((buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
-    const uint64_t val2 = ((buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
+    const uint64_t val1 = (static_cast<uint32_t>(buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
+    const uint64_t val2 = (static_cast<uint32_t>(buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
     const int64_t val = (val1 << 32) | val2;
     return val;
 }
-- 
2.43.0


From 58862930c3294d7f7b6fe90b5b083ae210e7e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 24/77] fix: empty property strings at the end of a property
 block index past the end of a vector

---
 mqtt5properties.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt5properties.cpp b/mqtt5properties.cpp
index c050e9f..a557db1 100644
--- a/mqtt5properties.cpp
+++ b/mqtt5properties.cpp
@@ -221,7 +221,7 @@ void Mqtt5PropertyBuilder::writeStr(Mqtt5Properties prop, const std::string &str
     bytes[pos++] = a;
     bytes[pos++] = b;
 
-    std::memcpy(&bytes[pos], str.c_str(), strlen);
+    std::memcpy(bytes.data() + pos, str.c_str(), strlen);
 }
 
 void Mqtt5PropertyBuilder::write2Str(Mqtt5Properties prop, const std::string &one, const std::string &two)
@@ -249,7 +249,7 @@ void Mqtt5PropertyBuilder::write2Str(Mqtt5Properties prop, const std::string &on
         bytes[pos++] = a;
         bytes[pos++] = b;
 
-        std::memcpy(&bytes[pos], str->c_str(), strlen);
+        std::memcpy(bytes.data() + pos, str->c_str(), strlen);
         pos += strlen;
     }
 }
@@ -264,6 +264,6 @@ void Mqtt5PropertyBuilder::writeVariableByteInt(Mqtt5Properties prop, const uint
 
     bytes[pos++] = static_cast<uint8_t>(prop);
 
-    std::memcpy(&bytes[pos], x.data(), x.getLen());
+    std::memcpy(bytes.data() + pos, x.data(), x.getLen());
 }
 
-- 
2.43.0


From 362f3049506206e2316235b628ae4d03150cfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 25/77] fix: packets up to max_packet_size must fit in the read
 buffer

---
 client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.cpp b/client.cpp
index 5ff7524..e477118 100644
--- a/client.cpp
+++ b/client.cpp
@@ -343,10 +343,10 @@ DisconnectStage Client::readFdIntoBuffer()
             const Settings *settings = ThreadGlobals::getSettings();
             // I guess I should have just made a 'max buffer size' option, and not distinguish between read/write?
             const uint32_t maxBufSize = this->maxReadBufSizeOverride.value_or(settings->clientMaxWriteBufferSize);
-            const uint32_t maxBufOrBigPacketSize= std::max<uint32_t>(this->maxIncomingPacketSize, maxBufSize);
 
             // We always grow for another iteration when there are still decoded websocket/SSL bytes, because epoll doesn't tell us that buffer has data.
-            if (readbuf.getCapacity() * 2 <= maxBufOrBigPacketSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
+            // And the biggest packet must fit, for which one byte less than the capacity is usable.
+            if (readbuf.getCapacity() * 2 <= maxBufSize || readbuf.getCapacity() <= this->maxIncomingPacketSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
             {
                 readbuf.doubleCapacity();
             }
-- 
2.43.0


From a30f413d479a2082602f34b3d22e3a9403d683aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 26/77] fix: handle the packets that came before a malformed
 one in the same read

---
 threadloop.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/threadloop.cpp b/threadloop.cpp
index f099698..6b56542 100644
--- a/threadloop.cpp
+++ b/threadloop.cpp
@@ -202,7 +202,17 @@ void do_thread_work(std::shared_ptr<ThreadData> &&threadData)
                 {
                     VectorClearGuard vectorClear(packetQueueIn);
                     const DisconnectStage disconnect = client->readFdIntoBuffer();
-                    client->bufferToMqttPackets(packetQueueIn, client);
+                    std::exception_ptr parseError;
+
+                    try
+                    {
+                        client->bufferToMqttPackets(packetQueueIn, client);
+                    }
+                    catch (std::exception &)
+                    {
+                        // The packets before the bad one are valid and need to be handled first.
+                        parseError = std::current_exception();
+                    }
 
                     for (MqttPacket &packet : packetQueueIn)
                     {
@@ -217,6 +227,9 @@ void do_thread_work(std::shared_ptr<ThreadData> &&threadData)
                         }
                     }
 
+                    if (parseError && client->getDisconnectStage() == DisconnectStage::NotInitiated)
+                        std::rethrow_exception(parseError);
+
                     if (disconnect == DisconnectStage::Now)
                     {
                         client->setDisconnectReason("socket disconnect detected");
-- 
2.43.0


From 45c0953e5a0c9d775bfe946fb296f3cedbd49475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 27/77] fix: don't refuse a big packet sent directly after
 CONNECT

---
 mqttpacket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index fc971a1..25c9582 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -576,7 +576,8 @@ void MqttPacket::bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packe
         while ((encodedByte & 128) != 0);
         packet_length += fixed_header_length;
 
-        if (sender && !sender->getAuthenticated() && packet_length >= 1024*1024)
+        // When there are packets before it, one of those may be the CONNECT. Clients are allowed to send more before they get the CONNACK.
+        if (sender && !sender->getAuthenticated() && packetQueueIn.empty() && packet_length >= 1024*1024)
         {
             throw ProtocolError("An unauthenticated client sends a packet of 1 MB or bigger? Probably it's just random bytes.", ReasonCodes::ProtocolError);
         }
-- 
2.43.0


From 3da990bdbbbaa679ac77a361b82f879a7dccbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 28/77] fix: accept websocket messages that are spread over
 several frames

---
 iowrapper.cpp | 7 +++++++
 iowrapper.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..f2d7e97 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -865,6 +865,13 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
             assert(headerLength <= websocketPendingBytes.usedBytes());
             websocketPendingBytes.advanceTail(headerLength);
 
+            // A binary message can be spread over several frames, and there can be control frames between them.
+            if (opcode == WebsocketOpcode::Binary || (opcode == WebsocketOpcode::Continuation && websocketFragmentedMessage))
+            {
+                opcode = WebsocketOpcode::Binary;
+                websocketFragmentedMessage = !(byte1 & 0b10000000);
+            }
+
             incompleteWebsocketRead.frame_bytes_left = realPayloadLength;
             incompleteWebsocketRead.opcode = opcode;
         }
diff --git a/iowrapper.h b/iowrapper.h
index 62c4ac4..9da088b 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -119,6 +119,7 @@ class IoWrapper
     WebsocketState websocketState = WebsocketState::NotUpgraded;
     CirBuf websocketPendingBytes;
     IncompleteWebsocketRead incompleteWebsocketRead;
+    bool websocketFragmentedMessage = false;
     CirBuf websocketWriteRemainder;
 
     uint16_t mHaProxyAdditionalBytesLeft = 0;
-- 
2.43.0


From a3fe8891220580025f5f2f4c893ff0d584fee95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:21 +0000
Subject: [PATCH 29/77] fix: HTTP request of a websocket can be cut inside its
 last line end

---
 http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http.cpp b/http.cpp
index bbf5141..d94e182 100644
--- a/http.cpp
+++ b/http.cpp
@@ -101,6 +101,10 @@ std::optional<HttpRequest> parseHttpHeader(CirBuf &buf)
         std::istringstream is(s);
         for (std::string line; std::getline(is, line);)
         {
+            // The end of the line has not been received yet.
+            if (is.eof())
+                break;
+
             trim(line);
 
             if (line.empty())
-- 
2.43.0


From a431399ae8c8fe6dcda32a49df2aaa00397384ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:21 +0000
Subject: [PATCH 30/77] fix: bridge option tcp_nodelay ignores its value

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index e7386d5..a82b941 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -881,7 +881,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "tcp_nodelay", validBridgeKeys))
                 {
-                    curBridge->tcpNoDelay = true;
+                    curBridge->tcpNoDelay = stringTruthiness(value);
                 }
                 if (testKeyValidity(key, "local_prefix", validBridgeKeys))
                 {
-- 
2.43.0


From dabbb47a7eb49853372ee76fa241f60a1210a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:38 +0000
Subject: [PATCH 31/77] fix: bytes left in OpenSSL's buffer when the websocket
 buffer is full

---
 iowrapper.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index f2d7e97..470460f 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -657,6 +657,9 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
         return readOrSslRead(fd, buf, nbytes, error);
     }
 
+    // When we stop because our buffer is full, there can be more, including in OpenSSL's buffer, about which epoll won't tell us.
+    bool stoppedByFullBuffer = websocketPendingBytes.freeSpace() == 0;
+
     ssize_t n = 0;
     while (websocketPendingBytes.freeSpace() > 0 && (n = readOrSslRead(fd, websocketPendingBytes.headPtr(), websocketPendingBytes.maxWriteSize(), error)) != 0)
     {
@@ -688,6 +691,7 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
                 }
                 else
                 {
+                    stoppedByFullBuffer = true;
                     break;
                 }
             }
@@ -769,7 +773,16 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
     n = websocketBytesToReadBuffer(buf, nbytes, error);
 
     if (*error != IoWrapResult::Disconnected)
-        *error = websocketPendingBytes.usedBytes() == 0 ? IoWrapResult::Wouldblock : IoWrapResult::WantRead;
+    {
+        if (stoppedByFullBuffer && n == 0)
+        {
+            // Nothing for the caller yet, but it does need to try again.
+            *error = IoWrapResult::Interrupted;
+            return -1;
+        }
+
+        *error = websocketPendingBytes.usedBytes() == 0 && !stoppedByFullBuffer ? IoWrapResult::Wouldblock : IoWrapResult::WantRead;
+    }
 
     return n;
 }
-- 
2.43.0


From 81e6ede2eb6ce21dd3fd11882f35e924e6fffb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 32/77] fix: deferred setting of retained messages must keep
 their order

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 6c40004..d56c4a6 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -633,7 +633,7 @@ void ThreadData::queueSettingRetainedMessage(const Publish &p, const std::vector
 {
     assert(pthread_self() == thread_id);
     const bool wakeup_required = priv->queuedRetainedMessages.empty();
-    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);
+    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);
     this->deferredRetainedMessagesSet.inc(1);
 
     if (wakeup_required)
-- 
2.43.0


From 574abf086e23d18f388c6735617b7f36fd5c6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 33/77] fix: set of logged retained message nodes is used by
 several threads at once

---
 subscriptionstore.cpp | 15 ++++++++++++---
 subscriptionstore.h   |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 982a379..1a05b2b 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -973,6 +973,12 @@ void SubscriptionStore::trySetRetainedMessages(const Publish &publish, const std
     td->queueSettingRetainedMessage(publish, subtopics, limit);
 }
 
+bool SubscriptionStore::firstTimeLimitLogged(const RetainedMessageNode *node)
+{
+    std::lock_guard<std::mutex> locker(retainedMessagesNodesLimitsLoggedMutex);
+    return std::get<bool>(retainedMessagesNodesLimitsLogged.insert(node));
+}
+
 bool SubscriptionStore::setRetainedLimitReached(const Settings *settings, const RetainedMessageNode *node, const std::vector<std::string> &subtopics)
 {
     if (!node)
@@ -984,7 +990,7 @@ bool SubscriptionStore::setRetainedLimitReached(const Settings *settings, const
     if (node->recursiveChildCount < settings->retainedMessagesNodeCreationLimit)
         return false;
 
-    const bool do_log = std::get<bool>(retainedMessagesNodesLimitsLogged.insert(node));
+    const bool do_log = firstTimeLimitLogged(node);
     const bool result = settings->retainedMessagesNodeCreationLimitEnforcementMode == RetainedMessagesNodeCreationLimitEnforcementMode::Reject;
 
     if (!do_log)
@@ -1130,7 +1136,7 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
     }
     else
     {
-        if (std::get<bool>(retainedMessagesNodesLimitsLogged.insert(selected_node.get())))
+        if (firstTimeLimitLogged(selected_node.get()))
             Logger::getInstance()->log(LOG_WARNING) << "Payload size exceeded max for " << recompose_topic(subtopics);
     }
 
@@ -1430,7 +1436,10 @@ bool SubscriptionStore::expireRetainedMessages()
         RWLockGuard lock_guard(&retainedMessagesRwlock);
         lock_guard.wrlock();
         retainedMessageDeferredCounter = 0;
-        retainedMessagesNodesLimitsLogged.clear();
+        {
+            std::lock_guard<std::mutex> locker(retainedMessagesNodesLimitsLoggedMutex);
+            retainedMessagesNodesLimitsLogged.clear();
+        }
         this->expireRetainedMessages(retainedMessagesRoot.get(), limit, deferredRetainedMessageNodeToPurge, retainedMessageDeferredCounter);
 
         logger->log(LOG_INFO) << "Expiring retained messages done, with " << deferredRetainedMessageNodeToPurge.size() << " deferred nodes to check.";
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 9ea3fcb..5e1a9a5 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -147,6 +147,7 @@ class SubscriptionStore
     std::deque<std::weak_ptr<RetainedMessageNode>> deferredRetainedMessageNodeToPurge;
     size_t retainedMessageDeferredCounter = 0;
 
+    std::mutex retainedMessagesNodesLimitsLoggedMutex;
     std::unordered_set<const RetainedMessageNode*> retainedMessagesNodesLimitsLogged;
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRoot = std::make_shared<RetainedMessageNode>(nullptr);
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRootDollar = std::make_shared<RetainedMessageNode>(nullptr);
@@ -203,6 +204,7 @@ class SubscriptionStore
 
     void sendWill(const std::shared_ptr<WillPublish> will, const std::shared_ptr<Session> session, const std::string &log);
 
+    bool firstTimeLimitLogged(const RetainedMessageNode *node);
     bool setRetainedLimitReached(const Settings *settings, const RetainedMessageNode *node, const std::vector<std::string> &subtopics);
 public:
     SubscriptionStore();
-- 
2.43.0


From cd6ed9559e1221f1bb6ac937661066892611e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:02 +0000
Subject: [PATCH 34/77] fix: websocket bytes that exactly fill the read buffer
 stop the reading for good

---
 client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index e477118..f536edd 100644
--- a/client.cpp
+++ b/client.cpp
@@ -334,7 +334,7 @@ DisconnectStage Client::readFdIntoBuffer()
 
         if (error == IoWrapResult::Interrupted)
             continue;
-        if (error == IoWrapResult::Wouldblock || error == IoWrapResult::Disconnected)
+        if (error == IoWrapResult::Disconnected)
             break;
 
         // Make sure we either always have enough space for a next call of this method, or stop reading the fd.
@@ -356,6 +356,10 @@ DisconnectStage Client::readFdIntoBuffer()
                 break;
             }
         }
+
+        // With websockets, this can be along with the last bytes that were available, so only after seeing to the free space.
+        if (error == IoWrapResult::Wouldblock)
+            break;
     }
 
     if (error == IoWrapResult::Disconnected)
-- 
2.43.0


From 71aeaf8525c6943172f9aaad3a2d85ee5e9a0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:45 +0000
Subject: [PATCH 35/77] fix: malformed UNSUBSCRIBE removes the subscriptions
 before the error

---
 mqttpacket.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 25c9582..86006d0 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1988,14 +1988,11 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
         }
     }
 
-    int numberOfUnsubs = 0;
-    std::shared_ptr<Session> session = sender->getSession();
+    std::vector<std::string> topics;
 
     while (remainingAfterPos() > 0)
     {
-        numberOfUnsubs++;
-
-        const std::string topic = readBytesToString(settings->maxStringLength);
+        std::string topic = readBytesToString(settings->maxStringLength);
 
         if (topic.empty())
             throw ProtocolError("Unsubscribe topic is empty.", ReasonCodes::MalformedPacket);
@@ -2003,6 +2000,20 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
         if (!isValidSubscribePath(topic))
             throw ProtocolError("Unsubscribe topic is invalid: " + topic, ReasonCodes::MalformedPacket);
 
+        topics.push_back(std::move(topic));
+    }
+
+    // MQTT-3.10.3-2
+    if (topics.empty())
+    {
+        throw ProtocolError("No topics specified to unsubscribe to.", ReasonCodes::MalformedPacket);
+    }
+
+    std::shared_ptr<Session> session = sender->getSession();
+
+    // Only when we know the whole packet is valid.
+    for (const std::string &topic : topics)
+    {
         std::vector<std::string> subtopics = splitTopic(topic);
         std::string shareName;
         std::string topic_without_sharename = topic;
@@ -2017,13 +2028,7 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
             logger->logf(LOG_UNSUBSCRIBE, "Client '%s' unsubscribed from '%s'", sender->repr().c_str(), topic.c_str());
     }
 
-    // MQTT-3.10.3-2
-    if (numberOfUnsubs == 0)
-    {
-        throw ProtocolError("No topics specified to unsubscribe to.", ReasonCodes::MalformedPacket);
-    }
-
-    UnsubAck unsubAck(sender->getProtocolVersion(), packet_id, numberOfUnsubs);
+    UnsubAck unsubAck(sender->getProtocolVersion(), packet_id, topics.size());
     MqttPacket response(unsubAck);
     sender->writeMqttPacket(response);
 }
-- 
2.43.0


From 8860197108455cf5ac6efd163aef3bd484a6c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:52 +0000
Subject: [PATCH 36/77] fix: retain handling 3 and reserved subscription
 options are not refused

---
 mqttpacket.cpp | 4 ++++
 types.cpp      | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 86006d0..2507142 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1792,6 +1792,10 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         {
             throw ProtocolError("QoS value in subscribe is higher than 2", ReasonCodes::MalformedPacket);
         }
+        else if (qos_byte & 0b11000000)
+        {
+            throw ProtocolError("Reserved bits in subscription options are not 0", ReasonCodes::MalformedPacket); // [MQTT-3.8.3-5]
+        }
 
         const SubscriptionOptionsByte options(qos_byte);
 
diff --git a/types.cpp b/types.cpp
index bac5fa9..03555b8 100644
--- a/types.cpp
+++ b/types.cpp
@@ -49,8 +49,8 @@ RetainHandling SubscriptionOptionsByte::getRetainHandling() const
     uint8_t x = b & 0b00110000;
     x = x >> 4;
 
-    if (x == 4)
-        throw ProtocolError("Retain Handling value of 4 is protocol error", ReasonCodes::ProtocolError);
+    if (x == 3)
+        throw ProtocolError("Retain Handling value of 3 is protocol error", ReasonCodes::ProtocolError);
 
     return static_cast<RetainHandling>(x);
 }
-- 
2.43.0


From 4fd97c3dc459949e8555c7f7840fe359d6e05a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:07 +0000
Subject: [PATCH 37/77] fix: control characters before a multi-byte character
 within 16 bytes pass the UTF-8 check

---
 threadlocalutils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..a54e4ac 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -96,6 +96,11 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         // have a minimum of multi byte chars.
         if (index < 16)
         {
+            // The ASCII chars before it.
+            const int non_printable = _mm_movemask_epi8(_mm_or_si128(_mm_cmplt_epi8(loaded, lowerBound), _mm_cmpgt_epi8(loaded, lastAsciiChar)));
+            if (non_printable & ((1 << index) - 1))
+                return false;
+
             uint8_t x = i[n++];
             int8_t char_len_left = 0;
             int8_t total_char_len = 0;
-- 
2.43.0


From d4635b978f4ed0e07d96c5d1eef21fd5a5e920a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:07 +0000
Subject: [PATCH 38/77] fix: UTF-8 check accepts code points above U+10FFFF

---
 threadlocalutils.cpp | 3 +++
 utils.h              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a54e4ac..555d8bd 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -147,6 +147,9 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             else if (total_char_len == 4 && cur_code_point < 0x10000)
                 return false;
 
+            if (cur_code_point > 0x10FFFF)
+                return false;
+
             if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
                 return false;
 
diff --git a/utils.h b/utils.h
index 2de4ab5..2eb6660 100644
--- a/utils.h
+++ b/utils.h
@@ -134,6 +134,9 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
 
             if (total_char_len > 1)
             {
+                if (cur_code_point > 0x10FFFF)
+                    return false;
+
                 // Invalid range for MQTT. [MQTT-1.5.3-1]
                 if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
                     return false;
-- 
2.43.0


From 2edd2107e64a7a9a4b5ca441a84c4f5fa2a31adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 39/77] fix: UTF-8 payloads with control characters are refused

---
 mqttpacket.cpp |  4 ++--
 utils.h        | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 2507142..a34f36d 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -959,7 +959,7 @@ ConnectData MqttPacket::parseConnectData(std::shared_ptr<Client> &sender)
         uint16_t will_payload_length = readTwoBytesToUInt16();
         result.willpublish.payload = readBytes(will_payload_length);
 
-        if (result.willpublish.payloadUtf8 && !isValidUtf8Generic(result.willpublish.payload))
+        if (result.willpublish.payloadUtf8 && !isValidUtf8Generic(result.willpublish.payload, false, false))
         {
             throw ProtocolError("Will payload announced as UTF8, but it's not valid.", ReasonCodes::PayloadFormatInvalid);
         }
@@ -2206,7 +2206,7 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, const bool fr
     payloadStart = pos;
 
     // Not using SIMD UTF8 checker because that requires making a copy, and requires being able to deal with large strings.
-    if (publishData.payloadUtf8 && !isValidUtf8Generic(getPayloadView()))
+    if (publishData.payloadUtf8 && !isValidUtf8Generic(getPayloadView(), false, false))
     {
         throw ProtocolError("Payload announced as UTF8, but it's not valid.", ReasonCodes::PayloadFormatInvalid);
     }
diff --git a/utils.h b/utils.h
index 2eb6660..761a2e4 100644
--- a/utils.h
+++ b/utils.h
@@ -64,8 +64,11 @@ std::string recompose_topic(const std::vector<std::string> &subtopics);
 
 bool isValidUtf8Generic(const char *s, bool alsoCheckInvalidPublishChars = false);
 
+/**
+ * @param mqttString whether to also refuse the code points that are not for MQTT strings, like control characters. These are normal in payloads.
+ */
 template<typename T>
-bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
+bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false, bool mqttString = true)
 {
     int multibyte_remain = 0;
     uint32_t cur_code_point = 0;
@@ -127,9 +130,9 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
             else if (total_char_len == 4 && cur_code_point < 0x10000)
                 return false;
 
-            if (cur_code_point <= 0x001F)
+            if (mqttString && cur_code_point <= 0x001F)
                 return false;
-            if (cur_code_point >= 0x007F && cur_code_point <= 0x009F)
+            if (mqttString && cur_code_point >= 0x007F && cur_code_point <= 0x009F)
                 return false;
 
             if (total_char_len > 1)
@@ -142,12 +145,12 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
                     return false;
 
                 // Unicode spec: "Which code points are noncharacters?".
-                if (cur_code_point >= 0xFDD0 && cur_code_point <= 0xFDEF)
+                if (mqttString && cur_code_point >= 0xFDD0 && cur_code_point <= 0xFDEF)
                     return false;
                 // The last two code points of each of the 17 planes are the remaining 34 non-chars.
                 const uint32_t plane = (cur_code_point & 0x1F0000) >> 16;
                 const uint32_t last_16_bit = cur_code_point & 0xFFFF;
-                if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))
+                if (mqttString && plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))
                     return false;
             }
 
-- 
2.43.0


From e3e6c23a843bc592c36a3cf90d0cff49fa1bb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:07 +0000
Subject: [PATCH 40/77] fix: bytes after the last field of CONNECT are not
 refused

---
 mqttpacket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index a34f36d..37237ca 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1006,6 +1006,9 @@ ConnectData MqttPacket::parseConnectData(std::shared_ptr<Client> &sender)
         result.password = readBytesToString(std::numeric_limits<uint16_t>::max(), false);
     }
 
+    if (!atEnd())
+        throw ProtocolError("CONNECT packet has bytes after the last field.", ReasonCodes::MalformedPacket);
+
     return  result;
 }
 
-- 
2.43.0


From af7ec682174dea7b3e2e984c4e1c77cf30d3d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:01 +0000
Subject: [PATCH 41/77] fix: an invalid bind address made the listener bind to
 all addresses

---
 bindaddr.cpp |  8 ++++----
 listener.cpp | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bindaddr.cpp b/bindaddr.cpp
index 75148e8..9e812c0 100644
--- a/bindaddr.cpp
+++ b/bindaddr.cpp
@@ -52,8 +52,8 @@ BindAddr::BindAddr(
 
         if (bindAddress.empty())
             in_addr_v4.sin_addr.s_addr = INADDR_ANY;
-        else
-            inet_pton(AF_INET, bindAddress.c_str(), &in_addr_v4.sin_addr);
+        else if (inet_pton(AF_INET, bindAddress.c_str(), &in_addr_v4.sin_addr) != 1)
+            throw std::runtime_error("Bind address '" + bindAddress + "' is not a valid IPv4 address.");
 
         in_addr_v4.sin_port = htons(port);
         in_addr_v4.sin_family = AF_INET;
@@ -68,8 +68,8 @@ BindAddr::BindAddr(
 
         if (bindAddress.empty())
             in_addr_v6.sin6_addr = IN6ADDR_ANY_INIT;
-        else
-            inet_pton(AF_INET6, bindAddress.c_str(), &in_addr_v6.sin6_addr);
+        else if (inet_pton(AF_INET6, bindAddress.c_str(), &in_addr_v6.sin6_addr) != 1)
+            throw std::runtime_error("Bind address '" + bindAddress + "' is not a valid IPv6 address.");
 
         in_addr_v6.sin6_port = htons(port);
         in_addr_v6.sin6_family = AF_INET6;
diff --git a/listener.cpp b/listener.cpp
index f930935..367d77f 100644
--- a/listener.cpp
+++ b/listener.cpp
@@ -8,6 +8,7 @@ it under the terms of The Open Software License 3.0 (OSL-3.0).
 See LICENSE for license details.
 */
 
+#include <arpa/inet.h>
 #include <openssl/err.h>
 
 #include "listener.h"
@@ -61,6 +62,16 @@ void Listener::isValid()
         }
     }
 
+    {
+        struct in6_addr addr {};
+
+        if (!inet4BindAddress.empty() && inet_pton(AF_INET, inet4BindAddress.c_str(), &addr) != 1)
+            throw ConfigFileException("Value '" + inet4BindAddress + "' for inet4_bind_address is not a valid IPv4 address.");
+
+        if (!inet6BindAddress.empty() && inet_pton(AF_INET6, inet6BindAddress.c_str(), &addr) != 1)
+            throw ConfigFileException("Value '" + inet6BindAddress + "' for inet6_bind_address is not a valid IPv6 address.");
+    }
+
     if (protocol < ListenerProtocol::Unix && !unixSocketPath.empty())
     {
         throw ConfigFileException("Specifying 'unix_socket_path' for IP listeners is not allowed.");
-- 
2.43.0


From ac517fafd1d8a055886ea89a70a5be0c42f67d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:01 +0000
Subject: [PATCH 42/77] fix: log_level error also logs warnings

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index a82b941..502f0e0 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -1050,7 +1050,7 @@ void ConfigFileParser::loadFile(bool test)
                     else if (v == "warning")
                         level = LogLevel::Warning;
                     else if (v == "error")
-                        level = LogLevel::Warning;
+                        level = LogLevel::Error;
                     else if (v == "none")
                         level = LogLevel::None;
                     else
-- 
2.43.0


From d2d1347ac92b2c7ae156fdc24261ef99c4486692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:01 +0000
Subject: [PATCH 43/77] fix: expire_retained_messages_after_seconds takes
 negative values, and not its documented maximum

---
 configfileparser.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 502f0e0..d394d13 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -1184,11 +1184,7 @@ void ConfigFileParser::loadFile(bool test)
 
                 if (testKeyValidity(key, "expire_retained_messages_after_seconds", validKeys))
                 {
-                    uint32_t newVal = full_stoi(key, value);
-                    if (newVal < 1)
-                    {
-                        throw ConfigFileException(formatString("expire_retained_messages_after_seconds value '%d' is invalid. Valid values are between 1 and 4294967295.", newVal));
-                    }
+                    const uint32_t newVal{value_to_int_ranged<uint32_t>(key, value, 1)};
                     tmpSettings.expireRetainedMessagesAfterSeconds = std::chrono::seconds(newVal);
                 }
 
-- 
2.43.0


From f17f35af504e0f9935d5f33a6e466435aea45a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:14 +0000
Subject: [PATCH 44/77] fix: negative max_packet_size is accepted and becomes
 about 4 GB

---
 configfileparser.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index d394d13..bb58b30 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -999,14 +999,7 @@ void ConfigFileParser::loadFile(bool test)
 
                 if (testKeyValidity(key, "max_packet_size", validKeys))
                 {
-                    int newVal = full_stoi(key, value);
-                    if (newVal > ABSOLUTE_MAX_PACKET_SIZE)
-                    {
-                        std::ostringstream oss;
-                        oss << "Value for max_packet_size " << newVal << " is higher than absolute maximum " << ABSOLUTE_MAX_PACKET_SIZE;
-                        throw ConfigFileException(oss.str());
-                    }
-                    tmpSettings.maxPacketSize = newVal;
+                    tmpSettings.maxPacketSize = value_to_int_ranged<uint32_t>(key, value, 1, ABSOLUTE_MAX_PACKET_SIZE);
                 }
 
                 if (testKeyValidity(key, "max_qos", validKeys))
-- 
2.43.0


From 343c3b986666ebfe4176751622a1708f1b263248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:14 +0000
Subject: [PATCH 45/77] fix: negative numbers for unsigned options can wrap
 around to a valid value

---
 configfileparser.cpp | 2 +-
 configfileparser.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index bb58b30..4a51d46 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -55,7 +55,7 @@ unsigned long full_stoul(const std::string &key, const std::string &value, int b
 {
     size_t ptr;
     unsigned long newVal = std::stoul(value, &ptr, base);
-    if (ptr != value.length())
+    if (ptr != value.length() || value.find('-') != std::string::npos) // stoul() wraps negative numbers around.
     {
         throw ConfigFileException(formatString("%s's value of '%s' can't be parsed to a number", key.c_str(), value.c_str()));
     }
diff --git a/configfileparser.h b/configfileparser.h
index f1cf82a..2ea7a80 100644
--- a/configfileparser.h
+++ b/configfileparser.h
@@ -57,7 +57,7 @@ value_to_int(const std::string &key, const std::string &value)
     {
         size_t len = 0;
         long long unsigned newVal{std::stoull(value, &len)};
-        if (len != value.length())
+        if (len != value.length() || value.find('-') != std::string::npos) // stoull() wraps negative numbers around.
         {
             throw std::exception();
         }
-- 
2.43.0


From 00c131223c18b71853c3e4a23edb2444aeb6bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:29 +0000
Subject: [PATCH 46/77] fix: connection_count 0 silently disables the bridge

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 4a51d46..e328ca5 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -921,7 +921,7 @@ void ConfigFileParser::loadFile(bool test)
                         curBridge->connection_count = get_nprocs();
                     }
                     else
-                        curBridge->connection_count = full_stoul(key, valueTrimmed);
+                        curBridge->connection_count = value_to_int_ranged<uint16_t>(key, valueTrimmed, 1);
                 }
                 if (testKeyValidity(key, "max_buffer_size", validBridgeKeys))
                 {
-- 
2.43.0


From 96b64aa4f957dae100bcdec68720e5f73708cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 47/77] fix: client_initial_buffer_size 1 and the lowest
 negative number are accepted, but don't work

---
 configfileparser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index e328ca5..06205e7 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -992,8 +992,9 @@ void ConfigFileParser::loadFile(bool test)
                 if (testKeyValidity(key, "client_initial_buffer_size", validKeys))
                 {
                     int newVal = full_stoi(key, value);
-                    if (!isPowerOfTwo(newVal))
-                        throw ConfigFileException("client_initial_buffer_size value " + value + " is not a power of two.");
+                    // With a size of 1, there is no usable space in the buffer.
+                    if (newVal < 2 || !isPowerOfTwo(newVal))
+                        throw ConfigFileException("client_initial_buffer_size value " + value + " is not a power of two of at least 2.");
                     tmpSettings.clientInitialBufferSize = newVal;
                 }
 
-- 
2.43.0


From 9567c9075e7ea8ceb65eef9af5aa1493c66548a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 48/77] fix: include_dir is ignored when indented, can't be
 quoted, and crashes on very long lines

---
 configfileparser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 06205e7..ff3b769 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -327,15 +327,18 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
     for(std::string line; getline(infile, line ); )
     {
         lines.push_back(line);
+        trim(line);
 
-        if (strContains(line, "include_dir"))
+        // Too long lines will be refused later. They must not get to the regex matcher.
+        if (strContains(line, "include_dir") && line.length() <= 256)
         {
             std::smatch matches;
 
             if (std::regex_match(line, matches, key_value_regex))
             {
                 const std::string key = matches[1].str();
-                const std::string value = matches[2].str();
+                const std::vector<std::string> values = parseValuesWithOptionalQuoting<ConfigFileException>(matches[2].str());
+                const std::string value = values.empty() ? "" : values.front();
 
                 if (key == "include_dir")
                 {
-- 
2.43.0


From 79a2f793bf210546696c6687ca86b1a1d12c2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 49/77] fix: config files that include themselves crash the
 server

---
 configfileparser.cpp | 7 +++++--
 configfileparser.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index ff3b769..16e7e08 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -306,13 +306,16 @@ ConfigFileParser::ConfigFileParser(const std::string &path) :
     validBridgeKeys.insert("max_buffer_size");
 }
 
-std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &path) const
+std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &path, const int depth) const
 {
     std::list<std::string> lines;
 
     if (path.empty())
         return lines;
 
+    if (depth > 10)
+        throw ConfigFileException("Nesting of 'include_dir' is too deep. Is '" + path + "' including itself?");
+
     checkFileExistsAndReadable("application config file", path, 1024*1024*10);
 
     std::ifstream infile(path, std::ios::in);
@@ -356,7 +359,7 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
 
                     for(const std::string &path_from_glob : files)
                     {
-                        std::list<std::string> newLines = readFileRecursively(path_from_glob);
+                        std::list<std::string> newLines = readFileRecursively(path_from_glob, depth + 1);
                         lines.insert(lines.cend(), newLines.begin(), newLines.end());
                     }
                 }
diff --git a/configfileparser.h b/configfileparser.h
index 2ea7a80..0cee108 100644
--- a/configfileparser.h
+++ b/configfileparser.h
@@ -118,7 +118,7 @@ public:
 
     ConfigFileParser(const std::string &path);
     void loadFile(bool test);
-    std::list<std::string> readFileRecursively(const std::string &path) const;
+    std::list<std::string> readFileRecursively(const std::string &path, const int depth = 0) const;
 
     const Settings &getSettings();
 };
-- 
2.43.0


From 71fa4a11ba422945a7f8875cb3941fb1ca0f0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 50/77] fix: a listener on port 65535 is refused

---
 listener.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listener.cpp b/listener.cpp
index 367d77f..09255ba 100644
--- a/listener.cpp
+++ b/listener.cpp
@@ -97,7 +97,7 @@ void Listener::isValid()
         throw ConfigFileException("X509 client verification can only be done on TLS listeners.");
     }
 
-    if (port <= 0 || port > 65534)
+    if (port <= 0 || port > 65535)
     {
         throw ConfigFileException(formatString("Port nr %d is not valid", port));
     }
-- 
2.43.0


From 93eebdc06cd4173f8b3ba320764a4429a34bbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 51/77] fix: 'haproxy off' doesn't undo an earlier 'haproxy on'
 of the listener

---
 configfileparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 16e7e08..a4170d0 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -604,8 +604,7 @@ void ConfigFileParser::loadFile(bool test)
                     {
                         const bool val = stringTruthiness(value);
 
-                        if (val)
-                            curListener->haProxyMode = HaProxyMode::On;
+                        curListener->haProxyMode = val ? HaProxyMode::On : HaProxyMode::Off;
                     }
                 }
                 if (testKeyValidity(key, "client_verification_ca_file", validListenKeys))
-- 
2.43.0


From 1069bfdc7d8c9ff32e24d665839a46fd809ba9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 52/77] fix: changed minimum_tls_version of a bridge is ignored
 on reload

---
 bridgeconfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridgeconfig.cpp b/bridgeconfig.cpp
index 17e5129..f35a9ed 100644
--- a/bridgeconfig.cpp
+++ b/bridgeconfig.cpp
@@ -405,7 +405,7 @@ bool BridgeConfig::operator ==(const BridgeConfig &other) const
            && this->useSavedClientId == other.useSavedClientId && this->maxOutgoingTopicAliases == other.maxOutgoingTopicAliases
            && this->maxIncomingTopicAliases == other.maxIncomingTopicAliases && this->tcpNoDelay == other.tcpNoDelay
            && this->local_prefix == other.local_prefix && this->remote_prefix == other.remote_prefix && this->connection_count == other.connection_count
-           && this->maxBufferSize == other.maxBufferSize;
+           && this->maxBufferSize == other.maxBufferSize && this->minimumTlsVersion == other.minimumTlsVersion;
 }
 
 bool BridgeConfig::operator !=(const BridgeConfig &other) const
-- 
2.43.0


From f922f9e4e9a0acf39cf11836a71661d1bf384008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 53/77] fix: a back slash at the end of a config value is
 ignored instead of refused

---
 utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.h b/utils.h
index 761a2e4..a174b18 100644
--- a/utils.h
+++ b/utils.h
@@ -372,6 +372,9 @@ std::vector<std::string> parseValuesWithOptionalQuoting(std::string s)
     if (quote)
         throw ex("Unterminated quote");
 
+    if (escape)
+        throw ex("Unterminated escape");
+
     return result;
 }
 
-- 
2.43.0


From 74a0711932b072a21dc438f01e88ea44823c554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 54/77] fix: empty topic filters of bridges are accepted

---
 configfileparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index a4170d0..cb05597 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -741,7 +741,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "subscribe", validBridgeKeys))
                 {
-                    if (!isValidUtf8(value) || !isValidSubscribePath(value))
+                    if (value.empty() || !isValidUtf8(value) || !isValidSubscribePath(value))
                         throw ConfigFileException(formatString("Path '%s' is not a valid subscribe match", value.c_str()));
 
                     BridgeTopicPath topicPath;
@@ -762,7 +762,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "publish", validBridgeKeys))
                 {
-                    if (!isValidUtf8(value) || !isValidSubscribePath(value))
+                    if (value.empty() || !isValidUtf8(value) || !isValidSubscribePath(value))
                         throw ConfigFileException(formatString("Path '%s' is not a valid publish match", value.c_str()));
 
                     BridgeTopicPath topicPath;
-- 
2.43.0


From e863d2141feca650d5d1c7ce8b6d1269ea4b7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 55/77] fix: IPv6 networks with a '/' but no mask are accepted

---
 network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network.cpp b/network.cpp
index 3a3c4ed..974e145 100644
--- a/network.cpp
+++ b/network.cpp
@@ -42,7 +42,7 @@ Network::Network(const std::string &network)
 
         tmpaddr.sin6_family = AF_INET6;
 
-        std::vector<std::string> parts = splitToVector(network, '/', 2, false);
+        std::vector<std::string> parts = splitToVector(network, '/', 2, true);
         std::string &addrPart = parts[0];
         int maskbits = 128;
 
@@ -51,7 +51,7 @@ Network::Network(const std::string &network)
             const std::string &maskstring = parts[1];
 
             const bool invalid_chars = std::any_of(maskstring.begin(), maskstring.end(), [](const char &c) { return c < '0' || c > '9'; });
-            if (invalid_chars || maskstring.length() > 3)
+            if (invalid_chars || maskstring.empty() || maskstring.length() > 3)
                 throw std::runtime_error(formatString("Mask '%s' is not valid", maskstring.c_str()));
 
             maskbits = std::stoi(maskstring);
-- 
2.43.0


From db21e34733bc8c1764cd7781594d0f86b6b67eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:33 +0000
Subject: [PATCH 56/77] fix: an unauthenticated packet of 1 MB is only allowed
 after a CONNECT, not after any packet

---
 mqttpacket.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 37237ca..6299284 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -576,8 +576,10 @@ void MqttPacket::bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packe
         while ((encodedByte & 128) != 0);
         packet_length += fixed_header_length;
 
-        // When there are packets before it, one of those may be the CONNECT. Clients are allowed to send more before they get the CONNACK.
-        if (sender && !sender->getAuthenticated() && packetQueueIn.empty() && packet_length >= 1024*1024)
+        // Clients are allowed to send more before they get the CONNACK.
+        const bool connectIsQueued = !packetQueueIn.empty() && packetQueueIn.front().packetType == PacketType::CONNECT;
+
+        if (sender && !sender->getAuthenticated() && !connectIsQueued && packet_length >= 1024*1024)
         {
             throw ProtocolError("An unauthenticated client sends a packet of 1 MB or bigger? Probably it's just random bytes.", ReasonCodes::ProtocolError);
         }
-- 
2.43.0


From 2f66708076f5f92fbd64f9e2e6976d2a5487ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:33 +0000
Subject: [PATCH 57/77] fix: IPv6 networks with more than one mask are accepted

---
 network.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.cpp b/network.cpp
index 974e145..fa78cb8 100644
--- a/network.cpp
+++ b/network.cpp
@@ -46,6 +46,9 @@ Network::Network(const std::string &network)
         std::string &addrPart = parts[0];
         int maskbits = 128;
 
+        if (parts.size() > 2)
+            throw std::runtime_error(formatString("Network '%s' is not a valid network notation.", network.c_str()));
+
         if (parts.size() == 2)
         {
             const std::string &maskstring = parts[1];
-- 
2.43.0


From fee41f97faaddf36fef01a7463b127c44e2eec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:17 +0000
Subject: [PATCH 58/77] fix: wills are checked and published with the user name
 of CONNECT instead of the client's identity

---
 threaddata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index d56c4a6..077f0b5 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -214,6 +214,10 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
 
             const std::shared_ptr<WillPublish> will = client->getStagedWill();
 
+            // The identity may come from a certificate, or be decided by the plugin.
+            if (will)
+                will->username = client->getUsername();
+
             if (will && authentication.aclCheck(*will, will->payload, AclAccess::register_will) == AuthResult::success)
             {
                 client->setWillFromStaged();
-- 
2.43.0


From 1509edcbfe3027e2b912a1cae1ccdf814a2e8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:17 +0000
Subject: [PATCH 59/77] fix: the leading slash of a shared subscription's topic
 filter is missing in the topic that is authorized

---
 utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 3b1c55c..7e92249 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -666,11 +666,11 @@ void parseSubscriptionShare(std::vector<std::string> &subtopics, std::string &sh
 
     topic.clear();
 
-    for(const std::string &s : subtopics)
+    for (size_t i = 0; i < subtopics.size(); i++)
     {
-        if (!topic.empty())
+        if (i > 0)
             topic.append("/");
-        topic.append(s);
+        topic.append(subtopics[i]);
     }
 
     shareName = _shareName;
-- 
2.43.0


From 8e930e2d4ac3f63720818e0c857ff50f1aa89bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:17 +0000
Subject: [PATCH 60/77] fix: plugins see the expiry of a will counting from the
 connect instead of from its publication

---
 subscriptionstore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 1a05b2b..97ee76a 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -419,15 +419,15 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     logger->log(LOG_DEBUG) << log << " " << will->topic;
 
+    // The expiry interval is relative to the publication of the will, see MQTT 3.1.3.2.4.
+    if (will->expireInfo)
+        will->expireInfo->createdAt = std::chrono::steady_clock::now();
+
     Authentication &auth = ThreadGlobals::getThreadData()->authentication;
     const AuthResult authResult = auth.aclCheck(*will, will->payload, AclAccess::write);
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
-        // The expiry interval is relative to the publication of the will, see MQTT 3.1.3.2.4.
-        if (will->expireInfo)
-            will->expireInfo->createdAt = std::chrono::steady_clock::now();
-
         PublishCopyFactory factory(will.get());
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
-- 
2.43.0


From 42bfd9e07b69600d3ff8c9c3cc3005d1b6dd46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 61/77] fix: crash when a plugin returns authentication data
 for a client before MQTT 5

---
 client.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index f536edd..e21f4c3 100644
--- a/client.cpp
+++ b/client.cpp
@@ -814,7 +814,9 @@ void Client::addAuthReturnDataToStagedConnAck(const std::string &authData)
         throw ProtocolError("Programming bug: trying to add auth return data when there is no staged connack.", ReasonCodes::ProtocolError);
     }
 
-    stagedConnack->propertyBuilder->writeAuthenticationData(authData);
+    // There are no properties before MQTT 5.
+    if (stagedConnack->propertyBuilder)
+        stagedConnack->propertyBuilder->writeAuthenticationData(authData);
 }
 
 void Client::setExtendedAuthenticationMethod(const std::string &authMethod)
-- 
2.43.0


From 432f8a884b4c54468d99017b27e128d789d0de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 62/77] fix: a client that left stays in epoll, using all CPU,
 until its delayed asynchronous authentication is continued

---
 threaddata.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 077f0b5..b08189c 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -397,9 +397,15 @@ void ThreadData::bridgeReconnect()
 void ThreadData::queueContinuationOfAuthentication(
         const std::shared_ptr<Client> &client, AuthResult authResult, const std::string &authMethod, const std::string &returnData, const uint32_t delay_in_ms)
 {
-    auto f = [client, authResult, authMethod, returnData]
+    // Not keeping a client that left in the mean time alive, because its file descriptor would stay open and in epoll.
+    std::weak_ptr<Client> client_weak = client;
+
+    auto f = [client_weak, authResult, authMethod, returnData]
     {
-        client->setAsyncAuthResult({authResult, authMethod, returnData});
+        std::shared_ptr<Client> client = client_weak.lock();
+
+        if (client)
+            client->setAsyncAuthResult({authResult, authMethod, returnData});
     };
 
     bool wake_up_needed = false;
-- 
2.43.0


From e1d65d412a7929e45c27caf312217499a980cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 63/77] fix: crash when a plugin removes a session with a will
 from its own thread, and offline sessions are not removed

---
 flashmq_plugin.cpp | 63 +++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/flashmq_plugin.cpp b/flashmq_plugin.cpp
index 9723914..4188f95 100644
--- a/flashmq_plugin.cpp
+++ b/flashmq_plugin.cpp
@@ -38,6 +38,38 @@ void mosquitto_log_printf(int level, const char *fmt, ...)
     va_end(valist);
 }
 
+static void removeClientFromPlugin(const std::shared_ptr<Session> &session, bool alsoSession, ServerDisconnectReasons reasonCode)
+{
+    std::shared_ptr<Client> client = session->makeSharedClient();
+    std::shared_ptr<ThreadData> td;
+
+    if (client)
+    {
+        td = client->lockThreadData();
+
+        if (td)
+            td->serverInitiatedDisconnect(client, static_cast<ReasonCodes>(reasonCode), "Removed from plugin");
+    }
+
+    if (!alsoSession)
+        return;
+
+    // Removing the session can send its will, so that can't be done in threads from plugins, or in the middle of a plugin's function.
+    std::weak_ptr<Session> session_weak = session;
+
+    auto remove_session = [session_weak]
+    {
+        std::shared_ptr<SubscriptionStore> store = globals->subscriptionStore;
+        if (!store) return;
+        store->removeSession(session_weak.lock());
+    };
+
+    if (td)
+        td->addImmediateTask(remove_session);
+    else
+        globals->getDeterministicThreadData()->addImmediateTask(remove_session);
+}
+
 /**
  * @brief flashmq_plugin_remove_client for previous plugin versions.
  */
@@ -47,41 +79,14 @@ void flashmq_plugin_remove_client(const std::string &clientid, bool alsoSession,
     std::shared_ptr<Session> session = store->lockSession(clientid);
 
     if (session)
-    {
-        std::shared_ptr<Client> client = session->makeSharedClient();
-
-        if (client)
-        {
-            ReasonCodes _code = static_cast<ReasonCodes>(reasonCode);
-            std::shared_ptr<ThreadData> td = client->lockThreadData();
-
-            if (td)
-            {
-                td->serverInitiatedDisconnect(client, _code, "Removed from plugin");
-            }
-        }
-
-        if (alsoSession)
-            store->removeSession(session);
-    }
+        removeClientFromPlugin(session, alsoSession, reasonCode);
 }
 
 void flashmq_plugin_remove_client_v4(const std::weak_ptr<Session> &session, bool alsoSession, ServerDisconnectReasons reasonCode)
 {
-    std::shared_ptr<SubscriptionStore> store = globals->subscriptionStore;
-    if (!store) return;
     std::shared_ptr<Session> session_locked = session.lock();
     if (!session_locked) return;
-    std::shared_ptr<Client> client = session_locked->makeSharedClient();
-    if (!client) return;
-    std::shared_ptr<ThreadData> td = client->lockThreadData();
-    if (!td) return;
-
-    ReasonCodes _code = static_cast<ReasonCodes>(reasonCode);
-    td->serverInitiatedDisconnect(client, _code, "Removed from plugin");
-
-    if (alsoSession)
-        store->removeSession(session_locked);
+    removeClientFromPlugin(session_locked, alsoSession, reasonCode);
 }
 
 /**
-- 
2.43.0


From 61b91c742233692badfc2d7f7d30bdf28b3e4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 64/77] fix: the will is sent twice when a plugin removes a
 client with its session

---
 subscriptionstore.cpp |  4 ++++
 types.cpp             | 10 ++++++++++
 types.h               |  2 ++
 3 files changed, 16 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 97ee76a..0aeef36 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -412,6 +412,10 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      */
     session->clearWill(will);
 
+    // The connection and its session both have it, and when the session is removed first, the connection would send it again.
+    if (!will->setSent())
+        return;
+
     const Settings *settings = ThreadGlobals::getSettings();
 
     if (!settings->willsEnabled)
diff --git a/types.cpp b/types.cpp
index 03555b8..57c3e34 100644
--- a/types.cpp
+++ b/types.cpp
@@ -8,6 +8,7 @@ it under the terms of The Open Software License 3.0 (OSL-3.0).
 See LICENSE for license details.
 */
 
+#include <atomic>
 #include <cassert>
 
 #include "types.h"
@@ -329,6 +330,15 @@ void WillPublish::setQueuedAt()
     this->queuedAt = std::chrono::steady_clock::now();
 }
 
+/**
+ * @brief WillPublish::setSent
+ * @return whether it had not been sent yet.
+ */
+bool WillPublish::setSent()
+{
+    return !std::atomic_ref<bool>(this->sent).exchange(true);
+}
+
 /**
  * @brief WillPublish::getQueuedAtAge gets the time ago in seconds when this will was queued. The time is set externally by the queue action.
  * @return
diff --git a/types.h b/types.h
index 065fe6c..6343b86 100644
--- a/types.h
+++ b/types.h
@@ -286,12 +286,14 @@ public:
 class WillPublish : public Publish
 {
     bool isQueued = false;
+    bool sent = false;
     std::chrono::time_point<std::chrono::steady_clock> queuedAt;
 public:
     uint32_t will_delay = 0;
     WillPublish() = default;
     WillPublish(const Publish &other);
     void setQueuedAt();
+    bool setSent();
     uint32_t getQueuedAtAge() const;
     bool getIsQueued() const { return isQueued; }
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
-- 
2.43.0


From af505fb0ea095721ad34278c3f95513090f1e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 65/77] fix: deadlock when a plugin publishes from an ACL check
 with plugin_serialize_auth_checks

---
 plugin.cpp       | 6 +++---
 plugin.h         | 6 +++---
 unscopedlock.cpp | 2 +-
 unscopedlock.h   | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/plugin.cpp b/plugin.cpp
index 4047a18..48ad00f 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -26,9 +26,9 @@ See LICENSE for license details.
 #include "threadglobals.h"
 #include "threaddata.h"
 
-std::mutex Authentication::initMutex;
-std::mutex Authentication::deinitMutex;
-std::mutex Authentication::authChecksMutex;
+std::recursive_mutex Authentication::initMutex;
+std::recursive_mutex Authentication::deinitMutex;
+std::recursive_mutex Authentication::authChecksMutex;
 
 MosquittoPasswordFileEntry::MosquittoPasswordFileEntry(PasswordHashType type, const std::vector<unsigned char> &&salt, const std::vector<unsigned char> &&cryptedPassword, int iterations) :
     type(type),
diff --git a/plugin.h b/plugin.h
index b9bd15d..85e041e 100644
--- a/plugin.h
+++ b/plugin.h
@@ -167,9 +167,9 @@ class Authentication
     F_flashmq_plugin_acl_check_v5 flashmq_plugin_acl_check_v5 = nullptr;
     F_flashmq_plugin_alter_publish_v5 flashmq_plugin_alter_publish_v5 = nullptr;
 
-    static std::mutex initMutex;
-    static std::mutex deinitMutex;
-    static std::mutex authChecksMutex;
+    static std::recursive_mutex initMutex;
+    static std::recursive_mutex deinitMutex;
+    static std::recursive_mutex authChecksMutex;
 
     PluginFamily pluginFamily = PluginFamily::None;
     int flashmqPluginVersionNumber = 0;
diff --git a/unscopedlock.cpp b/unscopedlock.cpp
index c64acd3..4ee8e40 100644
--- a/unscopedlock.cpp
+++ b/unscopedlock.cpp
@@ -18,7 +18,7 @@ UnscopedLock::~UnscopedLock()
     }
 }
 
-UnscopedLock::UnscopedLock(std::mutex &mutex) :
+UnscopedLock::UnscopedLock(std::recursive_mutex &mutex) :
     managedMutex(mutex)
 {
 
diff --git a/unscopedlock.h b/unscopedlock.h
index 7f45d27..42ebddb 100644
--- a/unscopedlock.h
+++ b/unscopedlock.h
@@ -21,13 +21,13 @@ See LICENSE for license details.
  */
 class UnscopedLock
 {
-    std::mutex &managedMutex;
+    std::recursive_mutex &managedMutex;
     bool locked = false;
 
 public:
     ~UnscopedLock();
 
-    UnscopedLock(std::mutex &mutex);
+    UnscopedLock(std::recursive_mutex &mutex);
     void lock();
 };
 
-- 
2.43.0


From 5dee06a92c0507547acadccb88b74292b67a7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 66/77] fix: a bridge publishes with a higher QoS than the
 maximum the other side announced

---
 mqttpacket.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 6299284..5e324f1 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1482,15 +1482,17 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     // messages need to be synced; they may have been removed remotely while disconnected, for instance.
     for(const BridgeTopicPath &pub : bridgeState->c.publishes)
     {
+        const uint8_t real_qos = std::min<uint8_t>(data.max_qos, pub.qos); // [MQTT-3.2.2-11]
+
         logger->log(LOG_DEBUG) << "Bridge '" << sender->repr() << "' subscribing locally to '" << pub.topic << "', QoS="
-                               << static_cast<int>(pub.qos) << ".";
+                               << static_cast<int>(real_qos) << ".";
 
         std::vector<std::string> subtopics = splitTopic(pub.topic);
         std::string shareName;
         std::string _;
         parseSubscriptionShare(subtopics, shareName, _);
         const bool no_local = shareName.empty(); // See above about no-local.
-        store->addSubscription(session, subtopics, pub.qos, no_local, true, shareName, 0);
+        store->addSubscription(session, subtopics, real_qos, no_local, true, shareName, 0);
     }
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
-- 
2.43.0


From c1403e855d2b60ef0df9cbef9a7ff4fdca9f2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 67/77] fix: a bridge does not use the server keep-alive of the
 other side when it is shorter than its own

---
 mqttpacket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 5e324f1..95a3134 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1438,6 +1438,11 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     const bool realRetainedAvailable = data.retained_available && bridgeState->c.remoteRetainAvailable;
 
     sender->setClientProperties(true, keepalive, data.max_outgoing_packet_size, effectiveMaxOutgoingTopicAliases, realRetainedAvailable);
+
+    // The check that is queued already is for the configured interval, and the server's must be used instead [MQTT-3.2.2-21].
+    if (keepalive != bridgeState->c.keepalive)
+        ThreadGlobals::getThreadData()->queueClientNextKeepAliveCheck(sender, true);
+
     session->setSessionProperties(data.client_receive_max, bridgeState->c.localSessionExpiryInterval, bridgeState->c.localCleanStart, bridgeState->c.protocolVersion);
 
     {
-- 
2.43.0


From b9896dcd9d1770efe1deac90efd584ef9fc9195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 68/77] fix: a bridge sends messages twice when they are
 published while it connects

---
 session.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session.cpp b/session.cpp
index 696fdf3..ddc0ea0 100644
--- a/session.cpp
+++ b/session.cpp
@@ -571,6 +571,7 @@ void Session::resetQoSData()
     MutexLocked<QoSData> qos_locked = qos.lock();
     QoSData &q = *qos_locked;
     QoSData new_q(ThreadGlobals::getSettings()->maxQosMsgPendingPerClient);
+    new_q.resendPending = q.resendPending; // It's about the connection.
     q = std::move(new_q);
 }
 
-- 
2.43.0


From 13953ea20b51a9a82489c3e358f24129b2675cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 69/77] fix: changed bridge prefixes are not used after
 reloading the config

---
 session.cpp | 15 +++++++++------
 session.h   | 12 ++++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/session.cpp b/session.cpp
index ddc0ea0..88e0d4d 100644
--- a/session.cpp
+++ b/session.cpp
@@ -264,6 +264,9 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     std::optional<std::string> topic_override;
 
     {
+        const std::optional<std::string> &local_prefix = getLocalPrefix();
+        const std::optional<std::string> &remote_prefix = getRemotePrefix();
+
         // The size check is to prevent making "local/haha/" into "" when the local_prefix is "local/haha/"
         if (local_prefix && startsWith(copyFactory.getTopic(), *local_prefix) && copyFactory.getTopic().size() > local_prefix->size())
         {
@@ -654,19 +657,19 @@ uint32_t Session::getCurrentSessionExpiryInterval()
 
 void Session::setLocalPrefix(const std::optional<std::string> &s)
 {
-    // A work-around for prefixes of session being accessed cross-thread. The std::optional sets the 'engaged' flag last, so this works.
-    if (this->local_prefix)
+    if (getLocalPrefix() == s)
         return;
 
-    this->local_prefix = s;
+    prefixes.push_back(s);
+    this->local_prefix = &prefixes.back();
 }
 
 void Session::setRemotePrefix(const std::optional<std::string> &s)
 {
-    // A work-around for prefixes of session being accessed cross-thread. The std::optional sets the 'engaged' flag last, so this works.
-    if (this->remote_prefix)
+    if (getRemotePrefix() == s)
         return;
 
-    this->remote_prefix = s;
+    prefixes.push_back(s);
+    this->remote_prefix = &prefixes.back();
 }
 
diff --git a/session.h b/session.h
index b7cd022..70dd123 100644
--- a/session.h
+++ b/session.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef SESSION_H
 #define SESSION_H
 
+#include <atomic>
 #include <memory>
 #include <list>
 #include <mutex>
@@ -109,8 +110,11 @@ class Session
     MutexOwned<QoSData> qos;
 
     // Note, we set these write-once to avoid threading issues. As a work-around to avoid mutexing in a hot path.
-    std::optional<std::string> local_prefix;
-    std::optional<std::string> remote_prefix;
+
+    // The prefixes can be changed while other threads use them, so values once set are never modified.
+    std::list<std::optional<std::string>> prefixes {std::nullopt};
+    std::atomic<const std::optional<std::string>*> local_prefix {&prefixes.front()};
+    std::atomic<const std::optional<std::string>*> remote_prefix {&prefixes.front()};
 
     std::mutex clientSwitchMutex;
 
@@ -168,8 +172,8 @@ public:
 
     void setLocalPrefix(const std::optional<std::string> &s);
     void setRemotePrefix(const std::optional<std::string> &s);
-    const std::optional<std::string> &getLocalPrefix() const { return local_prefix; }
-    const std::optional<std::string> &getRemotePrefix() const { return remote_prefix; }
+    const std::optional<std::string> &getLocalPrefix() const { return *local_prefix; }
+    const std::optional<std::string> &getRemotePrefix() const { return *remote_prefix; }
 };
 
 #endif // SESSION_H
-- 
2.43.0


From 654945b495dce13f2534daefbe911eb8c5176abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 70/77] fix: reloading the config with a changed bridge leaves
 the old connection open

---
 threaddata.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index b08189c..cb0a2c6 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -871,7 +871,17 @@ void ThreadData::acceptPendingBridges()
                 if (existingState->c != bridgeState->c)
                 {
                     logger->log(LOG_NOTICE) << "Bridge '" << existingState->c.clientidPrefix << "' has changed. Reconnecting.";
+
+                    std::shared_ptr<Session> session = existingState->session->lock();
+                    std::shared_ptr<Client> client = session ? session->makeSharedClient() : nullptr;
+
                     existingState = bridgeState;
+
+                    if (client)
+                    {
+                        client->setDisconnectReason("Bridge configuration changed");
+                        removeClientQueued(client);
+                    }
                 }
             }
         }
-- 
2.43.0


From 5be5992ceda3ed794fd52505c08c1a32cdef528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 71/77] fix: a bridge continues with the session of the
 previous local_username after reloading the config

---
 subscriptionstore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 0aeef36..e159458 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -289,7 +289,8 @@ std::shared_ptr<Session> SubscriptionStore::getBridgeSession(std::shared_ptr<Cli
 
     std::shared_ptr<Session> &session = sessionsById[client_id];
 
-    if (!session || session->getDestroyOnDisconnect() || client->getCleanStart())
+    // A session is of one user, so a changed 'local_username' can't continue with it.
+    if (!session || session->getDestroyOnDisconnect() || client->getCleanStart() || session->getUsername() != client->getUsername())
         session = std::make_shared<Session>(client_id, client->getUsername(), client->getFmqClientGroupId());
 
     session->assignActiveConnection(client);
-- 
2.43.0


From 774639a85b28800e9181006634510a789054d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 72/77] fix: subscriptions to $SYS topics are lost at restart

---
 subscriptionstore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index e159458..226011f 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1597,6 +1597,7 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
     DeferredGetSubscription start(root, "", true);
 
     deferred.push_front(std::move(start));
+    deferred.emplace_back(rootDollar, "", true);
 
     for (; !deferred.empty(); deferred.pop_front())
     {
-- 
2.43.0


From 11582176f8ebe9b452f15a6ca0b65a90505b7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 73/77] fix: a bridge does not send the retained messages that
 exist when it connects

---
 mqttpacket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 95a3134..7295adc 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1498,6 +1498,9 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
         parseSubscriptionShare(subtopics, shareName, _);
         const bool no_local = shareName.empty(); // See above about no-local.
         store->addSubscription(session, subtopics, real_qos, no_local, true, shareName, 0);
+
+        if (shareName.empty())
+            store->giveClientRetainedMessages(session, subtopics, real_qos, 0);
     }
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
-- 
2.43.0


From 28000c96f5650c084f72d57ffb7f93ed83da28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:00 +0000
Subject: [PATCH 74/77] fix: retained messages are lost when a subscription
 gets them in many rounds

---
 subscriptionstore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 226011f..3192499 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -877,6 +877,10 @@ void SubscriptionStore::giveClientRetainedMessagesInitiateDeferred(const std::we
         RWLockGuard locker(&retainedMessagesRwlock);
         locker.rdlock();
         giveClientRetainedMessagesRecursively(d.cur, d.end, node, d.poundMode, session, max_qos, subscription_identifier, new_limit, *deferred, drop_count, processed_nodes);
+
+        // Deferred nodes without children count as progress too.
+        if (drop_count == 0)
+            processed_nodes++;
     }
 
     total_node_count += processed_nodes;
-- 
2.43.0


From 33bd674df87290cfc6235ebf44e5ecc8358b10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:02 +0000
Subject: [PATCH 75/77] fix: repeated acknowledgements let a client get more
 than its receive maximum

---
 session.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/session.cpp b/session.cpp
index 88e0d4d..2b4ef15 100644
--- a/session.cpp
+++ b/session.cpp
@@ -31,11 +31,12 @@ Session::Session(const std::string &clientid, const std::string &username, const
 
 void Session::QoSData::increaseFlowControlQuota(const uint16_t packet_id)
 {
+    // Acknowledging something twice, or something never sent, doesn't give more room.
+    if (!usedIds.contains(packet_id))
+        return;
+
     flowControlQuota++;
     flowControlQuota = std::min<int>(flowControlQuota, flowControlCealing);
-#ifdef TESTING
-    assert(this->usedIds.contains(packet_id));
-#endif
     usedIds.erase(packet_id);
 }
 
-- 
2.43.0


From 10e2ba740f56e2a814f7925985dce222427acf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:18 +0000
Subject: [PATCH 76/77] fix: a state file of which the sync to disk failed
 replaces the previous one

The result of fsync was ignored. When it reports an error, the data of the
new file may not be on disk, and a power failure later loses the state. Keep
the previous file then, like with other write errors.
---
 persistencefile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 9b977bc..cf0c867 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -442,7 +442,13 @@ void PersistenceFile::closeFile()
             throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
         }
 
-        fsync(f->_fileno);
+        // When the data may not have reached the disk, the previous file must stay, because that one is safe.
+        if (fsync(f->_fileno) != 0 && !discard)
+        {
+            discard = true;
+            std::string msg(strerror(errno));
+            throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+        }
     }
 
     if (f != nullptr)
-- 
2.43.0


From 3b8121e58aa3b63ebc5e97a3b70973519ddaa7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:44 +0000
Subject: [PATCH 77/77] fix: a second change of the password or ACL file within
 a second is missed

The files were compared by the second of their last change only. When a file
changed again within the second of a change that was already loaded, the new
contents (like a removed user) were not seen until another change.
---
 plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin.cpp b/plugin.cpp
index 48ad00f..1379c38 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -711,7 +711,7 @@ void Authentication::loadMosquittoPasswordFile()
     check<std::runtime_error>(stat(mosquittoPasswordFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec)
+    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec && ctime.tv_nsec == this->mosquittoPasswordFileLastLoad.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoPasswordFile.c_str());
@@ -815,7 +815,7 @@ void Authentication::loadMosquittoAclFile()
     check<std::runtime_error>(stat(mosquittoAclFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec)
+    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec && ctime.tv_nsec == this->mosquittoAclFileLastChange.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoAclFile.c_str());
-- 
2.43.0

