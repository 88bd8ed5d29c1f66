From 251085e9b6474e084b71d51d2985ad68e81e7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 1/5] fix: keep a connected user when a synced record still
 locates it at this broker

---
 cdn-broker/src/connections/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..d5bb589 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,7 +156,13 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
+        for (user, new_broker) in users_to_remove {
+            // Keep users that are connected to us and that the new record still locates here. A
+            // record naming us can come back with a peer's identity (e.g. on a full sync).
+            if new_broker.as_ref() == Some(&self.identity) && self.users.contains_key(&user) {
+                continue;
+            }
+
             self.remove_user(user, "user connected elsewhere");
         }
     }
-- 
2.43.0


From 688eafdc086024af60b9d9cf039044423fe3bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 2/5] fix: reject authentication timestamps in the future
 instead of underflowing

---
 cdn-proto/src/connection/auth/broker.rs  | 5 ++++-
 cdn-proto/src/connection/auth/marshal.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/connection/auth/broker.rs b/cdn-proto/src/connection/auth/broker.rs
index c75839c..54f2d56 100644
--- a/cdn-proto/src/connection/auth/broker.rs
+++ b/cdn-proto/src/connection/auth/broker.rs
@@ -278,7 +278,10 @@ impl<R: RunDef> BrokerAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        let Some(age) = timestamp.as_secs().checked_sub(auth_message.timestamp) else {
+            fail_verification_with_message!(connection, "timestamp is in the future");
+        };
+        if age > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..8b199fe 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -78,7 +78,10 @@ impl<R: RunDef> MarshalAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        let Some(age) = timestamp.as_secs().checked_sub(auth_message.timestamp) else {
+            fail_verification_with_message!(connection, "timestamp is in the future");
+        };
+        if age > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
-- 
2.43.0


From 20d09f7f3a7474bbd9b66601b76d0a3efa20fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 3/5] fix: ensure_initialized fails if the client is closed
 while it waits

---
 cdn-client/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..b76a4b8 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -332,7 +332,12 @@ impl<C: ConnectionDef> Client<C> {
         }
 
         // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+        // (this fails if the client is closed in the meantime)
+        bail!(
+            self.connecting_guard.acquire().await,
+            Connection,
+            "client has been manually closed"
+        );
 
         Ok(())
     }
-- 
2.43.0


From b1072923017e5b420ed86ca564d00b9db9e1f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 4/5] fix: do not send an empty subscribe or unsubscribe
 message from the client

---
 cdn-client/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index b76a4b8..91aef62 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -395,6 +395,12 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| !subscribed_guard.contains(topic))
             .collect();
 
+        // Do not send anything if there is nothing to change: the broker would treat an
+        // empty list as an error and disconnect us
+        if topics_to_send.is_empty() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Subscribe(topics_to_send.clone()))
@@ -429,6 +435,12 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| subscribed_guard.contains(topic))
             .collect();
 
+        // Do not send anything if there is nothing to change: the broker would treat an
+        // empty list as an error and disconnect us
+        if topics_to_send.is_empty() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-- 
2.43.0


From 159aef40be2f87fa53fc4152a148dccdd2b8d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 5/5] fix: replace the SQLite whitelist in one transaction

set_whitelist ran DROP, CREATE and INSERT one by one, although it promises to
set the list atomically: a check between them found no list and let everyone
through, and a failing INSERT left an empty list in force.
---
 cdn-proto/src/discovery/embedded.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..a72e8e7 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -343,12 +343,22 @@ impl DiscoveryClient for Embedded {
         // Build the query
         let query = query_builder.build();
 
-        // Execute the query
+        // Execute the query in a transaction: its statements must take effect together or not at all
+        let mut transaction = bail!(
+            self.pool.begin_with("BEGIN IMMEDIATE").await,
+            File,
+            "failed to begin setting the whitelist"
+        );
         bail!(
-            query.execute(&self.pool).await,
+            query.execute(&mut *transaction).await,
             File,
             "failed to set whitelist"
         );
+        bail!(
+            transaction.commit().await,
+            File,
+            "failed to commit the whitelist"
+        );
 
         Ok(())
     }
-- 
2.43.0

