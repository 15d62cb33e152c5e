From ab8de0765c18c2eb65793654f1412f61156af885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 01/54] fix: circ_buf_trim() moved stop_ind below zero when the
 data wraps around

---
 circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..f462f20 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -119,7 +119,7 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     // Data:       A  B  -  -  -
     // Start/stop  S  s
     //
-    if (circ_buf->stop_ind > target_len) {
+    if (circ_buf->stop_ind > in_use - target_len) {
         circ_buf->stop_ind -= in_use - target_len;
         return;
     }
-- 
2.43.0


From 4e21772c993f212ad902b87827207c4febf3818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 02/54] fix: circ_buf_read_offset() applied the offset a second
 time to wrapped data

---
 circular_buffer.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index f462f20..1c67dab 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -235,15 +235,11 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // Copy out the secont part of the circular buffer, spanning from
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
+    // The offset only ever skips bytes of the first part.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
-
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From 11eb32372ac11f2c705ece9d8036c0e9a5a3f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 03/54] fix: sub_oldest_unacknowledged_packet() returned the
 lowest, not the oldest, packet

---
 sub.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sub.c b/sub.c
index 34d0e95..5c88eaa 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,21 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // Intervals are sorted on pid, and packets can be received out of order.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+
+    while((inode = sub_pid_interval_list_next(inode)))
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From 3efe736e8512ab10089ecfd8ba7b0124ace2061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 04/54] fix: timed out packets were searched from the newest,
 so newer traffic kept older packets from being resent

---
 pub.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..0f1c5ab 100644
--- a/pub.c
+++ b/pub.c
@@ -322,13 +322,14 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    // The oldest inflight packet is at the tail.
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
     // Traverse all inflight packets for subscriber until we find one that is not timed out.x
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From 485684623efb2d9ca2461837c226a7b702e9d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 05/54] fix: the wrapped part of a control message was copied
 from the stack instead of the payload

---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From b0e2a0db159c20d486a558fa48807a778f67aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 06/54] fix: closing a connection that was still being set up
 reset an uninitialised publisher

---
 rmc_sub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..849e720 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -122,6 +123,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
 
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
+    for (ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
 
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
-- 
2.43.0


From 3e0153f37000eeb7021e5d3d899c1168d4c53ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 07/54] fix: the packet structure of every dispatched packet
 was leaked

---
 rmc_sub_packet.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..82282df 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -100,6 +100,7 @@ int rmc_sub_packet_dispatched_keep_payload(rmc_sub_context_t* ctx, sub_packet_t*
         return ENOENT;
 
     sub_packet_list_delete(node);
+    free(pack);
 
     return 0;
 }
@@ -108,15 +109,17 @@ int rmc_sub_packet_dispatched_keep_payload(rmc_sub_context_t* ctx, sub_packet_t*
 // Will free pack->payload
 int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
 {
+    void* payload = rmc_sub_packet_payload(pack);
+    payload_len_t payload_len = rmc_sub_packet_payload_len(pack);
     int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);
 
     if (res)
         return res;
 
     if (ctx->payload_free)
-        (*ctx->payload_free)(pack->payload, pack->payload_len, ctx->user_data);
+        (*ctx->payload_free)(payload, payload_len, ctx->user_data);
     else
-        free(pack->payload);
+        free(payload);
 
     return 0;
 }
-- 
2.43.0


From 7edf5bc23662f3ce9677bb0dac97b0aff9f1a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 08/54] fix: deleting a subscriber context leaked its publisher
 array

---
 rmc_sub_context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 849e720..e1a8c3b 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -270,6 +270,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
     rmc_sub_deactivate_context(ctx);
 
     free(ctx->conn_vec.connections);
+    free(ctx->publishers);
     free(ctx);
     return 0;
 }
-- 
2.43.0


From 1cad2799abf2b2334a673b8c72cd57cc5f395d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 09/54] fix: packets ready for dispatch were leaked when a
 subscriber context was deactivated

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index e1a8c3b..864c5e4 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -234,7 +234,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 72eb59d36516681281e259e4a231bb32c018d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 10/54] fix: a subscriber's multicast socket was removed from
 polling after being closed, or without being open

---
 rmc_sub_context.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 864c5e4..477f22f 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -240,11 +240,14 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
+
+        close(ctx->mcast_recv_descriptor);
+    }
 
     ctx->mcast_recv_descriptor = -1;
 
-- 
2.43.0


From f344b8cee01633c09967246d1da138d5824edec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 11/54] fix: a publisher's control message callback was left
 uninitialised

---
 rmc_pub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..e29c640 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -128,7 +128,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
 
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From ad78002b64d99f03197c0d00d848f7a0660f5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 12/54] fix: announcements were sent from a stack buffer that
 was gone, and were leaked once sent

---
 pub.c             | 23 +++++++++++++++++++++++
 rmc_internal.h    |  9 +++++++++
 rmc_pub.h         |  7 +++++++
 rmc_pub_packet.c  | 32 +++++++++++++++++++++++++-------
 rmc_pub_timeout.c | 12 +++++++++++-
 rmc_pub_write.c   |  4 ++++
 6 files changed, 79 insertions(+), 8 deletions(-)

diff --git a/pub.c b/pub.c
index 0f1c5ab..b0e28ae 100644
--- a/pub.c
+++ b/pub.c
@@ -291,6 +291,29 @@ void pub_packet_ack(pub_subscriber_t* sub,
     }
 }
 
+void pub_packet_discard(pub_context_t* ctx,
+                        pub_packet_t* pack,
+                        void (*pub_payload_free)(void* payload,
+                                                 payload_len_t payload_len,
+                                                 user_data_t user_data))
+{
+    assert(ctx);
+    assert(pack);
+
+    // A sent packet with pid 0 is in no list.
+    if (!pack->parent_node->owner)
+        pub_packet_list_push_tail_node(&ctx->inflight, pack->parent_node);
+
+    pub_packet_list_delete(pack->parent_node);
+
+    if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    _free_pending_packet(pack);
+}
+
 uint32_t pub_get_unacknowledged_packet_count(pub_context_t* ctx)
 {
     return pub_packet_list_size(&ctx->inflight);
diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..0ebbdb7 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -380,6 +380,15 @@ typedef struct rmc_conn_command_dispatch {
 
 
 
+// Package user data of payloads allocated by the library itself.
+#define RMC_PUB_OWN_PAYLOAD 1
+
+extern int rmc_pub_queue_packet_user_data(struct rmc_pub_context* ctx,
+                                          void* payload,
+                                          payload_len_t payload_len,
+                                          uint8_t announce_flag,
+                                          user_data_t pkg_user_data);
+extern void rmc_pub_packet_discard(struct rmc_pub_context* ctx, pub_packet_t* pack);
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..81c9f74 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -136,6 +136,13 @@ extern void pub_packet_sent(pub_context_t* ctx,
                             pub_packet_t* ppack,
                             usec_timestamp_t send_ts);
 
+// Free a packet, queued or sent, that no subscriber is to acknowledge.
+extern void pub_packet_discard(pub_context_t* ctx,
+                               pub_packet_t* ppack,
+                               void (*pub_payload_free)(void* payload,
+                                                        payload_len_t payload_len,
+                                                        user_data_t user_data));
+
 extern void pub_packet_ack(pub_subscriber_t* sub,
                            packet_id_t pid,
                            // Called if this was the last subscriber acking the packet
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..ad32459 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -14,10 +14,33 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
+// Free a packet that no subscriber is to acknowledge.
+void rmc_pub_packet_discard(rmc_pub_context_t* ctx, pub_packet_t* pack)
+{
+    pub_packet_discard(&ctx->pub_ctx,
+                       pack,
+                       (ctx->payload_free && pack->pkg_user_data.u64 != RMC_PUB_OWN_PAYLOAD)?
+                       ctx->payload_free:_payload_free_generic);
+}
+
 int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
                          void* payload,
                          payload_len_t payload_len,
                          uint8_t announce_flag)
+{
+    return rmc_pub_queue_packet_user_data(ctx, payload, payload_len, announce_flag, user_data_nil());
+}
+
+int rmc_pub_queue_packet_user_data(rmc_pub_context_t* ctx,
+                                   void* payload,
+                                   payload_len_t payload_len,
+                                   uint8_t announce_flag,
+                                   user_data_t pkg_user_data)
 {
     pub_packet_t *pack;
 
@@ -42,9 +65,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
     if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
@@ -87,11 +110,6 @@ int rmc_pub_traffic_suspended(rmc_pub_context_t* ctx)
 }
 
 
-static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
-{
-    free(payload);
-}
-
 int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
 {
     pub_packet_ack(&ctx->subscribers[conn->connection_index],
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..4d4f4ac 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <arpa/inet.h>
 #include <string.h>
+#include <stdlib.h>
 
 // =============
 // TIMEOUT MANAGEMENT
@@ -146,7 +147,16 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            // The payload is needed until the packet is sent.
+            void* payload = malloc(len?len:1);
+
+            if (!payload) {
+                RMC_LOG_FATAL("Could not allocate %d bytes", len);
+                exit(255);
+            }
+            memcpy(payload, buffer, len);
+            if (rmc_pub_queue_packet_user_data(ctx, payload, len, 1, user_data_u64(RMC_PUB_OWN_PAYLOAD)))
+                free(payload);
         }
 
         // Setup next announce.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..2c678cb 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -106,6 +106,10 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Announcements are never acknowledged.
+    if (!pack->pid)
+        rmc_pub_packet_discard(ctx, pack);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 3af0025d06b9f17394b506635f1178585ec48cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 13/54] fix: packets sent without any subscriber were never
 released

---
 rmc_pub_write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 2c678cb..ab1054f 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -106,8 +106,8 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
-    // Announcements are never acknowledged.
-    if (!pack->pid)
+    // Announcements, and packets sent without subscribers, are never acknowledged.
+    if (!pack->ref_count)
         rmc_pub_packet_discard(ctx, pack);
 
     res = 0;
-- 
2.43.0


From e6f0c9a3eeffd78efec118fa7c91f56e63ed4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 14/54] fix: deleting a publisher context leaked its subscriber
 array and queued packets

---
 rmc_pub_context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e29c640..13bfe9f 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -308,10 +308,16 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
 
+    pub_packet_t* pack = 0;
+
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
+        rmc_pub_packet_discard(ctx, pack);
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From 38b2eefe1d667658c8ae322cc3503d57d42034d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 15/54] fix: resends were put off by every announcement, for
 good if announcements were frequent

---
 rmc_pub_timeout.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 4d4f4ac..677948f 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -164,8 +164,6 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
             ctx->announce_next_send_ts = current_ts + ctx->announce_send_interval;
         else
             ctx->announce_next_send_ts = 0; // Disable announce sends.
-
-        return 0;
     }
 
     // Grab a list of subscribers that have timed out packets we need to subscribe
-- 
2.43.0


From 1dc60cd911dd66c25cc401b3190c8b9db97bf692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 16/54] fix: a subscriber with a full connection held up
 resends to the others

---
 rmc_pub_timeout.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 677948f..75b4380 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -173,17 +173,16 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        // A subscriber that is stuck must not hold up the others.
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 75a7b4871bec0b45810122bde423e2d9f11c21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 17/54] fix: traffic stayed suspended when subscribers left
 without acknowledging

---
 rmc_pub_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..0b88df3 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -113,6 +113,13 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // The packets that suspended traffic may have been released with the subscriber.
+    if (ctx->traffic_suspended &&
+        pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold) {
+        RMC_LOG_INFO("Resuming traffic");
+        ctx->traffic_suspended = 0;
+    }
     return 0;
 }
 
-- 
2.43.0


From 0bee8fd372d350fc6c91d43f93dfbd6f3f1e6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 18/54] fix: an accepted connection that could not be set up
 was leaked, or another one closed instead

---
 rmc_connection.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..b265c78 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -368,7 +368,9 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From 9fcba153f788d646892eeea35018c5c4314655ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 19/54] fix: subscribers were reported with their address in
 network byte order and without port

---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index b265c78..717cbf0 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -375,7 +375,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From 07db21bf85751415f0b6a421322fd1ba10d4e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 20/54] fix: a failed connection attempt was removed from
 polling twice

---
 rmc_connection.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 717cbf0..d6f7c25 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
-- 
2.43.0


From 4d165e48b2aa7eae48ec02b26c5043ee0756cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 21/54] fix: an announcement received while connecting to its
 publisher led to a second connection

---
 rmc_sub_read.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..a774e79 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -171,9 +171,11 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
 
     if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
         RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
-        res = decode_unsubscribed_multicast(ctx,
-                                            pack_hdr,
-                                            data);
+        // Already connecting? Then there is nothing to set up.
+        if (!conn)
+            res = decode_unsubscribed_multicast(ctx,
+                                                pack_hdr,
+                                                data);
 
         if (read_res)
             *read_res = RMC_READ_MULTICAST_NOT_READY;
-- 
2.43.0


From 70189361b6fba79cb5299c90c1e9370abf5850b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 22/54] fix: deactivating a publisher that is not active
 removed and closed descriptor -1

---
 rmc_pub_context.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 13bfe9f..c0701a3 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -272,7 +272,7 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 
     // Callback to remnove listen and multicast descriptor
     // from caller's poll vector.
-    if (ctx->conn_vec.poll_remove) {
+    if (ctx->conn_vec.poll_remove && ctx->mcast_send_descriptor != -1) {
         (*ctx->conn_vec.poll_remove)(ctx->user_data,
                                      ctx->mcast_send_descriptor,
                                      RMC_MULTICAST_INDEX);
@@ -296,8 +296,10 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    close(ctx->mcast_send_descriptor);
-    close(ctx->listen_descriptor);
+    if (ctx->mcast_send_descriptor != -1) {
+        close(ctx->mcast_send_descriptor);
+        close(ctx->listen_descriptor);
+    }
 
     ctx->mcast_send_descriptor = -1;
     ctx->listen_descriptor = -1;
-- 
2.43.0


From 13615c4b4b862ec609c022ef8ce07357472f7aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 23/54] fix: activating a publisher twice leaked its
 descriptors

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index c0701a3..c057d72 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -162,6 +162,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    if (ctx->mcast_send_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From 77ae3710db96432a3fad5452726edb33965c6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 24/54] fix: a subscriber whose multicast socket could not be
 bound leaked it

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 477f22f..514ba80 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -177,7 +177,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
-- 
2.43.0


From 4088d829c061eb751b8478afc02405e1b7a33537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 25/54] fix: publishers were ordered by their oldest
 unacknowledged packet before it was recorded

---
 rmc_sub_packet.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 82282df..f71e501 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,27 +37,28 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = &ctx->publishers[index];
+    int first_unacknowledged = !sub_oldest_unacknowledged_packet(pub);
 
 
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
+
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
     // The list is sorted on oldest unacknowledged packet.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (first_unacknowledged)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
-- 
2.43.0


From f04db46c9a47bdb7d3fcc4400391d7932e9f338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 26/54] fix: a closed connection kept its place in the list of
 acknowledgements to send

---
 rmc_sub_read.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a774e79..650df88 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -356,10 +356,22 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    rmc_index_node_t* inode = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
+    // Nothing is left to be acknowledged.
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode) {
+        rmc_index_node_t* next = rmc_index_list_next(inode);
+
+        if (inode->data == s_ind)
+            rmc_index_list_delete(inode);
+        inode = next;
+    }
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From eb29af4a2a58e01a4db76947347dd51da71e91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 27/54] fix: rmc_sub_close_connection() accessed publishers
 outside of its context

---
 rmc_sub_read.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 650df88..b105a52 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -358,6 +358,9 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     rmc_index_node_t* inode = 0;
 
+    if (!ctx || s_ind >= ctx->conn_vec.size)
+        return EINVAL;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
-- 
2.43.0


From a267e264c9f2a31a578e5e3022af09205c56f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 28/54] fix: packets of a closed connection were freed with the
 connection index as user data

---
 rmc_sub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index b105a52..fa92277 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -357,6 +357,7 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     rmc_index_node_t* inode = 0;
+    sub_packet_node_t* pnode = 0;
 
     if (!ctx || s_ind >= ctx->conn_vec.size)
         return EINVAL;
@@ -375,6 +376,13 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
         inode = next;
     }
 
+    // Payloads are given back with the user data they were allocated with.
+    pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
+    while(pnode) {
+        pnode->data->pkg_user_data = ctx->user_data;
+        pnode = sub_packet_list_next(pnode);
+    }
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 5193445c3650b4cfed6a8dabd1a06bd7136163ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 29/54] fix: reading from a publisher dropped the write
 interest of its connection

---
 rmc_sub_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index fa92277..ac8a50d 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -466,8 +466,8 @@ rearm:
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From 2d0b0fb86b5559fb84b816203c0efc8b9ef8089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 30/54] fix: user data set after initialisation was not used in
 all poll callbacks

---
 rmc_pub_context.c | 1 +
 rmc_sub_context.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index c057d72..600efe2 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -447,6 +447,7 @@ int rmc_pub_set_user_data(rmc_pub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 514ba80..20e021d 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -321,6 +321,7 @@ int rmc_sub_set_user_data(rmc_sub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
-- 
2.43.0


From ca82d4cb9537d00adba9ee8d24388c37c2c7fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 31/54] fix: an acknowledgement that did not fit into its
 connection was lost and held up other publishers

---
 rmc_sub_timeout.c | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..123e038 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    int result = 0;
 
     if (!ctx)
         return EINVAL;
@@ -48,16 +49,18 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     //
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
-        sub_pid_interval_t pid_intv;
+        sub_pid_interval_node_t* intv_node = 0;
+        rmc_index_node_t* next = rmc_index_list_next(inode);
+        int res = 0;
 
 
-        // If it is not yet time to send acks for this publisher, then
-        // break out of loop and return.
+        // Is it not yet time to send acks for this publisher?
         if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {
             RMC_LOG_INDEX_COMMENT(inode->data,
-                                  "%ld usec until timeout - returning",
+                                  "%ld usec until timeout",
                                   sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout - current_ts);
-            break;
+            inode = next;
+            continue;
         }
 
         RMC_LOG_INDEX_COMMENT(inode->data,
@@ -66,39 +69,50 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
-        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
+        // An interval that cannot be acked now is kept until it can, and
+        // does not hold up other publishers.
+        while((intv_node = sub_pid_interval_list_head(&pub->received_interval))) {
+            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &intv_node->data);
             if (res) {
                 RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+                result = res;
+                break;
             }
+            sub_pid_interval_list_delete(intv_node);
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        if (!res)
+            rmc_index_list_delete(inode);
+        inode = next;
     }
 
-    return 0;
+    return result;
 }
 
 
 int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
 {
-    sub_publisher_t* pub = 0;
+    rmc_index_node_t *inode = 0;
 
     if (!ctx || !result)
         return EINVAL;
 
+    *result = -1;
+
     // We may not have anything to ack at all.
     if (!rmc_index_list_size(&ctx->pub_ack_list)) {
         RMC_LOG_DEBUG("No publishers found with pending timeouts");
-        *result = -1;
         return 0;
     }
 
-    pub = &ctx->publishers[rmc_index_list_head(&ctx->pub_ack_list)->data];
+    // A publisher with a failed ack may no longer be in order.
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode) {
+        usec_timestamp_t ts = sub_oldest_unacknowledged_packet(&ctx->publishers[inode->data]) + ctx->ack_timeout;
 
-    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
+        if (*result == -1 || ts < *result)
+            *result = ts;
+        inode = rmc_index_list_next(inode);
+    }
     return 0;
 }
-- 
2.43.0


From 088d736fe7d535590ce6f2a9f09ad859d4c17338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 32/54] fix: a huge acknowledgement interval kept the publisher
 busy forever

---
 rmc_pub_read.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 0b88df3..092704e 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -23,6 +23,8 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     cmd_ack_interval_t ack;
     rmc_pub_context_t* ctx = (rmc_pub_context_t*) user_data.ptr;
     packet_id_t pid = 0;
+    pub_packet_list_t* inflight = &ctx->subscribers[conn->connection_index].inflight;
+
     // Do we have enough data?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)
         return EAGAIN;
@@ -34,6 +36,17 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     RMC_LOG_INDEX_COMMENT(conn->connection_index,
                           "process_cmd_ack_interval(): interval[%lu:%lu]", ack.first_pid, ack.last_pid);
 
+    // Stay within the packets that can be acknowledged, since the
+    // interval can be of any size. The list is sorted in descending order.
+    if (!pub_packet_list_size(inflight))
+        return 0;
+
+    if (ack.first_pid < pub_packet_list_tail(inflight)->data->pid)
+        ack.first_pid = pub_packet_list_tail(inflight)->data->pid;
+
+    if (ack.last_pid > pub_packet_list_head(inflight)->data->pid)
+        ack.last_pid = pub_packet_list_head(inflight)->data->pid;
+
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-- 
2.43.0


From 629a688d0a32aa1e928bac52de73527d3139704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 33/54] fix: a publisher kept a connection with an unknown
 command forever, unable to read on or notice its end

---
 rmc_pub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 092704e..2f973dd 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -233,6 +233,14 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular maintenance.
     }
 
+    // Did we get something that is no command? There is no way to
+    // find the next one, so the connection is of no more use.
+    if (res == EPROTO) {
+        *op_res = RMC_ERROR;
+        rmc_pub_close_connection(ctx, s_ind);
+        return res;
+    }
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
-- 
2.43.0


From 4ea08d0e81fcc0ce8c748bce01b436a0e56800d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 34/54] fix: a publisher waited forever for a control message
 larger than its buffer

---
 rmc_pub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 2f973dd..dd5d72a 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -68,6 +68,10 @@ static int process_control_message(rmc_connection_t* conn, user_data_t user_data
     // Read message header
     circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &msg, sizeof(msg), 0);
 
+    // A message that does not fit will never be complete.
+    if (sizeof(msg) + 1 + msg.payload_len >= sizeof(conn->read_buf_data))
+        return EPROTO;
+
     // Do we have enough data for payload?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1 + msg.payload_len)
         return EAGAIN;
-- 
2.43.0


From e3c0f5ad4199fd917ac0e16245aefe04bb4b0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 35/54] fix: a subscriber waited forever for a packet larger
 than its buffer

---
 rmc_sub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index ac8a50d..90e1cec 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -274,6 +274,10 @@ static int process_cmd_packet(rmc_connection_t* conn, user_data_t user_data)
     // Read the command byte and the packet header
     circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &pack_hdr, sizeof(pack_hdr), 0);
 
+    // A packet that is too large will never be complete.
+    if (pack_hdr.payload_len > RMC_MAX_PAYLOAD)
+        return EPROTO;
+
     // Now we know how big the payload is. Check if we have enough memory for an atomic
     // process or reject.
     if (circ_buf_in_use(&conn->read_buf) < 1 + sizeof(packet_header_t) + pack_hdr.payload_len) {
-- 
2.43.0


From be9ecf1a56a2928ab2e18f0ff9f8e40b6f38d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 36/54] fix: an interrupted read, or one with nothing to read,
 closed the connection

---
 rmc_protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..b280b18 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -222,6 +222,12 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
                         res,
                         (res == -1)?strerror(errno):"");
 
+    // Nothing to read right now?
+    if (res == -1 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+        circ_buf_trim(&conn->read_buf, orig_in_use);
+        return EAGAIN;
+    }
+
     if (res == -1 || res == 0) {
         *op_res = RMC_READ_DISCONNECT;
 
-- 
2.43.0


From cabc7130a0e4b6ccfe351b7819c024760375b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 37/54] fix: a connection that was established at once was
 reported with a stale error

rmc_conn_connect() examined errno although connect() had not failed.
---
 rmc_connection.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index d6f7c25..9ad30f6 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -296,8 +296,9 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
         return 0; // This is not an error, just a failed subscriber setup.
     }
 
-    // Nil out the in progress error.
-    res = (errno == EINPROGRESS)?0:errno;
+    // Either connected, or in progress of connecting. (errno has no
+    // meaning when connect() succeeded right away).
+    res = 0;
 
 
     conn_vec->connections[c_ind].remote_address = address;
-- 
2.43.0


From fb98de8eb14701c01ba5cbe6ceeef94e09015ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 38/54] fix: logging changed errno, and with it the results of
 calls that log a failure

isatty() and stdio set errno; callers log failed system calls before they
return or examine errno, so what they did depended on the log level.
---
 rmc_log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..4c2ce3e 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -13,6 +13,7 @@
 #include "string.h"
 #include <unistd.h>
 #include <stdlib.h>
+#include <errno.h>
 
 static usec_timestamp_t start_time = 0;
 
@@ -193,6 +194,7 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    int saved_errno = errno; // Callers examine errno after having logged.
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +280,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
-- 
2.43.0


From a65c9b2fa4aab7b660510151aaaa04932488fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 39/54] fix: a refused context initialisation leaked the
 context and handed it out half set up

---
 rmc_pub_context.c | 8 +++++++-
 rmc_sub_context.c | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 600efe2..ab73c19 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -62,7 +62,6 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
         RMC_LOG_FATAL("Could not allocate %d bytes", (int) sizeof(rmc_pub_context_t));
         exit(255);
     }
-    *context_res = ctx;
 
     conn_vec = (uint8_t*) malloc(sizeof(rmc_connection_t) * max_subscribers);
     if (!conn_vec) {
@@ -92,6 +91,8 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
+        free(conn_vec);
+        free(ctx);
         return EINVAL;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
@@ -99,6 +100,8 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
+        free(conn_vec);
+        free(ctx);
         return EINVAL;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
@@ -106,6 +109,8 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
+        free(conn_vec);
+        free(ctx);
         return EINVAL;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
@@ -146,6 +151,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     pub_init_context(&ctx->pub_ctx);
 
     ctx->subscribers = malloc(sizeof(pub_subscriber_t) * max_subscribers);
+    *context_res = ctx;
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 20e021d..630b76f 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -66,7 +66,6 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
         exit(255);
     }
 
-    *context_res = ctx;
     sub_packet_list_init(&ctx->dispatch_ready, 0, 0, 0);
     rmc_index_list_init(&ctx->pub_ack_list, 0, 0, 0);
 
@@ -93,6 +92,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
+        free(conn_vec);
+        free(ctx);
         return EINVAL;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
@@ -100,6 +101,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
+        free(conn_vec);
+        free(ctx);
         return EINVAL;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
@@ -126,6 +129,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     for (ind = 0; ind < max_publishers; ++ind)
         sub_init_publisher(&ctx->publishers[ind]);
 
+    *context_res = ctx;
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
-- 
2.43.0


From 94a8580b4a6031483280944ab99a2fc2fefe3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 40/54] fix: pending and TTL calls crashed without a context
 instead of returning EINVAL

---
 rmc_pub_context.c | 3 +++
 rmc_pub_read.c    | 2 +-
 rmc_pub_write.c   | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index ab73c19..d8ef3dd 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -357,6 +357,9 @@ int rmc_pub_set_announce_interval(rmc_pub_context_t* ctx, uint32_t send_interval
 // Can be called once the context is activated.
 int rmc_pub_set_multicast_ttl(rmc_pub_context_t* ctx, int hops)
 {
+    if (!ctx)
+        return EINVAL;
+
     if (ctx->mcast_send_descriptor == -1)
         return ENOTCONN;
 
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index dd5d72a..7990006 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -267,7 +267,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index ab1054f..d725e8c 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -319,7 +319,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From b00ed377b1b8f6be40156eb1b04bf362080d48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 41/54] fix: resetting the log file to its default after a
 message had been logged crashed

---
 rmc_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_log.c b/rmc_log.c
index 4c2ce3e..d34120f 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -69,7 +69,7 @@ void rmc_log_set_file(FILE* file)
 
     // If necessary, recalculate if we should use colors or not.
 
-    if (_rmc_log_use_color_calculated) {
+    if (_rmc_log_use_color_calculated && _rmc_log_file) {
         if (isatty(fileno(_rmc_log_file)))
             _rmc_log_use_color = 1;
         else
-- 
2.43.0


From f5ac6073580a9be3ada23dcc42420f7320169c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 42/54] fix: the warning about an illegal log level was written
 at every log level

---
 rmc_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_log.c b/rmc_log.c
index d34120f..b4fcee3 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -54,7 +54,7 @@ int rmc_set_log_level(int log_level)
 {
     if (log_level < RMC_LOG_LEVEL_NONE || log_level > RMC_LOG_LEVEL_DEBUG) {
 
-        rmc_log(RMC_LOG_LEVEL_WARNING, __FUNCTION__, __FILE__, __LINE__, -1,
+        RMC_LOG_INDEX_WARNING(-1,
                 "Illegal log level: %d. Legal values [%d-%d]", log_level, RMC_LOG_LEVEL_NONE, RMC_LOG_LEVEL_DEBUG);
         return 1;
     }
-- 
2.43.0


From 36706ee606c8f8ffc96f1adcb05b20fe5e68aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 43/54] fix: a command starting at the very end of a
 connection's write buffer was written beyond it

---
 circular_buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circular_buffer.c b/circular_buffer.c
index 1c67dab..6823084 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -78,6 +78,12 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment2 = 0;
         *segment2_len = 0;
         circ_buf->stop_ind += len;
+
+        // The next allocation starts at the beginning of the buffer if this
+        // one took all there was up to its end.
+        if (circ_buf->stop_ind == circ_buf->size)
+            circ_buf->stop_ind = 0;
+
         return 0;
     }
 
-- 
2.43.0


From e4f1d701385d694908c54fab573252f7a4f5a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 44/54] fix: a full connection kept the next deadline in the
 past, so that waiting for it never waited

---
 rmc_pub_timeout.c | 18 +++++++++++++++++-
 rmc_sub_timeout.c |  7 +++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 75b4380..48cd72e 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -190,6 +190,7 @@ int rmc_pub_timeout_get_next(rmc_pub_context_t* ctx, usec_timestamp_t* result_ts
 {
     usec_timestamp_t announce_timeout_ts = -1; // Default is infinite.
     usec_timestamp_t ack_timeout_ts = -1;
+    pub_sub_node_t* sub_node = 0;
 
 
     if (!ctx || !result_ts)
@@ -201,7 +202,22 @@ int rmc_pub_timeout_get_next(rmc_pub_context_t* ctx, usec_timestamp_t* result_ts
 
     // Get the send timestamp of the oldest packet we have yet to
     // receive an acknowledgement for from the subscriber.
-    pub_get_oldest_unackowledged_packet(&ctx->pub_ctx, &ack_timeout_ts);
+    // A subscriber whose connection has no room for that packet is
+    // skipped, since there is nothing to do until data has been written.
+    sub_node = pub_sub_list_head(&ctx->pub_ctx.subscribers);
+    while(sub_node) {
+        rmc_connection_t* conn = (rmc_connection_t*) pub_subscriber_user_data(sub_node->data).ptr;
+        pub_packet_node_t* pack_node = pub_packet_list_tail(&sub_node->data->inflight);
+
+        sub_node = pub_sub_list_next(sub_node);
+
+        if (!pack_node ||
+            circ_buf_available(&conn->write_buf) < 1 + sizeof(packet_header_t) + pack_node->data->payload_len)
+            continue;
+
+        if (ack_timeout_ts == -1 || pack_node->data->send_ts < ack_timeout_ts)
+            ack_timeout_ts = pack_node->data->send_ts;
+    }
 
     // Calculate time stamp of when we need to see an ack by.
     if (ack_timeout_ts != -1)
diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index 123e038..dfcbe24 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -109,6 +109,13 @@ int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
     inode = rmc_index_list_head(&ctx->pub_ack_list);
     while(inode) {
         usec_timestamp_t ts = sub_oldest_unacknowledged_packet(&ctx->publishers[inode->data]) + ctx->ack_timeout;
+        rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec, inode->data);
+
+        // A connection without room for the ack has to be written first.
+        if (conn && circ_buf_available(&conn->write_buf) < 1 + sizeof(cmd_ack_interval_t)) {
+            inode = rmc_index_list_next(inode);
+            continue;
+        }
 
         if (*result == -1 || ts < *result)
             *result = ts;
-- 
2.43.0


From d04d9c1f83702280ebf45bd1d9d047a901430457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 45/54] fix: queueing a packet before activation modified the
 poll interest of descriptor -1, and was not polled for afterwards

---
 rmc_pub_context.c | 3 ++-
 rmc_pub_packet.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index d8ef3dd..d0db044 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -246,7 +246,8 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->mcast_send_descriptor,
                                   RMC_MULTICAST_INDEX,
-                                  RMC_POLLREAD);
+                                  // Packets may have been queued already.
+                                  RMC_POLLREAD | (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));
 
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->listen_descriptor,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index ad32459..a89c2fe 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -69,7 +69,8 @@ int rmc_pub_queue_packet_user_data(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // A context that is not active has nothing to poll yet.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
-- 
2.43.0


From 9b9f680bcc12c72654b42b9ea4a878dd55fc68af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 46/54] fix: reading a stray datagram dropped the write
 interest of packets queued on the multicast socket

---
 rmc_pub_read.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 7990006..f3f064e 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -209,12 +209,17 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
             return errno;
         }
         RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
-        if (ctx->conn_vec.poll_modify)
+        if (ctx->conn_vec.poll_modify) {
+            // Keep the write interest if there are packets to send.
+            rmc_poll_action_t action = RMC_POLLREAD |
+                (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0);
+
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
                                          RMC_MULTICAST_INDEX,
-                                         RMC_POLLREAD,
-                                         RMC_POLLREAD);
+                                         action,
+                                         action);
+        }
         return 0;
     }
 
-- 
2.43.0


From 6625ea71a58ad3d88a31116827d29f09ed0ae024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 47/54] fix: a failed activation returned whatever perror() and
 close() left in errno, not the error of the call that failed

---
 rmc_pub_context.c |  6 ++++--
 rmc_sub_context.c | 14 ++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index d0db044..65de22a 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -164,6 +164,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     struct in_addr in_addr;
     socklen_t sock_len = sizeof(struct sockaddr_in);
     int on_flag = 1;
+    int sock_err = 0;
 
     if (!ctx)
         return EINVAL;
@@ -187,7 +188,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     in_addr.s_addr = htonl(ctx->mcast_if_addr);
     if (setsockopt(ctx->mcast_send_descriptor,
                    IPPROTO_IP, IP_MULTICAST_IF, &in_addr, sizeof(in_addr)) < 0) {
-        perror("rmc_activate_context(multicast_recv): setsockopt(IP_MULTICAST_IF)");
+        RMC_LOG_ERROR("rmc_activate_context(multicast_recv): setsockopt(IP_MULTICAST_IF): %s", strerror(errno));
         goto error;
     }
 
@@ -258,6 +259,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     return 0;
 
 error:
+    sock_err = errno;
 
     if (ctx->mcast_send_descriptor != -1) {
         close(ctx->mcast_send_descriptor);
@@ -269,7 +271,7 @@ error:
         ctx->listen_descriptor = -1;
     }
 
-    return errno;
+    return sock_err;
 }
 
 int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 630b76f..5c0a34e 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -142,6 +142,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     struct ip_mreq mreq;
     int on_flag = 1;
     int sz = 1024*1024;
+    int sock_err = 0;
 
     if (!ctx)
         return EINVAL;
@@ -155,7 +156,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     ctx->mcast_recv_descriptor = socket (AF_INET, SOCK_DGRAM, 0);
 
     if (ctx->mcast_recv_descriptor == -1) {
-        perror("rmc_activate_context(multicast_recv): socket()");
+        RMC_LOG_ERROR("rmc_activate_context(multicast_recv): socket(): %s", strerror(errno));
         goto error;
     }
 
@@ -180,7 +181,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     if (bind(ctx->mcast_recv_descriptor,
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
-        perror("rmc_listen(multicast_recv): bind()");
+        RMC_LOG_ERROR("rmc_listen(multicast_recv): bind(): %s", strerror(errno));
         goto error;
     }
 
@@ -189,7 +190,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     mreq.imr_interface.s_addr = htonl(ctx->mcast_if_addr);
     if (setsockopt(ctx->mcast_recv_descriptor,
                    IPPROTO_IP, IP_ADD_MEMBERSHIP, &mreq, sizeof(mreq)) < 0) {
-        perror("rmc_activate_context(multicast_recv): setsockopt(IP_ADD_MEMBERSHIP)");
+        RMC_LOG_ERROR("rmc_activate_context(multicast_recv): setsockopt(IP_ADD_MEMBERSHIP): %s", strerror(errno));
         goto error;
     }
 
@@ -204,7 +205,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     //
     if (setsockopt(ctx->mcast_recv_descriptor,
                    IPPROTO_IP, IP_MULTICAST_LOOP, &on_flag, sizeof(on_flag)) < 0) {
-        perror("rmc_activate_context(): setsockopt(IP_MULTICAST_LOOP)");
+        RMC_LOG_ERROR("rmc_activate_context(): setsockopt(IP_MULTICAST_LOOP): %s", strerror(errno));
         goto error;
     }
 
@@ -217,13 +218,14 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     return 0;
 
 error:
+    sock_err = errno;
+
     if (ctx->mcast_recv_descriptor != -1) {
         close(ctx->mcast_recv_descriptor);
         ctx->mcast_recv_descriptor = -1;
     }
 
-
-    return errno;
+    return sock_err;
 }
 
 
-- 
2.43.0


From 361b8e43c871e154ce68cef2f75a51dd7c734b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 48/54] fix: closing the connection from a control message or
 packet ready callback left the reader working on a closed connection

---
 rmc_pub_read.c | 8 ++++++++
 rmc_sub_read.c | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index f3f064e..632878a 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -92,6 +92,10 @@ static int process_control_message(rmc_connection_t* conn, user_data_t user_data
                                    conn->remote_port,
                                    conn->node_id,
                                    payload, msg.payload_len);
+
+        // The callback may have closed the connection, and its buffers with it.
+        if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+            return 0;
     }
 
     // Free it all
@@ -250,6 +254,10 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return res;
     }
 
+    // The control message callback may have closed the connection.
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return res;
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 90e1cec..23d01c8 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -448,6 +448,10 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular disconnect.
     }
 
+    // The packet ready callback may have closed the connection.
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return res;
+
     // Process packets (which may be none in case of error)
     // All packets that are sequentially redceived, with no missing packets
     // between them, are moved over to the dispatch_ready queue.
-- 
2.43.0


From 458a3a05568213d57ea6505029b7cb0847b57cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 49/54] fix: a packet queued from a disconnect callback during
 deactivation armed the multicast descriptor after it was removed from the
 poll set

---
 rmc_pub_context.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 65de22a..9c97ef2 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -294,6 +294,16 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
                                      RMC_LISTEN_INDEX);
     }
 
+    // Closed before the connections are, since the disconnect callback
+    // may queue packets.
+    if (ctx->mcast_send_descriptor != -1) {
+        close(ctx->mcast_send_descriptor);
+        close(ctx->listen_descriptor);
+    }
+
+    ctx->mcast_send_descriptor = -1;
+    ctx->listen_descriptor = -1;
+
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
 
     if (max != RMC_NIL_INDEX) {
@@ -308,14 +318,6 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    if (ctx->mcast_send_descriptor != -1) {
-        close(ctx->mcast_send_descriptor);
-        close(ctx->listen_descriptor);
-    }
-
-    ctx->mcast_send_descriptor = -1;
-    ctx->listen_descriptor = -1;
-
     return 0;
 }
 
-- 
2.43.0


From e8dc09aa01f9a20b7d4c0df31c24e92560e2845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 50/54] fix: failed multicast writes and failed connection
 attempts were reported as completed operations, ignored loopback packets not
 at all

---
 rmc_pub_read.c  | 1 +
 rmc_pub_write.c | 5 ++++-
 rmc_sub_write.c | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 632878a..130acbe 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -213,6 +213,7 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
             return errno;
         }
         RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+        *op_res = RMC_READ_MULTICAST_LOOPBACK;
         if (ctx->conn_vec.poll_modify) {
             // Keep the write interest if there are packets to send.
             rmc_poll_action_t action = RMC_POLLREAD |
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index d725e8c..58f09f8 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -248,7 +248,10 @@ int rmc_pub_write(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         // Write as many multicast packets as we can.
         RMC_LOG_INDEX_DEBUG(RMC_MULTICAST_INDEX,
                             "Processing multicast write");
-        return process_multicast_write(ctx);
+        res = process_multicast_write(ctx);
+        if (res && op_res)
+            *op_res = RMC_ERROR;
+        return res;
     }
 
     // Is s_ind within our connection vector?
diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index dfc1713..f8c6770 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -301,6 +301,8 @@ int rmc_sub_write(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         if (res) {
             RMC_LOG_INDEX_INFO(s_ind, "Failed to complete connection: %s", strerror(errno));
             rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);
+            if (op_res)
+                *op_res = RMC_ERROR;
             return res;
         }
         if (ctx->subscription_complete_cb) {
-- 
2.43.0


From b87995781772e8fbab6b8e039b5183086168f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:19 +0000
Subject: [PATCH 51/54] fix: the Wireshark dissector shows the bytes of the
 announced control address in reverse

---
 rmc_wireshark_plugin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rmc_wireshark_plugin.c b/rmc_wireshark_plugin.c
index 4c9acc6..39ab360 100644
--- a/rmc_wireshark_plugin.c
+++ b/rmc_wireshark_plugin.c
@@ -182,8 +182,13 @@ static int dissect_packet_offset(tvbuff_t *tvb, packet_info *pinfo, proto_tree *
         src_addr[0] = '*';
         address_to_str_buf(&pinfo->src, src_addr + 1, sizeof(src_addr)-2);
         ip = src_addr;
-    } else
-        ip = tvb_ip_to_str(tvb, offset);
+    } else {
+        // tvb_ip_to_str() expects network byte order.
+        g_snprintf(src_addr, sizeof(src_addr), "%u.%u.%u.%u",
+                   (ip_numeric >> 24) & 0xFF, (ip_numeric >> 16) & 0xFF,
+                   (ip_numeric >> 8) & 0xFF, ip_numeric & 0xFF);
+        ip = src_addr;
+    }
 
     proto_tree_add_item(rmc_tree, hf_rmc_control_ip, tvb, offset, 4, ENC_LITTLE_ENDIAN);
     offset += 4;
-- 
2.43.0


From 75a83421cf74da494795418e6a052e17a476e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:19 +0000
Subject: [PATCH 52/54] fix: the Wireshark dissector loses acks and control
 messages that are split across TCP segments

---
 rmc_wireshark_plugin.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/rmc_wireshark_plugin.c b/rmc_wireshark_plugin.c
index 39ab360..17c4546 100644
--- a/rmc_wireshark_plugin.c
+++ b/rmc_wireshark_plugin.c
@@ -80,15 +80,16 @@ static gint dissect_rmc_ack_interval(proto_tree* tree, tvbuff_t *tvb, gint offse
     proto_item *ti = 0;
     proto_tree *rmc_ack_intv_tree = 0;
 
-    ti = proto_tree_add_item(tree, proto_rmc_control, tvb, offset, -1, ENC_NA);
-    rmc_ack_intv_tree = proto_item_add_subtree(ti, ett_rmc_ack_intv);
-
     // Do we have header data?
     if (tvb_captured_length_remaining(tvb, offset) < 16) {
 //        printf("Partial ack interval. Wanted [16]. Got [%d]\n", tvb_captured_length_remaining(tvb, offset));
         return 0;
     }
 
+    proto_tree_add_item(tree, hf_rmc_control_command, tvb, offset - 1, 1, ENC_NA);
+    ti = proto_tree_add_item(tree, proto_rmc_control, tvb, offset, -1, ENC_NA);
+    rmc_ack_intv_tree = proto_item_add_subtree(ti, ett_rmc_ack_intv);
+
     *first_pid = tvb_get_guint64(tvb, offset, ENC_LITTLE_ENDIAN);
     proto_tree_add_item(rmc_ack_intv_tree, hf_rmc_ack_intv_first_pid, tvb, offset, 8, ENC_LITTLE_ENDIAN);
     offset += 8;
@@ -107,8 +108,6 @@ static gint dissect_rmc_ctl_msg(proto_tree* tree, tvbuff_t *tvb, gint offset,
     u_int16_t payload_len = 0;
 
     *res_payload_len = 0;
-    ti = proto_tree_add_item(tree, proto_rmc_control, tvb, offset, -1, ENC_NA);
-    rmc_ctl_msg_tree = proto_item_add_subtree(ti, ett_rmc_ctl_msg);
 
     // Do we have header data?
     if (tvb_captured_length_remaining(tvb, offset) < 2) {
@@ -122,6 +121,10 @@ static gint dissect_rmc_ctl_msg(proto_tree* tree, tvbuff_t *tvb, gint offset,
         return 0;
     }
 
+    proto_tree_add_item(tree, hf_rmc_control_command, tvb, offset - 1, 1, ENC_NA);
+    ti = proto_tree_add_item(tree, proto_rmc_control, tvb, offset, -1, ENC_NA);
+    rmc_ctl_msg_tree = proto_item_add_subtree(ti, ett_rmc_ctl_msg);
+
     proto_tree_add_item(rmc_ctl_msg_tree, hf_rmc_ctl_msg_payload_len, tvb, offset, 2, ENC_LITTLE_ENDIAN);
     offset += 2;
     proto_tree_add_item(rmc_ctl_msg_tree, hf_rmc_ctl_msg_payload, tvb, offset, payload_len, ENC_NA);
@@ -276,8 +279,13 @@ static int dissect_rmc_tcp(tvbuff_t *tvb, packet_info *pinfo, proto_tree *tree,
         command = tvb_get_guint8(tvb, offset);
         switch(command) {
         case RMC_CMD_ACK_INTERVAL:
-            proto_tree_add_item(rmc_tree, hf_rmc_control_command, tvb, offset, 1, ENC_NA);
             res = dissect_rmc_ack_interval(rmc_tree, tvb, offset + 1, &first_pid, &last_pid);
+            if (!res) {
+                // Partial command. Continue with the next segment.
+                pinfo->desegment_offset = offset;
+                pinfo->desegment_len = DESEGMENT_ONE_MORE_SEGMENT;
+                break;
+            }
             cval = col_get_text(pinfo->cinfo, COL_INFO);
             if (!cval || !*cval)
                 col_add_fstr(pinfo->cinfo,
@@ -297,8 +305,13 @@ static int dissect_rmc_tcp(tvbuff_t *tvb, packet_info *pinfo, proto_tree *tree,
             break;
 
         case RMC_CMD_CONTROL_MESSAGE:
-            proto_tree_add_item(rmc_tree, hf_rmc_control_command, tvb, offset, 1, ENC_NA);
             res = dissect_rmc_ctl_msg(rmc_tree, tvb, offset + 1, &payload_len);
+            if (!res) {
+                // Partial command. Continue with the next segment.
+                pinfo->desegment_offset = offset;
+                pinfo->desegment_len = DESEGMENT_ONE_MORE_SEGMENT;
+                break;
+            }
             cval = col_get_text(pinfo->cinfo, COL_INFO);
             if (!cval || !*cval)
                 col_add_fstr(pinfo->cinfo,
-- 
2.43.0


From 4d6e28d463617ad3c3b35e22714c8744bc9a3210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:19 +0000
Subject: [PATCH 53/54] fix: the Wireshark dissector has no name for the
 control message command

---
 rmc_wireshark_plugin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_wireshark_plugin.c b/rmc_wireshark_plugin.c
index 17c4546..84e2582 100644
--- a/rmc_wireshark_plugin.c
+++ b/rmc_wireshark_plugin.c
@@ -355,6 +355,7 @@ void plugin_register_rmc(void)
     static const value_string command_names[] = {
         { 1, "Resend packet" },
         { 2, "Ack" },
+        { 3, "Control message" },
         { 0, NULL}
     };
 
-- 
2.43.0


From 72305f88d7873205e86aab29f3476970927d06ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:46 +0000
Subject: [PATCH 54/54] fix: resetting the log file to its default kept the
 colours chosen for the former one

---
 rmc_log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_log.c b/rmc_log.c
index b4fcee3..4d27f34 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -69,8 +69,8 @@ void rmc_log_set_file(FILE* file)
 
     // If necessary, recalculate if we should use colors or not.
 
-    if (_rmc_log_use_color_calculated && _rmc_log_file) {
-        if (isatty(fileno(_rmc_log_file)))
+    if (_rmc_log_use_color_calculated) {
+        if (isatty(fileno(_rmc_log_file?_rmc_log_file:stdout)))
             _rmc_log_use_color = 1;
         else
             _rmc_log_use_color = 0;
-- 
2.43.0

