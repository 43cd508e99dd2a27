From 7f7bff76167a52377929985643e96b2f2503e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 01/44] sim hook: allow a simulator build (RMC_SIM) to shrink
 the packet size

---
 reliable_multicast.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reliable_multicast.h b/reliable_multicast.h
index c590b85..c1a669a 100644
--- a/reliable_multicast.h
+++ b/reliable_multicast.h
@@ -49,6 +49,18 @@ typedef uint16_t rmc_poll_action_t;
 #define RMC_MAX_PACKET 0xFF78
 #define RMC_MAX_PAYLOAD 0xFF20
 
+#ifdef RMC_SIM
+// Deterministic simulation only. Never defined in a regular build.
+// Lets the simulator shrink the packet size, and with it the per-connection
+// circular buffers, so that short runs reach wrapped and full buffers.
+#ifdef RMC_SIM_MAX_PACKET
+#undef RMC_MAX_PACKET
+#undef RMC_MAX_PAYLOAD
+#define RMC_MAX_PACKET (RMC_SIM_MAX_PACKET)
+#define RMC_MAX_PAYLOAD ((RMC_SIM_MAX_PACKET) - 0x58)
+#endif
+#endif
+
 #define RMC_POLLREAD 0x01
 #define RMC_POLLWRITE 0x02
 
-- 
2.43.0


From c3f149cfe38f66ffb9d8da43150a365347bbe024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 02/44] fix: circ_buf_alloc left stop_ind at the buffer size
 when an allocation ended there

The next one-byte allocation then got an empty first segment pointing one
byte past the buffer, and callers write that byte unconditionally.
---
 circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..f1395f5 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -77,7 +77,7 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment1_len = len;
         *segment2 = 0;
         *segment2_len = 0;
-        circ_buf->stop_ind += len;
+        circ_buf->stop_ind = (circ_buf->stop_ind + len) % buf_size;
         return 0;
     }
 
-- 
2.43.0


From 01b0a30ef83735abe6def543269890377487ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 03/44] fix: circ_buf_trim cut the wrong amount when the data
 wraps

With wrapped data and stop_ind above target_len, stop_ind was moved back
below zero.
---
 circular_buffer.c | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index f1395f5..24f15fc 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -108,23 +108,8 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     if (in_use <= target_len)
         return;
 
-    // target_len: 1
-    // Before
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  C  D  -
-    // Start/stop  S           s
-    //
-    // After
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  -  -  -
-    // Start/stop  S  s
-    //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // The data may wrap, in which case stop_ind may have to move back to
+    // the end of the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From bf9877c5089c5de16481128607784f9bb3f1792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 04/44] fix: circ_buf_read_offset read the wrapped part at the
 wrong place

The part after the wrap always starts at the start of the buffer; the
offset was already accounted for in start_ind.
---
 circular_buffer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 24f15fc..adc7cf8 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -221,14 +221,10 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
 
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From 95e1ab6b4e268fe090ba79118597879ed635b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 05/44] fix: announcements were sent from a dead stack frame
 and never freed

The payload of the announcement queued by rmc_pub_timeout_process() lived
on its stack while the packet is sent later by rmc_pub_write(). Give it a
payload of its own. Packets with pid 0 are not acknowledged, so free them
(and their payload) once they have been sent.
---
 pub.c             | 27 ++++++++++++++++++++++++++-
 rmc_internal.h    | 11 +++++++++++
 rmc_pub.h         |  7 +++++++
 rmc_pub_packet.c  | 32 ++++++++++++++++++++++++++------
 rmc_pub_timeout.c | 14 +++++++++++++-
 rmc_pub_write.c   |  4 ++++
 6 files changed, 87 insertions(+), 8 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..d49b72f 100644
--- a/pub.c
+++ b/pub.c
@@ -204,8 +204,12 @@ void pub_packet_sent(pub_context_t* ctx,
 
     // Do not set packet up for acknowledgement if pid is 0, which
     // means that it should not be acked at all by the subscriber.
-    if (!pack->pid)
+    // The caller is to free it with pub_packet_free_unreferenced().
+    if (!pack->pid) {
+        (*ctx->queued.free_node)(pack->parent_node, ctx->queued.user_data);
+        pack->parent_node = 0;
         return;
+    }
 
     // Insert existing pack->parent list_node_t struct into
     // the context's inflight packets.
@@ -233,6 +237,27 @@ void pub_packet_sent(pub_context_t* ctx,
 }
 
 
+// Free a packet that has been sent, but which no subscriber is to
+// acknowledge.
+void pub_packet_free_unreferenced(pub_packet_t* pack,
+                                  void (*pub_payload_free)(void* payload,
+                                                           payload_len_t payload_len,
+                                                           user_data_t user_data))
+{
+    assert(pack);
+    assert(!pack->ref_count);
+
+    if (pack->parent_node)
+        pub_packet_list_delete(pack->parent_node);
+
+    if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    _free_pending_packet(pack);
+}
+
 void pub_packet_ack(pub_subscriber_t* sub,
                     packet_id_t pid,
                     void (*pub_payload_free)(void* payload,
diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..ca31252 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -380,6 +380,17 @@ typedef struct rmc_conn_command_dispatch {
 
 
 
+// As rmc_pub_queue_packet(), with user data to attach to the packet.
+extern int _rmc_pub_queue_packet(struct rmc_pub_context* ctx,
+                                 void* payload,
+                                 payload_len_t payload_len,
+                                 uint8_t announce_flag,
+                                 user_data_t pkg_user_data);
+
+// Free a packet that has been sent, but which no subscriber is to
+// acknowledge.
+extern void rmc_pub_packet_free_unreferenced(struct rmc_pub_context* ctx, pub_packet_t* pack);
+
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..8abb719 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -136,6 +136,13 @@ extern void pub_packet_sent(pub_context_t* ctx,
                             pub_packet_t* ppack,
                             usec_timestamp_t send_ts);
 
+// Free a packet that has been sent, but which no subscriber is to
+// acknowledge.
+extern void pub_packet_free_unreferenced(pub_packet_t* pack,
+                                         void (*pub_payload_free)(void* payload,
+                                                                  payload_len_t payload_len,
+                                                                  user_data_t user_data));
+
 extern void pub_packet_ack(pub_subscriber_t* sub,
                            packet_id_t pid,
                            // Called if this was the last subscriber acking the packet
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..72c8b9f 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -14,10 +14,11 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
-                         void* payload,
-                         payload_len_t payload_len,
-                         uint8_t announce_flag)
+int _rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+                          void* payload,
+                          payload_len_t payload_len,
+                          uint8_t announce_flag,
+                          user_data_t pkg_user_data)
 {
     pub_packet_t *pack;
 
@@ -42,9 +43,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
     if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
@@ -69,6 +70,15 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
 }
 
 
+int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+                         void* payload,
+                         payload_len_t payload_len,
+                         uint8_t announce_flag)
+{
+    return _rmc_pub_queue_packet(ctx, payload, payload_len, announce_flag, user_data_nil());
+}
+
+
 uint32_t rmc_pub_queue_length(rmc_pub_context_t* ctx)
 {
     if (!ctx)
@@ -92,6 +102,16 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+void rmc_pub_packet_free_unreferenced(rmc_pub_context_t* ctx, pub_packet_t* pack)
+{
+    // The payload of announcements queued by rmc_pub_timeout_process() is
+    // not the application's to free. They are marked by their user data.
+    if (pack->pkg_user_data.ptr == pack->payload || !ctx->payload_free)
+        pub_packet_free_unreferenced(pack, _payload_free_generic);
+    else
+        pub_packet_free_unreferenced(pack, ctx->payload_free);
+}
+
 int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
 {
     pub_packet_ack(&ctx->subscribers[conn->connection_index],
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..396e680 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -11,6 +11,7 @@
 #include "rmc_log.h"
 #include <errno.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <arpa/inet.h>
 #include <string.h>
 
@@ -145,8 +146,19 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
             len = sizeof(buffer);
 
         if (send_announce) {
+            // The packet is sent later on, so it needs a payload of its own.
+            // Its user data tells that it is ours to free.
+            void* payload = malloc(len?len:1);
+
+            if (!payload) {
+                RMC_LOG_FATAL("Could not allocate %d announce bytes", len);
+                exit(255);
+            }
+            memcpy(payload, buffer, len);
+
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            if (_rmc_pub_queue_packet(ctx, payload, len, 1, user_data_ptr(payload)))
+                free(payload);
         }
 
         // Setup next announce.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..fdad335 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -106,6 +106,10 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Announcements are not acknowledged. We are done with them.
+    if (!pack->pid)
+        rmc_pub_packet_free_unreferenced(ctx, pack);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 9f5d394f289a95ba56c6306c75c6f3825baa03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 06/44] fix: packets sent without any subscribers were never
 released

They stayed in the inflight list of the context for good, leaking their
payload and, with throttling, suspending traffic forever.
---
 rmc_pub_write.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index fdad335..20fb18b 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -106,8 +106,9 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
-    // Announcements are not acknowledged. We are done with them.
-    if (!pack->pid)
+    // Nobody will acknowledge an announcement, or a packet sent when there
+    // were no subscribers. We are done with them.
+    if (!pack->ref_count)
         rmc_pub_packet_free_unreferenced(ctx, pack);
 
     res = 0;
-- 
2.43.0


From e1bc483ae1b2983c03b2c7668dd1f903ca425641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 07/44] fix: pub_get_timed_out_packets started at the newest
 packet

The inflight list has its oldest packet at the tail, so as long as packets
kept being sent no packet was found to have timed out.
---
 pub.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pub.c b/pub.c
index d49b72f..2d2eef4 100644
--- a/pub.c
+++ b/pub.c
@@ -347,13 +347,13 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
-    // Traverse all inflight packets for subscriber until we find one that is not timed out.x
+    // Traverse all inflight packets for subscriber, oldest first, until we find one that is not timed out.
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From 2de91ea450e968c5ef910bbc25dc99c4f86b93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 08/44] fix: one stalled subscriber stopped retransmission to
 all others

rmc_pub_timeout_process() gave up at the first subscriber whose control
channel buffer was full.
---
 rmc_pub_timeout.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 396e680..732c0c7 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -177,17 +177,17 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        // A subscriber that is not reading its control channel must not
+        // keep us from resending packets to the other ones.
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From c973902af20d7d790a07166035e662eb03590c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 09/44] fix: publisher callbacks got a byte-swapped address and
 port 0

remote_address is in host format and remote_port was never set for
accepted connections.
---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..9a2d4ac 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -373,7 +373,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From 1ef3c900cff23a84256a40be28717f4df6bbe20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 10/44] fix: a failed accept leaked the connection or stopped
 all accepting

If TCP_NODELAY could not be set the descriptor was used as an index, so the
connection was neither closed nor its slot released. And after any failure
the listen descriptor was not re-armed.
---
 rmc_connection.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 9a2d4ac..f4ab2fa 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -347,15 +347,20 @@ int rmc_conn_process_accept(int listen_descriptor,
     // Find a free slot.
     c_ind = _get_free_slot(conn_vec);
 
-    if (c_ind == RMC_NIL_INDEX)
-        return ENOMEM;
+    if (c_ind == RMC_NIL_INDEX) {
+        sock_err = ENOMEM;
+        goto rearm;
+    }
 
     conn_vec->connections[c_ind].descriptor = accept(listen_descriptor,
                                                       (struct sockaddr*) &src_addr,
                                                       &addr_len);
 
-    if (conn_vec->connections[c_ind].descriptor == -1)
-        return errno;
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        sock_err = errno;
+        _reset_max_connection_ind(conn_vec);
+        goto rearm;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -368,8 +373,10 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
-        return sock_err;
+        close(conn_vec->connections[c_ind].descriptor);
+        rmc_conn_reset_connection(&conn_vec->connections[c_ind], c_ind);
+        _reset_max_connection_ind(conn_vec);
+        goto rearm;
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
@@ -383,6 +390,13 @@ int rmc_conn_process_accept(int listen_descriptor,
                               c_ind,
                               conn_vec->connections[c_ind].action);
 
+    if (result_index)
+        *result_index = c_ind;
+
+    conn_vec->active_connection_count++;
+
+rearm:
+    // Keep accepting connections, even if we could not accept this one.
     if (conn_vec->poll_modify)
         (*conn_vec->poll_modify)(conn_vec->user_data,
                                  listen_descriptor,
@@ -390,11 +404,7 @@ int rmc_conn_process_accept(int listen_descriptor,
                                  RMC_POLLREAD,
                                  RMC_POLLREAD);
 
-    if (result_index)
-        *result_index = c_ind;
-
-    conn_vec->active_connection_count++;
-    return 0;
+    return sock_err;
 }
 
 
-- 
2.43.0


From d1eb4d6e6a355d77bf23567d8081f342d81244f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 11/44] fix: a connection that failed to complete was removed
 from polling twice

rmc_conn_close_connection() calls poll_remove already.
---
 rmc_connection.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index f4ab2fa..13bd324 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
-- 
2.43.0


From 914b59df943ffa748c068c728b54256b9e32b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 12/44] fix: a connect() that succeeds at once was reported as
 failed

errno is left over from an earlier call when connect() returns 0.
---
 rmc_connection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 13bd324..c18507b 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -296,9 +296,9 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
         return 0; // This is not an error, just a failed subscriber setup.
     }
 
-    // Nil out the in progress error.
-    res = (errno == EINPROGRESS)?0:errno;
-
+    // errno is only set if connect() failed. The connection may as well have
+    // been setup right away.
+    res = 0;
 
     conn_vec->connections[c_ind].remote_address = address;
     conn_vec->connections[c_ind].remote_port = port;
-- 
2.43.0


From 47462ad9c33d779a793431a88bcf5e96998302cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 13/44] fix: control message that wraps in the write buffer was
 sent with garbage

---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From b18162648ecef99a658d4a22841ccab7b659789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 14/44] fix: publisher control message callback was never
 initialized

---
 rmc_pub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..e29c640 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -128,7 +128,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
 
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From ad4174e303216c53c084ddacfb8ce0bb0c943d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 15/44] fix: reading from the control channel stopped polling
 for pending writes

---
 rmc_sub_read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..1c4e424 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -437,12 +437,13 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 rearm:
 
     // Read poll is always active. Callback to re-arm.
+    // We may also have acks or control messages that wait to be written.
     if (ctx->conn_vec.poll_modify) {
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From 35a42b744db3cd1a844af5ce83930fc68c2e96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 16/44] fix: closing an unfinished or unknown subscription used
 uninitialized memory

---
 rmc_sub_context.c | 5 +++++
 rmc_sub_read.c    | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..aa6dc80 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -123,6 +124,10 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
 
+    // A connection may be closed before it has been completed.
+    for(ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
+
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 1c4e424..aaf743a 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -356,6 +356,9 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
+    if (!rmc_conn_find_by_index(&ctx->conn_vec, s_ind))
+        return ENOTCONN;
+
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
     sub_reset_publisher(&ctx->publishers[s_ind],
-- 
2.43.0


From 8ee5285c2ac2535338ac25587c65cef94d611955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 17/44] fix: closing a subscription called payload_free with
 the wrong user data

---
 rmc_sub_read.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index aaf743a..3d3573d 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -354,6 +354,8 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    sub_packet_node_t* node = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
     if (!rmc_conn_find_by_index(&ctx->conn_vec, s_ind))
@@ -361,6 +363,13 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
+    // payload_free is to get the user data of the context, just as it does
+    // when called by rmc_sub_packet_dispatched().
+    for (node = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
+         node;
+         node = sub_packet_list_next(node))
+        node->data->pkg_user_data = ctx->user_data;
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 50669f4a5a160edb34e4826403b7c2b1be835741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 18/44] fix: announcements seen while connecting set up
 duplicate subscriptions

---
 rmc_sub_read.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 3d3573d..c79b9dd 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -28,6 +28,9 @@ static int decode_unsubscribed_multicast(rmc_sub_context_t* ctx,
         return 0;
     }
 
+    // A subscription is already being set up.
+    if (rmc_conn_find_by_address(&ctx->conn_vec, pack_hdr->listen_ip, pack_hdr->listen_port))
+        return 0;
 
     if (pack_hdr->node_id == ctx->node_id) {
         RMC_LOG_COMMENT("Processing announce from self.");
-- 
2.43.0


From 192b174a3aed27e28094070c6ff8219360b8127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 19/44] fix: acks could be sent too late, since the ack list
 was not sorted on age

---
 rmc_sub_packet.c | 21 +++++++++++----------
 sub.c            | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..0468f7a 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,27 +37,28 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = &ctx->publishers[index];
+    int first_unacked = !sub_oldest_unacknowledged_packet(pub);
 
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
-    // The list is sorted on oldest unacknowledged packet.
+    // The list is sorted on oldest unacknowledged packet, which
+    // has been recorded by sub_packet_received() above.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (first_unacked)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
diff --git a/sub.c b/sub.c
index 34d0e95..61c815d 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,20 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
-    if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
+    if (!pub)
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // Intervals are sorted on pid, not on when they were received.
+    for (inode = sub_pid_interval_list_head(&pub->received_interval);
+         inode;
+         inode = sub_pid_interval_list_next(inode))
+        if (!oldest || inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From 20ca1fef77d7fbd236230f15c90f7d2af75a6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 20/44] fix: an ack that did not fit in the write buffer was
 lost and held up all others

---
 rmc_sub_timeout.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..0044c49 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    int result = 0;
 
     if (!ctx)
         return EINVAL;
@@ -48,16 +49,19 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     //
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
-        sub_pid_interval_t pid_intv;
-
+        rmc_index_node_t *next = rmc_index_list_next(inode);
+        sub_pid_interval_node_t* intv = 0;
+        int res = 0;
 
         // If it is not yet time to send acks for this publisher, then
-        // break out of loop and return.
+        // go on with the next one. The list is not sorted any longer if we
+        // only managed to send some of the acks to a publisher.
         if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {
             RMC_LOG_INDEX_COMMENT(inode->data,
-                                  "%ld usec until timeout - returning",
+                                  "%ld usec until timeout",
                                   sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout - current_ts);
-            break;
+            inode = next;
+            continue;
         }
 
         RMC_LOG_INDEX_COMMENT(inode->data,
@@ -66,26 +70,30 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
-        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
+        // Acks that cannot be sent now are kept, to be sent by a later call.
+        while((intv = sub_pid_interval_list_head(&pub->received_interval))) {
+            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &intv->data);
             if (res) {
                 RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+                result = res;
+                break;
             }
+            sub_pid_interval_list_delete(intv);
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        if (!res)
+            rmc_index_list_delete(inode);
+
+        inode = next;
     }
 
-    return 0;
+    return result;
 }
 
 
 int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
 {
-    sub_publisher_t* pub = 0;
+    rmc_index_node_t *inode = 0;
 
     if (!ctx || !result)
         return EINVAL;
@@ -97,8 +105,16 @@ int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
         return 0;
     }
 
-    pub = &ctx->publishers[rmc_index_list_head(&ctx->pub_ack_list)->data];
+    *result = -1;
+    for (inode = rmc_index_list_head(&ctx->pub_ack_list);
+         inode;
+         inode = rmc_index_list_next(inode)) {
+        sub_publisher_t* pub = &ctx->publishers[inode->data];
+        usec_timestamp_t timeout = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
+
+        if (*result == -1 || timeout < *result)
+            *result = timeout;
+    }
 
-    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
     return 0;
 }
-- 
2.43.0


From 9bce1e57c694c3a7233c94c52ae3cb780c77eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 21/44] fix: a closed subscription kept its place in the ack
 list

---
 rmc_sub_read.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index c79b9dd..327a300 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -358,6 +358,7 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     sub_packet_node_t* node = 0;
+    rmc_index_node_t* inode = 0;
 
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
@@ -366,6 +367,16 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
+    // There is nobody left to send acks to.
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode) {
+        rmc_index_node_t* next = rmc_index_list_next(inode);
+
+        if (inode->data == s_ind)
+            rmc_index_list_delete(inode);
+        inode = next;
+    }
+
     // payload_free is to get the user data of the context, just as it does
     // when called by rmc_sub_packet_dispatched().
     for (node = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
-- 
2.43.0


From 880421bc28a403b9d0137cf92dad61a334d87bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 22/44] fix: rmc_sub_packet_dispatched leaked the packet
 descriptor

---
 rmc_sub_packet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 0468f7a..8eb10bd 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -119,6 +119,8 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
     else
         free(pack->payload);
 
+    // pack was allocated by sub_packet_received().
+    free(pack);
     return 0;
 }
 
-- 
2.43.0


From 6c325eb9ee3205f9a11c50e369f4a6d230f2f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 23/44] fix: rmc_sub_deactivate_context leaked all packets
 ready to be dispatched

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index aa6dc80..f928290 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -236,7 +236,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 8cc189a250eb6bc78201cea615e227a30e4000a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 24/44] fix: rmc_sub_deactivate_context closed a polled
 descriptor, or one it did not have

---
 rmc_sub_context.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index f928290..d91e498 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -242,15 +242,21 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    // We may not be active.
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
 
-    ctx->mcast_recv_descriptor = -1;
+        close(ctx->mcast_recv_descriptor);
+        ctx->mcast_recv_descriptor = -1;
+    }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
+    if (max == RMC_NIL_INDEX)
+        return 0;
+
     for(ind = 0; ind <= max; ++ind) {
         rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                         ind);
-- 
2.43.0


From 31f3e24c3780a910c596554a8ef78d09ef0c8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 25/44] fix: rmc_pub_deactivate_context removed and closed
 descriptors it did not have

---
 rmc_pub_context.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e29c640..9787979 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -271,8 +271,8 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         return EINVAL;
 
     // Callback to remnove listen and multicast descriptor
-    // from caller's poll vector.
-    if (ctx->conn_vec.poll_remove) {
+    // from caller's poll vector. We may not be active.
+    if (ctx->conn_vec.poll_remove && ctx->mcast_send_descriptor != -1) {
         (*ctx->conn_vec.poll_remove)(ctx->user_data,
                                      ctx->mcast_send_descriptor,
                                      RMC_MULTICAST_INDEX);
@@ -296,8 +296,10 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    close(ctx->mcast_send_descriptor);
-    close(ctx->listen_descriptor);
+    if (ctx->mcast_send_descriptor != -1) {
+        close(ctx->mcast_send_descriptor);
+        close(ctx->listen_descriptor);
+    }
 
     ctx->mcast_send_descriptor = -1;
     ctx->listen_descriptor = -1;
-- 
2.43.0


From 2627afb1ba2e877be794dddeb36be62e06372549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 26/44] fix: rmc_sub_activate_context leaked the socket when it
 could not be bound

---
 rmc_sub_context.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d91e498..709b290 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -140,6 +140,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     struct ip_mreq mreq;
     int on_flag = 1;
     int sz = 1024*1024;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -179,7 +180,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
@@ -215,13 +216,15 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     return 0;
 
 error:
+    // Return the original error, no matter what close() does.
+    res = errno;
     if (ctx->mcast_recv_descriptor != -1) {
         close(ctx->mcast_recv_descriptor);
         ctx->mcast_recv_descriptor = -1;
     }
 
 
-    return errno;
+    return res;
 }
 
 
-- 
2.43.0


From 912ee753833387ec437c9397e02bb9f2df220c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 27/44] fix: deleting a context leaked its queued packets and
 its peers

---
 rmc_pub_context.c | 6 ++++++
 rmc_sub_context.c | 1 +
 2 files changed, 7 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 9787979..9dc60de 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -309,11 +309,17 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
+    pub_packet_t* pack = 0;
 
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    // Packets still queued will never be sent.
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
+        rmc_pub_packet_free_unreferenced(ctx, pack);
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 709b290..d208367 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -280,6 +280,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
         return EINVAL;
     rmc_sub_deactivate_context(ctx);
 
+    free(ctx->publishers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From 07c62d2a04d8fce3837c3624f8f74770b6da1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 28/44] fix: activating an active publisher leaked its sockets

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 9dc60de..0445458 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -162,6 +162,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    if (ctx->mcast_send_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From 12dda53881d8e065921ccbf7dc42330a53e7f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 29/44] fix: packets queued before activation were not sent

---
 rmc_pub_context.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 0445458..2d82e30 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -240,7 +240,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->mcast_send_descriptor,
                                   RMC_MULTICAST_INDEX,
-                                  RMC_POLLREAD);
+                                  // Packets may have been queued already.
+                                  RMC_POLLREAD |
+                                  (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));
 
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->listen_descriptor,
-- 
2.43.0


From 63faf32ddce1f938f9a252895c6ad5402fea3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 30/44] fix: a failed multicast send stopped polling for
 further sends

---
 rmc_pub_write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 20fb18b..3feefeb 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -94,7 +94,8 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
         if ( errno != EAGAIN && errno != EWOULDBLOCK) {
             RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX,
                                   "sendmsg(): %d/%s", errno, strerror(errno));
-            return errno;
+            res = errno;
+            goto rearm;
         }
 
         // We are ok with an EAGAIN error since we can retry later to
-- 
2.43.0


From b9bf5fe513df720ef56fcadc03f513b11e797228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 31/44] fix: an ack for a huge interval kept the publisher busy
 forever

---
 rmc_pub_read.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..877ec1b 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -22,7 +22,7 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
 {
     cmd_ack_interval_t ack;
     rmc_pub_context_t* ctx = (rmc_pub_context_t*) user_data.ptr;
-    packet_id_t pid = 0;
+    pub_packet_node_t* node = 0;
     // Do we have enough data?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)
         return EAGAIN;
@@ -37,8 +37,16 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
-        rmc_pub_packet_ack(ctx, conn, pid) ;
+    // Go through the packets we have sent, oldest first, since the interval
+    // can be of any size.
+    node = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);
+    while(node && node->data->pid <= ack.last_pid) {
+        packet_id_t pid = node->data->pid;
+
+        node = pub_packet_list_prev(node);
+        if (pid >= ack.first_pid)
+            rmc_pub_packet_ack(ctx, conn, pid);
+    }
     return 0;
 }
 
-- 
2.43.0


From 3e3d29dc02b74dd8836915345a16dab0cb6dd389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 32/44] fix: traffic stayed suspended for ever when a
 subscriber disconnected

---
 rmc_internal.h   |  3 +++
 rmc_pub_packet.c | 16 ++++++++++------
 rmc_pub_read.c   |  3 +++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index ca31252..dcf90db 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -391,6 +391,9 @@ extern int _rmc_pub_queue_packet(struct rmc_pub_context* ctx,
 // acknowledge.
 extern void rmc_pub_packet_free_unreferenced(struct rmc_pub_context* ctx, pub_packet_t* pack);
 
+// Resume suspended traffic if there are few enough packets in flight to do so.
+extern void rmc_pub_check_traffic_resume(struct rmc_pub_context* ctx);
+
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 72c8b9f..e091be3 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -112,13 +112,8 @@ void rmc_pub_packet_free_unreferenced(rmc_pub_context_t* ctx, pub_packet_t* pack
         pub_packet_free_unreferenced(pack, ctx->payload_free);
 }
 
-int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
+void rmc_pub_check_traffic_resume(rmc_pub_context_t* ctx)
 {
-    pub_packet_ack(&ctx->subscribers[conn->connection_index],
-                   pid,
-                   // packet free function invoked when the last subscriber acks the packet.
-                   ctx->payload_free?ctx->payload_free:_payload_free_generic);
-
     // If we currently have suspended traffic,
     // check if we are to resume it.
     if (ctx->traffic_suspended) {
@@ -130,6 +125,15 @@ int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id
                           pub_get_unacknowledged_packet_count(&ctx->pub_ctx),
                           ctx->traffic_resume_threshold);
     }
+}
+
+int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
+{
+    pub_packet_ack(&ctx->subscribers[conn->connection_index],
+                   pid,
+                   // packet free function invoked when the last subscriber acks the packet.
+                   ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
+    rmc_pub_check_traffic_resume(ctx);
     return 0;
 }
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 877ec1b..d0e56d4 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -121,6 +121,9 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // The packets that the subscriber never acknowledged are gone.
+    rmc_pub_check_traffic_resume(ctx);
     return 0;
 }
 
-- 
2.43.0


From 04fa7868ce31413f3a60bd7b58963460318c77ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 33/44] fix: changing the throttling thresholds did not resume
 suspended traffic

---
 rmc_pub_context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 2d82e30..ac3b8ce 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -500,5 +500,12 @@ int rmc_pub_throttling(rmc_pub_context_t* ctx,
     }
     ctx->traffic_suspend_threshold = suspend_threshold;
     ctx->traffic_resume_threshold = resume_threshold;
+
+    // Traffic may be suspended according to the old thresholds.
+    if (!suspend_threshold)
+        ctx->traffic_suspended = 0;
+    else
+        rmc_pub_check_traffic_resume(ctx);
+
     return 0;
 }
-- 
2.43.0


From 1321060b171ecac3af455da678f91f7c0984bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 34/44] fix: queueing a packet before activation modified
 polling of descriptor -1

---
 rmc_pub_packet.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index e091be3..2d724d2 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -47,7 +47,9 @@ int _rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // There is nothing to poll before the context has been activated, which will
+    // pick up the packets queued so far.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
-- 
2.43.0


From e828b6595892e5c3432c6be8bf76e841a3876244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 35/44] fix: reading the listen index of an inactive publisher
 modified polling of descriptor -1

---
 rmc_pub_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index d0e56d4..85af020 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -149,6 +149,12 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
     if (s_ind == RMC_LISTEN_INDEX)  {
         rmc_connection_t* conn = 0;
+
+        if (ctx->listen_descriptor == -1) {
+            *op_res = RMC_ERROR;
+            return ENOTCONN;
+        }
+
         res = rmc_conn_process_accept(ctx->listen_descriptor, &ctx->conn_vec, &s_ind);
 
 
-- 
2.43.0


From 991342b26ed52de34f3dd8427ae0a03e651d746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 36/44] fix: asking a null publisher context what is pending
 dereferenced it

---
 rmc_pub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 3feefeb..d441ed0 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -321,7 +321,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From b2ec9cdd20ddca0388f7d53a58198802805fd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 37/44] fix: reading the multicast socket of a publisher could
 block forever

---
 rmc_pub_read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 85af020..43a8fd5 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -193,10 +193,11 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
         errno = 0;
         len = recvfrom(ctx->mcast_send_descriptor,
-                       &throw_away, 1, 0,
+                       &throw_away, 1, MSG_DONTWAIT,
                        (struct sockaddr*) &src_addr, &addr_len);
 
-        if (len == -1) {
+        // A datagram reported by poll may be discarded when it is read.
+        if (len == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
             RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX, "recvfrom(): %s", strerror(errno));
             *op_res = RMC_ERROR;
             return errno;
-- 
2.43.0


From d76b954a669ffa5dde1447ca1e73a8ea1c9dc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 38/44] fix: reading the multicast socket of a publisher lost
 its write interest

---
 rmc_pub_read.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 43a8fd5..abaff47 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -198,18 +198,22 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
         // A datagram reported by poll may be discarded when it is read.
         if (len == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
-            RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX, "recvfrom(): %s", strerror(errno));
+            res = errno;
+            RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX, "recvfrom(): %s", strerror(res));
             *op_res = RMC_ERROR;
-            return errno;
+        } else {
+            RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
         }
-        RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+
+        // Packets queued before the context was activated may still wait to be sent.
         if (ctx->conn_vec.poll_modify)
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
                                          RMC_MULTICAST_INDEX,
                                          RMC_POLLREAD,
-                                         RMC_POLLREAD);
-        return 0;
+                                         RMC_POLLREAD |
+                                         (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));
+        return res;
     }
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
-- 
2.43.0


From c8a50a0ebf304a4f3b3ce65a67efddf3555f2352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 39/44] fix: user data set after initialisation did not reach
 the poll callbacks of connections

---
 rmc_pub_context.c | 1 +
 rmc_sub_context.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index ac3b8ce..a405970 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -449,6 +449,7 @@ int rmc_pub_set_user_data(rmc_pub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data; // Used by the poll callbacks of the connections.
     return 0;
 }
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d208367..9d7e78b 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -329,6 +329,7 @@ int rmc_sub_set_user_data(rmc_sub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data; // Used by the poll callbacks of the connections.
     return 0;
 }
 
-- 
2.43.0


From a7631527a6dbcfa27839ef04b371ad75006cdf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 40/44] fix: an interrupted or premature read closed a healthy
 connection

---
 rmc_protocol.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..4910789 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -175,6 +175,7 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
 {
     rmc_connection_t* conn = rmc_conn_find_by_index(conn_vec, s_ind);
     ssize_t res = 0;
+    int read_errno = 0;
     uint8_t *seg1 = 0;
     uint32_t seg1_len = 0;
     uint8_t *seg2 = 0;
@@ -214,13 +215,21 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
     errno = 0;
 
     res = readv(conn->descriptor, iov, 2);
+    read_errno = errno; // Logging may overwrite errno.
     RMC_LOG_INDEX_DEBUG(s_ind,
                         "readv(): Wanted %d + %d -> %d bytes. Got %ld %s",
                         seg1_len,
                         seg2_len,
                         seg1_len + seg2_len,
                         res,
-                        (res == -1)?strerror(errno):"");
+                        (res == -1)?strerror(read_errno):"");
+
+    // Nothing to read right now. The connection is still fine.
+    if (res == -1 &&
+        (read_errno == EAGAIN || read_errno == EWOULDBLOCK || read_errno == EINTR)) {
+        circ_buf_trim(&conn->read_buf, orig_in_use);
+        return EAGAIN;
+    }
 
     if (res == -1 || res == 0) {
         *op_res = RMC_READ_DISCONNECT;
-- 
2.43.0


From 09fd872b426ef9bf252ecc8169201170f5aa88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 41/44] fix: a subscriber received datagrams of other groups on
 its port

---
 rmc_sub_context.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 9d7e78b..d1ae3bb 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -172,8 +172,10 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
 
     memset((void*) &sock_addr, 0, sizeof(sock_addr));
 
+    // A socket bound to INADDR_ANY would also receive datagrams sent to other
+    // groups on this port, if another process on this host has joined them.
     sock_addr.sin_family = AF_INET;
-    sock_addr.sin_addr.s_addr = INADDR_ANY; // htonl(ctx->mcast_if_addr);
+    sock_addr.sin_addr.s_addr = htonl(ctx->mcast_group_addr);
     sock_addr.sin_port = htons(ctx->mcast_port);
 
     if (bind(ctx->mcast_recv_descriptor,
-- 
2.43.0


From 327b1aee32bfc8c95db5d2b1547bddcba831e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 42/44] fix: refusing an invalid address at initialisation
 leaked the context

---
 rmc_pub_context.c | 12 +++++++++---
 rmc_sub_context.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index a405970..3397092 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -92,21 +92,21 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto bad_address;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
-        return EINVAL;
+        goto bad_address;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto bad_address;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -149,6 +149,12 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
+
+bad_address:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d1ae3bb..e90d7ed 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -93,14 +93,14 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto bad_address;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto bad_address;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -131,6 +131,12 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
+
+bad_address:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
-- 
2.43.0


From 357527558d1fa1c1979715204911d4a126b3f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 43/44] fix: logging must not change errno

---
 rmc_log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..51fe4a4 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -13,6 +13,7 @@
 #include "string.h"
 #include <unistd.h>
 #include <stdlib.h>
+#include <errno.h>
 
 static usec_timestamp_t start_time = 0;
 
@@ -193,6 +194,7 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    int saved_errno = errno; // Callers use errno after logging.
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +280,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
-- 
2.43.0


From df7f591db4683f4a9515839be1d10d0dd54520fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:11 +0000
Subject: [PATCH 44/44] sim hook: allow a simulator build (RMC_SIM) to choose
 the first packet id

---
 pub.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pub.c b/pub.c
index 2d2eef4..3b552e5 100644
--- a/pub.c
+++ b/pub.c
@@ -50,6 +50,11 @@ void pub_init_context(pub_context_t* ctx)
     pub_packet_list_init(&ctx->inflight, 0, 0, 0);
     ctx->next_pid = 1;
 
+#if defined(RMC_SIM) && defined(RMC_SIM_FIRST_PID)
+    // Deterministic simulation only. Never defined in a regular build.
+    // Lets short runs reach packet ids that take days to get to.
+    ctx->next_pid = RMC_SIM_FIRST_PID;
+#endif
 }
 
 
-- 
2.43.0

