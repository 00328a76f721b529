From 304a1ef74eb0f7099ace403391fe46aa7489128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 01/27] fix: do not panic when delivering a packet that
 exceeded the receive allocation

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..8a40646 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // A packet which exceeded the receive allocation has no data
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From 16d3332efd5f0c94469be37bba441c5fa578cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 02/27] fix: drop acknowledged fragments from the pending
 queue, not the resend queue

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..1faa984 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -403,7 +403,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -420,7 +420,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From d9e0a0745647c88276df3bbdefc97c082de1351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 03/27] fix: ignore out-of-range packet IDs in sync and ack
 frames

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 src/half_connection/packet_sender.rs       | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 8a40646..7385975 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -409,7 +409,10 @@ impl PacketReceiver {
     // comes first. Any incomplete or dropped packets are skipped, and as a result, the sender must
     // ensure that all reliable packets have been received in full prior to issuing the request.
     pub fn resynchronize(&mut self, sender_next_id: u32) {
-        debug_assert!(packet_id::is_valid(sender_next_id));
+        if !packet_id::is_valid(sender_next_id) {
+            // Not a packet ID
+            return;
+        }
 
         let base_id = self.base_id;
         let sender_delta = packet_id::sub(sender_next_id, base_id);
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..ad7deb3 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -240,6 +240,11 @@ impl PacketSender {
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
+        if !packet_id::is_valid(receiver_base_id) {
+            // Not a packet ID
+            return;
+        }
+
         let receiver_delta = packet_id::sub(receiver_base_id, self.base_id);
         let span = packet_id::sub(self.next_id, self.base_id);
 
-- 
2.43.0


From 4400ef6c450d848fd8e0cca3ff8108366d5b3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 04/27] fix: retain the latest receive rate when the RTT
 estimate is zero

---
 src/half_connection/recv_rate_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..b88ca0e 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -59,7 +59,8 @@ impl RecvRateSet {
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+        // The latest entry is always retained, even if the RTT estimate is zero
+        self.entries.retain(|e| now_ms - e.timestamp_ms < (2 * rtt_ms).max(1));
 
         return self.max();
     }
-- 
2.43.0


From 1d49487edd1a66636d766cbd3db61ceac1cf86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 05/27] fix: keep rate computations finite for zero RTTs, tiny
 rates and huge rates

---
 src/half_connection/send_rate.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..9cc1675 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -30,10 +30,14 @@ fn eval_tcp_throughput(rtt: f64, p: f64) -> u32 {
 fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
     let delta = (target_rate_bps as f64 * 0.05) as u32;
 
+    // Not every target can be met (e.g. if the RTT estimate is zero, or if the target is less than
+    // the throughput at p = 1), so settle for the nearest loss rate after enough bisections
+    const MAX_BISECTIONS: usize = 128;
+
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    for _ in 0 .. MAX_BISECTIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +60,8 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    return b;
 }
 
 #[derive(Debug,PartialEq)]
@@ -252,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -322,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
@@ -330,7 +336,6 @@ impl SendRateComp {
                     }
                 } else {
                     // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
 
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
@@ -380,7 +385,7 @@ impl SendRateComp {
 
     fn update_rto(&mut self, rtt_s: f64, send_rate: u32) -> f64 {
         // See section 4.3 step 3 and section 4.4 step 2
-        let rto_s = (4.0*rtt_s).max((2*MSS) as f64 / send_rate as f64);
+        let rto_s = (4.0*rtt_s).max((2*MSS) as f64 / send_rate.max(1) as f64);
         self.rto_ms = Some(s_to_ms(rto_s));
         return rto_s;
     }
-- 
2.43.0


From c877aa934625bb576b1fa491e5ea09b6612841aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 06/27] fix: never advance the receive window past an
 undelivered packet

---
 src/half_connection/packet_receiver/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 7385975..6efa52d 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -385,11 +385,13 @@ impl PacketReceiver {
                     let window_parent_lead = window_entry.window_parent_lead as u32;
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
-                    if window_parent_lead == 0 || window_parent_lead > window_delta {
+                    // Window advancement implies that this packet has been delivered (inconsistent
+                    // parent leads would otherwise leave an undelivered packet behind)
+                    let delivered = self.data_flags[flags_index] & flag_bit == 0;
+
+                    if delivered && (window_parent_lead == 0 || window_parent_lead > window_delta) {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
-                        // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From 4bc4b69c463e2a07a4076aabaddb7a30c97c27ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 07/27] fix: avoid overflow for very large allocation limits
 and timeouts

---
 src/client/mod.rs                                         | 6 +++---
 .../packet_receiver/assembly_window/mod.rs                | 2 +-
 src/half_connection/packet_sender.rs                      | 2 +-
 src/server/mod.rs                                         | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..6601c23 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -558,7 +558,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -568,7 +568,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -578,7 +578,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index ad7deb3..35dfbb1 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -97,7 +97,7 @@ impl PacketSender {
 
         let channels: Vec<Channel> = (0 .. CHANNEL_COUNT).map(|_| Channel::new()).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             packet_send_queue: VecDeque::new(),
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..7131bfb 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -392,7 +392,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -504,7 +504,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -526,7 +526,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -548,7 +548,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From 2bfba64cc8c85217bd7bde223e88e4c33a7c2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 08/27] fix: saturate max_send_rate instead of truncating it to
 32 bits

---
 src/client/mod.rs | 2 +-
 src/server/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6601c23..e7c03a0 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -424,7 +424,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 7131bfb..5a9c3b7 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -376,7 +376,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From e1b49fafdbda85d7369d3e83c3cadd58b8fad905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 09/27] fix: measure the client's active timeout from the end
 of the handshake

---
 src/client/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index e7c03a0..e2d04ca 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -391,7 +391,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -449,7 +449,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
@@ -589,7 +589,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
-- 
2.43.0


From 5ed93456bd35091f39687a7fc080ecdbc40830eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 10/27] fix: refuse a server whose receive allocation is less
 than the maximum packet size

---
 src/client/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index e2d04ca..14441d9 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -398,12 +398,20 @@ impl Client {
                 // validated the connection parameters, so initialize an active connection. Since
                 // it is trivial for either party to intentionally stall a connection, there is no
                 // need for the client to double check the protocol version or connection
-                // parameters.
+                // parameters, other than to ensure that it may send its largest packets.
                 //
                 // Otherwise, if the nonce does not match, a duplicated SYN+ACK from a previous
                 // handshake must have been received. Ignore that.
 
                 if frame.nonce_ack == state.local_nonce {
+                    if (frame.max_receive_alloc as usize) < self.config.endpoint_config.max_packet_size {
+                        // The server could never receive our largest packets (a correct server
+                        // would have refused this connection)
+                        self.events_out.push(Event::Error(ErrorType::Config));
+                        self.state = State::Fin;
+                        return;
+                    }
+
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From 402ed6059d68615c9d06d8499ab15e1cd8c61e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 11/27] fix: shrink reassembled packets without breaking the
 allocator contract

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From 5796821dc618c55a3bb7f85025a79bfaf6e2e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 12/27] fix: repeated acknowledgements must not generate
 feedback

---
 src/half_connection/frame_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..7d49772 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -282,6 +282,7 @@ impl FrameQueue {
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
+        let mut any_acked = false;
 
         let mut bitfield_size = 0;
         for i in (0 .. 32).rev() {
@@ -326,6 +327,7 @@ impl FrameQueue {
                 // Receiver has received this packet
                 if sent_frame.acked == false {
                     sent_frame.acked = true;
+                    any_acked = true;
 
                     // Mark each fragment acknowledged and clear the list
                     let fragment_refs = std::mem::take(&mut sent_frame.fragment_refs);
@@ -350,6 +352,11 @@ impl FrameQueue {
             }
         }
 
+        if !any_acked {
+            // Every frame had already been acknowledged
+            return;
+        }
+
         // Add to pending feedback data
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
-- 
2.43.0


From 6bd13ed723b50e2da3b1670dc64780834cefc279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 13/27] fix: keep the send rate within its bounds when the
 nofeedback timer expires

---
 src/half_connection/send_rate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 9cc1675..768555b 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -353,7 +353,8 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    // The send rate never increases in the absence of feedback
+                    self.send_rate = state.send_rate_tcp.min(new_limit).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             _ => panic!()
-- 
2.43.0


From a183ef276127b009b2dedbeafc807ac7621622a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 14/27] fix: bound the queue of unsent acknowledgements

---
 src/half_connection/frame_ack_queue.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..12b6a11 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -49,6 +49,22 @@ impl FrameAckQueue {
 
     pub fn resynchronize(&mut self, sender_next_id: u32) {
         self.receive_window.advance(sender_next_id);
+        self.forget_stale_groups();
+    }
+
+    // The sender forgets frames which precede the end of its transfer window by more than twice
+    // the window size, so acknowledging them would have no effect. Forgetting the corresponding
+    // groups bounds the size of the queue in case they cannot be sent.
+    fn forget_stale_groups(&mut self) {
+        let base_id = self.receive_window.base_id;
+        let max_age = self.receive_window.size.saturating_mul(2);
+
+        while let Some(first_entry) = self.entries.front() {
+            if base_id.wrapping_sub(first_entry.base_id) <= max_age {
+                break;
+            }
+            self.entries.pop_front();
+        }
     }
 
     pub fn window_contains(&self, frame_id: u32) -> bool {
@@ -80,6 +96,8 @@ impl FrameAckQueue {
                     nonce: nonce,
                 });
             }
+
+            self.forget_stale_groups();
         }
     }
 
-- 
2.43.0


From ec2efa4213b9fbf2e06abd30a5e5e72e140b6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 15/27] fix: remember sent frames for at least one RTO so that
 a longer RTT can be measured

---
 src/half_connection/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 1faa984..5f551e5 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -174,8 +174,10 @@ impl HalfConnection {
         self.rtt_ms = rtt_ms;
         self.rto_ms = rto_ms;
 
-        // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        // Forget old frame data. If the round-trip time has increased such that no acks arrive in
+        // time, the RTO will increase along with the nofeedback interval until they do.
+        let forget_timeout_ms = (rtt_ms*4).max(rto_ms);
+        self.frame_queue.forget_frames(now_ms.saturating_sub(forget_timeout_ms), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From 66fcd35a705a6d65200ee90bdef8e9eaa14a1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 16/27] fix: accumulate fractional bytes when filling the flush
 allocation

---
 src/half_connection/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 5f551e5..537b439 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -74,6 +74,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_frac: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -102,6 +103,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_frac: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -205,10 +207,20 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
-            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
+            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).floor() as isize;
 
-            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
+            // Any fraction of a byte is carried over, so that the long-term rate is exact no matter
+            // how often this function is called
+            let new_bytes = send_rate * delta_time + self.flush_alloc_frac;
+            let new_alloc = self.flush_alloc.saturating_add(new_bytes.floor() as isize);
+
+            if new_alloc < alloc_max {
+                self.flush_alloc = new_alloc;
+                self.flush_alloc_frac = new_bytes - new_bytes.floor();
+            } else {
+                self.flush_alloc = alloc_max;
+                self.flush_alloc_frac = 0.0;
+            }
 
             //println!("dt: {}s, rtt: {:?}s, rate: {}B/s, new: {}B, max: {}B, val: {}B",
             //       delta_time, rtt_s, send_rate, new_bytes, alloc_max, self.flush_alloc);
-- 
2.43.0


From d716a7bcdcf94795d6c1edcb35c22a51dc613ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 17/27] fix: never transmit a TimeSensitive packet after the
 next step

---
 src/half_connection/emit.rs          | 22 ++++++++++++++++++++++
 src/half_connection/frame_queue.rs   |  7 ++++++-
 src/half_connection/mod.rs           | 10 ++++++++++
 src/half_connection/packet_sender.rs | 18 +++++++++++++++---
 4 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..b55e443 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -42,6 +42,28 @@ impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
         }
     }
 
+    // Returns Ok(()) if the next datagram will be added successfully, whatever its size
+    // Returns Err(DataPushError) otherwise
+    pub fn reserve(&mut self) -> Result<(), DataPushError> {
+        let (frame_size, frame_count) =
+            self.in_progress_frame.as_ref().map_or((0, 0), |frame| (frame.fbuilder.size(), 1));
+
+        if (self.flush_alloc - frame_size as isize) < 0 {
+            // Out of bandwidth
+            self.finalize();
+            self.frame_queue.mark_rate_limited();
+            return Err(DataPushError::SizeLimited);
+        }
+
+        if !self.frame_queue.can_push_after(frame_count) {
+            // Would exceed window
+            self.finalize();
+            return Err(DataPushError::WindowLimited);
+        }
+
+        return Ok(());
+    }
+
     // Returns Ok(()) if the datagram was added successfully
     // Returns Err(DataPushError) if the datagram could not be added
     pub fn push(&mut self, packet_rc: &pending_packet::PendingPacketRc, fragment_id: u16, resend: bool) -> Result<(), DataPushError> {
diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index 7d49772..3689105 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -226,7 +226,12 @@ impl FrameQueue {
     }
 
     pub fn can_push(&self) -> bool {
-        return self.next_id().wrapping_sub(self.window.base_id) < self.window.size;
+        return self.can_push_after(0);
+    }
+
+    // Returns true if another frame may be pushed once the given number of frames has been pushed
+    pub fn can_push_after(&self, frame_count: u32) -> bool {
+        return self.next_id().wrapping_sub(self.window.base_id) < self.window.size.saturating_sub(frame_count);
     }
 
     pub fn next_id(&self) -> u32 {
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 537b439..ef8473b 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -398,6 +398,16 @@ impl HalfConnection {
 
         loop {
             if self.pending_queue.is_empty() {
+                // A TimeSensitive packet must either be sent now or not at all, so don't emit one
+                // unless at least its first fragment can be sent
+                if self.packet_sender.is_next_time_sensitive(flush_id) {
+                    match dfe.reserve() {
+                        Err(emit::DataPushError::WindowLimited) => return Ok(()),
+                        Err(emit::DataPushError::SizeLimited) => return Err(()),
+                        Ok(_) => (),
+                    }
+                }
+
                 if let Some((packet_rc, resend)) = self.packet_sender.emit_packet(flush_id) {
                     let pending_packet_ref = packet_rc.borrow();
 
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 35dfbb1..5df6f10 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -144,9 +144,15 @@ impl PacketSender {
         self.packet_send_queue.push_back(PacketSendEntry::new(data, channel_id, mode, flush_id));
     }
 
-    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
-    // the maximum transfer window.
-    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+    // Drops TimeSensitive packets which were not sent in time, and returns true if the next packet
+    // is a TimeSensitive packet which may still be sent.
+    pub fn is_next_time_sensitive(&mut self, flush_id: u32) -> bool {
+        self.drop_stale_packets(flush_id);
+
+        self.packet_send_queue.front().map_or(false, |packet| packet.mode == SendMode::TimeSensitive)
+    }
+
+    fn drop_stale_packets(&mut self, flush_id: u32) {
         while let Some(packet) = self.packet_send_queue.front() {
             match packet.mode {
                 SendMode::TimeSensitive => {
@@ -160,6 +166,12 @@ impl PacketSender {
                 _ => break
             }
         }
+    }
+
+    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
+    // the maximum transfer window.
+    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+        self.drop_stale_packets(flush_id);
 
         if let Some(packet) = self.packet_send_queue.front() {
             if packet_id::sub(self.next_id, self.base_id) >= self.window_size {
-- 
2.43.0


From 91ce8d75cd97f00331a485b2e737dfdb0c79c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 18/27] fix: enforce both connection limits of the server,
 counting pending handshakes

---
 src/server/mod.rs           | 8 +++++++-
 src/server/remote_client.rs | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 5a9c3b7..d50b6e0 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -224,6 +224,12 @@ impl Server {
         (now - self.time_base).as_millis() as u64
     }
 
+    // Returns the number of connections which are active, or which become active as soon as their
+    // handshake is completed.
+    fn reserved_count(&self) -> usize {
+        self.clients.values().filter(|client| client.borrow().is_pending_or_active()).count()
+    }
+
     fn handle_handshake_syn(
         &mut self,
         client_addr: net::SocketAddr,
@@ -252,7 +258,7 @@ impl Server {
         }
 
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || self.reserved_count() >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..66954f5 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -49,6 +49,13 @@ impl RemoteClient {
         }
     }
 
+    pub (super) fn is_pending_or_active(&self) -> bool {
+        match self.state {
+            State::Pending(_) | State::Active(_) => true,
+            _ => false,
+        }
+    }
+
     /// Enqueues a packet for delivery to this client. The packet will be sent on the given channel
     /// according to the specified mode.
     ///
-- 
2.43.0


From 874e56d1d9e5448c10c4a16e189f8190b1e4b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 19/27] fix: fill the flush allocation before each transmission

---
 src/half_connection/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index ef8473b..2cbede3 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -197,6 +197,10 @@ impl HalfConnection {
     }
 
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
+        // Credit the time elapsed since the last call now, rather than after transmitting, so that
+        // the credit for a past interval can not be spent in addition to a full flush allocation
+        self.fill_flush_alloc(time::Instant::now());
+
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
     }
-- 
2.43.0


From 24e9888d61adeed86912b9b3fdec4700599765c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 20/27] fix: do not forget a new acknowledgement along with a
 stale group

---
 src/half_connection/frame_ack_queue.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 12b6a11..4143d6b 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -74,6 +74,7 @@ impl FrameAckQueue {
     pub fn mark_seen(&mut self, frame_id: u32, nonce: bool) {
         if self.receive_window.contains(frame_id) {
             self.receive_window.advance(frame_id.wrapping_add(1));
+            self.forget_stale_groups();
 
             if let Some(last_entry) = self.entries.back_mut() {
                 let bit = frame_id.wrapping_sub(last_entry.base_id);
@@ -96,8 +97,6 @@ impl FrameAckQueue {
                     nonce: nonce,
                 });
             }
-
-            self.forget_stale_groups();
         }
     }
 
-- 
2.43.0


From 722f8b2238b4bd3df619eb547d1006ae26e82a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 21/27] fix: count packets submitted before the handshake
 completes in send_buffer_size()

---
 src/client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 14441d9..fb784a7 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -381,6 +381,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends.iter().map(|send| send.data.len()).sum(),
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From 112dd0c016b500cf9561f92b5ffdf7a8f1f4c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 22/27] fix: only acknowledge repeated SYN+ACKs of the
 handshake which was completed

---
 src/client/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index fb784a7..25e3626 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -112,6 +112,7 @@ struct PendingState {
 
 struct ActiveState {
     local_nonce: u32,
+    remote_nonce: u32,
     half_connection: half_connection::HalfConnection,
     timeout_time_ms: u64,
     disconnect_signal: Option<DisconnectMode>,
@@ -457,6 +458,7 @@ impl Client {
 
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
+                        remote_nonce: frame.nonce,
                         half_connection,
                         timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
@@ -464,12 +466,14 @@ impl Client {
                 }
             }
             State::Active(ref state) => {
-                // A matching SYN+ACK has already been received, so acknowledge this one assuming
-                // the nonce ack matches ours (and ignore it otherwise). This case is only
+                // A matching SYN+ACK has already been received, so acknowledge this one assuming it
+                // is a copy of the same SYN+ACK (and ignore it otherwise). This case is only
                 // encountered when our initial ACK was dropped - all that matters is that the
-                // server receives an ACK.
+                // server receives an ACK. A SYN+ACK with another nonce belongs to a different
+                // handshake (caused by a stale SYN), and must not be completed since its sequence
+                // numbers would not match those of this connection.
 
-                if frame.nonce_ack == state.local_nonce {
+                if frame.nonce_ack == state.local_nonce && frame.nonce == state.remote_nonce {
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From 7cccf2b5a3e66af00d26b54ff409d0549f79930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 23/27] fix: send keepalive frames at the configured interval,
 regardless of the send rate

---
 src/half_connection/mod.rs | 59 ++++++++++++++++++++++++--------------
 src/lib.rs                 |  7 ++---
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 2cbede3..2804a1b 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -1,4 +1,5 @@
 
+use crate::MAX_FRAME_SIZE;
 use crate::SendMode;
 use crate::frame;
 
@@ -72,6 +73,8 @@ pub struct HalfConnection {
     time_base: time::Instant,
     time_last_flushed: Option<time::Instant>,
     sync_timeout_base_ms: u64,
+    // Time at which data or a sync frame was last sent, used to determine when to send a keepalive
+    keepalive_base_ms: u64,
 
     flush_alloc: isize,
     flush_alloc_frac: f64,
@@ -101,6 +104,7 @@ impl HalfConnection {
             time_base: time::Instant::now(),
             time_last_flushed: None,
             sync_timeout_base_ms: 0,
+            keepalive_base_ms: 0,
 
             flush_alloc: 0,
             flush_alloc_frac: 0.0,
@@ -233,19 +237,35 @@ impl HalfConnection {
     }
 
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
-        match self.emit_ack_frames(sink) {
-            Err(_) => return,
-            Ok(_) => (),
-        }
+        let _ = self.emit_ack_frames(sink)
+            .and_then(|_| self.emit_data_frames(now_ms, rtt_ms, flush_id, sink))
+            .and_then(|_| self.emit_sync_frame(now_ms, rto_ms, sink));
 
-        match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
-            Err(_) => return,
-            Ok(_) => (),
-        }
+        self.emit_keepalive_frame(now_ms, sink);
+    }
 
-        match self.emit_sync_frame(now_ms, rto_ms, sink) {
-            Err(_) => return,
-            Ok(_) => (),
+    fn emit_keepalive_frame(&mut self, now_ms: u64, sink: &mut impl FrameSink) {
+        // If nothing has been sent for the duration of the keepalive interval, send an empty sync
+        // frame to generate an ack and keep the connection alive. Because the remote host will time
+        // out otherwise, this happens regardless of TFRC's RTO computation, and even if the flush
+        // allocation has been exhausted by a previous frame. (At the minimum send rate, it would
+        // take over a minute to recover.)
+        if let Some(keepalive_interval_ms) = self.sync_keepalive_interval_ms {
+            if now_ms - self.keepalive_base_ms >= keepalive_interval_ms.max(1) {
+                let frame = frame::Frame::SyncFrame(frame::SyncFrame { next_frame_id: None, next_packet_id: None });
+
+                use frame::serial::Serialize;
+                let frame_bytes = frame.write();
+
+                let new_flush_alloc = self.flush_alloc - frame_bytes.len() as isize;
+
+                // The allocation may never be exceeded by more than one frame
+                if new_flush_alloc >= -(MAX_FRAME_SIZE as isize) {
+                    sink.send(&frame_bytes);
+                    self.flush_alloc = new_flush_alloc;
+                    self.keepalive_base_ms = now_ms;
+                }
+            }
         }
     }
 
@@ -280,18 +300,10 @@ impl HalfConnection {
                     None
                 };
 
-            // If neither a frame ID nor a packet ID would be sent, send a sync frame anyway to
-            // generate an ack and keep the connection alive. The user-specified keeaplive interval
-            // is considered in this case, but the rate at which keepalive frames are sent will
-            // still be restricted by TFRC's RTO computation and by MIN_SYNC_TIMEOUT_MS.
+            // If neither a frame ID nor a packet ID would be sent, there is nothing to synchronize
+            // (see `emit_keepalive_frame()` for keepalive frames).
             if next_frame_id.is_none() && next_packet_id.is_none() {
-                if let Some(keepalive_interval_ms) = self.sync_keepalive_interval_ms {
-                    if elapsed_ms < keepalive_interval_ms {
-                        return Ok(());
-                    }
-                } else {
-                    return Ok(());
-                }
+                return Ok(());
             }
 
             if self.flush_alloc < 0 {
@@ -306,6 +318,7 @@ impl HalfConnection {
             sink.send(&frame_bytes);
             self.flush_alloc -= frame_bytes.len() as isize;
             self.sync_timeout_base_ms = now_ms;
+            self.keepalive_base_ms = now_ms;
         }
 
         return Ok(());
@@ -356,12 +369,14 @@ impl HalfConnection {
         let ref mut send_rate_comp = self.send_rate_comp;
         let ref mut flush_alloc = self.flush_alloc;
         let ref mut sync_timeout_base_ms = self.sync_timeout_base_ms;
+        let ref mut keepalive_base_ms = self.keepalive_base_ms;
 
         let emit_cb = |frame_bytes: Box<[u8]>| {
             sink.send(&frame_bytes);
             send_rate_comp.notify_frame_sent(now_ms);
             *flush_alloc -= frame_bytes.len() as isize;
             *sync_timeout_base_ms = now_ms;
+            *keepalive_base_ms = now_ms;
         };
 
         let mut dfe = emit::DataFrameEmitter::new(now_ms, &mut self.frame_queue, flush_alloc_init, emit_cb);
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..54e3fec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -362,10 +362,9 @@ pub struct EndpointConfig {
     /// must continually send data to avoid causing a timeout on the opposite host.
     pub keepalive: bool,
 
-    /// The interval in milliseconds at which keepalive frames are sent.
-    ///
-    /// *Note*: Keepalive frames will not be sent faster than the connection RTO (computed
-    /// according to TFRC) or 2s, whichever is longer.
+    /// The interval in milliseconds at which keepalive frames are sent. To prevent an idle
+    /// connection from timing out, this must be shorter than the `active_timeout_ms` of the remote
+    /// endpoint.
     pub keepalive_interval_ms: u64,
 
     /// Time in milliseconds after which an active connection will terminate if no frames have been
-- 
2.43.0


From 46c8100556217aed860fdbff82d40b402d01d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 24/27] fix: never send an empty ack frame in reply to a sync
 frame while acks are outstanding

---
 src/half_connection/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 2804a1b..66e55bf 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -342,7 +342,10 @@ impl HalfConnection {
 
         let mut afe = emit::AckFrameEmitter::new(frame_window_base_id, packet_window_base_id, flush_alloc_init, emit_cb);
 
-        if sync_reply_init {
+        // Any ack frame is a reply to a sync frame, so an empty one is only necessary if there is
+        // nothing to acknowledge. (If it were started anyway, and the allocation did not permit more,
+        // it would be sent without any ack groups.)
+        if sync_reply_init && self.frame_ack_queue.peek().is_none() {
             match afe.push_dud() {
                 Err(_) => return Err(()),
                 Ok(_) => (),
-- 
2.43.0


From 88f71a4e270bb4d656b39ae4d68752bd5e4bd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 25/27] fix: do not let frequent keepalive frames use up the
 minimum send rate

---
 src/half_connection/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 66e55bf..a37c9b4 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -251,7 +251,10 @@ impl HalfConnection {
         // allocation has been exhausted by a previous frame. (At the minimum send rate, it would
         // take over a minute to recover.)
         if let Some(keepalive_interval_ms) = self.sync_keepalive_interval_ms {
-            if now_ms - self.keepalive_base_ms >= keepalive_interval_ms.max(1) {
+            // Once the allocation has been exceeded, send no more than the minimum send rate permits
+            let min_interval_ms = if self.flush_alloc >= 0 { 1 } else { MIN_SYNC_TIMEOUT_MS };
+
+            if now_ms - self.keepalive_base_ms >= keepalive_interval_ms.max(min_interval_ms) {
                 let frame = frame::Frame::SyncFrame(frame::SyncFrame { next_frame_id: None, next_packet_id: None });
 
                 use frame::serial::Serialize;
-- 
2.43.0


From b707410acc72ec1ded36fd12a0f21be778264e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 26/27] fix: do not let acks for a continuous inbound stream
 starve outbound data

---
 src/half_connection/mod.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index a37c9b4..8211a94 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -80,6 +80,9 @@ pub struct HalfConnection {
     flush_alloc_frac: f64,
     flush_id: u32,
 
+    // Set when acks have used up the flush allocation, in which case data goes first next time
+    data_first: bool,
+
     sync_reply: bool,
     sync_keepalive_interval_ms: Option<u64>,
 }
@@ -110,6 +113,8 @@ impl HalfConnection {
             flush_alloc_frac: 0.0,
             flush_id: 0,
 
+            data_first: false,
+
             sync_reply: false,
             sync_keepalive_interval_ms: config.keepalive_interval_ms,
         }
@@ -237,9 +242,30 @@ impl HalfConnection {
     }
 
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
-        let _ = self.emit_ack_frames(sink)
-            .and_then(|_| self.emit_data_frames(now_ms, rtt_ms, flush_id, sink))
-            .and_then(|_| self.emit_sync_frame(now_ms, rto_ms, sink));
+        // Acks are usually sent before data. If they have used up the flush allocation, data goes
+        // first next time, so that a continuous stream of inbound frames can not starve outbound
+        // data.
+        if self.data_first {
+            if self.flush_alloc >= 0 {
+                self.data_first = false;
+            }
+
+            let _ = self.emit_data_frames(now_ms, rtt_ms, flush_id, sink)
+                .and_then(|_| self.emit_sync_frame(now_ms, rto_ms, sink))
+                .and_then(|_| self.emit_ack_frames(sink));
+        } else {
+            let flush_alloc_init = self.flush_alloc;
+
+            let ack_result = self.emit_ack_frames(sink);
+
+            if self.flush_alloc < 0 && self.flush_alloc < flush_alloc_init {
+                self.data_first = true;
+            }
+
+            let _ = ack_result
+                .and_then(|_| self.emit_data_frames(now_ms, rtt_ms, flush_id, sink))
+                .and_then(|_| self.emit_sync_frame(now_ms, rto_ms, sink));
+        }
 
         self.emit_keepalive_frame(now_ms, sink);
     }
-- 
2.43.0


From 7582e9b120bba9400b5dcd9e7538387326d5b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 27/27] fix: keep the initial and nofeedback send rates within
 the configured ceiling

---
 src/half_connection/send_rate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 768555b..d47097e 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -130,7 +130,7 @@ impl SendRateComp {
             nofeedback_idle: false,
 
             mode: SendRateMode::AwaitSend,
-            send_rate: MSS as u32,
+            send_rate: (MSS as u32).min(max_send_rate),
             max_send_rate: max_send_rate,
 
             recv_rate_set: recv_rate_set::RecvRateSet::new(),
@@ -332,13 +332,13 @@ impl SendRateComp {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
-                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE).min(self.send_rate);
                     }
                 } else {
                     // In slow start, but no feedback has been received.
 
                     // Halve send rate every RTO, subject to minimum
-                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             SendRateMode::ThroughputEqn(ref mut state) => {
-- 
2.43.0

