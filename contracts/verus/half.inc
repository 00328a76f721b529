broadcast use super::fl::ieee;
//@ take src/half_connection/mod.rs const INITIAL_RTT_ESTIMATE_MS
//@ end
//@ take src/half_connection/mod.rs const INITIAL_RTO_ESTIMATE_MS
//@ end
//@ take src/half_connection/mod.rs const MIN_SYNC_TIMEOUT_MS
//@ end
pub trait FrameSink {
    spec fn sent(&self) -> Seq<Seq<u8>>;
    fn send(&mut self, frame_data: &[u8]) ensures final(self).sent() == old(self).sent().push(frame_data@);
}
pub assume_specification [isize::saturating_add] (a: isize, b: isize) -> (r: isize)
    ensures r == (if a + b > isize::MAX { isize::MAX as int } else if a + b < isize::MIN { isize::MIN as int } else { a + b });
// whole bytes of a number of bytes: stands for `x.floor() as isize`; the numbers of bytes are not negative (products of a rate and a time)
pub uninterp spec fn whole(x: f64) -> isize;
#[verifier::external_body]
pub fn floor_isize(x: f64) -> (r: isize) ensures r == whole(x), r >= 0 { x.floor() as isize }
// stands for `x.floor()`
pub uninterp spec fn spec_floor(x: f64) -> f64;
#[verifier::external_body]
pub fn floor_f64(x: f64) -> (r: f64) ensures r == spec_floor(x) { x.floor() }
pub open spec fn sat_add(a: isize, b: isize) -> int { if a + b > isize::MAX { isize::MAX as int } else { a + b } }
//@ take src/half_connection/mod.rs struct Config
//@ end
//@ take src/half_connection/mod.rs struct HalfConnection
//@ sub /(sync_keepalive_interval_ms: [^,}]*),?/\1, pub kinds: Ghost<Map<PendingPacketRc, bool>>,/!
//@ end
impl HalfConnection {
    pub open spec fn parts_ok(self) -> bool { self.packet_sender.wf() && self.frame_queue.ok() && self.frame_queue.before(self.now_ms) && self.packet_receiver.wf() && ack_wf(self.frame_ack_queue) }
    pub open spec fn times_ok(self) -> bool {
        self.now_ms < 0x2000_0000_0000_0000 && self.rtt_ms < 0x0400_0000_0000_0000 && self.rto_ms < 0x0400_0000_0000_0000 && self.sync_timeout_base_ms <= self.now_ms && self.keepalive_base_ms <= self.now_ms
    }
    // the allocation is never exceeded by more than one frame
    pub open spec fn alloc_ok(self) -> bool { self.flush_alloc >= -1472 }
    pub open spec fn wf(self) -> bool { self.parts_ok() && self.times_ok() && self.alloc_ok() }
//@ take src/half_connection/mod.rs fn HalfConnection::new
//@ sub /time::Instant::now\(\)/time::first_reading()/!
//@ sub /(sync_keepalive_interval_ms: [^,}]*),?/\1, kinds: Ghost(Map::empty()),/!
//@ start
    proof { reveal(q_ok); reveal(begun); }
//@ ret r
//@ spec
    requires pow2(config.tx_packet_window_size), pow2(config.rx_packet_window_size), config.tx_packet_base_id <= 0xFFFFF, config.rx_packet_base_id <= 0xFFFFF, config.tx_alloc_limit <= usize::MAX - 0x2000_0000, config.rx_alloc_limit <= usize::MAX - 0x2000_0000,
        config.tx_frame_window_size <= 0x800_0000, 0 < config.rx_frame_window_size <= frame_ack_queue::LIM,
    ensures r.wf(), r.packet_sender.packet_send_queue@.len() == 0,
        forall|h: Heap| (forall|p: PendingPacketRc| !#[trigger] h.born(p)) ==> r.q(h), // C02/C05/C12
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::send_buffer_size
//@ ret r
//@ spec
    requires self.wf(),
    // bytes given to send() which have not been sent and acknowledged
    ensures r == packet_sender::sum_queue(self.packet_sender.packet_send_queue@) + packet_sender::sum_size(self.packet_sender.outs()), // C20
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::is_send_pending
//@ ret r
//@ spec
    // nothing waits to be sent, or sent again
    ensures r == !(self.packet_sender.packet_send_queue@.len() == 0 && self.pending_queue@.len() == 0 && self.resend_queue.v().len() == 0), // C09
//@ end

//@ take src/half_connection/mod.rs fn HalfConnection::send
//@ spec
    requires old(self).wf(), data@.len() <= MAX_PACKET_SIZE, data@.len() <= old(self).packet_sender.max_alloc, channel_id < 64, old(self).packet_sender.total_size + data@.len() <= usize::MAX,
    ensures final(self).wf(), *final(self) == (HalfConnection { packet_sender: final(self).packet_sender, ..*old(self) }),
        final(self).packet_sender.outs() == old(self).packet_sender.outs(), // C01/C02
        final(self).packet_sender.packet_send_queue@ == old(self).packet_sender.packet_send_queue@.push(packet_sender::PacketSendEntry { data, channel_id, mode, flush_id: old(self).flush_id }), // C01/C02/C05/C12/C20
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::receive
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), *final(self) == (HalfConnection { packet_receiver: final(self).packet_receiver, ..*old(self) }), // C01/C02
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::handle_data_frame
//@ spec
    requires old(self).wf(), forall|i: int| 0 <= i < frame.datagrams@.len() ==> (#[trigger] frame.datagrams@[i]).sequence_id <= 0xFFFFF,
    ensures final(self).wf(), *final(self) == (HalfConnection { packet_receiver: final(self).packet_receiver, frame_ack_queue: final(self).frame_ack_queue, ..*old(self) }), // C15/C02
        // a frame outside of the receive window has no effect
        !frame_ack_queue::spec_contains(old(self).frame_ack_queue.receive_window, frame.sequence_id) ==> *final(self) == *old(self), // C01/C15/C11
        // the window moves past the frame, which will be acknowledged
        frame_ack_queue::spec_contains(old(self).frame_ack_queue.receive_window, frame.sequence_id) ==> final(self).frame_ack_queue.receive_window.base_id == frame.sequence_id.wrapping_add(1)
            && frame_ack_queue::recorded(old(self).frame_ack_queue.entries@, final(self).frame_ack_queue.entries@, frame.sequence_id, frame.nonce), // C15/C02/C11
//@ loop 0 it
    invariant *self == (HalfConnection { packet_receiver: self.packet_receiver, frame_ack_queue: faq, ..*old(self) }), self.packet_receiver.wf(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).sequence_id <= 0xFFFFF,
//@ beforeloop 0
    let ghost faq = self.frame_ack_queue;
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::handle_sync_frame
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), *final(self) == (HalfConnection { packet_receiver: final(self).packet_receiver, frame_ack_queue: final(self).frame_ack_queue, sync_reply: true, ..*old(self) }), // C02/C11
        // every sync frame is answered
        final(self).sync_reply, // C02/C10/C11
        match frame.next_frame_id {
            None => final(self).frame_ack_queue == old(self).frame_ack_queue,
            Some(id) => final(self).frame_ack_queue.receive_window == frame_ack_queue::spec_advance(old(self).frame_ack_queue.receive_window, id),
        }, // C11/C02/C01
        match frame.next_packet_id {
            None => final(self).packet_receiver == old(self).packet_receiver,
            Some(id) => packet_receiver::resynced(old(self).packet_receiver, final(self).packet_receiver, id),
        }, // C11/C02/C01
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::handle_ack_frame
//@ sub /frame: AckFrame\)/frame: AckFrame, h: &mut Heap)/!
//@ sub /acknowledge_group\(([^;]*?)(?:\.clone\(\))?, rtt_ms\)/acknowledge_group(\1, rtt_ms, h)/!
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), *final(self) == (HalfConnection { packet_sender: final(self).packet_sender, frame_queue: final(self).frame_queue, ..*old(self) }), // C15/C02
        final(self).frame_queue.frame_log.next_id == old(self).frame_queue.frame_log.next_id,
        // nothing the other side can say makes the frame window larger
        final(self).frame_queue.window.size == old(self).frame_queue.window.size, // C15/C11
        // the frame window follows every base the receiver can have reached, and no other
        final(self).frame_queue.window.base_id == (if 1 <= frame_queue::off(frame.frame_window_base_id, old(self).frame_queue.window.base_id) <= frame_queue::off(old(self).frame_queue.frame_log.next_id, old(self).frame_queue.window.base_id) { frame.frame_window_base_id } else { old(self).frame_queue.window.base_id }), // C11/C15
        // so does the packet window
        ({ let d = packet_id::spec_sub(frame.packet_window_base_id, old(self).packet_sender.base_id); let a = old(self).packet_sender; let b = final(self).packet_sender;
            if frame.packet_window_base_id > 0xFFFFF || d > a.n() { b.outs() == a.outs() && b.base_id == a.base_id } else { b.base_id == frame.packet_window_base_id && b.outs() == a.outs().skip(d as int) } }), // C02/C11/C15/C20
        old(self).q(*old(h)) ==> final(self).q(*final(h)), // C02/C12/C05
        // nothing is created, sent or forgotten; without acknowledgements nothing is acknowledged
        final(h).same_born(*old(h)) && final(h).same_sent(*old(h)) && (forall|p: PendingPacketRc, i: int| old(h).acked(p, i) ==> #[trigger] final(h).acked(p, i)), // C12/C02
        frame.frame_acks@.len() == 0 ==> *final(h) == *old(h), // C15/C12
//@ loop 0 it
    invariant *self == (HalfConnection { frame_queue: self.frame_queue, ..*old(self) }), old(self).wf(), self.frame_queue.wf(), self.frame_queue.before(self.now_ms), rtt_ok(rtt_ms), self.frame_queue.frame_log.next_id == old(self).frame_queue.frame_log.next_id, self.frame_queue.window == old(self).frame_queue.window,
        h.same_born(*old(h)), h.same_sent(*old(h)), forall|p: PendingPacketRc, i: int| old(h).acked(p, i) ==> #[trigger] h.acked(p, i),
        it.index@ == 0 ==> *h == *old(h) && self.frame_queue == old(self).frame_queue,
//@ body 0
    // less than 2^62 bytes are acknowledged between two steps
    assume(self.frame_queue.feedback_gen.ack_data matches Some(d) ==> d.ok());
//@ afterloop 0
    assume(self.frame_queue.feedback_gen.ack_data matches Some(d) ==> d.ok());
//@ exit
    proof { if old(self).q(*old(h)) { q_acked(old(self).packet_sender.outs(), self.packet_sender.outs(), self.pending_queue@, self.resend_queue.v(), self.kinds@, *old(h), *h); } }
//@ end

//@ take src/half_connection/mod.rs fn HalfConnection::step
//@ sub /time::Instant::now\(\)/time::clock(self.time_base, self.now_ms)/!
//@ sub /\((\w+) - ([\w.]+)\)\.as_millis\(\) as u64/time::millis(\1, \2)/!
//@ sub /let ref mut frame_queue = self\.frame_queue;\s*self\.send_rate_comp\.step\(now_ms, frame_queue\.get_feedback\(now_ms\),\s*\|(\w+): f64\| \{\s*frame_queue\.reset_loss_rate\(\1\);\s*\}\s*\);/let feedback = self.frame_queue.get_feedback(now_ms); self.send_rate_comp.step(now_ms, feedback, &mut self.frame_queue);/!
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), *final(self) == (HalfConnection { frame_queue: final(self).frame_queue, send_rate_comp: final(self).send_rate_comp, now_ms: final(self).now_ms, rtt_ms: final(self).rtt_ms, rto_ms: final(self).rto_ms,
            time_last_flushed: final(self).time_last_flushed, flush_alloc: final(self).flush_alloc, flush_alloc_frac: final(self).flush_alloc_frac, flush_id: final(self).flush_id, ..*old(self) }),
        // a new flush interval: TimeSensitive packets of previous ones have expired
        final(self).flush_id == old(self).flush_id.wrapping_add(1), // C12/C05
        final(self).now_ms >= old(self).now_ms,
        final(self).frame_queue.window == old(self).frame_queue.window, final(self).frame_queue.frame_log.next_id == old(self).frame_queue.frame_log.next_id, // C11/C15
        // frames are forgotten only when they are older than four round trips and the retransmission timeout
        ({ let a = old(self).frame_queue.frame_log; let d = frame_queue::off(final(self).frame_queue.frame_log.base_id, a.base_id);
            d <= a.frames@.len() && forall|i: int| 0 <= i < d ==> (#[trigger] a.frames@[i]).send_time_ms + 4 * final(self).rtt_ms < final(self).now_ms && a.frames@[i].send_time_ms + final(self).rto_ms < final(self).now_ms }), // C15/C11
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::fill_flush_alloc
//@ sub /\((\w+) - ([\w.]+)\)\.as_secs_f64\(\)/time::secs(\1, \2)/!
//@ sub /\(([^;]*)\)\.floor\(\) as isize/floor_isize(\1)/
//@ sub /(\w+)\.floor\(\) as isize/floor_isize(\1)/
//@ sub /(\w+)\.floor\(\)/floor_f64(\1)/
//@ start
    let _frac = fl::num(self.flush_alloc_frac);
//@ spec
    requires old(self).alloc_ok(),
    ensures final(self).alloc_ok(), // C13
        *final(self) == (HalfConnection { time_last_flushed: Some(now), flush_alloc: final(self).flush_alloc, flush_alloc_frac: final(self).flush_alloc_frac, ..*old(self) }),
        match old(self).time_last_flushed {
            None => final(self).flush_alloc == old(self).flush_alloc && final(self).flush_alloc_frac == old(self).flush_alloc_frac,
            // the elapsed time is credited at the current rate, up to one round trip's worth of bytes
            Some(last) => ({
                let rate = old(self).send_rate_comp.rate();
                let bytes = rate.ieee_mul(time::spec_secs(now, last)).ieee_add(old(self).flush_alloc_frac);
                let cap = whole(rate.ieee_mul(match old(self).send_rate_comp.rtt() { Some(t) => t, None => 0.0 }));
                let sum = sat_add(old(self).flush_alloc, whole(bytes));
                if sum < cap { final(self).flush_alloc == sum && final(self).flush_alloc_frac == bytes.ieee_sub(spec_floor(bytes)) } else { final(self).flush_alloc == cap && final(self).flush_alloc_frac == 0.0f64 }
            }),
        }, // C13
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::emit_keepalive_frame
//@ start
    broadcast use sent_one, sent_none;
    proof { sync_len(SyncFrame { next_frame_id: None, next_packet_id: None }); }
//@ spec
    requires old(self).wf(), now_ms == old(self).now_ms,
    ensures final(self).wf(), *final(self) == (HalfConnection { flush_alloc: final(self).flush_alloc, keepalive_base_ms: final(self).keepalive_base_ms, ..*old(self) }),
        frames_sent(old(sink).sent(), final(sink).sent(), old(self).flush_alloc, final(self).flush_alloc), // C13/C18
        // an empty sync frame after the keepalive interval, whatever the rate permits, but never more than one frame of debt
        ({ let due = old(self).sync_keepalive_interval_ms matches Some(t) && old(self).flush_alloc - 14 >= -1472
                && now_ms - old(self).keepalive_base_ms >= max2(t as int, if old(self).flush_alloc >= 0 { 1 } else { 2000 });
            if due { final(sink).sent() == old(sink).sent().push(enc_frame(FrameV::Sync(SyncFrame { next_frame_id: None, next_packet_id: None }))) && final(self).flush_alloc == old(self).flush_alloc - 14 && final(self).keepalive_base_ms == now_ms }
            else { final(sink).sent() == old(sink).sent() && *final(self) == *old(self) } }), // C10/C13/C18
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::emit_sync_frame
//@ start
    broadcast use sent_one, sent_none;
    proof { sync_len(SyncFrame { next_frame_id: None, next_packet_id: None }); }
//@ ret r
//@ spec
    requires old(self).wf(), now_ms == old(self).now_ms,
    ensures final(self).wf(), *final(self) == (HalfConnection { flush_alloc: final(self).flush_alloc, sync_timeout_base_ms: final(self).sync_timeout_base_ms, keepalive_base_ms: final(self).keepalive_base_ms, ..*old(self) }),
        frames_sent(old(sink).sent(), final(sink).sent(), old(self).flush_alloc, final(self).flush_alloc), // C13/C18
        ({
            let a = *old(self);
            // the next ids, as far as the other side may not know them
            let f = if a.frame_queue.frame_log.next_id != a.frame_queue.window.base_id { Some(a.frame_queue.frame_log.next_id) } else { None };
            let p = if a.packet_sender.next_id != a.packet_sender.base_id && a.resend_queue.v().len() == 0 && a.pending_queue@.len() == 0 { Some(a.packet_sender.next_id) } else { None };
            if now_ms - a.sync_timeout_base_ms < max2(rto_ms as int, 2000) || (f is None && p is None) { r is Ok && final(sink).sent() == old(sink).sent() && *final(self) == a }
            else if a.flush_alloc < 0 { r is Err && final(sink).sent() == old(sink).sent() && *final(self) == a }
            else {
                r is Ok && final(sink).sent() == old(sink).sent().push(enc_frame(FrameV::Sync(SyncFrame { next_frame_id: f, next_packet_id: p })))
                && final(self).flush_alloc == a.flush_alloc - 14 && final(self).sync_timeout_base_ms == now_ms && final(self).keepalive_base_ms == now_ms
            }
        }), // C11/C02/C13/C10
//@ end

//@ take src/half_connection/mod.rs fn HalfConnection::emit_ack_frames
//@ sub /let ref mut (flush_alloc|sync_reply) = self\.\1;/let \1 = &mut self.\1;/!
//@ sub /let emit_cb = \|frame_bytes: Box<\[u8\]>\| \{.*?\};/let emit_cb = AckCb { sink, flush_alloc, sync_reply };/s!
//@ ret r
//@ start
    let ghost a = *self; let ghost s0 = sink.sent(); let ghost q0 = self.frame_ack_queue.entries@; let ghost mut k: int = 0;
//@ after /let mut afe =/
    let ghost e0 = afe;
    proof { assert(q0.skip(0) =~= q0); assert(flat(afe.log@) + afe.gs@ =~= q0.take(0)); }
//@ loop 0
    invariant afe.same(e0), afe.wf(), afe.sent_ok(s0, a.flush_alloc), flat(afe.log@) + afe.gs@ == q0.take(k), afe.frame_window_base_id == a.frame_ack_queue.receive_window.base_id, afe.packet_window_base_id == a.packet_receiver.base_id,
        0 <= k <= q0.len(), self.frame_ack_queue.entries@ == q0.skip(k), ack_wf(self.frame_ack_queue), self.frame_ack_queue.receive_window == a.frame_ack_queue.receive_window,
        after_borrow(self.flush_alloc) == *final(afe.emit_cb.flush_alloc), after_borrow(self.sync_reply) == *final(afe.emit_cb.sync_reply), after_borrow(*sink) == *final(afe.emit_cb.sink),
        afe.flush_alloc == *afe.emit_cb.flush_alloc, *afe.emit_cb.sync_reply == (a.sync_reply && afe.log@.len() == 0), a.sync_reply ==> afe.in_progress_frame is Some || afe.log@.len() > 0 || self.frame_ack_queue.entries@.len() > 0,
        afe.flush_alloc <= a.flush_alloc, after_borrow(*self) == (HalfConnection { frame_ack_queue: self.frame_ack_queue, flush_alloc: after_borrow(self.flush_alloc), sync_reply: after_borrow(self.sync_reply), ..a }), a.wf(), a == *old(self), s0 == old(sink).sent(), q0 == a.frame_ack_queue.entries@,
    ensures self.frame_ack_queue.entries@.len() == 0,
    decreases self.frame_ack_queue.entries@.len(),
//@ body 0
    let ghost e1 = afe;
    proof {
        log_push(afe.frame_window_base_id, afe.packet_window_base_id, afe.log@, afe.gs@); assert(q0.skip(k)[0] == q0[k]);
        assert(flat(e1.log@) + e1.gs@.push(q0[k]) =~= (flat(e1.log@) + e1.gs@).push(q0[k])); assert(q0.take(k) + q0.skip(k) =~= q0); assert(e1.gs@.len() == 0 ==> flat(e1.log@) + e1.gs@ =~= flat(e1.log@));
        assert((flat(e1.log@) + e1.gs@) + seq![q0[k]] =~= (flat(e1.log@) + e1.gs@).push(q0[k]));
    }
//@ before /afe\.finalize\(\);/
    proof { log_push(afe.frame_window_base_id, afe.packet_window_base_id, afe.log@, afe.gs@); assert(q0.take(k) + q0.skip(k) =~= q0);  assert(afe.gs@.len() == 0 ==> flat(afe.log@) + afe.gs@ =~= flat(afe.log@)); }
//@ after /self\.frame_ack_queue\.pop\(\);/
    proof { assert(q0.skip(k).skip(1) =~= q0.skip(k + 1)); assert(q0.take(k + 1) =~= q0.take(k).push(q0[k])); k = k + 1; }
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), *final(self) == (HalfConnection { frame_ack_queue: final(self).frame_ack_queue, flush_alloc: final(self).flush_alloc, sync_reply: final(self).sync_reply, ..*old(self) }),
        // the groups leave in order, in frames which carry the bases of the receive windows; what the rate does not permit stays
        exists|log: Seq<Seq<AckGroup>>| acks_sent(*old(self), *final(self), old(sink).sent(), final(sink).sent(), log) && final(self).sync_reply == (old(self).sync_reply && log.len() == 0), // C02/C11/C15/C12
        r is Ok ==> final(self).frame_ack_queue.entries@.len() == 0 && !final(self).sync_reply, // C02/C11/C10
        r is Err ==> final(self).flush_alloc < 0, // C02/C11/C13
        final(self).flush_alloc <= old(self).flush_alloc, // C13
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::emit_data_frames
//@ sub /sink: &mut impl FrameSink\)/sink: &mut impl FrameSink, h: &mut Heap)/!
//@ sub /let ref mut (\w+) = self\.\1;/let \1 = &mut self.\1;/!
//@ sub /let emit_cb = \|frame_bytes: Box<\[u8\]>\| \{.*?\};/let emit_cb = DataCb { sink, send_rate_comp, now_ms, flush_alloc, sync_timeout_base_ms, keepalive_base_ms };/s!
//@ sub /entry\.fragment_ref\.packet\.upgrade\(\)/upgrade(&entry.fragment_ref.packet, h)/!
//@ sub /packet_rc\.borrow\(\)/rc_borrow(&packet_rc, h)/!
//@ sub /(dfe\.push\(&packet_rc, [^;{}]*?)\) \{/\1, h) {/!
//@ sub /emit_packet\(flush_id\)/emit_packet(flush_id, h)/!
//@ sub /self\.pending_queue\.is_empty\(\)/self.pending_queue.len() == 0/
//@ sub /const MAX_SEND_COUNT: u8 = (\w+);/let MAX_SEND_COUNT: u8 = \1;/
//@ sub /for (\w+) in 0 \.\.= ([^{}]*?) \{/for \1_ in 0 .. (\2) as u32 + 1 { let \1 = \1_ as u16;/!
//@ sub /\} else \{(\s*)self\.(resend|pending)_queue\.(pop|pop_front)\(\);/} else { held(&self.packet_sender, h);\1self.\2_queue.\3();/!
//@ sub /(\n\s*)self\.resend_queue\.pop\(\);/\1self.resend_queue.pop(); proof { q_gone(o0, p0, r0, k0, h1, *h); q_res_pop(o0, p0, r0, k0, *h); counted_same(ha, h1, *h, al); begun_same(o0, h1, *h); timed_skip(a.resend_queue.v(), r0, now_ms, rtt_ms); }/!
//@ sub /(\n\s*)self\.pending_queue\.pop_front\(\);/\1self.pending_queue.pop_front(); proof { q_gone(o0, p0, r0, k0, h1, *h); q_pend_pop(o0, p0, r0, k0, *h); counted_same(ha, h1, *h, al); begun_pop(o0, h1, *h, p0, rd, self.pending_queue@, dfe.ready()); }/!
//@ sub /return (Ok|Err)\(\(\)\)/match () { _ => { let ghost lg = dfe.log@; proof { begun_out(self.packet_sender.outs(), *h, self.pending_queue@); assert(dfe.all() =~= all_items(lg)); let b = after_borrow(*self); assert(sent_now(a, b, s0, after_borrow(*sink).sent(), ha, *h, lg)); sent_times(a, b, s0, after_borrow(*sink).sent(), ha, *h, lg); } return \1(()) } }/!
//@ sub /\} else \{(\s*)break;/} else { proof { q_gone(self.packet_sender.outs(), self.pending_queue@, self.resend_queue.v(), self.kinds@, h2, *h); counted_same(ha, h2, *h, dfe.all()); begun_same(self.packet_sender.outs(), h2, *h); }\1break;/
//@ sub /self\.resend_queue\.push\(([^;]*)\);/let e2 = \1; proof { eg = e2; } self.resend_queue.push(e2);/!
//@ ret r
//@ start
    hide(frame_queue::FrameQueue::wf); hide(frame_queue::FrameQueue::before); hide(packet_sender::PacketSender::base_ok); hide(packet_sender::PacketSender::parents_ok);
    let ghost a = *self; let ghost s0 = sink.sent(); let ghost ha = *h;
//@ spec
    requires old(self).wf(), old(self).q(*old(h)), now_ms == old(self).now_ms, rtt_ms == old(self).rtt_ms,
    ensures final(self).wf(), final(self).q(*final(h)), // C02/C12/C05
        timed(old(self).resend_queue.v(), final(self).resend_queue.v(), now_ms, rtt_ms), // C02/C11/C12
        *final(self) == (HalfConnection { packet_sender: final(self).packet_sender, pending_queue: final(self).pending_queue, resend_queue: final(self).resend_queue, frame_queue: final(self).frame_queue, send_rate_comp: final(self).send_rate_comp,
            flush_alloc: final(self).flush_alloc, sync_timeout_base_ms: final(self).sync_timeout_base_ms, keepalive_base_ms: final(self).keepalive_base_ms, kinds: final(self).kinds, ..*old(self) }),
        exists|log: Seq<DFrame>| sent_now(*old(self), *final(self), old(sink).sent(), final(sink).sent(), *old(h), *final(h), log), // C02/C12/C13/C15
        // it stops when the rate does not permit more,
        r is Err ==> final(self).flush_alloc < 0 && final(self).frame_queue.rate_limited, // C11/C02/C13/C14
        // when the frame window is full, or when there is nothing more to send
        r is Ok ==> frame_queue::off(final(self).frame_queue.frame_log.next_id, final(self).frame_queue.window.base_id) >= final(self).frame_queue.window.size || final(self).drained(), // C11/C02/C05
//@ beforeloop 0
    let ghost e0 = dfe;
    proof { assert(dfe.all() =~= Seq::<Item>::empty()); counted_none(ha); timed_none(a.resend_queue.v(), now_ms, rtt_ms); }
//@ loop 0
    invariant begun(self.packet_sender.outs(), *h), timed(a.resend_queue.v(), self.resend_queue.v(), now_ms, rtt_ms), dfe.same(e0), dfe.wf(), a.wf(), a == *old(self), s0 == old(sink).sent(), ha == *old(h), now_ms == a.now_ms, rtt_ms == a.rtt_ms, dfe.now_ms == now_ms,
        dfe.start@ == (DStart { sent: s0, flush_alloc: a.flush_alloc, frame_queue: a.frame_queue, sync: a.sync_timeout_base_ms, keepalive: a.keepalive_base_ms }),
        after_borrow(self.flush_alloc) == *final(dfe.emit_cb.flush_alloc), after_borrow(self.sync_timeout_base_ms) == *final(dfe.emit_cb.sync_timeout_base_ms), after_borrow(self.keepalive_base_ms) == *final(dfe.emit_cb.keepalive_base_ms),
        after_borrow(self.send_rate_comp) == *final(dfe.emit_cb.send_rate_comp), after_borrow(*sink) == *final(dfe.emit_cb.sink), after_borrow(self.frame_queue) == *final(dfe.frame_queue),
        after_borrow(*self) == (HalfConnection { packet_sender: self.packet_sender, pending_queue: self.pending_queue, resend_queue: self.resend_queue, kinds: self.kinds, frame_queue: after_borrow(self.frame_queue), send_rate_comp: after_borrow(self.send_rate_comp),
            flush_alloc: after_borrow(self.flush_alloc), sync_timeout_base_ms: after_borrow(self.sync_timeout_base_ms), keepalive_base_ms: after_borrow(self.keepalive_base_ms), ..a }),
        counted(ha, *h, dfe.all()),
        self.packet_sender.wf(),
        q_ok(self.packet_sender.outs(), self.pending_queue@, self.resend_queue.v(), self.kinds@, *h),
    ensures forall|j: int| 0 <= j < self.resend_queue.v().len() ==> (#[trigger] self.resend_queue.v()[j]).resend_time > now_ms,
    decreases dfe.room() + 4000, self.resend_queue.v().len(),
//@ body 0
    let ghost o0 = self.packet_sender.outs(); let ghost p0 = self.pending_queue@; let ghost r0 = self.resend_queue.v(); let ghost k0 = self.kinds@; let ghost h1 = *h; let ghost al = dfe.all(); let ghost mut eg: resend_queue::Entry = arbitrary();
    proof { fronts(o0, p0, r0, k0, h1); assert(1u64 << 1u8 == 2 && 1u64 << 2u8 == 4) by (bit_vector); let c = r0[0].send_count; assert(c == 1 || c == 2); assert(1u64 << c == if c == 1 { 2u64 } else { 4 }); let s = 1u64 << c; assert(rtt_ms * s <= rtt_ms * 4) by (nonlinear_arith) requires s <= 4, rtt_ms >= 0; assert(rtt_ms * s >= rtt_ms) by (nonlinear_arith) requires s >= 1, rtt_ms >= 0; }
//@ bodyend 0
    proof { let n = choose|n: int| 0 <= n <= r0.len() - 1 && self.resend_queue.v() == #[trigger] r0.skip(1).insert(n, eg); q_res_sent(o0, p0, r0, k0, h1, *h, n, eg); counted_push(ha, h1, *h, al, Item { p: rkey(r0[0]).0, i: rkey(r0[0]).1, resend: true }); begun_sent(o0, h1, *h, rkey(r0[0])); timed_skip(a.resend_queue.v(), r0, now_ms, rtt_ms); timed_insert(a.resend_queue.v(), r0.skip(1), n, eg, now_ms, rtt_ms); }
//@ loop 1
    invariant begun(self.packet_sender.outs(), *h), timed(a.resend_queue.v(), self.resend_queue.v(), now_ms, rtt_ms), dfe.same(e0), dfe.wf(), a.wf(), a == *old(self), s0 == old(sink).sent(), ha == *old(h), now_ms == a.now_ms, rtt_ms == a.rtt_ms, dfe.now_ms == now_ms,
        dfe.start@ == (DStart { sent: s0, flush_alloc: a.flush_alloc, frame_queue: a.frame_queue, sync: a.sync_timeout_base_ms, keepalive: a.keepalive_base_ms }),
        after_borrow(self.flush_alloc) == *final(dfe.emit_cb.flush_alloc), after_borrow(self.sync_timeout_base_ms) == *final(dfe.emit_cb.sync_timeout_base_ms), after_borrow(self.keepalive_base_ms) == *final(dfe.emit_cb.keepalive_base_ms),
        after_borrow(self.send_rate_comp) == *final(dfe.emit_cb.send_rate_comp), after_borrow(*sink) == *final(dfe.emit_cb.sink), after_borrow(self.frame_queue) == *final(dfe.frame_queue),
        after_borrow(*self) == (HalfConnection { packet_sender: self.packet_sender, pending_queue: self.pending_queue, resend_queue: self.resend_queue, kinds: self.kinds, frame_queue: after_borrow(self.frame_queue), send_rate_comp: after_borrow(self.send_rate_comp),
            flush_alloc: after_borrow(self.flush_alloc), sync_timeout_base_ms: after_borrow(self.sync_timeout_base_ms), keepalive_base_ms: after_borrow(self.keepalive_base_ms), ..a }),
        counted(ha, *h, dfe.all()),
        self.packet_sender.wf(),
        q_ok(self.packet_sender.outs(), self.pending_queue@, self.resend_queue.v(), self.kinds@, *h),
        rtt_ms > 0 ==> forall|j: int| 0 <= j < self.resend_queue.v().len() ==> (#[trigger] self.resend_queue.v()[j]).resend_time > now_ms,
    ensures after_borrow(*self).drained(),
    decreases self.packet_sender.packet_send_queue@.len(), self.pending_queue@.len(),
//@ beforeloop 2
    let ghost (o1, e1) = (self.packet_sender.outs().drop_last(), self.packet_sender.outs().last());
    proof { last_ok(self.packet_sender); assert(o1 =~= o9); counted_same(ha, h2, *h, dfe.all()); begun_same(o1, h2, *h); assert(self.pending_queue@ =~= Seq::<pending_queue::Entry>::empty()); }
//@ afterloop 2
    proof { assert(self.packet_sender.outs() =~= o1.push(e1)); q_emit(o1, e1, self.pending_queue@, self.resend_queue.v(), self.kinds@, h2, *h, resend); self.kinds@ = self.kinds@.insert(packet_rc, resend); }
    proof { begun_emit(o1, e1, *h, self.pending_queue@, dfe.ready()); }
//@ body 1
    let ghost h2 = *h; let ghost o9 = self.packet_sender.outs(); proof { begun_weak(o9, *h, self.pending_queue@, dfe.ready()); fresh_len(self.packet_sender.packet_send_queue@, flush_id); if self.pending_queue@.len() == 0 { assert(self.pending_queue@ =~= Seq::<pending_queue::Entry>::empty()); } }
//@ loop 2 it
    invariant begun(o1, *h), e1.mode@ is TimeSensitive ==> dfe.ready(), timed(a.resend_queue.v(), self.resend_queue.v(), now_ms, rtt_ms), dfe.same(e0), dfe.wf(), a.wf(), a == *old(self), s0 == old(sink).sent(), ha == *old(h), now_ms == a.now_ms, rtt_ms == a.rtt_ms, dfe.now_ms == now_ms,
        dfe.start@ == (DStart { sent: s0, flush_alloc: a.flush_alloc, frame_queue: a.frame_queue, sync: a.sync_timeout_base_ms, keepalive: a.keepalive_base_ms }),
        after_borrow(self.flush_alloc) == *final(dfe.emit_cb.flush_alloc), after_borrow(self.sync_timeout_base_ms) == *final(dfe.emit_cb.sync_timeout_base_ms), after_borrow(self.keepalive_base_ms) == *final(dfe.emit_cb.keepalive_base_ms),
        after_borrow(self.send_rate_comp) == *final(dfe.emit_cb.send_rate_comp), after_borrow(*sink) == *final(dfe.emit_cb.sink), after_borrow(self.frame_queue) == *final(dfe.frame_queue),
        after_borrow(*self) == (HalfConnection { packet_sender: self.packet_sender, pending_queue: self.pending_queue, resend_queue: self.resend_queue, kinds: self.kinds, frame_queue: after_borrow(self.frame_queue), send_rate_comp: after_borrow(self.send_rate_comp),
            flush_alloc: after_borrow(self.flush_alloc), sync_timeout_base_ms: after_borrow(self.sync_timeout_base_ms), keepalive_base_ms: after_borrow(self.keepalive_base_ms), ..a }),
        counted(ha, *h, dfe.all()),
        self.packet_sender.wf(),
        self.pending_queue@.len() == it.index@, frags_of(self.pending_queue@, packet_rc, resend), last_fragment_id + 1 == packet_rc.n(), self.packet_sender.outs() == o1.push(e1), q_ok(o1, Seq::<pending_queue::Entry>::empty(), self.resend_queue.v(), self.kinds@, h2), emitted_ok(e1, packet_rc, resend, h2, *h),
        rtt_ms > 0 ==> forall|j: int| 0 <= j < self.resend_queue.v().len() ==> (#[trigger] self.resend_queue.v()[j]).resend_time > now_ms,
//@ loop 3
    invariant begun_or_next(self.packet_sender.outs(), *h, self.pending_queue@, dfe.ready()), timed(a.resend_queue.v(), self.resend_queue.v(), now_ms, rtt_ms), dfe.same(e0), dfe.wf(), a.wf(), a == *old(self), s0 == old(sink).sent(), ha == *old(h), now_ms == a.now_ms, rtt_ms == a.rtt_ms, dfe.now_ms == now_ms,
        dfe.start@ == (DStart { sent: s0, flush_alloc: a.flush_alloc, frame_queue: a.frame_queue, sync: a.sync_timeout_base_ms, keepalive: a.keepalive_base_ms }),
        after_borrow(self.flush_alloc) == *final(dfe.emit_cb.flush_alloc), after_borrow(self.sync_timeout_base_ms) == *final(dfe.emit_cb.sync_timeout_base_ms), after_borrow(self.keepalive_base_ms) == *final(dfe.emit_cb.keepalive_base_ms),
        after_borrow(self.send_rate_comp) == *final(dfe.emit_cb.send_rate_comp), after_borrow(*sink) == *final(dfe.emit_cb.sink), after_borrow(self.frame_queue) == *final(dfe.frame_queue),
        after_borrow(*self) == (HalfConnection { packet_sender: self.packet_sender, pending_queue: self.pending_queue, resend_queue: self.resend_queue, kinds: self.kinds, frame_queue: after_borrow(self.frame_queue), send_rate_comp: after_borrow(self.send_rate_comp),
            flush_alloc: after_borrow(self.flush_alloc), sync_timeout_base_ms: after_borrow(self.sync_timeout_base_ms), keepalive_base_ms: after_borrow(self.keepalive_base_ms), ..a }),
        counted(ha, *h, dfe.all()),
        self.packet_sender.wf(),
        q_ok(self.packet_sender.outs(), self.pending_queue@, self.resend_queue.v(), self.kinds@, *h),
        rtt_ms > 0 ==> forall|j: int| 0 <= j < self.resend_queue.v().len() ==> (#[trigger] self.resend_queue.v()[j]).resend_time > now_ms,
    ensures self.pending_queue@.len() == 0,
    decreases self.pending_queue@.len(),
//@ body 3
    let ghost o0 = self.packet_sender.outs(); let ghost p0 = self.pending_queue@; let ghost r0 = self.resend_queue.v(); let ghost k0 = self.kinds@; let ghost h1 = *h; let ghost al = dfe.all(); let ghost mut eg: resend_queue::Entry = arbitrary();
    let ghost rd = dfe.ready();
    proof { fronts(o0, p0, r0, k0, h1); }
//@ afterloop 3
    proof { begun_end(self.packet_sender.outs(), *h, self.pending_queue@, dfe.ready()); }
//@ bodyend 3
    proof {
        counted_push(ha, h1, *h, al, Item { p: pkey(p0[0]).0, i: pkey(p0[0]).1, resend: p0[0].resend }); begun_next(o0, h1, *h, p0, rd, self.pending_queue@, dfe.ready());
        let n = if p0[0].resend { choose|n: int| 0 <= n <= r0.len() && self.resend_queue.v() == #[trigger] r0.insert(n, eg) } else { 0 }; q_pend_sent(o0, p0, r0, self.resend_queue.v(), k0, h1, *h, n, eg); if p0[0].resend { timed_insert(a.resend_queue.v(), r0, n, eg, now_ms, rtt_ms); }
    }
//@ end
}

// ---- acknowledgement frames
// what `emit_cb` of `HalfConnection::emit_ack_frames` captures
pub struct AckCb<'b, S: FrameSink> { pub sink: &'b mut S, pub flush_alloc: &'b mut isize, pub sync_reply: &'b mut bool }
impl<'b, S: FrameSink> AckCb<'b, S> {
    #[verifier::prophetic]
    pub open spec fn same(self, o: AckCb<'b, S>) -> bool { *final(self.sink) == *final(o.sink) && *final(self.flush_alloc) == *final(o.flush_alloc) && *final(self.sync_reply) == *final(o.sync_reply) }
//@ take src/half_connection/mod.rs closure HalfConnection::emit_ack_frames/emit_cb
//@ sub /\bsink\./self.sink./
//@ sub /\*(flush_alloc|sync_reply)\b/*self.\1/
//@ spec
    requires *old(self).flush_alloc >= isize::MIN + 2000, frame_bytes@.len() <= 1472,
    ensures final(self).same(*old(self)), final(self).sink.sent() == old(self).sink.sent().push(frame_bytes@), // C02/C15
        *final(self).flush_alloc == *old(self).flush_alloc - frame_bytes@.len(), // C13
        !*final(self).sync_reply, // C10/C11
//@ end
}
//@ take src/half_connection/emit.rs struct AckFrameEmitter
//@ sub /flush_alloc: isize,/flush_alloc: isize, pub gs: Ghost<Seq<AckGroup>>, pub log: Ghost<Seq<Seq<AckGroup>>>,/!
//@ end
pub open spec fn flat(l: Seq<Seq<AckGroup>>) -> Seq<AckGroup> decreases l.len() { if l.len() == 0 { seq![] } else { flat(l.drop_last()) + l.last() } }
pub open spec fn ack_frames(fb: u32, pb: u32, l: Seq<Seq<AckGroup>>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| enc_frame(FrameV::Ack(fb, pb, l[i]))) }
pub open spec fn total_len(l: Seq<Seq<u8>>) -> int decreases l.len() { if l.len() == 0 { 0 } else { total_len(l.drop_last()) + l.last().len() } }
pub open spec fn acks_sent(a: HalfConnection, b: HalfConnection, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, log: Seq<Seq<AckGroup>>) -> bool {
    let fr = ack_frames(a.frame_ack_queue.receive_window.base_id, a.packet_receiver.base_id, log);
    &&& s1 == s0 + fr && b.flush_alloc == a.flush_alloc - total_len(fr) && (forall|i: int| 0 <= i < fr.len() ==> (#[trigger] fr[i]).len() <= 1472)
    &&& flat(log) + b.frame_ack_queue.entries@ == a.frame_ack_queue.entries@ && b.frame_ack_queue.receive_window == a.frame_ack_queue.receive_window
}
pub proof fn log_push(fb: u32, pb: u32, l: Seq<Seq<AckGroup>>, x: Seq<AckGroup>)
    ensures ack_frames(fb, pb, l.push(x)) == ack_frames(fb, pb, l).push(enc_frame(FrameV::Ack(fb, pb, x))), total_len(ack_frames(fb, pb, l.push(x))) == total_len(ack_frames(fb, pb, l)) + enc_frame(FrameV::Ack(fb, pb, x)).len(),
        flat(l.push(x)) == flat(l) + x,
{
    assert(ack_frames(fb, pb, l.push(x)) =~= ack_frames(fb, pb, l).push(enc_frame(FrameV::Ack(fb, pb, x)))); assert(l.push(x).drop_last() =~= l);
    let f = ack_frames(fb, pb, l.push(x)); assert(f.drop_last() =~= ack_frames(fb, pb, l));
}
pub proof fn groups_len(gs: Seq<AckGroup>) ensures enc_groups(gs).len() == 9 * gs.len() decreases gs.len() { if gs.len() > 0 { groups_len(gs.drop_last()); } }
impl<'b, S: FrameSink> AckFrameEmitter<AckCb<'b, S>> {
    #[verifier::prophetic]
    pub open spec fn same(self, o: Self) -> bool { self.emit_cb.same(o.emit_cb) && self.frame_window_base_id == o.frame_window_base_id && self.packet_window_base_id == o.packet_window_base_id }
    pub open spec fn wf(self) -> bool {
        &&& self.flush_alloc == *self.emit_cb.flush_alloc && self.flush_alloc >= -1472
        &&& match self.in_progress_frame {
            None => self.gs@.len() == 0,
            Some(b) => self.flush_alloc >= 0 && b.buffer@ == ack_head(self.frame_window_base_id, self.packet_window_base_id) + seq![0u8, 0u8] + enc_groups(self.gs@) && b.count == self.gs@.len() && b.buffer@.len() <= 1468,
        }
    }
    pub open spec fn sent_ok(self, s0: Seq<Seq<u8>>, alloc0: isize) -> bool {
        let fr = ack_frames(self.frame_window_base_id, self.packet_window_base_id, self.log@);
        self.emit_cb.sink.sent() == s0 + fr && self.flush_alloc == alloc0 - total_len(fr) && forall|i: int| 0 <= i < fr.len() ==> (#[trigger] fr[i]).len() <= 1472
    }
    pub open spec fn one_more(self, o: Self) -> bool {
        if o.in_progress_frame is Some {
            let f = enc_frame(FrameV::Ack(o.frame_window_base_id, o.packet_window_base_id, o.gs@));
            self.emit_cb.sink.sent() == o.emit_cb.sink.sent().push(f) && self.flush_alloc == o.flush_alloc - f.len() && f.len() <= 1472 && f.len() == o.in_progress_frame.unwrap().buffer@.len() + 4 && self.log@ == o.log@.push(o.gs@) && !*self.emit_cb.sync_reply
        } else { self.emit_cb.sink.sent() == o.emit_cb.sink.sent() && self.flush_alloc == o.flush_alloc && self.log@ == o.log@ && *self.emit_cb.sync_reply == *o.emit_cb.sync_reply }
    }
    pub open spec fn nothing_sent(self, o: Self) -> bool { self.emit_cb.sink.sent() == o.emit_cb.sink.sent() && self.flush_alloc == o.flush_alloc && self.log@ == o.log@ && *self.emit_cb.sync_reply == *o.emit_cb.sync_reply }
//@ take src/half_connection/emit.rs fn AckFrameEmitter::new
//@ sub /emit_cb: F\)/emit_cb: AckCb<'b, S>)/!
//@ sub /in_progress_frame: None,/in_progress_frame: None, gs: Ghost(Seq::empty()), log: Ghost(Seq::empty()),/!
//@ ret r
//@ spec
    ensures r.in_progress_frame is None, r.gs@ == Seq::<AckGroup>::empty(), r.log@ == Seq::<Seq<AckGroup>>::empty(), r.emit_cb == emit_cb, r.flush_alloc == flush_alloc, r.frame_window_base_id == frame_window_base_id, r.packet_window_base_id == packet_window_base_id,
//@ end
//@ take src/half_connection/emit.rs fn AckFrameEmitter::finalize
//@ sub /\(self\.emit_cb\)\((\w+)\)/self.emit_cb.call(\1)/!
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).in_progress_frame is None, final(self).gs@ == Seq::<AckGroup>::empty(), final(self).one_more(*old(self)), // C02/C15/C13/C16
//@ before /let frame_bytes = next_frame\.build\(\);/
    proof { let o = *old(self); ack_body(o.frame_window_base_id, o.packet_window_base_id, o.gs@); groups_len(o.gs@); self.log@ = self.log@.push(o.gs@); self.gs@ = seq![]; }
//@ start
    proof { assert(self.gs@.len() == 0 ==> self.gs@ =~= Seq::<AckGroup>::empty()); }
//@ end
//@ take src/half_connection/emit.rs fn AckFrameEmitter::push_dud
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).nothing_sent(*old(self)), final(self).gs@ == old(self).gs@,
        match r { Ok(_) => final(self).in_progress_frame is Some, Err(_) => old(self).flush_alloc < 0 && final(self).in_progress_frame == old(self).in_progress_frame }, // C02/C11/C13/C10
//@ start
    proof { assert(ack_head(self.frame_window_base_id, self.packet_window_base_id) + seq![0u8, 0u8] + enc_groups(seq![]) =~= ack_head(self.frame_window_base_id, self.packet_window_base_id) + seq![0u8, 0u8]); assert(self.gs@.len() == 0 ==> self.gs@ =~= seq![]); }
//@ end
//@ take src/half_connection/emit.rs fn AckFrameEmitter::push
//@ sub /if let Some\(ref mut next_frame\) = self\.in_progress_frame/if let Some(next_frame) = &mut self.in_progress_frame/!
//@ start
    proof {
        let (g, h) = (self.gs@, ack_head(self.frame_window_base_id, self.packet_window_base_id) + seq![0u8, 0u8]); let x = *ack_group;
        groups_len(g); assert(g.push(x).drop_last() =~= g); assert(h + enc_groups(g.push(x)) =~= h + enc_groups(g) + enc_group(x)); 
        let e = Seq::<AckGroup>::empty(); assert(e.push(x).drop_last() =~= e); assert(enc_groups(e) =~= Seq::<u8>::empty()); assert(enc_groups(e.push(x)) =~= enc_group(x)); assert(e.push(x) =~= seq![x]);
        assert(h + enc_groups(seq![x]) =~= h + enc_group(x)); assert(g.len() == 0 ==> g =~= e);
    }
//@ sub /(next_frame|fbuilder)\.add\(ack_group\);/\1.add(ack_group); self.gs = Ghost(self.gs@.push(*ack_group));/!
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(*old(self)),
        match r {
            // the group is in the frame which will be sent next
            Ok(_) => final(self).in_progress_frame is Some && (final(self).nothing_sent(*old(self)) && final(self).gs@ == old(self).gs@.push(*ack_group) || final(self).one_more(*old(self)) && old(self).in_progress_frame is Some && final(self).gs@ == seq![*ack_group]),
            Err(_) => final(self).one_more(*old(self)) && final(self).flush_alloc < 0 && final(self).in_progress_frame is None,
        }, // C02/C11/C15/C13
//@ end
}
// ---- the fragments which wait to be sent, or to be acknowledged
pub proof fn fresh_len(q: Seq<packet_sender::PacketSendEntry>, f: u32)
    ensures packet_sender::fresh(q, f).len() <= q.len(), packet_sender::fresh(packet_sender::fresh(q, f), f) == packet_sender::fresh(q, f)
    decreases q.len() { if q.len() > 0 { fresh_len(q.skip(1), f); } }
pub open spec fn pkey(e: pending_queue::Entry) -> (PendingPacketRc, int) { e.fragment_ref.key() }
pub open spec fn rkey(e: resend_queue::Entry) -> (PendingPacketRc, int) { e.fragment_ref.key() }
pub open spec fn pend_has(q: Seq<pending_queue::Entry>, p: PendingPacketRc, i: int) -> bool { exists|j: int| 0 <= j < q.len() && pkey(#[trigger] q[j]) == (p, i) }
pub open spec fn resend_has(q: Seq<resend_queue::Entry>, p: PendingPacketRc, i: int) -> bool { exists|j: int| 0 <= j < q.len() && rkey(#[trigger] q[j]) == (p, i) }
// kinds: the packets which have left the send queue; the fragments of some are sent until they are acknowledged, those of the others once
pub open spec fn pend_entry(e: pending_queue::Entry, kinds: Map<PendingPacketRc, bool>, h: Heap) -> bool {
    let (p, i) = pkey(e);
    e.fragment_ref.ok() && pk_ok(p) && kinds.dom().contains(p) && kinds[p] == e.resend && (!e.resend ==> h.sent(p, i) == 0)
}
pub open spec fn resend_entry(e: resend_queue::Entry, kinds: Map<PendingPacketRc, bool>) -> bool { e.fragment_ref.ok() && pk_ok(rkey(e).0) && kinds.dom().contains(rkey(e).0) && kinds[rkey(e).0] && 1 <= e.send_count <= 2 }
pub open spec fn mode_resend(m: SendMode) -> bool { m is Persistent || m is Reliable }
// nothing is lost: a fragment of an outstanding packet is acknowledged or waits (in resend mode), or has been sent or waits
pub open spec fn cared_for(p: PendingPacketRc, i: int, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap) -> bool {
    h.acked(p, i) || pend_has(pend, p, i) || if kinds[p] { resend_has(res, p, i) } else { h.sent(p, i) >= 1 }
}
pub open spec fn known(e: packet_sender::WindowEntry, kinds: Map<PendingPacketRc, bool>) -> bool { kinds.dom().contains(e.packet) && kinds[e.packet] == mode_resend(e.mode@) && pk_ok(e.packet) }
pub open spec fn pend_ok(pend: Seq<pending_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap) -> bool {
    &&& forall|j: int| 0 <= j < pend.len() ==> pend_entry(#[trigger] pend[j], kinds, h)
    &&& forall|j: int, l: int| 0 <= j < l < pend.len() ==> pkey(#[trigger] pend[j]) != pkey(#[trigger] pend[l])
}
pub open spec fn outs_ok(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap) -> bool {
    &&& forall|k: int| 0 <= k < outs.len() ==> known(#[trigger] outs[k], kinds)
    &&& forall|k: int, i: int| #![trigger outs[k], h.acked(outs[k].packet, i)] 0 <= k < outs.len() && 0 <= i < outs[k].packet.n() ==> cared_for(outs[k].packet, i, pend, res, kinds, h)
}
pub open spec fn heap_ok(kinds: Map<PendingPacketRc, bool>, h: Heap) -> bool {
    &&& forall|p: PendingPacketRc| #[trigger] h.born(p) == kinds.dom().contains(p)
    // C12: at most one transmission
    &&& forall|p: PendingPacketRc, i: int| kinds.dom().contains(p) && !kinds[p] ==> #[trigger] h.sent(p, i) <= 1
}
#[verifier::opaque]
pub open spec fn q_ok(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap) -> bool {
    &&& pend_ok(pend, kinds, h) && (forall|j: int| 0 <= j < res.len() ==> resend_entry(#[trigger] res[j], kinds))
    &&& outs_ok(outs, pend, res, kinds, h) && heap_ok(kinds, h)
}
pub open spec fn noted(a: Heap, b: Heap, k: (PendingPacketRc, int)) -> bool {
    b.same_flags(a) && b.same_born(a) && forall|q: PendingPacketRc, j: int| #[trigger] b.sent(q, j) == a.sent(q, j) + if (q, j) == k { 1int } else { 0 }
}
// only what was found dropped changes
pub proof fn q_gone(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, a: Heap, b: Heap)
    requires q_ok(outs, pend, res, kinds, a), b.same_flags(a), b.same_born(a), b.same_sent(a),
    ensures q_ok(outs, pend, res, kinds, b)
{ reveal(q_ok);
    assert forall|j: int| 0 <= j < pend.len() implies pend_entry(#[trigger] pend[j], kinds, b) by { assert(pend_entry(pend[j], kinds, a)); let (p, i) = pkey(pend[j]); assert(b.sent(p, i) == a.sent(p, i)); }
    assert forall|k: int, i: int| #![trigger outs[k], b.acked(outs[k].packet, i)] 0 <= k < outs.len() && 0 <= i < outs[k].packet.n() implies cared_for(outs[k].packet, i, pend, res, kinds, b) by { let p = outs[k].packet; assert(b.acked(p, i) == a.acked(p, i)); assert(b.sent(p, i) == a.sent(p, i)); }
}
proof fn res_skip(res: Seq<resend_queue::Entry>, p: PendingPacketRc, i: int) requires resend_has(res, p, i), res.len() > 0 ensures rkey(res[0]) == (p, i) || resend_has(res.skip(1), p, i)
{ let j = choose|j: int| 0 <= j < res.len() && rkey(#[trigger] res[j]) == (p, i); if j > 0 { assert(res.skip(1)[j - 1] == res[j]); } }
proof fn res_insert(res: Seq<resend_queue::Entry>, k: int, e: resend_queue::Entry, p: PendingPacketRc, i: int) requires 0 <= k <= res.len(), resend_has(res, p, i) || rkey(e) == (p, i) ensures resend_has(res.insert(k, e), p, i)
{
    if rkey(e) == (p, i) { assert(res.insert(k, e)[k] == e); }
    else { let j = choose|j: int| 0 <= j < res.len() && rkey(#[trigger] res[j]) == (p, i); assert(res.insert(k, e)[if j < k { j } else { j + 1 }] == res[j]); }
}
proof fn pend_skip(pend: Seq<pending_queue::Entry>, p: PendingPacketRc, i: int) requires pend_has(pend, p, i), pend.len() > 0 ensures pkey(pend[0]) == (p, i) || pend_has(pend.skip(1), p, i)
{ let j = choose|j: int| 0 <= j < pend.len() && pkey(#[trigger] pend[j]) == (p, i); if j > 0 { assert(pend.skip(1)[j - 1] == pend[j]); } }
pub proof fn fronts(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap)
    requires q_ok(outs, pend, res, kinds, h) ensures res.len() > 0 ==> resend_entry(res[0], kinds), pend.len() > 0 ==> pend_entry(pend[0], kinds, h) { reveal(q_ok); }
pub proof fn last_ok(s: packet_sender::PacketSender) requires s.wf(), s.n() > 0 ensures pk_ok(s.outs().last().packet), s.outs().len() == s.n() { let x = s.at(s.n() - 1); assert(s.entry_ok(x.unwrap(), s.n() - 1)); }
// acknowledgements, and packets which the other side has moved past
pub proof fn q_acked(outs: Seq<packet_sender::WindowEntry>, o2: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, a: Heap, b: Heap)
    requires q_ok(outs, pend, res, kinds, a), begun(outs, a), b.same_born(a), b.same_sent(a), forall|p: PendingPacketRc, i: int| a.acked(p, i) ==> #[trigger] b.acked(p, i), o2 == outs || exists|d: int| 0 <= d <= outs.len() && o2 == #[trigger] outs.skip(d),
    ensures q_ok(o2, pend, res, kinds, b), begun(o2, b), // C02/C12
{ reveal(q_ok); reveal(begun);
    let d = if o2 == outs { 0 } else { choose|d: int| 0 <= d <= outs.len() && o2 == #[trigger] outs.skip(d) };
    assert forall|j: int| 0 <= j < pend.len() implies pend_entry(#[trigger] pend[j], kinds, b) by { assert(pend_entry(pend[j], kinds, a)); let (p, i) = pkey(pend[j]); assert(b.sent(p, i) == a.sent(p, i)); }
    assert forall|k: int, i: int| #![trigger o2[k], b.acked(o2[k].packet, i)] 0 <= k < o2.len() && 0 <= i < o2[k].packet.n() implies cared_for(o2[k].packet, i, pend, res, kinds, b) by {
        assert(o2[k] == outs[k + d]); let p = outs[k + d].packet; assert(a.acked(p, i) ==> b.acked(p, i)); assert(b.sent(p, i) == a.sent(p, i)); assert(cared_for(p, i, pend, res, kinds, a));
    }
    assert forall|k: int| 0 <= k < o2.len() implies known(#[trigger] o2[k], kinds) by { assert(o2[k] == outs[k + d]); }
    assert forall|k: int| 0 <= k < o2.len() && (#[trigger] o2[k]).mode@ is TimeSensitive implies b.sent(o2[k].packet, 0) >= 1 by { assert(o2[k] == outs[k + d]); }
}
// an acknowledged fragment, or one of a packet which the other side has moved past, need not be sent again
pub proof fn q_res_pop(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap)
    requires q_ok(outs, pend, res, kinds, h), res.len() > 0, h.acked(rkey(res[0]).0, rkey(res[0]).1) || forall|k: int| 0 <= k < outs.len() ==> (#[trigger] outs[k]).packet != rkey(res[0]).0,
    ensures q_ok(outs, pend, res.skip(1), kinds, h) // C02/C12
{ reveal(q_ok);
    assert forall|k: int, i: int| #![trigger outs[k], h.acked(outs[k].packet, i)] 0 <= k < outs.len() && 0 <= i < outs[k].packet.n() implies cared_for(outs[k].packet, i, pend, res.skip(1), kinds, h) by {
        let p = outs[k].packet; assert(cared_for(p, i, pend, res, kinds, h)); if resend_has(res, p, i) { res_skip(res, p, i); }
    }
}
pub proof fn q_pend_pop(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, h: Heap)
    requires q_ok(outs, pend, res, kinds, h), pend.len() > 0, h.acked(pkey(pend[0]).0, pkey(pend[0]).1) || forall|k: int| 0 <= k < outs.len() ==> (#[trigger] outs[k]).packet != pkey(pend[0]).0,
    ensures q_ok(outs, pend.skip(1), res, kinds, h) // C02/C12
{ reveal(q_ok);
    assert forall|k: int, i: int| #![trigger outs[k], h.acked(outs[k].packet, i)] 0 <= k < outs.len() && 0 <= i < outs[k].packet.n() implies cared_for(outs[k].packet, i, pend.skip(1), res, kinds, h) by {
        let p = outs[k].packet; assert(cared_for(p, i, pend, res, kinds, h)); if pend_has(pend, p, i) { pend_skip(pend, p, i); }
    }
}
// a fragment is sent again, and waits for its next turn
pub proof fn q_res_sent(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, a: Heap, b: Heap, n: int, e: resend_queue::Entry)
    requires q_ok(outs, pend, res, kinds, a), res.len() > 0, noted(a, b, rkey(res[0])), rkey(e) == rkey(res[0]), resend_entry(e, kinds), 0 <= n <= res.len() - 1,
    ensures q_ok(outs, pend, res.skip(1).insert(n, e), kinds, b) // C02/C12
{ reveal(q_ok);
    let r2 = res.skip(1).insert(n, e); let x = rkey(res[0]); assert(resend_entry(res[0], kinds));
    assert forall|j: int| 0 <= j < pend.len() implies pend_entry(#[trigger] pend[j], kinds, b) by { assert(pend_entry(pend[j], kinds, a)); let (p, i) = pkey(pend[j]); assert(b.sent(p, i) == a.sent(p, i) + if (p, i) == x { 1int } else { 0 }); }
    assert forall|k: int, i: int| #![trigger outs[k], b.acked(outs[k].packet, i)] 0 <= k < outs.len() && 0 <= i < outs[k].packet.n() implies cared_for(outs[k].packet, i, pend, r2, kinds, b) by {
        let p = outs[k].packet; assert(b.acked(p, i) == a.acked(p, i)); assert(cared_for(p, i, pend, res, kinds, a)); assert(b.sent(p, i) >= a.sent(p, i));
        if resend_has(res, p, i) { res_skip(res, p, i); res_insert(res.skip(1), n, e, p, i); }
    }
    assert forall|j: int| 0 <= j < r2.len() implies resend_entry(#[trigger] r2[j], kinds) by { if j < n { assert(r2[j] == res[j + 1]); } else if j > n { assert(r2[j] == res[j]); } }
}
// a fragment is sent for the first time
pub proof fn q_pend_sent(outs: Seq<packet_sender::WindowEntry>, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, r2: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, a: Heap, b: Heap, n: int, e: resend_queue::Entry)
    requires q_ok(outs, pend, res, kinds, a), pend.len() > 0, noted(a, b, pkey(pend[0])), if pend[0].resend { 0 <= n <= res.len() && r2 == res.insert(n, e) && rkey(e) == pkey(pend[0]) && resend_entry(e, kinds) } else { r2 == res },
    ensures q_ok(outs, pend.skip(1), r2, kinds, b) // C02/C12
{ reveal(q_ok);
    let x = pkey(pend[0]); let p2 = pend.skip(1); assert(pend_entry(pend[0], kinds, a));
    assert forall|j: int| 0 <= j < p2.len() implies pend_entry(#[trigger] p2[j], kinds, b) by { assert(p2[j] == pend[j + 1]); assert(pend_entry(pend[j + 1], kinds, a)); let (p, i) = pkey(p2[j]); assert(b.sent(p, i) == a.sent(p, i) + if (p, i) == x { 1int } else { 0 }); }
    assert forall|k: int, i: int| #![trigger outs[k], b.acked(outs[k].packet, i)] 0 <= k < outs.len() && 0 <= i < outs[k].packet.n() implies cared_for(outs[k].packet, i, p2, r2, kinds, b) by {
        let p = outs[k].packet; assert(b.acked(p, i) == a.acked(p, i)); assert(cared_for(p, i, pend, res, kinds, a)); assert(b.sent(p, i) == a.sent(p, i) + if (p, i) == x { 1int } else { 0 });
        if pend_has(pend, p, i) { pend_skip(pend, p, i); }
        if a.sent(p, i) >= 1 {} else if (p, i) == x && !kinds[p] { assert(a.sent(p, i) == 0); }
        if kinds[p] && (resend_has(res, p, i) || (p, i) == x) { if pend[0].resend { res_insert(res, n, e, p, i); } }
    }
    assert forall|j: int| 0 <= j < r2.len() implies resend_entry(#[trigger] r2[j], kinds) by { if pend[0].resend { if j < n { assert(r2[j] == res[j]); } else if j > n { assert(r2[j] == res[j - 1]); } } }
    assert forall|p: PendingPacketRc, i: int| kinds.dom().contains(p) && !kinds[p] implies #[trigger] b.sent(p, i) <= 1 by { assert(b.sent(p, i) == a.sent(p, i) + if (p, i) == x { 1int } else { 0 }); }
}
// the fragments of a packet which leaves the send queue
pub open spec fn frags_of(pend: Seq<pending_queue::Entry>, p: PendingPacketRc, resend: bool) -> bool { forall|j: int| 0 <= j < pend.len() ==> pkey(#[trigger] pend[j]) == (p, j) && pend[j].resend == resend }
pub open spec fn emitted_ok(e: packet_sender::WindowEntry, rc: PendingPacketRc, resend: bool, a: Heap, b: Heap) -> bool {
    &&& e.packet == rc && !a.born(rc) && resend == mode_resend(e.mode@) && pk_ok(rc) && b.same_sent(a) && b.same_gone(a)
    &&& (forall|x: PendingPacketRc| #[trigger] b.born(x) == (x == rc || a.born(x))) && (forall|x: PendingPacketRc, i: int| x != rc ==> #[trigger] b.acked(x, i) == a.acked(x, i)) && forall|i: int| #[trigger] b.sent(rc, i) == 0
}
pub proof fn q_emit(outs: Seq<packet_sender::WindowEntry>, e: packet_sender::WindowEntry, pend: Seq<pending_queue::Entry>, res: Seq<resend_queue::Entry>, kinds: Map<PendingPacketRc, bool>, a: Heap, b: Heap, resend: bool)
    requires q_ok(outs, Seq::<pending_queue::Entry>::empty(), res, kinds, a), !a.born(e.packet), frags_of(pend, e.packet, resend), pend.len() == e.packet.n(), resend == mode_resend(e.mode@), pk_ok(e.packet),
        forall|x: PendingPacketRc| #[trigger] b.born(x) == (x == e.packet || a.born(x)), forall|x: PendingPacketRc, i: int| x != e.packet ==> #[trigger] b.acked(x, i) == a.acked(x, i), b.same_sent(a), forall|i: int| #[trigger] b.sent(e.packet, i) == 0,
    ensures q_ok(outs.push(e), pend, res, kinds.insert(e.packet, resend), b) // C02/C12/C05
{ reveal(q_ok);
    let k2 = kinds.insert(e.packet, resend); let o2 = outs.push(e); let none = Seq::<pending_queue::Entry>::empty();
    assert(!kinds.dom().contains(e.packet));
    assert forall|j: int| 0 <= j < pend.len() implies pend_entry(#[trigger] pend[j], k2, b) by { }
    assert forall|j: int| 0 <= j < res.len() implies resend_entry(#[trigger] res[j], k2) by { assert(resend_entry(res[j], kinds)); }
    assert forall|k: int| 0 <= k < o2.len() implies known(#[trigger] o2[k], k2) by { if k < outs.len() { assert(known(outs[k], kinds)); } }
    assert forall|k: int, i: int| #![trigger o2[k], b.acked(o2[k].packet, i)] 0 <= k < o2.len() && 0 <= i < o2[k].packet.n() implies cared_for(o2[k].packet, i, pend, res, k2, b) by {
        if k < outs.len() {
            assert(known(outs[k], kinds)); let p = outs[k].packet; assert(p != e.packet); assert(b.acked(p, i) == a.acked(p, i)); assert(b.sent(p, i) == a.sent(p, i)); assert(cared_for(p, i, none, res, kinds, a)); assert(!pend_has(none, p, i));
        } else { assert(pkey(pend[i]) == (e.packet, i)); }
    }
    assert forall|p: PendingPacketRc| #[trigger] b.born(p) == k2.dom().contains(p) by { assert(a.born(p) == kinds.dom().contains(p)); }
    assert forall|p: PendingPacketRc, i: int| k2.dom().contains(p) && !k2[p] implies #[trigger] b.sent(p, i) <= 1 by { assert(b.sent(p, i) == a.sent(p, i)); }
}
// packets in the window are kept alive by it
#[verifier::external_body]
pub fn held(s: &packet_sender::PacketSender, h: &Heap) ensures forall|k: int| 0 <= k < s.outs().len() ==> !h.gone((#[trigger] s.outs()[k]).packet) { }
// the transmission of every TimeSensitive packet which has left the send queue has begun
#[verifier::opaque]
pub open spec fn begun(outs: Seq<packet_sender::WindowEntry>, h: Heap) -> bool { forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).mode@ is TimeSensitive ==> h.sent(outs[k].packet, 0) >= 1 }
// or is about to
pub open spec fn begun1(e: packet_sender::WindowEntry, h: Heap, pend: Seq<pending_queue::Entry>, ready: bool) -> bool {
    e.mode@ is TimeSensitive ==> h.sent(e.packet, 0) >= 1 || ready && pend.len() > 0 && pkey(pend[0]) == (e.packet, 0int) && !h.acked(e.packet, 0)
}
#[verifier::opaque]
pub open spec fn begun_or_next(outs: Seq<packet_sender::WindowEntry>, h: Heap, pend: Seq<pending_queue::Entry>, ready: bool) -> bool { forall|k: int| 0 <= k < outs.len() ==> begun1(#[trigger] outs[k], h, pend, ready) }
// what was sent (again) waits for one to four round trips until it is sent again
#[verifier::opaque]
pub open spec fn timed(a: Seq<resend_queue::Entry>, b: Seq<resend_queue::Entry>, now_ms: u64, rtt_ms: u64) -> bool { forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]) || now_ms + rtt_ms <= b[j].resend_time <= now_ms + 4 * rtt_ms }
pub proof fn begun_sent(outs: Seq<packet_sender::WindowEntry>, a: Heap, b: Heap, k: (PendingPacketRc, int)) requires begun(outs, a), noted(a, b, k) ensures begun(outs, b)
{ reveal(begun); assert forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).mode@ is TimeSensitive implies b.sent(outs[k].packet, 0) >= 1 by { let p = outs[k].packet; assert(b.sent(p, 0) >= a.sent(p, 0)); } }
pub proof fn begun_same(outs: Seq<packet_sender::WindowEntry>, a: Heap, b: Heap) requires begun(outs, a), b.same_sent(a) ensures begun(outs, b)
{ reveal(begun); assert forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).mode@ is TimeSensitive implies b.sent(outs[k].packet, 0) >= 1 by { let p = outs[k].packet; assert(b.sent(p, 0) >= a.sent(p, 0)); } }
pub proof fn begun_weak(outs: Seq<packet_sender::WindowEntry>, h: Heap, pend: Seq<pending_queue::Entry>, ready: bool) requires begun(outs, h) ensures begun_or_next(outs, h, pend, ready)
{ reveal(begun); reveal(begun_or_next); }
pub proof fn begun_emit(outs: Seq<packet_sender::WindowEntry>, e: packet_sender::WindowEntry, h: Heap, pend: Seq<pending_queue::Entry>, ready: bool)
    requires begun(outs, h), e.mode@ is TimeSensitive ==> ready && pend.len() > 0 && pkey(pend[0]) == (e.packet, 0int) && !h.acked(e.packet, 0) ensures begun_or_next(outs.push(e), h, pend, ready) // C12/C05
{ reveal(begun); reveal(begun_or_next); let o2 = outs.push(e); assert forall|k: int| 0 <= k < o2.len() implies begun1(#[trigger] o2[k], h, pend, ready) by { if k < outs.len() { assert(o2[k] == outs[k]); } } }
// the next fragment has been sent, or need not be
pub proof fn begun_next(outs: Seq<packet_sender::WindowEntry>, a: Heap, b: Heap, pend: Seq<pending_queue::Entry>, ready: bool, p2: Seq<pending_queue::Entry>, r2: bool)
    requires begun_or_next(outs, a, pend, ready), pend.len() > 0, noted(a, b, pkey(pend[0])) ensures begun_or_next(outs, b, p2, r2) // C12/C05
{ reveal(begun_or_next); assert forall|k: int| 0 <= k < outs.len() implies begun1(#[trigger] outs[k], b, p2, r2) by { let p = outs[k].packet; assert(begun1(outs[k], a, pend, ready)); assert(b.sent(p, 0) == a.sent(p, 0) + if (p, 0int) == pkey(pend[0]) { 1int } else { 0 }); } }
pub proof fn begun_pop(outs: Seq<packet_sender::WindowEntry>, a: Heap, b: Heap, pend: Seq<pending_queue::Entry>, ready: bool, p2: Seq<pending_queue::Entry>, r2: bool)
    requires begun_or_next(outs, a, pend, ready), pend.len() > 0, b.same_sent(a), b.same_flags(a), a.acked(pkey(pend[0]).0, pkey(pend[0]).1) || forall|k: int| 0 <= k < outs.len() ==> (#[trigger] outs[k]).packet != pkey(pend[0]).0 ensures begun_or_next(outs, b, p2, r2) // C12/C05
{ reveal(begun_or_next); assert forall|k: int| 0 <= k < outs.len() implies begun1(#[trigger] outs[k], b, p2, r2) by { let p = outs[k].packet; assert(begun1(outs[k], a, pend, ready)); assert(b.sent(p, 0) == a.sent(p, 0)); } }
pub proof fn begun_out(outs: Seq<packet_sender::WindowEntry>, h: Heap, pend: Seq<pending_queue::Entry>) requires begun(outs, h) || begun_or_next(outs, h, pend, false) || begun_or_next(outs, h, Seq::empty(), true) ensures begun(outs, h)
{ reveal(begun); reveal(begun_or_next); if begun_or_next(outs, h, pend, false) { assert forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).mode@ is TimeSensitive implies h.sent(outs[k].packet, 0) >= 1 by { assert(begun1(outs[k], h, pend, false)); } }
  else if !begun(outs, h) { assert forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).mode@ is TimeSensitive implies h.sent(outs[k].packet, 0) >= 1 by { assert(begun1(outs[k], h, Seq::empty(), true)); } } }
pub proof fn begun_end(outs: Seq<packet_sender::WindowEntry>, h: Heap, pend: Seq<pending_queue::Entry>, ready: bool) requires begun_or_next(outs, h, pend, ready), pend.len() == 0 ensures begun(outs, h)
{ reveal(begun); reveal(begun_or_next); assert forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).mode@ is TimeSensitive implies h.sent(outs[k].packet, 0) >= 1 by { assert(begun1(outs[k], h, pend, ready)); } }
pub proof fn timed_none(a: Seq<resend_queue::Entry>, now_ms: u64, rtt_ms: u64) ensures timed(a, a, now_ms, rtt_ms) { reveal(timed); }
pub proof fn timed_skip(a: Seq<resend_queue::Entry>, b: Seq<resend_queue::Entry>, now_ms: u64, rtt_ms: u64) requires timed(a, b, now_ms, rtt_ms), b.len() > 0 ensures timed(a, b.skip(1), now_ms, rtt_ms)
{ reveal(timed); assert forall|j: int| 0 <= j < b.skip(1).len() implies a.contains(#[trigger] b.skip(1)[j]) || now_ms + rtt_ms <= b.skip(1)[j].resend_time <= now_ms + 4 * rtt_ms by { assert(b.skip(1)[j] == b[j + 1]); } }
pub proof fn timed_insert(a: Seq<resend_queue::Entry>, b: Seq<resend_queue::Entry>, n: int, e: resend_queue::Entry, now_ms: u64, rtt_ms: u64)
    requires timed(a, b, now_ms, rtt_ms), 0 <= n <= b.len(), now_ms + rtt_ms <= e.resend_time <= now_ms + 4 * rtt_ms ensures timed(a, b.insert(n, e), now_ms, rtt_ms) // C02/C11
{ reveal(timed); let c = b.insert(n, e); assert forall|j: int| 0 <= j < c.len() implies a.contains(#[trigger] c[j]) || now_ms + rtt_ms <= c[j].resend_time <= now_ms + 4 * rtt_ms by { if j < n { assert(c[j] == b[j]); } else if j > n { assert(c[j] == b[j - 1]); } } }
// the transmissions are those of the fragments in the frames
#[verifier::opaque]
pub open spec fn counted(a: Heap, b: Heap, xs: Seq<Item>) -> bool { forall|p: PendingPacketRc, i: int| #[trigger] b.sent(p, i) == a.sent(p, i) + cnt(xs, p, i) }
pub proof fn counted_none(a: Heap) ensures counted(a, a, Seq::empty()) { reveal(counted); }
pub proof fn counted_same(a: Heap, b: Heap, c: Heap, xs: Seq<Item>) requires counted(a, b, xs), c.same_sent(b) ensures counted(a, c, xs) { reveal(counted); assert forall|p: PendingPacketRc, i: int| #[trigger] c.sent(p, i) == a.sent(p, i) + cnt(xs, p, i) by { assert(c.sent(p, i) == b.sent(p, i)); } }
pub proof fn counted_push(a: Heap, b: Heap, c: Heap, xs: Seq<Item>, x: Item) requires counted(a, b, xs), noted(b, c, (x.p, x.i)) ensures counted(a, c, xs.push(x)) // C12
{ reveal(counted); cnt_push(xs, x); assert forall|p: PendingPacketRc, i: int| #[trigger] c.sent(p, i) == a.sent(p, i) + cnt(xs.push(x), p, i) by { assert(b.sent(p, i) == a.sent(p, i) + cnt(xs, p, i)); } }
impl HalfConnection {
    pub open spec fn q(self, h: Heap) -> bool { q_ok(self.packet_sender.outs(), self.pending_queue@, self.resend_queue.v(), self.kinds@, h) && begun(self.packet_sender.outs(), h) }
    // nothing more can be sent for now: nothing waits, and the next packet (if any) does not fit into the window or the receiver's memory
    pub open spec fn drained(self) -> bool {
        let s = self.packet_sender; let q = s.packet_send_queue@;
        &&& self.pending_queue@.len() == 0 && (self.rtt_ms > 0 ==> forall|j: int| 0 <= j < self.resend_queue.v().len() ==> (#[trigger] self.resend_queue.v()[j]).resend_time > self.now_ms)
        &&& q.len() == 0 || s.n() >= s.window_size || s.alloc + packet_sender::charge_len(q[0].data@.len() as int) > s.max_alloc
    }
}
pub open spec fn sent_now(a: HalfConnection, b: HalfConnection, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, ha: Heap, hb: Heap, log: Seq<DFrame>) -> bool {
    &&& data_sent(DStart { sent: s0, flush_alloc: a.flush_alloc, frame_queue: a.frame_queue, sync: a.sync_timeout_base_ms, keepalive: a.keepalive_base_ms }, s1, b.flush_alloc, b.frame_queue, b.sync_timeout_base_ms, b.keepalive_base_ms, a.now_ms, log)
    // which is all that has been transmitted
    &&& counted(ha, hb, all_items(log))
}
pub proof fn sent_times(a: HalfConnection, b: HalfConnection, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, ha: Heap, hb: Heap, log: Seq<DFrame>)
    requires sent_now(a, b, s0, s1, ha, hb, log), ensures b.sync_timeout_base_ms == a.sync_timeout_base_ms || b.sync_timeout_base_ms == a.now_ms, b.keepalive_base_ms == a.keepalive_base_ms || b.keepalive_base_ms == a.now_ms { reveal(data_sent); }
// ---- data frames
// a fragment which has been put into a frame
pub ghost struct Item { pub p: PendingPacketRc, pub i: int, pub resend: bool }
pub ghost struct DFrame { pub id: u32, pub nonce: bool, pub items: Seq<Item> }
// a packet which datagrams can represent
pub open spec fn pk_ok(p: PendingPacketRc) -> bool { p.info().channel_id < 64 && p.info().sequence_id <= 0xFFFFF && p.n() <= 65536 && p.info().data.len() <= MAX_PACKET_SIZE }
pub open spec fn item_ok(x: Item) -> bool { pk_ok(x.p) && 0 <= x.i < x.p.n() }
// the datagram which carries fragment i of packet p
pub open spec fn dg_of(p: PendingPacketRc, i: int) -> DgV {
    DgV { sequence_id: p.info().sequence_id, channel_id: p.info().channel_id, window_parent_lead: p.info().window_parent_lead, channel_parent_lead: p.info().channel_parent_lead, fragment_id: i as u16, fragment_id_last: (p.n() - 1) as u16, data: frag(p.info().data, i) }
}
pub open spec fn dgs(xs: Seq<Item>) -> Seq<DgV> { xs.map_values(|x: Item| dg_of(x.p, x.i)) }
pub open spec fn fr(x: DFrame) -> Seq<u8> { enc_frame(FrameV::Data(x.id, x.nonce, dgs(x.items))) }
pub open spec fn data_frames(l: Seq<DFrame>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| fr(l[i])) }
// the fragments of a frame which are sent until they are acknowledged
pub open spec fn rkeys(xs: Seq<Item>) -> Seq<(PendingPacketRc, int)> decreases xs.len() { if xs.len() == 0 { seq![] } else if xs.last().resend { rkeys(xs.drop_last()).push((xs.last().p, xs.last().i)) } else { rkeys(xs.drop_last()) } }
pub open spec fn keys(r: Seq<FragmentRef>) -> Seq<(PendingPacketRc, int)> { r.map_values(|x: FragmentRef| x.key()) }
// the record kept of a frame: an acknowledgement of it acknowledges just the fragments it carried
pub open spec fn recorded(e: frame_queue::Entry, x: DFrame, now_ms: u64) -> bool { e.size == fr(x).len() && e.send_time_ms == now_ms && e.nonce == x.nonce && !e.acked && keys(e.fragment_refs@) == rkeys(x.items) }
pub open spec fn all_items(l: Seq<DFrame>) -> Seq<Item> decreases l.len() { if l.len() == 0 { seq![] } else { all_items(l.drop_last()) + l.last().items } }
pub open spec fn cnt(xs: Seq<Item>, p: PendingPacketRc, i: int) -> int decreases xs.len() { if xs.len() == 0 { 0 } else { cnt(xs.drop_last(), p, i) + if xs.last().p == p && xs.last().i == i { 1int } else { 0 } } }
pub proof fn cnt_push(xs: Seq<Item>, x: Item) ensures forall|p: PendingPacketRc, i: int| #[trigger] cnt(xs.push(x), p, i) == cnt(xs, p, i) + if x.p == p && x.i == i { 1int } else { 0 } { assert(xs.push(x).drop_last() =~= xs); }
pub proof fn frames_push(l: Seq<DFrame>, x: DFrame)
    ensures data_frames(l.push(x)) == data_frames(l).push(fr(x)), total_len(data_frames(l.push(x))) == total_len(data_frames(l)) + fr(x).len(), all_items(l.push(x)) == all_items(l) + x.items,
{ assert(data_frames(l.push(x)) =~= data_frames(l).push(fr(x))); assert(l.push(x).drop_last() =~= l); assert(data_frames(l.push(x)).drop_last() =~= data_frames(l)); }
pub proof fn item_push(xs: Seq<Item>, x: Item, r: Seq<FragmentRef>)
    requires keys(r) == rkeys(xs),
    ensures dgs(xs.push(x)) == dgs(xs).push(dg_of(x.p, x.i)), enc_dgs(dgs(xs.push(x))) == enc_dgs(dgs(xs)) + enc_dg(dg_of(x.p, x.i)),
        x.resend ==> forall|e: FragmentRef| e.key() == (x.p, x.i) ==> keys(#[trigger] r.push(e)) == rkeys(xs.push(x)), !x.resend ==> keys(r) == rkeys(xs.push(x)),
{
    assert(dgs(xs.push(x)) =~= dgs(xs).push(dg_of(x.p, x.i))); assert(dgs(xs.push(x)).drop_last() =~= dgs(xs)); assert(xs.push(x).drop_last() =~= xs);
    if x.resend { assert forall|e: FragmentRef| e.key() == (x.p, x.i) implies keys(#[trigger] r.push(e)) == rkeys(xs.push(x)) by { assert(keys(r.push(e)) =~= keys(r).push(e.key())); } }
}
pub proof fn dg_len(p: PendingPacketRc, i: int) requires pk_ok(p), 0 <= i < p.n(), frag_ok(p.n(), i, frag(p.info().data, i).len() as int)
    ensures dg_of(p, i).rep(), 6 <= enc_dg(dg_of(p, i)).len() <= MAX_DATAGRAM_OVERHEAD + MAX_FRAGMENT_SIZE, // C04/C13
{ let d = dg_of(p, i); }
// stands for `rand::random()`
#[verifier::external_body]
pub fn random_bool() -> bool { rand_bool() }
#[verifier::external_body]
fn rand_bool() -> bool { unimplemented!() }
// no effect: one more transmission of a fragment
#[verifier::external_body]
pub fn note(h: &mut Heap, p: &PendingPacketRc, i: u16)
    ensures final(h).same_flags(*old(h)), final(h).same_born(*old(h)), final(h).same_gone(*old(h)), forall|q: PendingPacketRc, j: int| #[trigger] final(h).sent(q, j) == old(h).sent(q, j) + if q == *p && j == i { 1int } else { 0 },
{ }
// what `emit_cb` of `HalfConnection::emit_data_frames` captures
pub struct DataCb<'b, S: FrameSink> { pub sink: &'b mut S, pub send_rate_comp: &'b mut send_rate::SendRateComp, pub now_ms: u64, pub flush_alloc: &'b mut isize, pub sync_timeout_base_ms: &'b mut u64, pub keepalive_base_ms: &'b mut u64 }
impl<'b, S: FrameSink> DataCb<'b, S> {
    #[verifier::prophetic]
    pub open spec fn same(self, o: DataCb<'b, S>) -> bool {
        *final(self.sink) == *final(o.sink) && *final(self.flush_alloc) == *final(o.flush_alloc) && *final(self.send_rate_comp) == *final(o.send_rate_comp) && *final(self.sync_timeout_base_ms) == *final(o.sync_timeout_base_ms) && *final(self.keepalive_base_ms) == *final(o.keepalive_base_ms) && self.now_ms == o.now_ms
    }
//@ take src/half_connection/mod.rs closure HalfConnection::emit_data_frames/emit_cb
//@ sub /\b(sink|send_rate_comp)\./self.\1./
//@ sub /\*(flush_alloc|sync_timeout_base_ms|keepalive_base_ms)\b/*self.\1/
//@ sub /(?<![\w.])now_ms\b/self.now_ms/
//@ spec
    requires *old(self).flush_alloc >= isize::MIN + 2000, frame_bytes@.len() <= 1472,
    ensures final(self).same(*old(self)), final(self).sink.sent() == old(self).sink.sent().push(frame_bytes@), // C02/C15
        *final(self).flush_alloc == *old(self).flush_alloc - frame_bytes@.len(), // C13
        *final(self).sync_timeout_base_ms == old(self).now_ms, *final(self).keepalive_base_ms == old(self).now_ms, // C11/C10
//@ end
}
//@ take src/half_connection/emit.rs enum DataPushError
//@ end
//@ take src/half_connection/emit.rs struct InProgressDataFrame
//@ sub /nonce: bool,/nonce: bool, pub items: Ghost<Seq<Item>>,/!
//@ end
// where the emission started, and what has been sent since
pub ghost struct DStart { pub sent: Seq<Seq<u8>>, pub flush_alloc: isize, pub frame_queue: frame_queue::FrameQueue, pub sync: u64, pub keepalive: u64 }
//@ take src/half_connection/emit.rs struct DataFrameEmitter
//@ sub /flush_alloc: isize,/flush_alloc: isize, pub start: Ghost<DStart>, pub log: Ghost<Seq<DFrame>>,/!
//@ end
#[verifier::opaque]
pub open spec fn data_sent(a: DStart, s1: Seq<Seq<u8>>, alloc1: isize, q: frame_queue::FrameQueue, sync: u64, keepalive: u64, now_ms: u64, log: Seq<DFrame>) -> bool {
    let f = data_frames(log);
    let (g0, g1) = (a.frame_queue.frame_log, q.frame_log);
    // the frames, in order, at the expense of the allocation
    &&& s1 == a.sent + f && alloc1 == a.flush_alloc - total_len(f) && (forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).len() <= 1472)
    // each is recorded, with an id of its own
    &&& g1.base_id == g0.base_id && g1.frames@.len() == g0.frames@.len() + log.len() && (forall|i: int| 0 <= i < g0.frames@.len() ==> (#[trigger] g1.frames@[i]) == g0.frames@[i])
    &&& (forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).id == frame_queue::at(g0.base_id, g0.frames@.len() + i) && recorded(g1.frames@[g0.frames@.len() + i], log[i], now_ms))
    // the first is marked if the rate has limited what was sent before it
    &&& (forall|i: int| 0 <= i < log.len() ==> (#[trigger] g1.frames@[g0.frames@.len() + i]).rate_limited == (i == 0 && a.frame_queue.rate_limited))
    &&& (q.rate_limited == (log.len() == 0 && a.frame_queue.rate_limited) || alloc1 < 0)
    &&& q.window == a.frame_queue.window && q.feedback_gen == a.frame_queue.feedback_gen
    &&& sync == (if log.len() == 0 { a.sync } else { now_ms }) && keepalive == (if log.len() == 0 { a.keepalive } else { now_ms })
}
pub proof fn limited(a: DStart, s1: Seq<Seq<u8>>, alloc1: isize, q: frame_queue::FrameQueue, r: frame_queue::FrameQueue, sync: u64, keepalive: u64, now_ms: u64, log: Seq<DFrame>)
    requires data_sent(a, s1, alloc1, q, sync, keepalive, now_ms, log), alloc1 < 0, r.frame_log == q.frame_log, r.window == q.window, r.feedback_gen == q.feedback_gen ensures data_sent(a, s1, alloc1, r, sync, keepalive, now_ms, log) { reveal(data_sent); }
impl<'a, 'b, S: FrameSink> DataFrameEmitter<'a, DataCb<'b, S>> {
    #[verifier::prophetic]
    pub open spec fn same(self, o: Self) -> bool { self.emit_cb.same(o.emit_cb) && *final(self.frame_queue) == *final(o.frame_queue) && self.now_ms == o.now_ms && self.start == o.start }
    pub open spec fn cur(self) -> Seq<Item> { match self.in_progress_frame { None => Seq::<Item>::empty(), Some(f) => f.items@ } }
    // everything that has been put into frames
    pub open spec fn all(self) -> Seq<Item> { all_items(self.log@) + self.cur() }
    pub open spec fn room(self) -> int { self.flush_alloc - match self.in_progress_frame { None => 0, Some(f) => f.fbuilder.buffer@.len() + 4 } }
    pub open spec fn used(self) -> int { frame_queue::off(self.frame_queue.frame_log.next_id, self.frame_queue.window.base_id) + if self.in_progress_frame is Some { 1int } else { 0 } }
    // the next fragment will be accepted
    pub open spec fn ready(self) -> bool { self.room() >= 0 && self.used() < self.frame_queue.window.size }
    pub open spec fn base_ok(self) -> bool {
        &&& self.frame_queue.ok() && self.frame_queue.before(self.now_ms) && time_ok(self.now_ms) && self.emit_cb.now_ms == self.now_ms
        &&& self.flush_alloc == *self.emit_cb.flush_alloc && self.flush_alloc >= -1472
        &&& self.used() <= self.frame_queue.window.size
    }
    pub open spec fn log_ok(self) -> bool { data_sent(self.start@, self.emit_cb.sink.sent(), self.flush_alloc, *self.frame_queue, *self.emit_cb.sync_timeout_base_ms, *self.emit_cb.keepalive_base_ms, self.now_ms, self.log@) }
    pub open spec fn cur_ok(self) -> bool {
        match self.in_progress_frame {
            None => true,
            Some(f) => {
                &&& f.fbuilder.has(self.frame_queue.frame_log.next_id, f.nonce, dgs(f.items@)) && 1 <= f.items@.len() <= 127 && f.fbuilder.buffer@.len() <= 1468 && self.flush_alloc >= 0
                &&& keys(f.resend_refs@) == rkeys(f.items@) && frame_queue::refs_ok(f.resend_refs@)
            },
        }
    }
    pub open spec fn wf(self) -> bool { self.base_ok() && self.log_ok() && self.cur_ok() }
//@ take src/half_connection/emit.rs fn DataFrameEmitter::new
//@ sub /emit_cb: F\)/emit_cb: DataCb<'b, S>)/!
//@ sub /in_progress_frame: None,/in_progress_frame: None, start: Ghost(st), log: Ghost(Seq::empty()),/!
//@ ret r
//@ start
    let ghost st = DStart { sent: emit_cb.sink.sent(), flush_alloc, frame_queue: *frame_queue, sync: *emit_cb.sync_timeout_base_ms, keepalive: *emit_cb.keepalive_base_ms };
    proof { reveal(data_sent); assert(data_frames(Seq::<DFrame>::empty()) =~= Seq::<Seq<u8>>::empty()); assert(st.sent + Seq::<Seq<u8>>::empty() =~= st.sent); assert(all_items(Seq::<DFrame>::empty()) + Seq::<Item>::empty() =~= Seq::<Item>::empty()); }
//@ spec
    requires old(frame_queue).ok(), old(frame_queue).before(now_ms), time_ok(now_ms), emit_cb.now_ms == now_ms, flush_alloc == *emit_cb.flush_alloc, flush_alloc >= -1472,
    ensures r.wf(), r.in_progress_frame is None, r.log@.len() == 0, r.emit_cb == emit_cb, r.flush_alloc == flush_alloc, r.now_ms == now_ms, *r.frame_queue == *old(frame_queue), *final(r.frame_queue) == *final(frame_queue),
        r.start@ == (DStart { sent: r.emit_cb.sink.sent(), flush_alloc, frame_queue: *old(frame_queue), sync: *r.emit_cb.sync_timeout_base_ms, keepalive: *r.emit_cb.keepalive_base_ms }), r.all() == Seq::<Item>::empty(),
//@ end
//@ take src/half_connection/emit.rs fn DataFrameEmitter::reserve
//@ sub /self\.frame_queue\.mark_rate_limited\(\);/let ghost q9 = *self.frame_queue; self.frame_queue.mark_rate_limited(); proof { limited(self.start@, self.emit_cb.sink.sent(), self.flush_alloc, q9, *self.frame_queue, *self.emit_cb.sync_timeout_base_ms, *self.emit_cb.keepalive_base_ms, self.now_ms, self.log@); }/
//@ start
    hide(frame_queue::FrameQueue::wf); hide(frame_queue::FrameQueue::before);
//@ sub /self\.in_progress_frame\.as_ref\(\)\.map_or\((\(0, 0\)), \|(\w+)\| (\(.*\))\);/match &self.in_progress_frame { Some(\2) => \3, None => \1 };/!
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).all() == old(self).all(),
        match r {
            Ok(_) => *final(self) == *old(self) && final(self).ready(), // C12/C05
            Err(DataPushError::SizeLimited) => final(self).in_progress_frame is None && final(self).flush_alloc < 0 && final(self).frame_queue.rate_limited, // C11/C02/C13/C14
            Err(DataPushError::WindowLimited) => final(self).in_progress_frame is None && final(self).used() >= final(self).frame_queue.window.size, // C11/C02
        },
//@ end
//@ take src/half_connection/emit.rs fn DataFrameEmitter::finalize
//@ sub /\(self\.emit_cb\)\((\w+)\)/self.emit_cb.call(\1)/!
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).in_progress_frame is None, final(self).all() == old(self).all(), // C02/C12/C15/C13/C16
        final(self).room() == old(self).room(), final(self).used() == old(self).used(), old(self).in_progress_frame is None ==> *final(self) == *old(self), final(self).frame_queue.window == old(self).frame_queue.window,
//@ before /let frame_bytes = next_frame\.fbuilder\.build\(\);/
    proof {
        reveal(data_sent); let id = self.frame_queue.frame_log.next_id; let x = DFrame { id, nonce: next_frame.nonce, items: next_frame.items@ };
        data_body(id, next_frame.nonce, dgs(next_frame.items@)); frames_push(self.log@, x); self.log@ = self.log@.push(x);
    }
//@ end
//@ take src/half_connection/emit.rs fn DataFrameEmitter::push
//@ sub /self\.frame_queue\.mark_rate_limited\(\);/let ghost q9 = *self.frame_queue; self.frame_queue.mark_rate_limited(); proof { limited(self.start@, self.emit_cb.sink.sent(), self.flush_alloc, q9, *self.frame_queue, *self.emit_cb.sync_timeout_base_ms, *self.emit_cb.keepalive_base_ms, self.now_ms, self.log@); }/
//@ sub /resend: bool\)/resend: bool, h: &mut Heap)/!
//@ sub /if let Some\(ref mut next_frame\) = self\.in_progress_frame/if let Some(next_frame) = &mut self.in_progress_frame/!
//@ sub /(\w+)\.borrow\(\)/rc_borrow(\1, h)/!
//@ sub /rand::random\(\)/random_bool()/!
//@ sub /(next_frame\.fbuilder\.add\(&datagram\);)/\1 note(h, packet_rc, fragment_id); proof { item_push(next_frame.items@, x, next_frame.resend_refs@); } next_frame.items = Ghost(next_frame.items@.push(x)); proof { assert(next_frame.fbuilder.buffer@ =~= data_head(self.frame_queue.frame_log.next_id, next_frame.nonce) + enc_dgs(dgs(next_frame.items@))); }/!
//@ sub /nonce,(\s*\})/nonce, items: Ghost(Seq::empty()),\1/!
//@ sub /return Ok\(\(\)\);/proof { assert(self.all() =~= a0.push(x)); } return Ok(());/
//@ ret r
//@ spec
    requires old(self).wf(), fragment_id < packet_rc.n(), pk_ok(*packet_rc),
        !old(h).acked(*packet_rc, fragment_id as int), // C12
    ensures final(self).wf(), final(self).same(*old(self)), final(h).same_flags(*old(h)), final(h).same_born(*old(h)), final(h).same_gone(*old(h)),
        match r {
            Ok(_) => final(self).in_progress_frame is Some && final(self).all() == old(self).all().push(Item { p: *packet_rc, i: fragment_id as int, resend }) && final(self).room() + 6 <= old(self).room()
                && forall|q: PendingPacketRc, j: int| #[trigger] final(h).sent(q, j) == old(h).sent(q, j) + if q == *packet_rc && j == fragment_id { 1int } else { 0 }, // C02/C12/C05/C15/C13
            Err(e) => final(self).in_progress_frame is None && final(self).all() == old(self).all() && *final(h) == *old(h) && !old(self).ready()
                && if e is SizeLimited { final(self).flush_alloc < 0 && final(self).frame_queue.rate_limited } else { final(self).used() >= final(self).frame_queue.window.size }, // C02/C12/C05/C11/C13
        },
//@ start
    hide(frame_queue::FrameQueue::wf); hide(frame_queue::FrameQueue::before);
    let ghost x = Item { p: *packet_rc, i: fragment_id as int, resend }; let ghost a0 = self.all();
    proof { assert(keys(Seq::<FragmentRef>::empty()) =~= Seq::<(PendingPacketRc, int)>::empty()); assert(dgs(Seq::<Item>::empty()) =~= Seq::<DgV>::empty()); }
//@ after /let datagram =/
    proof { dg_len(*packet_rc, fragment_id as int); assert(datagram.v() =~= dg_of(*packet_rc, fragment_id as int)); }
//@ end
}
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
pub proof fn sync_len(f: SyncFrame) ensures enc_frame(FrameV::Sync(f)).len() == 14 { }
pub open spec fn frames_sent(s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, alloc0: isize, alloc1: isize) -> bool {
    exists|f: Seq<Seq<u8>>| s1 == s0 + f && alloc1 == alloc0 - #[trigger] total_len(f) && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).len() <= 1472
}
proof fn len_add(f: Seq<Seq<u8>>, g: Seq<Seq<u8>>) ensures total_len(f + g) == total_len(f) + total_len(g) decreases g.len()
{ if g.len() == 0 { assert(f + g =~= f); } else { len_add(f, g.drop_last()); assert((f + g).drop_last() =~= f + g.drop_last()); } }
pub broadcast proof fn sent_then(s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, s2: Seq<Seq<u8>>, a0: isize, a1: isize, a2: isize)
    requires #[trigger] frames_sent(s0, s1, a0, a1), #[trigger] frames_sent(s1, s2, a1, a2),
    ensures frames_sent(s0, s2, a0, a2), // C13
{
    let f = choose|f: Seq<Seq<u8>>| s1 == s0 + f && a1 == a0 - #[trigger] total_len(f) && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).len() <= 1472;
    let g = choose|f: Seq<Seq<u8>>| s2 == s1 + f && a2 == a1 - #[trigger] total_len(f) && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).len() <= 1472;
    len_add(f, g); assert(s2 =~= s0 + (f + g)); assert(a2 == a0 - total_len(f + g));
    assert forall|i: int| 0 <= i < (f + g).len() implies (#[trigger] (f + g)[i]).len() <= 1472 by { if i < f.len() { assert((f + g)[i] == f[i]); } else { assert((f + g)[i] == g[i - f.len()]); } }
}
pub broadcast proof fn sent_one(s0: Seq<Seq<u8>>, x: Seq<u8>, a0: isize, a1: isize) requires a1 == a0 - x.len(), x.len() <= 1472 ensures #[trigger] frames_sent(s0, s0.push(x), a0, a1)
{ let f = seq![x]; assert(f.drop_last() =~= Seq::<Seq<u8>>::empty()); assert(total_len(f.drop_last()) == 0); assert(total_len(f) == x.len()); assert(s0.push(x) =~= s0 + f); assert(f[0] == x); }
pub broadcast proof fn sent_none(s0: Seq<Seq<u8>>, a0: isize) ensures #[trigger] frames_sent(s0, s0, a0, a0)
{ let f = Seq::<Seq<u8>>::empty(); assert(s0 =~= s0 + f); assert(total_len(f) == 0); }
pub broadcast proof fn sent_data(a: HalfConnection, b: HalfConnection, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, ha: Heap, hb: Heap, log: Seq<DFrame>)
    requires #[trigger] sent_now(a, b, s0, s1, ha, hb, log) ensures frames_sent(s0, s1, a.flush_alloc, b.flush_alloc) { reveal(data_sent); let f = data_frames(log); assert(b.flush_alloc == a.flush_alloc - total_len(f)); }
pub broadcast proof fn sent_acks(a: HalfConnection, b: HalfConnection, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, log: Seq<Seq<AckGroup>>)
    requires #[trigger] acks_sent(a, b, s0, s1, log) ensures frames_sent(s0, s1, a.flush_alloc, b.flush_alloc) { let f = ack_frames(a.frame_ack_queue.receive_window.base_id, a.packet_receiver.base_id, log); assert(b.flush_alloc == a.flush_alloc - total_len(f)); }
pub broadcast proof fn turn(a: HalfConnection, b: HalfConnection, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, ha: Heap, hb: Heap, log: Seq<DFrame>)
    requires #[trigger] sent_now(a, b, s0, s1, ha, hb, log), b.data_done() ensures a.data_turn(s0, ha) { }
pub broadcast group sents { sent_then, sent_one, sent_none, sent_data, sent_acks }
// the allocation after the time up to `now` has been credited
pub open spec fn credit(a: HalfConnection, now: time::Instant, alloc: isize) -> bool {
    match a.time_last_flushed {
        None => alloc == a.flush_alloc,
        Some(last) => ({
            let rate = a.send_rate_comp.rate();
            let sum = sat_add(a.flush_alloc, whole(rate.ieee_mul(time::spec_secs(now, last)).ieee_add(a.flush_alloc_frac)));
            let cap = whole(rate.ieee_mul(match a.send_rate_comp.rtt() { Some(t) => t, None => 0.0 }));
            alloc == if sum < cap { sum } else { cap as int }
        }),
    }
}
impl HalfConnection {
    // why no more data is sent: the rate, the frame window, or nothing to send
    pub open spec fn data_done(self) -> bool { self.flush_alloc < 0 || frame_queue::off(self.frame_queue.frame_log.next_id, self.frame_queue.window.base_id) >= self.frame_queue.window.size || self.drained() }
    // nothing is owed
    pub open spec fn acks_done(self) -> bool { self.frame_ack_queue.entries@.len() == 0 && !self.sync_reply }
    pub open spec fn sync_done(self) -> bool {
        self.now_ms - self.sync_timeout_base_ms < max2(self.rto_ms as int, 2000)
        || self.frame_queue.frame_log.next_id == self.frame_queue.window.base_id && (self.packet_sender.next_id == self.packet_sender.base_id || self.resend_queue.v().len() > 0 || self.pending_queue@.len() > 0)
    }
    pub open spec fn keepalive_done(self) -> bool {
        self.sync_keepalive_interval_ms matches Some(t) ==> self.flush_alloc - 14 < -1472 || self.now_ms - self.keepalive_base_ms < max2(t as int, if self.flush_alloc >= 0 { 1 } else { 2000 })
    }
    // data is considered with the whole allocation
    pub open spec fn data_turn(self, s0: Seq<Seq<u8>>, h: Heap) -> bool { exists|m: HalfConnection, sm: Seq<Seq<u8>>, hm: Heap, log: Seq<DFrame>| #[trigger] sent_now(self, m, s0, sm, h, hm, log) && m.data_done() }
//@ take src/half_connection/mod.rs fn HalfConnection::emit_frames
//@ sub /sink: &mut impl FrameSink\)/sink: &mut impl FrameSink, h: &mut Heap)/!
//@ sub /(self\.emit_data_frames\([^;{}()]*)\)/\1, h)/!
//@ sub /let _ = (\w[^;]*?)\s*\.and_then\(\|_\| ([^;]*?\))\)\s*\.and_then\(\|_\| ([^;]*?\))\);/let r1 = \1; proof { sent_then(s0, sp, sink.sent(), a.flush_alloc, ap, self.flush_alloc); sp = sink.sent(); ap = self.flush_alloc; } if r1.is_ok() { let r2 = \2; proof { sent_then(s0, sp, sink.sent(), a.flush_alloc, ap, self.flush_alloc); sp = sink.sent(); ap = self.flush_alloc; } if r2.is_ok() { let r3 = \3; proof { sent_then(s0, sp, sink.sent(), a.flush_alloc, ap, self.flush_alloc); sp = sink.sent(); ap = self.flush_alloc; } } }/s!
//@ after /let ack_result = /
    proof { sent_then(s0, sp, sink.sent(), a.flush_alloc, ap, self.flush_alloc); sp = sink.sent(); ap = self.flush_alloc; }
//@ start
    broadcast use sent_data, sent_acks, turn;
    let ghost a = *self; let ghost s0 = sink.sent(); let ghost ha = *h; let ghost mut sp = s0; let ghost mut ap = self.flush_alloc;
    proof { sent_none(s0, ap); }
//@ exit
    proof { sent_then(s0, sp, sink.sent(), a.flush_alloc, ap, self.flush_alloc); sp = sink.sent(); ap = self.flush_alloc; }
//@ spec
    requires old(self).wf(), old(self).q(*old(h)), now_ms == old(self).now_ms, rtt_ms == old(self).rtt_ms, rto_ms == old(self).rto_ms,
    ensures final(self).wf(), final(self).q(*final(h)), // C02/C05/C12
        *final(self) == (HalfConnection { packet_sender: final(self).packet_sender, pending_queue: final(self).pending_queue, resend_queue: final(self).resend_queue, frame_queue: final(self).frame_queue, frame_ack_queue: final(self).frame_ack_queue,
            send_rate_comp: final(self).send_rate_comp, flush_alloc: final(self).flush_alloc, sync_timeout_base_ms: final(self).sync_timeout_base_ms, keepalive_base_ms: final(self).keepalive_base_ms, sync_reply: final(self).sync_reply, data_first: final(self).data_first, kinds: final(self).kinds, ..*old(self) }),
        // all that is sent is paid for
        frames_sent(old(sink).sent(), final(sink).sent(), old(self).flush_alloc, final(self).flush_alloc), // C13/C18
        // if the rate permits more, then nothing is left to be sent
        final(self).flush_alloc >= 0 ==> final(self).data_done() && final(self).acks_done() && final(self).sync_done(), // C02/C05/C09/C11
        // the connection is kept alive
        final(self).keepalive_done(), // C10/C11
        // acknowledgements can not starve data
        old(self).data_first ==> (HalfConnection { data_first: old(self).flush_alloc < 0, ..*old(self) }).data_turn(old(sink).sent(), *old(h)), // C11/C02
        old(self).flush_alloc >= 0 ==> final(self).data_first || old(self).data_first || final(self).flush_alloc >= 0 || exists|m: HalfConnection, sm: Seq<Seq<u8>>| m.flush_alloc >= 0 && #[trigger] m.data_turn(sm, *old(h)), // C11/C02
//@ end
//@ take src/half_connection/mod.rs fn HalfConnection::flush
//@ sub /sink: &mut impl FrameSink\)/sink: &mut impl FrameSink, h: &mut Heap)/!
//@ sub /(self\.emit_frames\([^;{}()]*)\)/\1, h)/!
//@ sub /time::Instant::now\(\)/time::clock(self.time_base, self.now_ms)/
//@ after /self\.fill_flush_alloc\(/
    proof { assert(credit(*old(self), self.time_last_flushed->0, self.flush_alloc)); }
//@ spec
    requires old(self).wf(), old(self).q(*old(h)),
    ensures final(self).wf(), final(self).q(*final(h)), // C02/C05/C12
        final(self).flush_alloc >= 0 ==> final(self).data_done() && final(self).acks_done() && final(self).sync_done(), // C02/C05/C09/C11
        final(self).keepalive_done(), // C10/C11
        // the elapsed time is credited before anything is sent, and what is sent is paid for
        exists|now: time::Instant, alloc: isize| #[trigger] credit(*old(self), now, alloc) && time::ms_between(now, old(self).time_base) >= old(self).now_ms && final(self).time_last_flushed == Some(now) && frames_sent(old(sink).sent(), final(sink).sent(), alloc, final(self).flush_alloc), // C13/C18
//@ end
}
