pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::get] (d: &std::collections::VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures i < d@.len() ==> r == Some(&d@[i as int]), i >= d@.len() ==> r is None;
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::get_mut] (d: &mut std::collections::VecDeque<T, A>, i: usize) -> (r: Option<&mut T>)
    ensures i >= old(d)@.len() ==> r is None && final(d)@ == old(d)@,
        i < old(d)@.len() ==> (r matches Some(x) && *x == old(d)@[i as int] && final(d)@ == old(d)@.update(i as int, *final(x)));
// stands for `d.drain(.. n);`
#[verifier::external_body]
pub fn drain_front<T>(d: &mut VecDeque<T>, n: usize) requires n <= old(d)@.len() ensures final(d)@ == old(d)@.subrange(n as int, old(d)@.len() as int) { d.drain(.. n); }
// the fragments refs, and no others, have been acknowledged (those of packets which are gone need no acknowledgement)
pub open spec fn marks(a: Heap, b: Heap, refs: Seq<FragmentRef>) -> bool {
    &&& b.same_born(a) && b.same_sent(a)
    &&& forall|p: PendingPacketRc, i: int| #[trigger] b.acked(p, i) ==> a.acked(p, i) || exists|k: int| 0 <= k < refs.len() && (#[trigger] refs[k]).key() == (p, i)
    &&& forall|p: PendingPacketRc, i: int| a.acked(p, i) ==> #[trigger] b.acked(p, i)
    &&& forall|p: PendingPacketRc| a.gone(p) ==> #[trigger] b.gone(p)
    &&& forall|k: int| 0 <= k < refs.len() ==> b.acked((#[trigger] refs[k]).packet.target(), refs[k].fragment_id as int) || b.gone(refs[k].packet.target())
}
// one more
pub proof fn marks_one(a: Heap, b: Heap, c: Heap, refs: Seq<FragmentRef>, r: FragmentRef)
    requires marks(a, b, refs), c.same_born(b), c.same_sent(b), forall|p: PendingPacketRc, i: int| b.acked(p, i) ==> #[trigger] c.acked(p, i), forall|p: PendingPacketRc| b.gone(p) ==> #[trigger] c.gone(p),
        forall|p: PendingPacketRc, i: int| #[trigger] c.acked(p, i) ==> b.acked(p, i) || (p, i) == r.key(), c.acked(r.packet.target(), r.fragment_id as int) || c.gone(r.packet.target()),
    ensures marks(a, c, refs.push(r)) // C12/C02
{
    let q = refs.push(r);
    assert forall|p: PendingPacketRc, i: int| #[trigger] c.acked(p, i) implies a.acked(p, i) || exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).key() == (p, i) by {
        if b.acked(p, i) { if !a.acked(p, i) { let k = choose|k: int| 0 <= k < refs.len() && (#[trigger] refs[k]).key() == (p, i); assert(q[k].key() == (p, i)); } }
        else { assert(q[refs.len() as int].key() == (p, i)); }
    }
    assert forall|k: int| 0 <= k < q.len() implies c.acked((#[trigger] q[k]).packet.target(), q[k].fragment_id as int) || c.gone(q[k].packet.target()) by { if k < refs.len() { assert(q[k] == refs[k]); } }
}
// stands for `std::mem::take(b)`
#[verifier::external_body]
pub fn take_refs(b: &mut Box<[FragmentRef]>) -> (r: Box<[FragmentRef]>) ensures r@ == old(b)@, final(b)@.len() == 0 { std::mem::take(b) }
//@ take src/half_connection/frame_queue.rs struct Entry
//@ end
//@ take src/half_connection/frame_queue.rs struct FrameLog
//@ end
//@ take src/half_connection/loss_rate.rs struct LossInterval
//@ end
//@ take src/half_connection/loss_rate.rs struct LossIntervalQueue
//@ end
//@ take src/half_connection/frame_queue.rs struct AckData
//@ end
//@ take src/half_connection/frame_queue.rs struct FeedbackGen
//@ end
//@ take src/half_connection/frame_queue.rs struct TransferWindow
//@ end
//@ take src/half_connection/frame_queue.rs struct FrameQueue
//@ end
// half of the id space, and more than any window the library uses
pub open spec fn time_ok(t: u64) -> bool { t < 0x4000_0000_0000_0000 }
pub open spec fn refs_ok(r: Seq<FragmentRef>) -> bool { forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).ok() }
pub open spec fn last_time(f: Seq<Entry>) -> u64 { if f.len() == 0 { 0 } else { f.last().send_time_ms } }
pub fn last_send_time(f: &VecDeque<Entry>) -> (r: u64) ensures r == last_time(f@) { match f.back() { Some(last) => last.send_time_ms, None => 0 } }
impl FrameLog {
    pub open spec fn wf(self) -> bool {
        &&& self.frames@.len() <= 0x2000_0000 && self.next_id == at(self.base_id, self.frames@.len() as int)
        &&& forall|i: int, j: int| 0 <= i < j < self.frames@.len() ==> (#[trigger] self.frames@[i]).send_time_ms <= (#[trigger] self.frames@[j]).send_time_ms
        &&& forall|i: int| 0 <= i < self.frames@.len() ==> time_ok((#[trigger] self.frames@[i]).send_time_ms)
        &&& forall|i: int| 0 <= i < self.frames@.len() ==> refs_ok((#[trigger] self.frames@[i]).fragment_refs@)
    }
    pub open spec fn has(self, id: u32) -> bool { off(id, self.base_id) < self.frames@.len() }
    pub open spec fn get(self, id: u32) -> Entry { self.frames@[off(id, self.base_id)] }
    pub open spec fn same(self, o: FrameLog) -> bool { self.next_id == o.next_id && self.base_id == o.base_id && self.frames@ == o.frames@ }
//@ take src/half_connection/frame_queue.rs fn FrameLog::new
//@ ret r
//@ spec
    ensures r.wf(), r.frames@.len() == 0, r.base_id == base_id,
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::next_id
//@ ret r
//@ spec
    ensures r == self.next_id,
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::base_id
//@ ret r
//@ spec
    ensures r == self.base_id,
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::get_frame
//@ ret r
//@ spec
    ensures r matches Some(e) ==> self.has(frame_id) && *e == self.get(frame_id), r is None ==> !self.has(frame_id), // C15
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::get_frame_mut
//@ ret r
//@ spec
    ensures !old(self).has(frame_id) ==> r is None && final(self).same(*old(self)), // C15
        old(self).has(frame_id) ==> (r matches Some(e) && *e == old(self).get(frame_id) && final(self).next_id == old(self).next_id && final(self).base_id == old(self).base_id
            && final(self).frames@ == old(self).frames@.update(off(frame_id, old(self).base_id), *final(e))), // C15
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::len
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.frames@.len(),
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::push
//@ sub /self\.frames\.back\(\)\.map_or\(0, \|last\| last\.send_time_ms\)/last_send_time(&self.frames)/
//@ spec
    requires old(self).wf(), old(self).frames@.len() < 0x2000_0000, entry.send_time_ms >= last_time(old(self).frames@), time_ok(entry.send_time_ms), refs_ok(entry.fragment_refs@),
    ensures final(self).wf(), final(self).base_id == old(self).base_id, final(self).frames@ == old(self).frames@.push(entry), // C15
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::find_expiration_cutoff
//@ ret r
//@ spec
    requires self.wf(),
    ensures off(r, self.base_id) <= self.frames@.len(), // C15/C11
        forall|i: int| 0 <= i < off(r, self.base_id) ==> (#[trigger] self.frames@[i]).send_time_ms < thresh_ms, // C15/C11
        forall|i: int| off(r, self.base_id) <= i < self.frames@.len() ==> (#[trigger] self.frames@[i]).send_time_ms >= thresh_ms, // C15/C11
//@ loop 0 it
    invariant_except_break expiry_point == at(self.base_id, it.index@),
    invariant self.wf(), it.index@ <= self.frames@.len(), off(expiry_point, self.base_id) <= self.frames@.len(),
        forall|i: int| 0 <= i < off(expiry_point, self.base_id) ==> (#[trigger] self.frames@[i]).send_time_ms < thresh_ms,
    ensures
        forall|i: int| off(expiry_point, self.base_id) <= i < self.frames@.len() ==> (#[trigger] self.frames@[i]).send_time_ms >= thresh_ms,
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameLog::drain
//@ sub /self\.frames\.drain\(\.\. (\w+)\);/drain_front(&mut self.frames, \1);/!
//@ spec
    requires old(self).wf(), off(frame_id, old(self).base_id) <= old(self).frames@.len(),
    ensures final(self).wf(), final(self).base_id == frame_id, final(self).next_id == old(self).next_id, // C15/C11
        final(self).frames@ == old(self).frames@.subrange(off(frame_id, old(self).base_id), old(self).frames@.len() as int), // C15
//@ end
}
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::front_mut] (d: &mut std::collections::VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures old(d)@.len() == 0 ==> r is None && final(d)@ == old(d)@,
        old(d)@.len() > 0 ==> (r matches Some(x) && *x == old(d)@[0] && final(d)@ == old(d)@.update(0, *final(x)));
pub open spec fn sat(a: u32) -> u32 { if a == u32::MAX { a } else { (a + 1) as u32 } }
impl LossIntervalQueue {
    pub open spec fn wf(self) -> bool { self.entries@.len() <= 9 }
    // one more frame in the latest loss interval
    pub open spec fn longer(self, o: LossIntervalQueue) -> bool { self.entries@ == o.entries@.update(0, LossInterval { length: sat(o.entries@[0].length), ..o.entries@[0] }) }
//@ take src/half_connection/loss_rate.rs fn LossIntervalQueue::new
//@ ret r
//@ spec
    ensures r.entries@.len() == 0, // C14
//@ end
//@ take src/half_connection/loss_rate.rs fn LossIntervalQueue::push_ack
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), if old(self).entries@.len() == 0 { final(self).entries@ == old(self).entries@ } else { final(self).longer(*old(self)) }, // C14
//@ end
//@ take src/half_connection/loss_rate.rs fn LossIntervalQueue::push_nack
//@ spec
    requires old(self).wf(), time_ok(send_time_ms), time_ok(rtt_ms),
    ensures final(self).wf(), // C06/C14
        // losses within one round trip of the first are one loss event (RFC 5348, 5.2)
        if old(self).entries@.len() > 0 && send_time_ms < old(self).entries@[0].end_time_ms { final(self).longer(*old(self)) }
        else { final(self).entries@ == (seq![LossInterval { end_time_ms: (send_time_ms + rtt_ms) as u64, length: 1 }] + old(self).entries@).take(if old(self).entries@.len() >= 9 { 9 } else { old(self).entries@.len() as int + 1 }) }, // C14
//@ exit
    proof {
        if !(old(self).entries@.len() > 0 && send_time_ms < old(self).entries@[0].end_time_ms) {
            let n: int = if old(self).entries@.len() >= 9 { 9 } else { old(self).entries@.len() as int + 1 };
            assert(self.entries@ =~= (seq![LossInterval { end_time_ms: (send_time_ms + rtt_ms) as u64, length: 1 }] + old(self).entries@).take(n));
        }
    }
//@ end
// `compute_loss_rate` (floating point) is not under contract here
#[verifier::external_body]
pub fn compute_loss_rate(&self) -> f64 { 0.0 }
//@ take src/half_connection/loss_rate.rs fn LossIntervalQueue::reset
//@ sub /\(Self::WEIGHTS\[0\] \/ initial_p\)[^;]*as u32/interval_for(initial_p)/!
//@ spec
    requires old(self).wf(), old(self).entries@.len() > 0,
    ensures final(self).wf(), final(self).entries@.len() == 1, final(self).entries@[0].end_time_ms == old(self).entries@[0].end_time_ms, // C14
//@ end
}
#[verifier::external_body]
pub fn interval_for(p: f64) -> u32 { 0 }
// stands for `(total as f64 / ms_to_s(dt)).clamp(0.0, u32::MAX as f64) as u32`
#[verifier::external_body]
pub fn measured_rate(total: usize, dt: u64) -> u32 { 0 }
//@ take src/half_connection/send_rate.rs struct FeedbackData
//@ end
//@ take src/frame/mod.rs struct AckGroup
//@ end
pub open spec fn rtt_ok(r: Option<u64>) -> bool { r matches Some(t) ==> time_ok(t) }
impl AckData { pub open spec fn ok(self) -> bool { self.total_ack_size <= 0x4000_0000_0000_0000 } }
impl FeedbackGen {
//@ take src/half_connection/frame_queue.rs const FeedbackGen::INITIAL_RTT_MS
//@ end
    // held frames are in the log, and have been acknowledged
    pub open spec fn wf(self, log: FrameLog) -> bool {
        &&& self.reorder_buffer.wf() && self.loss_intervals.wf() && log.wf()
        &&& log.frames@.len() <= self.reorder_buffer.max_span <= 0x1000_0000
        &&& off(self.reorder_buffer.base_id, log.base_id) <= log.frames@.len()
        &&& forall|id: u32| #[trigger] self.reorder_buffer.held(id) ==> log.has(id) && log.get(id).acked
    }
    pub open spec fn before(self, t: u64) -> bool { (self.last_feedback_ms matches Some(x) ==> x <= t) && (self.ack_data matches Some(d) ==> d.last_send_time_ms <= t) }
    pub open spec fn same_data(self, o: FeedbackGen) -> bool { self.last_feedback_ms == o.last_feedback_ms && self.ack_data == o.ack_data }
//@ take src/half_connection/frame_queue.rs fn FeedbackGen::new
//@ ret r
//@ spec
    requires max_span <= 0x1000_0000,
    ensures r.reorder_buffer.wf(), r.reorder_buffer.frame_count == 0, r.reorder_buffer.base_id == base_id, r.reorder_buffer.max_span == max_span, r.loss_intervals.wf(),
        r.ack_data is None, r.last_feedback_ms is None, // C15
//@ end
//@ take src/half_connection/frame_queue.rs fn FeedbackGen::reset_loss_rate
//@ spec
    requires old(self).loss_intervals.wf(), old(self).loss_intervals.entries@.len() > 0,
    ensures final(self).loss_intervals.wf(), final(self).reorder_buffer == old(self).reorder_buffer, final(self).same_data(*old(self)),
//@ end
//@ take src/half_connection/frame_queue.rs fn FeedbackGen::get_feedback
//@ ret r
//@ sub /let delta_time_s = ms_to_s\(([^;]*)\);\s*\(([^;{}]*) as f64 \/ delta_time_s\)\.clamp\([^;{}]*as u32/measured_rate(\2, \1)/!
//@ spec
    requires old(self).before(now_ms),
    ensures
        // feedback only for frames acknowledged since the last time
        old(self).ack_data is None ==> r is None && *final(self) == *old(self), // C15/C14
        old(self).ack_data matches Some(d) ==> (r matches Some(f) && f.rtt_ms == now_ms - d.last_send_time_ms && f.rate_limited == d.rate_limited) && final(self).ack_data is None && final(self).last_feedback_ms == Some(now_ms), // C15/C14
        final(self).reorder_buffer == old(self).reorder_buffer, final(self).loss_intervals == old(self).loss_intervals, final(self).before(now_ms),
//@ end
//@ take src/half_connection/frame_queue.rs fn FeedbackGen::put_ack_data
//@ sub /if let Some\(ref mut (\w+)\) = self\.ack_data/if let Some(\1) = &mut self.ack_data/
//@ spec
    requires old(self).ack_data matches Some(d) ==> d.ok(), ack_data.total_ack_size < 0x4000_0000_0000_0000,
    ensures final(self).reorder_buffer == old(self).reorder_buffer, final(self).loss_intervals == old(self).loss_intervals, final(self).last_feedback_ms == old(self).last_feedback_ms,
        final(self).ack_data == Some(match old(self).ack_data { None => ack_data, Some(d) => AckData { last_send_time_ms: if d.last_send_time_ms >= ack_data.last_send_time_ms { d.last_send_time_ms } else { ack_data.last_send_time_ms },
            total_ack_size: (d.total_ack_size + ack_data.total_ack_size) as usize, rate_limited: d.rate_limited || ack_data.rate_limited } }), // C15/C14
//@ end
//@ take src/half_connection/frame_queue.rs fn FeedbackGen::notify_ack
//@ sub /let ref mut loss_intervals = self\.loss_intervals;//
//@ sub /(?<!\.)\bloss_intervals\./self.loss_intervals./
//@ sub /self\.reorder_buffer\.put\(frame_id, \|frame_id, was_seen\| \{(.*)\}\);/let mut calls = Calls::new(); self.reorder_buffer.put(frame_id, &mut calls);\n let mut k: usize = 0; while k < calls.v.len() { let (frame_id, was_seen) = calls.v[k]; \1 k = k + 1; }/s!
//@ spec
    requires old(self).wf(*frame_log), frame_log.has(frame_id), frame_log.get(frame_id).acked, !old(self).reorder_buffer.held(frame_id), rtt_ok(rtt_ms),
    ensures final(self).wf(*frame_log), final(self).same_data(*old(self)), final(self).reorder_buffer.max_span == old(self).reorder_buffer.max_span, // C15/C03
        forall|id: u32| #[trigger] final(self).reorder_buffer.held(id) ==> old(self).reorder_buffer.held(id) || id == frame_id,
//@ loop 0
    invariant 0 <= k <= calls.v@.len(), self.reorder_buffer == rb, self.loss_intervals.wf(), self.same_data(*old(self)), rtt_ok(rtt_ms), frame_log.wf(),
        forall|i: int| 0 <= i < calls.v@.len() ==> frame_log.has((#[trigger] calls.v@[i]).0),
    decreases calls.v@.len() - k,
//@ before /let mut k: usize = 0;/
    let ghost rb = self.reorder_buffer;
    proof { ids_in(*old(self), *frame_log, rb, calls.v@, Some(frame_id)); }
//@ end
//@ take src/half_connection/frame_queue.rs fn FeedbackGen::notify_advancement
//@ sub /let ref mut loss_intervals = self\.loss_intervals;//
//@ sub /(?<!\.)\bloss_intervals\./self.loss_intervals./
//@ sub /self\.reorder_buffer\.advance\(new_base_id, \|frame_id, was_seen\| \{(.*)\}\);/let mut calls = Calls::new(); self.reorder_buffer.advance(new_base_id, &mut calls);\n let mut k: usize = 0; while k < calls.v.len() { let (frame_id, was_seen) = calls.v[k]; \1 k = k + 1; }/s!
//@ spec
    requires old(self).wf(*frame_log), off(new_base_id, frame_log.base_id) <= frame_log.frames@.len(), rtt_ok(rtt_ms),
    ensures final(self).wf(*frame_log), final(self).same_data(*old(self)), final(self).reorder_buffer.max_span == old(self).reorder_buffer.max_span, // C15/C03
        off(new_base_id, frame_log.base_id) <= off(final(self).reorder_buffer.base_id, frame_log.base_id), // C11
//@ loop 0
    invariant 0 <= k <= calls.v@.len(), self.reorder_buffer == rb, self.loss_intervals.wf(), self.same_data(*old(self)), rtt_ok(rtt_ms), frame_log.wf(),
        forall|i: int| 0 <= i < calls.v@.len() ==> frame_log.has((#[trigger] calls.v@[i]).0),
    decreases calls.v@.len() - k,
//@ before /let mut k: usize = 0;/
    let ghost rb = self.reorder_buffer;
    proof { ids_in_adv(*old(self), *frame_log, rb, calls.v@, new_base_id); }
//@ end
}
// the ids reported are in the log
pub proof fn ids_in(a: FeedbackGen, log: FrameLog, rb: ReorderBuffer, c: Seq<(u32, bool)>, new: Option<u32>)
    requires a.wf(log), rb.reported(a.reorder_buffer, c, new), new matches Some(id) ==> log.has(id), c.len() > 0 ==> c.last().1, c.len() <= 0x4000_0000,
    ensures forall|i: int| 0 <= i < c.len() ==> log.has((#[trigger] c[i]).0), off(rb.base_id, log.base_id) <= log.frames@.len(), off(rb.base_id, log.base_id) == off(a.reorder_buffer.base_id, log.base_id) + c.len(),
        forall|id: u32| #[trigger] rb.held(id) ==> a.reorder_buffer.held(id) || new == Some(id),
{
    assert forall|id: u32| #[trigger] rb.held(id) implies a.reorder_buffer.held(id) || new == Some(id) by { assert(rb.g().has(id)); }
    let b = a.reorder_buffer.base_id; let n = c.len() as int;
    if n > 0 {
        let l = at(b, n - 1);
        assert(c[n - 1].0 == l); assert(a.reorder_buffer.held(l) || new == Some(l)); assert(log.has(l));
        assert(off(l, log.base_id) == off(b, log.base_id) + n - 1);
        assert forall|i: int| 0 <= i < n implies log.has((#[trigger] c[i]).0) by { assert(c[i].0 == at(b, i)); }
    }
}
pub proof fn ids_in_adv(a: FeedbackGen, log: FrameLog, rb: ReorderBuffer, c: Seq<(u32, bool)>, new_base: u32)
    requires a.wf(log), rb.reported(a.reorder_buffer, c, None), 1 <= off(new_base, a.reorder_buffer.base_id) <= a.reorder_buffer.max_span, off(new_base, log.base_id) <= log.frames@.len(),
        c.len() >= off(new_base, a.reorder_buffer.base_id), c.len() > off(new_base, a.reorder_buffer.base_id) ==> c.last().1, c.len() <= 0x4000_0000,
    ensures forall|i: int| 0 <= i < c.len() ==> log.has((#[trigger] c[i]).0), off(rb.base_id, log.base_id) <= log.frames@.len(), off(rb.base_id, log.base_id) == off(a.reorder_buffer.base_id, log.base_id) + c.len(),
        forall|id: u32| #[trigger] rb.held(id) ==> a.reorder_buffer.held(id) ,
{
    assert forall|id: u32| #[trigger] rb.held(id) implies a.reorder_buffer.held(id)  by { assert(rb.g().has(id)); }
    let b = a.reorder_buffer.base_id; let n = c.len() as int; let m = off(new_base, b);
    assert(off(new_base, log.base_id) == off(b, log.base_id) + m);
    if n > m { ids_in(a, log, rb, c, None); }
    else { assert forall|i: int| 0 <= i < n implies log.has((#[trigger] c[i]).0) by { assert(c[i].0 == at(b, i)); } }
}
pub open spec fn hasbit(b: u32, i: int) -> bool { b & (1u32 << (i as u32)) != 0 }
// one more than the highest bit set
pub open spec fn top(b: u32, n: int) -> int decreases n { if n <= 0 { 0 } else if hasbit(b, n - 1) { n } else { top(b, n - 1) } }
// the frames of an acknowledgement
pub open spec fn gid(a: AckGroup, p: int) -> u32 { at(a.base_id, p) }
pub open spec fn gix(log: FrameLog, a: AckGroup, p: int) -> int { off(a.base_id, log.base_id) + p }
pub open spec fn parity(log: FrameLog, a: AckGroup, n: int) -> bool decreases n { if n <= 0 { false } else if hasbit(a.bitfield, n - 1) { parity(log, a, n - 1) != log.get(gid(a, n - 1)).nonce } else { parity(log, a, n - 1) } }
pub open spec fn size_of_group(a: AckGroup) -> int { top(a.bitfield, 32) }
// every frame was sent and is remembered, and the nonce parity is reproduced
pub open spec fn genuine(log: FrameLog, a: AckGroup) -> bool {
    &&& size_of_group(a) > 0
    &&& forall|p: int| 0 <= p < size_of_group(a) ==> log.has(#[trigger] gid(a, p))
    &&& parity(log, a, size_of_group(a)) == a.nonce
}
pub open spec fn newly(f: Seq<Entry>, a: AckGroup, d: int, p: int) -> bool { hasbit(a.bitfield, p) && !f[d + p].acked }
pub open spec fn new_count(f: Seq<Entry>, a: AckGroup, d: int, n: int) -> int decreases n { if n <= 0 { 0 } else { new_count(f, a, d, n - 1) + (if newly(f, a, d, n - 1) { 1int } else { 0 }) } }
pub open spec fn new_size(f: Seq<Entry>, a: AckGroup, d: int, n: int) -> int decreases n { if n <= 0 { 0 } else { new_size(f, a, d, n - 1) + (if newly(f, a, d, n - 1) { f[d + n - 1].size as int } else { 0 }) } }
pub open spec fn new_time(f: Seq<Entry>, a: AckGroup, d: int, n: int) -> u64 decreases n { if n <= 0 { 0 } else { let t = new_time(f, a, d, n - 1); if newly(f, a, d, n - 1) && f[d + n - 1].send_time_ms > t { f[d + n - 1].send_time_ms } else { t } } }
pub open spec fn new_refs(f: Seq<Entry>, a: AckGroup, d: int, n: int) -> Seq<FragmentRef> decreases n { if n <= 0 { seq![] } else { let t = new_refs(f, a, d, n - 1); if newly(f, a, d, n - 1) { t + f[d + n - 1].fragment_refs@ } else { t } } }
pub open spec fn marked(e: Entry, f: Entry) -> bool { f.acked && f.fragment_refs@.len() == 0 && f.size == e.size && f.send_time_ms == e.send_time_ms && f.nonce == e.nonce && f.rate_limited == e.rate_limited }
// the first n frames of the acknowledgement have been dealt with: nothing but those changes
pub open spec fn applied(f: Seq<Entry>, g: Seq<Entry>, a: AckGroup, d: int, n: int) -> bool {
    &&& g.len() == f.len()
    &&& forall|j: int| 0 <= j < f.len() ==> if d <= j < d + n && newly(f, a, d, j - d) { marked(f[j], #[trigger] g[j]) } else { g[j] == f[j] }
}
pub open spec fn any_limited(f: Seq<Entry>, d: int, n: int) -> bool decreases n { if n <= 0 { false } else { any_limited(f, d, n - 1) || f[d + n - 1].rate_limited } }
pub proof fn top_bound(b: u32, n: int) requires 0 <= n ensures 0 <= top(b, n) <= n decreases n { if n > 0 { top_bound(b, n - 1); } }
// where the frames of the acknowledgement are in the log
pub proof fn places(log: FrameLog, a: AckGroup, p: int)
    requires log.wf(), 0 <= p < 32, log.has(a.base_id), log.has(gid(a, p)),
    ensures off(gid(a, p), log.base_id) == off(a.base_id, log.base_id) + p
{ }
pub proof fn none_new(f: Seq<Entry>, g: Seq<Entry>, a: AckGroup, d: int, n: int)
    requires applied(f, g, a, d, n), new_count(f, a, d, n) == 0, 0 <= n <= 32, 0 <= d, d + n <= f.len(),
    ensures f == g
{ assert forall|p: int| 0 <= p < n implies !newly(f, a, d, p) by { if newly(f, a, d, p) { counted(f, a, d, n, p); } } assert(f =~= g); }
pub proof fn counted(f: Seq<Entry>, a: AckGroup, d: int, n: int, p: int)
    requires 0 <= p < n, newly(f, a, d, p), 0 <= d, d + n <= f.len(),
    ensures new_count(f, a, d, n) > 0,
    decreases n
{ if p < n - 1 { counted(f, a, d, n - 1, p); } else { not_negative(f, a, d, n - 1); } }
pub proof fn not_negative(f: Seq<Entry>, a: AckGroup, d: int, n: int) ensures new_count(f, a, d, n) >= 0 decreases n { if n > 0 { not_negative(f, a, d, n - 1); } }
pub proof fn new_bounds(f: Seq<Entry>, a: AckGroup, d: int, n: int, t: u64)
    requires 0 <= d, 0 <= n <= 32, d + n <= f.len(), forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).send_time_ms <= t,
    ensures 0 <= new_count(f, a, d, n) <= n, 0 <= new_size(f, a, d, n) <= n * 0x1_0000_0000, new_time(f, a, d, n) <= t,
    decreases n
{ if n > 0 { new_bounds(f, a, d, n - 1, t); } }
impl TransferWindow {
//@ take src/half_connection/frame_queue.rs fn TransferWindow::new
//@ ret r
//@ spec
    ensures r.base_id == base_id, r.size == size, r.tail_size == tail_size,
//@ end
}
pub proof fn more_acked(g: FeedbackGen, a: FrameLog, b: FrameLog)
    requires g.wf(a), b.wf(), b.base_id == a.base_id, b.frames@.len() == a.frames@.len(), forall|j: int| 0 <= j < a.frames@.len() && a.frames@[j].acked ==> (#[trigger] b.frames@[j]).acked
    ensures g.wf(b)
{ assert forall|id: u32| #[trigger] g.reorder_buffer.held(id) implies b.has(id) && b.get(id).acked by { assert(a.has(id) && a.get(id).acked); assert(b.frames@[off(id, b.base_id)].acked); } }
impl FrameQueue {
    pub open spec fn wf(self) -> bool {
        &&& self.feedback_gen.wf(self.frame_log)
        &&& self.window.size + self.window.tail_size <= 0x1000_0000 && self.feedback_gen.reorder_buffer.max_span == self.window.size + self.window.tail_size
        &&& off(self.frame_log.next_id, self.window.base_id) <= self.window.size
        &&& self.frame_log.frames@.len() <= off(self.frame_log.next_id, self.window.base_id) + self.window.tail_size
    }
    pub open spec fn ok(self) -> bool { self.wf() && (self.feedback_gen.ack_data matches Some(d) ==> d.ok()) }
    pub open spec fn before(self, t: u64) -> bool { self.feedback_gen.before(t) && last_time(self.frame_log.frames@) <= t }
    pub open spec fn same(self, o: FrameQueue) -> bool { self.frame_log.same(o.frame_log) && self.feedback_gen == o.feedback_gen && self.window == o.window && self.rate_limited == o.rate_limited }
    pub open spec fn d(self, a: AckGroup) -> int { off(a.base_id, self.frame_log.base_id) }
//@ take src/half_connection/frame_queue.rs fn FrameQueue::new
//@ ret r
//@ spec
    requires size + tail_size <= 0x1000_0000,
    ensures r.ok(), r.frame_log.frames@.len() == 0, r.window.base_id == base_id, r.frame_log.base_id == base_id, r.window.size == size, forall|t: u64| r.before(t),
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::can_push
//@ ret r
//@ spec
    ensures r == (off(self.frame_log.next_id, self.window.base_id) < self.window.size), // C11/C13
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::can_push_after
//@ ret r
//@ spec
    ensures r == (off(self.frame_log.next_id, self.window.base_id) + frame_count < self.window.size), // C11
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::next_id
//@ ret r
//@ spec
    ensures r == self.frame_log.next_id,
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::base_id
//@ ret r
//@ spec
    ensures r == self.window.base_id,
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::mark_rate_limited
//@ spec
    ensures final(self).rate_limited, final(self).frame_log == old(self).frame_log, final(self).feedback_gen == old(self).feedback_gen, final(self).window == old(self).window, // C15
        old(self).wf() ==> final(self).wf(), forall|t: u64| old(self).before(t) ==> #[trigger] final(self).before(t),
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::push
//@ spec
    requires old(self).wf(), size <= u32::MAX, old(self).before(now_ms), time_ok(now_ms), refs_ok(fragment_refs@),
    ensures final(self).wf(), final(self).window == old(self).window, final(self).feedback_gen == old(self).feedback_gen, final(self).before(now_ms),
        if off(old(self).frame_log.next_id, old(self).window.base_id) < old(self).window.size {
            final(self).frame_log.frames@ == old(self).frame_log.frames@.push(Entry { size: size as u32, send_time_ms: now_ms, fragment_refs, nonce, rate_limited: old(self).rate_limited, acked: false }) && final(self).frame_log.base_id == old(self).frame_log.base_id && !final(self).rate_limited
        } else { final(self).same(*old(self)) }, // C15/C12/C02
//@ exit
    proof {
        let (a, b) = (old(self).frame_log, self.frame_log);
        assert forall|id: u32| #[trigger] self.feedback_gen.reorder_buffer.held(id) implies b.has(id) && b.get(id).acked by { assert(a.has(id) && a.get(id).acked); }
    }
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::get_feedback
//@ ret r
//@ spec
    requires old(self).wf(), old(self).before(now_ms),
    ensures final(self).ok(), final(self).before(now_ms), final(self).frame_log == old(self).frame_log, final(self).window == old(self).window, final(self).rate_limited == old(self).rate_limited,
        old(self).feedback_gen.ack_data is None ==> r is None && final(self).feedback_gen == old(self).feedback_gen, // C15/C14
        old(self).feedback_gen.ack_data matches Some(d) ==> (r matches Some(f) && f.rtt_ms == now_ms - d.last_send_time_ms && f.rate_limited == d.rate_limited), // C15/C14
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::can_advance_transfer_window
//@ ret r
//@ spec
    ensures r == (1 <= off(new_base_id, old(self).window.base_id) <= off(old(self).frame_log.next_id, old(self).window.base_id)), *final(self) == *old(self), // C15/C11
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::cull_log_entries
//@ spec
    requires old(self).feedback_gen.wf(old(self).frame_log), off(new_log_base_id, old(self).frame_log.base_id) <= old(self).frame_log.frames@.len(), rtt_ok(rtt_ms),
    ensures final(self).feedback_gen.wf(final(self).frame_log), final(self).window == old(self).window, final(self).rate_limited == old(self).rate_limited, final(self).feedback_gen.same_data(old(self).feedback_gen), // C15
        final(self).feedback_gen.reorder_buffer.max_span == old(self).feedback_gen.reorder_buffer.max_span,
        final(self).frame_log.base_id == new_log_base_id, final(self).frame_log.next_id == old(self).frame_log.next_id, // C11/C15
        final(self).frame_log.frames@ == old(self).frame_log.frames@.subrange(off(new_log_base_id, old(self).frame_log.base_id), old(self).frame_log.frames@.len() as int), // C15
//@ exit
    proof {
        let (a, b) = (old(self).frame_log, self.frame_log); let k = off(new_log_base_id, a.base_id);
        assert forall|id: u32| #[trigger] self.feedback_gen.reorder_buffer.held(id) implies b.has(id) && b.get(id).acked by {
            assert(a.has(id) && a.get(id).acked);
            let r = self.feedback_gen.reorder_buffer;
            assert(off(id, a.base_id) >= k) by { assert(off(id, r.base_id) >= 1 && off(id, r.base_id) < r.max_span); assert(off(id, a.base_id) == off(r.base_id, a.base_id) + off(id, r.base_id)); }
            assert(off(id, b.base_id) == off(id, a.base_id) - k);
        }
    }
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::advance_transfer_window
//@ spec
    requires old(self).ok(), rtt_ok(rtt_ms),
    ensures final(self).ok(), final(self).rate_limited == old(self).rate_limited, final(self).feedback_gen.same_data(old(self).feedback_gen), // C15
        final(self).window.size == old(self).window.size, final(self).frame_log.next_id == old(self).frame_log.next_id,
        // the window follows every base the receiver can have reached, and no other
        if 1 <= off(new_base_id, old(self).window.base_id) <= off(old(self).frame_log.next_id, old(self).window.base_id) { final(self).window.base_id == new_base_id } else { final(self).same(*old(self)) }, // C11/C15
        forall|t: u64| old(self).before(t) ==> #[trigger] final(self).before(t),
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::forget_frames
//@ spec
    requires old(self).ok(), rtt_ok(rtt_ms),
    ensures final(self).ok(), final(self).rate_limited == old(self).rate_limited, final(self).feedback_gen.same_data(old(self).feedback_gen), final(self).window == old(self).window, // C15/C11
        final(self).frame_log.next_id == old(self).frame_log.next_id,
        // frames are forgotten by age only
        off(final(self).frame_log.base_id, old(self).frame_log.base_id) <= old(self).frame_log.frames@.len(), // C15
        forall|i: int| 0 <= i < off(final(self).frame_log.base_id, old(self).frame_log.base_id) ==> (#[trigger] old(self).frame_log.frames@[i]).send_time_ms < thresh_ms, // C15
        forall|t: u64| old(self).before(t) ==> #[trigger] final(self).before(t),
//@ end
//@ take src/half_connection/frame_queue.rs fn FrameQueue::acknowledge_group
//@ sub /for i in \(0 \.\. (\d+)\)\.rev\(\) \{/let mut i: u32 = \1; while i > 0 { i = i - 1;/!
//@ sub /if let Some\(ref (\w+)\) =/if let Some(\1) =/
//@ sub /let ref mut (\w+) =/let \1 =/
//@ sub /std::mem::take\(&mut (sent_frame\.fragment_refs)\)/take_refs(&mut \1)/!
//@ sub /for (\w+) in (\w+)\.into_iter\(\) \{/let mut n: usize = 0; while n < \2.len() { let \1 = &\2[n]; n = n + 1; proof { nref = *\1; ackd = ackd.push(nref); } let ghost h1 = *h;/!
//@ sub /(\w+(?:\.\w+)*)\.upgrade\(\)/upgrade(&\1, h)/!
//@ sub /let mut (\w+) = (\w+(?:\.\w+)*)\.borrow_mut\(\)/let \1 = rc_borrow_mut(&\2, h)/!
//@ sub /rtt_ms: Option<u64>\)/rtt_ms: Option<u64>, h: &mut Heap)/!
//@ sub /&mut self\.frame_log, rtt_ms/&self.frame_log, rtt_ms/
//@ spec
    requires old(self).ok(), rtt_ok(rtt_ms),
    ensures final(self).wf(), final(self).window == old(self).window, final(self).rate_limited == old(self).rate_limited, // C15/C11
        final(self).frame_log.base_id == old(self).frame_log.base_id, final(self).frame_log.next_id == old(self).frame_log.next_id,
        // an acknowledgement which is not genuine, or which says nothing new, has no effect
        !genuine(old(self).frame_log, ack) ==> final(self).same(*old(self)), // C15
        new_count(old(self).frame_log.frames@, ack, old(self).d(ack), size_of_group(ack)) == 0 ==> final(self).frame_log.frames@ == old(self).frame_log.frames@ && final(self).feedback_gen.same_data(old(self).feedback_gen), // C15
        !genuine(old(self).frame_log, ack) ==> *final(h) == *old(h), // C15/C12/C02
        // the fragments which those frames carried are acknowledged, and no others
        genuine(old(self).frame_log, ack) ==> marks(*old(h), *final(h), new_refs(old(self).frame_log.frames@, ack, old(self).d(ack), size_of_group(ack))), // C12/C02
        // one which is marks the frames it names, each once, and credits what they carried
        genuine(old(self).frame_log, ack) ==> applied(old(self).frame_log.frames@, final(self).frame_log.frames@, ack, old(self).d(ack), size_of_group(ack)), // C15/C12/C02
        genuine(old(self).frame_log, ack) && new_count(old(self).frame_log.frames@, ack, old(self).d(ack), size_of_group(ack)) > 0 ==> ({
            let (f, d, n) = (old(self).frame_log.frames@, old(self).d(ack), size_of_group(ack));
            final(self).feedback_gen.ack_data matches Some(x) && match old(self).feedback_gen.ack_data {
                None => x == AckData { last_send_time_ms: new_time(f, ack, d, n), total_ack_size: new_size(f, ack, d, n) as usize, rate_limited: any_limited(f, d, n) },
                Some(y) => x.total_ack_size == y.total_ack_size + new_size(f, ack, d, n) && x.rate_limited == (y.rate_limited || any_limited(f, d, n)) && x.last_send_time_ms == (if y.last_send_time_ms >= new_time(f, ack, d, n) { y.last_send_time_ms } else { new_time(f, ack, d, n) }),
            }
        }), // C15/C14
        forall|t: u64| old(self).before(t) ==> #[trigger] final(self).before(t),
//@ start
    let ghost mut ackd: Seq<FragmentRef> = seq![]; let ghost h0 = *h; let ghost mut nref: FragmentRef = arbitrary();
    let ghost g0 = self.feedback_gen; let ghost l0 = self.frame_log; let ghost f0 = self.frame_log.frames@; let ghost d = self.d(ack); let ghost sz = size_of_group(ack);
//@ loop 0
    invariant_except_break i <= 32, bitfield_size == 0, size_of_group(ack) == top(ack.bitfield, i as int),
    ensures bitfield_size == size_of_group(ack), bitfield_size <= 32,
    decreases i,
//@ body 0
    proof { let j = (i - 1) as u32; assert(hasbit(ack.bitfield, j as int) <==> ack.bitfield & (1u32 << j) != 0); top_bound(ack.bitfield, j as int); }
//@ loop 1
    invariant bitfield_size == sz, sz == size_of_group(ack), 0 < sz <= 32, self == old(self), old(self).wf(), l0 == self.frame_log, l0.wf(), true_nonce == parity(l0, ack, i as int),
        forall|p: int| 0 <= p < i ==> l0.has(#[trigger] gid(ack, p)),
//@ body 1
    proof { assert(hasbit(ack.bitfield, i as int) <==> ack.bitfield & (1u32 << i) != 0); assert(gid(ack, i as int) == at(ack.base_id, i as int)); }
//@ loop 2
    invariant bitfield_size == sz, 0 < sz <= 32, l0.wf(), f0 == l0.frames@, d == off(ack.base_id, l0.base_id), genuine(l0, ack), sz == size_of_group(ack), rtt_ok(rtt_ms), d + sz <= f0.len(),
        self.feedback_gen.wf(self.frame_log), self.feedback_gen.same_data(g0), self.feedback_gen.reorder_buffer.max_span == g0.reorder_buffer.max_span,
        self.window == old(self).window, self.rate_limited == old(self).rate_limited, self.frame_log.base_id == l0.base_id, self.frame_log.next_id == l0.next_id,
        applied(f0, self.frame_log.frames@, ack, d, i as int),
        any_acked == (new_count(f0, ack, d, i as int) > 0), total_ack_size == new_size(f0, ack, d, i as int), last_send_time_ms == new_time(f0, ack, d, i as int), rate_limited == any_limited(f0, d, i as int),
        ackd == new_refs(f0, ack, d, i as int), marks(h0, *h, ackd),
//@ body 2
    proof {
        assert(hasbit(ack.bitfield, i as int) <==> ack.bitfield & (1u32 << i) != 0); assert(gid(ack, i as int) == at(ack.base_id, i as int));
        assert(gid(ack, 0) == ack.base_id); assert(l0.has(gid(ack, 0)) && l0.has(gid(ack, i as int))); places(l0, ack, i as int);
        new_bounds(f0, ack, d, i as int, u64::MAX);
    }
    let ghost l1 = self.frame_log; let ghost refs1 = ackd;
//@ afterloop 2
    proof { assert(ackd == new_refs(f0, ack, d, sz)); // C12/C02
        assert(forall|j: int| 0 <= j < f0.len() ==> (#[trigger] f0[j]).send_time_ms <= f0[f0.len() - 1].send_time_ms); new_bounds(f0, ack, d, sz, last_time(f0));
        let g = self.frame_log.frames@; assert(g[g.len() - 1].send_time_ms == f0[f0.len() - 1].send_time_ms); assert(last_time(g) == last_time(f0));
        if !any_acked { not_negative(f0, ack, d, sz); none_new(f0, self.frame_log.frames@, ack, d, sz); } }
//@ beforeloop 2
    proof { assert(l0.has(gid(ack, 0)) && l0.has(gid(ack, sz - 1))); assert(gid(ack, 0) == ack.base_id); places(l0, ack, sz - 1); }
//@ loop 3
    invariant 0 <= n <= fragment_refs@.len(), ackd == refs1 + fragment_refs@.take(n as int), marks(h0, *h, ackd), refs_ok(fragment_refs@),
    decreases fragment_refs@.len() - n,
//@ bodyend 3
    proof { marks_one(h0, h1, *h, refs1 + fragment_refs@.take(n - 1), nref); assert(refs1 + fragment_refs@.take(n as int) =~= (refs1 + fragment_refs@.take(n - 1)).push(nref)); }
//@ end
}
