//@ take src/frame/mod.rs struct AckGroup
//@ end
//@ take src/half_connection/frame_ack_queue.rs struct ReceiveWindow
//@ end
//@ take src/half_connection/frame_ack_queue.rs struct FrameAckQueue
//@ end

pub open spec fn ws(a: u32, b: u32) -> int { (a as int - b as int) % 0x1_0000_0000 }
pub open spec fn spec_contains(w: ReceiveWindow, id: u32) -> bool { ws(id, w.base_id) < w.size }
pub open spec fn spec_advance(w: ReceiveWindow, id: u32) -> ReceiveWindow {
    if 0 < ws(id, w.base_id) <= w.size { ReceiveWindow { base_id: id, size: w.size } } else { w }
}
// how long ago a group started, in frames
pub open spec fn age(base: u32, g: AckGroup) -> int { ws(base, g.base_id) }

// Groups are ordered, do not overlap, cover only frames before the window, and are not older than
// lim frames.
#[verifier::opaque]
pub open spec fn queue_ok(q: Seq<AckGroup>, base: u32, lim: int) -> bool {
    &&& forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> 1 <= age(base, q[i]) <= lim && q[i].bitfield & 1 != 0
    &&& forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() ==> age(base, q[i]) >= age(base, q[j]) + 32
    &&& q.len() > 0 ==> forall|b: u32| #![trigger q.last().bitfield >> b] age(base, q.last()) <= b < 32 ==> (q.last().bitfield >> b) & 1 == 0
}
pub const LIM: u32 = 0x1000_0000;
pub open spec fn wf(q: FrameAckQueue) -> bool {
    &&& 0 < q.receive_window.size <= LIM
    &&& queue_ok(q.entries@, q.receive_window.base_id, 2 * q.receive_window.size)
}
// C06: the number of groups waiting to be sent is bounded by the window size
pub proof fn len_bound(q: Seq<AckGroup>, base: u32, lim: int) requires queue_ok(q, base, lim), lim >= 0
    ensures q.len() <= (lim + 31) / 32 // C06
{
    reveal(queue_ok);
    if q.len() > 0 { ages_decrease(q, base, lim, q.len() - 1); let x = q[q.len() - 1]; assert(age(base, x) >= 1); }
}
proof fn ages_decrease(q: Seq<AckGroup>, base: u32, lim: int, i: int) requires queue_ok(q, base, lim), 0 <= i < q.len()
    ensures age(base, q[i]) + 32 * i <= lim
    decreases i
{
    reveal(queue_ok);
    if i > 0 { ages_decrease(q, base, lim, i - 1); let a = q[i - 1]; let b = q[i]; }
}
proof fn older(q: Seq<AckGroup>, b0: u32, b1: u32, lim: int, m: int) requires queue_ok(q, b0, lim), lim + ws(b1, b0) <= m < 0x1_0000_0000
    ensures queue_ok(q, b1, m), forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> age(b1, q[i]) == age(b0, q[i]) + ws(b1, b0)
{
    reveal(queue_ok);
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies age(b1, q[i]) == age(b0, q[i]) + ws(b1, b0) by {}
}

proof fn suffix(q: Seq<AckGroup>, k: int, base: u32, lim: int, m: int) requires queue_ok(q, base, lim), 0 <= k <= q.len(), m >= 0, k < q.len() ==> age(base, q[k]) <= m
    ensures queue_ok(q.skip(k), base, m)
{
    reveal(queue_ok);
    let r = q.skip(k);
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies 1 <= age(base, r[i]) <= m && r[i].bitfield & 1 != 0 by { let a = q[k]; let b = q[k + i]; }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies age(base, r[i]) >= age(base, r[j]) + 32 by { let a = q[k + i]; let b = q[k + j]; }
    if r.len() > 0 { assert(r.last() == q.last()); }
}
pub open spec fn with_bit(g: AckGroup, d: u32, nonce: bool) -> AckGroup { AckGroup { base_id: g.base_id, bitfield: g.bitfield | (1u32 << d), nonce: g.nonce != nonce } }
proof fn set_ok(q0: Seq<AckGroup>, b0: u32, q: Seq<AckGroup>, id: u32, b1: u32, lim: int, nonce: bool)
    requires queue_ok(q0, b0, lim), q.len() > 0, q0.len() > 0, q.last() == q0.last(), ws(id, q.last().base_id) < 32, ws(b1, id) == 1, ws(id, b0) + lim < 0x1_0000_0000, queue_ok(q, b1, lim),
    ensures q.last().bitfield & (1u32 << (ws(id, q.last().base_id) as u32)) == 0,
        queue_ok(q.update(q.len() - 1, with_bit(q.last(), ws(id, q.last().base_id) as u32, nonce)), b1, lim),
{
    reveal(queue_ok);
    let d = ws(id, q.last().base_id) as u32;
    assert(age(b0, q0[q0.len() - 1]) <= lim);
    assert(ws(id, q.last().base_id) == age(b0, q.last()) + ws(id, b0));
    let f = q.last().bitfield;
    let r = q.update(q.len() - 1, with_bit(q.last(), d, nonce));
    assert((f >> d) & 1 == 0);
    assert(f & (1u32 << d) == 0) by (bit_vector) requires (f >> d) & 1 == 0, d < 32;
    assert(q[q.len() - 1].bitfield & 1 != 0);
    assert((f | (1u32 << d)) & 1 != 0) by (bit_vector) requires f & 1 != 0;
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies 1 <= age(b1, r[i]) <= lim && r[i].bitfield & 1 != 0 by { let x = q[i]; }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies age(b1, r[i]) >= age(b1, r[j]) + 32 by { let a = q[i]; let b = q[j]; }
    assert forall|b: u32| #![trigger r.last().bitfield >> b] age(b1, r.last()) <= b < 32 implies (r.last().bitfield >> b) & 1 == 0 by {
        assert(age(b1, r.last()) == d + 1);
        assert((f >> b) & 1 == 0);
        assert(((f | (1u32 << d)) >> b) & 1 == 0) by (bit_vector) requires d < b, b < 32, (f >> b) & 1 == 0;
    }
}
proof fn push_ok(q: Seq<AckGroup>, id: u32, b1: u32, lim: int, nonce: bool)
    requires queue_ok(q, b1, lim), ws(b1, id) == 1, lim >= 1, lim < 0x1_0000_0000, q.len() > 0 ==> ws(id, q.last().base_id) >= 32,
    ensures queue_ok(q.push(AckGroup { base_id: id, bitfield: 1, nonce }), b1, lim)
{
    reveal(queue_ok);
    let r = q.push(AckGroup { base_id: id, bitfield: 1, nonce });
    assert(1u32 & 1 != 0) by (bit_vector);
    if q.len() > 0 { let x = q[q.len() - 1]; assert(age(b1, x) == ws(id, x.base_id) + 1); }
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies 1 <= age(b1, r[i]) <= lim && r[i].bitfield & 1 != 0 by { if i < q.len() { let x = q[i]; } }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies age(b1, r[i]) >= age(b1, r[j]) + 32 by {
        if j < q.len() { let a = q[i]; let b = q[j]; } else { let a = q[i]; let b = q[q.len() - 1]; if i < q.len() - 1 { assert(age(b1, a) >= age(b1, b) + 32); } }
    }
    assert forall|b: u32| #![trigger r.last().bitfield >> b] age(b1, r.last()) <= b < 32 implies (r.last().bitfield >> b) & 1 == 0 by {
        assert((1u32 >> b) & 1 == 0) by (bit_vector) requires 0 < b, b < 32;
    }
}
impl ReceiveWindow {
//@ take src/half_connection/frame_ack_queue.rs fn ReceiveWindow::new
//@ ret r
//@ spec
    ensures r.base_id == base_id, r.size == size,
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn ReceiveWindow::contains
//@ ret r
//@ spec
    ensures r == spec_contains(*self, frame_id), // C01/C02/C15/C11
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn ReceiveWindow::advance
//@ ret r
//@ spec
    ensures *final(self) == spec_advance(*old(self), new_base_id), // C01/C02/C11
        r == (*final(self) != *old(self) || (0 < ws(new_base_id, old(self).base_id) <= old(self).size)),
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn ReceiveWindow::base_id
//@ ret r
//@ spec
    ensures r == self.base_id,
//@ end
}
impl FrameAckQueue {
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::new
//@ ret r
//@ spec
    requires 0 < size <= LIM,
    ensures wf(r), r.entries@.len() == 0, r.receive_window.base_id == base_id, r.receive_window.size == size,
//@ start
    proof { reveal(queue_ok); }
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::base_id
//@ ret r
//@ spec
    ensures r == self.receive_window.base_id,
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::window_contains
//@ ret r
//@ spec
    ensures r == spec_contains(self.receive_window, frame_id), // C01/C02/C15
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::forget_stale_groups
//@ spec
    requires 0 < old(self).receive_window.size <= LIM, queue_ok(old(self).entries@, old(self).receive_window.base_id, 3 * old(self).receive_window.size),
    ensures final(self).receive_window == old(self).receive_window,
        // C06: what is left is no older than two windows
        wf(*final(self)), // C06
        // only groups the sender has forgotten are dropped
        exists|k: int| #![trigger old(self).entries@.skip(k)] 0 <= k <= old(self).entries@.len() && final(self).entries@ == old(self).entries@.skip(k)
            && forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < k ==> age(old(self).receive_window.base_id, old(self).entries@[i]) > 2 * old(self).receive_window.size, // C02/C11/C15
//@ start
    let ghost q0 = self.entries@;
    let ghost mut k: int = 0;
    proof { assert(q0.skip(0) == q0); }

//@ loop 0
    invariant 0 <= k <= q0.len(), self.entries@ == q0.skip(k), self.receive_window == old(self).receive_window, base_id == self.receive_window.base_id, max_age == 2 * self.receive_window.size,
        0 < self.receive_window.size <= LIM, queue_ok(q0, base_id, 3 * self.receive_window.size), q0 == old(self).entries@,
        forall|i: int| #![trigger q0[i]] 0 <= i < k ==> age(base_id, q0[i]) > max_age,
    ensures self.entries@.len() == 0 || age(base_id, self.entries@[0]) <= max_age,
    decreases self.entries@.len(),
//@ after /pop_front\(\)/
            proof { assert(q0.skip(k).skip(1) == q0.skip(k + 1)); assert(q0.skip(k)[0] == q0[k]); k = k + 1; }
//@ exit
    proof { suffix(q0, k, base_id, 3 * self.receive_window.size, 2 * self.receive_window.size); }
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::resynchronize
//@ spec
    requires wf(*old(self)),
    ensures wf(*final(self)), // C06
        final(self).receive_window == spec_advance(old(self).receive_window, sender_next_id), // C11/C01
        exists|k: int| #![trigger old(self).entries@.skip(k)] 0 <= k <= old(self).entries@.len() && final(self).entries@ == old(self).entries@.skip(k), // C02/C11
//@ start
    proof { older(self.entries@, self.receive_window.base_id, spec_advance(self.receive_window, sender_next_id).base_id, 2 * self.receive_window.size, 3 * self.receive_window.size); }
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::mark_seen
//@ spec
    requires wf(*old(self)),
    ensures wf(*final(self)), // C06
        !spec_contains(old(self).receive_window, frame_id) ==> *final(self) == *old(self), // C01/C15
        // a frame of the window moves the window past itself and is recorded, with its nonce, in the last group
        spec_contains(old(self).receive_window, frame_id) ==> final(self).receive_window.base_id == frame_id.wrapping_add(1) && final(self).receive_window.size == old(self).receive_window.size, // C01/C11
        spec_contains(old(self).receive_window, frame_id) ==> recorded(old(self).entries@, final(self).entries@, frame_id, nonce), // C02/C11/C15
//@ start
    proof { if spec_contains(self.receive_window, frame_id) { older(self.entries@, self.receive_window.base_id, frame_id.wrapping_add(1), 2 * self.receive_window.size, 3 * self.receive_window.size); } }
    let ghost q0 = self.entries@;
    let ghost w0 = self.receive_window;
    let ghost mut q1 = self.entries@;
//@ exit
    proof {
        if spec_contains(w0, frame_id) {
            let q2 = if q1.len() > 0 && ws(frame_id, q1.last().base_id) < 32 { q1.update(q1.len() - 1, with_bit(q1.last(), ws(frame_id, q1.last().base_id) as u32, nonce)) } else { q1.push(AckGroup { base_id: frame_id, bitfield: 1, nonce }) };
            assert(self.entries@ =~= q2);
        }
    }
//@ before /if let Some\(last_entry\)/
            proof { q1 = self.entries@; }
            let ghost b1 = self.receive_window.base_id;
            let ghost k = choose|k: int| 0 <= k <= q0.len() && q1 == #[trigger] q0.skip(k);
            proof {
                assert(q1 == q0.skip(k));
                if q1.len() > 0 {
                    assert(q1.last() == q0.last());
                    if ws(frame_id, q1.last().base_id) < 32 { set_ok(q0, w0.base_id, q1, frame_id, b1, 2 * w0.size, nonce); }
                    else { push_ok(q1, frame_id, b1, 2 * w0.size, nonce); }
                } else { push_ok(q1, frame_id, b1, 2 * w0.size, nonce); }
            }
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::pop
//@ ret r
//@ spec
    requires wf(*old(self)),
    ensures wf(*final(self)), final(self).receive_window == old(self).receive_window,
        old(self).entries@.len() == 0 ==> r is None && final(self).entries@ == old(self).entries@, // C02/C11
        old(self).entries@.len() > 0 ==> r == Some(old(self).entries@[0]) && final(self).entries@ == old(self).entries@.skip(1), // C02/C11/C15
//@ start
    proof { reveal(queue_ok); if self.entries@.len() > 0 { suffix(self.entries@, 1, self.receive_window.base_id, 2 * self.receive_window.size, 2 * self.receive_window.size); let x = self.entries@[0]; if self.entries@.len() > 1 { let y = self.entries@[1]; } } }
//@ end
//@ take src/half_connection/frame_ack_queue.rs fn FrameAckQueue::peek
//@ ret r
//@ spec
    ensures self.entries@.len() == 0 ==> r is None, self.entries@.len() > 0 ==> r == Some(&self.entries@[0]),
//@ end
}
pub open spec fn recorded(q0: Seq<AckGroup>, q1: Seq<AckGroup>, id: u32, nonce: bool) -> bool {
    exists|k: int| #![trigger q0.skip(k)] 0 <= k <= q0.len() && ({
        let q = q0.skip(k);
        if q.len() > 0 && ws(id, q.last().base_id) < 32 {
            q1 == q.update(q.len() - 1, with_bit(q.last(), ws(id, q.last().base_id) as u32, nonce))
        } else { q1 == q.push(AckGroup { base_id: id, bitfield: 1, nonce }) }
    })
}
