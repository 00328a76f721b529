//@ attach: src/half_connection/frame_ack_queue.rs
//@ for: kani native
// Contracts of the frame receive window and of the queue of unsent acknowledgements.
use super::*;
use vsup::{any_bool, any_u32, assume, check, proof, range_u32, range_usize, reach};

pub const HARNESSES: &[(&str, fn())] = &[
    ("k_frame_window", k_window),
    ("k_frame_ack_mark0", k_mark0),
    ("k_frame_ack_mark1", k_mark1),
    ("k_frame_ack_mark2", k_mark2),
    ("k_frame_ack_resync0", k_resync0),
    ("k_frame_ack_resync1", k_resync1),
    ("k_frame_ack_resync2", k_resync2),
];

// ReceiveWindow: arbitrary base, arbitrary permitted size
pub fn k_window() {
    let base = any_u32();
    let size = range_u32(1, crate::MAX_FRAME_WINDOW_SIZE);
    let mut w = ReceiveWindow::new(base, size);
    let id = any_u32();
    let d = id.wrapping_sub(base);
    check!(w.contains(id) == (d < size), "C01/C02/C15.frame_window.contains: exactly the frames less than one window ahead are accepted");
    let moved = w.advance(id);
    check!(moved == (d > 0 && d <= size), "C01/C02/C11.frame_window.advance: the window moves exactly to targets at most one window ahead");
    check!(w.base_id() == if moved { id } else { base }, "C01/C02/C11.frame_window.advance: the base becomes the target, or stays");
    reach!(moved && id < base, "advance across wrap-around");
}
proof!(p_k_frame_window, k_window, 2);

// An arbitrary queue of up to two groups satisfying the representation invariant:
// bit 0 of each group is set, groups are disjoint and ascending, and precede the window base
#[inline(never)]
fn any_queue(n: usize) -> (FrameAckQueue, u32) {
    let base = any_u32();
    let size = range_u32(1, crate::MAX_FRAME_WINDOW_SIZE);
    let mut q = FrameAckQueue::new(size, base);
    q.entries.reserve(4);
    let mut at = range_u32(1, 2 * size); // distance of the first group behind the base
    let mut k = 0;
    while k < n {
        let bits = any_u32() | 1;
        let top = 31 - bits.leading_zeros();
        assume(at > top); // every acknowledged frame precedes the base
        q.entries.push_back(frame::AckGroup { base_id: base.wrapping_sub(at), bitfield: bits, nonce: any_bool() });
        if k + 1 < n {
            let gap = range_u32(32, 2 * size + 32);
            assume(gap < at);
            at -= gap;
        }
        k += 1;
    }
    (q, size)
}

// mark_seen: requires the invariant; ensures that the frame is acknowledged exactly once if it lies in
// the window, that the window moves just past it, and that no other acknowledgement changes
pub fn k_mark0() { k_mark(0) }
pub fn k_mark1() { k_mark(1) }
pub fn k_mark2() { k_mark(2) }
fn k_mark(n: usize) {
    let (mut q, size) = any_queue(n);
    let n0 = q.entries.len();
    let base0 = q.base_id();
    let last0 = q.entries.back().cloned();
    let first0 = q.entries.front().cloned();
    let id = any_u32();
    let nonce = any_bool();
    let inside = id.wrapping_sub(base0) < size;
    q.mark_seen(id, nonce);
    let n1 = q.entries.len();
    if !inside {
        check!(q.base_id() == base0 && n1 == n0, "C01/C15.mark_seen.outside: a frame outside of the window changes nothing");
    } else {
        check!(q.base_id() == id.wrapping_add(1), "C01/C02.mark_seen.base: the window moves just past the received frame");
        check!(!q.window_contains(id), "C01.mark_seen.dedupe: a received frame is not accepted again");
        // the frame is acknowledged by the last group
        check!(n1 >= 1, "C02/C12/C15.mark_seen.acked: a received frame is acknowledged");
        let l = q.entries.back().unwrap();
        let bit = id.wrapping_sub(l.base_id);
        check!(bit < 32 && l.bitfield >> bit == 1, "C02/C12/C15.mark_seen.acked: a received frame is acknowledged, and no later one");
        check!(l.bitfield & 1 != 0, "C02/C03/C15.mark_seen.base_bit: a group begins with an acknowledged frame");
        let fresh = l.base_id == id && l.bitfield == 1 && l.nonce == nonce;
        let extends = match last0 {
            Some(g) => l.base_id == g.base_id && bit < 32 && l.bitfield == g.bitfield | 1u32.wrapping_shl(bit) && l.nonce == (g.nonce ^ nonce),
            None => false,
        };
        check!(fresh || extends, "C02/C12/C15.mark_seen.group: the frame and its nonce are added to the last group or form a new one");
        reach!(extends, "group extended");
        reach!(fresh && n1 == n0 + 1, "group added");
        check!(n1 <= n0 + 1, "C06.mark_seen.growth: one frame adds at most one group");
    }
    // C06: the queue only holds groups that the sender may still remember
    let b1 = q.base_id();
    if let Some(f) = q.entries.front() {
        check!(b1.wrapping_sub(f.base_id) <= 2 * size || n1 == n0 && !inside, "C06.ack_queue.bound: groups which the sender has forgotten are not kept");
        if let Some(f0) = first0 {
            if inside && b1.wrapping_sub(f0.base_id) <= 2 * size && n0 >= 1 { check!(f.base_id == f0.base_id, "C02/C12.ack_queue.kept: a group that the sender may remember is not lost"); }
        }
    }
}
proof!(p_k_frame_ack_mark0, k_mark0, 5);
proof!(p_k_frame_ack_mark1, k_mark1, 5);
proof!(p_k_frame_ack_mark2, k_mark2, 5);

pub fn k_resync0() { k_resync(0) }
pub fn k_resync1() { k_resync(1) }
pub fn k_resync2() { k_resync(2) }
fn k_resync(n: usize) {
    let (mut q, size) = any_queue(n);
    let n0 = q.entries.len();
    let base0 = q.base_id();
    let first0 = q.entries.front().cloned();
    let next = any_u32();
    q.resynchronize(next);
    let d = next.wrapping_sub(base0);
    let moves = d > 0 && d <= size;
    check!(q.base_id() == if moves { next } else { base0 }, "C01/C11.resync.base: the window moves to the sender's next id, if that is at most one window ahead");
    if let Some(f0) = first0 {
        if q.base_id().wrapping_sub(f0.base_id) <= 2 * size {
            check!(q.entries.len() == n0, "C02/C12.resync.kept: no acknowledgement that the sender may remember is lost");
            let p = q.pop();
            check!(p.is_some(), "C02/C12.pop: groups are handed out in order");
            let p = p.unwrap();
            check!(p.base_id == f0.base_id && p.bitfield == f0.bitfield && p.nonce == f0.nonce, "C02/C12/C15.pop: groups are handed out in order and unaltered");
        }
    }
    reach!(moves, "resynchronised");
}
proof!(p_k_frame_ack_resync0, k_resync0, 5);
proof!(p_k_frame_ack_resync1, k_resync1, 5);
proof!(p_k_frame_ack_resync2, k_resync2, 5);
