//@ for: C01 C02 C03 C05 C09 C10 C11 C12 C13 C14 C15 C18 C20
#![feature(allocator_api)]
use vstd::prelude::*;
//@ include packet_id.inc
verus! { global size_of usize == 8; }
// ---- callees: their contracts are discharged by the units codec, pending_packet, packet_sender, frame_queue,
// frame_ack and packet_receiver, which are made of the same texts
pub mod base { use vstd::prelude::*; pub use crate::packet_id::{spec_add, spec_sub, lemma_mask}; verus! {
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ include std.inc
//@ include consts.inc
//@ include frags.inc
//@ include ids.inc
} }
pub mod codec { use vstd::prelude::*; use super::base::*; use crate::packet_id; verus! {
//@ clear
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bcrc::(?=extend|compute)//
//@ rewrite /\bbuild::(?=DataFrameBuilder|AckFrameBuilder)//
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ include codec.inc
} }
pub mod pending_packet { use vstd::prelude::*; use super::base::*; use super::codec::DatagramRef; verus! {
//@ clear
//@ skip DatagramRef
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bRc::downgrade\(/rc_downgrade(/
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ include pending_packet.inc
//@ include refs.inc
} }
pub mod packet_sender { use vstd::prelude::*; use std::collections::VecDeque; use super::base::*; use super::pending_packet::*; use crate::packet_id; verus! {
//@ clear
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ rewrite /Rc::new\(RefCell::new\(/rc_new(h, (/
//@ rewrite /\bRc::clone\(/rc_clone(/
//@ rewrite /(\w+(?:\.\w+)*)\.borrow\(\)\.size\(\)/rc_size(&\1)/
//@ include packet_sender.inc
} }
pub mod frame_queue { use vstd::prelude::*; use std::collections::VecDeque; use super::base::*; use super::codec::AckGroup; use super::pending_packet::*; verus! {
//@ clear
//@ skip AckGroup
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\breorder_buffer::(?=ReorderBuffer)//
//@ rewrite /\bsend_rate::(?=FeedbackData)//
//@ rewrite /(\w+(?:\.\w+)*) \|= (\w+\.rate_limited);/\1 = \1 || \2;/
//@ rewrite /(\w+) \^= (\w+\.nonce);/\1 = \1 != \2;/
//@ rewrite /\bloss_rate::(?=LossIntervalQueue)//
//@ include reorder_buffer.inc
//@ include frame_queue.inc
} }
pub mod frame_ack_queue { use vstd::prelude::*; use super::base::*; use super::codec::AckGroup; verus! {
//@ clear
//@ skip AckGroup
//@ rewrite /\bframe::AckGroup\b/AckGroup/
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ include frame_ack.inc
} }
pub mod packet_receiver { use vstd::prelude::*; use super::base::*; use super::codec::Datagram; use crate::packet_id; verus! {
//@ clear
//@ skip Datagram
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\b(fragment_buffer|assembly_window):://
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ include fragment_buffer.inc
//@ include assembly_window.inc
//@ include packet_receiver.inc
} }
//@ include fl.inc
pub mod time { use vstd::prelude::*; verus! {
// the clock
#[verifier::external_body]
pub struct Instant { t: std::time::Instant }
impl Copy for Instant {}
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> (r: Instant) ensures r == *self { *self } }
// milliseconds between two readings
pub uninterp spec fn ms_between(a: Instant, b: Instant) -> int;
// stands for `Instant::now()`; the clock does not go back (`last` is the previous reading, in milliseconds since `base`), and a
// connection lasts less than 2^61 milliseconds
#[verifier::external_body]
pub fn clock(base: Instant, last: u64) -> (r: Instant) ensures last <= ms_between(r, base) < 0x2000_0000_0000_0000 { Instant { t: std::time::Instant::now() } }
#[verifier::external_body]
pub fn first_reading() -> Instant { Instant { t: std::time::Instant::now() } }
// stands for `(a - b).as_millis() as u64`
#[verifier::external_body]
pub fn millis(a: Instant, b: Instant) -> (r: u64) ensures r == ms_between(a, b) { (a.t - b.t).as_millis() as u64 }
// stands for `(a - b).as_secs_f64()`
pub uninterp spec fn spec_secs(a: Instant, b: Instant) -> f64;
#[verifier::external_body]
pub fn secs(a: Instant, b: Instant) -> (r: f64) ensures r == spec_secs(a, b) { (a.t - b.t).as_secs_f64() }
} }
pub mod send_rate { use vstd::prelude::*; use super::frame_queue::{FeedbackData, FrameQueue}; verus! {
#[verifier::external_body]
pub struct SendRateComp { x: u8 }
pub open spec fn rtt_lim(r: Option<u64>) -> bool { r matches Some(t) ==> t < 0x0400_0000_0000_0000 }
impl SendRateComp {
    pub uninterp spec fn rate(self) -> f64;
    pub uninterp spec fn rtt(self) -> Option<f64>;
    #[verifier::external_body]
    pub fn new(limit: u32) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn rtt_s(&self) -> (r: Option<f64>) ensures r == self.rtt() { unimplemented!() }
    #[verifier::external_body]
    pub fn rtt_ms(&self) -> (r: Option<u64>) ensures rtt_lim(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn rto_ms(&self) -> (r: Option<u64>) ensures rtt_lim(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_rate(&self) -> (r: f64) ensures r == self.rate() { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_frame_sent(&mut self, now_ms: u64) { unimplemented!() }
    // stands for `step` with the closure which resets the loss rate
    #[verifier::external_body]
    pub fn step(&mut self, now_ms: u64, feedback: Option<FeedbackData>, frame_queue: &mut FrameQueue)
        requires old(frame_queue).ok()
        ensures final(frame_queue).ok(), final(frame_queue).frame_log == old(frame_queue).frame_log, final(frame_queue).window == old(frame_queue).window, final(frame_queue).rate_limited == old(frame_queue).rate_limited,
            final(frame_queue).feedback_gen.same_data(old(frame_queue).feedback_gen), final(frame_queue).feedback_gen.reorder_buffer == old(frame_queue).feedback_gen.reorder_buffer,
    { unimplemented!() }
}
} }
pub mod pending_queue { use vstd::prelude::*; use std::collections::VecDeque; use super::pending_packet::*; verus! {
//@ clear
//@ rewrite /\bpending_packet:://
//@ take src/half_connection/pending_queue.rs struct Entry
//@ end
impl Entry {
//@ take src/half_connection/pending_queue.rs fn Entry::new
//@ ret r
//@ spec
    ensures r.fragment_ref == fragment_ref, r.resend == resend, // C12/C02
//@ end
}
pub type PendingQueue = VecDeque<Entry>;
} }
pub mod resend_queue { use vstd::prelude::*; use super::pending_packet::*; verus! {
//@ take src/half_connection/resend_queue.rs struct Entry
//@ end
impl Entry {
//@ take src/half_connection/resend_queue.rs fn Entry::new
//@ ret r
//@ spec
    ensures r.fragment_ref == fragment_ref, r.resend_time == resend_time, r.send_count == send_count, // C12/C02
//@ end
}
// stands for `BinaryHeap<Entry>`: the elements in the order in which they will be taken, which is the order of `Entry::cmp`
#[verifier::external_body]
pub struct ResendQueue { x: std::collections::VecDeque<Entry> }
pub open spec fn sorted(q: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).resend_time <= (#[trigger] q[j]).resend_time }
impl ResendQueue {
    pub uninterp spec fn v(self) -> Seq<Entry>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v() == Seq::<Entry>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.v().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&Entry>) ensures self.v().len() == 0 ==> r is None, self.v().len() > 0 ==> r == Some(&self.v()[0]), sorted(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Entry>) ensures old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(), old(self).v().len() > 0 ==> r == Some(old(self).v()[0]) && final(self).v() == old(self).v().skip(1), { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, e: Entry) ensures exists|k: int| 0 <= k <= old(self).v().len() && final(self).v() == #[trigger] old(self).v().insert(k, e), { unimplemented!() }
}
} }
//@ only half
pub mod half { use vstd::prelude::*; use std::collections::VecDeque; use super::base::*; use super::codec::*; use super::pending_packet::*; use super::packet_sender::SendMode; use super::packet_receiver::PacketSink; use super::frame_ack_queue::wf as ack_wf; use super::frame_queue::{time_ok, rtt_ok}; use super::*; verus! {
//@ clear
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bemit:://
//@ rewrite /use Serialize;//
//@ rewrite /\bpending_packet:://
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ include half.inc
} }
fn main() {}
