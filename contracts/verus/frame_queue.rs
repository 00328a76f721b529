//@ for: C15 C03 C11 C14 C02 C12
//@ panics: C03
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\breorder_buffer::(?=ReorderBuffer)//
//@ rewrite /\bsend_rate::(?=FeedbackData)//
//@ rewrite /(\w+(?:\.\w+)*) \|= (\w+\.rate_limited);/\1 = \1 || \2;/
//@ rewrite /(\w+) \^= (\w+\.nonce);/\1 = \1 != \2;/
//@ rewrite /\bloss_rate::(?=LossIntervalQueue)//
//@ rewrite /\bRc::downgrade\(/rc_downgrade(/
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include consts.inc
//@ include frags.inc
//@ include pending_packet.inc
//@ include refs.inc
//@ include reorder_buffer.inc
//@ include frame_queue.inc
}
fn main() {}
