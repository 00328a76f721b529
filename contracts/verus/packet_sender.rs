//@ for: C01 C02 C05 C06 C11 C12 C20
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bdebug_assert!\(/vassert(/
//@ rewrite /Rc::new\(RefCell::new\(/rc_new(h, (/
//@ rewrite /\bRc::clone\(/rc_clone(/
//@ rewrite /\bRc::downgrade\(/rc_downgrade(/
//@ rewrite /(\w+(?:\.\w+)*)\.borrow\(\)\.size\(\)/rc_size(&\1)/
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
//@ include packet_id.inc
verus! {
use packet_id::{spec_add, spec_sub, lemma_mask};
global size_of usize == 8;
//@ include std.inc
//@ include consts.inc
//@ include frags.inc
//@ include pending_packet.inc
//@ include ids.inc
//@ include refs.inc
//@ include packet_sender.inc
}
fn main() {}
