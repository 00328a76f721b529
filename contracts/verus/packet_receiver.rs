//@ for: C01 C02 C03 C05 C06 C11
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\b(fragment_buffer|assembly_window):://
//@ rewrite /\bdebug_assert!\(/vassert(/
#![feature(allocator_api)]
use vstd::prelude::*;
//@ include packet_id.inc
verus! {
use packet_id::{spec_add, spec_sub, lemma_mask};
global size_of usize == 8;
//@ include std.inc
//@ include consts.inc
//@ include fragment_buffer.inc
//@ include assembly_window.inc
//@ include ids.inc
//@ include packet_receiver.inc
}
fn main() {}
