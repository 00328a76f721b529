//@ for: C01 C02 C04 C12
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bdebug_assert!\(/vassert(/
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include consts.inc
//@ include frags.inc
//@ include pending_packet.inc
}
fn main() {}
