//@ for: C01 C02 C03 C06 C11 C15
//@ rewrite /\bframe::AckGroup\b/AckGroup/
//@ rewrite /\bdebug_assert!\(/vassert(/
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
//@ include std.inc
//@ include frame_ack.inc
}
fn main() {}
