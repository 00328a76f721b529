//@ for: C01 C03 C04
//@ rewrite /\bframe::serial:://
//@ rewrite /\bdebug_assert!\(/vassert(/
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include consts.inc
//@ include fragment_buffer.inc
}
fn main() {}
