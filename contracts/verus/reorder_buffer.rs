//@ for: C03 C11 C14 C15
//@ panics: C03
//@ rewrite /\bdebug_assert!\(/vassert(/
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include reorder_buffer.inc
}
fn main() {}
