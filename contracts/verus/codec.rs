//@ for: C16 C03 C01 C04 C13 C18
//@ panics: C16 C03
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bcrc::(?=extend|compute)//
//@ rewrite /\bbuild::(?=DataFrameBuilder|AckFrameBuilder)//
//@ rewrite /\bdebug_assert!\(/vassert(/
#![feature(allocator_api)]
use vstd::prelude::*;
//@ include packet_id.inc
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include consts.inc
//@ include codec.inc
}
fn main() {}
