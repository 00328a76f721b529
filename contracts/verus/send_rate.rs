//@ for: C14 C13 C03
//@ panics: C03
#![feature(allocator_api)]
use vstd::prelude::*;
pub mod fr { use vstd::prelude::*; use vstd::float::*; use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*; verus! {
//@ include real.inc
} }
verus! { global size_of usize == 8; }
pub mod base { use vstd::prelude::*; verus! {
//@ rewrite /\bframe::(serial::)?//
//@ include std.inc
//@ include consts.inc
} }
pub mod send_rate { use vstd::prelude::*; use vstd::float::*; use vstd::std_specs::ops::*; use super::fr::*; use super::base::*; verus! {
//@ take src/half_connection/send_rate.rs struct FeedbackData
//@ end
//@ include send_rate.inc
} }
fn main() {}
