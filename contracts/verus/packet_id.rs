//@ for: C01 C02 C06 C11
use vstd::prelude::*;
//@ include packet_id.inc
verus! {
use packet_id::*;
// Lemmas over the contracts: ids on a circle of 2^20 behave as the property texts use them
pub proof fn sub_add_inverse(a: u32, d: u32) requires a <= 0xFFFFF, d <= 0xFFFFF
    ensures spec_sub(spec_add(a, d), a) == d, spec_add(a, spec_sub(d, a)) == d {}
pub proof fn order_is_window_relative(base: u32, x: u32, y: u32) requires base <= 0xFFFFF, x <= 0xFFFFF, y <= 0xFFFFF, spec_sub(x, base) == spec_sub(y, base)
    ensures x == y {}
}
fn main() {}
