pub mod packet_id {
use vstd::prelude::*;
verus! {
//@ take src/packet_id.rs type Type
//@ end
//@ take src/packet_id.rs const MASK
//@ end
//@ take src/packet_id.rs const SPAN
//@ end
pub open spec fn spec_add(a: u32, b: u32) -> u32 { ((a as int + b as int) % 0x100000) as u32 }
pub open spec fn spec_sub(a: u32, b: u32) -> u32 { ((a as int - b as int) % 0x100000) as u32 }
// the 20-bit mask is the remainder by 2^20
pub proof fn lemma_mask() ensures forall|x: u32| #[trigger] (x & 0xFFFFF) == x % 0x100000 { assert(forall|x: u32| #[trigger] (x & 0xFFFFF) == x % 0x100000) by (bit_vector); }
//@ take src/packet_id.rs fn add
//@ ret r
//@ spec
    ensures r == spec_add(a, b), r <= 0xFFFFF, // C01/C02
//@ start
    proof { lemma_mask(); }
//@ end
//@ take src/packet_id.rs fn sub
//@ ret r
//@ spec
    ensures r == spec_sub(a, b), r <= 0xFFFFF, // C01/C02
//@ start
    proof { lemma_mask(); }
//@ end
//@ take src/packet_id.rs fn is_valid
//@ ret r
//@ spec
    ensures r == (a <= 0xFFFFF),
//@ start
    proof { lemma_mask(); }
//@ end
}
}
