//@ attach: src/packet_id.rs
//@ for: kani native
// Contracts of the modular packet id arithmetic. Loop-free, full-domain: complete proofs.
use super::*;
use vsup::{any_u32, assume, check, proof, reach};

pub const HARNESSES: &[(&str, fn())] = &[("k_packet_id_arith", k_arith)];

// add/sub: requires nothing; ensures the result is the residue modulo 2^20
pub fn k_arith() {
    let a = any_u32();
    let b = any_u32();
    let sum = add(a, b);
    let dif = sub(a, b);
    check!(SPAN == 1 << 20 && MASK == SPAN - 1, "C01/C02/C06.packet_id.span: packet ids are 20 bits wide");
    check!(sum as u64 == (a as u64 + b as u64) % (1 << 20), "C01/C02/C06.packet_id.add: add is addition modulo 2^20");
    check!(dif as i64 == (a as i64 - b as i64).rem_euclid(1 << 20), "C01/C02/C06.packet_id.sub: sub is subtraction modulo 2^20");
    check!(is_valid(a) == (a < SPAN), "C01/C03/C06.packet_id.valid: is_valid accepts exactly the 20-bit values");
    if is_valid(a) && is_valid(b) {
        check!(add(b, sub(a, b)) == a, "C01/C02/C06.packet_id.inverse: add undoes sub");
    }
    reach!(sum < a, "wrap-around");
}
proof!(p_k_packet_id_arith, k_arith, 2);
