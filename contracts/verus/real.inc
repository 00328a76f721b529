// Floating point. `val` is the real number a (finite) f64 stands for; the operations are those of IEEE 754 with rounding to
// nearest, of which the following is assumed: the result of an operation is within a relative error of 2^-52 (and, where it may be
// subnormal, an absolute one of 2^-1000) of the exact result, the integers up to 2^53 are represented exactly, and so on. The value of a
// literal comes from its bits.
pub uninterp spec fn val(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
pub open spec fn eps() -> real { 1real / 0x10_0000_0000_0000real }
// an integer bounding 2^-1000 is not needed: any bound will do which is far below the values at hand
pub uninterp spec fn tiny() -> real;
pub axiom fn tiny_is() ensures 0real <= tiny() <= 0.000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001real;
pub uninterp spec fn huge() -> real;
pub axiom fn huge_is() ensures huge() >= 1000000000000000000000000000000000000000000000000000000000000real;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn okr(x: real) -> bool { -huge() <= x <= huge() }
pub broadcast axiom fn mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn mul_det() ensures #[trigger] <f64 as MulSpec>::obeys_mul_spec();
pub broadcast axiom fn add_det() ensures #[trigger] <f64 as AddSpec>::obeys_add_spec();
pub broadcast axiom fn sub_det() ensures #[trigger] <f64 as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn div_det() ensures #[trigger] <f64 as DivSpec>::obeys_div_spec();
pub broadcast axiom fn ord_det() ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ord_is(a: f64, b: f64) requires fin(a), fin(b)
    ensures (#[trigger] a.partial_cmp_spec(&b)) == Some(if val(a) < val(b) { core::cmp::Ordering::Less } else if val(a) > val(b) { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal });
pub broadcast axiom fn mul_is(a: f64, b: f64) requires fin(a), fin(b), okr(val(a) * val(b))
    ensures fin(#[trigger] a.mul_spec(b)), rabs(val(a.mul_spec(b)) - val(a) * val(b)) <= rabs(val(a) * val(b)) * eps() + tiny(), val(a) * val(b) >= 0real ==> val(a.mul_spec(b)) >= 0real, val(a) * val(b) == 0real ==> val(a.mul_spec(b)) == 0real;
pub broadcast axiom fn add_is(a: f64, b: f64) requires fin(a), fin(b), okr(val(a) + val(b))
    ensures fin(#[trigger] a.add_spec(b)), rabs(val(a.add_spec(b)) - (val(a) + val(b))) <= rabs(val(a) + val(b)) * eps();
pub broadcast axiom fn sub_is(a: f64, b: f64) requires fin(a), fin(b), okr(val(a) - val(b))
    ensures fin(#[trigger] a.sub_spec(b)), rabs(val(a.sub_spec(b)) - (val(a) - val(b))) <= rabs(val(a) - val(b)) * eps();
pub broadcast axiom fn div_is(a: f64, b: f64) requires fin(a), fin(b), val(b) != 0real, okr(val(a) / val(b))
    ensures fin(#[trigger] a.div_spec(b)), rabs(val(a.div_spec(b)) - val(a) / val(b)) <= rabs(val(a) / val(b)) * eps() + tiny(), val(a) / val(b) >= 0real ==> val(a.div_spec(b)) >= 0real;
// conversions
pub broadcast axiom fn from_u32(x: u32, r: f64) requires #[trigger] float_cast_spec::<u32, f64>(x, r) ensures fin(r), val(r) == x as int as real;
pub broadcast axiom fn from_u64(x: u64, r: f64) requires #[trigger] float_cast_spec::<u64, f64>(x, r) ensures fin(r), rabs(val(r) - x as int as real) <= (x as int as real) * eps(), x <= 0x20_0000_0000_0000 ==> val(r) == x as int as real;
pub open spec fn trunc(x: real, max: int) -> int { if x <= 0real { 0 } else if x.floor() > max { max } else { x.floor() } }
pub broadcast axiom fn to_u32(x: f64, r: u32) requires #[trigger] float_cast_spec::<f64, u32>(x, r), fin(x) ensures r == trunc(val(x), u32::MAX as int);
pub broadcast axiom fn to_u64(x: f64, r: u64) requires #[trigger] float_cast_spec::<f64, u64>(x, r), fin(x) ensures r == trunc(val(x), u64::MAX as int);
pub broadcast group ieee { mul_req, add_req, sub_req, div_req, mul_is, add_is, sub_is, div_is, mul_det, add_det, sub_det, div_det, ord_det, ord_is, from_u32, from_u64, to_u32, to_u64, sqrt_is }
pub assume_specification [ f64::max ](a: f64, b: f64) -> (r: f64) ensures fin(a) && fin(b) ==> fin(r) && val(r) == if val(a) >= val(b) { val(a) } else { val(b) };
pub assume_specification [ f64::min ](a: f64, b: f64) -> (r: f64) ensures fin(a) && fin(b) ==> fin(r) && val(r) == if val(a) <= val(b) { val(a) } else { val(b) };
pub assume_specification [ f64::round ](a: f64) -> (r: f64) ensures fin(a) ==> fin(r) && rabs(val(r) - val(a)) <= 0.5real && val(r) == val(r).floor() as real;
pub assume_specification [ f64::floor ](a: f64) -> (r: f64) ensures fin(a) ==> fin(r) && val(r) == val(a).floor() as real;
pub assume_specification [ f64::clamp ](a: f64, lo: f64, hi: f64) -> (r: f64) ensures fin(a) && fin(lo) && fin(hi) && val(lo) <= val(hi) ==> fin(r) && val(r) == if val(a) < val(lo) { val(lo) } else if val(a) > val(hi) { val(hi) } else { val(a) };
pub uninterp spec fn rsqrt(x: real) -> real;
pub broadcast axiom fn rsqrt_is(x: real) requires x >= 0real ensures (#[trigger] rsqrt(x)) >= 0real, rsqrt(x) * rsqrt(x) == x;
pub uninterp spec fn fl_sqrt(x: f64) -> f64;
pub assume_specification [ f64::sqrt ](a: f64) -> (r: f64) ensures r == fl_sqrt(a);
pub broadcast axiom fn sqrt_is(a: f64) requires fin(a), val(a) >= 0real ensures fin(#[trigger] fl_sqrt(a)), rabs(val(fl_sqrt(a)) - rsqrt(val(a))) <= rsqrt(val(a)) * eps();
// the value of a number from its bits (positive and normal, or zero)
pub open spec fn pow_2(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * pow_2((k - 1) as nat) } }
pub open spec fn bits_val(b: u64) -> real {
    let e = (b >> 52) as int; let m = ((b & 0xf_ffff_ffff_ffff) + 0x10_0000_0000_0000) as int;
    if b == 0 { 0real } else if e >= 1075 { (m * pow_2((e - 1075) as nat)) as real } else { (m as real) / (pow_2((1075 - e) as nat) as real) }
}
pub axiom fn lit(x: f64) requires x.to_bits_spec() < 0x7ff0_0000_0000_0000, x.to_bits_spec() == 0 || x.to_bits_spec() >= 0x10_0000_0000_0000 ensures fin(x), val(x) == bits_val(x.to_bits_spec());

proof fn lit_0_0() ensures fin(0.0f64), val(0.0f64) == 0.0real { lit(0.0f64); }
proof fn lit_0_05() ensures fin(0.05f64), rabs(val(0.05f64) - 0.05real) <= 0.05real * eps() { lit(0.05f64); assert((0x3fa999999999999au64 >> 52) == 1018 && (0x3fa999999999999au64 & 0xf_ffff_ffff_ffff) == 2702159776422298) by (bit_vector); assert(pow_2(57) == 144115188075855872) by (compute); assert(bits_val(0x3fa999999999999au64) == 7205759403792794real / 144115188075855872real); }
proof fn lit_0_1() ensures fin(0.1f64), rabs(val(0.1f64) - 0.1real) <= 0.1real * eps() { lit(0.1f64); assert((0x3fb999999999999au64 >> 52) == 1019 && (0x3fb999999999999au64 & 0xf_ffff_ffff_ffff) == 2702159776422298) by (bit_vector); assert(pow_2(56) == 72057594037927936) by (compute); assert(bits_val(0x3fb999999999999au64) == 7205759403792794real / 72057594037927936real); }
proof fn lit_0_15() ensures fin(0.15f64), rabs(val(0.15f64) - 0.15real) <= 0.15real * eps() { lit(0.15f64); assert((0x3fc3333333333333u64 >> 52) == 1020 && (0x3fc3333333333333u64 & 0xf_ffff_ffff_ffff) == 900719925474099) by (bit_vector); assert(pow_2(55) == 36028797018963968) by (compute); assert(bits_val(0x3fc3333333333333u64) == 5404319552844595real / 36028797018963968real); }
proof fn lit_0_2() ensures fin(0.2f64), rabs(val(0.2f64) - 0.2real) <= 0.2real * eps() { lit(0.2f64); assert((0x3fc999999999999au64 >> 52) == 1020 && (0x3fc999999999999au64 & 0xf_ffff_ffff_ffff) == 2702159776422298) by (bit_vector); assert(pow_2(55) == 36028797018963968) by (compute); assert(bits_val(0x3fc999999999999au64) == 7205759403792794real / 36028797018963968real); }
proof fn lit_0_25() ensures fin(0.25f64), val(0.25f64) == 0.25real { lit(0.25f64); assert((0x3fd0000000000000u64 >> 52) == 1021 && (0x3fd0000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(54) == 18014398509481984) by (compute); assert(bits_val(0x3fd0000000000000u64) == 4503599627370496real / 18014398509481984real); }
proof fn lit_0_5() ensures fin(0.5f64), val(0.5f64) == 0.5real { lit(0.5f64); assert((0x3fe0000000000000u64 >> 52) == 1022 && (0x3fe0000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3fe0000000000000u64) == 4503599627370496real / 9007199254740992real); }
proof fn lit_0_75() ensures fin(0.75f64), val(0.75f64) == 0.75real { lit(0.75f64); assert((0x3fe8000000000000u64 >> 52) == 1022 && (0x3fe8000000000000u64 & 0xf_ffff_ffff_ffff) == 2251799813685248) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3fe8000000000000u64) == 6755399441055744real / 9007199254740992real); }
proof fn lit_0_8() ensures fin(0.8f64), rabs(val(0.8f64) - 0.8real) <= 0.8real * eps() { lit(0.8f64); assert((0x3fe999999999999au64 >> 52) == 1022 && (0x3fe999999999999au64 & 0xf_ffff_ffff_ffff) == 2702159776422298) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3fe999999999999au64) == 7205759403792794real / 9007199254740992real); }
proof fn lit_0_85() ensures fin(0.85f64), rabs(val(0.85f64) - 0.85real) <= 0.85real * eps() { lit(0.85f64); assert((0x3feb333333333333u64 >> 52) == 1022 && (0x3feb333333333333u64 & 0xf_ffff_ffff_ffff) == 3152519739159347) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3feb333333333333u64) == 7656119366529843real / 9007199254740992real); }
proof fn lit_0_9() ensures fin(0.9f64), rabs(val(0.9f64) - 0.9real) <= 0.9real * eps() { lit(0.9f64); assert((0x3feccccccccccccdu64 >> 52) == 1022 && (0x3feccccccccccccdu64 & 0xf_ffff_ffff_ffff) == 3602879701896397) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3feccccccccccccdu64) == 8106479329266893real / 9007199254740992real); }
proof fn lit_0_95() ensures fin(0.95f64), rabs(val(0.95f64) - 0.95real) <= 0.95real * eps() { lit(0.95f64); assert((0x3fee666666666666u64 >> 52) == 1022 && (0x3fee666666666666u64 & 0xf_ffff_ffff_ffff) == 4053239664633446) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3fee666666666666u64) == 8556839292003942real / 9007199254740992real); }
proof fn lit_1_0() ensures fin(1.0f64), val(1.0f64) == 1.0real { lit(1.0f64); assert((0x3ff0000000000000u64 >> 52) == 1023 && (0x3ff0000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(52) == 4503599627370496) by (compute); assert(bits_val(0x3ff0000000000000u64) == 4503599627370496real / 4503599627370496real); }
proof fn lit_1_5() ensures fin(1.5f64), val(1.5f64) == 1.5real { lit(1.5f64); assert((0x3ff8000000000000u64 >> 52) == 1023 && (0x3ff8000000000000u64 & 0xf_ffff_ffff_ffff) == 2251799813685248) by (bit_vector); assert(pow_2(52) == 4503599627370496) by (compute); assert(bits_val(0x3ff8000000000000u64) == 6755399441055744real / 4503599627370496real); }
proof fn lit_2_0() ensures fin(2.0f64), val(2.0f64) == 2.0real { lit(2.0f64); assert((0x4000000000000000u64 >> 52) == 1024 && (0x4000000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(51) == 2251799813685248) by (compute); assert(bits_val(0x4000000000000000u64) == 4503599627370496real / 2251799813685248real); }
proof fn lit_3_0() ensures fin(3.0f64), val(3.0f64) == 3.0real { lit(3.0f64); assert((0x4008000000000000u64 >> 52) == 1024 && (0x4008000000000000u64 & 0xf_ffff_ffff_ffff) == 2251799813685248) by (bit_vector); assert(pow_2(51) == 2251799813685248) by (compute); assert(bits_val(0x4008000000000000u64) == 6755399441055744real / 2251799813685248real); }
proof fn lit_4_0() ensures fin(4.0f64), val(4.0f64) == 4.0real { lit(4.0f64); assert((0x4010000000000000u64 >> 52) == 1025 && (0x4010000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(50) == 1125899906842624) by (compute); assert(bits_val(0x4010000000000000u64) == 4503599627370496real / 1125899906842624real); }
proof fn lit_5_0() ensures fin(5.0f64), val(5.0f64) == 5.0real { lit(5.0f64); assert((0x4014000000000000u64 >> 52) == 1025 && (0x4014000000000000u64 & 0xf_ffff_ffff_ffff) == 1125899906842624) by (bit_vector); assert(pow_2(50) == 1125899906842624) by (compute); assert(bits_val(0x4014000000000000u64) == 5629499534213120real / 1125899906842624real); }
proof fn lit_6_0() ensures fin(6.0f64), val(6.0f64) == 6.0real { lit(6.0f64); assert((0x4018000000000000u64 >> 52) == 1025 && (0x4018000000000000u64 & 0xf_ffff_ffff_ffff) == 2251799813685248) by (bit_vector); assert(pow_2(50) == 1125899906842624) by (compute); assert(bits_val(0x4018000000000000u64) == 6755399441055744real / 1125899906842624real); }
proof fn lit_8_0() ensures fin(8.0f64), val(8.0f64) == 8.0real { lit(8.0f64); assert((0x4020000000000000u64 >> 52) == 1026 && (0x4020000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(49) == 562949953421312) by (compute); assert(bits_val(0x4020000000000000u64) == 4503599627370496real / 562949953421312real); }
proof fn lit_10_0() ensures fin(10.0f64), val(10.0f64) == 10.0real { lit(10.0f64); assert((0x4024000000000000u64 >> 52) == 1026 && (0x4024000000000000u64 & 0xf_ffff_ffff_ffff) == 1125899906842624) by (bit_vector); assert(pow_2(49) == 562949953421312) by (compute); assert(bits_val(0x4024000000000000u64) == 5629499534213120real / 562949953421312real); }
proof fn lit_12_0() ensures fin(12.0f64), val(12.0f64) == 12.0real { lit(12.0f64); assert((0x4028000000000000u64 >> 52) == 1026 && (0x4028000000000000u64 & 0xf_ffff_ffff_ffff) == 2251799813685248) by (bit_vector); assert(pow_2(49) == 562949953421312) by (compute); assert(bits_val(0x4028000000000000u64) == 6755399441055744real / 562949953421312real); }
proof fn lit_16_0() ensures fin(16.0f64), val(16.0f64) == 16.0real { lit(16.0f64); assert((0x4030000000000000u64 >> 52) == 1027 && (0x4030000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(48) == 281474976710656) by (compute); assert(bits_val(0x4030000000000000u64) == 4503599627370496real / 281474976710656real); }
proof fn lit_32_0() ensures fin(32.0f64), val(32.0f64) == 32.0real { lit(32.0f64); assert((0x4040000000000000u64 >> 52) == 1028 && (0x4040000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(47) == 140737488355328) by (compute); assert(bits_val(0x4040000000000000u64) == 4503599627370496real / 140737488355328real); }
proof fn lit_64_0() ensures fin(64.0f64), val(64.0f64) == 64.0real { lit(64.0f64); assert((0x4050000000000000u64 >> 52) == 1029 && (0x4050000000000000u64 & 0xf_ffff_ffff_ffff) == 0) by (bit_vector); assert(pow_2(46) == 70368744177664) by (compute); assert(bits_val(0x4050000000000000u64) == 4503599627370496real / 70368744177664real); }
proof fn lit_100_0() ensures fin(100.0f64), val(100.0f64) == 100.0real { lit(100.0f64); assert((0x4059000000000000u64 >> 52) == 1029 && (0x4059000000000000u64 & 0xf_ffff_ffff_ffff) == 2533274790395904) by (bit_vector); assert(pow_2(46) == 70368744177664) by (compute); assert(bits_val(0x4059000000000000u64) == 7036874417766400real / 70368744177664real); }
proof fn lit_1000_0() ensures fin(1000.0f64), val(1000.0f64) == 1000.0real { lit(1000.0f64); assert((0x408f400000000000u64 >> 52) == 1032 && (0x408f400000000000u64 & 0xf_ffff_ffff_ffff) == 4292493394837504) by (bit_vector); assert(pow_2(43) == 8796093022208) by (compute); assert(bits_val(0x408f400000000000u64) == 8796093022208000real / 8796093022208real); }
proof fn lit_1000000_0() ensures fin(1000000.0f64), val(1000000.0f64) == 1000000.0real { lit(1000000.0f64); assert((0x412e848000000000u64 >> 52) == 1042 && (0x412e848000000000u64 & 0xf_ffff_ffff_ffff) == 4086334964629504) by (bit_vector); assert(pow_2(33) == 8589934592) by (compute); assert(bits_val(0x412e848000000000u64) == 8589934592000000real / 8589934592real); }
proof fn lit_0_4() ensures fin(0.4f64), rabs(val(0.4f64) - 0.4real) <= 0.4real * eps() { lit(0.4f64); assert((0x3fd999999999999au64 >> 52) == 1021 && (0x3fd999999999999au64 & 0xf_ffff_ffff_ffff) == 2702159776422298) by (bit_vector); assert(pow_2(54) == 18014398509481984) by (compute); assert(bits_val(0x3fd999999999999au64) == 7205759403792794real / 18014398509481984real); }
proof fn lit_0_6() ensures fin(0.6f64), rabs(val(0.6f64) - 0.6real) <= 0.6real * eps() { lit(0.6f64); assert((0x3fe3333333333333u64 >> 52) == 1022 && (0x3fe3333333333333u64 & 0xf_ffff_ffff_ffff) == 900719925474099) by (bit_vector); assert(pow_2(53) == 9007199254740992) by (compute); assert(bits_val(0x3fe3333333333333u64) == 5404319552844595real / 9007199254740992real); }
proof fn lit_0_3() ensures fin(0.3f64), rabs(val(0.3f64) - 0.3real) <= 0.3real * eps() { lit(0.3f64); assert((0x3fd3333333333333u64 >> 52) == 1021 && (0x3fd3333333333333u64 & 0xf_ffff_ffff_ffff) == 900719925474099) by (bit_vector); assert(pow_2(54) == 18014398509481984) by (compute); assert(bits_val(0x3fd3333333333333u64) == 5404319552844595real / 18014398509481984real); }
proof fn lit_4294967295_0() ensures fin(4294967295.0f64), val(4294967295.0f64) == 4294967295.0real { lit(4294967295.0f64); assert((0x41efffffffe00000u64 >> 52) == 1054 && (0x41efffffffe00000u64 & 0xf_ffff_ffff_ffff) == 4503599625273344) by (bit_vector); assert(pow_2(21) == 2097152) by (compute); assert(bits_val(0x41efffffffe00000u64) == 9007199252643840real / 2097152real); }
pub proof fn literals() ensures fin(0.0f64) && val(0.0f64) == 0.0real,
    fin(0.05f64) && rabs(val(0.05f64) - 0.05real) <= 0.05real * eps(),
    fin(0.1f64) && rabs(val(0.1f64) - 0.1real) <= 0.1real * eps(),
    fin(0.15f64) && rabs(val(0.15f64) - 0.15real) <= 0.15real * eps(),
    fin(0.2f64) && rabs(val(0.2f64) - 0.2real) <= 0.2real * eps(),
    fin(0.25f64) && val(0.25f64) == 0.25real,
    fin(0.5f64) && val(0.5f64) == 0.5real,
    fin(0.75f64) && val(0.75f64) == 0.75real,
    fin(0.8f64) && rabs(val(0.8f64) - 0.8real) <= 0.8real * eps(),
    fin(0.85f64) && rabs(val(0.85f64) - 0.85real) <= 0.85real * eps(),
    fin(0.9f64) && rabs(val(0.9f64) - 0.9real) <= 0.9real * eps(),
    fin(0.95f64) && rabs(val(0.95f64) - 0.95real) <= 0.95real * eps(),
    fin(1.0f64) && val(1.0f64) == 1.0real,
    fin(1.5f64) && val(1.5f64) == 1.5real,
    fin(2.0f64) && val(2.0f64) == 2.0real,
    fin(3.0f64) && val(3.0f64) == 3.0real,
    fin(4.0f64) && val(4.0f64) == 4.0real,
    fin(5.0f64) && val(5.0f64) == 5.0real,
    fin(6.0f64) && val(6.0f64) == 6.0real,
    fin(8.0f64) && val(8.0f64) == 8.0real,
    fin(10.0f64) && val(10.0f64) == 10.0real,
    fin(12.0f64) && val(12.0f64) == 12.0real,
    fin(16.0f64) && val(16.0f64) == 16.0real,
    fin(32.0f64) && val(32.0f64) == 32.0real,
    fin(64.0f64) && val(64.0f64) == 64.0real,
    fin(100.0f64) && val(100.0f64) == 100.0real,
    fin(1000.0f64) && val(1000.0f64) == 1000.0real,
    fin(1000000.0f64) && val(1000000.0f64) == 1000000.0real,
    fin(0.4f64) && rabs(val(0.4f64) - 0.4real) <= 0.4real * eps(),
    fin(0.6f64) && rabs(val(0.6f64) - 0.6real) <= 0.6real * eps(),
    fin(0.3f64) && rabs(val(0.3f64) - 0.3real) <= 0.3real * eps(),
    fin(4294967295.0f64) && val(4294967295.0f64) == 4294967295.0real
{ lit_0_0(); lit_0_05(); lit_0_1(); lit_0_15(); lit_0_2(); lit_0_25(); lit_0_5(); lit_0_75(); lit_0_8(); lit_0_85(); lit_0_9(); lit_0_95(); lit_1_0(); lit_1_5(); lit_2_0(); lit_3_0(); lit_4_0(); lit_5_0(); lit_6_0(); lit_8_0(); lit_10_0(); lit_12_0(); lit_16_0(); lit_32_0(); lit_64_0(); lit_100_0(); lit_1000_0(); lit_1000000_0(); lit_0_4(); lit_0_6(); lit_0_3(); lit_4294967295_0(); }
// error analysis: x is y but for at most k roundings
pub open spec fn near(x: real, y: real, k: int) -> bool { 0 <= k <= 100 && y >= small() && y - y * (k as real * eps()) <= x <= y + y * (k as real * eps()) }
pub open spec fn small() -> real { 0.0000000000000000000000000000000000000001real }
pub proof fn near_fl(z: real, y: real, k: int, r: real) requires near(z, y, k), k <= 98, tiny() <= 0.000000000000000000000000000000000000000000000000000000000001real, rabs(r - z) <= rabs(z) * eps() + tiny() ensures near(r, y, k + 2), r > 0real
{
    let e = eps(); let ke = k as real * e; assert(0real <= ke <= 0.5real);
    assert(y * ke <= y) by (nonlinear_arith) requires ke <= 1real, y >= 0real; assert(z >= 0real);
    assert(y * ke <= y * 0.5real) by (nonlinear_arith) requires ke <= 0.5real, y >= 0real;
    assert(z * e <= (y * 1.5real) * e) by (nonlinear_arith) requires z <= y * 1.5real, e >= 0real;
    assert(y * ((k + 2) as real * e) == y * ke + y * e + y * e) by (nonlinear_arith) requires ke == k as real * e, (k + 2) as real == k as real + 2real;
    assert(y * e >= small() * e) by (nonlinear_arith) requires y >= small(), e >= 0real;
    assert((k + 2) as real * e <= 0.5real); assert(y * ((k + 2) as real * e) <= y * 0.5real) by (nonlinear_arith) requires (k + 2) as real * e <= 0.5real, y >= 0real;
}
pub proof fn near_exact(x: real, y: real, k: int, j: int) requires near(x, y, k), k <= j <= 100 ensures near(x, y, j)
{ let e = eps(); assert(y * (k as real * e) <= y * (j as real * e)) by (nonlinear_arith) requires k <= j, y >= 0real, e >= 0real; }
pub proof fn near_self(x: real) requires x >= small() ensures near(x, x, 0) { assert(x * (0int as real * eps()) == 0real) by (nonlinear_arith); }
pub proof fn near_mul(a: f64, b: f64, x: real, y: real, i: int, j: int) requires fin(a), fin(b), near(val(a), x, i), near(val(b), y, j), small() <= x * y, x * y <= 1000000000000000000000000000000000000000000000000real, i + j <= 90 ensures fin(a.mul_spec(b)), near(val(a.mul_spec(b)), x * y, i + j + 3), val(a.mul_spec(b)) > 0real
{
    broadcast use mul_is; tiny_is(); huge_is();
    near_prod(val(a), val(b), x, y, i, j);
    let z = val(a) * val(b); let e = (i + j + 1) as real * eps(); assert(e <= 1real); assert((x * y) * e <= x * y) by (nonlinear_arith) requires e <= 1real, x * y >= 0real;
    near_fl(z, x * y, i + j + 1, val(a.mul_spec(b)));
}
pub proof fn near_prod(a: real, b: real, x: real, y: real, i: int, j: int) requires near(a, x, i), near(b, y, j), small() <= x * y, i + j <= 90 ensures near(a * b, x * y, i + j + 1)
{
    let e = eps(); let s = i as real * e; let t = j as real * e; let w = x * y; let u = (i + j + 1) as real * e;
    assert(0real <= s <= 0.00000001real && 0real <= t <= 0.00000001real); assert(s * t <= e) by (nonlinear_arith) requires s == i as real * e, t == j as real * e, 0 <= i <= 100, 0 <= j <= 100, e == eps();
    assert(u == s + t + e) by (nonlinear_arith) requires s == i as real * e, t == j as real * e, u == (i + j + 1) as real * e, (i + j + 1) as real == i as real + j as real + 1real;
    let xl = x - x * s; let xh = x + x * s; let yl = y - y * t; let yh = y + y * t;
    assert(xl >= 0real) by (nonlinear_arith) requires xl == x - x * s, s <= 1real, x >= 0real; assert(yl >= 0real) by (nonlinear_arith) requires yl == y - y * t, t <= 1real, y >= 0real;
    assert(a * b <= xh * yh) by (nonlinear_arith) requires 0real <= xl <= a <= xh, 0real <= yl <= b <= yh;
    assert(a * b >= xl * yl) by (nonlinear_arith) requires 0real <= xl <= a <= xh, 0real <= yl <= b <= yh;
    assert(xh * yh == w + w * s + w * t + w * (s * t)) by (nonlinear_arith) requires xh == x + x * s, yh == y + y * t, w == x * y;
    assert(xl * yl == w - w * s - w * t + w * (s * t)) by (nonlinear_arith) requires xl == x - x * s, yl == y - y * t, w == x * y;
    assert(s * t >= 0real) by (nonlinear_arith) requires s >= 0real, t >= 0real; assert(w * (s * t) <= w * e && w * (s * t) >= 0real) by (nonlinear_arith) requires 0real <= s * t <= e, w >= 0real, s >= 0real, t >= 0real;
    assert(w * u == w * s + w * t + w * e) by (nonlinear_arith) requires u == s + t + e;
}
pub proof fn near_div(a: f64, b: f64, x: real, y: real, i: int, j: int) requires fin(a), fin(b), near(val(a), x, i), near(val(b), y, j), small() <= x / y, x / y <= 1000000000000000000000000000000000000000000000000real, i + j <= 90 ensures fin(a.div_spec(b)), near(val(a.div_spec(b)), x / y, i + j + 4), val(a.div_spec(b)) > 0real
{
    broadcast use div_is; tiny_is(); huge_is();
    near_quot(val(a), val(b), x, y, i, j);
    let z = val(a) / val(b); let e = (i + j + 2) as real * eps(); assert(e <= 1real); assert((x / y) * e <= x / y) by (nonlinear_arith) requires e <= 1real, x / y >= 0real;
    near_fl(z, x / y, i + j + 2, val(a.div_spec(b)));
}
pub proof fn near_quot(a: real, b: real, x: real, y: real, i: int, j: int) requires near(a, x, i), near(b, y, j), small() <= x / y, i + j <= 90 ensures b > 0real, near(a / b, x / y, i + j + 2)
{
    let e = eps(); let s = i as real * e; let t = j as real * e; let u = (i + j + 2) as real * e; let w = x / y; let q = a / b;
    assert(0real <= s <= 0.00000001real && 0real <= t <= 0.00000001real); 
    assert(u == s + t + e + e) by (nonlinear_arith) requires s == i as real * e, t == j as real * e, u == (i + j + 2) as real * e, (i + j + 2) as real == i as real + j as real + 2real;
    let yl = y - y * t; let yh = y + y * t;
    assert(yl > 0real) by (nonlinear_arith) requires yl == y - y * t, t <= 0.5real, y > 0real;
    assert(w * y == x) by (nonlinear_arith) requires w == x / y, y > 0real; assert(q * b == a) by (nonlinear_arith) requires q == a / b, b > 0real;
    // (1 + s) <= (1 + u) (1 - t), (1 - s) >= (1 - u) (1 + t)
    assert(u * t <= e) by (nonlinear_arith) requires u == (i + j + 2) as real * e, t == j as real * e, 0 <= i, 0 <= j, i + j <= 90, e == eps();
    assert(1real + s <= (1real + u) * (1real - t)) by (nonlinear_arith) requires u == s + t + e + e, u * t <= e, e >= 0real;
    assert(1real - s >= (1real - u) * (1real + t)) by (nonlinear_arith) requires u == s + t + e + e, u >= 0real, t >= 0real, e >= 0real;
    let h = w + w * u; let l = w - w * u;
    assert(h == w * (1real + u) && l == w * (1real - u)) by (nonlinear_arith) requires h == w + w * u, l == w - w * u;
    assert(x + x * s == x * (1real + s) && x - x * s == x * (1real - s) && yl == y * (1real - t) && yh == y * (1real + t)) by (nonlinear_arith) requires yl == y - y * t, yh == y + y * t;
    assert(x * (1real + s) <= x * ((1real + u) * (1real - t))) by (nonlinear_arith) requires 1real + s <= (1real + u) * (1real - t), x >= 0real;
    assert(x * ((1real + u) * (1real - t)) == h * yl) by (nonlinear_arith) requires h == w * (1real + u), yl == y * (1real - t), w * y == x;
    assert(x * (1real - s) >= x * ((1real - u) * (1real + t))) by (nonlinear_arith) requires 1real - s >= (1real - u) * (1real + t), x >= 0real;
    assert(x * ((1real - u) * (1real + t)) == l * yh) by (nonlinear_arith) requires l == w * (1real - u), yh == y * (1real + t), w * y == x;
    assert(h >= 0real && l >= 0real) by (nonlinear_arith) requires h == w + w * u, l == w - w * u, 0real <= u <= 1real, w >= 0real;
    assert(h * b >= h * yl) by (nonlinear_arith) requires b >= yl, h >= 0real; assert(l * b <= l * yh) by (nonlinear_arith) requires b <= yh, l >= 0real;
    assert(q <= h) by (nonlinear_arith) requires q * b <= h * b, b > 0real; assert(q >= l) by (nonlinear_arith) requires q * b >= l * b, b > 0real;
}
pub proof fn near_add(a: f64, b: f64, x: real, y: real, i: int, j: int) requires fin(a), fin(b), near(val(a), x, i), near(val(b), y, j), i <= 98, j <= 98, x + y <= 1000000000000000000000000000000000000000000000000real ensures fin(a.add_spec(b)), near(val(a.add_spec(b)), x + y, (if i >= j { i } else { j }) + 2), val(a.add_spec(b)) > 0real
{
    broadcast use add_is; tiny_is(); huge_is(); let m = if i >= j { i } else { j };
    near_exact(val(a), x, i, m); near_exact(val(b), y, j, m); let z = val(a) + val(b); let k = m as real * eps();
    assert((x + y) * k == x * k + y * k) by (nonlinear_arith); assert(k <= 1real); assert((x + y) * k <= x + y) by (nonlinear_arith) requires k <= 1real, x + y >= 0real;
    near_fl(z, x + y, m, val(a.add_spec(b)));
}
pub proof fn near_sqrt(a: f64, x: real, i: int) requires fin(a), near(val(a), x, i), i <= 90, small() <= rsqrt(x) ensures fin(fl_sqrt(a)), near(val(fl_sqrt(a)), rsqrt(x), i + 2), val(fl_sqrt(a)) > 0real
{
    broadcast use rsqrt_is, sqrt_is; tiny_is(); let r = fl_sqrt(a); let e = i as real * eps(); assert(e <= 0.5real) by (nonlinear_arith) requires e == i as real * eps(), i <= 100; assert(x * e <= x * 0.5real) by (nonlinear_arith) requires e <= 0.5real, x >= 0real;
    let s = rsqrt(val(a)); let t = rsqrt(x); assert(s * s == val(a) && t * t == x);
    assert((s - t) * (s + t) == s * s - t * t) by (nonlinear_arith);
    assert(rabs(s - t) * t <= rabs(s * s - t * t)) by (nonlinear_arith) requires (s - t) * (s + t) == s * s - t * t, s >= 0real, t >= 0real;
    assert(rabs(s - t) <= t * e) by (nonlinear_arith) requires rabs(s - t) * t <= (t * t) * e, t > 0real;
    near_fl(s, t, i, val(r));
}
pub proof fn mb(a: real, b: real, al: real, ah: real, bl: real, bh: real) requires 0real <= al <= a <= ah, 0real <= bl <= b <= bh ensures al * bl <= a * b <= ah * bh
{ assert(al * bl <= a * bl) by (nonlinear_arith) requires al <= a, bl >= 0real; assert(a * bl <= a * b) by (nonlinear_arith) requires bl <= b, a >= 0real; assert(a * b <= ah * b) by (nonlinear_arith) requires a <= ah, b >= 0real; assert(ah * b <= ah * bh) by (nonlinear_arith) requires b <= bh, ah >= 0real; }
pub proof fn db(a: real, b: real, al: real, ah: real, bl: real, bh: real, ql: real, qh: real) requires 0real <= al <= a <= ah, 0real < bl <= b <= bh, 0real <= ql, ql * bh <= al, ah <= qh * bl ensures ql <= a / b <= qh
{ let q = a / b; assert(q * b == a) by (nonlinear_arith) requires q == a / b, b > 0real; assert(ql * b <= ql * bh) by (nonlinear_arith) requires b <= bh, ql >= 0real; assert(ql <= q) by (nonlinear_arith) requires ql * b <= q * b, b > 0real; 
  assert(qh >= 0real) by (nonlinear_arith) requires ah <= qh * bl, ah >= 0real, bl > 0real; assert(qh * bl <= qh * b) by (nonlinear_arith) requires bl <= b, qh >= 0real; assert(q <= qh) by (nonlinear_arith) requires q * b <= qh * b, b > 0real; }
