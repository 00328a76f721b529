broadcast use super::fr::ieee;
//@ rewrite /\brecv_rate_set:://
// ---- the set of receive rates (RFC 5348, 4.3)
//@ take src/half_connection/recv_rate_set.rs struct RecvEntry
//@ end
//@ take src/half_connection/recv_rate_set.rs struct RecvRateSet
//@ end
pub open spec fn top(e: Seq<RecvEntry>, r: u32) -> bool { (exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).value == r) && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).value <= r }
pub open spec fn later(e: Seq<RecvEntry>) -> Seq<RecvEntry> { e.filter(|x: RecvEntry| !x.is_initial) }
pub open spec fn young(e: Seq<RecvEntry>, now_ms: u64, span: int) -> Seq<RecvEntry> { e.filter(|x: RecvEntry| now_ms - x.timestamp_ms < span) }
pub open spec fn span(rtt_ms: u64) -> int { if rtt_ms > 0 { 2 * rtt_ms as int } else { 1 } }
pub open spec fn half(e: Seq<RecvEntry>) -> Seq<RecvEntry> { Seq::new(e.len(), |i: int| RecvEntry { value: e[i].value / 2, ..e[i] }) }
pub open spec fn top_or(e: Seq<RecvEntry>, x: u32, r: u32) -> bool { if e.len() == 0 { r == x } else { exists|m: u32| #[trigger] top(e, m) && r == if m >= x { m } else { x } } }
impl RecvRateSet {
    pub open spec fn before(self, t: u64) -> bool { forall|i: int| 0 <= i < self.entries@.len() ==> (#[trigger] self.entries@[i]).timestamp_ms <= t }
    pub open spec fn only(self, now_ms: u64, r: u32, initial: bool) -> bool { self.entries@ == seq![RecvEntry { value: r, timestamp_ms: now_ms, is_initial: initial }] }
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::new
//@ ret r
//@ spec
    ensures r.entries@.len() == 0,
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::reset_initial
//@ spec
    ensures final(self).only(now_ms, u32::MAX, true), // C14
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::reset
//@ spec
    ensures final(self).only(now_ms, recv_rate, false), // C14
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::max
//@ sub /for (\w+) in (self\.entries)\.iter\(\)\.skip\((\w+)\) \{/for i_ in \3 .. \2.len() { let \1 = &\2[i_];/
//@ ret r
//@ spec
    requires self.entries@.len() > 0,
    ensures top(self.entries@, r), // C14
//@ loop 0
    invariant 1 <= i_ <= self.entries@.len() || self.entries@.len() == 1, exists|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).value == max_rate, forall|i: int| 0 <= i < i_ && i < self.entries@.len() ==> (#[trigger] self.entries@[i]).value <= max_rate,
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::replace_max
//@ sub /(self\.entries)\.retain\(\|(\w+)\| ([^;]*)\);/let mut i_: usize = 0; while i_ < \1.len() { let \2 = &\1[i_]; if \3 { i_ = i_ + 1; } else { \1.remove(i_); } }/!
//@ sub /(self\.entries)\.is_empty\(\)/\1.len() == 0/
//@ ret r
//@ start
    let ghost e0 = self.entries@; let ghost mut k: int = 0; let ghost f = |x: RecvEntry| !x.is_initial; proof { kept_init(e0, f); }
//@ spec
    ensures top_or(later(old(self).entries@), recv_rate, r), final(self).only(now_ms, r, false), // C14
//@ loop 0
    invariant f == (|x: RecvEntry| !x.is_initial), kept(e0, self.entries@, f, i_ as int, k),
    decreases self.entries@.len() - i_,
//@ bodyend 0
    proof { kept_step(e0, f, k); k = k + 1; }
//@ body 0
    let ghost es = self.entries@; let ghost is = i_; proof { assert(es[is as int] == es.skip(is as int)[0] && e0.skip(k)[0] == e0[k]); kept_next(e0, es, f, is as int, k); }
//@ afterloop 0
    proof { kept_all(e0, self.entries@, f, i_ as int, k); }
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::rate_limited_update
//@ sub /(self\.entries)\.retain\(\|(\w+)\| ([^;]*)\);/let mut i_: usize = 0; while i_ < \1.len() { let \2 = &\1[i_]; if \3 { i_ = i_ + 1; } else { \1.remove(i_); } }/!
//@ ret r
//@ spec
    requires old(self).before(now_ms), rtt_ms < 0x8000_0000_0000_0000,
    ensures final(self).before(now_ms), final(self).entries@ == young(old(self).entries@.push(RecvEntry { value: recv_rate, timestamp_ms: now_ms, is_initial: false }), now_ms, span(rtt_ms)), // C14
        top(final(self).entries@, r), r >= recv_rate, // C14
//@ before /let mut i_: usize = 0/
    let ghost e0 = self.entries@; let ghost mut k: int = 0; let ghost f = |x: RecvEntry| now_ms - x.timestamp_ms < span(rtt_ms); proof { kept_init(e0, f); }
//@ loop 0
    invariant f == (|x: RecvEntry| now_ms - x.timestamp_ms < span(rtt_ms)), kept(e0, self.entries@, f, i_ as int, k), rtt_ms < 0x8000_0000_0000_0000, forall|i: int| 0 <= i < e0.len() ==> (#[trigger] e0[i]).timestamp_ms <= now_ms,
    decreases self.entries@.len() - i_,
//@ bodyend 0
    proof { kept_step(e0, f, k); k = k + 1; }
//@ body 0
    let ghost es = self.entries@; let ghost is = i_; proof { assert(es[is as int] == es.skip(is as int)[0] && e0.skip(k)[0] == e0[k]); kept_next(e0, es, f, is as int, k); }
//@ afterloop 0
    proof { kept_all(e0, self.entries@, f, i_ as int, k); filter_sub(e0, f); filter_has(e0, f, e0.len() - 1); }
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::loss_increase_update
//@ sub /for (\w+) in (self\.entries)\.iter_mut\(\) \{\s*\1\.value \/= (\w+);\s*\}/let mut i_: usize = 0; while i_ < \2.len() { let v_ = \2[i_].value \/ \3; let x_ = RecvEntry { value: v_, timestamp_ms: \2[i_].timestamp_ms, is_initial: \2[i_].is_initial }; \2.set(i_, x_); i_ = i_ + 1; }/s!
//@ ret r
//@ start
    let ghost e0 = self.entries@; proof { literals(); }
//@ spec
    ensures final(self).only(now_ms, r, false), // C14
        // all rates are halved and the new one is reduced to 85%
        exists|x: u32| x as int as real <= recv_rate as int as real * 0.8501real + 1real && #[trigger] top_or(later(half(old(self).entries@)), x, r), // C14
//@ loop 0
    invariant i_ <= e0.len(), self.entries@.len() == e0.len(), self.entries@ =~= half(e0.take(i_ as int)) + e0.skip(i_ as int),
    decreases e0.len() - i_,
//@ afterloop 0
    proof { assert(self.entries@ =~= half(e0)); assert(recv_rate as int as real * val(0.85) <= recv_rate as int as real * 0.85001real) by (nonlinear_arith) requires val(0.85) <= 0.85001real, recv_rate >= 0; assert(recv_rate as int as real * val(0.85) >= 0real) by (nonlinear_arith) requires val(0.85) >= 0real, recv_rate >= 0; tiny_is(); huge_is(); }
//@ end
//@ take src/half_connection/recv_rate_set.rs fn RecvRateSet::data_limited_update
//@ ret r
//@ spec
    ensures top_or(later(old(self).entries@), recv_rate, r), final(self).only(now_ms, r, false), // C14
//@ end
}
// `retain`, after k of the elements of e0 have been looked at
pub open spec fn kept(e0: Seq<RecvEntry>, e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool, i: int, k: int) -> bool { 0 <= k <= e0.len() && 0 <= i <= e.len() && e == e0.take(k).filter(f) + e0.skip(k) && i == e0.take(k).filter(f).len() }
pub proof fn kept_init(e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool) ensures kept(e, e, f, 0, 0)
{ reveal(Seq::filter); assert(e.take(0).filter(f) + e.skip(0) =~= e); }
pub proof fn kept_step(e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool, n: int) requires 0 <= n < e.len() ensures e.take(n + 1).filter(f) == if f(e[n]) { e.take(n).filter(f).push(e[n]) } else { e.take(n).filter(f) }
{ reveal(Seq::filter); assert(e.take(n + 1).drop_last() =~= e.take(n)); }
pub proof fn kept_next(e0: Seq<RecvEntry>, e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool, i: int, k: int) requires kept(e0, e, f, i, k), i < e.len()
    ensures k < e0.len(), e[i] == e0[k], f(e0[k]) ==> kept(e0, e, f, i + 1, k + 1), !f(e0[k]) ==> kept(e0, e.remove(i), f, i, k + 1)
{ kept_step(e0, f, k); let p = e0.take(k).filter(f); assert(e[i] == e0.skip(k)[0]); if f(e0[k]) { assert(p.push(e0[k]) + e0.skip(k + 1) =~= e); } else { assert(p + e0.skip(k + 1) =~= e.remove(i)); } }
pub proof fn kept_all(e0: Seq<RecvEntry>, e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool, i: int, k: int) requires kept(e0, e, f, i, k), i == e.len() ensures e == e0.filter(f)
{ assert(e.len() == i + e0.skip(k).len()); assert(e0.take(k) =~= e0); assert(e =~= e0.filter(f)); }
pub proof fn filter_sub(e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool) ensures forall|i: int| 0 <= i < e.filter(f).len() ==> f(#[trigger] e.filter(f)[i]) && e.contains(e.filter(f)[i]) decreases e.len()
{ reveal(Seq::filter); if e.len() > 0 { filter_sub(e.drop_last(), f); let q = e.drop_last().filter(f); assert forall|i: int| 0 <= i < e.filter(f).len() implies f(#[trigger] e.filter(f)[i]) && e.contains(e.filter(f)[i]) by { if i < q.len() { assert(e.filter(f)[i] == q[i]); let j = choose|j: int| 0 <= j < e.drop_last().len() && e.drop_last()[j] == q[i]; assert(e[j] == q[i]); } else { assert(e[e.len() - 1] == e.filter(f)[i]); } } } }
pub proof fn filter_has(e: Seq<RecvEntry>, f: spec_fn(RecvEntry) -> bool, i: int) requires 0 <= i < e.len(), f(e[i]) ensures e.filter(f).contains(e[i]) decreases e.len()
{ reveal(Seq::filter); let q = e.drop_last().filter(f); if i < e.len() - 1 { filter_has(e.drop_last(), f, i); let j = choose|j: int| 0 <= j < q.len() && q[j] == e[i]; assert(e.filter(f)[j] == e[i]); } else { assert(e.filter(f)[q.len() as int] == e[i]); } }
pub assume_specification [u32::max_value] () -> (r: u32) ensures r == u32::MAX;
// ---- the allowed rate
//@ take src/half_connection/send_rate.rs const MSS
//@ sub /: usize = ([\w:]+)/: u64 = (\1) as u64/!
//@ end
//@ take src/half_connection/send_rate.rs const INITIAL_TCP_WINDOW
//@ end
//@ take src/half_connection/send_rate.rs const MINIMUM_RATE
//@ end
pub proof fn constants() ensures MSS == 1472, INITIAL_TCP_WINDOW == 4380, MINIMUM_RATE == 23 { }
//@ take src/half_connection/send_rate.rs fn s_to_ms
//@ ret r
//@ start
    proof { literals(); tiny_is(); huge_is(); assert(val(v_s) * 1000real == val(v_s) * val(1000.0)); }
//@ spec
    requires fin(v_s), 0real <= val(v_s) <= 18000000000000000real,
    ensures rabs(r as int as real - val(v_s) * 1000real) <= 0.6real + val(v_s) * 1000real * eps(), // C14/C03
//@ end
//@ take src/half_connection/send_rate.rs fn ms_to_s
//@ ret r
//@ start
    proof { literals(); tiny_is(); huge_is(); }
//@ spec
    requires v_s < 0x8000_0000_0000_0000,
    ensures fin(r), val(r) >= 0real, near0(val(r), v_s as int as real / 1000real), // C14
//@ end
// x is y but for rounding (y may be zero)
pub open spec fn near0(x: real, y: real) -> bool { rabs(x - y) <= y * (8real * eps()) + 0.000000000000000000000000000001real }
// the TCP throughput equation (RFC 5348, 3.1, with b = 1 and t_RTO = 4 R), in bytes per second
pub open spec fn f_p(p: real) -> real { rsqrt(p * 2real / 3real) + 12real * rsqrt(p * 3real / 8real) * p * (1real + 32real * p * p) }
pub open spec fn tcp_x(rtt: real, p: real) -> real { 1472real / (rtt * f_p(p)) }
// y is the rate the equation permits, rounded to bytes per second (for round trip times between a microsecond and half a million years)
pub open spec fn rate_of(x: real, y: u32) -> bool { y as int as real <= x * 1.000001real && (y < u32::MAX ==> y as int as real >= x * 0.999999real - 1real) }
pub open spec fn normal(rtt: f64, p: f64) -> bool { fin(rtt) && fin(p) && 0.000001real <= val(rtt) <= 18000000000000000real && 0.000000000001real <= val(p) <= 1.01real }
pub open spec fn tcp_is(rtt: f64, p: f64, y: u32) -> bool { normal(rtt, p) ==> rate_of(tcp_x(val(rtt), val(p)), y) }
pub proof fn near_rate(x: f64, r: real, k: int, y: u32) requires fin(x), near(val(x), r, k), y == trunc(val(x), u32::MAX as int) ensures rate_of(r, y)
{ let e = k as real * eps(); assert(e <= 0.000001real) by (nonlinear_arith) requires e == k as real * eps(), k <= 100; assert(r * e <= r * 0.000001real) by (nonlinear_arith) requires e <= 0.000001real, r >= 0real; }
pub proof fn lit_near(x: f64, y: real) requires fin(x), val(x) == y || rabs(val(x) - y) <= y * eps(), y >= 0.01real ensures near(val(x), y, 1) { assert(y * (1int as real * eps()) >= y * eps()) by (nonlinear_arith); assert(y * eps() >= 0real) by (nonlinear_arith) requires y >= 0real, eps() >= 0real; }
pub proof fn sqrt_le(x: real, y: real) requires 0real <= x, x <= y * y, y >= 0real ensures rsqrt(x) <= y { broadcast use rsqrt_is; let s = rsqrt(x); assert(s <= y) by (nonlinear_arith) requires s * s <= y * y, s >= 0real, y >= 0real; }
pub proof fn sqrt_ge(x: real, y: real) requires x >= y * y, y >= 0real ensures rsqrt(x) >= y { broadcast use rsqrt_is; assert(x >= 0real) by (nonlinear_arith) requires x >= y * y; let s = rsqrt(x); assert(s >= y) by (nonlinear_arith) requires s * s >= y * y, s >= 0real, y >= 0real; }
//@ take src/half_connection/send_rate.rs fn eval_tcp_throughput
//@ ret r
//@ spec
    ensures tcp_is(rtt, p, r), // C14
//@ start
    proof { literals(); }
//@ before /\(s \/ /
    proof { if normal(rtt, p) { tcp_facts(rtt, p, s, f_p); let h = s.div_spec(rtt.mul_spec(f_p)); assert forall|y: u32| #[trigger] float_cast_spec::<f64, u32>(h, y) implies rate_of(tcp_x(val(rtt), val(p)), y) by { near_rate(h, tcp_x(val(rtt), val(p)), 39, y); } } }
//@ end
// the operations of eval_tcp_throughput, with a bound for the roundings
pub open spec fn fl_f_p(p: f64) -> f64 {
    let (l1, l2, l3, l8, l12, l32) = (1.0f64, 2.0f64, 3.0f64, 8.0f64, 12.0f64, 32.0f64);
    fl_sqrt(p.mul_spec(l2).div_spec(l3)).add_spec(l12.mul_spec(fl_sqrt(p.mul_spec(l3).div_spec(l8))).mul_spec(p).mul_spec(l1.add_spec(l32.mul_spec(p).mul_spec(p))))
}
pub proof fn tcp_facts(rtt: f64, p: f64, s: f64, f: f64) requires normal(rtt, p), fin(s), val(s) == 1472real, f == fl_f_p(p)
    ensures ({ let h = s.div_spec(rtt.mul_spec(f)); fin(h) && near(val(h), tcp_x(val(rtt), val(p)), 39) })
{
    broadcast use ieee; literals(); tiny_is(); huge_is();
    let (l1, l2, l3, l8, l12, l32) = (1.0f64, 2.0f64, 3.0f64, 8.0f64, 12.0f64, 32.0f64);
    let (r, x) = (val(rtt), val(p));
    near_self(r); near_self(x); near_self(1472real);
    lit_near(l2, 2real); lit_near(l3, 3real); lit_near(l8, 8real); lit_near(l12, 12real); lit_near(l1, 1real); lit_near(l32, 32real);
    let a1 = p.mul_spec(l2); let a2 = a1.div_spec(l3); let a3 = fl_sqrt(a2);
    let b1 = p.mul_spec(l3); let b2 = b1.div_spec(l8); let b3 = fl_sqrt(b2);
    let ra = rsqrt(x * 2real / 3real); let rb = rsqrt(x * 3real / 8real);
    sqrt_ge(x * 2real / 3real, 0.0000001real); sqrt_ge(x * 3real / 8real, 0.0000001real); sqrt_le(x * 2real / 3real, 1real); sqrt_le(x * 3real / 8real, 1real);
    near_mul(p, l2, x, 2real, 0, 1); near_div(a1, l3, x * 2real, 3real, 4, 1); near_sqrt(a2, x * 2real / 3real, 9);
    near_mul(p, l3, x, 3real, 0, 1); near_div(b1, l8, x * 3real, 8real, 4, 1); near_sqrt(b2, x * 3real / 8real, 9);
    let c1 = l12.mul_spec(b3); let c2 = c1.mul_spec(p); let d1 = l32.mul_spec(p); let d2 = d1.mul_spec(p); let d3 = l1.add_spec(d2); let c3 = c2.mul_spec(d3);
    let (xc1, xd1) = (12real * rb, 32real * x); let (xc2, xd2) = (xc1 * x, xd1 * x); let xd3 = 1real + xd2; let xc3 = xc2 * xd3;
    near_mul(l12, b3, 12real, rb, 1, 11);
    mb(xc1, x, 0.000001real, 12real, 0.000000000001real, 1.01real); near_mul(c1, p, xc1, x, 15, 0);
    near_mul(l32, p, 32real, x, 1, 0);
    mb(xd1, x, 0.00000000001real, 33real, 0.000000000001real, 1.01real); near_mul(d1, p, xd1, x, 4, 0);
    near_add(l1, d2, 1real, xd2, 1, 7);
    mb(xc2, xd3, 0.000000000000000001real, 13real, 1real, 35real); near_mul(c2, d3, xc2, xd3, 18, 9);
    near_add(a3, c3, ra, xc3, 11, 30);
    let xf = ra + xc3; mb(r, xf, 0.000001real, 18000000000000000real, 0.0000001real, 460real);
    near_mul(rtt, f, r, xf, 0, 32);
    let g = rtt.mul_spec(f); let xg = r * xf;
    db(1472real, xg, 1472real, 1472real, 0.0000000000001real, 9000000000000000000real, 0.0000000000000001real, 100000000000000000real);
    near_div(s, g, 1472real, xg, 0, 35);
    assert(tcp_x(r, x) == 1472real / xg);
}
pub proof fn pow_2_mono(a: nat, b: nat) requires a <= b ensures 1 <= pow_2(a) <= pow_2(b) decreases b { if a < b { pow_2_mono(a, (b - 1) as nat); } else if a > 0 { pow_2_mono((a - 1) as nat, (a - 1) as nat); } }
pub open spec fn low() -> real { 0.00000000000000000000000000000000000000000000000000000000000000000000000000000001real }
// b is a probability at which the equation does not permit more than the target, or 1; it has been halved at most i times
pub open spec fn upper(rtt: f64, b: f64, target: u32, i: int) -> bool {
    fin(b) && 0real < val(b) <= 1real + (i as real) * (4real * eps()) && val(b) * (pow_2((2 * i) as nat) as real) >= 1real && (val(b) == 1real || exists|y: u32| #[trigger] tcp_is(rtt, b, y) && y <= target)
}
pub proof fn upper_next(rtt: f64, b: f64, target: u32, i: int) requires upper(rtt, b, target, i), 0 <= i ensures upper(rtt, b, target, i + 1)
{ pow_2_mono((2 * i) as nat, (2 * i + 2) as nat); assert(val(b) * (pow_2((2 * i) as nat) as real) <= val(b) * (pow_2((2 * i + 2) as nat) as real)) by (nonlinear_arith) requires val(b) > 0real, pow_2((2 * i) as nat) <= pow_2((2 * i + 2) as nat); assert((i as real) * (4real * eps()) <= ((i + 1) as real) * (4real * eps())) by (nonlinear_arith) requires eps() >= 0real; }
pub proof fn not_low(x: real, j: int) requires x * (pow_2((2 * j) as nat) as real) >= 1real, x > 0real, 0 <= j <= 128 ensures x >= low()
{ let k = pow_2((2 * j) as nat) as real; pow_2_mono((2 * j) as nat, 256); assert(pow_2(256) <= 0x1_0000_0000_0000_0000_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute); assert(x >= low()) by (nonlinear_arith) requires x * k >= 1real, x > 0real, 1real <= k <= 1000000000000000000000000000000000000000000000000000000000000000000000000000000real; }
pub open spec fn lower(a: f64, i: int) -> bool { fin(a) && 0real <= val(a) <= 1real + (i as real) * (4real * eps()) }
pub proof fn middle(rtt: f64, a: f64, b: f64, target: u32, i: int) requires upper(rtt, b, target, i), lower(a, i), 0 <= i < 128
    ensures ({ let l2 = 2.0f64; let c = b.add_spec(a).div_spec(l2); lower(c, i + 1) && lower(a, i + 1) && val(c) >= low() && val(c) * (pow_2((2 * i + 2) as nat) as real) >= 1real && val(c) <= 1.01real })
{
    broadcast use ieee; literals(); tiny_is(); huge_is(); let l2 = 2.0f64; let s = b.add_spec(a); let c = s.div_spec(l2);
    let u = (i as real) * (4real * eps()); let v = ((i + 1) as real) * (4real * eps()); assert(v == u + 4real * eps()) by (nonlinear_arith) requires u == (i as real) * (4real * eps()), v == ((i + 1) as real) * (4real * eps()), (i + 1) as real == i as real + 1real;
    assert(0real <= u <= 0.001real) by (nonlinear_arith) requires u == (i as real) * (4real * eps()), 0 <= i <= 128, eps() == 1real / 0x10_0000_0000_0000real;
    let k = pow_2((2 * i) as nat) as real; pow_2_mono((2 * i) as nat, 256); assert(pow_2(256) <= 0x1_0000_0000_0000_0000_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
    assert(pow_2((2 * i + 1) as nat) == 2 * pow_2((2 * i) as nat)); assert(pow_2((2 * i + 2) as nat) == 2 * pow_2((2 * i + 1) as nat));
    let vb = val(b); not_low(vb, i);
    assert(val(c) >= vb * 0.25real); let vc = val(c);
    assert(vc * (4real * k) >= vb * k) by (nonlinear_arith) requires vc >= vb * 0.25real, k >= 1real; not_low(vc, i + 1);
}
//@ take src/half_connection/send_rate.rs fn eval_tcp_throughput_inv
//@ sub /const MAX_BISECTIONS: usize = (\w+);/let MAX_BISECTIONS: usize = \1;/
//@ sub /for _ in 0 \.\. (\w+) \{/let mut n_: usize = 0; while n_ < \1 { n_ = n_ + 1;/
//@ ret r
//@ spec
    ensures fin(r), low() <= val(r) <= 1.01real,
        // at the loss rate found, the equation permits at most 5% more than the target
        val(r) == 1real || exists|y: u32| #[trigger] tcp_is(rtt, r, y) && y as int as real <= target_rate_bps as int as real * 1.0501real, // C14
//@ start
    proof { literals(); tiny_is(); huge_is(); assert(target_rate_bps as int as real * val(0.05) <= target_rate_bps as int as real * 0.05001real) by (nonlinear_arith) requires val(0.05) <= 0.05001real, target_rate_bps >= 0; assert(target_rate_bps as int as real * val(0.05) >= 0real) by (nonlinear_arith) requires val(0.05) >= 0real, target_rate_bps >= 0; }
//@ loop 0
    invariant lower(a, n_ as int), upper(rtt, b, target_rate_bps, n_ as int), n_ as int <= 128, MAX_BISECTIONS <= 128, delta as int as real <= target_rate_bps as int as real * 0.0501real,
    decreases MAX_BISECTIONS - n_,
//@ before /^\s*return b;/
    proof { not_low(val(b), n_ as int); }
//@ body 0
    proof { middle(rtt, a, b, target_rate_bps, n_ as int); upper_next(rtt, b, target_rate_bps, n_ as int); }
//@ end
// the initial rates (RFC 5348, 4.2: W_init / R, and s / (2 R) for a loss before any other feedback)
pub open spec fn per_rtt(rtt: f64, bytes: real, y: u32) -> bool { fin(rtt) && 0.000001real <= val(rtt) <= 18000000000000000real ==> rate_of(bytes / val(rtt), y) }
pub proof fn per_rtt_is(bytes: f64, b: real, rtt: f64) requires fin(bytes), val(bytes) == b, 1real <= b <= 100000real, fin(rtt), 0.000001real <= val(rtt) <= 18000000000000000real
    ensures ({ let h = bytes.div_spec(rtt); forall|y: u32| #[trigger] float_cast_spec::<f64, u32>(h, y) ==> rate_of(b / val(rtt), y) })
{
    broadcast use ieee; near_self(b); near_self(val(rtt)); db(b, val(rtt), 1real, 100000real, 0.000001real, 18000000000000000real, 0.00000000000000000001real, 1000000000000000real);
    near_div(bytes, rtt, b, val(rtt), 0, 0); let h = bytes.div_spec(rtt);
    assert forall|y: u32| #[trigger] float_cast_spec::<f64, u32>(h, y) implies rate_of(b / val(rtt), y) by { near_rate(h, b / val(rtt), 4, y); }
}
//@ take src/half_connection/send_rate.rs fn compute_initial_send_rate
//@ ret r
//@ spec
    ensures per_rtt(rtt_s, 4380real, r), // C14
//@ start
    proof { if fin(rtt_s) && 0.000001real <= val(rtt_s) <= 18000000000000000real { assert forall|w: f64| fin(w) && val(w) == 4380real implies forall|y: u32| #[trigger] float_cast_spec::<f64, u32>(w.div_spec(rtt_s), y) ==> rate_of(4380real / val(rtt_s), y) by { per_rtt_is(w, 4380real, rtt_s); } } }
//@ end
//@ take src/half_connection/send_rate.rs fn compute_initial_loss_send_rate
//@ ret r
//@ spec
    ensures per_rtt(rtt_s, 736real, r), // C14
//@ start
    proof { if fin(rtt_s) && 0.000001real <= val(rtt_s) <= 18000000000000000real { assert forall|w: f64| fin(w) && val(w) == 736real implies forall|y: u32| #[trigger] float_cast_spec::<f64, u32>(w.div_spec(rtt_s), y) ==> rate_of(736real / val(rtt_s), y) by { per_rtt_is(w, 736real, rtt_s); } } }
//@ end
//@ take src/half_connection/send_rate.rs struct SlowStartState
//@ end
//@ take src/half_connection/send_rate.rs struct ThroughputEqnState
//@ end
//@ take src/half_connection/send_rate.rs enum SendRateMode
//@ end
//@ take src/half_connection/send_rate.rs struct SendRateComp
//@ end
// what the closure given to `step` captures: it resets the history of losses
pub trait LossReset {
    spec fn ready(&self) -> bool;
    spec fn after(&self, o: &Self, p: f64) -> bool;
    fn reset(&mut self, p: f64) requires old(self).ready(), fin(p), low() <= val(p) <= 1.01real ensures final(self).after(old(self), p);
}
pub open spec fn max_rtt() -> real { 10000000000000real }
pub open spec fn rtt_lim(r: Option<u64>) -> bool { r matches Some(t) ==> t < 0x0100_0000_0000_0000 }
pub open spec fn now_ok(t: u64) -> bool { t < 0x4000_0000_0000_0000 }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
// the moving average of round trip times, 0.9 : 0.1, but for rounding
pub open spec fn ewma(old: real, sample_ms: u64, new: real) -> bool { let y = old * 0.9real + (sample_ms as int as real / 1000real) * 0.1real; rabs(new - y) <= y * 0.000001real + 0.000000000000000000000001real }
pub open spec fn rtt_is(old: Option<f64>, sample_ms: u64, new: Option<f64>) -> bool {
    new is Some && fin(new.unwrap()) && 0real <= val(new.unwrap()) <= max_rtt()
    && match old { None => near0(val(new.unwrap()), sample_ms as int as real / 1000real), Some(t) => ewma(val(t), sample_ms, val(new.unwrap())) }
}
impl FeedbackData {
    pub open spec fn ok(self) -> bool { self.rtt_ms < 0x20_0000_0000_0000 && fin(self.loss_rate) && 0real <= val(self.loss_rate) <= 1.01real }
}
// the limit which the receive rate sets (RFC 5348, 4.3): twice the largest recent receive rate, or less if losses have increased
pub open spec fn limit(e: Seq<RecvEntry>, now_ms: u64, f: FeedbackData, rtt_ms: u64, prev: f64, lim: u32) -> bool {
    if f.rate_limited { exists|m: u32| #[trigger] top(young(e.push(RecvEntry { value: f.receive_rate, timestamp_ms: now_ms, is_initial: false }), now_ms, span(rtt_ms)), m) && lim == mn(2 * m, u32::MAX as int) }
    else if val(f.loss_rate) > val(prev) { exists|x: u32| x as int as real <= f.receive_rate as int as real * 0.8501real + 1real && #[trigger] top_or(later(half(e)), x, lim) }
    else { exists|m: u32| #[trigger] top_or(later(e), f.receive_rate, m) && lim == mn(2 * m, u32::MAX as int) }
}
impl SendRateComp {
    pub open spec fn ceiling(self) -> u32 { self.max_send_rate }
    pub open spec fn rate(self) -> u32 { self.send_rate }
    pub open spec fn rtt(self) -> Option<f64> { self.rtt_s }
    pub open spec fn wf(self) -> bool {
        &&& self.send_rate <= self.max_send_rate && fin(self.prev_loss_rate) && val(self.prev_loss_rate) >= 0real
        &&& (self.rtt_s matches Some(t) ==> fin(t) && 0real <= val(t) <= max_rtt()) && rtt_lim(self.rtt_ms) && rtt_lim(self.rto_ms) && (self.rtt_s is Some <==> self.rtt_ms is Some)
        &&& match self.mode {
            SendRateMode::AwaitSend => self.rtt_s is None,
            SendRateMode::SlowStart(_) => self.recv_rate_set.entries@.len() > 0,
            SendRateMode::ThroughputEqn(s) => self.recv_rate_set.entries@.len() > 0 && self.rtt_s is Some
                && forall|m: u32| #[trigger] top(self.recv_rate_set.entries@, m) ==> self.send_rate <= mx(23, mn(s.send_rate_tcp as int, 2 * m + 1)),
        }
    }
    pub open spec fn before(self, t: u64) -> bool { self.recv_rate_set.before(t) && (self.mode matches SendRateMode::SlowStart(s) ==> (s.time_last_doubled_ms matches Some(d) ==> d <= t)) }
    // the effect of a report (RFC 5348, 4.3)
    pub open spec fn reported(self, o: Self, now_ms: u64, f: FeedbackData) -> bool {
        &&& rtt_is(o.rtt_s, f.rtt_ms, self.rtt_s)
        &&& self.prev_loss_rate == f.loss_rate && self.max_send_rate == o.max_send_rate && self.nofeedback_idle
        &&& exists|lim: u32| #[trigger] limit(o.recv_rate_set.entries@, now_ms, f, self.rtt_ms.unwrap(), o.prev_loss_rate, lim) && self.set_by(o, now_ms, f, lim)
    }
    // the rate, given this limit
    pub open spec fn set_by(self, o: Self, now_ms: u64, f: FeedbackData, lim: u32) -> bool {
        let rtt = self.rtt_s.unwrap(); let inc = val(f.loss_rate) > val(o.prev_loss_rate);
        match o.mode {
            SendRateMode::SlowStart(s) =>
                if inc {
                    // the first loss ends the slow start, at half the rate (or a segment in two round trips)
                    self.mode matches SendRateMode::ThroughputEqn(t) && self.send_rate == mn(mx(23, mn(t.send_rate_tcp as int, lim as int)), self.max_send_rate as int) && if s.time_last_doubled_ms is None { per_rtt(rtt, 736real, t.send_rate_tcp) } else { t.send_rate_tcp == o.send_rate / 2 }
                } else if s.time_last_doubled_ms is Some {
                    let d = s.time_last_doubled_ms.unwrap(); if now_ms - d >= self.rtt_ms.unwrap() {
                        // it is doubled at most, once per round trip (or reaches the initial window per round trip)
                        self.mode == SendRateMode::SlowStart(SlowStartState { time_last_doubled_ms: Some(now_ms) }) && exists|i: u32| #[trigger] per_rtt(rtt, 4380real, i) && self.send_rate == mn(mx(mn(mn(2 * o.send_rate, u32::MAX as int), lim as int), i as int), self.max_send_rate as int)
                    } else { self.mode == o.mode && self.send_rate == o.send_rate }
                } else { self.mode == SendRateMode::SlowStart(SlowStartState { time_last_doubled_ms: Some(now_ms) }) && exists|i: u32| #[trigger] per_rtt(rtt, 4380real, i) && self.send_rate == mn(i as int, self.max_send_rate as int) },
            // never more than the throughput equation for the current estimates
            SendRateMode::ThroughputEqn(_) => self.mode matches SendRateMode::ThroughputEqn(t) && tcp_is(rtt, f.loss_rate, t.send_rate_tcp) && self.send_rate == mn(mx(23, mn(t.send_rate_tcp as int, lim as int)), self.max_send_rate as int),
            SendRateMode::AwaitSend => false,
        }
    }
    // the effect of silence (RFC 5348, 4.4)
    pub open spec fn silent(self, o: Self, now_ms: u64) -> bool {
        &&& self.rtt_s == o.rtt_s && self.rtt_ms == o.rtt_ms && self.prev_loss_rate == o.prev_loss_rate && self.max_send_rate == o.max_send_rate && self.nofeedback_idle && self.mode == o.mode
        &&& self.send_rate <= o.send_rate && self.send_rate >= mn(23, o.send_rate as int) && 2 * self.send_rate + 1 >= o.send_rate
        &&& self.halved(o) || o.nofeedback_idle && self.send_rate == o.send_rate && o.rtt_s is Some && exists|i: u32| #[trigger] per_rtt(o.rtt_s.unwrap(), 4380real, i) && match o.mode {
            // an idle sender keeps a rate which is no more than what it would start with
            SendRateMode::SlowStart(_) => o.send_rate < 2 * i,
            SendRateMode::ThroughputEqn(_) => exists|m: u32| #[trigger] top(o.recv_rate_set.entries@, m) && m < i,
            SendRateMode::AwaitSend => false,
        }
    }
    pub open spec fn halved(self, o: Self) -> bool {
        match o.mode {
            SendRateMode::SlowStart(_) => self.send_rate == mn(mx(23, o.send_rate as int / 2), o.send_rate as int),
            SendRateMode::ThroughputEqn(s) => exists|m: u32| #[trigger] top(o.recv_rate_set.entries@, m) && self.send_rate == mn(mx(23, mn(s.send_rate_tcp as int, 2 * m) / 2), o.send_rate as int),
            SendRateMode::AwaitSend => false,
        }
    }
    // the timer for silence: four round trips, or the time two segments take
    pub open spec fn armed(self, now_ms: u64) -> bool {
        self.nofeedback_exp_ms matches Some(e) && self.rto_ms matches Some(t) && e >= now_ms && rabs((e - now_ms) as real - t as int as real) <= 1.3real + t as int as real * 0.000001real
            && (self.rtt_s matches Some(r) ==> t as int as real >= val(r) * 3999.99real - 1real)
    }
//@ take src/half_connection/send_rate.rs fn SendRateComp::new
//@ ret r
//@ start
    proof { literals(); }
//@ spec
    ensures r.wf(), r.mode is AwaitSend, r.max_send_rate == max_send_rate, r.send_rate == mn(1472, max_send_rate as int), forall|t: u64| #[trigger] r.before(t), // C14/C13
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::send_rate
//@ ret r
//@ spec
    ensures fin(r), val(r) == self.send_rate as int as real, // C13/C14
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::rtt_s
//@ ret r
//@ spec
    ensures r == self.rtt_s,
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::rtt_ms
//@ ret r
//@ spec
    ensures r == self.rtt_ms,
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::rto_ms
//@ ret r
//@ spec
    ensures r == self.rto_ms,
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::notify_frame_sent
//@ spec
    requires old(self).wf(), old(self).before(now_ms), now_ok(now_ms),
    ensures final(self).wf(), final(self).before(now_ms), final(self).send_rate == old(self).send_rate, final(self).max_send_rate == old(self).max_send_rate, final(self).rtt_s == old(self).rtt_s, final(self).rtt_ms == old(self).rtt_ms, final(self).rto_ms == old(self).rto_ms, final(self).prev_loss_rate == old(self).prev_loss_rate, !final(self).nofeedback_idle, // C14/C13
        if old(self).mode is AwaitSend { final(self).mode == SendRateMode::SlowStart(SlowStartState { time_last_doubled_ms: None }) && final(self).nofeedback_exp_ms == Some((now_ms + 2000) as u64) && final(self).recv_rate_set.only(now_ms, u32::MAX, true) }
        else { final(self).mode == old(self).mode && final(self).nofeedback_exp_ms == old(self).nofeedback_exp_ms && final(self).recv_rate_set == old(self).recv_rate_set }, // C14
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::update_rtt
//@ sub /const RTT_ALPHA: f64 = ([\d.]+);/let RTT_ALPHA: f64 = \1;/
//@ ret r
//@ start
    proof { literals(); tiny_is(); huge_is(); let (l1, la) = (1.0f64, 0.1f64); if self.rtt_s is Some { avg_is(l1, la, self.rtt_s.unwrap(), rtt_sample_s); } }
//@ spec
    requires old(self).wf(), fin(rtt_sample_s), 0real <= val(rtt_sample_s) <= 9100000000000real,
    ensures fin(r.0), 0real <= val(r.0) <= max_rtt(), r.1 < 0x0100_0000_0000_0000, final(self).rtt_s == Some(r.0), final(self).rtt_ms == Some(r.1), *final(self) == (SendRateComp { rtt_s: final(self).rtt_s, rtt_ms: final(self).rtt_ms, ..*old(self) }), // C14
        match old(self).rtt_s { None => r.0 == rtt_sample_s, Some(t) => avg(val(t), val(rtt_sample_s), val(r.0)) }, // C14
        rabs(r.1 as int as real - val(r.0) * 1000real) <= 0.6real + val(r.0) * 1000real * eps(), // C14
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::update_rto
//@ ret r
//@ start
    proof { literals(); tiny_is(); huge_is(); let l4 = 4.0f64; assert(val(l4) * val(rtt_s) == 4real * val(rtt_s)); let m = mx(send_rate as int, 1) as real;
        db(2944real, m, 2944real, 2944real, 1real, 4294967295real, 0real, 2944real);
        assert forall|z: real| z >= 2944real / m * 0.99999999real - tiny() implies #[trigger] rmul(z, m) >= 2943.9real by { let q = 2944real / m; assert(q * m == 2944real) by (nonlinear_arith) requires q == 2944real / m, m >= 1real; assert(z * m >= (q * 0.99999999real - tiny()) * m) by (nonlinear_arith) requires z >= q * 0.99999999real - tiny(), m >= 1real; assert(tiny() * m <= 0.0001real) by (nonlinear_arith) requires tiny() <= 0.000000000000001real, m <= 4294967295real, tiny() >= 0real, m >= 1real; assert((q * 0.99999999real - tiny()) * m == (q * m) * 0.99999999real - tiny() * m) by (nonlinear_arith); };
    }
//@ spec
    requires fin(rtt_s), 0real <= val(rtt_s) <= max_rtt(),
    ensures fin(r), 0real <= val(r) <= 50000000000000real, final(self).rto_ms is Some, rtt_lim(final(self).rto_ms), *final(self) == (SendRateComp { rto_ms: final(self).rto_ms, ..*old(self) }), // C14
        rabs(final(self).rto_ms.unwrap() as int as real - val(r) * 1000real) <= 0.6real + val(r) * 1000real * eps(), // C14
        // at least four round trips, and the time two segments take
        val(r) >= val(rtt_s) * 3.999999real - 0.000000000001real, rmul(val(r), mx(send_rate as int, 1) as real) >= 2943.9real, // C14
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::handle_feedback
//@ sub /handle_feedback<F>\(([^)]*?)reset_loss_rate: F\) where F: FnOnce\(f64\)/handle_feedback<F: LossReset>(\1reset_loss_rate: &mut F)/!
//@ sub /\breset_loss_rate\((\w+)\);/reset_loss_rate.reset(\1);/
//@ sub /match self\.mode \{/match &mut self.mode {/
//@ sub /\(ref mut state\)/(state)/
//@ spec
    requires old(self).wf(), old(self).before(now_ms), now_ok(now_ms), feedback.ok(), !(old(self).mode is AwaitSend), val(feedback.loss_rate) > 0real ==> old(reset_loss_rate).ready(),
    ensures final(self).wf(), final(self).before(now_ms), final(self).reported(*old(self), now_ms, feedback), final(self).armed(now_ms), // C14/C13
        if old(self).mode is SlowStart && val(feedback.loss_rate) > val(old(self).prev_loss_rate) { exists|p: f64| #[trigger] final(reset_loss_rate).after(old(reset_loss_rate), p) } else { *final(reset_loss_rate) == *old(reset_loss_rate) }, // C14
//@ start
    let ghost o = *self; proof { tiny_is(); }
//@ before /^\s*let recv_rate = feedback/
    proof { sample_is(val(rtt_sample_s), feedback.rtt_ms); }
//@ before /^\s*let rto_s = self\.update_rto/
    proof { if o.rtt_s is Some { ewma_is(val(o.rtt_s.unwrap()), feedback.rtt_ms, val(rtt_sample_s), val(rtt_s)); } assert(rtt_is(o.rtt_s, feedback.rtt_ms, self.rtt_s)); }
//@ before /^\s*self\.prev_loss_rate = loss_rate/
    let ghost lim = recv_limit; proof { assert(limit(o.recv_rate_set.entries@, now_ms, feedback, rtt_ms, o.prev_loss_rate, lim)); }
//@ exit
    proof { assert(self.set_by(o, now_ms, feedback, lim)); }
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::nofeedback_expired
//@ sub /match self\.mode \{/match &mut self.mode {/
//@ sub /\(ref mut state\)/(state)/
//@ start
    let ghost o = *self; proof { literals(); }
//@ spec
    requires old(self).wf(), old(self).before(now_ms), now_ok(now_ms), !(old(self).mode is AwaitSend),
    ensures final(self).wf(), final(self).before(now_ms), final(self).silent(*old(self), now_ms), final(self).armed(now_ms), // C14/C13
//@ end
//@ take src/half_connection/send_rate.rs fn SendRateComp::step
//@ sub /step<F>\(([^)]*?)reset_loss_rate: F\) where F: FnOnce\(f64\)/step<F: LossReset>(\1reset_loss_rate: &mut F)/!
//@ spec
    requires old(self).wf(), old(self).before(now_ms), now_ok(now_ms), feedback matches Some(f) ==> f.ok() && (val(f.loss_rate) > 0real ==> old(reset_loss_rate).ready()),
    ensures final(self).wf(), final(self).before(now_ms), final(self).stepped(*old(self), now_ms, feedback), final(self).max_send_rate == old(self).max_send_rate, // C14/C13
        if !(feedback is None) && old(self).mode is SlowStart && val(feedback.unwrap().loss_rate) > val(old(self).prev_loss_rate) { exists|p: f64| #[trigger] final(reset_loss_rate).after(old(reset_loss_rate), p) } else { *final(reset_loss_rate) == *old(reset_loss_rate) }, // C14
//@ end
    pub open spec fn stepped(self, o: Self, now_ms: u64, feedback: Option<FeedbackData>) -> bool {
        if o.mode is AwaitSend { self == o }
        else if feedback is Some { self.reported(o, now_ms, feedback.unwrap()) && self.armed(now_ms) }
        else if o.nofeedback_exp_ms is Some && now_ms >= o.nofeedback_exp_ms.unwrap() { self.silent(o, now_ms) && self.armed(now_ms) }
        else { self == o }
    }
}
pub open spec fn avg(a: real, b: real, r: real) -> bool { let y = a * 0.9real + b * 0.1real; rabs(r - y) <= y * 0.0000001real + 0.0000000000000000000000000001real }
pub proof fn avg_is(l1: f64, la: f64, t: f64, s: f64) requires fin(l1), val(l1) == 1real, fin(la), rabs(val(la) - 0.1real) <= 0.1real * eps(), fin(t), 0real <= val(t) <= max_rtt(), fin(s), 0real <= val(s) <= max_rtt()
    ensures ({ let r = l1.sub_spec(la).mul_spec(t).add_spec(la.mul_spec(s)); fin(r) && val(r) >= 0real && avg(val(t), val(s), val(r)) })
{
    broadcast use ieee; tiny_is(); huge_is();
    let w = l1.sub_spec(la); let (p, q) = (w.mul_spec(t), la.mul_spec(s)); let r = p.add_spec(q); let (vw, va, vt, vs) = (val(w), val(la), val(t), val(s));
    let d = 0.000000000000001real; assert(0.9real - d <= vw <= 0.9real + d);
    assert(0real <= vw * vt <= 0.91real * vt) by (nonlinear_arith) requires 0real <= vw <= 0.91real, vt >= 0real; assert(rabs(vw * vt - 0.9real * vt) <= d * vt) by (nonlinear_arith) requires 0.9real - d <= vw <= 0.9real + d, vt >= 0real;
    assert(0real <= va * vs <= 0.11real * vs) by (nonlinear_arith) requires 0real <= va <= 0.11real, vs >= 0real; assert(rabs(va * vs - 0.1real * vs) <= d * vs) by (nonlinear_arith) requires 0.1real - d <= va <= 0.1real + d, vs >= 0real;
}
pub open spec fn rmul(a: real, b: real) -> real { a * b }

pub proof fn sample_is(x: real, t: u64) requires near0(x, t as int as real / 1000real), t < 0x20_0000_0000_0000 ensures x <= 9100000000000real
{ let y = t as int as real / 1000real; assert(y <= 9007199254741real); assert(y * (8real * eps()) <= 1real) by (nonlinear_arith) requires 0real <= y <= 9007199254741real, eps() == 1real / 0x10_0000_0000_0000real; }
pub proof fn ewma_is(old: real, t: u64, x: real, r: real) requires near0(x, t as int as real / 1000real), avg(old, x, r), old >= 0real, t < 0x20_0000_0000_0000 ensures ewma(old, t, r)
{
    let y = t as int as real / 1000real; let e = y * (8real * eps()); assert(e <= y * 0.00000001real) by (nonlinear_arith) requires e == y * (8real * eps()), y >= 0real, eps() == 1real / 0x10_0000_0000_0000real;
    let a = old * 0.9real + x * 0.1real; let b = old * 0.9real + y * 0.1real;
}
