//@ attach: src/half_connection/send_rate.rs
//@ for: native
// The TFRC sender against the bounds of RFC 5348, evaluated independently (bounded execution).
use super::{FeedbackData, SendRateComp};
use vsup::{any_seed, check, note, reach, Rng};

pub const HARNESSES: &[(&str, fn())] = &[("rate_bounds", rate_bounds)];

const S: f64 = 1472.0;
const FLOOR: f64 = 23.0; // s/64
pub fn tcp_eq(rtt: f64, p: f64) -> f64 { S / (rtt * ((2.0 * p / 3.0).sqrt() + 12.0 * (3.0 * p / 8.0).sqrt() * p * (1.0 + 32.0 * p * p))) }
fn initial_window(rtt: f64) -> f64 { 4380.0 / rtt }

fn rate_bounds() {
    let mut r = Rng::new(any_seed());
    let ceiling = match r.below(5) { 0 => u32::MAX, 1 => r.log(1, 100) as u32, 2 => r.log(1, 5000) as u32, _ => r.log(1000, 4_000_000_000) as u32 };
    let mut c = SendRateComp::new(ceiling);
    let mut now = r.log(1, 1_000_000_000);
    let mut rtt: Option<f64> = None;
    let mut loss: Option<f64> = None;     // the current loss event rate, once loss was reported
    let mut quiet_from: Option<(u64, f64)> = None; // since when no feedback arrived and no expiry, and the largest rate the timer may have been set from
    let base_rtt = if r.chance(100) { 0 } else { r.log(1, 5000) };
    let lossy = r.chance(700);
    let x = c.send_rate();
    check!(x <= (ceiling as f64).max(0.0), "C14.ceiling: the allowed send rate exceeds the configured ceiling");
    for _ in 0..r.range(5, 120) {
        let x0 = c.send_rate();
        now += match r.below(6) { 0 => 0, 1 => r.log(1, 100_000), 2 => r.log(1, 3), _ => r.log(1, 1 + 2 * base_rtt) };
        match r.below(6) {
            0 => {
                if quiet_from.is_none() { quiet_from = Some((now, 0.0)); }
                c.notify_frame_sent(now);
                check!(c.send_rate() <= x0, "C14.nofeedback.increase: the send rate increases while no feedback arrives");
                check!(c.send_rate() == x0, "C14.nofeedback.change: the send rate changes although neither feedback arrived nor the nofeedback timer expired");
            }
            1 | 2 => {
                c.step(now, None, |_| ());
                let x1 = c.send_rate();
                note(|| format!("{} step without feedback: X {} -> {}", now, x0, x1));
                check!(x1 <= x0, "C14.nofeedback.increase: the send rate increases while no feedback arrives");
                check!(x1 >= (x0 / 2.0).floor() - 2.0, "C14.nofeedback.halve: the send rate falls below a half at one nofeedback expiry");
                check!(x1 >= FLOOR.min(x0), "C14.floor: the nofeedback timer reduces the send rate below s/64");
                if x1 != x0 {
                    reach!(true, "rate.expiry");
                    match quiet_from {
                        None => check!(false, "C14.nofeedback.change: the send rate changes although neither feedback arrived nor the nofeedback timer expired"),
                        Some((t, xm)) => {
                            let rto = match rtt { None if xm == 0.0 => 2.0, _ => (4.0 * rtt.unwrap_or(0.0)).max(2.0 * S / xm.max(1.0)) };
                            check!(now as f64 + 1.5 >= t as f64 + 1000.0 * rto, "C14.nofeedback.change: the send rate changes although neither feedback arrived nor the nofeedback timer expired");
                        }
                    }
                    quiet_from = Some((now, x0.max(x1)));
                }
                check!(c.rtt_s() == rtt, "C14.rtt: the RTT estimate changes without a sample");
            }
            _ => {
                if quiet_from.is_none() { continue; }
                let sample = if r.chance(50) { r.log(1, 20_000) } else { base_rtt + r.below(1 + base_rtt as usize / 2) as u64 };
                let p = match loss { Some(_) => 1.0 / (r.log(1, 1_000_000) as f64), None if lossy && r.chance(120) => 1.0 / (r.log(1, 100_000) as f64), None => 0.0 };
                let recv = match r.below(4) { 0 => 0, 1 => r.edge32(), _ => (x0 * (0.3 + r.f())) as u32 };
                let mut reset = None;
                c.step(now, Some(FeedbackData { rtt_ms: sample, receive_rate: recv, loss_rate: p, rate_limited: r.chance(400) }), |q| reset = Some(q));
                let x1 = c.send_rate();
                let s = sample as f64 / 1000.0;
                let want = match rtt { None => s, Some(v) => 0.9 * v + 0.1 * s };
                let got = c.rtt_s().unwrap_or(-1.0);
                note(|| format!("{} feedback rtt {} recv {} p {} -> X {} -> {}, RTT {}, p reset {:?}", now, s, recv, p, x0, x1, got, reset));
                check!((got - want).abs() <= 1e-9 * (1.0 + want), "C14.rtt: the RTT estimate is not the 0.9/0.1 average of the samples");
                rtt = Some(got);
                let before = loss;
                if p > 0.0 { loss = Some(p); }
                if let Some(q) = reset { loss = Some(q); check!(q >= 0.0 && q <= 1.0, "C14.eq: the initial loss event rate is not a rate"); reach!(true, "rate.first_loss"); }
                if let Some(p) = loss {
                    let tol = if before.is_none() { 1.053 } else { 1.0 + 1e-9 };
                    let bound = if got == 0.0 || p == 0.0 { f64::INFINITY } else { tcp_eq(got, p) * tol + 1.0 };
                    reach!(x1 <= bound && x1 > FLOOR, "rate.tcp_bound");
                    check!(x1 <= bound.max(FLOOR), "C14.eq: the send rate exceeds the TCP throughput equation for the current RTT and loss event rate");
                } else {
                    let bound = (2.0 * x0).max(if got == 0.0 { f64::INFINITY } else { initial_window(got) });
                    reach!(x1 > x0, "rate.slow_start");
                    check!(x1 <= bound + 1.0, "C14.slowstart: one feedback more than doubles the send rate (or the initial window per RTT)");
                }
                quiet_from = Some((now, x0.max(x1)));
            }
        }
        let x1 = c.send_rate();
        check!(x1 <= ceiling as f64, "C14.ceiling: the allowed send rate exceeds the configured ceiling");
        check!(x1 >= FLOOR.min(ceiling as f64), "C14.floor: the allowed send rate is below s/64");
    }
}
