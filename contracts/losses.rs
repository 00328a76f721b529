//@ attach: src/half_connection/frame_queue.rs
//@ for: native
// Frame queue, reorder buffer and loss intervals against an independent model of RFC 5348 section 5
// and of the acknowledgement rules: which frames an acknowledgement is for, what feedback it gives,
// and the loss event rate (bounded execution).
use super::super::loss_rate::LossIntervalQueue;
use super::super::pending_packet::{FragmentRef, PendingPacket};
use super::FrameQueue;
use crate::frame::AckGroup;
use std::cell::RefCell;
use std::rc::Rc;
use vsup::{any_seed, check, note, reach, Rng};

pub const HARNESSES: &[(&str, fn())] = &[("loss_intervals", loss_intervals), ("fq_model", fq_model)];

// Loss intervals, most recent first; each is (end of the loss event, frames since its start)
#[derive(Clone)]
struct Loss { v: Vec<(u64, f64)> }
impl Loss {
    fn ack(&mut self) { if let Some(f) = self.v.first_mut() { f.1 += 1.0; } }
    fn nack(&mut self, t: u64, rtt: u64) {
        match self.v.first_mut() {
            Some(f) if t < f.0 => f.1 += 1.0, // within one RTT of the start of the loss event
            _ => { self.v.insert(0, (t + rtt, 1.0)); self.v.truncate(9); }
        }
    }
    fn reset(&mut self, p: f64) { self.v.truncate(1); if let Some(f) = self.v.first_mut() { f.1 = (1.0 / p).min(u32::MAX as f64).round(); } }
    // RFC 5348 section 5.4, with the open interval as I_0
    fn rate(&self) -> f64 {
        let w = [1.0, 1.0, 1.0, 1.0, 0.8, 0.6, 0.4, 0.2];
        let n = self.v.len();
        if n == 0 { return 0.0; }
        if n == 1 { return 1.0 / self.v[0].1; }
        let k = n - 1;
        let (mut t0, mut t1, mut wt) = (0.0, 0.0, 0.0);
        for i in 0..k { t0 += self.v[i].1 * w[i]; wt += w[i]; }
        for i in 1..=k { t1 += self.v[i].1 * w[i - 1]; }
        1.0 / (f64::max(t0, t1) / wt)
    }
}
fn same(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }

fn loss_intervals() {
    let mut r = Rng::new(any_seed());
    let mut q = LossIntervalQueue::new();
    let mut m = Loss { v: Vec::new() };
    let mut t = r.log(1, 1_000_000);
    let loss = r.log(1, 1000);
    for _ in 0..r.range(1, 400) {
        t += r.below(20) as u64;
        if r.chance(loss) { let rtt = r.log(1, 400) - 1; q.push_nack(t, rtt); m.nack(t, rtt); } else { q.push_ack(); m.ack(); }
        if m.v.len() > 0 && r.chance(5) { let p = r.f() * r.f() * r.f(); q.reset(p); m.reset(p); }
        reach!(m.v.len() == 9, "loss.full");
        check!(same(q.compute_loss_rate(), m.rate()), "C14.loss.rate: the loss event rate is not the weighted average of the loss intervals (RFC 5348 5.4)");
    }
}

struct Fm { size: u32, t: u64, nonce: bool, acked: bool, pk: Rc<RefCell<PendingPacket>>, expect: bool }

fn fq_model() {
    let mut r = Rng::new(any_seed());
    let size = 1u32 << r.range(2, 7);
    let tail = size;
    let base0 = if r.chance(500) { 0u32.wrapping_sub(r.below(300) as u32) } else { r.u32() };
    let mut q = FrameQueue::new(size, tail, base0);
    let mut fr: Vec<Fm> = Vec::new();          // every frame ever sent, by position
    let (mut log0, mut win) = (0usize, 0usize); // positions of the log base and of the window base
    let mut now = r.log(1, 100_000);
    let mut rtt: Option<u64> = None;
    // NDUPACK rule
    let mut base = 0usize;
    let mut seen: Vec<usize> = Vec::new();
    let mut loss = Loss { v: Vec::new() };
    // aggregated feedback
    let mut pend: Option<(u64, usize)> = None;
    let mut last_fb: Option<u64> = None;
    let id = |p: usize| base0.wrapping_add(p as u32);
    let consume = |base: &mut usize, seen: &mut Vec<usize>, loss: &mut Loss| { while let Some(k) = seen.iter().position(|&s| s == *base) { seen.swap_remove(k); loss.ack(); *base += 1; } };
    let mut old: Vec<AckGroup> = Vec::new();
    for _ in 0..r.range(10, 250) {
        match r.below(10) {
            0 | 1 | 2 | 3 => {
                now += if r.chance(300) { r.log(1, 300) - 1 } else { 0 };
                for _ in 0..r.range(1, 6) {
                    let can = (fr.len() - win) < size as usize;
                    check!(q.can_push() == can, "C02/C11.fq.window: the frame window does not hold exactly the frames sent since its base");
                    if !can { break; }
                    check!(q.next_id() == id(fr.len()), "C15.fq.id: frame ids are not consecutive");
                    let pk = Rc::new(RefCell::new(PendingPacket::new(vec![0u8; r.below(3)].into_boxed_slice(), 0, 0, 0, 0)));
                    let (sz, nonce) = (20 + r.below(1450), r.chance(500));
                    if r.chance(100) { q.mark_rate_limited(); }
                    q.push(sz, now, vec![FragmentRef::new(&pk, 0)].into_boxed_slice(), nonce);
                    fr.push(Fm { size: sz as u32, t: now, nonce, acked: false, pk, expect: false });
                }
            }
            4 | 5 | 6 | 7 => {
                // an acknowledgement group: genuine, with a wrong nonce, for unknown frames, or old
                let g = if !old.is_empty() && r.chance(250) { r.pick_ref(&old).clone() } else {
                    let b = match r.below(8) { 0 => fr.len() as i64 + r.below(3) as i64 - 1, 1 => log0 as i64 - r.below(34) as i64, 2 => r.u32() as i64, _ => log0 as i64 + r.below(1 + fr.len() - log0) as i64 };
                    let bits = match r.below(5) { 0 => r.u32(), 1 => 1 << r.below(32), 2 => u32::MAX >> r.below(32), 3 => r.u32() & 0xFF, _ => 1 | r.u32() & 0xF };
                    let bid = base0.wrapping_add(b as u32);
                    let mut n = false;
                    for i in 0..32 { if bits >> i & 1 != 0 { let p = bid.wrapping_add(i).wrapping_sub(base0) as usize; if let Some(f) = fr.get(p) { n ^= f.nonce; } } }
                    AckGroup { base_id: bid, bitfield: bits, nonce: n ^ r.chance(100) }
                };
                if r.chance(400) { old.push(g.clone()); }
                // the rule: every covered frame is known, and the nonces of the claimed ones match
                let n = 32 - g.bitfield.leading_zeros();
                let mut ok = n > 0;
                let mut nonce = false;
                let mut claimed = Vec::new();
                for i in 0..n {
                    let p = g.base_id.wrapping_add(i).wrapping_sub(base0) as usize;
                    if p < log0 || p >= fr.len() { ok = false; break; }
                    if g.bitfield >> i & 1 != 0 { nonce ^= fr[p].nonce; claimed.push(p); }
                }
                ok = ok && nonce == g.nonce;
                reach!(ok, "fq.genuine"); reach!(!ok, "fq.bogus");
                note(|| format!("ack {:?} log {}..{} ok {} claimed {:?}", g, log0, fr.len(), ok, claimed));
                if ok {
                    let (mut t, mut sz, mut any) = (0, 0, false);
                    for p in claimed {
                        if fr[p].acked { continue; }
                        any = true;
                        fr[p].acked = true; fr[p].expect = true;
                        t = t.max(fr[p].t); sz += fr[p].size as usize;
                        if p >= base {
                            seen.push(p);
                            consume(&mut base, &mut seen, &mut loss);
                            if seen.len() == 3 {
                                let m = *seen.iter().min().unwrap();
                                while base < m { loss.nack(fr[base].t, rtt.unwrap_or(100)); base += 1; }
                                consume(&mut base, &mut seen, &mut loss);
                                reach!(true, "fq.loss");
                            }
                        }
                    }
                    if any { pend = Some(match pend { None => (t, sz), Some((a, b)) => (a.max(t), b + sz) }); }
                    reach!(!any, "fq.repeat");
                }
                q.acknowledge_group(g, rtt);
            }
            8 => {
                let nb = match r.below(4) { 0 => id(win).wrapping_sub(r.below(5) as u32), 1 => r.u32(), 2 => id(fr.len()).wrapping_add(r.below(3) as u32), _ => id(win + r.below(1 + fr.len() - win)) };
                let d = nb.wrapping_sub(id(win)) as usize;
                let ok = d > 0 && d <= fr.len() - win;
                check!(q.can_advance_transfer_window(nb) == ok, "C02/C03/C11.fq.advance: the frame window accepts a base that is not within the frames sent");
                q.advance_transfer_window(nb, rtt);
                if ok { win += d; let nl = win.saturating_sub(tail as usize); if nl > log0 { cull(&mut log0, nl, &mut base, &mut seen, &mut loss, &fr, rtt); } }
                check!(q.base_id() == id(win), "C02/C11.fq.base: the base of the frame window is not the acknowledged one");
            }
            _ => {
                if r.chance(500) {
                    let th = now.saturating_sub(r.log(1, 600));
                    let mut nl = log0;
                    while nl < fr.len() && fr[nl].t < th { nl += 1; }
                    q.forget_frames(th, rtt);
                    if nl > log0 { cull(&mut log0, nl, &mut base, &mut seen, &mut loss, &fr, rtt); }
                }
                let fb = q.get_feedback(now);
                match (fb, pend.take()) {
                    (None, None) => (),
                    (Some(f), Some((t, sz))) => {
                        note(|| format!("feedback {:?}", f));
                        check!(f.rtt_ms == now - t, "C14/C15.fq.rtt: the RTT sample is not the age of the newest frame newly acknowledged");
                        let want = match last_fb { None => 0.0, Some(l) if l == now => f.receive_rate as f64, Some(l) => (sz as f64 / ((now - l) as f64 / 1000.0)).min(u32::MAX as f64) };
                        check!((f.receive_rate as f64 - want).abs() <= 1.0 + want * 1e-9, "C14/C15.fq.recv_rate: the receive rate is not the bytes newly acknowledged over the time since the last feedback");
                        check!(same(f.loss_rate, loss.rate()), "C14/C15.fq.loss: the loss event rate is not that of the frames acknowledged and lost");
                        last_fb = Some(now);
                        rtt = Some(rtt.map_or(f.rtt_ms, |x| (9 * x + f.rtt_ms) / 10));
                        if loss.v.len() > 0 && r.chance(200) { let p = r.f(); q.reset_loss_rate(p); loss.reset(p); }
                    }
                    (a, b) => { check!(!(a.is_some() && b.is_none()), "C15.fq.feedback: feedback is generated although no frame was newly acknowledged"); check!(!(a.is_none() && b.is_some()), "C02/C14/C15.fq.feedback: no feedback is generated for newly acknowledged frames"); }
                }
            }
        }
        for f in fr.iter().rev().take(600) {
            let a = f.pk.borrow().fragment_acknowledged(0);
            check!(!(a && !f.expect), "C12/C15.fq.ack: a fragment is marked acknowledged although no genuine acknowledgement covered its frame");
            check!(a || !f.expect, "C02/C12/C15.fq.ack: a fragment is not marked acknowledged although a genuine acknowledgement covered its frame");
        }
    }
}

fn cull(log0: &mut usize, nl: usize, base: &mut usize, seen: &mut Vec<usize>, loss: &mut Loss, fr: &Vec<Fm>, rtt: Option<u64>) {
    // frames that are forgotten were lost unless acknowledged
    while *base < nl {
        if let Some(k) = seen.iter().position(|&s| s == *base) { seen.swap_remove(k); loss.ack(); } else { loss.nack(fr[*base].t, rtt.unwrap_or(100)); }
        *base += 1;
    }
    while let Some(k) = seen.iter().position(|&s| s == *base) { seen.swap_remove(k); loss.ack(); *base += 1; }
    *log0 = nl;
}
