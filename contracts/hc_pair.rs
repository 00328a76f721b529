//@ attach: src/lib.rs
//@ for: native
// Two real HalfConnections joined by a faulty virtual network. The contract of a connection pair is
// written as ghost state (what was submitted, transmitted, acknowledged, delivered) and obligations
// over it; this module executes that contract on generated histories (bounded stand-in).
use crate::frame::serial::Serialize;
use crate::frame::{self, Frame};
use crate::half_connection::{Config, FrameSink, HalfConnection, PacketSink};
use crate::{SendMode, CHANNEL_COUNT, MAX_FRAGMENT_SIZE, MAX_FRAME_SIZE};
use std::collections::{BTreeMap, HashMap};
use vsup::{check, note, reach, Rng};

pub const HARNESSES: &[(&str, fn())] = &[
    ("hc_ideal", || run_case(Family::Ideal)),
    ("hc_lossy", || run_case(Family::Lossy)),
    ("hc_blackout", || run_case(Family::Blackout)),
    ("hc_rttstep", || run_case(Family::RttStep)),
    ("hc_ackloss", || run_case(Family::AckLoss)),
    ("hc_window", || run_case(Family::Window)),
    ("hc_tiny", || run_case(Family::Tiny)),
    ("hc_modes", || run_case(Family::Modes)),
    ("hc_rate", || run_case(Family::Rate)),
    ("hc_wrap", || run_case(Family::Wrap)),
    ("hc_stream", || run_case(Family::Stream)),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Family { Ideal, Lossy, Blackout, RttStep, AckLoss, Window, Tiny, Modes, Rate, Wrap, Stream }

pub struct Frames(pub Vec<Box<[u8]>>);
impl FrameSink for Frames { fn send(&mut self, d: &[u8]) { self.0.push(d.into()); } }
pub struct Packets(pub Vec<Box<[u8]>>);
impl PacketSink for Packets { fn send(&mut self, d: Box<[u8]>) { self.0.push(d); } }

#[derive(Debug)]
struct Pk {
    ch: u8,
    mode: SendMode,
    data: Vec<u8>,
    step: u64,
    seq: Option<u32>,
    dropped: bool,
    delivered: bool,
    released: bool,
    len: usize,
    tx: Vec<u16>,
    acked: Vec<bool>,
}
impl Pk {
    fn frags(len: usize) -> usize { ((len + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE).max(1) }
    fn started(&self) -> bool { self.seq.is_some() }
    fn alloc(&self) -> usize { if self.len > MAX_FRAGMENT_SIZE { self.tx.len() * MAX_FRAGMENT_SIZE } else { self.len } }
}

struct Fr { sent_ms: u64, nonce: bool, frags: Vec<(usize, u16)>, acked: bool, maybe_acked: bool }

fn resends(m: SendMode) -> bool { matches!(m, SendMode::Persistent | SendMode::Reliable) }

fn payload(dir: u8, ch: u8, idx: usize, len: usize) -> Vec<u8> {
    let mut r = Rng::new((dir as u64) << 56 ^ (ch as u64) << 40 ^ (idx as u64) << 8 ^ len as u64);
    let mut v = Vec::with_capacity(len);
    v.extend_from_slice(&[ch | dir << 7, idx as u8, (idx >> 8) as u8, (idx >> 16) as u8]);
    while v.len() < len { v.extend_from_slice(&r.u64().to_le_bytes()); }
    v.truncate(len);
    v
}

// One endpoint, with the ghost state of its outgoing stream
struct End {
    hc: HalfConnection,
    id: u8,
    base_ns: u64,
    ceiling: f64,
    win: u32,
    fwin: u32,
    alloc_limit: usize,
    steps: u64,
    step_ms: u64,
    next_step_ns: u64,
    // outgoing ghost
    pks: Vec<Pk>,
    map_from: usize,
    ts: Vec<usize>,
    by_seq: HashMap<u32, usize>,
    next_seq: u32,
    base_seq: u32,
    track: bool,
    frames: Vec<Fr>,
    forget_pos: u64,
    next_frame: u64,
    frame_base: u64,
    frame0: u32,
    size_model: usize,
    out_alloc: usize,
    // rtt ghost
    rtt: Option<f64>,
    prev_rtt: f64,
    pend_ack: Option<u64>,
    uncertain: bool,
    // rate ghost
    q: f64,
    q_t: u64,
    q_rtt: f64,
    bytes: u64,
    // incoming ghost
    tiny: bool,
    ideal: bool,
    last_ch: Vec<usize>,
    rel_next: Vec<Vec<usize>>,
    rel_pos: Vec<usize>,
    last_global: usize,
    delivered: usize,
}

const NS: u64 = 1_000_000;

impl End {
    fn now_ms(&self, now: u64) -> u64 { (now - self.base_ns) / NS }

    fn send(&mut self, ch: u8, mode: SendMode, len: usize) {
        let idx = self.pks.len();
        let data = payload(self.id, ch, idx, len);
        let n = Pk::frags(len);
        note(|| format!("[{}] send #{} ch {} {:?} {} bytes", self.id, idx, ch, mode, len));
        self.hc.send(data.clone().into_boxed_slice(), ch, mode);
        self.size_model += len;
        if mode == SendMode::TimeSensitive { self.ts.push(idx); }
        if mode == SendMode::Reliable { self.rel_next[ch as usize].push(idx); }
        self.pks.push(Pk { ch, mode, data, step: self.steps, seq: None, dropped: false, delivered: false, released: false, len, tx: vec![0; n], acked: vec![false; n] });
        self.check_size();
    }

    // C20: send_buffer_size() equals the bytes of packets neither acknowledged nor discarded
    fn check_size(&self) {
        let s = self.hc.send_buffer_size();
        if !self.track { return; }
        // a stale TimeSensitive packet is discarded some time after the step that made it stale
        let mut amb = 0;
        for &i in self.ts.iter().rev() { if i < self.map_from { break; } let p = &self.pks[i]; if !p.started() && !p.dropped && p.step != self.steps { amb += p.data.len(); } }
        check!(s <= self.size_model, "C20.size: send_buffer_size() exceeds the bytes of unacknowledged packets");
        check!(s + amb >= self.size_model, "C20.size: send_buffer_size() is less than the bytes of unacknowledged packets");
    }

    fn mark_dropped(&mut self, i: usize) { if !self.pks[i].dropped { self.pks[i].dropped = true; self.size_model -= self.pks[i].data.len(); } }

    fn slice<'a>(p: &'a Pk, frag: u16) -> &'a [u8] {
        let b = frag as usize * MAX_FRAGMENT_SIZE;
        let e = (b + MAX_FRAGMENT_SIZE).min(p.data.len());
        if b > e { &[] } else { &p.data[b..e] }
    }

    fn on_emit(&mut self, bytes: &[u8], now: u64) {
        check!(bytes.len() <= MAX_FRAME_SIZE, "C04.emit.size: an emitted UDP payload exceeds 1472 bytes");
        // C13
        let rtt = self.hc.rtt_s().unwrap_or(0.0);
        let dt = (now - self.q_t) as f64 / 1e9;
        self.q_t = now;
        self.q -= self.ceiling * dt;
        if self.q <= 0.0 { self.q = 0.0; self.q_rtt = 0.0; }
        self.q_rtt = self.q_rtt.max(rtt).max(self.prev_rtt);
        self.q += bytes.len() as f64;
        self.bytes += bytes.len() as u64;
        note(|| format!("{:.6} [{}] transmits {} bytes: bucket level {:.1}, ceiling {} x RTT {:.3}", now as f64 / 1e9, self.id, bytes.len(), self.q, self.ceiling, self.q_rtt));
        check!(self.q <= self.ceiling * self.q_rtt + MAX_FRAME_SIZE as f64 + 1.0, "C13.bucket: more bytes transmitted over an interval than ceiling x (interval + RTT) + one frame");
        let f = Frame::read(bytes);
        check!(f.is_some(), "C16.emit.parses: an emitted frame is rejected by the parser");
        match f.unwrap() {
            Frame::DataFrame(f) => self.on_emit_data(f, now),
            Frame::AckFrame(f) => { note(|| format!("{:.3} [{}] emit ack {:?}", now as f64 / 1e9, self.id, f)); }
            Frame::SyncFrame(f) => { note(|| format!("{:.3} [{}] emit sync {:?}", now as f64 / 1e9, self.id, f)); }
            _ => check!(false, "C01/C02/C03/C05.emit.kind: a connection emitted a handshake frame"),
        }
    }

    fn on_emit_data(&mut self, f: frame::DataFrame, now: u64) {
        note(|| format!("{:.3} [{}] emit data frame {:08x} n={} {:?}", now as f64 / 1e9, self.id, f.sequence_id, f.nonce, f.datagrams.iter().map(|d| (d.sequence_id, d.channel_id, d.window_parent_lead, d.channel_parent_lead, d.fragment_id, d.fragment_id_last, d.data.len())).collect::<Vec<_>>()));
        let delta = f.sequence_id.wrapping_sub(self.frame0.wrapping_add(self.next_frame as u32));
        if delta != 0 { self.track = false; }
        if !self.track { return; }
        // frames carry the time of the latest step()
        let now_ms = self.step_ms;
        self.next_frame += 1;
        let mut frags = Vec::new();
        for dg in f.datagrams.iter() {
            let known = self.by_seq.get(&dg.sequence_id).copied();
            let i = match known {
                Some(i) if dg.sequence_id != self.next_seq => i,
                _ => {
                    if dg.sequence_id != self.next_seq { self.track = false; return; }
                    // The next packet to be transmitted is the next one submitted, except for
                    // TimeSensitive packets that were dropped
                    loop {
                        if self.map_from >= self.pks.len() { check!(false, "C01/C04/C05.emit.content: an emitted fragment matches no submitted packet"); self.track = false; return; }
                        let p = &self.pks[self.map_from];
                        let n = p.tx.len();
                        let hit = p.ch == dg.channel_id && dg.fragment_id_last as usize == n - 1 && (dg.fragment_id as usize) < n && Self::slice(p, dg.fragment_id) == &dg.data[..];
                        if hit { break; }
                        check!(p.mode == SendMode::TimeSensitive, "C01/C04/C05.emit.content: an emitted fragment does not match the submitted packet");
                        if p.mode != SendMode::TimeSensitive { self.track = false; return; }
                        let k = self.map_from;
                        self.mark_dropped(k);
                        self.map_from += 1;
                    }
                    let i = self.map_from;
                    self.map_from += 1;
                    self.by_seq.insert(dg.sequence_id, i);
                    self.next_seq = (self.next_seq + 1) & 0xFFFFF;
                    self.pks[i].seq = Some(dg.sequence_id);
                    let p = &self.pks[i];
                    if p.mode == SendMode::TimeSensitive {
                        check!(p.step == self.steps, "C12.ts: a TimeSensitive packet was first transmitted after the step that followed its submission");
                    }
                    self.out_alloc += p.alloc();
                    check!(self.out_alloc <= self.alloc_limit, "C06.sender.alloc: more unacknowledged packet bytes than the peer advertised");
                    check!((self.next_seq.wrapping_sub(self.base_seq) & 0xFFFFF) <= self.win, "C06.sender.window: more packets outstanding than the packet window");
                    i
                }
            };
            let p = &mut self.pks[i];
            let k = dg.fragment_id as usize;
            if k >= p.tx.len() || dg.fragment_id_last as usize != p.tx.len() - 1 || dg.channel_id != p.ch || Self::slice(p, dg.fragment_id) != &dg.data[..] {
                check!(false, "C01/C04/C05.emit.content: an emitted fragment does not match the submitted packet");
                self.track = false; return;
            }
            if !resends(p.mode) {
                check!(p.tx[k] == 0, "C12.once: a fragment of an Unreliable or TimeSensitive packet was transmitted twice");
            } else {
                check!(!p.acked[k], "C12/C15.acked: a fragment was transmitted again after its acknowledgement had been processed");
            }
            check!(!p.released, "C12.moved_past: a fragment was transmitted after the receiver reported moving past the packet");
            p.tx[k] = p.tx[k].saturating_add(1);
            frags.push((i, dg.fragment_id));
        }
        self.frames.push(Fr { sent_ms: now_ms, nonce: f.nonce, frags, acked: false, maybe_acked: false });
    }

    fn frame_pos(&self, id: u32) -> u64 {
        // position of a wire frame id relative to the sender's current next id
        let cur = self.frame0.wrapping_add(self.next_frame as u32);
        let back = cur.wrapping_sub(id);
        if back == 0 || back as u64 > self.next_frame { u64::MAX } else { self.next_frame - back as u64 }
    }

    // ghost effect of an acknowledgement on the sender, before it is handed to the code
    fn on_ack(&mut self, f: &frame::AckFrame) {
        for g in f.frame_acks.iter() {
            if g.bitfield == 0 { continue; }
            let n = 32 - g.bitfield.leading_zeros();
            let mut known = true;
            let mut maybe = false;
            let mut nonce = false;
            let mut pos = Vec::new();
            for i in 0..n {
                let p = self.frame_pos(g.base_id.wrapping_add(i));
                match self.frames.get(p as usize) {
                    None => { known = false; }
                    Some(fr) => { maybe |= p < self.forget_pos; if g.bitfield >> i & 1 != 0 { nonce ^= fr.nonce; pos.push(p as usize); } }
                }
            }
            if !known { continue; }
            if nonce != g.nonce { continue; }
            if maybe {
                // some frame of the group may have been forgotten, and the group with it
                for p in pos { let fr = &mut self.frames[p]; if !fr.acked && !fr.maybe_acked { fr.maybe_acked = true; self.uncertain = true; } }
                continue;
            }
            for p in pos {
                let fr = &mut self.frames[p];
                if fr.acked { continue; }
                if fr.maybe_acked { self.uncertain = true; }
                fr.acked = true;
                let t = fr.sent_ms;
                for &(i, k) in fr.frags.iter() { self.pks[i].acked[k as usize] = true; }
                self.pend_ack = Some(self.pend_ack.map_or(t, |x| x.max(t)));
            }
        }
        // frame window
        let cur = self.frame0.wrapping_add(self.next_frame as u32);
        let back = cur.wrapping_sub(f.frame_window_base_id) as u64;
        if back <= self.next_frame - self.frame_base {
            let nb = self.next_frame - back;
            if nb > self.frame_base {
                self.frame_base = nb;
                self.forget_pos = self.forget_pos.max(nb.saturating_sub(self.fwin as u64));
            }
        }
        // packet window
        let span = self.next_seq.wrapping_sub(self.base_seq) & 0xFFFFF;
        let d = f.packet_window_base_id.wrapping_sub(self.base_seq) & 0xFFFFF;
        if f.packet_window_base_id <= 0xFFFFF && d <= span {
            while self.base_seq != f.packet_window_base_id {
                if let Some(i) = self.by_seq.remove(&self.base_seq) {
                    let p = &mut self.pks[i];
                    p.released = true;
                    self.size_model -= p.len;
                    self.out_alloc -= p.alloc();
                }
                self.base_seq = (self.base_seq + 1) & 0xFFFFF;
            }
        }
    }

    fn step(&mut self, now: u64) {
        let now_ms = self.now_ms(now);
        let before = self.hc.rtt_s();
        let rtt_ms = before.map_or(150, |r| (r * 1000.0).round() as u64);
        // The sender is required to recognise acknowledgements for frames no older than 4 RTT
        let thresh = now_ms.saturating_sub((4 * rtt_ms).saturating_sub(4));
        while self.forget_pos < self.next_frame && self.frames[self.forget_pos as usize].sent_ms < thresh { self.forget_pos += 1; }
        self.prev_rtt = before.unwrap_or(0.0);
        self.steps += 1;
        self.step_ms = now_ms;
        self.hc.step();
        let after = self.hc.rtt_s();
        if self.track {
            if self.uncertain { self.rtt = after; }
            else {
                if let Some(ls) = self.pend_ack {
                    let s = (now_ms - ls) as f64 / 1000.0;
                    self.rtt = Some(match self.rtt { None => s, Some(r) => 0.9 * r + 0.1 * s });
                }
                let same = match (self.rtt, after) { (None, None) => true, (Some(a), Some(b)) => (a - b).abs() <= 1e-6 * (1.0 + a.abs()), _ => false };
                check!(same, "C14/C15.rtt: the RTT estimate is not the 0.9/0.1 average of the samples given by fresh acknowledgements");
            }
            self.pend_ack = None;
            self.uncertain = false;
        }
        self.check_size();
    }

    // One packet handed to the application at the other end
    fn on_delivered(&mut self, data: &[u8], now: u64) {
        let j = if self.tiny {
            // contents do not identify the packet: every packet must arrive, in order
            self.last_global
        } else {
            check!(data.len() >= 4, "C01/C04.deliver.content: a packet was delivered that was never submitted");
            check!(data[0] >> 7 == self.id & 1, "C01/C04.deliver.content: a packet was delivered that was never submitted");
            data[1] as usize | (data[2] as usize) << 8 | (data[3] as usize) << 16
        };
        note(|| format!("{:.3} delivered #{} of [{}], {} bytes", now as f64 / 1e9, j, self.id, data.len()));
        check!(j < self.pks.len(), "C01/C04.deliver.content: a packet was delivered that was never submitted");
        check!(self.pks[j].data == data, "C01/C04/C05.deliver.bytes: a packet was delivered with altered contents");
        check!(!self.pks[j].delivered, "C01/C02/C05.deliver.once: a packet was delivered twice");
        let ch = self.pks[j].ch as usize;
        check!(j >= self.last_ch[ch], "C01/C05.deliver.order: a packet was delivered after a later packet of the same channel");
        self.last_ch[ch] = j + 1;
        // C02: no Reliable packet of the channel is skipped
        loop {
            let k = self.rel_pos[ch];
            if k < self.rel_next[ch].len() && self.rel_next[ch][k] < j {
                check!(self.pks[self.rel_next[ch][k]].delivered, "C02.skip: a packet was delivered before an earlier Reliable packet of its channel");
                self.rel_pos[ch] += 1;
            } else { break; }
        }
        if self.ideal {
            check!(j >= self.last_global, "C05.order: packets were delivered out of submission order over an ideal network");
            for k in self.last_global..j {
                check!(self.pks[k].mode == SendMode::TimeSensitive && !self.pks[k].started(), "C05.complete: a packet was not delivered over an ideal network");
            }
        }
        self.last_global = self.last_global.max(j + 1);
        self.pks[j].delivered = true;
        self.delivered += 1;
    }

    fn reliable_done(&self) -> bool { self.rel_next.iter().enumerate().all(|(c, v)| v[self.rel_pos[c]..].iter().all(|&i| self.pks[i].delivered)) }
}

#[derive(Clone, Copy, Debug)]
struct Net { lat: u64, jitter: u64, reorder: u64, loss: u64, dup: u64, corrupt: u64 }
impl Net { fn clean(lat: u64) -> Self { Net { lat, jitter: 0, reorder: 0, loss: 0, dup: 0, corrupt: 0 } } }

struct Link { q: BTreeMap<(u64, u64), Vec<u8>>, n: u64, last: u64, net: Net, black: Vec<(u64, u64)>, lost: u64, ack_only: bool }
impl Link {
    fn new(net: Net) -> Self { Link { q: BTreeMap::new(), n: 0, last: 0, net, black: Vec::new(), lost: 0, ack_only: false } }
    fn put(&mut self, now: u64, bytes: &[u8], r: &mut Rng) {
        if self.black.iter().any(|b| now >= b.0 && now < b.1) { self.lost += 1; return; }
        let is_ack = bytes[0] == 12;
        if r.chance(self.net.loss) && (!self.ack_only || is_ack) { self.lost += 1; return; }
        let copies = if r.chance(self.net.dup) { 1 + r.range(1, 3) } else { 1 };
        for c in 0..copies {
            let mut t = now + self.net.lat;
            if self.net.jitter > 0 { t += r.range(0, self.net.jitter); }
            if c > 0 || r.chance(self.net.reorder) { t += r.log(1, 8 * (self.net.lat + self.net.jitter + NS)); }
            else { t = t.max(self.last); self.last = t; }
            let mut b = bytes.to_vec();
            if r.chance(self.net.corrupt) { for _ in 0..r.range(1, 4) { let k = r.below(b.len() * 8); b[k / 8] ^= 1 << (k % 8); } }
            self.n += 1;
            self.q.insert((t, self.n), b);
        }
    }
}

struct Sim { ends: [End; 2], links: [Link; 2], r: Rng, now: u64 }

fn new_end(id: u8, cfg: Config, now: u64, tiny: bool, ideal: bool) -> End {
    let ceil = (cfg.tx_alloc_limit.saturating_add(MAX_FRAGMENT_SIZE - 1)) / MAX_FRAGMENT_SIZE * MAX_FRAGMENT_SIZE;
    End {
        id, base_ns: now, ceiling: cfg.tx_bandwidth_limit as f64, win: cfg.tx_packet_window_size, fwin: cfg.tx_frame_window_size, alloc_limit: ceil,
        steps: 0, step_ms: 0, next_step_ns: now, pks: Vec::new(), map_from: 0, ts: Vec::new(), by_seq: HashMap::new(),
        next_seq: cfg.tx_packet_base_id, base_seq: cfg.tx_packet_base_id, track: true, frames: Vec::new(), forget_pos: 0, next_frame: 0, frame_base: 0, frame0: cfg.tx_frame_base_id,
        size_model: 0, out_alloc: 0, rtt: None, prev_rtt: 0.0, pend_ack: None, uncertain: false, q: 0.0, q_t: now, q_rtt: 0.0, bytes: 0,
        tiny, ideal, last_ch: vec![0; CHANNEL_COUNT], rel_next: vec![Vec::new(); CHANNEL_COUNT], rel_pos: vec![0; CHANNEL_COUNT], last_global: 0, delivered: 0,
        hc: HalfConnection::new(cfg),
    }
}

impl Sim {
    fn flush(&mut self, e: usize) {
        let mut fs = Frames(Vec::new());
        self.ends[e].hc.flush(&mut fs);
        for f in fs.0 { self.ends[e].on_emit(&f, self.now); self.links[e].put(self.now, &f, &mut self.r); }
        self.ends[e].check_size();
    }

    // What Client::step()/Server::step() do for an active connection
    fn step(&mut self, e: usize) {
        vsup::time::set_ns(self.now);
        self.flush(e);
        let o = 1 - e;
        loop {
            let k = match self.links[o].q.keys().next() { Some(&k) if k.0 <= self.now => k, _ => break };
            let b = self.links[o].q.remove(&k).unwrap();
            match Frame::read(&b) {
                Some(Frame::DataFrame(f)) => { note(|| format!("{:.3} [{}] <- data {:08x}", self.now as f64 / 1e9, e, f.sequence_id)); self.ends[e].hc.handle_data_frame(f) }
                Some(Frame::AckFrame(f)) => {
                    note(|| format!("{:.3} [{}] <- ack {:?}", self.now as f64 / 1e9, e, f));
                    self.ends[e].on_ack(&f);
                    self.ends[e].hc.handle_ack_frame(f);
                    self.ends[e].check_size();
                }
                Some(Frame::SyncFrame(f)) => { note(|| format!("{:.3} [{}] <- sync {:?}", self.now as f64 / 1e9, e, f)); self.ends[e].hc.handle_sync_frame(f) }
                _ => (),
            }
        }
        let now = self.now;
        self.ends[e].step(now);
        let mut ps = Packets(Vec::new());
        self.ends[e].hc.receive(&mut ps);
        for p in ps.0 { self.ends[o].on_delivered(&p, now); }
    }
}

fn pick_base20(r: &mut Rng, near: bool) -> u32 { if near || r.chance(300) { 0xFFFFFu32.wrapping_sub(r.log(1, 5000) as u32 - 1) & 0xFFFFF } else { r.u32() & 0xFFFFF } }
fn pick_base32(r: &mut Rng, near: bool) -> u32 { if near || r.chance(300) { 0u32.wrapping_sub(r.log(1, 5000) as u32) } else { r.u32() } }

fn run_case(fam: Family) {
    let mut r = Rng::new(vsup::any_seed());
    vsup::sim_rand(Some(r.u64()));
    let t0 = r.range(0, 10_000_000_000);
    vsup::time::set_ns(t0);
    use Family::*;

    // ---- configuration
    let tiny = fam == Tiny;
    let ideal = match fam { Ideal => true, Tiny => r.chance(500), Window => r.chance(200), Rate => r.chance(500), _ => false };
    let wrap = fam == Wrap;
    let mut cfgs: Vec<Config> = Vec::new();
    let mut max_len = [0usize; 2];
    let mut alloc = [0usize; 2];
    for d in 0..2 {
        max_len[d] = match fam { Window => r.log(8, 200), Tiny => 3, Wrap => r.pick(&[40, 100, 3000]), Rate => r.pick(&[1400, 20000, 200000]), _ => r.pick(&[60, 60, 1448, 1500, 6000, 30000, 150000]) } as usize;
        alloc[d] = if r.chance(400) { max_len[d] + r.below(3000) } else { r.log(max_len[d] as u64, 2_000_000) as usize }.max(max_len[d]);
    }
    let bw = |r: &mut Rng| -> u32 { match fam {
        Window => r.log(1_000_000, 400_000_000) as u32,
        Rate => r.log(1472, 3_000_000) as u32,
        _ => if r.chance(50) { u32::MAX } else { r.log(1472, 20_000_000) as u32 } } };
    let bws = [bw(&mut r), bw(&mut r)];
    let win = |r: &mut Rng| -> u32 { match fam { Window => if r.chance(600) { 4096 } else { 1 << r.below(13) }, _ => if r.chance(500) { 4096 } else { 1 << r.below(13) } } };
    let pw = [win(&mut r), win(&mut r)];
    let fw = [win(&mut r), win(&mut r)];
    let pb = [pick_base20(&mut r, wrap), pick_base20(&mut r, wrap)];
    let fb = [pick_base32(&mut r, wrap), pick_base32(&mut r, wrap)];
    let ka = if r.chance(500) { Some(r.log(1, 20000)) } else { None };
    for e in 0..2 {
        let o = 1 - e;
        cfgs.push(Config {
            tx_frame_base_id: fb[e], rx_frame_base_id: fb[o], tx_frame_window_size: fw[e], rx_frame_window_size: fw[o],
            tx_packet_base_id: pb[e], rx_packet_base_id: pb[o], tx_packet_window_size: pw[e], rx_packet_window_size: pw[o],
            tx_bandwidth_limit: bws[e], tx_alloc_limit: alloc[e], rx_alloc_limit: alloc[o], keepalive_interval_ms: ka,
        });
    }
    let lat0 = if fam == Window { r.log(NS / 10, 100 * NS) } else { r.log(NS / 10, 1500 * NS) };
    let lat1 = if r.chance(500) { lat0 } else { r.log(NS / 10, 1500 * NS) };
    let mut net = [Net::clean(lat0), Net::clean(lat1)];
    for n in net.iter_mut() {
        match fam {
            Ideal => (),
            Tiny | Rate | Window if ideal => { if r.chance(300) { n.jitter = 0; } }
            Lossy | Wrap | Tiny | Modes => {
                n.loss = r.pick(&[0, 10, 50, 200, 500]); n.dup = r.pick(&[0, 50, 300]); n.reorder = r.pick(&[0, 50, 300]);
                n.jitter = if r.chance(300) { r.log(1, 2 * n.lat) } else { 0 }; n.corrupt = r.pick(&[0, 0, 20, 100]);
            }
            Blackout | Window | Rate | Stream => { n.loss = r.pick(&[0, 0, 20, 100]); }
            RttStep => { n.loss = r.pick(&[0, 0, 0, 20]); }
            AckLoss => { n.loss = r.pick(&[100, 300, 700, 950]); }
        }
    }
    let mut sim = Sim { ends: [new_end(0, cfgs[0].clone(), t0, tiny, ideal), new_end(1, cfgs[1].clone(), t0, tiny, ideal)],
                        links: [Link::new(net[0]), Link::new(net[1])], r: r.clone(), now: t0 };
    if fam == AckLoss { sim.links[0].ack_only = true; sim.links[1].ack_only = true; }
    note(|| format!("family {:?} ideal {} windows pkt {:?} frame {:?} pkt base {:x?} frame base {:x?} bw {:?} alloc {:?} max_len {:?} keepalive {:?} net {:?}", fam, ideal, pw, fw, pb, fb, bws, alloc, max_len, ka, net));
    let mut r = r.clone();
    r.u64();

    // ---- traffic plan
    let single = if tiny { Some(r.below(CHANNEL_COUNT) as u8) } else { None };
    let nch = r.pick(&[1usize, 2, 3, CHANNEL_COUNT]);
    let ch0 = r.below(CHANNEL_COUNT);
    let mix = r.below(6);
    let mut total = [0u64; 2];
    let mut left = [0u64; 2];
    for e in 0..2 {
        left[e] = match fam { Window => r.pick(&[100, 3000, 9000]), Wrap => r.log(100, 4000), Tiny => r.log(5, 300), Rate => r.log(5, 200), _ => r.log(3, 300) };
        total[e] = (bws[e] as u64 * 15).min(1_500_000).min(if lat0 + lat1 > 500 * NS { 300_000 } else { 1_500_000 });
        if e == 1 && r.chance(300) { left[e] = 0; }
    }
    let tick = [r.log(NS, 300 * NS), r.log(NS, 300 * NS)];
    let cadence = r.below(4);
    let burst = r.pick(&[1u64, 3, 20, 100000]);
    let dur = match fam { Blackout => r.log(2000 * NS, 120_000 * NS), Stream => r.log(100 * NS, 30_000 * NS), Window => r.log(200 * NS, 20_000 * NS), RttStep => r.log(1000 * NS, 60_000 * NS), _ => r.log(100 * NS, 60_000 * NS) };
    let t_end = t0 + dur;
    if fam == Blackout || fam == Stream && r.chance(500) || fam == Window && !ideal {
        for _ in 0..r.range(1, 3) {
            let a = t0 + r.range(0, dur); let b = a + r.log(10 * NS, dur.max(20 * NS));
            let which = r.below(3);
            if which != 1 { sim.links[0].black.push((a, b)); }
            if which != 0 { sim.links[1].black.push((a, b)); }
        }
    }
    let rtt_steps: Vec<(u64, u64)> = if fam == RttStep { (0..r.range(1, 3)).map(|_| (t0 + r.range(0, dur), r.log(NS / 10, 3000 * NS))).collect() } else { Vec::new() };
    let max_steps = 2500;
    let flush_heavy = r.chance(300) || fam == Rate;

    let mut steps = 0;
    let mut changed = vec![false; rtt_steps.len()];
    while steps < max_steps {
        let e = if sim.ends[0].next_step_ns <= sim.ends[1].next_step_ns { 0 } else { 1 };
        sim.now = sim.ends[e].next_step_ns;
        if sim.now > t_end { break; }
        steps += 1;
        for (i, s) in rtt_steps.iter().enumerate() { if !changed[i] && sim.now >= s.0 { changed[i] = true; sim.links[0].net.lat = s.1; sim.links[1].net.lat = s.1; } }
        sim.step(e);
        let mut n = if r.chance(400) { r.range(1, burst).min(left[e]) } else { 0 };
        while n > 0 && left[e] > 0 {
            n -= 1; left[e] -= 1;
            let mode = match mix {
                0 => SendMode::Reliable,
                1 => r.pick(&[SendMode::Reliable, SendMode::Unreliable]),
                2 => r.pick(&[SendMode::Persistent, SendMode::Unreliable, SendMode::Persistent]),
                _ => r.pick(&[SendMode::TimeSensitive, SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable]),
            };
            let mode = if tiny { if !ideal { SendMode::Reliable } else if mode == SendMode::TimeSensitive { SendMode::Unreliable } else { mode } } else { mode };
            let ch = single.unwrap_or(((ch0 + r.below(nch)) % CHANNEL_COUNT) as u8);
            let m = max_len[e];
            let len = if tiny { r.range(0, 3) as usize } else {
                let l = match r.below(5) {
                    0 => r.range(4, 40) as usize,
                    1 => { let k = r.range(1, 1 + (m / MAX_FRAGMENT_SIZE) as u64) as usize * MAX_FRAGMENT_SIZE; (k + r.below(5)).saturating_sub(2) }
                    2 => m,
                    3 => r.pick(&[4usize, 62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 257]),
                    _ => r.log(4, m.max(5) as u64) as usize,
                };
                l.clamp(4, m.max(4)) };
            if total[e] < len as u64 { left[e] = 0; break; }
            total[e] -= len as u64;
            sim.ends[e].send(ch, mode, len);
            if r.chance(30) { sim.flush(e); }
        }
        if r.chance(if flush_heavy { 700 } else { 200 }) { for _ in 0..r.range(1, 4) { sim.flush(e); } }
        if flush_heavy && r.chance(300) {
            // flush() between steps, at a later time
            let room = sim.ends[1 - e].next_step_ns.saturating_sub(sim.now);
            sim.now += r.range(0, tick[e].min(room)); vsup::time::set_ns(sim.now); sim.flush(e);
        }
        let dt = match cadence {
            0 => tick[e],
            1 => r.range(1, 2 * tick[e]),
            2 => if r.chance(20) { r.range(tick[e], 100 * tick[e]) } else { r.range(0, tick[e]) },
            _ => r.log(1000, 4 * tick[e]),
        };
        sim.ends[e].next_step_ns = sim.now + dt.min(5_000 * NS);
    }

    // ---- fair phase: the network delivers everything, both applications keep stepping
    let lat = if r.chance(500) || ideal { sim.links[0].net.lat } else { r.log(NS / 10, 1000 * NS) };
    for l in sim.links.iter_mut() { let keep = l.net.lat; l.net = Net::clean(if ideal { keep } else { lat }); l.black.clear(); l.ack_only = false; }
    sim.now = sim.now.max(sim.ends[0].next_step_ns.min(sim.ends[1].next_step_ns));
    let start = sim.now;
    note(|| format!("{:.3} fair phase begins, latency {} ns", sim.now as f64 / 1e9, lat));
    let mut probes: [Vec<usize>; 2] = [Vec::new(), Vec::new()];
    for e in 0..2 {
        if tiny { continue; }
        for m in [SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable] {
            probes[e].push(sim.ends[e].pks.len());
            let l = 4 + r.below(60.min(max_len[e]).max(5) - 4);
            sim.ends[e].send(single.unwrap_or(((ch0 + r.below(nch)) % CHANNEL_COUNT) as u8), m, l.min(max_len[e].max(4)));
        }
    }
    // ---- the other end keeps transmitting all the time: acknowledgements do not displace data
    if fam == Stream {
        let x = r.below(2); let o = 1 - x;
        let dts = [r.range(30 * NS, 100 * NS), r.range(30 * NS, 100 * NS)];
        for e in 0..2 { sim.ends[e].next_step_ns = sim.now + r.range(0, dts[e]); }
        let want: Vec<usize> = (0..sim.ends[x].pks.len()).filter(|&i| sim.ends[x].pks[i].mode == SendMode::Reliable).collect();
        let begin = sim.now;
        let bytes: u64 = sim.ends[x].pks.iter().filter(|p| !p.delivered && !p.dropped).map(|p| p.data.len() as u64).sum();
        if bytes < 3000 { loop {
            let e = if sim.ends[0].next_step_ns <= sim.ends[1].next_step_ns { 0 } else { 1 };
            sim.now = sim.ends[e].next_step_ns;
            sim.step(e);
            if e == o && sim.ends[o].hc.send_buffer_size() < 600 { for _ in 0..r.range(1, 3) { let l = r.range(4, 60.min(max_len[o] as u64).max(5)) as usize; sim.ends[o].send(((ch0 + r.below(nch)) % CHANNEL_COUNT) as u8, SendMode::Unreliable, l.min(max_len[o].max(4))); } }
            sim.ends[e].next_step_ns = sim.now + dts[e];
            if want.iter().all(|&i| sim.ends[x].pks[i].delivered) { reach!(true, "delivered against a continuous stream"); break; }
            if sim.now - begin > 2000 * 1000 * NS { note(|| format!("{:.3} [{}] starved", sim.now as f64 / 1e9, x)); check!(false, "C02/C11.stream: a Reliable packet is not delivered as long as the peer keeps transmitting"); break; }
        } }
    }
    let budget = 30_000 * 1000 * NS;
    let fair_dt = [r.range(5 * NS, 60 * NS), r.range(5 * NS, 60 * NS)];
    for e in 0..2 { sim.ends[e].next_step_ns = sim.now + r.range(0, fair_dt[e]); }
    let mut ts_wait = !tiny && !ideal;
    let mut ts_ok = [tiny || ideal; 2];
    let mut ts_list: [Vec<usize>; 2] = [Vec::new(), Vec::new()];
    let mut n = 0u64;
    loop {
        let e = if sim.ends[0].next_step_ns <= sim.ends[1].next_step_ns { 0 } else { 1 };
        sim.now = sim.ends[e].next_step_ns;
        sim.step(e);
        n += 1;
        if n % 8 == 0 {
            let idle = |x: &End| !x.hc.is_send_pending() && x.hc.send_buffer_size() == 0;
            let quiet = [idle(&sim.ends[0]), idle(&sim.ends[1])];
            if ts_wait {
                for x in 0..2 {
                    if ts_ok[x] { continue; }
                    if ts_list[x].iter().rev().take(200).any(|&i| sim.ends[x].pks[i].delivered) { ts_ok[x] = true; }
                }
                ts_wait = !(ts_ok[0] && ts_ok[1]);
            }
            let done = quiet[0] && quiet[1] && sim.ends[0].reliable_done() && sim.ends[1].reliable_done()
                && (0..2).all(|x| probes[x].iter().all(|&i| sim.ends[x].pks[i].delivered))
                && (!ideal || (0..2).all(|x| sim.ends[x].pks.iter().all(|p| p.delivered || p.mode == SendMode::TimeSensitive && !p.started())));
            if done && !ts_wait { break; }
            if sim.now - start > budget {
                for x in 0..2 {
                    let s = &sim.ends[x];
                    note(|| format!("[{}] pending {} buffer {} reliable done {} probes {:?} ts {}", x, s.hc.is_send_pending(), s.hc.send_buffer_size(), s.reliable_done(), probes[x].iter().map(|&i| s.pks[i].delivered).collect::<Vec<_>>(), ts_ok[x]));
                    check!(s.reliable_done(), "C02/C11.eventual: a Reliable packet is not delivered although the network delivers every frame");
                    check!(!s.hc.is_send_pending(), "C02/C11/C12.pending: the sender still reports pending data although the network delivers every frame");
                    check!(s.hc.send_buffer_size() == 0, "C02/C11/C20.drained: send_buffer_size() does not return to zero");
                    check!(probes[x].iter().all(|&i| s.pks[i].delivered), "C11.probe: a packet submitted after frames flowed again is not delivered");
                    check!(ts_ok[x], "C11.probe_ts: no TimeSensitive packet submitted after frames flowed again is delivered");
                }
                break;
            }
        }
        if ts_wait && !ts_ok[e] && n > 16 && !sim.ends[e].hc.is_send_pending() && r.chance(if ts_list[e].len() < 1000 { 500 } else { 100 }) {
            let l = 4 + r.below(8);
            if l <= max_len[e].max(4) { ts_list[e].push(sim.ends[e].pks.len()); sim.ends[e].send(((ch0 + r.below(nch)) % CHANNEL_COUNT) as u8, SendMode::TimeSensitive, l); }
        }
        sim.ends[e].next_step_ns = sim.now + fair_dt[e] * if n > 40_000 { 3 } else { 1 };
    }
    let took = (sim.now - start) / NS;
    vsup::count("fair_phase_virtual_ms", took);
    vsup::count_max("fair_phase_virtual_ms_max", took);
    for x in 0..2 {
        let s = &sim.ends[x];
        // C12: a Persistent or Reliable packet is retransmitted until acknowledged
        if s.track {
            for p in s.pks.iter() {
                if p.started() && resends(p.mode) && p.mode == SendMode::Reliable { check!(p.delivered, "C02/C12.retransmit: a Reliable packet was given up"); }
                check!(p.dropped || p.delivered || p.started() || p.mode == SendMode::TimeSensitive, "C02/C05/C11/C12.transmitted: a packet was never transmitted");
                if p.started() { check!(p.tx.iter().all(|&t| t > 0) || p.released, "C04/C05/C12.all_fragments: a fragment was never transmitted"); }
            }
        }
        if ideal {
            for p in s.pks.iter() {
                check!(p.delivered || p.mode == SendMode::TimeSensitive && !p.started(), "C05.complete: a packet was not delivered over an ideal network");
            }
        }
        vsup::count("packets_submitted", s.pks.len() as u64);
        vsup::count("packets_delivered", s.delivered as u64);
        vsup::count("frames_transmitted", s.next_frame);
        vsup::count("frames_lost", sim.links[x].lost);
        vsup::count("tracked", s.track as u64);
        reach!(s.pks.iter().any(|p| p.tx.iter().any(|&t| t > 1)), "retransmission");
        reach!(s.pks.iter().any(|p| p.tx.len() > 1 && p.delivered), "multi-fragment packet delivered");
        reach!(s.pks.iter().any(|p| p.dropped), "TimeSensitive packet dropped");
        reach!(sim.links[x].lost > 0, "frame lost");
        reach!(s.rtt.is_some(), "RTT measured");
    }

    // ---- the connection is not pinned at its minimum rate: bulk data is eventually sent faster
    if fam == Blackout || fam == RttStep || fam == AckLoss || fam == Window {
        for x in 0..2 {
            // The windows themselves must allow a rate well above the minimum
            let len = max_len[x].min(1000);
            let flight = (len * (pw[x].min(fw[x]) as usize)).min(alloc[x]);
            let rt_s = (2 * sim.links[0].net.lat.max(sim.links[1].net.lat) + 4 * fair_dt[0].max(fair_dt[1])) as f64 / 1e9;
            if max_len[x] < 40 || (flight as f64) / rt_s < 1000.0 { continue; }
            reach!(true, "bulk transfer after the fault");
            let begin = sim.now;
            let mut ok = false;
            let k = (4000 / len).max(4);
            while sim.now - begin < budget {
                let b0 = sim.now;
                for _ in 0..k { sim.ends[x].send(ch0 as u8, SendMode::Reliable, len); }
                loop {
                    let e = if sim.ends[0].next_step_ns <= sim.ends[1].next_step_ns { 0 } else { 1 };
                    sim.now = sim.ends[e].next_step_ns;
                    sim.step(e);
                    sim.ends[e].next_step_ns = sim.now + fair_dt[e];
                    if sim.ends[x].reliable_done() && !sim.ends[x].hc.is_send_pending() { break; }
                    if sim.now - begin > budget { break; }
                }
                let rate = (k * len) as f64 / ((sim.now - b0) as f64 / 1e9);
                if rate > 60.0 { ok = true; break; }
            }
            vsup::count_max("recovery_virtual_ms_max", (sim.now - begin) / NS);
            check!(ok, "C11.rate: the connection stays pinned at its minimum rate although the network delivers every frame");
        }
    }
    vsup::sim_rand(None);
}
