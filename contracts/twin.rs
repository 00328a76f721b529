//@ attach: src/lib.rs
//@ for: native
// C15 as a two-run contract: two identical senders see the same history, except that one of them is
// also given acknowledgements which are not genuine or not fresh. Nothing observable may differ.
use crate::frame::serial::Serialize;
use crate::frame::{AckFrame, AckGroup, Frame};
use crate::half_connection::{Config, FrameSink, HalfConnection, PacketSink};
use crate::SendMode;
use vsup::{any_seed, check, note, reach, Rng};

pub const HARNESSES: &[(&str, fn())] = &[("twin_acks", twin_acks)];

struct Frames(Vec<Box<[u8]>>);
impl FrameSink for Frames { fn send(&mut self, d: &[u8]) { self.0.push(d.into()); } }
struct Sink;
impl PacketSink for Sink { fn send(&mut self, _d: Box<[u8]>) {} }
const NS: u64 = 1_000_000;

fn twin_acks() {
    let mut r = Rng::new(any_seed());
    let t0 = r.range(0, 1_000_000_000);
    let mut now = t0;
    vsup::time::set_ns(now);
    let pb = [r.edge32() & 0xFFFFF, r.edge32() & 0xFFFFF];
    let fb = [r.edge32(), r.edge32()];
    let fw = 1u32 << r.range(2, 12);
    let bw = r.log(3000, 3_000_000) as u32;
    let ka = if r.chance(300) { Some(r.log(100, 10_000)) } else { None };
    let cfg = |e: usize| Config {
        tx_frame_base_id: fb[e], rx_frame_base_id: fb[1 - e], tx_frame_window_size: fw, rx_frame_window_size: fw,
        tx_packet_base_id: pb[e], rx_packet_base_id: pb[1 - e], tx_packet_window_size: 4096, rx_packet_window_size: 4096,
        tx_bandwidth_limit: bw, tx_alloc_limit: 1_000_000, rx_alloc_limit: 1_000_000, keepalive_interval_ms: ka,
    };
    vsup::sim_rand(Some(1));
    let mut a = [HalfConnection::new(cfg(0)), HalfConnection::new(cfg(0))];
    let mut b = HalfConnection::new(cfg(1));
    let lat = r.log(1, 400) * NS;
    let tick = r.log(NS, 100 * NS);
    let loss = r.pick(&[0u64, 0, 30, 200, 500]);
    let extra = r.pick(&[300u64, 1000]);
    let mut to_b: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut to_a: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut sent: Vec<(u32, bool)> = Vec::new();   // frames sent: id and nonce
    let mut acks: Vec<AckFrame> = Vec::new();      // acks both have processed
    let (mut fwb, mut pwb) = (fb[0], pb[0]);
    let mut k = 0u64;
    let salt = r.u64();
    let maxlen = r.pick(&[10usize, 500, 6000, 40_000]);
    let steps = r.range(20, 300);
    let reverse = r.chance(300);
    for s in 0..steps {
        now += tick + if r.chance(100) { r.log(1, 1000 * NS) } else { 0 };
        vsup::time::set_ns(now);
        // the peer
        for (_, f) in to_b.iter().filter(|x| x.0 <= now) { match Frame::read(f) { Some(Frame::DataFrame(f)) => b.handle_data_frame(f), Some(Frame::SyncFrame(f)) => b.handle_sync_frame(f), Some(Frame::AckFrame(f)) => b.handle_ack_frame(f), _ => () } }
        to_b.retain(|x| x.0 > now);
        vsup::sim_rand(Some(salt ^ s));
        b.step();
        b.receive(&mut Sink);
        if reverse && r.chance(200) { b.send(vec![1; r.below(3000)].into_boxed_slice(), 0, SendMode::Unreliable); }
        let mut fs = Frames(Vec::new());
        b.flush(&mut fs);
        for f in fs.0 { if !r.chance(loss / 2) { to_a.push((now + lat, f.to_vec())); } }
        // the senders
        let due: Vec<Vec<u8>> = to_a.iter().filter(|x| x.0 <= now).map(|x| x.1.clone()).collect();
        to_a.retain(|x| x.0 > now);
        for f in due {
            match Frame::read(&f) {
                Some(Frame::AckFrame(f)) => {
                    fwb = f.frame_window_base_id; pwb = f.packet_window_base_id;
                    note(|| format!("{:.3} both <- {:?}", now as f64 / 1e9, f));
                    for h in a.iter_mut() { h.handle_ack_frame(f.clone()); }
                    acks.push(f);
                }
                Some(Frame::DataFrame(f)) => for h in a.iter_mut() { h.handle_data_frame(f.clone()); },
                Some(Frame::SyncFrame(f)) => for h in a.iter_mut() { h.handle_sync_frame(f.clone()); },
                _ => (),
            }
            if r.chance(extra) { bogus(&mut r, &mut a[1], &acks, &sent, fwb, pwb); }
        }
        for _ in 0..r.below(3) { if r.chance(extra) { bogus(&mut r, &mut a[1], &acks, &sent, fwb, pwb); } }
        if r.chance(300) {
            let n = r.below(maxlen + 1);
            let mode = r.pick(&[SendMode::Reliable, SendMode::Persistent, SendMode::Unreliable, SendMode::TimeSensitive]);
            let c = r.below(3) as u8;
            for h in a.iter_mut() { h.send(vec![s as u8; n].into_boxed_slice(), c, mode); }
        }
        for h in a.iter_mut() { h.step(); h.receive(&mut Sink); }
        check!(a[0].rtt_s() == a[1].rtt_s(), "C15.twin.rtt: an acknowledgement that is not genuine and fresh changed the RTT estimate");
        check!(a[0].send_buffer_size() == a[1].send_buffer_size(), "C15.twin.buffer: an acknowledgement that is not genuine and fresh released packets");
        for _ in 0..1 + r.below(2) {
            k += 1;
            let mut out = [Vec::new(), Vec::new()];
            for i in 0..2 {
                vsup::sim_rand(Some(salt.wrapping_add(k)));
                let mut fs = Frames(Vec::new());
                a[i].flush(&mut fs);
                out[i] = fs.0;
            }
            let data = |v: &Vec<Box<[u8]>>| v.iter().filter(|f| f[0] == 10).cloned().collect::<Vec<_>>();
            let (d0, d1) = (data(&out[0]), data(&out[1]));
            if d0 != d1 { note(|| format!("{:.3} without: {:?} data frames, with: {:?}", now as f64 / 1e9, d0.iter().map(|f| f.len()).collect::<Vec<_>>(), d1.iter().map(|f| f.len()).collect::<Vec<_>>())); }
            check!(d0 == d1, "C15.twin.frames: an acknowledgement that is not genuine and fresh changed what is transmitted");
            for f in out[0].iter() {
                if let Some(Frame::DataFrame(d)) = Frame::read(f) { sent.push((d.sequence_id, d.nonce)); reach!(true, "twin.data"); }
                if !r.chance(loss) { to_b.push((now + lat, f.to_vec())); }
            }
        }
    }
    vsup::sim_rand(None);
}

fn bogus(r: &mut Rng, h: &mut HalfConnection, acks: &Vec<AckFrame>, sent: &Vec<(u32, bool)>, fwb: u32, pwb: u32) {
    if !acks.is_empty() && r.chance(400) {
        let f = if r.chance(500) { acks.last().unwrap().clone() } else { r.pick_ref(acks).clone() };
        note(|| format!("repeat {:?}", f));
        reach!(true, "twin.repeat");
        h.handle_ack_frame(f);
        return;
    }
    if sent.is_empty() { return; }
    let mut groups = Vec::new();
    for _ in 0..1 + r.below(4) {
        let n = sent.len();
        let w = 1 + r.below(200);
        let k = n - 1 - r.below(n.min(w));
        let last = sent[n - 1].0;
        let base = sent[k].0;
        let avail = last.wrapping_sub(base).wrapping_add(1).min(32);
        let mut bits = if r.chance(500) { 1 } else { r.u32() } & if avail >= 32 { u32::MAX } else { (1u32 << avail) - 1 };
        if bits == 0 { bits = 1; }
        let mut parity = false;
        for i in 0..32 { if bits >> i & 1 != 0 { if let Some(x) = sent.get(k + i) { parity ^= x.1; } } }
        // sent frames have consecutive ids; a claimed frame beyond the last one was never sent
        if avail < 32 && r.chance(300) {
            let bits = bits | 1 << (avail + r.below(32 - avail as usize) as u32);
            groups.push(AckGroup { base_id: base, bitfield: bits, nonce: r.chance(500) });
            reach!(true, "twin.unknown");
        } else if r.chance(150) {
            groups.push(AckGroup { base_id: last.wrapping_add(1 + r.edge32() % 0x7000_0000), bitfield: bits, nonce: r.chance(500) });
        } else {
            groups.push(AckGroup { base_id: base, bitfield: bits, nonce: !parity });
            reach!(true, "twin.wrong_nonce");
        }
    }
    let f = AckFrame { frame_window_base_id: fwb, packet_window_base_id: pwb, frame_acks: groups };
    note(|| format!("bogus {:?}", f));
    h.handle_ack_frame(f);
}
