//@ attach: src/lib.rs
//@ for: native
// Real Client and Server objects over a virtual network. The contract of the endpoints is written
// over their public API and over the datagrams they exchange: ghost state per connection (what was
// submitted, transmitted, received, reported) and obligations over it. This module executes that
// contract on generated histories (bounded stand-in).
use crate::frame::serial::Serialize;
use crate::frame::{self, Frame};
use crate::{client, server, EndpointConfig, SendMode, CHANNEL_COUNT, MAX_FRAGMENT_SIZE, MAX_FRAME_SIZE, PROTOCOL_VERSION};
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use vsup::{check, net as vnet, note, reach, Rng};

// a peer which acknowledges packets it has not received makes the sender skip them
thread_local! { static FORGED_ACKS: std::cell::Cell<bool> = std::cell::Cell::new(false); }

pub const HARNESSES: &[(&str, fn())] = &[
    ("sys_plain", || run_case(Family::Plain)),
    ("sys_hs", || run_case(Family::Hs)),
    ("sys_idle", || run_case(Family::Idle)),
    ("sys_disc", || run_case(Family::Disc)),
    ("sys_hostile", || run_case(Family::Hostile)),
    ("sys_heap", || run_case(Family::Heap)),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Family { Plain, Hs, Idle, Disc, Hostile, Heap }

const NS: u64 = 1_000_000;
const S: u64 = 1000 * NS;
const RETRY_MS: u64 = 2000;
const RETRIES: usize = 11;

fn addr(a: u8, b: u8, port: u16) -> SocketAddr { SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, a, b, 1)), port) }

// ------------------------------------------------------------------------------------------------
// Ghost state

// A request that is retransmitted at fixed intervals: 1 transmission and 10 retransmissions
#[derive(Default, Clone, Debug)]
struct Retry { n: usize, last_ms: u64 }
impl Retry {
    fn sent(&mut self, ms: u64) -> (bool, bool) {
        let spaced = self.n == 0 || ms + 1 >= self.last_ms + RETRY_MS;
        self.n += 1; self.last_ms = ms;
        (spaced, self.n <= RETRIES)
    }
    fn due(&self, ms: u64) -> bool { self.n > 0 && ms >= self.last_ms + RETRY_MS + 1 }
    fn exhausted(&self, ms: u64) -> bool { self.n >= RETRIES && ms + 1 >= self.last_ms + RETRY_MS }
}

struct Pk { ch: u8, mode: SendMode, len: usize, tag: u64, delivered: bool, before_disc: bool }

fn payload(tag: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    v.extend_from_slice(&tag.to_le_bytes());
    let mut r = Rng::new(tag ^ 0x55AA_1234_0000_0001);
    while v.len() < len { v.extend_from_slice(&r.u64().to_le_bytes()); }
    v.truncate(len);
    v
}

// One direction of one connection
struct Stream {
    id: u16,
    pks: Vec<Pk>,
    last_ch: Vec<usize>,
    // transmission ghost
    ceiling: f64, alloc_limit: usize, q: f64, q_t: u64, q_rtt: f64, rtt_prev: f64,
    first_id: u32, base: u32, next: u32, outs: BTreeMap<u32, usize>, out: usize, seen_data: bool, track: bool,
    size: usize,
}
impl Stream {
    fn new(id: u16) -> Self {
        Stream { id, pks: Vec::new(), last_ch: vec![0; CHANNEL_COUNT], ceiling: 0.0, alloc_limit: 0, q: 0.0, q_t: 0, q_rtt: 0.0, rtt_prev: 0.0, first_id: 0, base: 0, next: 0, outs: BTreeMap::new(), out: 0, seen_data: false, track: true, size: 0 }
    }
    fn open(&mut self, now: u64, nonce: u32, rate: u64, alloc: usize) {
        self.ceiling = rate as f64; self.q_t = now; self.first_id = nonce; self.base = nonce & 0xFFFFF; self.next = self.base;
        self.alloc_limit = (alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE * MAX_FRAGMENT_SIZE;
    }
    fn submit(&mut self, r: &mut Rng, max: usize) -> (Vec<u8>, usize, SendMode) {
        let ch = if r.chance(500) { 0 } else { r.below(CHANNEL_COUNT) };
        let mode = r.pick(&[SendMode::TimeSensitive, SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable, SendMode::Reliable]);
        let len = match r.below(5) { 0 => max, 1 => r.range(8, 40) as usize, 2 => r.log(8, max as u64) as usize, 3 => (MAX_FRAGMENT_SIZE - 1 + r.below(3)) * r.range(1, 3) as usize, _ => 8 + r.below(200) }.clamp(8, max);
        let tag = (self.id as u64) << 48 | (ch as u64) << 40 | self.pks.len() as u64;
        self.pks.push(Pk { ch: ch as u8, mode, len, tag, delivered: false, before_disc: false });
        (payload(tag, len), ch, mode)
    }
    // the application at the other end received `data`
    fn delivered(&mut self, data: &[u8]) {
        check!(data.len() >= 8, "C01/C04.sys.deliver.content: a packet was delivered that was never submitted on this connection");
        let mut t = [0u8; 8]; t.copy_from_slice(&data[..8]);
        let tag = u64::from_le_bytes(t);
        check!((tag >> 48) as u16 == self.id, "C01/C04/C07/C08.sys.deliver.content: a packet was delivered that was not submitted on this connection");
        let j = (tag & 0xFF_FFFF_FFFF) as usize;
        check!(j < self.pks.len(), "C01/C04.sys.deliver.content: a packet was delivered that was never submitted on this connection");
        let p = &self.pks[j];
        let want = vsup::alloc::uncounted(|| payload(p.tag, p.len));
        check!(&want[..] == data, "C01/C04.sys.deliver.bytes: a packet was delivered with altered contents");
        check!(!p.delivered, "C01/C02.sys.deliver.once: a packet was delivered twice");
        let ch = p.ch as usize;
        check!(j >= self.last_ch[ch], "C01.sys.deliver.order: a packet was delivered after a later packet of the same channel");
        for k in self.last_ch[ch]..j {
            if self.pks[k].ch as usize == ch && self.pks[k].mode == SendMode::Reliable { check!(self.pks[k].delivered, "C02.sys.skip: a packet was delivered before an earlier Reliable packet of its channel"); }
        }
        self.last_ch[ch] = j + 1;
        self.pks[j].delivered = true;
    }
    fn reliable_done(&self) -> bool { self.pks.iter().all(|p| p.mode != SendMode::Reliable || p.delivered) }
    // a data, ack or sync frame of the connection was transmitted
    fn on_emit(&mut self, b: &[u8], f: &Frame, now: u64, rtt: Option<f64>) {
        check!(b.len() <= MAX_FRAME_SIZE, "C04.sys.emit.size: an emitted UDP payload exceeds 1472 bytes");
        self.q -= self.ceiling * ((now - self.q_t) as f64 / 1e9);
        self.q_t = now;
        if self.q <= 0.0 { self.q = 0.0; self.q_rtt = 0.0; }
        self.q_rtt = self.q_rtt.max(rtt.unwrap_or(0.0)).max(self.rtt_prev);
        self.q += b.len() as f64;
        if self.ceiling >= MAX_FRAME_SIZE as f64 && self.track {
            note(|| format!("bucket {:.1} ceiling {} rtt {}", self.q, self.ceiling, self.q_rtt));
            check!(self.q <= self.ceiling * self.q_rtt + MAX_FRAME_SIZE as f64 + 1.0, "C13.sys.bucket: more bytes transmitted over an interval than the negotiated ceiling x (interval + RTT) + one frame");
        }
        if let Frame::DataFrame(d) = f {
            if !self.seen_data {
                self.seen_data = true;
                check!(d.sequence_id == self.first_id, "C07.sys.base: the first data frame does not carry the sequence number agreed in the handshake");
                if let (true, Some(g)) = (self.track && !FORGED_ACKS.with(|f| f.get()), d.datagrams.first()) { check!(g.sequence_id == self.base, "C07.sys.base: the first packet does not carry the sequence number agreed in the handshake"); }
            }
            if !self.track { return; }
            for g in d.datagrams.iter() {
                if g.sequence_id == self.next {
                    let a = if g.fragment_id_last > 0 { (g.fragment_id_last as usize + 1) * MAX_FRAGMENT_SIZE } else { g.data.len() };
                    self.outs.insert(g.sequence_id, a); self.out += a;
                    self.next = (self.next + 1) & 0xFFFFF;
                    check!(self.out <= self.alloc_limit, "C06.sys.alloc: more unacknowledged packet bytes than the peer advertised in the handshake");
                    check!(self.outs.len() <= 4096, "C06.sys.window: more than 4096 packets outstanding");
                }
            }
        }
    }
    fn on_ack(&mut self, a: &frame::AckFrame) {
        let d = a.packet_window_base_id.wrapping_sub(self.base) & 0xFFFFF;
        if a.packet_window_base_id > 0xFFFFF || d > self.next.wrapping_sub(self.base) & 0xFFFFF { return; }
        while self.base != a.packet_window_base_id { if let Some(x) = self.outs.remove(&self.base) { self.out -= x; } self.base = (self.base + 1) & 0xFFFFF; }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph { Idle, Pending, Active, Closing, Done }

// One end of a connection, as seen by its application
struct EndG {
    ph: Ph,
    t0: u64,
    timeout_ms: u64,
    hs: Retry,
    disc: Retry,
    last_dss: u64,
    last_any: u64,
    disc_call: u8,            // 0 none, 1 flush, 2 now
    disc_call_step: bool,     // a step() must transmit the Disconnect
    first_disc_ns: u64,
    fin_heard: bool,          // Disconnect or DisconnectAck received since the first Disconnect
    out: Stream,
    was: Ph,            // at the beginning of the current step
    terminal: bool,
    ka: bool,           // keepalive guarantees that no timeout occurs in this history
}
impl EndG {
    fn new(t0: u64, id: u16, timeout_ms: u64) -> Self {
        EndG { ph: Ph::Idle, t0, timeout_ms, hs: Retry::default(), disc: Retry::default(), last_dss: 0, last_any: 0, disc_call: 0, disc_call_step: false, first_disc_ns: 0, fin_heard: false, out: Stream::new(id), was: Ph::Idle, terminal: false, ka: false }
    }
    fn ms(&self, now: u64) -> u64 { (now - self.t0) / NS }
    fn idle(&self, now: u64) -> u64 { self.ms(now).saturating_sub(self.last_dss) }
}

struct Cl {
    serial: usize,
    obj: Option<client::Client>,
    at: SocketAddr,
    cfg: EndpointConfig,
    nonce: u32,
    g: EndG,
    server_nonce: u32,
    syn: Vec<u8>,
    next_ns: u64,
    gap: u64,
    forged: bool,       // forged or stale data/ack/sync frames were addressed to either end
    forged_disc: bool,  // forged or stale Disconnect frames may reach either end
    fatal_ok: bool,
    peer: Option<usize>, // server-side connection
    vanish: bool,
}

// A connection at the server
struct Sc {
    at: SocketAddr,
    g: EndG,
    nonce: u32,         // nonce of the SYN-ACK
    client: Option<usize>,
    rate: u32, alloc: u32,
    dropped: bool,
    taint: bool,
}

#[derive(Default)]
struct AddrG { bytes_in: u64, bytes_out: u64, verified: bool, only_small: bool, any_in: bool, cur: Option<usize> }

struct NetP { lat: u64, jitter: u64, reorder: u64, loss: u64, dup: u64, corrupt: u64 }

struct Sys {
    r: Rng,
    now: u64,
    srv: server::Server,
    srv_at: SocketAddr,
    srv_t0: u64,
    ka: bool,
    scfg: EndpointConfig,
    max_total: usize,
    max_active: usize,
    hs_errors: bool,
    srv_next: u64,
    srv_gap: u64,
    cls: Vec<Cl>,
    scs: Vec<Sc>,
    addrs: BTreeMap<SocketAddr, AddrG>,
    q: BTreeMap<(u64, u64), (SocketAddr, SocketAddr, Vec<u8>)>,
    qn: u64,
    qlast: BTreeMap<(SocketAddr, SocketAddr), u64>,
    net: NetP,
    black: Vec<(u64, u64, u8)>,
    handshakes: Vec<(SocketAddr, SocketAddr, Vec<u8>)>,
    raws: Vec<Raw>,
    lost: u64,
    reused: bool,
    clean: bool,
    serial: u16,
}

// A hostile or hand-driven peer without a socket of its own
struct Raw { at: SocketAddr, nonce: u32, server_nonce: Option<u32>, small_only: bool, answer: bool, attack: bool, sent_syn: bool }

fn ecfg(e: &EndpointConfig) -> EndpointConfig { e.clone() }

fn seal(mut b: Vec<u8>) -> Vec<u8> { let c = crate::frame::serial::crc::compute(&b); b.extend_from_slice(&c.to_be_bytes()); b }

impl Sys {
    fn put(&mut self, from: SocketAddr, to: SocketAddr, b: Vec<u8>) {
        let now = self.now;
        let dir = if to == self.srv_at { 0 } else { 1 };
        if self.black.iter().any(|x| now >= x.0 && now < x.1 && (x.2 == 2 || x.2 == dir)) { self.lost += 1; return; }
        if self.r.chance(self.net.loss) { self.lost += 1; return; }
        let n = if self.r.chance(self.net.dup) { 1 + self.r.range(1, 2) } else { 1 };
        for k in 0..n {
            let mut t = now + self.net.lat;
            if self.net.jitter > 0 { t += self.r.range(0, self.net.jitter); }
            if k > 0 || self.r.chance(self.net.reorder) { t += self.r.log(1, 8 * (self.net.lat + self.net.jitter + NS)); }
            else { let l = self.qlast.entry((from, to)).or_insert(0); t = t.max(*l); *l = t; }
            let mut b = b.clone();
            if self.r.chance(self.net.corrupt) { for _ in 0..self.r.range(1, 4) { let i = self.r.below(b.len() * 8); b[i / 8] ^= 1 << (i % 8); } }
            self.qn += 1;
            self.q.insert((t, self.qn), (from, to, b));
        }
    }
    fn inject(&mut self, from: SocketAddr, to: SocketAddr, b: Vec<u8>) { self.qn += 1; let t = self.now + self.r.range(0, 3 * self.net.lat); self.q.insert((t, self.qn), (from, to, b)); }

    // frames due at `to`, in order
    fn take_due(&mut self, to: SocketAddr) -> Vec<(SocketAddr, Vec<u8>)> {
        let mut out = Vec::new();
        let keys: Vec<(u64, u64)> = self.q.iter().take_while(|(k, _)| k.0 <= self.now).filter(|(_, v)| v.1 == to).map(|(k, _)| *k).collect();
        for k in keys { let v = self.q.remove(&k).unwrap(); out.push((v.0, v.2)); }
        out
    }

    fn connect(&mut self, port: Option<u16>, cfg: EndpointConfig) -> usize {
        let serial = self.cls.len();
        vnet::set_next_ip(Ipv4Addr::new(10, 1, 0, 1));
        vnet::set_next_port(port.unwrap_or(2000 + serial as u16));
        vsup::time::set_ns(self.now);
        let obj = client::Client::connect(self.srv_at, client::Config { endpoint_config: ecfg(&cfg) }).unwrap();
        let at = obj.local_address();
        self.serial += 1;
        let id = self.serial;
        let mut c = Cl { serial, obj: Some(obj), at, nonce: 0, g: EndG::new(self.now, id, cfg.active_timeout_ms), cfg, server_nonce: 0, syn: Vec::new(), next_ns: self.now, gap: self.srv_gap, forged: false, forged_disc: false, fatal_ok: false, peer: None, vanish: false };
        c.g.ph = Ph::Pending; c.g.ka = self.ka;
        note(|| format!("{:.3} client {} at {} connects", self.now as f64 / 1e9, serial, at));
        if port.is_some() { c.forged_disc = true; }
        self.cls.push(c);
        self.after_client(serial);
        serial
    }

    // ---------------------------------------------------------------- client side
    fn after_client(&mut self, i: usize) {
        let sent = vnet::take_sent(self.cls[i].at);
        for s in sent {
            check!(s.to == self.srv_at, "C03/C07.sys.addr: a client transmits to a third party");
            let f = Frame::read(&s.data);
            check!(f.is_some(), "C16.sys.emit: an emitted frame is rejected by the parser");
            let f = f.unwrap();
            let now = self.now;
            let c = &mut self.cls[i];
            let ms = c.g.ms(now);
            note(|| format!("{:.3} client {} -> {:?}", now as f64 / 1e9, i, brief(&f)));
            match f {
                Frame::HandshakeSynFrame(ref h) => {
                    let (a, b) = c.g.hs.sent(ms);
                    check!(a && b, "C10.sys.syn: connection requests are not 2 s apart, or more than 11");
                    check!(c.g.ph == Ph::Pending, "C07.sys.syn: a connection request is sent after the handshake");
                    if c.g.hs.n == 1 { c.nonce = h.nonce; c.syn = s.data.clone(); }
                    check!(h.nonce == c.nonce && h.version == PROTOCOL_VERSION && h.max_receive_rate as usize == c.cfg.max_receive_rate.min(u32::MAX as usize) && h.max_packet_size as usize == c.cfg.max_packet_size && h.max_receive_alloc as usize == c.cfg.max_receive_alloc.min(u32::MAX as usize), "C07.sys.syn: the connection request does not carry the client's parameters");
                    check!(s.data.len() == MAX_FRAME_SIZE, "C18.sys.syn: a connection request is not padded to a full frame");
                }
                Frame::DisconnectFrame(_) => {
                    let (a, b) = c.g.disc.sent(ms);
                    check!(a && b, "C10.sys.disc: disconnect requests are not 2 s apart, or more than 11");
                    check!(c.g.disc_call != 0, "C09.sys.disc: a client requests disconnection on its own");
                    if c.g.disc.n == 1 { c.g.first_disc_ns = self.now; c.g.ph = Ph::Closing; c.g.disc_call_step = false; }
                }
                Frame::DataFrame(_) | Frame::AckFrame(_) | Frame::SyncFrame(_) => {
                    check!(c.g.ph == Ph::Active || c.g.was == Ph::Active, "C08.sys.late: a client transmits data on a connection that is not established");
                    let rtt = c.obj.as_ref().unwrap().rtt_s();
                    c.g.out.on_emit(&s.data, &f, self.now, rtt);
                }
                Frame::HandshakeAckFrame(ref h) => {
                    check!(h.nonce_ack == c.server_nonce || c.forged, "C07.sys.ack: the client's ACK does not return the server's nonce");
                }
                _ => (),
            }
            let hs = !matches!(f, Frame::DataFrame(_) | Frame::AckFrame(_) | Frame::SyncFrame(_));
            if hs && self.handshakes.len() < 200 { let a = self.cls[i].at; let t = self.srv_at; self.handshakes.push((a, t, s.data.clone())); }
            let a = self.cls[i].at; let t = self.srv_at;
            self.put(a, t, s.data);
        }
        // frames are transmitted before the step's feedback updates the estimate
        if let Some(r) = self.cls[i].obj.as_ref().and_then(|o| o.rtt_s()) { self.cls[i].g.out.rtt_prev = r; }
    }

    fn step_client(&mut self, i: usize) {
        vsup::time::set_ns(self.now);
        let at = self.cls[i].at;
        let batch = self.take_due(at);
        let mut synack_ok = false; // a SYN-ACK with our nonce
        let mut first_hs: Option<Result<(), client::ErrorType>> = None;
        let mut config_bad = false;
        let was = self.cls[i].g.ph;
        self.cls[i].g.was = was;
        let ms = self.cls[i].g.ms(self.now);
        let mut disc_in = false;
        let mut errs: Vec<frame::HandshakeErrorType> = Vec::new();
        for (from, b) in batch {
            if let Some(f) = Frame::read(&b) {
                note(|| format!("{:.3} client {} <- {:?} from {}", self.now as f64 / 1e9, i, brief(&f), from));
                if from == self.srv_at {
                    let c = &mut self.cls[i];
                    c.g.last_any = ms;
                    match f {
                        Frame::HandshakeSynAckFrame(h) => {
                            if h.nonce_ack == c.nonce {
                                if !synack_ok && was == Ph::Pending { c.server_nonce = h.nonce; config_bad = (h.max_receive_alloc as usize) < c.cfg.max_packet_size;
                                    c.g.out.open(self.now, c.nonce, (c.cfg.max_send_rate.min(u32::MAX as usize) as u64).min(h.max_receive_rate as u64), h.max_receive_alloc as usize);
                                    if first_hs.is_none() { first_hs = Some(if config_bad { Err(client::ErrorType::Config) } else { Ok(()) }); } }
                                synack_ok = true;
                            }
                        }
                        Frame::HandshakeErrorFrame(h) => if h.nonce_ack == c.nonce {
                            let e = match h.error { frame::HandshakeErrorType::Version => client::ErrorType::Version, frame::HandshakeErrorType::Config => client::ErrorType::Config, frame::HandshakeErrorType::ServerFull => client::ErrorType::ServerFull };
                            errs.push(h.error);
                            if first_hs.is_none() { first_hs = Some(Err(e)); }
                        },
                        Frame::DisconnectFrame(_) => { disc_in = true; if c.g.disc.n > 0 { c.g.fin_heard = true; } }
                        Frame::DisconnectAckFrame(_) => { if c.g.disc.n > 0 { c.g.fin_heard = true; } }
                        Frame::AckFrame(a) => { c.g.last_dss = ms; if was == Ph::Active { c.g.out.on_ack(&a); } }
                        Frame::DataFrame(_) | Frame::SyncFrame(_) => { c.g.last_dss = ms; }
                        _ => (),
                    }
                }
            }
            vnet::deliver(at, from, b);
        }
        let disc_due = self.cls[i].g.disc_call_step;
        let evs: Vec<client::Event> = self.cls[i].obj.as_mut().unwrap().step().collect();
        for e in evs {
            note(|| format!("{:.3} client {} reports {}", self.now as f64 / 1e9, i, match e { client::Event::Receive(ref d) => format!("Receive {} bytes", d.len()), ref e => format!("{:?}", e) }));
            let srv_side = self.cls[i].peer;
            let c = &mut self.cls[i];
            check!(!c.g.terminal, "C08.sys.after: a client reports an event after the terminal event");
            match e {
                client::Event::Connect => {
                    check!(c.g.ph == Ph::Pending, "C07/C08.sys.connect: a client reports Connect twice");
                    check!(synack_ok, "C07.sys.connect: a client reports Connect without a SYN-ACK echoing its nonce");
                    c.g.ph = Ph::Active; c.g.last_dss = ms; c.g.last_any = ms;
                    reach!(true, "client connected");
                }
                client::Event::Receive(d) => {
                    check!(c.g.ph == Ph::Active || c.g.ph == Ph::Closing, "C08.sys.receive: a client reports Receive without Connect");
                    if !c.forged {
                        check!(srv_side.is_some(), "C01/C07.sys.receive: a client receives a packet of a connection the server never established");
                        if let Some(s) = srv_side { self.scs[s].g.out.delivered(&d); }
                    }
                    reach!(true, "client received a packet");
                }
                client::Event::Disconnect => {
                    check!(c.g.ph == Ph::Active || c.g.ph == Ph::Closing, "C08.sys.disconnect: a client reports Disconnect without Connect");
                    if c.g.ph == Ph::Active && !c.forged_disc {
                        check!(disc_in, "C08/C09.sys.disconnect: a client reports Disconnect although the server did not disconnect");
                        if c.g.disc_call == 0 && !c.forged { if let Some(s) = srv_side { let sc = &self.scs[s]; if sc.g.disc_call == 1 && !sc.dropped {
                            check!(sc.g.out.pks.iter().all(|p| !p.before_disc || p.mode != SendMode::Reliable || p.delivered), "C09.sys.flush: Disconnect is reported before a Reliable packet submitted before disconnect() is delivered");
                            reach!(true, "server disconnect flushed");
                        } } }
                    }
                    if c.g.ph == Ph::Closing { check!(c.g.fin_heard || c.forged_disc, "C09.sys.disconnect: a closing client reports Disconnect although the server acknowledged nothing"); }
                    c.g.ph = Ph::Done; c.g.terminal = true;
                }
                client::Event::Error(t) => {
                    match t {
                        client::ErrorType::Timeout => {
                            if c.g.ph == Ph::Pending { check!(c.g.hs.exhausted(ms), "C10.sys.hs_early: a handshake attempt times out before 11 requests 2 s apart"); reach!(true, "client handshake timeout"); }
                            else if c.g.disc.n > 0 {
                                check!(c.g.disc.exhausted(ms), "C09/C10.sys.disc_early: a disconnect attempt times out before 11 requests 2 s apart");
                                check!(!c.g.fin_heard, "C09.sys.disc_timeout: a disconnect attempt times out although the server acknowledged it");
                                reach!(true, "client disconnect timeout");
                            } else {
                                check!(c.g.idle(self.now) + 1 >= c.g.timeout_ms, "C10.sys.early: a client times out although a frame was received during the preceding active_timeout_ms");
                                reach!(true, "client active timeout");
                                check!(!c.g.keepalive_guaranteed(), "C10.sys.keepalive: an idle connection with keepalive times out on a loss-free network");
                            }
                        }
                        e => {
                            check!(c.g.ph == Ph::Pending, "C07/C08.sys.error: a handshake error is reported for an established connection");
                            let ok = match e { client::ErrorType::Version => errs.contains(&frame::HandshakeErrorType::Version), client::ErrorType::Config => errs.contains(&frame::HandshakeErrorType::Config) || config_bad, _ => errs.contains(&frame::HandshakeErrorType::ServerFull) };
                            check!(ok, "C07.sys.error: a handshake error is reported that the server did not send for this request");
                            reach!(true, "client handshake refused");
                        }
                    }
                    c.g.ph = Ph::Done; c.g.terminal = true;
                }
            }
        }
        let c = &mut self.cls[i];
        if was == Ph::Pending && !c.forged {
            match first_hs {
                Some(Ok(())) => check!(c.g.ph != Ph::Pending, "C07.sys.no_connect: a client does not connect on a SYN-ACK echoing its nonce"),
                Some(Err(_)) => check!(c.g.ph == Ph::Done, "C07.sys.no_error: a client does not report the refusal of its request"),
                None => (),
            }
        }
        if was == Ph::Pending && c.g.ph == Ph::Pending {
            check!(c.g.hs.n < RETRIES || !c.g.hs.due(ms), "C10.sys.hs_late: a handshake attempt is not given up after its retry budget");
        }
        let due_hs = c.g.ph == Ph::Pending && c.g.hs.n < RETRIES && c.g.hs.due(ms);
        let n_hs = c.g.hs.n;
        let due_dc = c.g.ph == Ph::Closing && c.g.disc.n < RETRIES && c.g.disc.due(ms);
        let n_dc = c.g.disc.n;
        if was == Ph::Closing && c.g.ph == Ph::Closing { check!(c.g.disc.n < RETRIES || !c.g.disc.due(ms), "C09/C10.sys.disc_late: a disconnect attempt is not given up after its retry budget"); }
        if was == Ph::Active && c.g.ph == Ph::Active && c.g.timeout_ms < u64::MAX / 4 {
            check!(ms < c.g.last_any.max(c.g.last_dss) + c.g.timeout_ms + 1, "C10.sys.late: a client does not report the timeout within one step");
        }
        self.after_client(i);
        let c = &mut self.cls[i];
        if due_hs { check!(c.g.hs.n > n_hs, "C10.sys.hs_resend: a connection request is not retransmitted after 2 s"); }
        if due_dc { check!(c.g.disc.n > n_dc, "C09/C10.sys.disc_resend: a disconnect request is not retransmitted after 2 s"); }
        if disc_due && c.g.ph == Ph::Active { check!(false, "C09.sys.now: disconnect_now() is not followed by a disconnect request in the next step"); }
        if c.g.disc.n > 0 && !c.g.terminal && n_dc == 0 { reach!(true, "client closing"); }
        self.cls[i].g.was = self.cls[i].g.ph;
        self.check_client_size(i);
    }

    // C20 without acknowledgement ghost: bounds that hold at every point
    fn check_client_size(&mut self, i: usize) {
        let c = &self.cls[i];
        let o = match c.obj { Some(ref o) => o, None => return };
        let sub: usize = c.g.out.pks.iter().map(|p| p.len).sum();
        let s = o.send_buffer_size();
        if c.g.ph == Ph::Pending { check!(s == sub, "C20.sys.pending: send_buffer_size() of a connecting client is not the size of the packets accepted so far"); }
        check!(s <= sub, "C20.sys.size: send_buffer_size() exceeds the bytes accepted by send()");
        if c.g.ph == Ph::Active && !c.forged {
            let und: usize = c.g.out.pks.iter().filter(|p| p.mode == SendMode::Reliable && !p.delivered).map(|p| p.len).sum();
            check!(s >= und, "C20.sys.size: send_buffer_size() is less than the undelivered Reliable bytes");
        }
    }

    // ---------------------------------------------------------------- server side
    fn after_server(&mut self) {
        let sent = vnet::take_sent(self.srv_at);
        for s in sent {
            let to = s.to;
            let f = Frame::read(&s.data);
            check!(f.is_some(), "C16.sys.emit: an emitted frame is rejected by the parser");
            let f = f.unwrap();
            note(|| format!("{:.3} server -> {} {:?}", self.now as f64 / 1e9, to, brief(&f)));
            let a = self.addrs.entry(to).or_default();
            check!(a.any_in, "C03/C18.sys.addr: the server transmits to an address it never heard of");
            if !a.verified {
                a.bytes_out += s.data.len() as u64;
                check!(a.bytes_out < a.bytes_in, "C18.sys.amp: the server sent an unverified address as many bytes as it received from it");
                check!(!a.only_small, "C18.sys.small: the server answers an undersized connection request");
            }
            let cur = a.cur;
            match f {
                Frame::HandshakeSynAckFrame(ref h) => {
                    let fresh = match cur { Some(k) => self.scs[k].g.ph == Ph::Done || self.scs[k].nonce != h.nonce, None => true };
                    if fresh {
                        if let Some(k) = cur { check!(self.scs[k].g.ph == Ph::Done || self.scs[k].g.ph == Ph::Idle || !self.tracked(&to) || self.scs[k].g.ph == Ph::Pending && self.scs[k].g.hs.exhausted(self.scs[k].g.ms(self.now)), "C07.sys.reset: a handshake frame resets an existing connection"); }
                        let who = self.cls.iter().position(|c| c.at == to && c.nonce == h.nonce_ack && c.g.hs.n > 0);
                        self.serial += 1;
                        let mut g = EndG::new(self.srv_t0, self.serial, self.scfg.active_timeout_ms);
                        g.ph = Ph::Pending; g.ka = self.ka;
                        let k = self.scs.len();
                        let (rate, alloc) = self.last_syn(&to, h.nonce_ack);
                        self.scs.push(Sc { at: to, g, nonce: h.nonce, client: who, rate, alloc, dropped: false, taint: false });
                        self.addrs.get_mut(&to).unwrap().cur = Some(k);
                    }
                    let k = self.addrs[&to].cur.unwrap();
                    let ms = self.scs[k].g.ms(self.now);
                    let (x, y) = self.scs[k].g.hs.sent(ms);
                    check!(x && y, "C10/C18.sys.synack: SYN-ACKs are not 2 s apart, or more than 11");
                    check!(self.scs[k].g.ph == Ph::Pending, "C07.sys.synack: a SYN-ACK is sent for an established connection");
                    check!(h.max_receive_rate as usize == self.scfg.max_receive_rate.min(u32::MAX as usize) && h.max_packet_size as usize == self.scfg.max_packet_size && h.max_receive_alloc as usize == self.scfg.max_receive_alloc.min(u32::MAX as usize), "C07.sys.synack: the SYN-ACK does not carry the server's parameters");
                }
                Frame::DisconnectFrame(_) => {
                    check!(cur.is_some(), "C09.sys.disc: the server requests disconnection of an unknown connection");
                    let c = &mut self.scs[cur.unwrap()];
                    let ms = c.g.ms(self.now);
                    let (x, y) = c.g.disc.sent(ms);
                    check!(x && y, "C10.sys.disc: disconnect requests are not 2 s apart, or more than 11");
                    check!(c.g.disc_call != 0, "C09.sys.disc: the server requests disconnection on its own");
                    if c.g.disc.n == 1 { c.g.first_disc_ns = self.now; c.g.ph = Ph::Closing; c.g.disc_call_step = false; }
                }
                Frame::DataFrame(_) | Frame::AckFrame(_) | Frame::SyncFrame(_) => {
                    check!(cur.is_some() && (self.scs[cur.unwrap()].g.ph == Ph::Active || self.scs[cur.unwrap()].g.was == Ph::Active), "C07/C08/C18.sys.late: the server transmits data to an address without an established connection");
                    let rtt = self.srv.client(&to).and_then(|c| c.borrow().rtt_s());
                    self.scs[cur.unwrap()].g.out.on_emit(&s.data, &f, self.now, rtt);
                }
                _ => (),
            }
            let hs = !matches!(f, Frame::DataFrame(_) | Frame::AckFrame(_) | Frame::SyncFrame(_));
            let sa = self.srv_at;
            if hs && self.handshakes.len() < 200 { self.handshakes.push((sa, to, s.data.clone())); }
            if let Some(k) = self.raws.iter().position(|w| w.at == to) { self.on_raw(k, &f); }
            else { self.put(sa, to, s.data); }
        }
        for a in self.addrs.values() { if let Some(k) = a.cur {
            if let Some(r) = self.srv.client(&self.scs[k].at).and_then(|c| c.borrow().rtt_s()) { self.scs[k].g.out.rtt_prev = r; }
        } }
    }
    fn tracked(&self, a: &SocketAddr) -> bool { self.srv.client(a).is_some() }
    fn last_syn(&self, at: &SocketAddr, nonce: u32) -> (u32, u32) {
        if let Some(c) = self.cls.iter().rev().find(|c| c.at == *at && c.nonce == nonce) { return (c.cfg.max_receive_rate.min(u32::MAX as usize) as u32, c.cfg.max_receive_alloc.min(u32::MAX as usize) as u32); }
        (u32::MAX, u32::MAX)
    }

    fn step_server(&mut self) {
        vsup::time::set_ns(self.now);
        let sa = self.srv_at;
        let batch = self.take_due(sa);
        let now = self.now;
        let mut acks: Vec<(SocketAddr, u32)> = Vec::new();
        let mut syns: Vec<(SocketAddr, frame::HandshakeSynFrame)> = Vec::new();
        let mut others = false;
        let mut discs: Vec<SocketAddr> = Vec::new();
        let tracked_before: Vec<SocketAddr> = self.addrs.keys().filter(|a| self.tracked(a)).copied().collect();
        let est_before = self.established();
        let pend_before = tracked_before.iter().filter(|a| match self.addrs[*a].cur { Some(k) => self.scs[k].g.ph == Ph::Pending, None => false }).count();
        for (from, b) in batch {
            let a = self.addrs.entry(from).or_default();
            a.any_in = true;
            a.bytes_in += b.len() as u64;
            let cur = a.cur;
            if let Some(f) = Frame::read(&b) {
                note(|| format!("{:.3} server <- {:?} from {}", now as f64 / 1e9, brief(&f), from));
                if let Some(k) = cur { let ms = self.scs[k].g.ms(now); let g = &mut self.scs[k].g; g.last_any = ms;
                    match f {
                        Frame::DataFrame(_) | Frame::SyncFrame(_) => g.last_dss = ms,
                        Frame::AckFrame(ref x) => { g.last_dss = ms; if g.ph == Ph::Active { g.out.on_ack(x); } }
                        Frame::DisconnectFrame(_) | Frame::DisconnectAckFrame(_) => if g.disc.n > 0 { g.fin_heard = true; },
                        _ => (),
                    } }
                match f {
                    Frame::HandshakeSynFrame(h) => { if b.len() != MAX_FRAME_SIZE { check!(false, "C18.sys.small: an undersized connection request is parsed"); } syns.push((from, h)); }
                    Frame::HandshakeAckFrame(h) => acks.push((from, h.nonce_ack)),
                    Frame::DisconnectFrame(_) => { discs.push(from); others = true; }
                    Frame::DisconnectAckFrame(_) => others = true,
                    _ => (),
                }
            }
            vnet::deliver(sa, from, b);
        }
        let pre: Vec<(usize, Ph, usize, bool)> = self.scs.iter().enumerate().map(|(k, s)| (k, s.g.ph, s.g.disc.n, s.g.disc_call_step)).filter(|x| x.1 != Ph::Done).collect();
        for s in self.scs.iter_mut() { s.g.was = s.g.ph; }
        let evs: Vec<server::Event> = self.srv.step().collect();
        // what the server answers in this step
        let replies: Vec<(SocketAddr, Vec<u8>)> = vnet::queues(sa).unwrap().sent.borrow().iter().map(|s| (s.to, s.data.clone())).collect();
        let mut hs_err_events: Vec<SocketAddr> = Vec::new();
        let mut sent_first = false;
        for e in evs {
            note(|| format!("{:.3} server reports {}", now as f64 / 1e9, match e { server::Event::Receive(a, ref d) => format!("Receive {} {} bytes", a, d.len()), ref e => format!("{:?}", e) }));
            let at = match e { server::Event::Connect(a) | server::Event::Disconnect(a) | server::Event::Receive(a, _) | server::Event::Error(a, _) => a };
            let cur = self.addrs.get(&at).and_then(|a| a.cur);
            let ph = cur.map_or(Ph::Idle, |k| self.scs[k].g.ph);
            match e {
                server::Event::Connect(_) => {
                    check!(ph != Ph::Active && ph != Ph::Closing, "C07/C08.sys.connect2: Connect is reported for an address whose connection has not ended");
                    check!(ph == Ph::Pending, "C07/C08.sys.connect: Connect is reported for an address that has no handshake in progress");
                    let k = cur.unwrap();
                    check!(acks.iter().any(|x| x.0 == at && x.1 == self.scs[k].nonce), "C07.sys.connect: the server reports Connect for an address that did not return its nonce");
                    let ms = self.scs[k].g.ms(now);
                    let rate = (self.scfg.max_send_rate.min(u32::MAX as usize) as u64).min(self.scs[k].rate as u64);
                    let (nonce, alloc) = (self.scs[k].nonce, self.scs[k].alloc as usize);
                    let sc = &mut self.scs[k];
                    sc.g.ph = Ph::Active; sc.g.last_dss = ms; sc.g.last_any = ms;
                    sc.g.out.open(now, nonce, rate, alloc);
                    if let Some(c) = sc.client { self.cls[c].peer = Some(k); }
                    self.addrs.get_mut(&at).unwrap().verified = true;
                    reach!(true, "server connected");
                }
                server::Event::Receive(_, d) => {
                    check!(ph == Ph::Active || ph == Ph::Closing, "C08.sys.receive: the server reports Receive for an address without Connect, or after its terminal event");
                    if let Some(k) = cur { if let Some(c) = self.scs[k].client { if !self.cls[c].forged { self.cls[c].g.out.delivered(&d); } }
                        else if !self.scs[k].taint { check!(d.len() < usize::MAX, "C01.sys.raw: raw peer"); } }
                    reach!(true, "server received a packet");
                }
                server::Event::Disconnect(_) => {
                    check!(ph == Ph::Active || ph == Ph::Closing, "C08.sys.disconnect: the server reports Disconnect for an address without Connect, or after its terminal event");
                    let k = cur.unwrap();
                    let ms = self.scs[k].g.ms(now); let _ = ms;
                    if ph == Ph::Active {
                        if let Some(c) = self.scs[k].client { let c = &self.cls[c];
                            if !c.forged_disc {
                                check!(discs.contains(&at), "C08/C09.sys.disconnect: the server reports Disconnect although the client did not disconnect");
                                if c.g.disc_call == 1 && self.scs[k].g.disc_call == 0 && !c.forged {
                                    check!(c.g.out.pks.iter().all(|p| !p.before_disc || p.mode != SendMode::Reliable || p.delivered), "C09.sys.flush: Disconnect is reported before a Reliable packet submitted before disconnect() is delivered");
                                    reach!(true, "client disconnect flushed");
                                }
                            } }
                    } else if let Some(c) = self.scs[k].client { if !self.cls[c].forged_disc { check!(self.scs[k].g.fin_heard, "C09.sys.disconnect: a closing connection reports Disconnect although the client acknowledged nothing"); } }
                    self.scs[k].g.ph = Ph::Done; self.scs[k].g.terminal = true;
                }
                server::Event::Error(_, t) => {
                    if t == server::ErrorType::Timeout {
                        check!(ph == Ph::Pending || ph == Ph::Active || ph == Ph::Closing, "C08.sys.timeout: the server reports a timeout for an address without connection, or after its terminal event");
                        let k = cur.unwrap();
                        let ms = self.scs[k].g.ms(now);
                        let g = &self.scs[k].g;
                        if ph == Ph::Pending { check!(self.hs_errors, "C08.sys.hs_errors: handshake errors are reported although not enabled"); check!(g.hs.exhausted(ms), "C10.sys.hs_early: a handshake attempt times out before 11 SYN-ACKs 2 s apart"); reach!(true, "server handshake timeout"); }
                        else if g.disc.n > 0 {
                            check!(g.disc.exhausted(ms), "C09/C10.sys.disc_early: a disconnect attempt times out before 11 requests 2 s apart");
                            check!(!g.fin_heard, "C09.sys.disc_timeout: a disconnect attempt times out although the client acknowledged it");
                            reach!(true, "server disconnect timeout");
                        } else {
                            check!(g.idle(now) + 1 >= g.timeout_ms, "C10.sys.early: the server reports a timeout although a frame was received during the preceding active_timeout_ms");
                            check!(!g.keepalive_guaranteed(), "C10.sys.keepalive: an idle connection with keepalive times out on a loss-free network");
                            reach!(true, "server active timeout");
                        }
                        self.scs[k].g.ph = Ph::Done; self.scs[k].g.terminal = true;
                    } else {
                        check!(self.hs_errors, "C08.sys.hs_errors: handshake errors are reported although not enabled");
                        check!(ph != Ph::Active && ph != Ph::Closing, "C07/C08.sys.error: a handshake error is reported for an address with an established connection");
                        check!(syns.iter().any(|s| s.0 == at), "C07/C08.sys.error: a handshake error is reported for an address that requested nothing");
                        hs_err_events.push(at);
                    }
                }
            }
            if !sent_first { sent_first = true; }
        }
        // handshake liveness: a valid ACK establishes the connection
        for (at, n) in acks.iter() {
            if !tracked_before.contains(at) { continue; }
            if let Some(k) = self.addrs[at].cur { let s = &self.scs[k];
                if s.nonce == *n && pre.iter().any(|p| p.0 == k && p.1 == Ph::Pending) && est_before < self.max_active && !discs.contains(at) { check!(s.g.ph != Ph::Pending, "C07.sys.no_connect: the server does not establish a connection whose nonce was returned"); } }
        }
        self.after_server();
        for s in self.scs.iter_mut() { s.g.was = s.g.ph; }
        // pending connections the server silently gave up
        for k in 0..self.scs.len() {
            if self.scs[k].g.ph == Ph::Pending && !self.tracked(&self.scs[k].at.clone()) {
                let ms = self.scs[k].g.ms(now);
                if !self.scs[k].dropped { check!(self.scs[k].g.hs.exhausted(ms), "C07/C10.sys.hs_early: a handshake attempt is given up before 11 SYN-ACKs 2 s apart"); }
                self.scs[k].g.ph = Ph::Done;
            }
        }
        for &(k, ph, n, due) in pre.iter() {
            let (ms, g, dropped) = (self.scs[k].g.ms(now), &self.scs[k].g, self.scs[k].dropped);
            if dropped { continue; }
            if ph == Ph::Pending && g.ph == Ph::Pending { check!(!g.hs.due(ms), "C10.sys.hs_resend: a SYN-ACK is not retransmitted after 2 s, or the attempt is not given up"); }
            if ph == Ph::Closing && g.ph == Ph::Closing { check!(!g.disc.due(ms), "C09/C10.sys.disc_resend: a disconnect request is not retransmitted after 2 s, or the attempt is not given up"); let _ = n; }
            if ph == Ph::Active && g.ph == Ph::Active && g.timeout_ms < u64::MAX / 4 { check!(ms < g.last_any.max(g.last_dss) + g.timeout_ms + 1, "C10.sys.late: the server does not report the timeout within one step"); }
            if due && g.ph == Ph::Active { check!(false, "C09.sys.now: disconnect_now() is not followed by a disconnect request in the next step"); }
        }
        // the answer to a single connection request
        if syns.len() == 1 && acks.is_empty() && !others {
            let (at, ref h) = syns[0];
            if !tracked_before.contains(&at) {
                let r: Vec<Frame> = replies.iter().filter(|x| x.0 == at).filter_map(|x| Frame::read(&x.1)).collect();
                let bad_version = h.version != PROTOCOL_VERSION;
                let bad_config = (h.max_receive_alloc as usize) < self.scfg.max_packet_size || h.max_packet_size as usize > self.scfg.max_receive_alloc;
                let full = tracked_before.len() >= self.max_total || est_before >= self.max_active;
                let may_full = full || est_before + pend_before >= self.max_active;
                check!(r.len() == 1, "C07/C17.sys.reply: a connection request does not get exactly one answer");
                match r[0] {
                    Frame::HandshakeSynAckFrame(ref x) => {
                        check!(!bad_version && !bad_config, "C07.sys.reply: a request with a wrong version or configuration is accepted");
                        check!(!full, "C17.sys.full: a request beyond the connection limits is accepted");
                        check!(x.nonce_ack == h.nonce, "C07.sys.reply: the SYN-ACK does not echo the client's nonce");
                        check!(self.tracked(&at), "C07.sys.reply: no connection is pending after a SYN-ACK");
                    }
                    Frame::HandshakeErrorFrame(ref x) => {
                        check!(x.nonce_ack == h.nonce, "C07.sys.reply: the error does not echo the client's nonce");
                        let ok = match x.error { frame::HandshakeErrorType::Version => bad_version, frame::HandshakeErrorType::Config => bad_config, frame::HandshakeErrorType::ServerFull => may_full };
                        check!(ok, "C07/C17.sys.reply: a connection request is refused with the wrong error");
                        check!(!self.tracked(&at), "C07/C17.sys.reply: a refused connection is tracked");
                        if self.hs_errors { check!(hs_err_events.contains(&at), "C07.sys.hs_errors: a refused handshake is not reported although enabled"); }
                        reach!(x.error == frame::HandshakeErrorType::ServerFull, "request refused with ServerFull");
                        reach!(x.error == frame::HandshakeErrorType::Config, "request refused with Config");
                        reach!(x.error == frame::HandshakeErrorType::Version, "request refused with Version");
                    }
                    _ => check!(false, "C07.sys.reply: a connection request is answered by another frame"),
                }
            }
        }
        self.limits();
    }
    fn established(&self) -> usize {
        // connections reported by Connect, without terminal event, that the application did not disconnect
        self.scs.iter().filter(|s| s.g.ph == Ph::Active && !s.dropped).count()
    }
    fn limits(&self) {
        let t = self.addrs.keys().filter(|a| self.tracked(a)).count();
        check!(t <= self.max_total, "C17.sys.total: more connections tracked than max_total_connections");
        check!(self.established() <= self.max_active, "C17.sys.active: more established connections than max_active_connections");
        let act = self.addrs.keys().filter(|a| self.srv.client(a).map_or(false, |c| c.borrow().is_active())).count();
        check!(act <= self.max_active, "C17.sys.active: more active connections than max_active_connections");
        vsup::count_max("tracked_max", t as u64);
        vsup::count_max("established_max", act as u64);
    }

    // ---------------------------------------------------------------- raw peers
    fn on_raw(&mut self, k: usize, f: &Frame) {
        if let Frame::HandshakeSynAckFrame(h) = f {
            if h.nonce_ack == self.raws[k].nonce {
                self.raws[k].server_nonce = Some(h.nonce);
                if self.raws[k].answer {
                    let b = Frame::HandshakeAckFrame(frame::HandshakeAckFrame { nonce_ack: h.nonce }).write().to_vec();
                    let (a, t) = (self.raws[k].at, self.srv_at);
                    self.inject(a, t, b);
                }
            }
        }
    }
    fn raw_syn(&mut self, k: usize) {
        let r = &mut self.r;
        let h = frame::HandshakeSynFrame {
            version: if r.chance(150) { r.u32() as u8 } else { PROTOCOL_VERSION }, nonce: self.raws[k].nonce,
            max_receive_rate: if r.chance(300) { r.edge32() } else { 1_000_000 },
            max_packet_size: if r.chance(200) { r.edge32() } else { (self.scfg.max_receive_alloc.min(self.scfg.max_packet_size)) as u32 },
            max_receive_alloc: if r.chance(200) { r.edge32() } else { 1_000_000u32.max(self.scfg.max_packet_size as u32) },
        };
        let mut b = Frame::HandshakeSynFrame(h).write().to_vec();
        if self.raws[k].small_only {
            let n = match self.r.below(4) { 0 => 18, 1 => MAX_FRAME_SIZE - 5, 2 => 1 + self.r.below(MAX_FRAME_SIZE - 5), _ => 18 + self.r.below(40) };
            b.truncate(n);
            b = seal(b);
        }
        self.raws[k].sent_syn = true;
        let at = self.raws[k].at;
        if self.raws[k].small_only { self.addrs.entry(at).or_default().only_small = true; }
        let t = self.srv_at;
        self.inject(at, t, b);
    }
    // An arbitrary well-formed frame with values near the state of a connection
    fn any_frame(&mut self, rx_frame: u32, tx_frame: u32) -> Vec<u8> {
        let r = &mut self.r;
        fn near(r: &mut Rng, b: u32) -> u32 { match r.below(4) { 0 => r.edge32(), 1 => b.wrapping_add(r.below(6) as u32).wrapping_sub(3), _ => b.wrapping_add(r.log(1, 10000) as u32).wrapping_sub(if r.chance(500) { 5000 } else { 0 }) } }
        let f = match r.below(12) {
            0..=4 => {
                let n = r.range(0, 4) as usize;
                let dgs = (0..n).map(|_| {
                    let last = match r.below(4) { 0 => 0, 1 => r.below(4) as u16, 2 => r.edge32() as u16, _ => r.log(1, 65535) as u16 };
                    let id = if last == 0 || r.chance(700) { r.below(last as usize + 1) as u16 } else { r.edge32() as u16 };
                    let len = if id < last && r.chance(800) { MAX_FRAGMENT_SIZE } else { match r.below(3) { 0 => 0, 1 => r.below(40), _ => r.below(MAX_FRAGMENT_SIZE + 1) } };
                    let wl = if r.chance(500) { 0 } else { r.edge32() as u16 };
                    let cl = if r.chance(500) { 0 } else if r.chance(500) { wl.saturating_add(r.below(5) as u16) } else { r.edge32() as u16 };
                    frame::Datagram { sequence_id: near(r, rx_frame & 0xFFFFF) & 0xFFFFF, channel_id: r.below(CHANNEL_COUNT) as u8, window_parent_lead: wl, channel_parent_lead: cl, fragment_id: id, fragment_id_last: last, data: vec![r.u32() as u8; len].into_boxed_slice() }
                }).collect::<Vec<_>>();
                let mut dgs = dgs; let mut tot = 0; dgs.retain(|d| { tot += d.data.len() + 14; tot < MAX_FRAME_SIZE - 10 });
                Frame::DataFrame(frame::DataFrame { sequence_id: near(r, rx_frame), nonce: r.chance(500), datagrams: dgs })
            }
            5..=7 => {
                let n = r.range(0, 5) as usize;
                Frame::AckFrame(frame::AckFrame { frame_window_base_id: near(r, tx_frame), packet_window_base_id: if r.chance(800) { near(r, tx_frame & 0xFFFFF) & 0xFFFFF } else { r.edge32() },
                    frame_acks: (0..n).map(|_| frame::AckGroup { base_id: near(r, tx_frame), bitfield: if r.chance(500) { r.edge32() } else { 1 }, nonce: r.chance(500) }).collect() })
            }
            8 | 9 => Frame::SyncFrame(frame::SyncFrame { next_frame_id: if r.chance(600) { Some(near(r, rx_frame)) } else { None }, next_packet_id: if r.chance(600) { Some(if r.chance(800) { near(r, rx_frame & 0xFFFFF) & 0xFFFFF } else { r.edge32() }) } else { None } }),
            10 => Frame::HandshakeSynAckFrame(frame::HandshakeSynAckFrame { nonce_ack: near(r, tx_frame), nonce: r.u32(), max_receive_rate: r.edge32(), max_packet_size: r.edge32(), max_receive_alloc: r.edge32() }),
            _ => match r.below(4) { 0 => Frame::DisconnectFrame(frame::DisconnectFrame {}), 1 => Frame::DisconnectAckFrame(frame::DisconnectAckFrame {}), 2 => Frame::HandshakeAckFrame(frame::HandshakeAckFrame { nonce_ack: r.u32() }), _ => Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame { nonce_ack: near(r, tx_frame), error: frame::HandshakeErrorType::Config }) },
        };
        let b = f.write().to_vec();
        match self.r.below(10) {
            0 => { let n = self.r.below(40); let mut v: Vec<u8> = (0..n).map(|_| self.r.u32() as u8).collect(); if self.r.chance(500) { v = seal(v); } v }
            1 => { // mutated payload with a valid CRC
                let mut v = b[..b.len() - 4].to_vec();
                for _ in 0..self.r.range(1, 4) { if v.is_empty() { break; } let i = self.r.below(v.len()); match self.r.below(3) { 0 => v[i] = self.r.u32() as u8, 1 => { v.truncate(i.max(1)); } _ => v.push(self.r.u32() as u8) } }
                v.truncate(MAX_FRAME_SIZE - 4);
                seal(v)
            }
            _ => b,
        }
    }

    // ---------------------------------------------------------------- application actions
    fn client_send(&mut self, i: usize) {
        let max = self.cls[i].cfg.max_packet_size;
        if max < 8 { return; }
        let now = self.now;
        let c = &mut self.cls[i];
        if c.obj.is_none() { return; }
        if c.g.ph == Ph::Pending || c.g.ph == Ph::Active {
            let mut r = Rng::new(self.r.u64());
            let (d, ch, m) = c.g.out.submit(&mut r, max);
            note(|| format!("{:.3} client {} send {} {:?} {}", now as f64 / 1e9, i, ch, m, d.len()));
            let before = c.obj.as_ref().unwrap().send_buffer_size();
            c.obj.as_mut().unwrap().send(d.clone().into_boxed_slice(), ch, m);
            check!(c.obj.as_ref().unwrap().send_buffer_size() == before + d.len(), "C20.sys.accept: send_buffer_size() does not grow by the packet accepted by send()");
        } else { let d = payload(0xDEAD, 8); c.obj.as_mut().unwrap().send(d.into_boxed_slice(), 0, SendMode::Reliable); }
    }
    fn server_send(&mut self, k: usize) {
        let max = self.scfg.max_packet_size;
        if max < 8 || self.scs[k].dropped { return; }
        let at = self.scs[k].at;
        if self.addrs[&at].cur != Some(k) { return; }
        let rc = match self.srv.client(&at) { Some(c) => std::rc::Rc::clone(c), None => return };
        if self.scs[k].g.ph == Ph::Active {
            let mut r = Rng::new(self.r.u64());
            let (d, ch, m) = self.scs[k].g.out.submit(&mut r, max);
            note(|| format!("{:.3} server send to {} {} {:?} {}", self.now as f64 / 1e9, at, ch, m, d.len()));
            let before = rc.borrow().send_buffer_size();
            rc.borrow_mut().send(d.clone().into_boxed_slice(), ch, m);
            check!(rc.borrow().send_buffer_size() == before + d.len(), "C20.sys.accept: send_buffer_size() does not grow by the packet accepted by send()");
        } else { rc.borrow_mut().send(payload(0xDEAD, 8).into_boxed_slice(), 0, SendMode::Reliable); }
    }
    fn client_disconnect(&mut self, i: usize, now: bool) {
        let c = &mut self.cls[i];
        if c.obj.is_none() { return; }
        note(|| format!("client {} disconnect{}", i, if now { "_now" } else { "" }));
        match c.g.ph {
            Ph::Pending => { if now { c.obj.as_mut().unwrap().disconnect_now() } else { c.obj.as_mut().unwrap().disconnect() }; c.g.ph = Ph::Done; c.g.terminal = true; }
            Ph::Active => {
                if now { c.obj.as_mut().unwrap().disconnect_now() } else { c.obj.as_mut().unwrap().disconnect() };
                // the latest call decides
                c.g.disc_call = if now || c.g.disc_call == 2 { 2 } else { 1 };
                if now { c.g.disc_call_step = true; } else { c.g.disc_call_step = false; for p in c.g.out.pks.iter_mut() { p.before_disc = true; } }
            }
            _ => { if now { c.obj.as_mut().unwrap().disconnect_now() } else { c.obj.as_mut().unwrap().disconnect() } }
        }
    }
    fn server_disconnect(&mut self, k: usize, now: bool) {
        let at = self.scs[k].at;
        if self.addrs[&at].cur != Some(k) || self.scs[k].dropped { return; }
        let rc = match self.srv.client(&at) { Some(c) => std::rc::Rc::clone(c), None => return };
        note(|| format!("server disconnect{} {}", if now { "_now" } else { "" }, at));
        if now { rc.borrow_mut().disconnect_now() } else { rc.borrow_mut().disconnect() }
        let g = &mut self.scs[k].g;
        if g.ph == Ph::Active {
            g.disc_call = if now || g.disc_call == 2 { 2 } else { 1 };
            if now { g.disc_call_step = true; } else { g.disc_call_step = false; for p in g.out.pks.iter_mut() { p.before_disc = true; } }
        }
    }
    fn server_drop(&mut self, k: usize) {
        let at = self.scs[k].at;
        if self.addrs[&at].cur != Some(k) { return; }
        note(|| format!("server drop {}", at));
        self.srv.drop(&at);
        check!(!self.tracked(&at), "C17.sys.drop: a dropped connection is still tracked");
        let s = &mut self.scs[k];
        s.dropped = true; s.g.ph = Ph::Done; s.g.terminal = true;
    }

    // advance to the next step of any endpoint; returns false when `until` is reached
    fn advance(&mut self, until: u64) -> bool {
        let mut who = None; let mut t = self.srv_next;
        for (i, c) in self.cls.iter().enumerate() { if c.obj.is_some() && c.next_ns < t { t = c.next_ns; who = Some(i); } }
        if t > until { self.now = until; return false; }
        self.now = self.now.max(t);
        match who {
            None => { self.step_server(); let g = self.gap(self.srv_gap); self.srv_next = self.now + g; }
            Some(i) => { self.step_client(i); let g = self.gap(self.cls[i].gap); self.cls[i].next_ns = self.now + g; }
        }
        true
    }
    fn gap(&mut self, g: u64) -> u64 { if self.r.chance(20) { self.r.range(g, 10 * g).min(6 * S) } else { self.r.range(g / 2, g) }.max(1) }
}
impl EndG { fn keepalive_guaranteed(&self) -> bool { self.ka } }

fn brief(f: &Frame) -> String {
    match f { Frame::DataFrame(d) => format!("Data {:08x} {:?}", d.sequence_id, d.datagrams.iter().map(|g| (g.sequence_id, g.fragment_id, g.fragment_id_last, g.data.len())).collect::<Vec<_>>()), f => format!("{:?}", f) }
}

fn gen_cfg(r: &mut Rng, fam: Family, lat: u64) -> EndpointConfig {
    let max_packet = r.pick(&[60usize, 1448, 3000, 5000, 40000]);
    let rate = |r: &mut Rng| -> usize { match r.below(8) { 0 => usize::MAX, 1 => u32::MAX as usize, 2 => 1472, 3 => 2_000_000, _ => r.log(1472, 5_000_000) as usize } };
    let timeout = match fam { Family::Idle => r.log(2500, 60_000), Family::Hostile => r.log(5_000, 30_000), _ => r.log(8_000, 30_000) };
    EndpointConfig {
        max_send_rate: rate(r), max_receive_rate: rate(r), max_packet_size: max_packet,
        max_receive_alloc: if r.chance(300) { 40_000 } else { r.log(40_000, 1_000_000) as usize },
        keepalive: r.chance(if fam == Family::Idle { 800 } else { 600 }), keepalive_interval_ms: r.log(100, timeout.max(200)), active_timeout_ms: timeout.max(lat / NS * 4),
    }
}

fn run_case(fam: Family) {
    let seed = vsup::any_seed();
    let b0 = vsup::alloc::live_blocks();
    let l0 = vsup::alloc::live_bytes();
    vsup::alloc::take_bad();
    let (b1, l1) = { run_inner(fam, seed); vnet::reset(); (vsup::alloc::live_blocks(), vsup::alloc::live_bytes()) };
    vsup::sim_rand(None);
    vsup::clear_forced();
    let bad = vsup::alloc::take_bad();
    if let Some(b) = bad { note(|| format!("block obtained with size {} align {}, released with size {} align {}", b.0, b.1, b.2, b.3)); }
    check!(bad.is_none(), "C19.sys.layout: a heap block is released twice, or with another size or alignment than it was obtained with");
    note(|| format!("blocks {} -> {}, bytes {} -> {}", b0, b1, l0, l1));
    check!(b0 == b1 && l0 == l1, "C19.sys.leak: dropping the endpoints does not return all memory");
}

fn run_inner(fam: Family, seed: u64) {
    use Family::*;
    let mut r = Rng::new(seed);
    vsup::sim_rand(Some(r.u64()));
    vnet::reset();
    let t0 = r.range(0, 10 * S);
    vsup::time::set_ns(t0);
    let lat = r.log(NS / 10, if fam == Idle { 300 } else { 400 } * NS);
    let clean = match fam { Idle => r.chance(600), Disc => r.chance(300), Plain => r.chance(300), Hostile => r.chance(300), Heap => true, Hs => r.chance(300) };
    let net = if clean { NetP { lat, jitter: 0, reorder: 0, loss: 0, dup: 0, corrupt: 0 } } else {
        NetP { lat, jitter: if r.chance(300) { r.log(1, 2 * lat) } else { 0 }, reorder: r.pick(&[0, 0, 50, 300]), loss: r.pick(&[0, 20, 100, 300]), dup: r.pick(&[0, 0, 50, 300]), corrupt: r.pick(&[0, 0, 0, 50]) } };
    let mut scfg = gen_cfg(&mut r, fam, lat);
    let srv_gap = r.log(2 * NS, 300 * NS);
    if fam == Idle { scfg.active_timeout_ms = scfg.active_timeout_ms.max(6 * srv_gap / NS); }
    let max_active = if fam == Hs { r.range(1, 4) as usize } else { r.range(4, 8) as usize };
    let max_total = if fam == Hs { r.range(1, 6) as usize } else { 16 };
    let hs_errors = r.chance(500);
    vnet::set_next_ip(Ipv4Addr::new(10, 0, 0, 1));
    vnet::set_next_port(1000);
    let srv = server::Server::bind((Ipv4Addr::UNSPECIFIED, 0), server::Config { max_total_connections: max_total, max_active_connections: max_active, enable_handshake_errors: hs_errors, endpoint_config: ecfg(&scfg) }).unwrap();
    let srv_at = srv.address();
    let mut y = Sys {
        now: t0, srv, srv_at, srv_t0: t0, ka: false, scfg: scfg.clone(), max_total, max_active, hs_errors, srv_next: t0 + r.range(0, srv_gap), srv_gap,
        cls: Vec::new(), scs: Vec::new(), addrs: BTreeMap::new(), q: BTreeMap::new(), qn: 0, qlast: BTreeMap::new(), net, black: Vec::new(),
        handshakes: Vec::new(), raws: Vec::new(), lost: 0, reused: false, clean, serial: 0, r: r.clone(),
    };
    r.u64(); r.u64();
    let dur = match fam { Idle => r.log(10 * S, 400 * S), Heap => r.log(S, 20 * S), _ => r.log(2 * S, 70 * S) };
    let t_end = t0 + dur;
    if !clean && r.chance(if fam == Idle || fam == Disc { 700 } else { 300 }) {
        for _ in 0..r.range(1, 3) { let a = t0 + r.range(0, dur); let l = r.log(100 * NS, 50 * S); let w = r.below(3) as u8; y.black.push((a, a + l, w)); }
    }
    let ncl = match fam { Hs => r.range(2, 10), Plain | Hostile => r.range(1, 4), Heap => r.range(1, 2), Idle => r.range(1, 2), Disc => r.range(1, 4) } as usize;
    let nraw = match fam { Hs => r.range(0, 6), Hostile => r.range(1, 3), _ => 0 } as usize;
    for k in 0..nraw {
        let at = addr(9, (k % 3) as u8, 3000 + k as u16);
        y.raws.push(Raw { at, nonce: r.u32(), server_nonce: None, small_only: fam == Hs && r.chance(300), answer: fam == Hostile || r.chance(400), attack: fam == Hostile, sent_syn: false });
    }
    let mk_client = |y: &mut Sys, r: &mut Rng| -> usize {
        let mut c = gen_cfg(r, fam, lat);
        if fam == Hs && r.chance(250) { c.max_receive_alloc = r.log(10, 40_000) as usize; c.max_packet_size = r.log(1, 1_000_000) as usize; }
        else { c.max_receive_alloc = c.max_receive_alloc.max(y.scfg.max_packet_size); c.max_packet_size = c.max_packet_size.min(y.scfg.max_receive_alloc); }
        let gap = r.log(2 * NS, 300 * NS);
        if fam == Idle { c.active_timeout_ms = c.active_timeout_ms.max(6 * gap / NS);
            // a history in which no connection may time out: both ends send keepalives often enough
            // the latency and the step intervals of both ends (a step interval never exceeds 6 s)
            let slack = (2 * lat / NS) + 4 * (10 * gap.max(y.srv_gap) / NS).min(6000) + 700 + 2200;
            if clean && y.ka { c.keepalive = true; c.keepalive_interval_ms = c.keepalive_interval_ms.min(y.scfg.active_timeout_ms - slack.min(y.scfg.active_timeout_ms - 100)); c.active_timeout_ms = c.active_timeout_ms.max(c.keepalive_interval_ms.max(y.scfg.keepalive_interval_ms) + slack); }
        }
        let port = if !y.cls.is_empty() && r.chance(150) { let k = r.below(y.cls.len()); if !y.cls.iter().any(|c| c.at == y.cls[k].at && c.obj.is_some()) { y.reused = true; Some(y.cls[k].at.port()) } else { None } } else { None };
        let i = y.connect(port, c);
        y.cls[i].gap = gap;
        y.cls[i].next_ns = y.now + r.range(0, gap);
        i
    };
    if fam == Idle && clean && r.chance(700) {
        y.ka = true;
        let mut e = y.scfg.clone();
        e.keepalive = true;
        let slack = (2 * lat / NS) + 4 * (10 * 300u64).min(6000) + 700 + 2200;
        e.active_timeout_ms = e.active_timeout_ms.max(e.keepalive_interval_ms + slack);
        vnet::reset(); vnet::set_next_ip(Ipv4Addr::new(10, 0, 0, 1)); vnet::set_next_port(1000);
        y.srv = server::Server::bind((Ipv4Addr::UNSPECIFIED, 0), server::Config { max_total_connections: max_total, max_active_connections: max_active, enable_handshake_errors: hs_errors, endpoint_config: e.clone() }).unwrap();
        y.scfg = e;
    }
    FORGED_ACKS.with(|f| f.set(fam == Hostile));
    note(|| format!("family {:?} clean {} net lat {} loss {} dup {} reorder {} corrupt {} server {:?} gap {} total {} active {} black {:?}", fam, clean, lat, y.net.loss, y.net.dup, y.net.reorder, y.net.corrupt, y.scfg, y.srv_gap, max_total, max_active, y.black));
    mk_client(&mut y, &mut r);

    let send_p = match fam { Plain => 300, Idle => 10, Disc => 250, Hs => 60, Hostile => 150, Heap => 300 };
    let disc_p = match fam { Disc => 25, Hs => 15, Plain => 4, Hostile => 2, Heap => 5, Idle => 0 };
    let mut budget_bytes = 300_000i64;
    let mut steps = 0;
    while steps < 3000 && y.advance(t_end) {
        steps += 1;
        if y.cls.len() < ncl && r.chance(if fam == Hs { 60 } else { 20 }) { mk_client(&mut y, &mut r); }
        if r.chance(send_p) {
            for _ in 0..r.range(1, 4) {
                if budget_bytes < 0 { break; }
                if r.chance(500) { let i = r.below(y.cls.len()); if (y.cls[i].g.out.ceiling as i64) * 10 > y.cls[i].g.out.pks.iter().map(|p| p.len as i64).sum::<i64>() || y.cls[i].g.ph == Ph::Pending && y.cls[i].g.out.pks.len() < 5 { y.client_send(i); budget_bytes -= y.cls[i].g.out.pks.last().map_or(0, |p| p.len as i64); } }
                else if !y.scs.is_empty() { let k = r.below(y.scs.len()); if (y.scs[k].g.out.ceiling as i64) * 10 > y.scs[k].g.out.pks.iter().map(|p| p.len as i64).sum::<i64>() { y.server_send(k); budget_bytes -= y.scs[k].g.out.pks.last().map_or(0, |p| p.len as i64); } }
            }
        }
        if r.chance(disc_p) { let i = r.below(y.cls.len()); let n = r.chance(400); y.client_disconnect(i, n); if r.chance(100) { let n = r.chance(500); y.client_disconnect(i, n); } }
        if r.chance(disc_p) && !y.scs.is_empty() { let k = r.below(y.scs.len()); let n = r.chance(400); y.server_disconnect(k, n); if r.chance(100) { let n = r.chance(500); y.server_disconnect(k, n); } }
        if (fam == Disc || fam == Hs || fam == Heap) && r.chance(4) && !y.scs.is_empty() { let k = r.below(y.scs.len()); y.server_drop(k); }
        if (fam == Disc || fam == Hs || fam == Heap) && r.chance(5) { let i = r.below(y.cls.len()); if y.cls[i].obj.is_some() { note(|| format!("client {} vanishes", i)); y.cls[i].obj = None; if y.cls[i].g.ph != Ph::Done { y.cls[i].vanish = true; } y.cls[i].g.ph = Ph::Done; } }
        if r.chance(5) { let i = r.below(y.cls.len()); if y.cls[i].g.terminal && r.chance(500) { y.cls[i].obj = None; } }
        if r.chance(60) {
            vsup::time::set_ns(y.now);
            if r.chance(500) { y.srv.flush(); y.after_server(); }
            else { let i = r.below(y.cls.len()); if let Some(c) = y.cls[i].obj.as_mut() { c.flush(); y.after_client(i); } }
        }
        // stale, duplicated and forged handshake frames
        if (fam == Hs || fam == Disc && r.chance(200)) && r.chance(60) && !y.handshakes.is_empty() {
            let k = r.below(y.handshakes.len()); let (f, t, b) = y.handshakes[k].clone();
            let disc = b[0] == 4 || b[0] == 5;
            if !disc || r.chance(100) {
                if disc { for c in y.cls.iter_mut() { if c.at == f || c.at == t { c.forged_disc = true; } } }
                note(|| format!("{:.3} replay of a handshake frame {} -> {}", y.now as f64 / 1e9, f, t));
                y.inject(f, t, b);
            }
        }
        if fam == Hs && r.chance(30) {
            // forged, without knowledge of any nonce
            let i = r.below(y.cls.len()); let (a, s) = (y.cls[i].at, y.srv_at);
            let (f, to_server) = match r.below(4) {
                0 => (Frame::HandshakeAckFrame(frame::HandshakeAckFrame { nonce_ack: r.u32() }), true),
                1 => (Frame::HandshakeSynAckFrame(frame::HandshakeSynAckFrame { nonce_ack: r.u32(), nonce: r.u32(), max_receive_rate: r.edge32(), max_packet_size: r.edge32(), max_receive_alloc: r.edge32() }), false),
                2 => (Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame { nonce_ack: r.u32(), error: frame::HandshakeErrorType::ServerFull }), false),
                _ => (Frame::HandshakeSynFrame(frame::HandshakeSynFrame { version: if r.chance(500) { PROTOCOL_VERSION } else { 2 }, nonce: r.u32(), max_receive_rate: 1_000_000, max_packet_size: 1, max_receive_alloc: 10_000_000 }), true),
            };
            let connected = y.cls[i].g.ph == Ph::Active;
            if !matches!(f, Frame::HandshakeSynFrame(_)) || connected {
                let b = f.write().to_vec();
                if to_server { y.inject(a, s, b); } else { y.inject(s, a, b); }
            }
        }
        if !y.raws.is_empty() && r.chance(if fam == Hostile { 250 } else { 60 }) {
            let k = r.below(y.raws.len());
            let est = y.addrs.get(&y.raws[k].at).map_or(false, |a| a.verified) && y.raws[k].server_nonce.is_some();
            if !est || r.chance(10) {
                if !y.raws[k].sent_syn || r.chance(100) { if r.chance(100) { y.raws[k].nonce = r.u32(); } y.raw_syn(k); }
                else if fam == Hs && r.chance(300) { let b = match r.below(3) { 0 => Frame::DisconnectFrame(frame::DisconnectFrame {}), 1 => Frame::SyncFrame(frame::SyncFrame { next_frame_id: Some(1), next_packet_id: None }), _ => Frame::HandshakeAckFrame(frame::HandshakeAckFrame { nonce_ack: r.u32() }) }.write().to_vec(); if !y.raws[k].small_only { let (a, t) = (y.raws[k].at, y.srv_at); y.inject(a, t, b); } }
            }
            if y.raws[k].attack && est {
                let (rx, tx) = (y.raws[k].nonce, y.raws[k].server_nonce.unwrap());
                for _ in 0..r.range(1, 5) { let b = y.any_frame(rx, tx); let (a, t) = (y.raws[k].at, y.srv_at); y.inject(a, t, b); }
                reach!(true, "arbitrary frames from a connected peer");
            }
        }
        if fam == Hostile && r.chance(100) {
            // arbitrary frames in the name of the server, to one designated client; arbitrary bytes to the server
            if y.cls.len() > 1 || r.chance(300) {
                let i = 0; let (rx, tx) = (y.cls[i].server_nonce, y.cls[i].nonce);
                y.cls[i].forged = true; y.cls[i].forged_disc = true; y.cls[i].g.out.track = false;
                if let Some(p) = y.cls[i].peer { y.scs[p].taint = true; y.scs[p].g.out.track = false; }
                let b = y.any_frame(rx, tx); let (a, t) = (y.srv_at, y.cls[i].at); y.inject(a, t, b);
                reach!(true, "arbitrary frames to a client");
            }
            let n = r.below(60); let v: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect(); let v = if r.chance(500) { seal(v) } else { v };
            let (a, t) = (addr(8, 0, 77), y.srv_at); y.inject(a, t, v);
        }
    }
    for c in y.cls.iter() { if c.forged { if let Some(p) = c.peer { y.scs[p].taint = true; } } }

    // ---- fair phase
    y.net.loss = 0; y.net.dup = 0; y.net.corrupt = 0; y.net.reorder = 0; y.net.jitter = 0; y.black.clear();
    for w in y.raws.iter_mut() { w.attack = false; w.answer = false; }
    let fair0 = y.now;
    let mut slow: Option<(u64, Vec<u64>)> = None;
    note(|| format!("{:.3} fair phase", y.now as f64 / 1e9));
    loop {
        let mut busy = 0;
        for i in 0..y.cls.len() {
            let c = &y.cls[i];
            if c.obj.is_none() || c.forged || c.g.ph != Ph::Active || c.g.disc_call != 0 { continue; }
            let p = match c.peer { Some(p) => p, None => { if y.now - fair0 < 60 * S { busy += 1; } continue } };
            if y.scs[p].g.ph != Ph::Active || y.scs[p].g.disc_call != 0 || y.scs[p].dropped { continue; }
            let srv_size = y.srv.client(&c.at).map_or(0, |x| x.borrow().send_buffer_size());
            if !c.g.out.reliable_done() || !y.scs[p].g.out.reliable_done() || c.obj.as_ref().unwrap().send_buffer_size() != 0 || srv_size != 0 { busy += 1; }
        }
        if busy == 0 { break; }
        if y.now - fair0 > 30_000 * S {
            note(|| format!("{:.3} still busy: {}", y.now as f64 / 1e9, busy));
            check!(false, "C02/C03/C11/C20.sys.drain: a connection does not deliver its packets or report an empty send buffer although the network delivers every frame");
            break;
        }
        let until = y.now + S;
        while y.advance(until) {}
        if slow.is_none() && y.now - fair0 > 200 * S { slow = Some((y.srv_gap, y.cls.iter().map(|c| c.gap).collect::<Vec<_>>())); y.srv_gap = y.srv_gap.max(100 * NS); for c in y.cls.iter_mut() { c.gap = c.gap.max(100 * NS); } }
    }
    if let Some((g, gs)) = slow { y.srv_gap = g; for (c, g) in y.cls.iter_mut().zip(gs) { c.gap = g; } }
    let t = y.now - fair0;
    vsup::count_max("drain_virtual_s_max", t / S);
    vsup::count("drain_over_100s", (t > 100 * S) as u64);
    vsup::count("drain_over_1000s", (t > 1000 * S) as u64);
    // ---- disconnect everything
    let mut both: Vec<bool> = Vec::new();
    for i in 0..y.cls.len() {
        let w = r.below(4);
        let w = if y.cls[i].forged { 2 } else { w };
        if w != 1 { let n = r.chance(300) || y.cls[i].forged; y.client_disconnect(i, n); if y.cls[i].g.ph == Ph::Active && y.cls[i].g.disc_call == 0 { check!(false, "C09.sys.call: disconnect() has no effect"); } }
        both.push(w == 2);
        if w == 1 || w == 2 { if let Some(p) = y.cls[i].peer { let n = r.chance(300) || y.cls[i].forged; y.server_disconnect(p, n); } if y.cls[i].g.ph == Ph::Pending { y.client_disconnect(i, true); } }
    }
    let d0 = y.now;
    let worst = y.cls.iter().map(|c| c.g.timeout_ms).max().unwrap_or(0).max(y.scfg.active_timeout_ms) * NS + 40 * S;
    loop {
        let mut open = 0;
        for c in y.cls.iter() { if c.obj.is_some() && (c.g.ph == Ph::Active || c.g.ph == Ph::Closing) { open += 1; } }
        for s in y.scs.iter() { if !s.dropped && s.client.map_or(false, |c| !y.cls[c].vanish) && (s.g.ph == Ph::Active || s.g.ph == Ph::Closing) { open += 1; } }
        if open == 0 { break; }
        if y.now - d0 > worst + 30_000 * S { check!(false, "C08/C09.sys.terminal: an endpoint reaches no terminal event after disconnect"); break; }
        for c in y.cls.iter() { if c.obj.is_some() && c.g.disc.n > 0 && !c.g.terminal { check!(y.now - c.g.first_disc_ns <= 22 * S + 14 * 6 * S, "C09.sys.budget: no terminal event within the retry budget after the first disconnect request"); } }
        for s in y.scs.iter() { if !s.dropped && s.g.disc.n > 0 && !s.g.terminal { check!(y.now - s.g.first_disc_ns <= 22 * S + 14 * 6 * S, "C09.sys.budget: no terminal event within the retry budget after the first disconnect request"); } }
        if y.now - d0 > 300 * S { y.srv_gap = y.srv_gap.max(100 * NS); for c in y.cls.iter_mut() { c.gap = c.gap.max(100 * NS); } }
        let until = y.now + 200 * NS;
        while y.advance(until) {}
    }
    // ---- silence: capacity must become available again
    for c in y.cls.iter_mut() { c.obj = None; c.g.ph = Ph::Done; }
    y.q.clear();
    y.srv_gap = 400 * NS;
    let until = y.now + 60 * S + y.scfg.active_timeout_ms * NS + 400 * S * 0;
    while y.advance(until) {}
    let left = y.addrs.keys().filter(|a| y.tracked(a)).count();
    check!(left == 0, "C17.sys.capacity: ended connections are still tracked after the peers fell silent");
    for s in y.scs.iter() { check!(s.dropped || s.g.ph == Ph::Done, "C08/C10.sys.silent: a connection to a silent peer is not reported as ended"); }
    // ---- a fresh client is served
    if fam != Idle {
        y.srv_gap = 20 * NS; y.srv_next = y.now;
        let mut c = gen_cfg(&mut r, Family::Plain, lat);
        c.max_receive_alloc = c.max_receive_alloc.max(y.scfg.max_packet_size); c.max_packet_size = c.max_packet_size.min(y.scfg.max_receive_alloc).max(8);
        c.active_timeout_ms = c.active_timeout_ms.max(10_000);
        y.ka = false;
        let i = y.connect(None, c);
        y.cls[i].gap = 20 * NS;
        let until = y.now + 12 * S;
        while y.advance(until) { if y.cls[i].g.ph != Ph::Pending && y.cls[i].peer.is_some() { break; } }
        check!(y.cls[i].g.ph == Ph::Active && y.cls[i].peer.is_some(), "C03/C07/C17.sys.fresh: a fresh client cannot connect afterwards");
        let p = y.cls[i].peer.unwrap();
        for _ in 0..3 { y.client_send(i); y.server_send(p); }
        let fresh_t = y.now;
        let until = y.now + 30_000 * S;
        while y.advance(until) {
            if y.now - fresh_t > 100 * S { y.cls[i].gap = 100 * NS; y.srv_gap = 100 * NS; }
            if y.cls[i].g.out.reliable_done() && y.scs[p].g.out.reliable_done() && y.cls[i].obj.as_ref().unwrap().send_buffer_size() == 0 { break; }
            if y.cls[i].g.ph != Ph::Active || y.scs[p].g.ph != Ph::Active { break; }
        }
        vsup::count_max("fresh_echo_virtual_s_max", (y.now - fresh_t) / S);
        vsup::count("fresh_echo_over_100s", (y.now - fresh_t > 100 * S) as u64);
        vsup::count("fresh_echo_over_1000s", (y.now - fresh_t > 1000 * S) as u64);
        check!(y.cls[i].g.out.reliable_done() && y.scs[p].g.out.reliable_done() || y.cls[i].g.ph != Ph::Active || y.scs[p].g.ph != Ph::Active, "C02/C03.sys.fresh_echo: a fresh client is not served afterwards");
        if y.cls[i].g.ph == Ph::Active { let n = r.chance(500); y.client_disconnect(i, n); }
        let until = y.now + 120 * S;
        while y.advance(until) { if y.cls[i].g.terminal && y.scs[p].g.terminal { break; } }
        check!(y.cls[i].g.terminal && y.scs[p].g.terminal, "C08/C09.sys.fresh_terminal: no terminal event after disconnect");
    }
    reach!(y.lost > 0, "datagram lost");
    vsup::count("connections", y.scs.iter().filter(|s| s.g.ph == Ph::Done && s.g.last_any > 0).count() as u64);
    vsup::count("packets_delivered", (y.cls.iter().map(|c| c.g.out.pks.iter().filter(|p| p.delivered).count()).sum::<usize>() + y.scs.iter().map(|c| c.g.out.pks.iter().filter(|p| p.delivered).count()).sum::<usize>()) as u64);
}
