//@ take src/client/mod.rs static HANDSHAKE_RESEND_INTERVAL_MS
//@ end
//@ take src/client/mod.rs static HANDSHAKE_RESEND_COUNT
//@ end
//@ take src/client/mod.rs static DISCONNECT_RESEND_INTERVAL_MS
//@ end
//@ take src/client/mod.rs static DISCONNECT_RESEND_COUNT
//@ end
//@ take src/client/mod.rs static CLOSED_TIMEOUT_MS
//@ end
//@ take src/client/mod.rs struct Config
//@ end
//@ take src/client/mod.rs enum ErrorType
//@ end
//@ take src/client/mod.rs enum Event
//@ end
//@ take src/client/mod.rs struct SendEntry
//@ end
//@ take src/client/mod.rs enum DisconnectMode
//@ end
//@ take src/client/mod.rs struct PendingState
//@ end
//@ take src/client/mod.rs struct ActiveState
//@ end
//@ take src/client/mod.rs struct ClosingState
//@ end
//@ take src/client/mod.rs struct ClosedState
//@ end
//@ take src/client/mod.rs enum State
//@ end
// `past`: the events the application has taken; `heard`: when the last frame of the connection arrived; `reqs`: when the
// current request (handshake or disconnect) was transmitted
//@ take src/client/mod.rs struct Client
//@ sub /events_out: Vec<Event>,/events_out: Vec<Event>,\n past: Ghost<Seq<Event>>,\n heard: Ghost<u64>,\n reqs: Ghost<Seq<u64>>,/!
//@ end
pub mod stream { use super::*;
// ---- the event stream of a connection
pub enum Ph { Idle, Open, Ended }
pub open spec fn next(p: Option<Ph>, e: Event) -> Option<Ph> {
    match (p, e) {
        (Some(Ph::Idle), Event::Connect) => Some(Ph::Open),
        (Some(Ph::Idle), Event::Error(_)) => Some(Ph::Ended),
        (Some(Ph::Open), Event::Receive(_)) => Some(Ph::Open),
        (Some(Ph::Open), Event::Disconnect) => Some(Ph::Ended),
        (Some(Ph::Open), Event::Error(_)) => Some(Ph::Ended),
        _ => None,
    }
}
pub open spec fn run(h: Seq<Event>) -> Option<Ph> decreases h.len() { if h.len() == 0 { Some(Ph::Idle) } else { next(run(h.drop_last()), h.last()) } }
pub broadcast proof fn pushed(past: Seq<Event>, ev: Seq<Event>, e: Event) ensures #[trigger] run(past + ev.push(e)) == next(run(past + ev), e)
{ assert((past + ev.push(e)).drop_last() =~= past + ev); assert((past + ev.push(e)).last() == e); }
pub open spec fn all_receive(t: Seq<Event>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Receive }
pub proof fn received(h: Seq<Event>, t: Seq<Event>)
    requires run(h) == Some(Ph::Open), all_receive(t),
    ensures run(h + t) == Some(Ph::Open),
    decreases t.len()
{ if t.len() == 0 { assert(h + t =~= h); } else { let u = t.drop_last(); assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] is Receive by { assert(t[i] is Receive); } received(h, u); assert(h + t =~= (h + u).push(t.last())); assert((h + u).push(t.last()).drop_last() =~= h + u); assert(t[t.len() - 1] is Receive); } }
pub broadcast proof fn received_more(past: Seq<Event>, ev: Seq<Event>, t: Seq<Event>)
    requires run(past + ev) == Some(Ph::Open), #[trigger] all_receive(t),
    ensures #[trigger] run(past + (ev + t)) == Some(Ph::Open),
{ received(past + ev, t); assert(past + (ev + t) =~= (past + ev) + t); }
pub open spec fn terminal(e: Event) -> bool { e is Disconnect || e is Error }
// what `run` accepts is what the property says
pub proof fn stream_shape(h: Seq<Event>)
    requires run(h) is Some,
    ensures
        forall|i: int| 0 <= i < h.len() && #[trigger] h[i] is Connect ==> i == 0, // C08
        forall|i: int| 0 <= i < h.len() && (#[trigger] h[i] is Receive || h[i] is Disconnect) ==> i > 0 && h[0] is Connect, // C08
        forall|i: int| 0 <= i < h.len() && terminal(#[trigger] h[i]) ==> i == h.len() - 1, // C08
        h.len() == 0 <==> run(h) == Some(Ph::Idle), h.len() > 0 ==> (run(h) == Some(Ph::Ended) <==> terminal(h.last())), run(h) == Some(Ph::Open) ==> h[0] is Connect,
    decreases h.len()
{
    if h.len() > 0 {
        let g = h.drop_last(); stream_shape(g);
        assert forall|i: int| 0 <= i < h.len() && #[trigger] h[i] is Connect implies i == 0 by { if i < g.len() { assert(g[i] is Connect); } }
        assert forall|i: int| 0 <= i < h.len() && (#[trigger] h[i] is Receive || h[i] is Disconnect) implies i > 0 && h[0] is Connect by { if i < g.len() { assert(g[i] is Receive || g[i] is Disconnect); } }
        assert forall|i: int| 0 <= i < h.len() && terminal(#[trigger] h[i]) implies i == h.len() - 1 by { if i < g.len() { assert(terminal(g[i])); } }
    }
}
}
use stream::*;
broadcast use {stream::pushed, stream::received_more};
// stands for `hc.receive(&mut PacketReceiveSink::new(&mut events_out))`
#[verifier::external_body]
pub fn receive_into(hc: &mut HalfConnection, ev: &mut Vec<Event>)
    ensures final(hc).kept(old(hc)), exists|t: Seq<Event>| all_receive(t) && final(ev)@ == old(ev)@ + t { }
// stands for `std::mem::take`
#[verifier::external_body]
pub fn take_events(v: &mut Vec<Event>) -> (r: Vec<Event>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
pub fn take_sends(v: &mut Vec<SendEntry>) -> (r: Vec<SendEntry>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
pub open spec fn sum_len(s: Seq<SendEntry>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_len(s.drop_last()) + s.last().data@.len() } }
// stands for `v.iter().map(|send| send.data.len()).sum()`
#[verifier::external_body]
pub fn total_len(v: &Vec<SendEntry>) -> (r: usize) ensures r == sum_len(v@) { 0 }
// stands for resolving the address, and opening and connecting the socket
#[verifier::external_body]
pub fn open_socket(a: SocketAddr) -> (r: Result<(UdpSocket, SocketAddr, SocketAddr), IoError>) ensures r matches Ok(x) ==> x.0.sent().len() == 0 && x.0.peer() == a && x.2 == a { Err(IoError { }) }
#[verifier::external_body]
pub fn time_base() -> Instant { Instant { t: 0 } }
#[verifier::external_body]
pub struct Instant { t: u64 }
pub open spec fn submits(s: Seq<SendEntry>) -> Seq<Submit> { s.map_values(|e: SendEntry| Submit { data: e.data@, channel: e.channel_id, mode: e.mode }) }
pub open spec fn sends_ok(s: Seq<SendEntry>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data@.len() <= MAX_PACKET_SIZE && s[i].channel_id < CHANNEL_COUNT }
// requests so far: 11 in all, at least 2 s apart, the next one (or giving up) 2 s after the last
pub open spec fn spaced(q: Seq<u64>, count: u8, next: u64) -> bool {
    &&& q.len() == 11 - count && 0 < q.len() && next == q.last() + 2000
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i] + 2000 <= #[trigger] q[j]
}
pub open spec fn disconnect_bytes() -> Seq<u8> { enc(Frame::DisconnectFrame(DisconnectFrame { })) }
pub open spec fn disconnect_ack_bytes() -> Seq<u8> { enc(Frame::DisconnectAckFrame(DisconnectAckFrame { })) }
impl Config {
//@ take src/client/mod.rs fn Config::is_valid
//@ ret r
//@ spec
    ensures r == valid(self.endpoint_config),
//@ end
}
pub open spec fn valid(c: EndpointConfig) -> bool { c.max_send_rate > 0 && c.max_receive_rate > 0 && 0 < c.max_packet_size <= MAX_PACKET_SIZE && c.max_receive_alloc > 0 }
impl EndpointConfig {
//@ take src/lib.rs fn EndpointConfig::is_valid
//@ ret r
//@ spec
    ensures r == valid(*self),
//@ end
}
pub open spec fn syn_of(nonce: u32, c: EndpointConfig) -> HandshakeSynFrame { HandshakeSynFrame { version: 3, nonce, max_receive_rate: to32(c.max_receive_rate), max_packet_size: to32(c.max_packet_size), max_receive_alloc: to32(c.max_receive_alloc) } }
impl Client {
    pub open spec fn ec(self) -> EndpointConfig { self.config.endpoint_config }
    pub open spec fn hist(self) -> Seq<Event> { self.past@ + self.events_out@ }
    pub open spec fn same_but_socket(self, o: Client) -> bool { self.config == o.config && self.state == o.state && self.events_out@ == o.events_out@ && self.past == o.past && self.heard == o.heard && self.reqs == o.reqs && self.socket.peer() == o.socket.peer() }
    // nothing has happened
    pub open spec fn same(self, o: Client) -> bool { self.same_but_socket(o) && self.socket.sent() == o.socket.sent() }
    pub open spec fn kept(self, o: Client) -> bool { self.config == o.config && self.past == o.past && self.socket.peer() == o.socket.peer() }
    pub open spec fn quiet(self, o: Client) -> bool { self.socket.sent() == o.socket.sent() }
    pub open spec fn replied(self, o: Client, b: Seq<u8>) -> bool { self.socket.sent() == o.socket.sent().push(Sent { to: o.socket.peer(), bytes: b }) }
    pub open spec fn silent(self, o: Client) -> bool { self.events_out@ == o.events_out@ }
    pub open spec fn told(self, o: Client, e: Event) -> bool { self.events_out@ == o.events_out@.push(e) }
    pub open spec fn told_rest(self, o: Client, e: Event) -> bool { exists|t: Seq<Event>| all_receive(t) && self.events_out@ == (#[trigger] (o.events_out@ + t)).push(e) }
    pub open spec fn told_received(self, o: Client) -> bool { exists|t: Seq<Event>| all_receive(t) && self.events_out@ == #[trigger] (o.events_out@ + t) }
    pub open spec fn wf(self) -> bool {
        &&& valid(self.ec())
        &&& match self.state {
            State::Pending(p) => run(self.hist()) == Some(Ph::Idle) && spaced(self.reqs@, p.resend_count, p.resend_time_ms) && sends_ok(p.initial_sends@)
                && p.request_bytes@ == enc(Frame::HandshakeSynFrame(syn_of(p.local_nonce, self.ec()))),
            State::Active(a) => run(self.hist()) == Some(Ph::Open) && a.timeout_time_ms == sat_add(self.heard@, self.ec().active_timeout_ms)
                && exists|rate: u32, alloc: u32| a.half_connection.cfg() == #[trigger] hc_config(a.local_nonce, a.remote_nonce, self.ec(), rate, alloc) && alloc >= self.ec().max_packet_size,
            State::Closing(c) => run(self.hist()) == Some(Ph::Open) && spaced(self.reqs@, c.resend_count, c.resend_time_ms) && c.request_bytes@ == disconnect_bytes(),
            State::Closed(_) => run(self.hist()) == Some(Ph::Ended),
            State::Fin => run(self.hist()) == Some(Ph::Ended) || run(self.hist()) == Some(Ph::Idle),
        }
    }
//@ take src/client/mod.rs fn Client::connect
//@ ret r
//@ sub /<A: net::ToSocketAddrs>//!
//@ sub /dst_addr: A,/dst_addr: SocketAddr,/!
//@ sub /let dst_socket_addr =.*?(?=let nonce)/let (socket0, local_addr, remote_addr) = match open_socket(dst_addr) { Ok(x) => x, Err(e) => return Err(e) }; let mut socket = socket0; /s!
//@ sub /(?<!::)\bInstant::now\(\)/time_base()/
//@ sub /events_out: Vec::new\(\),/events_out: Vec::new(), past: Ghost(Seq::empty()), heard: Ghost(0), reqs: Ghost(Seq::<u64>::empty().push(0)),/!
//@ spec
    requires valid(config.endpoint_config),
    ensures r matches Ok(c) ==> c.wf() && c.state is Pending && c.hist().len() == 0 && c.config == config && c.socket.peer() == dst_addr // C07/C08/C10
        && c.socket.sent().len() == 1 && c.socket.sent()[0].bytes == c.state->Pending_0.request_bytes@ && c.socket.sent()[0].to == dst_addr, // C07/C10
//@ end
//@ take src/client/mod.rs fn Client::is_active
//@ ret r
//@ sub /&mut self\.state/&self.state/
//@ spec
    ensures r == (self.state is Active),
//@ end
//@ take src/client/mod.rs fn Client::send
//@ spec
    requires old(self).wf(), data@.len() <= old(self).ec().max_packet_size, channel_id < CHANNEL_COUNT,
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).silent(*old(self)), final(self).quiet(*old(self)), final(self).heard == old(self).heard, final(self).reqs == old(self).reqs,
        match (old(self).state, final(self).state) {
            // packets wait for the connection, in order
            (State::Pending(p), State::Pending(q)) => q.initial_sends@ == p.initial_sends@.push(SendEntry { data, channel_id: channel_id as u8, mode }) && q.local_nonce == p.local_nonce, // C01
            (State::Active(a), State::Active(b)) => b.half_connection.submitted() == a.half_connection.submitted().push(Submit { data: data@, channel: channel_id as u8, mode }) && b.half_connection.cfg() == a.half_connection.cfg() && b.local_nonce == a.local_nonce && b.remote_nonce == a.remote_nonce && b.disconnect_signal == a.disconnect_signal && b.timeout_time_ms == a.timeout_time_ms, // C01
            (s, t) => !(s is Pending || s is Active) && t == s, // C08
        },
//@ end
//@ take src/client/mod.rs fn Client::disconnect
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).silent(*old(self)), final(self).quiet(*old(self)), final(self).heard == old(self).heard, final(self).reqs == old(self).reqs,
        match old(self).state {
            State::Pending(_) => final(self).state is Fin, // C08
            State::Active(a) => final(self).state == State::Active(ActiveState { disconnect_signal: Some(DisconnectMode::Flush), ..a }), // C09
            s => final(self).state == s, // C08
        },
//@ end
//@ take src/client/mod.rs fn Client::disconnect_now
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).silent(*old(self)), final(self).quiet(*old(self)), final(self).heard == old(self).heard, final(self).reqs == old(self).reqs,
        match old(self).state {
            State::Pending(_) => final(self).state is Fin, // C08
            State::Active(a) => final(self).state == State::Active(ActiveState { disconnect_signal: Some(DisconnectMode::Now), ..a }), // C09
            s => final(self).state == s, // C08
        },
//@ end
//@ take src/client/mod.rs fn Client::send_buffer_size
//@ ret r
//@ sub /&mut self\.state/&self.state/
//@ sub /(\w+\.initial_sends)\.iter\(\)\.map\(\|(\w+)\| \2\.data\.len\(\)\)\.sum\(\)/total_len(&\1)/!
//@ spec
    ensures r == match self.state { State::Pending(p) => sum_len(p.initial_sends@), State::Active(a) => a.half_connection.buffered() as int, _ => 0 }, // C20
//@ end
//@ take src/client/mod.rs fn Client::handle_handshake_syn_ack
//@ sub /std::mem::take\(&mut (state\.initial_sends)\)/take_sends(&mut \1)/
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)),
        match old(self).state {
            State::Pending(p) => if frame.nonce_ack != p.local_nonce { final(self).same(*old(self)) } // C07
                // a server which could not receive our largest packets
                else if frame.max_receive_alloc < old(self).ec().max_packet_size { final(self).told(*old(self), Event::Error(ErrorType::Config)) && final(self).state is Fin && final(self).quiet(*old(self)) } // C07/C08
                else {
                    &&& final(self).told(*old(self), Event::Connect) // C07/C08
                    &&& final(self).replied(*old(self), enc(Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: frame.nonce }))) // C07
                    &&& final(self).heard@ == now_ms
                    &&& final(self).state matches State::Active(a) && a.local_nonce == p.local_nonce && a.remote_nonce == frame.nonce && a.disconnect_signal is None // C07
                        && a.half_connection.cfg() == hc_config(p.local_nonce, frame.nonce, old(self).ec(), frame.max_receive_rate, frame.max_receive_alloc) // C07/C13/C06
                        && a.half_connection.submitted() == submits(p.initial_sends@) // C01/C07
                },
            // a copy of the same answer is acknowledged again, and another is ignored
            State::Active(a) => if frame.nonce_ack == a.local_nonce && frame.nonce == a.remote_nonce { final(self).same_but_socket(*old(self)) && final(self).replied(*old(self), enc(Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: frame.nonce }))) }
                else { final(self).same(*old(self)) }, // C07
            _ => final(self).same(*old(self)), // C07/C08
        },
//@ loop 0 it
    invariant half_connection.cfg() == hc_config(state.local_nonce, frame.nonce, old(self).ec(), frame.max_receive_rate, frame.max_receive_alloc),
        half_connection.submitted() == submits(sends.take(it.index@ as int)), sends_ok(sends), it.seq() == sends,
//@ body 0
    proof { assert(initial_send == sends[it.index@ as int]); assert(sends.take(it.index@ as int + 1) =~= sends.take(it.index@ as int).push(initial_send)); assert(submits(sends.take(it.index@ as int + 1)) =~= submits(sends.take(it.index@ as int)).push(Submit { data: initial_send.data@, channel: initial_send.channel_id, mode: initial_send.mode })); }
//@ beforeloop 0
    let ghost sends = initial_sends@;
//@ exit
    proof { if old(self).state is Pending && self.state is Active { self.heard@ = now_ms; } }
//@ end
//@ take src/client/mod.rs fn Client::handle_handshake_error
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)),
        if old(self).state matches State::Pending(p) && frame.nonce_ack == p.local_nonce {
            final(self).state is Fin && final(self).told(*old(self), Event::Error(match frame.error { HandshakeErrorType::Version => ErrorType::Version, HandshakeErrorType::Config => ErrorType::Config, HandshakeErrorType::ServerFull => ErrorType::ServerFull })) // C07/C17/C08
        } else { final(self).same(*old(self)) }, // C07/C08
//@ end
//@ take src/client/mod.rs fn Client::handle_disconnect
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).reqs == old(self).reqs,
        match old(self).state {
            State::Active(_) => final(self).state == State::Closed(ClosedState { timeout_time_ms: (now_ms + 20000) as u64 }) && final(self).told_rest(*old(self), Event::Disconnect) && final(self).replied(*old(self), disconnect_ack_bytes()), // C08/C09
            State::Closing(_) => final(self).state == State::Closed(ClosedState { timeout_time_ms: (now_ms + 20000) as u64 }) && final(self).told(*old(self), Event::Disconnect) && final(self).replied(*old(self), disconnect_ack_bytes()), // C08/C09
            State::Closed(_) => final(self).same_but_socket(*old(self)) && final(self).replied(*old(self), disconnect_ack_bytes()), // C08/C09
            _ => final(self).same(*old(self)), // C08
        },
//@ end
//@ take src/client/mod.rs fn Client::handle_disconnect_ack
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)), final(self).reqs == old(self).reqs,
        if old(self).state is Closing { final(self).state is Fin && final(self).told(*old(self), Event::Disconnect) } else { final(self).same(*old(self)) }, // C08/C09
//@ end
//@ take src/client/mod.rs fn Client::handle_data
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)), final(self).silent(*old(self)), final(self).listened(*old(self), now_ms), // C10/C08
//@ exit
    proof { if old(self).state is Active { self.heard@ = now_ms; } }
//@ end
//@ take src/client/mod.rs fn Client::handle_sync
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)), final(self).silent(*old(self)), final(self).listened(*old(self), now_ms), // C10/C08
//@ exit
    proof { if old(self).state is Active { self.heard@ = now_ms; } }
//@ end
//@ take src/client/mod.rs fn Client::handle_ack
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)), final(self).silent(*old(self)), final(self).listened(*old(self), now_ms), // C10/C08
//@ exit
    proof { if old(self).state is Active { self.heard@ = now_ms; } }
//@ end
    // a frame of the connection has been passed on, and puts the timeout off
    pub open spec fn listened(self, o: Client, now_ms: u64) -> bool {
        match o.state {
            State::Active(a) => self.heard@ == now_ms && self.reqs == o.reqs && (self.state matches State::Active(b) && a.same_connection(b)),
            _ => self.same(o),
        }
    }
//@ take src/client/mod.rs fn Client::handle_frame
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), // C08
        // only the answer to our own request opens the connection
        !(old(self).state is Active) && final(self).state is Active ==> (frame matches Frame::HandshakeSynAckFrame(f) && old(self).state matches State::Pending(p) && f.nonce_ack == p.local_nonce), // C07
        // and a frame never makes a connection time out
        forall|i: int| old(self).events_out@.len() <= i < final(self).events_out@.len() ==> #[trigger] final(self).events_out@[i] != Event::Error(ErrorType::Timeout), // C10
        old(self).state is Active && (frame is DataFrame || frame is SyncFrame || frame is AckFrame) ==> final(self).heard@ == now_ms, // C10
        old(self).events_out@.len() <= final(self).events_out@.len() && final(self).events_out@.take(old(self).events_out@.len() as int) == old(self).events_out@,
//@ end
//@ take src/client/mod.rs fn Client::handle_frames
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), // C08
//@ loop 0
    invariant self.wf(), time_ok(now_ms), self.kept(*old(self)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
//@ take src/client/mod.rs fn Client::handle_events
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).heard == old(self).heard,
        match old(self).state {
            State::Pending(p) => if now_ms < p.resend_time_ms { final(self).same(*old(self)) }
                // 11 requests 2 s apart have been sent, and 2 s have passed
                else if p.resend_count == 0 { old(self).reqs@.len() == 11 && final(self).state is Fin && final(self).told(*old(self), Event::Error(ErrorType::Timeout)) && final(self).quiet(*old(self)) }
                else { final(self).replied(*old(self), p.request_bytes@) && final(self).silent(*old(self)) && final(self).reqs@ == old(self).reqs@.push(now_ms) && final(self).state is Pending }, // C10
            State::Active(a) => if now_ms < sat_add(old(self).heard@, old(self).ec().active_timeout_ms) { final(self).same(*old(self)) } else { final(self).state is Fin && final(self).told(*old(self), Event::Error(ErrorType::Timeout)) && final(self).quiet(*old(self)) }, // C10/C08
            State::Closing(p) => if now_ms < p.resend_time_ms { final(self).same(*old(self)) }
                else if p.resend_count == 0 { old(self).reqs@.len() == 11 && final(self).state is Fin && final(self).told(*old(self), Event::Error(ErrorType::Timeout)) && final(self).quiet(*old(self)) }
                else { final(self).replied(*old(self), p.request_bytes@) && final(self).silent(*old(self)) && final(self).reqs@ == old(self).reqs@.push(now_ms) && final(self).state is Closing }, // C10/C09
            State::Closed(c) => final(self).silent(*old(self)) && final(self).quiet(*old(self)) && if now_ms < c.timeout_time_ms { final(self).state == old(self).state } else { final(self).state is Fin }, // C08/C09
            State::Fin => final(self).same(*old(self)), // C08
        },
//@ exit
    proof { if self.socket.sent().len() > old(self).socket.sent().len() { self.reqs@ = self.reqs@.push(now_ms); } }
//@ end
//@ take src/client/mod.rs fn Client::step_if_active
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).heard == old(self).heard,
        match old(self).state {
            State::Active(a) => final(self).told_received(*old(self)) && if a.disconnect_signal == Some(DisconnectMode::Now) || (a.disconnect_signal == Some(DisconnectMode::Flush) && !a.half_connection.pending()) {
                    // everything sent has been delivered, or the application does not mind
                    final(self).state is Closing && final(self).replied(*old(self), disconnect_bytes()) && final(self).reqs@ == seq![now_ms] // C09/C08
                } else { final(self).quiet(*old(self)) && (final(self).state matches State::Active(b) && a.same_connection(b) && a.timeout_time_ms == b.timeout_time_ms) }, // C09/C08
            _ => final(self).same(*old(self)),
        },
//@ exit
    proof { if self.state is Closing && old(self).state is Active { self.reqs@ = seq![now_ms]; } }
//@ end
//@ take src/client/mod.rs fn Client::flush_if_active
//@ sub /let ref mut (\w+) = UdpFrameSink::new\(&self\.socket, self\.remote_addr\);\s*(\w+\.half_connection)\.flush\(\1\);/flush_to(&mut \2, &mut self.socket, self.remote_addr);/!
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).silent(*old(self)), final(self).heard == old(self).heard, final(self).reqs == old(self).reqs,
        match old(self).state { State::Active(a) => final(self).state matches State::Active(b) && a.same_connection(b) && a.timeout_time_ms == b.timeout_time_ms, _ => final(self).same(*old(self)) }, // C08
//@ end
//@ take src/client/mod.rs fn Client::flush
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).silent(*old(self)), final(self).past == old(self).past, final(self).heard == old(self).heard, // C08/C10
//@ end
#[verifier::external_body]
pub fn now_ms(&self) -> (r: u64) ensures time_ok(r) { 0 }
//@ take src/client/mod.rs fn Client::step
//@ ret r
//@ sub /impl Iterator<Item = Event>/Vec<Event>/!
//@ sub /std::mem::take\(&mut self\.events_out\)\.into_iter\(\)/let ghost before = self.hist(); let evs = take_events(&mut self.events_out); proof { self.past@ = before; } evs/!
//@ spec
    requires old(self).wf(),
    // whatever arrives and whenever this is called, the events form one well-formed stream
    ensures final(self).wf(), final(self).hist() == old(self).past@ + r@, run(old(self).past@ + r@) is Some, final(self).events_out@.len() == 0, // C08
//@ end
}
impl ActiveState {
    pub open spec fn same_connection(self, b: ActiveState) -> bool { b.local_nonce == self.local_nonce && b.remote_nonce == self.remote_nonce && b.disconnect_signal == self.disconnect_signal && b.half_connection.kept(&self.half_connection) }
}
