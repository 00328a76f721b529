//@ take src/server/mod.rs static HANDSHAKE_RESEND_INTERVAL_MS
//@ end
//@ take src/server/mod.rs static HANDSHAKE_RESEND_COUNT
//@ end
//@ take src/server/mod.rs static DISCONNECT_RESEND_INTERVAL_MS
//@ end
//@ take src/server/mod.rs static DISCONNECT_RESEND_COUNT
//@ end
//@ take src/server/mod.rs static CLOSED_TIMEOUT_MS
//@ end
//@ take src/server/mod.rs struct Config
//@ end
//@ take src/server/mod.rs enum ErrorType
//@ end
//@ take src/server/mod.rs enum Event
//@ end
//@ take src/server/remote_client.rs enum DisconnectMode
//@ end
//@ take src/server/remote_client.rs struct PendingState
//@ end
//@ take src/server/remote_client.rs struct ActiveState
//@ end
//@ take src/server/remote_client.rs enum State
//@ end
//@ take src/server/remote_client.rs struct RemoteClient
//@ end
//@ take src/server/event_queue.rs enum EventType
//@ attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ end
//@ take src/server/event_queue.rs struct Event
//@ sub /struct Event/struct TimerEvent/!
//@ end
// ---- `Rc<RefCell<RemoteClient>>`: a reference to a cell of an explicit heap. Exclusive access to the heap while a cell is
// borrowed is stricter than what RefCell checks.
#[verifier::external_body]
pub struct ClientRef { r: u64 }
#[verifier::external_body]
pub struct Heap { h: u64 }
impl Heap { 
    pub uninterp spec fn cells(&self) -> Map<int, RemoteClient>;
    #[verifier::external_body]
    pub fn new() -> (r: Heap) ensures r.cells() == Map::<int, RemoteClient>::empty() { panic!() }
}
impl ClientRef {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn alloc(c: RemoteClient, h: &mut Heap) -> (r: ClientRef) ensures !old(h).cells().dom().contains(r.id()), final(h).cells() == old(h).cells().insert(r.id(), c) { panic!() }
    #[verifier::external_body]
    pub fn dup(&self) -> (r: ClientRef) ensures r == *self { panic!() }
    #[verifier::external_body]
    pub fn cell_mut<'a>(&self, h: &'a mut Heap) -> (r: &'a mut RemoteClient)
        requires old(h).cells().dom().contains(self.id())
        ensures *r == old(h).cells()[self.id()], final(h).cells() == old(h).cells().insert(self.id(), *final(r)) { panic!() }
}
// ---- `HashMap<SocketAddr, Rc<RefCell<RemoteClient>>>`
#[verifier::external_body]
pub struct Clients { c: u64 }
impl Clients {
    pub uninterp spec fn view(&self) -> Map<SocketAddr, int>;
    #[verifier::external_body]
    pub fn new() -> (r: Clients) ensures r@ == Map::<SocketAddr, int>::empty() { panic!() }
    #[verifier::external_body]
    pub fn get(&self, a: &SocketAddr) -> (r: Option<&ClientRef>) ensures match r { Some(x) => self@.dom().contains(*a) && x.id() == self@[*a], None => !self@.dom().contains(*a) } { None }
    #[verifier::external_body]
    pub fn insert(&mut self, a: SocketAddr, x: ClientRef) ensures final(self)@ == old(self)@.insert(a, x.id()) { }
    #[verifier::external_body]
    pub fn remove(&mut self, a: &SocketAddr) ensures final(self)@ == old(self)@.remove(*a) { }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { 0 }
}
pub open spec fn counted(c: Map<SocketAddr, int>, h: Map<int, RemoteClient>) -> Set<SocketAddr> { c.dom().filter(|a: SocketAddr| poa(h[c[a]].state)) }
pub open spec fn poa(s: State) -> bool { s is Pending || s is Active }
// stands for `self.clients.values().filter(|client| client.borrow().is_pending_or_active()).count()`
#[verifier::external_body]
pub fn count_is_pending_or_active(c: &Clients, h: &Heap) -> (r: usize)
    requires forall|a: SocketAddr| c@.dom().contains(a) ==> h.cells().dom().contains(#[trigger] c@[a])
    ensures r == counted(c@, h.cells()).len() { 0 }
// stands for `v.retain(|client| client.borrow().is_active())`
#[verifier::external_body]
pub fn retain_is_active(v: &mut Vec<ClientRef>, h: &Heap)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> h.cells().dom().contains((#[trigger] old(v)@[i]).id())
    ensures final(v)@ == old(v)@.filter(|r: ClientRef| h.cells()[r.id()].state is Active) { }
// ---- the timers: a priority queue in which a connection has at most one timer of a kind
#[verifier::external_body]
pub struct EventQueue { q: u64 }
pub type Timers = Map<(int, EventType), Due>;
pub ghost struct Due { pub time: u64, pub count: u8 }
pub open spec fn key(e: TimerEvent) -> (int, EventType) { (e.client.id(), e.kind) }
pub open spec fn due(e: TimerEvent) -> Due { Due { time: e.time, count: e.count } }
impl EventQueue {
    pub uninterp spec fn view(&self) -> Map<(int, EventType), Due>;
    #[verifier::external_body]
    pub fn new() -> (r: EventQueue) ensures r@ == Map::<(int, EventType), Due>::empty() { panic!() }
    #[verifier::external_body]
    pub fn push(&mut self, e: TimerEvent) requires !old(self)@.dom().contains(key(e)) ensures final(self)@ == old(self)@.insert(key(e), due(e)) { }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&TimerEvent>) ensures self@.dom().finite(), match r { Some(e) => first(self@, *e), None => self@ == Map::<(int, EventType), Due>::empty() } { None }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<TimerEvent>) ensures match r { Some(e) => first(old(self)@, e) && final(self)@ == old(self)@.remove(key(e)), None => old(self)@ == Map::<(int, EventType), Due>::empty() && final(self)@ == old(self)@ } { None }
}
pub open spec fn first(q: Map<(int, EventType), Due>, e: TimerEvent) -> bool { q.dom().contains(key(e)) && q[key(e)] == due(e) && forall|k: (int, EventType)| q.dom().contains(k) ==> e.time <= (#[trigger] q[k]).time }
impl TimerEvent {
//@ take src/server/event_queue.rs fn Event::new
//@ ret r
//@ spec
    ensures r == (TimerEvent { client, kind, time, count }),
//@ end
}
#[verifier::external_body]
pub struct Instant { t: u64 }
#[verifier::external_body]
pub fn time_base() -> Instant { Instant { t: 0 } }
#[verifier::external_body]
pub fn bind_socket(a: SocketAddr) -> (r: Result<UdpSocket, IoError>) ensures r matches Ok(s) ==> s.sent().len() == 0 && s.got().len() == 0 { Err(IoError { }) }
// `past`: the events the application has taken, and the connections it has dropped; `verified`: the addresses which have completed a
// handshake; `heard`: when the last frame of the connection arrived; `reqs`: when its current request was transmitted
pub ghost enum Item { Ev(Event), Drop(SocketAddr) }
//@ take src/server/mod.rs struct Server
//@ sub /events_out: Vec<Event>,/events_out: Vec<Event>,\n heap: Heap,\n past: Ghost<Seq<Item>>,\n verified: Ghost<Set<SocketAddr>>,\n heard: Ghost<Map<int, u64>>,\n reqs: Ghost<Map<int, Seq<u64>>>,/!
//@ end
pub mod stream { use super::*;
pub enum Ph { Idle, Open }
pub open spec fn addr_of(e: Event) -> SocketAddr { match e { Event::Connect(a) => a, Event::Disconnect(a) => a, Event::Receive(a, _) => a, Event::Error(a, _) => a } }
// one event of an address
pub open spec fn next(p: Option<Ph>, e: Event, a: SocketAddr) -> Option<Ph> {
    if addr_of(e) != a { p } else { match (p, e) {
        (Some(Ph::Idle), Event::Connect(_)) => Some(Ph::Open),
        (Some(Ph::Idle), Event::Error(_, _)) => Some(Ph::Idle),     // a refused or abandoned handshake
        (Some(Ph::Open), Event::Receive(_, _)) => Some(Ph::Open),
        (Some(Ph::Open), Event::Disconnect(_)) => Some(Ph::Idle),
        (Some(Ph::Open), Event::Error(_, _)) => Some(Ph::Idle),
        _ => None,
    } }
}
pub open spec fn run_past(h: Seq<Item>, a: SocketAddr) -> Option<Ph> decreases h.len() {
    if h.len() == 0 { Some(Ph::Idle) } else { match h.last() { Item::Ev(e) => next(run_past(h.drop_last(), a), e, a), Item::Drop(b) => if a == b { Some(Ph::Idle) } else { run_past(h.drop_last(), a) } } }
}
pub open spec fn run(p: Option<Ph>, ev: Seq<Event>, a: SocketAddr) -> Option<Ph> decreases ev.len() { if ev.len() == 0 { p } else { next(run(p, ev.drop_last(), a), ev.last(), a) } }
pub broadcast proof fn pushed(p: Option<Ph>, ev: Seq<Event>, e: Event, a: SocketAddr) ensures #[trigger] run(p, ev.push(e), a) == next(run(p, ev, a), e, a)
{ assert(ev.push(e).drop_last() =~= ev); assert(ev.push(e).last() == e); }
pub open spec fn all_receive(t: Seq<Event>, b: SocketAddr) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Receive && addr_of(t[i]) == b }
pub broadcast proof fn received_more(p: Option<Ph>, ev: Seq<Event>, t: Seq<Event>, a: SocketAddr, b: SocketAddr)
    requires #[trigger] all_receive(t, b), a == b ==> run(p, ev, a) == Some(Ph::Open),
    ensures #[trigger] run(p, ev + t, a) == run(p, ev, a),
    decreases t.len()
{
    if t.len() == 0 { assert(ev + t =~= ev); } else {
        let u = t.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] is Receive && addr_of(u[i]) == b by { assert(t[i] is Receive && addr_of(t[i]) == b); }
        received_more(p, ev, u, a, b);
        assert(ev + t =~= (ev + u).push(t.last())); assert((ev + u).push(t.last()).drop_last() =~= ev + u); assert(t[t.len() - 1] is Receive && addr_of(t[t.len() - 1]) == b);
    }
}
pub open spec fn items(ev: Seq<Event>) -> Seq<Item> { ev.map_values(|e: Event| Item::Ev(e)) }
pub proof fn taken(past: Seq<Item>, ev: Seq<Event>, a: SocketAddr)
    ensures run_past(past + items(ev), a) == run(run_past(past, a), ev, a),
    decreases ev.len()
{
    if ev.len() == 0 { assert(past + items(ev) =~= past); } else {
        taken(past, ev.drop_last(), a);
        assert((past + items(ev)).drop_last() =~= past + items(ev.drop_last())); assert((past + items(ev)).last() == Item::Ev(ev.last()));
    }
}
pub open spec fn got_bytes(g: Seq<(SocketAddr, int)>, a: SocketAddr) -> int decreases g.len() { if g.len() == 0 { 0 } else { got_bytes(g.drop_last(), a) + (if g.last().0 == a { g.last().1 } else { 0 }) } }
pub open spec fn sent_bytes(s: Seq<Sent>, a: SocketAddr) -> int decreases s.len() { if s.len() == 0 { 0 } else { sent_bytes(s.drop_last(), a) + (if s.last().to == a { s.last().bytes.len() as int } else { 0 }) } }
pub broadcast proof fn got_more(g: Seq<(SocketAddr, int)>, x: (SocketAddr, int), a: SocketAddr) ensures #[trigger] got_bytes(g.push(x), a) == got_bytes(g, a) + (if x.0 == a { x.1 } else { 0 })
{ assert(g.push(x).drop_last() =~= g); }
pub broadcast proof fn sent_more(s: Seq<Sent>, x: Sent, a: SocketAddr) ensures #[trigger] sent_bytes(s.push(x), a) == sent_bytes(s, a) + (if x.to == a { x.bytes.len() as int } else { 0 })
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn sent_others(s: Seq<Sent>, t: Seq<Sent>, a: SocketAddr)
    requires s.len() <= t.len(), t.take(s.len() as int) == s, forall|i: int| s.len() <= i < t.len() ==> (#[trigger] t[i]).to != a,
    ensures sent_bytes(t, a) == sent_bytes(s, a),
    decreases t.len()
{
    if t.len() == s.len() { assert(t =~= s); } else { assert(t[t.len() - 1].to != a); assert(t.drop_last().take(s.len() as int) =~= s); sent_others(s, t.drop_last(), a); }
}
}
pub open spec fn overdue(q: Timers, now: u64) -> Set<(int, EventType)> { q.dom().filter(|k: (int, EventType)| q[k].time <= now) }
use stream::*;
broadcast use {stream::pushed, stream::received_more, stream::got_more, stream::sent_more};
// stands for `hc.receive(&mut EventPacketSink::new(address, &mut events_out))`
#[verifier::external_body]
pub fn receive_into(hc: &mut HalfConnection, a: SocketAddr, ev: &mut Vec<Event>)
    ensures final(hc).kept(old(hc)), exists|t: Seq<Event>| all_receive(t, a) && final(ev)@ == old(ev)@ + t { }
#[verifier::external_body]
pub fn take_events(v: &mut Vec<Event>) -> (r: Vec<Event>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
pub open spec fn disconnect_bytes() -> Seq<u8> { enc(Frame::DisconnectFrame(DisconnectFrame { })) }
pub open spec fn disconnect_ack_bytes() -> Seq<u8> { enc(Frame::DisconnectAckFrame(DisconnectAckFrame { })) }
pub open spec fn valid(c: EndpointConfig) -> bool { c.max_send_rate > 0 && c.max_receive_rate > 0 && 0 < c.max_packet_size <= MAX_PACKET_SIZE && c.max_receive_alloc > 0 }
impl EndpointConfig {
//@ take src/lib.rs fn EndpointConfig::is_valid
//@ ret r
//@ spec
    ensures r == valid(*self),
//@ end
}
impl Config {
    pub open spec fn valid_s(self) -> bool { self.max_total_connections > 0 && self.max_active_connections > 0 && valid(self.endpoint_config) }
//@ take src/server/mod.rs fn Config::is_valid
//@ ret r
//@ spec
    ensures r == self.valid_s(),
//@ end
}
// requests so far: 11 in all, at least 2 s apart, the next one (or giving up) 2 s after the last
pub open spec fn spaced(q: Seq<u64>, d: Due) -> bool {
    &&& q.len() == 11 - d.count && 0 < q.len() && d.time == q.last() + 2000
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i] + 2000 <= #[trigger] q[j]
}
pub const SYNACK: EventType = EventType::ResendHandshakeSynAck;
pub const DISC: EventType = EventType::ResendDisconnect;
pub const CLOSE: EventType = EventType::ClosedTimeout;
pub open spec fn syn_ack_of(local_nonce: u32, remote_nonce: u32, c: EndpointConfig) -> Frame { Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: remote_nonce, nonce: local_nonce, max_receive_rate: to32(c.max_receive_rate), max_packet_size: to32(c.max_packet_size), max_receive_alloc: to32(c.max_receive_alloc) }) }
pub open spec fn error_of(nonce: u32, e: HandshakeErrorType) -> Frame { Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: nonce, error: e }) }
impl RemoteClient {
//@ take src/server/remote_client.rs fn RemoteClient::is_active
//@ ret r
//@ sub /&mut self\.state/&self.state/
//@ spec
    ensures r == (self.state is Active),
//@ end
//@ take src/server/remote_client.rs fn RemoteClient::is_pending_or_active
//@ ret r
//@ sub /&mut self\.state/&self.state/
//@ spec
    ensures r == poa(self.state), // C17
//@ end
    pub open spec fn only_hc(self, o: RemoteClient) -> bool {
        self.address == o.address && self.max_packet_size == o.max_packet_size && match o.state {
            State::Active(a) => self.state matches State::Active(b) && b.timeout_time_ms == a.timeout_time_ms && b.half_connection.cfg() == a.half_connection.cfg(),
            s => self.state == s,
        }
    }
//@ take src/server/remote_client.rs fn RemoteClient::send
//@ spec
    requires data@.len() <= old(self).max_packet_size <= MAX_PACKET_SIZE, channel_id < CHANNEL_COUNT,
    ensures final(self).only_hc(*old(self)), // C08/C07
        old(self).state matches State::Active(a) ==> (final(self).state matches State::Active(b) && b.half_connection.submitted() == a.half_connection.submitted().push(Submit { data: data@, channel: channel_id as u8, mode }) && b.disconnect_signal == a.disconnect_signal), // C01
//@ end
//@ take src/server/remote_client.rs fn RemoteClient::disconnect
//@ spec
    ensures final(self).only_hc(*old(self)), // C08
        old(self).state matches State::Active(a) ==> final(self).state == State::Active(ActiveState { disconnect_signal: Some(DisconnectMode::Flush), ..a }), // C09
//@ end
//@ take src/server/remote_client.rs fn RemoteClient::disconnect_now
//@ spec
    ensures final(self).only_hc(*old(self)), // C08
        old(self).state matches State::Active(a) ==> final(self).state == State::Active(ActiveState { disconnect_signal: Some(DisconnectMode::Now), ..a }), // C09
//@ end
//@ take src/server/remote_client.rs fn RemoteClient::send_buffer_size
//@ ret r
//@ sub /&mut self\.state/&self.state/
//@ spec
    ensures r == match self.state { State::Active(a) => a.half_connection.buffered(), _ => 0 }, // C20
//@ end
}
impl Server {
    pub open spec fn ec(self) -> EndpointConfig { self.config.endpoint_config }
    pub open spec fn tracked(self, a: SocketAddr) -> bool { self.clients@.dom().contains(a) }
    pub open spec fn has(self, id: int) -> bool { self.heap.cells().dom().contains(id) }
    pub open spec fn st(self, id: int) -> State { self.heap.cells()[id].state }
    pub open spec fn addr(self, id: int) -> SocketAddr { self.heap.cells()[id].address }
    pub open spec fn state_of(self, a: SocketAddr) -> State { if self.tracked(a) { self.st(self.clients@[a]) } else { State::Fin } }
    // the connections tracked are those which are not finished
    pub open spec fn wf_map(self) -> bool {
        &&& self.clients@.dom().finite()
        &&& forall|a: SocketAddr| #[trigger] self.tracked(a) ==> self.has(self.clients@[a]) && self.addr(self.clients@[a]) == a && !(self.st(self.clients@[a]) is Fin)
        &&& forall|id: int| #[trigger] self.has(id) && !(self.st(id) is Fin) ==> self.tracked(self.addr(id)) && self.clients@[self.addr(id)] == id
    }
    pub open spec fn wf_list(self) -> bool {
        &&& forall|i: int| 0 <= i < self.active_clients@.len() ==> self.has(#[trigger] self.active_clients@[i].id()) && !(self.st(self.active_clients@[i].id()) is Pending)
        &&& forall|i: int, j: int| 0 <= i < j < self.active_clients@.len() ==> #[trigger] self.active_clients@[i].id() != #[trigger] self.active_clients@[j].id()
        &&& forall|id: int| #[trigger] self.has(id) && self.st(id) is Active ==> self.listed(id)
    }
    pub open spec fn listed(self, id: int) -> bool { exists|i: int| 0 <= i < self.active_clients@.len() && #[trigger] self.active_clients@[i].id() == id }
    pub open spec fn wf_limits(self) -> bool {
        &&& self.clients@.dom().len() <= self.config.max_total_connections
        &&& counted(self.clients@, self.heap.cells()).len() <= self.config.max_active_connections
    }
    // every connection which is opening or closing is waiting for a timer (`q`: the timers, including one being handled)
    pub open spec fn wf_timers(self, q: Timers) -> bool {
        &&& forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) ==> self.timer_ok(id, k)
        &&& forall|id: int| #[trigger] self.has(id) ==> self.waits(q, id)
    }
    pub open spec fn timer_ok(self, id: int, k: EventType) -> bool {
        self.has(id) && match k { EventType::ResendHandshakeSynAck => true, EventType::ResendDisconnect => !poa(self.st(id)), EventType::ClosedTimeout => !poa(self.st(id)) && !(self.st(id) is Closing) }
    }
    pub open spec fn waits(self, q: Timers, id: int) -> bool {
        match self.st(id) {
            State::Pending(_) => q.dom().contains((id, SYNACK)) && spaced(self.reqs@[id], q[(id, SYNACK)]),
            State::Closing => q.dom().contains((id, DISC)) && spaced(self.reqs@[id], q[(id, DISC)]),
            State::Closed => q.dom().contains((id, CLOSE)),
            _ => true,
        }
    }
    pub open spec fn cell_ok(self, id: int) -> bool {
        &&& self.heap.cells()[id].max_packet_size == self.ec().max_packet_size
        &&& match self.st(id) {
            State::Pending(p) => p.reply_bytes@ == enc(syn_ack_of(p.local_nonce, p.remote_nonce, self.ec())) && p.reply_bytes@.len() == 25 && p.remote_max_receive_alloc >= self.ec().max_packet_size,
            State::Active(a) => a.timeout_time_ms == sat_add(self.heard@[id], self.ec().active_timeout_ms)
                && exists|l: u32, r: u32, rate: u32, alloc: u32| a.half_connection.cfg() == #[trigger] hc_config(l, r, self.ec(), rate, alloc) && alloc >= self.ec().max_packet_size,
            _ => true,
        }
    }
    pub open spec fn wf_cells(self) -> bool { self.config.valid_s() && forall|id: int| #[trigger] self.has(id) ==> self.cell_ok(id) }
    pub open spec fn phase(self, a: SocketAddr) -> Option<Ph> { run(run_past(self.past@, a), self.events_out@, a) }
    pub open spec fn phase_ok(self, a: SocketAddr) -> bool { self.phase(a) == Some(if self.state_of(a) is Active || self.state_of(a) is Closing { Ph::Open } else { Ph::Idle }) }
    pub open spec fn wf_stream(self) -> bool { forall|a: SocketAddr| #[trigger] self.phase_ok(a) }
    // bytes an address may still cause to be sent to it
    pub open spec fn owed(self, q: Timers, a: SocketAddr) -> int { if self.state_of(a) is Pending { 25 * q[(self.clients@[a], SYNACK)].count } else { 0 } }
    pub open spec fn sent_to(self, a: SocketAddr) -> int { sent_bytes(self.socket.sent(), a) }
    pub open spec fn got_from(self, a: SocketAddr) -> int { got_bytes(self.socket.got(), a) }
    pub open spec fn paid(self, q: Timers, a: SocketAddr, extra: int) -> bool { self.verified@.contains(a) || extra + 5 * (self.sent_to(a) + self.owed(q, a)) <= self.got_from(a) }
    pub open spec fn wf_paid(self, q: Timers) -> bool {
        &&& forall|a: SocketAddr| #[trigger] self.paid(q, a, 0)
        &&& forall|a: SocketAddr| #[trigger] self.tracked(a) && !(self.state_of(a) is Pending) ==> self.verified@.contains(a)
    }
    #[verifier::opaque]
    pub open spec fn wfq(self, q: Timers) -> bool { self.wf_map() && self.wf_list() && self.wf_limits() && self.wf_timers(q) && self.wf_cells() && self.wf_stream() && self.wf_paid(q) }
    pub open spec fn wf(self) -> bool { self.wfq(self.client_events@) }
    // nothing has happened to any connection but `id` of the address `a`
    pub open spec fn elsewhere(self, q: Timers, o: Server, oq: Timers, id: int, a: SocketAddr) -> bool {
        &&& self.config == o.config && self.socket.got() == o.socket.got()
        &&& forall|k: int| k != id ==> #[trigger] self.has(k) == o.has(k) && (o.has(k) ==> self.heap.cells()[k] == o.heap.cells()[k] && self.heard@[k] == o.heard@[k] && self.reqs@[k] == o.reqs@[k])
        &&& forall|k: int, t: EventType| k != id ==> #[trigger] q.dom().contains((k, t)) == oq.dom().contains((k, t)) && q[(k, t)] == oq[(k, t)]
        &&& forall|b: SocketAddr| b != a ==> #[trigger] self.tracked(b) == o.tracked(b) && self.clients@[b] == o.clients@[b]
        &&& forall|b: SocketAddr| b != a ==> #[trigger] self.phase(b) == o.phase(b)
        &&& forall|b: SocketAddr| b != a ==> #[trigger] self.sent_to(b) == o.sent_to(b)
        &&& forall|b: SocketAddr| b != a ==> #[trigger] self.verified@.contains(b) == o.verified@.contains(b)
    }
    // what has happened to the connection `id` of the address `a` is all right
    pub open spec fn here(self, q: Timers, o: Server, id: int, a: SocketAddr) -> bool {
        &&& if o.tracked(a) { o.clients@[a] == id } else { !o.has(id) }
        &&& self.has(id) && self.addr(id) == a
        &&& if self.st(id) is Fin { self.clients@ == o.clients@.remove(a) } else { self.clients@ == o.clients@.insert(a, id) }
        &&& poa(self.st(id)) ==> poa(o.state_of(a)) || !o.full()
        &&& !(self.st(id) is Fin) && !o.tracked(a) ==> !o.full()
        &&& if self.st(id) is Active && !(o.state_of(a) is Active) { o.state_of(a) is Pending && self.active_clients@.len() == o.active_clients@.len() + 1 && self.active_clients@.last().id() == id && self.active_clients@.drop_last() == o.active_clients@ } else { self.active_clients@ == o.active_clients@ }
        &&& self.st(id) is Pending ==> o.state_of(a) is Pending || !o.tracked(a)
        &&& forall|t: EventType| #[trigger] q.dom().contains((id, t)) ==> self.timer_ok(id, t)
        &&& self.waits(q, id) && self.cell_ok(id) && self.phase_ok(a) && self.paid(q, a, 0)
        &&& !(self.st(id) is Fin) && !(self.st(id) is Pending) ==> self.verified@.contains(a)
    }
    pub proof fn local(self, q: Timers, o: Server, oq: Timers, id: int, a: SocketAddr)
        requires o.wfq(oq), self.elsewhere(q, o, oq, id, a), self.here(q, o, id, a),
        ensures self.wfq(q),
    {
        reveal(Server::wfq);
        assert(o.tracked(a) ==> o.has(id) && o.addr(id) == a);
        assert(o.has(id) ==> o.tracked(a));
        assert(self.wf_map()) by {
            assert forall|b: SocketAddr| #[trigger] self.tracked(b) implies self.has(self.clients@[b]) && self.addr(self.clients@[b]) == b && !(self.st(self.clients@[b]) is Fin) by { if b != a { assert(o.tracked(b)); assert(o.clients@[b] != id); assert(o.has(o.clients@[b])); assert(self.has(o.clients@[b])); } }
            assert forall|k: int| #[trigger] self.has(k) && !(self.st(k) is Fin) implies self.tracked(self.addr(k)) && self.clients@[self.addr(k)] == k by { if k != id { assert(o.has(k)); assert(o.tracked(o.addr(k))); assert(o.addr(k) != a); } }
        }
        assert(self.wf_list()) by {
            let l = self.active_clients@; let ol = o.active_clients@;
            let more = self.st(id) is Active && !(o.state_of(a) is Active);
            assert forall|i: int| 0 <= i < l.len() implies self.has(#[trigger] l[i].id()) && !(self.st(l[i].id()) is Pending) by {
                if i < ol.len() { assert(l[i] == ol[i]); assert(o.has(ol[i].id())); assert(self.has(l[i].id())); if l[i].id() == id { assert(o.has(id)); assert(!(o.st(id) is Pending)); } }
            }
            assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] l[i].id() != #[trigger] l[j].id() by {
                assert(l[i] == ol[i]); if j < ol.len() { assert(l[j] == ol[j]); } else { assert(o.has(ol[i].id()) && !(o.st(ol[i].id()) is Pending)); }
            }
            assert forall|k: int| #[trigger] self.has(k) && self.st(k) is Active implies self.listed(k) by {
                if k == id && more { assert(l[l.len() - 1].id() == id); } else {
                    assert(o.has(k)); assert(o.st(k) is Active); assert(o.listed(k));
                    let i = choose|i: int| 0 <= i < ol.len() && #[trigger] ol[i].id() == k; assert(l[i] == ol[i]);
                }
            }
        }
        assert(self.wf_limits()) by {
            let c = self.clients@; let oc = o.clients@; let n = counted(c, self.heap.cells()); let on = counted(oc, o.heap.cells());
            assert(on.subset_of(oc.dom())); assert(n.subset_of(c.dom()));
            vstd::set_lib::lemma_len_subset(on, oc.dom());
            assert forall|b: SocketAddr| b != a implies #[trigger] n.contains(b) == on.contains(b) by { assert(self.tracked(b) == o.tracked(b)); if o.tracked(b) { assert(o.has(o.clients@[b]) && o.addr(o.clients@[b]) == b); assert(o.clients@[b] != id); assert(self.has(o.clients@[b])); } }
            assert(o.tracked(a) ==> (on.contains(a) <==> poa(o.state_of(a))));
            if n.contains(a) { assert(n =~= on.insert(a)); } else { assert(n =~= on.remove(a)); }
        }
        assert(self.wf_timers(q)) by {
            assert forall|k: int, t: EventType| #[trigger] q.dom().contains((k, t)) implies self.timer_ok(k, t) by { if k != id { assert(oq.dom().contains((k, t))); assert(o.timer_ok(k, t)); assert(self.has(k)); } }
            assert forall|k: int| #[trigger] self.has(k) implies self.waits(q, k) by { if k != id { assert(o.has(k)); assert(o.waits(oq, k)); assert(q.dom().contains((k, SYNACK)) == oq.dom().contains((k, SYNACK))); assert(q.dom().contains((k, DISC)) == oq.dom().contains((k, DISC))); assert(q.dom().contains((k, CLOSE)) == oq.dom().contains((k, CLOSE))); } }
        }
        assert(self.wf_cells()) by {
            assert forall|k: int| #[trigger] self.has(k) implies self.cell_ok(k) by { if k != id { assert(o.has(k)); assert(o.cell_ok(k)); } }
        }
        assert(self.wf_stream()) by {
            assert forall|b: SocketAddr| #[trigger] self.phase_ok(b) by { if b != a { self.other_state(q, o, oq, id, a, b); assert(o.phase_ok(b)); assert(self.phase(b) == o.phase(b)); } }
        }
        assert(self.wf_paid(q)) by {
            assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { if b != a { self.other_state(q, o, oq, id, a, b); assert(o.paid(oq, b, 0)); assert(self.verified@.contains(b) == o.verified@.contains(b)); assert(self.sent_to(b) == o.sent_to(b)); if self.tracked(b) { assert(q.dom().contains((self.clients@[b], SYNACK)) == oq.dom().contains((self.clients@[b], SYNACK))); } } }
            assert forall|b: SocketAddr| #[trigger] self.tracked(b) && !(self.state_of(b) is Pending) implies self.verified@.contains(b) by { if b != a { self.other_state(q, o, oq, id, a, b); assert(o.tracked(b)); assert(self.verified@.contains(b) == o.verified@.contains(b)); } }
        }
    }
    pub proof fn other_state(self, q: Timers, o: Server, oq: Timers, id: int, a: SocketAddr, b: SocketAddr)
        requires o.wfq(oq), self.elsewhere(q, o, oq, id, a), self.here(q, o, id, a), b != a,
        ensures self.state_of(b) == o.state_of(b), self.tracked(b) ==> self.clients@[b] == o.clients@[b] && self.clients@[b] != id && self.has(self.clients@[b]),
    {
        reveal(Server::wfq);
        assert(self.tracked(b) == o.tracked(b));
        if o.tracked(b) { assert(o.has(o.clients@[b]) && o.addr(o.clients@[b]) == b); assert(o.tracked(a) ==> o.addr(id) == a); assert(self.has(o.clients@[b])); }
    }
    // only the socket and the events have changed
    pub proof fn told_only(self, o: Server, a: SocketAddr)
        requires o.wf(), self.kept(o), self.clients@ == o.clients@, self.heap.cells() == o.heap.cells(), self.active_clients@ == o.active_clients@, self.client_events@ == o.client_events@, self.verified == o.verified, self.heard == o.heard, self.reqs == o.reqs,
            forall|b: SocketAddr| #[trigger] self.phase(b) == o.phase(b),
            forall|b: SocketAddr| b != a ==> #[trigger] self.sent_to(b) == o.sent_to(b),
            self.paid(self.client_events@, a, 0),
        ensures self.wf(),
    {
        reveal(Server::wfq);
        let q = self.client_events@;
        assert forall|id: int| #[trigger] self.has(id) implies o.has(id) && self.waits(q, id) && self.cell_ok(id) by { assert(o.has(id)); assert(o.waits(q, id)); assert(o.cell_ok(id)); }
        assert forall|a: SocketAddr| #[trigger] self.tracked(a) implies o.tracked(a) by { assert(o.tracked(a)); }
        assert forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) implies self.timer_ok(id, k) by { assert(o.timer_ok(id, k)); }
        assert forall|id: int| #[trigger] self.has(id) && self.st(id) is Active implies self.listed(id) by { assert(o.has(id)); assert(o.listed(id)); let i = choose|i: int| 0 <= i < o.active_clients@.len() && #[trigger] o.active_clients@[i].id() == id; assert(self.active_clients@[i].id() == id); }
        assert forall|b: SocketAddr| #[trigger] self.phase_ok(b) by { assert(o.phase_ok(b)); assert(self.phase(b) == o.phase(b)); }
        assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { if b != a { assert(o.paid(q, b, 0)); assert(self.sent_to(b) == o.sent_to(b)); } }
    }
    pub open spec fn kept(self, o: Server) -> bool { self.config == o.config && self.past == o.past && self.socket.got() == o.socket.got() }
    pub open spec fn same_but_socket(self, o: Server) -> bool { self.kept(o) && self.clients@ == o.clients@ && self.heap.cells() == o.heap.cells() && self.active_clients@ == o.active_clients@ && self.client_events@ == o.client_events@ && self.events_out@ == o.events_out@ && self.verified == o.verified && self.heard == o.heard && self.reqs == o.reqs }
    pub open spec fn same(self, o: Server) -> bool { self.same_but_socket(o) && self.socket.sent() == o.socket.sent() }
    pub open spec fn quiet(self, o: Server) -> bool { self.socket.sent() == o.socket.sent() }
    pub open spec fn replied(self, o: Server, to: SocketAddr, b: Seq<u8>) -> bool { self.socket.sent() == o.socket.sent().push(Sent { to, bytes: b }) }
    pub open spec fn silent(self, o: Server) -> bool { self.events_out@ == o.events_out@ }
    pub open spec fn told(self, o: Server, e: Event) -> bool { self.events_out@ == o.events_out@.push(e) }
    pub open spec fn told_rest(self, o: Server, a: SocketAddr, e: Event) -> bool { exists|t: Seq<Event>| all_receive(t, a) && self.events_out@ == (#[trigger] (o.events_out@ + t)).push(e) }
    // only this connection has changed
    pub open spec fn only(self, o: Server, id: int) -> bool { self.heap.cells().dom() == o.heap.cells().dom() && self.addr(id) == o.addr(id) && forall|k: int| k != id && o.has(k) ==> self.heap.cells()[k] == #[trigger] o.heap.cells()[k] }
    pub open spec fn full(self) -> bool { self.clients@.dom().len() >= self.config.max_total_connections || counted(self.clients@, self.heap.cells()).len() >= self.config.max_active_connections }
    pub open spec fn refusal(self, h: HandshakeSynFrame, e: HandshakeErrorType) -> bool {
        match e {
            HandshakeErrorType::Version => h.version != 3,
            HandshakeErrorType::ServerFull => self.full(),
            HandshakeErrorType::Config => h.max_receive_alloc < self.ec().max_packet_size || h.max_packet_size > self.ec().max_receive_alloc,
        }
    }
    pub open spec fn refused(self, o: Server, a: SocketAddr, h: HandshakeSynFrame, e: HandshakeErrorType, t: ErrorType) -> bool {
        o.refusal(h, e) && self.replied(o, a, enc(error_of(h.nonce, e))) && self.clients@ == o.clients@ && self.heap.cells() == o.heap.cells() && self.client_events@ == o.client_events@ && self.active_clients@ == o.active_clients@
            && if o.config.enable_handshake_errors { self.told(o, Event::Error(a, t)) } else { self.silent(o) }
    }
//@ take src/server/mod.rs fn Server::reserved_count
//@ ret r
//@ sub /self\.clients\.values\(\)\.filter\(\|(\w+)\| \1\.borrow\(\)\.(\w+)\(\)\)\.count\(\)/count_\2(&self.clients, &self.heap)/!
//@ spec
    requires self.wf_map(),
    ensures r == counted(self.clients@, self.heap.cells()).len(), // C17
//@ start
    proof { assert forall|a: SocketAddr| self.clients@.dom().contains(a) implies self.heap.cells().dom().contains(#[trigger] self.clients@[a]) by { assert(self.tracked(a)); assert(self.has(self.clients@[a])); } }
//@ end
//@ take src/server/mod.rs fn Server::handle_handshake_syn
//@ spec
    requires old(self).wf(), time_ok(now_ms), old(self).paid(old(self).client_events@, client_addr, 1472),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).verified == old(self).verified, // C18/C17
        if old(self).tracked(client_addr) { final(self).same(*old(self)) } // C07
        else if old(self).refusal(handshake, HandshakeErrorType::Version) || old(self).refusal(handshake, HandshakeErrorType::ServerFull) || old(self).refusal(handshake, HandshakeErrorType::Config) {
            final(self).refused(*old(self), client_addr, handshake, HandshakeErrorType::Version, ErrorType::Version) || final(self).refused(*old(self), client_addr, handshake, HandshakeErrorType::ServerFull, ErrorType::ServerFull) || final(self).refused(*old(self), client_addr, handshake, HandshakeErrorType::Config, ErrorType::Config) // C07/C17
        } else {
            &&& final(self).tracked(client_addr) && (final(self).state_of(client_addr) matches State::Pending(p) && p.remote_nonce == handshake.nonce && p.remote_max_receive_rate == handshake.max_receive_rate && p.remote_max_receive_alloc == handshake.max_receive_alloc && final(self).replied(*old(self), client_addr, p.reply_bytes@)) // C07
            &&& final(self).clients@.dom() == old(self).clients@.dom().insert(client_addr) && final(self).silent(*old(self)) && final(self).active_clients@ == old(self).active_clients@ // C07/C08
        },
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    proof { reveal(Server::wfq); assert(self.phase_ok(client_addr)); assert(self.paid(oq, client_addr, 0)); }
//@ before /return;/2
    proof { self.told_only(o, client_addr); }
//@ before /return;/3
    proof { self.told_only(o, client_addr); }
//@ before /return;/4
    proof { self.told_only(o, client_addr); }
//@ before /return;/5
    proof { self.told_only(o, client_addr); }
//@ exit
    let ghost id = self.clients@[client_addr];
    proof {
        self.reqs@ = o.reqs@.insert(id, seq![now_ms]);
        self.local(self.client_events@, o, oq, id, client_addr);
    }
//@ end

    pub proof fn unchanged(self, o: Server, a: SocketAddr)
        requires o.wf(), self.same(o),
        ensures self.wf(),
    {
        reveal(Server::wfq);
        assert(o.paid(self.client_events@, a, 0));
        assert forall|b: SocketAddr| #[trigger] self.phase(b) == o.phase(b) by {}
        self.told_only(o, a);
    }
    // a timer nobody waits for has been removed
    pub proof fn expired(self, o: Server, oq: Timers, id: int, k: EventType)
        requires o.wfq(oq), self.same_but_timers(o), oq.dom().contains((id, k)), self.client_events@ == oq.remove((id, k)),
            match o.st(id) { State::Pending(_) => k != SYNACK, State::Closing => k != DISC, State::Closed => k != CLOSE, _ => true },
        ensures self.wf(),
    {
        reveal(Server::wfq);
        let q = self.client_events@;
        assert forall|k: int| #[trigger] self.has(k) implies o.has(k) && self.waits(q, k) && self.cell_ok(k) by { assert(o.has(k)); assert(o.waits(oq, k)); assert(o.cell_ok(k)); }
        assert forall|a: SocketAddr| #[trigger] self.tracked(a) implies o.tracked(a) by { assert(o.tracked(a)); }
        assert forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) implies self.timer_ok(id, k) by { assert(oq.dom().contains((id, k))); assert(o.timer_ok(id, k)); }
        assert forall|id: int| #[trigger] self.has(id) && self.st(id) is Active implies self.listed(id) by { assert(o.has(id)); assert(o.listed(id)); let i = choose|i: int| 0 <= i < o.active_clients@.len() && #[trigger] o.active_clients@[i].id() == id; assert(self.active_clients@[i].id() == id); }
        assert forall|b: SocketAddr| #[trigger] self.phase_ok(b) by { assert(o.phase_ok(b)); }
        assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { assert(o.paid(oq, b, 0)); if o.tracked(b) { assert(o.has(o.clients@[b])); assert(o.waits(oq, o.clients@[b])); } }
    }
    pub open spec fn same_but_timers(self, o: Server) -> bool { self.kept(o) && self.socket.sent() == o.socket.sent() && self.clients@ == o.clients@ && self.heap.cells() == o.heap.cells() && self.active_clients@ == o.active_clients@ && self.events_out@ == o.events_out@ && self.verified == o.verified && self.heard == o.heard && self.reqs == o.reqs }
    // a datagram has arrived
    pub proof fn arrived(self, o: Server, a: SocketAddr, n: int)
        requires o.wf(), 0 <= n, self.config == o.config, self.past == o.past, self.clients@ == o.clients@, self.heap.cells() == o.heap.cells(), self.active_clients@ == o.active_clients@, self.client_events@ == o.client_events@, self.events_out@ == o.events_out@, self.verified == o.verified, self.heard == o.heard, self.reqs == o.reqs,
            self.socket.sent() == o.socket.sent(), self.socket.got() == o.socket.got().push((a, n)),
        ensures self.wf(), self.paid(self.client_events@, a, n),
    {
        reveal(Server::wfq);
        let q = self.client_events@;
        assert forall|id: int| #[trigger] self.has(id) implies o.has(id) && self.waits(q, id) && self.cell_ok(id) by { assert(o.has(id)); assert(o.waits(q, id)); assert(o.cell_ok(id)); }
        assert forall|a: SocketAddr| #[trigger] self.tracked(a) implies o.tracked(a) by { assert(o.tracked(a)); }
        assert forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) implies self.timer_ok(id, k) by { assert(o.timer_ok(id, k)); }
        assert forall|id: int| #[trigger] self.has(id) && self.st(id) is Active implies self.listed(id) by { assert(o.has(id)); assert(o.listed(id)); let i = choose|i: int| 0 <= i < o.active_clients@.len() && #[trigger] o.active_clients@[i].id() == id; assert(self.active_clients@[i].id() == id); }
        assert forall|b: SocketAddr| #[trigger] self.phase_ok(b) by { assert(o.phase_ok(b)); }
        assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { assert(o.paid(q, b, 0)); }
        assert(o.paid(q, a, 0));
    }
    // the connection of `a`, which is known to be there, and what `wf` says about it
    pub proof fn known(self, q: Timers, a: SocketAddr)
        requires self.wfq(q),
        ensures self.tracked(a) ==> self.known_ok(q, a, self.clients@[a]), self.phase_ok(a), self.paid(q, a, 0), !self.tracked(a) ==> self.clients@.remove(a) == self.clients@,
    {
        reveal(Server::wfq);
        assert(self.phase_ok(a)); assert(self.paid(q, a, 0));
        if self.tracked(a) { assert(self.has(self.clients@[a])); assert(self.waits(q, self.clients@[a])); assert(self.cell_ok(self.clients@[a])); assert(self.clients@.insert(a, self.clients@[a]) =~= self.clients@); }
        else { assert(self.clients@.remove(a) =~= self.clients@); }
        assert forall|t: EventType| #[trigger] q.dom().contains((self.clients@[a], t)) implies self.timer_ok(self.clients@[a], t) by {}
    }
    pub open spec fn known_ok(self, q: Timers, a: SocketAddr, id: int) -> bool {
        &&& self.has(id) && self.addr(id) == a && !(self.st(id) is Fin) && self.waits(q, id) && self.cell_ok(id) && (!(self.st(id) is Pending) ==> self.verified@.contains(a))
        &&& self.clients@.insert(a, id) == self.clients@
        &&& forall|t: EventType| #[trigger] q.dom().contains((id, t)) ==> self.timer_ok(id, t)
    }
//@ take src/server/mod.rs fn Server::handle_handshake_ack
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)), // C18
        match old(self).state_of(client_addr) {
            // only the peer which received the reply to its request can be connected
            State::Pending(p) => if handshake.nonce_ack == p.local_nonce {
                &&& final(self).told(*old(self), Event::Connect(client_addr)) && final(self).verified@ == old(self).verified@.insert(client_addr) // C07/C08/C18
                &&& final(self).clients@ == old(self).clients@ && final(self).client_events@ == old(self).client_events@
                &&& final(self).state_of(client_addr) matches State::Active(s) && s.half_connection.cfg() == hc_config(p.local_nonce, p.remote_nonce, old(self).ec(), p.remote_max_receive_rate, p.remote_max_receive_alloc) // C07/C01
                    && s.half_connection.submitted().len() == 0 && s.disconnect_signal is None && s.timeout_time_ms == sat_add(now_ms, old(self).ec().active_timeout_ms) // C07/C10
            } else { final(self).same(*old(self)) }, // C07
            _ => final(self).same(*old(self)), // C07/C08
        },
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[client_addr];
    proof { self.known(oq, client_addr); assert(0xFFFFF == MASK); }
//@ exit
    proof {
        if o.state_of(client_addr) is Pending && self.state_of(client_addr) is Active {
            self.verified@ = o.verified@.insert(client_addr);
            self.heard@ = o.heard@.insert(id, now_ms);
            assert(self.active_clients@.drop_last() =~= o.active_clients@);
            self.local(oq, o, oq, id, client_addr);
        } else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, client_addr); }
    }
//@ end
    pub open spec fn closed(self, o: Server, a: SocketAddr, now_ms: u64) -> bool {
        &&& self.state_of(a) is Closed && self.clients@ == o.clients@ && self.client_events@ == o.client_events@.insert((o.clients@[a], CLOSE), Due { time: (now_ms + 20000) as u64, count: 0 })
    }
//@ take src/server/mod.rs fn Server::handle_disconnect
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).verified == old(self).verified, // C18
        match old(self).state_of(client_addr) {
            State::Pending(_) => final(self).same(*old(self)), // C07/C08
            // everything received before the end is delivered before the end
            State::Active(_) => final(self).replied(*old(self), client_addr, disconnect_ack_bytes()) && final(self).told_rest(*old(self), client_addr, Event::Disconnect(client_addr)) && final(self).closed(*old(self), client_addr, now_ms), // C08/C09
            State::Closing => final(self).replied(*old(self), client_addr, disconnect_ack_bytes()) && final(self).told(*old(self), Event::Disconnect(client_addr)) && final(self).closed(*old(self), client_addr, now_ms), // C08/C09
            State::Closed => final(self).replied(*old(self), client_addr, disconnect_ack_bytes()) && final(self).same_but_socket(*old(self)), // C08/C09
            State::Fin => final(self).same(*old(self)), // C08
        },
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[client_addr];
    proof { self.known(oq, client_addr); }
//@ exit
    proof {
        if o.state_of(client_addr) is Active || o.state_of(client_addr) is Closing { self.local(self.client_events@, o, oq, id, client_addr); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.told_only(o, client_addr); }
    }
//@ end
//@ take src/server/mod.rs fn Server::handle_disconnect_ack
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).quiet(*old(self)), final(self).verified == old(self).verified, // C18
        match old(self).state_of(client_addr) {
            State::Closing => final(self).told(*old(self), Event::Disconnect(client_addr)) && final(self).clients@ == old(self).clients@.remove(client_addr) && final(self).client_events@ == old(self).client_events@, // C08/C09
            _ => final(self).same(*old(self)), // C08
        },
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[client_addr];
    proof { self.known(oq, client_addr); }
//@ exit
    proof {
        if o.state_of(client_addr) is Closing { self.local(oq, o, oq, id, client_addr); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, client_addr); }
    }
//@ end
    // a data, ack or sync frame only reaches the connection of the address it came from, and keeps it alive
    pub open spec fn heard_from(self, o: Server, a: SocketAddr, now_ms: u64) -> bool {
        match o.state_of(a) {
            State::Active(s) => {
                &&& self.clients@ == o.clients@ && self.client_events@ == o.client_events@ && self.active_clients@ == o.active_clients@ && self.silent(o) && self.quiet(o) && self.reqs == o.reqs
                &&& self.only(o, o.clients@[a]) && self.heard@ == o.heard@.insert(o.clients@[a], now_ms)
                &&& self.state_of(a) matches State::Active(t) && t.half_connection.kept(&s.half_connection) && t.disconnect_signal == s.disconnect_signal && t.timeout_time_ms == sat_add(now_ms, o.ec().active_timeout_ms)
            },
            _ => self.same(o),
        }
    }
//@ take src/server/mod.rs fn Server::handle_data
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).verified == old(self).verified, final(self).heard_from(*old(self), client_addr, now_ms), // C10/C08/C18
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[client_addr];
    proof { self.known(oq, client_addr); }
//@ exit
    proof {
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        if o.state_of(client_addr) is Active { self.heard@ = o.heard@.insert(id, now_ms); self.local(oq, o, oq, id, client_addr); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, client_addr); }
    }
//@ end
//@ take src/server/mod.rs fn Server::handle_ack
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).verified == old(self).verified, final(self).heard_from(*old(self), client_addr, now_ms), // C10/C08/C18
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[client_addr];
    proof { self.known(oq, client_addr); }
//@ exit
    proof {
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        if o.state_of(client_addr) is Active { self.heard@ = o.heard@.insert(id, now_ms); self.local(oq, o, oq, id, client_addr); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, client_addr); }
    }
//@ end
//@ take src/server/mod.rs fn Server::handle_sync
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).verified == old(self).verified, final(self).heard_from(*old(self), client_addr, now_ms), // C10/C08/C18
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[client_addr];
    proof { self.known(oq, client_addr); }
//@ exit
    proof {
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        if o.state_of(client_addr) is Active { self.heard@ = o.heard@.insert(id, now_ms); self.local(oq, o, oq, id, client_addr); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, client_addr); }
    }
//@ end
//@ take src/server/mod.rs fn Server::handle_frame
//@ spec
    requires old(self).wf(), time_ok(now_ms), frame is HandshakeSynFrame ==> old(self).paid(old(self).client_events@, address, 1472),
    ensures final(self).wf(), final(self).kept(*old(self)), // C08/C17/C18
        frame is HandshakeSynAckFrame || frame is HandshakeErrorFrame ==> final(self).same(*old(self)), // C07
        final(self).verified != old(self).verified ==> (frame matches Frame::HandshakeAckFrame(h) && old(self).state_of(address) matches State::Pending(p) && h.nonce_ack == p.local_nonce && final(self).verified@ == old(self).verified@.insert(address)), // C07/C18
//@ end
//@ take src/server/mod.rs fn Server::handle_frames
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).config == old(self).config, final(self).past == old(self).past, // C08/C17/C18
//@ beforeloop 0
    let ghost mut o = *self;
//@ loop 0
    invariant self.wf(), *self == o, time_ok(now_ms), self.config == old(self).config, self.past == old(self).past,
//@ body 0
    proof { self.arrived(o, address, frame_size as int); }
//@ bodyend 0
    proof { o = *self; }
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
//@ take src/server/mod.rs fn Server::handle_event
//@ spec
    requires old(self).wfq(old(self).client_events@.insert(key(event), due(event))), !old(self).client_events@.dom().contains(key(event)), time_ok(now_ms), event.time <= now_ms,
    ensures final(self).wf(), final(self).kept(*old(self)), final(self).verified == old(self).verified, final(self).heard == old(self).heard, final(self).active_clients == old(self).active_clients, // C18
        final(self).only(*old(self), event.client.id()), (final(self).st(event.client.id()) is Active) || (old(self).st(event.client.id()) is Active) ==> final(self).st(event.client.id()) == old(self).st(event.client.id()), // C08/C10
        ({  let id = event.client.id(); let a = old(self).addr(id); let q = old(self).client_events@; let resend = q.insert(key(event), Due { time: (now_ms + 2000) as u64, count: (event.count - 1) as u8 });
            match (old(self).st(id), event.kind) {
                // 11 requests 2 s apart have been sent, and 2 s have passed
                (State::Pending(p), EventType::ResendHandshakeSynAck) => if event.count == 0 { old(self).reqs@[id].len() == 11 && final(self).forgotten(*old(self), id, a) && if old(self).config.enable_handshake_errors { final(self).told(*old(self), Event::Error(a, ErrorType::Timeout)) } else { final(self).silent(*old(self)) } } // C10/C17/C08
                    else { final(self).replied(*old(self), a, p.reply_bytes@) && final(self).client_events@ == resend && final(self).reqs@ == old(self).reqs@.insert(id, old(self).reqs@[id].push(now_ms)) && final(self).unmoved(*old(self)) }, // C10/C18
                (State::Closing, EventType::ResendDisconnect) => if event.count == 0 { old(self).reqs@[id].len() == 11 && final(self).forgotten(*old(self), id, a) && final(self).told(*old(self), Event::Error(a, ErrorType::Timeout)) } // C10/C17/C08
                    else { final(self).replied(*old(self), a, disconnect_bytes()) && final(self).client_events@ == resend && final(self).reqs@ == old(self).reqs@.insert(id, old(self).reqs@[id].push(now_ms)) && final(self).unmoved(*old(self)) }, // C10/C09
                (State::Closed, EventType::ClosedTimeout) => final(self).forgotten(*old(self), id, a) && final(self).silent(*old(self)), // C17/C08
                _ => final(self).client_events@ == q && final(self).unmoved(*old(self)) && final(self).quiet(*old(self)), // C08/C10
            }
        }),
//@ start
    let ghost o = *self;
    let ghost e0 = event;
    let ghost oq = self.client_events@.insert(key(event), due(event));
    let ghost id = event.client.id();
    let ghost a = self.addr(id);
    proof {
        assert(oq.dom().contains((id, e0.kind)));
        assert(self.timer_ok(id, e0.kind) && (!(self.st(id) is Fin) ==> self.tracked(a) && self.clients@[a] == id)) by { reveal(Server::wfq); assert(self.has(id)); }
        self.known(oq, a);
        assert(oq.remove((id, e0.kind)) =~= self.client_events@);
    }
//@ exit
    proof {
        let q = self.client_events@;
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        if q.dom().contains(key(e0)) {
            self.reqs@ = o.reqs@.insert(id, o.reqs@[id].push(now_ms)); assert(self.heap.cells() =~= o.heap.cells());
            self.local(q, o, oq, id, a);
        } else if self.st(id) is Fin && !(o.st(id) is Fin) { self.local(q, o, oq, id, a); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.expired(o, oq, id, e0.kind); }
    }
//@ end
    pub open spec fn forgotten(self, o: Server, id: int, a: SocketAddr) -> bool { self.st(id) is Fin && self.clients@ == o.clients@.remove(a) && self.client_events@ == o.client_events@ && self.quiet(o) }
    pub open spec fn unmoved(self, o: Server) -> bool { self.clients@ == o.clients@ && self.heap.cells() == o.heap.cells() && self.silent(o) }

    // silent for too long
    pub open spec fn late(self, id: int, now_ms: u64) -> bool { self.has(id) && (self.st(id) matches State::Active(a) && a.timeout_time_ms <= now_ms) }
    pub open spec fn frozen(self, o: Server) -> bool { self.config == o.config && self.past == o.past && self.socket.got() == o.socket.got() && self.verified == o.verified }
//@ take src/server/mod.rs fn Server::handle_events
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).frozen(*old(self)), final(self).heard == old(self).heard, final(self).active_clients@ == old(self).active_clients@, // C08/C17/C18
        forall|k: (int, EventType)| #[trigger] final(self).client_events@.dom().contains(k) ==> final(self).client_events@[k].time > now_ms, // C10/C17
        forall|id: int| !(#[trigger] final(self).late(id, now_ms)), // C10
        // a connection which is not silent for too long does not end here
        forall|id: int| #[trigger] old(self).has(id) && old(self).st(id) is Active && !old(self).late(id, now_ms) ==> final(self).has(id) && final(self).st(id) == old(self).st(id), // C10/C08
//@ loop 0
    invariant self.wf(), time_ok(now_ms), self.frozen(*old(self)), self.heard == old(self).heard, self.active_clients == old(self).active_clients,
        forall|id: int| #[trigger] self.has(id) == old(self).has(id), forall|id: int| old(self).has(id) && #[trigger] old(self).st(id) is Active ==> self.st(id) == old(self).st(id),
        forall|id: int| #[trigger] self.has(id) && self.st(id) is Active ==> old(self).st(id) is Active,
    ensures forall|k: (int, EventType)| #[trigger] self.client_events@.dom().contains(k) ==> self.client_events@[k].time > now_ms,
    decreases overdue(self.client_events@, now_ms).len(),
//@ body 0
    let ghost o = *self;
//@ before /self\.handle_event\(/1
    let ghost e0 = event;
    proof { assert(self.client_events@.insert(key(event), due(event)) =~= o.client_events@); self.queue_only(o, o.client_events@); }
    let ghost p = *self;
//@ after /self\.handle_event\(/1
    proof {
        let s = overdue(o.client_events@, now_ms); let t = overdue(self.client_events@, now_ms);
        assert(t.subset_of(s.remove(key(e0)))); assert(s.contains(key(e0)));
        vstd::set_lib::lemma_len_subset(t, s.remove(key(e0)));
        assert forall|id: int| #[trigger] self.has(id) == o.has(id) by { assert(self.heap.cells().dom() == p.heap.cells().dom()); }
        assert forall|id: int| #[trigger] self.has(id) && id != e0.client.id() implies self.st(id) == o.st(id) by { assert(p.has(id)); }
        assert forall|id: int| old(self).has(id) && #[trigger] old(self).st(id) is Active implies self.st(id) == old(self).st(id) by { assert(o.st(id) == old(self).st(id)); assert(o.has(id) && self.has(id)); }
    }
//@ beforeloop 1
    let ghost m = *self;
    let ghost l = self.active_clients@;
    proof { m.list_facts(m.client_events@); }
//@ loop 1 it
    invariant self.wf(), m.wf(), time_ok(now_ms), self.frozen(*old(self)), self.heard == old(self).heard, self.active_clients@ == l, self.client_events@ == m.client_events@, l == old(self).active_clients@, m.active_clients@ == l,
        it.seq().len() == l.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == l[i],
        forall|i: int| 0 <= i < l.len() ==> m.has(#[trigger] l[i].id()), forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i].id() != #[trigger] l[j].id(),
        forall|id: int| #[trigger] m.has(id) && m.st(id) is Active ==> m.listed(id),
        forall|id: int| #[trigger] self.has(id) == m.has(id),
        forall|i: int| it.index@ <= i < l.len() ==> self.st(#[trigger] l[i].id()) == m.st(l[i].id()),
        forall|i: int| 0 <= i < it.index@ ==> !self.late(#[trigger] l[i].id(), now_ms),
        forall|id: int| #[trigger] self.has(id) && self.st(id) is Active ==> m.st(id) == self.st(id),
        forall|id: int| #[trigger] m.has(id) && m.st(id) is Active && !m.late(id, now_ms) ==> self.st(id) == m.st(id),
        forall|id: int| old(self).has(id) && #[trigger] old(self).st(id) is Active ==> m.has(id) && m.st(id) == old(self).st(id),
//@ body 1
    let ghost o = *self;
    let ghost id = client_rc.id();
    let ghost a = self.addr(id);
    proof { assert(*client_rc == l[it.index@ as int]); assert(m.has(id)); assert(self.has(id)); self.owner(self.client_events@, id); self.known(self.client_events@, a); }
//@ bodyend 1
    proof {
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        assert forall|k: int| #[trigger] self.has(k) == m.has(k) by { assert(o.has(k) == m.has(k)); }
        assert forall|k: int| #[trigger] self.has(k) && self.st(k) is Active implies m.st(k) == self.st(k) by { assert(o.has(k)); if k != id { assert(self.st(k) == o.st(k)); } }
        if o.late(id, now_ms) { self.local(self.client_events@, o, o.client_events@, id, a); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, a); }
    }
//@ exit
    proof {
        assert forall|id: int| !(#[trigger] self.late(id, now_ms)) by { if self.late(id, now_ms) { assert(self.has(id) && m.has(id)); assert(m.listed(id)); let i = choose|i: int| 0 <= i < m.active_clients@.len() && #[trigger] m.active_clients@[i].id() == id; assert(!self.late(l[i].id(), now_ms)); } }
    }
//@ end
    pub proof fn queue_only(self, o: Server, q: Timers)
        requires o.wfq(q), self.same_but_timers(o),
        ensures self.wfq(q),
    {
        reveal(Server::wfq);
        assert forall|id: int| #[trigger] self.has(id) implies o.has(id) && self.waits(q, id) && self.cell_ok(id) by { assert(o.has(id)); assert(o.waits(q, id)); assert(o.cell_ok(id)); }
        assert forall|a: SocketAddr| #[trigger] self.tracked(a) implies o.tracked(a) by { assert(o.tracked(a)); }
        assert forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) implies self.timer_ok(id, k) by { assert(o.timer_ok(id, k)); }
        assert forall|id: int| #[trigger] self.has(id) && self.st(id) is Active implies self.listed(id) by { assert(o.has(id)); assert(o.listed(id)); let i = choose|i: int| 0 <= i < o.active_clients@.len() && #[trigger] o.active_clients@[i].id() == id; assert(self.active_clients@[i].id() == id); }
        assert forall|b: SocketAddr| #[trigger] self.phase_ok(b) by { assert(o.phase_ok(b)); }
        assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { assert(o.paid(q, b, 0)); }
    }
    pub proof fn owner(self, q: Timers, id: int)
        requires self.wfq(q), self.has(id),
        ensures self.st(id) is Fin || (self.tracked(self.addr(id)) && self.clients@[self.addr(id)] == id),
    { reveal(Server::wfq); }
    pub proof fn list_facts(self, q: Timers)
        requires self.wfq(q),
        ensures self.wf_list(),
    { reveal(Server::wfq); }
    pub open spec fn wants_close(s: ActiveState) -> bool { match s.disconnect_signal { Some(DisconnectMode::Now) => true, Some(DisconnectMode::Flush) => !s.half_connection.pending(), None => false } }
    pub open spec fn sent_since(self, o: Server, x: Sent) -> bool { exists|j: int| o.socket.sent().len() <= j < self.socket.sent().len() && #[trigger] self.socket.sent()[j] == x }
    // one step of a connection
    pub open spec fn stepped(self, o: Server, id: int, now_ms: u64) -> bool {
        match o.st(id) {
            State::Active(s) => if Server::wants_close(s) {
                self.st(id) is Closing && self.client_events@.dom().contains((id, DISC)) && self.client_events@[(id, DISC)] == (Due { time: (now_ms + 2000) as u64, count: 10 }) && self.sent_since(o, Sent { to: o.addr(id), bytes: disconnect_bytes() })
            } else { self.st(id) matches State::Active(t) && t.half_connection.kept(&s.half_connection) && t.timeout_time_ms == s.timeout_time_ms && t.disconnect_signal == s.disconnect_signal },
            s => self.st(id) == s,
        }
    }
    pub open spec fn longer(self, o: Server) -> bool { o.socket.sent().len() <= self.socket.sent().len() && self.socket.sent().take(o.socket.sent().len() as int) == o.socket.sent() }
//@ take src/server/mod.rs fn Server::step_active_clients
//@ spec
    requires old(self).wf(), time_ok(now_ms),
    ensures final(self).wf(), final(self).frozen(*old(self)), final(self).heard == old(self).heard, final(self).active_clients@ == old(self).active_clients@, // C08/C17/C18
        forall|id: int| #[trigger] old(self).has(id) ==> final(self).has(id) && final(self).stepped(*old(self), id, now_ms), // C09/C08
        forall|id: int| #[trigger] final(self).has(id) ==> old(self).has(id),
//@ beforeloop 0
    let ghost m = *self;
    let ghost l = self.active_clients@;
    proof { m.list_facts(m.client_events@); assert(self.socket.sent().take(self.socket.sent().len() as int) =~= self.socket.sent()); }
//@ loop 0 it
    invariant self.wf(), m.wf(), m == *old(self), time_ok(now_ms), self.frozen(m), self.heard == m.heard, self.active_clients@ == l, m.active_clients@ == l, self.longer(m),
        it.seq().len() == l.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == l[i],
        forall|i: int| 0 <= i < l.len() ==> m.has(#[trigger] l[i].id()), forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i].id() != #[trigger] l[j].id(),
        forall|id: int| #[trigger] m.has(id) && m.st(id) is Active ==> m.listed(id),
        forall|id: int| #[trigger] self.has(id) == m.has(id),
        forall|id: int| #[trigger] m.has(id) ==> self.addr(id) == m.addr(id),
        forall|i: int| it.index@ <= i < l.len() ==> self.st(#[trigger] l[i].id()) == m.st(l[i].id()),
        forall|i: int| 0 <= i < it.index@ ==> self.stepped(m, #[trigger] l[i].id(), now_ms),
        forall|id: int| #[trigger] m.has(id) && !(m.st(id) is Active) ==> self.st(id) == m.st(id),
//@ body 0
    let ghost o = *self;
    let ghost id = client_rc.id();
    let ghost a = self.addr(id);
    proof { assert(*client_rc == l[it.index@ as int]); assert(m.has(id)); assert(self.has(id)); self.owner(self.client_events@, id); self.known(self.client_events@, a); }
//@ bodyend 0
    proof {
        let n = m.socket.sent().len() as int;
        if self.st(id) is Closing && !(o.st(id) is Closing) { self.reqs@ = o.reqs@.insert(id, seq![now_ms]); assert(self.socket.sent()[o.socket.sent().len() as int].to == a); }
        assert(self.socket.sent().take(n) =~= m.socket.sent());
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        assert forall|k: int| #[trigger] self.has(k) == m.has(k) by { assert(o.has(k) == m.has(k)); }
        assert forall|k: int| k != id && #[trigger] self.has(k) implies self.st(k) == o.st(k) && self.addr(k) == o.addr(k) by { }
        if o.st(id) is Active { self.local(self.client_events@, o, o.client_events@, id, a); }
        else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, a); }
        assert forall|i: int| 0 <= i <= it.index@ implies self.stepped(m, #[trigger] l[i].id(), now_ms) by {
            if i < it.index@ {
                let k = l[i].id(); assert(o.stepped(m, k, now_ms)); assert(m.has(k)); assert(self.has(k)); assert(self.st(k) == o.st(k));
                let x = Sent { to: m.addr(k), bytes: disconnect_bytes() };
                if o.sent_since(m, x) { let j = choose|j: int| n <= j < o.socket.sent().len() && #[trigger] o.socket.sent()[j] == x; assert(self.socket.sent()[j] == x); }
            }
        }
    }
//@ exit
    proof {
        assert forall|id: int| #[trigger] m.has(id) implies self.has(id) && self.stepped(m, id, now_ms) by {
            assert(self.has(id) == m.has(id));
            if m.st(id) is Active { assert(m.listed(id)); let i = choose|i: int| 0 <= i < m.active_clients@.len() && #[trigger] m.active_clients@[i].id() == id; assert(self.stepped(m, l[i].id(), now_ms)); }
        }
    }
//@ end
    // the application uses the handle of a connection: send, disconnect, disconnect_now
    pub proof fn used(self, o: Server, id: int)
        requires o.wf(), self.kept(o), self.socket.sent() == o.socket.sent(), self.clients@ == o.clients@, self.active_clients@ == o.active_clients@, self.client_events@ == o.client_events@, self.events_out@ == o.events_out@, self.verified == o.verified, self.heard == o.heard, self.reqs == o.reqs,
            o.has(id), self.heap.cells() == o.heap.cells().insert(id, self.heap.cells()[id]), self.heap.cells()[id].only_hc(o.heap.cells()[id]),
        ensures self.wf(),
    {
        let a = o.addr(id); let q = o.client_events@;
        o.owner(q, id); o.known(q, a);
        if o.st(id) is Fin { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, a); }
        else {
            assert forall|b: SocketAddr| #[trigger] self.phase(b) == o.phase(b) by {}
            self.local(q, o, q, id, a);
        }
    }
//@ take src/server/mod.rs fn Server::flush_active_clients
//@ sub /let ref mut (\w+) = UdpFrameSink::new\(&self\.socket, (\w+)\);//
//@ sub /(\w+\.half_connection)\.flush\(data_sink\)/flush_to(&mut \1, &mut self.socket, client_addr)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).frozen(*old(self)), final(self).heard == old(self).heard, final(self).active_clients@ == old(self).active_clients@, final(self).clients@ == old(self).clients@, final(self).client_events@ == old(self).client_events@, final(self).silent(*old(self)), // C08/C18
        forall|id: int| #[trigger] old(self).has(id) ==> final(self).has(id) && final(self).flushed(*old(self), id), // C01/C08
        forall|a: SocketAddr| !old(self).verified@.contains(a) ==> #[trigger] final(self).sent_to(a) == old(self).sent_to(a), // C18
//@ beforeloop 0
    let ghost m = *self;
    let ghost l = self.active_clients@;
    proof { m.list_facts(m.client_events@); }
//@ loop 0 it
    invariant self.wf(), m.wf(), m == *old(self), self.frozen(m), self.heard == m.heard, self.active_clients@ == l, m.active_clients@ == l, self.clients@ == m.clients@, self.client_events@ == m.client_events@, self.silent(m),
        it.seq().len() == l.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == l[i],
        forall|i: int| 0 <= i < l.len() ==> m.has(#[trigger] l[i].id()),
        forall|id: int| #[trigger] self.has(id) == m.has(id),
        forall|id: int| #[trigger] m.has(id) ==> self.flushed(m, id),
        forall|a: SocketAddr| !m.verified@.contains(a) ==> #[trigger] self.sent_to(a) == m.sent_to(a),
//@ body 0
    let ghost o = *self;
    let ghost id = client_rc.id();
    let ghost a = self.addr(id);
    proof { assert(*client_rc == l[it.index@ as int]); assert(m.has(id)); assert(self.has(id)); self.owner(self.client_events@, id); self.known(self.client_events@, a); }
//@ bodyend 0
    proof {
        assert(self.heap.cells().dom() =~= o.heap.cells().dom());
        assert forall|k: int| #[trigger] self.has(k) == m.has(k) by { assert(o.has(k) == m.has(k)); }
        assert forall|k: int| k != id && #[trigger] self.has(k) implies self.heap.cells()[k] == o.heap.cells()[k] by { }
        if o.st(id) is Active {
            assert forall|b: SocketAddr| b != a implies #[trigger] self.sent_to(b) == o.sent_to(b) by { sent_others(o.socket.sent(), self.socket.sent(), b); }
            self.local(self.client_events@, o, o.client_events@, id, a);
        } else { assert(self.heap.cells() =~= o.heap.cells()); self.unchanged(o, a); }
        assert forall|k: int| #[trigger] m.has(k) implies self.flushed(m, k) by { assert(o.flushed(m, k)); assert(self.has(k)); }
        assert forall|b: SocketAddr| !m.verified@.contains(b) implies #[trigger] self.sent_to(b) == m.sent_to(b) by { assert(o.sent_to(b) == m.sent_to(b)); }
    }
//@ end
    pub open spec fn flushed(self, o: Server, id: int) -> bool {
        match o.st(id) {
            State::Active(s) => self.st(id) matches State::Active(t) && t.half_connection.kept(&s.half_connection) && t.timeout_time_ms == s.timeout_time_ms && t.disconnect_signal == s.disconnect_signal,
            s => self.st(id) == s,
        }
    }
//@ take src/server/mod.rs fn Server::flush
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).frozen(*old(self)), final(self).silent(*old(self)), // C08/C18
//@ end
//@ take src/server/mod.rs fn Server::drop
//@ spec
    requires old(self).wf(), old(self).events_out@.len() == 0,
    ensures final(self).wf(), final(self).config == old(self).config, final(self).quiet(*old(self)), !final(self).tracked(*client_addr), // C08/C17
        final(self).clients@ == old(self).clients@.remove(*client_addr), final(self).events_out@.len() == 0,
        final(self).past@ == if old(self).tracked(*client_addr) { old(self).past@.push(Item::Drop(*client_addr)) } else { old(self).past@ }, // C08
//@ start
    let ghost o = *self;
    let ghost oq = self.client_events@;
    let ghost id = self.clients@[*client_addr];
    proof { self.known(oq, *client_addr); }
//@ exit
    proof {
        if o.tracked(*client_addr) { self.past@ = o.past@.push(Item::Drop(*client_addr)); self.dropped(o, id, *client_addr); }
        else { self.unchanged(o, *client_addr); assert(o.clients@ == o.clients@.remove(*client_addr)); }
    }
//@ end
    pub proof fn dropped(self, o: Server, id: int, a: SocketAddr)
        requires o.wf(), o.tracked(a), o.clients@[a] == id, o.events_out@.len() == 0, self.events_out@ == o.events_out@, self.past@ == o.past@.push(Item::Drop(a)), self.config == o.config, self.socket == o.socket, self.clients@ == o.clients@.remove(a), self.active_clients == o.active_clients, self.client_events@ == o.client_events@, self.verified == o.verified, self.heard == o.heard, self.reqs == o.reqs,
            self.heap.cells() == o.heap.cells().insert(id, RemoteClient { state: State::Fin, ..o.heap.cells()[id] }),
        ensures self.wf(),
    {
        let q = o.client_events@;
        o.known(q, a);
        assert forall|b: SocketAddr| b != a implies #[trigger] self.phase(b) == o.phase(b) by { assert(self.past@.drop_last() =~= o.past@); assert(self.past@.last() == Item::Drop(a)); }
        assert(run_past(self.past@, a) == Some(Ph::Idle)) by { assert(self.past@.last() == Item::Drop(a)); }
        self.local(q, o, q, id, a);
    }
    // only finished connections have left the list
    pub proof fn retained(self, o: Server)
        requires o.wf(), self.kept(o), self.socket.sent() == o.socket.sent(), self.clients@ == o.clients@, self.heap.cells() == o.heap.cells(), self.client_events@ == o.client_events@, self.events_out@ == o.events_out@, self.verified == o.verified, self.heard == o.heard, self.reqs == o.reqs,
            self.active_clients@ == o.active_clients@.filter(|r: ClientRef| o.heap.cells()[r.id()].state is Active),
        ensures self.wf(),
    {
        let l = self.active_clients@; let ol = o.active_clients@; let q = self.client_events@; let f = |r: ClientRef| o.heap.cells()[r.id()].state is Active;
        o.list_facts(q);
        filtered(ol, f);
        assert forall|i: int| 0 <= i < l.len() implies self.has(#[trigger] l[i].id()) && !(self.st(l[i].id()) is Pending) by { assert(f(l[i])); assert(among(ol, l[i])); let j = choose|j: int| 0 <= j < ol.len() && #[trigger] ol[j] == l[i]; assert(o.has(ol[j].id())); }
        assert forall|k: int| #[trigger] self.has(k) && self.st(k) is Active implies self.listed(k) by {
            assert(o.has(k)); assert(o.listed(k)); let i = choose|i: int| 0 <= i < ol.len() && #[trigger] ol[i].id() == k; assert(f(ol[i])); assert(among(l, ol[i])); let j = choose|j: int| 0 <= j < l.len() && #[trigger] l[j] == ol[i]; assert(l[j].id() == k);
        }
        reveal(Server::wfq);
        assert forall|id: int| #[trigger] self.has(id) implies o.has(id) && self.waits(q, id) && self.cell_ok(id) by { assert(o.has(id)); assert(o.waits(q, id)); assert(o.cell_ok(id)); }
        assert forall|a: SocketAddr| #[trigger] self.tracked(a) implies o.tracked(a) by { assert(o.tracked(a)); }
        assert forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) implies self.timer_ok(id, k) by { assert(o.timer_ok(id, k)); }
        assert forall|b: SocketAddr| #[trigger] self.phase_ok(b) by { assert(o.phase_ok(b)); }
        assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { assert(o.paid(q, b, 0)); }
    }
    pub proof fn handed_over(self, o: Server)
        requires o.wf(), self.config == o.config, self.socket == o.socket, self.clients@ == o.clients@, self.heap.cells() == o.heap.cells(), self.active_clients@ == o.active_clients@, self.client_events@ == o.client_events@, self.verified == o.verified, self.heard == o.heard, self.reqs == o.reqs,
            self.events_out@.len() == 0, self.past@ == o.past@ + items(o.events_out@),
        ensures self.wf(), forall|a: SocketAddr| #[trigger] run_past(self.past@, a) is Some, self.wf_limits(),
            forall|a: SocketAddr| !self.verified@.contains(a) ==> 5 * (#[trigger] self.sent_to(a)) <= self.got_from(a),
    {
        reveal(Server::wfq);
        let q = self.client_events@;
        assert forall|b: SocketAddr| #[trigger] run_past(self.past@, b) is Some && self.phase_ok(b) by { taken(o.past@, o.events_out@, b); assert(o.phase_ok(b)); }
        assert forall|id: int| #[trigger] self.has(id) implies o.has(id) && self.waits(q, id) && self.cell_ok(id) by { assert(o.has(id)); assert(o.waits(q, id)); assert(o.cell_ok(id)); }
        assert forall|a: SocketAddr| #[trigger] self.tracked(a) implies o.tracked(a) by { assert(o.tracked(a)); }
        assert forall|id: int, k: EventType| #[trigger] q.dom().contains((id, k)) implies self.timer_ok(id, k) by { assert(o.timer_ok(id, k)); }
        assert forall|id: int| #[trigger] self.has(id) && self.st(id) is Active implies self.listed(id) by { assert(o.has(id)); assert(o.listed(id)); let i = choose|i: int| 0 <= i < o.active_clients@.len() && #[trigger] o.active_clients@[i].id() == id; assert(self.active_clients@[i].id() == id); }
        assert forall|b: SocketAddr| #[trigger] self.paid(q, b, 0) by { assert(o.paid(q, b, 0)); }
        assert forall|a: SocketAddr| !self.verified@.contains(a) implies 5 * (#[trigger] self.sent_to(a)) <= self.got_from(a) by { assert(self.paid(q, a, 0)); }
    }
    // after a step no connection is silent for too long, and none which was to be closed at once is open
    pub open spec fn settled(self, now_ms: u64) -> bool {
        time_ok(now_ms) && forall|id: int| #[trigger] self.has(id) ==> (self.st(id) matches State::Active(s) ==> now_ms < s.timeout_time_ms && !(s.disconnect_signal matches Some(DisconnectMode::Now)))
    }
    #[verifier::external_body]
    pub fn now_ms(&self) -> (r: u64) ensures time_ok(r) { 0 }
//@ take src/server/mod.rs fn Server::step
//@ ret r
//@ sub /impl Iterator<Item = Event>/Vec<Event>/!
//@ sub /self\.active_clients\.retain\(\|(\w+)\| \1\.borrow\(\)\.(\w+)\(\)\)/retain_\2(&mut self.active_clients, &self.heap)/!
//@ sub /std::mem::take\(&mut self\.events_out\)\.into_iter\(\)/let ghost before = *self; let evs = take_events(&mut self.events_out); proof { self.past@ = self.past@ + items(evs@); self.handed_over(before); assert(before.settled(now_ms)); assert forall|id: int| #[trigger] self.has(id) implies before.has(id) by {}; assert(self.settled(now_ms)); } evs/!
//@ spec
    requires old(self).wf(),
    // whatever arrives and whenever this is called, the events of every address form one well-formed stream
    ensures final(self).wf(), final(self).config == old(self).config, final(self).past@ == old(self).past@ + items(r@), final(self).events_out@.len() == 0, // C08
        forall|a: SocketAddr| #[trigger] run_past(final(self).past@, a) is Some, // C08
        exists|now_ms: u64| #[trigger] final(self).settled(now_ms), // C10/C09
        final(self).clients@.dom().len() <= final(self).config.max_total_connections, counted(final(self).clients@, final(self).heap.cells()).len() <= final(self).config.max_active_connections, // C17
        forall|a: SocketAddr| !final(self).verified@.contains(a) ==> 5 * (#[trigger] final(self).sent_to(a)) <= final(self).got_from(a), // C18
//@ before /retain_is_active/1
    let ghost h = *self;
    proof { h.list_facts(h.client_events@); assert forall|i: int| 0 <= i < h.active_clients@.len() implies h.heap.cells().dom().contains((#[trigger] h.active_clients@[i]).id()) by { assert(h.has(h.active_clients@[i].id())); } }
//@ after /retain_is_active/1
    proof { assert(self.active_clients@ =~= h.active_clients@.filter(|r: ClientRef| h.heap.cells()[r.id()].state is Active)); self.retained(h); }
    let ghost j = *self;
//@ after /self\.step_active_clients\(/1
    proof {
        assert forall|id: int| #[trigger] self.has(id) implies (self.st(id) matches State::Active(s) ==> now_ms < s.timeout_time_ms && !(s.disconnect_signal matches Some(DisconnectMode::Now))) by { assert(j.has(id)); assert(self.stepped(j, id, now_ms)); assert(!h.late(id, now_ms)); assert(!j.late(id, now_ms)); }
    }
//@ end
//@ take src/server/mod.rs fn Server::bind
//@ ret r
//@ sub /<A: net::ToSocketAddrs>//!
//@ sub /addr: A,/addr: SocketAddr,/!
//@ sub /let socket = UdpSocket::bind\(addr\)\?;\s*socket\.set_nonblocking\(true\)\?;/let socket = match bind_socket(addr) { Ok(s) => s, Err(e) => return Err(e) };/!
//@ sub /(?<!::)\bInstant::now\(\)/time_base()/
//@ sub /events_out: Vec::new\(\),/events_out: Vec::new(), heap: Heap::new(), past: Ghost(Seq::empty()), verified: Ghost(Set::empty()), heard: Ghost(Map::empty()), reqs: Ghost(Map::empty()),/!
//@ sub /Ok\(Self \{(.*)\}\)/let this = Self {\1}; proof { this.fresh(); } Ok(this)/s!
//@ spec
    requires config.valid_s(),
    ensures r matches Ok(s) ==> s.wf() && s.config == config && s.past@.len() == 0 && s.events_out@.len() == 0 && s.clients@.dom().len() == 0 && s.socket.sent().len() == 0, // C08/C17/C18
//@ end
    pub proof fn fresh(self)
        requires self.config.valid_s(), self.past@.len() == 0, self.events_out@.len() == 0, self.clients@ == Map::<SocketAddr, int>::empty(), self.heap.cells() == Map::<int, RemoteClient>::empty(), self.active_clients@.len() == 0, self.client_events@ == Map::<(int, EventType), Due>::empty(), self.socket.sent().len() == 0, self.socket.got().len() == 0,
        ensures self.wf(),
    {
        reveal(Server::wfq);
        assert(counted(self.clients@, self.heap.cells()) =~= Set::empty());
    }
}
pub open spec fn among(l: Seq<ClientRef>, x: ClientRef) -> bool { exists|j: int| 0 <= j < l.len() && #[trigger] l[j] == x }
pub proof fn filtered(l: Seq<ClientRef>, f: spec_fn(ClientRef) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i].id() != #[trigger] l[j].id(),
    ensures ({ let r = l.filter(f);
        &&& forall|i: int| 0 <= i < r.len() ==> f(#[trigger] r[i]) && among(l, r[i])
        &&& forall|i: int| 0 <= i < l.len() && f(#[trigger] l[i]) ==> among(r, l[i])
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i].id() != #[trigger] r[j].id() }),
    decreases l.len()
{
    reveal(Seq::filter);
    let r = l.filter(f);
    if l.len() > 0 {
        let t = l.drop_last(); let u = t.filter(f); let e = l.last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i].id() != #[trigger] t[j].id() by { assert(t[i] == l[i] && t[j] == l[j]); }
        filtered(t, f);
        assert(r == if f(e) { u.push(e) } else { u });
        assert forall|i: int| 0 <= i < r.len() implies f(#[trigger] r[i]) && among(l, r[i]) by {
            if i < u.len() { assert(r[i] == u[i]); assert(among(t, u[i])); let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == u[i]; assert(l[k] == r[i]); } else { assert(l[l.len() - 1] == r[i]); }
        }
        assert forall|i: int| 0 <= i < l.len() && f(#[trigger] l[i]) implies among(r, l[i]) by {
            if i < t.len() { assert(t[i] == l[i]); assert(among(u, t[i])); let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k] == t[i]; assert(r[k] == l[i]); } else { assert(r[r.len() - 1] == l[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i].id() != #[trigger] r[j].id() by {
            if j < u.len() { assert(r[i] == u[i] && r[j] == u[j]); }
            else { assert(r[i] == u[i]); assert(among(t, u[i])); let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == u[i]; assert(l[k] == u[i]); assert(l[k].id() != l[l.len() - 1].id()); }
        }
    }
}
