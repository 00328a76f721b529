//@ include consts.inc
//@ take src/packet_id.rs const MASK
//@ sub /: Type/: u32/
//@ end
//@ take src/lib.rs const PROTOCOL_VERSION
//@ end
//@ take src/lib.rs enum SendMode
//@ end
//@ take src/lib.rs struct EndpointConfig
//@ end
//@ take src/frame/mod.rs struct HandshakeSynFrame
//@ end
//@ take src/frame/mod.rs struct HandshakeSynAckFrame
//@ end
//@ take src/frame/mod.rs struct HandshakeAckFrame
//@ end
//@ take src/frame/mod.rs enum HandshakeErrorType
//@ end
//@ take src/frame/mod.rs struct HandshakeErrorFrame
//@ end
//@ take src/frame/mod.rs struct DisconnectFrame
//@ end
//@ take src/frame/mod.rs struct DisconnectAckFrame
//@ end
//@ take src/frame/mod.rs struct Datagram
//@ end
//@ take src/frame/mod.rs struct DataFrame
//@ end
//@ take src/frame/mod.rs struct SyncFrame
//@ end
//@ take src/frame/mod.rs struct AckGroup
//@ end
//@ take src/frame/mod.rs struct AckFrame
//@ end
//@ take src/frame/mod.rs enum Frame
//@ end
//@ take src/half_connection/mod.rs struct Config
//@ sub /struct Config/struct HcConfig/!
//@ end
pub open spec fn time_ok(t: u64) -> bool { t < 0x4000_0000_0000_0000 }
pub open spec fn sat_add(a: u64, b: u64) -> u64 { if a + b > u64::MAX { u64::MAX } else { (a + b) as u64 } }
pub open spec fn low(a: usize, b: u32) -> u32 { let x = if a > u32::MAX { u32::MAX } else { a as u32 }; if x < b { x } else { b } }
pub open spec fn to32(a: usize) -> u32 { if a > u32::MAX { u32::MAX } else { a as u32 } }
// ---- the codec: these contracts are discharged in the unit `codec` (enc_frame, handshake_sizes)
pub uninterp spec fn enc(f: Frame) -> Seq<u8>;
pub open spec fn enc_size_ok(f: Frame, n: nat) -> bool {
    match f { Frame::HandshakeSynFrame(_) => n == 1472, Frame::HandshakeSynAckFrame(_) => n == 25, Frame::HandshakeErrorFrame(_) => n == 10, _ => true }
}
impl Frame {
#[verifier::external_body]
pub fn write(&self) -> (r: Box<[u8]>) ensures r@ == enc(*self), enc_size_ok(*self, r@.len()) { panic!() }
#[verifier::external_body]
pub fn read(b: &[u8]) -> (r: Option<Frame>) ensures r matches Some(f) ==> (f is HandshakeSynFrame ==> b@.len() == 1472) { None }
}
// ---- the operating system
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SocketAddr { a: u64 }
pub struct IoError { }
pub ghost struct Sent { pub to: SocketAddr, pub bytes: Seq<u8> }
// a socket remembers, for the purposes of proof, what was sent and received through it
#[verifier::external_body]
pub struct UdpSocket { s: u64 }
impl UdpSocket {
    pub uninterp spec fn sent(&self) -> Seq<Sent>;
    pub uninterp spec fn got(&self) -> Seq<(SocketAddr, int)>;
    // the address the socket is connected to
    pub uninterp spec fn peer(&self) -> SocketAddr;
    pub open spec fn after(&self, o: &UdpSocket, to: SocketAddr, b: Seq<u8>) -> bool { self.sent() == o.sent().push(Sent { to, bytes: b }) && self.got() == o.got() && self.peer() == o.peer() }
    #[verifier::external_body]
    pub fn send_to(&mut self, b: &Box<[u8]>, to: SocketAddr) -> (r: Result<usize, IoError>) ensures final(self).after(old(self), to, b@) { Ok(0) }
    #[verifier::external_body]
    pub fn send(&mut self, b: &Box<[u8]>) -> (r: Result<usize, IoError>) ensures final(self).after(old(self), old(self).peer(), b@) { Ok(0) }
    #[verifier::external_body]
    pub fn recv(&mut self, b: &mut [u8; MAX_FRAME_SIZE]) -> (r: Result<usize, IoError>) ensures r matches Ok(n) ==> n <= MAX_FRAME_SIZE, final(self).sent() == old(self).sent(), final(self).peer() == old(self).peer() { Ok(0) }
    #[verifier::external_body]
    pub fn recv_from(&mut self, b: &mut [u8; MAX_FRAME_SIZE]) -> (r: Result<(usize, SocketAddr), IoError>)
        ensures final(self).sent() == old(self).sent(), final(self).peer() == old(self).peer(),
            match r { Ok(x) => x.0 <= MAX_FRAME_SIZE && final(self).got() == old(self).got().push((x.1, x.0 as int)), Err(_) => *final(self) == *old(self) } { Err(IoError { }) }
}
#[verifier::external_body]
pub fn random_u32() -> u32 { 0 }
// ---- the data transfer half of a connection
#[verifier::external_body]
pub struct HalfConnection { h: u64 }
pub ghost struct Submit { pub data: Seq<u8>, pub channel: u8, pub mode: SendMode }
impl HalfConnection {
    pub uninterp spec fn cfg(&self) -> HcConfig;
    // everything submitted so far
    pub uninterp spec fn submitted(&self) -> Seq<Submit>;
    pub uninterp spec fn pending(&self) -> bool;
    pub uninterp spec fn buffered(&self) -> usize;
    pub open spec fn kept(&self, o: &HalfConnection) -> bool { self.cfg() == o.cfg() && self.submitted() == o.submitted() }
    #[verifier::external_body]
    pub fn new(config: HcConfig) -> (r: HalfConnection) ensures r.cfg() == config, r.submitted() == Seq::<Submit>::empty() { panic!() }
    #[verifier::external_body]
    pub fn send(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode)
        requires data@.len() <= MAX_PACKET_SIZE, channel_id < CHANNEL_COUNT
        ensures final(self).cfg() == old(self).cfg(), final(self).submitted() == old(self).submitted().push(Submit { data: data@, channel: channel_id, mode }) { }
    #[verifier::external_body]
    pub fn handle_data_frame(&mut self, f: DataFrame) ensures final(self).kept(old(self)) { }
    #[verifier::external_body]
    pub fn handle_ack_frame(&mut self, f: AckFrame) ensures final(self).kept(old(self)) { }
    #[verifier::external_body]
    pub fn handle_sync_frame(&mut self, f: SyncFrame) ensures final(self).kept(old(self)) { }
    #[verifier::external_body]
    pub fn step(&mut self) ensures final(self).kept(old(self)) { }
    #[verifier::external_body]
    pub fn is_send_pending(&self) -> (r: bool) ensures r == self.pending() { false }
    #[verifier::external_body]
    pub fn send_buffer_size(&self) -> (r: usize) ensures r == self.buffered() { 0 }
}
// stands for `hc.flush(&mut UdpFrameSink::new(&socket, address))`
#[verifier::external_body]
pub fn flush_to(hc: &mut HalfConnection, s: &mut UdpSocket, to: SocketAddr)
    ensures final(hc).kept(old(hc)), final(s).got() == old(s).got(), final(s).peer() == old(s).peer(), old(s).sent().len() <= final(s).sent().len(), final(s).sent().take(old(s).sent().len() as int) == old(s).sent(),
        forall|i: int| old(s).sent().len() <= i < final(s).sent().len() ==> (#[trigger] final(s).sent()[i]).to == to { }
// ---- what the two ends of a connection agree on
pub open spec fn hc_config(tx_nonce: u32, rx_nonce: u32, c: EndpointConfig, remote_rate: u32, remote_alloc: u32) -> HcConfig {
    HcConfig {
        tx_frame_base_id: tx_nonce, rx_frame_base_id: rx_nonce, tx_frame_window_size: MAX_FRAME_WINDOW_SIZE, rx_frame_window_size: MAX_FRAME_WINDOW_SIZE,
        tx_packet_base_id: tx_nonce & 0xFFFFF, rx_packet_base_id: rx_nonce & 0xFFFFF, tx_packet_window_size: 4096, rx_packet_window_size: 4096,
        tx_bandwidth_limit: low(c.max_send_rate, remote_rate), tx_alloc_limit: remote_alloc as usize, rx_alloc_limit: c.max_receive_alloc,
        keepalive_interval_ms: if c.keepalive { Some(c.keepalive_interval_ms) } else { None },
    }
}
