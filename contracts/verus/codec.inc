//@ take src/frame/serial/mod.rs const HANDSHAKE_SYN_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_SYN_ACK_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_ACK_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_ERROR_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const DISCONNECT_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const DISCONNECT_ACK_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const DATA_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const SYNC_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const ACK_FRAME_ID
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_SYN_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_SYN_ACK_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_ACK_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const HANDSHAKE_ERROR_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const DISCONNECT_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const DISCONNECT_ACK_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const DATAGRAM_HEADER_SIZE_MIN
//@ end
//@ take src/frame/serial/mod.rs const DATA_FRAME_MAX_DATAGRAM_COUNT
//@ end
//@ take src/frame/serial/mod.rs const SYNC_FRAME_PAYLOAD_SIZE
//@ end
//@ take src/frame/serial/mod.rs const ACK_GROUP_SIZE
//@ end
//@ take src/frame/serial/mod.rs const ACK_FRAME_PAYLOAD_HEADER_SIZE
//@ end
//@ take src/frame/mod.rs struct HandshakeSynFrame
//@ end
//@ take src/frame/mod.rs struct HandshakeSynAckFrame
//@ end
//@ take src/frame/mod.rs struct HandshakeAckFrame
//@ end
//@ take src/frame/mod.rs enum HandshakeErrorType
//@ end
//@ take src/frame/mod.rs struct HandshakeErrorFrame
//@ end
//@ take src/frame/mod.rs struct DisconnectFrame
//@ end
//@ take src/frame/mod.rs struct DisconnectAckFrame
//@ end
//@ take src/frame/mod.rs struct Datagram
//@ end
//@ take src/frame/mod.rs struct DatagramRef
//@ end
//@ take src/frame/mod.rs struct DataFrame
//@ end
//@ take src/frame/mod.rs struct SyncFrame
//@ end
//@ take src/frame/mod.rs struct AckGroup
//@ end
//@ take src/frame/mod.rs struct AckFrame
//@ end
//@ take src/frame/mod.rs enum Frame
//@ end
// stands for `s.into()` : &[u8] -> Box<[u8]>
#[verifier::external_body]
pub fn box_slice(s: &[u8]) -> (r: Box<[u8]>) ensures r@ == s@ { s.into() }
pub assume_specification<T: std::clone::Clone> [ <[T]>::clone_from_slice ] (dst: &mut [T], src: &[T])
    requires old(dst)@.len() == src@.len()
    ensures final(dst)@.len() == src@.len(), forall|i: int| 0 <= i < src@.len() ==> vstd::pervasive::cloned(src@[i], #[trigger] final(dst)@[i]);

// ---- what a frame says (Box<[u8]> and &[u8] by content)
pub ghost struct DgV { pub sequence_id: u32, pub channel_id: u8, pub window_parent_lead: u16, pub channel_parent_lead: u16, pub fragment_id: u16, pub fragment_id_last: u16, pub data: Seq<u8> }
impl Datagram { pub open spec fn v(self) -> DgV { DgV { sequence_id: self.sequence_id, channel_id: self.channel_id, window_parent_lead: self.window_parent_lead, channel_parent_lead: self.channel_parent_lead, fragment_id: self.fragment_id, fragment_id_last: self.fragment_id_last, data: self.data@ } } }
impl<'a> DatagramRef<'a> { pub open spec fn v(self) -> DgV { DgV { sequence_id: self.sequence_id, channel_id: self.channel_id, window_parent_lead: self.window_parent_lead, channel_parent_lead: self.channel_parent_lead, fragment_id: self.fragment_id, fragment_id_last: self.fragment_id_last, data: self.data@ } } }
pub open spec fn dvs(s: Seq<Datagram>) -> Seq<DgV> { s.map_values(|d: Datagram| d.v()) }
pub ghost enum FrameV {
    Syn(HandshakeSynFrame), SynAck(HandshakeSynAckFrame), HsAck(HandshakeAckFrame), Error(HandshakeErrorFrame), Disconnect, DisconnectAck,
    Data(u32, bool, Seq<DgV>), Sync(SyncFrame), Ack(u32, u32, Seq<AckGroup>),
}
impl Frame { pub open spec fn v(self) -> FrameV { match self {
    Frame::HandshakeSynFrame(f) => FrameV::Syn(f), Frame::HandshakeSynAckFrame(f) => FrameV::SynAck(f), Frame::HandshakeAckFrame(f) => FrameV::HsAck(f), Frame::HandshakeErrorFrame(f) => FrameV::Error(f),
    Frame::DisconnectFrame(f) => FrameV::Disconnect, Frame::DisconnectAckFrame(f) => FrameV::DisconnectAck,
    Frame::DataFrame(f) => FrameV::Data(f.sequence_id, f.nonce, dvs(f.datagrams@)), Frame::SyncFrame(f) => FrameV::Sync(f), Frame::AckFrame(f) => FrameV::Ack(f.frame_window_base_id, f.packet_window_base_id, f.frame_acks@),
} } }
pub open spec fn ov(f: Option<Frame>) -> Option<FrameV> { match f { Some(f) => Some(f.v()), None => None } }
// a frame that can be represented on the wire
impl DgV { pub open spec fn rep(self) -> bool { self.channel_id < 64 && self.sequence_id <= 0xFFFFF && self.data.len() <= 0xFFFF && (self.fragment_id_last == 0 ==> self.fragment_id == 0) } }
impl FrameV { pub open spec fn rep(self) -> bool { match self {
    FrameV::Data(id, n, ds) => ds.len() <= 127 && forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).rep(),
    FrameV::Ack(a, b, gs) => gs.len() <= 65535,
    _ => true,
} } }

// ---- the wire format: reading
pub open spec fn be32(s: Seq<u8>, i: int) -> u32 { ((s[i] as u32) << 24) | ((s[i + 1] as u32) << 16) | ((s[i + 2] as u32) << 8) | (s[i + 3] as u32) }
pub open spec fn be16(s: Seq<u8>, i: int) -> u16 { ((s[i] as u16) << 8) | (s[i + 1] as u16) }
pub open spec fn dec_syn(s: Seq<u8>) -> Option<FrameV> {
    if s.len() != 1472 - 5 { None } else { Some(FrameV::Syn(HandshakeSynFrame { version: s[0], nonce: be32(s, 1), max_receive_rate: be32(s, 5), max_packet_size: be32(s, 9), max_receive_alloc: be32(s, 13) })) }
}
pub open spec fn dec_syn_ack(s: Seq<u8>) -> Option<FrameV> {
    if s.len() != 20 { None } else { Some(FrameV::SynAck(HandshakeSynAckFrame { nonce_ack: be32(s, 0), nonce: be32(s, 4), max_receive_rate: be32(s, 8), max_packet_size: be32(s, 12), max_receive_alloc: be32(s, 16) })) }
}
pub open spec fn dec_hs_ack(s: Seq<u8>) -> Option<FrameV> { if s.len() != 4 { None } else { Some(FrameV::HsAck(HandshakeAckFrame { nonce_ack: be32(s, 0) })) } }
pub open spec fn error_code(e: HandshakeErrorType) -> u8 { match e { HandshakeErrorType::Version => 0, HandshakeErrorType::Config => 1, HandshakeErrorType::ServerFull => 2 } }
pub open spec fn dec_error(s: Seq<u8>) -> Option<FrameV> {
    if s.len() != 5 || s[4] > 2 { None } else { Some(FrameV::Error(HandshakeErrorFrame { nonce_ack: be32(s, 0), error: if s[4] == 0 { HandshakeErrorType::Version } else if s[4] == 1 { HandshakeErrorType::Config } else { HandshakeErrorType::ServerFull } })) }
}
pub open spec fn dec_sync(s: Seq<u8>) -> Option<FrameV> {
    if s.len() != 9 { None } else { Some(FrameV::Sync(SyncFrame { next_frame_id: if s[0] & 0x01 != 0 { Some(be32(s, 1)) } else { None }, next_packet_id: if s[0] & 0x02 != 0 { Some(be32(s, 5)) } else { None } })) }
}
pub open spec fn dec_group(s: Seq<u8>) -> AckGroup { AckGroup { base_id: be32(s, 0), bitfield: be32(s, 4), nonce: s[8] != 0 } }
pub open spec fn dec_groups(s: Seq<u8>, n: int) -> Option<Seq<AckGroup>> decreases n {
    if n <= 0 { if s.len() == 0 { Some(seq![]) } else { None } }
    else if s.len() < 9 { None }
    else { match dec_groups(s.subrange(9, s.len() as int), n - 1) { None => None, Some(t) => Some(seq![dec_group(s)] + t) } }
}
pub open spec fn dec_ack(s: Seq<u8>) -> Option<FrameV> {
    if s.len() < 10 { None } else { match dec_groups(s.subrange(10, s.len() as int), be16(s, 8) as int) { None => None, Some(t) => Some(FrameV::Ack(be32(s, 0), be32(s, 4), t)) } }
}
pub open spec fn dec_dg(s: Seq<u8>) -> Option<(DgV, int)> {
    if s.len() < 6 { None }
    else if s[0] & 0x80 == 0 {
        let n = (s[0] & 0x3F) as int;
        if s.len() < 6 + n { None } else { Some((DgV {
            channel_id: ((s[4] >> 2) & 0x20) | ((s[0] >> 2) & 0x10) | (s[1] & 0x0F),
            sequence_id: (((s[1] & 0xF0) as u32) << 12) | ((s[2] as u32) << 8) | (s[3] as u32),
            window_parent_lead: (s[4] & 0x7F) as u16, channel_parent_lead: s[5] as u16, fragment_id: 0, fragment_id_last: 0, data: s.subrange(6, 6 + n) }, 6 + n)) }
    } else if s[0] & 0x40 == 0 {
        let n = s[1] as int;
        if s.len() < 9 + n { None } else { Some((DgV {
            channel_id: s[0] & 0x3F,
            sequence_id: (((s[2] & 0x0F) as u32) << 16) | ((s[3] as u32) << 8) | (s[4] as u32),
            window_parent_lead: be16(s, 5), channel_parent_lead: be16(s, 7), fragment_id: 0, fragment_id_last: 0, data: s.subrange(9, 9 + n) }, 9 + n)) }
    } else {
        let n = (((s[1] as usize) << 8) | (s[2] as usize)) as int;
        if s.len() < 14 + n { None } else { Some((DgV {
            channel_id: s[0] & 0x3F,
            sequence_id: (((s[3] & 0x0F) as u32) << 16) | ((s[4] as u32) << 8) | (s[5] as u32),
            window_parent_lead: be16(s, 6), channel_parent_lead: be16(s, 8), fragment_id: be16(s, 10), fragment_id_last: be16(s, 12), data: s.subrange(14, 14 + n) }, 14 + n)) }
    }
}
pub open spec fn dec_dgs(s: Seq<u8>, n: int) -> Option<Seq<DgV>> decreases n {
    if n <= 0 { if s.len() == 0 { Some(seq![]) } else { None } }
    else { match dec_dg(s) { None => None, Some((d, k)) => match dec_dgs(s.subrange(k, s.len() as int), n - 1) { None => None, Some(t) => Some(seq![d] + t) } } }
}
pub open spec fn dec_data(s: Seq<u8>) -> Option<FrameV> {
    if s.len() < 5 { None } else { match dec_dgs(s.subrange(5, s.len() as int), (s[4] & 0x7F) as int) { None => None, Some(t) => Some(FrameV::Data(be32(s, 0), s[4] & 0x80 != 0, t)) } }
}
pub open spec fn dec_payload(id: u8, s: Seq<u8>) -> Option<FrameV> {
    if id == 0 { dec_syn(s) } else if id == 1 { dec_syn_ack(s) } else if id == 2 { dec_hs_ack(s) } else if id == 3 { dec_error(s) }
    else if id == 4 { if s.len() == 0 { Some(FrameV::Disconnect) } else { None } } else if id == 5 { if s.len() == 0 { Some(FrameV::DisconnectAck) } else { None } }
    else if id == 10 { dec_data(s) } else if id == 11 { dec_sync(s) } else if id == 12 { dec_ack(s) } else { None }
}
pub open spec fn dec_frame(s: Seq<u8>) -> Option<FrameV> {
    let n = s.len() as int;
    if n < 5 { None } else if crc_of(s.subrange(0, n - 4)) != be32(s, n - 4) { None } else { dec_payload(s[0], s.subrange(1, n - 4)) }
}
// ---- the wire format: writing
pub open spec fn b32(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn enc_dg(d: DgV) -> Seq<u8> {
    let n = d.data.len() as u16;
    if d.fragment_id_last == 0 && n < 64 && d.window_parent_lead < 128 && d.channel_parent_lead < 256 {
        seq![n as u8 | ((d.channel_id & 0x10) << 2), (((d.sequence_id >> 12) as u8) & 0xF0) | (d.channel_id & 0x0F), (d.sequence_id >> 8) as u8, d.sequence_id as u8,
            d.window_parent_lead as u8 | ((d.channel_id & 0x20) << 2), d.channel_parent_lead as u8] + d.data
    } else if d.fragment_id_last == 0 && n < 256 {
        seq![d.channel_id | 0x80, n as u8, (d.sequence_id >> 16) as u8, (d.sequence_id >> 8) as u8, d.sequence_id as u8,
            (d.window_parent_lead >> 8) as u8, d.window_parent_lead as u8, (d.channel_parent_lead >> 8) as u8, d.channel_parent_lead as u8] + d.data
    } else {
        seq![d.channel_id | 0xC0, (n >> 8) as u8, n as u8, (d.sequence_id >> 16) as u8, (d.sequence_id >> 8) as u8, d.sequence_id as u8,
            (d.window_parent_lead >> 8) as u8, d.window_parent_lead as u8, (d.channel_parent_lead >> 8) as u8, d.channel_parent_lead as u8,
            (d.fragment_id >> 8) as u8, d.fragment_id as u8, (d.fragment_id_last >> 8) as u8, d.fragment_id_last as u8] + d.data
    }
}
pub open spec fn enc_dgs(ds: Seq<DgV>) -> Seq<u8> decreases ds.len() { if ds.len() == 0 { seq![] } else { enc_dgs(ds.drop_last()) + enc_dg(ds.last()) } }
pub open spec fn enc_group(g: AckGroup) -> Seq<u8> { b32(g.base_id) + b32(g.bitfield) + seq![g.nonce as u8] }
pub open spec fn enc_groups(gs: Seq<AckGroup>) -> Seq<u8> decreases gs.len() { if gs.len() == 0 { seq![] } else { enc_groups(gs.drop_last()) + enc_group(gs.last()) } }
pub open spec fn or0(o: Option<u32>) -> u32 { match o { Some(x) => x, None => 0 } }
pub open spec fn data_head(id: u32, nonce: bool) -> Seq<u8> { seq![10u8] + b32(id) + seq![(nonce as u8) << 7] }
pub open spec fn ack_head(fb: u32, pb: u32) -> Seq<u8> { seq![12u8] + b32(fb) + b32(pb) }
pub open spec fn enc_body(f: FrameV) -> Seq<u8> { match f {
    FrameV::Syn(f) => seq![0u8, f.version] + b32(f.nonce) + b32(f.max_receive_rate) + b32(f.max_packet_size) + b32(f.max_receive_alloc) + zeros(1472 - 4 - 18),
    FrameV::SynAck(f) => seq![1u8] + b32(f.nonce_ack) + b32(f.nonce) + b32(f.max_receive_rate) + b32(f.max_packet_size) + b32(f.max_receive_alloc),
    FrameV::HsAck(f) => seq![2u8] + b32(f.nonce_ack),
    FrameV::Error(f) => seq![3u8] + b32(f.nonce_ack) + seq![error_code(f.error)],
    FrameV::Disconnect => seq![4u8],
    FrameV::DisconnectAck => seq![5u8],
    FrameV::Data(id, nonce, ds) => seq![10u8] + b32(id) + seq![((nonce as u8) << 7) | (ds.len() as u8)] + enc_dgs(ds),
    FrameV::Sync(f) => seq![11u8, (((f.next_frame_id is Some) as u8) << 0) | (((f.next_packet_id is Some) as u8) << 1)] + b32(or0(f.next_frame_id)) + b32(or0(f.next_packet_id)),
    FrameV::Ack(fb, pb, gs) => ack_head(fb, pb) + seq![((gs.len() as u16) >> 8) as u8, (gs.len() as u16) as u8] + enc_groups(gs),
} }
pub open spec fn sealed(b: Seq<u8>) -> Seq<u8> { b + b32(crc_of(b)) }
pub open spec fn enc_frame(f: FrameV) -> Seq<u8> { sealed(enc_body(f)) }

// ---- crc
//@ take src/frame/serial/crc.rs static PARTIAL_RESULTS
//@ end
//@ take src/frame/serial/crc.rs static INITIAL_CRC
//@ end
pub open spec fn crc_step(c: u32, b: u8) -> u32 { (c >> 8) ^ PARTIAL_RESULTS[(c as u8 ^ b) as int] }
pub open spec fn crc_ext(c: u32, s: Seq<u8>) -> u32 decreases s.len() { if s.len() == 0 { c } else { crc_step(crc_ext(c, s.drop_last()), s.last()) } }
pub open spec fn crc_of(s: Seq<u8>) -> u32 { crc_ext(INITIAL_CRC, s) }
//@ take src/frame/serial/crc.rs fn extend
//@ ret r
//@ sub /for &(\w+) in ([^{]*)\{/for \1_ref in \2{ let \1 = *\1_ref;/
//@ spec
    ensures r == crc_ext(initial_crc, data@), // C16
//@ loop 0 it
    invariant crc == crc_ext(initial_crc, data@.take(it.index@)),
//@ body 0
    proof { let p = it.index@; assert(data@.take(p + 1).drop_last() =~= data@.take(p)); }
//@ before /return crc/
    proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ end
//@ take src/frame/serial/crc.rs fn compute
//@ ret r
//@ spec
    ensures r == crc_of(data@), // C16
//@ end

// ---- reading
//@ take src/frame/serial/mod.rs fn read_handshake_syn_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_syn(data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_handshake_syn_ack_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_syn_ack(data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_handshake_ack_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_hs_ack(data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_handshake_error_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_error(data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_disconnect_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_payload(4, data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_disconnect_ack_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_payload(5, data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_datagram
//@ ret r
//@ sub /= (data\[header_size \.\. [^\]]*\])\.into\(\);/= box_slice(&\1);/
//@ spec
    ensures match r { Some((d, n)) => dec_dg(data@) == Some((d.v(), n as int)), None => dec_dg(data@) is None }, // C16
//@ start
    proof { header_facts(); }
//@ end
//@ take src/frame/serial/mod.rs fn read_data_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_data(data@), // C16
//@ loop 0 it
    invariant
        datagram_num as int == (data@[4] & 0x7F) as int, data@.len() >= 5,
        dec_dgs(data@.subrange(5, data@.len() as int), datagram_num as int) == prepend(dvs(datagrams@), dec_dgs(data_slice@, datagram_num - it.index@)), // C16
//@ before /return None/2
        proof { assert(dec_dgs(data_slice@, datagram_num - it.index@) is None); }
//@ end
pub open spec fn prepend<T>(a: Seq<T>, o: Option<Seq<T>>) -> Option<Seq<T>> { match o { Some(t) => Some(a + t), None => None } }
pub proof fn header_facts() ensures
    forall|a: u8| #[trigger] (a & 0x3F) <= 63,
    forall|a: u8| #[trigger] (a & 0x7F) <= 127,
    forall|a: usize, b: usize| a <= 255 && b <= 255 ==> #[trigger] ((a << 8) | b) <= 65535,
{
    assert(forall|a: u8| #[trigger] (a & 0x3F) <= 63) by (bit_vector);
    assert(forall|a: u8| #[trigger] (a & 0x7F) <= 127) by (bit_vector);
    assert(forall|a: usize, b: usize| a <= 255 && b <= 255 ==> #[trigger] ((a << 8) | b) <= 65535) by (bit_vector);
}
//@ take src/frame/serial/mod.rs fn read_sync_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_sync(data@), // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_frame_ack
//@ ret r
//@ spec
    ensures match r { Some((g, n)) => data@.len() >= 9 && g == dec_group(data@) && n == 9, None => data@.len() < 9 }, // C16
//@ end
//@ take src/frame/serial/mod.rs fn read_ack_payload
//@ ret r
//@ spec
    ensures ov(r) == dec_ack(data@), // C16
//@ loop 0 it
    invariant
        frame_ack_num == be16(data@, 8), data@.len() >= 10,
        dec_groups(data@.subrange(10, data@.len() as int), frame_ack_num as int) == prepend(frame_acks@, dec_groups(data_slice@, frame_ack_num - it.index@)), // C16
//@ end
impl Frame {
//@ take src/frame/serial/mod.rs fn Frame::read
//@ ret r
//@ spec
    // what is accepted, and as what, is exactly dec_frame
    ensures ov(r) == dec_frame(frame_bytes@), // C16
        r matches Some(f) ==> sane(f.v()), // C03/C01
//@ start
    proof { frame_sane(frame_bytes@); }
//@ end
}
// ---- writing
//@ take src/frame/serial/mod.rs fn write_handshake_syn
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::Syn(*frame)), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::Syn(*frame)); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/mod.rs fn write_handshake_syn_ack
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::SynAck(*frame)), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::SynAck(*frame)); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/mod.rs fn write_handshake_ack
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::HsAck(*frame)), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::HsAck(*frame)); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/mod.rs fn write_handshake_error
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::Error(*frame)), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::Error(*frame)); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/mod.rs fn write_disconnect
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::Disconnect), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::Disconnect); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/mod.rs fn write_disconnect_ack
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::DisconnectAck), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::DisconnectAck); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/mod.rs fn write_sync
//@ ret r
//@ spec
    ensures r@ == enc_frame(FrameV::Sync(*frame)), // C16
//@ before /return frame_bytes/
    proof { let b = enc_body(FrameV::Sync(*frame)); assert(data_bytes@ =~= b); assert(frame_bytes@ =~= b + b32(crc)); }
//@ end
//@ take src/frame/serial/build.rs struct DataFrameBuilder
//@ end
//@ take src/frame/serial/build.rs struct AckFrameBuilder
//@ end
impl<'a> DatagramRef<'a> {
// From<&Datagram> for DatagramRef
//@ take src/frame/mod.rs fn DatagramRef::from
//@ ret r
//@ spec
    ensures r.v() == obj.v(), // C16
//@ end
}
impl DataFrameBuilder {
    // the datagrams ds have been added
    pub open spec fn has(self, id: u32, nonce: bool, ds: Seq<DgV>) -> bool { self.buffer@ == data_head(id, nonce) + enc_dgs(ds) && self.count == ds.len() }
//@ take src/frame/serial/build.rs const DataFrameBuilder::MAX_COUNT
//@ end
//@ take src/frame/serial/build.rs fn DataFrameBuilder::new
//@ ret r
//@ spec
    ensures r.has(sequence_id, nonce, seq![]), // C16
//@ before /Self \{/
    proof { assert(header@ =~= data_head(sequence_id, nonce) + enc_dgs(seq![])); }
//@ end
//@ take src/frame/serial/build.rs fn DataFrameBuilder::add
//@ spec
    requires datagram.v().rep(), old(self).count < 127,
    ensures final(self).buffer@ == old(self).buffer@ + enc_dg(datagram.v()), // C16
        final(self).count == old(self).count + 1, // C16
//@ end
//@ take src/frame/serial/build.rs fn DataFrameBuilder::build
//@ sub /\bself\./this./
//@ sub /\(mut self\)([^{]*)\{/(self)\1{ let mut this = self;/!
//@ ret r
//@ spec
    requires self.count <= 127, self.buffer@.len() >= 6,
    ensures r@ == sealed(self.buffer@.update(5, self.buffer@[5] | self.count as u8)), // C16
//@ end
//@ take src/frame/serial/build.rs fn DataFrameBuilder::count
//@ ret r
//@ spec
    ensures r == self.count,
//@ end
//@ take src/frame/serial/build.rs fn DataFrameBuilder::size
//@ ret r
//@ spec
    requires self.buffer@.len() + 4 <= usize::MAX,
    ensures r == self.buffer@.len() + 4, // C04/C13/C16
//@ end
//@ take src/frame/serial/build.rs fn DataFrameBuilder::encoded_size
//@ ret r
//@ spec
    requires datagram.v().rep(),
    ensures r == enc_dg(datagram.v()).len(), // C04/C13/C16
//@ end
}
impl AckFrameBuilder {
//@ take src/frame/serial/build.rs fn AckFrameBuilder::new
//@ ret r
//@ spec
    ensures r.buffer@ == ack_head(frame_window_base_id, packet_window_base_id) + seq![0u8, 0u8], r.count == 0, // C16
//@ end
//@ take src/frame/serial/build.rs fn AckFrameBuilder::add
//@ spec
    requires old(self).count < 65535,
    ensures final(self).buffer@ == old(self).buffer@ + enc_group(*frame_ack), final(self).count == old(self).count + 1, // C16
//@ end
//@ take src/frame/serial/build.rs fn AckFrameBuilder::build
//@ sub /\bself\./this./
//@ sub /\(mut self\)([^{]*)\{/(self)\1{ let mut this = self;/!
//@ ret r
//@ spec
    requires self.buffer@.len() >= 11,
    ensures r@ == sealed(self.buffer@.update(9, (self.count >> 8) as u8).update(10, self.count as u8)), // C16
//@ end
//@ take src/frame/serial/build.rs fn AckFrameBuilder::size
//@ ret r
//@ spec
    requires self.buffer@.len() + 4 <= usize::MAX,
    ensures r == self.buffer@.len() + 4, // C13/C16
//@ end
//@ take src/frame/serial/build.rs fn AckFrameBuilder::encoded_size
//@ ret r
//@ spec
    ensures r == enc_group(*_frame_ack).len(), // C13/C16
//@ end
}

//@ take src/frame/serial/mod.rs fn write_data
//@ ret r
//@ sub /&(\w+)\.into\(\)/&DatagramRef::from(\1)/
//@ spec
    requires FrameV::Data(frame.sequence_id, frame.nonce, dvs(frame.datagrams@)).rep(),
    ensures r@ == enc_frame(FrameV::Data(frame.sequence_id, frame.nonce, dvs(frame.datagrams@))), // C16
//@ loop 0 it
    invariant builder.has(frame.sequence_id, frame.nonce, dvs(frame.datagrams@.take(it.index@))), // C16
        FrameV::Data(frame.sequence_id, frame.nonce, dvs(frame.datagrams@)).rep(), frame.datagrams@.len() <= 127,
//@ body 0
    proof {
        let p = it.index@;
        assert(dvs(frame.datagrams@)[p] == datagram.v());
        let a = dvs(frame.datagrams@.take(p + 1));
        assert(a.drop_last() =~= dvs(frame.datagrams@.take(p))); assert(a.last() == datagram.v());
    }
//@ bodyend 0
    proof { let p = it.index@; assert(builder.buffer@ =~= data_head(frame.sequence_id, frame.nonce) + enc_dgs(dvs(frame.datagrams@.take(p + 1)))); }
//@ before /builder\.build\(\)/
    proof {
        assert(frame.datagrams@.take(frame.datagrams@.len() as int) =~= frame.datagrams@);
        data_body(frame.sequence_id, frame.nonce, dvs(frame.datagrams@));
    }
//@ end
pub proof fn data_body(id: u32, nonce: bool, ds: Seq<DgV>)
    ensures ({ let b = data_head(id, nonce) + enc_dgs(ds); b.len() >= 6 && b.update(5, b[5] | ds.len() as u8) == enc_body(FrameV::Data(id, nonce, ds)) }), // C16
{ let b = data_head(id, nonce) + enc_dgs(ds); assert(b.update(5, b[5] | ds.len() as u8) =~= enc_body(FrameV::Data(id, nonce, ds))); }
pub proof fn ack_body(fb: u32, pb: u32, gs: Seq<AckGroup>)
    ensures ({ let b = ack_head(fb, pb) + seq![0u8, 0u8] + enc_groups(gs); b.len() >= 11 && b.update(9, ((gs.len() as u16) >> 8) as u8).update(10, (gs.len() as u16) as u8) == enc_body(FrameV::Ack(fb, pb, gs)) }), // C16
{ let b = ack_head(fb, pb) + seq![0u8, 0u8] + enc_groups(gs); assert(b.update(9, ((gs.len() as u16) >> 8) as u8).update(10, (gs.len() as u16) as u8) =~= enc_body(FrameV::Ack(fb, pb, gs))); }
//@ take src/frame/serial/mod.rs fn write_ack
//@ ret r
//@ spec
    requires frame.frame_acks@.len() <= 65535,
    ensures r@ == enc_frame(FrameV::Ack(frame.frame_window_base_id, frame.packet_window_base_id, frame.frame_acks@)), // C16
//@ loop 0 it
    invariant builder.buffer@ == ack_head(frame.frame_window_base_id, frame.packet_window_base_id) + seq![0u8, 0u8] + enc_groups(frame.frame_acks@.take(it.index@)), builder.count == it.index@, // C16
        frame.frame_acks@.len() <= 65535,
//@ body 0
    proof { let p = it.index@; let a = frame.frame_acks@.take(p + 1); assert(a.drop_last() =~= frame.frame_acks@.take(p)); assert(a.last() == *frame_ack); }
//@ bodyend 0
    proof { let p = it.index@; assert(builder.buffer@ =~= ack_head(frame.frame_window_base_id, frame.packet_window_base_id) + seq![0u8, 0u8] + enc_groups(frame.frame_acks@.take(p + 1))); }
//@ before /builder\.build\(\)/
    proof {
        assert(frame.frame_acks@.take(frame.frame_acks@.len() as int) =~= frame.frame_acks@);
        ack_body(frame.frame_window_base_id, frame.packet_window_base_id, frame.frame_acks@);
    }
//@ end
impl Frame {
//@ take src/frame/serial/mod.rs fn Frame::write
//@ ret r
//@ spec
    requires self.v().rep(),
    ensures r@ == enc_frame(self.v()), // C16
//@ end
}
// ---- the theorems
pub proof fn be_b(x: u32) ensures be32(b32(x), 0) == x
{
    assert((((x >> 24) as u8 as u32) << 24) | (((x >> 16) as u8 as u32) << 16) | (((x >> 8) as u8 as u32) << 8) | (x as u8 as u32) == x) by (bit_vector);
}
pub proof fn be_at(s: Seq<u8>, i: int, x: u32) requires 0 <= i, i + 4 <= s.len(), s.subrange(i, i + 4) == b32(x) ensures be32(s, i) == x
{
    be_b(x); let t = s.subrange(i, i + 4);
    assert(t[0] == s[i] && t[1] == s[i + 1] && t[2] == s[i + 2] && t[3] == s[i + 3]);
}
pub proof fn be2(x: u16) ensures (((x >> 8) as u8 as u16) << 8) | (x as u8 as u16) == x { assert((((x >> 8) as u8 as u16) << 8) | (x as u8 as u16) == x) by (bit_vector); }
pub proof fn micro_bits(n: u8, c: u8, q: u32, w: u16, h: u16) requires n < 64, c < 64, q <= 0xFFFFF, w < 128, h < 256
    ensures ({ let b0 = n | ((c & 0x10) << 2); let b1 = (((q >> 12) as u8) & 0xF0) | (c & 0x0F); let b2 = (q >> 8) as u8; let b3 = q as u8; let b4 = w as u8 | ((c & 0x20) << 2);
        b0 & 0x80 == 0 && b0 & 0x3F == n && ((b4 >> 2) & 0x20) | ((b0 >> 2) & 0x10) | (b1 & 0x0F) == c && (((b1 & 0xF0) as u32) << 12) | ((b2 as u32) << 8) | (b3 as u32) == q && (b4 & 0x7F) as u16 == w && h as u8 as u16 == h })
{
    let b0 = n | ((c & 0x10) << 2); let b1 = (((q >> 12) as u8) & 0xF0) | (c & 0x0F); let b2 = (q >> 8) as u8; let b3 = q as u8; let b4 = w as u8 | ((c & 0x20) << 2);
    assert(b0 & 0x80 == 0 && b0 & 0x3F == n && ((b4 >> 2) & 0x20) | ((b0 >> 2) & 0x10) | (b1 & 0x0F) == c && (((b1 & 0xF0) as u32) << 12) | ((b2 as u32) << 8) | (b3 as u32) == q && (b4 & 0x7F) as u16 == w && h as u8 as u16 == h) by (bit_vector)
        requires n < 64, c < 64, q <= 0xFFFFF, w < 128, h < 256, b0 == n | ((c & 0x10) << 2), b1 == (((q >> 12) as u8) & 0xF0) | (c & 0x0F), b2 == (q >> 8) as u8, b3 == q as u8, b4 == w as u8 | ((c & 0x20) << 2);
}
pub proof fn big_bits(n: u16, c: u8, q: u32) requires c < 64, q <= 0xFFFFF
    ensures ({ let s0 = c | 0x80; let l0 = c | 0xC0; let b2 = (q >> 16) as u8; let b3 = (q >> 8) as u8; let b4 = q as u8;
        s0 & 0x80 != 0 && s0 & 0x40 == 0 && s0 & 0x3F == c && l0 & 0x80 != 0 && l0 & 0x40 != 0 && l0 & 0x3F == c && (((b2 & 0x0F) as u32) << 16) | ((b3 as u32) << 8) | (b4 as u32) == q
        && (((n >> 8) as u8 as usize) << 8) | (n as u8 as usize) == n as usize && (n < 256 ==> n as u8 == n) })
{
    let s0 = c | 0x80; let l0 = c | 0xC0; let b2 = (q >> 16) as u8; let b3 = (q >> 8) as u8; let b4 = q as u8;
    assert(s0 & 0x80 != 0 && s0 & 0x40 == 0 && s0 & 0x3F == c && l0 & 0x80 != 0 && l0 & 0x40 != 0 && l0 & 0x3F == c && (((b2 & 0x0F) as u32) << 16) | ((b3 as u32) << 8) | (b4 as u32) == q) by (bit_vector)
        requires c < 64, q <= 0xFFFFF, s0 == c | 0x80, l0 == c | 0xC0, b2 == (q >> 16) as u8, b3 == (q >> 8) as u8, b4 == q as u8;
    assert((((n >> 8) as u8 as usize) << 8) | (n as u8 as usize) == n as usize) by (bit_vector);
}
// one datagram comes back, and takes exactly its own bytes
pub proof fn dg_roundtrip(d: DgV, rest: Seq<u8>) requires d.rep()
    ensures dec_dg(enc_dg(d) + rest) == Some((d, enc_dg(d).len() as int)), // C16/C01
        ({ let e = enc_dg(d); (e + rest).subrange(e.len() as int, (e + rest).len() as int) == rest }),
{
    let e = enc_dg(d); let s = e + rest; let n = d.data.len() as u16;
    assert(s.subrange(e.len() as int, s.len() as int) =~= rest);
    big_bits(n, d.channel_id, d.sequence_id); be2(d.window_parent_lead); be2(d.channel_parent_lead); be2(d.fragment_id); be2(d.fragment_id_last);
    if d.fragment_id_last == 0 && n < 64 && d.window_parent_lead < 128 && d.channel_parent_lead < 256 {
        micro_bits(n as u8, d.channel_id, d.sequence_id, d.window_parent_lead, d.channel_parent_lead);
        assert(s.subrange(6, 6 + n) =~= d.data);
    } else if d.fragment_id_last == 0 && n < 256 {
        assert(s.subrange(9, 9 + n) =~= d.data);
    } else {
        assert(s.subrange(14, 14 + n) =~= d.data);
    }
}
pub proof fn enc_dgs_first(ds: Seq<DgV>) requires ds.len() > 0
    ensures enc_dgs(ds) == enc_dg(ds[0]) + enc_dgs(ds.subrange(1, ds.len() as int)) decreases ds.len()
{
    let t = ds.subrange(1, ds.len() as int);
    if ds.len() == 1 { assert(ds.drop_last() =~= seq![]); assert(t =~= seq![]); assert(enc_dgs(ds) =~= enc_dg(ds[0]) + enc_dgs(t)); }
    else {
        let d = ds.drop_last(); enc_dgs_first(d);
        assert(t.drop_last() =~= d.subrange(1, d.len() as int)); assert(t.last() == ds.last());
        assert(enc_dgs(ds) =~= enc_dg(ds[0]) + enc_dgs(t));
    }
}
pub proof fn dgs_roundtrip(ds: Seq<DgV>) requires forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).rep()
    ensures dec_dgs(enc_dgs(ds), ds.len() as int) == Some(ds) decreases ds.len()
{
    if ds.len() > 0 {
        let t = ds.subrange(1, ds.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).rep() by { assert(ds[i + 1].rep()); }
        enc_dgs_first(ds); dg_roundtrip(ds[0], enc_dgs(t)); dgs_roundtrip(t);
        assert(seq![ds[0]] + t =~= ds);
    } else { assert(ds =~= seq![]); }
}
pub proof fn enc_groups_first(ds: Seq<AckGroup>) requires ds.len() > 0
    ensures enc_groups(ds) == enc_group(ds[0]) + enc_groups(ds.subrange(1, ds.len() as int)) decreases ds.len()
{
    let t = ds.subrange(1, ds.len() as int);
    if ds.len() == 1 { assert(ds.drop_last() =~= seq![]); assert(t =~= seq![]); assert(enc_groups(ds) =~= enc_group(ds[0]) + enc_groups(t)); }
    else {
        let d = ds.drop_last(); enc_groups_first(d);
        assert(t.drop_last() =~= d.subrange(1, d.len() as int)); assert(t.last() == ds.last());
        assert(enc_groups(ds) =~= enc_group(ds[0]) + enc_groups(t));
    }
}
pub proof fn groups_roundtrip(gs: Seq<AckGroup>) ensures dec_groups(enc_groups(gs), gs.len() as int) == Some(gs) decreases gs.len()
{
    if gs.len() > 0 {
        let t = gs.subrange(1, gs.len() as int); let g = gs[0];
        enc_groups_first(gs); groups_roundtrip(t);
        let e = enc_group(g); let s = e + enc_groups(t);
        assert(s.subrange(9, s.len() as int) =~= enc_groups(t));
        assert(s.subrange(0, 4) =~= b32(g.base_id)); be_at(s, 0, g.base_id);
        assert(s.subrange(4, 8) =~= b32(g.bitfield)); be_at(s, 4, g.bitfield);
        assert(seq![g] + t =~= gs);
    } else { assert(gs =~= seq![]); }
}
pub proof fn payload_roundtrip(f: FrameV) requires f.rep()
    ensures ({ let b = enc_body(f); b.len() >= 1 && dec_payload(b[0], b.subrange(1, b.len() as int)) == Some(f) }), // C16
{
    let b = enc_body(f); let s = b.subrange(1, b.len() as int);
    match f {
        FrameV::Syn(f) => {
            assert(s.subrange(1, 5) =~= b32(f.nonce)); be_at(s, 1, f.nonce);
            assert(s.subrange(5, 9) =~= b32(f.max_receive_rate)); be_at(s, 5, f.max_receive_rate);
            assert(s.subrange(9, 13) =~= b32(f.max_packet_size)); be_at(s, 9, f.max_packet_size);
            assert(s.subrange(13, 17) =~= b32(f.max_receive_alloc)); be_at(s, 13, f.max_receive_alloc);
        },
        FrameV::SynAck(f) => {
            assert(s.subrange(0, 4) =~= b32(f.nonce_ack)); be_at(s, 0, f.nonce_ack);
            assert(s.subrange(4, 8) =~= b32(f.nonce)); be_at(s, 4, f.nonce);
            assert(s.subrange(8, 12) =~= b32(f.max_receive_rate)); be_at(s, 8, f.max_receive_rate);
            assert(s.subrange(12, 16) =~= b32(f.max_packet_size)); be_at(s, 12, f.max_packet_size);
            assert(s.subrange(16, 20) =~= b32(f.max_receive_alloc)); be_at(s, 16, f.max_receive_alloc);
        },
        FrameV::HsAck(f) => { assert(s.subrange(0, 4) =~= b32(f.nonce_ack)); be_at(s, 0, f.nonce_ack); },
        FrameV::Error(f) => { assert(s.subrange(0, 4) =~= b32(f.nonce_ack)); be_at(s, 0, f.nonce_ack); },
        FrameV::Disconnect => {}, FrameV::DisconnectAck => {},
        FrameV::Data(id, nonce, ds) => {
            assert(s.subrange(0, 4) =~= b32(id)); be_at(s, 0, id);
            assert(s.subrange(5, s.len() as int) =~= enc_dgs(ds));
            let k = ds.len() as u8; let nb = (nonce as u8) << 7; let m = nonce as u8;
            assert((((m << 7) | k) & 0x7F == k) && ((((m << 7) | k) & 0x80 != 0) == (m == 1))) by (bit_vector) requires k <= 127, m == 0 || m == 1;
            dgs_roundtrip(ds);
        },
        FrameV::Sync(f) => {
            assert(s.subrange(1, 5) =~= b32(or0(f.next_frame_id))); be_at(s, 1, or0(f.next_frame_id));
            assert(s.subrange(5, 9) =~= b32(or0(f.next_packet_id))); be_at(s, 5, or0(f.next_packet_id));
            let x = (f.next_frame_id is Some) as u8; let y = (f.next_packet_id is Some) as u8;
            assert((((x << 0) | (y << 1)) & 0x01 != 0) == (x == 1) && (((x << 0) | (y << 1)) & 0x02 != 0) == (y == 1)) by (bit_vector) requires x == 0 || x == 1, y == 0 || y == 1;
        },
        FrameV::Ack(fb, pb, gs) => {
            assert(s.subrange(0, 4) =~= b32(fb)); be_at(s, 0, fb);
            assert(s.subrange(4, 8) =~= b32(pb)); be_at(s, 4, pb);
            assert(s.subrange(10, s.len() as int) =~= enc_groups(gs));
            be2(gs.len() as u16);
            groups_roundtrip(gs);
        },
    }
}
// Serialising any representable frame and parsing the bytes yields the same frame
pub proof fn roundtrip(f: FrameV) requires f.rep()
    ensures dec_frame(enc_frame(f)) == Some(f), // C16
{
    payload_roundtrip(f);
    let b = enc_body(f); let s = enc_frame(f); let n = s.len() as int;
    assert(s.subrange(0, n - 4) =~= b); assert(s.subrange(n - 4, n) =~= b32(crc_of(b))); be_at(s, n - 4, crc_of(b));
    assert(s.subrange(1, n - 4) =~= b.subrange(1, b.len() as int));
}
// ---- the CRC step is affine in the register and the byte
pub open spec fn bit(x: u8, k: u8, v: u32) -> u32 { if (x >> k) & 1 == 1 { v } else { 0 } }
pub open spec fn lin(x: u8, b0: u32, b1: u32, b2: u32, b3: u32, b4: u32, b5: u32, b6: u32, b7: u32) -> u32 {
    bit(x, 0, b0) ^ bit(x, 1, b1) ^ bit(x, 2, b2) ^ bit(x, 3, b3) ^ bit(x, 4, b4) ^ bit(x, 5, b5) ^ bit(x, 6, b6) ^ bit(x, 7, b7)
}
pub open spec fn tl(x: u8) -> u32 {
    let t = PARTIAL_RESULTS; let c = t[0];
    c ^ lin(x, t[1] ^ c, t[2] ^ c, t[4] ^ c, t[8] ^ c, t[16] ^ c, t[32] ^ c, t[64] ^ c, t[128] ^ c)
}
pub open spec fn all_lin(n: int) -> bool decreases n { n <= 0 || (PARTIAL_RESULTS[n - 1] == tl((n - 1) as u8) && all_lin(n - 1)) }
pub proof fn table() ensures all_lin(256) { assert(all_lin(256)) by (compute_only); } // C16
pub proof fn lin_entry(n: int, i: int) requires all_lin(n), 0 <= i < n <= 256 ensures PARTIAL_RESULTS[i] == tl(i as u8) decreases n { if i < n - 1 { lin_entry(n - 1, i); } }
pub proof fn bit_sum(x: u8, y: u8, k: u8, v: u32) requires k < 8 ensures bit(x ^ y, k, v) == bit(x, k, v) ^ bit(y, k, v)
{
    assert(((x ^ y) >> k) & 1 == ((x >> k) & 1) ^ ((y >> k) & 1)) by (bit_vector);
    assert(forall|a: u8| #[trigger] ((a >> k) & 1) == 0 || (a >> k) & 1 == 1) by (bit_vector);
    assert(0u8 ^ 0u8 == 0 && 0u8 ^ 1u8 == 1 && 1u8 ^ 0u8 == 1 && 1u8 ^ 1u8 == 0) by (bit_vector);
    assert(v ^ v == 0 && v ^ 0 == v && 0 ^ v == v && 0u32 ^ 0u32 == 0) by (bit_vector);
}
pub proof fn tl_sum(x: u8, y: u8) ensures tl(x ^ y) == tl(x) ^ tl(y) ^ PARTIAL_RESULTS[0]
{
    let t = PARTIAL_RESULTS; let c = t[0];
    let (v0, v1, v2, v3, v4, v5, v6, v7) = (t[1] ^ c, t[2] ^ c, t[4] ^ c, t[8] ^ c, t[16] ^ c, t[32] ^ c, t[64] ^ c, t[128] ^ c);
    bit_sum(x, y, 0, v0); bit_sum(x, y, 1, v1); bit_sum(x, y, 2, v2); bit_sum(x, y, 3, v3); bit_sum(x, y, 4, v4); bit_sum(x, y, 5, v5); bit_sum(x, y, 6, v6); bit_sum(x, y, 7, v7);
    let (a0, a1, a2, a3, a4, a5, a6, a7) = (bit(x, 0, v0), bit(x, 1, v1), bit(x, 2, v2), bit(x, 3, v3), bit(x, 4, v4), bit(x, 5, v5), bit(x, 6, v6), bit(x, 7, v7));
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (bit(y, 0, v0), bit(y, 1, v1), bit(y, 2, v2), bit(y, 3, v3), bit(y, 4, v4), bit(y, 5, v5), bit(y, 6, v6), bit(y, 7, v7));
    assert(c ^ ((a0 ^ b0) ^ (a1 ^ b1) ^ (a2 ^ b2) ^ (a3 ^ b3) ^ (a4 ^ b4) ^ (a5 ^ b5) ^ (a6 ^ b6) ^ (a7 ^ b7))
        == (c ^ (a0 ^ a1 ^ a2 ^ a3 ^ a4 ^ a5 ^ a6 ^ a7)) ^ (c ^ (b0 ^ b1 ^ b2 ^ b3 ^ b4 ^ b5 ^ b6 ^ b7)) ^ c) by (bit_vector);
}
// the change an error makes to the register
pub open spec fn syn_step(c: u32, b: u8) -> u32 { (c >> 8) ^ (PARTIAL_RESULTS[(c as u8 ^ b) as int] ^ PARTIAL_RESULTS[0]) }
pub open spec fn syn_ext(c: u32, s: Seq<u8>) -> u32 decreases s.len() { if s.len() == 0 { c } else { syn_step(syn_ext(c, s.drop_last()), s.last()) } }
pub proof fn step_sum(c: u32, d: u32, b: u8, x: u8)
    ensures crc_step(c ^ d, b ^ x) == crc_step(c, b) ^ syn_step(d, x), syn_step(c ^ d, b ^ x) == syn_step(c, b) ^ syn_step(d, x)
{
    table();
    let i = c as u8 ^ b; let j = d as u8 ^ x;
    assert((c ^ d) as u8 ^ (b ^ x) == (c as u8 ^ b) ^ (d as u8 ^ x)) by (bit_vector);
    assert((c ^ d) >> 8 == (c >> 8) ^ (d >> 8)) by (bit_vector);
    lin_entry(256, i as int); lin_entry(256, j as int); lin_entry(256, (i ^ j) as int); tl_sum(i, j);
    let t0 = PARTIAL_RESULTS[0]; let ti = PARTIAL_RESULTS[i as int]; let tj = PARTIAL_RESULTS[j as int]; let (p, q) = (c >> 8, d >> 8);
    assert((p ^ q) ^ (ti ^ tj ^ t0) == (p ^ ti) ^ (q ^ (tj ^ t0))) by (bit_vector);
    assert((p ^ q) ^ ((ti ^ tj ^ t0) ^ t0) == (p ^ (ti ^ t0)) ^ (q ^ (tj ^ t0))) by (bit_vector);
}
pub open spec fn xors(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub proof fn ext_sum(c: u32, d: u32, s: Seq<u8>, e: Seq<u8>) requires s.len() == e.len()
    ensures crc_ext(c ^ d, xors(s, e)) == crc_ext(c, s) ^ syn_ext(d, e), syn_ext(c ^ d, xors(s, e)) == syn_ext(c, s) ^ syn_ext(d, e) decreases s.len()
{
    if s.len() > 0 {
        let (s1, e1) = (s.drop_last(), e.drop_last());
        ext_sum(c, d, s1, e1);
        assert(xors(s, e).drop_last() =~= xors(s1, e1));
        step_sum(crc_ext(c, s1), syn_ext(d, e1), s.last(), e.last());
        step_sum(syn_ext(c, s1), syn_ext(d, e1), s.last(), e.last());
    }
}
// what is wrong with the CRC of a frame (0: nothing), and how an error changes that
pub open spec fn mismatch(s: Seq<u8>) -> u32 { crc_of(s.subrange(0, s.len() - 4)) ^ be32(s, s.len() - 4) }
pub open spec fn syndrome(e: Seq<u8>) -> u32 { syn_ext(0, e.subrange(0, e.len() - 4)) ^ be32(e, e.len() - 4) }
pub proof fn be32_sum(s: Seq<u8>, e: Seq<u8>, i: int) requires 0 <= i, i + 4 <= s.len(), s.len() == e.len() ensures be32(xors(s, e), i) == be32(s, i) ^ be32(e, i)
{
    let (a0, a1, a2, a3) = (s[i], s[i + 1], s[i + 2], s[i + 3]); let (b0, b1, b2, b3) = (e[i], e[i + 1], e[i + 2], e[i + 3]);
    assert((((a0 ^ b0) as u32) << 24) | (((a1 ^ b1) as u32) << 16) | (((a2 ^ b2) as u32) << 8) | ((a3 ^ b3) as u32)
        == (((a0 as u32) << 24) | ((a1 as u32) << 16) | ((a2 as u32) << 8) | (a3 as u32)) ^ (((b0 as u32) << 24) | ((b1 as u32) << 16) | ((b2 as u32) << 8) | (b3 as u32))) by (bit_vector);
}
// An error is noticed or not whatever the frame is, and the syndrome of several flipped bits is the
// sum of theirs. What is left is a finite fact about 1472 * 8 single-bit syndromes, evaluated over
// all of them (crc_syndromes).
pub proof fn syndromes(s: Seq<u8>, e: Seq<u8>) requires s.len() == e.len() >= 5
    ensures mismatch(xors(s, e)) == mismatch(s) ^ syndrome(e), syndrome(xors(s, e)) == syndrome(s) ^ syndrome(e), // C16
{
    let n = s.len() as int; let (a, b) = (s.subrange(0, n - 4), e.subrange(0, n - 4));
    assert(xors(s, e).subrange(0, n - 4) =~= xors(a, b));
    assert(INITIAL_CRC ^ 0 == INITIAL_CRC && 0u32 ^ 0 == 0) by (bit_vector);
    ext_sum(INITIAL_CRC, 0, a, b); ext_sum(0, 0, a, b); be32_sum(s, e, n - 4);
    let (p, q, r, t, u) = (crc_of(a), syn_ext(0, b), be32(s, n - 4), be32(e, n - 4), syn_ext(0, a));
    assert((p ^ q) ^ (r ^ t) == (p ^ r) ^ (q ^ t)) by (bit_vector);
    assert((u ^ q) ^ (r ^ t) == (u ^ r) ^ (q ^ t)) by (bit_vector);
}
pub proof fn damaged_frame_rejected(s: Seq<u8>, e: Seq<u8>) requires s.len() == e.len(), dec_frame(s) is Some, syndrome(e) != 0
    ensures dec_frame(xors(s, e)) is None, // C16
{
    syndromes(s, e); let n = s.len() as int;
    let (p, q, z, t) = (crc_of(s.subrange(0, n - 4)), be32(s, n - 4), syndrome(e), crc_of(xors(s, e).subrange(0, n - 4)));
    let u = be32(xors(s, e), n - 4);
    assert(p ^ p == 0 && 0 ^ z == z && t ^ t == 0) by (bit_vector);
}
// an error further to the front of a longer frame: leading zeros do not count
pub proof fn leading_zeros(e: Seq<u8>, k: int) requires e.len() >= 4, k >= 0 ensures syndrome(zeros(k) + e) == syndrome(e), // C16
{
    let n = e.len() as int; let f = zeros(k) + e;
    assert(f.subrange(0, f.len() - 4) =~= zeros(k) + e.subrange(0, n - 4));
    zeros_first(e.subrange(0, n - 4), k);
}
pub proof fn zeros_first(s: Seq<u8>, k: int) requires k >= 0 ensures syn_ext(0, zeros(k) + s) == syn_ext(0, s) decreases k + s.len()
{
    let f = zeros(k) + s;
    if s.len() > 0 { assert(f.drop_last() =~= zeros(k) + s.drop_last()); zeros_first(s.drop_last(), k); }
    else if k > 0 {
        assert(f.drop_last() =~= zeros(k - 1) + s); zeros_first(s, k - 1);
        let t0 = PARTIAL_RESULTS[0];
        assert((0u32 >> 8) ^ (t0 ^ t0) == 0 && 0u32 as u8 ^ 0u8 == 0) by (bit_vector);
    }
}
// what reaches the connection has ids in range
pub open spec fn sane(f: FrameV) -> bool { f matches FrameV::Data(id, n, ds) ==> ds.len() <= 127 && forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).channel_id < 64 && ds[i].sequence_id <= 0xFFFFF && ds[i].data.len() <= 0xFFFF }
pub proof fn dg_sane(s: Seq<u8>) ensures dec_dg(s) matches Some((d, n)) ==> d.channel_id < 64 && d.sequence_id <= 0xFFFFF && d.data.len() <= 0xFFFF && 6 <= n <= s.len()
{
    header_facts();
    assert(forall|a: u8, b: u8, c: u8| #[trigger] (((a >> 2) & 0x20) | ((b >> 2) & 0x10) | (c & 0x0F)) < 64) by (bit_vector);
    assert(forall|a: u32, b: u32, c: u32| a <= 0xF0 && b <= 0xFF && c <= 0xFF ==> #[trigger] ((a << 12) | (b << 8) | c) <= 0xFFFFF) by (bit_vector);
    assert(forall|a: u32, b: u32, c: u32| a <= 0x0F && b <= 0xFF && c <= 0xFF ==> #[trigger] ((a << 16) | (b << 8) | c) <= 0xFFFFF) by (bit_vector);
    assert(forall|a: u8| #[trigger] (a & 0xF0) <= 0xF0) by (bit_vector);
    assert(forall|a: u8| #[trigger] (a & 0x0F) <= 0x0F) by (bit_vector);
}
pub proof fn dgs_sane(s: Seq<u8>, n: int)
    ensures dec_dgs(s, n) matches Some(t) ==> t.len() == (if n <= 0 { 0 } else { n }) && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).channel_id < 64 && t[i].sequence_id <= 0xFFFFF && t[i].data.len() <= 0xFFFF
    decreases n
{ if n > 0 { dg_sane(s); if let Some((d, k)) = dec_dg(s) { dgs_sane(s.subrange(k, s.len() as int), n - 1); } } }
pub proof fn frame_sane(s: Seq<u8>) ensures dec_frame(s) matches Some(f) ==> sane(f) // C16/C03/C01
{ header_facts(); if s.len() >= 5 { let p = s.subrange(1, s.len() - 4); if p.len() >= 5 { dgs_sane(p.subrange(5, p.len() as int), (p[4] & 0x7F) as int); } } }
// what the handshake costs on the wire
pub proof fn handshake_sizes()
    ensures forall|f: HandshakeSynFrame| (#[trigger] enc_frame(FrameV::Syn(f))).len() == MAX_FRAME_SIZE, // C18
        forall|f: HandshakeSynAckFrame| (#[trigger] enc_frame(FrameV::SynAck(f))).len() == 25, // C18
        forall|f: HandshakeErrorFrame| (#[trigger] enc_frame(FrameV::Error(f))).len() == 10, // C18
        forall|s: Seq<u8>| (#[trigger] dec_frame(s)) matches Some(f) ==> (f is Syn ==> s.len() == MAX_FRAME_SIZE), // C18
{}
