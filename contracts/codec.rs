//@ attach: src/frame/serial/mod.rs
//@ for: native
// The frame codec against an independent description of the wire format: round trip, rejection of
// everything that is not one well-formed frame, and the CRC (bounded execution; the deductive part is
// in k_codec.rs, verus/codec and the syndrome enumeration).
use super::*;
use crate::frame::*;
use vsup::{any_seed, check, note, reach, Rng};

pub const HARNESSES: &[(&str, fn())] = &[
    ("codec_roundtrip", codec_roundtrip),
    ("codec_hostile", codec_hostile),
    ("codec_flips", codec_flips),
    ("crc_syndromes", crc_syndromes),
];

fn any_len(r: &mut Rng, max: usize) -> usize {
    let edges = [0, 1, 2, 62, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1447, 1448];
    (if r.chance(400) { r.pick(&edges) } else { r.log(1, 1448) as usize }).min(max)
}
fn any_lead(r: &mut Rng) -> u16 {
    match r.below(5) { 0 => 0, 1 => r.pick(&[126u16, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]), 2 => r.u32() as u16, _ => (r.u32() % 300) as u16 }
}
fn any_datagram(r: &mut Rng, max: usize) -> Datagram {
    let frag = r.chance(400);
    let last = if frag { match r.below(3) { 0 => 1, 1 => r.u32() as u16, _ => 65535 } } else { 0 };
    let id = if last == 0 { 0 } else { (r.u32() % (last as u32 + 1)) as u16 };
    let n = any_len(r, max);
    let mut data = vec![0u8; n];
    for b in data.iter_mut() { *b = r.u32() as u8; }
    Datagram {
        sequence_id: if r.chance(200) { 0xFFFFF - (r.u32() % 4) } else { r.edge32() & 0xFFFFF },
        channel_id: (r.u32() % 64) as u8,
        window_parent_lead: any_lead(r), channel_parent_lead: any_lead(r),
        fragment_id: id, fragment_id_last: last, data: data.into_boxed_slice(),
    }
}
fn any_frame(r: &mut Rng, max_data: usize) -> Frame {
    let (a, b, c, d) = (r.edge32(), r.edge32(), r.edge32(), r.edge32());
    match r.below(12) {
        0 => Frame::HandshakeSynFrame(HandshakeSynFrame { version: r.u32() as u8, nonce: a, max_receive_rate: b, max_packet_size: c, max_receive_alloc: d }),
        1 => Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: r.edge32(), nonce: a, max_receive_rate: b, max_packet_size: c, max_receive_alloc: d }),
        2 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: a }),
        3 => Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: a, error: match b % 3 { 0 => HandshakeErrorType::Version, 1 => HandshakeErrorType::Config, _ => HandshakeErrorType::ServerFull } }),
        4 => Frame::DisconnectFrame(DisconnectFrame {}),
        5 => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
        6 => Frame::SyncFrame(SyncFrame { next_frame_id: if r.chance(500) { Some(a) } else { None }, next_packet_id: if r.chance(500) { Some(b) } else { None } }),
        7 | 8 => {
            let n = match r.below(4) { 0 => r.below(3), 1 => 161, 2 => 255 + r.below(3), _ => r.below(200) };
            Frame::AckFrame(AckFrame { frame_window_base_id: a, packet_window_base_id: b, frame_acks: (0..n).map(|_| AckGroup { base_id: r.edge32(), bitfield: r.edge32(), nonce: r.chance(500) }).collect() })
        }
        _ => {
            let n = match r.below(4) { 0 => 1, 1 => 127, 2 => 0, _ => r.below(30) };
            let mut left = max_data;
            let mut datagrams = Vec::new();
            for _ in 0..n { let d = any_datagram(r, left.min(if n > 20 { 300 } else { 1448 })); left -= d.data.len(); datagrams.push(d); }
            Frame::DataFrame(DataFrame { sequence_id: a, nonce: r.chance(500), datagrams })
        }
    }
}

fn codec_roundtrip() {
    let mut r = Rng::new(any_seed());
    for _ in 0..40 {
        let f = any_frame(&mut r, 6000);
        let b = f.write();
        note(|| format!("{:?} -> {} bytes", f, b.len()));
        let g = Frame::read(&b);
        check!(g.as_ref() == Some(&f), "C16.roundtrip: parsing the serialised frame does not yield the same frame");
        // the parser must look at every byte: no proper prefix, and nothing appended, is the frame
        let cut = r.below(b.len());
        check!(Frame::read(&b[..cut]).is_none() || recomputed_crc_ok(&b[..cut]), "C16.reject.truncated: a truncated frame is accepted");
        if let Frame::DataFrame(ref f) = f {
            // the announced size is the real one (frame packing relies on it)
            let mut bld = DataFrameBuilder::new(f.sequence_id, f.nonce);
            for d in f.datagrams.iter() {
                let s = bld.size();
                let e = DataFrameBuilder::encoded_size(&d.into());
                bld.add(&d.into());
                check!(bld.size() == s + e, "C04/C13/C16.size: encoded_size() is not the number of bytes added to the frame");
            }
            let s = bld.size();
            check!(bld.build().len() == s, "C04/C13/C16.size: size() is not the size of the built frame");
        }
        if let Frame::AckFrame(ref f) = f {
            let mut bld = AckFrameBuilder::new(f.frame_window_base_id, f.packet_window_base_id);
            for a in f.frame_acks.iter() { let s = bld.size(); bld.add(a); check!(bld.size() == s + AckFrameBuilder::encoded_size(a), "C13/C16.size: encoded_size() is not the number of bytes added to the frame"); }
            let s = bld.size();
            check!(bld.build().len() == s, "C13/C16.size: size() is not the size of the built frame");
        }
    }
}

fn recomputed_crc_ok(b: &[u8]) -> bool {
    if b.len() < 5 { return false; }
    let n = b.len() - 4;
    crc::compute(&b[..n]) == u32::from_be_bytes([b[n], b[n + 1], b[n + 2], b[n + 3]])
}
fn set_crc(b: &mut [u8]) {
    let n = b.len() - 4;
    let c = crc::compute(&b[..n]).to_be_bytes();
    b[n..].copy_from_slice(&c);
}

// Independent description of the wire format: whether the bytes (CRC aside) are exactly one
// well-formed frame
fn datagram_size(d: &[u8]) -> Option<usize> {
    let h = *d.first()?;
    let (hs, len) = if h < 0x80 { (6, (h & 0x3F) as usize) }
        else if h < 0xC0 { (9, *d.get(1)? as usize) }
        else { (14, (*d.get(1)? as usize) << 8 | *d.get(2)? as usize) };
    if d.len() >= hs + len { Some(hs + len) } else { None }
}
fn well_formed(b: &[u8]) -> bool {
    if b.len() < 5 { return false; }
    let p = &b[1..b.len() - 4];
    match b[0] {
        0 => b.len() == 1472,
        1 => p.len() == 20,
        2 => p.len() == 4,
        3 => p.len() == 5 && p[4] <= 2,
        4 | 5 => p.is_empty(),
        10 => {
            if p.len() < 5 { return false; }
            let mut q = &p[5..];
            for _ in 0..p[4] & 0x7F { match datagram_size(q) { Some(n) => q = &q[n..], None => return false } }
            q.is_empty()
        }
        11 => p.len() == 9,
        12 => p.len() >= 10 && p.len() - 10 == 9 * ((p[8] as usize) << 8 | p[9] as usize),
        _ => false,
    }
}

fn judge(b: &[u8]) {
    note(|| format!("parse {:02x?}", &b[..b.len().min(80)]));
    let f = Frame::read(b);
    reach!(f.is_some(), "codec.accepted");
    reach!(f.is_none() && recomputed_crc_ok(b), "codec.rejected");
    if let Some(f) = f {
        check!(well_formed(b), "C16.reject.malformed: bytes which are not exactly one well-formed frame are accepted");
        check!(recomputed_crc_ok(b), "C16.reject.crc: a frame with a wrong CRC is accepted");
        // an accepted frame means what the same frame means when it is sent
        let representable = match f { Frame::DataFrame(ref f) => f.datagrams.iter().all(|d| d.fragment_id <= d.fragment_id_last), _ => true };
        check!(!representable || Frame::read(&f.write()) == Some(f), "C16.roundtrip: parsing the serialised frame does not yield the same frame");
    }
}

fn codec_hostile() {
    let mut r = Rng::new(any_seed());
    for _ in 0..60 {
        let mut b = match r.below(5) {
            0 => { let n = r.below(60); (0..n).map(|_| r.u32() as u8).collect::<Vec<_>>() }
            _ => any_frame(&mut r, 400).write().to_vec(),
        };
        for _ in 0..r.below(4) {
            if b.is_empty() { break; }
            match r.below(6) {
                0 => { let k = r.below(b.len()); b[k] = r.u32() as u8; }
                1 => { let n = r.below(b.len() + 1); b.truncate(n); }
                2 => { for _ in 0..1 + r.below(12) { b.push(r.u32() as u8); } }
                3 => { b[0] = if r.chance(500) { (r.u32() % 14) as u8 } else { r.u32() as u8 }; }
                4 => { let k = r.below(b.len().min(12)); b[k] ^= 1 << r.below(8); }
                _ => { let k = r.below(b.len()); b.remove(k); }
            }
        }
        if b.len() >= 5 && r.chance(900) { set_crc(&mut b); }
        judge(&b);
    }
    // every frame type at every small length
    let ty = r.below(16) as u8;
    for n in 5..40 {
        let mut b: Vec<u8> = (0..n).map(|_| if r.chance(500) { 0 } else { r.u32() as u8 }).collect();
        b[0] = ty;
        set_crc(&mut b);
        judge(&b);
    }
    let n = 1472 + r.below(5) - 2;
    let mut b = vec![0u8; n];
    set_crc(&mut b);
    judge(&b);
}

fn codec_flips() {
    let mut r = Rng::new(any_seed());
    for _ in 0..40 {
        let mut b = any_frame(&mut r, 1200).write().to_vec();
        if b.len() > 1472 { continue; }
        let n = b.len() * 8;
        for _ in 0..20 {
            let mut ks: Vec<usize> = Vec::new();
            let near = r.chance(500);
            let base = r.below(n);
            for _ in 0..1 + r.below(4) { let k = if near { (base + r.below(64)) % n } else { r.below(n) }; if !ks.contains(&k) { ks.push(k); } }
            for &k in ks.iter() { b[k / 8] ^= 1 << (k % 8); }
            check!(Frame::read(&b).is_none(), "C16.crc: a frame altered in one to four bit positions is accepted");
            for &k in ks.iter() { b[k / 8] ^= 1 << (k % 8); }
        }
    }
}

// Finite obligation set: with S the syndromes of the single-bit errors of a 1472-byte frame (the
// change of `compute(data) ^ received crc`, independent of the contents since a step of the CRC is
// affine, k_crc), no XOR of one to four members is zero. Shorter frames use a subset of S: an error
// in the last n bytes has the same syndrome whatever the length.
pub fn crc_syndromes() {
    const N: usize = 1468;
    let zero = vec![0u8; N];
    let c0 = crc::compute(&zero);
    let mut s: Vec<u32> = Vec::new();
    let mut d = zero.clone();
    for i in 0..N { for k in 0..8 { d[i] = 1 << k; s.push(crc::compute(&d) ^ c0); d[i] = 0; } }
    for k in 0..32 { s.push(1u32 << k); }
    let mut seen = vec![0u64; 1 << 26];
    let hit = |seen: &mut Vec<u64>, x: u32| { let (w, b) = ((x >> 6) as usize, x & 63); let h = seen[w] >> b & 1 != 0; seen[w] |= 1 << b; h };
    let mut n = 0u64;
    let mut bad = None;
    // zero, the singles and the pairs are all different: so no one, two, three or four errors cancel
    hit(&mut seen, 0);
    for i in 0..s.len() { n += 1; if hit(&mut seen, s[i]) { bad = Some((i, i)); } }
    'o: for i in 0..s.len() { for j in 0..i { n += 1; if hit(&mut seen, s[i] ^ s[j]) { bad = Some((i, j)); break 'o; } } }
    vsup::count("enumerated", n);
    if let Some((i, j)) = bad {
        // find the error pattern, and show it against the parser
        let t = s[i] ^ if i == j { 0 } else { s[j] };
        let mut pat: Vec<usize> = if i == j { vec![i] } else { vec![i, j] };
        if t != 0 {
            let mut found = false;
            'p: for a in 0..s.len() { if s[a] == t && !pat.contains(&a) { pat.push(a); found = true; break 'p; } for b in 0..a { if s[a] ^ s[b] == t && !(pat.contains(&a) && pat.contains(&b)) { pat.push(a); pat.push(b); found = true; break 'p; } } }
            if !found { return; }
        }
        pat.sort();
        // positions that occur twice cancel
        let mut p2: Vec<usize> = Vec::new();
        for k in pat { if p2.last() == Some(&k) { p2.pop(); } else { p2.push(k); } }
        let mut b = Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: 1, max_receive_rate: 2, max_packet_size: 3, max_receive_alloc: 4 }).write().to_vec();
        for &k in p2.iter() { if k < N * 8 { b[k / 8] ^= 1 << (k % 8) } else { let k = k - N * 8; let l = b.len(); b[l - 1 - k / 8] ^= 1 << (k % 8) } }
        note(|| format!("flipped bit positions {:?}", p2));
        // the type byte may have changed to one which does not parse; the CRC check is what counts
        check!(!recomputed_crc_ok(&b), "C16.crc: a frame altered in one to four bit positions is accepted");
    }
}
