//@ attach: src/half_connection/packet_receiver/assembly_window/mod.rs
//@ for: native
// Assembly window and packet receiver against an independent model: which datagram completes which
// packet, with which bytes, and how much is held (bounded execution).
use super::super::PacketReceiver;
use super::{AssemblyWindow, WindowEntry, MAX_FRAGMENT_SIZE};
use crate::frame::Datagram;
use std::collections::BTreeMap;
use std::convert::TryInto;
use vsup::{any_seed, check, note, reach, Rng};

pub const HARNESSES: &[(&str, fn())] = &[("asm_window", asm_window), ("asm_recv", asm_recv)];

enum Slot { Open, Closed(usize), Active { alloc: usize, hdr: (u8, u16, u16, u16), got: BTreeMap<u16, Box<[u8]>> } }

fn bytes(r: &mut Rng, n: usize) -> Box<[u8]> {
    let a = r.u32();
    (0..n).map(|i| (a as usize + i * 7 + i / 251) as u8).collect()
}
fn ceil(n: usize) -> usize { (n + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE * MAX_FRAGMENT_SIZE }
fn held(w: &AssemblyWindow) -> usize {
    w.window.iter().map(|e| match e { WindowEntry::Open => 0, WindowEntry::Closed(a) => *a, WindowEntry::Active(e) => e.alloc_size }).sum()
}

fn last_of(r: &mut Rng) -> u16 {
    match r.below(10) { 0..=2 => 0, 3..=6 => 1 + r.below(4) as u16, 7 => 60 + r.below(10) as u16, 8 => 126 + r.below(5) as u16, _ => r.log(1, 700) as u16 }
}

fn asm_window() {
    let mut r = Rng::new(any_seed());
    let max = match r.below(4) { 0 => r.below(4000), 1 => r.log(1, 2_000_000) as usize, _ => 200_000 + r.below(1_000_000) };
    let mut w = AssemblyWindow::new(max);
    let cap = ceil(max);
    let slots = 1 + r.below(5);
    let at: Vec<usize> = { let mut v: Vec<usize> = Vec::new(); while v.len() < slots { let k = if r.chance(500) { r.below(8) } else { r.below(4096) }; if !v.contains(&k) { v.push(k); } } v };
    let mut m: Vec<Slot> = (0..slots).map(|_| Slot::Open).collect();
    let mut hdr: Vec<(u8, u16, u16, u16, u32)> = (0..slots).map(|_| (r.below(64) as u8, r.below(4096) as u16, r.below(4096) as u16, last_of(&mut r), r.u32() & 0xFFFFF)).collect();
    let mut alloc = 0usize;
    for _ in 0..r.range(20, 600) {
        let s = r.below(slots);
        if r.chance(40) {
            w.clear(at[s]);
            match &m[s] { Slot::Open => (), Slot::Closed(a) => alloc -= a, Slot::Active { alloc: a, .. } => alloc -= a }
            m[s] = Slot::Open;
            hdr[s] = (r.below(64) as u8, r.below(4096) as u16, r.below(4096) as u16, last_of(&mut r), r.u32() & 0xFFFFF);
        } else {
            let (mut ch, mut wl, mut cl, mut last, seq) = hdr[s];
            match r.below(12) {
                0 => ch ^= 1 << r.below(6),
                1 => wl ^= 1 << r.below(12),
                2 => cl ^= 1 << r.below(12),
                3 => last = if r.chance(500) { last.wrapping_add(1 + r.below(3) as u16) } else { last_of(&mut r) },
                _ => (),
            }
            // prefer fragments not seen yet so that packets complete
            let mut id = if last == 0 { 0 } else { r.below(last as usize + 1) as u16 };
            if let Slot::Active { got, .. } = &m[s] { if r.chance(800) { if let Some(k) = (0..=last).find(|k| !got.contains_key(k)) { id = k; } } }
            let n = if id == last { if r.chance(300) { [0, 1, MAX_FRAGMENT_SIZE - 1, MAX_FRAGMENT_SIZE][r.below(4)] } else { r.below(MAX_FRAGMENT_SIZE + 1) } } else { MAX_FRAGMENT_SIZE };
            let data = bytes(&mut r, n);
            let dg = Datagram { sequence_id: seq, channel_id: ch, window_parent_lead: wl, channel_parent_lead: cl, fragment_id: id, fragment_id_last: last, data: data.clone() };
            let out = w.try_add(at[s], dg);
            // what the model says
            let need = if last == 0 { n } else { (last as usize + 1) * MAX_FRAGMENT_SIZE };
            let mut expect: Option<Option<Vec<u8>>> = None;
            let mut next = None;
            match &mut m[s] {
                Slot::Open => if alloc + need > cap {
                    reach!(true, "asm.dud");
                    expect = Some(None);
                    next = Some(Slot::Closed(0));
                } else if last == 0 {
                    alloc += need;
                    expect = Some(Some(data.to_vec()));
                    next = Some(Slot::Closed(need));
                } else {
                    alloc += need;
                    let mut got = BTreeMap::new();
                    got.insert(id, data);
                    next = Some(Slot::Active { alloc: need, hdr: (ch, wl, cl, last), got });
                },
                Slot::Closed(_) => { reach!(true, "asm.closed"); }
                Slot::Active { alloc: a, hdr, got } => if *hdr == (ch, wl, cl, last) {
                    if got.contains_key(&id) { reach!(true, "asm.dup"); }
                    got.entry(id).or_insert(data);
                    if got.len() == last as usize + 1 {
                        reach!(true, "asm.complete");
                        expect = Some(Some(got.values().flat_map(|d| d.iter().cloned()).collect()));
                        next = Some(Slot::Closed(*a));
                    }
                } else { reach!(true, "asm.disagree"); },
            }
            if let Some(x) = next { m[s] = x; }
            note(|| format!("slot {} ch {} wl {} cl {} fragment {}/{} len {} -> {:?} bytes", s, ch, wl, cl, id, last, n, out.as_ref().map(|p| p.data.as_ref().map(|d| d.len()))));
            check!(out.is_some() == expect.is_some(), "C04/C01/C03.asm.when: the assembly window must produce a packet exactly when the last missing fragment that agrees with the first one arrives");
            if let (Some(p), Some(e)) = (&out, &expect) {
                check!(p.channel_id == ch && p.sequence_id == seq && p.window_parent_lead == wl && p.channel_parent_lead == cl, "C04/C01.asm.header: the packet does not carry the header of its fragments");
                check!(p.data.is_some() == e.is_some(), "C06/C04.asm.dud: a packet has no data exactly when it would exceed the receive allocation");
                if let (Some(d), Some(e)) = (&p.data, e) { check!(d[..] == e[..], "C04/C01.asm.bytes: the reassembled packet is not the concatenation of its fragments"); }
            }
        }
        check!(w.alloc == alloc, "C06.asm.alloc: the receive allocation is not the sum over the entries of the window");
        check!(w.alloc <= cap, "C06.asm.cap: the receive allocation exceeds max_receive_alloc rounded up to a fragment");
        vsup::count_max("asm.alloc_max", w.alloc as u64);
    }
    check!(held(&w) == w.alloc, "C06.asm.alloc: the receive allocation is not the sum over the entries of the window");
}

struct Sink { out: Vec<Box<[u8]>> }
impl super::super::PacketSink for Sink { fn send(&mut self, d: Box<[u8]>) { self.out.push(d); } }

// Arbitrary well-formed datagrams, resynchronisations and deliveries: no panic, bounded memory, and
// every single-fragment packet delivered at most once and in id order per channel.
fn asm_recv() {
    let mut r = Rng::new(any_seed());
    let max = match r.below(3) { 0 => r.below(4000), 1 => r.log(1, 2_000_000) as usize, _ => 100_000 };
    let wnd = 1u32 << r.range(0, 12);
    let mut base = if r.chance(500) { 0xFFFFFu32.wrapping_sub(r.below(3 * wnd as usize) as u32) & 0xFFFFF } else { r.u32() & 0xFFFFF };
    let mut p = PacketReceiver::new(wnd, base, max);
    let cap = ceil(max);
    let mut ubase = 1u64 << 32;
    let mut newest = [0u64; 64];
    let honest = r.chance(300);
    let mut tag = 0u64;
    // honest leads: tags of reliable packets
    let k = if r.chance(200) { 64 } else { 4 };
    let chans = 1 + r.below(k);
    let mut sink = Sink { out: Vec::new() };
    for _ in 0..r.range(20, 500) {
        match r.below(10) {
            0 => {
                let k = if r.chance(800) { r.below(wnd as usize + 1) as u32 } else { r.u32() };
                let id = base.wrapping_add(k) & if r.chance(970) { 0xFFFFF } else { u32::MAX };
                note(|| format!("resynchronize {:#x} (base {:#x})", id, base));
                p.resynchronize(id);
            }
            1 | 2 => { p.receive(&mut sink); note(|| format!("receive -> {}", sink.out.len())); }
            _ => {
                let lead = if r.chance(900) { r.below(2 * wnd as usize) as u32 } else { r.u32() & 0xFFFFF };
                let id = base.wrapping_add(lead) & 0xFFFFF;
                let ch = if r.chance(980) { r.below(chans) as u8 } else { r.below(256) as u8 };
                let (wl, cl) = if honest { (0, 0) } else { match r.below(4) { 0 => (0, 0), 1 => { let k = r.below(40) as u16; (k, 0) }, 2 => { let k = r.below(20) as u16; (k, k + r.below(20) as u16) }, _ => (r.below(65536) as u16, r.below(65536) as u16) } };
                let last = if r.chance(700) { 0 } else { r.below(5) as u16 };
                let fid = if r.chance(990) { r.below(last as usize + 1) as u16 } else { r.below(65536) as u16 };
                let n = if fid < last && r.chance(980) { MAX_FRAGMENT_SIZE } else if last == 0 { 16 + r.below(200) } else { r.below(MAX_FRAGMENT_SIZE + 2) };
                let mut data = bytes(&mut r, n);
                if last == 0 && data.len() >= 16 {
                    tag = ubase + lead as u64;
                    data[..8].copy_from_slice(&tag.to_le_bytes());
                    data[8..16].copy_from_slice(&(0xC0DE_0000_0000_0000u64 | ch as u64).to_le_bytes());
                }
                note(|| format!("datagram id {:#x} (base+{}) ch {} wl {} cl {} fragment {}/{} len {}", id, lead, ch, wl, cl, fid, last, n));
                p.handle_datagram(Datagram { sequence_id: id, channel_id: ch, window_parent_lead: wl, channel_parent_lead: cl, fragment_id: fid, fragment_id_last: last, data });
            }
        }
        let step = p.base_id.wrapping_sub(base) & 0xFFFFF;
        check!(step <= wnd, "C06/C01.recv.base: the receive window moved by more than its size in one call");
        ubase += step as u64;
        base = p.base_id;
        check!(base <= 0xFFFFF, "C01/C03.recv.id: the base of the receive window is not a packet id");
        check!(p.end_id.wrapping_sub(base) & 0xFFFFF <= wnd, "C01/C03.recv.end: the end of the receive window is more than a window past its base");
        let h = held(&p.assembly_window);
        check!(h == p.assembly_window.alloc, "C06.asm.alloc: the receive allocation is not the sum over the entries of the window");
        check!(h <= cap, "C06.asm.cap: the receive allocation exceeds max_receive_alloc rounded up to a fragment");
        let data: usize = p.data_entries.iter().map(|d| d.data.as_ref().map_or(0, |d| d.len())).sum();
        let part: usize = p.assembly_window.window.iter().map(|e| match e { WindowEntry::Active(a) => a.alloc_size, _ => 0 }).sum();
        check!(data + part <= cap, "C06.recv.bytes: received packet data held exceeds max_receive_alloc rounded up to a fragment");
        for d in sink.out.drain(..) {
            if d.len() < 16 { continue; }
            let u = u64::from_le_bytes(d[..8].try_into().unwrap());
            let c = u64::from_le_bytes(d[8..16].try_into().unwrap());
            if c >> 32 != 0xC0DE_0000 || (c & 0xFFFF_FFFF) >= 64 { continue; }
            let c = (c & 0x3F) as usize;
            reach!(true, "recv.delivered");
            if d.len() < 217 {
                check!(u > newest[c] || newest[c] == 0, "C01.recv.order: a packet was delivered again or after a later packet of its channel");
                newest[c] = u;
            }
        }
    }
    let _ = tag;
}
