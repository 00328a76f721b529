// The application's side; every implementation is taken to append to what it has received
pub trait PacketSink {
    spec fn log(&self) -> Seq<Seq<u8>>;
    fn send(&mut self, packet_data: Box<[u8]>) ensures final(self).log() == old(self).log().push(packet_data@);
}
//@ take src/half_connection/packet_receiver/mod.rs struct ChannelAdvEntry
//@ end
//@ take src/half_connection/packet_receiver/mod.rs struct WindowAdvEntry
//@ end
//@ take src/half_connection/packet_receiver/mod.rs struct DataEntry
//@ end
//@ take src/half_connection/packet_receiver/mod.rs struct Channel
//@ end
//@ take src/half_connection/packet_receiver/mod.rs macro window_index
//@ end
//@ take src/half_connection/packet_receiver/mod.rs struct PacketReceiver
//@ end
pub open spec fn valid(dg: Datagram) -> bool {
    dg.channel_id < 64 && (dg.channel_parent_lead != 0 ==> dg.window_parent_lead != 0 && dg.channel_parent_lead >= dg.window_parent_lead) && dg_frag_ok(dg)
}
//@ take src/half_connection/packet_receiver/mod.rs fn datagram_is_valid
//@ ret r
//@ spec
    ensures r == valid(*dg), // C03/C04
//@ end
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
// number of undelivered packets of channel c in the slots below n
pub open spec fn cnt(f: Seq<u64>, e: Seq<ChannelAdvEntry>, c: int, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(f, e, c, n - 1) + b2i(bit(f, n - 1) && e[n - 1].channel_id == c) } }
pub proof fn cnt_range(f: Seq<u64>, e: Seq<ChannelAdvEntry>, c: int, n: int) requires n >= 0
    ensures 0 <= cnt(f, e, c, n) <= n, forall|j: int| 0 <= j < n && #[trigger] bit(f, j) && e[j].channel_id == c ==> cnt(f, e, c, n) > 0
    decreases n
{ if n > 0 { cnt_range(f, e, c, n - 1); } }
// changing one slot
pub proof fn cnt_change(f: Seq<u64>, g: Seq<u64>, e: Seq<ChannelAdvEntry>, h: Seq<ChannelAdvEntry>, c: int, i: int, n: int)
    requires 0 <= i, n >= 0, forall|j: int| 0 <= j < n && j != i ==> (#[trigger] bit(g, j)) == bit(f, j) && h[j] == e[j]
    ensures cnt(g, h, c, n) == cnt(f, e, c, n) + (if i < n { b2i(bit(g, i) && h[i].channel_id == c) - b2i(bit(f, i) && e[i].channel_id == c) } else { 0 })
    decreases n
{ if n > 0 { cnt_change(f, g, e, h, c, i, n - 1); assert(n - 1 != i ==> bit(g, n - 1) == bit(f, n - 1)); } }
pub proof fn bit_clear(f: Seq<u64>, k: int, n: int) requires 0 <= k < 64 * f.len(), n <= 64 * f.len()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] bit(f.update(k / 64, f[k / 64] & !(1u64 << ((k % 64) as u64))), i) == (i != k && bit(f, i)),
{
    let s = (k % 64) as u64;
    let w = f[k / 64];
    let g = f.update(k / 64, w & !(1u64 << s));
    assert forall|i: int| 0 <= i < n implies #[trigger] bit(g, i) == (i != k && bit(f, i)) by {
        let t = (i % 64) as u64;
        if i / 64 == k / 64 {
            assert(((w & !(1u64 << s)) >> t) & 1 != 0 <==> (s != t && (w >> t) & 1 != 0)) by (bit_vector) requires s < 64, t < 64;
        }
    }
}
pub proof fn bit_test(f: Seq<u64>, k: int) requires 0 <= k < 64 * f.len() ensures (f[k / 64] & (1u64 << ((k % 64) as u64)) != 0) == bit(f, k)
{ let s = (k % 64) as u64; let w = f[k / 64]; assert((w & (1u64 << s) != 0) == ((w >> s) & 1 != 0)) by (bit_vector) requires s < 64; }
impl Channel {
//@ take src/half_connection/packet_receiver/mod.rs fn Channel::new
//@ ret r
//@ spec
    ensures r.base_id is None, r.packet_count == 0,
//@ end
}
// slots and positions correspond
pub open spec fn positions_ok(base: u32, size: u32) -> bool { forall|j: int| 0 <= j < size ==> 0 <= #[trigger] kof(base, j, size) < size && slot(spec_add(base, kof(base, j, size) as u32), size) == j }
pub proof fn positions(base: u32, size: u32) requires pow2(size), base <= 0xFFFFF ensures positions_ok(base, size)
{ assert forall|j: int| 0 <= j < size implies 0 <= #[trigger] kof(base, j, size) < size && slot(spec_add(base, kof(base, j, size) as u32), size) == j by { kof_slot(base, j, size); } }
// nothing has arrived below position m
pub open spec fn skipped(a: PacketReceiver, m: int) -> bool { forall|j: int| #![trigger a.has(j)] 0 <= j < a.size() && a.pos(j) < m ==> !a.has(j) }
// what moving the window to new_base has to do
// the effect of resynchronize
pub open spec fn resynced(a: PacketReceiver, b: PacketReceiver, sender_next_id: u32) -> bool {
    let d = spec_sub(sender_next_id, a.base_id) as int;
    if sender_next_id > 0xFFFFF || d > a.size() { b == a }
    else {
        // up to the first packet which has arrived
        exists|m: int| #![trigger skipped(a, m)] 0 <= m <= d && skipped(a, m) && (m < d ==> a.has(a.sl(m))) && advanced(a, b, spec_add(a.base_id, m as u32))
    }
}
pub open spec fn advanced(a: PacketReceiver, b: PacketReceiver, new_base: u32) -> bool {
    let m = spec_sub(new_base, a.base_id) as int;
    &&& b.fixed(a) && b.base_id == new_base
    &&& b.n() == (if a.n() < m { 0 } else { a.n() - m })
    &&& forall|j: int| #![trigger b.has(j)] #![trigger a.has(j)] 0 <= j < a.size() ==> b.has(j) == (a.has(j) && a.pos(j) >= m) && b.pos(j) == (if a.pos(j) >= m { a.pos(j) - m } else { a.pos(j) - m + a.size() })
    &&& forall|j: int| #![trigger b.assembly_window.window@[j]] 0 <= j < a.size() ==> b.assembly_window.window@[j] == (if a.pos(j) < m { WindowEntry::Open } else { a.assembly_window.window@[j] })
    &&& b.assembly_window.max_alloc == a.assembly_window.max_alloc
    // the first deliverable packet of a channel does not move, unless the window passes it
    &&& forall|c: int| #![trigger b.channels@[c]] #![trigger b.cpos(c)] 0 <= c < 64 ==> b.channels@[c].packet_count == a.channels@[c].packet_count && b.cpos(c) == (if a.cpos(c) > m { a.cpos(c) - m } else { 0 })
}
// the three loops of advance_window after k rounds: presence flags, assembly entries, channel bases
#[verifier::opaque]
pub open spec fn cleared(a: PacketReceiver, f: Seq<u64>, k: int) -> bool { f.len() == a.entry_flags@.len() && forall|j: int| #![trigger bit(f, j)] #![trigger a.has(j)] 0 <= j < a.size() ==> bit(f, j) == (a.has(j) && a.pos(j) >= k) }
#[verifier::opaque]
pub open spec fn wiped(a: PacketReceiver, w: AssemblyWindow, k: int) -> bool { w.max_alloc == a.assembly_window.max_alloc && forall|j: int| #![trigger w.window@[j]] 0 <= j < a.size() ==> w.window@[j] == (if a.pos(j) < k { WindowEntry::Open } else { a.assembly_window.window@[j] }) }
pub open spec fn marks_of(ch: Seq<Channel>, mk: Seq<Option<u8>>, size: u32) -> bool {
    forall|j: int| #![trigger mk[j]] 0 <= j < size ==> (mk[j] matches Some(c) ==> c < 64 && (ch[c as int].base_id matches Some(b) && slot(b, size) == j))
}
#[verifier::opaque]
pub open spec fn unset(a: PacketReceiver, ch: Seq<Channel>, mk: Seq<Option<u8>>, k: int) -> bool {
    ch.len() == 64 && mk.len() == a.size() && marks_of(ch, mk, a.receive_window_size)
    && forall|c: int| #![trigger ch[c]] #![trigger a.channels@[c]] 0 <= c < 64 ==> ch[c].packet_count == a.channels@[c].packet_count
        && ch[c].base_id == (if a.cpos(c) <= k { None } else { a.channels@[c].base_id })
        && (ch[c].base_id matches Some(b) ==> mk[slot(b, a.receive_window_size)] == Some(c as u8))
}
pub proof fn clear_start(a: PacketReceiver) requires a.shape() ensures cleared(a, a.entry_flags@, 0), wiped(a, a.assembly_window, 0)
{ reveal(cleared); reveal(wiped); positions(a.base_id, a.receive_window_size); assert forall|j: int| 0 <= j < a.size() implies #[trigger] a.pos(j) >= 0 by { let x = kof(a.base_id, j, a.receive_window_size); } }
pub proof fn clear_step(a: PacketReceiver, k: int) requires a.shape(), 0 <= k < a.size(), 
    ensures 0 <= a.sl(k) < a.size(), forall|f: Seq<u64>| cleared(a, f, k) ==> #[trigger] cleared(a, f.update(a.sl(k) / 64, f[a.sl(k) / 64] & !(1u64 << ((a.sl(k) % 64) as u64))), k + 1)
{
    reveal(cleared);
    slot_kof(a.base_id, k as u32, a.receive_window_size); positions(a.base_id, a.receive_window_size);
    let j = a.sl(k);
    assert forall|f: Seq<u64>| cleared(a, f, k) implies #[trigger] cleared(a, f.update(j / 64, f[j / 64] & !(1u64 << ((j % 64) as u64))), k + 1) by {
        let g = f.update(j / 64, f[j / 64] & !(1u64 << ((j % 64) as u64)));
        bit_clear(f, j, a.size());
        assert forall|i: int| #![trigger bit(g, i)] #![trigger a.has(i)] 0 <= i < a.size() implies bit(g, i) == (a.has(i) && a.pos(i) >= k + 1) by {
            assert(bit(g, i) == (i != j && bit(f, i)));
            assert(bit(f, i) == (a.has(i) && a.pos(i) >= k));
            let x = kof(a.base_id, i, a.receive_window_size);
            if a.pos(i) == k { assert(i == j); }
        }
    }
}
pub proof fn wipe_step(a: PacketReceiver, w: AssemblyWindow, v: AssemblyWindow, k: int)
    requires a.shape(), 0 <= k < a.size(), w.window@.len() >= a.size(), wiped(a, w, k), v.others_same(w, a.sl(k)), v.window@[a.sl(k)] == WindowEntry::Open,
    ensures wiped(a, v, k + 1)
{
    reveal(wiped);
    slot_kof(a.base_id, k as u32, a.receive_window_size); positions(a.base_id, a.receive_window_size);
    assert forall|i: int| #![trigger v.window@[i]] 0 <= i < a.size() implies v.window@[i] == (if a.pos(i) < k + 1 { WindowEntry::Open } else { a.assembly_window.window@[i] }) by {
        let x = kof(a.base_id, i, a.receive_window_size); let y = w.window@[i];
        if a.pos(i) == k { assert(i == a.sl(k)); }
    }
}
pub proof fn base_slot(base: u32, b: u32, k: u32, size: u32) requires pow2(size), base <= 0xFFFFF, b <= 0xFFFFF, k < spec_sub(b, base) <= size
    ensures (slot(b, size) == slot(spec_add(base, (k + 1) as u32), size)) == (spec_sub(b, base) == k + 1)
{
    let d = spec_sub(b, base);
    assert(spec_add(base, d) == b);
    add_add(base, 1, (d - 1) as u32); add_add(base, 1, k);
    if d - 1 != k { slot_distinct(spec_add(base, 1), (d - 1) as u32, k, size); }
}
pub proof fn unset_start(a: PacketReceiver) requires a.wf() ensures unset(a, a.channels@, a.channel_base_markers@, 0)
{ reveal(PacketReceiver::chans_ok); reveal(unset); assert forall|c: int| #![trigger a.channels@[c]] 0 <= c < 64 implies a.cpos(c) >= 0 && (a.channels@[c].base_id is Some ==> a.cpos(c) > 0) && (a.channels@[c].base_id matches Some(b) ==> a.channel_base_markers@[slot(b, a.receive_window_size)] == Some(c as u8)) by { assert(a.chan_ok(c)); } }
// one round of the loop which forgets the channel bases that the window reaches: s before, t after
pub proof fn unset_step(a: PacketReceiver, s: PacketReceiver, t: PacketReceiver, k: int)
    requires a.wf(), 0 <= k < a.size(), s.receive_window_size == a.receive_window_size, unset(a, s.channels@, s.channel_base_markers@, k), t.same_but_chans(s),
        ({
            let j = slot(spec_add(a.base_id, (k + 1) as u32), a.receive_window_size);
            match s.channel_base_markers@[j] {
                Some(c) => t.channel_base_markers@ =~= s.channel_base_markers@.update(j, None) && t.channels@ =~= s.channels@.update(c as int, Channel { base_id: None, packet_count: s.channels@[c as int].packet_count }),
                None => t.channel_base_markers@ =~= s.channel_base_markers@ && t.channels@ =~= s.channels@,
            }
        }),
    ensures unset(a, t.channels@, t.channel_base_markers@, k + 1)
{
    reveal(PacketReceiver::chans_ok); reveal(unset);
    let size = a.receive_window_size;
    let j = slot(spec_add(a.base_id, (k + 1) as u32), size);
    slot_range(spec_add(a.base_id, (k + 1) as u32), size);
    assert forall|c: int| #![trigger s.channels@[c]] 0 <= c < 64 implies (s.channels@[c].base_id matches Some(b) ==> (slot(b, size) == j) == (a.cpos(c) == k + 1)) by {
        let x = a.channels@[c]; let y = s.channels@[c];
        assert(a.chan_ok(c));
        if let Some(b) = y.base_id { base_slot(a.base_id, b, k as u32, size); }
    }
    assert forall|c: int| #![trigger s.channels@[c]] 0 <= c < 64 implies (s.channel_base_markers@[j] == Some(c as u8)) == (a.cpos(c) == k + 1) by {
        let x = a.channels@[c]; let y = s.channel_base_markers@[j]; let z = s.channels@[c];
        assert(a.chan_ok(c));
        if a.cpos(c) == k + 1 { assert(z.base_id is Some); }
    }
    assert(t.marks_ok()) by {
        assert forall|i: int| #![trigger t.channel_base_markers@[i]] 0 <= i < t.size() implies (t.channel_base_markers@[i] matches Some(c) ==> c < 64 && (t.channels@[c as int].base_id matches Some(b) && slot(b, size) == i)) by {
            let y = s.channel_base_markers@[i]; let y2 = s.channel_base_markers@[j];
        }
    }
    assert forall|c: int| #![trigger t.channels@[c]] #![trigger a.channels@[c]] 0 <= c < 64 implies t.channels@[c].packet_count == a.channels@[c].packet_count
        && t.channels@[c].base_id == (if a.cpos(c) <= k + 1 { None } else { a.channels@[c].base_id })
        && (t.channels@[c].base_id matches Some(b) ==> t.channel_base_markers@[slot(b, a.receive_window_size)] == Some(c as u8)) by {
        let x = s.channels@[c]; let y = s.channel_base_markers@[j];
    }
}
// distances from a base that has moved by m
pub proof fn sub_shift(base: u32, nb: u32, x: u32) requires base <= 0xFFFFF, nb <= 0xFFFFF, x <= 0xFFFFF
    ensures spec_sub(x, nb) == (if spec_sub(x, base) >= spec_sub(nb, base) { spec_sub(x, base) - spec_sub(nb, base) } else { 0x100000 + spec_sub(x, base) - spec_sub(nb, base) })
{}
pub proof fn advance_done(a: PacketReceiver, b: PacketReceiver, new_base: u32)
    requires a.wf(), new_base <= 0xFFFFF, b.fixed(a), b.base_id == new_base,
        a.quiet_below(spec_sub(new_base, a.base_id) as int),
        spec_sub(new_base, a.base_id) <= a.size(), b.end_id == (if a.n() < spec_sub(new_base, a.base_id) { new_base } else { a.end_id }),
        b.asm_ok(), cleared(a, b.entry_flags@, spec_sub(new_base, a.base_id) as int), wiped(a, b.assembly_window, spec_sub(new_base, a.base_id) as int), unset(a, b.channels@, b.channel_base_markers@, spec_sub(new_base, a.base_id) as int),
    ensures b.wf(), advanced(a, b, new_base),
{
    let m = spec_sub(new_base, a.base_id);
    assert(b.shape()) by { reveal(cleared); reveal(unset); sub_shift(a.base_id, new_base, a.end_id); sub_shift(a.base_id, new_base, new_base); }
    assert(b.marks_ok()) by { reveal(unset); }
    advance_advanced(a, b, new_base, m);
    advance_slots(a, b, m);
    advance_chans(a, b, m);
}
proof fn advance_advanced(a: PacketReceiver, b: PacketReceiver, new_base: u32, m: u32)
    requires a.wf(), new_base <= 0xFFFFF, b.fixed(a), b.base_id == new_base, m == spec_sub(new_base, a.base_id), m <= a.size(), b.end_id == (if a.n() < m { new_base } else { a.end_id }),
        cleared(a, b.entry_flags@, m as int), wiped(a, b.assembly_window, m as int), unset(a, b.channels@, b.channel_base_markers@, m as int),
    ensures advanced(a, b, new_base)
{
    let size = a.receive_window_size;
    assert(b.n() == (if a.n() < m { 0 } else { a.n() - m })) by { sub_shift(a.base_id, new_base, a.end_id); }
    assert(spec_add(a.base_id, m) == new_base);
    positions(a.base_id, size);
    assert forall|j: int| #![trigger b.has(j)] #![trigger a.has(j)] 0 <= j < a.size() implies b.has(j) == (a.has(j) && a.pos(j) >= m) && b.pos(j) == (if a.pos(j) >= m { a.pos(j) - m } else { a.pos(j) - m + a.size() }) by {
        reveal(cleared); kof_shift(a.base_id, m, j, size); let y = bit(b.entry_flags@, j); }
    assert forall|j: int| #![trigger b.assembly_window.window@[j]] 0 <= j < a.size() implies b.assembly_window.window@[j] == (if a.pos(j) < m { WindowEntry::Open } else { a.assembly_window.window@[j] }) by { reveal(wiped); }
    assert(b.assembly_window.max_alloc == a.assembly_window.max_alloc) by { reveal(wiped); }
    assert forall|c: int| #![trigger b.channels@[c]] #![trigger b.cpos(c)] 0 <= c < 64 implies b.channels@[c].packet_count == a.channels@[c].packet_count && b.cpos(c) == (if a.cpos(c) > m { a.cpos(c) - m } else { 0 }) by {
        reveal(PacketReceiver::chans_ok); reveal(unset);
        let x = b.channels@[c]; let y = a.channels@[c];
        assert(a.chan_ok(c));
        if let Some(i) = y.base_id { sub_shift(a.base_id, new_base, i); }
    }
}
proof fn advance_slots(a: PacketReceiver, b: PacketReceiver, m: u32)
    requires a.wf(), b.base_id <= 0xFFFFF, m == spec_sub(b.base_id, a.base_id), m <= a.size(), a.quiet_below(m as int), b.shape(), advanced(a, b, b.base_id),
    ensures b.slots_ok(), b.data_ok(),
{
    assert(b.slots_ok()) by {
        reveal(PacketReceiver::slots_ok);
        assert forall|j: int| #![trigger b.has(j)] #![trigger b.und(j)] 0 <= j < b.size() implies b.slot_ok(j) by {
            let x = a.has(j); let y = a.und(j); let z = b.pos(j); let w = b.has(j); let v = b.assembly_window.window@[j]; let v0 = a.assembly_window.window@[j];
            assert(a.slot_ok(j));
            if b.und(j) { let u = b.cpos(b.ch(j)); }
        }
    }
    assert(b.data_ok()) by {
        reveal(PacketReceiver::slots_ok); reveal(PacketReceiver::data_ok);
        assert forall|j: int| #![trigger b.data_entries@[j]] 0 <= j < b.size() implies (b.data_entries@[j].data matches Some(d) ==> d@.len() <= b.assembly_window.window@[j].cost()) by {
            let x = a.und(j); let y = a.data_entries@[j]; let v = b.assembly_window.window@[j]; assert(a.slot_ok(j)); }
    }
}
pub proof fn sub_one(base: u32, i: u32) requires base <= 0xFFFFF, i <= 0xFFFFF, spec_sub(i, base) >= 1 ensures spec_sub(spec_sub(i, 1), base) == spec_sub(i, base) - 1, spec_sub(i, 1) <= 0xFFFFF {}
proof fn advance_chans(a: PacketReceiver, b: PacketReceiver, m: u32)
    requires a.wf(), b.base_id <= 0xFFFFF, m == spec_sub(b.base_id, a.base_id), m <= a.size(), a.quiet_below(m as int), b.shape(), advanced(a, b, b.base_id), unset(a, b.channels@, b.channel_base_markers@, m as int),
    ensures b.chans_ok(),
{
    assert forall|c: int| 0 <= c < 64 implies #[trigger] b.chan_ok(c) by { advance_chan(a, b, m, c); }
    reveal(PacketReceiver::chans_ok);
}
proof fn advance_chan(a: PacketReceiver, b: PacketReceiver, m: u32, c: int)
    requires a.wf(), b.base_id <= 0xFFFFF, m == spec_sub(b.base_id, a.base_id), m <= a.size(), a.quiet_below(m as int), b.shape(), advanced(a, b, b.base_id), unset(a, b.channels@, b.channel_base_markers@, m as int), 0 <= c < 64,
    ensures b.chan_ok(c),
{
    let size = a.receive_window_size;
    let x = a.channels@[c]; let y = b.channels@[c]; let z = b.cpos(c);
    assert(a.chan_ok(c)) by { reveal(PacketReceiver::chans_ok); }
    assert(y.base_id == (if a.cpos(c) <= m { None } else { x.base_id }) && (y.base_id matches Some(i) ==> b.channel_base_markers@[slot(i, size)] == Some(c as u8))) by { reveal(unset); }
    if let Some(i) = y.base_id {
        let i1 = spec_sub(i, 1);
        let p = slot(i1, size);
        sub_one(a.base_id, i);
        id_pos(a.base_id, i1, size);
        assert(a.has(p)); assert(b.has(p)); assert(!b.und(p));
    }
}
// a datagram which the receiver looks at: well-formed, inside the window, and not before its channel's position
pub open spec fn accepted(a: PacketReceiver, dg: Datagram) -> bool {
    valid(dg) && spec_sub(dg.sequence_id, a.base_id) < a.size() && spec_sub(dg.sequence_id, a.base_id) >= a.cpos(dg.channel_id as int)
}
// what the assembly window made of it: None (nothing completed) or Some(data) (completed; no data if it exceeded the allocation)
pub open spec fn arrival(a: AssemblyWindow, f: AssemblyWindow, i: int, dg: Datagram, res: Option<Option<Box<[u8]>>>) -> bool {
    &&& f.others_same(a, i)
    &&& match a.window@[i] {
        WindowEntry::Open => if a.alloc + charge(dg) > a.max_alloc {
            f.window@[i] == WindowEntry::Closed(0) && res == Some(None::<Box<[u8]>>)
        } else if dg.fragment_id_last == 0 {
            f.window@[i] == WindowEntry::Closed(charge(dg) as usize) && res == Some(Some(dg.data))
        } else {
            &&& res is None
            &&& f.window@[i] matches WindowEntry::Active(e) && e.agrees(dg) && e.asm_buffer.got(dg.fragment_id as int) && e.asm_buffer.part(dg.fragment_id as int) == dg.data@
                && (forall|p: Seq<u8>| #![trigger e.asm_buffer.holds(p)] nfrags(p.len() as int) == dg.fragment_id_last + 1 && dg.data@ == frag(p, dg.fragment_id as int) ==> e.asm_buffer.holds(p))
        },
        WindowEntry::Closed(x) => res is None && f.window@[i] == WindowEntry::Closed(x),
        WindowEntry::Active(e0) => if !e0.agrees(dg) { res is None && entry_same(a.window@[i], f.window@[i]) } else {
            match res {
                Some(d) => {
                    &&& f.window@[i] == WindowEntry::Closed(e0.alloc_size) && all_but(e0.asm_buffer, dg.fragment_id as int)
                    &&& d is Some && d.unwrap()@.len() <= e0.alloc_size
                    &&& forall|q: Seq<u8>| #![trigger e0.asm_buffer.holds(q)] e0.asm_buffer.holds(q) && dg.data@ == frag(q, dg.fragment_id as int) ==> d.unwrap()@ == q
                },
                None => f.window@[i] matches WindowEntry::Active(e) && e.same_header(e0) && wrote(e0.asm_buffer, e.asm_buffer, dg.fragment_id as int, dg.data@) && !all_but(e0.asm_buffer, dg.fragment_id as int),
            }
        },
    }
}
pub open spec fn max2(a: int, b: int) -> int { if a < b { b } else { a } }
// a completed packet takes slot i, at position d
pub open spec fn received(a: PacketReceiver, f: PacketReceiver, i: int, d: int, dg: Datagram) -> bool {
    &&& f.base_id == a.base_id && f.receive_window_size == a.receive_window_size && f.receive_window_mask == a.receive_window_mask && f.end_id <= 0xFFFFF && f.n() == max2(a.n(), d + 1)
    &&& f.channel_entries@ =~= a.channel_entries@.update(i, ChannelAdvEntry { channel_id: dg.channel_id, channel_parent_lead: dg.channel_parent_lead })
    &&& f.window_entries@ =~= a.window_entries@.update(i, WindowAdvEntry { window_parent_lead: dg.window_parent_lead })
    &&& f.data_entries@.len() == a.data_entries@.len() && forall|j: int| 0 <= j < a.size() && j != i ==> #[trigger] f.data_entries@[j] == a.data_entries@[j]
    &&& f.entry_flags@.len() == a.entry_flags@.len() && f.data_flags@.len() == a.data_flags@.len()
    &&& forall|j: int| #![trigger f.has(j)] #![trigger a.has(j)] 0 <= j < a.size() ==> f.has(j) == (j == i || a.has(j))
    &&& forall|j: int| #![trigger f.und(j)] #![trigger a.und(j)] 0 <= j < a.size() ==> f.und(j) == (j == i || a.und(j))
    &&& f.channels@ =~= a.channels@.update(dg.channel_id as int, Channel { base_id: a.channels@[dg.channel_id as int].base_id, packet_count: (a.channels@[dg.channel_id as int].packet_count + 1) as u32 })
    &&& f.channel_base_markers@ == a.channel_base_markers@
    // a packet which may be delivered at once makes its channel ready; one which lets the window move says so
    &&& forall|c: int| #![trigger f.ready(c)] #![trigger a.ready(c)] 0 <= c < 64 ==> f.ready(c) == (a.ready(c) || (c == dg.channel_id && (dg.channel_parent_lead == 0 || dg.channel_parent_lead > d - a.cpos(c))))
    &&& f.window_ready_flag == (a.window_ready_flag || dg.window_parent_lead == 0 || dg.window_parent_lead > d)
}
pub proof fn ready_set(w: u64) ensures forall|b: u64, c: int| b < 64 && 0 <= c < 64 ==> (#[trigger] ((w | (1u64 << b)) >> (c as u64)) & 1 != 0) == (c == b || (w >> (c as u64)) & 1 != 0)
{
    assert forall|b: u64, c: int| b < 64 && 0 <= c < 64 implies (#[trigger] ((w | (1u64 << b)) >> (c as u64)) & 1 != 0) == (c == b || (w >> (c as u64)) & 1 != 0) by {
        let t = c as u64;
        assert(((w | (1u64 << b)) >> t) & 1 != 0 <==> (b == t || (w >> t) & 1 != 0)) by (bit_vector) requires b < 64, t < 64;
    }
}
pub open spec fn waits_for(s: PacketReceiver, j: int, i: int) -> bool { 0 <= i < s.size() && s.pos(i) <= s.pos(j) && s.und(i) && s.ch(i) == s.ch(j) && s.blocked(i) }
pub proof fn behind_wit(s: PacketReceiver, j: int) -> (i: int) requires s.behind(j) ensures waits_for(s, j, i)
{ reveal(PacketReceiver::behind); choose|i: int| #![trigger s.blocked(i)] 0 <= i < s.size() && s.pos(i) <= s.pos(j) && s.und(i) && s.ch(i) == s.ch(j) && s.blocked(i) }
pub proof fn behind_is(s: PacketReceiver, j: int, i: int) requires waits_for(s, j, i) ensures s.behind(j) { reveal(PacketReceiver::behind); assert(s.blocked(i)); }
// the same entries are closed
pub open spec fn asm_like(a: PacketReceiver, b: PacketReceiver) -> bool {
    b.asm_ok() && forall|j: int| #![trigger b.assembly_window.window@[j]] 0 <= j < a.size() ==> (b.assembly_window.window@[j] is Closed) == (a.assembly_window.window@[j] is Closed) && (a.assembly_window.window@[j] is Closed ==> b.assembly_window.window@[j] == a.assembly_window.window@[j])
}
pub proof fn same_state(a: PacketReceiver) requires a.wf()
    ensures forall|b: PacketReceiver| #![trigger b.wf()] #![trigger b.ready_ok()] b.same_data(a) && asm_like(a, b) ==> b.wf() && (a.ready_ok() ==> b.ready_ok())
{
    assert forall|b: PacketReceiver| #![trigger b.wf()] #![trigger b.ready_ok()] b.same_data(a) && asm_like(a, b) implies b.wf() && (a.ready_ok() ==> b.ready_ok()) by { same_state2(a, b); }
}
proof fn same_state2(a: PacketReceiver, b: PacketReceiver) requires a.wf(), b.same_data(a), asm_like(a, b) ensures b.wf(), a.ready_ok() ==> b.ready_ok()
{
    assert(b.slots_ok()) by { reveal(PacketReceiver::slots_ok); assert forall|j: int| #![trigger b.has(j)] #![trigger b.und(j)] 0 <= j < b.size() implies b.slot_ok(j) by { let x = a.has(j); assert(a.slot_ok(j)); let v = b.assembly_window.window@[j]; } }
    assert(b.data_ok()) by { reveal(PacketReceiver::data_ok); reveal(PacketReceiver::slots_ok); assert forall|j: int| #![trigger b.data_entries@[j]] 0 <= j < b.size() implies (b.data_entries@[j].data matches Some(x) ==> x@.len() <= b.assembly_window.window@[j].cost()) by { let y = a.data_entries@[j]; let u = a.und(j); let w = a.has(j); assert(a.slot_ok(j)); let v = b.assembly_window.window@[j]; } }
    assert(b.chans_ok()) by { reveal(PacketReceiver::chans_ok); assert forall|c: int| #![trigger b.channels@[c]] 0 <= c < 64 implies b.chan_ok(c) by { assert(a.chan_ok(c)) by { let x = a.channels@[c]; } } }
    if a.ready_ok() {
        assert forall|j: int| #![trigger b.und(j)] 0 <= j < b.size() && b.und(j) && !b.ready(b.ch(j)) implies b.behind(j) by {
            let u = a.und(j);
            assert(a.behind(j));
            let k = behind_wit(a, j);
            assert(b.und(k) && b.blocked(k)); behind_is(b, j, k);
        }
    }
}
proof fn received_wf(a: PacketReceiver, f: PacketReceiver, i: int, d: int, dg: Datagram)
    requires a.wf(), received(a, f, i, d, dg), 0 <= i < a.size(), a.pos(i) == d, dg.channel_id < 64, d >= a.cpos(dg.channel_id as int), !a.has(i), f.asm_ok(), f.assembly_window.others_same(a.assembly_window, i), f.closed(i),
        f.data_entries@[i].data matches Some(x) ==> x@.len() <= f.assembly_window.window@[i].cost(),
    ensures f.wf(), a.ready_ok() ==> f.ready_ok(),
{
    assert(0 <= d < a.size()) by { kof_slot(a.base_id, i, a.receive_window_size); }
    assert(!a.und(i)) by { reveal(PacketReceiver::slots_ok); let x = a.has(i); }
    assert(f.shape());
    received_slots(a, f, i, d, dg); received_data(a, f, i, d, dg); received_chans(a, f, i, d, dg);
    if a.ready_ok() { received_ready(a, f, i, d, dg); }
}
proof fn received_slots(a: PacketReceiver, f: PacketReceiver, i: int, d: int, dg: Datagram)
    requires a.wf(), received(a, f, i, d, dg), 0 <= i < a.size(), a.pos(i) == d, 0 <= d < a.size(), dg.channel_id < 64, d >= a.cpos(dg.channel_id as int), !a.has(i), !a.und(i), f.asm_ok(), f.assembly_window.others_same(a.assembly_window, i), f.closed(i),
        f.data_entries@[i].data matches Some(x) ==> x@.len() <= f.assembly_window.window@[i].cost(),
    ensures f.slots_ok()
{
    assert forall|j: int| 0 <= j < f.size() implies #[trigger] f.slot_ok(j) by {
        assert(a.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = a.has(j); }
        let x = a.has(j); let y = a.und(j); let v = f.assembly_window.window@[j]; let e = f.data_entries@[j];
        if j != i { assert(f.cpos(f.ch(j)) == a.cpos(a.ch(j)) || !a.und(j)); }
    }
    reveal(PacketReceiver::slots_ok);
}
proof fn received_data(a: PacketReceiver, f: PacketReceiver, i: int, d: int, dg: Datagram)
    requires a.wf(), received(a, f, i, d, dg), 0 <= i < a.size(), a.pos(i) == d, 0 <= d < a.size(), dg.channel_id < 64, d >= a.cpos(dg.channel_id as int), !a.has(i), !a.und(i), f.asm_ok(), f.assembly_window.others_same(a.assembly_window, i), f.closed(i),
        f.data_entries@[i].data matches Some(x) ==> x@.len() <= f.assembly_window.window@[i].cost(),
    ensures f.data_ok()
{
    reveal(PacketReceiver::data_ok);
    assert forall|j: int| #![trigger f.data_entries@[j]] 0 <= j < f.size() implies (f.data_entries@[j].data matches Some(x) ==> x@.len() <= f.assembly_window.window@[j].cost()) by { let y = a.data_entries@[j]; let v = f.assembly_window.window@[j]; }
}
proof fn received_chans(a: PacketReceiver, f: PacketReceiver, i: int, d: int, dg: Datagram)
    requires a.wf(), received(a, f, i, d, dg), 0 <= i < a.size(), a.pos(i) == d, 0 <= d < a.size(), dg.channel_id < 64, d >= a.cpos(dg.channel_id as int), !a.has(i), !a.und(i), f.asm_ok(), f.assembly_window.others_same(a.assembly_window, i), f.closed(i),
        f.data_entries@[i].data matches Some(x) ==> x@.len() <= f.assembly_window.window@[i].cost(),
    ensures f.chans_ok()
{
    assert forall|j: int| 0 <= j < a.size() && j != i implies (#[trigger] bit(f.data_flags@, j)) == bit(a.data_flags@, j) && f.channel_entries@[j] == a.channel_entries@[j] by { let u = f.und(j); }
    assert forall|c: int| 0 <= c < 64 implies #[trigger] f.chan_ok(c) by {
        let x = a.channels@[c];
        assert(a.chan_ok(c)) by { reveal(PacketReceiver::chans_ok); }
        cnt_change(a.data_flags@, f.data_flags@, a.channel_entries@, f.channel_entries@, c, i, a.size());
        let u = f.und(i);
        cnt_range(f.data_flags@, f.channel_entries@, c, a.size());
        if let Some(b) = x.base_id { let p = slot(spec_sub(b, 1), a.receive_window_size); slot_range(spec_sub(b, 1), a.receive_window_size); let y = f.has(p); let z = f.und(p); }
    }
    reveal(PacketReceiver::chans_ok);
}
proof fn received_ready(a: PacketReceiver, f: PacketReceiver, i: int, d: int, dg: Datagram)
    requires a.wf(), received(a, f, i, d, dg), 0 <= i < a.size(), a.pos(i) == d, 0 <= d < a.size(), dg.channel_id < 64, d >= a.cpos(dg.channel_id as int), !a.has(i), !a.und(i), f.asm_ok(), f.assembly_window.others_same(a.assembly_window, i), f.closed(i),
        f.data_entries@[i].data matches Some(x) ==> x@.len() <= f.assembly_window.window@[i].cost(), a.ready_ok(),
    ensures f.ready_ok()
{
    assert forall|j: int| #![trigger f.und(j)] 0 <= j < f.size() && f.und(j) && !f.ready(f.ch(j)) implies f.behind(j) by {
        if j == i { assert(f.blocked(i)); behind_is(f, j, i); }
        else {
            let u = a.und(j);
            assert(a.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); }
            let c = f.ch(j);
            assert(!a.ready(c));
            assert(a.behind(j));
            let k = behind_wit(a, j);
            assert(f.und(k) && f.ch(k) == f.ch(j) && f.blocked(k)); behind_is(f, j, k);
        }
    }
}
// ---- delivery
// where channel c stands after the positions in d have been delivered
pub open spec fn chpos(a: PacketReceiver, d: Seq<int>, c: int) -> int decreases d.len() { if d.len() == 0 { a.cpos(c) } else if a.ch(a.sl(d.last())) == c { d.last() + 1 } else { chpos(a, d.drop_last(), c) } }
// C01: packets are taken in the order they were sent, never before their channel's position, and only when their
// channel parent is before that position (delivered or skipped)
pub open spec fn may(a: PacketReceiver, d: Seq<int>, k: int) -> bool {
    let j = a.sl(k);
    let p = chpos(a, d, a.ch(j));
    0 <= k < a.n() && a.und(j) && p <= k && (d.len() > 0 ==> d.last() < k) && (a.channel_entries@[j].channel_parent_lead == 0 || a.channel_entries@[j].channel_parent_lead > k - p)
}
pub open spec fn legal(a: PacketReceiver, d: Seq<int>) -> bool decreases d.len() { d.len() == 0 || (legal(a, d.drop_last()) && may(a, d.drop_last(), d.last())) }
// what the application gets; packets which exceeded the allocation have no data
pub open spec fn content(a: PacketReceiver, d: Seq<int>) -> Seq<Seq<u8>> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { match a.data_entries@[a.sl(d.last())].data { Some(x) => content(a, d.drop_last()).push(x@), None => content(a, d.drop_last()) } }
}
pub open spec fn taken(a: PacketReceiver, f: PacketReceiver, d: Seq<int>) -> bool { forall|j: int| #![trigger f.und(j)] #![trigger a.und(j)] 0 <= j < a.size() ==> f.und(j) == (a.und(j) && !d.contains(a.pos(j))) }
// an undelivered packet waits on its channel behind (or is) one whose parent is not before position p of the channel
#[verifier::opaque]
pub open spec fn stuck(a: PacketReceiver, f: PacketReceiver, d: Seq<int>, j: int) -> bool {
    exists|i: int| #![trigger f.und(i)] 0 <= i < a.size() && f.und(i) && a.ch(i) == a.ch(j) && a.pos(i) <= a.pos(j) && a.channel_entries@[i].channel_parent_lead != 0 && a.channel_entries@[i].channel_parent_lead <= a.pos(i) - chpos(a, d, a.ch(i))
}
// delivery loop: state s after the positions below k, of which those in d were delivered
pub open spec fn steady(a: PacketReceiver, s: PacketReceiver) -> bool {
    &&& s.base_id == a.base_id && s.end_id == a.end_id && s.receive_window_size == a.receive_window_size && s.receive_window_mask == a.receive_window_mask
    &&& s.channel_entries@ =~= a.channel_entries@ && s.window_entries@ =~= a.window_entries@ && s.entry_flags@ =~= a.entry_flags@
    &&& s.assembly_window == a.assembly_window && s.window_ready_flag == a.window_ready_flag
    &&& s.data_entries@.len() == a.data_entries@.len() && s.data_flags@.len() == a.data_flags@.len() && s.channels@.len() == 64 && s.channel_base_markers@.len() == a.channel_base_markers@.len()
}
#[verifier::opaque]
pub open spec fn mid(a: PacketReceiver, s: PacketReceiver, d: Seq<int>, k: int) -> bool {
    &&& s.wf() && steady(a, s) && legal(a, d) && taken(a, s, d)
    &&& forall|j: int| #![trigger s.data_entries@[j]] 0 <= j < a.size() && s.und(j) ==> s.data_entries@[j] == a.data_entries@[j]
    &&& forall|c: int| #![trigger s.cpos(c)] 0 <= c < 64 ==> s.cpos(c) == chpos(a, d, c)
    &&& d.len() > 0 ==> d.last() < k
    // what was passed over without delivery has taken the ready flag of its channel
    &&& forall|j: int| #![trigger s.und(j)] 0 <= j < a.size() && s.und(j) && a.pos(j) < k ==> !s.ready(s.ch(j))
    &&& a.ready_ok() ==> s.ready_ok()
}
pub proof fn mid_start(a: PacketReceiver) requires a.wf() ensures mid(a, a, Seq::empty(), 0)
{ reveal(mid); assert forall|j: int| 0 <= j < a.size() implies #[trigger] a.pos(j) >= 0 by { kof_slot(a.base_id, j, a.receive_window_size); } assert forall|j: int| #![trigger a.und(j)] 0 <= j < a.size() && a.und(j) && a.pos(j) < 0 implies !a.ready(a.ch(j)) by { let x = a.pos(j); } }
// position k: nothing to deliver, or the channel is not ready
pub proof fn mid_skip(a: PacketReceiver, s: PacketReceiver, t: PacketReceiver, d: Seq<int>, k: int)
    requires a.wf(), mid(a, s, d, k), 0 <= k < a.size(), t.same_but_asm(s), t.assembly_window == s.assembly_window, s.und(a.sl(k)) ==> !s.ready(s.ch(a.sl(k))),
    ensures mid(a, t, d, k + 1)
{
    reveal(mid);
    same_state(s);
    assert forall|j: int| #![trigger t.und(j)] 0 <= j < a.size() && t.und(j) && a.pos(j) < k + 1 implies !t.ready(t.ch(j)) by { let u = s.und(j); if a.pos(j) == k { kof_slot(a.base_id, j, a.receive_window_size); } }
    assert forall|j: int| #![trigger t.data_entries@[j]] 0 <= j < a.size() && t.und(j) implies t.data_entries@[j] == a.data_entries@[j] by { let u = s.und(j); let v = s.data_entries@[j]; }
    assert forall|c: int| #![trigger t.cpos(c)] 0 <= c < 64 implies t.cpos(c) == chpos(a, d, c) by { let u = s.cpos(c); }
    assert(taken(a, t, d)) by { assert forall|j: int| #![trigger t.und(j)] #![trigger a.und(j)] 0 <= j < a.size() implies t.und(j) == (a.und(j) && !d.contains(a.pos(j))) by { let u = s.und(j); } }
}
// position k: blocked, which takes the ready flag of the channel
pub proof fn mid_block(a: PacketReceiver, s: PacketReceiver, t: PacketReceiver, d: Seq<int>, k: int)
    requires a.wf(), mid(a, s, d, k), 0 <= k < a.size(), s.und(a.sl(k)), s.ready(s.ch(a.sl(k))), s.blocked(a.sl(k)),
        t.same_but_flags(s), forall|c: int| #![trigger t.ready(c)] #![trigger s.ready(c)] 0 <= c < 64 ==> t.ready(c) == (s.ready(c) && c != s.ch(a.sl(k))),
    ensures mid(a, t, d, k + 1)
{
    reveal(mid);
    let z = PacketReceiver { channel_ready_flags: t.channel_ready_flags, ..s };
    let i = a.sl(k);
    slot_kof(a.base_id, k as u32, a.receive_window_size);
    assert(z.wf()) by { noflags(s, z); }
    if a.ready_ok() {
        assert forall|j: int| #![trigger z.und(j)] 0 <= j < z.size() && z.und(j) && !z.ready(z.ch(j)) implies z.behind(j) by {
            let u = s.und(j);
            assert(s.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = s.has(j); }
            let r = t.ready(z.ch(j)); let r2 = s.ready(s.ch(j));
            if s.ready(s.ch(j)) {
                assert(s.ch(j) == s.ch(i));
                assert(s.pos(j) >= k);
                assert(z.blocked(i)); behind_is(z, j, i);
            } else {
                assert(s.behind(j));
                let q = behind_wit(s, j);
                assert(z.und(q) && z.blocked(q)); behind_is(z, j, q);
            }
        }
    }
    assert forall|j: int| #![trigger z.und(j)] 0 <= j < a.size() && z.und(j) && a.pos(j) < k + 1 implies !z.ready(z.ch(j)) by {
        let u = s.und(j); assert(s.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = s.has(j); } let r = t.ready(z.ch(j));
        if a.pos(j) == k { kof_slot(a.base_id, j, a.receive_window_size); } }
    assert forall|j: int| #![trigger z.data_entries@[j]] 0 <= j < a.size() && z.und(j) implies z.data_entries@[j] == a.data_entries@[j] by { let u = s.und(j); let v = s.data_entries@[j]; }
    assert forall|c: int| #![trigger z.cpos(c)] 0 <= c < 64 implies z.cpos(c) == chpos(a, d, c) by { let u = s.cpos(c); }
    assert(taken(a, z, d)) by { assert forall|j: int| #![trigger z.und(j)] #![trigger a.und(j)] 0 <= j < a.size() implies z.und(j) == (a.und(j) && !d.contains(a.pos(j))) by { let u = s.und(j); } }
    assert(mid(a, z, d, k + 1));
    mid_same(a, z, t, d, k + 1);
}
pub proof fn noflags(s: PacketReceiver, z: PacketReceiver) requires s.wf(), z == (PacketReceiver { channel_ready_flags: z.channel_ready_flags, ..s }) ensures z.wf()
{
    assert(z.slots_ok()) by { reveal(PacketReceiver::slots_ok); assert forall|j: int| #![trigger z.has(j)] #![trigger z.und(j)] 0 <= j < z.size() implies z.slot_ok(j) by { let x = s.has(j); assert(s.slot_ok(j)); } }
    assert(z.data_ok()) by { reveal(PacketReceiver::data_ok); assert forall|j: int| #![trigger z.data_entries@[j]] 0 <= j < z.size() implies (z.data_entries@[j].data matches Some(x) ==> x@.len() <= z.assembly_window.window@[j].cost()) by { let y = s.data_entries@[j]; } }
    assert(z.chans_ok()) by { reveal(PacketReceiver::chans_ok); assert forall|c: int| #![trigger z.channels@[c]] 0 <= c < 64 implies z.chan_ok(c) by { assert(s.chan_ok(c)) by { let x = s.channels@[c]; } } }
}
pub proof fn mid_same(a: PacketReceiver, s: PacketReceiver, t: PacketReceiver, d: Seq<int>, k: int)
    requires a.wf(), mid(a, s, d, k), t.same_but_asm(s), t.assembly_window == s.assembly_window,
    ensures mid(a, t, d, k)
{
    reveal(mid);
    same_state(s);
    assert forall|j: int| #![trigger t.und(j)] 0 <= j < a.size() && t.und(j) && a.pos(j) < k implies !t.ready(t.ch(j)) by { let u = s.und(j); }
    assert forall|j: int| #![trigger t.data_entries@[j]] 0 <= j < a.size() && t.und(j) implies t.data_entries@[j] == a.data_entries@[j] by { let u = s.und(j); let v = s.data_entries@[j]; }
    assert forall|c: int| #![trigger t.cpos(c)] 0 <= c < 64 implies t.cpos(c) == chpos(a, d, c) by { let u = s.cpos(c); }
    assert(taken(a, t, d)) by { assert forall|j: int| #![trigger t.und(j)] #![trigger a.und(j)] 0 <= j < a.size() implies t.und(j) == (a.und(j) && !d.contains(a.pos(j))) by { let u = s.und(j); } }
}
// no channel base is marked at the slot after an undelivered packet
pub proof fn deliver_pre(s: PacketReceiver, k: int)
    requires s.wf(), 0 <= k < s.size(), s.und(s.sl(k)),
    ensures s.channel_base_markers@[slot(spec_add(s.base_id, (k + 1) as u32), s.receive_window_size)] is None, s.slot_ok(s.sl(k)), k < s.n(), 0 <= s.sl(k) < s.size(), s.pos(s.sl(k)) == k, s.chan_ok(s.ch(s.sl(k))), s.ch(s.sl(k)) < 64,
        s.channels@[s.ch(s.sl(k))].packet_count > 0, s.cpos(s.ch(s.sl(k))) <= k,
{
    let size = s.receive_window_size;
    let i = s.sl(k);
    slot_kof(s.base_id, k as u32, size);
    assert(s.slot_ok(i)) by { reveal(PacketReceiver::slots_ok); let x = s.has(i); }
    let c0 = s.ch(i);
    assert(s.chan_ok(c0)) by { reveal(PacketReceiver::chans_ok); let x = s.channels@[c0]; }
    cnt_range(s.data_flags@, s.channel_entries@, c0, s.size());
    assert(bit(s.data_flags@, i));
    let n1 = slot(spec_add(s.base_id, (k + 1) as u32), size);
    slot_range(spec_add(s.base_id, (k + 1) as u32), size);
    if let Some(c) = s.channel_base_markers@[n1] {
        let cc = c as int;
        assert(s.chan_ok(cc)) by { reveal(PacketReceiver::chans_ok); let x = s.channels@[cc]; }
        let b = s.channels@[cc].base_id.unwrap();
        marker_pos(s.base_id, b, k as u32, size);
        sub_one(s.base_id, b);
        id_pos(s.base_id, spec_sub(b, 1), size);
        kof_slot(s.base_id, slot(spec_sub(b, 1), size), size);
        assert(false);
    }
}
// the markers of two distances in 1..=size are at the same slot only if they are equal
pub proof fn marker_pos(base: u32, b: u32, k: u32, size: u32) requires pow2(size), base <= 0xFFFFF, b <= 0xFFFFF, k < size, 1 <= spec_sub(b, base) <= size, slot(b, size) == slot(spec_add(base, (k + 1) as u32), size) ensures spec_sub(b, base) == k + 1
{
    let d = spec_sub(b, base);
    assert(spec_add(base, d) == b);
    add_add(base, 1, (d - 1) as u32); add_add(base, 1, k);
    if d - 1 != k { slot_distinct(spec_add(base, 1), (d - 1) as u32, k, size); }
}
pub open spec fn after_delivery(s: PacketReceiver, t: PacketReceiver, i: int, id1: u32) -> bool {
    let c = s.ch(i);
    &&& steady(s, t)
    &&& forall|j: int| #![trigger t.und(j)] #![trigger s.und(j)] 0 <= j < s.size() ==> t.und(j) == (s.und(j) && j != i)
    &&& t.data_entries@.len() == s.size() && t.data_entries@[i].data is None && forall|j: int| 0 <= j < s.size() && j != i ==> #[trigger] t.data_entries@[j] == s.data_entries@[j]
    &&& t.channels@ =~= s.channels@.update(c, Channel { base_id: Some(id1), packet_count: (s.channels@[c].packet_count - 1) as u32 })
    &&& t.channel_base_markers@ =~= (match s.channels@[c].base_id { Some(b) => s.channel_base_markers@.update(slot(b, s.receive_window_size), None), None => s.channel_base_markers@ }).update(slot(id1, s.receive_window_size), Some(c as u8))
    &&& forall|x: int| #![trigger t.ready(x)] #![trigger s.ready(x)] 0 <= x < 64 ==> t.ready(x) == (s.ready(x) && !(x == c && s.channels@[c].packet_count == 1))
}
pub proof fn mid_deliver(a: PacketReceiver, s: PacketReceiver, t: PacketReceiver, d: Seq<int>, k: int)
    requires a.wf(), mid(a, s, d, k), 0 <= k < a.size(), s.und(a.sl(k)), s.ready(s.ch(a.sl(k))), !s.blocked(a.sl(k)), after_delivery(s, t, a.sl(k), spec_add(a.base_id, (k + 1) as u32)),
    ensures mid(a, t, d.push(k), k + 1), content(a, d.push(k)) == (match a.data_entries@[a.sl(k)].data { Some(x) => content(a, d).push(x@), None => content(a, d) })
{
    reveal(mid);
    let i = a.sl(k);
    let c = s.ch(i);
    let e = d.push(k);
    let size = a.receive_window_size;
    assert(e.drop_last() =~= d && e.last() == k);
    deliver_pre(s, k);
    add_add(a.base_id, (k + 1) as u32, 0);
    let u0 = a.und(i); let c0 = s.cpos(c);
    assert(legal(a, e));
    assert forall|x: int| #![trigger t.cpos(x)] 0 <= x < 64 implies t.cpos(x) == chpos(a, e, x) by { let u = s.cpos(x); }
    assert(taken(a, t, e)) by { assert forall|j: int| #![trigger t.und(j)] #![trigger a.und(j)] 0 <= j < a.size() implies t.und(j) == (a.und(j) && !e.contains(a.pos(j))) by { let u = s.und(j); push_contains(d, k, a.pos(j)); if a.pos(j) == k { kof_slot(a.base_id, j, size); } } }
    assert forall|j: int| #![trigger t.data_entries@[j]] 0 <= j < a.size() && t.und(j) implies t.data_entries@[j] == a.data_entries@[j] by { let u = s.und(j); let v = s.data_entries@[j]; }
    assert(c < 64);
    deliver_slots(s, t, i, k); deliver_chans(s, t, i, k); deliver_marks(s, t, i, k);
    deliver_ready(a, s, t, i, k, d);
}
pub proof fn push_contains(d: Seq<int>, k: int, x: int) ensures d.push(k).contains(x) == (d.contains(x) || x == k)
{
    if d.contains(x) { let y = choose|y: int| 0 <= y < d.len() && d[y] == x; assert(d.push(k)[y] == x); }
    if x == k { assert(d.push(k)[d.len() as int] == x); }
}
pub open spec fn delivering(s: PacketReceiver, t: PacketReceiver, i: int, k: int) -> bool { s.wf() && 0 <= k < s.size() && i == s.sl(k) && 0 <= i < s.size() && s.pos(i) == k && s.und(i) && s.ready(s.ch(i)) && s.ch(i) < 64 && after_delivery(s, t, i, spec_add(s.base_id, (k + 1) as u32)) && s.cpos(s.ch(i)) <= k && s.slot_ok(i)
    && forall|j: int| #![trigger s.und(j)] 0 <= j < s.size() && s.und(j) && s.pos(j) < k ==> !s.ready(s.ch(j)) }
proof fn deliver_slots(s: PacketReceiver, t: PacketReceiver, i: int, k: int) requires delivering(s, t, i, k) ensures t.slots_ok(), t.data_ok()
{
    let c = s.ch(i);
    add_add(s.base_id, (k + 1) as u32, 0);
    assert forall|j: int| 0 <= j < t.size() implies #[trigger] t.slot_ok(j) by {
        assert(s.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = s.has(j); }
        let x = s.has(j); let y = s.und(j); let e = t.data_entries@[j];
        if j != i && s.und(j) && s.ch(j) == c { kof_slot(s.base_id, j, s.receive_window_size); assert(s.pos(j) != k); assert(s.pos(j) > k); assert(t.cpos(c) == k + 1); }
        else { let z = s.cpos(s.ch(j)); if s.ch(j) != c { assert(s.und(j) ==> t.cpos(s.ch(j)) == z); } }
    }
    reveal(PacketReceiver::slots_ok); reveal(PacketReceiver::data_ok);
    assert forall|j: int| #![trigger t.data_entries@[j]] 0 <= j < t.size() implies (t.data_entries@[j].data matches Some(x) ==> x@.len() <= t.assembly_window.window@[j].cost()) by { let y = s.data_entries@[j]; }
}
proof fn deliver_chans(s: PacketReceiver, t: PacketReceiver, i: int, k: int) requires delivering(s, t, i, k) ensures t.chans_ok()
{
    let c = s.ch(i);
    let size = s.receive_window_size;
    let id1 = spec_add(s.base_id, (k + 1) as u32);
    add_add(s.base_id, (k + 1) as u32, 0); add_add(s.base_id, k as u32, 1);
    assert(spec_sub(id1, 1) == spec_add(s.base_id, k as u32)) by { sub_one(s.base_id, id1); }
    deliver_pre(s, k);
    slot_range(id1, size);
    assert forall|x: int| 0 <= x < 64 implies #[trigger] t.chan_ok(x) by {
        let y = s.channels@[x];
        assert(s.chan_ok(x)) by { reveal(PacketReceiver::chans_ok); }
        assert forall|j: int| 0 <= j < s.size() && j != i implies (#[trigger] bit(t.data_flags@, j)) == bit(s.data_flags@, j) && t.channel_entries@[j] == s.channel_entries@[j] by { let u = t.und(j); }
        cnt_change(s.data_flags@, t.data_flags@, s.channel_entries@, t.channel_entries@, x, i, s.size());
        let u = t.und(i);
        if x == c { let h = t.has(i); assert(s.has(i)); assert(t.channels@[x].base_id == Some(id1)); }
        else if let Some(b) = y.base_id {
            let p = slot(spec_sub(b, 1), size);
            slot_range(spec_sub(b, 1), size); slot_range(b, size);
            let h = t.has(p); let v = t.und(p);
            let m = s.channel_base_markers@[slot(b, size)];
            assert(m == Some(x as u8));
        }
    }
    reveal(PacketReceiver::chans_ok);
}
proof fn deliver_marks(s: PacketReceiver, t: PacketReceiver, i: int, k: int) requires delivering(s, t, i, k) ensures t.marks_ok()
{
    let size = s.receive_window_size;
    let c = s.ch(i);
    let id1 = spec_add(s.base_id, (k + 1) as u32);
    slot_range(id1, size);
    if let Some(b) = s.channels@[c].base_id { slot_range(b, size); }
    assert forall|j: int| #![trigger t.channel_base_markers@[j]] 0 <= j < size implies (t.channel_base_markers@[j] matches Some(x) ==> x < 64 && (t.channels@[x as int].base_id matches Some(b) && slot(b, size) == j)) by { let y = s.channel_base_markers@[j]; }
}
proof fn deliver_ready(a: PacketReceiver, s: PacketReceiver, t: PacketReceiver, i: int, k: int, d: Seq<int>) requires delivering(s, t, i, k), t.slots_ok(), t.chans_ok(), s.receive_window_size == a.receive_window_size, s.base_id == a.base_id,
    ensures forall|j: int| #![trigger t.und(j)] 0 <= j < a.size() && t.und(j) && a.pos(j) < k + 1 ==> !t.ready(t.ch(j)), s.ready_ok() ==> t.ready_ok()
{
    let c = s.ch(i);
    assert forall|j: int| #![trigger t.und(j)] 0 <= j < a.size() && t.und(j) && a.pos(j) < k + 1 implies !t.ready(t.ch(j)) by {
        let u = s.und(j); assert(t.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = t.has(j); } let r = t.ready(t.ch(j)); let r2 = s.ready(s.ch(j));
        if a.pos(j) == k { kof_slot(s.base_id, j, s.receive_window_size); }
    }
    if s.ready_ok() {
        assert forall|j: int| #![trigger t.und(j)] 0 <= j < t.size() && t.und(j) && !t.ready(t.ch(j)) implies t.behind(j) by {
            let u = s.und(j);
            assert(t.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = t.has(j); }
            let r = t.ready(t.ch(j)); let r2 = s.ready(s.ch(j));
            if t.ch(j) == c {
                assert(t.chan_ok(c)) by { reveal(PacketReceiver::chans_ok); let x = t.channels@[c]; }
                cnt_range(t.data_flags@, t.channel_entries@, c, t.size());
                assert(bit(t.data_flags@, j));
                assert(false);
            }
            assert(s.behind(j));
            let q = behind_wit(s, j);
            assert(t.und(q)); 
            assert(t.cpos(t.ch(q)) == s.cpos(s.ch(q)));
            assert(t.blocked(q)); behind_is(t, j, q);
        }
    }
}
pub proof fn mid_done(a: PacketReceiver, s: PacketReceiver, d: Seq<int>, k: int)
    requires a.wf(), mid(a, s, d, k), k == a.n() || s.channel_ready_flags == 0,
    ensures a.ready_ok() ==> forall|j: int| #![trigger s.und(j)] 0 <= j < a.size() && s.und(j) ==> s.behind(j) && stuck(a, s, d, j)
{
    reveal(stuck);
    reveal(mid);
    assert forall|c: int| 0 <= c < 64 && s.channel_ready_flags == 0 implies !#[trigger] s.ready(c) by { let t = c as u64; assert((0u64 >> t) & 1 == 0) by (bit_vector); }
    if a.ready_ok() {
        assert forall|j: int| #![trigger s.und(j)] 0 <= j < a.size() && s.und(j) implies s.behind(j) && stuck(a, s, d, j) by {
            assert(s.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = s.has(j); }
            assert(!s.ready(s.ch(j)));
            assert(s.behind(j));
            let q = behind_wit(s, j);
            let z = s.cpos(s.ch(q));
            assert(s.slot_ok(q)) by { reveal(PacketReceiver::slots_ok); let x = s.und(q); }
        }
    }
}
pub proof fn ready_clear(w: u64) ensures forall|b: u64, c: int| b < 64 && 0 <= c < 64 ==> (#[trigger] ((w & !(1u64 << b)) >> (c as u64)) & 1 != 0) == (c != b && (w >> (c as u64)) & 1 != 0),
    forall|b: u64| b < 64 ==> (#[trigger] (w & (1u64 << b)) != 0) == ((w >> b) & 1 != 0)
{
    assert forall|b: u64, c: int| b < 64 && 0 <= c < 64 implies (#[trigger] ((w & !(1u64 << b)) >> (c as u64)) & 1 != 0) == (c != b && (w >> (c as u64)) & 1 != 0) by {
        let t = c as u64;
        assert(((w & !(1u64 << b)) >> t) & 1 != 0 <==> (b != t && (w >> t) & 1 != 0)) by (bit_vector) requires b < 64, t < 64;
    }
    assert forall|b: u64| b < 64 implies (#[trigger] (w & (1u64 << b)) != 0) == ((w >> b) & 1 != 0) by { assert((w & (1u64 << b) != 0) == ((w >> b) & 1 != 0)) by (bit_vector) requires b < 64; }
}
// ---- the window
// position after the last packet present below k
pub open spec fn lastp(a: PacketReceiver, k: int) -> int decreases k { if k <= 0 { 0 } else if a.has(a.sl(k - 1)) { k } else { lastp(a, k - 1) } }
// the packet at k has been delivered (by the end of f) and no reliable packet lies between it and the one before
pub open spec fn passable(a: PacketReceiver, f: PacketReceiver, k: int) -> bool { !f.und(a.sl(k)) && (a.window_entries@[a.sl(k)].window_parent_lead == 0 || a.window_entries@[a.sl(k)].window_parent_lead > k - lastp(a, k)) }
pub open spec fn walked(a: PacketReceiver, f: PacketReceiver, p: int) -> bool { forall|k: int| #![trigger a.sl(k)] 0 <= k < p && a.has(a.sl(k)) ==> passable(a, f, k) }
// the window moves over passable packets only (and what was skipped between them), and as far as possible
pub open spec fn walk_end(a: PacketReceiver, f: PacketReceiver, m: int) -> bool { exists|p: int| #![trigger lastp(a, p)] 0 <= p <= a.n() && m == lastp(a, p) && walked(a, f, p) && (p < a.n() ==> a.has(a.sl(p)) && !passable(a, f, p)) }
pub proof fn lastp_range(a: PacketReceiver, p: int) requires 0 <= p ensures 0 <= lastp(a, p) <= p decreases p { if p > 0 { lastp_range(a, p - 1); } }
// the sender's rule: no reliable packet of a channel is left behind while one that names it as parent is undelivered
pub open spec fn parents_kept(a: PacketReceiver, f: PacketReceiver) -> bool { forall|j: int| #![trigger f.und(j)] 0 <= j < a.size() && f.und(j) && a.channel_entries@[j].channel_parent_lead != 0 ==> a.pos(j) - a.channel_entries@[j].channel_parent_lead >= spec_sub(f.base_id, a.base_id) }
pub proof fn walk_quiet(a: PacketReceiver, g: PacketReceiver, h: PacketReceiver, p: int)
    requires a.wf(), steady(a, g), g.wf(), 0 <= p <= a.n(), walked(a, g, p), h.same_data(g), h.assembly_window == g.assembly_window,
    ensures h.quiet_below(p), h.wf()
{
    same_state(g);
    assert forall|j: int| #![trigger h.und(j)] 0 <= j < h.size() && h.pos(j) < p implies !h.und(j) by {
        let k = a.pos(j);
        kof_slot(a.base_id, j, a.receive_window_size);
        assert(a.sl(k) == j);
        let u = g.und(j);
        assert(g.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); }
        if a.has(j) { assert(passable(a, g, k)); }
    }
}
// after the delivery loop (g), possibly after the window walk (h before the move), the final state f
pub open spec fn received_to(a: PacketReceiver, f: PacketReceiver, d: Seq<int>, m: int) -> bool {
    &&& f.wf() && spec_sub(f.base_id, a.base_id) == m && taken(a, f, d) && f.n() == a.n() - m && f.receive_window_size == a.receive_window_size && f.channel_entries@ == a.channel_entries@
    &&& forall|c: int| #![trigger f.cpos(c)] 0 <= c < 64 ==> f.cpos(c) == max2(chpos(a, d, c) - m, 0)
    &&& forall|j: int| #![trigger f.has(j)] #![trigger a.has(j)] 0 <= j < a.size() ==> f.has(j) == (a.has(j) && a.pos(j) >= m)
    &&& forall|j: int| #![trigger f.assembly_window.window@[j]] 0 <= j < a.size() ==> f.assembly_window.window@[j] == (if a.pos(j) < m { WindowEntry::Open } else { a.assembly_window.window@[j] })
}
pub open spec fn moved(a: PacketReceiver, g: PacketReceiver, h: PacketReceiver, f: PacketReceiver, p: int, m: int) -> bool {
    h.same_data(g) && h.assembly_window == g.assembly_window && advanced(h, f, spec_add(a.base_id, m as u32)) && f.wf() && m == lastp(a, p) && 0 <= p <= a.n() && walked(a, g, p) && (p < a.n() ==> a.has(a.sl(p)) && !passable(a, g, p))
}
pub proof fn receive_done(a: PacketReceiver, g: PacketReceiver, h: PacketReceiver, f: PacketReceiver, d: Seq<int>, k: int, p: int, m: int)
    requires a.wf(), mid(a, g, d, k), 0 <= m <= a.n(), k == a.n() || g.channel_ready_flags == 0, if a.window_ready_flag { moved(a, g, h, f, p, m) } else { f == g && m == 0 },
    ensures legal(a, d), received_to(a, f, d, m), a.window_ready_flag ==> walk_end(a, f, m),
        a.ready_ok() ==> forall|j: int| #![trigger f.und(j)] 0 <= j < a.size() && f.und(j) ==> stuck(a, f, d, j),
        a.ready_ok() && parents_kept(a, f) ==> f.ready_ok(),
{
    assert(legal(a, d) && taken(a, g, d)) by { reveal(mid); }
    mid_done(a, g, d, k);
    if a.window_ready_flag { done_moved(a, g, h, f, d, k, p, m); done_walk(a, g, h, f, d, k, p, m); } else { done_still(a, g, d, k); }
    if a.ready_ok() { done_ready(a, g, f, d, m); }
}
proof fn done_still(a: PacketReceiver, g: PacketReceiver, d: Seq<int>, k: int) requires a.wf(), mid(a, g, d, k) ensures received_to(a, g, d, 0)
{
    reveal(mid);
    add_add(a.base_id, 0, 0);
    assert forall|j: int| 0 <= j < a.size() implies #[trigger] a.pos(j) >= 0 by { kof_slot(a.base_id, j, a.receive_window_size); }
    assert forall|j: int| #![trigger g.has(j)] #![trigger a.has(j)] 0 <= j < a.size() implies g.has(j) == (a.has(j) && a.pos(j) >= 0) by { }
    assert forall|c: int| #![trigger g.cpos(c)] 0 <= c < 64 implies g.cpos(c) == max2(chpos(a, d, c) - 0, 0) by { assert(g.chan_ok(c)) by { reveal(PacketReceiver::chans_ok); let x = g.channels@[c]; } }
    assert forall|j: int| #![trigger g.assembly_window.window@[j]] 0 <= j < a.size() implies g.assembly_window.window@[j] == (if a.pos(j) < 0 { WindowEntry::Open } else { a.assembly_window.window@[j] }) by { let x = a.pos(j); }
}
proof fn done_moved(a: PacketReceiver, g: PacketReceiver, h: PacketReceiver, f: PacketReceiver, d: Seq<int>, k: int, p: int, m: int)
    requires a.wf(), mid(a, g, d, k), 0 <= m <= a.n(), moved(a, g, h, f, p, m),
    ensures received_to(a, f, d, m)
{
    add_add(a.base_id, m as u32, 0);
    assert(steady(a, g) && taken(a, g, d)) by { reveal(mid); }
    assert forall|j: int| #![trigger f.has(j)] #![trigger a.has(j)] 0 <= j < a.size() implies f.has(j) == (a.has(j) && a.pos(j) >= m) by { let x = h.has(j); }
    assert(taken(a, f, d)) by { assert forall|j: int| #![trigger f.und(j)] #![trigger a.und(j)] 0 <= j < a.size() implies f.und(j) == (a.und(j) && !d.contains(a.pos(j))) by { let u = g.und(j); } }
    assert forall|c: int| #![trigger f.cpos(c)] 0 <= c < 64 implies f.cpos(c) == max2(chpos(a, d, c) - m, 0) by { reveal(mid); let u = g.cpos(c); let v = h.cpos(c); let w = h.channels@[c]; }
    assert forall|j: int| #![trigger f.assembly_window.window@[j]] 0 <= j < a.size() implies f.assembly_window.window@[j] == (if a.pos(j) < m { WindowEntry::Open } else { a.assembly_window.window@[j] }) by { let x = h.pos(j); }
}
proof fn done_walk(a: PacketReceiver, g: PacketReceiver, h: PacketReceiver, f: PacketReceiver, d: Seq<int>, k: int, p: int, m: int)
    requires a.wf(), mid(a, g, d, k), 0 <= m <= a.n(), moved(a, g, h, f, p, m),
    ensures walk_end(a, f, m)
{
    assert(steady(a, g)) by { reveal(mid); }
    assert(forall|j: int| 0 <= j < a.size() ==> #[trigger] f.und(j) == g.und(j));
    assert(walked(a, f, p)) by { assert forall|q: int| #![trigger a.sl(q)] 0 <= q < p && a.has(a.sl(q)) implies passable(a, f, q) by { assert(passable(a, g, q)); slot_kof(a.base_id, q as u32, a.receive_window_size); let u = f.und(a.sl(q)); } }
    if p < a.n() { slot_kof(a.base_id, p as u32, a.receive_window_size); let u = f.und(a.sl(p)); }
    assert(walk_end(a, f, m)) by { let z = lastp(a, p); }
}
proof fn stuck_same(a: PacketReceiver, g: PacketReceiver, f: PacketReceiver, d: Seq<int>, j: int)
    requires taken(a, f, d), taken(a, g, d), 0 <= j < a.size(), stuck(a, g, d, j),
    ensures stuck(a, f, d, j)
{
    reveal(stuck);
    let i = choose|i: int| #![trigger g.und(i)] 0 <= i < a.size() && g.und(i) && a.ch(i) == a.ch(j) && a.pos(i) <= a.pos(j) && a.channel_entries@[i].channel_parent_lead != 0 && a.channel_entries@[i].channel_parent_lead <= a.pos(i) - chpos(a, d, a.ch(i));
    let x = a.und(i);
    assert(f.und(i));
}
proof fn done_ready(a: PacketReceiver, g: PacketReceiver, f: PacketReceiver, d: Seq<int>, m: int)
    requires a.wf(), received_to(a, f, d, m), taken(a, g, d), 0 <= m <= a.size(), forall|j: int| #![trigger g.und(j)] 0 <= j < a.size() && g.und(j) ==> stuck(a, g, d, j),
    ensures forall|j: int| #![trigger f.und(j)] 0 <= j < a.size() && f.und(j) ==> stuck(a, f, d, j), parents_kept(a, f) ==> f.ready_ok()
{
    assert forall|j: int| #![trigger f.und(j)] 0 <= j < a.size() && f.und(j) implies stuck(a, f, d, j) by { let w = a.und(j); assert(g.und(j)); stuck_same(a, g, f, d, j); }
    if parents_kept(a, f) {
        assert forall|j: int| #![trigger f.und(j)] 0 <= j < f.size() && f.und(j) && !f.ready(f.ch(j)) implies f.behind(j) by { receive_behind(a, f, d, m, j); }
    }
}
proof fn receive_behind(a: PacketReceiver, f: PacketReceiver, d: Seq<int>, m: int, j: int)
    requires a.wf(), f.wf(), 0 <= m <= a.size(), 0 <= j < a.size(), stuck(a, f, d, j), parents_kept(a, f), spec_sub(f.base_id, a.base_id) == m, f.und(j), f.receive_window_size == a.receive_window_size, f.channel_entries@ == a.channel_entries@,
        forall|c: int| #![trigger f.cpos(c)] 0 <= c < 64 ==> f.cpos(c) == max2(chpos(a, d, c) - m, 0),
        forall|j: int| #![trigger f.has(j)] #![trigger a.has(j)] 0 <= j < a.size() ==> f.has(j) == (a.has(j) && a.pos(j) >= m),
    ensures f.behind(j)
{
    reveal(stuck);
    let i = choose|i: int| #![trigger f.und(i)] 0 <= i < a.size() && f.und(i) && a.ch(i) == a.ch(j) && a.pos(i) <= a.pos(j) && a.channel_entries@[i].channel_parent_lead != 0 && a.channel_entries@[i].channel_parent_lead <= a.pos(i) - chpos(a, d, a.ch(i));
    assert(f.slot_ok(i) && f.slot_ok(j)) by { reveal(PacketReceiver::slots_ok); let x = f.has(i); let y = f.has(j); }
    assert(spec_add(a.base_id, m as u32) == f.base_id);
    kof_shift(a.base_id, m as u32, i, a.receive_window_size); kof_shift(a.base_id, m as u32, j, a.receive_window_size);
    let z = f.cpos(f.ch(i));
    assert(f.blocked(i)); behind_is(f, j, i);
}
// stand for `(0 .. n).map(|_| e).collect()`
pub fn rep_cadv(n: u32, e: ChannelAdvEntry) -> (v: Vec<ChannelAdvEntry>) ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == e
{
    let mut v: Vec<ChannelAdvEntry> = Vec::new();
    while v.len() < n as usize invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == e, decreases n - v@.len() { v.push(ChannelAdvEntry { channel_id: e.channel_id, channel_parent_lead: e.channel_parent_lead }); }
    v
}
pub fn rep_wadv(n: u32, e: WindowAdvEntry) -> (v: Vec<WindowAdvEntry>) ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == e
{
    let mut v: Vec<WindowAdvEntry> = Vec::new();
    while v.len() < n as usize invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == e, decreases n - v@.len() { v.push(WindowAdvEntry { window_parent_lead: e.window_parent_lead }); }
    v
}
pub fn rep_data(n: u32, e: DataEntry) -> (v: Vec<DataEntry>) requires e.data is None ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == e
{
    let mut v: Vec<DataEntry> = Vec::new();
    while v.len() < n as usize invariant e.data is None, v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == e, decreases n - v@.len() { v.push(DataEntry { data: None }); }
    v
}
pub fn rep_chan(n: usize, e: Channel) -> (v: Vec<Channel>) ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == e
{
    let mut v: Vec<Channel> = Vec::new();
    while v.len() < n invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == e, decreases n - v@.len() { v.push(Channel { base_id: e.base_id, packet_count: e.packet_count }); }
    v
}
pub fn rep_none(n: u32) -> (v: Vec<Option<u8>>) ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == None::<u8>
{
    let mut v: Vec<Option<u8>> = Vec::new();
    while v.len() < n as usize invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == None::<u8>, decreases n - v@.len() { v.push(None); }
    v
}
// a receiver in which nothing has arrived
pub open spec fn empty(r: PacketReceiver) -> bool {
    &&& r.shape() && r.asm_ok() && r.n() == 0
    &&& forall|j: int| #![trigger r.has(j)] #![trigger r.und(j)] 0 <= j < r.size() ==> !r.has(j) && !r.und(j)
    &&& forall|j: int| 0 <= j < r.size() ==> (#[trigger] r.data_entries@[j]).data is None
    &&& forall|j: int| 0 <= j < r.size() ==> (#[trigger] r.assembly_window.window@[j]) is Open
    &&& forall|c: int| 0 <= c < 64 ==> (#[trigger] r.channels@[c]).base_id is None && r.channels@[c].packet_count == 0
    &&& forall|j: int| 0 <= j < r.size() ==> (#[trigger] r.channel_base_markers@[j]) is None
}
pub proof fn empty_wf() ensures forall|r: PacketReceiver| #![trigger r.wf()] #![trigger r.ready_ok()] empty(r) ==> r.wf() && r.ready_ok()
{
    assert forall|r: PacketReceiver| #![trigger r.wf()] #![trigger r.ready_ok()] empty(r) implies r.wf() && r.ready_ok() by {
        reveal(PacketReceiver::slots_ok); reveal(PacketReceiver::data_ok); reveal(PacketReceiver::chans_ok);
        assert forall|j: int| #![trigger r.has(j)] #![trigger r.und(j)] 0 <= j < r.size() implies r.slot_ok(j) by { let x = r.has(j); let y = r.data_entries@[j]; let z = r.assembly_window.window@[j]; }
        assert forall|c: int| #![trigger r.channels@[c]] 0 <= c < 64 implies r.chan_ok(c) by { assert forall|j: int| 0 <= j < r.size() implies !#[trigger] bit(r.data_flags@, j) by { let x = r.und(j); } cnt_none(r.data_flags@, r.channel_entries@, c, r.size()); }
    }
}
pub proof fn cnt_none(f: Seq<u64>, e: Seq<ChannelAdvEntry>, c: int, n: int) requires n >= 0, forall|j: int| 0 <= j < n ==> !#[trigger] bit(f, j) ensures cnt(f, e, c, n) == 0 decreases n { if n > 0 { cnt_none(f, e, c, n - 1); } }
impl PacketReceiver {
    // what moving the window leaves alone
    pub open spec fn fixed(self, o: PacketReceiver) -> bool {
        &&& self.receive_window_size == o.receive_window_size && self.receive_window_mask == o.receive_window_mask
        &&& self.channel_entries@ == o.channel_entries@ && self.window_entries@ == o.window_entries@ && self.data_entries@ == o.data_entries@ && self.data_flags@ == o.data_flags@
        &&& self.channel_ready_flags == o.channel_ready_flags && self.window_ready_flag == o.window_ready_flag
    }
    pub open spec fn same_but_flags(self, o: PacketReceiver) -> bool { self.same_but_asm(PacketReceiver { channel_ready_flags: self.channel_ready_flags, ..o }) && self.assembly_window == o.assembly_window }
    pub open spec fn same_but_chans(self, o: PacketReceiver) -> bool {
        self.fixed(o) && self.entry_flags@ == o.entry_flags@ && self.assembly_window == o.assembly_window && self.base_id == o.base_id && self.end_id == o.end_id
    }
    pub open spec fn has(self, j: int) -> bool { bit(self.entry_flags@, j) }
    pub open spec fn und(self, j: int) -> bool { bit(self.data_flags@, j) }
    pub open spec fn size(self) -> int { self.receive_window_size as int }
    pub open spec fn n(self) -> int { spec_sub(self.end_id, self.base_id) as int }
    pub open spec fn pos(self, j: int) -> int { kof(self.base_id, j, self.receive_window_size) }
    pub open spec fn sl(self, k: int) -> int { slot(spec_add(self.base_id, k as u32), self.receive_window_size) }
    pub open spec fn ch(self, j: int) -> int { self.channel_entries@[j].channel_id as int }
    // first position a packet of channel c may still be delivered from
    pub open spec fn cpos(self, c: int) -> int { match self.channels@[c].base_id { None => 0, Some(b) => spec_sub(b, self.base_id) as int } }
    pub open spec fn closed(self, j: int) -> bool { self.assembly_window.window@[j] is Closed }
    pub open spec fn ready(self, c: int) -> bool { (self.channel_ready_flags >> (c as u64)) & 1 != 0 }
    // waits for a parent on its channel which is neither delivered nor skipped
    pub open spec fn blocked(self, j: int) -> bool { self.channel_entries@[j].channel_parent_lead != 0 && self.channel_entries@[j].channel_parent_lead <= self.pos(j) - self.cpos(self.ch(j)) }

    pub open spec fn shape(self) -> bool {
        &&& pow2(self.receive_window_size) && self.receive_window_mask == self.receive_window_size - 1
        &&& self.channel_entries@.len() == self.size() && self.window_entries@.len() == self.size() && self.data_entries@.len() == self.size() && self.channel_base_markers@.len() == self.size()
        &&& self.entry_flags@.len() == (self.size() + 63) / 64 && self.data_flags@.len() == (self.size() + 63) / 64
        &&& self.channels@.len() == 64
        &&& self.base_id <= 0xFFFFF && self.end_id <= 0xFFFFF && self.n() <= self.size()
    }
    // slot contents
    #[verifier::opaque]
    pub open spec fn slots_ok(self) -> bool {
        forall|j: int| #![trigger self.has(j)] #![trigger self.und(j)] 0 <= j < self.size() ==> self.slot_ok(j)
    }
    pub open spec fn slot_ok(self, j: int) -> bool {
        &&& self.und(j) ==> self.has(j) && self.ch(j) < 64
        &&& self.has(j) == self.closed(j)
        &&& self.has(j) ==> self.pos(j) < self.n()
        &&& !self.und(j) ==> self.data_entries@[j].data is None
        &&& self.und(j) ==> self.pos(j) >= self.cpos(self.ch(j))
    }
    // nothing undelivered below position m
    pub open spec fn quiet_below(self, m: int) -> bool { forall|j: int| #![trigger self.und(j)] 0 <= j < self.size() && self.pos(j) < m ==> !self.und(j) }
    // C06: undelivered data is covered by the counter of the assembly window
    #[verifier::opaque]
    pub open spec fn data_ok(self) -> bool {
        forall|j: int| #![trigger self.data_entries@[j]] 0 <= j < self.size() ==> (self.data_entries@[j].data matches Some(d) ==> d@.len() <= self.assembly_window.window@[j].cost())
    }
    pub open spec fn chan_ok(self, c: int) -> bool {
        &&& self.channels@[c].packet_count == cnt(self.data_flags@, self.channel_entries@, c, self.size())
        &&& self.channels@[c].base_id matches Some(b) ==> {
            &&& b <= 0xFFFFF && 1 <= self.cpos(c) <= self.size() && self.channel_base_markers@[slot(b, self.receive_window_size)] == Some(c as u8)
            &&& ({ let p = slot(spec_sub(b, 1), self.receive_window_size); self.has(p) && !self.und(p) })
        }
    }
    pub open spec fn marks_ok(self) -> bool {
        marks_of(self.channels@, self.channel_base_markers@, self.receive_window_size)
    }
    #[verifier::opaque]
    pub open spec fn chans_ok(self) -> bool { forall|c: int| #![trigger self.channels@[c]] 0 <= c < 64 ==> self.chan_ok(c) }
    pub open spec fn asm_ok(self) -> bool { self.assembly_window.wf() }
    pub open spec fn wf(self) -> bool { self.shape() && self.asm_ok() && self.slots_ok() && self.data_ok() && self.chans_ok() && self.marks_ok() }
    // every undelivered packet of a channel without ready flag waits behind (or is) a blocked one
    pub open spec fn ready_ok(self) -> bool {
        forall|j: int| #![trigger self.und(j)] 0 <= j < self.size() && self.und(j) && !self.ready(self.ch(j)) ==> self.behind(j)
    }
    #[verifier::opaque]
    pub open spec fn behind(self, j: int) -> bool { exists|i: int| #![trigger self.blocked(i)] 0 <= i < self.size() && self.pos(i) <= self.pos(j) && self.und(i) && self.ch(i) == self.ch(j) && self.blocked(i) }

    pub open spec fn same_but_asm(self, o: PacketReceiver) -> bool { self.same_data(o) && self.window_ready_flag == o.window_ready_flag }
    pub open spec fn same_data(self, o: PacketReceiver) -> bool {
        &&& self.base_id == o.base_id && self.end_id == o.end_id && self.receive_window_size == o.receive_window_size && self.receive_window_mask == o.receive_window_mask
        &&& self.channel_entries@ =~= o.channel_entries@ && self.window_entries@ =~= o.window_entries@ && self.data_entries@ =~= o.data_entries@
        &&& self.entry_flags@ =~= o.entry_flags@ && self.data_flags@ =~= o.data_flags@ && self.channels@ =~= o.channels@ && self.channel_base_markers@ =~= o.channel_base_markers@
        &&& self.channel_ready_flags == o.channel_ready_flags
    }
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::new
//@ ret r
//@ sub /\(0 \.\. (\w+)\)\.map\(\|_\| (ChannelAdvEntry[^;]*)\)\.collect\(\);/rep_cadv(\1, \2);/
//@ sub /\(0 \.\. (\w+)\)\.map\(\|_\| (WindowAdvEntry[^;]*)\)\.collect\(\);/rep_wadv(\1, \2);/
//@ sub /\(0 \.\. (\w+)\)\.map\(\|_\| (DataEntry[^;]*)\)\.collect\(\);/rep_data(\1, \2);/
//@ sub /\(0 \.\. (\w+)\)\.map\(\|_\| (Channel::new[^;]*)\)\.collect\(\);/rep_chan(\1, \2);/
//@ sub /\(0 \.\. (\w+)\)\.map\(\|_\| (None)\)\.collect\(\);/rep_none(\1);/
//@ sub /vec!\[0u64; ([^;]*)\]\.into_boxed_slice\(\)/zero_flags(\1)/
//@ spec
    requires pow2(window_size), base_id <= 0xFFFFF,
    ensures r.wf(), r.ready_ok(), r.base_id == base_id, r.end_id == base_id, r.receive_window_size == window_size, // C01/C03/C05/C06/C11
        forall|j: int| 0 <= j < window_size ==> !#[trigger] r.has(j), !r.window_ready_flag, // C01
        r.assembly_window.max_alloc == ceil_frag(max_alloc as int), // C06
//@ start
    proof { add_add(base_id, 0, 0); empty_wf(); assert forall|s: u32| pow2(s) implies #[trigger] (s & ((s - 1) as u32)) == 0 by {} }
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::base_id
//@ ret r
//@ spec
    ensures r == self.base_id,
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::handle_datagram
//@ spec
    requires old(self).wf(), datagram.sequence_id <= 0xFFFFF,
    ensures final(self).wf(), // C03/C06/C01
        !accepted(*old(self), datagram) ==> final(self).same_but_asm(*old(self)) && final(self).assembly_window == old(self).assembly_window, // C01/C03/C11
        accepted(*old(self), datagram) ==> ({
            let a = *old(self);
            let f = *final(self);
            let i = slot(datagram.sequence_id, a.receive_window_size);
            let done = f.has(i) && !a.has(i);
            &&& arrival(a.assembly_window, f.assembly_window, i, datagram, if done { Some(f.data_entries@[i].data) } else { None }) // C04/C01/C06
            &&& done ==> received(a, f, i, spec_sub(datagram.sequence_id, a.base_id) as int, datagram) // C01/C02/C05/C11
            &&& !done ==> f.same_but_asm(a) // C01/C04
        }),
        // a channel with an undelivered packet is ready, or waits behind a blocked packet
        old(self).ready_ok() ==> final(self).ready_ok(), // C05
//@ start
    let ghost a = *self;
    let ghost dg = datagram;
    let ghost i = slot(datagram.sequence_id, self.receive_window_size);
    let ghost d = spec_sub(datagram.sequence_id, self.base_id) as int;
    proof { slot_range(datagram.sequence_id, self.receive_window_size);
        if valid(datagram) && d < self.size() {
            id_pos(a.base_id, dg.sequence_id, a.receive_window_size);
            bit_set(a.entry_flags@, i, a.size()); bit_set(a.data_flags@, i, a.size()); ready_set(a.channel_ready_flags);
            sub_shift(a.base_id, a.end_id, dg.sequence_id);
            assert(a.slot_ok(i)) by { reveal(PacketReceiver::slots_ok); let x = a.has(i); }
        }
        if valid(dg) {
            let c = dg.channel_id as int;
            assert(a.chan_ok(c)) by { reveal(PacketReceiver::chans_ok); let x = a.channels@[c]; }
            cnt_range(a.data_flags@, a.channel_entries@, c, a.size());
            assert(a.channels@.update(c, a.channels@[c]) =~= a.channels@);
        }
        same_state(a);
    }
//@ exit
    proof { if accepted(a, dg) && self.has(i) && !a.has(i) { received_wf(a, *self, i, d, dg); } }
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::set_channel_base_id
//@ spec
    requires old(self).shape(), old(self).marks_ok(), channel_id < 64, new_id <= 0xFFFFF,
        ({ let j = slot(new_id, old(self).receive_window_size); old(self).channel_base_markers@[j] is None || old(self).channel_base_markers@[j] == Some(channel_id) }),
    ensures final(self).same_but_chans(*old(self)),
        final(self).channels@ =~= old(self).channels@.update(channel_id as int, Channel { base_id: Some(new_id), packet_count: old(self).channels@[channel_id as int].packet_count }), // C01
        final(self).channel_base_markers@ =~= (match old(self).channels@[channel_id as int].base_id { Some(b) => old(self).channel_base_markers@.update(slot(b, old(self).receive_window_size), None), None => old(self).channel_base_markers@ }).update(slot(new_id, old(self).receive_window_size), Some(channel_id)), // C01
//@ start
    proof { slot_range(new_id, self.receive_window_size); if let Some(b) = self.channels@[channel_id as int].base_id { slot_range(b, self.receive_window_size); } let x = self.channel_base_markers@[slot(new_id, self.receive_window_size)]; }
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::try_unset_channel_base_id
//@ spec
    requires old(self).shape(), old(self).marks_ok(), sequence_id <= 0xFFFFF,
    ensures final(self).same_but_chans(*old(self)),
        ({
            let j = slot(sequence_id, old(self).receive_window_size);
            match old(self).channel_base_markers@[j] {
                Some(c) => final(self).channel_base_markers@ =~= old(self).channel_base_markers@.update(j, None) && final(self).channels@ =~= old(self).channels@.update(c as int, Channel { base_id: None, packet_count: old(self).channels@[c as int].packet_count }), // C01
                None => final(self).channel_base_markers@ =~= old(self).channel_base_markers@ && final(self).channels@ =~= old(self).channels@, // C01
            }
        }),
//@ start
    proof { slot_range(sequence_id, self.receive_window_size); let x = self.channel_base_markers@[slot(sequence_id, self.receive_window_size)]; }
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::advance_window
//@ spec
    requires old(self).wf(), new_base_id <= 0xFFFFF, spec_sub(new_base_id, old(self).base_id) <= old(self).size(), old(self).quiet_below(spec_sub(new_base_id, old(self).base_id) as int),
    ensures final(self).wf(), advanced(*old(self), *final(self), new_base_id), // C01/C02/C06/C11
//@ start
    let ghost a = *self;
    let ghost m = spec_sub(new_base_id, self.base_id) as int;
    let ghost mut k: int = 0;
    proof { add_add(a.base_id, 0, 0); clear_start(a); unset_start(a); }
//@ loop 0
    invariant 0 <= k <= m, m == spec_sub(new_base_id, a.base_id), m <= a.size(), a.wf(), new_base_id <= 0xFFFFF, id == spec_add(a.base_id, k as u32), self.base_id == a.base_id, self.end_id == (if a.n() < m { new_base_id } else { a.end_id }),
        self.fixed(a), self.assembly_window == a.assembly_window, self.channels@ == a.channels@, self.channel_base_markers@ == a.channel_base_markers@,
        cleared(a, self.entry_flags@, k), self.entry_flags@.len() == a.entry_flags@.len(),
    decreases m - k,
//@ body 0
            proof { clear_step(a, k); add_add(a.base_id, k as u32, 1); k = k + 1; }
//@ loop 1
    invariant 0 <= k <= m, m == spec_sub(new_base_id, a.base_id), m <= a.size(), a.wf(), new_base_id <= 0xFFFFF, id == spec_add(a.base_id, k as u32), self.base_id == a.base_id, self.end_id == (if a.n() < m { new_base_id } else { a.end_id }),
        self.fixed(a), self.channels@ == a.channels@, self.channel_base_markers@ == a.channel_base_markers@,
        cleared(a, self.entry_flags@, m), self.entry_flags@.len() == a.entry_flags@.len(), self.asm_ok(), wiped(a, self.assembly_window, k),
    decreases m - k,
//@ before /let mut id = self.base_id;/2
        proof { k = 0; }
//@ body 1
            let ghost w = self.assembly_window;
            proof { slot_range(id, a.receive_window_size); }
//@ bodyend 1
            proof { wipe_step(a, w, self.assembly_window, k); add_add(a.base_id, k as u32, 1); k = k + 1; }
//@ loop 2
    invariant 0 <= k <= m, m == spec_sub(new_base_id, a.base_id), m <= a.size(), a.wf(), new_base_id <= 0xFFFFF, id == spec_add(a.base_id, k as u32), self.base_id == a.base_id, self.end_id == (if a.n() < m { new_base_id } else { a.end_id }),
        self.fixed(a), cleared(a, self.entry_flags@, m), self.entry_flags@.len() == a.entry_flags@.len(), self.asm_ok(), wiped(a, self.assembly_window, m), unset(a, self.channels@, self.channel_base_markers@, k), self.shape(), self.marks_ok(),
    decreases m - k,
//@ before /let mut id = self.base_id;/3
        proof { k = 0; }
//@ body 2
            let ghost s = *self;
            proof { add_add(a.base_id, k as u32, 1); }
//@ bodyend 2
            proof { unset_step(a, s, *self, k); assert(self.marks_ok()) by { reveal(unset); } k = k + 1; }
//@ exit
    proof { advance_done(a, *self, new_base_id); }
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::receive
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // C03/C06/C01
        // the application gets deliverable packets, in order, each of them once
        ({ let a = *old(self); let f = *final(self); let m = spec_sub(f.base_id, a.base_id) as int;
            exists|d: Seq<int>| #![trigger legal(a, d)] legal(a, d) && final(sink).log() == old(sink).log() + content(a, d) && taken(a, f, d) && forall|c: int| #![trigger f.cpos(c)] 0 <= c < 64 ==> f.cpos(c) == max2(chpos(a, d, c) - m, 0) }), // C01
        // and what it does not get waits for a parent
        ({ let a = *old(self); let f = *final(self);
            a.ready_ok() ==> exists|d: Seq<int>| #![trigger legal(a, d)] legal(a, d) && taken(a, f, d) && forall|j: int| #![trigger f.und(j)] 0 <= j < a.size() && f.und(j) ==> stuck(a, f, d, j) }), // C02/C05
        old(self).ready_ok() && parents_kept(*old(self), *final(self)) ==> final(self).ready_ok(), // C02/C05
        // the window moves only over delivered packets, and not past the gap before a packet which has a parent in it
        ({ let a = *old(self); let f = *final(self); let m = spec_sub(f.base_id, a.base_id) as int;
            if a.window_ready_flag { walk_end(a, f, m) } else { m == 0 } }), // C02/C11
        ({ let a = *old(self); let f = *final(self); let m = spec_sub(f.base_id, a.base_id) as int;
            &&& m <= a.n() && f.n() == a.n() - m && f.receive_window_size == a.receive_window_size
            &&& forall|j: int| #![trigger f.has(j)] #![trigger a.has(j)] 0 <= j < a.size() ==> f.has(j) == (a.has(j) && a.pos(j) >= m)
            &&& forall|j: int| #![trigger f.assembly_window.window@[j]] 0 <= j < a.size() ==> f.assembly_window.window@[j] == (if a.pos(j) < m { WindowEntry::Open } else { a.assembly_window.window@[j] }) }), // C01/C02/C06/C11
//@ nloops 2
//@ start
    let ghost a = *self;
    let ghost log0 = sink.log();
    let ghost mut k: int = 0;
    let ghost mut d: Seq<int> = Seq::empty();
    let ghost mut g = *self;
    let ghost mut h = *self;
    let ghost mut p: int = 0;
    let ghost mut m: int = 0;
    proof { add_add(a.base_id, 0, 0); mid_start(a); assert(log0 + content(a, d) =~= log0); }
//@ loop 0
    invariant 0 <= k <= a.n(), a.wf(), base_id == a.base_id, end_id == a.end_id, sequence_id == spec_add(a.base_id, k as u32), mid(a, *self, d, k), steady(a, *self), sink.log() == log0 + content(a, d), g == *self,
    ensures k == a.n() || self.channel_ready_flags == 0,
    decreases a.n() - k,
//@ body 0
            let ghost s = *self;
            let ghost lg = sink.log();
            let ghost i = a.sl(k);
            proof {
                reveal(mid);
                slot_kof(a.base_id, k as u32, a.receive_window_size); add_add(a.base_id, k as u32, 1);
                bit_test(s.data_flags@, i); bit_clear(s.data_flags@, i, s.size()); ready_clear(s.channel_ready_flags);
                if s.und(i) { deliver_pre(s, k); if let Some(b) = s.channels@[s.ch(i)].base_id { sub_shift(s.base_id, b, sequence_id); slot_range(b, s.receive_window_size); } let z = s.data_entries@[i]; slot_range(spec_add(s.base_id, (k + 1) as u32), s.receive_window_size); }
            }
//@ bodyend 0
            proof {
                let c = s.ch(i);
                if s.und(i) && s.ready(c) {
                    if s.blocked(i) { mid_block(a, s, *self, d, k); }
                    else {
                        assert(after_delivery(s, *self, i, spec_add(a.base_id, (k + 1) as u32)));
                        mid_deliver(a, s, *self, d, k); d = d.push(k); assert(sink.log() =~= log0 + content(a, d)); }
                } else { mid_skip(a, s, *self, d, k); }
                assert(steady(a, *self)) by { reveal(mid); } k = k + 1; g = *self;
            }
//@ before /let mut new_base_id = base_id/
            proof { add_add(a.base_id, 0, 0); assert(steady(a, g)) by { reveal(mid); } }
//@ loop 1
    invariant 0 <= m <= p <= a.n(), a.wf(), base_id == a.base_id, end_id == a.end_id, sequence_id == spec_add(a.base_id, p as u32), new_base_id == spec_add(a.base_id, m as u32), mid(a, g, d, k), steady(a, g), self.same_data(g), self.assembly_window == g.assembly_window, !self.window_ready_flag,
        m == lastp(a, p), walked(a, g, p),
    ensures p == a.n() || (a.has(a.sl(p)) && !passable(a, g, p)),
    decreases a.n() - p,
//@ body 1
                let ghost i = a.sl(p);
                proof {
                    slot_kof(a.base_id, p as u32, a.receive_window_size); add_add(a.base_id, p as u32, 1);
                    bit_test(g.data_flags@, i); bit_test(g.entry_flags@, i); let y = g.data_entries@[i];
                    assert(g.slot_ok(i)) by { reveal(mid); reveal(PacketReceiver::slots_ok); let x = g.has(i); }
                    sub_shift(a.base_id, new_base_id, sequence_id);
                    if !a.has(i) || passable(a, g, p) { p = p + 1; if a.has(i) { m = p; } }
                }
//@ before /self\.advance_window\(/
            proof { reveal(mid); add_add(a.base_id, m as u32, 0); h = *self; lastp_range(a, p); walk_quiet(a, g, h, p); }
//@ exit
    proof { receive_done(a, g, h, *self, d, k, p, m); }
//@ end
//@ take src/half_connection/packet_receiver/mod.rs fn PacketReceiver::resynchronize
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), resynced(*old(self), *final(self), sender_next_id), // C11/C02/C01/C03
//@ start
    let ghost a = *self;
    let ghost mut k: int = 0;
    proof { positions(a.base_id, a.receive_window_size); add_add(a.base_id, 0, 0); }
//@ loop 0
    invariant 0 <= k <= spec_sub(sender_next_id, a.base_id) <= a.size(), sender_next_id <= 0xFFFFF, a.wf(), *self == a, sequence_id == spec_add(a.base_id, k as u32), skipped(a, k), positions_ok(a.base_id, a.receive_window_size),
    ensures sequence_id == sender_next_id || a.has(a.sl(k)),
    decreases spec_sub(sender_next_id, a.base_id) - k,
//@ before /self.advance_window\(sequence_id\)/
        proof { reveal(PacketReceiver::slots_ok); assert forall|j: int| #![trigger a.und(j)] 0 <= j < a.size() && a.pos(j) < k implies !a.und(j) by { let x = a.has(j); } }
//@ body 0
            proof { slot_kof(a.base_id, k as u32, a.receive_window_size); bit_test(a.entry_flags@, a.sl(k)); add_add(a.base_id, k as u32, 1); if !a.has(a.sl(k)) { k = k + 1; } }
//@ end
}
