//@ take src/frame/mod.rs struct DatagramRef
//@ end
//@ take src/half_connection/pending_packet.rs struct PendingPacket
//@ end
impl PendingPacket {
    pub open spec fn acked(self, i: int) -> bool { bit(self.ack_flags@, i) }
    pub open spec fn n(self) -> int { self.last_fragment_id + 1 }
    pub open spec fn wf(self) -> bool {
        &&& self.n() == nfrags(self.data@.len() as int)
        &&& self.ack_flags@.len() == (self.n() + 63) / 64
    }
    // everything but the acknowledgements
    pub open spec fn same_packet(self, o: PendingPacket) -> bool {
        self.data@ == o.data@ && self.channel_id == o.channel_id && self.sequence_id == o.sequence_id && self.window_parent_lead == o.window_parent_lead
            && self.channel_parent_lead == o.channel_parent_lead && self.last_fragment_id == o.last_fragment_id
    }
//@ take src/half_connection/pending_packet.rs fn PendingPacket::new
//@ ret r
//@ spec
    requires data@.len() <= 65536 * MAX_FRAGMENT_SIZE,
    ensures r.wf(), r.data@ == data@, // C01/C04/C02
        r.channel_id == channel_id, r.sequence_id == sequence_id, r.window_parent_lead == window_parent_lead, r.channel_parent_lead == channel_parent_lead, // C01/C02
        forall|i: int| 0 <= i < r.n() ==> !#[trigger] r.acked(i), // C12/C02
//@ sub /ack_flags: vec!\[0u64; (.*?)\]\.into_boxed_slice\(\)/ack_flags: zero_flags(\1)/
//@ end
//@ take src/half_connection/pending_packet.rs fn PendingPacket::last_fragment_id
//@ ret r
//@ spec
    ensures r == self.last_fragment_id,
//@ end
//@ take src/half_connection/pending_packet.rs fn PendingPacket::fragment_acknowledged
//@ ret r
//@ spec
    requires self.wf(), fragment_id <= self.last_fragment_id,
    ensures r == self.acked(fragment_id as int), // C12/C02
//@ start
    proof { let w = self.ack_flags@[fragment_id as int / 64]; let s = (fragment_id % 64) as u64; assert((w & (1u64 << s) != 0) == ((w >> s) & 1 != 0)) by (bit_vector) requires s < 64; }
//@ end
//@ take src/half_connection/pending_packet.rs fn PendingPacket::acknowledge_fragment
//@ spec
    requires old(self).wf(), fragment_id <= old(self).last_fragment_id,
    ensures final(self).wf(), final(self).same_packet(*old(self)), // C01/C04
        forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).acked(i) == (i == fragment_id || old(self).acked(i)), // C12/C02
//@ start
    let ghost f0 = self.ack_flags@;
    proof { bit_set(f0, fragment_id as int, self.n()); }
//@ exit
    proof { assert(self.ack_flags@ =~= f0.update(fragment_id as int / 64, f0[fragment_id as int / 64] | (1u64 << ((fragment_id % 64) as u64)))); }
//@ end
//@ take src/half_connection/pending_packet.rs fn PendingPacket::size
//@ ret r
//@ spec
    ensures r == self.data@.len(), // C20
//@ end
//@ take src/half_connection/pending_packet.rs fn PendingPacket::datagram
//@ ret r
//@ spec
    requires self.wf(), fragment_id <= self.last_fragment_id,
    ensures r.data@ == frag(self.data@, fragment_id as int), // C04/C01
        r.sequence_id == self.sequence_id, r.channel_id == self.channel_id, r.window_parent_lead == self.window_parent_lead, r.channel_parent_lead == self.channel_parent_lead, // C01/C02/C04
        r.fragment_id == fragment_id, r.fragment_id_last == nfrags(self.data@.len() as int) - 1, // C04
        frag_ok(self.n(), fragment_id as int, r.data@.len() as int), // C04/C02
//@ end
}
