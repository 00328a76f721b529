//@ take src/lib.rs enum SendMode
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ end
// stand for `(0 .. n).map(|_| x).collect()`
pub fn vec_none<T>(n: usize) -> (r: Vec<Option<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] is None
{
    let mut v: Vec<Option<T>> = Vec::new();
    while v.len() < n invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> v@[i] is None, decreases n - v@.len() { v.push(None); }
    v
}
pub fn vec_channels(n: usize) -> (r: Vec<Channel>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).parent_id is None
{
    let mut v: Vec<Channel> = Vec::new();
    while v.len() < n invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).parent_id is None, decreases n - v@.len() { v.push(Channel::new()); }
    v
}

//@ take src/half_connection/packet_sender.rs struct WindowEntry
//@ sub /\{/{ pub mode: Ghost<SendMode>,/
//@ end
//@ take src/half_connection/packet_sender.rs struct Channel
//@ end
//@ take src/half_connection/packet_sender.rs struct PacketSendEntry
//@ end
//@ take src/half_connection/packet_sender.rs macro window_index
//@ end
//@ take src/half_connection/packet_sender.rs struct PacketSender
//@ end
// memory the receiver needs for a packet
pub open spec fn charge_len(n: int) -> int { if n > MAX_FRAGMENT_SIZE { (n + MAX_FRAGMENT_SIZE - 1) / (MAX_FRAGMENT_SIZE as int) * MAX_FRAGMENT_SIZE } else { n } }
impl WindowEntry {
    pub open spec fn size(self) -> int { self.packet.info().data.len() as int }
    // is a parent for later packets of channel c, or of any channel when c < 0
    pub open spec fn parent_for(self, c: int) -> bool { self.mode@ is Reliable && (c < 0 || self.channel_id == c) }
}
pub open spec fn sum_alloc(o: Seq<WindowEntry>) -> int decreases o.len() { if o.len() == 0 { 0 } else { sum_alloc(o.drop_last()) + o.last().alloc_size } }
pub open spec fn sum_size(o: Seq<WindowEntry>) -> int decreases o.len() { if o.len() == 0 { 0 } else { sum_size(o.drop_last()) + o.last().size() } }
pub open spec fn sum_queue(q: Seq<PacketSendEntry>) -> int decreases q.len() { if q.len() == 0 { 0 } else { sum_queue(q.drop_last()) + q.last().data@.len() } }
// the latest outstanding Reliable packet (of a channel), -1 if there is none
pub open spec fn last_idx(o: Seq<WindowEntry>, c: int) -> int decreases o.len() { if o.len() == 0 { -1 } else if o.last().parent_for(c) { o.len() - 1 } else { last_idx(o.drop_last(), c) } }
pub open spec fn parent_of(base: u32, i: int) -> Option<u32> { if i < 0 { None } else { Some(spec_add(base, i as u32)) } }
// distance from the next packet back to its parent, 0 without one
pub open spec fn lead(n: int, i: int) -> int { if i < 0 { 0 } else { n - i } }
pub open spec fn is_stale(e: PacketSendEntry, flush_id: u32) -> bool { e.mode is TimeSensitive && e.flush_id != flush_id }
// the queue without the stale TimeSensitive packets at its front
pub open spec fn fresh(q: Seq<PacketSendEntry>, flush_id: u32) -> Seq<PacketSendEntry> decreases q.len() { if q.len() > 0 && is_stale(q[0], flush_id) { fresh(q.skip(1), flush_id) } else { q } }
pub proof fn last_idx_range(o: Seq<WindowEntry>, c: int) ensures -1 <= last_idx(o, c) < o.len(), last_idx(o, c) >= 0 ==> o[last_idx(o, c)].parent_for(c)
    decreases o.len() { if o.len() > 0 { last_idx_range(o.drop_last(), c); } }
// C02: it really is the latest one
pub proof fn last_idx_latest(o: Seq<WindowEntry>, c: int) ensures forall|k: int| last_idx(o, c) < k < o.len() ==> !(#[trigger] o[k]).parent_for(c) // C02/C01
    decreases o.len() { if o.len() > 0 { last_idx_range(o, c); last_idx_latest(o.drop_last(), c); assert forall|k: int| last_idx(o, c) < k < o.len() implies !(#[trigger] o[k]).parent_for(c) by { if k < o.len() - 1 { assert(o.drop_last()[k] == o[k]); } } } }
pub proof fn outs_push(o: Seq<WindowEntry>, e: WindowEntry)
    ensures sum_alloc(o.push(e)) == sum_alloc(o) + e.alloc_size, sum_size(o.push(e)) == sum_size(o) + e.size(),
        forall|c: int| #[trigger] last_idx(o.push(e), c) == (if e.parent_for(c) { o.len() as int } else { last_idx(o, c) }),
{ assert(o.push(e).drop_last() =~= o); }
pub proof fn outs_skip(o: Seq<WindowEntry>) requires o.len() > 0
    ensures sum_alloc(o.skip(1)) == sum_alloc(o) - o[0].alloc_size, sum_size(o.skip(1)) == sum_size(o) - o[0].size(),
        forall|c: int| #[trigger] last_idx(o.skip(1), c) == (if last_idx(o, c) <= 0 { -1 } else { last_idx(o, c) - 1 }),
    decreases o.len()
{
    assert forall|c: int| #[trigger] last_idx(o.skip(1), c) == (if last_idx(o, c) <= 0 { -1 } else { last_idx(o, c) - 1 }) by { last_skip(o, c); }
    sums_skip(o);
}
proof fn last_skip(o: Seq<WindowEntry>, c: int) requires o.len() > 0 ensures last_idx(o.skip(1), c) == (if last_idx(o, c) <= 0 { -1 } else { last_idx(o, c) - 1 }) decreases o.len()
{
    if o.len() == 1 { assert(o.skip(1) =~= Seq::empty()); assert(last_idx(o.drop_last(), c) == -1); }
    else { last_skip(o.drop_last(), c); assert(o.skip(1).drop_last() =~= o.drop_last().skip(1)); }
}
proof fn sums_skip(o: Seq<WindowEntry>) requires o.len() > 0 ensures sum_alloc(o.skip(1)) == sum_alloc(o) - o[0].alloc_size, sum_size(o.skip(1)) == sum_size(o) - o[0].size() decreases o.len()
{
    if o.len() == 1 { assert(o.skip(1) =~= Seq::empty()); assert(o.drop_last() =~= Seq::empty()); }
    else { sums_skip(o.drop_last()); assert(o.skip(1).drop_last() =~= o.drop_last().skip(1)); }
}
pub proof fn queue_skip(q: Seq<PacketSendEntry>) requires q.len() > 0 ensures sum_queue(q.skip(1)) == sum_queue(q) - q[0].data@.len() decreases q.len()
{
    if q.len() == 1 { assert(q.skip(1) =~= Seq::empty()); assert(q.drop_last() =~= Seq::empty()); }
    else { queue_skip(q.drop_last()); assert(q.skip(1).drop_last() =~= q.drop_last().skip(1)); }
}
pub proof fn sums_nonneg(o: Seq<WindowEntry>) ensures sum_alloc(o) >= 0, sum_size(o) >= 0 decreases o.len() { if o.len() > 0 { sums_nonneg(o.drop_last()); } }
pub proof fn queue_nonneg(q: Seq<PacketSendEntry>) ensures sum_queue(q) >= 0 decreases q.len() { if q.len() > 0 { queue_nonneg(q.drop_last()); } }
impl Channel {
//@ take src/half_connection/packet_sender.rs fn Channel::new
//@ ret r
//@ spec
    ensures r.parent_id is None,
//@ end
}
impl PacketSendEntry {
//@ take src/half_connection/packet_sender.rs fn PacketSendEntry::new
//@ ret r
//@ spec
    ensures r.data == data, r.channel_id == channel_id, r.mode == mode, r.flush_id == flush_id, // C01/C12
//@ end
}
//@ take src/half_connection/packet_sender.rs fn alloc_size
//@ ret r
//@ spec
    requires packet_size <= MAX_PACKET_SIZE,
    ensures r == charge_len(packet_size as int), // C06
//@ end
// what freeing the oldest packet has to do
pub open spec fn freed(a: PacketSender, b: PacketSender) -> bool {
    &&& b.window@ == a.window@.update(slot(a.base_id, a.window_size), None)
    &&& b.base_id == spec_add(a.base_id, 1) && b.next_id == a.next_id && b.window_size == a.window_size && b.window_mask == a.window_mask && b.max_alloc == a.max_alloc
    &&& b.packet_send_queue@ == a.packet_send_queue@ && b.channels@.len() == 64
}
pub open spec fn freed_parents(a: PacketSender, b: PacketSender) -> bool {
    let e = a.at(0).unwrap();
    &&& b.window_parent_id == (if a.window_parent_id == Some(a.base_id) { None } else { a.window_parent_id })
    &&& b.channels@[e.channel_id as int].parent_id == (if a.channels@[e.channel_id as int].parent_id == Some(a.base_id) { None } else { a.channels@[e.channel_id as int].parent_id })
    &&& forall|c: int| 0 <= c < 64 && c != e.channel_id ==> #[trigger] b.channels@[c] == a.channels@[c]
}
pub proof fn free_one(a: PacketSender) requires a.wf(), a.n() > 0
    ensures a.at(0) is Some, a.at(0).unwrap().alloc_size <= a.alloc, a.at(0).unwrap().size() <= a.total_size, a.at(0).unwrap().channel_id < 64,
        a.at(0) == a.window@[slot(a.base_id, a.window_size)], 0 <= slot(a.base_id, a.window_size) < a.window_size,
        forall|b: PacketSender| #![trigger b.base_ok()] #![trigger b.outs()] freed(a, b) ==> b.base_ok() && b.outs() == a.outs().skip(1),
        forall|b: PacketSender| freed(a, b) && b.alloc == a.alloc - a.at(0).unwrap().alloc_size ==> #[trigger] b.alloc_ok(),
        forall|b: PacketSender| freed(a, b) && b.total_size == a.total_size - a.at(0).unwrap().size() ==> #[trigger] b.size_ok(),
        forall|b: PacketSender| freed(a, b) && freed_parents(a, b) ==> #[trigger] b.parents_ok(),
{
    let o = a.outs();
    let e = a.at(0).unwrap();
    add_add(a.base_id, 0, 0);
    slot_range(a.base_id, a.window_size);
    assert(o[0] == e);
    outs_skip(o); sums_nonneg(o.skip(1)); queue_nonneg(a.packet_send_queue@);
    assert forall|b: PacketSender| freed(a, b) implies #[trigger] b.base_ok() && b.outs() == a.outs().skip(1) by {
        assert(b.n() == a.n() - 1);
        assert forall|k: int| #![trigger b.at(k)] 0 <= k < a.window_size - 1 implies b.at(k) == a.at(k + 1) && b.id_at(k) == a.id_at(k + 1) by {
            add_add(a.base_id, 1, k as u32);
            slot_distinct(a.base_id, 0, (k + 1) as u32, a.window_size);
            slot_range(b.id_at(k), a.window_size);
        }
        assert(b.at(a.window_size - 1) is None) by { add_add(a.base_id, 1, (a.window_size - 1) as u32); slot_reuse(a.base_id, a.window_size); }
        assert(b.outs() =~= o.skip(1)) by { assert forall|k: int| 0 <= k < a.n() - 1 implies b.outs()[k] == #[trigger] o.skip(1)[k] by { let x = b.at(k); } }
        assert forall|k: int| #![trigger b.at(k)] 0 <= k < b.n() implies b.at(k) is Some && b.entry_ok(b.at(k).unwrap(), k) by { let x = a.at(k + 1); }
        assert forall|k: int| #![trigger b.at(k)] b.n() <= k < b.window_size implies b.at(k) is None by { if k < b.window_size - 1 { let x = a.at(k + 1); } }
    }
    assert forall|b: PacketSender| freed(a, b) && b.alloc == a.alloc - a.at(0).unwrap().alloc_size implies #[trigger] b.alloc_ok() by { assert(b.base_ok()); }
    assert forall|b: PacketSender| freed(a, b) && b.total_size == a.total_size - a.at(0).unwrap().size() implies #[trigger] b.size_ok() by { assert(b.base_ok()); }
    assert forall|b: PacketSender| freed(a, b) && freed_parents(a, b) implies #[trigger] b.parents_ok() by {
        assert(b.base_ok());
        last_idx_range(o, -1);
        if last_idx(o, -1) > 0 { add_add(a.base_id, 1, (last_idx(o, -1) - 1) as u32); }
        assert(b.window_parent_id == parent_of(b.base_id, last_idx(b.outs(), -1)));
        assert forall|c: int| #![trigger b.channels@[c]] 0 <= c < 64 implies b.channels@[c].parent_id == parent_of(b.base_id, last_idx(b.outs(), c)) by {
            last_idx_range(o, c);
            assert(a.channels@[c].parent_id == parent_of(a.base_id, last_idx(o, c)));
            if last_idx(o, c) > 0 { add_add(a.base_id, 1, (last_idx(o, c) - 1) as u32); }
        }
    }
}
pub proof fn shape_of(a: PacketSender) requires a.wf() ensures a.shape(), a.n() <= a.window_size, a.outs().len() == a.n(), a.n() > 0 ==> a.at(0) is Some { if a.n() > 0 { let x = a.at(0); } }
pub proof fn shape_all() ensures forall|a: PacketSender| #[trigger] a.base_ok() ==> a.shape() && a.queue_ok() && a.n() <= a.window_size && a.outs().len() == a.n() {}
// changes of the queue leave the window alone
pub proof fn window_same(a: PacketSender) requires a.wf()
    ensures forall|b: PacketSender| b.same_window(a) && b.queue_ok() ==> #[trigger] b.base_ok() && b.alloc_ok() && b.parents_ok() && b.outs() == a.outs(),
        forall|b: PacketSender| b.same_window(a) && b.queue_ok() && b.total_size == sum_queue(b.packet_send_queue@) + sum_size(a.outs()) ==> #[trigger] b.size_ok(),
{
    assert forall|b: PacketSender| b.same_window(a) && b.queue_ok() && b.total_size == sum_queue(b.packet_send_queue@) + sum_size(a.outs()) implies #[trigger] b.size_ok() by {
        assert(b.outs() =~= a.outs()) by { assert forall|k: int| 0 <= k < a.n() implies b.outs()[k] == #[trigger] a.outs()[k] by { let x = b.at(k); let y = a.at(k); } }
    }
    assert forall|b: PacketSender| b.same_window(a) && b.queue_ok() implies #[trigger] b.base_ok() && b.alloc_ok() && b.parents_ok() && b.outs() == a.outs() by {
        assert(b.outs() =~= a.outs()) by { assert forall|k: int| 0 <= k < a.n() implies b.outs()[k] == #[trigger] a.outs()[k] by { let x = b.at(k); let y = a.at(k); } }
        assert forall|k: int| #![trigger b.at(k)] 0 <= k < b.n() implies b.at(k) is Some && b.entry_ok(b.at(k).unwrap(), k) by { let x = a.at(k); }
        assert forall|k: int| #![trigger b.at(k)] b.n() <= k < b.window_size implies b.at(k) is None by { let x = a.at(k); }
    }
}
pub proof fn drop_one(a: PacketSender) requires a.wf(), a.packet_send_queue@.len() > 0
    ensures a.packet_send_queue@.subrange(1, a.packet_send_queue@.len() as int) == a.packet_send_queue@.skip(1), a.packet_send_queue@[0].data@.len() <= a.total_size,
        forall|b: PacketSender| b.same_window(a) && b.packet_send_queue@ == a.packet_send_queue@.skip(1) ==> #[trigger] b.base_ok() && b.alloc_ok() && b.parents_ok() && b.outs() == a.outs(),
        forall|b: PacketSender| b.same_window(a) && b.packet_send_queue@ == a.packet_send_queue@.skip(1) && b.total_size == a.total_size - a.packet_send_queue@[0].data@.len() ==> #[trigger] b.size_ok(),
{
    let q = a.packet_send_queue@;
    assert(q.subrange(1, q.len() as int) =~= q.skip(1));
    queue_skip(q); queue_nonneg(q.skip(1)); sums_nonneg(a.outs()); window_same(a);
    assert forall|b: PacketSender| b.same_window(a) && b.packet_send_queue@ == q.skip(1) && b.total_size == a.total_size - q[0].data@.len() implies #[trigger] b.size_ok() by {
        assert forall|i: int| #![trigger b.packet_send_queue@[i]] 0 <= i < b.packet_send_queue@.len() implies b.packet_send_queue@[i].channel_id < 64 && b.packet_send_queue@[i].data@.len() <= MAX_PACKET_SIZE && b.packet_send_queue@[i].data@.len() <= b.max_alloc by { let x = q[i + 1]; }
        assert(b.queue_ok());
    }
    assert forall|b: PacketSender| b.same_window(a) && b.packet_send_queue@ == q.skip(1) implies #[trigger] b.base_ok() && b.alloc_ok() && b.parents_ok() && b.outs() == a.outs() by {
        assert forall|i: int| #![trigger b.packet_send_queue@[i]] 0 <= i < b.packet_send_queue@.len() implies b.packet_send_queue@[i].channel_id < 64 && b.packet_send_queue@[i].data@.len() <= MAX_PACKET_SIZE && b.packet_send_queue@[i].data@.len() <= b.max_alloc by { let x = q[i + 1]; }
        assert(b.queue_ok());
    }
}
// what taking the first packet of the queue has to do
pub open spec fn emitted(a: PacketSender, b: PacketSender) -> bool {
    let i = slot(a.next_id, a.window_size);
    let e = b.window@[i].unwrap();
    let s = a.packet_send_queue@[0];
    &&& a.packet_send_queue@.len() > 0 && b.packet_send_queue@ == a.packet_send_queue@.skip(1)
    &&& a.n() < a.window_size
    &&& b.window@ == a.window@.update(i, Some(e))
    &&& b.base_id == a.base_id && b.next_id == spec_add(a.next_id, 1) && b.window_size == a.window_size && b.window_mask == a.window_mask && b.max_alloc == a.max_alloc
    &&& b.channels@.len() == 64
    &&& e.packet.info().data == s.data@ && e.packet.info().channel_id == s.channel_id && e.packet.info().sequence_id == a.next_id && e.channel_id == s.channel_id && e.mode@ == s.mode && e.alloc_size == charge_len(s.data@.len() as int)
}
pub open spec fn emitted_parents(a: PacketSender, b: PacketSender) -> bool {
    let s = a.packet_send_queue@[0];
    &&& b.window_parent_id == (if s.mode is Reliable { Some(a.next_id) } else { a.window_parent_id })
    &&& b.channels@[s.channel_id as int].parent_id == (if s.mode is Reliable { Some(a.next_id) } else { a.channels@[s.channel_id as int].parent_id })
    &&& forall|c: int| 0 <= c < 64 && c != s.channel_id ==> #[trigger] b.channels@[c] == a.channels@[c]
}
pub open spec fn lead_of(a: PacketSender, p: Option<u32>, i: int) -> bool { p matches Some(x) ==> i >= 0 && spec_sub(a.next_id, x) == a.n() - i && a.n() - i <= 4096 }
pub open spec fn can_emit(a: PacketSender) -> bool {
    &&& a.packet_send_queue@.subrange(1, a.packet_send_queue@.len() as int) == a.packet_send_queue@.skip(1)
    &&& a.window@[slot(a.next_id, a.window_size)] is None && 0 <= slot(a.next_id, a.window_size) < a.window_size
    &&& lead_of(a, a.window_parent_id, last_idx(a.outs(), -1)) && (a.window_parent_id is None ==> last_idx(a.outs(), -1) < 0)
    &&& forall|c: int| #![trigger a.channels@[c]] 0 <= c < 64 ==> lead_of(a, a.channels@[c].parent_id, last_idx(a.outs(), c)) && (a.channels@[c].parent_id is None ==> last_idx(a.outs(), c) < 0)
}
pub proof fn ready(a: PacketSender) requires a.wf(), a.n() < a.window_size ensures can_emit(a)
{
    let q = a.packet_send_queue@;
    if q.len() > 0 { assert(q.subrange(1, q.len() as int) =~= q.skip(1)); }
    assert(spec_add(a.base_id, a.n() as u32) == a.next_id);
    assert(a.at(a.n()) is None);
    slot_range(a.next_id, a.window_size);
    last_idx_range(a.outs(), -1);
    assert forall|c: int| #![trigger a.channels@[c]] 0 <= c < 64 implies lead_of(a, a.channels@[c].parent_id, last_idx(a.outs(), c)) && (a.channels@[c].parent_id is None ==> last_idx(a.outs(), c) < 0) by { last_idx_range(a.outs(), c); }
}
pub proof fn emit_one(a: PacketSender, b: PacketSender) requires a.wf(), emitted(a, b)
    ensures b.base_ok(), b.outs() == a.outs().push(b.window@[slot(a.next_id, a.window_size)].unwrap()),
        b.alloc == a.alloc + b.outs().last().alloc_size && b.alloc <= a.max_alloc ==> b.alloc_ok(),
        b.total_size == a.total_size ==> b.size_ok(),
        emitted_parents(a, b) ==> b.parents_ok(),
{
    let i = slot(a.next_id, a.window_size);
    let e = b.window@[i].unwrap();
    let o = a.outs();
    let q = a.packet_send_queue@;
    let n = a.n();
    ready(a); outs_push(o, e); queue_skip(q);
    assert(spec_add(a.base_id, n as u32) == a.next_id);
    assert(b.n() == n + 1);
    assert forall|k: int| #![trigger b.at(k)] 0 <= k < a.window_size && k != n implies b.at(k) == a.at(k) && b.id_at(k) == a.id_at(k) by {
        slot_distinct(a.base_id, n as u32, k as u32, a.window_size); slot_range(a.id_at(k), a.window_size);
    }
    assert(b.at(n) == Some(e));
    assert(b.outs() =~= o.push(e)) by { assert forall|k: int| 0 <= k < n + 1 implies b.outs()[k] == #[trigger] o.push(e)[k] by { let x = b.at(k); if k < n { assert(o[k] == a.at(k).unwrap()); } } }
    assert forall|k: int| #![trigger b.at(k)] 0 <= k < b.n() implies b.at(k) is Some && b.entry_ok(b.at(k).unwrap(), k) by { let x = a.at(k); let y = q[0]; }
    assert forall|k: int| #![trigger b.at(k)] b.n() <= k < b.window_size implies b.at(k) is None by { let x = a.at(k); }
    assert forall|j: int| #![trigger b.packet_send_queue@[j]] 0 <= j < b.packet_send_queue@.len() implies b.packet_send_queue@[j].channel_id < 64 && b.packet_send_queue@[j].data@.len() <= MAX_PACKET_SIZE && b.packet_send_queue@[j].data@.len() <= b.max_alloc by { let x = q[j + 1]; }
    if emitted_parents(a, b) { assert forall|c: int| #![trigger b.channels@[c]] 0 <= c < 64 implies b.channels@[c].parent_id == parent_of(b.base_id, last_idx(b.outs(), c)) by { let x = a.channels@[c]; } }
}
pub proof fn emit_facts()
    ensures forall|a: PacketSender| #![trigger a.base_ok()] a.wf() && a.n() < a.window_size ==> can_emit(a),
        forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.base_ok()] #![trigger a.base_ok(), b.outs()] a.wf() && emitted(a, b) ==> b.base_ok() && b.outs() == a.outs().push(b.window@[slot(a.next_id, a.window_size)].unwrap()),
        forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.alloc_ok()] a.wf() && emitted(a, b) && b.alloc == a.alloc + b.window@[slot(a.next_id, a.window_size)].unwrap().alloc_size && b.alloc <= a.max_alloc ==> b.alloc_ok(),
        forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.size_ok()] a.wf() && emitted(a, b) && b.total_size == a.total_size ==> b.size_ok(),
        forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.parents_ok()] a.wf() && emitted(a, b) && emitted_parents(a, b) ==> b.parents_ok(),
{
    assert forall|a: PacketSender| #![trigger a.base_ok()] a.wf() && a.n() < a.window_size implies can_emit(a) by { ready(a); }
    assert forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.base_ok()] a.wf() && emitted(a, b) implies b.base_ok() && b.outs() == a.outs().push(b.window@[slot(a.next_id, a.window_size)].unwrap()) by { emit_one(a, b); }
    assert forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.alloc_ok()] a.wf() && emitted(a, b) && b.alloc == a.alloc + b.window@[slot(a.next_id, a.window_size)].unwrap().alloc_size && b.alloc <= a.max_alloc implies b.alloc_ok() by { emit_one(a, b); }
    assert forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.size_ok()] a.wf() && emitted(a, b) && b.total_size == a.total_size implies b.size_ok() by { emit_one(a, b); }
    assert forall|a: PacketSender, b: PacketSender| #![trigger a.base_ok(), b.parents_ok()] a.wf() && emitted(a, b) && emitted_parents(a, b) implies b.parents_ok() by { emit_one(a, b); }
}
pub proof fn new_ok()
    ensures forall|r: PacketSender| r.shape() && r.n() == 0 && r.packet_send_queue@.len() == 0 && (forall|i: int| 0 <= i < r.window@.len() ==> r.window@[i] is None) && r.alloc == 0 && r.total_size == 0
        && r.window_parent_id is None && (forall|c: int| 0 <= c < 64 ==> (#[trigger] r.channels@[c]).parent_id is None) && r.max_alloc <= usize::MAX - 0x1000_0000 ==> #[trigger] r.wf() && r.outs() == Seq::<WindowEntry>::empty()
{
    assert forall|r: PacketSender| r.shape() && r.n() == 0 && r.packet_send_queue@.len() == 0 && (forall|i: int| 0 <= i < r.window@.len() ==> r.window@[i] is None) && r.alloc == 0 && r.total_size == 0
        && r.window_parent_id is None && (forall|c: int| 0 <= c < 64 ==> (#[trigger] r.channels@[c]).parent_id is None) && r.max_alloc <= usize::MAX - 0x1000_0000 implies #[trigger] r.wf() && r.outs() == Seq::<WindowEntry>::empty() by {
        assert(r.outs() =~= Seq::<WindowEntry>::empty());
        assert forall|k: int| #![trigger r.at(k)] r.n() <= k < r.window_size implies r.at(k) is None by { slot_range(r.id_at(k), r.window_size); }
    }
}
impl PacketSender {
    pub open spec fn n(self) -> int { spec_sub(self.next_id, self.base_id) as int }
    pub open spec fn id_at(self, k: int) -> u32 { spec_add(self.base_id, k as u32) }
    pub open spec fn at(self, k: int) -> Option<WindowEntry> { self.window@[slot(self.id_at(k), self.window_size)] }
    // the outstanding packets, oldest first
    pub open spec fn outs(self) -> Seq<WindowEntry> { Seq::new(self.n() as nat, |k: int| self.at(k).unwrap()) }
    pub open spec fn entry_ok(self, e: WindowEntry, k: int) -> bool {
        e.channel_id < 64 && e.size() <= MAX_PACKET_SIZE && e.alloc_size == charge_len(e.size()) && e.packet.info().sequence_id == self.id_at(k) && e.packet.info().channel_id == e.channel_id
    }
    pub open spec fn shape(self) -> bool {
        pow2(self.window_size) && self.window_mask == self.window_size - 1 && self.window@.len() == self.window_size && self.channels@.len() == 64
            && self.base_id <= 0xFFFFF && self.next_id <= 0xFFFFF
    }
    pub open spec fn queue_ok(self) -> bool { forall|i: int| #![trigger self.packet_send_queue@[i]] 0 <= i < self.packet_send_queue@.len() ==> self.packet_send_queue@[i].channel_id < 64 && self.packet_send_queue@[i].data@.len() <= MAX_PACKET_SIZE && self.packet_send_queue@[i].data@.len() <= self.max_alloc }
    // slots: the outstanding packets lie in the slots of their ids, all other slots are free
    pub open spec fn base_ok(self) -> bool {
        &&& self.shape() && self.queue_ok()
        &&& self.n() <= self.window_size
        &&& forall|k: int| #![trigger self.at(k)] 0 <= k < self.n() ==> self.at(k) is Some && self.entry_ok(self.at(k).unwrap(), k)
        &&& forall|k: int| #![trigger self.at(k)] self.n() <= k < self.window_size ==> self.at(k) is None
    }
    pub open spec fn alloc_ok(self) -> bool { self.alloc == sum_alloc(self.outs()) && self.alloc <= self.max_alloc && self.max_alloc <= usize::MAX - 0x1000_0000 }
    pub open spec fn size_ok(self) -> bool { self.total_size == sum_queue(self.packet_send_queue@) + sum_size(self.outs()) }
    pub open spec fn parents_ok(self) -> bool {
        &&& self.window_parent_id == parent_of(self.base_id, last_idx(self.outs(), -1))
        &&& forall|c: int| #![trigger self.channels@[c]] 0 <= c < 64 ==> self.channels@[c].parent_id == parent_of(self.base_id, last_idx(self.outs(), c))
    }
    pub open spec fn wf(self) -> bool { self.base_ok() && self.alloc_ok() && self.size_ok() && self.parents_ok() }
    pub open spec fn same_window(self, o: PacketSender) -> bool {
        self.base_id == o.base_id && self.next_id == o.next_id && self.window@ == o.window@ && self.window_size == o.window_size && self.window_mask == o.window_mask
            && self.window_parent_id == o.window_parent_id && self.channels@ == o.channels@ && self.max_alloc == o.max_alloc && self.alloc == o.alloc
    }
//@ take src/half_connection/packet_sender.rs fn PacketSender::new
//@ sub /\(0 \.\. window_size\)\.map\(\|_\| None\)\.collect\(\)/vec_none(window_size as usize)/
//@ sub /\(0 \.\. CHANNEL_COUNT\)\.map\(\|_\| Channel::new\(\)\)\.collect\(\)/vec_channels(CHANNEL_COUNT)/
//@ ret r
//@ spec
    requires pow2(window_size), base_id <= 0xFFFFF, max_alloc <= usize::MAX - 0x2000_0000,
    ensures r.wf(), r.outs() == Seq::<WindowEntry>::empty(), r.packet_send_queue@ == Seq::<PacketSendEntry>::empty(), r.total_size == 0, // C20
        r.base_id == base_id, r.next_id == base_id, r.window_size == window_size,
        r.max_alloc == (max_alloc + MAX_FRAGMENT_SIZE - 1) / (MAX_FRAGMENT_SIZE as int) * MAX_FRAGMENT_SIZE, // C06
//@ start
    proof { new_ok(); }
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::pending_count
//@ ret r
//@ spec
    ensures r == self.packet_send_queue@.len(),
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::total_size
//@ ret r
//@ spec
    requires self.wf(),
    // C20: bytes waiting to be sent plus bytes sent and not acknowledged
    ensures r == sum_queue(self.packet_send_queue@) + sum_size(self.outs()), // C20
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::next_id
//@ ret r
//@ spec
    ensures r == self.next_id,
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::base_id
//@ ret r
//@ spec
    ensures r == self.base_id,
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::enqueue_packet
//@ spec
    requires old(self).wf(), data@.len() <= MAX_PACKET_SIZE, data@.len() <= old(self).max_alloc, channel_id < 64,
        old(self).total_size + data@.len() <= usize::MAX,
    ensures final(self).base_ok(), // C01/C02/C05/C11
        final(self).alloc_ok(), // C06
        final(self).size_ok(), // C20
        final(self).parents_ok(), // C01/C02/C05
        final(self).same_window(*old(self)),
        final(self).packet_send_queue@ == old(self).packet_send_queue@.push(PacketSendEntry { data, channel_id, mode, flush_id }), // C01/C02/C05/C12
//@ start
    proof { let q = self.packet_send_queue@; let e = PacketSendEntry { data, channel_id, mode, flush_id }; assert(q.push(e).drop_last() =~= q); window_same(*self); }
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::drop_stale_packets
//@ spec
    requires old(self).wf(),
    ensures final(self).base_ok(), // C01/C02/C05/C11
        final(self).alloc_ok(), // C06
        final(self).size_ok(), // C20
        final(self).parents_ok(), // C01/C02/C05
        final(self).same_window(*old(self)), final(self).outs() == old(self).outs(),
        final(self).packet_send_queue@ == fresh(old(self).packet_send_queue@, flush_id), // C12/C05/C02
//@ loop 0
    invariant self.base_ok(), // C01/C02/C05/C11
        self.alloc_ok(), // C06
        self.size_ok(), // C20
        self.parents_ok(), // C01/C02/C05
        self.same_window(*old(self)), self.outs() == old(self).outs(), fresh(self.packet_send_queue@, flush_id) == fresh(old(self).packet_send_queue@, flush_id),
    ensures fresh(self.packet_send_queue@, flush_id) == self.packet_send_queue@,
    decreases self.packet_send_queue@.len(),
//@ body 0
            proof { if self.packet_send_queue@.len() > 0 { drop_one(*self); } }
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::is_next_time_sensitive
//@ sub /self\.packet_send_queue\.front\(\)\.map_or\(false, \|(\w+)\| ([^;{}]*)\)\s*\}$/match self.packet_send_queue.front() { Some(\1) => \2, None => false } }/!
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).base_ok(), // C01/C02/C05/C11
        final(self).alloc_ok(), // C06
        final(self).size_ok(), // C20
        final(self).parents_ok(), // C01/C02/C05
        final(self).same_window(*old(self)), final(self).outs() == old(self).outs(),
        final(self).packet_send_queue@ == fresh(old(self).packet_send_queue@, flush_id), // C12/C05/C02
        r == (final(self).packet_send_queue@.len() > 0 && final(self).packet_send_queue@[0].mode is TimeSensitive), // C12/C05
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::emit_packet
//@ sub /flush_id: u32\)/flush_id: u32, h: &mut Heap)/!
//@ sub /Some\(WindowEntry \{/Some(WindowEntry { mode: Ghost(packet.mode),/!
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).base_ok(), // C01/C02/C05/C11
        final(self).alloc_ok(), // C06
        final(self).size_ok(), // C20
        final(self).parents_ok(), // C01/C02/C05
        final(self).window_size == old(self).window_size, final(self).max_alloc == old(self).max_alloc, final(self).base_id == old(self).base_id,
        ({
            let q = fresh(old(self).packet_send_queue@, flush_id);
            match r {
                None => {
                    &&& final(h).same(*old(h))
                    &&& final(self).packet_send_queue@ == q && final(self).outs() == old(self).outs() && final(self).next_id == old(self).next_id && final(self).alloc == old(self).alloc // C05/C12/C20
                    // nothing is held back without a reason
                    &&& q.len() == 0 || old(self).n() >= old(self).window_size || old(self).alloc + charge_len(q[0].data@.len() as int) > old(self).max_alloc // C02/C05/C11
                },
                Some((rc, resend)) => {
                    // a packet of its own, with nothing acknowledged
                    &&& !old(h).born(rc) && (forall|x: PendingPacketRc| #[trigger] final(h).born(x) == (x == rc || old(h).born(x))) // C02/C12
                    &&& forall|x: PendingPacketRc, i: int| x != rc ==> #[trigger] final(h).acked(x, i) == old(h).acked(x, i) // C02/C12
                    &&& forall|i: int| 0 <= i < rc.n() ==> !#[trigger] final(h).acked(rc, i) // C02/C12
                    &&& final(h).same_sent(*old(h)) && final(h).same_gone(*old(h)) && (forall|i: int| #[trigger] final(h).sent(rc, i) == 0)
                    &&& rc.n() <= 65536
                    &&& q.len() > 0
                    &&& final(self).packet_send_queue@ == q.skip(1) // C05/C02/C01
                    &&& final(self).next_id == spec_add(old(self).next_id, 1) // C01
                    &&& resend == (q[0].mode is Persistent || q[0].mode is Reliable) // C12/C02
                    &&& rc.info().data == q[0].data@ && rc.info().channel_id == q[0].channel_id && rc.info().sequence_id == old(self).next_id // C01/C04
                    // the parents are the latest outstanding Reliable packets
                    &&& rc.info().window_parent_lead == lead(old(self).n(), last_idx(old(self).outs(), -1)) // C02/C01/C05
                    &&& rc.info().channel_parent_lead == lead(old(self).n(), last_idx(old(self).outs(), q[0].channel_id as int)) // C02/C01/C05
                    &&& final(self).outs() == old(self).outs().push(final(self).outs().last()) && final(self).outs().last().packet == rc && final(self).outs().last().mode@ == q[0].mode && final(self).outs().last().channel_id == q[0].channel_id // C02/C20/C06
                },
            }
        }),
//@ start
    hide(PacketSender::base_ok); hide(PacketSender::size_ok); hide(PacketSender::parents_ok);
    proof { shape_all(); emit_facts(); }
//@ end
//@ take src/half_connection/packet_sender.rs fn PacketSender::acknowledge
//@ spec
    requires old(self).wf(),
    ensures final(self).base_ok(), // C01/C02/C05/C11
        final(self).alloc_ok(), // C06
        final(self).size_ok(), // C20
        final(self).parents_ok(), // C01/C02/C05
        final(self).packet_send_queue@ == old(self).packet_send_queue@, final(self).window_size == old(self).window_size, final(self).max_alloc == old(self).max_alloc, final(self).next_id == old(self).next_id,
        ({
            let d = spec_sub(receiver_base_id, old(self).base_id);
            if receiver_base_id > 0xFFFFF || d > old(self).n() { final(self).outs() == old(self).outs() && final(self).base_id == old(self).base_id } // C02/C03/C15
            else { final(self).base_id == receiver_base_id && final(self).outs() == old(self).outs().skip(d as int) } // C02/C20/C11/C12
        }),
//@ body 0
            proof { shape_of(*self); free_one(*self); add_add(b0, k as u32, 1); assert(o0.skip(k).skip(1) =~= o0.skip(k + 1)); k = k + 1; }
//@ start
    hide(PacketSender::base_ok); hide(PacketSender::alloc_ok); hide(PacketSender::size_ok); hide(PacketSender::parents_ok);
    proof { shape_of(*self); }
    let ghost o0 = self.outs();
    let ghost b0 = self.base_id;
    let ghost mut k: int = 0;
    proof { assert(o0.skip(0) =~= o0); }
//@ loop 0
    invariant self.base_ok(), // C01/C02/C05/C11
        self.alloc_ok(), // C06
        self.size_ok(), // C20
        self.parents_ok(), // C01/C02/C05
        0 <= k <= spec_sub(receiver_base_id, b0) <= o0.len(), receiver_base_id <= 0xFFFFF, self.base_id == spec_add(b0, k as u32), self.outs() == o0.skip(k), b0 <= 0xFFFFF, o0 == old(self).outs(), b0 == old(self).base_id, o0.len() <= 4096,
        self.packet_send_queue@ == old(self).packet_send_queue@, self.window_size == old(self).window_size, self.max_alloc == old(self).max_alloc, self.next_id == old(self).next_id,
    decreases spec_sub(receiver_base_id, b0) - k,
//@ end
}
