//@ take src/frame/mod.rs struct Datagram
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs struct ActiveEntry
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs enum WindowEntry
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs struct Packet
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs struct AssemblyWindow
//@ end
pub open spec fn dg_frag_ok(dg: Datagram) -> bool { frag_ok(dg.fragment_id_last + 1, dg.fragment_id as int, dg.data@.len() as int) }
// memory a packet is charged for: whole fragments, except for a single-fragment packet
pub open spec fn charge(dg: Datagram) -> int { if dg.fragment_id_last == 0 { dg.data@.len() as int } else { (dg.fragment_id_last + 1) * MAX_FRAGMENT_SIZE } }
pub open spec fn ceil_frag(n: int) -> int { (if n + (MAX_FRAGMENT_SIZE - 1) > usize::MAX { usize::MAX as int } else { n + (MAX_FRAGMENT_SIZE - 1) }) / (MAX_FRAGMENT_SIZE as int) * MAX_FRAGMENT_SIZE }
impl WindowEntry {
    pub open spec fn cost(self) -> int { match self { WindowEntry::Open => 0, WindowEntry::Closed(a) => a as int, WindowEntry::Active(e) => e.alloc_size as int } }
    pub open spec fn ok(self) -> bool { (self matches WindowEntry::Active(e) ==> e.ok()) && self.cost() <= 65536 * MAX_FRAGMENT_SIZE }
    // bytes of packet data this entry really holds
    pub open spec fn heap(self) -> int { if let WindowEntry::Active(e) = self { e.asm_buffer.buffer@.len() as int } else { 0 } }
}
impl ActiveEntry {
    pub open spec fn ok(self) -> bool {
        &&& self.asm_buffer.wf() && self.asm_buffer.num_fragments == self.last_fragment_id + 1
        &&& self.alloc_size == (self.last_fragment_id + 1) * MAX_FRAGMENT_SIZE
        &&& self.asm_buffer.missing()
    }
    pub open spec fn agrees(self, dg: Datagram) -> bool {
        dg.channel_id == self.channel_id && dg.window_parent_lead == self.window_parent_lead && dg.channel_parent_lead == self.channel_parent_lead && dg.fragment_id_last == self.last_fragment_id
    }
    pub open spec fn same_header(self, o: ActiveEntry) -> bool {
        o.alloc_size == self.alloc_size && o.channel_id == self.channel_id && o.window_parent_lead == self.window_parent_lead && o.channel_parent_lead == self.channel_parent_lead && o.last_fragment_id == self.last_fragment_id
    }
}
pub open spec fn entry_same(a: WindowEntry, b: WindowEntry) -> bool {
    match (a, b) {
        (WindowEntry::Active(x), WindowEntry::Active(y)) => x.same_header(y) && y.asm_buffer.same(x.asm_buffer),
        _ => a == b,
    }
}
pub open spec fn total(w: Seq<WindowEntry>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(w, n - 1) + w[n - 1].cost() } }
pub proof fn total_update(w: Seq<WindowEntry>, v: Seq<WindowEntry>, i: int, n: int)
    requires 0 <= n <= w.len(), v.len() == w.len(), 0 <= i < w.len(), forall|j: int| 0 <= j < w.len() && j != i ==> #[trigger] v[j] == w[j]
    ensures total(v, n) == total(w, n) + (if i < n { v[i].cost() - w[i].cost() } else { 0 })
    decreases n
{ if n > 0 { total_update(w, v, i, n - 1); } }
pub proof fn total_updates(w: Seq<WindowEntry>, i: int) requires 0 <= i < w.len()
    ensures forall|v: Seq<WindowEntry>| v.len() == w.len() && (forall|j: int| 0 <= j < w.len() && j != i ==> #[trigger] v[j] == w[j]) ==> #[trigger] total(v, w.len() as int) == total(w, w.len() as int) + v[i].cost() - w[i].cost()
{
    assert forall|v: Seq<WindowEntry>| v.len() == w.len() && (forall|j: int| 0 <= j < w.len() && j != i ==> #[trigger] v[j] == w[j]) implies #[trigger] total(v, w.len() as int) == total(w, w.len() as int) + v[i].cost() - w[i].cost() by { total_update(w, v, i, w.len() as int); }
}
pub proof fn total_at_least(w: Seq<WindowEntry>, i: int, n: int) requires 0 <= n <= w.len()
    ensures total(w, n) >= 0, 0 <= i < n ==> total(w, n) >= w[i].cost() decreases n { if n > 0 { total_at_least(w, i, n - 1); } }
// so the counter cannot overflow, whatever the limit is
pub proof fn total_bound(w: Seq<WindowEntry>, n: int) requires 0 <= n <= w.len(), forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]).ok() ensures total(w, n) <= n * (65536 * MAX_FRAGMENT_SIZE) decreases n { if n > 0 { total_bound(w, n - 1); let x = w[n - 1]; assert(n * (65536 * MAX_FRAGMENT_SIZE) == (n - 1) * (65536 * MAX_FRAGMENT_SIZE) + 65536 * MAX_FRAGMENT_SIZE) by (nonlinear_arith); } }
pub open spec fn heap_total(w: Seq<WindowEntry>, n: int) -> int decreases n { if n <= 0 { 0 } else { heap_total(w, n - 1) + w[n - 1].heap() } }
// C06: the bytes of partially assembled packets are never more than the counter says
pub proof fn heap_bound(w: Seq<WindowEntry>, n: int) requires 0 <= n <= w.len(), forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]).ok()
    ensures heap_total(w, n) <= total(w, n) // C06
    decreases n
{ if n > 0 { heap_bound(w, n - 1); let x = w[n - 1]; } }
pub open spec fn wrote(a: FragmentBuffer, b: FragmentBuffer, idx: int, d: Seq<u8>) -> bool {
    &&& b.wf() && b.num_fragments == a.num_fragments
    &&& a.got(idx) ==> b.same(a)
    &&& forall|i: int| 0 <= i < a.num_fragments ==> #[trigger] b.got(i) == (i == idx || a.got(i))
    &&& !a.got(idx) ==> b.part(idx) == d
    &&& forall|i: int| 0 <= i < a.num_fragments && i != idx && a.got(i) ==> #[trigger] b.part(i) == a.part(i)
}
// every fragment but this one is there
pub open spec fn all_but(b: FragmentBuffer, k: int) -> bool { forall|i: int| 0 <= i < b.num_fragments && i != k ==> #[trigger] b.got(i) }
// The theorem for one entry: whatever fragments of p came before, the completing one yields p
pub proof fn completes(a: FragmentBuffer, idx: int, d: Seq<u8>) requires 0 <= idx < a.num_fragments
    ensures forall|b: FragmentBuffer, q: Seq<u8>| #![trigger b.content(), a.holds(q)] wrote(a, b, idx, d) && b.all_got() && a.holds(q) && d == frag(q, idx) ==> b.content() == q, // C04/C01
        forall|b: FragmentBuffer| wrote(a, b, idx, d) ==> (#[trigger] b.all_got() == all_but(a, idx)),
{
    assert forall|b: FragmentBuffer| wrote(a, b, idx, d) implies (#[trigger] b.all_got() == all_but(a, idx)) by {
        if b.all_got() { assert forall|i: int| 0 <= i < a.num_fragments && i != idx implies #[trigger] a.got(i) by { assert(b.got(i)); } }
        if all_but(a, idx) { assert forall|i: int| 0 <= i < b.num_fragments implies #[trigger] b.got(i) by { if i != idx { assert(a.got(i)); } } }
    }
    assert forall|b: FragmentBuffer, q: Seq<u8>| #![trigger b.content(), a.holds(q)] wrote(a, b, idx, d) && b.all_got() && a.holds(q) && d == frag(q, idx) implies b.content() == q by {
        reassembly_step(a, b, q, idx, d); reassembly(b, q);
    }
}
pub proof fn first_of_many(n: int, idx: int) requires n >= 2
    ensures forall|b: FragmentBuffer| #![trigger b.wf()] b.wf() && b.num_fragments == n && b.only(idx) ==> b.missing()
{
    assert forall|b: FragmentBuffer| #![trigger b.wf()] b.wf() && b.num_fragments == n && b.only(idx) implies b.missing() by {
        let k = if idx == 0 { 1int } else { 0 };
        assert(!b.got(k));
    }
}
pub open spec fn header_of(p: Packet, dg: Datagram) -> bool {
    p.channel_id == dg.channel_id && p.sequence_id == dg.sequence_id && p.window_parent_lead == dg.window_parent_lead && p.channel_parent_lead == dg.channel_parent_lead
}
impl ActiveEntry {
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs fn ActiveEntry::new
//@ ret r
//@ spec
    requires 0 < num_fragments <= 65536,
    ensures r.alloc_size == alloc_size, r.channel_id == channel_id, r.window_parent_lead == window_parent_lead, r.channel_parent_lead == channel_parent_lead, r.last_fragment_id == last_fragment_id,
        r.asm_buffer.wf(), r.asm_buffer.num_fragments == num_fragments, forall|i: int| 0 <= i < num_fragments ==> !#[trigger] r.asm_buffer.got(i),
        forall|p: Seq<u8>| #![trigger r.asm_buffer.holds(p)] nfrags(p.len() as int) == num_fragments ==> r.asm_buffer.holds(p),
//@ end
}
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs fn packet_alloc_size
//@ ret r
//@ spec
    requires dg_frag_ok(*datagram),
    ensures r == charge(*datagram), // C06
//@ end
// stands for `(0 .. n).map(|_| e).collect()`
pub fn rep_entry(n: u32, e: WindowEntry) -> (v: Vec<WindowEntry>) requires e is Open ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v@[i] == e
{
    let mut v: Vec<WindowEntry> = Vec::new();
    while v.len() < n as usize invariant e is Open, v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == e, decreases n - v@.len() { v.push(WindowEntry::Open); }
    v
}
pub proof fn all_open(w: Seq<WindowEntry>, n: int) requires 0 <= n <= w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == WindowEntry::Open ensures total(w, n) == 0 decreases n { if n > 0 { all_open(w, n - 1); } }
impl AssemblyWindow {
    pub open spec fn wf(self) -> bool {
        &&& self.window@.len() == MAX_PACKET_WINDOW_SIZE
        &&& forall|j: int| 0 <= j < self.window@.len() ==> (#[trigger] self.window@[j]).ok()
        &&& self.alloc == total(self.window@, self.window@.len() as int)
        &&& self.alloc <= self.max_alloc
    }
    pub open spec fn others_same(self, o: AssemblyWindow, idx: int) -> bool {
        self.window@.len() == o.window@.len() && self.max_alloc == o.max_alloc && forall|j: int| 0 <= j < o.window@.len() && j != idx ==> #[trigger] self.window@[j] == o.window@[j]
    }
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs fn AssemblyWindow::new
//@ ret r
//@ sub /\(0 \.\. (\w+)\)\.map\(\|_\| ([^;]*)\)\.collect\(\);/rep_entry(\1, \2);/
//@ spec
    ensures r.wf(), forall|i: int| 0 <= i < MAX_PACKET_WINDOW_SIZE ==> #[trigger] r.window@[i] == WindowEntry::Open,
        // the allowance is the given limit, rounded up to whole fragments
        r.alloc == 0, r.max_alloc == ceil_frag(max_alloc as int), // C06
//@ start
    proof { assert forall|w: Seq<WindowEntry>| w.len() == MAX_PACKET_WINDOW_SIZE && (forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == WindowEntry::Open) implies #[trigger] total(w, MAX_PACKET_WINDOW_SIZE as int) == 0 by { all_open(w, MAX_PACKET_WINDOW_SIZE as int); } }
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs fn AssemblyWindow::try_add
//@ ret r
//@ spec
    requires old(self).wf(), idx < old(self).window@.len(), dg_frag_ok(datagram),
    ensures
        // the counter is the sum over the entries and stays within the limit
        final(self).wf(), // C06/C03
        final(self).others_same(*old(self), idx as int), // C04/C01/C06
        match old(self).window@[idx as int] {
            WindowEntry::Open => {
                if old(self).alloc + charge(datagram) > old(self).max_alloc {
                    &&& final(self).window@[idx as int] == WindowEntry::Closed(0) // C06
                    &&& r matches Some(p) && header_of(p, datagram) && p.data is None // C06
                } else if datagram.fragment_id_last == 0 {
                    &&& final(self).window@[idx as int] == WindowEntry::Closed(charge(datagram) as usize) // C06
                    &&& r matches Some(p) && header_of(p, datagram) && p.data == Some(datagram.data) // C04/C01
                } else {
                    &&& r is None // C04/C02
                    &&& final(self).window@[idx as int] matches WindowEntry::Active(e) && e.agrees(datagram) && e.asm_buffer.got(datagram.fragment_id as int) && e.asm_buffer.part(datagram.fragment_id as int) == datagram.data@ // C04/C01
                        && (forall|p: Seq<u8>| #![trigger e.asm_buffer.holds(p)] nfrags(p.len() as int) == datagram.fragment_id_last + 1 && datagram.data@ == frag(p, datagram.fragment_id as int) ==> e.asm_buffer.holds(p))
                }
            },
            // delivered or rejected ids ignore every further datagram
            WindowEntry::Closed(a) => r is None && final(self).window@[idx as int] == WindowEntry::Closed(a), // C01/C04
            WindowEntry::Active(e0) => if !e0.agrees(datagram) {
                // a fragment which disagrees with the first one changes nothing
                r is None && entry_same(old(self).window@[idx as int], final(self).window@[idx as int]) // C04
            } else {
                match r {
                    Some(p) => {
                        &&& final(self).window@[idx as int] == WindowEntry::Closed(e0.alloc_size) // C01/C06
                        &&& header_of(p, datagram) // C01/C04
                        &&& all_but(e0.asm_buffer, datagram.fragment_id as int) // C04
                        &&& p.data is Some && p.data.unwrap()@.len() <= e0.alloc_size // C04/C02/C06
                        &&& forall|q: Seq<u8>| #![trigger e0.asm_buffer.holds(q)] e0.asm_buffer.holds(q) && datagram.data@ == frag(q, datagram.fragment_id as int) ==> p.data.unwrap()@ == q // C04/C01
                    },
                    None => {
                        &&& final(self).window@[idx as int] matches WindowEntry::Active(e) && e.same_header(e0) && wrote(e0.asm_buffer, e.asm_buffer, datagram.fragment_id as int, datagram.data@) // C04/C01
                        &&& !all_but(e0.asm_buffer, datagram.fragment_id as int) // C04/C02
                    },
                }
            },
        },
//@ start
    let ghost w0 = self.window@;
    let ghost i0 = idx as int;
    proof { total_at_least(w0, i0, w0.len() as int); total_updates(w0, i0); total_bound(w0, w0.len() as int); let x = w0[i0];
        if datagram.fragment_id_last > 0 { first_of_many(datagram.fragment_id_last + 1, datagram.fragment_id as int); }
        if let WindowEntry::Active(e0) = w0[i0] { if e0.agrees(datagram) { completes(e0.asm_buffer, datagram.fragment_id as int, datagram.data@); } }
    }
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/mod.rs fn AssemblyWindow::clear
//@ spec
    requires old(self).wf(), idx < old(self).window@.len(),
    ensures final(self).wf(), // C06
        final(self).others_same(*old(self), idx as int),
        final(self).window@[idx as int] == WindowEntry::Open, // C01/C02/C06
        final(self).alloc == old(self).alloc - old(self).window@[idx as int].cost(), // C06
//@ start
    let ghost w0 = self.window@;
    proof { total_at_least(w0, idx as int, w0.len() as int); total_updates(w0, idx as int); }
//@ sub /-= (\w+);/-= *\1;/
//@ end
}
