//@ include frags.inc
//@ take src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs struct FragmentBuffer
//@ end
// number of fragments below n which have been written
pub open spec fn written(f: Seq<u64>, n: int) -> int decreases n { if n <= 0 { 0 } else { written(f, n - 1) + (if bit(f, n - 1) { 1int } else { 0 }) } }

impl FragmentBuffer {
    pub open spec fn got(self, i: int) -> bool { bit(self.fragment_bitfields@, i) }
    pub open spec fn last_len(self) -> int { self.total_size - MAX_FRAGMENT_SIZE * written(self.fragment_bitfields@, self.num_fragments - 1) }
    pub open spec fn wf(self) -> bool {
        &&& 0 < self.num_fragments <= 65536
        &&& self.buffer@.len() == self.num_fragments * MAX_FRAGMENT_SIZE
        &&& self.fragment_bitfields@.len() == (self.num_fragments + 63) / 64
        &&& self.fragments_remaining == self.num_fragments - written(self.fragment_bitfields@, self.num_fragments as int)
        &&& 0 <= self.last_len() <= MAX_FRAGMENT_SIZE
        &&& !self.got(self.num_fragments - 1) ==> self.last_len() == 0
    }
    pub open spec fn part(self, i: int) -> Seq<u8> {
        self.buffer@.subrange(i * MAX_FRAGMENT_SIZE, i * MAX_FRAGMENT_SIZE + (if i == self.num_fragments - 1 { self.last_len() } else { MAX_FRAGMENT_SIZE as int }))
    }
    pub open spec fn same(self, o: FragmentBuffer) -> bool {
        self.buffer@ == o.buffer@ && self.fragment_bitfields@ == o.fragment_bitfields@ && self.num_fragments == o.num_fragments
            && self.fragments_remaining == o.fragments_remaining && self.total_size == o.total_size
    }
    pub open spec fn all_got(self) -> bool { forall|i: int| 0 <= i < self.num_fragments ==> #[trigger] self.got(i) }
    pub open spec fn only(self, k: int) -> bool { forall|i: int| 0 <= i < self.num_fragments ==> #[trigger] self.got(i) == (i == k) }
    pub open spec fn missing(self) -> bool { exists|i: int| 0 <= i < self.num_fragments && !#[trigger] self.got(i) }
    pub open spec fn content(self) -> Seq<u8> { self.buffer@.subrange(0, self.total_size as int) }
    // what has been written so far are fragments of p
    pub open spec fn holds(self, p: Seq<u8>) -> bool {
        &&& nfrags(p.len() as int) == self.num_fragments
        &&& forall|i: int| #![trigger self.part(i)] 0 <= i < self.num_fragments && self.got(i) ==> self.part(i) == frag(p, i)
    }
}
pub proof fn written_bounds(f: Seq<u64>, n: int) requires n >= 0 ensures 0 <= written(f, n) <= n decreases n { if n > 0 { written_bounds(f, n - 1); } }
pub proof fn written_all(f: Seq<u64>, n: int) requires n >= 0
    ensures written(f, n) == n <==> forall|i: int| 0 <= i < n ==> #[trigger] bit(f, i)
    decreases n
{
    if n > 0 {
        written_bounds(f, n - 1); written_all(f, n - 1);
        if written(f, n) == n { assert forall|i: int| 0 <= i < n implies #[trigger] bit(f, i) by { if i < n - 1 {} } }
        if forall|i: int| 0 <= i < n ==> #[trigger] bit(f, i) { assert(bit(f, n - 1)); assert forall|i: int| 0 <= i < n - 1 implies #[trigger] bit(f, i) by {} }
    }
}
pub proof fn written_none(f: Seq<u64>, n: int) requires n >= 0, n <= 64 * f.len(), forall|k: int| 0 <= k < f.len() ==> f[k] == 0
    ensures written(f, n) == 0, forall|i: int| 0 <= i < n ==> !#[trigger] bit(f, i)
    decreases n
{
    assert forall|i: int| 0 <= i < n implies !#[trigger] bit(f, i) by {
        let s = (i % 64) as u64;
        assert(f[i / 64] == 0);
        assert((0u64 >> s) & 1 == 0) by (bit_vector);
    }
    if n > 0 { written_none(f, n - 1); }
}
pub proof fn written_set(f: Seq<u64>, g: Seq<u64>, k: int, n: int)
    requires n >= 0, !bit(f, k), forall|i: int| 0 <= i < n ==> #[trigger] bit(g, i) == (i == k || bit(f, i)), 0 <= k
    ensures written(g, n) == written(f, n) + (if k < n { 1int } else { 0 })
    decreases n
{
    if n > 0 { written_set(f, g, k, n - 1); assert(bit(g, n - 1) == (n - 1 == k || bit(f, n - 1))); }
}
pub proof fn finished(b: FragmentBuffer) requires b.num_fragments > 0
    ensures written(b.fragment_bitfields@, b.num_fragments as int) == b.num_fragments <==> forall|i: int| 0 <= i < b.num_fragments ==> #[trigger] b.got(i),
        (forall|i: int| 0 <= i < b.num_fragments ==> #[trigger] b.got(i)) ==> written(b.fragment_bitfields@, b.num_fragments - 1) == b.num_fragments - 1,
        0 <= written(b.fragment_bitfields@, b.num_fragments as int) <= b.num_fragments
{
    let n = b.num_fragments as int; let f = b.fragment_bitfields@;
    written_all(f, n); written_all(f, n - 1); written_bounds(f, n);
    if forall|i: int| 0 <= i < n ==> #[trigger] b.got(i) {
        assert forall|i: int| 0 <= i < n implies #[trigger] bit(f, i) by { assert(b.got(i)); }
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] bit(f, i) by { assert(b.got(i)); }
    }
}
impl FragmentBuffer {
//@ take src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs fn FragmentBuffer::new
//@ ret r
//@ spec
    requires 0 < num_fragments <= 65536,
    ensures r.wf(), r.num_fragments == num_fragments, r.fragments_remaining == num_fragments,
        forall|i: int| 0 <= i < num_fragments ==> !#[trigger] r.got(i), // C04
        // it holds no part of any packet, so it may become any packet with this many fragments
        forall|p: Seq<u8>| #![trigger r.holds(p)] nfrags(p.len() as int) == num_fragments ==> r.holds(p), // C04
        r.buffer@.len() == num_fragments * MAX_FRAGMENT_SIZE, // C06
//@ start
    proof {
        let z = Seq::new(((num_fragments + 63) / 64) as nat, |i: int| 0u64);
        written_none(z, num_fragments as int); written_none(z, num_fragments - 1);
    }
//@ exit
//@ sub /fragment_bitfields: vec!\[0; /fragment_bitfields: vec![0u64; /
//@ sub /buffer: vec!\[0; /buffer: vec![0u8; /
//@ sub /\n        Self \{(.*)\n        \}\n/\n        let r_ = Self {\1\n        };\n        proof { assert(r_.fragment_bitfields@ =~= Seq::new(((num_fragments + 63) \/ 64) as nat, |i: int| 0u64)); assert forall|i: int| 0 <= i < num_fragments implies !#[trigger] r_.got(i) by {} }\n        r_\n/s
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs fn FragmentBuffer::write
//@ spec
    requires old(self).wf(), frag_ok(old(self).num_fragments as int, idx as int, data@.len() as int),
    ensures final(self).wf(), final(self).num_fragments == old(self).num_fragments,
        final(self).buffer@.len() == old(self).buffer@.len(), // C06
        // the first copy of a fragment counts, further copies change nothing
        old(self).got(idx as int) ==> final(self).same(*old(self)), // C04
        forall|i: int| 0 <= i < old(self).num_fragments ==> #[trigger] final(self).got(i) == (i == idx || old(self).got(i)), // C04/C02
        final(self).fragments_remaining == old(self).fragments_remaining - (if old(self).got(idx as int) { 0int } else { 1 }), // C04/C02
        !old(self).got(idx as int) ==> final(self).part(idx as int) == data@, // C04/C01
        forall|i: int| 0 <= i < old(self).num_fragments && i != idx && old(self).got(i) ==> #[trigger] final(self).part(i) == old(self).part(i), // C04/C01
//@ start
    let ghost f0 = self.fragment_bitfields@;
    let ghost b0 = self.buffer@;
    let ghost n = self.num_fragments as int;
    proof {
        let s = (idx % 64) as u64;
        let w = f0[idx as int / 64];
        assert(w & (1u64 << s) == 0 <==> (w >> s) & 1 == 0) by (bit_vector) requires s < 64;
        bit_set(f0, idx as int, n);
        written_bounds(f0, n); written_bounds(f0, n - 1);
        if !bit(f0, idx as int) {
            let g = f0.update(idx as int / 64, f0[idx as int / 64] | (1u64 << s));
            written_set(f0, g, idx as int, n); written_set(f0, g, idx as int, n - 1);
            written_bounds(g, n);
        }
    }
//@ exit
    proof {
        if !bit(f0, idx as int) {
            let s = (idx % 64) as u64;
            assert(self.fragment_bitfields@ =~= f0.update(idx as int / 64, f0[idx as int / 64] | (1u64 << s)));
            assert(self.part(idx as int) =~= data@);
            assert forall|i: int| 0 <= i < n && i != idx && bit(f0, i) implies #[trigger] self.part(i) == old(self).part(i) by {
                assert(self.part(i) =~= old(self).part(i));
            }
        } else {
            assert(self.fragment_bitfields@ =~= f0);
        }
    }
//@ sub /([\w.]+)\[([^\[\]]*?)\s*\.\.\s*([^\[\]]*?)\]\.copy_from_slice\(/copy_into(&mut \1, \2, \3, /
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs fn FragmentBuffer::finalize
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@ == self.content(), // C04/C01
//@ start
    proof { written_bounds(self.fragment_bitfields@, self.num_fragments - 1); }
//@ end
//@ take src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs fn FragmentBuffer::is_finished
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.all_got(), // C04/C02
//@ start
    proof { finished(*self); }
//@ end
}
// The theorem: fragments of a packet, written in any order, any number of times, give the packet.
pub proof fn reassembly_step(a: FragmentBuffer, b: FragmentBuffer, p: Seq<u8>, idx: int, d: Seq<u8>)
    requires a.holds(p), b.num_fragments == a.num_fragments, 0 <= idx < a.num_fragments, d == frag(p, idx),
        a.got(idx) ==> b.same(a),
        forall|i: int| 0 <= i < a.num_fragments ==> #[trigger] b.got(i) == (i == idx || a.got(i)),
        !a.got(idx) ==> b.part(idx) == d,
        forall|i: int| 0 <= i < a.num_fragments && i != idx && a.got(i) ==> #[trigger] b.part(i) == a.part(i),
    ensures b.holds(p) // C04
{
    assert forall|i: int| #![trigger b.part(i)] 0 <= i < b.num_fragments && b.got(i) implies b.part(i) == frag(p, i) by {
        if i != idx || a.got(idx) { assert(a.got(i)); let x = a.part(i); }
    }
}
pub proof fn reassembly(b: FragmentBuffer, p: Seq<u8>)
    requires b.wf(), b.holds(p), b.all_got()
    ensures b.content() == p // C04/C01
{
    let n = b.num_fragments as int;
    finished(b);
    assert(b.got(n - 1));
    assert(b.part(n - 1) == frag(p, n - 1));
    assert(b.part(n - 1).len() == b.last_len());
    assert(frag(p, n - 1).len() == flen(p.len() as int, n - 1));
    assert(b.total_size == p.len());
    assert forall|j: int| 0 <= j < p.len() implies b.buffer@[j] == p[j] by {
        let i = j / (MAX_FRAGMENT_SIZE as int);
        let k = j % (MAX_FRAGMENT_SIZE as int);
        assert(j == i * MAX_FRAGMENT_SIZE + k);
        assert(b.got(i));
        assert(b.part(i) == frag(p, i));
        assert(b.part(i)[k] == b.buffer@[j]);
        assert(frag(p, i)[k] == p[j]);
    }
    assert(b.buffer@.subrange(0, b.total_size as int) =~= p);
}
