//@ take src/half_connection/reorder_buffer.rs struct ReorderBuffer
//@ end
// how far a 32-bit frame id is ahead of another, and back
pub open spec fn off(id: u32, base: u32) -> int { if id >= base { id - base } else { id - base + 0x1_0000_0000 } }
pub open spec fn at(base: u32, k: int) -> u32 { (if base + k > u32::MAX { base + k - 0x1_0000_0000 } else { base + k }) as u32 }
pub proof fn off_at(base: u32, k: int) requires 0 <= k < 0x1_0000_0000 ensures off(at(base, k), base) == k {}
// stands for the callback: the calls made, in order
pub struct Calls { pub v: Vec<(u32, bool)> }
impl Calls {
    pub fn new() -> (r: Self) ensures r.v@.len() == 0 { Calls { v: Vec::new() } }
    pub fn call(&mut self, id: u32, was_seen: bool) ensures final(self).v@ == old(self).v@.push((id, was_seen)) { self.v.push((id, was_seen)); }
}
pub ghost struct Held { pub base: u32, pub max: u32, pub n: int, pub f0: u32, pub f1: u32 }
impl Held {
    pub open spec fn has(self, id: u32) -> bool { self.n >= 1 && self.f0 == id || self.n == 2 && self.f1 == id }
    // c has been reported since o; as inside advance(), the first held frame may be the next to report
    pub open spec fn partly(self, o: Held, c: Seq<(u32, bool)>, new: Option<u32>) -> bool {
        &&& 0 <= self.n <= 2 && self.max <= 0x4000_0000
        &&& self.n >= 1 ==> off(self.f0, self.base) < self.max
        &&& self.n == 2 ==> off(self.f0, self.base) < off(self.f1, self.base) < self.max
        &&& self.max == o.max && self.base == at(o.base, c.len() as int)
        // the ids from the old base on, each once and in order
        &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).0 == at(o.base, k)
        &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).1 == (o.has(at(o.base, k)) || new == Some(at(o.base, k)))
        &&& forall|id: u32| #[trigger] self.has(id) == ((o.has(id) || new == Some(id)) && off(id, o.base) >= c.len())
    }
}
// one more id reported
pub open spec fn shifted(a: Held, seen: bool) -> Held {
    if seen { Held { base: at(a.base, 1), max: a.max, n: a.n - 1, f0: a.f1, f1: a.f1 } } else { Held { base: at(a.base, 1), ..a } }
}
pub open spec fn alike(a: Held, b: Held) -> bool { a.base == b.base && a.max == b.max && a.n == b.n && (a.n >= 1 ==> a.f0 == b.f0) && (a.n == 2 ==> a.f1 == b.f1) }
pub proof fn step(a: Held, b: Held, o: Held, c: Seq<(u32, bool)>, seen: bool)
    requires a.partly(o, c, None), alike(b, shifted(a, seen)), if seen { a.n >= 1 && a.f0 == a.base } else { !a.has(a.base) }, c.len() < 0x8000_0000,
    ensures b.partly(o, c.push((a.base, seen)), None)
{
    let n = c.len() as int; let d = c.push((a.base, seen));
    assert(a.has(a.base) == (o.has(a.base) && off(a.base, o.base) >= n));
    assert(off(a.base, o.base) == n) by { off_at(o.base, n); }
    assert forall|k: int| 0 <= k < n + 1 implies (#[trigger] d[k]).0 == at(o.base, k) && d[k].1 == (o.has(at(o.base, k))) by { if k < n { assert(d[k] == c[k]); } }
    assert forall|id: u32| #[trigger] b.has(id) == (o.has(id) && off(id, o.base) >= n + 1) by { assert(a.has(id) == (o.has(id) && off(id, o.base) >= n)); }
}
impl ReorderBuffer {
    pub open spec fn g(self) -> Held { Held { base: self.base_id, max: self.max_span, n: self.frame_count as int, f0: self.frames[0], f1: self.frames[1] } }
    pub open spec fn held(self, id: u32) -> bool { self.g().has(id) }
    pub open spec fn wf(self) -> bool {
        &&& self.frame_count <= 2 && self.max_span <= 0x4000_0000
        &&& self.frame_count >= 1 ==> 1 <= off(self.frames[0], self.base_id) < self.max_span
        &&& self.frame_count == 2 ==> off(self.frames[0], self.base_id) < off(self.frames[1], self.base_id) < self.max_span
    }
    pub open spec fn reported(self, o: ReorderBuffer, c: Seq<(u32, bool)>, new: Option<u32>) -> bool { self.wf() && self.g().partly(o.g(), c, new) }
//@ take src/half_connection/reorder_buffer.rs fn ReorderBuffer::new
//@ ret r
//@ spec
    requires max_span <= 0x4000_0000,
    ensures r.wf(), r.frame_count == 0, r.base_id == base_id, r.max_span == max_span,
//@ end
//@ take src/half_connection/reorder_buffer.rs fn ReorderBuffer::can_put
//@ ret r
//@ spec
    ensures r == (off(new_frame_id, self.base_id) < self.max_span),
//@ end
//@ take src/half_connection/reorder_buffer.rs fn ReorderBuffer::put
//@ sub /<F>\(&mut self, (\w+): u32, mut callback: F\) where F: FnMut\(u32, bool\)/(&mut self, \1: u32, callback: &mut Calls)/!
//@ sub /\bcallback\(/callback.call(/
//@ spec
    requires old(self).wf(), off(new_frame_id, old(self).base_id) < old(self).max_span, !old(self).held(new_frame_id), old(callback).v@.len() == 0,
    ensures final(self).reported(*old(self), final(callback).v@, Some(new_frame_id)), // C14/C15/C11
        // a frame is taken for lost only when three later ones have arrived
        (exists|k: int| 0 <= k < final(callback).v@.len() && !(#[trigger] final(callback).v@[k]).1) ==> old(self).frame_count == 2, // C14
        final(callback).v@.len() <= old(self).max_span,
        // nothing beyond the newest of them is reported
        final(callback).v@.len() > 0 ==> final(callback).v@.last().1, // C03
//@ loop 0
    invariant self.frame_count == 2, self.frames == frames1, self.max_span == old(self).max_span, 0 <= callback.v@.len() <= off(min_frame_id, old(self).base_id) < old(self).max_span <= 0x4000_0000,
        self.base_id == at(old(self).base_id, callback.v@.len() as int),
        forall|k: int| 0 <= k < callback.v@.len() ==> #[trigger] callback.v@[k] == (at(old(self).base_id, k), false),
    decreases off(min_frame_id, self.base_id),
//@ before /while self\.base_id != min/
    let ghost frames1 = self.frames;
//@ end
//@ take src/half_connection/reorder_buffer.rs fn ReorderBuffer::can_advance
//@ ret r
//@ spec
    ensures r == (1 <= off(new_base_id, self.base_id) <= self.max_span),
//@ end
//@ take src/half_connection/reorder_buffer.rs fn ReorderBuffer::advance
//@ sub /<F>\(&mut self, (\w+): u32, mut callback: F\) where F: FnMut\(u32, bool\)/(&mut self, \1: u32, callback: &mut Calls)/!
//@ sub /\bcallback\(/callback.call(/
//@ spec
    requires old(self).wf(), 1 <= off(new_base_id, old(self).base_id) <= old(self).max_span, old(callback).v@.len() == 0,
    ensures final(self).reported(*old(self), final(callback).v@, None), // C14/C15/C11
        final(callback).v@.len() >= off(new_base_id, old(self).base_id), // C11
        final(callback).v@.len() <= old(self).max_span,
        // beyond the new base only what has been received is reported
        final(callback).v@.len() > off(new_base_id, old(self).base_id) ==> final(callback).v@.last().1, // C03
//@ loop 0
    invariant self.g().partly(old(self).g(), callback.v@, None), old(self).wf(), callback.v@.len() <= off(new_base_id, old(self).base_id) <= old(self).max_span,
        off(new_base_id, self.base_id) == off(new_base_id, old(self).base_id) - callback.v@.len(),
    decreases self.frame_count,
//@ loop 1
    invariant self.g().partly(old(self).g(), callback.v@, None), old(self).wf(), callback.v@.len() <= off(new_base_id, old(self).base_id) <= old(self).max_span,
        off(new_base_id, self.base_id) == off(new_base_id, old(self).base_id) - callback.v@.len(),
        self.frame_count > 0, off(self.frames[0], self.base_id) < off(new_base_id, self.base_id),
    decreases off(self.frames[0], self.base_id),
//@ loop 2
    invariant self.g().partly(old(self).g(), callback.v@, None), old(self).wf(), callback.v@.len() <= off(new_base_id, old(self).base_id) <= old(self).max_span,
        off(new_base_id, self.base_id) == off(new_base_id, old(self).base_id) - callback.v@.len(),
        self.frame_count > 0 ==> off(self.frames[0], self.base_id) >= off(new_base_id, self.base_id),
    decreases off(new_base_id, self.base_id),
//@ body 1
    let ghost a1 = *self; let ghost c1 = callback.v@;
//@ bodyend 1
    proof { step(a1.g(), self.g(), old(self).g(), c1, false); assert(callback.v@ == c1.push((a1.base_id, false))); }
//@ before /callback\.call\(self\.frames\[0\], true\)/1
    let ghost a0 = *self; let ghost c0 = callback.v@;
//@ bodyend 0
    proof { step(a0.g(), self.g(), old(self).g(), c0, true); assert(callback.v@ == c0.push((a0.base_id, true))); }
//@ body 2
    let ghost a2 = *self; let ghost c2 = callback.v@;
//@ bodyend 2
    proof { step(a2.g(), self.g(), old(self).g(), c2, false); assert(callback.v@ == c2.push((a2.base_id, false))); }
//@ before /match self\.frame_count/
    let ghost m = self.g(); let ghost cm = callback.v@;
//@ exit
    proof {
        let o = old(self).g();
        if m.n >= 1 && m.f0 == m.base {
            let m1 = shifted(m, true); let c1 = cm.push((m.base, true));
            step(m, m1, o, cm, true);
            if m1.n == 1 && m1.f0 == m1.base { let m2 = shifted(m1, true); step(m1, m2, o, c1, true); assert(alike(self.g(), m2)); assert(callback.v@ == c1.push((m1.base, true))); assert forall|id: u32| #[trigger] self.g().has(id) == m2.has(id) by {} }
            else { assert(alike(self.g(), m1)); assert(callback.v@ == c1); assert forall|id: u32| #[trigger] self.g().has(id) == m1.has(id) by {} }
        }
        let n = callback.v@.len() as int;
        if n > off(new_base_id, o.base) { assert(callback.v@[n - 1].1 == o.has(at(o.base, n - 1))); off_at(o.base, n - 1); assert(o.has(at(o.base, n - 1))); }
    }
//@ end
}
