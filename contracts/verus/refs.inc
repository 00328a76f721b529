// The reference counted packet: `Rc<RefCell<PendingPacket>>` and `Weak<..>`. What it refers to does not
// change but for the acknowledgement flags (unit pending_packet: acknowledge_fragment changes nothing
// else, and no other function writes). The Heap says which packets have been created, which of their
// fragments are acknowledged, which were found dropped, and how often a fragment has been put into a frame.
#[verifier::external_body]
pub struct PendingPacketRc { r: std::rc::Rc<std::cell::RefCell<PendingPacket>> }
#[verifier::external_body]
pub struct PendingPacketWeak { r: std::rc::Weak<std::cell::RefCell<PendingPacket>> }
pub struct Info { pub data: Seq<u8>, pub channel_id: u8, pub sequence_id: u32, pub window_parent_lead: u16, pub channel_parent_lead: u16 }
impl PendingPacketRc {
    pub uninterp spec fn info(self) -> Info;
    pub open spec fn n(self) -> int { nfrags(self.info().data.len() as int) }
    pub open spec fn of(self, p: PendingPacket) -> bool { p.wf() && self.info() == (Info { data: p.data@, channel_id: p.channel_id, sequence_id: p.sequence_id, window_parent_lead: p.window_parent_lead, channel_parent_lead: p.channel_parent_lead }) }
}
impl PendingPacketWeak { pub uninterp spec fn target(self) -> PendingPacketRc; }
//@ take src/half_connection/pending_packet.rs struct FragmentRef
//@ end
impl FragmentRef {
    pub open spec fn ok(self) -> bool { self.fragment_id < self.packet.target().n() }
    pub open spec fn key(self) -> (PendingPacketRc, int) { (self.packet.target(), self.fragment_id as int) }
//@ take src/half_connection/pending_packet.rs fn FragmentRef::new
//@ ret r
//@ spec
    ensures r.key() == (*packet_rc, fragment_id as int), // C02/C12
//@ end
}
#[verifier::external_body]
pub struct Heap { x: u8 }
impl Heap {
    pub uninterp spec fn born(self, p: PendingPacketRc) -> bool;
    pub uninterp spec fn acked(self, p: PendingPacketRc, i: int) -> bool;
    pub uninterp spec fn gone(self, p: PendingPacketRc) -> bool;
    pub uninterp spec fn sent(self, p: PendingPacketRc, i: int) -> nat;
    pub open spec fn same_flags(self, o: Heap) -> bool { forall|p: PendingPacketRc, i: int| #[trigger] self.acked(p, i) == o.acked(p, i) }
    pub open spec fn same_born(self, o: Heap) -> bool { forall|p: PendingPacketRc| #[trigger] self.born(p) == o.born(p) }
    pub open spec fn same_sent(self, o: Heap) -> bool { forall|p: PendingPacketRc, i: int| #[trigger] self.sent(p, i) == o.sent(p, i) }
    pub open spec fn same_gone(self, o: Heap) -> bool { forall|p: PendingPacketRc| #[trigger] self.gone(p) == o.gone(p) }
    pub open spec fn same(self, o: Heap) -> bool { self.same_flags(o) && self.same_born(o) && self.same_sent(o) && self.same_gone(o) }
}
#[verifier::external_body]
pub fn rc_new(h: &mut Heap, p: PendingPacket) -> (r: PendingPacketRc)
    requires p.wf(),
    ensures r.of(p), !old(h).born(r), final(h).same_gone(*old(h)), final(h).same_sent(*old(h)),
        forall|q: PendingPacketRc| #[trigger] final(h).born(q) == (q == r || old(h).born(q)),
        forall|q: PendingPacketRc, i: int| #[trigger] final(h).acked(q, i) == (if q == r && 0 <= i < r.n() { p.acked(i) } else { old(h).acked(q, i) }),
        forall|i: int| #[trigger] final(h).sent(r, i) == 0,
{ PendingPacketRc { r: std::rc::Rc::new(std::cell::RefCell::new(p)) } }
#[verifier::external_body]
pub fn rc_clone(p: &PendingPacketRc) -> (r: PendingPacketRc) ensures r == *p
{ PendingPacketRc { r: std::rc::Rc::clone(&p.r) } }
#[verifier::external_body]
pub fn rc_downgrade(p: &PendingPacketRc) -> (r: PendingPacketWeak) ensures r.target() == *p
{ PendingPacketWeak { r: std::rc::Rc::downgrade(&p.r) } }
// stands for `p.borrow().size()`
#[verifier::external_body]
pub fn rc_size(p: &PendingPacketRc) -> (r: usize) ensures r == p.info().data.len()
{ p.r.borrow().size() }
// stands for `p.borrow()`
#[verifier::external_body]
pub fn rc_borrow<'a>(p: &'a PendingPacketRc, h: &Heap) -> (r: &'a PendingPacket)
    ensures p.of(*r), forall|i: int| 0 <= i < p.n() ==> #[trigger] r.acked(i) == h.acked(*p, i),
{ unimplemented!() }
// stands for `p.borrow_mut()`; the borrow ends with an unchanged packet but for the flags
#[verifier::external_body]
pub fn rc_borrow_mut<'a>(p: &'a PendingPacketRc, h: &mut Heap) -> (r: &'a mut PendingPacket)
    ensures p.of(*r), forall|i: int| 0 <= i < p.n() ==> #[trigger] r.acked(i) == old(h).acked(*p, i),
        final(r).same_packet(*r) && final(r).wf() ==> final(h).same_born(*old(h)) && final(h).same_sent(*old(h)) && final(h).same_gone(*old(h))
            && forall|q: PendingPacketRc, i: int| #[trigger] final(h).acked(q, i) == (if q == *p && 0 <= i < p.n() { final(r).acked(i) } else { old(h).acked(q, i) }),
{ unimplemented!() }
// stands for `w.upgrade()`
#[verifier::external_body]
pub fn upgrade(w: &PendingPacketWeak, h: &mut Heap) -> (r: Option<PendingPacketRc>)
    ensures r matches Some(p) ==> p == w.target() && *final(h) == *old(h),
        r is None ==> final(h).gone(w.target()) && (forall|q: PendingPacketRc| old(h).gone(q) ==> #[trigger] final(h).gone(q)) && final(h).same_flags(*old(h)) && final(h).same_born(*old(h)) && final(h).same_sent(*old(h)),
{ unimplemented!() }
