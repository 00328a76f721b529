#[cfg(kani)]
mod imp {
    pub fn any_u8() -> u8 { kani::any() }
    pub fn any_u16() -> u16 { kani::any() }
    pub fn any_u32() -> u32 { kani::any() }
    pub fn any_u64() -> u64 { kani::any() }
    pub fn any_usize() -> usize { kani::any() }
    pub fn any_bool() -> bool { kani::any() }
    pub fn any_f64() -> f64 { f64::from_bits(kani::any::<u64>()) }
    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
    pub fn rand_bool() -> bool { kani::any() }
    pub fn rand_u32() -> u32 { kani::any() }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    pub struct AssumeFailed;

    pub enum Source {
        Replay(VecDeque<Vec<u8>>),
        Random(u64),
    }

    pub struct State {
        pub source: Source,
        pub trace: Vec<Vec<u8>>,
        pub checks: u64,
        pub covers: std::collections::BTreeMap<&'static str, u64>,
        pub failed: Option<String>,
        pub note: Vec<String>,
        pub counts: std::collections::BTreeMap<&'static str, u64>,
    }

    thread_local! {
        pub static ST: RefCell<State> = RefCell::new(State {
            source: Source::Random(1), trace: Vec::new(), checks: 0, covers: Default::default(),
            failed: None, note: Vec::new(), counts: Default::default(),
        });
    }

    pub fn set_source(s: Source) {
        ST.with(|st| { let mut st = st.borrow_mut(); st.source = s; st.trace.clear(); st.failed = None; st.note.clear(); });
    }

    fn next_rand(s: &mut u64) -> u64 {
        // splitmix64
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    fn draw(n: usize, gen: impl FnOnce(&mut dyn FnMut() -> u64) -> u64) -> u64 {
        crate::alloc::uncounted(|| draw_(n, gen))
    }
    fn draw_(n: usize, gen: impl FnOnce(&mut dyn FnMut() -> u64) -> u64) -> u64 {
        ST.with(|st| {
            let mut st = st.borrow_mut();
            let v = match st.source {
                Source::Replay(ref mut q) => {
                    match q.pop_front() {
                        Some(b) => { let mut v = 0u64; for (i, x) in b.iter().enumerate().take(8) { v |= (*x as u64) << (8 * i); } v }
                        None => 0,
                    }
                }
                Source::Random(ref mut s) => { let mut f = || next_rand(s); gen(&mut f) }
            };
            let v = if n < 8 { v & ((1u64 << (8 * n)) - 1) } else { v };
            st.trace.push(v.to_le_bytes()[..n].to_vec());
            v
        })
    }

    // Biased towards small values, extremes and powers of two
    fn biased(f: &mut dyn FnMut() -> u64, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let k = f();
        let r = f();
        (match k % 16 {
            0..=4 => r % 8,
            5 => max - r % 4,
            6 => 1u64 << (r % bits as u64),
            7 => (1u64 << (r % bits as u64)).wrapping_sub(1),
            8 => r % 100,
            9 => r % 3000,
            _ => r,
        }) & max
    }

    pub fn any_u8() -> u8 { draw(1, |f| biased(f, 8)) as u8 }
    pub fn any_u16() -> u16 { draw(2, |f| biased(f, 16)) as u16 }
    pub fn any_u32() -> u32 { draw(4, |f| biased(f, 32)) as u32 }
    pub fn any_u64() -> u64 { draw(8, |f| biased(f, 64)) }
    pub fn any_usize() -> usize { draw(8, |f| biased(f, 64)) as usize }
    pub fn any_bool() -> bool { draw(1, |f| f() & 1) & 1 != 0 }
    pub fn any_f64() -> f64 { f64::from_bits(draw(8, |f| {
        let k = f(); let r = f();
        match k % 4 { 0 => (r as f64 / u64::MAX as f64).to_bits(), 1 => ((r % 100000) as f64 / 1000.0).to_bits(), 2 => (r as u32 as f64).to_bits(), _ => r }
    })) }
    thread_local! { static SIM: RefCell<Option<crate::rng::Rng>> = const { RefCell::new(None) }; }
    /// In a simulation every random draw of the code under verification comes from its own stream
    pub fn sim_rand(seed: Option<u64>) { SIM.with(|s| *s.borrow_mut() = seed.map(crate::rng::Rng::new)); }
    /// A value determined by the next simulated draw is forced to `v` (used for nonces)
    thread_local! { static FORCED: RefCell<VecDeque<u32>> = const { RefCell::new(VecDeque::new()) }; }
    pub fn force_rand_u32(v: u32) { FORCED.with(|f| f.borrow_mut().push_back(v)); }
    pub fn clear_forced() { FORCED.with(|f| *f.borrow_mut() = VecDeque::new()); }
    pub fn rand_bool() -> bool { match SIM.with(|s| s.borrow_mut().as_mut().map(|r| r.u64() >> 63 != 0)) { Some(b) => b, None => any_bool() } }
    pub fn rand_u32() -> u32 {
        if let Some(v) = FORCED.with(|f| f.borrow_mut().pop_front()) { return v; }
        match SIM.with(|s| s.borrow_mut().as_mut().map(|r| r.u32())) { Some(b) => b, None => draw(4, |f| f()) as u32 }
    }
    pub fn any_seed() -> u64 { draw(8, |f| f()) }

    pub fn draw_range(n: usize, lo: u64, hi: u64) -> u64 {
        // one primitive draw; random mode samples the range directly
        draw(n, |f| { let k = f(); let r = f(); let span = hi - lo;
            if span == u64::MAX { r } else if k % 16 == 0 { lo } else if k % 16 == 1 { hi } else { lo + r % (span + 1) } })
    }

    pub fn assume(c: bool) {
        if !c { std::panic::panic_any(AssumeFailed); }
    }
}

pub use imp::*;

#[cfg(kani)]
mod range {
    pub fn range_u8(lo: u8, hi: u8) -> u8 { let v: u8 = kani::any(); kani::assume(v >= lo && v <= hi); v }
    pub fn range_u16(lo: u16, hi: u16) -> u16 { let v: u16 = kani::any(); kani::assume(v >= lo && v <= hi); v }
    pub fn range_u32(lo: u32, hi: u32) -> u32 { let v: u32 = kani::any(); kani::assume(v >= lo && v <= hi); v }
    pub fn range_u64(lo: u64, hi: u64) -> u64 { let v: u64 = kani::any(); kani::assume(v >= lo && v <= hi); v }
    pub fn range_usize(lo: usize, hi: usize) -> usize { let v: usize = kani::any(); kani::assume(v >= lo && v <= hi); v }
}
#[cfg(not(kani))]
mod range {
    use super::imp::*;
    pub fn range_u8(lo: u8, hi: u8) -> u8 { let v = draw_range(1, lo as u64, hi as u64) as u8; assume(v >= lo && v <= hi); v }
    pub fn range_u16(lo: u16, hi: u16) -> u16 { let v = draw_range(2, lo as u64, hi as u64) as u16; assume(v >= lo && v <= hi); v }
    pub fn range_u32(lo: u32, hi: u32) -> u32 { let v = draw_range(4, lo as u64, hi as u64) as u32; assume(v >= lo && v <= hi); v }
    pub fn range_u64(lo: u64, hi: u64) -> u64 { let v = draw_range(8, lo, hi); assume(v >= lo && v <= hi); v }
    pub fn range_usize(lo: usize, hi: usize) -> usize { let v = draw_range(8, lo as u64, hi as u64) as usize; assume(v >= lo && v <= hi); v }
}
pub use range::*;

/// A proof obligation. `id` names it ("C01.receive.order: ...").
#[cfg(kani)]
#[macro_export]
macro_rules! check { ($c:expr, $id:literal) => { kani::assert($c, $id) }; }

#[cfg(not(kani))]
#[macro_export]
macro_rules! check { ($c:expr, $id:literal) => { $crate::native_check($c, $id) }; }

/// A reachability (non-vacuity) obligation.
#[cfg(kani)]
#[macro_export]
macro_rules! reach { ($c:expr, $id:literal) => { kani::cover!($c, $id) }; }

#[cfg(not(kani))]
#[macro_export]
macro_rules! reach { ($c:expr, $id:literal) => { $crate::native_reach($c, $id) }; }

#[cfg(not(kani))]
thread_local! { static FILTER: Option<String> = std::env::var("VPROP").ok().filter(|p| !p.is_empty()); static LOGGING: bool = std::env::var("VLOG").is_ok(); }

/// Whether an obligation belongs to the property being checked (its id starts with the properties it
/// carries, "C01/C05.what")
#[cfg(not(kani))]
fn selected(id: &str) -> bool {
    crate::alloc::uncounted(|| FILTER.with(|_| ()));
    FILTER.with(|f| match f { None => true, Some(p) => id.split('.').next().map_or(true, |h| h.split('/').any(|x| x == p.as_str())) })
}

#[cfg(not(kani))]
pub fn native_check(c: bool, id: &'static str) {
    if !selected(id) { return; }
    imp::ST.with(|st| st.borrow_mut().checks += 1);
    if !c {
        crate::alloc::uncounted(|| imp::ST.with(|st| st.borrow_mut().failed = Some(id.to_string())));
        panic!("obligation failed: {}", id);
    }
}

#[cfg(not(kani))]
pub fn native_reach(c: bool, id: &'static str) {
    crate::alloc::uncounted(|| imp::ST.with(|st| { let mut st = st.borrow_mut(); let e = st.covers.entry(id).or_insert(0); if c { *e += 1; } }));
}

/// Event log of a native run, kept only when a failing input is re-executed (VLOG=1).
#[cfg(not(kani))]
pub fn note(f: impl FnOnce() -> String) {
    if LOGGING.with(|l| *l) { crate::alloc::uncounted(|| imp::ST.with(|st| { let mut st = st.borrow_mut(); let cap = if std::env::var("VLOGN").is_ok() { 1_000_000 } else { 600 }; if st.note.len() >= cap { st.note.drain(..200); } let s = f(); st.note.push(s); })); }
}
#[cfg(kani)]
pub fn note(_f: impl FnOnce() -> String) {}
