//! Verification runtime: the nondeterministic value source, obligations, the virtual clock, the
//! virtual network socket, and a small map, shared by every contract harness.
//!
//! Under Kani every `any_*` is an unconstrained symbolic value and `check` is a proof obligation.
//! Natively the same harness is executed on values that come either from a Kani counterexample
//! (replay) or from a seeded generator (bounded stand-in / search for a failing input).

pub mod nd;
pub mod time;
pub mod net;
pub mod map;
#[cfg(not(kani))]
pub mod alloc;
#[cfg(not(kani))]
pub mod rng;
#[cfg(not(kani))]
pub use rng::Rng;
pub use nd::*;
pub use map::HashMap;
#[cfg(not(kani))]
pub mod runner;

/// Registers a contract harness: the function itself, and (under Kani) a proof harness for it.
#[macro_export]
macro_rules! proof {
    ($k:ident, $f:path, $unwind:literal) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($unwind)]
        fn $k() { $f() }
    };
}

#[cfg(not(kani))]
pub fn count(id: &'static str, n: u64) { alloc::uncounted(|| nd::ST.with(|st| { *st.borrow_mut().counts.entry(id).or_insert(0) += n; })); }
#[cfg(kani)]
pub fn count(_id: &'static str, _n: u64) {}
#[cfg(not(kani))]
pub fn count_max(id: &'static str, n: u64) { alloc::uncounted(|| nd::ST.with(|st| { let mut st = st.borrow_mut(); let e = st.counts.entry(id).or_insert(0); if n > *e { *e = n; } })); }
