//! Virtual clock with the part of `std::time` the code under verification uses.
pub use std::time::Duration;

#[cfg(kani)]
mod clk {
    static mut NOW_NS: u64 = 0;
    pub fn get() -> u64 { unsafe { NOW_NS } }
    pub fn set(v: u64) { unsafe { NOW_NS = v } }
}
#[cfg(not(kani))]
mod clk {
    use std::cell::Cell;
    thread_local! { static NOW_NS: Cell<u64> = Cell::new(0); }
    pub fn get() -> u64 { NOW_NS.with(|c| c.get()) }
    pub fn set(v: u64) { NOW_NS.with(|c| c.set(v)) }
}

pub fn set_ns(v: u64) { clk::set(v) }
pub fn set_ms(v: u64) { clk::set(v * 1_000_000) }
pub fn get_ns() -> u64 { clk::get() }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(u64);

impl Instant {
    pub fn now() -> Self { Instant(clk::get()) }
    pub fn elapsed(&self) -> Duration { Instant::now() - *self }
    pub fn duration_since(&self, o: Instant) -> Duration { *self - o }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0).map(Duration::from_nanos) }
    pub fn from_ns(ns: u64) -> Self { Instant(ns) }
    pub fn ns(&self) -> u64 { self.0 }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
}
impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant { Instant(self.0 - d.as_nanos() as u64) }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant { Instant(self.0 + d.as_nanos() as u64) }
}
