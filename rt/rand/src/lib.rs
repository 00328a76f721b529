//! Stand-in for the `rand` crate inside the scratch crate that is verified: every random draw of the
//! code under verification becomes an unconstrained symbolic (or recorded) value.
pub trait Draw { fn draw() -> Self; }
impl Draw for bool { fn draw() -> bool { vsup::rand_bool() } }
impl Draw for u8 { fn draw() -> u8 { vsup::rand_u32() as u8 } }
impl Draw for u16 { fn draw() -> u16 { vsup::rand_u32() as u16 } }
impl Draw for u32 { fn draw() -> u32 { vsup::rand_u32() } }
impl Draw for u64 { fn draw() -> u64 { (vsup::rand_u32() as u64) << 32 | vsup::rand_u32() as u64 } }
impl Draw for usize { fn draw() -> usize { u64::draw() as usize } }
pub fn random<T: Draw>() -> T { T::draw() }

pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub trait RngCore { fn next_u32(&mut self) -> u32; fn next_u64(&mut self) -> u64; }
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { u32::draw() }
    fn next_u64(&mut self) -> u64 { u64::draw() }
}
pub trait Rng: RngCore {
    fn gen<T: Draw>(&mut self) -> T { T::draw() }
    fn gen_bool(&mut self, _p: f64) -> bool { bool::draw() }
}
impl Rng for ThreadRng {}
pub mod rngs { pub use super::ThreadRng; }
pub mod prelude { pub use super::{random, thread_rng, Rng, RngCore, ThreadRng}; }
