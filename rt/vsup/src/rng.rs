//! Generator used by the simulation harnesses: a whole run is a function of one 64-bit seed.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 16) as u32 }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { if hi <= lo { return lo; } lo + self.u64() % (hi - lo + 1) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn chance(&mut self, permille: u64) -> bool { self.u64() % 1000 < permille }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())] }
    pub fn pick_ref<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    /// Roughly log-uniform in lo..=hi
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let a = (lo.max(1) as f64).ln(); let b = (hi.max(1) as f64).ln();
        let f = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        ((a + (b - a) * f).exp() as u64).clamp(lo, hi)
    }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    /// Any 32-bit value, biased to edges
    pub fn edge32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.u32(),
            1 => self.u32() & 0xFF,
            2 => (1u32 << self.below(32)).wrapping_add(self.below(5) as u32).wrapping_sub(2),
            3 => u32::MAX - (self.u32() & 0xFF),
            4 => [0, 1, u32::MAX, 0x80000000, 0x7FFFFFFF, 0xFFFFF, 0x100000][self.below(7)],
            _ => self.u32() & 0xFFFFF,
        }
    }
}
