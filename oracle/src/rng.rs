//! Deterministic randomness: every case is a function of (seed, case number).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ idx.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9ABC_DEF1);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// a..=b
    pub fn r(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    /// true with probability p percent
    pub fn p(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.n(v.len())]
    }
}
