//! One integer decides everything.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x6A09_E667_F3BC_C909);
        r.next();
        r.next();
        r
    }
    /// A generator for the item `key` of the stream `s`, independent of every other item.
    pub fn keyed(s: u64, name: &str, key: u64) -> Rng {
        let mut h = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ key.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/100
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// small numbers more often than large ones
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let a = (lo.max(1) as f64).ln();
        let b = (hi.max(lo).max(1) as f64).ln();
        let f = self.below(1 << 24) as f64 / (1u64 << 24) as f64;
        ((a + (b - a) * f).exp().round() as u64).clamp(lo, hi)
    }
}
