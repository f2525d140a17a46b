//! A small deterministic generator (splitmix64); every random choice derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.next() % 100 < pct as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Integers with many zeros, ones and boundaries.
    pub fn u128ish(&mut self) -> u128 {
        let full = ((self.next() as u128) << 64) | self.next() as u128;
        let sh = self.below(129) as u32;
        let base = match self.below(6) {
            0 => full.checked_shr(sh).unwrap_or(0),
            1 => 1u128.checked_shl(sh).unwrap_or(0),
            2 => 1u128.checked_shl(sh).unwrap_or(0).wrapping_sub(1),
            3 => 1u128.checked_shl(sh).unwrap_or(0).wrapping_neg(),
            4 => self.below(300) as u128,
            _ => full,
        };
        match self.below(4) {
            0 => base.wrapping_add(self.below(3) as u128),
            1 => base.wrapping_sub(self.below(3) as u128),
            _ => base,
        }
    }
}
