//! splitmix64 based generator; every random choice of the harness derives from VERIF_SEED.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ mix(b.wrapping_add(0x1234_5678_9ABC_DEF1)))
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3)
    })
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_5A5A_0F0F_F0F0))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// mostly small, sometimes large: 0..=max
    pub fn skewed(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => self.below(max.min(3) + 1),
            1 => self.below(max.min(12) + 1),
            2 => self.below(max.min(64) + 1),
            _ => self.below(max + 1),
        }
    }
    /// an index out of bounds of a sequence of length n: close, far, or such that adding an offset to it wraps
    pub fn beyond(&mut self, n: usize) -> usize {
        match self.below(5) {
            0 => n,
            1 => n + self.below(100),
            2 => usize::MAX / 2 + self.below(9),
            _ => usize::MAX - self.below(n + 40),
        }
    }
    pub fn fork(&mut self, k: u64) -> Rng {
        Rng::new(hash2(self.next(), k))
    }
}
