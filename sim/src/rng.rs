//! The only source of randomness: one 64 bit seed decides everything.

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a
        .rotate_left(23)
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b ^ 0xD6E8_FEB8_6659_FD93);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix_str(a: u64, s: &str) -> u64 {
    s.bytes().fold(mix(a, s.len() as u64), |a, b| mix(a, b as u64))
}

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed, 0x5EED))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0, 1)
    }

    /// A number in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.next() % n as u64) as usize
    }

    /// A number in `a..=b`
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// `true` in `num` of `den` cases
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    /// Chooses an index by weight
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        assert!(total > 0, "no choice");
        let mut n = (self.next() % total as u64) as u32;
        for (i, &w) in weights.iter().enumerate() {
            if n < w {
                return i;
            }
            n -= w;
        }
        unreachable!()
    }
}
