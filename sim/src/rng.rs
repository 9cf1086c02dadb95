//! The only source of randomness: xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(z: u64) -> u64 {
    let z = z.wrapping_add(0x9E3779B97F4A7C15);
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Order-dependent 64-bit hash accumulator.
pub fn fold(h: u64, v: u64) -> u64 {
    mix(h.rotate_left(5) ^ v)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut a = [0; 4];
        for x in a.iter_mut() {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            *x = mix(s);
        }
        Rng(a)
    }
    pub fn u(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in `0..k`.
    pub fn n(&mut self, k: u64) -> u64 {
        ((self.u() as u128 * k as u128) >> 64) as u64
    }
    pub fn i(&mut self, k: i64) -> i64 {
        self.n(k as u64) as i64
    }
    pub fn z(&mut self, k: usize) -> usize {
        self.n(k as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.n((hi - lo + 1) as u64) as i64
    }
    /// True once in `k`.
    pub fn one_in(&mut self, k: u64) -> bool {
        self.n(k) == 0
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.z(v.len())].clone()
    }
    /// Log-uniform in `1..=hi`.
    pub fn logn(&mut self, hi: u64) -> u64 {
        let bits = 64 - hi.leading_zeros() as u64;
        let b = self.n(bits) + 1;
        1 + self.n(1u64.checked_shl(b as u32).unwrap_or(u64::MAX).min(hi))
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.z(i + 1));
        }
    }
}
