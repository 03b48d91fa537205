//! A small deterministic PRNG (splitmix64), so that every case is a pure function of
//! (seed, shard, property, probe, index) and the harness needs no external crates for randomness.

use std::cell::Cell;

#[derive(Clone)]
pub struct Rng(Cell<u64>);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub fn hash_usizes(v: &[usize]) -> u64 {
    let mut h = mix(v.len() as u64);
    for x in v {
        h = mix(h ^ (*x as u64));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(Cell::new(mix(seed)))
    }
    pub fn u64(&self) -> u64 {
        let x = self.0.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        self.0.set(x);
        mix(x)
    }
    /// Uniform-ish in `0..n` (n > 0)
    pub fn below(&self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in `a..=b`
    pub fn range(&self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
