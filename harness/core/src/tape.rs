//! Choice tape: every generator draws its choices from a `&[u32]` produced by
//! a proptest strategy (request level) or by proptest's seeded RNG (program
//! level). A value of 0 (also what an exhausted tape yields) always selects
//! the simplest alternative, so shrinking the tape shrinks the case.

use proptest::prelude::*;
use proptest::test_runner::{RngAlgorithm, TestRng};

pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// Uniform in `0..n` (0 if the tape is exhausted).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `pct`%; false is the simple choice.
    pub fn pct(&mut self, pct: u32) -> bool {
        let v = self.below(100) as u32;
        v >= 100 - pct.min(100)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights; index 0 is the simple choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total.max(1) as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // Fisher-Yates that is the identity on an all-zero tape
        for i in 0..xs.len() {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
}

pub fn strategy(max: usize) -> impl Strategy<Value = Vec<u32>> {
    proptest::collection::vec(any::<u32>(), max..=max)
}

pub fn seed_bytes(seed: u64, tag: &str, idx: u64) -> [u8; 32] {
    // FNV-1a based expansion; only needs to be a fixed function of its inputs.
    let mut out = [0u8; 32];
    for (k, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf29ce484222325 ^ (k as u64).wrapping_mul(0x9E3779B97F4A7C15);
        for b in seed
            .to_le_bytes()
            .iter()
            .chain(tag.as_bytes())
            .chain(idx.to_le_bytes().iter())
        {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 32;
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn rng(seed: u64, tag: &str, idx: u64) -> TestRng {
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, tag, idx))
}

/// Many draws from one, for cases too long for a tape.
pub fn expand(seed: u32, n: usize) -> Vec<u32> {
    let mut x = (seed as u64) << 32 | 0x9E3779B9;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((x ^ x >> 29) >> 24) as u32
        })
        .collect()
}

/// A tape of `n` draws for program-level generation.
pub fn fixed_tape(seed: u64, tag: &str, idx: u64, n: usize) -> Vec<u32> {
    let mut r = rng(seed, tag, idx);
    (0..n).map(|_| r.next_u32()).collect()
}

pub fn hash64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
