//! Stand-in for `ahash` used only by the simulation harness (through `[patch.crates-io]`).
//!
//! The real crate draws a random seed per process. Here the simulator owns that decision: the hash function is
//! chosen by a mode and a seed, so that a run is repeatable and collisions can be injected on purpose.
use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct HashCfg {
    /// 0 spread, 1 complete collision, 2 few values, 3 only the top 7 bits differ, 4 the top 7 bits never differ,
    /// 5 identity, 6 a few low values, 7 values with something special about them
    pub mode: u8,
    pub param: u32,
    pub seed: u64,
}

impl HashCfg {
    pub const SPREAD: HashCfg = HashCfg { mode: 0, param: 0, seed: 0x5eed };
}

thread_local! {
    static DEFAULT: Cell<HashCfg> = const { Cell::new(HashCfg::SPREAD) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// Decides what `RandomState::default()` gives on this thread from now on.
pub fn set_default(cfg: HashCfg) {
    DEFAULT.with(|d| d.set(cfg));
    MADE.with(|m| m.set(0));
}

#[inline]
fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

#[derive(Clone, Debug)]
pub struct RandomState {
    cfg: HashCfg,
}

impl RandomState {
    pub fn new() -> Self {
        // As with the real crate, every instance has its own seed
        let n = MADE.with(|m| {
            let n = m.get() + 1;
            m.set(n);
            n
        });
        let mut cfg = DEFAULT.with(|d| d.get());
        cfg.seed = mix(cfg.seed ^ n.wrapping_mul(0x9e3779b97f4a7c15));
        RandomState { cfg }
    }
    pub fn with_cfg(cfg: HashCfg) -> Self {
        RandomState { cfg }
    }
    pub fn cfg(&self) -> HashCfg {
        self.cfg
    }
}

impl Default for RandomState {
    fn default() -> Self {
        Self::new()
    }
}

impl BuildHasher for RandomState {
    type Hasher = AHasher;
    #[inline]
    fn build_hasher(&self) -> AHasher {
        AHasher { acc: 0, cfg: self.cfg }
    }
}

#[derive(Clone, Debug)]
pub struct AHasher {
    acc: u64,
    cfg: HashCfg,
}

impl Default for AHasher {
    fn default() -> Self {
        AHasher { acc: 0, cfg: HashCfg::SPREAD }
    }
}

const TOP7: u64 = 0xfe00_0000_0000_0000;

impl Hasher for AHasher {
    #[inline]
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.acc = self.acc.rotate_left(23).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ v;
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        let HashCfg { mode, param, seed } = self.cfg;
        let p = param.max(1) as u64;
        match mode {
            1 => mix(seed),
            2 => mix(seed ^ (self.acc % p)),
            3 => (mix(seed) & !TOP7) | (mix(self.acc ^ seed) & TOP7),
            4 => (mix(self.acc ^ seed) & !TOP7) | (mix(seed) & TOP7),
            5 => self.acc,
            6 => self.acc % p,
            7 => {
                let x = mix(self.acc ^ seed);
                match x & 15 {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1,
                    3 => 1 << 63,
                    4 => u64::MAX >> 1,
                    5 => u32::MAX as u64,
                    6 => 1 << 32,
                    7 => u64::MAX << 32,
                    8 => u64::MAX - 1,
                    9 => x >> 32,
                    10 => x << 32,
                    11 => x >> 57 << 57,
                    _ => x,
                }
            }
            _ => mix(self.acc ^ seed),
        }
    }
}
