//! The single source of choices of a simulated run.
//!
//! Every decision (which actor acts, delays, faults, generated values) is one draw from `Src`.
//! When generating, draws come from a PRNG seeded by the run's seed and are recorded on a tape;
//! when replaying, they come from a tape. 0 is always the simplest choice (no fault, first
//! option, smallest value), so a tape that is too short is padded with zeroes.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93).rotate_left(23));
    r.next() ^ r.next().rotate_left(7)
}

enum Mode {
    Gen(Rng),
    Tape(Vec<u64>, usize),
}

pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn generate(seed: u64) -> Self {
        Src { mode: Mode::Gen(Rng::new(seed)), tape: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { mode: Mode::Tape(tape, 0), tape: Vec::new() }
    }
    /// Uniform in 0..n (n = 0 means the whole u64 range).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Gen(r) => {
                let v = r.next();
                if n == 0 {
                    v
                } else {
                    (((v as u128) * (n as u128)) >> 64) as u64
                }
            }
            Mode::Tape(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n == 0 {
                    v
                } else if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        match (hi - lo).checked_add(1) {
            Some(n) => lo + self.below(n),
            None => self.below(0),
        }
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n.max(1) as u64) as usize
    }
    /// True with probability num/den; draw 0 is "false".
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        if n > 64 {
            // one draw decides a long string; draw 0 is all zeros
            let s = self.u64();
            if s == 0 {
                return vec![0; n];
            }
            let mut r = Rng::new(s);
            while out.len() < n {
                out.extend_from_slice(&r.next().to_le_bytes());
            }
        }
        while out.len() < n {
            out.extend_from_slice(&self.u64().to_le_bytes());
        }
        out.truncate(n);
        out
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        a.copy_from_slice(&self.bytes(N));
        a
    }
    /// A magnitude spread over many orders: 0..=max, biased to small values and to the edges.
    pub fn magnitude(&mut self, max: u128) -> u128 {
        match self.below(16) {
            0 => 0,
            1 => max,
            2 => max.saturating_sub(self.below(4) as u128),
            3 => (self.below(4) as u128).min(max),
            _ => {
                let bits = 128 - max.leading_zeros();
                let b = self.below(bits as u64 + 1) as u32;
                let m: u128 = if b == 0 { 0 } else { u128::MAX >> (128 - b) };
                let v = (((self.u64() as u128) << 64) | self.u64() as u128) & m;
                v.min(max)
            }
        }
    }
    /// Uniform u128 in 0..=max.
    pub fn upto(&mut self, max: u128) -> u128 {
        if max == u128::MAX {
            return ((self.u64() as u128) << 64) | self.u64() as u128;
        }
        let n = max + 1;
        if n <= u64::MAX as u128 {
            self.below(n as u64) as u128
        } else {
            (((self.u64() as u128) << 64) | self.u64() as u128) % n
        }
    }
}
