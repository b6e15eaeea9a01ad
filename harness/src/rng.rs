//! Deterministic PRNG and the byte tape that structured generators draw their choices from.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h ^= u64::from(*c);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^= z >> 29;
    z = z.wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 32)
}

/// A sequence of choices. Reading past the end yields zero, and every generator treats choice zero
/// as its simplest alternative, so every tape describes a finite case and shorter tapes describe
/// simpler cases.
#[derive(Clone)]
pub struct Tape<'a> {
    b: &'a [u8],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Tape { b, pos: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        let r = self.b.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        r
    }
    pub fn done(&self) -> bool {
        self.pos >= self.b.len()
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 256 {
            self.byte() as usize % n
        } else {
            let hi = self.byte() as usize;
            let lo = self.byte() as usize;
            (hi << 8 | lo) % n
        }
    }
    /// True with probability num/den; false once the tape has run out.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        !self.done() && self.below(den) >= den - num
    }
    /// A number of things, mostly the given one, now and then one near a number in the code under test.
    pub fn many(&mut self, n: usize) -> usize {
        if self.chance(1, 96) {
            let v = &crate::dict::get().counts;
            (*self.pick(v)).max(n)
        } else {
            n
        }
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        let i = self.below(s.len());
        &s[i]
    }
    /// Weighted choice; index 0 once the tape has run out.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
    /// What has not been read yet.
    pub fn rest(&self) -> &'a [u8] {
        &self.b[self.pos.min(self.b.len())..]
    }
}
