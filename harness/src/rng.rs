// ---------------------------------------------------------------- randomness

/// xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.u64() as u128 * span) >> 64) as i128) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    /// integer with roughly log-uniform magnitude in [1, max]
    pub fn log_uniform(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros();
        loop {
            let b = 1 + self.below(bits as u64) as u32;
            let v = (self.u64() >> (64 - b)) | (1 << (b - 1));
            if v <= max {
                return v;
            }
        }
    }
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h.rotate_left(23) ^ v.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    splitmix(&mut x)
}
pub const H0: u64 = 0xcbf2_9ce4_8422_2325;
