//! Deterministic PRNG (splitmix64 seeded xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0xA5A5_1234_5678_9ABC;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn sub(seed: u64, tag: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        Rng::new(a ^ tag.wrapping_mul(0xD6E8FEB86659FD93))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.0[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.0[1] << 17;
        self.0[2] ^= self.0[0];
        self.0[3] ^= self.0[1];
        self.0[1] ^= self.0[2];
        self.0[0] ^= self.0[3];
        self.0[2] ^= t;
        self.0[3] = self.0[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi - lo + 1) as u64) as i64)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    /// A 64-bit integer biased towards interesting values.
    pub fn int(&mut self) -> u64 {
        match self.below(10) {
            0 => self.below(4),
            1 => (self.below(8) as i64 - 4) as u64,
            2 => {
                let k = self.below(64);
                let v = 1u64 << k;
                v.wrapping_add(self.range(-2, 2) as u64)
            }
            3 => {
                let k = self.below(64);
                (1u64 << k).wrapping_neg().wrapping_add(self.range(-2, 2) as u64)
            }
            4 => self.next() as i8 as i64 as u64,
            5 => self.next() as i32 as i64 as u64,
            6 => self.next() as u32 as u64,
            _ => self.next(),
        }
    }
    /// 64 bits that are interesting as an f64.
    pub fn f64bits(&mut self) -> u64 {
        const SP: [u64; 16] = [
            0,
            0x8000_0000_0000_0000,
            0x3ff0_0000_0000_0000,
            0xbff0_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0x7ff0_0000_0000_0001,
            0xfff8_0000_0000_1234,
            0x0000_0000_0000_0001,
            0x000f_ffff_ffff_ffff,
            0x0010_0000_0000_0000,
            0x7fef_ffff_ffff_ffff,
            0x43e0_0000_0000_0000,
            0xc3e0_0000_0000_0000,
            0x3fe0_0000_0000_0000,
        ];
        match self.below(8) {
            0 => *self.pick(&SP),
            1 => self.next(),
            2 => (self.int() as i64 as f64).to_bits(),
            3 => ((self.int() as i64 as f64) / 2.0f64.powi(self.below(64) as i32)).to_bits(),
            4 => ((self.range(-2000, 2000) as f64) / 8.0).to_bits(),
            5 => ((self.next() as i64 as f64) * 1e-3).to_bits(),
            _ => {
                let e = self.range(-70, 70) as i32;
                let m = 1.0 + (self.next() >> 12) as f64 / (1u64 << 52) as f64;
                let v = m * 2.0f64.powi(e);
                if self.chance(1, 2) { -v } else { v }.to_bits()
            }
        }
    }
}
