/// xoshiro256** seeded by splitmix64. Every random choice of a case comes from one of these.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final mix, as the hashes are also used as set keys
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn for_case(seed: u64, prop: &str, case: u64) -> Self {
        let mut x = seed ^ fnv(prop.as_bytes());
        let a = splitmix(&mut x);
        let mut y = a ^ case.wrapping_mul(0xD1342543DE82EF95);
        Rng::new(splitmix(&mut y))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    /// true n times out of d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut n = self.below(t as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if n < *x {
                return i;
            }
            n -= x;
        }
        unreachable!()
    }
    /// A size that may matter to how something is stored: about a power of two or of ten, or any
    pub fn big(&mut self, max: usize) -> usize {
        let n = match self.below(5) {
            0..=2 => {
                let bits = (usize::BITS - max.leading_zeros()) as usize;
                let k = 4 + self.below(bits.saturating_sub(4).max(1));
                (1usize << k) + self.below(5) - 2
            }
            3 => {
                let mut n = 100;
                while n * 10 <= max && self.chance(1, 2) {
                    n *= 10;
                }
                n + self.below(3) - 1
            }
            _ => self.below(max + 1),
        };
        n.min(max)
    }
    /// below `usual`, now and then some more
    pub fn some(&mut self, usual: usize) -> usize {
        if self.chance(1, 32) {
            self.below(4 * usual + 8)
        } else {
            self.below(usual)
        }
    }
    /// below `usual`, now and then large
    pub fn many(&mut self, usual: usize, max: usize) -> usize {
        if self.chance(1, 400) {
            self.big(max)
        } else if self.chance(1, 16) {
            self.below((4 * usual + 8).min(max + 1))
        } else {
            self.below(usual)
        }
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
}
