//! Small deterministic generator (splitmix64 / xoshiro256**).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Rng { s }
    }
    pub fn derive(seed: u64, label: &str, index: u64) -> Self {
        let mut x = seed ^ hash_str(label).rotate_left(17) ^ index.wrapping_mul(0xD6E8FEB86659FD93);
        let a = splitmix(&mut x);
        Rng::new(a ^ index)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// A number in the range with few digits (so that texts round-trip and sums are exact often).
    pub fn nice(&mut self, lo: f64, hi: f64) -> f64 {
        match self.below(4) {
            0 => self.int(lo.ceil() as i64, hi.floor().max(lo.ceil()) as i64) as f64,
            1 => {
                let v = (self.range(lo, hi) * 4.0).round() / 4.0;
                v.clamp(lo, hi)
            }
            _ => {
                let v = (self.range(lo, hi) * 1000.0).round() / 1000.0;
                v.clamp(lo, hi)
            }
        }
    }
    /// As `nice`, with the ends of the range and round values in it now and then.
    pub fn within(&mut self, lo: f64, hi: f64) -> f64 {
        if self.chance(0.05) {
            let v = *self.pick(&[lo, hi, 0.0, 1.0, 50.0, 100.0, -1.0, 90.0, 180.0]);
            if lo <= v && v <= hi {
                return v;
            }
        }
        self.nice(lo, hi)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
