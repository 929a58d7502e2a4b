/// SplitMix64-seeded xoshiro256**; independent of the generator under test.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    let mut s = h;
    mix(&mut s)
}

pub fn hash_words(w: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for x in w { h ^= *x; mix(&mut h); h = h.rotate_left(17).wrapping_mul(0x9E3779B97F4A7C15); }
    mix(&mut h)
}

impl Rng {
    pub fn new(words: &[u64]) -> Rng {
        let mut x = hash_words(words);
        Rng { s: [mix(&mut x), mix(&mut x), mix(&mut x), mix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn sf(&mut self) -> f64 { 2.0 * self.f() - 1.0 }
    pub fn gauss(&mut self) -> f64 {
        let u = self.f().max(1e-300);
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * self.f()).cos()
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())] }
    pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); }
    }
}
