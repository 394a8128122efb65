//! Deterministic generator (SplitMix64 / xoshiro256**): every random choice of the
//! workloads comes from here, so (property, monitor, case seed) identifies a case.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3))
}

pub fn hash_f64s<'a>(it: impl IntoIterator<Item = &'a f64>) -> u64 {
    it.into_iter().fold(17, |h, v| mix(h ^ v.to_bits()))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(z);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    /// Uniform in [a, b]
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a) as u64 + 1)) as i64
    }
    pub fn usize(&mut self, a: usize, b: usize) -> usize {
        self.int(a as i64, b as i64) as usize
    }
    /// A count: mostly a..=b, now and then well past b
    pub fn size(&mut self, a: usize, b: usize) -> usize {
        if self.chance(0.06) {
            self.usize(b, 4 * b + 10)
        } else {
            self.usize(a, b)
        }
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// As `f`, now and then one of the ends, zero or a whole number
    pub fn fs(&mut self, a: f64, b: f64) -> f64 {
        let v = self.f(a, b);
        if !self.chance(0.06) {
            return v;
        }
        match self.below(4) {
            0 => a,
            1 => b,
            2 if a < 0.0 && b > 0.0 => 0.0,
            _ => v.round().clamp(a, b),
        }
    }
    /// Log-uniform in [a, b], a > 0
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.f(a.ln(), b.ln())).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
