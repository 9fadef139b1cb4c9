//! xoshiro256++ seeded by splitmix64: every random choice derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self { let mut x = seed; Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] } }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
    #[inline] pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    #[inline] pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    #[inline] pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64) }
    #[inline] pub fn uni(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }
    #[inline] pub fn chance(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// log-uniform magnitude in [lo, hi]
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 { (self.uni(lo.ln(), hi.ln())).exp() }
}
