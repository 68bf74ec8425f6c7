//! Small deterministic RNG (splitmix64 / xorshift); every random choice of every check comes from
//! here, seeded from VERIF_SEED, the property and the case number.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64, case: u64) -> Rng {
        let mut r = Rng(seed
            .wrapping_mul(0x9E3779B97F4A7C15)
            .wrapping_add(stream.wrapping_mul(0xD1B54A32D192ED03))
            .wrapping_add(case.wrapping_mul(0x8CB92BA72F3D8DD7))
            ^ 0x5851F42D4C957F2D);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn u32(&mut self) -> u32 {
        self.next() as u32
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// index chosen by weights
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let t: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut x = self.below(t);
        for (i, w) in ws.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        ws.len() - 1
    }
}
