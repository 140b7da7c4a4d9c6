/// splitmix64: the only source of randomness, so that (seed, history index) replays exactly.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn for_history(seed: u64, stream: u64, i: u64) -> Self {
        let mut r = Rng::new(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ stream.rotate_left(32) ^ i.wrapping_mul(0xA24B_AED4_963E_E407));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize { lo + self.below(hi_incl - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()); }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    /// lengths biased towards the places where storage strategies meet
    pub fn len(&mut self) -> usize {
        if self.big() { return self.big_len() }
        match self.below(10) {
            0 => 0,
            1 => self.range(1, 8),
            2 | 3 => self.range(28, 36),
            4 => self.range(36, 44),
            5 => self.range(60, 72),
            6 | 7 => self.range(8, 64),
            8 => self.range(64, 200),
            _ => self.range(0, 130),
        }
    }
    /// is this one of the few large objects (none under the interpreter, which would take minutes)
    pub fn big(&mut self) -> bool { !cfg!(miri) && self.chance(1, 64) }
    /// sizes around the widths in which a length could be cut off
    pub fn big_len(&mut self) -> usize {
        match self.below(16) {
            0..=5 => self.range(250, 262),
            6..=10 => self.range(200, 1100),
            11 | 12 => self.range(1000, 5000),
            13 => self.range(4090, 9000),
            14 => self.range(16_000, 40_000),
            _ => self.range(65_500, 140_000),
        }
    }
    pub fn string(&mut self, n: usize) -> String {
        (0..n)
            .map(|_| match self.below(12) {
                0 => 'é', 1 => '€', 2 => '🦀', 3 => '\u{7f}', 4 => '"', 5 => '\\', 6 => '\u{1}',
                _ => (b'a' + self.below(26) as u8) as char,
            })
            .collect()
    }
}
