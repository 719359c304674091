//! Deterministic PRNG (splitmix64); every random choice of the harness comes from VERIF_SEED through it.
#[derive(Clone)]
pub struct Rng {
    s: u64,
    /// Size of one big leaf still to be made in this case, 0 for none.
    pub big: usize,
    /// A deep tree is about: walks go all the way down.
    pub dive: bool,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x632be59bd9b4e019);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        Rng { s: parts.iter().fold(0x1234_5678_9abc_def0, |a, &b| mix(a, b)), big: 0, dive: false }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// The size of the big leaf, if it is to be made here.
    pub fn take_big(&mut self) -> Option<usize> {
        if self.big == 0 || self.chance(1, 3) {
            return None;
        }
        Some(std::mem::take(&mut self.big))
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}
