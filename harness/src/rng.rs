//! Deterministic PRNG (splitmix64). Every random choice of a case comes from (seed, property, case index).

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for x in b {
    h ^= *x as u64;
    h = h.wrapping_mul(0x100_0000_01b3);
  }
  mix(h)
}

impl Rng {
  pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x5151_7171_abcd_0123)) }
  pub fn for_case(seed: u64, prop: &str, idx: u64) -> Self {
    Rng::new(mix(seed) ^ hash_bytes(prop.as_bytes()) ^ mix(idx.wrapping_mul(0x1234_5677).wrapping_add(99)))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    mix(self.0)
  }
  /// uniform in 0..n (n > 0)
  pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
  /// uniform in lo..=hi
  pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
  pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() {
      let j = self.below(i + 1);
      v.swap(i, j);
    }
  }
}
