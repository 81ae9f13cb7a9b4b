//! The only source of choice in the simulator: splitmix64 seeded from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}
/// FNV-style order dependent hash accumulation
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
	for x in b {
		h = (h ^ *x as u64).wrapping_mul(0x100_0000_01B3);
	}
	mix(h)
}
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(mix(seed ^ 0xD1B5_4A32_D192_ED03))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// uniform in 0..n (n > 0)
	pub fn below(&mut self, n: usize) -> usize {
		if n <= 1 {
			return 0;
		}
		(self.next() % n as u64) as usize
	}
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	/// true with probability num/den
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
}
