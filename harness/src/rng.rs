pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
		for _ in 0..4 {
			r.next();
		}
		r
	}
	pub fn next(&mut self) -> u64 {
		// splitmix64
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			0
		} else {
			(self.next() % n as u64) as usize
		}
	}
	/// true in p of 100 cases
	pub fn pct(&mut self, p: usize) -> bool {
		self.below(100) < p
	}
	pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
		xs[self.below(xs.len())]
	}
}
