//! The only source of randomness in the simulator: a splitmix64-seeded xoshiro256**.
//! Every choice of a run is drawn from one instance created from the run seed.

#[derive(Clone, Debug)]
pub struct Rng {
	s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

/// Mix several integers into one (used to derive run seeds and per-operation noise)
pub fn mix(parts: &[u64]) -> u64 {
	let mut acc = 0x243F_6A88_85A3_08D3u64;
	for p in parts {
		acc ^= *p;
		acc = splitmix(&mut acc);
	}
	acc
}

pub fn hash_bytes(b: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
	let mut chunks = b.chunks_exact(8);
	for c in &mut chunks {
		h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		h ^= h >> 29;
	}
	for c in chunks.remainder() {
		h = (h ^ u64::from(*c)).wrapping_mul(0x0000_0100_0000_01B3);
	}
	h ^ (h >> 32)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut x = seed;
		Self {
			s: [
				splitmix(&mut x),
				splitmix(&mut x),
				splitmix(&mut x),
				splitmix(&mut x),
			],
		}
	}

	pub fn u64(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}

	/// Uniform in `0..n` (`n == 0` gives 0)
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			return 0;
		}
		(u128::from(self.u64()) * u128::from(n) >> 64) as u64
	}

	pub fn usize(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}

	/// Uniform in `lo..=hi`
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}

	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}

	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.usize(v.len())]
	}

	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = Vec::with_capacity(n + 8);
		while v.len() < n {
			v.extend_from_slice(&self.u64().to_le_bytes());
		}
		v.truncate(n);
		v
	}

	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.usize(i + 1);
			v.swap(i, j);
		}
	}

	/// A size with a heavy bias to small values and to the neighbourhood of `edges`
	pub fn size(&mut self, max: u64, edges: &[u64]) -> u64 {
		match self.below(4) {
			0 if !edges.is_empty() => {
				let e = *self.pick(edges);
				let d = self.below(5) as i64 - 2;
				(e as i64 + d).clamp(0, max as i64) as u64
			},
			1 => self.below(8.min(max + 1)),
			2 => self.below(64.min(max + 1)),
			_ => self.below(max + 1),
		}
	}
}
