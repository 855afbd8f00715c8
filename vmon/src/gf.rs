//! Reference arithmetic, written from the definitions and independent of the code under test.
//!
//! * canonical tower: T_0 = GF(2), T_{k+1} = T_k[X_k] / (X_k^2 + X_k X_{k-1} + 1), X_{-1} = 1;
//!   an element of T_k is 2^k bits, low half first.
//! * AES tower: GF(2)[x]/(x^8+x^4+x^3+x+1), then the same quadratic steps, with 0xd3 in the role of X_2.
//! * POLYVAL: GF(2)[x]/(x^128+x^127+x^126+x^121+1), elements stored times x^128 (Montgomery form).
use std::sync::LazyLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rf {
	/// canonical tower, level
	T(usize),
	/// AES tower, level (>= 3)
	A(usize),
	/// POLYVAL in Montgomery form
	P,
}

fn tower_def(level: usize, a: u128, b: u128) -> u128 {
	if level == 0 {
		return a & b & 1;
	}
	let h = 1usize << (level - 1);
	let mask = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & mask, a >> h, b & mask, b >> h);
	let ll = tower_def(level - 1, a0, b0);
	let hh = tower_def(level - 1, a1, b1);
	let cross = tower_def(level - 1, a0, b1) ^ tower_def(level - 1, a1, b0);
	let alpha = if level == 1 { 1 } else { 1u128 << (h / 2) };
	(ll ^ hh) | ((cross ^ tower_def(level - 1, hh, alpha)) << h)
}

fn aes_def(a: u8, b: u8) -> u8 {
	let mut r = 0u16;
	for i in 0..8 {
		if b >> i & 1 == 1 {
			r ^= (a as u16) << i;
		}
	}
	for i in (8..16).rev() {
		if r >> i & 1 == 1 {
			r ^= 0x11b << (i - 8);
		}
	}
	r as u8
}

static T8: LazyLock<Vec<u8>> = LazyLock::new(|| {
	(0..65536u32)
		.map(|i| tower_def(3, (i & 255) as u128, (i >> 8) as u128) as u8)
		.collect()
});
static A8: LazyLock<Vec<u8>> =
	LazyLock::new(|| (0..65536u32).map(|i| aes_def(i as u8, (i >> 8) as u8)).collect());

fn quad(tab: &[u8], alpha8: u128, level: usize, a: u128, b: u128) -> u128 {
	if a == 0 || b == 0 {
		return 0;
	}
	if level == 3 {
		return tab[(a as usize & 255) | (b as usize & 255) << 8] as u128;
	}
	let h = 1usize << (level - 1);
	let mask = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & mask, a >> h, b & mask, b >> h);
	let ll = quad(tab, alpha8, level - 1, a0, b0);
	let hh = quad(tab, alpha8, level - 1, a1, b1);
	let cross = quad(tab, alpha8, level - 1, a0 ^ a1, b0 ^ b1) ^ ll ^ hh;
	let alpha = if level == 4 { alpha8 } else { 1u128 << (h / 2) };
	(ll ^ hh) | ((cross ^ quad(tab, alpha8, level - 1, hh, alpha)) << h)
}

/// a * b mod x^128 + x^127 + x^126 + x^121 + 1
fn poly_mul_plain(a: u128, b: u128) -> u128 {
	// shift-and-add: process b from the top
	let mut r = 0u128;
	for i in (0..128).rev() {
		let top = r >> 127 & 1;
		r <<= 1;
		if top == 1 {
			r ^= (1 << 127) | (1 << 126) | (1 << 121) | 1;
		}
		if b >> i & 1 == 1 {
			r ^= a;
		}
	}
	r
}

/// divide by x^128
fn poly_div_x128(mut a: u128) -> u128 {
	for _ in 0..128 {
		// if the constant term is set add the modulus, then shift right
		if a & 1 == 1 {
			a ^= (1 << 127) | (1 << 126) | (1 << 121) | 1;
			a >>= 1;
			a |= 1 << 127;
		} else {
			a >>= 1;
		}
	}
	a
}

impl Rf {
	pub fn bits(self) -> usize {
		match self {
			Rf::T(l) | Rf::A(l) => 1 << l,
			Rf::P => 128,
		}
	}
	pub fn mask(self) -> u128 {
		if self.bits() == 128 { u128::MAX } else { (1 << self.bits()) - 1 }
	}
	pub fn one(self) -> u128 {
		match self {
			Rf::P => 0xc2000000000000000000000000000001,
			_ => 1,
		}
	}
	pub fn mul(self, a: u128, b: u128) -> u128 {
		match self {
			Rf::T(l) if l < 3 => tower_def(l, a, b),
			Rf::T(l) => quad(&T8, 0x10, l, a, b),
			Rf::A(l) => quad(&A8, 0xd3, l, a, b),
			Rf::P => poly_div_x128(poly_mul_plain(a, b)),
		}
	}
	pub fn sq(self, a: u128) -> u128 {
		self.mul(a, a)
	}
	/// a^(2^n - 2): the inverse, and 0 for 0
	pub fn inv(self, a: u128) -> u128 {
		let n = self.bits();
		if n == 1 {
			return a;
		}
		// a^(2^n-2) = prod_{i=1}^{n-1} a^(2^i)
		let mut t = a;
		let mut r = self.one();
		for _ in 1..n {
			t = self.sq(t);
			r = self.mul(r, t);
		}
		r
	}
	/// little-endian limbs
	pub fn pow(self, a: u128, e: &[u64]) -> u128 {
		let mut r = self.one();
		for &l in e.iter().rev() {
			for i in (0..64).rev() {
				r = self.sq(r);
				if l >> i & 1 == 1 {
					r = self.mul(r, a);
				}
			}
		}
		r
	}
	pub fn pow128(self, a: u128, e: u128) -> u128 {
		self.pow(a, &[e as u64, (e >> 64) as u64])
	}
}

/// Prime factors of 2^n - 1 for n a power of two up to 128 (products of Fermat numbers).
pub fn prime_factors(n: usize) -> Vec<u128> {
	let mut f: Vec<u128> = vec![];
	let mut k = 1;
	while k < n {
		match k {
			1 => f.push(3),
			2 => f.push(5),
			4 => f.push(17),
			8 => f.push(257),
			16 => f.push(65537),
			32 => f.extend([641, 6700417]),
			64 => f.extend([274177, 67280421310721]),
			_ => unreachable!(),
		}
		k *= 2;
	}
	f
}

impl Rf {
	/// a^(2^k)
	pub fn pow2k(self, mut a: u128, k: usize) -> u128 {
		for _ in 0..k {
			a = self.sq(a);
		}
		a
	}
}
