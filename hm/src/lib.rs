//! Shared pieces of the mathematics, hash and compute harnesses.
#[path = "../../hf/src/lib.rs"]
pub mod hf;
pub use hf::*;

pub type FOf<P> = <P as PackedField>::Scalar;

pub fn rand_scalar<F: Sc>(c: &mut Case) -> F {
	match c.below(12) {
		0 => F::ZERO,
		1 => F::ONE,
		2 => F::rnd(c),
		_ => F::f(c.u128() & F::RF.mask()),
	}
}
pub fn scalars<F: Sc>(c: &mut Case, n: usize) -> Vec<F> {
	(0..n).map(|_| rand_scalar(c)).collect()
}
/// pack into ceil(n / WIDTH) elements; the unused tail lanes get arbitrary values
pub fn pack<P: PackedField<Scalar: Sc>>(c: &mut Case, v: &[P::Scalar]) -> Vec<P> {
	let n = v.len().div_ceil(P::WIDTH).max(1);
	let garbage = c.flip();
	(0..n)
		.map(|k| {
			P::from_fn(|i| {
				v.get(k * P::WIDTH + i)
					.copied()
					.unwrap_or_else(|| if garbage { P::Scalar::f(0x5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a & P::Scalar::RF.mask()) } else { P::Scalar::ZERO })
			})
		})
		.collect()
}
/// pack with zero tail
pub fn pack0<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	let n = v.len().div_ceil(P::WIDTH).max(1);
	(0..n)
		.map(|k| P::from_fn(|i| v.get(k * P::WIDTH + i).copied().unwrap_or(P::Scalar::ZERO)))
		.collect()
}
pub fn unpack<P: PackedField>(p: &[P], n: usize) -> Vec<P::Scalar> {
	p.iter().flat_map(|x| (0..P::WIDTH).map(move |i| x.get(i))).take(n).collect()
}
pub fn unpack_all<P: PackedField>(p: &[P]) -> Vec<P::Scalar> {
	unpack(p, usize::MAX)
}
pub fn embed<F: Field, E: ExtensionField<F>>(v: &[F]) -> Vec<E> {
	v.iter().map(|x| E::from(*x)).collect()
}
/// eq(z, i) for all i, straight from the definition
pub fn eq_all<F: Field>(z: &[F]) -> Vec<F> {
	(0..1usize << z.len())
		.map(|i| {
			z.iter().enumerate().fold(F::ONE, |a, (j, r)| a * if i >> j & 1 == 1 { *r } else { F::ONE - *r })
		})
		.collect()
}
pub fn dot<F: Field>(a: &[F], b: &[F]) -> F {
	a.iter().zip(b).fold(F::ZERO, |s, (x, y)| s + *x * *y)
}
/// multilinear evaluation from the definition
pub fn mle_eval<F: Field>(v: &[F], z: &[F]) -> F {
	assert_eq!(v.len(), 1 << z.len());
	let mut v = v.to_vec();
	for r in z {
		v = v.chunks(2).map(|p| p[0] + (p[1] - p[0]) * *r).collect();
	}
	v[0]
}
/// substitute z for variables start..start+z.len()
pub fn mle_partial<F: Field>(v: &[F], z: &[F], start: usize) -> Vec<F> {
	let n = v.len().trailing_zeros() as usize;
	let k = z.len();
	let e = eq_all(z);
	(0..1usize << (n - k))
		.map(|i| {
			let lo = i & ((1 << start) - 1);
			let hi = i >> start;
			(0..1usize << k).fold(F::ZERO, |s, q| s + e[q] * v[lo | q << start | hi << (start + k)])
		})
		.collect()
}
pub fn es<E: std::fmt::Display>(e: E) -> String {
	e.to_string()
}

/// packed slice with random contents, for n scalars
pub fn rand_packed<P: PackedField<Scalar: Sc>>(c: &mut Case, n: usize) -> Vec<P> {
	let v = scalars::<P::Scalar>(c, n);
	pack(c, &v)
}

/// The tower of domains, straight from the definition: bases[o] is the basis of the o-th image of the
/// subspace under the normalized subspace polynomials.
pub struct Dom<F> {
	pub bases: Vec<Vec<F>>,
}
impl<F: Field> Dom<F> {
	pub fn new(basis: &[F]) -> Self {
		let mut bases = vec![basis.to_vec()];
		while bases.last().unwrap().len() > 1 {
			let b = bases.last().unwrap();
			// q(x) = x (x + b0) / (b1 (b1 + b0)): linear, kills b0, maps b1 to 1
			let inv = (b[1] * (b[1] + b[0])).invert().unwrap();
			let nb = b[1..].iter().map(|x| *x * (*x + b[0]) * inv).collect();
			bases.push(nb);
		}
		Self { bases }
	}
	pub fn dim(&self) -> usize {
		self.bases[0].len()
	}
	/// basis of the domain of dimension n
	pub fn basis(&self, n: usize) -> &[F] {
		if n == 0 { &[] } else { &self.bases[self.dim() - n] }
	}
	pub fn point(&self, n: usize, idx: usize) -> F {
		self.basis(n).iter().enumerate().filter(|(k, _)| idx >> k & 1 == 1).fold(F::ZERO, |s, (_, b)| s + *b)
	}
	/// values at x of the first `count` novel basis polynomials of the domain of dimension n
	pub fn novel(&self, n: usize, x: F, count: usize) -> Vec<F> {
		let mut w = x;
		let mut out = vec![F::ONE];
		let mut d = n;
		while out.len() < count {
			let m = out.len();
			for i in 0..m {
				let v = out[i] * w;
				out.push(v);
			}
			// next normalized subspace polynomial
			if d >= 2 {
				let b = self.basis(d);
				w = w * (w + b[0]) * (b[1] * (b[1] + b[0])).invert().unwrap();
				d -= 1;
			} else {
				break;
			}
		}
		out.truncate(count);
		out
	}
	pub fn eval<E: ExtensionField<F>>(&self, n: usize, coeffs: &[E], idx: usize) -> E {
		let x = self.point(n, idx);
		let b = self.novel(n, x, coeffs.len());
		coeffs.iter().zip(b).fold(E::ZERO, |s, (c, v)| s + *c * v)
	}
}
