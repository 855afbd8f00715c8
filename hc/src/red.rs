//! Monitors for reductions: what a verifier may answer on honest and on altered runs.
use binius_core::{fiat_shamir::HasherChallenger, witness::MultilinearWitness};
use binius_field::*;
use binius_hash::groestl::Groestl256;
use binius_math::{ArithCircuit, MultilinearExtension};

use crate::hm::*;

pub type Fs = HasherChallenger<Groestl256>;

/// What the verifier side of a reduction said.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
	/// refused the proof
	Reject(String),
	/// accepted, and every claim it hands on is true
	True,
	/// accepted, and at least one claim it hands on is false
	False(String),
}
use Verdict::*;

/// The verifier must not end with only true claims when the statement is false or the tape altered.
pub fn sound(v: &Verdict, what: impl FnOnce() -> String) -> Res {
	match v {
		True => Err(format!("{}: the verifier accepted and every reduced claim is true", what())),
		_ => Ok(()),
	}
}
pub fn complete(v: &Verdict, what: impl FnOnce() -> String) -> Res {
	match v {
		True => Ok(()),
		Reject(e) => Err(format!("{}: honest proof rejected: {e}", what())),
		False(e) => Err(format!("{}: honest proof gives a false reduced claim: {e}", what())),
	}
}
/// Replay `tape` with single alterations. `verify` runs the verifier on fixed coins.
/// `width` is the message granularity: an alteration replaces or perturbs one unit.
pub fn tamper(c: &mut Case, tape: &[u8], width: usize, tries: usize, verify: &mut dyn FnMut(&[u8]) -> Verdict) -> Res {
	if tape.is_empty() {
		return Ok(());
	}
	let units = tape.len() / width;
	let all = units <= tries;
	for k in 0..tries.min(units.max(1)) {
		let u = if all { k } else { c.below(units) };
		let mut t = tape.to_vec();
		let how = if width == 16 && units > 1 { c.below(7) } else { c.below(4) };
		let mut second = 0;
		match how {
			0 => {
				let i = u * width + c.below(width);
				t[i] ^= 1 << c.below(8);
			}
			1 => {
				let b = c.bytes(width);
				t[u * width..(u + 1) * width].copy_from_slice(&b);
			}
			2 => t[u * width..(u + 1) * width].fill(0),
			// two alterations that cancel in a sum or in a product: neighbours more often than not
			4 | 5 | 6 => {
				let get = |k: usize| BinaryField128b::f(u128::from_le_bytes(tape[k * 16..k * 16 + 16].try_into().unwrap()));
				second = if c.flip() { (u + 1) % units } else { c.below(units) };
				if second == u {
					continue;
				}
				let r = BinaryField128b::f(c.u128() | 2);
				let (a, b) = (get(u), get(second));
				let (a, b) = match how {
					4 => (a + r, b + r),
					5 => (a * r, b * r.invert_or_zero()),
					_ => (a * r, b * r),
				};
				t[u * 16..u * 16 + 16].copy_from_slice(&a.u().to_le_bytes());
				t[second * 16..second * 16 + 16].copy_from_slice(&b.u().to_le_bytes());
			}
			_ => {
				let w = c.below(units);
				let (a, b) = (t[u * width..(u + 1) * width].to_vec(), t[w * width..(w + 1) * width].to_vec());
				t[u * width..(u + 1) * width].copy_from_slice(&b);
				t[w * width..(w + 1) * width].copy_from_slice(&a);
			}
		}
		if t == tape {
			continue;
		}
		c.count("altered messages", 1);
		let v = verify(&t);
		match &v {
			Reject(_) => c.count("altered: rejected", 1),
			False(_) => c.count("altered: false claim", 1),
			True => {}
		}
		sound(&v, || format!("proof message {u} of {units} altered (kind {how}, with {second})"))?;
	}
	let k = c.below(tape.len());
	match verify(&tape[..k]) {
		Reject(_) => {}
		v => return Err(format!("tape cut to {k} of {} bytes: {v:?}", tape.len())),
	}
	let mut t = tape.to_vec();
	t.extend(c.bytes(width));
	match verify(&t) {
		Reject(_) => {}
		v => return Err(format!("tape with trailing bytes: {v:?}")),
	}
	Ok(())
}

/// A column of a witness: its values in the large field, and the library's object in some small field.
#[derive(Clone)]
pub struct Col<P: PackedField> {
	pub vals: Vec<P::Scalar>,
	pub wit: MultilinearWitness<'static, P>,
	pub level: usize,
}
pub fn col_of<FW, P>(n_vars: usize, v: &[FW]) -> Col<P>
where
	FW: TowerField,
	P: PackedExtension<FW, Scalar: ExtensionField<FW> + TowerField> + 'static,
{
	assert_eq!(v.len(), 1 << n_vars);
	let p = pack0::<PackedSubfield<P, FW>>(v);
	let m = MultilinearExtension::new(n_vars, p).unwrap();
	Col { vals: embed(v), wit: m.specialize_arc_dyn::<P>(), level: FW::TOWER_LEVEL }
}

/// A polynomial as a list of monomials: coefficient and (variable, power) factors.
#[derive(Clone, Debug)]
pub struct Poly<F>(pub Vec<(F, Vec<(usize, u64)>)>);
impl<F: TowerField> Poly<F> {
	pub fn eval<E: ExtensionField<F>>(&self, x: &[E]) -> E {
		self.0.iter().fold(E::ZERO, |s, (k, m)| {
			s + m.iter().fold(E::from(*k), |a, (v, e)| (0..*e).fold(a, |a, _| a * x[*v]))
		})
	}
	pub fn circuit<E: TowerField + ExtensionField<F>>(&self) -> ArithCircuit<E> {
		let mut s: Option<ArithCircuit<E>> = None;
		for (k, m) in &self.0 {
			let mut t = if *k == F::ONE && !m.is_empty() { None } else { Some(ArithCircuit::constant(E::from(*k))) };
			for (v, e) in m {
				let f = if *e == 1 { ArithCircuit::var(*v) } else { ArithCircuit::var(*v).pow(*e) };
				t = Some(match t {
					None => f,
					Some(t) => t * f,
				});
			}
			let t = t.unwrap();
			s = Some(match s {
				None => t,
				Some(s) => s + t,
			});
		}
		s.unwrap_or_else(|| ArithCircuit::constant(E::ZERO))
	}
	pub fn degree(&self) -> usize {
		self.0.iter().map(|(_, m)| m.iter().map(|(_, e)| *e as usize).sum()).max().unwrap_or(0)
	}
	/// random polynomial of degree 1..=max_deg with coefficients in F
	pub fn random(c: &mut Case, n_vars: usize, max_deg: usize) -> Self
	where
		F: Sc,
	{
		let n = c.range(1, 3);
		let mut p: Poly<F> = Poly(
			(0..n)
				.map(|_| {
					let k = match c.below(3) {
						0 => F::f(c.u128() & F::RF.mask()),
						_ => F::ONE,
					};
					let k = if k == F::ZERO { F::ONE } else { k };
					let d = c.range(1, max_deg);
					let mut m: Vec<(usize, u64)> = vec![];
					let mut left = d;
					while left > 0 {
						let v = c.below(n_vars);
						let e = if c.below(4) == 0 { c.range(1, left) } else { 1 };
						left -= e;
						match m.iter_mut().find(|x| x.0 == v) {
							Some(x) => x.1 += e as u64,
							None => m.push((v, e as u64)),
						}
					}
					m.sort();
					(k, m)
				})
				.collect(),
		);
		// no cancellation: the degree is the one written
		let mut seen = vec![];
		p.0.retain(|(_, m)| {
			let new = !seen.contains(m);
			seen.push(m.clone());
			new
		});
		p
	}
}
