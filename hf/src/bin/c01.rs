//! C01: scalar field arithmetic against reference arithmetic written from the field definitions.
use hf::*;
use vmon::gf::prime_factors;

/// all operators on one pair
fn ops<F: Sc>(x: u128, y: u128) -> Res {
	let rf = F::RF;
	let (a, b) = (F::f(x), F::f(y));
	ensure_eq!(a.u(), x, "{} underlier round trip", F::NAME);
	let m = rf.mul(x, y);
	ensure_eq!((a * b).u(), m, "{} {x:#x} * {y:#x}", F::NAME);
	ensure_eq!((a * &b).u(), m, "{} {x:#x} * &{y:#x}", F::NAME);
	let mut t = a;
	t *= b;
	ensure_eq!(t.u(), m, "{} {x:#x} *= {y:#x}", F::NAME);
	let mut t = a;
	t *= &b;
	ensure_eq!(t.u(), m, "{} {x:#x} *= &{y:#x}", F::NAME);
	let s = x ^ y;
	ensure_eq!((a + b).u(), s, "{} {x:#x} + {y:#x}", F::NAME);
	ensure_eq!((a + &b).u(), s, "{} {x:#x} + &{y:#x}", F::NAME);
	ensure_eq!((a - b).u(), s, "{} {x:#x} - {y:#x}", F::NAME);
	ensure_eq!((a - &b).u(), s, "{} {x:#x} - &{y:#x}", F::NAME);
	let mut t = a;
	t += b;
	t += &F::ZERO;
	ensure_eq!(t.u(), s, "{} {x:#x} += {y:#x}", F::NAME);
	let mut t = a;
	t -= &b;
	t -= F::ZERO;
	ensure_eq!(t.u(), s, "{} {x:#x} -= {y:#x}", F::NAME);
	ensure_eq!(a == b, x == y, "{} equality of {x:#x} {y:#x}", F::NAME);
	Ok(())
}

fn unary<F: Sc>(x: u128) -> Res {
	let rf = F::RF;
	let a = F::f(x);
	ensure_eq!(a.square().u(), rf.sq(x), "{} square({x:#x})", F::NAME);
	let i = rf.inv(x);
	ensure_eq!(a.invert_or_zero().u(), i, "{} invert_or_zero({x:#x})", F::NAME);
	ensure_eq!(a.invert().map(|v| v.u()), (x != 0).then_some(i), "{} invert({x:#x})", F::NAME);
	ensure_eq!(a.is_zero(), x == 0, "{} is_zero({x:#x})", F::NAME);
	ensure_eq!((-a).u(), x, "{} neg({x:#x})", F::NAME);
	ensure_eq!(a.double().u(), 0, "{} double({x:#x})", F::NAME);
	Ok(())
}

fn scalar<F: Sc>(m: &mut Mon) {
	let bits = F::RF.bits();
	let name = F::NAME;
	if bits <= 8 {
		// every element and every pair
		let n = 1u64 << bits;
		m.par(&format!("{name} exhaustive"), n, |c| {
			let x = c.index as u128;
			c.desc(format!("{name}: x={x:#x} with every y"));
			unary::<F>(x)?;
			for y in 0..1u128 << bits {
				ops::<F>(x, y)?;
				c.obs((x, y), x > 1 && y > 1);
			}
			Ok(())
		});
	} else {
		let k = m.n(60, 2000);
		m.par(&format!("{name} pairs"), k, |c| {
			for j in 0..100 {
				let x = c.u128_patterned() & F::RF.mask();
				let y = c.u128_patterned() & F::RF.mask();
				if j == 0 {
					c.desc(format!("{name}: x={x:#x} y={y:#x}, then 99 more pairs"));
				}
				ops::<F>(x, y)?;
				if j % 4 == 0 {
					unary::<F>(x)?;
				}
				c.obs((x, y), x > 1 && y > 1);
			}
			Ok(())
		});
		if bits == 16 {
			m.par(&format!("{name} unary exhaustive"), 64, |c| {
				for x in 0..1024u128 {
					let x = x | (c.index as u128) << 10;
					unary::<F>(x)?;
					c.obs(x, x > 1);
				}
				c.desc(format!("{name}: every x in a 1024-block, block {}", c.index));
				Ok(())
			});
		}
		// single-bit and low/high boundary operands: every pair of basis elements
		m.par(&format!("{name} basis pairs"), bits as u64, |c| {
			let x = 1u128 << c.index;
			for j in 0..bits {
				ops::<F>(x, 1u128 << j)?;
				c.obs((x, j), true);
			}
			unary::<F>(x)?;
			unary::<F>(x ^ F::RF.mask())
		});
	}
	let k = m.n(12, 300);
	m.par(&format!("{name} pow/sum/product"), k, |c| {
		let rf = F::RF;
		let a = F::rnd(c);
		let limbs = c.below(4);
		let mut e: Vec<u64> = (0..limbs).map(|_| c.u128_patterned() as u64).collect();
		if c.below(4) == 0 {
			e = vec![c.below(5) as u64];
		}
		let want = rf.pow(a.u(), &e);
		c.desc(format!("{name}: {:#x} ^ {e:x?}", a.u()));
		ensure_eq!(Field::pow(&a, &e).u(), want, "{name} pow({:#x}, {e:x?})", a.u());
		ensure_eq!(Field::pow_vartime(&a, &e).u(), want, "{name} pow_vartime({:#x}, {e:x?})", a.u());
		let n = c.below(20);
		let v: Vec<F> = (0..n).map(|_| F::rnd(c)).collect();
		let s = v.iter().fold(0, |s, x| s ^ x.u());
		let p = v.iter().fold(rf.one(), |s, x| rf.mul(s, x.u()));
		ensure_eq!(v.iter().sum::<F>().u(), s, "{name} sum by ref");
		ensure_eq!(v.iter().copied().sum::<F>().u(), s, "{name} sum");
		ensure_eq!(v.iter().product::<F>().u(), p, "{name} product by ref");
		ensure_eq!(v.iter().copied().product::<F>().u(), p, "{name} product");
		let base = F::rnd(c);
		let mut w = rf.one();
		for (i, x) in binius_field::util::powers(base).take(9).enumerate() {
			ensure_eq!(x.u(), w, "{name} powers[{i}]");
			w = rf.mul(w, base.u());
		}
		let bit = |b: bool| if b { F::ONE } else { F::ZERO };
		for (x, y) in [(false, false), (false, true), (true, false), (true, true)] {
			ensure_eq!(binius_field::util::eq(bit(x), bit(y)), bit(x == y), "{name} eq");
		}
		let (x, y) = (F::rnd(c), F::rnd(c));
		let one = rf.one();
		let want = rf.mul(x.u(), y.u()) ^ rf.mul(one ^ x.u(), one ^ y.u());
		ensure_eq!(binius_field::util::eq(x, y).u(), want, "{name} eq multilinear");
		c.obs((a.u(), e), a.u() > 1);
		Ok(())
	});
	m.par(&format!("{name} constants"), 1, |c| {
		let rf = F::RF;
		ensure_eq!(F::ONE.u(), rf.one(), "{name} ONE");
		ensure_eq!(F::ZERO.u(), 0, "{name} ZERO");
		ensure_eq!(F::CHARACTERISTIC, 2, "{name} CHARACTERISTIC");
		ensure_eq!(F::N_BITS, bits, "{name} N_BITS");
		ensure_eq!(1 << F::TOWER_LEVEL, bits, "{name} TOWER_LEVEL");
		let g = F::MULTIPLICATIVE_GENERATOR.u();
		let order = rf.mask();
		ensure_eq!(rf.pow128(g, order), rf.one(), "{name} generator ^ (2^n - 1)");
		for p in prime_factors(bits) {
			ensure!(rf.pow128(g, order / p) != rf.one(), "{name} generator has order dividing (2^n-1)/{p}");
		}
		c.desc(format!("{name}: generator {g:#x} has full order"));
		c.obs(name, true);
		Ok(())
	});
	// multiplication by the tower generators; POLYVAL does not implement it
	if F::RF != Rf::P {
		let k = m.n(40, 1000);
		m.par(&format!("{name} mul_primitive"), k, |c| {
			let rf = F::RF;
			let a = F::rnd(c);
			for iota in 0..F::TOWER_LEVEL + 2 {
				let got = a.mul_primitive(iota);
				if iota >= F::TOWER_LEVEL {
					ensure!(got.is_err(), "{name} mul_primitive({iota}) must be an error");
					continue;
				}
				let beta = match rf {
					Rf::A(_) if iota < 3 => [0xbcu128, 0xb0, 0xd3][iota],
					_ => 1u128 << (1 << iota),
				};
				ensure_eq!(got.unwrap().u(), rf.mul(a.u(), beta), "{name} {:#x}.mul_primitive({iota})", a.u());
				c.obs((a.u(), iota), a.u() > 1);
			}
			Ok(())
		});
	}
	let k = m.n(20, 400);
	m.par(&format!("{name} tower basis"), k, |c| {
		let iota = c.below(F::TOWER_LEVEL + 2);
		let i = c.below(2 * bits);
		let got = <F as TowerField>::basis(iota, i);
		let valid = iota <= F::TOWER_LEVEL && i < 1 << (F::TOWER_LEVEL - iota);
		ensure_eq!(got.is_ok(), valid, "{name} basis({iota},{i}) validity");
		if let Ok(v) = got {
			let want = <F as ExtensionField<BinaryField1b>>::basis(i << iota);
			ensure_eq!(v, want, "{name} basis({iota},{i})");
			ensure_eq!(v.u(), 1u128 << (i << iota), "{name} basis({iota},{i}) bits");
		}
		c.obs((iota, i), valid);
		let a = F::rnd(c);
		let lvl = a.min_tower_level();
		let fits = |l: usize| 1 << l >= 128 || a.u() >> (1u32 << l) == 0;
		let want = match F::RF {
			Rf::T(_) => (0..=F::TOWER_LEVEL).find(|&l| fits(l)).unwrap(),
			Rf::A(_) => {
				if a.u() <= 1 {
					0
				} else {
					(3..=F::TOWER_LEVEL).find(|&l| fits(l)).unwrap()
				}
			}
			Rf::P => {
				if a == F::ZERO || a == F::ONE {
					0
				} else {
					7
				}
			}
		};
		ensure_eq!(lvl, want, "{name} min_tower_level({:#x})", a.u());
		c.desc(format!("{name}: basis({iota},{i}) valid={valid}; min_tower_level({:#x})={lvl}", a.u()));
		Ok(())
	});
}

/// operations of an extension with its subfield
fn pair<S: Sc, F: Sc + ExtensionField<S>>(m: &mut Mon)
where
	S: std::ops::Add<F, Output = F> + std::ops::Mul<F, Output = F> + std::ops::Sub<F, Output = F>,
{
	let name = format!("{}<{}", S::NAME, F::NAME);
	let deg = F::RF.bits() / S::RF.bits();
	let k = m.n(20, 600);
	m.par(&name, k, |c| {
		let rf = F::RF;
		ensure_eq!(<F as ExtensionField<S>>::DEGREE, deg, "{name} DEGREE");
		ensure_eq!(1usize << <F as ExtensionField<S>>::LOG_DEGREE, deg, "{name} LOG_DEGREE");
		// the embedded subfield element
		let emb = |s: S| -> u128 {
			match (S::RF, F::RF) {
				(_, Rf::P) => {
					if S::RF == Rf::P {
						s.u()
					} else if s.u() == 1 {
						Rf::P.one()
					} else {
						0
					}
				}
				_ => s.u(),
			}
		};
		for j in 0..8 {
			let a = F::rnd(c);
			let s = S::rnd(c);
			let e = emb(s);
			let x = a.u();
			ensure_eq!(F::from(s).u(), e, "{name} From({:#x})", s.u());
			ensure_eq!((a * s).u(), rf.mul(x, e), "{name} {x:#x} * sub {:#x}", s.u());
			ensure_eq!((s * a).u(), rf.mul(x, e), "{name} sub {:#x} * {x:#x}", s.u());
			ensure_eq!((a + s).u(), x ^ e, "{name} {x:#x} + sub {:#x}", s.u());
			ensure_eq!((s + a).u(), x ^ e, "{name} sub {:#x} + {x:#x}", s.u());
			ensure_eq!((a - s).u(), x ^ e, "{name} {x:#x} - sub {:#x}", s.u());
			ensure_eq!((s - a).u(), x ^ e, "{name} sub {:#x} - {x:#x}", s.u());
			let mut t = a;
			t *= s;
			ensure_eq!(t.u(), rf.mul(x, e), "{name} {x:#x} *= sub {:#x}", s.u());
			let mut t = a;
			t += s;
			ensure_eq!(t.u(), x ^ e, "{name} += sub");
			let mut t = a;
			t -= s;
			ensure_eq!(t.u(), x ^ e, "{name} -= sub");
			c.obs((x, e), x > 1 && s.u() > 0);
			if j == 0 {
				c.desc(format!("{name}: a={x:#x} s={:#x}", s.u()));
			}
			// decomposition: a = sum_i b_i * basis_i
			let bases: Vec<S> = <F as ExtensionField<S>>::iter_bases(&a).collect();
			ensure_eq!(bases.len(), deg, "{name} iter_bases length");
			let into: Vec<S> = <F as ExtensionField<S>>::into_iter_bases(a).collect();
			ensure_eq!(into, bases, "{name} into_iter_bases({x:#x})");
			let mut acc = 0;
			for (i, b) in bases.iter().enumerate() {
				let bas = <F as ExtensionField<S>>::basis(i);
				acc ^= rf.mul(emb(*b), bas.u());
				ensure_eq!(<F as ExtensionField<S>>::get_base(&a, i), *b, "{name} get_base({i}) of {x:#x}");
			}
			if matches!(rf, Rf::P) && deg > 1 {
				// The coordinates of POLYVAL elements are the bits of the stored representation, which
				// are not coordinates for basis(); see monitor polyval-coordinates.
				let bits = bases.iter().enumerate().fold(0u128, |v, (i, b)| v | b.u() << i);
				ensure_eq!(bits, x, "{name} coordinates of {x:#x}");
				ensure_eq!(
					<F as ExtensionField<S>>::from_bases(bases.iter().copied()).map(|v| v.u()).ok(),
					Some(acc),
					"{name} from_bases"
				);
			} else {
				ensure_eq!(acc, x, "{name} sum of bases of {x:#x}");
				ensure_eq!(
					<F as ExtensionField<S>>::from_bases(bases.iter().copied()).map(|v| v.u()).ok(),
					Some(x),
					"{name} from_bases"
				);
			}
			if j == 0 {
				let i = deg + c.below(3);
				ensure!(<F as ExtensionField<S>>::basis_checked(i).is_err(), "{name} basis_checked({i}) must fail");
				ensure!(guard(|| <F as ExtensionField<S>>::get_base(&a, i)).is_err(), "{name} get_base({i}) must panic");
			}
			// short and strided
			let ld = deg.ilog2() as usize;
			let ls = c.below(ld + 1);
			let n = c.below((deg >> ls) + 1);
			let v: Vec<S> = (0..n).map(|_| S::rnd(c)).collect();
			let want = v
				.iter()
				.enumerate()
				.fold(0, |acc, (i, b)| acc ^ rf.mul(emb(*b), <F as ExtensionField<S>>::basis(i << ls).u()));
			let got = <F as ExtensionField<S>>::from_bases_sparse(v.iter().copied(), ls);
			ensure_eq!(got.map(|g| g.u()).ok(), Some(want), "{name} from_bases_sparse stride {ls} n {n}");
			if ls < ld && deg > 1 {
				// one element too many is refused
				let v: Vec<S> = (0..(deg >> ls) + 1).map(|_| S::rnd(c)).collect();
				let got = <F as ExtensionField<S>>::from_bases_sparse(v.iter().copied(), ls);
				ensure!(got.is_err(), "{name} from_bases_sparse accepts {} elements at stride {ls}", v.len());
			}
			// the embedding is inverted exactly on the subfield
			let back: Result<S, _> = F::from(s).try_into();
			ensure_eq!(back.ok(), Some(s), "{name} try_into of embedded {:#x}", s.u());
			let got: Option<S> = a.try_into().ok();
			let want = bases[1..].iter().all(|b| b.is_zero()).then(|| bases[0]);
			if rf != Rf::P {
				ensure_eq!(got, want, "{name} try_into of {x:#x}");
			}
			if deg > 1 {
				ensure_eq!(got.is_some(), rf.pow2k(x, S::RF.bits()) == x, "{name} try_into of {x:#x} succeeds iff in subfield");
			}
		}
		for i in 0..deg {
			// the i-th basis element: unit vector
			let b = <F as ExtensionField<S>>::basis(i);
			let want = if deg == 1 {
				rf.one()
			} else if matches!(rf, Rf::P) {
				// the monomial x^i, stored like every element as a multiple of one
				(0..i).fold(rf.one(), |v, _| v << 1 ^ if v >> 127 == 1 { 1 << 127 | 1 << 126 | 1 << 121 | 1 } else { 0 })
			} else {
				1u128 << (i * S::RF.bits())
			};
			ensure_eq!(b.u(), want, "{name} basis({i})");
			ensure_eq!(binius_field::ext_basis::<F, S>(i), b, "{name} ext_basis({i})");
		}
		Ok(())
	});
}

fn main() {
	let mut m = Mon::from_args("C01");
	m.rule("operands enumerated (fields up to 8 bits; unary up to 16 bits) or drawn from patterned distributions (random, sparse, dense, single bit, subfield, repeated byte); a case is non-trivial when both operands are outside {0,1}; distinct by operand tuple per field");
	macro_rules! s {
		($t:ty) => {
			scalar::<$t>(&mut m);
		};
	}
	all_scalars!(s);
	macro_rules! p {
		($s:ty, $t:ty) => {
			pair::<$s, $t>(&mut m);
		};
	}
	all_ext_pairs!(p);
	m.seq("polyval-coordinates", 1, |c| {
		c.key("polyval-coordinates");
		let a = BinaryField128bPolyval::ONE;
		c.obs(1, true);
		let sum = <BinaryField128bPolyval as ExtensionField<BinaryField1b>>::iter_bases(&a)
			.enumerate()
			.fold(BinaryField128bPolyval::ZERO, |s, (i, b)| s + <BinaryField128bPolyval as ExtensionField<BinaryField1b>>::basis(i) * b);
		ensure_eq!(sum, a, "sum of coordinates times basis elements of POLYVAL one");
		Ok(())
	});
	m.finish()
}
