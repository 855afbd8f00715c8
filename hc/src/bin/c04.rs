//! C04 (derived codecs, circuits, transparent polynomials, oracles, constraint systems):
//! serialization round-trips, decoding fails cleanly.
#[path = "../../../hf/src/ser.rs"]
mod ser;
use std::{fmt::Debug, sync::Arc};

use binius_core::{
	constraint_system::{
		ConstraintSystem as Ccs, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	oracle::*,
	polynomial::MultivariatePoly,
	transparent::{constant::Constant, powers::Powers, select_row::SelectRow, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis, MultilinearExtensionTransparent},
};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::{
	AESTowerField8b, AESTowerField128b, BinaryField128bPolyval, TowerField, PackedField,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::pack_slice,
};
use binius_hash::groestl::Groestl256;
use binius_field::{BinaryField2b as B2, BinaryField4b as B4};
use binius_m3::builder::{B1, B128, B16, B32, B64, B8};
use binius_macros::{DeserializeBytes, SerializeBytes};
use binius_math::{ArithCircuit, ArithCircuitStep};
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use hc::{pv::*, sysgen::*, *};
use rand::{SeedableRng, rngs::StdRng};
use ser::*;

type F = B128;
const CANON: SerializationMode = SerializationMode::CanonicalTower;

// ---------------------------------------------------------------- derived codecs

#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
struct Named {
	a: u32,
	b: Option<String>,
	c: Vec<Tuple>,
}
#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
struct Tuple(u8, bool, u128);
#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
struct Unit;
#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
struct Gen<A: Clone>
where
	A: Debug,
{
	x: A,
	y: (A, u16),
}
#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
enum En {
	U,
	T(u64, Named),
	N { z: u8, w: Unit, y: Box<En2> },
	V,
	G(Gen<u8>),
}
#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
enum En2 {
	Only { v: Vec<u8> },
}
#[derive(Debug, PartialEq, Clone, SerializeBytes, DeserializeBytes)]
#[deserialize_bytes(eval_generics(X = B128))]
struct Ev<X: TowerField, Y: Clone> {
	x: X,
	y: Y,
}

fn le32(n: usize) -> Vec<u8> {
	(n as u32).to_le_bytes().to_vec()
}
fn etext(s: &str) -> Vec<u8> {
	[le32(s.len()), s.as_bytes().to_vec()].concat()
}
fn etuple(t: &Tuple) -> Vec<u8> {
	[&[t.0, t.1 as u8][..], &t.2.to_le_bytes()].concat()
}
fn enamed(n: &Named) -> Vec<u8> {
	let mut e = n.a.to_le_bytes().to_vec();
	match &n.b {
		None => e.push(0),
		Some(s) => {
			e.push(1);
			e.extend(etext(s))
		}
	}
	e.extend(le32(n.c.len()));
	n.c.iter().for_each(|t| e.extend(etuple(t)));
	e
}
fn een(x: &En) -> Vec<u8> {
	match x {
		En::U => vec![0],
		En::T(a, n) => [&[1][..], &a.to_le_bytes(), &enamed(n)].concat(),
		En::N { z, w: Unit, y } => {
			let En2::Only { v } = &**y;
			[&[2, *z, 0][..], &le32(v.len()), v].concat()
		}
		En::V => vec![3],
		En::G(g) => vec![4, g.x, g.y.0, g.y.1 as u8, (g.y.1 >> 8) as u8],
	}
}

fn dbg<T: Debug>(v: &T) -> String {
	format!("{v:?}")
}
fn both<T: SerializeBytes + DeserializeBytes>(c: &mut Case, what: &str, v: &T, exp: Option<&[u8]>, show: &dyn Fn(&T) -> String) -> Res {
	for mode in MODES {
		let bytes = conform(c, what, v, mode, exp, show)?;
		c.obs((what, &bytes), bytes.len() > 1);
		for _ in 0..8 {
			let d = damage(c, &bytes);
			hostile::<T>(c, what, &d, mode, show)?;
		}
		let k = c.below(40);
		let d = c.bytes(k);
		hostile::<T>(c, what, &d, mode, show)?;
	}
	Ok(())
}
fn text(c: &mut Case) -> String {
	(0..c.below(9)).map(|_| c.pick(&['a', 'Z', '_', ' ', 'é', '漢', '😀', '\0'])).collect()
}

fn derived(c: &mut Case) -> Res {
	let named = |c: &mut Case| Named {
		a: c.u128_patterned() as u32,
		b: c.flip().then(|| text(c)),
		c: (0..c.below(4)).map(|_| Tuple(c.below(256) as u8, c.flip(), c.u128_patterned())).collect(),
	};
	let n = named(c);
	both(c, "struct with named fields", &n, Some(&enamed(&n)), &dbg)?;
	let t = Tuple(c.below(256) as u8, c.flip(), c.u128_patterned());
	both(c, "tuple struct", &t, Some(&etuple(&t)), &dbg)?;
	both(c, "unit struct", &Unit, Some(&[]), &dbg)?;
	let g = Gen::<u8> { x: c.below(256) as u8, y: (c.below(256) as u8, c.below(1 << 16) as u16) };
	let e = match c.below(5) {
		0 => En::U,
		1 => En::T(c.u128_patterned() as u64, n),
		2 => {
			let k = c.below(5);
			En::N { z: c.below(256) as u8, w: Unit, y: Box::new(En2::Only { v: c.bytes(k) }) }
		}
		3 => En::V,
		_ => En::G(g.clone()),
	};
	both(c, "enum", &e, Some(&een(&e)), &dbg)?;
	let bad = [5 + c.below(251) as u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
	ensure!(En::deserialize(&bad[..], CANON).is_err(), "an unknown variant {} was decoded", bad[0]);
	let w = c.u128_patterned();
	let ev = Ev::<B128, Tuple> { x: B128::new(w), y: t.clone() };
	both(c, "struct with evaluated generics", &ev, Some(&[&w.to_le_bytes()[..], &etuple(&t)].concat()), &dbg)
}

// ---------------------------------------------------------------- circuits

fn circuit<K: Field>(c: &mut Case, nv: usize, consts: &dyn Fn(&mut Case) -> K) -> ArithCircuit<K> {
	let mut steps: Vec<ArithCircuitStep<K>> = vec![];
	for _ in 0..c.range(1, 9) {
		let n = steps.len();
		let s = match c.below(if n == 0 { 2 } else { 6 }) {
			0 => ArithCircuitStep::Var(c.below(nv)),
			1 => ArithCircuitStep::Const(consts(c)),
			2 | 3 => ArithCircuitStep::Add(c.below(n), c.below(n)),
			4 => ArithCircuitStep::Mul(c.below(n), c.below(n)),
			_ => ArithCircuitStep::Pow(c.below(n), c.below(6) as u64),
		};
		steps.push(s);
	}
	let mut e: Vec<ArithCircuit<K>> = vec![];
	for s in steps {
		let x = match s {
			ArithCircuitStep::Var(i) => ArithCircuit::var(i),
			ArithCircuitStep::Const(k) => ArithCircuit::constant(k),
			ArithCircuitStep::Add(a, b) => e[a].clone() + e[b].clone(),
			ArithCircuitStep::Mul(a, b) => e[a].clone() * e[b].clone(),
			ArithCircuitStep::Pow(a, k) => e[a].clone().pow(k),
		};
		e.push(x);
	}
	e.pop().unwrap()
}
fn ecircuit(x: &ArithCircuit<B128>) -> Vec<u8> {
	let mut e = le32(x.steps().len());
	for s in x.steps() {
		match *s {
			ArithCircuitStep::Add(a, b) => e.extend([&[0][..], &le32(a), &le32(b)].concat()),
			ArithCircuitStep::Mul(a, b) => e.extend([&[1][..], &le32(a), &le32(b)].concat()),
			ArithCircuitStep::Pow(a, k) => e.extend([&[2][..], &le32(a), &k.to_le_bytes()].concat()),
			ArithCircuitStep::Const(k) => e.extend([&[3][..], &k.val().to_le_bytes()].concat()),
			ArithCircuitStep::Var(i) => e.extend([&[4][..], &le32(i)].concat()),
		}
	}
	e
}
/// A decoded circuit is one that can be used.
fn usable(c: &mut Case, x: &ArithCircuit<B128>) -> Res {
	let what = format!("circuit {:?} decoded from damaged bytes", x.steps());
	let n = guard(|| x.n_vars()).map_err(|e| format!("{what}: {e}"))?;
	if n <= 64 {
		let q: Vec<B128> = scalars(c, n);
		guard(|| x.evaluate(&q)).map_err(|e| format!("{what}: evaluation panicked: {e}"))?.map_err(es)?;
	}
	guard(|| x.binary_tower_level()).map_err(|e| format!("{what}: {e}"))?;
	c.count("damaged circuits used", 1);
	Ok(())
}

fn circuits(c: &mut Case) -> Res {
	let nv = c.range(1, 4);
	let x = circuit(c, nv, &|c| B128::new(c.u128_patterned()));
	c.desc(format!("{:?}", x.steps()));
	let steps = |x: &ArithCircuit<B128>| format!("{:?}", x.steps());
	both(c, "ArithCircuit", &x, Some(&ecircuit(&x)), &steps)?;
	for _ in 0..10 {
		let d = damage(c, &ecircuit(&x));
		if let Some(y) = hostile::<ArithCircuit<B128>>(c, "ArithCircuit", &d, CANON, &steps)? {
			usable(c, &y)?;
		}
	}
	for s in x.steps().iter().take(3) {
		both(c, "ArithCircuitStep", s, None, &dbg)?;
	}
	// other towers write the same canonical bytes
	let aes: ArithCircuit<AESTowerField128b> = x.convert_field();
	let pol: ArithCircuit<BinaryField128bPolyval> = x.convert_field();
	ensure!(encode(&aes, CANON)? == ecircuit(&x), "canonical bytes of the circuit over the AES tower differ");
	ensure!(encode(&pol, CANON)? == ecircuit(&x), "canonical bytes of the circuit over POLYVAL differ");
	both(c, "ArithCircuit over the AES tower", &aes, None, &|x| format!("{:?}", x.steps()))?;
	both(c, "ArithCircuit over POLYVAL", &pol, None, &|x| format!("{:?}", x.steps()))?;
	// composition polynomials: compared as functions
	let extra = c.below(3);
	let p = guard(|| ArithCircuitPoly::with_n_vars(x.n_vars() + extra, x.clone()))?.map_err(es)?;
	let pts: Vec<Vec<B128>> = (0..3).map(|_| scalars(c, 40)).collect();
	let show = |p: &ArithCircuitPoly<B128>| {
		use binius_math::CompositionPoly;
		let n = CompositionPoly::<B128>::n_vars(p);
		let v: Vec<_> = pts.iter().map(|q| (n <= 40).then(|| CompositionPoly::<B128>::evaluate(p, &q[..n]).unwrap())).collect();
		format!("{n} variables, values {v:?}")
	};
	both(c, "ArithCircuitPoly", &p, None, &show)
}

// ---------------------------------------------------------------- transparent polynomials

fn show_poly(p: &dyn MultivariatePoly<F>) -> String {
	let n = p.n_vars();
	if n > 24 {
		return format!("{n} variables, degree {}", p.degree());
	}
	let mut rng = StdRng::seed_from_u64(n as u64);
	let v: Vec<_> = (0..3)
		.map(|_| {
			let q: Vec<F> = (0..n).map(|_| <F as Field>::random(&mut rng)).collect();
			guard(|| p.evaluate(&q)).map(|r| r.map_err(es))
		})
		.collect();
	format!("{n} variables, degree {}, values {v:?}", p.degree())
}
fn show_transparent(t: &TransparentPolyOracle<F>) -> String {
	show_poly(&**t.poly())
}

fn mle<U: Und, K: TowerField>(c: &mut Case) -> Result<Arc<dyn MultivariatePoly<F>>, String>
where
	F: ExtensionField<K>,
	PackedType<U, F>: Pk,
	U: binius_field::as_packed_field::PackScalar<K>,
	PackedType<U, F>: binius_field::RepackedExtension<PackedType<U, K>>,
{
	let n = c.below(6);
	let vals: Vec<K> = (0..1 << n).map(|_| if c.below(4) == 0 { K::ZERO } else { <K as Field>::random(&mut c.rng) }).collect();
	let packed: Vec<PackedType<U, K>> = pack_slice(&vals);
	let t = MultilinearExtensionTransparent::<PackedType<U, K>, PackedType<U, F>, _>::from_values_and_mu(packed, n).map_err(es)?;
	let t: Arc<dyn MultivariatePoly<F>> = Arc::new(t);
	// what it is: the multilinear extension of the values
	let q: Vec<F> = scalars(c, n);
	let want = mle_eval(&vals.iter().map(|v| F::from(*v)).collect::<Vec<_>>(), &q);
	ensure_eq!(t.evaluate(&q).map_err(es)?, want, "multilinear extension of {} values", 1 << n);
	c.key(format!("mle {} {}", U::NAME, K::TOWER_LEVEL));
	Ok(t)
}

fn poly(c: &mut Case) -> Result<(&'static str, Arc<dyn MultivariatePoly<F>>), String> {
	let n = c.below(7);
	Ok(match c.below(9) {
		0 => ("StepUp", Arc::new(StepUp::new(n, c.below((1 << n) + 1)).map_err(es)?)),
		1 => ("StepDown", Arc::new(StepDown::new(n, c.below((1 << n) + 1)).map_err(es)?)),
		2 => ("SelectRow", Arc::new(SelectRow::new(n, c.below(1 << n)).map_err(es)?)),
		3 => ("Powers", Arc::new(Powers::new(n, F::new(c.u128_patterned())))),
		4 => {
			let iota = c.below(8);
			("TowerBasis", Arc::new(TowerBasis::<F>::new(c.below(8 - iota), iota).map_err(es)?))
		}
		5 => {
			let w = c.u128_patterned();
			(
				"Constant",
				match c.below(4) {
					0 => Arc::new(Constant::<F>::new(n, B1::from(w & 1 == 1))),
					1 => Arc::new(Constant::<F>::new(n, B8::new(w as u8))),
					2 => Arc::new(Constant::<F>::new(n, B64::new(w as u64))),
					_ => Arc::new(Constant::<F>::new(n, F::new(w))),
				},
			)
		}
		6 => {
			let nv = n.max(1);
			("ArithCircuit", Arc::new(circuit(c, nv, &|c| F::new(c.u128_patterned()))))
		}
		_ => {
			type A = OptimalUnderlier128b;
			type B = OptimalUnderlier256b;
			type D = OptimalUnderlier512b;
			let t = match c.below(14) {
				0 => mle::<A, B1>(c)?,
				1 => mle::<A, B2>(c)?,
				2 => mle::<A, B4>(c)?,
				3 => mle::<A, B8>(c)?,
				4 => mle::<A, B16>(c)?,
				5 => mle::<A, B32>(c)?,
				6 => mle::<A, B64>(c)?,
				7 => mle::<A, F>(c)?,
				8 => mle::<B, B1>(c)?,
				9 => mle::<B, B32>(c)?,
				10 => mle::<B, F>(c)?,
				11 => mle::<D, B8>(c)?,
				12 => mle::<D, B64>(c)?,
				_ => mle::<D, F>(c)?,
			};
			("MultilinearExtension", t)
		}
	})
}

/// Decoded polynomials can be evaluated.
fn usable_poly(c: &mut Case, t: &TransparentPolyOracle<F>, d: &[u8]) -> Res {
	let p = t.poly();
	let n = guard(|| p.n_vars())?;
	let ctx = |e: String| format!("{p:?} decoded from damaged bytes {d:02x?}: {e}");
	let lvl = guard(|| p.binary_tower_level()).map_err(ctx)?;
	ensure!(lvl <= 7, "{}", ctx(format!("tower level {lvl}")));
	if n <= 1 << 12 {
		let q: Vec<F> = scalars(c, n);
		guard(|| p.evaluate(&q)).map_err(|e| ctx(format!("evaluation panicked: {e}")))?.map_err(|e| ctx(format!("evaluation failed: {e}")))?;
		c.count("damaged polynomials used", 1);
	}
	Ok(())
}

fn transparents(c: &mut Case) -> Res {
	let (what, p) = poly(c)?;
	c.desc(format!("{what} {p:?}"));
	let t = TransparentPolyOracle::new(p.clone()).map_err(es)?;
	both(c, what, &t, None, &show_transparent)?;
	let bytes = encode(&t, CANON)?;
	for _ in 0..12 {
		let d = damage(c, &bytes);
		if let Some(x) = hostile::<TransparentPolyOracle<F>>(c, what, &d, CANON, &show_transparent)? {
			usable_poly(c, &x, &d)?;
		}
	}
	// the boxed form is the same encoding
	let b = guard(|| Box::<dyn MultivariatePoly<F>>::deserialize(&bytes[..], CANON))?.map_err(es)?;
	ensure_eq!(show_poly(&*b), show_poly(&*p), "{what} read as a boxed polynomial");
	ensure!(b.binary_tower_level() <= p.binary_tower_level(), "{what}: the tower level went from {} to {}", p.binary_tower_level(), b.binary_tower_level());
	ensure_eq!(encode(&b, CANON)?, bytes, "{what} boxed, bytes");
	c.count(what, 1);
	Ok(())
}

// ---------------------------------------------------------------- oracles, constraint systems

fn elem(c: &mut Case) -> F {
	F::new(c.u128_patterned())
}
fn ooc(c: &mut Case) -> OracleOrConst<F> {
	if c.flip() {
		OracleOrConst::Oracle(OracleId::from_index(c.u128_patterned() as u32 as usize))
	} else {
		OracleOrConst::Const { base: elem(c), tower_level: c.below(8) }
	}
}
fn ids(c: &mut Case) -> Vec<OracleId> {
	(0..c.below(4)).map(|_| OracleId::from_index(c.below(100))).collect()
}
fn direction(c: &mut Case) -> FlushDirection {
	if c.flip() { FlushDirection::Push } else { FlushDirection::Pull }
}
fn eboundary(b: &Boundary<F>) -> Vec<u8> {
	let mut e = le32(b.values.len());
	b.values.iter().for_each(|v| e.extend(v.val().to_le_bytes()));
	e.extend(le32(b.channel_id));
	e.push((b.direction == FlushDirection::Pull) as u8);
	e.extend(b.multiplicity.to_le_bytes());
	e
}

fn parts(c: &mut Case) -> Res {
	let b = Boundary { values: (0..c.below(4)).map(|_| elem(c)).collect(), channel_id: c.below(9), direction: direction(c), multiplicity: c.u128_patterned() as u64 };
	both(c, "Boundary", &b, Some(&eboundary(&b)), &dbg)?;
	// the same boundary over another tower
	let a = Boundary::<AESTowerField128b> {
		values: b.values.iter().map(|v| AESTowerField128b::from(*v)).collect(),
		channel_id: b.channel_id,
		direction: b.direction,
		multiplicity: b.multiplicity,
	};
	ensure!(encode(&a, CANON)? == eboundary(&b), "canonical bytes of a boundary over the AES tower differ");
	both(c, "Boundary over the AES tower", &a, None, &dbg)?;
	let x = ooc(c);
	both(c, "OracleOrConst", &x, None, &dbg)?;
	let f = Flush {
		table_id: c.below(9),
		log_values_per_row: c.below(9),
		oracles: (0..c.below(4)).map(|_| ooc(c)).collect(),
		channel_id: c.below(9),
		direction: direction(c),
		selectors: ids(c),
		multiplicity: c.u128_patterned() as u64,
	};
	both(c, "Flush", &f, None, &dbg)?;
	let e = Exp { bits_ids: ids(c), base: ooc(c), exp_result_id: OracleId::from_index(c.below(1 << 20)) };
	both(c, "Exp", &e, None, &dbg)?;
	let s = c.pick(&[TableSizeSpec::Arbitrary, TableSizeSpec::PowerOfTwo, TableSizeSpec::Fixed { log_size: 5 }, TableSizeSpec::Fixed { log_size: 31 }]);
	both(c, "TableSizeSpec", &s, None, &dbg)?;
	let p = if c.flip() { ConstraintPredicate::Zero } else { ConstraintPredicate::Sum(elem(c)) };
	let k = Constraint { name: text(c), composition: circuit(c, 3, &|c| elem(c)), predicate: p };
	both(c, "Constraint", &k, None, &dbg)?;
	let set = ConstraintSet { table_id: c.below(9), log_values_per_row: c.below(9), oracle_ids: ids(c), constraints: vec![k.clone(); c.below(3)] };
	both(c, "ConstraintSet", &set, None, &dbg)?;
	let n = c.below(20);
	both(c, "SizedConstraintSet", &SizedConstraintSet::new(n, set), None, &dbg)?;
	// an identifier that does not fit is reported, not truncated
	let big = OracleId::from_index((1usize << 32) + c.below(9));
	for mode in MODES {
		let mut out = vec![];
		match guard(|| big.serialize(&mut out, mode))? {
			Err(_) => {}
			Ok(()) => ensure_eq!(OracleId::deserialize(&out[..], mode).map_err(es)?, big, "an oracle identifier that does not fit was written without an error"),
		}
	}
	Ok(())
}

/// Transparent parts are compared by what they evaluate to, everything else by its contents.
fn show_variant(v: &SymbolicMultilinearPolyVariant<F>) -> String {
	match v {
		SymbolicMultilinearPolyVariant::Transparent(t) => format!("Transparent {}", show_transparent(t)),
		v => format!("{v:?}"),
	}
}
fn show_symbolic(s: &SymbolicMultilinearOracleSet<F>) -> String {
	s.polys().map(|o| format!("{:?} {:?} {} {} {} {}\n", o.id, o.name, o.table_id, o.log_values_per_row, o.tower_level, show_variant(&o.variant))).collect()
}
fn show_set(s: &MultilinearOracleSet<F>) -> String {
	if s.ids().any(|id| s.is_zero_sized(id)) {
		return format!("{} oracles, skipped {:?}", s.size(), s.ids().map(|i| s.is_zero_sized(i)).collect::<Vec<_>>());
	}
	s.polys()
		.map(|o| {
			let v = match &o.variant {
				MultilinearPolyVariant::Transparent(t) => format!("Transparent {}", show_transparent(t)),
				// optimised again when it is read: compared as a function
				MultilinearPolyVariant::Composite(m) => {
					use binius_math::CompositionPoly;
					let mut rng = StdRng::seed_from_u64(m.n_polys() as u64);
					let vals: Vec<_> = (0..3)
						.map(|_| {
							let q: Vec<F> = (0..m.n_polys()).map(|_| <F as Field>::random(&mut rng)).collect();
							guard(|| CompositionPoly::<F>::evaluate(m.c(), &q)).map(|r| r.map_err(es))
						})
						.collect();
					format!("Composite {} {:?} {vals:?}", m.n_vars(), m.polys().collect::<Vec<_>>())
				}
				v => format!("{v:?}"),
			};
			format!("{:?} {:?} {} {} {v}\n", o.id, o.name, o.n_vars, o.tower_level)
		})
		.collect()
}
fn show_ccs(x: &Ccs<F>) -> String {
	format!("{}{:?}{:?}{:?}{:?}{}{:?}", show_symbolic(&x.oracles), x.table_constraints, x.non_zero_oracle_ids, x.flushes, x.exponents, x.channel_count, x.table_size_specs)
}

fn oracle_set(c: &mut Case) -> Res {
	let mut s = MultilinearOracleSet::<F>::new();
	let mut made = vec![];
	made.push(s.add_committed(3 + c.below(4), c.below(8)));
	for i in 0..c.range(1, 8) {
		let id = c.pick(&made);
		let n = s.n_vars(id);
		let lvl = s.tower_level(id);
		let mut add = s.add_named(format!("{}{i}", text(c)));
		let r = match c.below(12) {
			0 => Ok(add.committed(c.below(8), c.below(8))),
			1 => {
				let (_, p) = poly(c)?;
				struct Dyn(Arc<dyn MultivariatePoly<F>>);
				impl Debug for Dyn {
					fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
						write!(f, "{:?}", self.0)
					}
				}
				impl MultivariatePoly<F> for Dyn {
					fn n_vars(&self) -> usize {
						self.0.n_vars()
					}
					fn degree(&self) -> usize {
						self.0.degree()
					}
					fn evaluate(&self, q: &[F]) -> Result<F, binius_core::polynomial::Error> {
						self.0.evaluate(q)
					}
					fn binary_tower_level(&self) -> usize {
						self.0.binary_tower_level()
					}
					fn erased_serialize(&self, w: &mut dyn bytes::BufMut, mode: SerializationMode) -> Result<(), binius_utils::SerializationError> {
						self.0.erased_serialize(w, mode)
					}
				}
				add.transparent(Dyn(p))
			}
			2 => {
				let x = circuit(c, 3, &|c| elem(c));
				add.structured(x.n_vars(), x)
			}
			3 => add.repeating(id, c.below(4)),
			4 => {
				let b = c.below(n + 1);
				let v = c.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
				add.shifted(id, if b == 0 { 0 } else { c.below(1 << b) }, b, v)
			}
			5 => {
				let k = c.below(n.min(7 - lvl.min(7)) + 1);
				add.packed(id, k)
			}
			6 => {
				let k = c.below(n + 1);
				let v = scalars(c, k);
				add.projected(id, v, c.below(n - k + 1))
			}
			7 => {
				let k = c.below(n + 1);
				let v = scalars(c, k);
				add.projected_last_vars(id, v)
			}
			8 => {
				let v = vec![(id, elem(c)), (id, elem(c))];
				let o = elem(c);
				add.linear_combination_with_offset(n, o, v)
			}
			9 => {
				let k = c.below(3);
				add.zero_padded(id, k, c.below(1 << k), c.below(n + 1))
			}
			_ => {
				let x = circuit(c, 2, &|c| elem(c));
				add.composite_mle(n, [id, id], x)
			}
		};
		if let Ok(id) = r {
			if s.n_vars(id) < 16 {
				made.push(id);
			}
		}
	}
	both(c, "MultilinearOracleSet", &s, None, &show_set)?;
	for v in s.polys() {
		c.count(v.variant_name(), 1);
	}
	Ok(())
}
trait VariantName {
	fn variant_name(&self) -> &'static str;
}
impl VariantName for MultilinearPolyOracle<F> {
	fn variant_name(&self) -> &'static str {
		match self.variant {
			MultilinearPolyVariant::Committed => "committed",
			MultilinearPolyVariant::Transparent(_) => "transparent",
			MultilinearPolyVariant::Structured(_) => "structured",
			MultilinearPolyVariant::Repeating { .. } => "repeating",
			MultilinearPolyVariant::Projected(_) => "projected",
			MultilinearPolyVariant::Shifted(_) => "shifted",
			MultilinearPolyVariant::Packed(_) => "packed",
			MultilinearPolyVariant::LinearCombination(_) => "linear combination",
			MultilinearPolyVariant::ZeroPadded(_) => "zero padded",
			MultilinearPolyVariant::Composite(_) => "composite",
		}
	}
}

fn systems(c: &mut Case) -> Res {
	let s = Sys::generate(c, &Opts { tables: 3, max_log_size: 4, steps: 10, exps: true });
	c.desc(s.describe());
	let ccs = s.cs.compile().map_err(es)?;
	both(c, "ConstraintSystem", &ccs, None, &show_ccs)?;
	let bytes = encode(&ccs, CANON)?;
	let back = Ccs::<F>::deserialize(&bytes[..], CANON).map_err(es)?;
	ensure_eq!(back.digest::<Groestl256>(), ccs.digest::<Groestl256>(), "digest of the decoded constraint system");
	// instantiated oracles
	let sizes: Vec<usize> = s.tabs.iter().map(|t| t.size).collect();
	let (a, b) = (ccs.oracles.instantiate(&sizes), back.oracles.instantiate(&sizes));
	match (a, b) {
		(Ok(a), Ok(b)) => {
			both(c, "instantiated oracles", &a, None, &show_set)?;
			ensure_eq!(show_set(&b), show_set(&a), "oracles instantiated from the decoded system");
		}
		(a, b) => ensure_eq!(format!("{:?}", b.map(|_| ())), format!("{:?}", a.map(|_| ())), "instantiating the decoded system"),
	}
	for f in &s.features {
		c.count(f, 1);
	}
	Ok(())
}

/// A proof for the system is a proof for the decoded system, both ways.
fn decoded_system_verifies(c: &mut Case) -> Res {
	let s = Sys::generate(c, &Opts { tables: 2, max_log_size: 3, steps: 8, exps: true });
	c.desc(s.describe());
	let full = s.full();
	let p = Params { rate: 1, sec: 20 };
	let r = with_witness::<OptimalUnderlier128b, _>(&s, &full, |ccs, sizes, w| -> Result<(Ccs<F>, Vec<u8>, Dig), String> {
		let d = ccs.digest::<Groestl256>();
		Ok((ccs.clone(), prove::<OptimalUnderlier128b>(ccs, p, &d, &s.boundaries, sizes, w)?, d))
	})?;
	let Ok((ccs, proof, d)) = r else { return Ok(()) };
	let mode = c.pick(&MODES);
	let back = Ccs::<F>::deserialize(&encode(&ccs, mode)?[..], mode).map_err(es)?;
	c.obs(&proof, true);
	verify::<OptimalUnderlier128b>(&back, p, &back.digest::<Groestl256>(), &s.boundaries, &proof).map_err(|e| format!("the decoded system refuses a proof of the original: {e}"))?;
	verify::<OptimalUnderlier128b>(&ccs, p, &d, &s.boundaries, &proof)?;
	let full2 = full.clone();
	let r = with_witness::<OptimalUnderlier128b, _>(&s, &full2, |_, sizes, w| prove::<OptimalUnderlier128b>(&back, p, &back.digest::<Groestl256>(), &s.boundaries, sizes, w))?;
	let proof2 = r.map_err(|e| format!("proving with the decoded system: {e}"))?;
	ensure!(proof2 == proof, "the decoded system's proof differs");
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C04");
	m.rule("generated values of every serializable type of the macros, math, core and m3 crates: bytes against the specified layout, round trips in both modes from contiguous and fragmented buffers, truncation at sampled points, too small write buffers, damaged encodings (values that decode are used and written again); distinct by encoding, non-trivial when longer than one byte");
	m.par("derived", m.n(1500, 60000), derived);
	m.par("circuits", m.n(3000, 200000), circuits);
	m.par("transparents", m.n(6000, 300000), transparents);
	m.par("parts", m.n(1200, 60000), parts);
	m.par("oracle-set", m.n(3000, 200000), oracle_set);
	m.par("systems", m.n(400, 20000), systems);
	m.par("decoded-system-verifies", m.n(60, 3000), decoded_system_verifies);
	m.finish()
}
