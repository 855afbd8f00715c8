//! C18: the verifier rejects every false statement and every altered proof.
use binius_core::{
	constraint_system::{
		ConstraintSystem as Ccs,
		channel::{Boundary, FlushDirection},
	},
	oracle::{Constraint, ConstraintPredicate, ConstraintSet, OracleId},
};
use binius_field::{
	Field,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
};
use binius_hash::groestl::Groestl256;
use binius_m3::builder::{B1, B8, B16, B32, B64, B128, ConstraintSystem, WitnessIndex};
use binius_math::{ArithCircuit, ArithExpr};
use hc::{pv::*, sysgen::*, *};

fn params(c: &mut Case) -> Params {
	Params { rate: c.range(1, 2), sec: c.pick(&[20, 50, 100]) }
}
fn fits<U: Und>(s: &Sys) -> bool {
	s.committed_elems() * 128 >= U::BITS.max(256)
}
fn opts(c: &mut Case) -> Opts {
	let small = c.below(3) == 0;
	Opts { tables: 3, max_log_size: if small { 2 } else { 4 }, steps: if small { 12 } else { 7 }, exps: true }
}

/// One false statement per run: committed cells changed so that the statement no longer holds; the
/// prover is given the contents (derived columns recomputed or left as they were).
fn false_witness<U: Und>(c: &mut Case) -> Res {
	let o = opts(c);
	let s = Sys::generate(c, &o);
	let p = params(c);
	c.desc(format!("U={} {p:?} {}", U::NAME, s.describe()));
	if !fits::<U>(&s) {
		return Ok(());
	}
	let orig = s.full();
	for _ in 0..4 {
		let mut full = orig.clone();
		let mut what = vec![];
		for _ in 0..c.range(1, 2) {
			let cells: Vec<(usize, usize)> = s.tabs.iter().enumerate().filter(|(_, t)| t.size > 0).flat_map(|(t, tab)| tab.cols.iter().enumerate().filter(|(_, k)| k.committed()).map(move |(i, _)| (t, i))).collect();
			if cells.is_empty() {
				return Ok(());
			}
			let (t, i) = c.pick(&cells);
			let tab = &s.tabs[t];
			let n = tab.cap() * tab.cols[i].v();
			// prefer the last rows (padding) some of the time
			let pos = match c.below(3) {
				0 => n - 1 - c.below(n.min(tab.cols[i].v() * 2)),
				_ => c.below(n),
			};
			let m = mask(tab.cols[i].lvl);
			let old = full[t][i][pos];
			let new = match c.below(4) {
				0 => old ^ 1,
				1 => 0,
				2 => old ^ (1u128 << c.below(1usize << tab.cols[i].lvl)),
				_ => c.u128() & m,
			};
			full[t][i][pos] = new & m;
			what.push(format!("t{t} {}{i}[{pos}]", def_name(&tab.cols[i].def)));
		}
		let mut truth = full.clone();
		s.rederive(&mut truth);
		s.set_exps(&mut truth);
		let Err(why) = s.check(&truth, true, true) else {
			c.count("mutation-kept-statement-true", 1);
			continue;
		};
		let kind = why.split_whitespace().nth(1).unwrap_or("?").to_string();
		let stale = c.flip();
		let given = if stale { full } else { truth };
		c.count(&format!("false:{kind}"), 1);
		c.obs((&what, &why, stale), true);
		let r = attempt::<U>(&s, &given, &s.boundaries, p, |_| {});
		match r {
			Ok(()) => fail!("accepted a false statement ({why}; changed {what:?}, derived columns {})", if stale { "stale" } else { "recomputed" }),
			Err((stage, _)) => c.count(stage, 1),
		}
	}
	Ok(())
}

/// Proves with the given contents (constraint system changed by `edit` on the prover's side only)
/// and verifies the original statement.
fn attempt<U: Und>(s: &Sys, full: &Full, bounds: &[Boundary<B128>], p: Params, edit: impl FnOnce(&mut Ccs<B128>)) -> Result<(), (&'static str, String)> {
	let r = with_witness::<U, _>(s, full, |ccs, sizes, w| {
		let d = ccs.digest::<Groestl256>();
		let mut pc = ccs.clone();
		edit(&mut pc);
		let proof = no_panic(|| prove::<U>(&pc, p, &d, bounds, sizes, w)).map_err(|e| ("refused-by-prover", e))?;
		no_panic(|| verify::<U>(ccs, p, &d, bounds, &proof)).map_err(|e| ("rejected-by-verifier", e))
	});
	match r {
		Ok(x) => x,
		Err(e) => Err(("refused-by-filler", e)),
	}
}

/// Boundaries that do not balance, given to prover and verifier alike.
fn false_boundary<U: Und>(c: &mut Case) -> Res {
	let o = opts(c);
	let s = Sys::generate(c, &o);
	let p = params(c);
	c.desc(format!("U={} {p:?} {}", U::NAME, s.describe()));
	if !fits::<U>(&s) {
		return Ok(());
	}
	let full = s.full();
	for _ in 0..4 {
		let mut b = s.boundaries.clone();
		let used: Vec<usize> = b.iter().map(|b| b.channel_id).collect();
		let kind = c.below(6);
		let what = match kind {
			0 if !b.is_empty() => {
				let i = c.below(b.len());
				b.remove(i);
				"dropped"
			}
			1 if !b.is_empty() => {
				let i = c.below(b.len());
				b[i].multiplicity += 1;
				"multiplicity"
			}
			2 if !b.is_empty() => {
				let i = c.below(b.len());
				b[i].direction = if b[i].direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push };
				"direction"
			}
			3 if !b.is_empty() => {
				let i = c.below(b.len());
				let n = b[i].values.len();
				if n == 0 {
					continue;
				}
				let k = c.below(n);
				b[i].values[k] += B128::new(1 << c.below(128));
				"value"
			}
			4 => {
				// a channel that exists (with or without flushes)
				if s.n_channels == 0 {
					continue;
				}
				let ch = c.below(s.n_channels);
				let w = s.tabs.iter().flat_map(|t| &t.flushes).find(|f| f.channel == ch).map(|f| f.cols.len()).unwrap_or(1 + c.below(3));
				b.push(Boundary { values: (0..w).map(|_| B128::new(c.u128())).collect(), channel_id: ch, direction: if c.flip() { FlushDirection::Push } else { FlushDirection::Pull }, multiplicity: 1 });
				if used.contains(&ch) { "added-to-bounded-channel" } else { "added-to-other-channel" }
			}
			_ => {
				let ch = s.n_channels + c.below(3);
				b.push(Boundary { values: vec![B128::new(c.u128())], channel_id: ch, direction: FlushDirection::Push, multiplicity: 1 });
				"added-to-missing-channel"
			}
		};
		// does it still balance?
		let s2 = SysView { s: &s, b: &b };
		if s2.balanced(&full) {
			continue;
		}
		c.count(what, 1);
		c.obs((what, &b.iter().map(|b| (b.channel_id, b.multiplicity, b.values.len())).collect::<Vec<_>>()), true);
		match attempt::<U>(&s, &full, &b, p, |_| {}) {
			Ok(()) => fail!("accepted unbalanced boundaries ({what})"),
			Err((stage, _)) => c.count(stage, 1),
		}
	}
	Ok(())
}
struct SysView<'a> {
	s: &'a Sys,
	b: &'a [Boundary<B128>],
}
impl SysView<'_> {
	fn balanced(&self, full: &Full) -> bool {
		let n = self.b.iter().map(|b| b.channel_id + 1).max().unwrap_or(0).max(self.s.n_channels);
		(0..n).all(|ch| {
			let mut bal = self.s.channel(full, ch);
			for x in self.b.iter().filter(|b| b.channel_id == ch) {
				*bal.entry(x.values.iter().map(|v| v.val()).collect()).or_default() += x.multiplicity as i64 * if x.direction == FlushDirection::Push { 1 } else { -1 };
			}
			bal.values().all(|m| *m == 0)
		})
	}
}

/// The prover runs a weaker constraint system on a witness that violates the real one.
fn weaker_system<U: Und>(c: &mut Case) -> Res {
	let o = opts(c);
	let s = Sys::generate(c, &o);
	let p = params(c);
	c.desc(format!("U={} {p:?} {}", U::NAME, s.describe()));
	if !fits::<U>(&s) {
		return Ok(());
	}
	let ccs = s.cs.compile().map_err(es)?;
	for _ in 0..4 {
		// the ways to weaken that apply
		let sel_flush: Vec<usize> = (0..ccs.flushes.len()).filter(|i| !ccs.flushes[*i].selectors.is_empty()).collect();
		let kind = c.below(6);
		let mut full = s.full();
		let what: String;
		let edit: Box<dyn Fn(&mut Ccs<B128>)>;
		match kind {
			0 | 1 => {
				if ccs.table_constraints.is_empty() {
					continue;
				}
				let i = c.below(ccs.table_constraints.len());
				let j = c.below(ccs.table_constraints[i].constraints.len());
				what = format!("constraint-{}", if kind == 0 { "zeroed" } else { "dropped" });
				edit = Box::new(move |cs| {
					if kind == 1 && cs.table_constraints[i].constraints.len() > 1 {
						cs.table_constraints[i].constraints.remove(j);
					} else {
						// same degree, always zero: x^d + x^d would fold away, so use e + e
						let e = cs.table_constraints[i].constraints[j].composition.clone();
						let d = e.degree().max(1) as u64;
						let z = ArithExpr::Const(B128::ZERO) * ArithExpr::Var(0).pow(d);
						cs.table_constraints[i].constraints[j].composition = ArithCircuit::from(&z);
					}
				});
			}
			2 => {
				if ccs.non_zero_oracle_ids.is_empty() {
					continue;
				}
				what = "nonzero-dropped".into();
				edit = Box::new(|cs| {
					cs.non_zero_oracle_ids.pop();
				});
			}
			3 => {
				if sel_flush.is_empty() {
					continue;
				}
				let i = c.pick(&sel_flush);
				what = "selector-dropped".into();
				edit = Box::new(move |cs| {
					cs.flushes[i].selectors.pop();
				});
			}
			4 => {
				if ccs.flushes.is_empty() {
					continue;
				}
				let i = c.below(ccs.flushes.len());
				what = "flush-dropped".into();
				edit = Box::new(move |cs| {
					cs.flushes.remove(i);
				});
			}
			_ => {
				if ccs.exponents.is_empty() {
					continue;
				}
				what = "exponent-dropped".into();
				edit = Box::new(|cs| {
					cs.exponents.pop();
				});
			}
		}
		// a violation somewhere
		let cells: Vec<(usize, usize)> = s.tabs.iter().enumerate().filter(|(_, t)| t.size > 0).flat_map(|(t, tab)| tab.cols.iter().enumerate().filter(|(_, k)| k.committed() || k.exp()).map(move |(i, _)| (t, i))).collect();
		if cells.is_empty() {
			continue;
		}
		let mut truth = full.clone();
		let mut bad = false;
		for _ in 0..6 {
			let (t, i) = c.pick(&cells);
			let tab = &s.tabs[t];
			let pos = c.below(tab.cap() * tab.cols[i].v());
			let m = mask(tab.cols[i].lvl);
			full = s.full();
			full[t][i][pos] ^= 1 | (c.u128() & m);
			truth = full.clone();
			s.rederive_virtual(&mut truth);
			// Without exponents the prover recomputes nothing it no longer knows about.
			if s.check(&truth, true, kind == 5).is_err() {
				bad = true;
				break;
			}
		}
		if !bad {
			continue;
		}
		if kind != 5 {
			s.set_exps(&mut truth);
			if s.check(&truth, true, true).is_ok() {
				continue;
			}
		} else if s.check(&truth, true, true).is_ok() {
			continue;
		}
		c.count(&what, 1);
		c.obs(&what, true);
		match attempt::<U>(&s, &truth, &s.boundaries, p, |cs| edit(cs)) {
			Ok(()) => {
				// The edit may have left exponent results to be recomputed into a true statement.
				let mut t2 = truth.clone();
				s.set_exps(&mut t2);
				ensure!(s.check(&t2, true, true).is_ok(), "accepted a false statement from a prover with a weaker system ({what})");
			}
			Err((stage, _)) => c.count(stage, 1),
		}
	}
	Ok(())
}

/// The committed result of an exponentiation is not the power: the prover writes the right result
/// into a spare column instead.
fn wrong_power<U: Und>(c: &mut Case) -> Res {
	let p = params(c);
	match c.below(4) {
		0 => wrong_power_in::<U, B8>(c, p),
		1 => wrong_power_in::<U, B16>(c, p),
		2 => wrong_power_in::<U, B32>(c, p),
		_ => wrong_power_in::<U, B64>(c, p),
	}
}
fn wrong_power_in<U: Und, F>(c: &mut Case, p: Params) -> Res
where
	F: binius_field::TowerField,
	B128: binius_field::ExtensionField<F>,
	PackedType<U, B128>: Pk + binius_field::PackedExtension<F>,
{
	let dynamic = c.flip();
	let log_n = c.range(3, 6);
	let nbits = c.range(1, 20.min(1 << F::TOWER_LEVEL));
	let mut cs = ConstraintSystem::<B128>::new();
	let mut t = cs.add_table("t");
	t.require_power_of_two_size();
	let tid = t.id();
	let bits: Vec<_> = (0..nbits).map(|i| t.add_committed::<B1, 1>(format!("b{i}"))).collect();
	let base = t.add_committed::<F, 1>("base");
	let spare = t.add_committed::<F, 1>("spare");
	let g = F::MULTIPLICATIVE_GENERATOR;
	let exps = c.range(1, 2);
	let mut results = vec![];
	for k in 0..exps {
		results.push(if dynamic { t.add_dynamic_exp::<F>(format!("r{k}"), &bits, base) } else { t.add_static_exp::<F>(format!("r{k}"), &bits, g) });
	}
	let _ = t;
	c.desc(format!("U={} {p:?} dynamic={dynamic} rows=2^{log_n} bits={nbits} level={} exps={exps}", U::NAME, F::TOWER_LEVEL));
	let ccs = cs.compile().map_err(es)?;
	let find = |n: &str| -> OracleId { ccs.oracles.iter().find(|(_, o)| o.name.as_deref().is_some_and(|x| x == n || x.ends_with(&format!("::{n}")))).map(|x| x.0).unwrap_or_else(|| panic!("oracle {n}")) };
	let spare_id = find("spare");
	let n = 1usize << log_n;
	let bad = c.below(n);
	let bad_k = c.below(exps);
	let honest = c.below(4) == 0;
	let mut mem = binius_compute::cpu::alloc::CpuComputeAllocator::<PackedType<U, B128>>::new(1 << 12);
	let alloc = mem.into_bump_allocator();
	use binius_compute::ComputeHolder as _;
	let mut w = WitnessIndex::<PackedType<U, B128>>::new(&cs, &alloc);
	let mut expect = vec![];
	{
		let ti = w.init_table(tid, n).map_err(es)?;
		let mut seg = ti.full_segment();
		let mut bv = vec![];
		for b in &bits {
			let mut m = seg.get_dyn_mut(b.id()).map_err(es)?;
			let v: Vec<bool> = (0..n).map(|_| c.flip()).collect();
			for (i, x) in v.iter().enumerate() {
				m.set(i, if *x { B128::ONE } else { B128::ZERO }).map_err(es)?;
			}
			bv.push(v);
		}
		let msk = mask(F::TOWER_LEVEL as u8);
		let bases: Vec<B128> = (0..n).map(|_| B128::new(c.u128() & msk)).collect();
		for (i, x) in bases.iter().enumerate() {
			seg.get_dyn_mut(base.id()).map_err(es)?.set(i, *x).map_err(es)?;
			seg.get_dyn_mut(spare.id()).map_err(es)?.set(i, B128::ZERO).map_err(es)?;
		}
		for (i, b) in bases.iter().enumerate() {
			let b = if dynamic { *b } else { B128::from(g) };
			let mut r = B128::ONE;
			for k in (0..nbits).rev() {
				r = r.square();
				if bv[k][i] {
					r *= b;
				}
			}
			expect.push(r);
		}
		for (k, r) in results.iter().enumerate() {
			let mut m = seg.get_dyn_mut(r.id()).map_err(es)?;
			for i in 0..n {
				let mut x = expect[i];
				if !honest && i == bad && k == bad_k {
					x += B128::ONE;
				}
				m.set(i, x).map_err(es)?;
			}
		}
	}
	let sizes = w.table_sizes();
	let w = w.into_multilinear_extension_index();
	let d = ccs.digest::<Groestl256>();
	let mut pc = ccs.clone();
	if !honest {
		pc.exponents[bad_k].exp_result_id = spare_id;
	}
	c.obs((dynamic, log_n, nbits, F::TOWER_LEVEL, honest), true);
	let proof = match no_panic(|| prove::<U>(&pc, p, &d, &[], &sizes, w)) {
		Ok(x) => x,
		Err(e) => {
			ensure!(!honest, "proving a satisfied exponentiation failed: {e}");
			c.count("refused-by-prover", 1);
			return Ok(());
		}
	};
	let v = no_panic(|| verify::<U>(&ccs, p, &d, &[], &proof));
	if honest {
		ensure!(v.is_ok(), "an honest exponentiation proof was rejected: {v:?}");
		c.count("honest-accepted", 1);
	} else {
		ensure!(v.is_err(), "accepted a committed exponentiation result that is not the power");
		c.count("rejected-by-verifier", 1);
	}
	Ok(())
}

/// An honest proof presented for another statement, or altered.
fn altered<U: Und>(c: &mut Case) -> Res {
	let mut o = opts(c);
	o.steps = o.steps.min(8);
	let s = Sys::generate(c, &o);
	let p = params(c);
	c.desc(format!("U={} {p:?} {}", U::NAME, s.describe()));
	// (with nothing to prove, a proof does not depend on any challenge)
	let nothing = s.tabs.iter().all(|t| t.size == 0 || (t.zeros.is_empty() && t.flushes.is_empty() && !t.cols.iter().any(|k| k.nonzero || k.exp())));
	if !fits::<U>(&s) || nothing {
		return Ok(());
	}
	let full = s.full();
	let (ccs, d, sizes, proof) = with_witness::<U, _>(&s, &full, |ccs, sizes, w| {
		let d = ccs.digest::<Groestl256>();
		let proof = no_panic(|| prove::<U>(ccs, p, &d, &s.boundaries, sizes, w))?;
		Ok::<_, String>((ccs.clone(), d, sizes.to_vec(), proof))
	})??;
	let _ = sizes;
	let ver = |ccs: &Ccs<B128>, p: Params, d: &Dig, b: &[Boundary<B128>], proof: &[u8]| no_panic(|| verify::<U>(ccs, p, d, b, proof));
	ver(&ccs, p, &d, &s.boundaries, &proof).map_err(|e| format!("an honest proof was rejected: {e}"))?;
	c.count("honest-accepted", 1);
	c.obs((&s.describe(), proof.len()), true);
	for _ in 0..12 {
		let n = proof.len();
		let mut q = proof.clone();
		let what = match c.below(4) {
			0 | 1 => {
				// spread over the proof, with more weight on its ends
				let i = match c.below(4) {
					0 => c.below(n.min(400)),
					1 => n - 1 - c.below(n.min(64)),
					_ => c.below(n),
				};
				let x = if c.flip() { 1 << c.below(8) } else { 1 + c.below(255) as u8 };
				q[i] ^= x;
				format!("byte {i} of {n} xor {x:#x}")
			}
			2 => {
				let k = if c.flip() { 1 + c.below(40.min(n)) } else { 1 + c.below(n) };
				q.truncate(n - k);
				format!("{k} bytes removed at the end")
			}
			_ => {
				let k = 1 + c.below(40);
				let zero = c.flip();
				q.extend((0..k).map(|_| if zero { 0u8 } else { c.below(256) as u8 }));
				format!("{k} bytes appended")
			}
		};
		c.count("altered-proofs", 1);
		ensure!(ver(&ccs, p, &d, &s.boundaries, &q).is_err(), "accepted an altered proof: {what}");
	}
	// 16-byte aligned field elements of the last (decommitment) part exchanged
	if proof.len() > 200 {
		let n = proof.len() / 16;
		let (i, j) = (c.below(n) * 16, c.below(n) * 16);
		let mut q = proof.clone();
		for k in 0..16 {
			q.swap(i + k, j + k);
		}
		if q != proof {
			c.count("altered-proofs", 1);
			ensure!(ver(&ccs, p, &d, &s.boundaries, &q).is_err(), "accepted a proof with blocks {i} and {j} exchanged");
		}
	}
	// another digest
	let mut d2 = d;
	let i = c.below(32);
	d2[i] ^= 1 << c.below(8);
	ensure!(ver(&ccs, p, &d2, &s.boundaries, &proof).is_err(), "accepted with another constraint system digest");
	// other boundaries
	let mut alts: Vec<(&str, Vec<Boundary<B128>>)> = vec![];
	let mut b = s.boundaries.clone();
	b.push(Boundary { values: vec![B128::ONE], channel_id: c.below(s.n_channels + 1), direction: FlushDirection::Push, multiplicity: c.below(2) as u64 });
	alts.push(("one more", b));
	if !s.boundaries.is_empty() {
		let i = c.below(s.boundaries.len());
		let mut b = s.boundaries.clone();
		b.remove(i);
		alts.push(("one less", b));
		let mut b = s.boundaries.clone();
		b[i].multiplicity ^= 1;
		alts.push(("other multiplicity", b));
		let mut b = s.boundaries.clone();
		b[i].direction = if b[i].direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push };
		alts.push(("other direction", b));
		let mut b = s.boundaries.clone();
		if let Some(v) = b[i].values.first_mut() {
			*v += B128::new(1 << c.below(128));
		}
		alts.push(("other value", b));
		let mut b = s.boundaries.clone();
		let x = b[i].clone();
		b.push(x.clone());
		b.push(Boundary { direction: if x.direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push }, ..x });
		alts.push(("a cancelling pair added", b));
	}
	for (what, b) in alts {
		if b == s.boundaries {
			continue;
		}
		c.count("other-boundaries", 1);
		ensure!(ver(&ccs, p, &d, &b, &proof).is_err(), "accepted with other boundaries ({what})");
	}
	// other parameters, when they make a difference to the proof at all
	for p2 in [Params { rate: 3 - p.rate, ..p }, Params { sec: if p.sec == 50 { 100 } else { 50 }, ..p }] {
		let len2 = with_witness::<U, _>(&s, &full, |ccs, sizes, w| no_panic(|| prove::<U>(ccs, p2, &d, &s.boundaries, sizes, w)))?.map(|x| x.len());
		if len2.as_ref().is_ok_and(|l| *l != proof.len()) {
			c.count("other-parameters", 1);
			ensure!(ver(&ccs, p2, &d, &s.boundaries, &proof).is_err(), "accepted under other parameters {p2:?}");
		}
	}
	Ok(())
}

/// Constraints that mention no column: a non-zero constant can never be proved to be zero.
fn constant_constraint<U: Und>(c: &mut Case) -> Res {
	let o = opts(c);
	let s = Sys::generate(c, &o);
	let p = params(c);
	c.desc(format!("U={} {p:?} {}", U::NAME, s.describe()));
	if !fits::<U>(&s) {
		return Ok(());
	}
	let t = c.below(s.tabs.len());
	let k = B128::new(if c.below(3) == 0 { 0 } else { c.u128() });
	let alone = c.flip();
	let lie = c.flip();
	let add = |ccs: &mut Ccs<B128>, k: B128| {
		let extra = Constraint { name: "constant".into(), composition: ArithCircuit::constant(k), predicate: ConstraintPredicate::Zero };
		match ccs.table_constraints.iter_mut().find(|x| x.table_id == t) {
			Some(x) if !alone => x.constraints.push(extra),
			_ => ccs.table_constraints.push(ConstraintSet { table_id: t, log_values_per_row: 0, oracle_ids: vec![], constraints: vec![extra] }),
		}
	};
	let full = s.full();
	let r = with_witness::<U, _>(&s, &full, |ccs, sizes, w| {
		let (mut pc, mut vc) = (ccs.clone(), ccs.clone());
		add(&mut vc, k);
		add(&mut pc, if lie { B128::ZERO } else { k });
		let d = vc.digest::<Groestl256>();
		let proof = no_panic(|| prove::<U>(&pc, p, &d, &s.boundaries, sizes, w)).map_err(|e| format!("prover: {e}"))?;
		no_panic(|| verify::<U>(&vc, p, &d, &s.boundaries, &proof)).map_err(|e| format!("verifier: {e}"))
	})?;
	let holds = k == B128::ZERO || s.tabs[t].size == 0;
	c.obs((s.describe(), holds, alone, lie), !holds);
	c.count(if holds { "constant-holds" } else { "constant-violated" }, 1);
	match r {
		Ok(()) if !holds => fail!("accepted although the constraint {k} = 0 of table {t} is violated on every row (alone={alone}, lie={lie})"),
		// the prover need not support constraints without columns
		Err(_) if holds => {
			c.count("prover-declined", 1);
			Ok(())
		}
		_ => Ok(()),
	}
}

fn main() {
	let mut m = Mon::from_args("C18");
	m.rule("generated systems made false in the reference model's judgement (changed committed cells with stale or recomputed derived columns, unbalanced boundaries, provers running a weakened system, redirected exponentiation results) and honest proofs with altered bytes, digests, boundaries or parameters: verify must return an error; every run is preceded or accompanied by honest acceptances; non-trivial when the statement really is false or the proof really differs");
	macro_rules! by_u {
		($f:ident) => {
			|c: &mut Case| match c.below(3) {
				0 => $f::<OptimalUnderlier128b>(c),
				1 => $f::<OptimalUnderlier256b>(c),
				_ => $f::<OptimalUnderlier512b>(c),
			}
		};
	}
	let n = m.n(400, 12000);
	m.par("false-witness", n, by_u!(false_witness));
	let n = m.n(150, 5000);
	m.par("false-boundary", n, by_u!(false_boundary));
	let n = m.n(200, 6000);
	m.par("weaker-system", n, by_u!(weaker_system));
	let n = m.n(150, 4000);
	m.par("constant-constraint", n, by_u!(constant_constraint));
	let n = m.n(80, 2000);
	m.par("wrong-power", n, by_u!(wrong_power));
	let n = m.n(200, 6000);
	m.par("altered", n, by_u!(altered));
	m.finish();
}
