//! C20: witness validation agrees exactly with the constraint system's meaning.
use binius_core::{oracle::{Constraint,ConstraintSet,ConstraintPredicate}, constraint_system::{
	channel::{Boundary, FlushDirection},
	validate::validate_witness,
}};
use binius_math::ArithCircuit;
use binius_field::{
	Field,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
};
use binius_m3::builder::{B128, WitnessIndex};
use hc::{pv::*, sysgen::*, *};

fn valid<U: Und>(s: &Sys, full: &Full, b: &[Boundary<B128>]) -> Result<Result<(), String>, String>
where
	PackedType<U, B128>: Pk,
{
	with_witness::<U, _>(s, full, |ccs, sizes, w| guard(|| validate_witness(ccs, b, sizes, &w).map_err(es)))?.map_err(|e| format!("validation panicked: {e}"))
}
fn balanced(s: &Sys, full: &Full, b: &[Boundary<B128>]) -> bool {
	let n = b.iter().map(|b| b.channel_id + 1).max().unwrap_or(0).max(s.n_channels);
	(0..n).all(|ch| {
		let mut bal: std::collections::HashMap<Vec<u128>, i128> = s.channel(full, ch).into_iter().map(|(k, m)| (k, m as i128)).collect();
		for x in b.iter().filter(|b| b.channel_id == ch) {
			*bal.entry(x.values.iter().map(|v| v.val()).collect()).or_default() += x.multiplicity as i128 * if x.direction == FlushDirection::Push { 1 } else { -1 };
		}
		bal.values().all(|m| *m == 0)
	})
}

fn verdict<U: Und>(c: &mut Case) -> Res {
	let tiny = c.flip();
	let s = Sys::generate(c, &Opts { tables: 3, max_log_size: if tiny { 2 } else { 4 }, steps: if tiny { 12 } else { 8 }, exps: true });
	c.desc(format!("U={} {}", U::NAME, s.describe()));
	let orig = s.full();
	if let Err(e) = s.check(&orig, true, true) {
		fail!("harness: generated system not satisfied: {e}");
	}
	valid::<U>(&s, &orig, &s.boundaries)?.map_err(|e| format!("a satisfying witness was refused: {e}"))?;
	c.count("accepted", 1);
	for _ in 0..8 {
		let mut full = orig.clone();
		let mut what = vec![];
		let mut b = s.boundaries.clone();
		let cells: Vec<(usize, usize)> = s
			.tabs
			.iter()
			.enumerate()
			.filter(|(_, t)| t.size > 0)
			.flat_map(|(t, tab)| tab.cols.iter().enumerate().filter(|(_, k)| !matches!(k.def, Def::Packed { .. })).map(move |(i, _)| (t, i)))
			.collect();
		if !cells.is_empty() && c.below(8) != 0 {
			for _ in 0..c.range(1, 2) {
				let (t, i) = c.pick(&cells);
				let tab = &s.tabs[t];
				let n = tab.cap() * tab.cols[i].v();
				let pos = match c.below(3) {
					0 => n - 1 - c.below(n.min(tab.cols[i].v() * 2)),
					_ => c.below(n),
				};
				let m = mask(tab.cols[i].lvl);
				let old = full[t][i][pos];
				full[t][i][pos] = m & match c.below(4) {
					0 => old ^ 1,
					1 => 0,
					2 => old ^ (1u128 << c.below(1usize << tab.cols[i].lvl)),
					_ => c.u128(),
				};
				what.push(format!("t{t} {}{i}[{pos}]", def_name(&tab.cols[i].def)));
			}
		}
		if what.is_empty() || c.below(6) == 0 {
			let nch = s.n_channels;
			match c.below(4) {
				0 if !b.is_empty() => {
					let i = c.below(b.len());
					b[i].multiplicity = match c.below(4) {
						0 => b[i].multiplicity.wrapping_neg(),
						1 => b[i].multiplicity.wrapping_add(1 << 63),
						_ => b[i].multiplicity.wrapping_add(1),
					};
				}
				1 if !b.is_empty() => {
					let i = c.below(b.len());
					b.remove(i);
				}
				2 if !b.is_empty() => {
					let i = c.below(b.len());
					if let Some(v) = b[i].values.last_mut() {
						*v += B128::ONE;
					}
				}
				_ => {
					let ch = c.below(nch + 2);
					let w = s.tabs.iter().flat_map(|t| &t.flushes).find(|f| f.channel == ch).map(|f| f.cols.len()).unwrap_or(1);
					let x = Boundary { values: vec![B128::new(c.u128()); w], channel_id: ch, direction: FlushDirection::Push, multiplicity: 1 };
					b.push(x.clone());
					if c.flip() && ch < nch {
						b.push(Boundary { direction: FlushDirection::Pull, ..x });
					}
				}
			}
			what.push("boundaries".into());
		}
		if c.flip() {
			s.rederive_virtual(&mut full);
			what.push("recomputed".into());
		} else {
			s.rederive_packed(&mut full);
		}
		// the reference: everything but exponentiation (which validation leaves to the prover)
		let plain = s.check_but_channels(&full, true, false);
		let missing = b.iter().any(|x| x.channel_id >= s.n_channels);
		let expected = match &plain {
			Err(e) => Err(e.clone()),
			Ok(()) if missing => Err("a boundary on a channel that does not exist".into()),
			Ok(()) if !balanced(&s, &full, &b) => Err("channels unbalanced".into()),
			Ok(()) => Ok(()),
		};
		let got = valid::<U>(&s, &full, &b)?;
		let kind = match &expected {
			Ok(()) => "still-satisfied".to_string(),
			Err(e) => format!("violated:{}", e.split_whitespace().filter(|w| !w.starts_with('t') || w.len() > 3).nth(0).unwrap_or("?")),
		};
		c.count(&kind, 1);
		c.obs((&what, &kind), expected.is_err());
		match (&expected, &got) {
			(Ok(()), Err(e)) => fail!("refused a satisfying witness ({what:?}): {e}"),
			(Err(e), Ok(())) => fail!("accepted a violating witness ({what:?}): {e}"),
			_ => {}
		}
	}
	Ok(())
}

/// Constraints that mention no column at all still have to hold on every row.
fn constants<U: Und>(c: &mut Case) -> Res
where
	PackedType<U, B128>: Pk,
{
	let s = Sys::generate(c, &Opts { tables: 2, max_log_size: 3, steps: 6, exps: false });
	c.desc(format!("U={} {}", U::NAME, s.describe()));
	let t = c.below(s.tabs.len());
	let k = B128::new(if c.flip() { 0 } else { c.u128() });
	let zero = k == B128::ZERO;
	let empty = s.tabs[t].size == 0;
	let bounds = s.boundaries.clone();
	let bad = c.flip();
	let got = with_witness::<U, _>(&s, &s.full(), |ccs, sizes, w| {
		let mut ccs = ccs.clone();
		let extra = Constraint { name: "constant".into(), composition: ArithCircuit::constant(k), predicate: ConstraintPredicate::Zero };
		match ccs.table_constraints.iter_mut().find(|x| x.table_id == t) {
			Some(x) if bad => x.constraints.push(extra),
			_ => ccs.table_constraints.push(ConstraintSet { table_id: t, log_values_per_row: 0, oracle_ids: vec![], constraints: vec![extra] }),
		}
		guard(|| validate_witness(&ccs, &bounds, sizes, &w).map_err(es))
	})?
	.map_err(|e| format!("validation panicked: {e}"))?;
	c.obs((zero, empty, bad), !zero && !empty);
	c.count(if zero || empty { "constant-holds" } else { "constant-violated" }, 1);
	match got {
		Ok(()) if !zero && !empty => fail!("accepted a witness although the constraint {k} = 0 is violated on every row of table {t}"),
		Err(e) if zero || empty => fail!("refused a satisfying witness with a trivial constant constraint: {e}"),
		_ => Ok(()),
	}
}

/// The same through the table fillers and the M3-level entry point users call.
fn m3_entry<U: Und>(c: &mut Case) -> Res
where
	PackedType<U, B128>: Pk,
{
	let s = Sys::generate(c, &Opts { tables: 3, max_log_size: 4, steps: 8, exps: true });
	c.desc(format!("U={} {}", U::NAME, s.describe()));
	let bounds = s.boundaries.clone();
	with_filled::<U, Res>(c, &s, |ccs, sizes, w| {
		guard(|| validate_witness(ccs, &bounds, sizes, &w).map_err(es))
			.map_err(|e| format!("validation panicked: {e}"))?
			.map_err(|e| format!("a filled satisfying witness was refused: {e}"))
	})??;
	c.obs(s.describe(), true);
	Ok(())
}

fn main() {
	let _ = std::any::type_name::<WitnessIndex<'static, 'static, PackedType<OptimalUnderlier128b, B128>>>();
	let mut m = Mon::from_args("C20");
	m.rule("generated systems with their satisfying contents and with changed cells (committed, derived, constant, structured; rows and padding) and boundaries: validate_witness must return Ok exactly when the reference model finds no violated constraint, wrong derived value, zero in a non-zero column or unbalanced channel; non-trivial when something is violated");
	macro_rules! by_u {
		($f:ident) => {
			|c: &mut Case| match c.below(3) {
				0 => $f::<OptimalUnderlier128b>(c),
				1 => $f::<OptimalUnderlier256b>(c),
				_ => $f::<OptimalUnderlier512b>(c),
			}
		};
	}
	let n = m.n(1500, 40000);
	m.par("verdict", n, by_u!(verdict));
	let n = m.n(200, 4000);
	m.par("constants", n, by_u!(constants));
	let n = m.n(300, 8000);
	m.par("filled", n, by_u!(m3_entry));
	m.finish();
}
