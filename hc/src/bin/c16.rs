//! C16: the parameters the protocol chooses reach the requested security level.
use std::collections::HashSet;

use binius_core::{
	fiat_shamir::CanSampleBits,
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver},
	oracle::MultilinearOracleSet,
	piop::{self, CommitMeta},
	protocols::fri::{FRIParams, calculate_n_test_queries},
	reed_solomon::ReedSolomonCode,
	transcript::ProverTranscript,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_ntt::SingleThreadedNTT;
use hc::{pv::*, sysgen::*, *};

/// What remains of 2^-security for the queries, as bits: None when nothing remains.
/// Exact: the other error terms are (2 log_dim + 2^log_len) / |F|.
fn query_bits(field_bits: usize, sec: usize, log_dim: usize, rate: usize) -> Option<f64> {
	if sec > field_bits || log_dim + rate >= 127 {
		return None;
	}
	let scale = field_bits - sec;
	// 2^scale - err, in units of 1/|F|
	let err = 2 * log_dim as u128 + (1u128 << (log_dim + rate));
	if scale < 128 {
		let left = (1u128 << scale).checked_sub(err)?;
		if left == 0 {
			return None;
		}
		Some(field_bits as f64 - (left as f64).log2())
	} else {
		Some(sec as f64)
	}
}
/// bits of soundness per query
fn per_query(rate: usize) -> f64 {
	-(0.5 * (1.0 + 0.5f64.powi(rate as i32))).log2()
}
fn enough(field_bits: usize, sec: usize, log_dim: usize, rate: usize, n: usize) -> Res {
	let Some(need) = query_bits(field_bits, sec, log_dim, rate) else {
		return Err(format!("{n} queries chosen for an unattainable level"));
	};
	let got = n as f64 * per_query(rate);
	ensure!(got >= need - 1e-6, "{n} queries give {got:.3} bits, {need:.3} are needed for security {sec} at rate 2^-{rate}, dimension 2^{log_dim}");
	Ok(())
}
fn sec_level(c: &mut Case) -> usize {
	match c.below(12) {
		0 => c.below(4),
		1 => c.range(90, 140),
		2 => c.pick(&[128usize, 200, 1000, 1074, 1075, 2000, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, 1 << 32, (1 << 32) + 40, 1 << 40, usize::MAX - 3, usize::MAX]),
		_ => c.range(4, 110),
	}
}

fn queries<F: BinaryField + ExtensionField<FA>, FA: BinaryField>(c: &mut Case) -> Res {
	let rate = c.below(6).min(FA::N_BITS);
	let d = c.below((FA::N_BITS - rate).min(40) + 1);
	if d + rate == 0 {
		return Ok(());
	}
	let sec = sec_level(c);
	let code = ReedSolomonCode::<FA>::new(d, rate).map_err(es)?;
	c.desc(format!("field {} bits, code field {} bits, security {sec}, dimension 2^{d}, rate 2^-{rate}", F::N_BITS, FA::N_BITS));
	match calculate_n_test_queries::<F, FA>(sec, &code) {
		Ok(n) => {
			c.count("levels reached", 1);
			c.obs((sec, d, rate, F::N_BITS, n), n > 0);
			enough(F::N_BITS, sec, d, rate, n)
		}
		Err(_) => {
			c.count("levels refused", 1);
			c.obs((sec, d, rate, F::N_BITS), true);
			Ok(())
		}
	}
}

fn schedule<F: BinaryField + ExtensionField<FA>, FA: BinaryField>(c: &mut Case, p: &FRIParams<F, FA>, total: usize, sec: usize, rate: usize) -> Res {
	let (b, ar) = (p.log_batch_size(), p.fold_arities());
	let (ld, ll) = (p.rs_code().log_dim(), p.rs_code().log_len());
	ensure_eq!(ll - ld, rate, "rate of the chosen code");
	ensure_eq!(b + ld, total, "interleaving and dimension against committed variables");
	ensure_eq!(p.n_fold_rounds(), total, "fold rounds");
	ensure_eq!(p.log_len(), total + rate, "length");
	ensure!(ar.iter().all(|a| *a > 0), "an empty fold step: {ar:?}");
	let s: usize = ar.iter().sum();
	ensure!(s < total, "fold steps {ar:?} leave nothing of {total} variables for the final oracle");
	ensure_eq!(s + p.n_final_challenges(), total, "every variable folded once");
	ensure_eq!(p.n_oracles(), ar.len(), "oracles");
	if let Some(a) = ar.first() {
		ensure!(*a >= b, "the first fold step {a} does not cover the interleaving {b}");
		ensure_eq!(p.index_bits(), total + rate - a, "positions a query can take");
	}
	ensure_eq!(p.rs_code().subspace().dim(), ll, "dimension of the evaluation domain");
	c.count("schedules", 1);
	c.obs((total, sec, rate, b, ar.to_vec(), p.n_test_queries()), !ar.is_empty());
	enough(F::N_BITS, sec, ld, rate, p.n_test_queries())
}

fn constant<F: BinaryField + ExtensionField<FA>, FA: BinaryField>(c: &mut Case) -> Res {
	let ntt = SingleThreadedNTT::<FA>::new(FA::N_BITS).map_err(es)?;
	let rate = c.range(0, 4);
	let total = c.range(0, FA::N_BITS + 6);
	let arity = c.range(1, 8);
	let sec = sec_level(c);
	c.desc(format!("{total} variables, security {sec}, rate 2^-{rate}, arity {arity}, code field {} bits", FA::N_BITS));
	match FRIParams::<F, FA>::choose_with_constant_fold_arity(&ntt, total, sec, rate, arity) {
		Ok(p) => schedule(c, &p, total, sec, rate),
		Err(_) => {
			c.count("refused", 1);
			Ok(())
		}
	}
}
/// any sequence of steps is either a workable schedule or refused
fn direct(c: &mut Case) -> Res {
	type F = BinaryField128b;
	type FA = BinaryField32b;
	let (d, b, rate) = (c.range(0, 6), c.range(0, 4), c.range(1, 3));
	let ar: Vec<usize> = (0..c.below(4)).map(|_| c.below(5)).collect();
	let q = c.range(1, 300);
	c.desc(format!("dimension 2^{d} batch 2^{b} steps {ar:?}"));
	match FRIParams::<F, FA>::new(ReedSolomonCode::new(d, rate).map_err(es)?, b, ar.clone(), q) {
		Ok(p) => {
			ensure_eq!(p.fold_arities(), &ar[..], "steps");
			ensure_eq!(p.n_test_queries(), q, "queries");
			schedule(c, &p, d + b, 0, rate)
		}
		Err(_) => {
			c.count("refused", 1);
			Ok(())
		}
	}
}

fn layout(c: &mut Case) -> Res {
	type F = BinaryField128b;
	type FA = BinaryField32b;
	let mut oracles = MultilinearOracleSet::<F>::new();
	let mut cols = vec![];
	let k = c.range(1, 20);
	let top = c.pick(&[3usize, 8, 16, 30]);
	for _ in 0..k {
		let level = c.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7]);
		let n = c.below(top + 1);
		let id = oracles.add_committed(n, level);
		if c.below(4) == 0 {
			let _ = oracles.add_repeating(id, 1);
		}
		cols.push((id, (n + level).saturating_sub(7)));
	}
	let (meta, ix) = piop::make_oracle_commit_meta(&oracles).map_err(es)?;
	let mut seen = HashSet::new();
	ensure_eq!(meta.total_multilins(), cols.len(), "committed columns");
	for (id, m) in &cols {
		let i = *ix.get(id.index()).ok_or("no index for a committed column")?;
		ensure!(i < cols.len() && seen.insert(i), "commitment index {i} out of range or repeated");
		ensure!(meta.range_by_vars(*m).contains(&i), "a column of {m} packed variables is at {i}");
	}
	for id in oracles.ids() {
		if !cols.iter().any(|x| x.0 == id) {
			ensure!(ix.get(id.index()).is_none(), "a column that is not committed has a commitment index");
		}
	}
	let elems: u128 = cols.iter().map(|x| 1u128 << x.1).sum();
	let total = (0..).find(|t| 1u128 << t >= elems).unwrap();
	ensure_eq!(meta.total_vars(), total, "variables of the whole commitment of {elems} elements");
	ensure_eq!(meta.max_n_vars(), cols.iter().map(|x| x.1).max().unwrap(), "largest column");
	let mut at = 0;
	for (m, k) in meta.n_multilins_by_vars().iter().enumerate() {
		ensure_eq!(*k, cols.iter().filter(|x| x.1 == m).count(), "columns of {m} variables");
		ensure_eq!(meta.range_by_vars(m), at..at + k, "range of columns of {m} variables");
		at += k;
	}
	let m2 = CommitMeta::with_vars(cols.iter().map(|x| x.1));
	ensure_eq!((m2.total_vars(), m2.n_multilins_by_vars()), (meta.total_vars(), meta.n_multilins_by_vars()), "layout from column sizes");
	let rate = c.range(0, 4);
	let sec = sec_level(c);
	let mp = BinaryMerkleTreeProver::<F, Groestl256, _>::new(Groestl256ByteCompression);
	c.desc(format!("columns {:?}, security {sec}, rate 2^-{rate}", cols.iter().map(|x| x.1).collect::<Vec<_>>()));
	let mk = || piop::make_commit_params_with_optimal_arity::<F, FA, _>(&meta, mp.scheme(), sec, rate);
	match (mk(), mk()) {
		(Ok(p), Ok(q)) => {
			ensure_eq!(
				(p.log_batch_size(), p.fold_arities(), p.n_test_queries(), p.rs_code().log_dim()),
				(q.log_batch_size(), q.fold_arities(), q.n_test_queries(), q.rs_code().log_dim()),
				"two choices from the same statement"
			);
			ensure!(p.rs_code().subspace().basis() == q.rs_code().subspace().basis(), "two domains from the same statement");
			schedule(c, &p, total, sec, rate)
		}
		(Err(_), Err(_)) => {
			c.count("refused", 1);
			Ok(())
		}
		_ => fail!("parameters chosen once and refused once"),
	}
}

/// Whole proofs: how much randomness the verifier really draws for queries at each level.
fn system<U: Und>(c: &mut Case) -> Res {
	let o = Opts { tables: 2, max_log_size: c.range(3, 8), steps: 4, exps: false };
	let s = Sys::generate(c, &o);
	if s.committed_elems() * 128 < U::BITS.max(256) {
		return Ok(());
	}
	let bounds = s.boundaries.clone();
	let coins = c.u128() as u64;
	// bytes one query position costs
	let cost = |bits: usize| -> usize {
		set_coins(coins);
		let mut t = ProverTranscript::<Coin>::new();
		let _: u32 = t.sample_bits(bits);
		let _: u32 = t.sample_bits(bits);
		events().iter().map(|e| if let Ev::S(n) = e { *n } else { 0 }).sum::<usize>() / 2
	};
	let per = cost(7);
	ensure_eq!(cost(0), per, "HARNESS: cost of a position");
	let rate = c.range(1, 3);
	let mut seen: Vec<(usize, usize, i64)> = vec![];
	let mut levels: Vec<usize> = (0..3).map(|_| c.range(5, 60)).collect();
	levels.extend([c.range(60, 100), c.range(90, 110)]);
	c.desc(format!("U={} rate 2^-{rate} levels {levels:?} {}", U::NAME, s.describe()));
	let full = s.full();
	let mut proofs: Vec<(usize, Vec<u8>)> = vec![];
	for sec in levels.iter().copied() {
		let p = Params { rate, sec };
		with_witness::<U, Res>(&s, &full, |ccs, sizes, w| {
			let d = ccs.digest::<Groestl256>();
			set_coins(coins);
			let proof = U::prove_with::<Coin>(ccs, p, &d, &bounds, sizes, w).map_err(|e| format!("proving failed at security {sec}: {e}"))?;
			set_coins(coins);
			U::verify_with::<Coin>(ccs, p, &d, &bounds, &proof).map_err(|e| format!("an honest proof was rejected at security {sec}: {e}"))?;
			let ev = events();
			let tail = match ev.last() {
				Some(Ev::S(n)) => *n,
				_ => fail!("security {sec}: the verifier draws no query positions: {ev:?}"),
			};
			let need = (query_bits(128, sec, 12, rate).unwrap() / per_query(rate) - 1e-6).ceil() as usize;
			seen.push((sec, need, tail as i64 - (per * need) as i64));
			c.count("query positions drawn", need as u64);
			proofs.push((sec, proof));
			Ok(())
		})??;
	}
	// what is drawn beyond the query positions are the last folding challenges: the same for every level
	// that has the same folding schedule
	for (sec, need, over) in &seen {
		ensure!(*over >= 0 && *over % 16 == 0, "security {sec}: the verifier draws {over} bytes more than {need} query positions of {per} bytes take");
		let most = 16 * (s.committed_elems().next_power_of_two().trailing_zeros() as i64 + 1);
		ensure!(*over <= most, "security {sec}: {over} bytes drawn beyond {need} query positions, at most {most} expected");
	}
	// a proof for one level is not a proof for a higher one
	for (sec, proof) in &proofs {
		for (sec2, need, _) in &seen {
			let n = seen.iter().find(|x| x.0 == *sec).unwrap().1;
			// (a codeword too short to be folded is sent in full, whatever the level)
			let p2 = &proofs.iter().find(|x| x.0 == *sec2).unwrap().1;
			if *need > n && p2 != proof {
				with_witness::<U, Res>(&s, &full, |ccs, _, _| {
					let d = ccs.digest::<Groestl256>();
					set_coins(coins);
					ensure!(U::verify_with::<Coin>(ccs, Params { rate, sec: *sec2 }, &d, &bounds, proof).is_err(), "a proof made for security {sec} is accepted at {sec2}");
					c.count("proofs of a lower level refused", 1);
					Ok(())
				})??;
			}
		}
	}
	c.obs((rate, s.describe(), coins), true);
	Ok(())
}

fn main() {
	type F = BinaryField128b;
	let mut m = Mon::from_args("C16");
	m.rule("soundness bound of the documentation evaluated exactly: (1/2 + 2^-rate/2)^queries + (2 log dim + block length)/|F| <= 2^-security");
	m.par("queries", m.n(200_000, 3_000_000), |c| match c.below(6) {
		0 | 1 => queries::<F, BinaryField32b>(c),
		2 => queries::<F, BinaryField64b>(c),
		3 => queries::<F, BinaryField16b>(c),
		4 => queries::<BinaryField64b, BinaryField32b>(c),
		_ => queries::<BinaryField32b, BinaryField32b>(c),
	});
	m.par("constant arity", m.n(60_000, 1_000_000), |c| match c.below(4) {
		0 | 1 => constant::<F, BinaryField32b>(c),
		2 => constant::<F, BinaryField16b>(c),
		_ => constant::<BinaryField64b, BinaryField32b>(c),
	});
	m.par("explicit steps", m.n(20_000, 400_000), direct);
	m.par("layouts", m.n(30_000, 600_000), layout);
	m.par("whole proofs", m.n(150, 6000), |c| match c.below(3) {
		0 => system::<binius_field::arch::OptimalUnderlier128b>(c),
		1 => system::<binius_field::arch::OptimalUnderlier256b>(c),
		_ => system::<binius_field::arch::OptimalUnderlier512b>(c),
	});
	m.finish()
}
