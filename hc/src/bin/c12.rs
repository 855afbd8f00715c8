//! C12: sumcheck, eq-ind sumcheck and zerocheck: honest runs are accepted with true claims; false or altered runs are not.
use std::slice;

use binius_compute::{ComputeData, ComputeHolder, ComputeLayer, ComputeMemory, alloc::ComputeAllocator, cpu::layer::CpuLayerHolder, ops::eq_ind_partial_eval};
use binius_core::{
	composition::{BivariateProduct, IndexComposition},
	fiat_shamir::CanSample,
	protocols::sumcheck::{
		self, BatchSumcheckOutput, CompositeSumClaim, EqIndSumcheckClaim, SumcheckClaim, ZerocheckClaim, batch_verify_zerocheck,
		eq_ind::{ClaimsSortingOrder, reduce_to_regular_sumchecks, verify_sumcheck_outputs},
		front_loaded::BatchVerifier,
		prove::{
			RegularSumcheckProver, SumcheckProver, ZerocheckProverImpl, batch_prove_zerocheck,
			eq_ind::{EqIndSumcheckProverBuilder, eq_ind_expand},
			front_loaded::BatchProver,
		},
		v3::{bivariate_mlecheck::BivariateMLEcheckProver, bivariate_product::BivariateSumcheckProver},
	},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::{arith_circuit::ArithCircuitPoly, layer::FastCpuLayerHolder};
use binius_field::tower::CanonicalTowerFamily;
use binius_hal::make_portable_backend;
use binius_math::{EvaluationOrder, IsomorphicEvaluationDomainFactory};
use hc::*;

const ORDERS: [EvaluationOrder; 2] = [EvaluationOrder::LowToHigh, EvaluationOrder::HighToLow];

/// one group of claims over the same columns
struct Group<P: PackedField, FB> {
	n: usize,
	cols: Vec<Col<P>>,
	polys: Vec<Poly<FB>>,
	sums: Vec<P::Scalar>,
}
fn rand_col<F1, FB, F, P>(c: &mut Case, n: usize) -> Col<P>
where
	F1: TowerField + Sc,
	FB: TowerField + Sc,
	F: TowerField + Sc + ExtensionField<F1> + ExtensionField<FB>,
	P: PackedField<Scalar = F> + PackedExtension<F1> + PackedExtension<FB> + PackedExtension<F> + 'static,
{
	match c.below(3) {
		0 => col_of::<F1, P>(n, &scalars(c, 1 << n)),
		1 => col_of::<FB, P>(n, &scalars(c, 1 << n)),
		_ => col_of::<P::Scalar, P>(n, &scalars(c, 1 << n)),
	}
}
/// rows of a group
fn row<F: Field, P: PackedField<Scalar = F>>(cols: &[Col<P>], i: usize) -> Vec<F> {
	cols.iter().map(|x| x.vals[i]).collect()
}
/// compare reported evaluations with the columns
fn judge<P: PackedField>(c: &str, cols: &[Col<P>], pt: &[P::Scalar], evals: &[P::Scalar]) -> Verdict {
	if evals.len() != cols.len() {
		return Verdict::False(format!("{c}: {} evaluations for {} columns", evals.len(), cols.len()));
	}
	for (i, (x, e)) in cols.iter().zip(evals).enumerate() {
		if mle_eval(&x.vals, pt) != *e {
			return Verdict::False(format!("{c}: column {i}"));
		}
	}
	Verdict::True
}
fn judge_all<P: PackedField, FB>(gs: &[Group<P, FB>], pts: &[Vec<P::Scalar>], evals: &[Vec<P::Scalar>]) -> Verdict {
	if evals.len() != gs.len() {
		return Verdict::False(format!("{} evaluation groups for {} claims", evals.len(), gs.len()));
	}
	for (k, (g, e)) in gs.iter().zip(evals).enumerate() {
		match judge(&format!("claim {k}"), &g.cols, &pts[k], e) {
			Verdict::True => {}
			v => return v,
		}
	}
	Verdict::True
}
/// perturb some sums so that at least one claim is false; errors are also chosen to cancel under naive batching
fn falsify<P: PackedField<Scalar: Sc>, FB>(c: &mut Case, gs: &[Group<P, FB>]) -> Option<Vec<Vec<P::Scalar>>> {
	let flat: Vec<(usize, usize)> = gs.iter().enumerate().flat_map(|(i, g)| (0..g.sums.len()).map(move |j| (i, j))).collect();
	if flat.is_empty() {
		return None;
	}
	let mut s: Vec<Vec<P::Scalar>> = gs.iter().map(|g| g.sums.clone()).collect();
	let d = match c.below(3) {
		0 => P::Scalar::ONE,
		_ => P::Scalar::f(c.u128() | 1),
	};
	let (i, j) = c.pick(&flat);
	s[i][j] += d;
	if c.flip() {
		let (k, l) = c.pick(&flat);
		if (k, l) != (i, j) {
			s[k][l] += d;
		}
	}
	Some(s)
}
fn err<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, Verdict> {
	r.map_err(|e| Verdict::Reject(e.to_string()))
}
fn flat(r: Result<Verdict, Verdict>) -> Verdict {
	match r {
		Ok(v) | Err(v) => v,
	}
}

fn groups<F1, FB, F, P>(c: &mut Case, max_n: usize, asc: bool, max_deg: usize) -> Vec<Group<P, FB>>
where
	F1: TowerField + Sc,
	FB: TowerField + Sc,
	F: TowerField + Sc + ExtensionField<F1> + ExtensionField<FB>,
	P: PackedField<Scalar = F> + PackedExtension<F1> + PackedExtension<FB> + PackedExtension<F> + 'static,
{
	let k = c.range(1, 3);
	let mut gs: Vec<Group<P, FB>> = (0..k)
		.map(|_| {
			let n = c.range(0, max_n);
			let m = c.range(1, 4);
			let cols: Vec<Col<P>> = (0..m).map(|_| rand_col::<F1, FB, F, P>(c, n)).collect();
			let np = c.range(1, 3);
			let polys = (0..np).map(|_| Poly::<FB>::random(c, m, max_deg)).collect();
			Group { n, cols, polys, sums: vec![] }
		})
		.collect();
	gs.sort_by_key(|g| g.n);
	if !asc {
		gs.reverse();
	}
	gs
}

/// number of message-then-draw rounds in the recorded trace
fn rounds(ev: &[Ev]) -> usize {
	ev.windows(2).filter(|w| matches!(w, [Ev::O(_), Ev::S(_)])).count()
}

/// regular sumcheck, either batching style
fn regular<F1, FB, FD, F, P>(c: &mut Case) -> Res
where
	F1: TowerField + Sc,
	FB: TowerField + Sc + ExtensionField<FD>,
	FD: BinaryField + TowerField,
	F: TowerField + Sc + ExtensionField<F1> + ExtensionField<FB> + ExtensionField<FD>,
	P: PackedField<Scalar = F> + PackedExtension<F1> + PackedExtension<FB> + PackedExtension<FD> + PackedExtension<F, PackedSubfield = P> + 'static,
{
	let front = c.flip();
	let order = c.pick(&ORDERS);
	let big = if c.below(32) == 0 { 13 } else { 6 };
	let mut gs = groups::<F1, FB, F, P>(c, big, front, 4);
	for g in &mut gs {
		g.sums = g.polys.iter().map(|p| (0..1 << g.n).fold(P::Scalar::ZERO, |s, i| s + p.eval::<P::Scalar>(&row(&g.cols, i)))).collect();
	}
	let sw = c.range(0, 4);
	c.desc(format!("regular {} front={front} order={order:?} switchover={sw} sizes={:?} polys={:?}", tn::<P>(), gs.iter().map(|g| (g.n, g.cols.iter().map(|x| x.level).collect::<Vec<_>>())).collect::<Vec<_>>(), gs.iter().map(|g| &g.polys).collect::<Vec<_>>()));
	c.obs((front, order == ORDERS[0], sw, gs.iter().map(|g| g.vals_fp()).collect::<Vec<_>>()), gs.iter().any(|g| g.n > 0));
	let seed = c.u128() as u64;
	let backend = make_portable_backend();
	let comp = |g: &Group<P, FB>, j: usize| ArithCircuitPoly::<P::Scalar>::with_n_vars(g.cols.len(), g.polys[j].circuit()).unwrap();
	let claims = |sums: &[Vec<P::Scalar>]| -> Vec<SumcheckClaim<P::Scalar, ArithCircuitPoly<P::Scalar>>> {
		gs.iter()
			.zip(sums)
			.map(|(g, s)| {
				SumcheckClaim::new(g.n, g.cols.len(), (0..s.len()).map(|j| CompositeSumClaim { composition: comp(g, j), sum: s[j] }).collect()).unwrap()
			})
			.collect()
	};
	let prove = |sums: &[Vec<P::Scalar>], real: bool| -> Result<(Vec<u8>, BatchSumcheckOutput<P::Scalar>), String> {
		let provers: Vec<_> = gs
			.iter()
			.zip(sums)
			.map(|(g, s)| {
				RegularSumcheckProver::<FD, P, _, _, _>::new(
					order,
					g.cols.iter().map(|x| x.wit.clone()).collect(),
					(0..s.len()).map(|j| CompositeSumClaim { composition: comp(g, j), sum: s[j] }).collect::<Vec<_>>(),
					IsomorphicEvaluationDomainFactory::<FD>::default(),
					|_| sw,
					&backend,
				)
				.map_err(es)
			})
			.collect::<Result<_, _>>()?;
		macro_rules! go {
			($t:ty) => {{
				let mut t = ProverTranscript::<$t>::new();
				let o = if front { BatchProver::new(provers, &mut t).map_err(es)?.run(&mut t) } else { sumcheck::batch_prove(provers, &mut t) }.map_err(es)?;
				Ok((t.finalize(), o))
			}};
		}
		if real { go!(Fs) } else { go!(Coin) }
	};
	let nmax = gs.iter().map(|g| g.n).max().unwrap();
	let verify = |sums: &[Vec<P::Scalar>], tape: &[u8], real: bool| -> Verdict {
		let cl = claims(sums);
		macro_rules! go {
			($t:ty) => {{
				let mut t = VerifierTranscript::<$t>::new(tape.to_vec());
				let o = err(if front { BatchVerifier::new(&cl, &mut t).and_then(|v| v.run(&mut t)) } else { sumcheck::batch_verify(order, &cl, &mut t) })?;
				err(t.finalize())?;
				o
			}};
		}
		flat((|| {
			let mut o: BatchSumcheckOutput<P::Scalar> = if real { go!(Fs) } else { go!(Coin) };
			if front && order == EvaluationOrder::HighToLow {
				o.challenges.reverse();
			}
			if o.challenges.len() != nmax {
				return Ok(Verdict::Reject(format!("{} challenges", o.challenges.len())));
			}
			// which part of the challenges a smaller claim is evaluated at
			let pts: Vec<Vec<_>> = gs
				.iter()
				.map(|g| match (front, order) {
					(true, EvaluationOrder::LowToHigh) => o.challenges[..g.n].to_vec(),
					(true, EvaluationOrder::HighToLow) => o.challenges[nmax - g.n..].to_vec(),
					// later claims join after earlier rounds have been folded
					(false, EvaluationOrder::LowToHigh) => o.challenges[nmax - g.n..].to_vec(),
					(false, EvaluationOrder::HighToLow) => o.challenges[..g.n].to_vec(),
				})
				.collect();
			Ok(judge_all(&gs, &pts, &o.multilinear_evals))
		})())
	};
	let truth: Vec<Vec<P::Scalar>> = gs.iter().map(|g| g.sums.clone()).collect();
	set_coins(seed);
	let (tape, _) = prove(&truth, false)?;
	let v = verify(&truth, &tape, false);
	complete(&v, || "sumcheck".into())?;
	ensure!(rounds(&events()) >= nmax.saturating_sub(1), "only {} message/challenge rounds for {nmax} variables: {:?}", rounds(&events()), events());
	let (tape_fs, out) = prove(&truth, true)?;
	complete(&verify(&truth, &tape_fs, true), || "sumcheck (Fiat-Shamir)".into())?;
	ensure_eq!(out.challenges.len(), nmax, "number of prover challenges");
	c.count("honest runs", 2);
	if let Some(f) = falsify(c, &gs) {
		// the prover that believes the false sums, and the one that proves the true ones
		if let Ok((t2, _)) = prove(&f, false) {
			sound(&verify(&f, &t2, false), || "false sum, prover given the false sum".into())?;
		}
		sound(&verify(&f, &tape, false), || "false sum, prover given the true sum".into())?;
		c.count("false claims", 2);
	}
	let few = nmax > 8;
	tamper(c, &tape, 16, if few { 2 } else { 10 }, &mut |t| verify(&truth, t, false))?;
	tamper(c, &tape_fs, 16, 2, &mut |t| verify(&truth, t, true))
}
impl<P: PackedField<Scalar: Sc>, FB: std::fmt::Debug> Group<P, FB> {
	fn vals_fp(&self) -> (usize, Vec<u128>, String) {
		(self.n, self.cols.iter().flat_map(|x| x.vals.iter().map(|v| v.u())).collect(), format!("{:?}", self.polys))
	}
}

/// eq-ind sumcheck
fn eq_ind<F1, FB, FD, F, P>(c: &mut Case) -> Res
where
	F1: TowerField + Sc,
	FB: TowerField + Sc + ExtensionField<FD>,
	FD: BinaryField + TowerField,
	F: TowerField + Sc + ExtensionField<F1> + ExtensionField<FB> + ExtensionField<FD>,
	P: PackedField<Scalar = F> + PackedExtension<F1> + PackedExtension<FB> + PackedExtension<FD> + PackedExtension<F, PackedSubfield = P> + 'static,
{
	// front-loaded claims are evaluated at the suffix for high-to-low; low-to-high only for a single size
	let front = c.flip();
	let order = c.pick(&ORDERS);
	let big = if c.below(32) == 0 { 13 } else { 6 };
	let mut gs = groups::<F1, FB, F, P>(c, big, front, 4);
	let same = order == EvaluationOrder::LowToHigh || !front;
	if same {
		let n = gs[0].n;
		gs.retain(|g| g.n == n);
	}
	let nmax = gs.iter().map(|g| g.n).max().unwrap();
	// verifier-drawn, so uniform; a coordinate of exactly one has no honest round message
	let z: Vec<P::Scalar> = (0..nmax).map(|_| P::Scalar::f(c.u128())).collect();
	for g in &mut gs {
		let e = eq_all(&z[nmax - g.n..]);
		g.sums = g.polys.iter().map(|p| (0..1 << g.n).fold(P::Scalar::ZERO, |s, i| s + e[i] * p.eval::<P::Scalar>(&row(&g.cols, i)))).collect();
	}
	let sw = c.range(0, 4);
	// constant suffixes, announced or not
	let (suffix, expand) = (c.flip(), c.flip());
	if suffix {
		for g in &mut gs {
			for x in &mut g.cols {
				if c.flip() {
					let len = c.below((1 << g.n) + 1);
					let v: P::Scalar = rand_scalar(c);
					let k = x.vals.len() - len;
					x.vals[k..].fill(v);
					*x = col_of::<P::Scalar, P>(g.n, &x.vals);
				}
			}
			let e = eq_all(&z[nmax - g.n..]);
			g.sums = g.polys.iter().map(|p| (0..1 << g.n).fold(P::Scalar::ZERO, |s, i| s + e[i] * p.eval::<P::Scalar>(&row(&g.cols, i)))).collect();
		}
	}
	c.desc(format!("eq_ind {} front={front} order={order:?} switchover={sw} suffix={suffix} sizes={:?} polys={:?}", tn::<P>(), gs.iter().map(|g| (g.n, g.cols.len())).collect::<Vec<_>>(), gs.iter().map(|g| &g.polys).collect::<Vec<_>>()));
	c.obs(("eq", front, order == ORDERS[0], sw, gs.iter().map(|g| g.vals_fp()).collect::<Vec<_>>()), nmax > 0);
	let seed = c.u128() as u64;
	let backend = make_portable_backend();
	let comp = |g: &Group<P, FB>, j: usize| ArithCircuitPoly::<P::Scalar>::with_n_vars(g.cols.len(), g.polys[j].circuit()).unwrap();
	let prove_at = |z: &[P::Scalar], sums: &[Vec<P::Scalar>]| -> Result<Vec<u8>, String> {
		let provers: Vec<_> = gs
			.iter()
			.zip(sums)
			.map(|(g, s)| {
				let mut b = EqIndSumcheckProverBuilder::with_switchover(g.cols.iter().map(|x| x.wit.clone()).collect(), |_| sw, &backend).map_err(es)?;
				if suffix {
					let sfx: Vec<(P::Scalar, usize)> = g
						.cols
						.iter()
						.map(|x| {
							let l = *x.vals.last().unwrap();
							(l, x.vals.iter().rev().take_while(|v| **v == l).count())
						})
						.collect();
					b = b.with_const_suffixes(&sfx).map_err(es)?;
				}
				if expand {
					b = b.with_eq_ind_partial_evals(eq_ind_expand(order, &z[nmax - g.n..], &backend).map_err(es)?);
				}
				b.build::<FD, _>(
					order,
					&z[nmax - g.n..],
					(0..s.len()).map(|j| CompositeSumClaim { composition: comp(g, j), sum: s[j] }).collect::<Vec<_>>(),
					IsomorphicEvaluationDomainFactory::<FD>::default(),
				)
				.map_err(es)
			})
			.collect::<Result<_, String>>()?;
		let mut t = ProverTranscript::<Coin>::new();
		if front { BatchProver::new(provers, &mut t).map_err(es)?.run(&mut t) } else { sumcheck::batch_prove(provers, &mut t) }.map_err(es)?;
		Ok(t.finalize())
	};
	let verify = |sums: &[Vec<P::Scalar>], tape: &[u8]| -> Verdict {
		flat((|| {
			let cl: Vec<EqIndSumcheckClaim<P::Scalar, _>> = gs
				.iter()
				.zip(sums)
				.map(|(g, s)| EqIndSumcheckClaim::new(g.n, g.cols.len(), (0..s.len()).map(|j| CompositeSumClaim { composition: comp(g, j), sum: s[j] }).collect()).unwrap())
				.collect();
			let reg = err(reduce_to_regular_sumchecks(&cl))?;
			let mut t = VerifierTranscript::<Coin>::new(tape.to_vec());
			let mut o: BatchSumcheckOutput<P::Scalar> =
				err(if front { BatchVerifier::new(&reg, &mut t).and_then(|v| v.run(&mut t)) } else { sumcheck::batch_verify(order, &reg, &mut t) })?;
			err(t.finalize())?;
			if front && order == EvaluationOrder::HighToLow {
				o.challenges.reverse();
			}
			let o = err(verify_sumcheck_outputs(if front { ClaimsSortingOrder::AscendingVars } else { ClaimsSortingOrder::DescendingVars }, &cl, &z, o))?;
			let pts: Vec<Vec<_>> = gs.iter().map(|g| o.challenges[nmax - g.n..].to_vec()).collect();
			Ok(judge_all(&gs, &pts, &o.multilinear_evals))
		})())
	};
	let truth: Vec<Vec<P::Scalar>> = gs.iter().map(|g| g.sums.clone()).collect();
	let prove = |sums: &[Vec<P::Scalar>]| prove_at(&z, sums);
	set_coins(seed);
	let tape = prove(&truth)?;
	complete(&verify(&truth, &tape), || "eq-ind sumcheck".into())?;
	if nmax > 0 {
		// a consistent prover of the same sums over another point
		let mut z2 = z.clone();
		for x in &mut z2 {
			if c.flip() {
				*x = P::Scalar::f(c.u128());
			}
		}
		let i = c.below(nmax);
		z2[i] = P::Scalar::f(c.u128());
		let s2: Vec<Vec<P::Scalar>> = gs
			.iter()
			.map(|g| {
				let e = eq_all(&z2[nmax - g.n..]);
				g.polys.iter().map(|p| (0..1 << g.n).fold(P::Scalar::ZERO, |s, i| s + e[i] * p.eval::<P::Scalar>(&row(&g.cols, i)))).collect()
			})
			.collect();
		if s2 != truth {
			let t2 = prove_at(&z2, &s2)?;
			sound(&verify(&s2, &t2), || "sums over another point".into())?;
			c.count("false claims", 1);
		}
	}
	c.count("honest runs", 1);
	if let Some(f) = falsify(c, &gs) {
		if let Ok(t2) = prove(&f) {
			sound(&verify(&f, &t2), || "false sum, prover given the false sum".into())?;
		}
		sound(&verify(&f, &tape), || "false sum, prover given the true sum".into())?;
		c.count("false claims", 2);
	}
	tamper(c, &tape, 16, if nmax > 8 { 2 } else { 10 }, &mut |t| verify(&truth, t))
}

/// zerocheck with univariate skip
fn zero<F1, FB, FD, F, P>(c: &mut Case) -> Res
where
	F1: TowerField + Sc,
	FB: TowerField + Sc + ExtensionField<F1> + ExtensionField<FD>,
	FD: BinaryField + TowerField,
	F: TowerField + Sc + ExtensionField<F1> + ExtensionField<FB> + ExtensionField<FD>,
	P: PackedField<Scalar = F> + PackedExtension<F1> + PackedExtension<FB> + PackedExtension<FD> + PackedExtension<F, PackedSubfield = P> + 'static,
{
	let k = c.range(1, 3);
	let nmax = if c.below(24) == 0 { c.range(7, 14) } else { c.range(0, 6) };
	let skip = c.range(0, nmax.min(6));
	// the univariate domain must fit the domain field
	let max_deg = c.range(1, 4).min((256usize >> skip).max(1));
	let mut gs: Vec<Group<P, FB>> = vec![];
	for q in 0..k {
		let n = if q == 0 { nmax } else { c.range(0, nmax) };
		let m = c.range(1, 3);
		let mut small: Vec<Vec<FB>> = vec![];
		let mut cols: Vec<Col<P>> = vec![];
		for _ in 0..m {
			if c.flip() {
				let v: Vec<F1> = scalars(c, 1 << n);
				small.push(embed(&v));
				cols.push(col_of::<F1, P>(n, &v));
			} else {
				let v: Vec<FB> = scalars(c, 1 << n);
				small.push(v.clone());
				cols.push(col_of::<FB, P>(n, &v));
			}
		}
		let mut polys = vec![];
		for _ in 0..c.range(1, 2) {
			let mut p = Poly::<FB>::random(c, m, max_deg);
			let z: Vec<FB> = (0..1 << n).map(|i| p.eval::<FB>(&small.iter().take(m).map(|x| x[i]).collect::<Vec<_>>())).collect();
			p.0.push((FB::ONE, vec![(cols.len(), 1)]));
			cols.push(col_of::<FB, P>(n, &z));
			small.push(z);
			polys.push(p);
		}
		gs.push(Group { n, cols, polys, sums: vec![] });
	}
	gs.sort_by_key(|g| g.n);
	c.desc(format!("zerocheck {} skip={skip} sizes={:?} polys={:?}", tn::<P>(), gs.iter().map(|g| (g.n, g.cols.len())).collect::<Vec<_>>(), gs.iter().map(|g| &g.polys).collect::<Vec<_>>()));
	c.obs(("zero", skip, gs.iter().map(|g| g.vals_fp()).collect::<Vec<_>>()), nmax > 0);
	c.count(&format!("skip {skip}"), 1);
	let seed = c.u128() as u64;
	let backend = make_portable_backend();
	let prove = |gs: &[Group<P, FB>], real: bool| -> Result<Vec<u8>, String> {
		macro_rules! go {
			($t:ty) => {{
				let mut t = ProverTranscript::<$t>::new();
				let z: Vec<P::Scalar> = t.sample_vec(nmax - skip);
				let provers: Vec<_> = gs
					.iter()
					.map(|g| {
						ZerocheckProverImpl::<FD, FB, P, _, _, _, _, _>::new(
							g.cols.iter().map(|x| x.wit.clone()).collect(),
							g.polys
								.iter()
								.map(|p| {
									(
										"z".to_string(),
										ArithCircuitPoly::<FB>::with_n_vars(g.cols.len(), p.circuit()).unwrap(),
										ArithCircuitPoly::<P::Scalar>::with_n_vars(g.cols.len(), p.circuit()).unwrap(),
									)
								})
								.collect::<Vec<_>>(),
							&z[nmax - g.n.max(skip)..],
							IsomorphicEvaluationDomainFactory::<FD>::default(),
							&backend,
						)
						.map_err(es)
					})
					.collect::<Result<_, _>>()?;
				batch_prove_zerocheck::<P::Scalar, FD, P, _, _>(provers, skip, &mut t).map_err(es)?;
				Ok(t.finalize())
			}};
		}
		if real { go!(Fs) } else { go!(Coin) }
	};
	let verify = |gs: &[Group<P, FB>], tape: &[u8], real: bool| -> Verdict {
		flat((|| {
			let cl: Vec<ZerocheckClaim<P::Scalar, ArithCircuitPoly<P::Scalar>>> = gs
				.iter()
				.map(|g| ZerocheckClaim::new(g.n, g.cols.len(), g.polys.iter().map(|p| ArithCircuitPoly::with_n_vars(g.cols.len(), p.circuit()).unwrap()).collect()).unwrap())
				.collect();
			macro_rules! go {
				($t:ty) => {{
					let mut t = VerifierTranscript::<$t>::new(tape.to_vec());
					let o = err(batch_verify_zerocheck(&cl, skip, &mut t))?;
					err(t.finalize())?;
					o
				}};
			}
			let o = if real { go!(Fs) } else { go!(Coin) };
			if o.skipped_challenges.len() != skip || o.unskipped_challenges.len() != nmax - skip {
				return Ok(Verdict::Reject("challenge counts".into()));
			}
			let mut at = 0;
			for (k, g) in gs.iter().enumerate() {
				let pt = [&o.skipped_challenges[..g.n.min(skip)], &o.unskipped_challenges[(nmax - g.n).min(nmax - skip)..]].concat();
				let Some(e) = o.concat_multilinear_evals.get(at..at + g.cols.len()) else {
					return Ok(Verdict::False("too few evaluations".into()));
				};
				at += g.cols.len();
				match judge(&format!("claim {k}"), &g.cols, &pt, e) {
					Verdict::True => {}
					v => return Ok(v),
				}
			}
			Ok(Verdict::True)
		})())
	};
	set_coins(seed);
	let tape = prove(&gs, false)?;
	complete(&verify(&gs, &tape, false), || "zerocheck".into())?;
	ensure!(rounds(&events()) + 1 >= nmax - skip, "only {} message/challenge rounds: {:?}", rounds(&events()), events());
	let fs = prove(&gs, true)?;
	complete(&verify(&gs, &fs, true), || "zerocheck (Fiat-Shamir)".into())?;
	c.count("honest runs", 2);
	tamper(c, &tape, 16, if nmax > 8 { 2 } else { 10 }, &mut |t| verify(&gs, t, false))?;
	// violated on one row (and possibly by the same amount in a second place)
	let places = if c.flip() { 1 } else { 2 };
	let d = FB::f((c.u128() & FB::RF.mask()) | 1);
	for _ in 0..places {
		let q = c.below(gs.len());
		let g = &mut gs[q];
		let np = g.polys.len();
		let m = g.cols.len() - np;
		let j = m + c.below(np);
		let i = c.below(1 << g.n);
		let mut v = g.cols[j].vals.clone();
		v[i] += P::Scalar::from(d);
		let v: Vec<FB> = v.iter().map(|x| FB::try_from_ext(*x)).collect();
		g.cols[j] = col_of::<FB, P>(g.n, &v);
	}
	let broken = gs.iter().any(|g| g.polys.iter().any(|p| (0..1 << g.n).any(|i| p.eval::<P::Scalar>(&row(&g.cols, i)) != P::Scalar::ZERO)));
	if broken {
		if let Ok(t) = prove(&gs, false) {
			sound(&verify(&gs, &t, false), || "violated zerocheck".into())?;
		}
		sound(&verify(&gs, &tape, false), || "violated zerocheck, proof of the satisfied one".into())?;
		c.count("false claims", 2);
	}
	Ok(())
}
trait TryFromExt<E> {
	fn try_from_ext(e: E) -> Self;
}
impl<F: Field, E: ExtensionField<F>> TryFromExt<E> for F {
	fn try_from_ext(e: E) -> F {
		e.get_base(0)
	}
}

/// compute-layer provers for products of two columns
fn bivariate<Hal, H>(c: &mut Case, mut holder: H) -> Res
where
	Hal: ComputeLayer<BinaryField128b>,
	H: ComputeHolder<BinaryField128b, Hal>,
{
	type F = BinaryField128b;
	let mle = c.flip();
	let n = c.range(1, 6);
	let m = c.range(1, 4);
	let vals: Vec<Vec<F>> = (0..m).map(|_| scalars(c, 1 << n)).collect();
	let k = c.range(1, 4);
	let ix: Vec<[usize; 2]> = (0..k).map(|_| [c.below(m), c.below(m)]).collect();
	let z: Vec<F> = (0..n).map(|_| F::f(c.u128())).collect();
	let e = eq_all(&z);
	let sums: Vec<F> = ix.iter().map(|[a, b]| (0..1 << n).fold(F::ZERO, |s, i| s + if mle { e[i] } else { F::ONE } * vals[*a][i] * vals[*b][i])).collect();
	c.desc(format!("bivariate {} mle={mle} n={n} m={m} ix={ix:?}", tn::<Hal>()));
	c.obs((mle, n, m, &ix, vals.iter().flatten().map(|x| x.u()).collect::<Vec<_>>()), true);
	let comp = |i: usize| IndexComposition::new(m, ix[i], BivariateProduct::default()).unwrap();
	let seed = c.u128() as u64;
	set_coins(seed);
	let cs = |s: &[F]| (0..k).map(|i| CompositeSumClaim { composition: comp(i), sum: s[i] }).collect::<Vec<_>>();
	let mut prove = |s: &[F]| -> Result<Vec<u8>, String> {
		let ComputeData { hal, dev_alloc, mut host_alloc, .. } = holder.to_data();
		let host_alloc = host_alloc.subscope_allocator();
		let mut dev = vec![];
		for v in &vals {
			let mut d = dev_alloc.alloc(v.len()).map_err(es)?;
			hal.copy_h2d(v, &mut d).map_err(es)?;
			dev.push(Hal::DevMem::to_const(d));
		}
		let mut t = ProverTranscript::<Coin>::new();
		if mle {
			let claim = EqIndSumcheckClaim::new(n, m, cs(s)).map_err(es)?;
			let eq = Hal::DevMem::to_const(eq_ind_partial_eval(hal, &dev_alloc, &z[..n - 1]).map_err(es)?);
			let p = BivariateMLEcheckProver::new(hal, &dev_alloc, &host_alloc, &claim, dev, eq, z.clone()).map_err(es)?;
			BatchProver::new(vec![p], &mut t).map_err(es)?.run(&mut t).map_err(es)?;
		} else {
			let claim = SumcheckClaim::new(n, m, cs(s)).map_err(es)?;
			let p = BivariateSumcheckProver::new(hal, &dev_alloc, &host_alloc, &claim, dev).map_err(es)?;
			ensure_eq!(p.n_vars(), n, "n_vars");
			BatchProver::new(vec![p], &mut t).map_err(es)?.run(&mut t).map_err(es)?;
		}
		Ok(t.finalize())
	};
	let verify = |s: &[F], tape: &[u8]| -> Verdict {
		flat((|| {
			let mut t = VerifierTranscript::<Coin>::new(tape.to_vec());
			let mut o = if mle {
				let claim = EqIndSumcheckClaim::new(n, m, cs(s)).unwrap();
				let reg = err(reduce_to_regular_sumchecks(slice::from_ref(&claim)))?;
				let mut o = err(BatchVerifier::new(&reg, &mut t).and_then(|v| v.run(&mut t)))?;
				o.challenges.reverse();
				err(verify_sumcheck_outputs(ClaimsSortingOrder::AscendingVars, slice::from_ref(&claim), &z, o))?
			} else {
				let claim = SumcheckClaim::new(n, m, cs(s)).unwrap();
				let mut o = err(BatchVerifier::new(&[claim], &mut t).and_then(|v| v.run(&mut t)))?;
				o.challenges.reverse();
				o
			};
			err(t.finalize())?;
			let e = o.multilinear_evals.pop().unwrap();
			for (i, v) in vals.iter().enumerate() {
				if mle_eval(v, &o.challenges) != e[i] {
					return Ok(Verdict::False(format!("column {i}")));
				}
			}
			Ok(Verdict::True)
		})())
	};
	let tape = prove(&sums)?;
	complete(&verify(&sums, &tape), || "bivariate".into())?;
	c.count("honest runs", 1);
	let mut f = sums.clone();
	f[c.below(k)] += F::f(c.u128() | 1);
	if let Ok(t) = prove(&f) {
		sound(&verify(&f, &t), || "false sum".into())?;
	}
	sound(&verify(&f, &tape), || "false sum, honest proof".into())?;
	tamper(c, &tape, 16, 8, &mut |t| verify(&sums, t))
}

fn main() {
	let mut m = Mon::from_args("C12");
	m.rule("honest batches of true claims: accepted, every reduced claim equals the direct multilinear evaluation");
	m.rule("public coins held fixed, one claim false or one proof element altered: the verifier rejects or hands on a false claim");
	type B1 = BinaryField1b;
	type B8 = BinaryField8b;
	type B16 = BinaryField16b;
	type B32 = BinaryField32b;
	type A8 = AESTowerField8b;
	type A16 = AESTowerField16b;
	let n = |q: u64| (q, q * 100);
	macro_rules! all {
		($p:ty, $b:ty, $d:ty, $f1:ty, $name:expr, $q:expr) => {
			let (q, t) = n($q);
			m.par(concat!("regular ", $name), m.n(q, t), regular::<$f1, $b, $d, _, $p>);
			m.par(concat!("eq_ind ", $name), m.n(q, t), eq_ind::<$f1, $b, $d, _, $p>);
			m.par(concat!("zero ", $name), m.n(q, t), zero::<$f1, $b, $d, _, $p>);
		};
	}
	all!(PackedBinaryField1x128b, B16, B8, B1, "1x128b", 120);
	all!(PackedBinaryField2x128b, B8, B8, B1, "2x128b", 150);
	all!(PackedBinaryField4x128b, B32, B16, B1, "4x128b", 60);
	all!(ByteSlicedAES16x128b, A16, A8, A8, "bytesliced", 30);
	all!(PackedAESBinaryField2x128b, A8, A8, A8, "aes 2x128b", 30);
	m.par("cpu layer", m.n(120, 6000), |c| bivariate(c, CpuLayerHolder::<BinaryField128b>::new(1 << 10, 1 << 12)));
	m.par("fast cpu layer", m.n(120, 6000), |c| bivariate(c, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField1x128b>::new(1 << 10, 1 << 12)));
	m.par("fast cpu layer x4", m.n(120, 6000), |c| bivariate(c, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField4x128b>::new(1 << 10, 1 << 12)));
	m.finish()
}
