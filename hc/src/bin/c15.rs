//! C15: the polynomial commitment opens true evaluations and refuses false ones.
use binius_compute::{ComputeData, ComputeHolder, ComputeLayer, ComputeMemory, SizedSlice, alloc::ComputeAllocator, cpu::layer::CpuLayerHolder};
use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, Challenger},
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	oracle::{MultilinearOracleSet, OracleId},
	piop::{self, CommitMeta, PIOPSumcheckClaim},
	polynomial::MultivariatePoly,
	protocols::{
		evalcheck::{EvalcheckMultilinearClaim, subclaims::MemoizedData},
		fri::{self, CommitOutput, FRIFolder, FRIParams, FRIVerifier, FoldRoundOutput},
	},
	reed_solomon::ReedSolomonCode,
	ring_switch::{self, EvalClaimSystem},
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::MultilinearExtensionTransparent,
	witness::{MultilinearExtensionIndex, MultilinearWitness},
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::{PackScalar, PackedType},
	tower::CanonicalTowerFamily,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_math::{BinarySubspace, MLEDirectAdapter, MLEEmbeddingAdapter, MultilinearExtension, PackedTop, TowerUnderlier};
use binius_ntt::SingleThreadedNTT;
use hc::*;

type F = BinaryField128b;
type Enc = BinaryField32b;
type Merkle = BinaryMerkleTreeProver<F, Groestl256, Groestl256ByteCompression>;
fn merkle() -> Merkle {
	BinaryMerkleTreeProver::new(Groestl256ByteCompression)
}
type Root = digest::Output<Groestl256>;

const LEVELS: [usize; 6] = [0, 3, 4, 5, 6, 7];

/// A committed column: values as bit patterns of its own field.
#[derive(Clone)]
struct Column {
	id: OracleId,
	level: usize,
	n: usize,
	vals: Vec<u128>,
}
impl Column {
	fn mask(&self) -> u128 {
		if self.level == 7 { u128::MAX } else { (1 << (1u32 << self.level)) - 1 }
	}
	/// the column as the large-field elements it is committed as: consecutive values side by side, a
	/// column shorter than one element repeated to fill it
	fn packed(&self) -> Vec<F> {
		let kappa = 7 - self.level;
		let m = self.n.saturating_sub(kappa);
		(0..1usize << m)
			.map(|e| F::new((0..1usize << kappa).fold(0, |a, i| a | self.vals[(e << kappa | i) % self.vals.len()] << (i << self.level))))
			.collect()
	}
	fn eval(&self, z: &[F]) -> F {
		let v: Vec<F> = self.vals.iter().map(|x| F::new(*x)).collect();
		mle_eval(&v, z)
	}
	fn witness<U: TowerUnderlier>(&self) -> MultilinearWitness<'static, PackedType<U, F>> {
		fn mk<U, FS>(n: usize, v: &[u128]) -> MultilinearWitness<'static, PackedType<U, F>>
		where
			U: binius_field::underlier::UnderlierType + PackScalar<FS> + PackScalar<F>,
			FS: Sc,
			F: ExtensionField<FS>,
		{
			let s: Vec<FS> = v.iter().map(|x| FS::f(*x)).collect();
			MLEEmbeddingAdapter::from(MultilinearExtension::new(n, pack0::<PackedType<U, FS>>(&s)).unwrap()).upcast_arc_dyn()
		}
		match self.level {
			0 => mk::<U, BinaryField1b>(self.n, &self.vals),
			3 => mk::<U, BinaryField8b>(self.n, &self.vals),
			4 => mk::<U, BinaryField16b>(self.n, &self.vals),
			5 => mk::<U, BinaryField32b>(self.n, &self.vals),
			6 => mk::<U, BinaryField64b>(self.n, &self.vals),
			7 => mk::<U, BinaryField128b>(self.n, &self.vals),
			_ => unreachable!(),
		}
	}
}

struct World {
	oracles: MultilinearOracleSet<F>,
	cols: Vec<Column>,
}
fn world(c: &mut Case, min_elems: usize, max_packed: usize) -> World {
	let mut oracles = MultilinearOracleSet::new();
	let mut cols: Vec<Column> = vec![];
	let k = c.range(1, 6);
	while cols.len() < k || cols.iter().map(|x| 1usize << (x.n + x.level).saturating_sub(7)).sum::<usize>() < min_elems {
		// oracles that are not committed shift the ids of those that are
		if let Some(x) = cols.last() {
			if c.below(4) == 0 {
				let _ = oracles.add_repeating(x.id, 1);
			}
		}
		let level = c.pick(&LEVELS);
		let n = if c.below(5) == 0 { c.below(8 - level) } else { c.range(0, max_packed) + 7 - level };
		let mut col = Column { id: oracles.add_committed(n, level), level, n, vals: vec![] };
		col.vals = (0..1usize << n)
			.map(|_| match c.below(8) {
				0 => 0,
				_ => c.u128() & col.mask(),
			})
			.collect();
		cols.push(col);
	}
	World { oracles, cols }
}
/// true evaluation claims, with points that share beginnings and ends
fn claims(c: &mut Case, w: &World) -> Vec<EvalcheckMultilinearClaim<F>> {
	let max = w.cols.iter().map(|x| x.n).max().unwrap();
	let pool: Vec<Vec<F>> = (0..2).map(|_| scalars(c, max)).collect();
	let k = c.range(1, 8);
	let mut out: Vec<EvalcheckMultilinearClaim<F>> = vec![];
	for _ in 0..k {
		let col = c.pick(&w.cols);
		let kappa = 7 - col.level;
		let base = c.pick(&pool);
		let mut pt: Vec<F> = match c.below(5) {
			0 => scalars(c, col.n),
			1 => base[..col.n].to_vec(),
			2 => base[max - col.n..].to_vec(),
			3 => {
				// shared prefix of one point, rest of another
				let mut p = base[..col.n].to_vec();
				let o = c.pick(&pool);
				for i in kappa.min(col.n)..col.n {
					p[i] = o[i];
				}
				p
			}
			_ => out.iter().find(|x| x.eval_point.len() == col.n).map(|x| x.eval_point.to_vec()).unwrap_or_else(|| scalars(c, col.n)),
		};
		if c.below(3) == 0 {
			for x in pt.iter_mut() {
				match c.below(6) {
					0 => *x = F::ZERO,
					1 => *x = F::ONE,
					_ => {}
				}
			}
		}
		out.push(EvalcheckMultilinearClaim { id: col.id, eval: col.eval(&pt), eval_point: pt.into() });
	}
	out
}
fn falsify(c: &mut Case, cl: &[EvalcheckMultilinearClaim<F>]) -> Option<Vec<EvalcheckMultilinearClaim<F>>> {
	let mut out = cl.to_vec();
	let d = match c.below(3) {
		0 => F::ONE,
		_ => F::new(c.u128() | 1),
	};
	let i = c.below(out.len());
	out[i].eval += d;
	if c.flip() {
		let j = c.below(out.len());
		if j != i {
			out[j].eval += d;
		}
	}
	Some(out)
}
fn describe(w: &World, cl: &[EvalcheckMultilinearClaim<F>]) -> String {
	format!(
		"columns (level, variables): {:?}; claims on {:?}",
		w.cols.iter().map(|x| (x.level, x.n)).collect::<Vec<_>>(),
		cl.iter().map(|x| w.cols.iter().position(|k| k.id == x.id).unwrap()).collect::<Vec<_>>()
	)
}

fn index<U: TowerUnderlier>(cols: &[Column]) -> MultilinearExtensionIndex<'static, PackedType<U, F>> {
	let mut ix = MultilinearExtensionIndex::new();
	ix.update_multilin_poly(cols.iter().map(|x| (x.id, x.witness::<U>()))).unwrap();
	ix
}
/// columns in commitment order, and a check that the library's order is a proper one
fn ordered(w: &World, meta: &CommitMeta, ix: &binius_utils::sparse_index::SparseIndex<usize>) -> Result<Vec<usize>, String> {
	let mut at = vec![usize::MAX; w.cols.len()];
	ensure_eq!(meta.total_multilins(), w.cols.len(), "number of committed columns");
	for (k, x) in w.cols.iter().enumerate() {
		let i = *ix.get(x.id.index()).ok_or("a committed column has no commitment index")?;
		ensure!(i < at.len() && at[i] == usize::MAX, "commitment index {i} is out of range or used twice");
		at[i] = k;
		let m = (x.n + x.level).saturating_sub(7);
		ensure!(meta.range_by_vars(m).contains(&i), "column of {m} packed variables has commitment index {i}");
	}
	Ok(at)
}

/// Whether every claim handed on by the ring switch is true of the columns.
fn judge_ring(w: &World, order: &[usize], n_claims: usize, r: &ring_switch::ReducedClaim<'_, F>) -> Verdict {
	if r.sumcheck_claims.len() != n_claims {
		return Verdict::False(format!("{} reduced claims for {n_claims} claims", r.sumcheck_claims.len()));
	}
	for (k, s) in r.sumcheck_claims.iter().enumerate() {
		let p = w.cols[order[s.committed]].packed();
		let t = &r.transparents[s.transparent];
		if t.n_vars() != s.n_vars || p.len() != 1 << s.n_vars {
			return Verdict::False(format!("reduced claim {k} has {} variables, transparent {}, column {}", s.n_vars, t.n_vars(), p.len()));
		}
		let tv = cube(&**t);
		if dot(&p, &tv) != s.sum {
			return Verdict::False(format!("reduced claim {k}"));
		}
	}
	Verdict::True
}
fn cube(t: &dyn MultivariatePoly<F>) -> Vec<F> {
	(0..1usize << t.n_vars())
		.map(|v| {
			let q: Vec<F> = (0..t.n_vars()).map(|i| if v >> i & 1 == 1 { F::ONE } else { F::ZERO }).collect();
			t.evaluate(&q).unwrap()
		})
		.collect()
}

fn ring<U, Hal, H>(c: &mut Case, mut holder: H) -> Res
where
	U: TowerUnderlier,
	PackedType<U, F>: PackedFieldIndexable<Scalar = F> + PackedTop,
	Hal: ComputeLayer<F>,
	H: ComputeHolder<F, Hal>,
{
	let w = world(c, 1, 3);
	let good = claims(c, &w);
	c.desc(describe(&w, &good));
	let seed = c.u128() as u64;
	let (meta, ix) = piop::make_oracle_commit_meta(&w.oracles).map_err(es)?;
	let order = ordered(&w, &meta, &ix)?;
	let wit = piop::collect_committed_witnesses::<U, F>(&meta, &ix, &w.oracles, &index::<U>(&w.cols)).map_err(es)?;
	// another witness: one column changed in one value
	let mut other = w.cols.clone();
	{
		let k = c.below(other.len());
		let i = c.below(other[k].vals.len());
		other[k].vals[i] ^= 1 << c.below(1 << other[k].level);
	}
	let wit2 = piop::collect_committed_witnesses::<U, F>(&meta, &ix, &w.oracles, &index::<U>(&other)).map_err(es)?;

	let mut prove = |cl: &[EvalcheckMultilinearClaim<F>], wit: &[MultilinearWitness<'static, PackedType<U, F>>]| -> Result<(Vec<u8>, Vec<PIOPSumcheckClaim<F>>, Vec<Vec<F>>), String> {
		let ComputeData { hal, dev_alloc, host_alloc, .. } = holder.to_data();
		let system = EvalClaimSystem::new(&w.oracles, &meta, &ix, cl).map_err(es)?;
		set_coins(seed);
		let mut t = ProverTranscript::<Coin>::new();
		let r = ring_switch::prove(&system, wit, &mut t, MemoizedData::new(), hal, &dev_alloc, &host_alloc).map_err(es)?;
		let tr = r
			.transparents
			.iter()
			.map(|x| {
				let mut v = vec![F::ZERO; x.len()];
				hal.copy_d2h(*x, &mut v).unwrap();
				v
			})
			.collect();
		Ok((t.finalize(), r.sumcheck_claims, tr))
	};
	let verify = |cl: &[EvalcheckMultilinearClaim<F>], tape: &[u8]| -> Result<(Verdict, Vec<PIOPSumcheckClaim<F>>, Vec<Vec<F>>), String> {
		let system = EvalClaimSystem::new(&w.oracles, &meta, &ix, cl).map_err(es)?;
		set_coins(seed);
		let mut t = VerifierTranscript::<Coin>::new(tape.to_vec());
		let r = match ring_switch::verify(&system, &mut t) {
			Ok(r) => r,
			Err(e) => return Ok((Verdict::Reject(e.to_string()), vec![], vec![])),
		};
		if let Err(e) = t.finalize() {
			return Ok((Verdict::Reject(e.to_string()), vec![], vec![]));
		}
		let v = judge_ring(&w, &order, cl.len(), &r);
		let tv = r.transparents.iter().map(|t| cube(&**t)).collect();
		Ok((v, r.sumcheck_claims, tv))
	};
	let (tape, pc, pt) = prove(&good, &wit)?;
	let (v, vc, vt) = verify(&good, &tape)?;
	complete(&v, || "ring switch".into())?;
	ensure_eq!(pc, vc, "the prover's reduced claims and the verifier's");
	ensure_eq!(pt, vt, "the prover's transparent polynomials and the verifier's");
	c.count("true reduced claims", vc.len() as u64);
	c.obs((&tape, seed), !vc.is_empty());
	for _ in 0..4 {
		let bad = falsify(c, &good).unwrap();
		// honest messages
		let (v, ..) = verify(&bad, &tape)?;
		sound(&v, || "false evaluation claims, honest messages".into())?;
		c.count("false claims refused", 1);
		// messages made for the false claims
		if let Ok((t, ..)) = prove(&bad, &wit) {
			let (v, ..) = verify(&bad, &t)?;
			sound(&v, || "false evaluation claims, messages made for them".into())?;
		}
	}
	// claims true of another witness
	let bad: Vec<_> = good
		.iter()
		.map(|x| EvalcheckMultilinearClaim { id: x.id, eval_point: x.eval_point.clone(), eval: other.iter().find(|k| k.id == x.id).unwrap().eval(&x.eval_point) })
		.collect();
	if bad.iter().zip(&good).any(|(a, b)| a.eval != b.eval) {
		let (t, ..) = prove(&bad, &wit2)?;
		let (v, ..) = verify(&bad, &t)?;
		sound(&v, || "claims true of another witness only".into())?;
		c.count("other witness refused", 1);
	}
	tamper(c, &tape, 16, 8, &mut |t| verify(&good, t).map(|x| x.0).unwrap_or_else(Verdict::Reject))
}

/// Compute-layer memory enough for these harnesses.
fn cpu() -> CpuLayerHolder<F> {
	CpuLayerHolder::<F>::new(1 << 12, 1 << 14)
}
macro_rules! fast { ($p:ty) => { FastCpuLayerHolder::<CanonicalTowerFamily, $p>::new(1 << 12, 1 << 14) }; }

fn params_for(meta: &CommitMeta, mp: &Merkle, sec: usize, rate: usize) -> Result<FRIParams<F, Enc>, String> {
	piop::make_commit_params_with_optimal_arity::<F, Enc, _>(meta, mp.scheme(), sec, rate).map_err(es)
}
/// parameters with some other schedule
fn odd_params(c: &mut Case, total_vars: usize, queries: usize, rate: usize) -> Result<FRIParams<F, Enc>, String> {
	let b = c.range(0, total_vars.min(4));
	let d = total_vars - b;
	let ar = arities(c, b, total_vars);
	let ntt = SingleThreadedNTT::<Enc>::new(32).map_err(es)?;
	let code = ReedSolomonCode::with_ntt_subspace(&ntt, d, rate).map_err(es)?;
	FRIParams::new(code, b, ar, queries).map_err(es)
}
fn arities(c: &mut Case, b: usize, total: usize) -> Vec<usize> {
	let mut ar = vec![];
	let mut left = total.saturating_sub(1);
	if left == 0 || b > left || c.below(6) == 0 {
		return ar;
	}
	let first = c.range(b.max(1), left.min(b.max(1) + 3));
	ar.push(first);
	left -= first;
	while left > 0 && c.below(5) != 0 {
		let a = c.range(1, left.min(3));
		ar.push(a);
		left -= a;
	}
	ar
}

/// the whole opening, with real Fiat-Shamir
fn open<U, Hal, H>(c: &mut Case, mut holder: H) -> Res
where
	U: TowerUnderlier,
	PackedType<U, F>: PackedFieldIndexable<Scalar = F> + PackedTop + PackedExtension<F, PackedSubfield = PackedType<U, F>> + PackedExtension<Enc>,
	Hal: ComputeLayer<F>,
	H: ComputeHolder<F, Hal>,
{
	let wd = <PackedType<U, F>>::WIDTH;
	let big = c.flip();
	// the protocol does not commit to a single element
	let w = world(c, wd.max(2), if big { 7 } else { 4 });
	let good = claims(c, &w);
	let mp = merkle();
	let (meta, ix) = piop::make_oracle_commit_meta(&w.oracles).map_err(es)?;
	let order = ordered(&w, &meta, &ix)?;
	let rate = c.range(1, 3);
	let sec = c.pick(&[20usize, 32, 40]);
	let odd = c.flip() && meta.total_vars() > 0;
	let params = if odd { odd_params(c, meta.total_vars(), 60, rate)? } else { params_for(&meta, &mp, sec, rate)? };
	c.desc(format!("{}; rate 2^-{rate}, security {sec}, batch {} arities {:?}", describe(&w, &good), params.log_batch_size(), params.fold_arities()));
	let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).map_err(es)?;
	let collect = |cols: &[Column]| piop::collect_committed_witnesses::<U, F>(&meta, &ix, &w.oracles, &index::<U>(cols)).map_err(es);
	let wit = collect(&w.cols)?;
	for (k, x) in wit.iter().enumerate() {
		ensure_eq!(x.n_vars(), w.cols[order[k]].n, "variables of the collected column");
	}
	let mut other = w.cols.clone();
	{
		let k = c.below(other.len());
		for _ in 0..c.range(1, 3) {
			let i = c.below(other[k].vals.len());
			other[k].vals[i] ^= 1 << c.below(1 << other[k].level);
		}
		if other[k].vals == w.cols[k].vals {
			other[k].vals[0] ^= 1;
		}
	}
	let wit2 = collect(&other)?;
	let com = |wit: &[MultilinearWitness<'static, PackedType<U, F>>]| piop::commit(&params, &ntt, &mp, wit).map_err(es);
	type Com<U> = CommitOutput<PackedType<U, F>, Root, <Merkle as MerkleTreeProver<F>>::Committed>;
	let mut prove = |cl: &[EvalcheckMultilinearClaim<F>], wit: &[MultilinearWitness<'static, PackedType<U, F>>], com: Com<U>| -> Result<Vec<u8>, String> {
		let data = holder.to_data();
		let system = EvalClaimSystem::new(&w.oracles, &meta, &ix, cl).map_err(es)?;
		let mut t = ProverTranscript::<Fs>::new();
		t.message().write(&com.commitment);
		let r = ring_switch::prove(&system, wit, &mut t, MemoizedData::new(), data.hal, &data.dev_alloc, &data.host_alloc).map_err(es)?;
		piop::prove(&data, &params, &ntt, &mp, &meta, com.committed, &com.codeword, wit, r.transparents, &r.sumcheck_claims, &mut t).map_err(es)?;
		Ok(t.finalize())
	};
	let verify = |cl: &[EvalcheckMultilinearClaim<F>], tape: &[u8]| -> Result<(), String> {
		let system = EvalClaimSystem::new(&w.oracles, &meta, &ix, cl).map_err(es)?;
		let mut t = VerifierTranscript::<Fs>::new(tape.to_vec());
		let root = t.message().read().map_err(es)?;
		let r = ring_switch::verify(&system, &mut t).map_err(es)?;
		piop::verify(&meta, mp.scheme(), &params, &root, &r.transparents, &r.sumcheck_claims, &mut t).map_err(es)?;
		t.finalize().map_err(es)
	};
	let tape = prove(&good, &wit, com(&wit)?)?;
	verify(&good, &tape).map_err(|e| format!("honest opening refused: {e}"))?;
	c.count("openings accepted", 1);
	c.obs(&tape, !params.fold_arities().is_empty());
	let mut no = |c: &mut Case, cl: &[EvalcheckMultilinearClaim<F>], tape: &[u8], what: &str| -> Res {
		c.count("refused", 1);
		match verify(cl, tape) {
			Ok(()) => Err(format!("accepted: {what}")),
			Err(_) => Ok(()),
		}
	};
	let bad = falsify(c, &good).unwrap();
	no(c, &bad, &tape, "false claims with an honest proof")?;
	if let Ok(t) = prove(&bad, &wit, com(&wit)?) {
		no(c, &bad, &t, "false claims with a proof made for them")?;
	}
	// claims of another witness against this commitment, and the other way round
	let bad: Vec<_> = good
		.iter()
		.map(|x| EvalcheckMultilinearClaim { id: x.id, eval_point: x.eval_point.clone(), eval: other.iter().find(|k| k.id == x.id).unwrap().eval(&x.eval_point) })
		.collect();
	let (c1, c2) = (com(&wit)?, com(&wit2)?);
	ensure!(c1.commitment != c2.commitment, "two different sets of columns have the same commitment");
	if bad.iter().zip(&good).any(|(a, b)| a.eval != b.eval) {
		if let Ok(t) = prove(&bad, &wit2, com(&wit)?) {
			no(c, &bad, &t, "claims of another witness, committed codeword of this one")?;
		}
		// the codeword of the other witness with the commitment of this one
		if let Ok(t) = prove(&bad, &wit2, CommitOutput { commitment: c1.commitment, committed: c1.committed, codeword: c2.codeword }) {
			no(c, &bad, &t, "another witness and codeword under this commitment")?;
		}
		let mut t = prove(&bad, &wit2, com(&wit2)?)?;
		t[..32].copy_from_slice(&c1.commitment);
		no(c, &bad, &t, "another commitment")?;
	}
	for _ in 0..10 {
		let mut t = tape.clone();
		let i = c.below(t.len());
		match c.below(4) {
			0 => {
				let j = c.below(t.len());
				let k = (t.len() - i.max(j)).min(c.range(1, 48));
				for x in 0..k {
					t.swap(i + x, j + x);
				}
			}
			1 => t[i..].iter_mut().take(16).for_each(|x| *x = 0),
			_ => t[i] ^= 1 << c.below(8),
		}
		if t != tape {
			no(c, &good, &t, &format!("proof altered at byte {i} of {}", tape.len()))?;
		}
	}
	let k = c.below(tape.len());
	no(c, &good, &tape[..k], "cut proof")?;
	let mut t = tape.clone();
	t.push(0);
	no(c, &good, &t, "trailing byte")
}

/// sums of products of committed and transparent columns
fn piop_direct<U, Hal, H>(c: &mut Case, mut holder: H) -> Res
where
	U: TowerUnderlier,
	PackedType<U, F>: PackedFieldIndexable<Scalar = F> + PackedTop + PackedExtension<F, PackedSubfield = PackedType<U, F>> + PackedExtension<Enc>,
	Hal: ComputeLayer<F>,
	H: ComputeHolder<F, Hal>,
{
	let wd = <PackedType<U, F>>::WIDTH;
	let mut ns: Vec<usize> = vec![];
	while ns.len() < 6 && (ns.is_empty() || c.below(4) != 0) || ns.iter().map(|n| 1usize << n).sum::<usize>() < wd.max(2) {
		ns.push(c.below(6));
	}
	ns.sort();
	let meta = CommitMeta::with_vars(ns.iter().copied());
	let cols: Vec<Vec<F>> = ns.iter().map(|n| scalars(c, 1 << n)).collect();
	let mut ts: Vec<usize> = (0..c.range(0, 4)).map(|_| c.pick(&ns)).collect();
	ts.sort();
	let trs: Vec<Vec<F>> = ts.iter().map(|n| scalars(c, 1 << n)).collect();
	let mut sums: Vec<PIOPSumcheckClaim<F>> = vec![];
	for (j, n) in ts.iter().enumerate() {
		for (i, m) in ns.iter().enumerate() {
			if m == n && c.below(4) != 0 {
				sums.push(PIOPSumcheckClaim { n_vars: *n, committed: i, transparent: j, sum: dot(&cols[i], &trs[j]) });
			}
		}
	}
	// any order
	for i in (1..sums.len()).rev() {
		let j = c.below(i + 1);
		sums.swap(i, j);
	}
	let rate = c.range(1, 3);
	let params = if c.flip() && meta.total_vars() > 0 { odd_params(c, meta.total_vars(), 80, rate)? } else { params_for(&meta, &merkle(), 32, rate)? };
	c.desc(format!("columns {ns:?} transparents {ts:?} claims {:?} batch {} arities {:?}", sums.iter().map(|s| (s.committed, s.transparent)).collect::<Vec<_>>(), params.log_batch_size(), params.fold_arities()));
	let mp = merkle();
	let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).map_err(es)?;
	let mk = |cols: &[Vec<F>]| -> Vec<MLEDirectAdapter<PackedType<U, F>>> {
		cols.iter().zip(&ns).map(|(v, n)| MultilinearExtension::new(*n, pack0::<PackedType<U, F>>(v)).unwrap().into()).collect()
	};
	let seed = c.u128() as u64;
	// the commitment of `a`, the sums of `b`
	let mut prove = |a: &[Vec<F>], b: &[Vec<F>], sums: &[PIOPSumcheckClaim<F>]| -> Result<Vec<u8>, String> {
		let data = holder.to_data();
		let CommitOutput { commitment, committed, codeword } = piop::commit(&params, &ntt, &mp, &mk(a)).map_err(es)?;
		set_coins(seed);
		let mut t = ProverTranscript::<Coin>::new();
		t.message().write(&commitment);
		let tr = trs
			.iter()
			.map(|v| {
				let mut m = data.dev_alloc.alloc(v.len()).unwrap();
				data.hal.copy_h2d(v, &mut m).unwrap();
				Hal::DevMem::to_const(m)
			})
			.collect();
		piop::prove(&data, &params, &ntt, &mp, &meta, committed, &codeword, &mk(b), tr, sums, &mut t).map_err(es)?;
		Ok(t.finalize())
	};
	let verify = |sums: &[PIOPSumcheckClaim<F>], tape: &[u8]| -> Verdict {
		set_coins(seed);
		let mut t = VerifierTranscript::<Coin>::new(tape.to_vec());
		let polys: Vec<MultilinearExtensionTransparent<PackedBinaryField1x128b, PackedBinaryField1x128b>> = trs.iter().zip(&ts).map(|(v, n)| MultilinearExtensionTransparent::from_values_and_mu(pack0(v), *n).unwrap()).collect();
		let polys: Vec<&dyn MultivariatePoly<F>> = polys.iter().map(|p| p as &dyn MultivariatePoly<F>).collect();
		let r = (|| {
			let root = t.message().read().map_err(es)?;
			piop::verify(&meta, mp.scheme(), &params, &root, &polys, sums, &mut t).map_err(es)?;
			t.finalize().map_err(es)
		})();
		match r {
			Ok(()) => Verdict::True,
			Err(e) => Verdict::Reject(e),
		}
	};
	let tape = prove(&cols, &cols, &sums)?;
	complete(&verify(&sums, &tape), || "sums of products".into())?;
	c.obs((&tape, seed), !sums.is_empty());
	for k in 0..3 {
		if sums.is_empty() {
			break;
		}
		let mut bad = sums.clone();
		let d = F::new(c.u128() | 1);
		let i = c.below(bad.len());
		bad[i].sum += d;
		if k > 0 && bad.len() > 1 {
			let j = (i + c.range(1, bad.len() - 1)) % bad.len();
			bad[j].sum += d;
		}
		sound(&verify(&bad, &tape), || format!("false sum {i}, honest messages"))?;
		if let Ok(t) = prove(&cols, &cols, &bad) {
			sound(&verify(&bad, &t), || format!("false sum {i}, messages made for it"))?;
		}
		c.count("false sums refused", 1);
	}
	// sums of other columns, with the commitment of these: also columns no sum mentions
	let mut other = cols.clone();
	let i = c.below(cols.len());
	let j = c.below(cols[i].len());
	other[i][j] += F::new(c.u128() | 1);
	let osums: Vec<_> = sums.iter().map(|s| PIOPSumcheckClaim { sum: dot(&other[s.committed], &trs[s.transparent]), ..s.clone() }).collect();
	if let Ok(t) = prove(&cols, &other, &osums) {
		sound(&verify(&osums, &t), || format!("opened as other columns (column {i} changed)"))?;
		c.count("other columns refused", 1);
	}
	tamper(c, &tape, 16, 10, &mut |t| verify(&sums, t))
}

// ---------------------------------------------------------------- FRI

/// t such that P(x) = A + t B and P(x') = A + (t + 1) B on a pair, in the domain of dimension n
fn fold_pairs<FA: BinaryField>(dom: &Dom<FA>, n: usize, v: &[F], r: F) -> Vec<F>
where
	F: ExtensionField<FA>,
{
	let b0 = dom.basis(n)[0];
	(0..v.len() / 2)
		.map(|i| {
			let t = dom.point(n, 2 * i) * b0.invert().unwrap();
			let b = v[2 * i] + v[2 * i + 1];
			let a = v[2 * i] + b * t;
			a + (a + b) * r
		})
		.collect()
}
fn lerp(v: &[F], r: F) -> Vec<F> {
	v.chunks(2).map(|x| x[0] + (x[0] + x[1]) * r).collect()
}

/// committed vectors of one run of the folding protocol
struct Run {
	cws: Vec<Vec<F>>,
}

fn fri_run<FA, P>(c: &mut Case) -> Res
where
	FA: BinaryField + Sc,
	F: ExtensionField<FA>,
	P: PackedField<Scalar = F> + PackedExtension<FA> + PackedFieldIndexable,
{
	let b = c.range(0, 3);
	let rate = if c.below(8) == 0 { 0 } else { c.range(1, 3) };
	let max_d = 6.min(FA::RF.bits() as usize - rate);
	let d = c.below(max_d + 1).max(P::LOG_WIDTH.saturating_sub(b)).min(max_d);
	let total = b + d;
	if total < P::LOG_WIDTH || total == 0 || d + rate == 0 {
		return Ok(());
	}
	let ar = arities(c, b, total);
	let q = c.range(1, 12);
	let code = ReedSolomonCode::<FA>::new(d, rate).map_err(es)?;
	let code2 = ReedSolomonCode::<FA>::new(d, rate).map_err(es)?;
	let sub: BinarySubspace<FA> = code.subspace().clone();
	let dom = Dom::new(sub.basis());
	c.desc(format!("dimension 2^{d} rate 2^-{rate} batch 2^{b} arities {ar:?} queries {q} over {} packed {}", FA::NAME, P::WIDTH));
	let params = FRIParams::<F, FA>::new(code, b, ar.clone(), q).map_err(es)?;
	let ntt = SingleThreadedNTT::with_subspace(&sub).map_err(es)?;
	let mp = merkle();
	let msg: Vec<F> = scalars(c, 1 << total);
	let CommitOutput { commitment, committed, codeword } = fri::commit_interleaved(&code2, &params, &ntt, &mp, &pack0::<P>(&msg)).map_err(es)?;
	let cw0 = unpack(&codeword, 1 << (total + rate));
	// the code is the evaluation of each interleaved message
	for p in 0..1usize << (d + rate) {
		let nv = dom.novel(d + rate, dom.point(d + rate, p), 1 << d);
		for x in 0..1usize << b {
			let want = (0..1usize << d).fold(F::ZERO, |s, y| s + msg[y << b | x] * nv[y]);
			ensure_eq!(cw0[p << b | x], want, "codeword symbol {p} of lane {x}");
		}
	}
	// challenges are public coins
	let seed = c.u128() as u64;
	set_coins(seed);
	let mut coins = ProverTranscript::<Coin>::new();
	let chal: Vec<F> = coins.sample_vec(total);
	let indices: Vec<usize> = (0..q).map(|_| coins.sample_bits(params.index_bits()) as usize).collect();
	// vectors committed by an honest run
	let fold_to = |v: &[F], from: usize, to: usize| -> Vec<F> {
		let mut v = v.to_vec();
		for r in from..to {
			v = if r < b { lerp(&v, chal[r]) } else { fold_pairs(&dom, d + rate - (r - b), &v, chal[r]) };
		}
		v
	};
	let mut cws = vec![cw0.clone()];
	let mut at = 0;
	for a in &ar {
		let nx = fold_to(cws.last().unwrap(), at, at + a);
		at += a;
		cws.push(nx);
	}
	let nf = params.n_final_challenges();
	ensure_eq!(at + nf, total, "challenges after the last oracle");
	let honest = Run { cws };
	// the coset size each vector is committed with
	let coset: Vec<usize> = (0..honest.cws.len()).map(|k| if k < ar.len() { ar[k] } else { nf }).collect();
	let commit_all = |run: &Run| -> Result<(Vec<Root>, Vec<<Merkle as MerkleTreeProver<F>>::Committed>), String> {
		let mut roots = vec![];
		let mut com = vec![];
		for (v, k) in run.cws.iter().zip(&coset) {
			let (r, t) = mp.commit(v, 1 << k).map_err(es)?;
			roots.push(r.root);
			com.push(t);
		}
		Ok((roots, com))
	};
	let depths: Vec<usize> = {
		let mut n = total + rate;
		ar.iter()
			.map(|a| {
				n -= a;
				mp.scheme().optimal_verify_layer(q, n)
			})
			.collect()
	};
	let opening = |run: &Run, com: &[<Merkle as MerkleTreeProver<F>>::Committed], t: &mut ProverTranscript<Coin>, index: usize| -> Res {
		let mut i = index;
		for (k, a) in ar.iter().enumerate() {
			if k > 0 {
				i >>= a;
			}
			let mut w = t.decommitment();
			w.write_scalar_slice(&run.cws[k][i << a..(i + 1) << a]);
			mp.prove_opening(&com[k], depths[k], i, &mut w).map_err(es)?;
		}
		Ok(())
	};
	let tape_of = |run: &Run, pick: &dyn Fn(usize) -> usize| -> Result<Vec<u8>, String> {
		let (roots, com) = commit_all(run)?;
		set_coins(seed);
		let mut t = ProverTranscript::<Coin>::new();
		t.message().write(&roots[0]);
		for r in &roots[1..] {
			t.message().write(r);
		}
		let _: Vec<F> = t.sample_vec(total);
		t.decommitment().write_scalar_slice(run.cws.last().unwrap());
		for (k, dp) in depths.iter().enumerate() {
			let l = mp.layer(&com[k], *dp).map_err(es)?.to_vec();
			t.decommitment().write_slice(&l);
		}
		for _ in 0..q {
			let i = t.sample_bits(params.index_bits()) as usize;
			opening(run, &com, &mut t, pick(i))?;
		}
		Ok(t.finalize())
	};
	// the repository's own prover
	let theirs = {
		let mut holder = cpu();
		let ComputeData { hal, dev_alloc, .. } = holder.to_data();
		let mut folder = FRIFolder::new(hal, &params, &ntt, &mp, &codeword, &committed).map_err(es)?;
		set_coins(seed);
		let mut t = ProverTranscript::<Coin>::new();
		t.message().write(&commitment);
		for r in &chal {
			if let FoldRoundOutput::Commitment(x) = folder.execute_fold_round(&dev_alloc, *r).map_err(es)? {
				t.message().write(&x);
			}
		}
		let _: Vec<F> = t.sample_vec(total);
		folder.finish_proof(&mut t).map_err(es)?;
		t.finalize()
	};
	ensure!(theirs == tape_of(&honest, &|i| i)?, "the folding prover's messages are not the folds of its codeword");
	c.count("prover runs compared", 1);
	let verify = |tape: &[u8]| -> Result<Result<F, String>, String> {
		set_coins(seed);
		let mut t = VerifierTranscript::<Coin>::new(tape.to_vec());
		let r = (|| {
			let root: Root = t.message().read().map_err(es)?;
			let rounds: Vec<Root> = (0..params.n_oracles()).map(|_| t.message().read().map_err(es)).collect::<Result<_, _>>()?;
			let ch: Vec<F> = t.sample_vec(total);
			let v = FRIVerifier::new(&params, mp.scheme(), &root, &rounds, &ch).map_err(es)?.verify(&mut t).map_err(es)?;
			t.finalize().map_err(es)?;
			Ok(v)
		})();
		Ok(r)
	};
	let value = mle_eval(&msg, &chal);
	match verify(&theirs)? {
		Ok(v) => ensure_eq!(v, value, "the folded value is the evaluation of the message"),
		Err(e) => return Err(format!("honest folding proof refused: {e}")),
	}
	c.obs((&theirs, seed), !ar.is_empty());

	// what the verifier should say about any committed vectors
	let consistent = |run: &Run, index: usize| -> bool {
		let mut i = index;
		let mut at = 0;
		let mut carried: Option<F> = None;
		for (k, a) in ar.iter().enumerate() {
			let within = i & ((1 << a) - 1);
			if k > 0 {
				i >>= a;
			}
			let chunk = &run.cws[k][i << a..(i + 1) << a];
			if let Some(v) = carried {
				if v != chunk[within] {
					return false;
				}
			}
			// fold the chunk alone: place it in its vector
			let mut v = chunk.to_vec();
			let mut base = i << a;
			for r in at..at + a {
				if r < b {
					v = lerp(&v, chal[r]);
				} else {
					let n = d + rate - (r - b);
					let b0 = dom.basis(n)[0];
					v = (0..v.len() / 2)
						.map(|j| {
							let t = dom.point(n, base + 2 * j) * b0.invert().unwrap();
							let bb = v[2 * j] + v[2 * j + 1];
							let aa = v[2 * j] + bb * t;
							aa + (aa + bb) * chal[r]
						})
						.collect();
				}
				base >>= 1;
			}
			at += a;
			carried = Some(v[0]);
		}
		match carried {
			Some(v) => v == run.cws[ar.len()][i],
			None => true,
		}
	};
	let last_ok = |run: &Run| -> bool {
		let v = fold_to(run.cws.last().unwrap(), total - nf, total);
		v.iter().all(|x| *x == v[0])
	};
	ensure!((0..1usize << params.index_bits()).all(|i| consistent(&honest, i)) && last_ok(&honest), "HARNESS: honest run inconsistent");

	for _ in 0..4 {
		let mut run = Run { cws: honest.cws.clone() };
		match c.below(5) {
			// single symbols
			0 | 1 => {
				for _ in 0..c.range(1, 2) {
					let k = c.below(run.cws.len());
					let i = c.below(run.cws[k].len());
					run.cws[k][i] += F::new(c.u128() | 1);
				}
			}
			// from some round on, another message
			2 => {
				let k = c.below(run.cws.len());
				let m2: Vec<F> = scalars(c, 1 << total);
				let mut v: Vec<F> = (0..1usize << (total + rate))
					.map(|p| {
						let nv = dom.novel(d + rate, dom.point(d + rate, p >> b), 1 << d);
						(0..1usize << d).fold(F::ZERO, |s, y| s + m2[y << b | p & ((1 << b) - 1)] * nv[y])
					})
					.collect();
				let mut at = 0;
				for (j, cw) in run.cws.iter_mut().enumerate() {
					if j >= k {
						*cw = v.clone();
					}
					if j < ar.len() {
						v = fold_to(&v, at, at + ar[j]);
						at += ar[j];
					}
				}
			}
			// two symbols exchanged
			3 => {
				let k = c.below(run.cws.len());
				let n = run.cws[k].len();
				let (i, j) = (c.below(n), c.below(n));
				run.cws[k].swap(i, j);
			}
			// the last vector another codeword, or none
			_ => {
				let n = run.cws.len();
				let d2 = F::new(c.u128() | 1);
				if c.flip() {
					run.cws[n - 1].iter_mut().for_each(|x| *x += d2);
				} else {
					run.cws[n - 1] = scalars(c, run.cws[n - 1].len());
				}
			}
		}
		let (roots, com) = commit_all(&run)?;
		let layers: Vec<Vec<Root>> = com.iter().zip(&depths).map(|(t, dp)| mp.layer(t, *dp).map(|l| l.to_vec()).map_err(es)).collect::<Result<_, _>>()?;
		let ver = FRIVerifier::new(&params, mp.scheme(), &roots[0], &roots[1..], &chal).map_err(es)?;
		let term = run.cws.last().unwrap();
		ensure_eq!(ver.verify_last_oracle(&ntt, term).is_ok(), last_ok(&run), "whether the last vector is accepted as a codeword");
		for i in 0..1usize << params.index_bits() {
			let mut t = ProverTranscript::<Coin>::new();
			opening(&run, &com, &mut t, i)?;
			let mut t = t.into_verifier();
			let got = ver.verify_query(i, &ntt, term, &layers, &mut t.decommitment());
			let want = consistent(&run, i);
			ensure_eq!(got.is_ok(), want, "query {i}: whether the openings are consistent folds");
			c.count(if want { "consistent queries" } else { "inconsistent queries" }, 1);
			// the openings of another position
			if !ar.is_empty() && i > 0 {
				let j = c.below(1 << params.index_bits());
				let mut a = ProverTranscript::<Coin>::new();
				opening(&run, &com, &mut a, i)?;
				let mut t = ProverTranscript::<Coin>::new();
				opening(&run, &com, &mut t, j)?;
				let (a, t) = (a.finalize(), t.finalize());
				if a != t {
					let mut t = VerifierTranscript::<Coin>::new(t);
					ensure!(ver.verify_query(i, &ntt, term, &layers, &mut t.decommitment()).is_err(), "query {i} answered with the openings of {j} accepted");
				}
			}
		}
		let want = last_ok(&run) && indices.iter().all(|i| consistent(&run, *i));
		let got = verify(&tape_of(&run, &|i| i)?)?;
		ensure_eq!(got.is_ok(), want, "whether the whole folding proof is accepted ({:?})", got.as_ref().err());
		c.count(if want { "whole runs accepted" } else { "whole runs refused" }, 1);
	}
	tamper(c, &theirs, 16, 8, &mut |t| match verify(t) {
		Ok(Ok(_)) => Verdict::True,
		Ok(Err(e)) | Err(e) => Verdict::Reject(e),
	})
}
/// the code alone, down to codes smaller than a packed element
fn rs<FA, P>(c: &mut Case) -> Res
where
	FA: BinaryField + Sc,
	F: ExtensionField<FA>,
	P: PackedField<Scalar = F> + PackedExtension<FA>,
{
	let (b, rate) = (c.range(0, 3), c.range(0, 3));
	let d = c.range((rate == 0) as usize, 5.min(FA::RF.bits() as usize - rate));
	let code = ReedSolomonCode::<FA>::new(d, rate).map_err(es)?;
	ensure_eq!((code.dim(), code.len(), code.log_dim(), code.log_len(), code.inv_rate()), (1 << d, 1 << (d + rate), d, d + rate, 1 << rate), "code dimensions");
	let dom = Dom::new(code.subspace().basis());
	let ntt = SingleThreadedNTT::with_subspace(code.subspace()).map_err(es)?;
	let msg: Vec<F> = scalars(c, 1 << (b + d));
	c.desc(format!("dimension 2^{d} rate 2^-{rate} batch 2^{b} over {} packed {}", FA::NAME, P::WIDTH));
	let n = 1usize << (b + d + rate);
	let mut buf: Vec<P> = vec![P::zero(); n.div_ceil(P::WIDTH)];
	for (i, x) in msg.iter().enumerate() {
		buf[i / P::WIDTH].set(i % P::WIDTH, *x);
	}
	code.encode_ext_batch_inplace(&ntt, &mut buf, b).map_err(es)?;
	let got = unpack(&buf, n);
	for p in 0..1usize << (d + rate) {
		let nv = if d + rate == 0 { vec![FA::ONE] } else { dom.novel(d + rate, dom.point(d + rate, p), 1 << d) };
		for x in 0..1usize << b {
			let want = (0..1usize << d).fold(F::ZERO, |s, y| s + msg[y << b | x] * nv[y]);
			ensure_eq!(got[p << b | x], want, "codeword symbol {p} of lane {x}");
		}
	}
	c.obs(&msg, true);
	c.count("codewords", 1);
	Ok(())
}

fn main() {
	type U1 = OptimalUnderlier128b;
	type U2 = OptimalUnderlier256b;
	type U4 = OptimalUnderlier512b;
	type P1 = PackedType<U1, F>;
	type P2 = PackedType<U2, F>;
	type P4 = PackedType<U4, F>;
	let mut m = Mon::from_args("C15");
	m.rule("one-coefficient coins: a false or altered run is accepted with probability below 2^-20");
	m.par("codes", m.n(2000, 60000), |c| match c.below(6) {
		0 => rs::<BinaryField32b, P1>(c),
		1 => rs::<BinaryField32b, P2>(c),
		2 => rs::<BinaryField32b, P4>(c),
		3 => rs::<BinaryField16b, P4>(c),
		4 => rs::<BinaryField8b, P2>(c),
		_ => rs::<BinaryField8b, P4>(c),
	});
	m.par("ring switch", m.n(1200, 60000), |c| match c.below(4) {
		0 => ring::<U1, _, _>(c, cpu()),
		1 => ring::<U2, _, _>(c, fast!(P2)),
		2 => ring::<U4, _, _>(c, cpu()),
		_ => ring::<U4, _, _>(c, fast!(P4)),
	});
	m.par("folding", m.n(1200, 60000), |c| match c.below(6) {
		0 | 1 => fri_run::<BinaryField32b, P1>(c),
		2 => fri_run::<BinaryField32b, P2>(c),
		3 => fri_run::<BinaryField32b, P4>(c),
		4 => fri_run::<BinaryField16b, P1>(c),
		_ => fri_run::<BinaryField8b, P1>(c),
	});
	m.par("sums", m.n(1200, 60000), |c| match c.below(4) {
		0 => piop_direct::<U1, _, _>(c, cpu()),
		1 => piop_direct::<U2, _, _>(c, fast!(P2)),
		2 => piop_direct::<U1, _, _>(c, fast!(P1)),
		_ => piop_direct::<U4, _, _>(c, fast!(P4)),
	});
	m.par("openings", m.n(1200, 60000), |c| match c.below(4) {
		0 => open::<U1, _, _>(c, cpu()),
		1 => open::<U2, _, _>(c, fast!(P2)),
		2 => open::<U1, _, _>(c, fast!(P1)),
		_ => open::<U4, _, _>(c, fast!(P4)),
	});
	m.finish()
}
