//! C10: Merkle commitments against a plain reference tree; honest openings accepted, altered ones judged
//! by an independent verifier.
use binius_core::{
	fiat_shamir::HasherChallenger,
	merkle_tree::{BinaryMerkleTreeProver, BinaryMerkleTreeScheme, MerkleTreeProver, MerkleTreeScheme},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_hash::{
	PseudoCompressionFunction, Vision32Compression, Vision32ParallelDigest,
	groestl::{Groestl256, Groestl256ByteCompression},
	multi_digest::ParallelDigest,
	sha2::Sha256Compression,
};
use binius_maybe_rayon::prelude::*;
use binius_utils::{SerializationMode, SerializeBytes};
use digest::{Digest, FixedOutputReset, Output, core_api::BlockSizeUser};
use hc::*;

type Ch = HasherChallenger<Groestl256>;

fn leaf<F: TowerField, D: Digest>(v: &[F]) -> Output<D> {
	let mut b = Vec::new();
	for x in v {
		x.serialize(&mut b, SerializationMode::CanonicalTower).unwrap();
	}
	D::digest(&b)
}

/// layers[0] = root ... layers[depth] = leaves
fn ref_tree<F: TowerField, D: Digest, C: PseudoCompressionFunction<Output<D>, 2>>(comp: &C, data: &[F], batch: usize) -> Vec<Vec<Output<D>>> {
	let mut layers = vec![data.chunks(batch).map(|x| leaf::<F, D>(x)).collect::<Vec<_>>()];
	while layers[0].len() > 1 {
		let next = layers[0].chunks(2).map(|p| comp.compress([p[0].clone(), p[1].clone()])).collect();
		layers.insert(0, next);
	}
	layers
}

fn run<F: Sc, H, C>(c: &mut Case) -> Res
where
	H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset + Digest + Clone>,
	C: PseudoCompressionFunction<Output<H::Digest>, 2> + Sync + Default,
{
	let log = c.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7]);
	let batch = c.pick(&[1usize, 1, 2, 3, 4, 5, 8, 16]);
	let n = batch << log;
	// few distinct values sometimes, so that equal leaves and equal subtrees occur
	let data: Vec<F> = match c.below(4) {
		0 => {
			let pool = scalars::<F>(c, 2);
			(0..n).map(|_| c.pick(&pool)).collect()
		}
		1 => vec![rand_scalar::<F>(c); n],
		_ => (0..n).map(|_| F::f(c.u128() & F::RF.mask())).collect(),
	};
	c.desc(format!("{} depth {log}, batch {batch}", F::NAME));
	c.obs((log, batch, data.iter().map(|x| x.u()).collect::<Vec<_>>()), n > 1);
	let comp = C::default();
	let want = ref_tree::<F, H::Digest, C>(&comp, &data, batch);
	let prover = BinaryMerkleTreeProver::<F, H, C>::new(C::default());
	let (com, tree) = prover.commit(&data, batch).map_err(es)?;
	ensure!(com.root == want[0][0], "commit root differs from the reference tree");
	ensure_eq!(com.depth, log, "commitment depth");
	let (com2, tree2) = prover
		.commit_iterated(data.par_chunks(batch).map(|x| x.iter().copied()), log)
		.map_err(es)?;
	ensure!(com2.root == com.root && com2.depth == com.depth && tree2.inner_nodes == tree.inner_nodes, "commit_iterated differs from commit");
	for d in 0..=log {
		ensure!(prover.layer(&tree, d).map_err(es)? == &want[d][..], "layer {d}");
	}
	ensure!(prover.layer(&tree, log + 1).is_err(), "a layer below the leaves is handed out");
	// invalid shapes
	if batch > 1 {
		ensure!(prover.commit(&data[1..], batch).is_err(), "length not a multiple of the batch size accepted");
	}
	ensure!(prover.commit(&[&data[..], &data[..], &data[..]].concat(), batch).is_err(), "three times a power of two accepted");

	let scheme = prover.scheme();
	// whole-vector opening
	MerkleTreeScheme::verify_vector(scheme, &com.root, &data, batch).map_err(|e| format!("honest vector rejected: {e}"))?;
	c.count("vector openings", 1);
	{
		let mut bad = data.clone();
		let i = c.below(n);
		let v = F::rnd(c);
		if v != bad[i] {
			bad[i] = v;
			ensure!(scheme.verify_vector(&com.root, &bad, batch).is_err(), "vector with entry {i} changed accepted");
			c.count("altered vectors refused", 1);
		}
		let (i, j) = (c.below(n), c.below(n));
		if data[i] != data[j] {
			let mut bad = data.clone();
			bad.swap(i, j);
			ensure!(scheme.verify_vector(&com.root, &bad, batch).is_err(), "vector with entries {i},{j} swapped accepted");
		}
		if log > 0 {
			ensure!(scheme.verify_vector(&com.root, &data[..n / 2], batch).is_err(), "half the vector accepted");
			if batch > 1 || true {
				ensure!(scheme.verify_vector(&com.root, &data, batch * 2).is_err(), "doubled batch size accepted");
			}
		}
		let mut r = com.root.clone();
		let b = c.below(r.len());
		r[b] ^= 1 << c.below(8);
		ensure!(scheme.verify_vector(&r, &data, batch).is_err(), "vector accepted under another root");
	}
	// layers
	for d in 0..=log {
		scheme.verify_layer(&com.root, d, &want[d]).map_err(|e| format!("honest layer {d} rejected: {e}"))?;
		let mut bad = want[d].clone();
		let (i, b) = (c.below(bad.len()), c.below(32));
		bad[i][b] ^= 1 << c.below(8);
		ensure!(scheme.verify_layer(&com.root, d, &bad).is_err(), "layer {d} with digest {i} changed accepted");
		let mut r = com.root.clone();
		r[b] ^= 1;
		ensure!(scheme.verify_layer(&r, d, &want[d]).is_err(), "layer {d} accepted under another root");
		ensure!(scheme.verify_layer(&com.root, d + 1, &want[d]).is_err(), "layer {d} accepted as layer {}", d + 1);
		if d > 0 {
			ensure!(scheme.verify_layer(&com.root, d, &want[d][1..]).is_err(), "short layer {d} accepted");
			let (i, j) = (c.below(1 << d), c.below(1 << d));
			if want[d][i] != want[d][j] {
				let mut bad = want[d].clone();
				bad.swap(i, j);
				ensure!(scheme.verify_layer(&com.root, d, &bad).is_err(), "layer {d} with digests {i},{j} swapped accepted");
			}
		}
		c.count("layer openings", 1);
	}
	// openings
	let idxs: Vec<usize> = if log <= 3 { (0..1 << log).collect() } else { (0..8).map(|_| c.below(1 << log)).collect() };
	for &i in &idxs {
		let d = c.range(0, log);
		let vals = &data[i * batch..(i + 1) * batch];
		let mut t = ProverTranscript::<Ch>::new();
		prover.prove_opening(&tree, d, i, &mut t.decommitment()).map_err(es)?;
		let bytes = t.finalize();
		ensure_eq!(bytes.len(), 32 * (log - d), "opening proof size");
		ensure_eq!(
			MerkleTreeScheme::<F>::proof_size(scheme, 1 << log, idxs.len(), d).map_err(es)?,
			32 * ((log - d) * idxs.len() + (1 << d)),
			"reported proof size"
		);
		let ver = |i: usize, vals: &[F], d: usize, log: usize, layer: &[Output<H::Digest>], bytes: &[u8]| {
			let mut t = VerifierTranscript::<Ch>::new(bytes.to_vec());
			let r = scheme.verify_opening(i, vals, d, log, layer, &mut t.decommitment()).is_ok();
			(r, t.finalize().is_ok())
		};
		ensure_eq!(ver(i, vals, d, log, &want[d], &bytes), (true, true), "honest opening of {i} at layer {d}");
		c.count("leaf openings", 1);
		// independent judgement of an altered opening
		let judge = |i: usize, vals: &[F], layer: &[Output<H::Digest>], bytes: &[u8]| {
			let mut h = leaf::<F, H::Digest>(vals);
			let mut k = i;
			for s in bytes.chunks(32) {
				let s = Output::<H::Digest>::clone_from_slice(s);
				h = comp.compress(if k & 1 == 0 { [h, s] } else { [s, h] });
				k >>= 1;
			}
			layer[k] == h
		};
		for _ in 0..6 {
			let (mut i2, mut v2, mut l2, mut b2) = (i, vals.to_vec(), want[d].clone(), bytes.clone());
			let what = c.below(6);
			match what {
				0 => {
					let k = c.below(batch);
					v2[k] = F::rnd(c);
				}
				1 => i2 = c.below(1 << log),
				2 => {
					if b2.is_empty() {
						continue;
					}
					let k = c.below(b2.len());
					b2[k] ^= 1 << c.below(8);
				}
				3 => {
					let k = i >> (log - d);
					l2[k][c.below(32)] ^= 1 << c.below(8);
				}
				4 => {
					let j = c.below(1 << log);
					v2 = data[j * batch..(j + 1) * batch].to_vec();
				}
				_ => {
					let k = c.below(2);
					if k == 0 {
						v2.push(F::ZERO);
					} else {
						v2.pop();
					}
				}
			}
			let got = ver(i2, &v2, d, log, &l2, &b2).0;
			ensure_eq!(got, judge(i2, &v2, &l2, &b2), "altered opening (kind {what}) of {i} -> {i2} at layer {d}");
			if l2 == want[d] && v2[..] != data[i2 * batch..(i2 + 1) * batch] {
				ensure!(!got, "leaf {i2} opened to a value that was not committed (kind {what})");
				c.count("false openings refused", 1);
			}
		}
		// missing siblings, wrong layer width, index out of range
		if log > d {
			ensure!(!ver(i, vals, d, log, &want[d], &bytes[..bytes.len() - 1 - c.below(31)]).0, "truncated opening accepted");
			ensure!(!ver(i, vals, d, log, &want[d + 1], &bytes).0, "layer of the wrong width accepted");
			ensure!(!ver(i, vals, d + 1, log, &want[d], &bytes).0, "layer of the wrong depth accepted");
		}
		ensure!(!ver(i + (1 << log), vals, d, log, &want[d], &bytes).0, "index past the end accepted");
		ensure!(prover.prove_opening(&tree, d, 1 << log, &mut ProverTranscript::<Ch>::new().decommitment()).is_err(), "opening past the end produced");
		ensure!(prover.prove_opening(&tree, log + 1, i, &mut ProverTranscript::<Ch>::new().decommitment()).is_err(), "opening below the leaves produced");
	}
	let q = c.range(1, 300);
	let l = MerkleTreeScheme::<F>::optimal_verify_layer(scheme, q, log);
	ensure!(l <= log, "chosen layer {l} below the leaves");
	let _: &BinaryMerkleTreeScheme<F, H::Digest, C> = scheme;
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C10");
	m.rule("Merkle root, layers and branches equal a plain reference tree over canonical leaf serializations");
	m.rule("every honest vector, layer and leaf opening is accepted and uses exactly its bytes");
	m.rule("an altered opening is accepted only if an independent recomputation accepts it; a value that was not committed never is");
	let n = m.n(500, 40000);
	m.par("groestl 128b", n, run::<BinaryField128b, Groestl256, Groestl256ByteCompression>);
	m.par("groestl 32b", n, run::<BinaryField32b, Groestl256, Groestl256ByteCompression>);
	m.par("groestl aes", n, run::<AESTowerField128b, Groestl256, Groestl256ByteCompression>);
	m.par("groestl 8b", n, run::<BinaryField8b, Groestl256, Groestl256ByteCompression>);
	m.par("sha 128b", n, run::<BinaryField128b, ::sha2::Sha256, Sha256Compression>);
	m.par("vision 128b", m.n(24, 1500), run::<BinaryField128b, Vision32ParallelDigest, Vision32Compression>);
	#[cfg(feature = "rayon")]
	m.seq("threads", m.n(12, 300), |c| {
		let log = c.range(3, 9);
		let batch = c.pick(&[1usize, 4, 7]);
		let data = scalars::<BinaryField128b>(c, batch << log);
		c.obs((log, batch), true);
		let mut roots = vec![];
		for t in [1usize, 2, 3, 8] {
			let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
			let prover = BinaryMerkleTreeProver::<BinaryField128b, Groestl256, Groestl256ByteCompression>::new(Groestl256ByteCompression);
			let (com, tree) = pool.install(|| prover.commit(&data, batch)).map_err(es)?;
			roots.push((com.root.to_vec(), tree.inner_nodes.len()));
		}
		ensure!(roots.windows(2).all(|w| w[0] == w[1]), "root depends on the number of threads");
		Ok(())
	});
	m.finish()
}
