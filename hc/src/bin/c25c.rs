//! C25 workload (protocol crates and M3 builder): the safe entry points that rest on unchecked
//! indexing, pointer casts or uninitialised memory, with well-formed and hostile shapes. Errors and
//! panics are fine; what decides is the interpreter or sanitizer the binary runs under.
use std::hint::black_box;

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, HasherChallenger},
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	oracle::ShiftVariant,
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::{eq_ind::EqIndPartialEval, select_row::SelectRow, shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp},
};
use binius_field::{as_packed_field::PackedType, arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b}};
use binius_hash::sha2::Sha256Compression;
use binius_m3::builder::{B128 as MB128, WitnessIndex};
use binius_maybe_rayon::prelude::*;
use bytes::BufMut;
use hc::{pv::*, sysgen::*, *};
use sha2::Sha256;

fn t<T>(c: &mut Case, f: impl FnOnce() -> T) {
	let ok = guard(|| {
		black_box(f());
	})
	.is_ok();
	c.count(if ok { "returned" } else { "panicked" }, 1);
}
fn near(c: &mut Case, n: usize) -> usize {
	match c.below(6) {
		0 => n + 1,
		1 => n.saturating_sub(1),
		2 => 2 * n + c.below(3),
		_ => n,
	}
}

type Mt = BinaryMerkleTreeProver<BinaryField32b, Sha256, Sha256Compression>;

fn merkle(c: &mut Case) -> Res {
	let log = c.below(3);
	let batch = 1 + c.below(3);
	let chunks = near(c, 1 << log);
	let data: Vec<BinaryField32b> = scalars(c, chunks * batch);
	c.obs((log, batch, chunks, c.index), true);
	let p = Mt::new(Sha256Compression::default());
	t(c, || p.commit(&data, batch).is_ok());
	let (i, d) = (near(c, 1 << log), near(c, log));
	t(c, || {
		let (com, tree) = p.commit_iterated(data.par_chunks(batch).map(|x| x.iter().copied()), log).expect("shape");
		// every node is read
		let all: usize = tree.inner_nodes.iter().map(|n| n[0] as usize).sum();
		let layer = p.layer(&tree, d).map(|l| l.len()).unwrap_or(0);
		let mut tr = ProverTranscript::<HasherChallenger<Sha256>>::new();
		let ok = p.prove_opening(&tree, d.min(log), i, &mut tr.message()).is_ok();
		let mut vt = VerifierTranscript::<HasherChallenger<Sha256>>::new(tr.finalize());
		let ver = p.scheme().verify_vector(&com.root, &data, batch).is_ok();
		(all, layer, ok, ver, vt.message().read_bytes(&mut [0; 3]).is_ok())
	});
	Ok(())
}

fn transcript(c: &mut Case) -> Res {
	let lens: Vec<usize> = (0..1 + c.below(3)).map(|_| c.pick(&[0usize, 1, 31, 32, 33, 64, 65, 130])).collect();
	let parts: Vec<Vec<u8>> = lens.iter().map(|&n| c.bytes(n)).collect();
	let sc: Vec<BinaryField128b> = scalars(c, 3);
	c.obs((&lens, c.index), true);
	let mut proof = vec![];
	t(c, || {
		let mut p = ProverTranscript::<HasherChallenger<Sha256>>::new();
		for (k, b) in parts.iter().enumerate() {
			match k % 3 {
				0 => p.message().write_bytes(b),
				1 => p.observe().write_bytes(b),
				_ => p.decommitment().write_bytes(b),
			}
			let x: BinaryField32b = p.sample();
			p.message().write_scalar(x);
			let _ = p.sample_bits(k * 7);
			p.message().write_packed_slice(&[PackedBinaryField4x32b::one()]);
		}
		p.message().write_scalar_slice(&sc);
		// the buffer interface below it: a part of a chunk, a chunk written in place
		p.message().buffer().put_slice(&parts[0]);
		let buf = p.message();
		drop(buf);
		proof = p.finalize();
	});
	let cut = near(c, proof.len()).min(proof.len());
	t(c, || {
		let mut v = VerifierTranscript::<HasherChallenger<Sha256>>::new(proof[..cut].to_vec());
		for (k, b) in parts.iter().enumerate() {
			let mut o = vec![0; b.len()];
			match k % 3 {
				0 => v.message().read_bytes(&mut o).expect("read"),
				1 => v.observe().write_bytes(b),
				_ => v.decommitment().read_bytes(&mut o).expect("read"),
			}
			let _: BinaryField32b = v.sample();
			let _: BinaryField32b = v.message().read_scalar().expect("read");
			let _ = v.sample_bits(k * 7);
			let _: Vec<PackedBinaryField4x32b> = v.message().read_packed_slice(1).expect("read");
		}
		v.message().read_scalar_slice::<BinaryField128b>(4).is_ok()
	});
	Ok(())
}

fn transparents<P: PackedField<Scalar = BinaryField32b>>(c: &mut Case) -> Res {
	let n = c.below(if cfg!(miri) { 5 } else { 9 });
	let r: Vec<BinaryField32b> = scalars(c, n);
	let o = c.below((1 << n) + 1);
	c.obs((n, o, c.index), true);
	for v in [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight] {
		t(c, || ShiftIndPartialEval::new(n, o, v, r.clone()).and_then(|s| s.multilinear_extension::<P>()).map(|m| m.evals().to_vec()).is_ok());
	}
	t(c, || EqIndPartialEval::new(r.clone()).multilinear_extension::<P, _>(&binius_hal::make_portable_backend()).is_ok());
	t(c, || StepUp::new(n, o).and_then(|s| s.multilinear_extension::<P>()).map(|m| m.evals().to_vec()).is_ok());
	t(c, || StepDown::new(n, o).and_then(|s| s.multilinear_extension::<P>()).map(|m| m.evals().to_vec()).is_ok());
	t(c, || SelectRow::new(n, o).and_then(|s| s.multilinear_extension::<binius_field::PackedBinaryField8x1b>()).map(|m| m.evals().to_vec()).is_ok());
	Ok(())
}

fn fill<U: Und>(c: &mut Case) -> Res {
	let s = Sys::generate(c, &Opts { tables: 1, max_log_size: if cfg!(miri) { 4 } else { 8 }, steps: 4, exps: false });
	c.obs(s.describe(), true);
	let mut mem = CpuComputeAllocator::<PackedType<U, MB128>>::new(if cfg!(miri) { 1 << 10 } else { 1 << 16 });
	let alloc = mem.into_bump_allocator();
	let ok = guard(|| {
		let mut w = WitnessIndex::<PackedType<U, MB128>>::new(&s.cs, &alloc);
		for (k, tab) in s.tabs.iter().enumerate() {
			let events: Vec<usize> = (0..tab.size).collect();
			w.fill_table_parallel(&s.filler::<PackedType<U, MB128>>(k), &events).map_err(es)?;
		}
		w.fill_constant_cols().map_err(es)?;
		s.read_back(&mut w).map(|_| ())
	});
	c.count(if matches!(ok, Ok(Ok(()))) { "filled" } else { "refused" }, 1);
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C25");
	m.rule("nontrivial: the calls of a case (well-formed and hostile shapes) ran to an outcome under the interpreter or sanitizer");
	let small = cfg!(miri);
	let n = m.n(if small { 3 } else { 400 }, if small { 30 } else { 20000 });
	m.par("merkle", n * 2, merkle);
	m.par("transcript", n, transcript);
	m.par("transparent.4x32b", n, transparents::<PackedBinaryField4x32b>);
	m.par("transparent.8x32b", n, transparents::<PackedBinaryField8x32b>);
	m.seq("fill.128", n, fill::<OptimalUnderlier128b>);
	m.seq("fill.256", n, fill::<OptimalUnderlier256b>);
	m.seq("fill.512", n, fill::<OptimalUnderlier512b>);
	m.finish()
}
