//! C25 workload (mathematics, hashing, compute memory): every safe entry point that rests on
//! unchecked indexing, pointer casts or uninitialised memory, with well-formed and hostile shapes.
//! Errors and panics are fine; what decides is the interpreter or sanitizer the binary runs under.
use std::{hint::black_box, mem::MaybeUninit};

use binius_compute::memory::{ComputeMemory, SizedSlice};
use binius_fast_compute::{
	arith_circuit::ArithCircuitPoly,
	memory::{PackedMemory, PackedMemorySlice, PackedMemorySliceMut},
};
use binius_hash::{VisionHasherDigest, VisionHasherDigestByteSliced, hash_serialize, groestl::*, multi_digest::*};
use binius_maybe_rayon::prelude::*;
use binius_math::*;
use binius_ntt::{AdditiveNTT, NTTShape, SingleThreadedNTT};
use hm::*;

fn t<T>(c: &mut Case, f: impl FnOnce() -> T) {
	let ok = guard(|| {
		black_box(f());
	})
	.is_ok();
	c.count(if ok { "returned" } else { "panicked" }, 1);
}

/// under the interpreter: fewer and smaller cases
fn small() -> bool {
	cfg!(miri)
}

fn idx(c: &mut Case, n: usize) -> usize {
	match c.below(10) {
		0 => n,
		1 => n + 1,
		2 => usize::MAX,
		3 => n.wrapping_sub(1),
		_ => c.below(n.max(1)),
	}
}

/// `n` or something near it
fn near(c: &mut Case, n: usize) -> usize {
	match c.below(6) {
		0 => n + 1,
		1 => n.saturating_sub(1),
		2 => 2 * n + c.below(3),
		_ => n,
	}
}

fn vecp<P: PackedField<Scalar: Sc>>(c: &mut Case, n: usize) -> Vec<P> {
	(0..n).map(|_| P::set_single(rand_scalar::<P::Scalar>(c))).collect()
}
fn uninit<P>(n: usize) -> Vec<MaybeUninit<P>> {
	let mut v = Vec::with_capacity(n);
	v.resize_with(n, MaybeUninit::uninit);
	v
}
/// read what a successful call promises to have initialised
fn read<P: PackedField>(v: &[MaybeUninit<P>]) -> P::Scalar {
	v.iter().map(|x| unsafe { x.assume_init() }.iter().next().expect("lane")).sum()
}

fn folds<P, PE>(c: &mut Case) -> Res
where
	P: PackedField<Scalar: Sc>,
	PE: PackedField<Scalar: Sc + ExtensionField<P::Scalar>>,
{
	let n = c.below(if small() { 6 } else { 10 });
	let k = near(c, c.index as usize % (n + 1));
	let r = n.saturating_sub(k);
	let ne = near(c, (1usize << n).div_ceil(P::WIDTH));
	let nq = near(c, (1usize << k).div_ceil(PE::WIDTH));
	let no = near(c, (1usize << r).div_ceil(PE::WIDTH));
	let evals: Vec<P> = vecp(c, ne);
	let query: Vec<PE> = if k == 1 && nq > 0 && c.flip() {
		// the query of a linear interpolation
		let z: PE::Scalar = rand_scalar(c);
		let mut q = vec![PE::default(); nq];
		if 2 <= nq * PE::WIDTH {
			set_packed_slice(&mut q, 0, z);
			set_packed_slice(&mut q, 1, PE::Scalar::ONE - z);
		}
		q
	} else {
		vecp(c, nq)
	};
	let mut out: Vec<PE> = vecp(c, no);
	c.obs((tn::<P>(), tn::<PE>(), n, k, ne, nq, no), true);
	t(c, || fold_right(&evals, n, &query, k, &mut out).is_ok());
	t(c, || {
		let mut o = uninit::<PE>(no);
		fold_left(&evals, n, &query, k, &mut o).map(|()| read(&o)).is_ok()
	});
	let s = near(c, r);
	t(c, || {
		let mut o = uninit::<PE>(no);
		fold_middle(&evals, n, &query, k, s, &mut o).map(|()| read(&o)).is_ok()
	});
	let size = idx(c, ne * P::WIDTH);
	let z: PE::Scalar = rand_scalar(c);
	t(c, || fold_right_lerp(&evals, size, z, P::Scalar::ONE, &mut out).is_ok());
	let (a, b) = (c.below(5), idx(c, 4));
	t(c, || zero_pad(&evals, n, n + a, s, b, &mut out).is_ok());
	// the same type on both sides
	let e2: Vec<PE> = vecp(c, near_e(no, c.index));
	let np = idx(c, no * PE::WIDTH * 2).min(1 << 20);
	t(c, || {
		let mut o = uninit::<PE>(no);
		fold_left_lerp(&e2, np, PE::Scalar::ONE, n, z, &mut o).is_ok()
	});
	t(c, || {
		let mut v = e2.clone();
		fold_left_lerp_inplace(&mut v, np, PE::Scalar::ONE, n, z).is_ok()
	});
	Ok(())
}
fn near_e(n: usize, i: u64) -> usize {
	[n, 2 * n, n + 1, 2 * n + 1][i as usize % 4]
}

fn mles<P, PE>(c: &mut Case) -> Res
where
	P: PackedField<Scalar: Sc>,
	PE: PackedField<Scalar: Sc> + RepackedExtension<P>,
	PE::Scalar: ExtensionField<P::Scalar>,
{
	let n = P::LOG_WIDTH + c.below(if small() { 2 } else { 4 });
	let v: Vec<P> = vecp(c, 1 << (n - P::LOG_WIDTH));
	let m = MultilinearExtension::<P>::new(n, v).map_err(es)?;
	let (i, k) = (idx(c, 1 << n), idx(c, 1 << n));
	c.obs((tn::<P>(), tn::<PE>(), n, i, k), true);
	t(c, || m.evaluate_on_hypercube(i).is_ok());
	t(c, || m.packed_evaluate_on_hypercube(k).is_ok());
	let q = near(c, c.index as usize % (n + 1)).min(12);
	let z: Vec<PE::Scalar> = scalars(c, q);
	let qq = MultilinearQuery::<PE>::expand(&z);
	t(c, || m.evaluate(&qq).is_ok());
	t(c, || m.evaluate_partial_high(&qq).map(|x| x.evals().to_vec()).is_ok());
	t(c, || m.evaluate_partial_low(&qq).is_ok());
	let s = near(c, n.saturating_sub(q));
	t(c, || m.evaluate_partial(&qq, s).map(|x| x.evals().to_vec()).is_ok());
	let (pad, nz) = (c.below(3), c.below(5));
	t(c, || m.zero_pad::<PE>(pad, s, nz).is_ok());
	let ad = m.specialize::<PE>();
	let (sv, deg) = (near(c, c.index as usize % (n + 1)), c.below(9));
	let len = near(c, 1usize << sv.min(12).saturating_sub(deg + PE::LOG_WIDTH));
	let si = idx(c, 1 << n.saturating_sub(sv));
	t(c, || {
		let mut o: Vec<PE> = vec![PE::default(); len];
		MultilinearPoly::<PE>::subcube_evals(&ad, sv, si, deg, &mut o).is_ok()
	});
	let mut o: Vec<PE> = vec![PE::default(); near(c, 1usize << sv.min(12).saturating_sub(PE::LOG_WIDTH))];
	t(c, || MultilinearPoly::<PE>::subcube_partial_low_evals(&ad, qq.to_ref(), sv, si, &mut o).is_ok());
	t(c, || MultilinearPoly::<PE>::subcube_partial_high_evals(&ad, qq.to_ref(), sv, si, &mut o).is_ok());
	t(c, || MultilinearPoly::<PE>::packed_evals(&ad).map(|x| x.len()));
	t(c, || MultilinearPoly::<PE>::evaluate_on_hypercube(&ad, i).is_ok());
	t(c, || {
		let mut x: Vec<PE> = vec![PE::default(); 1 << q.saturating_sub(PE::LOG_WIDTH)];
		x[0].set(0, PE::Scalar::ONE);
		tensor_prod_eq_ind(0, &mut x, &z).is_ok()
	});
	Ok(())
}

fn rows(c: &mut Case) -> Res {
	let data: Vec<Vec<u32>> = (0..c.below(4)).map(|i| vec![i as u32; 3 + i]).collect();
	let refs: Vec<&[u32]> = data.iter().map(|v| &v[..]).collect();
	let (o, l, i, j, k) = (idx(c, 3), idx(c, 4), idx(c, 4), idx(c, 4), idx(c, 4));
	c.obs((data.len(), o, l, i, j, k), true);
	t(c, || {
		let b = RowsBatchRef::new_with_offset(&refs, o, l);
		(b.row(i).to_vec(), b.iter().map(|r| r.len()).sum::<usize>())
	});
	t(c, || RowsBatchRef::new(&refs, l).columns_subrange(j..k).row(i).to_vec());
	t(c, || {
		let b = RowsBatch::new(refs.clone(), l);
		b.get_ref().map([i]).get_ref().row(0).to_vec()
	});
	Ok(())
}

fn circuits<P>(c: &mut Case) -> Res
where
	P: PackedField<Scalar: Sc>,
{
	fn gen_expr<F: TowerField>(c: &mut Case, d: usize, nv: usize) -> ArithExpr<F> {
		match c.below(if d == 0 { 2 } else { 6 }) {
			0 => ArithExpr::Var(c.below(nv)),
			1 => ArithExpr::Const(F::ONE),
			2 => gen_expr(c, d - 1, nv) + gen_expr(c, d - 1, nv),
			3 | 4 => gen_expr::<F>(c, d - 1, nv) * gen_expr(c, d - 1, nv) + gen_expr(c, d - 1, nv),
			_ => gen_expr(c, d - 1, nv).pow(c.below(6) as u64),
		}
	}
	let nv = 1 + c.below(4);
	let e = gen_expr::<P::Scalar>(c, 3, nv);
	let circ = ArithCircuit::from(&e);
	c.obs(format!("{e:?}"), true);
	let declared = near(c, nv);
	let qlen = near(c, declared);
	let rl = c.below(4);
	let row: Vec<P> = vecp(c, rl + 1);
	let q: Vec<P> = vecp(c, qlen);
	for p in [guard(|| ArithCircuitPoly::new(circ.clone())), guard(|| ArithCircuitPoly::with_n_vars(declared, circ.clone()).expect("vars"))].into_iter().flatten() {
		t(c, || CompositionPoly::<P>::evaluate(&p, &q).is_ok());
		let refs: Vec<&[P]> = (0..qlen).map(|_| &row[..rl]).collect();
		let ol = near(c, rl);
		t(c, || {
			let mut o = vec![P::default(); ol];
			CompositionPoly::<P>::batch_evaluate(&p, &RowsBatchRef::new(&refs, rl), &mut o).is_ok()
		});
	}
	Ok(())
}

fn memory<P: PackedField<Scalar: Sc>>(c: &mut Case) -> Res {
	type M<P> = PackedMemory<P>;
	let n = 1 + c.below(4);
	let mut v: Vec<P> = vecp(c, n);
	let w = P::WIDTH;
	let (a, b) = (idx(c, n * w + 1), idx(c, n * w + 1));
	let (al, bl) = (a / w * w, b / w * w);
	c.obs((tn::<P>(), n, a, b), true);
	fn touch<P: PackedField>(s: &mut PackedMemorySliceMut<'_, P>) {
		for x in s.as_slice_mut() {
			*x += P::one();
		}
	}
	t(c, || M::<P>::slice(PackedMemorySlice::new_slice(&v), a..b).len());
	t(c, || M::<P>::slice(PackedMemorySlice::new_slice(&v), al..bl).as_slice().to_vec());
	t(c, || M::<P>::slice(PackedMemorySlice::new_slice(&v), ..bl).as_slice().to_vec());
	for (x, y) in [(a, b), (al, bl), (0, bl)] {
		t(c, || {
			let mut m = PackedMemorySliceMut::new_slice(&mut v);
			let mut s = M::<P>::slice_mut(&mut m, x..y);
			touch(&mut s);
		});
	}
	t(c, || {
		let m = PackedMemorySliceMut::new_slice(&mut v);
		let (mut x, mut y) = M::<P>::split_at_mut(m, al);
		touch(&mut x);
		touch(&mut y);
		touch(&mut x);
	});
	let l = if c.flip() { idx(c, w) } else { w * (1 + c.below(2)) };
	t(c, || {
		let m = PackedMemorySliceMut::new_slice(&mut v);
		let mut all: Vec<_> = M::<P>::slice_chunks_mut(m, l).collect();
		for _ in 0..2 {
			for s in all.iter_mut() {
				touch(s);
			}
		}
	});
	// halves, down to parts of one packed element, alive at once and from other threads
	for take in [1, n] {
		t(c, || {
			let v = &mut v[..take];
			let m = PackedMemorySliceMut::new_slice(v);
			let (x, mut y) = M::<P>::split_half_mut(m);
			let (mut x0, mut x1) = M::<P>::split_half_mut(x);
			touch(&mut x0);
			touch(&mut y);
			std::thread::scope(|s| {
				s.spawn(|| touch(&mut x1));
				s.spawn(|| touch(&mut y));
			});
			touch(&mut x0);
		});
	}
	t(c, || {
		let mut m = PackedMemorySliceMut::new_slice(&mut v[..1]);
		{
			let mut o = M::<P>::to_owned_mut(&mut m);
			touch(&mut o);
			let (mut x, mut y) = M::<P>::split_half_mut(M::<P>::to_owned_mut(&mut o));
			touch(&mut x);
			touch(&mut y);
		}
		touch(&mut m);
		m.as_slice().to_vec()
	});
	t(c, || {
		let (x, y) = M::<P>::split_half(PackedMemorySlice::new_slice(&v[..1]));
		(x.as_slice()[0], y.as_slice()[0], M::<P>::narrow(&x).len())
	});
	Ok(())
}

fn hashes(c: &mut Case, small: bool) -> Res {
	let i = c.index as usize;
	let n = if small { 1 } else { 3 };
	for _ in 0..n {
		let len = c.below(140);
		let b = c.bytes(len);
		t(c, || <Groestl256 as digest::Digest>::digest(&b));
		if !small {
			t(c, || <VisionHasherDigest as digest::Digest>::digest(&b[..b.len().min(40)]));
		}
		let xs: Vec<BinaryField32b> = scalars(c, 5);
		t(c, || hash_serialize::<_, Groestl256>(xs.iter().copied()).is_ok());
	}
	// output buffers of any length: lanes that are left over, empty, more digests than inputs
	let (rows, outs) = (c.below(7), c.below(7));
	let vals: Vec<Vec<BinaryField32b>> = (0..rows).map(|_| scalars(c, 3)).collect();
	t(c, || {
		let mut o = uninit(outs);
		Groestl256Parallel::new().digest(vals.clone().into_par_iter(), &mut o);
		o[..rows.min(outs)].iter().map(|x| unsafe { x.assume_init_ref() }[0] as usize).sum::<usize>()
	});
	c.obs((rows, outs, i), true);
	Ok(())
}
type Groestl256Parallel = binius_hash::groestl::Groestl256Parallel;

fn ntts<P: PackedField<Scalar = BinaryField32b>>(c: &mut Case) -> Res {
	let lg = 1 + c.below(5);
	let ntt = SingleThreadedNTT::<BinaryField32b>::new(lg).map_err(es)?;
	let (y, x, z) = (near(c, lg), c.below(3), c.below(3));
	let n = near(c, (1usize << (x + y + z).min(9)).div_ceil(P::WIDTH));
	let mut v: Vec<P> = vecp(c, n);
	let shape = NTTShape { log_x: x, log_y: y, log_z: z };
	let (coset, bits, skip) = (c.below(3), c.below(3), c.below(3));
	c.obs((lg, x, y, z, n, coset, bits, skip), true);
	t(c, || ntt.forward_transform(&mut v, shape, coset, bits, skip).is_ok());
	t(c, || ntt.inverse_transform(&mut v, shape, coset, bits, skip).is_ok());
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C25");
	m.rule("nontrivial: the calls of a case (well-formed and hostile shapes) ran to an outcome under the interpreter or sanitizer");
	let small = small();
	let n = m.n(if small { 3 } else { 400 }, if small { 30 } else { 20000 });
	macro_rules! two { ($($nm:literal: $f:ident<$a:ty, $b:ty>;)*) => { $( m.par($nm, n, $f::<$a, $b>); )* } }
	type O = <BinaryField128b as binius_field::arch::ArchOptimal>::OptimalThroughputPacked;
	two! {
		"fold.1b-128b": folds<PackedBinaryField128x1b, PackedBinaryField1x128b>;
		"fold.1b-opt": folds<PackedBinaryField128x1b, O>;
		"fold.8x1b-4x128b": folds<PackedBinaryField8x1b, PackedBinaryField4x128b>;
		"fold.512x1b-2x64b": folds<PackedBinaryField512x1b, PackedBinaryField2x64b>;
		"fold.32b-128b": folds<PackedBinaryField4x32b, PackedBinaryField2x128b>;
		"fold.128b-128b": folds<PackedBinaryField2x128b, PackedBinaryField2x128b>;
		"fold.scalar": folds<BinaryField8b, BinaryField128b>;
		"fold.1x1b": folds<BinaryField1b, BinaryField128b>;
		"mle.8b": mles<PackedBinaryField16x8b, PackedBinaryField1x128b>;
		"mle.1b": mles<PackedBinaryField256x1b, PackedBinaryField2x128b>;
		"mle.128b": mles<PackedBinaryField2x128b, PackedBinaryField2x128b>;
		"mle.32b": mles<PackedBinaryField16x32b, PackedBinaryField4x128b>;
	}
	if !small {
		two! {
			"fold.sliced": folds<ByteSliced16x128x1b, ByteSlicedAES16x128b>;
			"fold.aes": folds<PackedBinaryField128x1b, PackedAESBinaryField2x128b>;
			"fold.polyval": folds<PackedBinaryField128x1b, PackedBinaryPolyval1x128b>;
		}
	}
	m.par("rows", n * 4, rows);
	m.par("circuit.8b", n, circuits::<PackedBinaryField4x8b>);
	m.par("circuit.128b", n, circuits::<BinaryField128b>);
	m.par("memory.4x128b", n, memory::<PackedBinaryField4x128b>);
	m.par("memory.16x8b", n, memory::<PackedBinaryField16x8b>);
	m.par("memory.1x128b", n, memory::<PackedBinaryField1x128b>);
	m.par("ntt.4x32b", n, ntts::<PackedBinaryField4x32b>);
	m.par("ntt.8x32b", n, ntts::<PackedBinaryField8x32b>);
	m.par("hash", if small { 3 } else { n.min(200) }, |c| hashes(c, small));
	m.par("vision", if small { 0 } else { n.min(60) }, |c| {
		let b: Vec<Vec<u8>> = (0..4).map(|_| c.bytes(33)).collect();
		t(c, || {
			let mut o = uninit(32);
			let out: &mut [_; 32] = (&mut o[..]).try_into().expect("32 lanes");
			let mut h = <VisionHasherDigestByteSliced as MultiDigest<32>>::new();
			h.update(std::array::from_fn(|i| &b[i % 4][..]));
			h.finalize_into(out);
			out.iter().map(|x| unsafe { x.assume_init_ref() }[0] as usize).sum::<usize>()
		});
		c.obs(b, true);
		Ok(())
	});
	m.finish()
}
