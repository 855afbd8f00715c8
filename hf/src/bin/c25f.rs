//! C25 workload (fields and utilities): every safe entry point that rests on unchecked indexing,
//! pointer casts or uninitialised memory, with well-formed and hostile shapes. Errors and panics
//! are fine; what decides is the interpreter or sanitizer the binary runs under.
use binius_maybe_rayon::iter::*;
use binius_utils::{array_2d::Array2D, mem::slice_uninit_mut, random_access_sequence::*, strided_array::StridedArray2DViewMut};
use hf::*;
use rand::{SeedableRng, rngs::StdRng};
use std::hint::black_box;

/// run `f`; a panic or an error is an outcome like any other
fn t<T>(c: &mut Case, f: impl FnOnce() -> T) {
	let ok = guard(|| {
		black_box(f());
	})
	.is_ok();
	c.count(if ok { "returned" } else { "panicked" }, 1);
}

/// an index around the boundary of `n`
fn idx(c: &mut Case, n: usize) -> usize {
	match c.below(8) {
		0 => n,
		1 => n + 1,
		2 => usize::MAX,
		3 => 1 << 63,
		4 => n.wrapping_sub(1),
		_ => c.below(n.max(1)),
	}
}

fn rnd<P: PackedField>(c: &mut Case) -> P {
	let s = c.u128() as u64;
	P::random(StdRng::seed_from_u64(s))
}
fn vecp<P: PackedField>(c: &mut Case, n: usize) -> Vec<P> {
	(0..n).map(|_| rnd(c)).collect()
}

struct Sum(u64);
impl byte_iteration::ByteIteratorCallback for Sum {
	fn call(&mut self, it: impl Iterator<Item = u8>) {
		for b in it {
			self.0 = self.0.rotate_left(5) ^ b as u64;
		}
	}
}

fn packed<P: PackedField>(c: &mut Case) -> Res {
	let n = c.below(4);
	let mut v: Vec<P> = vecp(c, n);
	let x: P = rnd(c);
	let y: P = rnd(c);
	let s = x.iter().next().expect("one lane");
	for _ in 0..3 {
		let i = idx(c, P::WIDTH);
		let j = idx(c, n * P::WIDTH);
		let k = idx(c, n * P::WIDTH);
		t(c, || x.get(i));
		t(c, || x.get_checked(i));
		t(c, || x.clone().set(i, s));
		t(c, || x.clone().set_checked(i, s));
		t(c, || get_packed_slice(&v, j));
		t(c, || get_packed_slice_checked(&v, j));
		t(c, || set_packed_slice(&mut v, j, s));
		t(c, || set_packed_slice_checked(&mut v, j, s));
		t(c, || PackedSlice::new_with_len(&v, j).get(k));
		t(c, || PackedSlice::new(&v).get(k));
		t(c, || PackedSliceMut::new_with_len(&mut v, j).set(k, s));
		t(c, || iter_packed_slice_with_offset(&v, j).take(9).count());
		t(c, || packed_from_fn_with_offset::<P>(i, |_| s));
		let b = c.below(P::LOG_WIDTH + 3);
		t(c, || x.interleave(y, b));
		t(c, || x.unzip(y, b));
		t(c, || x.spread(b, i));
		t(c, || {
			let sl = PackedSlice::new(&v);
			let sub = SequenceSubrange::new(&sl, j, k);
			(sub.get(i), sub.len())
		});
	}
	t(c, || (x * y, x.square(), x.invert_or_zero(), x + y, x.pow(3)));
	t(c, || P::iter_slice(&v).count());
	t(c, || unpack_if_possible(&v, |s| s.len(), |p| p.len()));
	t(c, || unpack_if_possible_mut(&mut v, |u| u.iter_mut().for_each(|e| *e += s), |_| ()));
	let m = c.below(P::WIDTH * 2 + 3);
	let scal: Vec<P::Scalar> = vec![s; m];
	t(c, || pack_slice::<P>(&scal));
	t(c, || copy_packed_from_scalars_slice(&scal, &mut v));
	if byte_iteration::can_iterate_bytes::<P>() {
		t(c, || {
			let mut s = Sum(0);
			byte_iteration::iterate_bytes(&v, &mut s);
			s.0
		});
	}
	let lg = c.below(P::LOG_WIDTH + 2);
	let mut sq: Vec<P> = vecp(c, if c.index % 3 == 0 { c.index as usize % 5 } else { 1 << lg.min(4) });
	t(c, || transpose::square_transpose(lg, &mut sq).is_ok());
	t(c, || slice_uninit_mut(&mut v).len());
	c.obs((tn::<P>(), c.index), true);
	Ok(())
}
fn ext<F: Field, PE: PackedExtension<F>>(c: &mut Case) -> Res {
	let n = 1 + c.below(3);
	let mut v: Vec<PE> = vecp(c, n);
	let m = match c.below(3) {
		0 => c.below(5),
		_ => n * <PE::Scalar as ExtensionField<F>>::DEGREE.min(4),
	};
	let mut base: Vec<PE::PackedSubfield> = vecp(c, m);
	t(c, || PE::cast_bases(&v).len());
	t(c, || PE::cast_bases_mut(&mut v).iter_mut().for_each(|x| *x = PE::PackedSubfield::one()));
	t(c, || PE::cast_exts(&base).len());
	t(c, || PE::cast_exts_mut(&mut base).iter_mut().for_each(|x| *x = PE::one()));
	let x = v[0];
	t(c, || PE::cast_ext(x.cast_base()) == x);
	let short: Vec<PE::PackedSubfield> = vecp(c, 1);
	t(c, || ext_base_mul(&mut v, &short).is_ok());
	t(c, || ext_base_mul_par(&mut v, &base).is_ok());
	let f = short[0].iter().next().expect("lane");
	t(c, || mul_by_subfield_scalar(x, f));
	for _ in 0..3 {
		let i = idx(c, <PE::Scalar as ExtensionField<F>>::DEGREE);
		let e = x.iter().next().expect("lane");
		t(c, || <PE::Scalar as ExtensionField<F>>::get_base(&e, i));
		t(c, || <PE::Scalar as ExtensionField<F>>::basis(i));
		let k = c.below(<PE::Scalar as ExtensionField<F>>::DEGREE + 3);
		t(c, || <PE::Scalar as ExtensionField<F>>::from_bases((0..k).map(|_| f)));
		t(c, || <PE::Scalar as ExtensionField<F>>::from_bases_sparse((0..k).map(|_| f), i & 7));
	}
	c.obs((tn::<PE>(), tn::<F>(), c.index), true);
	Ok(())
}

fn underliers<U: UnderlierWithBitOps + Copy + std::fmt::Debug>(c: &mut Case, x: U, y: U) -> Res {
	let _ = y;
	for n in [0usize, 1, 7, U::BITS - 1, U::BITS, U::BITS + 1] {
		t(c, || x >> n);
		t(c, || x << n);
	}
	Ok(())
}

fn arrays(c: &mut Case) -> Res {
	let (r, w) = (c.below(5), c.below(6));
	let mut data: Vec<u32> = (0..(r * w) as u32).collect();
	let len = if c.flip() { r * w } else { c.below(r * w + 3) };
	let (i, j, s) = (idx(c, r), idx(c, w), c.below(w + 3));
	data.resize(len, 7);
	t(c, || StridedArray2DViewMut::without_stride(&mut data, r, w).map(|v| (v.height(), v.width())));
	t(c, || {
		let mut v = StridedArray2DViewMut::without_stride(&mut data, r, w).expect("shape");
		v[(i, j)] = 5;
		v[(i, j)]
	});
	t(c, || {
		let mut v = StridedArray2DViewMut::without_stride(&mut data, r, w).expect("shape");
		v.iter_column_mut(j).for_each(|x| *x += 1);
	});
	t(c, || {
		let v = StridedArray2DViewMut::without_stride(&mut data, r, w).expect("shape");
		// all the strides are alive at once
		let mut all: Vec<_> = v.into_strides(s).collect();
		for round in 0..2 {
			for v in all.iter_mut() {
				for i in 0..v.height() {
					for j in 0..v.width() {
						v[(i, j)] += round;
					}
				}
			}
		}
		all.len()
	});
	t(c, || {
		let v = StridedArray2DViewMut::without_stride(&mut data, r, w).expect("shape");
		v.into_par_strides(s).for_each(|mut v| {
			for i in 0..v.height() {
				for j in 0..v.width() {
					v[(i, j)] ^= 1;
				}
			}
		});
	});
	t(c, || {
		let mut a = Array2D::<u64>::new(r, w);
		a[(i, j)] = 3;
		a.get_row_mut(i)[0] = 1;
		let sum: u64 = a.iter_rows().flatten().sum();
		(sum, a.reshape(w, r).map(|b| b.rows()), a.reshape(j, i).is_some(), a.sum_rows())
	});
	let v: Vec<u8> = c.bytes(9);
	let (o, l, k) = (idx(c, 9), idx(c, 9), idx(c, 9));
	let mut v2 = v.clone();
	t(c, || {
		let sl = &v[..];
		SequenceSubrange::new(&sl, o, l).get(k)
	});
	t(c, || {
		let mut sl = &mut v2[..];
		SequenceSubrangeMut::new(&mut sl, o, l).set(k, 1)
	});
	c.obs((r, w, len, i, j, s), true);
	Ok(())
}

fn tables<P: PackedField>(c: &mut Case) -> Res {
	let v: Vec<P> = vecp(c, 1 + 16 / P::WIDTH);
	let n = c.pick(&[8usize, 16, 3, 0]);
	t(c, || byte_iteration::create_partial_sums_lookup_tables(PackedSlice::new_with_len(&v, n)).len());
	t(c, || byte_iteration::create_partial_sums_lookup_tables(PackedSlice::new(&v)).len());
	c.obs((tn::<P>(), n, c.index), true);
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C25");
	m.rule("nontrivial: the calls of a case (well-formed and hostile shapes) ran to an outcome under the interpreter or sanitizer");
	let small = cfg!(miri);
	let n = m.n(if small { 1 } else { 60 }, if small { 6 } else { 4000 });
	macro_rules! pk { ($($t:ty),*) => { $( m.par(concat!("packed.", stringify!($t)), n, packed::<$t>); )* } }
	pk!(BinaryField1b, BinaryField8b, BinaryField128b, PackedBinaryField16x8b, PackedBinaryField128x1b, PackedBinaryField4x32b,
		PackedBinaryField4x2b, PackedAESBinaryField32x8b, PackedBinaryField2x128b, PackedBinaryField4x128b, PackedBinaryPolyval2x128b,
		ByteSlicedAES16x16b, ByteSliced16x128x1b, PackedBinaryField512x1b);
	if !small {
		pk!(ByteSlicedAES32x128b, ByteSlicedAES4x32x32b, ByteSlicedAES8x64x16b, ByteSliced4x256x1b, PackedBinaryField64x4b, PackedAESBinaryField8x64b,
			PackedBinaryField64x8b, PackedBinaryField2x1b, PackedBinaryField1x4b, BinaryField4b, BinaryField2b, BinaryField16b);
	}
	macro_rules! ex { ($($f:ty, $t:ty);*) => { $( m.par(concat!("ext.", stringify!($f), ".", stringify!($t)), n, ext::<$f, $t>); )* } }
	ex!(BinaryField1b, PackedBinaryField2x128b; BinaryField8b, PackedBinaryField4x32b; BinaryField32b, PackedBinaryField4x128b;
		BinaryField1b, PackedAESBinaryField16x8b; AESTowerField8b, PackedAESBinaryField8x16b; BinaryField128b, BinaryField128b;
		BinaryField1b, PackedBinaryPolyval1x128b; BinaryField4b, PackedBinaryField8x16b);
	m.par("tables.8x8b", n, tables::<PackedBinaryField8x8b>);
	m.par("tables.2x128b", n, tables::<PackedBinaryField2x128b>);
	m.par("underliers", n, |c| {
		let (a, b) = (c.u128(), c.u128());
		underliers(c, a, b)?;
		underliers(c, a as u8, b as u8)?;
		underliers(c, a as u64, b as u64)?;
		underliers(c, U1::new(a as u8 & 1), U1::new(b as u8 & 1))?;
		underliers(c, U4::new(a as u8 & 15), U4::new(b as u8 & 15))?;
		let (v, w) = (vecp::<PackedBinaryField4x128b>(c, 1), vecp::<PackedBinaryField4x128b>(c, 1));
		underliers(c, v[0].to_underlier(), w[0].to_underlier())?;
		let (v, w) = (vecp::<PackedBinaryField2x128b>(c, 1), vecp::<PackedBinaryField2x128b>(c, 1));
		underliers(c, v[0].to_underlier(), w[0].to_underlier())?;
		c.obs((a, b), true);
		Ok(())
	});
	m.par("arrays", n * 12, arrays);
	m.finish()
}
