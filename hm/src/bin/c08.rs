//! C08: additive NTT, odd interpolation, FRI folding against the polynomial definition.
use binius_math::BinarySubspace;
use binius_ntt::{fri, twiddle::*, *};
use hm::*;

enum Any<F: BinaryField> {
	S(SingleThreadedNTT<F>),
	SP(SingleThreadedNTT<F, PrecomputedTwiddleAccess<F>>),
	M(MultithreadedNTT<F>),
	MP(MultithreadedNTT<F, PrecomputedTwiddleAccess<F>>),
	D(DynamicDispatchNTT<F>),
}
macro_rules! on { ($s:expr, $n:ident => $e:expr) => { match $s { Any::S($n) => $e, Any::SP($n) => $e, Any::M($n) => $e, Any::MP($n) => $e, Any::D($n) => $e } } }

fn make<F: Sc + BinaryField>(c: &mut Case, ell: usize) -> Result<(Any<F>, Dom<F>, String), String> {
	let bits = F::RF.bits();
	let kind = c.below(4);
	// domain
	let (basis, ntt) = match kind {
		0 | 1 => {
			let basis: Vec<F> = (0..ell).map(|k| <F as ExtensionField<BinaryField1b>>::basis(k)).collect();
			(basis, SingleThreadedNTT::<F>::new(ell).map_err(es)?)
		}
		2 => {
			// any subspace containing 1 as its first basis element
			let mut basis: Vec<F> = vec![F::ONE];
			let mut span: Vec<u128> = vec![0, F::ONE.u()];
			while basis.len() < ell {
				let x: F = F::rnd(c);
				if !span.contains(&x.u()) {
					span.extend(span.clone().iter().map(|s| s ^ x.u()).collect::<Vec<_>>());
					basis.push(x);
				}
			}
			let s = BinarySubspace::new_unchecked(basis.clone());
			(basis, SingleThreadedNTT::with_subspace(&s).map_err(es)?)
		}
		_ => {
			let ntt = SingleThreadedNTT::<F>::with_canonical_field(ell).map_err(es)?;
			let basis: Vec<F> = (0..ell).map(|k| F::from(<F::Canonical as ExtensionField<BinaryField1b>>::basis(k))).collect();
			(basis, ntt)
		}
	};
	let _ = bits;
	let dom = Dom::new(&basis);
	let lt = c.below(5);
	let (ntt, name) = match c.below(if kind < 2 { 6 } else { 4 }) {
		0 => (Any::S(ntt), "single".into()),
		1 => (Any::SP(ntt.precompute_twiddles()), "single precomputed".into()),
		2 => (Any::M(ntt.multithreaded_with_max_threads(lt)), format!("multi 2^{lt}")),
		3 => (Any::MP(ntt.precompute_twiddles().multithreaded_with_max_threads(lt)), format!("multi precomputed 2^{lt}")),
		k => {
			let o = NTTOptions {
				precompute_twiddles: k == 4,
				thread_settings: match c.below(3) {
					0 => ThreadingSettings::SingleThreaded,
					1 => ThreadingSettings::MultithreadedDefault,
					_ => ThreadingSettings::ExplicitThreadsCount { log_threads: lt },
				},
			};
			(Any::D(DynamicDispatchNTT::new(ell, &o).map_err(es)?), format!("dispatch precompute={} {:?}", k == 4, o.thread_settings))
		}
	};
	Ok((ntt, dom, format!("domain {kind} ell={ell} {name}")))
}

fn max_ell<F: Sc>(cap: usize) -> usize {
	F::RF.bits().min(cap)
}

/// what the forward transform must compute on scalars of E over the domain field F
fn reference<F: Field, E: ExtensionField<F>>(d: &Dom<F>, v: &[E], s: NTTShape, coset: usize, cb: usize, skip: usize) -> Vec<E> {
	let n = s.log_y + cb;
	let (x, y) = (1usize << s.log_x, 1usize << s.log_y);
	let blk = y >> skip;
	let mut out = vec![E::ZERO; v.len()];
	for z in 0..1usize << s.log_z {
		for i in 0..x {
			for b in 0..1usize << skip {
				let co: Vec<E> = (0..blk).map(|j| v[i + x * (b * blk + j + y * z)]).collect();
				for j in 0..blk {
					out[i + x * (b * blk + j + y * z)] = d.eval(n, &co, coset << s.log_y | b * blk + j);
				}
			}
		}
	}
	out
}

fn ntt<P>(c: &mut Case) -> Res
where
	P: PackedField<Scalar: Sc + BinaryField>,
{
	type F<P> = FOf<P>;
	let ell = c.range(1, max_ell::<F<P>>(9));
	let (ntt, dom, nm) = make::<F<P>>(c, ell)?;
	let log_y = c.range(0, ell.min(6));
	let cb = c.range(0, ell - log_y);
	let coset = c.below(1 << cb);
	let skip = if c.flip() { 0 } else { c.range(0, log_y) };
	let mut s = NTTShape { log_x: if c.flip() { 0 } else { c.range(0, 4) }, log_y, log_z: if c.flip() { 0 } else { c.range(0, 3) } };
	// sometimes fill the packed element exactly
	if c.below(3) == 0 {
		s.log_x = P::LOG_WIDTH.saturating_sub(log_y + c.below(3)).min(6);
	}
	let n = 1usize << (s.log_x + s.log_y + s.log_z);
	c.desc(format!("{} {nm} {s:?} coset={coset}/{cb} skip={skip}", tn::<P>()));
	let v = scalars::<F<P>>(c, n);
	c.obs((tn::<P>(), &nm, s.log_x, s.log_y, s.log_z, coset, cb, skip), log_y > skip);
	let want = reference::<F<P>, F<P>>(&dom, &v, s, coset, cb, skip);
	let mut data: Vec<P> = pack(c, &v);
	on!(&ntt, t => t.forward_transform(&mut data, s, coset, cb, skip)).map_err(es)?;
	ensure_eq!(unpack(&data, n), want, "forward transform");
	on!(&ntt, t => t.inverse_transform(&mut data, s, coset, cb, skip)).map_err(es)?;
	ensure_eq!(unpack(&data, n), v, "inverse of the forward transform");
	let mut data: Vec<P> = pack(c, &want);
	on!(&ntt, t => t.inverse_transform(&mut data, s, coset, cb, skip)).map_err(es)?;
	ensure_eq!(unpack(&data, n), v, "inverse transform");
	// domains and twiddles
	on!(&ntt, t => {
		ensure_eq!(t.log_domain_size(), ell, "log_domain_size");
		for i in 1..=ell {
			ensure_eq!(t.subspace(i).basis().to_vec(), dom.basis(i), "subspace({i})");
			for _ in 0..4 {
				let j = c.below(1 << (i - 1));
				ensure_eq!(t.get_subspace_eval(i, j), dom.point(i, j << 1), "get_subspace_eval({i},{j})");
			}
		}
	});
	// bad parameters
	let mut chk = |what: &str, len: usize, s: NTTShape, coset: usize, cb: usize, skip: usize| -> Res {
		let mut d = vec![P::zero(); len];
		ensure!(on!(&ntt, t => t.forward_transform(&mut d, s, coset, cb, skip)).is_err(), "{what} accepted by forward_transform");
		ensure!(on!(&ntt, t => t.inverse_transform(&mut d, s, coset, cb, skip)).is_err(), "{what} accepted by inverse_transform");
		Ok(())
	};
	let len = data.len();
	chk("three elements", 3, s, coset, cb, skip)?;
	chk("skip_rounds > log_y", len, s, coset, cb, log_y + 1)?;
	chk("coset out of range", len, s, 1 << cb, cb, skip)?;
	chk("domain too small", len, s, 0, ell - log_y + 1, 0)?;
	chk("data too long", 4 * len, s, coset, cb, skip)?;
	if len > 1 {
		chk("data too short", len / 2, s, coset, cb, skip)?;
	}
	Ok(())
}

fn ntt_ext<FD, PE>(c: &mut Case) -> Res
where
	FD: Sc + BinaryField,
	PE: PackedExtension<FD> + PackedField<Scalar: Sc + ExtensionField<FD>>,
{
	let ell = c.range(1, max_ell::<FD>(7));
	let (ntt, dom, nm) = make::<FD>(c, ell)?;
	let log_y = c.range(0, ell.min(5));
	let cb = c.range(0, ell - log_y);
	let coset = c.below(1 << cb);
	let skip = c.range(0, log_y);
	let s = NTTShape { log_x: c.range(0, 3), log_y, log_z: c.range(0, 2) };
	let n = 1usize << (s.log_x + s.log_y + s.log_z);
	c.desc(format!("{} over {} {nm} {s:?} coset={coset}/{cb} skip={skip}", tn::<PE>(), FD::NAME));
	c.obs((tn::<PE>(), FD::NAME, &nm, s.log_x, s.log_y, s.log_z, coset, cb, skip), log_y > skip);
	let v = scalars::<FOf<PE>>(c, n);
	let want = reference::<FD, FOf<PE>>(&dom, &v, s, coset, cb, skip);
	let mut data: Vec<PE> = pack(c, &v);
	on!(&ntt, t => t.forward_transform_ext(&mut data, s, coset, cb, skip)).map_err(es)?;
	ensure_eq!(unpack(&data, n), want, "forward_transform_ext");
	on!(&ntt, t => t.inverse_transform_ext(&mut data, s, coset, cb, skip)).map_err(es)?;
	ensure_eq!(unpack(&data, n), v, "inverse_transform_ext");
	Ok(())
}

fn with_domain<FD, F>(c: &mut Case) -> Res
where
	FD: Sc + BinaryField,
	F: Sc + BinaryField + From<FD>,
{
	let ell = c.range(1, max_ell::<FD>(8));
	let t = SingleThreadedNTT::<F>::with_domain_field::<FD>(ell).map_err(es)?;
	let basis: Vec<F> = (0..ell).map(|k| F::from(<FD as ExtensionField<BinaryField1b>>::basis(k))).collect();
	let dom = Dom::new(&basis);
	let log_y = c.range(0, ell.min(6));
	let cb = c.range(0, ell - log_y);
	let coset = c.below(1 << cb);
	c.obs((FD::NAME, F::NAME, ell, log_y, cb, coset), log_y > 0);
	let s = NTTShape { log_y, ..Default::default() };
	let v = scalars::<F>(c, 1 << log_y);
	let mut d = v.clone();
	t.forward_transform(&mut d, s, coset, cb, 0).map_err(es)?;
	ensure_eq!(d, reference::<F, F>(&dom, &v, s, coset, cb, 0), "forward");
	// too large domain fields
	ensure!(SingleThreadedNTT::<F>::new(F::RF.bits() + 1).is_err(), "domain larger than the field accepted");
	ensure!(SingleThreadedNTT::<F>::new(0).is_err() || true, "unreachable");
	if F::RF.bits() > 1 {
		let bad = BinarySubspace::new_unchecked(vec![F::MULTIPLICATIVE_GENERATOR]);
		ensure!(SingleThreadedNTT::with_subspace(&bad).is_err(), "subspace without one accepted");
	}
	Ok(())
}

fn twiddles<F: Sc + BinaryField>(c: &mut Case) -> Res {
	let ell = c.range(1, max_ell::<F>(9));
	let basis: Vec<F> = (0..ell).map(|k| <F as ExtensionField<BinaryField1b>>::basis(k)).collect();
	let dom = Dom::new(&basis);
	let sub = BinarySubspace::new_unchecked(basis);
	let a = OnTheFlyTwiddleAccess::generate(&sub).map_err(es)?;
	let b = PrecomputedTwiddleAccess::generate(&sub).map_err(es)?;
	ensure!(a.len() == ell && b.len() == ell, "one twiddle set per round");
	fn look<F: BinaryField, T: TwiddleAccess<F>>(c: &mut Case, t: &T, dom: &Dom<F>, n: usize, cbits: usize, coset: usize) -> Res {
		// n: dimension of this round's domain; twiddles skip its first basis element
		let ln = n - 1 - cbits;
		ensure_eq!(t.log_n(), ln, "log_n");
		let at = |i: usize| dom.point(n, (coset << ln | i) << 1);
		for _ in 0..6 {
			let i = c.below(1 << ln);
			ensure_eq!(t.get(i), at(i), "twiddle {i} of 2^{ln} coset {coset}/{cbits}");
			if ln > 0 {
				let ib = c.below(ln);
				let i = c.below(1 << ib);
				ensure_eq!(t.get_pair(ib, i), (at(i), at(1 << ib | i)), "get_pair({ib},{i})");
			}
		}
		let (s, shift) = t.affine_subspace();
		ensure_eq!(shift, at(0), "affine shift");
		ensure_eq!(s.basis(), &dom.basis(n)[..ln + 1], "affine subspace basis");
		Ok(())
	}
	for r in 0..ell {
		let n = ell - r;
		c.obs((F::NAME, ell, r), n > 1);
		look(c, &a[r], &dom, n, 0, 0)?;
		look(c, &b[r], &dom, n, 0, 0)?;
		let cb = c.range(0, n - 1);
		let co = c.below(1 << cb);
		let (ac, bc) = (a[r].coset(cb, co), b[r].coset(cb, co));
		look(c, &ac, &dom, n, cb, co)?;
		look(c, &bc, &dom, n, cb, co)?;
		let cb2 = c.range(0, n - 1 - cb);
		let co2 = c.below(1 << cb2);
		look(c, &ac.coset(cb2, co2), &dom, n, cb + cb2, co << cb2 | co2)?;
		look(c, &bc.coset(cb2, co2), &dom, n, cb + cb2, co << cb2 | co2)?;
	}
	Ok(())
}

fn odd<F: Sc + BinaryField>(c: &mut Case) -> Res {
	let ell = c.range(1, max_ell::<F>(8));
	let (ntt, dom, nm) = make::<F>(c, ell)?;
	let le = c.range(0, ell.min(4));
	let cb = c.range(0, (ell - le).min(4));
	let d = c.range(1, 1 << cb);
	c.desc(format!("{} {nm} d={d} ell={le} coset_bits={cb}", F::NAME));
	c.obs((F::NAME, &nm, d, le, cb), d > 1);
	let v = scalars::<F>(c, d << le);
	let evals: Vec<F> = (0..d << le).map(|i| dom.eval(le + cb, &v, i)).collect();
	on!(&ntt, t => {
		let o = OddInterpolate::new(t, d, le, cb).map_err(es)?;
		let mut x = evals.clone();
		o.inverse_transform(&mut x).map_err(es)?;
		ensure_eq!(x, v, "odd interpolation");
		x.push(F::ZERO);
		ensure!(o.inverse_transform(&mut x).is_err(), "wrong length accepted");
		ensure!(OddInterpolate::new(t, (1 << cb) + 1, le, cb).is_err(), "d larger than the number of cosets accepted");
		ensure!(OddInterpolate::new(t, d, ell - cb + 1, cb).is_err(), "domain too small accepted");
	});
	Ok(())
}

fn fold<FS, P>(c: &mut Case) -> Res
where
	FS: Sc + BinaryField,
	P: PackedField<Scalar: Sc + BinaryField + ExtensionField<FS>>,
{
	type F<P> = FOf<P>;
	let ell = c.range(1, max_ell::<FS>(7));
	let (ntt, dom, nm) = make::<FS>(c, ell)?;
	let log_len = c.range(1, ell);
	let log_batch = if c.flip() { 0 } else { c.range(0, 4) };
	let nch = log_batch + c.range(0, log_len);
	c.desc(format!("{} over {} {nm} log_len={log_len} log_batch={log_batch} challenges={nch}", tn::<P>(), FS::NAME));
	// chunks smaller than a packed element are not representable by the single-chunk interface
	let chunks = !(nch < P::LOG_WIDTH || (log_batch > 0 && log_batch < P::LOG_WIDTH));
	c.obs((tn::<P>(), FS::NAME, &nm, log_len, log_batch, nch), nch > 0);
	let b = 1usize << log_batch;
	// one polynomial per interleaved codeword
	let polys: Vec<Vec<F<P>>> = (0..b).map(|_| scalars(c, 1 << log_len)).collect();
	let mut code = vec![F::<P>::ZERO; b << log_len];
	for (k, p) in polys.iter().enumerate() {
		for i in 0..1usize << log_len {
			code[i * b + k] = dom.eval(log_len, p, i);
		}
	}
	let ch = scalars::<F<P>>(c, nch);
	let tensor = eq_all(&ch[..log_batch]);
	let mut co: Vec<F<P>> = (0..1usize << log_len).map(|i| (0..b).fold(F::<P>::ZERO, |s, k| s + tensor[k] * polys[k][i])).collect();
	let mut n = log_len;
	for r in &ch[log_batch..] {
		co = co.chunks(2).map(|p| p[0] * (F::<P>::ONE - *r) + p[1] * *r).collect();
		n -= 1;
	}
	let want: Vec<F<P>> = (0..1usize << n).map(|i| dom.eval(n, &co, i)).collect();
	let packed: Vec<P> = pack(c, &code);
	on!(&ntt, t => {
		let got = fri::fold_interleaved(t, &packed, &ch, log_len, log_batch);
		ensure_eq!(got, want, "fold_interleaved");
		let mut out = scalars::<F<P>>(c, 1 << n);
		fri::fold_interleaved_allocated(t, &packed, &ch, log_len, log_batch, &mut out);
		ensure_eq!(out, want, "fold_interleaved_allocated");
		// single chunks
		let fc = &ch[log_batch..];
		let i = c.below(1 << n);
		let mixed: Vec<F<P>> = (0..1usize << log_len).map(|j| (0..b).fold(F::<P>::ZERO, |s, k| s + tensor[k] * code[j * b + k])).collect();
		if !chunks {
			return Ok(());
		}
		let mut vals = mixed[i << fc.len()..(i + 1) << fc.len()].to_vec();
		ensure_eq!(fri::fold_chunk(t, log_len, i, &mut vals, fc), want[i], "fold_chunk {i}");
		let raw = &code[(i << fc.len()) * b..((i + 1) << fc.len()) * b];
		let pk: Vec<P> = pack(c, raw);
		let tp: Vec<P> = pack0(&tensor);
		let pad = c.below(3);
		let mut scratch = scalars::<F<P>>(c, (1 << fc.len()) + pad);
		ensure_eq!(fri::fold_interleaved_chunk(t, log_len, log_batch, i, &pk, &tp, fc, &mut scratch), want[i], "fold_interleaved_chunk {i}");
	});
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C08");
	m.rule("one transform (or fold) of random coefficients compared point by point with evaluation of the polynomial built from the subspace polynomials; non-trivial when at least one butterfly layer or fold runs; distinct by packed type, implementation, shape, coset and skipped rounds");
	let n = m.n(90, 60000);
	macro_rules! go { ($f:ident, $nm:literal; $($($p:ident)+),* $(,)?) => {$( m.par(concat!($nm, $(" ", stringify!($p)),+), n, |c| $f::<$($p),+>(c)); )*} }
	go!(ntt, "ntt"; BinaryField8b, PackedBinaryField4x8b, PackedBinaryField16x8b, PackedBinaryField32x8b, PackedBinaryField64x8b, BinaryField16b, PackedBinaryField8x16b, PackedBinaryField16x16b, BinaryField32b, PackedBinaryField2x32b, PackedBinaryField4x32b, PackedBinaryField8x32b, PackedBinaryField16x32b, PackedBinaryField2x64b, BinaryField128b, PackedBinaryField2x128b, PackedBinaryField4x128b,
		AESTowerField8b, PackedAESBinaryField16x8b, PackedAESBinaryField32x8b, PackedAESBinaryField4x32b, PackedAESBinaryField8x32b, AESTowerField128b, BinaryField128bPolyval, PackedBinaryPolyval2x128b, PackedBinaryField2x4b, PackedBinaryField8x2b, ByteSlicedAES32x32b, ByteSlicedAES16x8b);
	go!(ntt_ext, "ext"; BinaryField8b PackedBinaryField4x32b, BinaryField8b PackedBinaryField2x128b, BinaryField32b PackedBinaryField4x128b, BinaryField32b BinaryField128b, AESTowerField8b PackedAESBinaryField2x128b, BinaryField16b PackedBinaryField4x16b, AESTowerField32b PackedAESBinaryField4x64b);
	go!(with_domain, "domain-field"; BinaryField8b BinaryField32b, BinaryField8b AESTowerField8b, AESTowerField8b BinaryField8b, BinaryField32b AESTowerField32b, BinaryField128b BinaryField128bPolyval, AESTowerField32b AESTowerField128b);
	go!(twiddles, "twiddle"; BinaryField4b, BinaryField8b, BinaryField32b, BinaryField128b, AESTowerField16b, BinaryField128bPolyval);
	go!(odd, "odd"; BinaryField8b, BinaryField16b, BinaryField32b, BinaryField128b, AESTowerField8b, AESTowerField32b, BinaryField128bPolyval);
	go!(fold, "fold"; BinaryField8b BinaryField128b, BinaryField8b PackedBinaryField2x128b, BinaryField32b PackedBinaryField4x128b, BinaryField32b BinaryField32b, BinaryField16b PackedBinaryField4x64b, AESTowerField8b PackedAESBinaryField2x128b, AESTowerField32b AESTowerField128b, BinaryField128bPolyval BinaryField128bPolyval);
	m.finish()
}
