//! C05: multilinear polynomials against the defining sum.
use std::mem::MaybeUninit;

use binius_math::*;
use hm::*;

fn query<PE: PackedField>(z: &[PE::Scalar]) -> MultilinearQuery<PE> {
	MultilinearQuery::expand(z)
}

/// every operation of MultilinearExtension<P> with a query over PE
fn mle<P, PE>(c: &mut Case, nmax: usize) -> Res
where
	P: PackedField<Scalar: Sc>,
	PE: PackedField<Scalar: Sc + ExtensionField<P::Scalar>>,
{
	let nm = format!("{} -> {}", tn::<P>(), tn::<PE>());
	let n = c.range(0, nmax);
	let v: Vec<P::Scalar> = scalars(c, 1 << n);
	let pv: Vec<P> = pack(c, &v);
	let ev: Vec<PE::Scalar> = embed(&v);
	let m = MultilinearExtension::<P>::new(n, pv.clone()).map_err(es)?;
	ensure_eq!(m.n_vars(), n, "{nm} n_vars");
	let z: Vec<PE::Scalar> = scalars(c, n);
	c.obs((&nm, n, z.iter().map(|x| x.u()).collect::<Vec<_>>()), n > 0);
	c.desc(format!("{nm}: n={n}"));
	for _ in 0..3 {
		let i = c.below(1 << n);
		ensure_eq!(m.evaluate_on_hypercube(i).map_err(es)?, v[i], "{nm} n={n} evaluate_on_hypercube {i}");
	}
	ensure!(m.evaluate_on_hypercube(1 << n).is_err(), "{nm} n={n} evaluate_on_hypercube past the end");
	// full evaluation
	let q = query::<PE>(&z);
	ensure_eq!(unpack(q.expansion(), 1 << n), eq_all(&z), "{nm} n={n} expansion");
	let got: PE::Scalar = m.evaluate(&q).map_err(es)?;
	ensure_eq!(got, mle_eval(&ev, &z), "{nm} n={n} evaluate");
	let q1 = query::<PE>(&scalars(c, n + 1));
	ensure!(m.evaluate(&q1).is_err(), "{nm} n={n} evaluate with a query that is too long");
	ensure!(m.evaluate_partial_low(&q1).is_err(), "{nm} n={n} evaluate_partial_low with a query that is too long");
	ensure!(m.evaluate_partial_high(&q1).is_err(), "{nm} n={n} evaluate_partial_high with a query that is too long");
	// partial evaluations
	let k = if n == 0 { 0 } else { c.range(0, n) };
	let z: Vec<PE::Scalar> = scalars(c, k);
	let q = query::<PE>(&z);
	let r = n - k;
	let low = m.evaluate_partial_low(&q).map_err(|e| format!("{nm} n={n} k={k} low: {e}"))?;
	ensure_eq!((low.n_vars(), unpack(low.evals(), 1 << r)), (r, mle_partial(&ev, &z, 0)), "{nm} n={n} k={k} evaluate_partial_low");
	let high = m.evaluate_partial_high(&q).map_err(|e| format!("{nm} n={n} k={k} high: {e}"))?;
	ensure_eq!((high.n_vars(), unpack(high.evals(), 1 << r)), (r, mle_partial(&ev, &z, r)), "{nm} n={n} k={k} evaluate_partial_high");
	let s = c.range(0, r);
	let mid = m.evaluate_partial(&q, s).map_err(|e| format!("{nm} n={n} k={k} s={s} mid: {e}"))?;
	ensure_eq!((mid.n_vars(), unpack(mid.evals(), 1 << r)), (r, mle_partial(&ev, &z, s)), "{nm} n={n} k={k} evaluate_partial at {s}");
	ensure!(m.evaluate_partial(&q, r + 1).is_err(), "{nm} n={n} k={k} evaluate_partial past the end");
	let mut out: Vec<PE> = pack0(&vec![PE::Scalar::ONE; 1 << r]);
	m.evaluate_partial_low_into(q.to_ref(), &mut out).map_err(es)?;
	ensure_eq!(unpack(&out, 1 << r), mle_partial(&ev, &z, 0), "{nm} n={n} k={k} evaluate_partial_low_into");
	// zero padding
	let pad = c.range(0, 3);
	let s = c.range(0, n);
	let nz = c.below(1 << pad);
	let zp: MultilinearExtension<PE> = m.zero_pad(pad, s, nz).map_err(es)?;
	let mut want = vec![PE::Scalar::ZERO; 1 << (n + pad)];
	for (i, x) in ev.iter().enumerate() {
		want[i & ((1 << s) - 1) | nz << s | i >> s << (s + pad)] = *x;
	}
	ensure_eq!((zp.n_vars(), unpack(zp.evals(), 1 << (n + pad))), (n + pad, want), "{nm} n={n} zero_pad({pad}, {s}, {nz})");
	ensure!(m.zero_pad::<PE>(pad, n + 1, nz).is_err(), "{nm} n={n} zero_pad with a bad start");
	ensure!(m.zero_pad::<PE>(pad, s, 1 << pad).is_err(), "{nm} n={n} zero_pad with a bad nonzero index");
	Ok(())
}

fn ctor<P: PackedField<Scalar: Sc>>(c: &mut Case) -> Res {
	let nm = tn::<P>();
	let len = c.below(10);
	let v: Vec<P> = rand_packed::<P>(c, len * P::WIDTH)[..len].to_vec();
	let n = c.below(12);
	c.obs((&nm, len, n), true);
	let fits = len.is_power_of_two() && (if n < P::LOG_WIDTH { len == 1 } else { len << P::LOG_WIDTH == 1 << n });
	ensure_eq!(MultilinearExtension::new(n, v.clone()).is_ok(), fits, "{nm} new({n}) of {len}");
	let r = MultilinearExtension::from_values(v.clone());
	ensure_eq!(r.is_ok(), len.is_power_of_two(), "{nm} from_values of {len}");
	ensure_eq!(MultilinearExtension::from_values_slice(&v).is_ok(), len.is_power_of_two(), "{nm} from_values_slice of {len}");
	if let Ok(m) = r {
		ensure_eq!(1 << m.n_vars(), len << P::LOG_WIDTH, "{nm} n_vars");
		ensure!(m.to_ref().evals() == &v[..] && m.clone().into_evals() == v, "{nm} evals");
	}
	let z = MultilinearExtension::<P>::zeros(n);
	ensure_eq!(z.is_ok(), n >= P::LOG_WIDTH, "{nm} zeros({n})");
	if let Ok(z) = z {
		ensure_eq!(unpack_all(z.evals()), vec![P::Scalar::ZERO; 1 << n], "{nm} zeros({n})");
	}
	Ok(())
}

/// the free fold functions with arbitrary (non-tensor) query vectors
fn folds<P, PE>(c: &mut Case, nmax: usize) -> Res
where
	P: PackedField<Scalar: Sc>,
	PE: PackedField<Scalar: Sc + ExtensionField<P::Scalar>>,
{
	let nm = format!("{} -> {}", tn::<P>(), tn::<PE>());
	let n = c.range(0, nmax);
	let k = c.range(0, n.min(8));
	let r = n - k;
	let v: Vec<P::Scalar> = scalars(c, 1 << n);
	let ev: Vec<PE::Scalar> = embed(&v);
	let q: Vec<PE::Scalar> = scalars(c, 1 << k);
	let pv: Vec<P> = pack(c, &v);
	let pq: Vec<PE> = pack(c, &q);
	c.obs((&nm, n, k, q.iter().map(|x| x.u()).collect::<Vec<_>>()), n > 0);
	c.desc(format!("{nm} n={n} k={k}"));
	let want = |s: usize| -> Vec<PE::Scalar> {
		(0..1usize << r)
			.map(|i| {
				let (lo, hi) = (i & ((1 << s) - 1), i >> s);
				(0..1usize << k).fold(PE::Scalar::ZERO, |a, j| a + q[j] * ev[lo | j << s | hi << (s + k)])
			})
			.collect()
	};
	let mut out: Vec<PE> = rand_packed(c, 1 << r);
	let len = out.len();
	fold_right(&pv, n, &pq, k, &mut out).map_err(es)?;
	ensure_eq!(unpack(&out, 1 << r), want(0), "{nm} n={n} k={k} fold_right");
	let un = |f: &dyn Fn(&mut [MaybeUninit<PE>]) -> Result<(), binius_math::Error>| -> Result<Vec<PE::Scalar>, String> {
		let mut o: Vec<MaybeUninit<PE>> = (0..len).map(|_| MaybeUninit::new(PE::broadcast(PE::Scalar::ONE))).collect();
		f(&mut o).map_err(es)?;
		let o: Vec<PE> = o.into_iter().map(|x| unsafe { x.assume_init() }).collect();
		Ok(unpack(&o, 1 << r))
	};
	ensure_eq!(un(&|o| fold_left(&pv, n, &pq, k, o))?, want(r), "{nm} n={n} k={k} fold_left");
	let s = c.range(0, r);
	ensure_eq!(un(&|o| fold_middle(&pv, n, &pq, k, s, o))?, want(s), "{nm} n={n} k={k} fold_middle at {s}");
	// slices longer than needed hold irrelevant data: the prefix is what counts
	let mut longer = pv.clone();
	longer.extend_from_slice(&pv);
	let mut out: Vec<PE> = vec![PE::zero(); len];
	fold_right(&longer, n, &pq, k, &mut out).map_err(es)?;
	ensure_eq!(unpack(&out, 1 << r), want(0), "{nm} n={n} k={k} fold_right over a longer slice");
	ensure_eq!(un(&|o| fold_left(&longer, n, &pq, k, o))?, want(r), "{nm} n={n} k={k} fold_left over a longer slice");
	// refusals
	ensure!(fold_right(&pv, k, &pq, n + 1, &mut out).is_err(), "{nm} fold_right with query larger than evals");
	if n > P::LOG_WIDTH {
		ensure!(fold_right(&pv[..pv.len() - 1], n, &pq, k, &mut out).is_err(), "{nm} fold_right of short evals");
	}
	if r > PE::LOG_WIDTH {
		ensure!(fold_right(&pv, n, &pq, k, &mut out[..len - 1]).is_err(), "{nm} fold_right into short output");
		ensure!(un(&|o| fold_left(&pv, n, &pq, k, &mut o[..len - 1])).is_err(), "{nm} fold_left into short output");
	}
	// linear interpolation with odd lengths and constant suffix
	let size = c.range(0, 1 << n);
	let lz: PE::Scalar = rand_scalar(c);
	let suf: P::Scalar = rand_scalar(c);
	let half = size.div_ceil(2);
	let mut out: Vec<PE> = vec![PE::zero(); half.div_ceil(PE::WIDTH)];
	fold_right_lerp(&pv, size, lz, suf, &mut out).map_err(es)?;
	let want: Vec<PE::Scalar> = (0..half)
		.map(|i| {
			let a = ev[2 * i];
			let b = if 2 * i + 1 < size { ev[2 * i + 1] } else { suf.into() };
			a + (b - a) * lz
		})
		.collect();
	ensure_eq!(unpack(&out, half), want, "{nm} fold_right_lerp size {size}");
	Ok(())
}

fn left_lerp<P: PackedField<Scalar: Sc>>(c: &mut Case, nmax: usize) -> Res {
	let nm = tn::<P>();
	let n = c.range(1, nmax);
	let prefix = match c.below(4) {
		0 => 1 << n,
		1 => 1 << (n - 1),
		_ => c.range(1, 1 << n),
	};
	let suf: P::Scalar = rand_scalar(c);
	let mut v: Vec<P::Scalar> = scalars(c, prefix);
	// the caller keeps the constant in the lanes of the last packed element past the prefix
	v.resize(prefix.next_multiple_of(P::WIDTH).max(1 << n.min(P::LOG_WIDTH)), suf);
	let pv: Vec<P> = pack0(&v);
	let at = |i: usize| if i < prefix { v[i] } else { suf };
	let lz: P::Scalar = rand_scalar(c);
	let h = 1 << (n - 1);
	let fp = prefix.min(h);
	c.obs((&nm, n, prefix, lz.u()), true);
	c.desc(format!("{nm} n={n} prefix={prefix}"));
	let want: Vec<P::Scalar> = (0..fp).map(|i| at(i) + (at(i + h) - at(i)) * lz).collect();
	let mut o: Vec<MaybeUninit<P>> = vec![MaybeUninit::new(P::zero()); fp.div_ceil(P::WIDTH)];
	fold_left_lerp(&pv, prefix, suf, n, lz, &mut o).map_err(es)?;
	let o: Vec<P> = o.into_iter().map(|x| unsafe { x.assume_init() }).collect();
	ensure_eq!(unpack(&o, fp), want, "{nm} fold_left_lerp n={n} prefix={prefix}");
	let mut inp = pv.clone();
	fold_left_lerp_inplace(&mut inp, prefix, suf, n, lz).map_err(es)?;
	ensure_eq!(unpack(&inp, fp), want, "{nm} fold_left_lerp_inplace n={n} prefix={prefix}");
	ensure!(fold_left_lerp_inplace(&mut inp, (1 << n) + 1, suf, n, lz).is_err(), "{nm} prefix longer than the cube");
	Ok(())
}

fn tensor<P: PackedField<Scalar: Sc>>(c: &mut Case, nmax: usize) -> Res {
	let nm = tn::<P>();
	let n = c.range(0, nmax);
	let k = c.range(0, nmax - n);
	let v: Vec<P::Scalar> = scalars(c, 1 << n);
	let z: Vec<P::Scalar> = scalars(c, k);
	c.obs((&nm, n, z.iter().map(|x| x.u()).collect::<Vec<_>>()), k > 0);
	let mut buf: Vec<P> = pack(c, &v);
	buf.resize((1usize << (n + k)).div_ceil(P::WIDTH), P::zero());
	tensor_prod_eq_ind(n, &mut buf, &z).map_err(es)?;
	let e = eq_all(&z);
	let want: Vec<P::Scalar> = (0..1usize << (n + k)).map(|i| v[i & ((1 << n) - 1)] * e[i >> n]).collect();
	ensure_eq!(unpack(&buf, 1 << (n + k)), want, "{nm} tensor_prod_eq_ind n={n} k={k}");
	buf.push(P::zero());
	ensure!(tensor_prod_eq_ind(n, &mut buf, &z).is_err(), "{nm} tensor_prod_eq_ind with bad length");
	ensure_eq!(unpack(&eq_ind_partial_eval::<P>(&z), 1 << k), e, "{nm} eq_ind_partial_eval k={k}");
	// incremental query
	let cap = c.range(k, nmax);
	let mut q = MultilinearQuery::<P>::with_capacity(cap);
	let mut at = 0;
	while at < k {
		let step = c.range(1, k - at);
		q = q.update(&z[at..at + step]).map_err(es)?;
		at += step;
	}
	ensure_eq!((q.n_vars(), unpack(q.expansion(), 1 << k)), (k, e.clone()), "{nm} MultilinearQuery::update to {k} of {cap}");
	let over = 1usize.max(P::LOG_WIDTH.max(cap) + 1 - k);
	ensure!(q.update(&scalars(c, over)).is_err(), "{nm} update past the capacity");
	Ok(())
}

fn piecewise<F: Sc>(c: &mut Case) -> Res {
	let np = c.range(1, 8);
	let mut vars: Vec<usize> = (0..np).map(|_| c.below(6)).collect();
	vars.sort_by(|a, b| b.cmp(a));
	let pieces: Vec<Vec<F>> = vars.iter().map(|n| scalars(c, 1 << n)).collect();
	let total: usize = vars.iter().map(|n| 1usize << n).sum();
	let n = (total as u64).next_power_of_two().trailing_zeros() as usize + if c.below(3) == 0 { c.below(3) } else { 0 };
	let z: Vec<F> = scalars(c, n);
	c.obs((&vars, z.iter().map(|x| x.u()).collect::<Vec<_>>()), np > 1);
	c.desc(format!("{} pieces {vars:?} in {n} variables", F::NAME));
	let mut cat: Vec<F> = pieces.concat();
	cat.resize(1 << n, F::ZERO);
	let mut by = vec![0; vars[0] + 1 + c.below(2)];
	for v in &vars {
		by[*v] += 1;
	}
	let mut evals: Vec<F> = pieces.iter().zip(&vars).map(|(p, v)| mle_eval(p, &z[..*v])).collect();
	let e2 = evals.clone();
	let got = evaluate_piecewise_multilinear(&z, &by, &mut evals).map_err(es)?;
	ensure_eq!(got, mle_eval(&cat, &z), "piecewise {vars:?} in {n} variables");
	let mut short = e2[..np - 1].to_vec();
	ensure!(evaluate_piecewise_multilinear(&z, &by, &mut short).is_err(), "piecewise with missing evaluations");
	if n > 0 && total > 1 << (n - 1) {
		let mut e = e2.clone();
		ensure!(evaluate_piecewise_multilinear(&z[..n - 1], &by, &mut e).is_err(), "piecewise too long for the point");
	}
	Ok(())
}

/// MultilinearPoly trait objects
fn poly<PE: PackedField<Scalar: Sc>>(c: &mut Case, nm: &str, m: &dyn MultilinearPoly<PE>, ev: &[PE::Scalar], log_deg: usize, bits: u32) -> Res {
	let n = ev.len().trailing_zeros() as usize;
	ensure_eq!((m.n_vars(), m.size(), m.log_extension_degree()), (n, 1 << n, log_deg), "{nm} shape");
	let i = c.below(1 << n);
	let s: PE::Scalar = rand_scalar(c);
	ensure_eq!(m.evaluate_on_hypercube(i).map_err(es)?, ev[i], "{nm} at {i}");
	ensure_eq!(m.evaluate_on_hypercube_and_scale(i, s).map_err(es)?, ev[i] * s, "{nm} scaled at {i}");
	ensure!(m.evaluate_on_hypercube(1 << n).is_err() && m.evaluate_on_hypercube_and_scale(1 << n, s).is_err(), "{nm} past the end");
	let z: Vec<PE::Scalar> = scalars(c, n);
	let q = query::<PE>(&z);
	ensure_eq!(m.evaluate(q.to_ref()).map_err(es)?, mle_eval(ev, &z), "{nm} n={n} evaluate");
	let k = c.range(0, n);
	let r = n - k;
	let z: Vec<PE::Scalar> = scalars(c, k);
	let q = query::<PE>(&z);
	let low = mle_partial(ev, &z, 0);
	let high = mle_partial(ev, &z, r);
	ensure_eq!(unpack(m.evaluate_partial_low(q.to_ref()).map_err(es)?.evals(), 1 << r), low, "{nm} n={n} k={k} low");
	ensure_eq!(unpack(m.evaluate_partial_high(q.to_ref()).map_err(es)?.evals(), 1 << r), high, "{nm} n={n} k={k} high");
	let st = c.range(0, r);
	ensure_eq!(unpack(m.evaluate_partial(q.to_ref(), st).map_err(es)?.evals(), 1 << r), mle_partial(ev, &z, st), "{nm} n={n} k={k} at {st}");
	let pad = c.range(0, 2);
	let nz = c.below(1 << pad);
	let stz = c.range(0, n);
	let mut want = vec![PE::Scalar::ZERO; 1 << (n + pad)];
	for (i, x) in ev.iter().enumerate() {
		want[i & ((1 << stz) - 1) | nz << stz | i >> stz << (stz + pad)] = *x;
	}
	ensure_eq!(unpack(m.zero_pad(pad, stz, nz).map_err(es)?.evals(), 1 << (n + pad)), want, "{nm} n={n} zero_pad({pad},{stz},{nz})");
	// subcubes of partial evaluations
	let sv = c.range(0, r);
	let si = c.below(1 << (r - sv));
	let mut out: Vec<PE> = rand_packed(c, 1 << sv);
	let len = out.len();
	m.subcube_partial_low_evals(q.to_ref(), sv, si, &mut out).map_err(es)?;
	ensure_eq!(unpack(&out, 1 << sv), low[si << sv..][..1 << sv], "{nm} n={n} k={k} subcube_partial_low {sv}/{si}");
	m.subcube_partial_high_evals(q.to_ref(), sv, si, &mut out).map_err(es)?;
	ensure_eq!(unpack(&out, 1 << sv), high[si << sv..][..1 << sv], "{nm} n={n} k={k} subcube_partial_high {sv}/{si}");
	for (bad, what) in [
		(m.subcube_partial_low_evals(q.to_ref(), r + 1, 0, &mut vec![PE::zero(); 1 << (r + 1usize).saturating_sub(PE::LOG_WIDTH)]), "low: too many variables"),
		(m.subcube_partial_high_evals(q.to_ref(), r + 1, 0, &mut vec![PE::zero(); 1 << (r + 1usize).saturating_sub(PE::LOG_WIDTH)]), "high: too many variables"),
		(m.subcube_partial_low_evals(q.to_ref(), sv, 1 << (r - sv), &mut out), "low: index"),
		(m.subcube_partial_high_evals(q.to_ref(), sv, 1 << (r - sv), &mut out), "high: index"),
		(m.subcube_partial_low_evals(q.to_ref(), sv, si, &mut vec![PE::zero(); len + 1]), "low: length"),
		(m.subcube_partial_high_evals(q.to_ref(), sv, si, &mut vec![PE::zero(); len + 1]), "high: length"),
	] {
		ensure!(bad.is_err(), "{nm} subcube_partial {what} not refused");
	}
	// subcubes, embedded several evaluations per scalar
	let sv = c.range(0, n);
	let si = c.below(1 << (n - sv));
	let le = c.range(0, log_deg);
	let mut out = vec![PE::zero(); 1 << sv.saturating_sub(le + PE::LOG_WIDTH)];
	m.subcube_evals(sv, si, le, &mut out).map_err(es)?;
	let sub: Vec<u128> = ev[si << sv..][..1 << sv].iter().map(|x| x.u()).collect();
	let stride = PE::Scalar::RF.bits() as u32 >> le;
	let cnt = 1usize << sv.saturating_sub(le);
	let want: Vec<u128> = (0..cnt)
		.map(|i| {
			(0..1usize << le).fold(0u128, |a, j| match sub.get((i << le) + j) {
				Some(x) => a | (if stride < 128 { x << (stride * j as u32) } else { *x }),
				None => a,
			})
		})
		.collect();
	if bits == PE::Scalar::RF.bits() as u32 || PE::Scalar::RF != Rf::P {
		let got: Vec<u128> = unpack(&out, cnt).iter().map(|x| x.u()).collect();
		ensure_eq!(got, want, "{nm} n={n} subcube_evals {sv}/{si} embedding {le}");
	}
	ensure!(m.subcube_evals(n + 1, 0, 0, &mut out).is_err(), "{nm} subcube_evals too many variables");
	ensure!(m.subcube_evals(sv, 1 << (n - sv), le, &mut out).is_err(), "{nm} subcube_evals index");
	ensure!(m.subcube_evals(sv, si, log_deg + 1, &mut out).is_err(), "{nm} subcube_evals embedding degree");
	ensure!(m.subcube_evals(sv, si, le, &mut vec![PE::zero(); out.len() + 1]).is_err(), "{nm} subcube_evals length");
	Ok(())
}

fn adapters<P, PE>(c: &mut Case, nmax: usize) -> Res
where
	P: PackedField<Scalar: Sc> + std::fmt::Debug,
	PE: PackedField<Scalar: Sc + ExtensionField<P::Scalar>> + RepackedExtension<P>,
{
	let nm = format!("{} in {}", tn::<P>(), tn::<PE>());
	let n = c.range(0, nmax);
	let v: Vec<P::Scalar> = scalars(c, 1 << n);
	let ev: Vec<PE::Scalar> = embed(&v);
	let pv: Vec<P> = pack0(&v);
	c.obs((&nm, n, v.iter().map(|x| x.u()).collect::<Vec<_>>()), n > 0);
	c.desc(format!("{nm} n={n}"));
	let m = MultilinearExtension::new(n, pv.clone()).map_err(es)?;
	let ld = <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE;
	let bits = P::Scalar::RF.bits() as u32;
	poly::<PE>(c, &format!("embedding {nm}"), &m.clone().specialize::<PE>(), &ev, ld, bits)?;
	let a = m.clone().specialize_arc_dyn::<PE>();
	poly::<PE>(c, &format!("arc {nm}"), &a, &ev, ld, bits)?;
	let pe = a.packed_evals().ok_or("no packed evals")?;
	ensure_eq!(unpack(PE::cast_bases(pe), 1 << n), v, "{nm} packed_evals");
	poly::<P>(c, &format!("direct {nm}"), &MLEDirectAdapter::from(m.clone()), &v, 0, bits)?;
	let e: either::Either<MLEDirectAdapter<PE>, MLEEmbeddingAdapter<P, PE>> = if c.flip() {
		either::Either::Left(MultilinearExtension::new(n, pack0::<PE>(&ev)).map_err(es)?.into())
	} else {
		either::Either::Right(m.specialize())
	};
	let ld2 = if e.is_left() { 0 } else { ld };
	poly::<PE>(c, &format!("either {nm}"), &e, &ev, ld2, if e.is_left() { PE::Scalar::RF.bits() as u32 } else { bits })
}

fn main() {
	let mut m = Mon::from_args("C05");
	m.rule("one multilinear with generated values evaluated/folded/padded/sliced at generated points, compared with the hypercube sum; non-trivial with at least one variable; distinct by types, shape and point");
	let n = m.n(14, 3000);
	macro_rules! pairs { ($f:ident, $nm:literal, $max:expr; $($p:ident $q:ident),* $(,)?) => {$(
		m.par(concat!($nm, " ", stringify!($p), " ", stringify!($q)), n, |c| $f::<$p, $q>(c, $max));
	)*}}
	macro_rules! all_pairs { ($f:ident, $nm:literal, $max:expr) => {
		pairs!($f, $nm, $max; PackedBinaryField8x1b PackedBinaryField1x128b, PackedBinaryField128x1b PackedBinaryField1x128b,
			PackedBinaryField256x1b PackedBinaryField2x128b, PackedBinaryField512x1b PackedBinaryField4x128b, PackedBinaryField256x1b PackedBinaryPolyval2x128b,
			PackedBinaryField512x1b PackedBinaryPolyval4x128b, PackedBinaryField128x1b PackedAESBinaryField2x128b, PackedBinaryField64x1b PackedAESBinaryField4x128b,
			PackedBinaryField64x1b PackedBinaryField8x64b, PackedBinaryField8x1b PackedBinaryField64x8b, PackedBinaryField16x1b PackedBinaryField32x16b, PackedBinaryField4x1b PackedBinaryField4x32b,
			BinaryField1b BinaryField128b, PackedBinaryField16x8b PackedBinaryField4x32b, PackedBinaryField16x8b PackedBinaryField16x8b, PackedBinaryField64x8b PackedBinaryField16x32b,
			PackedBinaryField8x16b PackedBinaryField8x16b, BinaryField32b BinaryField128b, BinaryField128b PackedBinaryField4x128b, PackedBinaryField4x32b PackedBinaryField1x128b,
			PackedBinaryField2x128b PackedBinaryField2x128b, PackedBinaryField4x128b PackedBinaryField4x128b, PackedBinaryPolyval2x128b PackedBinaryPolyval2x128b,
			PackedBinaryField4x2b PackedBinaryField2x64b, PackedBinaryField32x4b PackedBinaryField2x128b,
			PackedAESBinaryField16x8b PackedAESBinaryField1x128b, ByteSlicedAES32x128b ByteSlicedAES32x128b, ByteSlicedAES32x8b ByteSlicedAES32x128b,
			ByteSliced16x128x1b ByteSlicedAES16x128b, ByteSliced1x256x1b ByteSlicedAES32x8b, ByteSliced2x128x1b PackedBinaryField2x128b, ByteSliced1x512x1b PackedBinaryField64x8b);
	}}
	all_pairs!(mle, "mle", 10);
	all_pairs!(folds, "fold", 11);
	pairs!(adapters, "adapter", 9; PackedBinaryField128x1b PackedBinaryField1x128b, PackedBinaryField256x1b PackedBinaryField2x128b, PackedBinaryField512x1b PackedBinaryField4x128b,
		PackedBinaryField16x8b PackedBinaryField4x32b, PackedBinaryField64x8b PackedBinaryField16x32b, PackedBinaryField8x16b PackedBinaryField8x16b, PackedBinaryField4x32b PackedBinaryField1x128b,
		PackedBinaryField2x128b PackedBinaryField2x128b, PackedBinaryField16x16b PackedBinaryField4x64b, PackedAESBinaryField16x8b PackedAESBinaryField1x128b,
		ByteSlicedAES32x128b ByteSlicedAES32x128b, PackedBinaryPolyval4x128b PackedBinaryPolyval4x128b, PackedBinaryField8x1b PackedBinaryField1x8b, PackedBinaryField64x2b PackedBinaryField4x32b);
	macro_rules! one { ($f:ident, $nm:literal, $a:expr; $($p:ident)*) => {$( m.par(concat!($nm, " ", stringify!($p)), n * 2, |c| $f::<$p>(c, $a)); )*};
		($f:ident, $nm:literal; $($p:ident)*) => {$( m.par(concat!($nm, " ", stringify!($p)), n * 2, |c| $f::<$p>(c)); )*} }
	one!(left_lerp, "left lerp", 9; BinaryField32b PackedBinaryField8x16b PackedBinaryField16x8b PackedBinaryField128x1b PackedBinaryField4x128b PackedBinaryField2x128b PackedBinaryPolyval2x128b PackedAESBinaryField64x8b ByteSlicedAES16x8b ByteSlicedAES32x128b);
	one!(tensor, "tensor", 11; BinaryField32b BinaryField128b PackedBinaryField8x16b PackedBinaryField16x8b PackedBinaryField128x1b PackedBinaryField4x128b PackedBinaryField2x128b PackedBinaryPolyval2x128b PackedAESBinaryField64x8b ByteSlicedAES16x8b ByteSlicedAES32x128b);
	one!(ctor, "constructors"; BinaryField32b PackedBinaryField8x16b PackedBinaryField128x1b PackedBinaryField4x128b);
	one!(piecewise, "piecewise"; BinaryField8b BinaryField32b BinaryField128b BinaryField128bPolyval AESTowerField128b);
	m.finish()
}
