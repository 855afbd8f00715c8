//! C02: every packed operation against the scalar reference, lane by lane.
use hf::*;
use binius_utils::random_access_sequence::{RandomAccessSequence, RandomAccessSequenceMut};

type V = Vec<u128>;

fn cmp(ty: &str, op: std::fmt::Arguments, got: V, want: V) -> Res {
	if got != want {
		let lane = got.iter().zip(&want).position(|(a, b)| a != b);
		let d = match lane {
			Some(l) => format!("lane {l}: got {:#x}, expected {:#x}", got[l], want[l]),
			None => format!("length {} instead of {}", got.len(), want.len()),
		};
		return Err(format!("{ty} {op}: {d}"));
	}
	Ok(())
}

fn lanes<P: PackedField<Scalar: Sc>>(p: &P) -> V {
	(0..P::WIDTH).map(|i| p.get(i).u()).collect()
}

fn mk<P: PackedField<Scalar: Sc>>(v: &[u128]) -> P {
	P::from_fn(|i| P::Scalar::f(v[i]))
}

/// operand vectors: patterned per lane, or the same pattern in all lanes, or a single hot lane
fn operand(c: &mut Case, w: usize, mask: u128) -> V {
	match c.below(6) {
		0 => {
			let x = c.u128_patterned() & mask;
			vec![x; w]
		}
		1 => {
			let mut v = vec![0; w];
			let i = c.below(w);
			v[i] = c.u128() & mask;
			v
		}
		2 => (0..w).map(|_| c.u128_patterned() & mask).collect(),
		_ => (0..w).map(|_| c.u128() & mask).collect(),
	}
}

fn map2(a: &[u128], b: &[u128], f: impl Fn(u128, u128) -> u128) -> V {
	a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}

fn arith<P: PackedField<Scalar: Sc>>(c: &mut Case, ty: &str) -> Res {
	let rf = P::Scalar::RF;
	let w = P::WIDTH;
	let (va, vb) = (operand(c, w, rf.mask()), operand(c, w, rf.mask()));
	let (a, b) = (mk::<P>(&va), mk::<P>(&vb));
	c.obs((&va, &vb), va.iter().any(|x| *x > 1) && vb.iter().any(|x| *x > 1));
	if c.index == 0 {
		c.desc(format!("{ty}: a={:x?} b={:x?}", &va[..w.min(4)], &vb[..w.min(4)]));
	}
	cmp(ty, format_args!("from_fn/get"), lanes(&a), va.clone())?;
	let sum = map2(&va, &vb, |x, y| x ^ y);
	cmp(ty, format_args!("add"), lanes(&(a + b)), sum.clone())?;
	cmp(ty, format_args!("sub"), lanes(&(a - b)), sum.clone())?;
	let mut t = a;
	t += b;
	cmp(ty, format_args!("add_assign"), lanes(&t), sum.clone())?;
	let mut t = a;
	t -= b;
	cmp(ty, format_args!("sub_assign"), lanes(&t), sum)?;
	let prod = map2(&va, &vb, |x, y| rf.mul(x, y));
	cmp(ty, format_args!("mul a={va:x?} b={vb:x?}"), lanes(&(a * b)), prod.clone())?;
	let mut t = a;
	t *= b;
	cmp(ty, format_args!("mul_assign"), lanes(&t), prod)?;
	cmp(ty, format_args!("square a={va:x?}"), lanes(&PackedField::square(a)), va.iter().map(|x| rf.sq(*x)).collect())?;
	let ninv = if rf.bits() >= 64 { 4 } else { w };
	let mut vi = va.clone();
	if w > 1 && c.flip() {
		let k = c.below(w);
		vi[k] = 0;
	}
	let inv = lanes(&PackedField::invert_or_zero(mk::<P>(&vi)));
	for k in 0..ninv.min(w) {
		let l = if ninv < w { c.below(w) } else { k };
		cmp(ty, format_args!("invert_or_zero lane {l} of {vi:x?}"), vec![inv[l]], vec![rf.inv(vi[l])])?;
	}
	for l in 0..w {
		// every lane: x * x^-1 = 1, 0^-1 = 0
		let want = if vi[l] == 0 { 0 } else { rf.one() };
		if vi[l] == 0 {
			cmp(ty, format_args!("invert_or_zero of zero lane {l}"), vec![inv[l]], vec![0])?;
		}
		cmp(ty, format_args!("x * 1/x lane {l} x={:#x}", vi[l]), vec![rf.mul(inv[l], vi[l])], vec![want])?;
	}
	// with a scalar
	let s = P::Scalar::rnd(c);
	let su = s.u();
	let sm: V = va.iter().map(|x| rf.mul(*x, su)).collect();
	let sa: V = va.iter().map(|x| x ^ su).collect();
	cmp(ty, format_args!("mul by scalar {su:#x} a={va:x?}"), lanes(&(a * s)), sm.clone())?;
	cmp(ty, format_args!("add scalar"), lanes(&(a + s)), sa.clone())?;
	cmp(ty, format_args!("sub scalar"), lanes(&(a - s)), sa.clone())?;
	let mut t = a;
	t *= s;
	cmp(ty, format_args!("mul_assign scalar"), lanes(&t), sm)?;
	let mut t = a;
	t += s;
	cmp(ty, format_args!("add_assign scalar"), lanes(&t), sa.clone())?;
	let mut t = a;
	t -= s;
	cmp(ty, format_args!("sub_assign scalar"), lanes(&t), sa)?;
	if c.below(8) == 0 {
		let e = if c.flip() { c.below(9) as u64 } else { c.u128_patterned() as u64 };
		let got = lanes(&PackedField::pow(a, e));
		let l = c.below(w);
		cmp(ty, format_args!("pow {e} lane {l}"), vec![got[l]], vec![rf.pow(va[l], &[e])])?;
		let n = c.below(4);
		let vs: Vec<V> = (0..n).map(|_| operand(c, w, rf.mask())).collect();
		let ps: Vec<P> = vs.iter().map(|v| mk(v)).collect();
		let mut s = vec![0; w];
		let mut p = vec![rf.one(); w];
		for v in &vs {
			s = map2(&s, v, |x, y| x ^ y);
			p = map2(&p, v, |x, y| rf.mul(x, y));
		}
		cmp(ty, format_args!("sum of {n}"), lanes(&ps.iter().copied().sum::<P>()), s)?;
		cmp(ty, format_args!("product of {n}"), lanes(&ps.iter().copied().product::<P>()), p)?;
	}
	Ok(())
}

fn moves<P: PackedField<Scalar: Sc>>(c: &mut Case, ty: &str) -> Res {
	let rf = P::Scalar::RF;
	let w = P::WIDTH;
	ensure_eq!(1usize << P::LOG_WIDTH, w, "{ty} WIDTH");
	let (va, vb) = (operand(c, w, rf.mask()), operand(c, w, rf.mask()));
	let (a, b) = (mk::<P>(&va), mk::<P>(&vb));
	c.obs((&va, &vb), va != vb);
	ensure_eq!(a == b, va == vb, "{ty} equality");
	ensure_eq!(a, mk::<P>(&va), "{ty} equality to itself");
	// construction
	let s = P::Scalar::rnd(c);
	cmp(ty, format_args!("broadcast {:#x}", s.u()), lanes(&P::broadcast(s)), vec![s.u(); w])?;
	let mut single = vec![0; w];
	single[0] = s.u();
	cmp(ty, format_args!("set_single"), lanes(&P::set_single(s)), single)?;
	cmp(ty, format_args!("zero"), lanes(&P::zero()), vec![0; w])?;
	cmp(ty, format_args!("default"), lanes(&P::default()), vec![0; w])?;
	cmp(ty, format_args!("one"), lanes(&P::one()), vec![rf.one(); w])?;
	let k = c.below(w + 3);
	let vs: V = (0..k).map(|_| c.u128() & rf.mask()).collect();
	let want: V = (0..w).map(|i| vs.get(i).copied().unwrap_or(0)).collect();
	cmp(ty, format_args!("from_scalars of {k}"), lanes(&P::from_scalars(vs.iter().map(|x| P::Scalar::f(*x)))), want)?;
	let stop = c.below(2 * w);
	let r: Result<P, usize> = P::try_from_fn(|i| if i == stop { Err(i) } else { Ok(P::Scalar::f(va[i])) });
	match r {
		Ok(p) => {
			ensure!(stop >= w, "{ty} try_from_fn ignored an error at {stop}");
			cmp(ty, format_args!("try_from_fn"), lanes(&p), va.clone())?
		}
		Err(e) => ensure!(e == stop && stop < w, "{ty} try_from_fn wrong error"),
	}
	let off = c.below(5);
	cmp(
		ty,
		format_args!("packed_from_fn_with_offset {off}"),
		lanes(&packed_from_fn_with_offset::<P>(off, |i| P::Scalar::f(i as u128 & rf.mask()))),
		(0..w).map(|i| (i + off * w) as u128 & rf.mask()).collect(),
	)?;
	// get / set
	let mut t = a;
	let mut vt = va.clone();
	for _ in 0..4 {
		let i = c.below(w);
		let s = P::Scalar::rnd(c);
		if c.flip() {
			t.set(i, s);
		} else {
			ensure!(t.set_checked(i, s).is_ok(), "{ty} set_checked({i})");
		}
		vt[i] = s.u();
		cmp(ty, format_args!("set({i})"), lanes(&t), vt.clone())?;
	}
	let bad = w + if c.flip() { 0 } else { c.below(1000) };
	ensure!(a.get_checked(bad).is_err(), "{ty} get_checked({bad}) must fail");
	let before = t;
	ensure!(t.set_checked(bad, s).is_err(), "{ty} set_checked({bad}) must fail");
	ensure_eq!(t, before, "{ty} failed set changed the value");
	if c.index % 16 == 0 {
		ensure!(guard(|| a.get(bad)).is_err(), "{ty} get({bad}) must panic");
		let mut z = a;
		ensure!(guard(|| z.set(bad, s)).is_err(), "{ty} set({bad}) must panic");
	}
	// iteration
	cmp(ty, format_args!("iter"), PackedField::iter(&a).map(|x| x.u()).collect(), va.clone())?;
	cmp(ty, format_args!("into_iter"), PackedField::into_iter(a).map(|x| x.u()).collect(), va.clone())?;
	let sk = c.below(w + 1);
	cmp(ty, format_args!("iter.skip({sk})"), PackedField::iter(&a).skip(sk).map(|x| x.u()).collect(), va[sk..].to_vec())?;
	let nth = c.below(w);
	ensure_eq!(PackedField::into_iter(a).nth(nth).map(|x| x.u()), Some(va[nth]), "{ty} into_iter.nth({nth})");
	// permutations
	for lb in 0..P::LOG_WIDTH {
		let bl = 1 << lb;
		let blk = |v: &V, i: usize| v[i * bl..(i + 1) * bl].to_vec();
		let nb = w / bl;
		let (mut x, mut y): (V, V) = (vec![], vec![]);
		for i in 0..nb / 2 {
			x.extend(blk(&va, 2 * i));
			x.extend(blk(&vb, 2 * i));
			y.extend(blk(&va, 2 * i + 1));
			y.extend(blk(&vb, 2 * i + 1));
		}
		let (p, q) = a.interleave(b, lb);
		cmp(ty, format_args!("interleave({lb}).0"), lanes(&p), x)?;
		cmp(ty, format_args!("interleave({lb}).1"), lanes(&q), y)?;
		let cat: V = va.iter().chain(&vb).copied().collect();
		let (mut x, mut y): (V, V) = (vec![], vec![]);
		for i in 0..nb {
			x.extend(blk(&cat, 2 * i));
			y.extend(blk(&cat, 2 * i + 1));
		}
		let (p, q) = a.unzip(b, lb);
		cmp(ty, format_args!("unzip({lb}).0"), lanes(&p), x)?;
		cmp(ty, format_args!("unzip({lb}).1"), lanes(&q), y)?;
		c.count("permutations checked", 2);
	}
	for lb in 0..=P::LOG_WIDTH {
		let nb = 1usize << (P::LOG_WIDTH - lb);
		let idxs: Vec<usize> = if nb <= 8 { (0..nb).collect() } else { (0..6).map(|_| c.below(nb)).chain([nb - 1]).collect() };
		for bi in idxs {
			let want: V = (0..w).map(|i| va[(bi << lb) + i / nb]).collect();
			cmp(ty, format_args!("spread({lb},{bi})"), lanes(&a.spread(lb, bi)), want)?;
		}
	}
	Ok(())
}

fn slices<P: PackedField<Scalar: Sc>>(c: &mut Case, ty: &str) -> Res {
	let rf = P::Scalar::RF;
	let w = P::WIDTH;
	let n = c.below(6);
	let vals: V = (0..n * w).map(|_| c.u128() & rf.mask()).collect();
	let scal: Vec<P::Scalar> = vals.iter().map(|x| P::Scalar::f(*x)).collect();
	let mut packed: Vec<P> = (0..n).map(|i| mk(&vals[i * w..])).collect();
	c.obs(&vals, n > 1);
	let all = |p: &[P]| -> V { p.iter().flat_map(|x| lanes(x)).collect() };
	ensure_eq!(len_packed_slice(&packed), n * w, "{ty} len_packed_slice");
	cmp(ty, format_args!("pack_slice"), all(&pack_slice::<P>(&scal)), vals.clone())?;
	cmp(ty, format_args!("iter_slice"), P::iter_slice(&packed).map(|x| x.u()).collect(), vals.clone())?;
	let off = c.below(n * w + w + 2);
	cmp(
		ty,
		format_args!("iter_packed_slice_with_offset {off}"),
		iter_packed_slice_with_offset(&packed, off).map(|x| x.u()).collect(),
		vals.get(off..).unwrap_or(&[]).to_vec(),
	)?;
	if n > 0 {
		let mut model = vals.clone();
		for k in 0..6 {
			let i = c.below(n * w);
			ensure_eq!(get_packed_slice(&packed, i).u(), model[i], "{ty} get_packed_slice({i})");
			ensure_eq!(get_packed_slice_checked(&packed, i).ok().map(|x| x.u()), Some(model[i]), "{ty} get_packed_slice_checked({i})");
			let s = P::Scalar::rnd(c);
			if k % 3 == 0 {
				set_packed_slice(&mut packed, i, s);
			} else if k % 3 == 1 {
				ensure!(set_packed_slice_checked(&mut packed, i, s).is_ok(), "{ty} set_packed_slice_checked({i})");
			} else {
				PackedSliceMut::new(&mut packed).set(i, s);
			}
			model[i] = s.u();
			cmp(ty, format_args!("set_packed_slice({i})"), all(&packed), model.clone())?;
			ensure_eq!(PackedSlice::new(&packed).get(i).u(), model[i], "{ty} PackedSlice get({i})");
		}
		ensure_eq!(PackedSlice::new(&packed).len(), n * w, "{ty} PackedSlice len");
		let l = c.below(n * w + 1);
		let ps = PackedSlice::new_with_len(&packed, l);
		ensure_eq!(ps.len(), l, "{ty} PackedSlice new_with_len");
		if c.index % 8 == 0 {
			let beyond = l + c.below(3);
			ensure!(guard(|| ps.get(beyond)).is_err(), "{ty} PackedSlice get({beyond}) beyond len {l} must panic");
			let bad = n * w + c.below(3 * w);
			ensure!(guard(|| get_packed_slice(&packed, bad)).is_err(), "{ty} get_packed_slice({bad}) must panic");
			ensure!(guard(|| PackedSlice::new_with_len(&packed, n * w + 1)).is_err(), "{ty} new_with_len too long must panic");
		}
		let bad = n * w + c.below(3 * w);
		ensure!(get_packed_slice_checked(&packed, bad).is_err(), "{ty} get_packed_slice_checked({bad}) must fail");
		let s = P::Scalar::rnd(c);
		ensure!(set_packed_slice_checked(&mut packed, bad, s).is_err(), "{ty} set_packed_slice_checked({bad}) must fail");
		cmp(ty, format_args!("failed set changed something"), all(&packed), model.clone())?;
		// partial copy keeps what follows
		let k = c.below(n * w + 1);
		let src: Vec<P::Scalar> = (0..k).map(|_| P::Scalar::rnd(c)).collect();
		copy_packed_from_scalars_slice(&src, &mut packed);
		for (i, s) in src.iter().enumerate() {
			model[i] = s.u();
		}
		cmp(ty, format_args!("copy_packed_from_scalars_slice of {k} into {}", n * w), all(&packed), model)?;
	}
	// partial last packed element
	let k = c.below(3 * w);
	let vs: V = (0..k).map(|_| c.u128() & rf.mask()).collect();
	let sc: Vec<P::Scalar> = vs.iter().map(|x| P::Scalar::f(*x)).collect();
	let mut want = vs;
	want.resize(k.div_ceil(w) * w, 0);
	cmp(ty, format_args!("pack_slice of {k}"), all(&pack_slice::<P>(&sc)), want)?;
	// square transpose
	let log_n = c.below(P::LOG_WIDTH + 2);
	let log_size = c.below(5) + if w >= 128 { 0 } else { 2 };
	let size = 1usize << log_size;
	let vs: V = (0..size * w).map(|_| c.u128() & rf.mask()).collect();
	let mut el: Vec<P> = (0..size).map(|i| mk(&vs[i * w..])).collect();
	let r = square_transpose(log_n, &mut el);
	if log_n > P::LOG_WIDTH || log_n > log_size {
		ensure!(r.is_err(), "{ty} square_transpose({log_n}) of 2^{log_size} must fail");
		cmp(ty, format_args!("failed transpose changed something"), all(&el), vs)?;
	} else {
		ensure!(r.is_ok(), "{ty} square_transpose({log_n}) of 2^{log_size} failed");
		let m = 1usize << log_n;
		let cols = size / m;
		let mut want = vec![0; size * w];
		for r in 0..m {
			for k in 0..cols {
				for b in 0..w / m {
					for j in 0..m {
						want[(j * cols + k) * w + b * m + r] = vs[(r * cols + k) * w + b * m + j];
					}
				}
			}
		}
		cmp(ty, format_args!("square_transpose({log_n}) of 2^{log_size}"), all(&el), want)?;
		c.count("transposes checked", 1);
	}
	Ok(())
}

fn packed<P: PackedField<Scalar: Sc>>(m: &mut Mon) {
	let ty = tn::<P>();
	let wide = P::WIDTH * P::Scalar::RF.bits();
	// work per case grows with the width: keep the total comparable
	let k = if wide <= 64 { m.n(100, 6000) } else if wide <= 512 { m.n(60, 3000) } else { m.n(20, 800) };
	m.par(&format!("{ty} arithmetic"), k, |c| arith::<P>(c, &ty));
	m.par(&format!("{ty} lanes and permutations"), k, |c| moves::<P>(c, &ty));
	m.par(&format!("{ty} slices"), k / 2 + 1, |c| slices::<P>(c, &ty));
}

/// inner products over packed slices
fn inner<PX, PY>(m: &mut Mon)
where
	PX: PackedField<Scalar: Sc + ExtensionField<PY::Scalar>>,
	PY: PackedField<Scalar: Sc>,
{
	let name = format!("inner_product_par<{},{}>", tn::<PX>(), tn::<PY>());
	let k = m.n(12, 300);
	m.seq(&name, k, |c| {
		// small and (sometimes) large enough for the parallel path
		let ny = if c.index % 4 == 3 { 1024 + 64 * c.below(4) + c.below(64) } else { 1 + c.below(80) };
		let total = ny * PY::WIDTH;
		let nx = if c.index % 5 == 4 { (total / PX::WIDTH).saturating_sub(c.below(3)).max(0) } else { total / PX::WIDTH };
		let rf = <PX::Scalar as Sc>::RF;
		let xs: V = (0..nx * PX::WIDTH).map(|_| c.u128() & rf.mask()).collect();
		let ys: V = (0..total).map(|_| c.u128() & <PY::Scalar as Sc>::RF.mask()).collect();
		let px: Vec<PX> = (0..nx).map(|i| mk(&xs[i * PX::WIDTH..])).collect();
		let py: Vec<PY> = (0..ny).map(|i| mk(&ys[i * PY::WIDTH..])).collect();
		let want = xs.iter().zip(&ys).fold(0, |a, (x, y)| {
			a ^ rf.mul(*x, PX::Scalar::from(<PY::Scalar as Sc>::f(*y)).u())
		});
		let got = binius_field::util::inner_product_par::<PX::Scalar, PX, PY>(&px, &py).u();
		ensure_eq!(got, want, "{name} of {} x {} scalars", xs.len(), ys.len());
		let got = binius_field::util::inner_product_unchecked::<PY::Scalar, PX::Scalar>(
			xs.iter().map(|x| PX::Scalar::f(*x)),
			ys.iter().map(|y| <PY::Scalar as Sc>::f(*y)),
		);
		ensure_eq!(got.u(), want, "inner_product_unchecked");
		c.obs((&xs, &ys), want != 0);
		c.desc(format!("{name}: {} x-scalars, {} y-scalars", xs.len(), ys.len()));
		Ok(())
	});
}

/// extension-packed by subfield-packed element-wise operations
fn extmul<PE, F>(m: &mut Mon)
where
	F: Sc,
	PE: PackedExtension<F, Scalar: Sc + ExtensionField<F>>,
	PE::PackedSubfield: PackedField<Scalar = F>,
{
	let name = format!("ext_base_mul<{},{}>", tn::<PE>(), tn::<F>());
	let k = m.n(12, 300);
	m.par(&name, k, |c| {
		let rf = <PE::Scalar as Sc>::RF;
		let deg = <PE::Scalar as ExtensionField<F>>::DEGREE;
		let n = if c.index % 6 == 5 { 64 } else { c.below(4) };
		let wl = PE::WIDTH;
		let ws = <PE::PackedSubfield as PackedField>::WIDTH;
		let lhs: V = (0..n * deg * wl).map(|_| c.u128() & rf.mask()).collect();
		let rhs: V = (0..n * ws).map(|_| c.u128() & F::RF.mask()).collect();
		let pl: Vec<PE> = (0..n * deg).map(|i| mk(&lhs[i * wl..])).collect();
		let pr: Vec<PE::PackedSubfield> = (0..n).map(|i| mk(&rhs[i * ws..])).collect();
		let want: V = lhs.iter().zip(&rhs).map(|(x, y)| rf.mul(*x, PE::Scalar::from(F::f(*y)).u())).collect();
		let all = |p: &[PE]| -> V { p.iter().flat_map(|x| lanes(x)).collect() };
		let mut t = pl.clone();
		ext_base_mul::<PE, F>(&mut t, &pr).map_err(|e| e.to_string())?;
		cmp(&name, format_args!("ext_base_mul of {n}"), all(&t), want.clone())?;
		let mut t = pl.clone();
		ext_base_mul_par::<PE, F>(&mut t, &pr).map_err(|e| e.to_string())?;
		cmp(&name, format_args!("ext_base_mul_par of {n}"), all(&t), want)?;
		let mut idx = vec![];
		let mut t = pl.clone();
		let idxs = std::sync::Mutex::new(&mut idx);
		ext_base_op_par::<PE, F, _>(&mut t, &pr, |i, l, _| {
			idxs.lock().unwrap().push(i);
			l
		})
		.map_err(|e| e.to_string())?;
		idx.sort();
		ensure_eq!(idx, (0..n * deg).collect::<Vec<_>>(), "{name}: indices handed to the closure");
		if deg > 1 {
			let mut t = pl.clone();
			t.push(mk(&vec![0; wl]));
			ensure!(ext_base_mul::<PE, F>(&mut t, &pr).is_err(), "{name} mismatched lengths must fail");
			ensure!(ext_base_mul_par::<PE, F>(&mut t, &pr).is_err(), "{name} (par) mismatched lengths must fail");
		}
		// multiplication by one subfield scalar
		let v = operand(c, wl, rf.mask());
		let s = F::rnd(c);
		let e = PE::Scalar::from(s).u();
		cmp(
			&name,
			format_args!("mul_by_subfield_scalar {:#x}", s.u()),
			lanes(&mul_by_subfield_scalar::<PE, F>(mk(&v), s)),
			v.iter().map(|x| rf.mul(*x, e)).collect(),
		)?;
		c.obs((&lhs, &rhs, &v, s.u()), n > 0);
		c.desc(format!("{name}: {n} packed subfield elements"));
		Ok(())
	});
}

fn main() {
	let mut m = Mon::from_args("C02");
	m.rule("packed operands with patterned lanes (random, constant, single hot lane, sparse/dense/subfield values), every permutation parameter, slices of 0..5 packed elements with random offsets; every lane compared to reference scalar arithmetic; distinct by operand lanes, non-trivial when some lane is outside {0,1}");
	macro_rules! p {
		($t:ty) => {
			packed::<$t>(&mut m);
		};
	}
	all_packed!(p);
	inner::<PackedBinaryField1x128b, PackedBinaryField128x1b>(&mut m);
	inner::<PackedBinaryField2x128b, PackedBinaryField4x64b>(&mut m);
	inner::<PackedBinaryField4x32b, PackedBinaryField16x8b>(&mut m);
	inner::<PackedBinaryField4x32b, PackedBinaryField4x32b>(&mut m);
	inner::<BinaryField128b, PackedBinaryField8x16b>(&mut m);
	inner::<PackedBinaryField4x128b, PackedBinaryField8x64b>(&mut m);
	inner::<ByteSlicedAES16x128b, PackedAESBinaryField16x8b>(&mut m);
	inner::<PackedAESBinaryField1x128b, PackedAESBinaryField16x8b>(&mut m);
	inner::<BinaryField1b, PackedBinaryField64x1b>(&mut m);
	extmul::<PackedBinaryField1x128b, BinaryField1b>(&mut m);
	extmul::<PackedBinaryField1x128b, BinaryField8b>(&mut m);
	extmul::<PackedBinaryField2x128b, BinaryField32b>(&mut m);
	extmul::<PackedBinaryField4x128b, BinaryField64b>(&mut m);
	extmul::<PackedBinaryField4x32b, BinaryField8b>(&mut m);
	extmul::<PackedBinaryField8x16b, BinaryField2b>(&mut m);
	extmul::<PackedBinaryField16x8b, BinaryField4b>(&mut m);
	extmul::<PackedBinaryField16x8b, BinaryField1b>(&mut m);
	extmul::<PackedBinaryField4x128b, BinaryField128b>(&mut m);
	extmul::<PackedAESBinaryField1x128b, AESTowerField8b>(&mut m);
	extmul::<PackedAESBinaryField4x32b, AESTowerField16b>(&mut m);
	extmul::<PackedAESBinaryField64x8b, AESTowerField8b>(&mut m);
	m.finish()
}
