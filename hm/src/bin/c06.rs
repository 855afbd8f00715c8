//! C06: univariate interpolation, binary subspaces, matrices.
use binius_math::*;
use hm::*;

fn horner<F: Field>(co: &[F], x: F) -> F {
	let mut p = F::ONE;
	let mut s = F::ZERO;
	for a in co {
		s += *a * p;
		p *= x;
	}
	s
}

fn distinct<F: Sc>(c: &mut Case, n: usize) -> Vec<F> {
	let mut v: Vec<F> = vec![];
	while v.len() < n {
		let x: F = rand_scalar(c);
		if !v.contains(&x) {
			v.push(x);
		}
	}
	v
}

fn domain<F, P>(c: &mut Case) -> Res
where
	F: Sc,
	P: PackedExtension<F> + PackedField<Scalar: Sc + ExtensionField<F>>,
{
	let cap = if F::RF.bits() < 5 { 1 << F::RF.bits() } else { 18 };
	let n = c.range(0, cap);
	let inf = c.flip();
	let pts: Vec<F> = distinct(c, n);
	let size = n + inf as usize;
	c.desc(format!("{} -> {} points={n} infinity={inf}", F::NAME, tn::<P>()));
	c.obs((F::NAME, pts.iter().map(|x| x.u()).collect::<Vec<_>>(), inf), size > 1);
	if n > 0 {
		let mut dup = pts.clone();
		let i = c.below(n);
		let j = c.range(0, n);
		dup.insert(j, pts[i]);
		ensure!(EvaluationDomain::from_points(dup, inf).is_err(), "duplicate point accepted");
	}
	let d = EvaluationDomain::from_points(pts.clone(), inf).map_err(es)?;
	ensure!(d.size() == size && d.finite_points() == &pts[..] && d.with_infinity() == inf, "domain shape");
	// one polynomial per lane
	let polys: Vec<Vec<P::Scalar>> = (0..P::WIDTH).map(|_| scalars(c, size)).collect();
	let mut vals: Vec<P> = pts.iter().map(|x| P::from_fn(|l| horner(&polys[l], P::Scalar::from(*x)))).collect();
	if inf {
		vals.push(P::from_fn(|l| polys[l][size - 1]));
	}
	let z: P::Scalar = match c.below(4) {
		0 if n > 0 => pts[c.below(n)].into(),
		_ => rand_scalar(c),
	};
	let want = P::from_fn(|l| horner(&polys[l], z));
	if size > 0 {
		ensure_eq!(d.extrapolate(&vals, z).map_err(es)?, want, "extrapolate");
	}
	let mut long = vals.clone();
	long.push(P::zero());
	ensure!(d.extrapolate(&long, z).is_err(), "too many values accepted");
	if size > 0 {
		ensure!(d.extrapolate(&vals[1..], z).is_err(), "too few values accepted");
	}
	let lag = d.lagrange_evals(z);
	ensure_eq!(lag.len(), n, "number of Lagrange evaluations");
	for i in 0..n {
		let w = (0..n).filter(|j| *j != i).fold(P::Scalar::ONE, |a, j| {
			a * (z - P::Scalar::from(pts[j])) * P::Scalar::from((pts[i] - pts[j]).invert().unwrap())
		});
		ensure_eq!(lag[i], w, "lagrange {i}");
	}
	if size > 0 {
		let id = InterpolationDomain::from(d);
		ensure!(id.size() == size && id.finite_points() == &pts[..] && id.with_infinity() == inf, "interpolation domain shape");
		for (l, p) in polys.iter().enumerate().take(3) {
			let v: Vec<P::Scalar> = vals.iter().map(|x| x.get(l)).collect();
			ensure_eq!(id.interpolate(&v).map_err(es)?, *p, "interpolate lane {l}");
			ensure!(id.interpolate(&v[1..]).is_err(), "interpolate too few");
		}
		ensure_eq!(id.extrapolate(&vals, z).map_err(es)?, want, "extrapolate via interpolation domain");
		ensure!(id.extrapolate(&long, z).is_err(), "too many values accepted");
	}
	for p in polys.iter().take(2) {
		ensure_eq!(evaluate_univariate(p, z), horner(p, z), "evaluate_univariate");
	}
	// lines
	let a: P = rand_packed::<P>(c, P::WIDTH)[0];
	let b: P = rand_packed::<P>(c, P::WIDTH)[0];
	let zz: P = rand_packed::<P>(c, P::WIDTH)[0];
	let s: F = rand_scalar(c);
	let se = P::Scalar::from(s);
	ensure_eq!(extrapolate_line(a, b, s), P::from_fn(|l| a.get(l) * (P::Scalar::ONE - se) + b.get(l) * se), "extrapolate_line");
	ensure_eq!(
		extrapolate_lines(a, b, zz),
		P::from_fn(|l| a.get(l) * (P::Scalar::ONE - zz.get(l)) + b.get(l) * zz.get(l)),
		"extrapolate_lines"
	);
	ensure_eq!(extrapolate_line_scalar(a.get(0), b.get(0), s), a.get(0) * (P::Scalar::ONE - se) + b.get(0) * se, "extrapolate_line_scalar");
	Ok(())
}

fn factory<F: Sc + BinaryField>(c: &mut Case) -> Res {
	let bits = F::RF.bits();
	let size = c.range(1, if bits < 6 { (1 << bits) + 2 } else { 40 });
	let inf = size >= 3;
	let fin = size - inf as usize;
	c.obs((F::NAME, size), size > 1);
	let r = DefaultEvaluationDomainFactory::<F>::default().create(size);
	ensure_eq!(r.is_ok(), fin <= 1usize << bits.min(20), "create({size})");
	if let Ok(d) = r {
		ensure!(d.size() == size && d.with_infinity() == inf, "create({size}) shape");
		let want: Vec<F> = (0..fin)
			.map(|i| (0..bits).filter(|k| *k < 64 && i >> k & 1 == 1).fold(F::ZERO, |a, k| a + <F as ExtensionField<BinaryField1b>>::basis(k)))
			.collect();
		ensure_eq!(d.finite_points(), &want[..], "create({size}) points");
	}
	Ok(())
}

fn iso_factory<S: Sc + BinaryField, T: Sc + BinaryField + From<S>>(c: &mut Case) -> Res {
	let size = c.range(1, 40);
	c.obs((T::NAME, size), size > 1);
	let d = IsomorphicEvaluationDomainFactory::<S>::default();
	let d: EvaluationDomain<T> = EvaluationDomainFactory::<T>::create(&d, size).map_err(es)?;
	let fin = size - (size >= 3) as usize;
	let want: Vec<T> = BinarySubspace::<S>::default().iter().take(fin).map(T::from).collect();
	ensure_eq!(d.finite_points(), &want[..], "isomorphic create({size})");
	ensure_eq!(d.with_infinity(), size >= 3, "isomorphic infinity");
	let s = BinarySubspace::<S>::with_dim(c.range(0, S::RF.bits())).map_err(es)?;
	let t = s.isomorphic::<T>();
	ensure_eq!(t.dim(), s.dim(), "isomorphic dim");
	for _ in 0..8 {
		let i = c.below(1 << s.dim().min(40));
		ensure_eq!(t.get(i), T::from(s.get(i)), "isomorphic get {i}");
	}
	Ok(())
}

fn subspace<F: Sc + BinaryField>(c: &mut Case) -> Res {
	let bits = F::RF.bits();
	let custom = c.flip();
	let cap = if c.flip() { 9 } else { 128 };
	let dim = c.range(0, bits.min(cap));
	let s = if custom {
		// independent random vectors by elimination on the bit patterns
		let (mut rows, mut basis): (Vec<u128>, Vec<F>) = (vec![], vec![]);
		while basis.len() < dim.min(40) {
			let x: F = F::f(c.u128() & F::RF.mask());
			let mut r = x.u();
			for q in &rows {
				r = r.min(r ^ q);
			}
			if r != 0 {
				rows.push(r);
				rows.sort_by(|a, b| b.cmp(a));
				basis.push(x);
			}
		}
		BinarySubspace::new_unchecked(basis)
	} else if dim == bits && c.flip() {
		BinarySubspace::default()
	} else {
		BinarySubspace::with_dim(dim).map_err(es)?
	};
	let dim = s.dim();
	c.desc(format!("{} dim={dim} custom={custom}", F::NAME));
	c.obs((F::NAME, s.basis().iter().map(|x| x.u()).collect::<Vec<_>>()), dim > 0);
	ensure!(BinarySubspace::<F>::with_dim(bits + 1).is_err(), "with_dim past the degree");
	if !custom {
		for i in 0..dim {
			ensure_eq!(s.basis()[i], <F as ExtensionField<BinaryField1b>>::basis(i), "default basis {i}");
		}
	}
	let def = |i: usize| (0..dim.min(64)).filter(|k| i >> k & 1 == 1).fold(F::ZERO, |a, k| a + s.basis()[k]);
	let r = c.range(0, dim);
	let sub = s.reduce_dim(r).map_err(es)?;
	ensure_eq!(sub.basis(), &s.basis()[..r], "reduce_dim");
	ensure!(s.reduce_dim(dim + 1).is_err(), "reduce_dim past the dimension");
	let hi: u128 = 1u128 << dim.min(64);
	for _ in 0..6 {
		let i = (c.u128() % hi) as usize;
		ensure_eq!(s.get(i), def(i), "get({i})");
		ensure_eq!(s.get_checked(i).map_err(es)?, def(i), "get_checked({i})");
	}
	let last = (hi - 1) as usize;
	ensure_eq!(s.get_checked(last).map_err(es)?, def(last), "get_checked of the last index");
	if dim < 64 {
		ensure!(s.get_checked(1 << dim).is_err(), "get_checked past the end");
		ensure!(s.get_checked(usize::MAX).is_err(), "get_checked(MAX)");
	}
	if dim <= 12 {
		let all: Vec<F> = s.iter().collect();
		ensure_eq!(all.len(), 1 << dim, "number of elements");
		let mut seen: Vec<u128> = all.iter().map(|x| x.u()).collect();
		for (i, x) in all.iter().enumerate() {
			ensure_eq!(*x, def(i), "iter element {i}");
		}
		seen.sort();
		seen.dedup();
		ensure_eq!(seen.len(), 1 << dim, "distinct elements");
	}
	let skip = c.below(1 << dim.min(30));
	let step = c.range(1, 1 << dim.min(10));
	let got: Vec<F> = s.iter().skip(skip).step_by(step).take(20).collect();
	let want: Vec<F> = (0..20).map(|k| skip as u128 + (k * step) as u128).take_while(|i| *i < hi).map(|i| def(i as usize)).collect();
	ensure_eq!(got, want, "iter skip {skip} step {step}");
	let mut it = s.iter();
	let a = it.nth(skip);
	let b = it.next();
	ensure_eq!(a, Some(def(skip)), "nth({skip})");
	ensure_eq!(b, if (skip as u128 + 1) < hi { Some(def(skip + 1)) } else { None }, "next after nth({skip})");
	Ok(())
}

fn mat<F: Sc, E: Sc + ExtensionField<F>>(c: &mut Case) -> Res {
	let (m, n, k) = (c.range(1, 9), c.range(1, 9), c.range(1, 9));
	let a: Vec<F> = scalars(c, m * n);
	let b: Vec<F> = scalars(c, n * k);
	c.desc(format!("{} {m}x{n} times {n}x{k}", F::NAME));
	c.obs((F::NAME, m, n, k, a.iter().map(|x| x.u()).collect::<Vec<_>>()), true);
	ensure!(Matrix::<F>::new(m, n, &a[1..]).is_err(), "short element slice accepted");
	let ma = Matrix::new(m, n, &a).map_err(es)?;
	let mb = Matrix::new(n, k, &b).map_err(es)?;
	ensure!(ma.dim() == (m, n) && ma.m() == m && ma.n() == n && ma.elements() == &a[..], "shape");
	let mut mc = Matrix::new(m, k, &scalars(c, m * k)).map_err(es)?;
	Matrix::mul_into(&ma, &mb, &mut mc);
	for i in 0..m {
		for j in 0..k {
			let w = (0..n).fold(F::ZERO, |s, t| s + a[i * n + t] * b[t * k + j]);
			ensure_eq!(mc[(i, j)], w, "product at {i},{j}");
		}
	}
	let x: Vec<E> = scalars(c, n);
	let mut y: Vec<E> = scalars(c, m);
	ma.mul_vec_into(&x, &mut y);
	for i in 0..m {
		ensure_eq!(y[i], (0..n).fold(E::ZERO, |s, j| s + x[j] * E::from(a[i * n + j])), "matrix-vector {i}");
	}
	let other = Matrix::new(m, n, &scalars::<F>(c, m * n)).map_err(es)?;
	let sum = &ma + &other;
	let diff = &sum - &other;
	ensure!((0..m * n).all(|i| sum.elements()[i] == a[i] + other.elements()[i]), "sum");
	ensure!(diff == ma, "difference");
	let mut cp = Matrix::zeros(m, n);
	ensure!(cp.elements().iter().all(|x| *x == F::ZERO), "zeros");
	cp.copy_from(&ma);
	ensure!(cp == ma, "copy_from");
	// inversion; sometimes of a matrix that needs pivoting or is singular
	let mut sq: Vec<F> = scalars(c, n * n);
	match c.below(5) {
		0 if n > 1 => {
			let (i, j) = (c.below(n), c.below(n));
			let s: F = rand_scalar(c);
			if i != j {
				for t in 0..n {
					sq[i * n + t] = sq[j * n + t] * s;
				}
			}
		}
		1 => {
			for t in 0..n {
				sq[t * n + t] = F::ZERO;
			}
		}
		2 => {
			let j = c.below(n);
			for t in 0..n {
				sq[t * n + j] = F::ZERO;
			}
		}
		3 => {
			// permutation times diagonal
			let mut p: Vec<usize> = (0..n).collect();
			for i in (1..n).rev() {
				p.swap(i, c.below(i + 1));
			}
			sq.fill(F::ZERO);
			for (i, j) in p.iter().enumerate() {
				sq[i * n + j] = rand_scalar(c);
			}
		}
		_ => {}
	}
	// rank by reference elimination
	let mut t = sq.clone();
	let mut rank = 0;
	for col in 0..n {
		if let Some(p) = (rank..n).find(|r| t[r * n + col] != F::ZERO) {
			for q in 0..n {
				t.swap(p * n + q, rank * n + q);
			}
			let inv = t[rank * n + col].invert().unwrap();
			for r in rank + 1..n {
				let f = t[r * n + col] * inv;
				for q in 0..n {
					let v = t[rank * n + q];
					t[r * n + q] -= v * f;
				}
			}
			rank += 1;
		}
	}
	let ms = Matrix::new(n, n, &sq).map_err(es)?;
	let mut inv = Matrix::new(n, n, &scalars(c, n * n)).map_err(es)?;
	let r = ms.inverse_into(&mut inv);
	c.count(if rank == n { "invertible" } else { "singular" }, 1);
	ensure_eq!(r.is_ok(), rank == n, "inverse_into of a matrix of rank {rank}/{n}");
	if r.is_ok() {
		let mut p = Matrix::zeros(n, n);
		Matrix::mul_into(&ms, &inv, &mut p);
		ensure!(p == Matrix::identity(n), "inverse times matrix is not the identity");
	}
	if m != n {
		let mut out = Matrix::zeros(m, n);
		ensure!(ma.inverse_into(&mut out).is_err(), "inverse of a non-square matrix");
	}
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C06");
	m.rule("one generated domain/subspace/matrix with generated polynomials compared with direct evaluation of the definition; non-trivial with more than one point or row; distinct by field and points");
	let n = m.n(60, 20000);
	macro_rules! go { ($f:ident, $nm:literal; $($($p:ident)+),* $(,)?) => {$( m.par(concat!($nm, $(" ", stringify!($p)),+), n, |c| $f::<$($p),+>(c)); )*} }
	go!(domain, "domain"; BinaryField1b PackedBinaryField128x1b, BinaryField1b BinaryField128b, BinaryField2b PackedBinaryField4x2b, BinaryField4b BinaryField8b, BinaryField8b BinaryField8b, BinaryField8b PackedBinaryField16x8b, BinaryField8b PackedBinaryField2x128b,
		BinaryField32b PackedBinaryField4x32b, BinaryField64b BinaryField128b, BinaryField128b PackedBinaryField4x128b, AESTowerField8b PackedAESBinaryField4x32b, AESTowerField8b ByteSlicedAES32x128b, BinaryField128bPolyval PackedBinaryPolyval2x128b, BinaryField16b PackedBinaryField8x16b);
	go!(factory, "factory"; BinaryField1b, BinaryField2b, BinaryField4b, BinaryField8b, BinaryField32b, BinaryField128b, AESTowerField8b, AESTowerField128b, BinaryField128bPolyval);
	go!(iso_factory, "isomorphic"; BinaryField8b AESTowerField8b, AESTowerField8b BinaryField8b, BinaryField32b AESTowerField32b, AESTowerField8b AESTowerField128b, BinaryField128b BinaryField128bPolyval, BinaryField8b BinaryField32b);
	go!(subspace, "subspace"; BinaryField1b, BinaryField2b, BinaryField4b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b, AESTowerField8b, AESTowerField32b, AESTowerField128b, BinaryField128bPolyval);
	go!(mat, "matrix"; BinaryField1b BinaryField8b, BinaryField2b BinaryField2b, BinaryField8b BinaryField32b, BinaryField32b BinaryField128b, BinaryField128b BinaryField128b, AESTowerField8b AESTowerField128b, BinaryField128bPolyval BinaryField128bPolyval);
	m.finish()
}
