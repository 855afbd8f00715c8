//! C03: isomorphisms, embeddings, casts and linear maps.
use binius_field::{
	aes_field::*,
	byte_iteration::*,
	packed_extension::*,
	packed_extension_ops::*,
	polyval::*,
	tower::*,
	tower_levels::*,
};
use hf::*;

fn lanes<P: PackedField<Scalar: Sc>>(p: &P) -> Vec<u128> {
	(0..P::WIDTH).map(|i| p.get(i).u()).collect()
}
fn rand_p<P: PackedField<Scalar: Sc>>(c: &mut Case) -> P {
	let v: Vec<P::Scalar> = (0..P::WIDTH).map(|_| P::Scalar::rnd(c)).collect();
	P::from_fn(|i| v[i])
}

/// A -> B -> A identity; A -> B is additive, multiplicative (against the reference of both fields),
/// injective by the round trip.
fn iso<A, B>(c: &mut Case) -> Res
where
	A: Sc + From<B>,
	B: Sc + From<A>,
{
	let (n1, n2) = (A::NAME, B::NAME);
	let (x, y) = if A::RF.bits() == 8 && c.index < 256 {
		(A::f(c.index as u128), A::rnd(c))
	} else {
		(A::rnd(c), A::rnd(c))
	};
	c.obs((n1, n2, x.u(), y.u()), x.u() > 1 && y.u() > 1);
	c.desc(format!("{n1} <-> {n2}: x={:#x} y={:#x}", x.u(), y.u()));
	let (fx, fy) = (B::from(x), B::from(y));
	ensure_eq!(A::from(fx), x, "{n1} -> {n2} -> {n1} of {:#x}", x.u());
	let z = B::rnd(c);
	ensure_eq!(B::from(A::from(z)), z, "{n2} -> {n1} -> {n2} of {:#x}", z.u());
	ensure_eq!(B::from(A::f(x.u() ^ y.u())).u(), fx.u() ^ fy.u(), "{n1} -> {n2} additive at {:#x},{:#x}", x.u(), y.u());
	let p = A::RF.mul(x.u(), y.u());
	let q = B::RF.mul(fx.u(), fy.u());
	ensure_eq!(B::from(A::f(p)).u(), q, "{n1} -> {n2} multiplicative at {:#x},{:#x}", x.u(), y.u());
	let p = A::RF.inv(x.u());
	ensure_eq!(B::from(A::f(p)).u(), B::RF.inv(fx.u()), "{n1} -> {n2} inverse at {:#x}", x.u());
	ensure_eq!(B::from(A::f(A::RF.one())).u(), B::RF.one(), "{n1} -> {n2} of one");
	ensure_eq!(B::from(A::f(0)).u(), 0, "{n1} -> {n2} of zero");
	Ok(())
}

/// conversion commutes with subfield embedding, and maps the tower generators to each other
fn iso_embed<As, Ab, Bs, Bb>(c: &mut Case) -> Res
where
	As: Sc + From<Bs>,
	Bs: Sc + From<As>,
	Ab: Sc + From<Bb> + ExtensionField<As>,
	Bb: Sc + From<Ab> + ExtensionField<Bs>,
{
	let x = As::rnd(c);
	c.obs((As::NAME, Ab::NAME, x.u()), x.u() > 1);
	ensure_eq!(Bb::from(Ab::from(x)), Bb::from(Bs::from(x)), "{} in {} converted: {:#x}", As::NAME, Ab::NAME, x.u());
	let n = <Ab as ExtensionField<As>>::DEGREE;
	for i in 0..n {
		let a = <Ab as ExtensionField<As>>::basis_checked(i).map_err(|e| e.to_string())?;
		let b = <Bb as ExtensionField<Bs>>::basis_checked(i).map_err(|e| e.to_string())?;
		ensure_eq!(Bb::from(a), b, "basis element {i} of {} over {} converted", Ab::NAME, As::NAME);
	}
	let v = Ab::rnd(c);
	let w = Bb::from(v);
	for i in 0..n {
		ensure_eq!(Bs::from(<Ab as ExtensionField<As>>::get_base(&v, i)), <Bb as ExtensionField<Bs>>::get_base(&w, i),
			"coordinate {i} of {:#x} in {}", v.u(), Ab::NAME);
	}
	Ok(())
}

fn triangle(c: &mut Case) -> Res {
	let x = BinaryField128b::rnd(c);
	c.obs(x.u(), x.u() > 1);
	let p = BinaryField128bPolyval::from(x);
	let a = AESTowerField128b::from(x);
	ensure_eq!(AESTowerField128b::from(p), a, "canonical -> polyval -> aes vs canonical -> aes of {:#x}", x.u());
	ensure_eq!(BinaryField128bPolyval::from(a), p, "canonical -> aes -> polyval of {:#x}", x.u());
	ensure_eq!(BinaryField128b::from(a), x, "canonical -> aes -> canonical of {:#x}", x.u());
	// subfield elements recognised through TryFrom in each tower
	let y = BinaryField8b::rnd(c);
	ensure_eq!(BinaryField8b::try_from(BinaryField128b::from(y)).ok(), Some(y), "8b of 128b");
	ensure_eq!(AESTowerField8b::try_from(AESTowerField128b::from(AESTowerField8b::from(y))).ok(), Some(AESTowerField8b::from(y)), "AES 8b of 128b");
	let b = BinaryField1b::rnd(c);
	let pb = BinaryField128bPolyval::from(b);
	ensure_eq!(pb.u(), if b.u() == 1 { Rf::P.one() } else { 0 }, "1b in polyval");
	Ok(())
}

fn embed<S, E>(c: &mut Case) -> Res
where
	S: Sc + TryFrom<E>,
	E: Sc + ExtensionField<S>,
{
	let (sn, en) = (S::NAME, E::NAME);
	let (x, y) = (S::rnd(c), S::rnd(c));
	c.obs((sn, en, x.u(), y.u()), S::RF.bits() == 1 || x.u() > 1 && y.u() > 1);
	let (ex, ey) = (E::from(x), E::from(y));
	ensure_eq!(E::RF.mul(ex.u(), ey.u()), E::from(S::f(S::RF.mul(x.u(), y.u()))).u(), "{sn} in {en}: product of {:#x} {:#x}", x.u(), y.u());
	ensure_eq!(ex.u() ^ ey.u(), E::from(S::f(x.u() ^ y.u())).u(), "{sn} in {en}: sum");
	ensure_eq!(S::try_from(ex).ok(), Some(x), "{en} -> {sn} of embedded {:#x}", x.u());
	ensure_eq!(E::from(S::f(S::RF.one())).u(), E::RF.one(), "{sn} in {en}: one");
	// outside the subfield: refused exactly when not an embedded element (x^(2^bits) = x)
	let e = E::rnd(c);
	let in_sub = E::RF.pow2k(e.u(), S::RF.bits() as usize) == e.u();
	let t = S::try_from(e);
	ensure_eq!(t.is_ok(), in_sub, "{en} -> {sn} of {:#x} accepted", e.u());
	if let Ok(s) = t {
		ensure_eq!(E::from(s), e, "{en} -> {sn} -> {en}");
	}
	Ok(())
}

fn packed_tr<P, Q>(c: &mut Case, t: &dyn Transformation<P, Q>, name: &str, f: &dyn Fn(P::Scalar) -> Q::Scalar) -> Res
where
	P: PackedField<Scalar: Sc>,
	Q: PackedField<Scalar: Sc>,
{
	let x: P = rand_p(c);
	let y = t.transform(&x);
	c.obs((name, lanes(&x)), true);
	for i in 0..P::WIDTH {
		ensure_eq!(y.get(i), f(x.get(i)), "{name} {} -> {} lane {i} of {:#x}", tn::<P>(), tn::<Q>(), x.get(i).u());
	}
	Ok(())
}

fn linear<P, Q>(c: &mut Case) -> Res
where
	P: PackedField<Scalar: Sc> + PackedTransformationFactory<Q>,
	Q: PackedBinaryField<Scalar: Sc>,
{
	let d = Q::Scalar::RF.bits() as usize;
	let bases: Vec<Q::Scalar> = match c.below(4) {
		0 => (0..d).map(|i| Q::Scalar::f(1u128 << i)).collect(),
		1 => {
			let mut v: Vec<_> = (0..d).map(|_| Q::Scalar::f(0)).collect();
			v[c.below(d)] = Q::Scalar::rnd(c);
			v
		}
		_ => (0..d).map(|_| Q::Scalar::f(c.u128() & Q::Scalar::RF.mask())).collect(),
	};
	let ls = FieldLinearTransformation::new(bases.clone());
	let t = P::make_packed_transformation(FieldLinearTransformation::new(bases.clone()));
	for _ in 0..2 {
		let x: P = rand_p(c);
		c.obs((tn::<P>(), lanes(&x)), true);
		let y = t.transform(&x);
		for i in 0..P::WIDTH {
			let xu = x.get(i).u();
			let mut want = 0;
			for (k, b) in bases.iter().enumerate() {
				if xu >> k & 1 == 1 {
					want ^= b.u();
				}
			}
			ensure_eq!(y.get(i).u(), want, "linear map {} -> {} lane {i} of {xu:#x}", tn::<P>(), tn::<Q>());
			let s: Q::Scalar = ls.transform(&x.get(i));
			ensure_eq!(s.u(), want, "scalar linear map on {} of {xu:#x}", P::Scalar::NAME);
		}
	}
	Ok(())
}

fn coords<F: Sc, PE: PackedField<Scalar: Sc + ExtensionField<F>>>(p: &[PE]) -> Vec<u128> {
	let b = F::RF.bits();
	let m = F::RF.mask();
	let d = <PE::Scalar as ExtensionField<F>>::DEGREE as u32;
	p.iter()
		.flat_map(|x| lanes(x))
		.flat_map(|u| (0..d).map(move |i| u >> (i * b as u32) & m))
		.collect()
}
fn scal<P: PackedField<Scalar: Sc>>(p: &[P]) -> Vec<u128> {
	p.iter().flat_map(|x| lanes(x)).collect()
}

/// casts between a packed extension and its packed subfields expose exactly the coordinates
fn cast<PE, F>(c: &mut Case) -> Res
where
	F: Sc,
	PE: PackedExtension<F, Scalar: Sc + ExtensionField<F>>,
{
	let nm = format!("{} as packed {}", tn::<PE>(), F::NAME);
	let n = c.range(1, 4);
	let mut v: Vec<PE> = (0..n).map(|_| rand_p(c)).collect();
	let want = coords::<F, PE>(&v);
	c.obs((&nm, &want), true);
	ensure_eq!(PE::PackedSubfield::WIDTH, PE::WIDTH * <PE::Scalar as ExtensionField<F>>::DEGREE, "{nm}: width");
	ensure_eq!(scal(PE::cast_bases(&v)), want, "{nm}: cast_bases");
	let w1 = coords::<F, PE>(&v[..1]);
	ensure_eq!(lanes(&v[0].cast_base()), w1, "{nm}: cast_base");
	ensure_eq!(lanes(v[0].cast_base_ref()), w1, "{nm}: cast_base_ref");
	ensure_eq!(lanes(v[0].cast_base_mut()), w1, "{nm}: cast_base_mut");
	ensure_eq!(scal(PE::cast_bases_mut(&mut v)), want, "{nm}: cast_bases_mut");
	let subs: Vec<PE::PackedSubfield> = PE::cast_bases(&v).to_vec();
	ensure!(PE::cast_exts(&subs) == &v[..], "{nm}: cast_exts");
	ensure!(PE::cast_ext(subs[0]) == v[0], "{nm}: cast_ext");
	ensure!(*PE::cast_ext_ref(&subs[0]) == v[0], "{nm}: cast_ext_ref");
	let mut s2 = subs.clone();
	ensure!(*PE::cast_ext_mut(&mut s2[0]) == v[0], "{nm}: cast_ext_mut");
	ensure!(PE::cast_exts_mut(&mut s2) == &v[..], "{nm}: cast_exts_mut");
	let a = [v[0], v[n - 1]];
	ensure!(PE::cast_base_arr(a) == [subs[0], subs[n - 1]], "{nm}: cast_base_arr");
	ensure!(*PE::cast_base_arr_ref(&a) == [subs[0], subs[n - 1]], "{nm}: cast_base_arr_ref");
	ensure!(PE::cast_ext_arr([subs[0], subs[n - 1]]) == a, "{nm}: cast_ext_arr");
	ensure!(*PE::cast_ext_arr_ref(&[subs[0], subs[n - 1]]) == a, "{nm}: cast_ext_arr_ref");
	let mut am = a;
	PE::cast_base_arr_mut(&mut am)[1] = subs[0];
	ensure!(am == [v[0], v[0]], "{nm}: cast_base_arr_mut");
	let mut sm = [subs[0], subs[n - 1]];
	PE::cast_ext_arr_mut(&mut sm)[0] = v[n - 1];
	ensure!(sm == [subs[n - 1], subs[n - 1]], "{nm}: cast_ext_arr_mut");
	// writing one subfield lane through the cast changes exactly that coordinate
	let k = c.below(want.len());
	let s = F::rnd(c);
	let w = PE::PackedSubfield::WIDTH;
	PE::cast_bases_mut(&mut v)[k / w].set(k % w, s);
	let mut want2 = want.clone();
	want2[k] = s.u();
	ensure_eq!(coords::<F, PE>(&v), want2, "{nm}: write coordinate {k}");
	// base multiplication: ext_base_mul
	let rhs: Vec<PE::PackedSubfield> = (0..c.range(1, 2)).map(|_| rand_p(c)).collect();
	let d = <PE::Scalar as ExtensionField<F>>::DEGREE;
	let lhs: Vec<PE> = (0..rhs.len() * d).map(|_| rand_p(c)).collect();
	let rl = scal(&rhs);
	let want: Vec<u128> = coords::<F, PE>(&lhs).iter().enumerate().map(|(i, x)| F::RF.mul(*x, rl[i / d])).collect();
	let mut l1 = lhs.clone();
	ext_base_mul::<PE, F>(&mut l1, &rhs).map_err(|e| e.to_string())?;
	ensure_eq!(coords::<F, PE>(&l1), want, "{nm}: ext_base_mul");
	let mut l1 = lhs.clone();
	ext_base_mul_par::<PE, F>(&mut l1, &rhs).map_err(|e| e.to_string())?;
	ensure_eq!(coords::<F, PE>(&l1), want, "{nm}: ext_base_mul_par");
	l1.push(lhs[0]);
	ensure!(ext_base_mul::<PE, F>(&mut l1, &rhs).is_err(), "{nm}: ext_base_mul with mismatched lengths");
	ensure!(ext_base_mul_par::<PE, F>(&mut l1, &rhs).is_err(), "{nm}: ext_base_mul_par with mismatched lengths");
	Ok(())
}

fn recast<PE, F, G>(c: &mut Case) -> Res
where
	F: Sc,
	G: Sc,
	PE: PackedExtension<F, Scalar: Sc + ExtensionField<F> + ExtensionField<G>> + PackedExtension<G>,
{
	let nm = format!("{} recast {} -> {}", tn::<PE>(), F::NAME, G::NAME);
	let v: Vec<PE> = (0..c.range(1, 4)).map(|_| rand_p(c)).collect();
	let mut f = <PE as PackedExtension<F>>::cast_bases(&v).to_vec();
	let want = coords::<G, PE>(&v);
	c.obs((&nm, &want), true);
	ensure_eq!(scal(recast_packed_slice::<PE, F, G>(&f)), want, "{nm}: slice");
	ensure_eq!(scal(recast_packed_mut::<PE, F, G>(&mut f)), want, "{nm}: mut");
	ensure_eq!(lanes(&recast_packed::<PE, F, G>(f[0])), coords::<G, PE>(&v[..1]), "{nm}");
	Ok(())
}

/// unpack_if_possible, byte iteration, lookup tables
fn unpack<P: PackedField<Scalar: Sc>>(c: &mut Case) -> Res {
	let nm = tn::<P>();
	let n = c.below(4);
	let mut v: Vec<P> = (0..n).map(|_| rand_p(c)).collect();
	let want = scal(&v);
	c.obs((&nm, &want), !want.is_empty());
	unpack_if_possible(&v, |s| s.iter().map(|x| x.u()).collect::<Vec<_>>() == want, |p| scal(p) == want)
		.then_some(()).ok_or(format!("unpack_if_possible of {nm}"))?;
	unpack_if_possible_mut(&mut v, |s| s.iter().map(|x| x.u()).collect::<Vec<_>>() == want, |p| scal(p) == want)
		.then_some(()).ok_or(format!("unpack_if_possible_mut of {nm}"))?;
	if can_iterate_bytes::<P>() {
		struct Cb(Vec<u8>);
		impl ByteIteratorCallback for Cb {
			fn call(&mut self, it: impl Iterator<Item = u8>) {
				self.0.extend(it)
			}
		}
		let mut cb = Cb(vec![]);
		iterate_bytes(&v, &mut cb);
		let b = P::Scalar::RF.bits() as usize;
		let mut bits = vec![];
		for u in &want {
			for k in 0..b {
				bits.push(u >> k & 1 == 1);
			}
		}
		let bytes: Vec<u8> = bits.chunks(8).map(|ch| ch.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect();
		ensure_eq!(cb.0, bytes, "iterate_bytes of {nm}");
		c.count("byte-iterable observed", 1);
	}
	let m = 8 * c.below(4);
	let vals: Vec<P> = (0..m).map(|_| rand_p(c)).collect();
	let t = create_partial_sums_lookup_tables(&vals[..]);
	ensure_eq!(t.len(), m * 32, "lookup table length");
	for _ in 0..16 {
		if m == 0 {
			break;
		}
		let k = c.below(m / 8);
		let b = c.below(256);
		let mut w = vec![0u128; P::WIDTH];
		for j in 0..8 {
			if b >> j & 1 == 1 {
				for (a, x) in w.iter_mut().zip(lanes(&vals[k * 8 + j])) {
					*a ^= x;
				}
			}
		}
		ensure_eq!(lanes(&t[k * 256 + b]), w, "partial sums table of {nm} chunk {k} byte {b}");
	}
	Ok(())
}

fn divide<P, Q>(c: &mut Case) -> Res
where
	P: PackedField<Scalar: Sc> + PackedDivisible<Q>,
	Q: PackedField<Scalar = P::Scalar>,
{
	let nm = format!("{} / {}", tn::<P>(), tn::<Q>());
	let n = c.below(4);
	let mut v: Vec<P> = (0..n).map(|_| rand_p(c)).collect();
	let want = scal(&v);
	c.obs((&nm, &want), !want.is_empty());
	ensure_eq!(scal(P::divide(&v)), want, "{nm}");
	ensure_eq!(scal(P::divide_mut(&mut v)), want, "{nm} mut");
	if n > 0 {
		let k = c.below(want.len());
		let s = P::Scalar::rnd(c);
		P::divide_mut(&mut v)[k / Q::WIDTH].set(k % Q::WIDTH, s);
		let mut w = want.clone();
		w[k] = s.u();
		ensure_eq!(scal(&v), w, "{nm}: write scalar {k}");
	}
	Ok(())
}

fn tower_level<T: TowerLevel>(c: &mut Case) -> Res {
	let w = T::WIDTH;
	let v: Vec<u128> = (0..w).map(|_| c.u128()).collect();
	let u: Vec<u128> = (0..w).map(|_| c.u128()).collect();
	c.obs((w, &v), true);
	let f = |v: &[u128]| T::from_fn(|i| BinaryField128b::f(v[i]));
	let back = |d: &T::Data<BinaryField128b>| d.as_ref().iter().map(|x| x.u()).collect::<Vec<_>>();
	let mut a = f(&v);
	let b = f(&u);
	ensure_eq!(back(&a), v, "from_fn width {w}");
	let x: Vec<u128> = v.iter().zip(&u).map(|(a, b)| a ^ b).collect();
	ensure_eq!(back(&T::sum(&a, &b)), x, "sum width {w}");
	let mut d = f(&v);
	T::add_into(&b, &mut d);
	ensure_eq!(back(&d), x, "add_into width {w}");
	T::copy_into(&b, &mut d);
	ensure_eq!(back(&d), u, "copy_into width {w}");
	ensure_eq!(back(&T::default::<BinaryField128b>()), vec![0; w], "default width {w}");
	if w > 1 {
		{
			let (l, r) = T::split(&a);
			ensure_eq!(l.as_ref().iter().map(|x| x.u()).collect::<Vec<_>>(), v[..w / 2], "split low width {w}");
			ensure_eq!(r.as_ref().iter().map(|x| x.u()).collect::<Vec<_>>(), v[w / 2..], "split high width {w}");
			ensure_eq!(back(&T::join(l, r)), v, "join width {w}");
		}
		let (l, r) = T::split_mut(&mut a);
		l.as_mut()[0] = BinaryField128b::f(7);
		r.as_mut()[w / 2 - 1] = BinaryField128b::f(9);
		let mut v2 = v.clone();
		v2[0] = 7;
		v2[w - 1] = 9;
		ensure_eq!(back(&a), v2, "split_mut width {w}");
	}
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C03");
	m.rule("one conversion, cast or linear map applied to generated elements, compared with reference arithmetic on the raw representations; non-trivial when the operands are not 0 or 1; distinct by operation and operands");
	let n = m.n(600, 60_000);
	macro_rules! iso { ($($a:ident $b:ident),*) => {$(
		m.par(concat!("iso ", stringify!($a), " ", stringify!($b)), n, |c| iso::<$a, $b>(c));
		m.par(concat!("iso ", stringify!($b), " ", stringify!($a)), n, |c| iso::<$b, $a>(c));
	)*}}
	iso!(BinaryField8b AESTowerField8b, BinaryField16b AESTowerField16b, BinaryField32b AESTowerField32b,
		BinaryField64b AESTowerField64b, BinaryField128b AESTowerField128b, BinaryField128b BinaryField128bPolyval,
		AESTowerField128b BinaryField128bPolyval);
	m.par("canonical/AES/POLYVAL triangle", n, triangle);
	let n = m.n(40, 4000);
	macro_rules! ie { ($($a:ident $b:ident $x:ident $y:ident),*) => {$(
		m.par(concat!("iso embed ", stringify!($a), " ", stringify!($b)), n, |c| { iso_embed::<$a, $b, $x, $y>(c)?; iso_embed::<$x, $y, $a, $b>(c) });
	)*}}
	ie!(BinaryField8b BinaryField16b AESTowerField8b AESTowerField16b,
		BinaryField8b BinaryField32b AESTowerField8b AESTowerField32b,
		BinaryField8b BinaryField64b AESTowerField8b AESTowerField64b,
		BinaryField8b BinaryField128b AESTowerField8b AESTowerField128b,
		BinaryField16b BinaryField32b AESTowerField16b AESTowerField32b,
		BinaryField16b BinaryField64b AESTowerField16b AESTowerField64b,
		BinaryField16b BinaryField128b AESTowerField16b AESTowerField128b,
		BinaryField32b BinaryField64b AESTowerField32b AESTowerField64b,
		BinaryField32b BinaryField128b AESTowerField32b AESTowerField128b,
		BinaryField64b BinaryField128b AESTowerField64b AESTowerField128b);
	macro_rules! em { (BinaryField1b, BinaryField128bPolyval) => {}; ($a:ident, $b:ident) => { m.par(concat!("embed ", stringify!($a), " ", stringify!($b)), n, |c| embed::<$a, $b>(c)); } }
	all_ext_pairs!(em);

	// packed conversions
	let n = m.n(12, 2000);
	macro_rules! a2b { ($($a:ident $b:ident),* $(,)?) => {$(
		m.par(concat!("packed ", stringify!($a), " <-> ", stringify!($b)), n, |c| {
			packed_tr::<$a, $b>(c, &make_aes_to_binary_packed_transformer::<$a, $b>(), "aes_to_binary", &|x| x.into())?;
			packed_tr::<$b, $a>(c, &make_binary_to_aes_packed_transformer::<$b, $a>(), "binary_to_aes", &|x| x.into())
		});
	)*}}
	a2b!(PackedAESBinaryField1x8b PackedBinaryField1x8b, PackedAESBinaryField2x8b PackedBinaryField2x8b, PackedAESBinaryField1x16b PackedBinaryField1x16b,
		PackedAESBinaryField4x8b PackedBinaryField4x8b, PackedAESBinaryField2x16b PackedBinaryField2x16b, PackedAESBinaryField1x32b PackedBinaryField1x32b,
		PackedAESBinaryField8x8b PackedBinaryField8x8b, PackedAESBinaryField4x16b PackedBinaryField4x16b, PackedAESBinaryField2x32b PackedBinaryField2x32b, PackedAESBinaryField1x64b PackedBinaryField1x64b,
		PackedAESBinaryField16x8b PackedBinaryField16x8b, PackedAESBinaryField8x16b PackedBinaryField8x16b, PackedAESBinaryField4x32b PackedBinaryField4x32b, PackedAESBinaryField2x64b PackedBinaryField2x64b, PackedAESBinaryField1x128b PackedBinaryField1x128b,
		PackedAESBinaryField32x8b PackedBinaryField32x8b, PackedAESBinaryField16x16b PackedBinaryField16x16b, PackedAESBinaryField8x32b PackedBinaryField8x32b, PackedAESBinaryField4x64b PackedBinaryField4x64b, PackedAESBinaryField2x128b PackedBinaryField2x128b,
		PackedAESBinaryField64x8b PackedBinaryField64x8b, PackedAESBinaryField32x16b PackedBinaryField32x16b, PackedAESBinaryField16x32b PackedBinaryField16x32b, PackedAESBinaryField8x64b PackedBinaryField8x64b, PackedAESBinaryField4x128b PackedBinaryField4x128b);
	macro_rules! fast { ($($a:ident $b:ident $p:ident),*) => {$(
		m.par(concat!("fast ", stringify!($a)), n, |c| {
			packed_tr::<$b, $p>(c, &CanonicalTowerFamily::packed_transformation_to_fast::<$b, $p>(), "to_fast", &|x| x.into())?;
			packed_tr::<$p, $b>(c, &CanonicalTowerFamily::packed_transformation_from_fast::<$p, $b>(), "from_fast", &|x| x.into())?;
			packed_tr::<$a, $p>(c, &AESTowerFamily::packed_transformation_to_fast::<$a, $p>(), "aes to_fast", &|x| x.into())?;
			packed_tr::<$p, $a>(c, &AESTowerFamily::packed_transformation_from_fast::<$p, $a>(), "aes from_fast", &|x| x.into())
		});
	)*}}
	fast!(PackedAESBinaryField1x128b PackedBinaryField1x128b PackedBinaryPolyval1x128b,
		PackedAESBinaryField2x128b PackedBinaryField2x128b PackedBinaryPolyval2x128b,
		PackedAESBinaryField4x128b PackedBinaryField4x128b PackedBinaryPolyval4x128b);
	// random linear maps
	let n = m.n(6, 1500);
	macro_rules! lin { ($($p:ident)*) => {$(
		m.par(concat!("linear ", stringify!($p)), n, |c| linear::<$p, $p>(c));
	)*}}
	lin!(PackedBinaryField1x8b PackedBinaryField2x8b PackedBinaryField1x16b PackedBinaryField4x8b PackedBinaryField2x16b PackedBinaryField1x32b
		PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b
		PackedBinaryField16x8b PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b
		PackedBinaryField32x8b PackedBinaryField16x16b PackedBinaryField8x32b PackedBinaryField4x64b PackedBinaryField2x128b
		PackedBinaryField64x8b PackedBinaryField32x16b PackedBinaryField16x32b PackedBinaryField8x64b PackedBinaryField4x128b
		PackedBinaryField8x1b PackedBinaryField4x2b PackedBinaryField2x4b PackedBinaryField128x1b PackedBinaryField64x2b PackedBinaryField32x4b
		PackedBinaryField256x1b PackedBinaryField512x1b PackedBinaryField128x4b
		PackedAESBinaryField1x8b PackedAESBinaryField2x8b PackedAESBinaryField1x16b PackedAESBinaryField4x8b PackedAESBinaryField2x16b PackedAESBinaryField1x32b
		PackedAESBinaryField8x8b PackedAESBinaryField4x16b PackedAESBinaryField2x32b PackedAESBinaryField1x64b
		PackedAESBinaryField16x8b PackedAESBinaryField8x16b PackedAESBinaryField4x32b PackedAESBinaryField2x64b PackedAESBinaryField1x128b
		PackedAESBinaryField32x8b PackedAESBinaryField16x16b PackedAESBinaryField8x32b PackedAESBinaryField4x64b PackedAESBinaryField2x128b
		PackedAESBinaryField64x8b PackedAESBinaryField32x16b PackedAESBinaryField16x32b PackedAESBinaryField8x64b PackedAESBinaryField4x128b
		PackedBinaryPolyval1x128b PackedBinaryPolyval2x128b PackedBinaryPolyval4x128b);
	macro_rules! linb { ($p:ident) => { m.par(concat!("linear ", stringify!($p)), n, |c| linear::<$p, $p>(c)); } }
	packed_bytesliced!(linb);
	macro_rules! lin2 { ($($p:ident $q:ident),*) => {$(
		m.par(concat!("linear ", stringify!($p), " -> ", stringify!($q)), n, |c| { linear::<$p, $q>(c)?; linear::<$q, $p>(c) });
	)*}}
	lin2!(PackedBinaryField16x8b PackedAESBinaryField16x8b, PackedBinaryField8x16b PackedAESBinaryField8x16b, PackedBinaryField2x64b PackedAESBinaryField2x64b,
		PackedBinaryField1x128b PackedBinaryPolyval1x128b, PackedBinaryField2x128b PackedBinaryPolyval2x128b, PackedBinaryField4x128b PackedBinaryPolyval4x128b,
		PackedBinaryField32x8b PackedAESBinaryField32x8b, PackedBinaryField64x8b PackedAESBinaryField64x8b, PackedBinaryField16x32b PackedAESBinaryField16x32b,
		PackedAESBinaryField1x128b PackedBinaryPolyval1x128b);
	// casts
	let n = m.n(5, 800);
	macro_rules! cast { ($($p:ident: $($f:ident)*;)*) => {$($(
		m.par(concat!("cast ", stringify!($p), " ", stringify!($f)), n, |c| cast::<$p, $f>(c));
	)*)*}}
	cast! {
		PackedBinaryField1x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
		PackedBinaryField2x8b: BinaryField1b BinaryField4b BinaryField8b;
		PackedBinaryField1x32b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
		PackedBinaryField2x32b: BinaryField1b BinaryField2b BinaryField8b BinaryField16b BinaryField32b;
		PackedBinaryField16x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
		PackedBinaryField1x128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
		PackedBinaryField2x64b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
		PackedBinaryField2x128b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
		PackedBinaryField4x64b: BinaryField1b BinaryField4b BinaryField16b;
		PackedBinaryField4x128b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
		PackedBinaryField16x32b: BinaryField1b BinaryField2b BinaryField8b BinaryField16b;
		PackedAESBinaryField1x128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b;
		PackedAESBinaryField2x128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b;
		PackedAESBinaryField4x128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b;
		PackedAESBinaryField4x32b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b;
		PackedBinaryPolyval1x128b: BinaryField1b BinaryField128bPolyval;
		PackedBinaryPolyval2x128b: BinaryField1b BinaryField128bPolyval;
		PackedBinaryPolyval4x128b: BinaryField1b BinaryField128bPolyval;
		BinaryField128b: BinaryField1b BinaryField8b BinaryField64b BinaryField128b;
		BinaryField32b: BinaryField1b BinaryField16b;
		ByteSlicedAES16x128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
		ByteSlicedAES32x128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
		ByteSlicedAES64x128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
		ByteSlicedAES16x64b: BinaryField1b;
		ByteSlicedAES32x32b: BinaryField1b;
	}
	m.par("recast 128b", n * 4, |c| {
		recast::<PackedBinaryField1x128b, BinaryField1b, BinaryField8b>(c)?;
		recast::<PackedBinaryField2x128b, BinaryField64b, BinaryField1b>(c)?;
		recast::<PackedBinaryField4x128b, BinaryField8b, BinaryField32b>(c)?;
		recast::<PackedAESBinaryField2x128b, AESTowerField8b, AESTowerField64b>(c)?;
		recast::<PackedBinaryField4x64b, BinaryField4b, BinaryField16b>(c)
	});
	macro_rules! unp { ($p:ident) => { m.par(concat!("unpack ", stringify!($p)), n, |c| unpack::<$p>(c)); } }
	all_packed!(unp);
	macro_rules! div { ($($p:ident / $q:ident),* $(,)?) => {$( m.par(concat!("divide ", stringify!($p), " ", stringify!($q)), n, |c| divide::<$p, $q>(c)); )*} }
	div!(PackedBinaryField128x1b / PackedBinaryField64x1b, PackedBinaryField128x1b / PackedBinaryField8x1b, PackedBinaryField256x1b / PackedBinaryField128x1b,
		PackedBinaryField512x1b / PackedBinaryField256x1b, PackedBinaryField512x1b / PackedBinaryField128x1b, PackedBinaryField512x1b / PackedBinaryField8x1b,
		PackedBinaryField16x8b / BinaryField8b, PackedBinaryField32x8b / PackedBinaryField16x8b, PackedBinaryField64x8b / PackedBinaryField16x8b, PackedBinaryField64x8b / BinaryField8b,
		PackedBinaryField8x16b / BinaryField16b, PackedBinaryField4x32b / PackedBinaryField2x32b, PackedBinaryField4x128b / PackedBinaryField2x128b, PackedBinaryField4x128b / PackedBinaryField1x128b, PackedBinaryField4x128b / BinaryField128b,
		PackedAESBinaryField64x8b / AESTowerField8b, PackedAESBinaryField4x128b / PackedAESBinaryField2x128b, PackedBinaryPolyval4x128b / BinaryField128bPolyval);
	let n = m.n(40, 4000);
	m.par("tower levels", n, |c| {
		tower_level::<TowerLevel1>(c)?;
		tower_level::<TowerLevel2>(c)?;
		tower_level::<TowerLevel4>(c)?;
		tower_level::<TowerLevel8>(c)?;
		tower_level::<TowerLevel16>(c)?;
		tower_level::<TowerLevel32>(c)?;
		tower_level::<TowerLevel64>(c)
	});
	m.finish()
}
