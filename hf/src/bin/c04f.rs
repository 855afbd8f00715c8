//! C04 (fields, packed fields, containers): serialization round-trips, decoding fails cleanly.
#[path = "../ser.rs"]
mod ser;
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use generic_array::{ArrayLength, GenericArray, typenum as tn_};
use hf::*;
use ser::*;

fn le(v: u128, bits: usize) -> Vec<u8> {
	v.to_le_bytes()[..bits.div_ceil(8)].to_vec()
}

fn dbg<T: std::fmt::Debug>(v: &T) -> String {
	format!("{v:?}")
}

fn scalar<F: Sc>(m: &mut Mon)
where
	F::Canonical: Sc,
{
	let name = format!("scalar {}", F::NAME);
	let bits = F::RF.bits();
	m.par(&name, m.n(300, 6000), |c| {
		let x = F::rnd(c);
		c.desc(format!("{} {:#x}", F::NAME, x.u()));
		c.obs(x.u(), x.u() > 1);
		let canon = <F::Canonical>::from(x).u();
		let show = |v: &F| format!("{:#x}", v.u());
		conform(c, F::NAME, &x, SerializationMode::Native, Some(&le(x.u(), bits)), &show)?;
		conform(c, F::NAME, &x, SerializationMode::CanonicalTower, Some(&le(canon, bits)), &show)?;
		for mode in MODES {
			let k = c.below(20);
			let junk = c.bytes(k);
			if let Some(v) = hostile::<F>(c, F::NAME, &junk, mode, &show)? {
				ensure!(junk.len() >= bits.div_ceil(8), "{} decoded from {} bytes", F::NAME, junk.len());
				ensure!(v.u() & !F::RF.mask() == 0, "{} decoded from {junk:02x?}: value {:#x} is not a field element", F::NAME, v.u());
				ensure_eq!(v + v, F::ZERO, "{} decoded from {junk:02x?}", F::NAME);
				ensure_eq!(v * F::ONE, v, "{} decoded from {junk:02x?}", F::NAME);
			}
		}
		// slices of scalars of every tower give the same canonical bytes
		let k = c.below(6);
		let v: Vec<F> = (0..k).map(|_| F::rnd(c)).collect();
		let cv: Vec<F::Canonical> = v.iter().map(|x| <F::Canonical>::from(*x)).collect();
		let a = encode(&v, SerializationMode::CanonicalTower)?;
		ensure_eq!(a, encode(&cv, SerializationMode::CanonicalTower)?, "{} canonical bytes of a vector", F::NAME);
		let back = Vec::<F>::deserialize(&encode(&cv, SerializationMode::CanonicalTower)?[..], SerializationMode::CanonicalTower).map_err(|e| e.to_string())?;
		ensure_eq!(back, v, "{} read from the canonical field's bytes", F::NAME);
		Ok(())
	});
}

fn packed<P: PackedField<Scalar: Sc> + SerializeBytes + DeserializeBytes>(m: &mut Mon) {
	let name = format!("packed {}", tn::<P>());
	let bits = <P::Scalar as Sc>::RF.bits();
	m.par(&name, m.n(60, 2000), |c| {
		let lanes: Vec<u128> = (0..P::WIDTH).map(|_| P::Scalar::rnd(c).u()).collect();
		let p = P::from_scalars(lanes.iter().map(|&v| P::Scalar::f(v)));
		c.obs(&lanes, lanes.iter().any(|x| *x > 1 || bits == 1));
		let show = |p: &P| format!("{:x?}", p.iter().map(|s| s.u()).collect::<Vec<_>>());
		let mut exp = vec![0u8; (bits * P::WIDTH).div_ceil(8)];
		for (i, v) in lanes.iter().enumerate() {
			for b in 0..bits {
				let k = i * bits + b;
				exp[k / 8] |= ((v >> b & 1) as u8) << (k % 8);
			}
		}
		for mode in MODES {
			conform(c, &tn::<P>(), &p, mode, Some(&exp), &show)?;
			let k = c.below(exp.len() + 8);
			let junk = c.bytes(k);
			if let Some(v) = hostile::<P>(c, &tn::<P>(), &junk, mode, &show)? {
				ensure!(junk.len() >= exp.len(), "decoded from {} bytes", junk.len());
				ensure!(v.iter().all(|s| s.u() & !<P::Scalar as Sc>::RF.mask() == 0), "lanes that are no field elements");
				ensure_eq!(v + P::zero(), v, "decoded from {junk:02x?}");
			}
		}
		Ok(())
	});
}

fn cat(xs: &[&[u8]]) -> Vec<u8> {
	xs.concat()
}
fn len(n: usize) -> Vec<u8> {
	(n as u32).to_le_bytes().to_vec()
}
fn text(c: &mut Case) -> String {
	let alphabet: Vec<char> = "abcXYZ 0_-\0é√漢😀\u{7f}\u{80}\u{7ff}\u{ffff}".chars().collect();
	(0..c.below(14)).map(|_| c.pick(&alphabet)).collect()
}
fn estr(s: &str) -> Vec<u8> {
	cat(&[&len(s.len()), s.as_bytes()])
}

fn both<T: SerializeBytes + DeserializeBytes + std::fmt::Debug>(c: &mut Case, what: &str, v: &T, exp: &[u8]) -> Res {
	c.obs((what, exp), exp.len() > 1);
	for mode in MODES {
		let bytes = conform(c, what, v, mode, Some(exp), &dbg)?;
		for _ in 0..6 {
			let d = damage(c, &bytes);
			hostile::<T>(c, what, &d, mode, &dbg)?;
		}
		let k = c.below(24);
		let d = c.bytes(k);
		hostile::<T>(c, what, &d, mode, &dbg)?;
	}
	Ok(())
}

fn garr<N: ArrayLength<u8>>(c: &mut Case) -> Res {
	let b = c.bytes(N::USIZE);
	let v = GenericArray::<u8, N>::from_slice(&b).clone();
	both(c, &format!("GenericArray<u8, {}>", N::USIZE), &v, &b)
}

fn containers(c: &mut Case) -> Res {
	let w = c.u128_patterned();
	both(c, "u8", &(w as u8), &[w as u8])?;
	both(c, "u16", &(w as u16), &(w as u16).to_le_bytes())?;
	both(c, "u32", &(w as u32), &(w as u32).to_le_bytes())?;
	both(c, "u64", &(w as u64), &(w as u64).to_le_bytes())?;
	both(c, "u128", &w, &w.to_le_bytes())?;
	both(c, "usize", &(w as u32 as usize), &(w as u32).to_le_bytes())?;
	let b = c.flip();
	both(c, "bool", &b, &[b as u8])?;
	let s = text(c);
	both(c, "String", &s, &estr(&s))?;
	ensure_eq!(encode(&s.as_str(), SerializationMode::Native)?, estr(&s), "&str");
	let k = c.below(5);
	let v: Vec<u16> = (0..k).map(|_| c.u128_patterned() as u16).collect();
	let ev = cat(&[&len(k), &v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()]);
	both(c, "Vec<u16>", &v, &ev)?;
	let mut sl = vec![];
	v[..].serialize(&mut sl, SerializationMode::CanonicalTower).map_err(|e| e.to_string())?;
	ensure_eq!(sl, ev, "[u16]");
	let b = c.flip();
	let o = b.then(|| s.clone());
	let eo = if b { cat(&[&[1], &estr(&s)]) } else { vec![0] };
	both(c, "Option<String>", &o, &eo)?;
	let t = (o.clone(), w as u64);
	let et = cat(&[&eo, &(w as u64).to_le_bytes()]);
	both(c, "(Option<String>, u64)", &t, &et)?;
	let bx = Box::new(t.clone());
	both(c, "Box<(Option<String>, u64)>", &bx, &et)?;
	let vv = vec![(v.clone(), (c.flip(), s.clone())), (vec![], (false, String::new()))];
	let e: Vec<u8> = cat(&[&len(2), &ev, &[vv[0].1.0 as u8], &estr(&s), &len(0), &[0], &len(0)]);
	both(c, "Vec<(Vec<u16>, (bool, String))>", &vv, &e)?;
	let f = vec![Some(BinaryField32b::f(w as u32 as u128)), None];
	both(c, "Vec<Option<BinaryField32b>>", &f, &cat(&[&len(2), &[1], &(w as u32).to_le_bytes(), &[0]]))?;
	garr::<tn_::U0>(c)?;
	garr::<tn_::U1>(c)?;
	garr::<tn_::U32>(c)?;
	garr::<tn_::U64>(c)?;
	both(c, "PhantomData", &std::marker::PhantomData::<u8>, &[])?;
	let big = (1usize << 32) + c.below(1000);
	let mut buf = vec![];
	ensure!(matches!(guard(|| big.serialize(&mut buf, SerializationMode::Native))?, Err(_)) && buf.is_empty(), "usize {big} was serialized as {buf:?}");
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C04");
	m.rule("patterned values of every serializable type, compared with their specified bytes, read back from contiguous and fragmented buffers, truncated at every point, written to buffers of every smaller size, and damaged; distinct by value, non-trivial when the value is not 0 or 1");
	macro_rules! s {
		($t:ty) => {
			scalar::<$t>(&mut m);
		};
	}
	all_scalars!(s);
	macro_rules! p {
		($t:ty) => {
			packed::<$t>(&mut m);
		};
	}
	packed_canonical!(p);
	m.par("containers", m.n(600, 20000), containers);
	m.finish()
}
