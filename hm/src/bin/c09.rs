//! C09: hash functions against independent implementations, over chunkings, lanes and reuse.
use std::mem::MaybeUninit;

use binius_hash::{HashBuffer, PseudoCompressionFunction, Vision32Compression, Vision32ParallelDigest, Vision32bPermutation, VisionHasherDigest, VisionHasherDigestByteSliced, groestl::*, hash_serialize, multi_digest::*, permutation::Permutation, sha2::Sha256Compression};
use binius_maybe_rayon::prelude::*;
use binius_utils::{SerializationMode, SerializeBytes};
use bytes::BufMut;
use ::digest::{self, Digest, FixedOutputReset, Output, core_api::BlockSizeUser};
use hm::*;
#[path = "../vision_consts.rs"]
mod vc;

// ---- references ----
fn aes_mul(a: u8, b: u8) -> u8 {
	let (mut a, mut r) = (a, 0u8);
	for i in 0..8 {
		if b >> i & 1 == 1 {
			r ^= a;
		}
		a = a << 1 ^ if a >> 7 == 1 { 0x1b } else { 0 };
	}
	r
}
fn sbox(x: u8) -> u8 {
	let mut inv = 1u8;
	for _ in 0..254 {
		inv = aes_mul(inv, x);
	}
	inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
}
/// Groestl-256 permutation P, from the specification: state as 8x8, column by column
fn groestl_p(st: &mut [u8; 64]) {
	let s: Vec<u8> = (0..=255).map(sbox).collect();
	for r in 0..10u8 {
		for col in 0..8 {
			st[col * 8] ^= (col as u8) << 4 ^ r;
		}
		let mut t = [0u8; 64];
		for col in 0..8 {
			for row in 0..8 {
				t[col * 8 + row] = s[st[((col + row) % 8) * 8 + row] as usize];
			}
		}
		const B: [u8; 8] = [2, 2, 3, 4, 5, 3, 5, 7];
		for col in 0..8 {
			for row in 0..8 {
				st[col * 8 + row] = (0..8).fold(0, |a, k| a ^ aes_mul(B[(k + 8 - row) % 8], t[col * 8 + k]));
			}
		}
	}
}
fn ref_groestl_compress(a: &[u8], b: &[u8]) -> Vec<u8> {
	let mut st = [0u8; 64];
	st[..32].copy_from_slice(a);
	st[32..].copy_from_slice(b);
	let orig = st;
	groestl_p(&mut st);
	(32..64).map(|i| st[i] ^ orig[i]).collect()
}
/// Vision Mark-32 over scalars
struct RefVision {
	mds: Vec<Vec<AESTowerField32b>>,
}
impl RefVision {
	fn new() -> Self {
		let pt = |i: usize| AESTowerField32b::from(BinaryField32b::new(i as u32));
		let mds = (0..24)
			.map(|i| {
				let x = pt(24 + i);
				(0..24)
					.map(|j| {
						(0..24).filter(|k| *k != j).fold(AESTowerField32b::ONE, |a, k| a * (x - pt(k)) * (pt(j) - pt(k)).invert().unwrap())
					})
					.collect()
			})
			.collect();
		Self { mds }
	}
	fn permute(&self, st: &mut [AESTowerField32b; 24]) {
		let key = |st: &mut [AESTowerField32b; 24], r: usize| {
			for i in 0..24 {
				st[i] += AESTowerField32b::from(BinaryField32b::new(vc::KEYS[r * 24 + i]));
			}
		};
		let lin = |x: AESTowerField32b, m: &[u32; 32], k: u32| {
			let u = x.to_underlier();
			AESTowerField32b::from_underlier((0..32).filter(|b| u >> b & 1 == 1).fold(k, |a, b| a ^ m[b]))
		};
		key(st, 0);
		for r in 0..8 {
			for (h, m, k) in [(0, &vc::INV, vc::INV_C), (1, &vc::FWD, vc::FWD_C)] {
				for x in st.iter_mut() {
					*x = lin(x.invert_or_zero(), m, k);
				}
				let old = *st;
				for i in 0..24 {
					st[i] = dot(&self.mds[i], &old);
				}
				key(st, 1 + 2 * r + h);
			}
		}
	}
	fn hash(&self, msg: &[u8]) -> Vec<u8> {
		let mut m = msg.to_vec();
		let n = (m.len() / 64 + 1) * 64;
		let at = m.len();
		m.resize(n, 0);
		m[at] |= 0x80;
		m[n - 1] |= 0x01;
		let mut st = [AESTowerField32b::ZERO; 24];
		for b in m.chunks(64) {
			for i in 0..16 {
				st[i] = BinaryField32b::new(u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap())).into();
			}
			self.permute(&mut st);
		}
		st[..8].iter().flat_map(|x| BinaryField32b::from(*x).to_underlier().to_le_bytes()).collect()
	}
}

fn msg_len(c: &mut Case) -> usize {
	match c.below(6) {
		0 => c.below(8),
		1 => 64 * c.below(6) + c.below(3),
		2 => (64 * c.range(1, 6)).saturating_sub(c.range(1, 10)),
		3 => c.below(64),
		_ => c.below(700),
	}
}
/// random cut points of 0..n
fn cuts(c: &mut Case, n: usize) -> Vec<(usize, usize)> {
	let mut v = vec![];
	let mut a = 0;
	let style = c.below(4);
	while a < n {
		let l = match style {
			0 => n - a,
			1 => c.range(1, 5),
			2 => c.pick(&[63usize, 64, 65, 1, 32, 128]),
			_ => c.range(0, n - a),
		}
		.min(n - a);
		v.push((a, a + l));
		a += l;
	}
	v
}

fn stream<D>(c: &mut Case, reference: &(dyn Fn(&[u8]) -> Vec<u8> + Sync)) -> Res
where
	D: Digest + FixedOutputReset + digest::Reset + Clone + BlockSizeUser,
{
	let mut h = <D as Digest>::new();
	let reuse = c.range(1, 3);
	for round in 0..reuse {
		let n = msg_len(c);
		let m = c.bytes(n);
		let want = reference(&m);
		let cs = cuts(c, n);
		c.desc(format!("length {n}, {} updates, reuse {round}", cs.len()));
		c.obs((&m, &cs, round), n > 0);
		let mut forks = vec![];
		for (a, b) in &cs {
			Digest::update(&mut h, &m[*a..*b]);
			if c.below(6) == 0 {
				forks.push((h.clone(), *b));
			}
		}
		for (mut f, at) in forks {
			Digest::update(&mut f, &m[at..]);
			ensure_eq!(f.finalize().to_vec(), want, "clone resumed at {at} of {n}");
		}
		match c.below(4) {
			0 => ensure_eq!(Digest::finalize_reset(&mut h).to_vec(), want, "finalize_reset, length {n}, use {round}"),
			1 => {
				ensure_eq!(h.clone().finalize().to_vec(), want, "finalize, length {n}, use {round}");
				Digest::reset(&mut h);
			}
			2 => {
				let mut out = Output::<D>::default();
				Digest::finalize_into_reset(&mut h, &mut out);
				ensure_eq!(out.to_vec(), want, "finalize_into_reset, length {n}, use {round}");
			}
			_ => {
				ensure_eq!(h.finalize().to_vec(), want, "finalize, length {n}, use {round}");
				h = <D as Digest>::new();
			}
		}
		ensure_eq!(D::digest(&m).to_vec(), want, "one-shot digest, length {n}");
		// through the buffer adapter
		let mut h2 = <D as Digest>::new();
		let pre = c.below(n + 1);
		Digest::update(&mut h2, &m[..pre]);
		{
			let mut b = HashBuffer::new(&mut h2);
			for (x, y) in cuts(c, n - pre) {
				if c.flip() {
					b.put_slice(&m[pre + x..pre + y]);
				} else {
					for k in &m[pre + x..pre + y] {
						b.put_u8(*k);
					}
				}
			}
		}
		ensure_eq!(h2.finalize().to_vec(), want, "HashBuffer, length {n}");
	}
	Ok(())
}

struct Bytes(Vec<u8>);
impl Serializable for &Bytes {
	fn serialize(self, mut b: impl BufMut) {
		b.put_slice(&self.0);
	}
}

fn parallel<D>(c: &mut Case, reference: &(dyn Fn(&[u8]) -> Vec<u8> + Sync)) -> Res
where
	D: ParallelDigest + Sync,
{
	let n = if c.flip() { c.below(10) } else { c.below(80) };
	let len = msg_len(c).min(300);
	let items: Vec<Bytes> = (0..n).map(|_| Bytes(c.bytes(len))).collect();
	let pl = if c.flip() { 0 } else { c.below(130) };
	let prefix = c.bytes(pl);
	c.desc(format!("{n} messages of {len} bytes, prefix {pl}"));
	c.obs((n, len, pl), n > 1);
	let d = if pl == 0 && c.flip() { D::new() } else { D::new_with_prefix(&prefix) };
	for round in 0..2 {
		let mut out: Vec<_> = (0..n).map(|_| MaybeUninit::<Output<D::Digest>>::uninit()).collect();
		d.digest(items.par_iter(), &mut out);
		for (i, (o, m)) in out.iter().zip(&items).enumerate() {
			let o = unsafe { o.assume_init_ref() };
			let want = reference(&[&prefix[..], &m.0[..]].concat());
			ensure_eq!(o.to_vec(), want, "message {i} of {n} (length {len}, prefix {pl}, use {round})");
		}
	}
	// field elements
	let k = c.below(20);
	fn fields<D: ParallelDigest, F: Sc>(c: &mut Case, n: usize, k: usize, reference: &(dyn Fn(&[u8]) -> Vec<u8> + Sync)) -> Res {
		let rows: Vec<Vec<F>> = (0..n).map(|_| scalars(c, k)).collect();
		let mut out: Vec<_> = (0..n).map(|_| MaybeUninit::<Output<D::Digest>>::uninit()).collect();
		D::new().digest(rows.par_iter().map(|r| r.iter().copied()), &mut out);
		for (i, o) in out.iter().enumerate() {
			let mut b = vec![];
			for x in &rows[i] {
				canonical_bytes(*x, &mut b);
			}
			ensure_eq!(unsafe { o.assume_init_ref() }.to_vec(), reference(&b), "row {i} of {n} with {k} {} elements", F::NAME);
		}
		Ok(())
	}
	match c.below(5) {
		0 => fields::<D, BinaryField128b>(c, n, k, reference),
		1 => fields::<D, AESTowerField32b>(c, n, k, reference),
		2 => fields::<D, BinaryField8b>(c, n, k, reference),
		3 => fields::<D, AESTowerField8b>(c, n, k, reference),
		_ => fields::<D, BinaryField128bPolyval>(c, n, k, reference),
	}
}

/// little-endian bytes of the canonical tower element
fn canonical_bytes<F: Sc>(x: F, out: &mut Vec<u8>) {
	let y: F::Canonical = x.into();
	let mut b = vec![];
	y.serialize(&mut b, SerializationMode::Native).unwrap();
	out.extend(b);
}

fn hash_ser<F: Sc, D: Digest + BlockSizeUser>(c: &mut Case, reference: &(dyn Fn(&[u8]) -> Vec<u8> + Sync)) -> Res {
	let n = c.below(120);
	let v: Vec<F> = scalars(c, n);
	c.obs((F::NAME, v.iter().map(|x| x.u()).collect::<Vec<_>>()), n > 0);
	let mut b = vec![];
	for x in &v {
		canonical_bytes(*x, &mut b);
	}
	ensure_eq!(hash_serialize::<F, D>(&v).map_err(es)?.to_vec(), reference(&b), "hash_serialize of {n} {}", F::NAME);
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C09");
	m.rule("one digest (or batch of digests) compared with an independent implementation; non-trivial for non-empty messages; distinct by message, chunking and use count");
	let rv = RefVision::new();
	let groestl = |x: &[u8]| <groestl_crypto::Groestl256 as Digest>::digest(x).to_vec();
	let vision = |x: &[u8]| rv.hash(x);
	let n = m.n(400, 100000);
	m.par("groestl stream", n, |c| stream::<Groestl256>(c, &groestl));
	m.par("vision stream", m.n(60, 10000), |c| stream::<VisionHasherDigest>(c, &vision));
	m.par("groestl parallel", m.n(120, 20000), |c| parallel::<Groestl256Parallel>(c, &groestl));
	m.par("groestl as parallel", m.n(60, 10000), |c| parallel::<Groestl256>(c, &groestl));
	m.par("vision parallel", m.n(24, 3000), |c| parallel::<Vision32ParallelDigest>(c, &vision));
	m.par("vision as parallel", m.n(10, 1000), |c| parallel::<VisionHasherDigest>(c, &vision));
	m.par("sha256 as parallel", m.n(40, 5000), |c| parallel::<::sha2::Sha256>(c, &|x: &[u8]| <::sha2::Sha256 as Digest>::digest(x).to_vec()));
	m.par("hash_serialize", n, |c| match c.below(6) {
		0 => hash_ser::<BinaryField128b, Groestl256>(c, &groestl),
		1 => hash_ser::<AESTowerField128b, Groestl256>(c, &groestl),
		2 => hash_ser::<BinaryField128bPolyval, Groestl256>(c, &groestl),
		3 => hash_ser::<BinaryField8b, Groestl256>(c, &groestl),
		4 => hash_ser::<AESTowerField16b, Groestl256>(c, &groestl),
		_ => hash_ser::<BinaryField1b, Groestl256>(c, &groestl),
	});
	m.par("vision hash_serialize", m.n(10, 1000), |c| hash_ser::<AESTowerField32b, VisionHasherDigest>(c, &vision));
	m.par("compressions", n, |c| {
		let (a, b) = (c.bytes(32), c.bytes(32));
		c.obs((&a, &b), true);
		let oa = *Output::<Groestl256>::from_slice(&a);
		let ob = *Output::<Groestl256>::from_slice(&b);
		ensure_eq!(Groestl256ByteCompression.compress([oa, ob]).to_vec(), ref_groestl_compress(&a, &b), "Groestl compression");
		let iv = <::sha2::Sha256 as Digest>::digest(b"BINIUS SHA-256 COMPRESS");
		let mut st: [u32; 8] = std::array::from_fn(|i| u32::from_ne_bytes(iv[4 * i..4 * i + 4].try_into().unwrap()));
		::sha2::compress256(&mut st, &[*digest::generic_array::GenericArray::from_slice(&[&a[..], &b[..]].concat())]);
		let want: Vec<u8> = st.iter().flat_map(|x| x.to_ne_bytes()).collect();
		ensure_eq!(Sha256Compression::default().compress([oa, ob]).to_vec(), want, "SHA-256 compression");
		Ok(())
	});
	m.par("vision compression", m.n(40, 4000), |c| {
		let (a, b) = (c.bytes(32), c.bytes(32));
		c.obs((&a, &b), true);
		let got = Vision32Compression.compress([*Output::<VisionHasherDigest>::from_slice(&a), *Output::<VisionHasherDigest>::from_slice(&b)]);
		ensure_eq!(got.to_vec(), rv.hash(&[&a[..], &b[..]].concat()), "Vision compression");
		Ok(())
	});
	m.par("vision permutation", m.n(60, 10000), |c| {
		let mut st: [AESTowerField32b; 24] = std::array::from_fn(|_| rand_scalar(c));
		let mut p: [PackedAESBinaryField8x32b; 3] = std::array::from_fn(|j| PackedAESBinaryField8x32b::from_fn(|k| st[8 * j + k]));
		c.obs(st.map(|x| x.u()), true);
		Vision32bPermutation::default().permute_mut(&mut p);
		rv.permute(&mut st);
		ensure_eq!(unpack_all(&p), st.to_vec(), "permutation");
		Ok(())
	});
	m.par("vision multi", m.n(16, 2000), |c| {
		let mut h = <VisionHasherDigestByteSliced as MultiDigest<32>>::new();
		for round in 0..c.range(1, 3) {
			let len = msg_len(c).min(400);
			let rows: Vec<Vec<u8>> = (0..32).map(|_| c.bytes(len)).collect();
			let cs = cuts(c, len);
			c.desc(format!("length {len}, {} updates, use {round}", cs.len()));
			c.obs((&rows, &cs, round), len > 0);
			for (a, b) in &cs {
				h.update(std::array::from_fn(|i| &rows[i][*a..*b]));
			}
			let mut out = [MaybeUninit::<Output<VisionHasherDigest>>::uninit(); 32];
			match c.below(3) {
				0 => h.finalize_into_reset(&mut out),
				1 => {
					h.clone().finalize_into(&mut out);
					h.reset();
				}
				_ => {
					std::mem::replace(&mut h, MultiDigest::new()).finalize_into(&mut out);
				}
			}
			for i in 0..32 {
				ensure_eq!(unsafe { out[i].assume_init_ref() }.to_vec(), rv.hash(&rows[i]), "lane {i}, length {len}, use {round}");
			}
		}
		Ok(())
	});
	m.finish()
}
