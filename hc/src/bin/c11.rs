//! C11: Fiat-Shamir transcript: replayed histories, altered histories, tape boundaries.
use std::collections::HashMap;

use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, Challenger, HasherChallenger},
	transcript::{ProverTranscript, VerifierTranscript, read_u64, write_u64},
};
use binius_hash::groestl::Groestl256;
use bytes::{Buf, BufMut};
use hc::*;

type P4 = PackedBinaryField4x32b;

#[derive(Clone, Debug)]
enum Val {
	Bytes(Vec<u8>),
	B1(BinaryField1b),
	B8(BinaryField8b),
	B128(Vec<BinaryField128b>),
	Aes(Vec<AESTowerField128b>),
	Poly(BinaryField128bPolyval),
	Packed(Vec<P4>),
	U64(u64),
	Usize(usize),
	Strs(Vec<String>),
	Opt(Option<u32>),
	Dbg(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Chan {
	Observe,
	Message,
	Decommit,
}
#[derive(Clone, Debug)]
enum Op {
	Put(Chan, Val),
	S128,
	SAes,
	SPoly,
	S8,
	SBits(usize),
	SVec(usize),
}

fn val(c: &mut Case, ch: Chan) -> Val {
	match c.below(12) {
		0 => {
			let n = c.pick(&[0usize, 1, 3, 31, 32, 33, 63, 64, 65, 130, 300]);
			Val::Bytes(c.bytes(n))
		}
		1 => Val::B1(rand_scalar(c)),
		2 => Val::B8(rand_scalar(c)),
		3 => {
			let n = c.range(0, 7);
			Val::B128(scalars(c, n))
		}
		4 => {
			let n = c.range(0, 5);
			Val::Aes(scalars(c, n))
		}
		5 => Val::Poly(rand_scalar(c)),
		6 => {
			let n = c.range(0, 3);
			Val::Packed((0..n).map(|_| P4::from_fn(|_| rand_scalar(c))).collect())
		}
		7 => Val::U64(c.u128() as u64),
		8 => Val::Usize(c.u128() as usize & 0xffff),
		9 if ch != Chan::Observe => Val::Dbg("checkpoint"),
		9 | 10 => Val::Strs((0..c.below(3)).map(|_| "x".repeat(c.below(20))).collect()),
		_ => Val::Opt(if c.flip() { Some(c.u128() as u32) } else { None }),
	}
}
macro_rules! put {
	($w:expr, $v:expr) => {{
		let mut w = $w;
		match $v {
			Val::Bytes(b) => w.write_bytes(b),
			Val::B1(x) => w.write_scalar(*x),
			Val::B8(x) => w.write_scalar(*x),
			Val::B128(x) => w.write_scalar_slice(x),
			Val::Aes(x) => w.write_scalar_iter(x.iter().copied()),
			Val::Poly(x) => w.write(x),
			Val::Packed(x) => w.write_packed_slice(x),
			Val::U64(x) => write_u64(&mut w, *x),
			Val::Usize(x) => w.write(x),
			Val::Strs(x) => w.write_slice(x),
			Val::Opt(x) => w.write(x),
			Val::Dbg(x) => w.write_debug(x),
		}
	}};
}
/// read a value of the same shape and compare; Err(true) = read error, Err(false) = wrong value
fn get<B: Buf>(r: &mut binius_core::transcript::TranscriptReader<B>, v: &Val) -> Result<(), String> {
	let bad = |w: bool| if w { Ok(()) } else { Err("value read differs from the value written".to_string()) };
	match v {
		Val::Bytes(b) => {
			let mut o = vec![0; b.len()];
			r.read_bytes(&mut o).map_err(|_| "read")?;
			bad(&o == b)
		}
		Val::B1(x) => bad(r.read_scalar::<BinaryField1b>().map_err(|_| "read")? == *x),
		Val::B8(x) => bad(r.read_scalar::<BinaryField8b>().map_err(|_| "read")? == *x),
		Val::B128(x) => bad(r.read_scalar_slice::<BinaryField128b>(x.len()).map_err(|_| "read")? == *x),
		Val::Aes(x) => bad(r.read_scalar_slice::<AESTowerField128b>(x.len()).map_err(|_| "read")? == *x),
		Val::Poly(x) => bad(r.read::<BinaryField128bPolyval>().map_err(|_| "read")? == *x),
		Val::Packed(x) => bad(r.read_packed_slice::<P4>(x.len()).map_err(|_| "read")? == *x),
		Val::U64(x) => bad(read_u64(r).map_err(|_| "read")? == *x),
		Val::Usize(x) => bad(r.read::<usize>().map_err(|_| "read")? == *x),
		Val::Strs(x) => bad(r.read_vec::<String>(x.len()).map_err(|_| "read")? == *x),
		Val::Opt(x) => bad(r.read::<Option<u32>>().map_err(|_| "read")? == *x),
		Val::Dbg(x) => {
			r.read_debug(x);
			Ok(())
		}
	}
}
macro_rules! sample {
	($t:expr, $op:expr) => {
		match $op {
			Op::S128 => vec![CanSample::<BinaryField128b>::sample($t).u()],
			Op::SAes => vec![BinaryField128b::from(CanSample::<AESTowerField128b>::sample($t)).u()],
			Op::SPoly => vec![BinaryField128b::from(CanSample::<BinaryField128bPolyval>::sample($t)).u()],
			Op::S8 => vec![CanSample::<BinaryField8b>::sample($t).u()],
			Op::SBits(n) => vec![CanSampleBits::<u32>::sample_bits($t, *n) as u128],
			Op::SVec(n) => CanSample::<BinaryField128b>::sample_vec($t, *n).into_iter().map(|x| x.u()).collect(),
			Op::Put(..) => vec![],
		}
	};
}
type Ch = HasherChallenger<Groestl256>;

fn prove<C: Challenger + Default>(ops: &[Op]) -> (Vec<u8>, Vec<Vec<u128>>) {
	let mut t = ProverTranscript::<C>::new();
	let mut out = vec![];
	for op in ops {
		if let Op::Put(ch, v) = op {
			match ch {
				Chan::Observe => put!(t.observe(), v),
				Chan::Message => put!(t.message(), v),
				Chan::Decommit => put!(t.decommitment(), v),
			}
		}
		let s = sample!(&mut t, op);
		if !matches!(op, Op::Put(..)) {
			out.push(s);
		}
	}
	(t.finalize(), out)
}
/// replay on the verifier side over `tape`; the values are compared with those of `ops`
fn verify<C: Challenger + Default>(ops: &[Op], tape: &[u8]) -> (Vec<Vec<u128>>, Result<(), String>) {
	let mut t = VerifierTranscript::<C>::new(tape.to_vec());
	let mut out = vec![];
	let mut res = Ok(());
	for op in ops {
		if let Op::Put(ch, v) = op {
			let r = match ch {
				Chan::Observe => {
					put!(t.observe(), v);
					Ok(())
				}
				Chan::Message => get(&mut t.message(), v),
				Chan::Decommit => get(&mut t.decommitment(), v),
			};
			if let Err(e) = r {
				if e == "read" {
					return (out, Err("read".into()));
				}
				res = Err(e);
			}
		}
		let s = sample!(&mut t, op);
		if !matches!(op, Op::Put(..)) {
			out.push(s);
		}
	}
	let f = t.finalize();
	(out, res.and(f.map_err(|_| "unread".to_string())))
}
fn history(c: &mut Case, n: usize) -> Vec<Op> {
	(0..n)
		.map(|_| match c.below(10) {
			0 => Op::S128,
			1 => Op::SAes,
			2 => Op::SPoly,
			3 => Op::S8,
			4 => Op::SBits(c.range(0, 40)),
			5 => Op::SVec(c.range(0, 6)),
			k => {
				let ch = [Chan::Observe, Chan::Message, Chan::Message, Chan::Decommit][k - 6];
				Op::Put(ch, val(c, ch))
			}
		})
		.collect()
}
/// the bytes an operation shows to the challenger
fn absorbed(op: &Op) -> Vec<u8> {
	match op {
		Op::Put(Chan::Decommit, _) => vec![],
		Op::Put(_, v) => prove::<Ch>(&[Op::Put(Chan::Message, v.clone())]).0,
		_ => vec![],
	}
}

fn run(c: &mut Case) -> Res {
	let n = c.range(1, 14);
	let mut ops = history(c, n);
	ops.push(Op::SVec(2));
	c.desc(clip(&format!("{ops:?}")));
	let (tape, ch) = prove::<Ch>(&ops);
	c.obs((&tape, ops.len()), true);
	let (tape2, ch2) = prove::<Ch>(&ops);
	ensure!(tape == tape2 && ch == ch2, "the same history gives different results");
	let (chv, r) = verify::<Ch>(&ops, &tape);
	ensure!(r.is_ok(), "verifier replay failed: {r:?}");
	ensure_eq!(chv, ch, "prover and verifier challenges");
	c.count("replays", 1);
	for (op, s) in ops.iter().filter(|o| !matches!(o, Op::Put(..))).zip(&ch) {
		if let Op::SBits(n) = op {
			ensure!(*n >= 32 || s[0] < 1 << n, "sample_bits({n}) returned {}", s[0]);
		}
	}
	// large challenges never repeat within a history
	let big: Vec<u128> = ops.iter().filter(|o| !matches!(o, Op::Put(..))).zip(&ch).filter(|(o, _)| !matches!(o, Op::S8 | Op::SBits(_))).flat_map(|(_, s)| s.clone()).collect();
	let mut d = big.clone();
	d.sort();
	d.dedup();
	ensure_eq!(d.len(), big.len(), "number of distinct 128-bit challenges");

	// one value altered, dropped, inserted, reordered
	let last = |v: &[Vec<u128>]| v.last().unwrap().clone();
	let puts: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Put(ch, _) if ch != Chan::Decommit) && !absorbed(&ops[*i]).is_empty()).collect();
	if !puts.is_empty() {
		let i = c.pick(&puts);
		let Op::Put(chn, v) = ops[i].clone() else { unreachable!() };
		// alter one bit through a byte-string stand-in of the same length
		let mut b = absorbed(&Op::Put(chn, v));
		let k = c.below(b.len());
		let mut plain = ops.clone();
		plain[i] = Op::Put(chn, Val::Bytes(b.clone()));
		ensure_eq!(prove::<Ch>(&plain).1, ch, "challenges after writing the same bytes as a byte string");
		b[k] ^= 1 << c.below(8);
		let mut alt = ops.clone();
		alt[i] = Op::Put(chn, Val::Bytes(b.clone()));
		let a = prove::<Ch>(&alt).1;
		let before = ops[..i].iter().filter(|o| !matches!(o, Op::Put(..))).count();
		ensure!(a[..before] == ch[..before], "a later value influenced earlier challenges");
		for (k, (x, y)) in a.iter().zip(&ch).enumerate().skip(before) {
			for (p, q) in x.iter().zip(y) {
				if p >> 32 != 0 || q >> 32 != 0 {
					ensure!(p != q, "challenge {k} did not change when value {i} changed");
				}
			}
		}
		// dropped
		let mut alt = ops.clone();
		alt.remove(i);
		ensure!(last(&prove::<Ch>(&alt).1) != last(&ch), "challenge did not change when value {i} was dropped");
		// appended byte
		let mut alt = ops.clone();
		let x = c.pick(&[0u8, 1, 0xff]);
		alt.insert(i + 1, Op::Put(chn, Val::Bytes(vec![x])));
		ensure!(last(&prove::<Ch>(&alt).1) != last(&ch), "challenge did not change when a byte was inserted after value {i}");
		// reordered
		let j = c.pick(&puts);
		let (bi, bj) = (absorbed(&ops[i]), absorbed(&ops[j]));
		if bi.len() == bj.len() && bi != bj {
			let mut alt = ops.clone();
			alt.swap(i, j);
			ensure!(last(&prove::<Ch>(&alt).1) != last(&ch), "challenge did not change when values {i} and {j} were exchanged");
		}
		c.count("altered histories", 4);
	}
	// decommitments never matter
	let decs: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Put(Chan::Decommit, _))).collect();
	if !decs.is_empty() {
		let i = c.pick(&decs);
		let mut alt = ops.clone();
		let n = c.below(80);
		alt[i] = Op::Put(Chan::Decommit, Val::Bytes(c.bytes(n)));
		ensure_eq!(prove::<Ch>(&alt).1, ch, "challenges after changing decommitment {i}");
	}
	// extra sampling changes later challenges
	{
		let i = c.below(ops.len());
		let mut alt = ops.clone();
		alt.insert(i, Op::S128);
		ensure!(last(&prove::<Ch>(&alt).1) != last(&ch), "challenge did not change when an extra challenge was drawn at {i}");
	}
	// tape boundaries; no debug markers, whose mismatch is documented to assert
	if !ops.iter().any(|o| matches!(o, Op::Put(_, Val::Dbg(_)))) {
		if !tape.is_empty() {
			let k = c.below(tape.len());
			let (_, r) = verify::<Ch>(&ops, &tape[..k]);
			ensure!(r.is_err(), "a tape cut to {k} of {} bytes is read completely", tape.len());
			let k = c.below(tape.len());
			let mut t = tape.clone();
			t[k] ^= 1 << c.below(8);
			let (cv, r) = verify::<Ch>(&ops, &t);
			// a one-bit scalar or an option flag is read from its byte with slack: the flip may leave the value equal, but not the challenges
			let slack = ops.iter().any(|o| matches!(o, Op::Put(Chan::Message, Val::B1(_) | Val::Opt(_))));
			ensure!(r.is_err() || cv == ch || slack, "verifier read equal values from an altered tape but drew other challenges");
			let mut t = tape.clone();
			let n = c.range(1, 40);
			t.extend(c.bytes(n));
			let (cv, r) = verify::<Ch>(&ops, &t);
			ensure_eq!(r, Err("unread".to_string()), "tape with {n} extra bytes");
			ensure_eq!(cv, ch, "challenges with trailing bytes");
		}
		// arbitrary bytes as a tape
		let n = c.below(tape.len() + 40);
		let t = c.bytes(n);
		let _ = verify::<Ch>(&ops, &t);
		c.count("hostile tapes", 3);
	}
	Ok(())
}

/// Many short histories over a tiny alphabet: equal absorbed/drawn logs give equal challenges, different logs different ones.
fn injective(c: &mut Case) -> Res {
	let mut seen: HashMap<u128, Vec<(bool, Vec<u8>)>> = HashMap::new();
	let mut by_log: HashMap<Vec<(bool, Vec<u8>)>, u128> = HashMap::new();
	for _ in 0..400 {
		let mut ch = Ch::default();
		// log: runs of absorbed bytes / drawn byte counts
		let mut log: Vec<(bool, Vec<u8>)> = vec![];
		for _ in 0..c.range(0, 6) {
			if c.flip() {
				let n = c.pick(&[0usize, 1, 1, 2, 8, 32, 63, 64, 65]);
				let b = vec![c.pick(&[0u8, 0, 1, 32]); n];
				if n == 0 {
					continue;
				}
				// chunked differently each time
				let k = c.range(0, n);
				ch.observer().put_slice(&b[..k]);
				ch.observer().put_slice(&b[k..]);
				match log.last_mut() {
					Some((true, x)) => x.extend(&b),
					_ => log.push((true, b)),
				}
			} else {
				let n = c.pick(&[1usize, 1, 2, 16, 31, 32, 33, 64]);
				let k = c.below(n);
				let mut o = vec![0u8; n];
				if k > 0 {
					ch.sampler().copy_to_slice(&mut o[..k]);
				}
				ch.sampler().copy_to_slice(&mut o[k..]);
				match log.last_mut() {
					Some((false, x)) => x.extend(vec![0; n]),
					_ => log.push((false, vec![0; n])),
				}
			}
		}
		let mut o = [0u8; 16];
		ch.sampler().copy_to_slice(&mut o);
		let x = u128::from_le_bytes(o);
		c.obs(&log, !log.is_empty());
		if let Some(y) = by_log.get(&log) {
			ensure_eq!(x, *y, "challenge for equal histories {log:?}");
		}
		by_log.insert(log.clone(), x);
		if let Some(l2) = seen.get(&x) {
			ensure!(*l2 == log, "histories {log:?} and {l2:?} give the same challenge");
		}
		seen.insert(x, log);
	}
	Ok(())
}

/// Rough uniformity: over many draws every challenge bit takes both values about equally often.
fn spread(c: &mut Case) -> Res {
	let mut ones = [0u32; 128];
	let mut bits = [0u32; 32];
	let n = 600;
	let mut t = ProverTranscript::<Ch>::new();
	let b = c.bytes(8);
	t.observe().write_bytes(&b);
	c.obs(&b, true);
	for _ in 0..n {
		let x: BinaryField128b = t.sample();
		for (i, o) in ones.iter_mut().enumerate() {
			*o += (x.u() >> i & 1) as u32;
		}
		let y: u32 = t.sample_bits(32);
		for (i, o) in bits.iter_mut().enumerate() {
			*o += y >> i & 1;
		}
		if c.below(5) == 0 {
			t.message().write_bytes(&[1]);
		}
	}
	for (i, o) in ones.iter().chain(&bits).enumerate() {
		// ten standard deviations
		ensure!((*o as f64 - n as f64 / 2.0).abs() < 10.0 * (n as f64 / 4.0).sqrt(), "challenge bit {i} is 1 in {o} of {n} draws");
	}
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C11");
	m.rule("replaying a history on the verifier side reads back every value and derives every challenge the prover derived");
	m.rule("changing, dropping, inserting or reordering absorbed data, or drawing an extra challenge, changes later challenges and no earlier ones; decommitments change none");
	m.rule("short tapes are read errors, long tapes are reported at finalize, nothing panics");
	m.par("histories", m.n(1500, 200_000), run);
	m.par("injective", m.n(24, 4000), injective);
	m.par("sha histories", m.n(300, 20_000), |c| {
		let n = c.range(1, 14);
		let mut ops = history(c, n);
		ops.push(Op::SVec(2));
		type S = HasherChallenger<::sha2::Sha256>;
		let (tape, ch) = prove::<S>(&ops);
		c.obs(&tape, true);
		let (cv, r) = verify::<S>(&ops, &tape);
		ensure!(r.is_ok(), "replay failed: {r:?}");
		ensure_eq!(cv, ch, "challenges");
		Ok(())
	});
	m.par("spread", m.n(6, 200), spread);
	m.finish()
}
