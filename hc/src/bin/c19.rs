//! C19: verification of hostile proof bytes always ends with an answer, never a panic.
#![feature(alloc_error_hook)]
use std::{
	alloc::{GlobalAlloc, Layout, System},
	sync::atomic::{AtomicUsize, Ordering},
	time::Instant,
};

use binius_core::constraint_system::{ConstraintSystem as Ccs, channel::Boundary};
use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier512b};
use binius_hash::groestl::Groestl256;
use binius_m3::builder::B128;
use hc::{pv::*, sysgen::*, *};

/// Allocator that refuses requests out of proportion to the small statements used here.
struct Limited;
/// Largest single request that is granted, and largest that was made.
const LIMIT: usize = 256 << 20;
const TOTAL: usize = 12 << 30;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK_REQ: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Limited {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		PEAK_REQ.fetch_max(l.size(), Ordering::Relaxed);
		if l.size() > LIMIT || LIVE.fetch_add(l.size(), Ordering::Relaxed) > TOTAL {
			return std::ptr::null_mut();
		}
		unsafe { System.alloc(l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		PEAK_REQ.fetch_max(l.size(), Ordering::Relaxed);
		if l.size() > LIMIT || LIVE.fetch_add(l.size(), Ordering::Relaxed) > TOTAL {
			return std::ptr::null_mut();
		}
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		PEAK_REQ.fetch_max(n, Ordering::Relaxed);
		if n > LIMIT {
			return std::ptr::null_mut();
		}
		LIVE.fetch_add(n, Ordering::Relaxed);
		LIVE.fetch_sub(l.size(), Ordering::Relaxed);
		unsafe { System.realloc(p, l, n) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(l.size(), Ordering::Relaxed);
		unsafe { System.dealloc(p, l) }
	}
}
#[global_allocator]
static A: Limited = Limited;

struct Base {
	desc: String,
	ccs: Ccs<B128>,
	d: Dig,
	bounds: Vec<Boundary<B128>>,
	n_tables: usize,
	p: Params,
	proof: Vec<u8>,
}

fn base<U: Und>(c: &mut Case, tiny: bool) -> Result<Option<Base>, String> {
	let s = Sys::generate(c, &Opts { tables: if tiny { 1 } else { 3 }, max_log_size: if tiny { 2 } else { 4 }, steps: if tiny { 6 } else { 10 }, exps: !tiny });
	let p = Params { rate: 1, sec: c.pick(&[20, 40, 100]) };
	if s.committed_elems() * 128 < U::BITS.max(256) {
		return Ok(None);
	}
	let full = s.full();
	with_witness::<U, _>(&s, &full, |ccs, sizes, w| {
		let d = ccs.digest::<Groestl256>();
		let proof = no_panic(|| prove::<U>(ccs, p, &d, &s.boundaries, sizes, w))?;
		Ok(Some(Base { desc: s.describe(), ccs: ccs.clone(), d, bounds: s.boundaries.clone(), n_tables: s.tabs.len(), p, proof }))
	})?
}

fn interesting(c: &mut Case) -> u64 {
	match c.below(8) {
		0 => 0,
		1 => 1,
		2 => u64::MAX,
		3 => 1u64 << c.below(64),
		4 => (1u64 << c.below(64)).wrapping_sub(1),
		5 => (1u64 << c.below(64)).wrapping_add(1),
		6 => c.below(300) as u64,
		_ => c.u128() as u64,
	}
}

fn hostile<U: Und>(c: &mut Case) -> Res {
	let tiny = c.flip();
	let Some(b) = base::<U>(c, tiny)? else { return Ok(()) };
	let other = base::<U>(c, true)?;
	c.desc(format!("U={} {:?} proof of {} bytes for {}", U::NAME, b.p, b.proof.len(), b.desc));
	no_panic(|| verify::<U>(&b.ccs, b.p, &b.d, &b.bounds, &b.proof)).map_err(|e| format!("an honest proof was rejected: {e}"))?;
	let n = b.proof.len();
	let rounds = if c.thorough { 120 } else { 60 };
	for k in 0..rounds {
		let mut q = b.proof.clone();
		let mut what = String::new();
		for _ in 0..if c.below(4) == 0 { c.range(2, 4) } else { 1 } {
			match c.below(12) {
				0 | 1 | 2 => {
					// one of the leading integers (table sizes)
					let i = c.below(b.n_tables) * 4;
					let v = interesting(c) as u32;
					if i + 4 <= q.len() {
						q[i..i + 4].copy_from_slice(&v.to_le_bytes());
					}
					what += &format!("u32 at {i} := {v:#x}; ");
				}
				3 | 4 => {
					let i = c.below(n);
					let v = interesting(c).to_le_bytes();
					let w = c.pick(&[1usize, 2, 4, 8]);
					for j in 0..w.min(q.len().saturating_sub(i)) {
						q[i + j] = v[j];
					}
					what += &format!("{w} bytes at {i} := {v:x?}; ");
				}
				5 | 6 | 7 => {
					let i = c.below(q.len().max(1));
					let x = c.range(1, 255) as u8;
					if i < q.len() {
						q[i] ^= x;
					}
					what += &format!("byte {i} ^= {x:#x}; ");
				}
				8 => {
					let l = c.below(q.len() + 1);
					q.truncate(l);
					what += &format!("truncated to {l}; ");
				}
				9 => {
					let l = c.below(40);
					let i = c.below(q.len() + 1);
					let x = c.bytes(l);
					q.splice(i..i, x);
					what += &format!("{l} bytes inserted at {i}; ");
				}
				10 => {
					let i = c.below(q.len() + 1);
					let l = c.below(40).min(q.len() - i);
					q.drain(i..i + l);
					what += &format!("{l} bytes removed at {i}; ");
				}
				_ => match c.below(3) {
					0 => {
						let l = c.below(2000);
						q = c.bytes(l);
						// keep plausible table sizes half of the time
						if c.flip() && q.len() >= 4 * b.n_tables && n >= 4 * b.n_tables {
							q[..4 * b.n_tables].copy_from_slice(&b.proof[..4 * b.n_tables]);
						}
						what += &format!("random {l} bytes; ");
					}
					1 => {
						q = vec![c.pick(&[0u8, 1, 0xff]); c.below(4000)];
						what += "constant bytes; ";
					}
					_ => {
						if let Some(o) = &other {
							let i = c.below(q.len() + 1);
							q.truncate(i);
							q.extend_from_slice(&o.proof[i.min(o.proof.len())..]);
							what += &format!("continued from {i} with the proof of another statement; ");
						}
					}
				},
			}
		}
		if q == b.proof {
			continue;
		}
		c.obs((k, &what), true);
		PEAK_REQ.store(0, Ordering::Relaxed);
		let t = Instant::now();
		let r = guard(|| verify::<U>(&b.ccs, b.p, &b.d, &b.bounds, &q));
		let dt = t.elapsed().as_secs_f64();
		match r {
			Err(e) => {
				c.desc(format!("{what} U={} {:?} proof of {} bytes for {}", U::NAME, b.p, b.proof.len(), b.desc));
				// identify the site without line numbers
				c.key(e.split(": ").next().unwrap_or("").rsplit_once(':').map(|x| x.0.rsplit("/crates/").next().unwrap_or("").to_string()).unwrap_or_default());
				fail!("verification of a {}-byte proof panicked: {e} ({what})", q.len());
			}
			Ok(Err(_)) => c.count("answered-error", 1),
			Ok(Ok(())) => c.count("answered-ok", 1),
		}
		ensure!(dt < 60.0, "verification of a {}-byte proof took {dt:.0} s ({what})", q.len());
		c.count("verifications", 1);
	}
	Ok(())
}

fn main() {
	std::alloc::set_alloc_error_hook(|l| panic!("memory allocation of {} bytes requested", l.size()));
	let mut m = Mon::from_args("C19");
	m.rule("honest proofs of generated systems with hostile edits (table sizes, integers, bytes, truncation, insertion, splices, garbage): verify must return; a panic, an abort, a request for more than 256 MB (statements here need a few MB) or more than 60 s is a violation; non-trivial when the bytes differ from the honest proof");
	let n = m.n(160, 8000);
	m.par("hostile", n, |c| if c.flip() { hostile::<OptimalUnderlier128b>(c) } else { hostile::<OptimalUnderlier512b>(c) });
	m.finish();
}
