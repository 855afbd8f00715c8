//! C26: the shared utilities against simple models, and every parallel-iterator adaptor against
//! the sequential meaning. The same source is built with the real parallel library and with the
//! serial stand-in; both must agree with the model.
use std::{
	collections::{BTreeMap, HashSet},
	num::Wrapping,
	sync::{
		Mutex,
		atomic::{AtomicU64, Ordering::SeqCst},
	},
};

use binius_maybe_rayon::{self as mr, iter::*, slice::*};
use binius_utils::{
	array_2d::Array2D,
	checked_arithmetics::*,
	graph::connected_components,
	iter::IterExtensions,
	random_access_sequence::*,
	sorting::*,
	sparse_index::SparseIndex,
	strided_array::StridedArray2DViewMut,
};
use vmon::*;

type R = Result<(), String>;

fn vals(c: &mut Case, max: usize) -> Vec<u64> {
	let n = match c.below(8) {
		0 => 0,
		1 => 1,
		2 => 2,
		_ => c.below(max + 1),
	};
	let wide = c.flip();
	(0..n).map(|_| if wide { c.below(1 << 20) as u64 } else { c.below(6) as u64 }).collect()
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
	let mut v = v.to_vec();
	v.sort();
	v
}

/// `got` is obtained from `all` by leaving elements out (order kept)
fn subsequence(got: &[u64], all: &[u64]) -> bool {
	let mut it = all.iter();
	got.iter().all(|g| it.any(|a| a == g))
}

/// Affine maps modulo a prime under composition: associative, not commutative.
type Aff = (u64, u64);
const Q: u64 = 1_000_003;
fn aff(x: u64) -> Aff {
	(x % Q + 1, (x * 7 + 3) % Q)
}
fn comp(a: Aff, b: Aff) -> Aff {
	(a.0 * b.0 % Q, (a.1 * b.0 + b.1) % Q)
}

const CONSUMERS: usize = 44;

/// Runs one consumer on the iterator and compares with the same on the model `m`.
fn consume<P: ParallelIterator<Item = u64>>(c: &mut Case, which: usize, p: P, m: &[u64]) -> R {
	let k = if m.is_empty() { 3 } else { m[c.below(m.len())] };
	let hit = |x: &u64| *x % 5 == k % 5;
	let ms: u64 = m.iter().sum();
	match which {
		0 => ensure_eq!(p.collect::<Vec<_>>(), m.to_vec(), "collect"),
		1 => ensure_eq!(p.count(), m.len(), "count"),
		2 => ensure_eq!(p.sum::<u64>(), ms, "sum"),
		3 => ensure_eq!(
			p.map(|x| Wrapping(x | 1)).product::<Wrapping<u64>>(),
			m.iter().map(|x| Wrapping(x | 1)).product::<Wrapping<u64>>(),
			"product"
		),
		4 => ensure_eq!(p.min(), m.iter().copied().min(), "min"),
		5 => ensure_eq!(p.max(), m.iter().copied().max(), "max"),
		6 => ensure_eq!(
			p.min_by(|a, b| (a % 100).cmp(&(b % 100))),
			m.iter().copied().min_by(|a, b| (a % 100).cmp(&(b % 100))),
			"min_by"
		),
		7 => ensure_eq!(
			p.max_by(|a, b| (a % 100).cmp(&(b % 100))),
			m.iter().copied().max_by(|a, b| (a % 100).cmp(&(b % 100))),
			"max_by"
		),
		8 => ensure_eq!(
			p.min_by_key(|a| *a % 100),
			m.iter().copied().min_by_key(|a| *a % 100),
			"min_by_key"
		),
		9 => ensure_eq!(
			p.max_by_key(|a| *a % 100),
			m.iter().copied().max_by_key(|a| *a % 100),
			"max_by_key"
		),
		10 => ensure_eq!(
			p.map(aff).reduce(|| (1, 0), comp),
			m.iter().map(|x| aff(*x)).fold((1, 0), comp),
			"reduce"
		),
		11 => ensure_eq!(
			p.map(aff).reduce_with(comp),
			m.iter().map(|x| aff(*x)).reduce(comp),
			"reduce_with"
		),
		12 => {
			let f = |x: u64| if hit(&x) { None } else { Some(aff(x)) };
			let e: Option<Vec<Aff>> = m.iter().map(|x| f(*x)).collect();
			ensure_eq!(
				p.map(f).try_reduce(|| (1, 0), |a, b| Some(comp(a, b))),
				e.map(|v| v.into_iter().fold((1, 0), comp)),
				"try_reduce"
			)
		}
		13 => {
			let f = |x: u64| if x == k { Err(x) } else { Ok(aff(x)) };
			let e: Result<Vec<Aff>, u64> = m.iter().map(|x| f(*x)).collect();
			ensure_eq!(
				p.map(f).try_reduce_with(|a, b| Ok(comp(a, b))),
				if m.is_empty() { None } else { Some(e.map(|v| v.into_iter().reduce(comp).unwrap())) },
				"try_reduce_with"
			)
		}
		14 => {
			// an error raised by the operation itself
			let lim = ms / 2 + 1;
			let got = p.map(Ok::<u64, ()>).try_reduce(|| 0, |a, b| if a > 0 && b > 0 && a + b > lim { Err(()) } else { Ok(a + b) });
			ensure_eq!(
				got,
				if ms > lim && m.iter().filter(|x| **x > 0).count() > 1 { Err(()) } else { Ok(ms) },
				"try_reduce with a failing operation over {m:?}"
			)
		}
		15 => ensure_eq!(
			p.fold(|| (1, 0), |a, x| comp(a, aff(x))).reduce(|| (1, 0), comp),
			m.iter().map(|x| aff(*x)).fold((1, 0), comp),
			"fold"
		),
		16 => ensure_eq!(
			p.fold_with(0u64, |a, x| a + x).sum::<u64>(),
			ms,
			"fold_with"
		),
		17 => {
			let got = p
				.try_fold(|| 0u64, |a, x| if hit(&x) { Err(k % 5) } else { Ok(a + x) })
				.try_reduce(|| 0, |a, b| Ok(a + b));
			ensure_eq!(got, if m.iter().any(hit) { Err(k % 5) } else { Ok(ms) }, "try_fold")
		}
		18 => {
			let got = p
				.try_fold_with(0u64, |a, x| if x == k { None } else { Some(a + x) })
				.try_reduce(|| 0, |a, b| Some(a + b));
			ensure_eq!(got, if m.contains(&k) { None } else { Some(ms) }, "try_fold_with")
		}
		19 => {
			let s = AtomicU64::new(0);
			let n = AtomicU64::new(0);
			p.for_each(|x| {
				s.fetch_add(x, SeqCst);
				n.fetch_add(1, SeqCst);
			});
			ensure_eq!((s.into_inner(), n.into_inner()), (ms, m.len() as u64), "for_each")
		}
		20 => {
			let seen = Mutex::new(vec![]);
			p.for_each_with(1000u64, |t, x| {
				*t += 1;
				seen.lock().unwrap().push(x);
			});
			ensure_eq!(sorted(&seen.into_inner().unwrap()), sorted(m), "for_each_with")
		}
		21 => {
			let seen = Mutex::new(vec![]);
			p.for_each_init(Vec::new, |t: &mut Vec<u64>, x| {
				t.push(x);
				seen.lock().unwrap().push(*t.last().unwrap());
			});
			ensure_eq!(sorted(&seen.into_inner().unwrap()), sorted(m), "for_each_init")
		}
		22 => {
			let seen = Mutex::new(vec![]);
			let got = p.try_for_each(|x| {
				if x == k {
					return Err(x);
				}
				seen.lock().unwrap().push(x);
				Ok(())
			});
			ensure_eq!(got, if m.contains(&k) { Err(k) } else { Ok(()) }, "try_for_each");
			if got.is_ok() {
				ensure_eq!(sorted(&seen.into_inner().unwrap()), sorted(m), "try_for_each visits everything");
			}
		}
		23 => {
			let got = p.try_for_each_with(5u8, |_, x| if hit(&x) { None } else { Some(()) });
			ensure_eq!(got, if m.iter().any(hit) { None } else { Some(()) }, "try_for_each_with")
		}
		24 => {
			let got = p.try_for_each_init(|| 5u8, |_, x| if hit(&x) { Err("no") } else { Ok(()) });
			ensure_eq!(got, if m.iter().any(hit) { Err("no") } else { Ok(()) }, "try_for_each_init")
		}
		25 => ensure_eq!(p.any(|x| hit(&x)), m.iter().any(hit), "any"),
		26 => ensure_eq!(p.all(|x| hit(&x)), m.iter().all(hit), "all"),
		27 => {
			let got = p.find_any(|x| hit(x));
			ensure_eq!(got.is_some(), m.iter().any(hit), "find_any");
			ensure!(got.is_none_or(|x| hit(&x) && m.contains(&x)), "find_any gave {got:?}");
		}
		28 => ensure_eq!(p.find_first(|x| hit(x)), m.iter().copied().find(hit), "find_first"),
		29 => ensure_eq!(p.find_last(|x| hit(x)), m.iter().rev().copied().find(hit), "find_last"),
		30 => {
			let f = |x: u64| hit(&x).then_some(x + 1);
			let got = p.find_map_any(f);
			ensure_eq!(got.is_some(), m.iter().any(hit), "find_map_any");
			ensure!(got.is_none_or(|x| m.contains(&(x - 1)) && hit(&(x - 1))), "find_map_any gave {got:?}");
		}
		31 => {
			let f = |x: u64| hit(&x).then_some(x + 1);
			ensure_eq!(p.find_map_first(f), m.iter().copied().find_map(f), "find_map_first")
		}
		32 => {
			let f = |x: u64| hit(&x).then_some(x + 1);
			ensure_eq!(p.find_map_last(f), m.iter().rev().copied().find_map(f), "find_map_last")
		}
		33 => {
			let (a, b): (Vec<u64>, Vec<u8>) = p.map(|x| (x, (x % 256) as u8)).unzip();
			ensure_eq!(a, m.to_vec(), "unzip left");
			ensure_eq!(b, m.iter().map(|x| (x % 256) as u8).collect::<Vec<_>>(), "unzip right");
		}
		34 => {
			let (a, b): (Vec<u64>, Vec<u64>) = p.partition(|x| hit(x));
			let (ea, eb): (Vec<u64>, Vec<u64>) = m.iter().copied().partition(hit);
			ensure_eq!((a, b), (ea, eb), "partition")
		}
		35 => {
			use either::Either;
			let (a, b): (Vec<u64>, Vec<u8>) =
				p.partition_map(|x| if hit(&x) { Either::Left(x) } else { Either::Right((x % 251) as u8) });
			ensure_eq!(a, m.iter().copied().filter(hit).collect::<Vec<_>>(), "partition_map left");
			ensure_eq!(
				b,
				m.iter().copied().filter(|x| !hit(x)).map(|x| (x % 251) as u8).collect::<Vec<_>>(),
				"partition_map right"
			)
		}
		36 => {
			let v: Vec<u64> = p.collect_vec_list().into_iter().flatten().collect();
			ensure_eq!(v, m.to_vec(), "collect_vec_list")
		}
		37 => {
			let f = |x: u64| if x == k { Err(x) } else { Ok(x + 1) };
			let e: Result<Vec<u64>, u64> = m.iter().map(|x| f(*x)).collect();
			ensure_eq!(p.map(f).collect::<Result<Vec<u64>, u64>>(), e, "collect into Result")
		}
		38 => {
			let got: Vec<u64> = p
				.map_with(10u64, |t, x| {
					*t += 1;
					x + 2
				})
				.collect();
			ensure_eq!(got, m.iter().map(|x| x + 2).collect::<Vec<_>>(), "map_with")
		}
		39 => {
			let got: Vec<u64> = p
				.map_init(Vec::new, |t: &mut Vec<u64>, x| {
					t.clear();
					t.push(x);
					t[0] * 2
				})
				.collect();
			ensure_eq!(got, m.iter().map(|x| x * 2).collect::<Vec<_>>(), "map_init")
		}
		40 => {
			// Some values up to a None
			let f = |x: u64| if x == k { None } else { Some(x) };
			let first = m.iter().position(|x| *x == k);
			let got: Vec<u64> = p.map(f).while_some().collect();
			match first {
				None => ensure_eq!(got, m.to_vec(), "while_some without a None"),
				Some(i) => {
					ensure!(subsequence(&got, m), "while_some gave {got:?}");
					ensure!(!got.contains(&k), "while_some gave {got:?}");
					let _ = i;
				}
			}
		}
		41 => {
			let got: Vec<(u64, String)> = p.map(|x| (x, x.to_string())).collect();
			ensure!(
				got.len() == m.len() && got.iter().zip(m).all(|((a, s), b)| a == b && *s == b.to_string()),
				"collect of owned values gave {got:?} for {m:?}"
			)
		}
		42 => {
			// a panic in the closure surfaces
			if m.contains(&k) {
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
					p.panic_fuse().for_each(|x| {
						if x == k {
							std::panic::resume_unwind(Box::new("expected"));
						}
					})
				}));
				ensure!(r.is_err(), "a panic inside for_each was lost");
			} else {
				p.for_each(|_| {});
			}
		}
		43 => {
			let got = p.reduce_with(|a, b| a.max(b));
			ensure_eq!(got, m.iter().copied().max(), "reduce_with max")
		}
		_ => unreachable!(),
	}
	Ok(())
}

const ADAPTORS: usize = 19;

fn some_consumer(c: &mut Case) -> usize {
	if c.below(3) == 0 { 0 } else { c.below(CONSUMERS) }
}

/// One adaptor of `ParallelIterator`, then any consumer.
fn adapt<P: ParallelIterator<Item = u64>>(c: &mut Case, which: usize, p: P, m: &[u64]) -> R {
	let con = some_consumer(c);
	let k = 2 + c.below(4) as u64;
	c.count(&format!("adaptor {which}"), 1);
	c.count(&format!("consumer {con}"), 1);
	match which {
		0 => consume(c, con, p, m),
		1 => consume(c, con, p.map(|x| x * 3 + 1), &m.iter().map(|x| x * 3 + 1).collect::<Vec<_>>()),
		2 => consume(c, con, p.filter(|x| x % k == 0), &m.iter().copied().filter(|x| x % k == 0).collect::<Vec<_>>()),
		3 => {
			let f = |x: u64| (x % k != 1).then_some(x / 2);
			consume(c, con, p.filter_map::<_, u64>(f), &m.iter().copied().filter_map(f).collect::<Vec<_>>())
		}
		4 => {
			let f = |x: u64| (0..x % k).map(|i| x + i).collect::<Vec<_>>();
			consume(c, con, p.flat_map(f), &m.iter().copied().flat_map(f).collect::<Vec<_>>())
		}
		5 => {
			let f = |x: u64| (0..x % k).map(move |i| x + 2 * i);
			consume(c, con, p.flat_map_iter(f), &m.iter().copied().flat_map(f).collect::<Vec<_>>())
		}
		6 => {
			let f = |x: u64| vec![x; (x % k) as usize];
			consume(c, con, p.map(f).flatten(), &m.iter().copied().flat_map(f).collect::<Vec<_>>())
		}
		7 => {
			let f = |x: u64| (x % k == 0).then_some(x);
			consume(c, con, p.map(f).flatten_iter(), &m.iter().copied().filter_map(f).collect::<Vec<_>>())
		}
		8 => {
			let t = vals(c, 20);
			let e = [m, &t].concat();
			consume(c, con, p.chain(t), &e)
		}
		9 => {
			let mut e: Vec<u64> = m.iter().flat_map(|x| [77, *x]).collect();
			if !e.is_empty() {
				e.remove(0);
			}
			consume(c, con, p.intersperse(77), &e)
		}
		10 => consume(c, con, p.update(|x| *x += 5), &m.iter().map(|x| x + 5).collect::<Vec<_>>()),
		11 => {
			let seen = Mutex::new(vec![]);
			let got: Vec<u64> = p.inspect(|x| seen.lock().unwrap().push(*x)).collect();
			ensure_eq!(got, m.to_vec(), "inspect");
			ensure_eq!(sorted(&seen.into_inner().unwrap()), sorted(m), "inspect shows every element once");
			Ok(())
		}
		12 => {
			let b: Vec<&'static u64> = m.iter().map(|x| &*Box::leak(Box::new(*x))).collect();
			drop(p);
			if c.flip() {
				consume(c, con, b.into_par_iter().cloned(), m)
			} else {
				consume(c, con, b.into_par_iter().copied(), m)
			}
		}
		13 => consume(c, con, p.panic_fuse(), m),
		14 => {
			let n = c.below(m.len() + 3);
			let got: Vec<u64> = p.take_any(n).collect();
			ensure_eq!(got.len(), n.min(m.len()), "take_any({n})");
			ensure!(subsequence(&got, m), "take_any gave {got:?} of {m:?}");
			Ok(())
		}
		15 => {
			let n = c.below(m.len() + 3);
			let got: Vec<u64> = p.skip_any(n).collect();
			ensure_eq!(got.len(), m.len().saturating_sub(n), "skip_any({n})");
			ensure!(subsequence(&got, m), "skip_any gave {got:?} of {m:?}");
			Ok(())
		}
		16 => {
			let got: Vec<u64> = p.take_any_while(|x| x % k != 0).collect();
			ensure!(subsequence(&got, m) && got.iter().all(|x| x % k != 0), "take_any_while gave {got:?} of {m:?}");
			if m.iter().all(|x| x % k != 0) {
				ensure_eq!(got, m.to_vec(), "take_any_while");
			}
			Ok(())
		}
		17 => {
			let got: Vec<u64> = p.skip_any_while(|x| x % k != 0).collect();
			ensure!(subsequence(&got, m), "skip_any_while gave {got:?} of {m:?}");
			ensure_eq!(
				got.iter().filter(|x| **x % k == 0).count(),
				m.iter().filter(|x| **x % k == 0).count(),
				"skip_any_while drops nothing that fails the predicate"
			);
			if m.iter().all(|x| x % k != 0) {
				ensure!(got.is_empty(), "skip_any_while kept {got:?}");
			}
			Ok(())
		}
		18 => {
			// the same set whatever the order
			let it = p.collect::<Vec<_>>().into_iter().par_bridge();
			let got: Vec<u64> = it.map(|x| x + 1).collect();
			ensure_eq!(sorted(&got), sorted(&m.iter().map(|x| x + 1).collect::<Vec<_>>()), "par_bridge");
			Ok(())
		}
		_ => unreachable!(),
	}
}

const INDEXED: usize = 9;

/// One adaptor of `IndexedParallelIterator`, then a few consumers.
fn indexed<P: IndexedParallelIterator<Item = u64>>(c: &mut Case, which: usize, p: P, m: &[u64]) -> R {
	let con = [0, 1, 2, 10, 15, 29][c.below(6)];
	c.count(&format!("indexed adaptor {which}"), 1);
	match which {
		0 => consume(c, con, p, m),
		1 => {
			let got: Vec<(usize, u64)> = p.enumerate().collect();
			ensure_eq!(got, m.iter().copied().enumerate().collect::<Vec<_>>(), "enumerate");
			Ok(())
		}
		2 => {
			let mut v = vals(c, 10);
			p.collect_into_vec(&mut v);
			ensure_eq!(v, m.to_vec(), "collect_into_vec");
			Ok(())
		}
		3 => {
			let o = vals(c, 40);
			let e: Vec<(u64, u64)> = m.iter().copied().zip(o.iter().copied()).collect();
			let got: Vec<(u64, u64)> = p.zip(o).collect();
			ensure_eq!(got, e, "zip");
			Ok(())
		}
		4 => {
			let s = 1 + c.below(m.len() + 3);
			consume(c, con, p.step_by(s), &m.iter().copied().step_by(s).collect::<Vec<_>>())
		}
		5 => {
			let s = 1 + c.below(m.len() + 3);
			let got: Vec<Vec<u64>> = p.chunks(s).collect();
			ensure_eq!(got, m.chunks(s).map(|x| x.to_vec()).collect::<Vec<_>>(), "chunks({s})");
			Ok(())
		}
		6 => {
			let n = c.below(m.len() + 3);
			consume(c, con, p.take(n), &m[..n.min(m.len())])
		}
		7 => {
			let n = c.below(m.len() + 3);
			if c.flip() { consume(c, con, p.with_min_len(n), m) } else { consume(c, con, p.with_max_len(n), m) }
		}
		8 => {
			// several layers: enumerate, zip, map, chunks
			let o = vals(c, 40);
			let s = 1 + c.below(7);
			let e: Vec<Vec<u64>> = m
				.iter()
				.zip(&o)
				.enumerate()
				.map(|(i, (a, b))| a * 3 + b * 5 + i as u64)
				.collect::<Vec<_>>()
				.chunks(s)
				.map(|x| x.to_vec())
				.collect();
			let got: Vec<Vec<u64>> =
				p.zip(&o[..]).enumerate().map(|(i, (a, b))| a * 3 + b * 5 + i as u64).chunks(s).collect();
			ensure_eq!(got, e, "zip, enumerate, map, chunks");
			Ok(())
		}
		_ => unreachable!(),
	}
}

const SOURCES: usize = 8;

fn source(c: &mut Case, which: usize, idx: usize) -> R {
	c.count(&format!("source {which}"), 1);
	match which {
		0 => {
			let v = vals(c, 60);
			indexed(c, idx, v.clone().into_par_iter(), &v)
		}
		1 => {
			let v = vals(c, 60);
			indexed(c, idx, v.par_iter().map(|x| *x), &v)
		}
		2 => {
			let mut v = vals(c, 60);
			let m: Vec<u64> = v.iter().map(|x| x + 1).collect();
			indexed(c, idx, v.par_iter_mut().map(|x| { *x += 1; *x }), &m)
		}
		3 => {
			let a: [u64; 13] = std::array::from_fn(|_| c.below(50) as u64);
			indexed(c, idx, a.into_par_iter(), &a)
		}
		4 => {
			let (lo, n) = (c.below(20) as u32, c.below(70) as u32);
			let m: Vec<u64> = (lo..lo + n).map(|x| x as u64).collect();
			indexed(c, idx, (lo..lo + n).into_par_iter().map(|x| x as u64), &m)
		}
		5 => {
			let (a, b, d) = (vals(c, 40), vals(c, 40), vals(c, 40));
			let m: Vec<u64> = a.iter().zip(&b).zip(&d).map(|((x, y), z)| x + 3 * y + 7 * z).collect();
			indexed(c, idx, (a, &b[..], d.par_iter()).into_par_iter().map(|(x, y, z)| x + 3 * y + 7 * z), &m)
		}
		6 => {
			let (v, s) = (vals(c, 60), 1 + c.below(9));
			let f = |x: &[u64]| x.iter().fold(0, |a, b| a * 31 % Q + b);
			match c.below(5) {
				0 => indexed(c, idx, v.par_chunks(s).map(f), &v.chunks(s).map(f).collect::<Vec<_>>()),
				1 => indexed(c, idx, v.par_chunks_exact(s).map(f), &v.chunks_exact(s).map(f).collect::<Vec<_>>()),
				2 => indexed(c, idx, v.par_rchunks(s).map(f), &v.rchunks(s).map(f).collect::<Vec<_>>()),
				3 => indexed(c, idx, v.par_rchunks_exact(s).map(f), &v.rchunks_exact(s).map(f).collect::<Vec<_>>()),
				_ => indexed(c, idx, v.par_windows(s).map(f), &v.windows(s).map(f).collect::<Vec<_>>()),
			}
		}
		7 => {
			let (v, s) = (vals(c, 60), 1 + c.below(9));
			let mut w = v.clone();
			let f = |x: &[u64]| x.iter().fold(0, |a, b| a * 31 % Q + b);
			let g = |x: &mut [u64]| {
				x.reverse();
				f(x)
			};
			let mut mw = v.clone();
			let kind = c.below(4);
			let m: Vec<u64> = match kind {
				0 => mw.chunks_mut(s).map(g).collect(),
				1 => mw.chunks_exact_mut(s).map(g).collect(),
				2 => mw.rchunks_mut(s).map(g).collect(),
				_ => mw.rchunks_exact_mut(s).map(g).collect(),
			};
			let whole = idx <= 1;
			match kind {
				0 => indexed(c, idx, w.par_chunks_mut(s).map(g), &m)?,
				1 => indexed(c, idx, w.par_chunks_exact_mut(s).map(g), &m)?,
				2 => indexed(c, idx, w.par_rchunks_mut(s).map(g), &m)?,
				_ => indexed(c, idx, w.par_rchunks_exact_mut(s).map(g), &m)?,
			}
			if whole && idx == 1 {
				ensure_eq!(w, mw, "mutable chunks {kind} of {s} written back");
			}
			Ok(())
		}
		_ => unreachable!(),
	}
}

fn slices(c: &mut Case) -> R {
	let v = vals(c, 60);
	let k = 2 + c.below(4) as u64;
	c.desc(format!("{v:?} mod {k}"));
	c.obs(&v, v.len() > 1);
	let sep = |x: &u64| x % k == 0;
	let close = |a: &u64, b: &u64| a % k == b % k;
	let own = |x: &[u64]| x.to_vec();
	match c.below(10) {
		0 => ensure_eq!(v.par_split(sep).map(own).collect::<Vec<_>>(), v.split(sep).map(own).collect::<Vec<_>>(), "par_split"),
		1 => ensure_eq!(
			v.par_split_inclusive(sep).map(own).collect::<Vec<_>>(),
			v.split_inclusive(sep).map(own).collect::<Vec<_>>(),
			"par_split_inclusive"
		),
		2 => ensure_eq!(
			v.par_chunk_by(close).map(own).collect::<Vec<_>>(),
			v.chunk_by(close).map(own).collect::<Vec<_>>(),
			"par_chunk_by"
		),
		3 => {
			let (mut a, mut b) = (v.clone(), v.clone());
			a.par_split_mut(sep).for_each(|x| x.reverse());
			b.split_mut(sep).for_each(|x| x.reverse());
			ensure_eq!(a, b, "par_split_mut");
			a.par_split_inclusive_mut(sep).for_each(|x| x.reverse());
			b.split_inclusive_mut(sep).for_each(|x| x.reverse());
			ensure_eq!(a, b, "par_split_inclusive_mut");
		}
		4 => {
			let (mut a, mut b) = (v.clone(), v.clone());
			a.par_chunk_by_mut(close).for_each(|x| x[0] += 1);
			b.chunk_by_mut(close).for_each(|x| x[0] += 1);
			ensure_eq!(a, b, "par_chunk_by_mut");
		}
		5 => {
			let mut a = v.clone();
			if c.flip() { a.par_sort() } else { a.par_sort_unstable() }
			ensure_eq!(a, sorted(&v), "par_sort");
		}
		6 => {
			// stable by key
			let mut a: Vec<(u64, usize)> = v.iter().copied().zip(0..).collect();
			let mut b = a.clone();
			match c.below(3) {
				0 => a.par_sort_by_key(|x| x.0 % k),
				1 => a.par_sort_by(|x, y| (x.0 % k).cmp(&(y.0 % k))),
				_ => a.par_sort_by_cached_key(|x| x.0 % k),
			}
			b.sort_by_key(|x| x.0 % k);
			ensure_eq!(a, b, "stable parallel sort");
		}
		7 => {
			let mut a = v.clone();
			if c.flip() {
				a.par_sort_unstable_by(|x, y| y.cmp(x))
			} else {
				a.par_sort_unstable_by_key(|x| std::cmp::Reverse(*x))
			}
			let mut b = sorted(&v);
			b.reverse();
			ensure_eq!(a, b, "unstable parallel sort");
		}
		8 => {
			let s: HashSet<u64> = v.iter().copied().collect();
			let got: Vec<u64> = s.clone().into_par_iter().collect();
			let mut e: Vec<u64> = s.into_iter().collect();
			e.sort();
			ensure_eq!(sorted(&got), e, "hash set");
		}
		_ => {
			// mutable tuples
			let (mut a, mut b) = (v.clone(), vals(c, 60));
			let (mut ea, mut eb) = (a.clone(), b.clone());
			(&mut a[..], &mut b[..]).into_par_iter().for_each(|(x, y)| {
				std::mem::swap(x, y);
				*x += 1;
			});
			for (x, y) in ea.iter_mut().zip(eb.iter_mut()) {
				std::mem::swap(x, y);
				*x += 1;
			}
			ensure_eq!((a, b), (ea, eb), "tuple of mutable slices");
		}
	}
	Ok(())
}

fn concurrency(c: &mut Case) -> R {
	let (x, y) = (c.below(1000), c.below(1000));
	c.obs((x, y), true);
	ensure_eq!(mr::join(|| x + 1, || y * 2), (x + 1, y * 2), "join");
	let n = c.below(20);
	let total = AtomicU64::new(0);
	let r = mr::scope(|s| {
		for i in 0..n {
			let total = &total;
			s.spawn(move |s| {
				total.fetch_add(i as u64, SeqCst);
				s.spawn(move |_| {
					total.fetch_add(1000, SeqCst);
				});
			});
		}
		x
	});
	ensure_eq!(r, x, "scope returns");
	ensure_eq!(total.into_inner(), (0..n as u64).map(|i| i + 1000).sum::<u64>(), "scope waits for all its tasks");
	let t = 1 + c.below(4);
	if let Ok(pool) = mr::ThreadPoolBuilder::new().num_threads(t).build() {
		let (n, v) = pool.install(|| (mr::current_num_threads(), (0..100u64).into_par_iter().map(|x| x * x).sum::<u64>()));
		ensure_eq!(v, 328350, "install");
		if cfg!(feature = "rayon") {
			ensure_eq!(n, t, "threads of the pool");
		} else {
			ensure_eq!(n, 1, "threads of the stand-in");
		}
		let (l, n) = pool.install(|| (binius_utils::rayon::get_log_max_threads(), mr::current_num_threads()));
		ensure!(1 << l >= n && (l == 0 || 1 << (l - 1) < n), "get_log_max_threads is {l} for {n} threads");
	}
	Ok(())
}

fn array2d(c: &mut Case) -> R {
	let (rows, cols) = (c.below(7), c.below(7));
	c.desc(format!("{rows}x{cols}"));
	c.obs((rows, cols), rows * cols > 1);
	let mut a: Array2D<u64> = if c.flip() { Array2D::new(rows, cols) } else { Array2D::zeroes(rows, cols) };
	let mut m = vec![vec![0u64; cols]; rows];
	ensure_eq!((a.rows(), a.cols()), (rows, cols), "dimensions");
	for _ in 0..c.range(0, 30) {
		match c.below(7) {
			0 | 1 if rows * cols > 0 => {
				let (i, j, v) = (c.below(rows), c.below(cols), c.below(100) as u64);
				a[(i, j)] = v;
				m[i][j] = v;
			}
			2 if rows * cols > 0 => {
				let (i, j, v) = (c.below(rows), c.below(cols), c.below(100) as u64);
				unsafe { *a.get_unchecked_mut(i, j) = v };
				m[i][j] = v;
				ensure_eq!(unsafe { *a.get_unchecked(i, j) }, v, "get_unchecked");
			}
			3 if rows > 0 => {
				let i = c.below(rows);
				for (j, x) in a.get_row_mut(i).iter_mut().enumerate() {
					*x += j as u64 + 1;
				}
				for (j, x) in m[i].iter_mut().enumerate() {
					*x += j as u64 + 1;
				}
			}
			4 => {
				let (r, k) = (c.below(9), c.below(9));
				let flat: Vec<u64> = m.concat();
				let fits = r * k == rows * cols;
				{
					let v = a.reshape(r, k);
					ensure_eq!(v.is_some(), fits, "reshape to {r}x{k}");
					if let Some(v) = v {
						ensure_eq!((v.rows(), v.cols()), (r, k), "reshaped dimensions");
						for i in 0..r {
							ensure_eq!(v.get_row(i), &flat[i * k..(i + 1) * k], "reshaped row {i}");
						}
					}
				}
				if let Some(mut v) = a.reshape_mut(r, k) {
					ensure!(fits, "reshape_mut to {r}x{k}");
					if r * k > 0 {
						let (i, j) = (c.below(r), c.below(k));
						v[(i, j)] += 9;
						let p = i * k + j;
						m[p / cols][p % cols] += 9;
					}
				} else {
					ensure!(!fits, "reshape_mut to {r}x{k}");
				}
			}
			5 => {
				let e: Vec<u64> = (0..cols).map(|j| m.iter().map(|r| r[j]).sum()).collect();
				ensure_eq!(a.sum_rows(), e, "sum_rows");
			}
			6 => {
				// shapes whose product wraps around
				for (r, k) in [(1usize << 63, 2usize), (1 << 32, 1 << 32), (usize::MAX, usize::MAX)] {
					let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.reshape(r, k).is_some()));
					ensure!(!bad.unwrap_or(false), "{rows}x{cols} was reshaped to {r}x{k}");
				}
			}
			_ => {}
		}
		ensure_eq!(a.iter_rows().map(|r| r.to_vec()).collect::<Vec<_>>(), m, "rows");
		for i in 0..rows {
			for j in 0..cols {
				ensure_eq!(a[(i, j)], m[i][j], "element {i},{j}");
			}
		}
	}
	Ok(())
}

fn strided(c: &mut Case) -> R {
	let (h, w) = (c.below(6), 1 + c.below(9));
	let mut data: Vec<u64> = (0..h * w).map(|_| c.below(100) as u64).collect();
	let mut m: Vec<Vec<u64>> = data.chunks(w).map(|x| x.to_vec()).collect();
	let s = 1 + c.below(w + 2);
	c.desc(format!("{h}x{w} stride {s}"));
	c.obs((h, w, s), h * w > 1);
	{
		let (hh, ww) = (c.below(6), c.below(9));
		ensure_eq!(
			StridedArray2DViewMut::without_stride(&mut data, hh, ww).is_ok(),
			hh * ww == h * w,
			"a view of {hh}x{ww} on {} elements",
			h * w
		);
		for (hh, ww) in [(1usize << 63, 2usize), (2, 1 << 63), (usize::MAX, usize::MAX)] {
			let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				StridedArray2DViewMut::without_stride(&mut data, hh, ww).is_ok()
			}));
			ensure!(!bad.unwrap_or(false), "a view of {hh}x{ww} on {} elements", h * w);
		}
	}
	let kind = c.below(4);
	{
		let mut v = StridedArray2DViewMut::without_stride(&mut data, h, w).map_err(|e| e.to_string())?;
		ensure_eq!((v.height(), v.width()), (h, w), "dimensions");
		for i in 0..h {
			for j in 0..w {
				ensure_eq!(v[(i, j)], m[i][j], "element {i},{j}");
			}
		}
		let j = c.below(w);
		let mut n = 0;
		for (i, x) in v.iter_column_mut(j).enumerate() {
			ensure_eq!(*x, m[i][j], "column {j}");
			*x += 1;
			m[i][j] += 1;
			n += 1;
		}
		ensure_eq!(n, h, "length of a column");
		for (i, j) in [(h, 0), (0, w), (h, w)] {
			let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v[(i, j)]));
			ensure!(out.is_err(), "element {i},{j} outside a {h}x{w} view gave {out:?}");
		}
		let touch = |mut v: StridedArray2DViewMut<'_, u64>, col0: usize, k: u64| -> Result<(), String> {
			let ww = v.width();
			for i in 0..v.height() {
				for j in 0..ww {
					v[(i, j)] = v[(i, j)] * 10 + (col0 + j) as u64 + k;
				}
			}
			let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v[(0, ww)]));
			ensure!(out.is_err(), "a vertical slice reached beyond its width");
			Ok(())
		};
		match kind {
			0 => {
				let strides: Vec<_> = v.into_strides(s).collect();
				ensure_eq!(strides.len(), w.div_ceil(s), "number of slices");
				for (k, v) in strides.into_iter().enumerate() {
					ensure_eq!((v.height(), v.width()), (h, s.min(w - k * s)), "slice {k}");
					touch(v, k * s, 0)?;
				}
			}
			1 => {
				let errs: Vec<Result<(), String>> = v
					.into_par_strides(s)
					.map(|v| {
						let ww = v.width();
						ensure!(ww <= s && ww > 0, "width {ww}");
						touch(v, 0, 0)
					})
					.collect();
				ensure_eq!(errs.len(), w.div_ceil(s), "number of slices");
				for e in errs {
					e?;
				}
			}
			2 => {
				// slices of slices
				let s2 = 1 + c.below(4);
				for (k, v) in v.into_strides(s).collect::<Vec<_>>().into_iter().enumerate() {
					for (l, v) in v.into_strides(s2).collect::<Vec<_>>().into_iter().enumerate() {
						touch(v, k * s + l * s2, 0)?;
					}
				}
			}
			_ => {
				// a stride beyond any width gives the whole remaining slice
				for (k, v) in v.into_strides(s).collect::<Vec<_>>().into_iter().enumerate() {
					let ww = v.width();
					let huge = c.pick(&[usize::MAX, usize::MAX - 1, 1 << 63]);
					let parts: Vec<_> = v.into_strides(huge).collect();
					ensure_eq!(parts.len(), 1, "a stride of {huge}");
					for v in parts {
						ensure_eq!(v.width(), ww, "a stride of {huge}");
						touch(v, k * s, 0)?;
					}
				}
			}
		}
	}
	for (i, row) in m.iter_mut().enumerate() {
		for (j, x) in row.iter_mut().enumerate() {
			*x = *x * 10 + if kind == 1 { j % s } else { j } as u64;
		}
		ensure_eq!(&data[i * w..(i + 1) * w], &row[..], "row {i} after writing through the slices");
	}
	Ok(())
}

fn sparse(c: &mut Case) -> R {
	let mut s: SparseIndex<String> = if c.flip() { SparseIndex::new() } else { SparseIndex::with_capacity(c.below(10)) };
	let mut m: BTreeMap<usize, String> = BTreeMap::new();
	let steps = c.range(1, 40);
	for t in 0..steps {
		let id = c.below(24);
		let val = format!("v{t}");
		match c.below(9) {
			0..=2 => {
				s.set(id, val.clone());
				m.insert(id, val);
			}
			3 => ensure_eq!(s.entry(id).or_insert(val.clone()), m.entry(id).or_insert(val), "or_insert"),
			4 => {
				let mut called = false;
				let e = m.contains_key(&id);
				let got = s
					.entry(id)
					.or_insert_with(|| {
						called = true;
						val.clone()
					})
					.clone();
				ensure_eq!(called, !e, "or_insert_with calls its closure only when vacant");
				ensure_eq!(got, m.entry(id).or_insert(val).clone(), "or_insert_with");
			}
			5 => {
				let e = m.get_mut(&id);
				let g = s.get_mut(id);
				ensure_eq!(g.is_some(), e.is_some(), "get_mut");
				if let (Some(g), Some(e)) = (g, e) {
					g.push('!');
					e.push('!');
				}
				if m.contains_key(&id) {
					s[id].push('?');
					m.get_mut(&id).unwrap().push('?');
				} else {
					let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s[id].len()));
					ensure!(r.is_err(), "indexing a vacant id gave a value");
				}
			}
			6 => {
				for (i, v) in s.iter_mut() {
					v.push_str(&i.to_string());
				}
				for (i, v) in m.iter_mut() {
					v.push_str(&i.to_string());
				}
			}
			7 => {
				s.values_mut().for_each(|v| v.push('x'));
				m.values_mut().for_each(|v| v.push('x'));
			}
			_ => {
				s = s.into_iter().collect();
			}
		}
		ensure_eq!(s.get(id), m.get(&id), "get({id})");
		ensure_eq!(s.contains_key(id), m.contains_key(&id), "contains_key({id})");
		let far = id + c.pick(&[0usize, 100, usize::MAX / 2]);
		ensure_eq!(s.get(far), m.get(&far), "get({far})");
		ensure_eq!(s.contains_key(far), m.contains_key(&far), "contains_key({far})");
		ensure_eq!(s.len(), m.len(), "len");
		ensure_eq!(s.is_empty(), m.is_empty(), "is_empty");
		ensure_eq!(s.iter().collect::<Vec<_>>(), m.iter().map(|(a, b)| (*a, b)).collect::<Vec<_>>(), "iter");
		ensure_eq!(s.iter().rev().collect::<Vec<_>>(), m.iter().rev().map(|(a, b)| (*a, b)).collect::<Vec<_>>(), "iter reversed");
		ensure_eq!(s.keys().collect::<Vec<_>>(), m.keys().copied().collect::<Vec<_>>(), "keys");
		ensure_eq!(s.values().collect::<Vec<_>>(), m.values().collect::<Vec<_>>(), "values");
	}
	let cl = s.clone();
	ensure_eq!(cl.into_iter().collect::<Vec<_>>(), m.clone().into_iter().collect::<Vec<_>>(), "into_iter of a clone");
	c.desc(format!("{m:?}"));
	c.obs(m.keys().collect::<Vec<_>>(), m.len() > 1);
	c.count("operations", steps as u64);
	Ok(())
}

fn sequences(c: &mut Case) -> R {
	let mut v = vals(c, 30);
	let n = v.len();
	let (o, l) = (c.below(n + 1), 0);
	let l = l + c.below(n - o + 1);
	c.desc(format!("{n} elements, subrange {o}+{l}"));
	c.obs((n, o, l), l > 1);
	let mut m = v.clone();
	let read = |s: &dyn Fn(usize) -> u64, i: usize| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s(i))).ok();
	{
		let s: &[u64] = &v;
		let sub = SequenceSubrange::new(&s, o, l);
		ensure_eq!(sub.len(), l, "length");
		ensure_eq!(sub.is_empty(), l == 0, "is_empty");
		for i in 0..l + 3 {
			ensure_eq!(read(&|i| sub.get(i), i), m[o..o + l].get(i).copied(), "get({i})");
		}
		ensure_eq!(read(&|i| sub.get(i), usize::MAX), None, "get(usize::MAX)");
		ensure_eq!(read(&|i| sub.get(i), (usize::MAX - o).wrapping_add(1).max(l)), None, "an index that wraps around");
		let o2 = c.below(l + 1);
		let l2 = c.below(l - o2 + 1);
		let sub2 = SequenceSubrange::new(&sub, o2, l2);
		for i in 0..l2 + 2 {
			ensure_eq!(read(&|i| sub2.get(i), i), m[o + o2..o + o2 + l2].get(i).copied(), "nested get({i})");
		}
		for (bo, bl) in [(n, 1), (0, n + 1), (usize::MAX, 1), (usize::MAX, 2), (2, usize::MAX), (1, usize::MAX)] {
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				SequenceSubrange::new(&s, bo, bl);
			}));
			ensure!(r.is_err(), "a subrange {bo}+{bl} of {n} elements was accepted");
		}
	}
	{
		let mut s: &mut [u64] = &mut v;
		for (bo, bl) in [(n, 1), (0, n + 1), (usize::MAX, 1), (usize::MAX, 2), (2, usize::MAX)] {
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				SequenceSubrangeMut::new(&mut s, bo, bl);
			}));
			ensure!(r.is_err(), "a mutable subrange {bo}+{bl} of {n} elements was accepted");
		}
		let mut sub = SequenceSubrangeMut::new(&mut s, o, l);
		ensure_eq!(sub.len(), l, "mutable length");
		for i in 0..l {
			if c.flip() {
				let x = c.below(1000) as u64;
				sub.set(i, x);
				m[o + i] = x;
			}
			ensure_eq!(sub.get(i), m[o + i], "get({i})");
		}
		if l > 1 {
			let mut sub2 = SequenceSubrangeMut::new(&mut sub, 1, l - 1);
			sub2.set(l - 2, 5);
			m[o + l - 1] = 5;
		}
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sub.set(l, 1)));
		ensure!(r.is_err(), "a write beyond the subrange was accepted");
	}
	ensure_eq!(v, m, "contents after writing through the subrange");
	Ok(())
}

fn sorts(c: &mut Case) -> R {
	let v = vals(c, 40);
	let desc = c.flip();
	let k = 1 + c.below(12) as u64;
	c.desc(format!("{v:?} by mod {k}, descending {desc}"));
	c.obs(&v, v.len() > 1);
	let (ids, objs) = stable_sort(v.iter().copied(), |x| (*x % k) as usize, desc);
	let mut e: Vec<usize> = (0..v.len()).collect();
	e.sort_by_key(|i| ((if desc { -1 } else { 1 }) * (v[*i] % k) as i64, *i));
	ensure_eq!(ids, e, "order of indices");
	ensure_eq!(objs, e.iter().map(|i| v[*i]).collect::<Vec<_>>(), "order of objects");
	ensure_eq!(unsort(ids.clone(), objs.clone()), v, "unsort after sort");
	// unsort inverts any permutation
	let mut perm: Vec<usize> = (0..v.len()).collect();
	for i in (1..perm.len()).rev() {
		let j = c.below(i + 1);
		perm.swap(i, j);
	}
	ensure_eq!(unsort(perm.clone(), perm.iter().map(|i| v[*i])), v, "unsort of a permutation");
	ensure_eq!(is_sorted_ascending(v.iter()), v.windows(2).all(|w| w[0] <= w[1]), "is_sorted_ascending");
	ensure!(is_sorted_ascending(sorted(&v).iter()), "a sorted list is sorted");
	Ok(())
}

fn graph(c: &mut Case) -> R {
	let n = 1 + c.below(30);
	let sets: Vec<Vec<usize>> = (0..c.below(20))
		.map(|_| {
			let k = c.below(5);
			(0..k).map(|_| c.below(n)).collect()
		})
		.collect();
	c.desc(format!("{sets:?}"));
	c.obs(&sets, sets.len() > 1);
	let got = connected_components(&sets);
	let max = sets.iter().flatten().max();
	let Some(&max) = max else {
		// no node at all
		ensure!(got.iter().enumerate().all(|(i, x)| i == *x), "components of no edges: {got:?}");
		return Ok(());
	};
	let mut label: Vec<usize> = (0..=max).collect();
	loop {
		let before = label.clone();
		for s in &sets {
			if let Some(lo) = s.iter().map(|i| label[*i]).min() {
				for i in s {
					label[*i] = lo;
				}
			}
		}
		if before == label {
			break;
		}
	}
	ensure_eq!(got, label, "smallest node of each component");
	Ok(())
}

fn arith(c: &mut Case) -> R {
	let x = match c.below(6) {
		0 => 1usize << c.below(64),
		1 => (1usize << c.below(64)).wrapping_sub(1),
		2 => (1usize << c.below(64)).wrapping_add(1),
		3 => c.below(70),
		4 => usize::MAX - c.below(3),
		_ => c.u128() as usize,
	};
	c.desc(format!("{x}"));
	c.obs(x, x > 1);
	let log = (0..64).find(|i| 1u128 << i == x as u128);
	let catch = |f: &dyn Fn() -> usize| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
	ensure_eq!(strict_log_2(x), log, "strict_log_2");
	ensure_eq!(catch(&|| checked_log_2(x)), log, "checked_log_2");
	ensure_eq!(catch(&|| log2_strict_usize(x)), log, "log2_strict_usize");
	let ceil = (0..=64).find(|i| 1u128 << i >= x as u128).unwrap();
	ensure_eq!(log2_ceil_usize(x), ceil, "log2_ceil_usize");
	ensure_eq!(min_bits(x), (0..=64).find(|i| (x as u128) < 1u128 << i).unwrap(), "min_bits");
	let d = if c.flip() { c.below(9) } else { c.u128() as usize };
	let y = if c.flip() && d > 0 { x / d * d } else { x };
	ensure_eq!(catch(&|| checked_int_div(y, d)), (d != 0 && y % d == 0).then(|| y / d), "checked_int_div({y}, {d})");
	Ok(())
}

fn skippable(c: &mut Case) -> R {
	let v = vals(c, 30);
	c.obs(&v, v.len() > 1);
	let calls = std::cell::Cell::new(0);
	let mut it = v.iter().map_skippable(|x| {
		calls.set(calls.get() + 1);
		x * 2 + 1
	});
	let mut m = v.iter().map(|x| x * 2 + 1);
	let mut expected = 0;
	for _ in 0..c.range(1, 12) {
		ensure_eq!(it.size_hint(), m.size_hint(), "size_hint");
		ensure_eq!(it.len(), m.len(), "len");
		let (a, b) = match c.below(3) {
			0 => (it.next(), m.next()),
			1 => {
				let n = c.below(6);
				(it.nth(n), m.nth(n))
			}
			_ => {
				let n = c.below(4);
				let (mut x, mut y) = (it.clone().skip(n).step_by(2), m.clone().skip(n).step_by(2));
				let before = calls.get();
				ensure_eq!(x.next(), y.next(), "skip and step");
				ensure!(calls.get() <= before + 1, "skipping evaluated the skipped elements");
				calls.set(before);
				continue;
			}
		};
		ensure_eq!(a, b, "value");
		expected += a.is_some() as usize;
		ensure_eq!(calls.get(), expected, "calls of the closure");
	}
	ensure_eq!(it.clone().fold(7u64, |a, x| a * 3 % Q + x), m.clone().fold(7u64, |a, x| a * 3 % Q + x), "fold");
	ensure_eq!(it.collect::<Vec<_>>(), m.collect::<Vec<_>>(), "rest");
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C26");
	let n = m.n(60, 1500);
	m.par("array 2d", m.n(300, 6000), array2d);
	m.par("strided array", m.n(600, 12000), strided);
	m.par("sparse index", m.n(300, 6000), sparse);
	m.par("sequences", m.n(500, 10000), sequences);
	m.par("sorting", m.n(500, 10000), sorts);
	m.par("connected components", m.n(500, 10000), graph);
	m.par("checked arithmetic", m.n(2000, 40000), arith);
	m.par("skippable map", m.n(500, 10000), skippable);
	m.par("parallel slices", 10 * n, slices);
	m.seq("join, scope, pools", m.n(40, 600), concurrency);
	for which in 0..ADAPTORS {
		m.par(&format!("adaptor {which}"), 4 * n, |c| {
			let big = c.below(16) == 0;
		let v = vals(c, if big { 3000 } else { 60 });
			c.desc(format!("{} values {:?}", v.len(), &v[..v.len().min(60)]));
			c.obs(&v, v.len() > 1);
			adapt(c, which, v.clone().into_par_iter(), &v)
		});
	}
	m.par("consumers", n * CONSUMERS as u64, |c| {
		let big = c.below(16) == 0;
		let v = vals(c, if big { 3000 } else { 60 });
		let which = c.below(CONSUMERS);
		c.desc(format!("consumer {which} of {:?}", &v[..v.len().min(60)]));
		c.obs((which, &v), v.len() > 1);
		consume(c, which, v.clone().into_par_iter(), &v)
	});
	m.par("sources", n * 30, |c| {
		let (s, i) = (c.below(SOURCES), c.below(INDEXED));
		c.desc(format!("source {s}, indexed adaptor {i}"));
		let salt = c.u128();
		c.obs((s, i, salt), true);
		source(c, s, i)
	});
	m.finish();
}
