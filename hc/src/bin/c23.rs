//! C23: what is declared and filled is what the witness holds, however it is filled.
use std::sync::Mutex;

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::constraint_system::validate::validate_witness;
use binius_field::{
	PackedFieldIndexable, PackedSubfield,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::get_packed_slice,
};
use binius_m3::builder::{B1, B8, B16, B32, B64, B128, Col, Error, test_utils::ClosureFiller, *};
use binius_maybe_rayon::prelude::*;
use hc::{pv::*, sysgen::*, *};

/// One call of a filler: segment index, log of the segment size, the events it got.
type Call = (usize, usize, Vec<usize>);

fn log_filler<'a, P: Pk>(s: &'a Sys, t: usize, log: &'a Mutex<Vec<Call>>) -> (ClosureFiller<'a, P, usize>, TableId) {
	let id = s.tabs[t].id;
	let inner = s.filler::<P>(t);
	(
		ClosureFiller::new(id, move |events: &[usize], seg: &mut TableWitnessSegment<P>| {
			log.lock().unwrap().push((seg.index(), seg.log_size(), events.to_vec()));
			inner.fill(events, seg)
		}),
		id,
	)
}

/// Every row is handed out exactly once, at its own position; padding is some row that exists.
fn trace(calls: &[Call], size: usize, mode: &str) -> Res {
	let mut seen = vec![0u32; size];
	let mut segs: Vec<usize> = calls.iter().map(|c| c.0).collect();
	segs.sort();
	let n = segs.len();
	segs.dedup();
	ensure!(segs.len() == n, "{mode}: a segment was filled twice");
	for (index, log, ev) in calls {
		ensure_eq!(ev.len(), 1 << log, "{mode}: events for segment {index}");
		for (r, e) in ev.iter().enumerate() {
			let pos = (index << log) + r;
			if pos < size {
				ensure_eq!(*e, pos, "{mode}: event at row {pos}");
				seen[pos] += 1;
			} else {
				ensure!(*e < size, "{mode}: padding event {e}");
			}
		}
	}
	ensure!(seen.iter().all(|x| *x == 1), "{mode}: rows handed out {seen:?}");
	Ok(())
}

fn fill_one<'cs, 'alloc, P: Pk>(c: &mut Case, s: &'cs Sys, t: usize, w: &mut WitnessIndex<'cs, 'alloc, P>) -> Res
where
	P: Sync,
{
	let tab = &s.tabs[t];
	let log = Mutex::new(vec![]);
	let (filler, id) = log_filler::<P>(s, t, &log);
	let events: Vec<usize> = (0..tab.size).collect();
	let l = c.below(15);
	let mode = c.below(8);
	let name = ["sequential", "parallel", "sequential-sized", "parallel-sized", "segments", "par-segments", "init-sequential", "init-parallel"][mode];
	if tab.size == 0 {
		match mode % 2 {
			0 => w.fill_table_sequential(&filler, &events).map_err(es)?,
			_ => w.fill_table_parallel(&filler, &events).map_err(es)?,
		}
		ensure!(w.get_table(id).is_none(), "filling no rows created a table");
		ensure!(log.lock().unwrap().is_empty(), "the filler ran without rows");
		return Ok(());
	}
	let at = |pos: usize| pos.min(tab.size - 1);
	match mode {
		0 => w.fill_table_sequential(&filler, &events).map_err(es)?,
		1 => w.fill_table_parallel(&filler, &events).map_err(es)?,
		_ => {
			let ti = w.init_table(id, tab.size).map_err(es)?;
			ensure_eq!(ti.size(), tab.size, "size");
			ensure_eq!(ti.capacity(), tab.cap(), "capacity");
			match mode {
				2 => ti.fill_sequential_with_segment_size(&filler, &events, l).map_err(es)?,
				3 => ti.fill_parallel_with_segment_size(&filler, &events, l).map_err(es)?,
				4 => {
					let mut n = 0;
					let mut lg = 0;
					for mut seg in ti.segments(l) {
						lg = seg.log_size();
						ensure_eq!(seg.index(), n, "index of a segment");
						let ev: Vec<usize> = (0..seg.size()).map(|r| at((seg.index() << lg) + r)).collect();
						filler.fill(&ev, &mut seg).map_err(es)?;
						n += 1;
					}
					ensure_eq!(n << lg, tab.cap(), "rows covered by segments({l})");
				}
				5 => {
					let got: Vec<Result<(usize, usize), String>> = ti
						.par_segments(l)
						.map(|mut seg| {
							let lg = seg.log_size();
							let ev: Vec<usize> = (0..seg.size()).map(|r| at((seg.index() << lg) + r)).collect();
							filler.fill(&ev, &mut seg).map_err(es)?;
							Ok((seg.index(), lg))
						})
						.collect();
					let mut rows = 0;
					for (k, g) in got.into_iter().enumerate() {
						let (i, lg) = g?;
						ensure_eq!(i, k, "order of parallel segments");
						rows += 1 << lg;
					}
					ensure_eq!(rows, tab.cap(), "rows covered by par_segments({l})");
				}
				6 => w.fill_table_sequential(&filler, &events).map_err(es)?,
				_ => w.fill_table_parallel(&filler, &events).map_err(es)?,
			}
		}
	}
	c.count(name, 1);
	let mut calls = std::mem::take(&mut *log.lock().unwrap());
	calls.sort();
	c.count("segments-filled", calls.len() as u64);
	if calls.len() > 1 {
		c.count("multi-segment-tables", 1);
	}
	trace(&calls, tab.size, name)
}

fn fills<U: Und>(c: &mut Case) -> Res
where
	PackedType<U, B128>: Sync,
{
	type Pt<U> = PackedType<U, B128>;
	let big = c.below(3) == 0;
	let o = if big { Opts { tables: 2, max_log_size: 11, steps: 3, exps: true } } else { Opts { tables: 3, max_log_size: 6, steps: 8, exps: true } };
	let s = Sys::generate(c, &o);
	c.desc(format!("U={} {}", U::NAME, s.describe()));
	c.key(format!("{}{big}{}", U::NAME, s.features.join(",")));
	let bits: usize = s.tabs.iter().map(|t| t.cols.iter().map(|x| ((t.cap() << (x.logv + x.lvl as usize)).max(512) / 128) * (t.size > 0) as usize).sum::<usize>()).sum();
	let mut mem = CpuComputeAllocator::<Pt<U>>::new(bits + 64);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<Pt<U>>::new(&s.cs, &alloc);
	for t in 0..s.tabs.len() {
		fill_one::<Pt<U>>(c, &s, t, &mut w)?;
	}
	w.fill_constant_cols().map_err(es)?;
	c.obs((U::NAME, s.describe()), true);
	ensure_eq!(w.table_sizes(), s.tabs.iter().map(|t| t.size).collect::<Vec<_>>(), "table sizes");
	let full = s.read_back(&mut w)?;
	for (t, tab) in s.tabs.iter().enumerate() {
		for (i, col) in tab.cols.iter().enumerate() {
			let n = tab.size * col.v();
			if tab.size > 0 && full[t][i][..n] != tab.vals[i][..n] {
				let p = (0..n).find(|p| full[t][i][*p] != tab.vals[i][*p]).unwrap();
				fail!("t{t} column {i} ({}) row {} holds {:x} instead of {:x}", def_name(&col.def), p / col.v(), full[t][i][p], tab.vals[i][p]);
			}
			c.count("cells", n as u64);
		}
	}
	// padding rows must be valid rows and count for nothing
	s.check(&full, true, true).map_err(|e| format!("the filled contents violate the declarations: {e}"))?;
	let sizes = w.table_sizes();
	let ccs = s.cs.compile().map_err(es)?;
	let bounds = s.boundaries.clone();
	let ix = w.into_multilinear_extension_index();
	no_panic(|| validate_witness(&ccs, &bounds, &sizes, &ix).map_err(es)).map_err(|e| format!("a witness filled with valid rows is refused: {e}"))?;
	// the witness handed to the prover: the user's columns, in order of declaration
	let mut have: Vec<Vec<u128>> = vec![];
	for id in ccs.oracles.ids() {
		if matches!(ccs.oracles[id].variant, binius_core::oracle::SymbolicMultilinearPolyVariant::Committed) {
			if let Ok(p) = ix.get_multilin_poly(id) {
				have.push((0..1 << p.n_vars()).map(|i| p.evaluate_on_hypercube(i).map(|x| x.val()).map_err(es)).collect::<Result<_, _>>()?);
			}
		}
	}
	let mut want: Vec<Vec<u128>> = vec![];
	for (t, tab) in s.tabs.iter().enumerate().filter(|(_, t)| t.size > 0) {
		let _ = tab;
		for (i, col) in tab.cols.iter().enumerate() {
			if col.committed() || col.exp() {
				want.push(full[t][i].clone());
			}
		}
	}
	ensure!(have == want, "the committed columns of the witness index are not the filled columns in order ({} against {})", have.len(), want.len());
	c.count("committed-columns-compared", want.len() as u64);
	Ok(())
}

/// Padding rows: any valid rows will do.
fn padding<U: Und>(c: &mut Case) -> Res {
	let o = Opts { tables: 2, max_log_size: 4, steps: 5, exps: true };
	let s = Sys::generate(c, &o);
	c.desc(format!("U={} {}", U::NAME, s.describe()));
	let mut full = s.full();
	let mut moved = 0;
	for (t, tab) in s.tabs.iter().enumerate() {
		if tab.size == 0 {
			continue;
		}
		for r in tab.size..tab.cap() {
			let from = c.below(tab.size);
			for (i, col) in tab.cols.iter().enumerate() {
				let v = col.v();
				for j in 0..v {
					full[t][i][r * v + j] = full[t][i][from * v + j];
				}
			}
			moved += 1;
		}
	}
	if moved == 0 || s.check(&full, true, true).is_err() {
		return Ok(());
	}
	c.key(s.features.join(","));
	c.obs((U::NAME, s.describe()), true);
	let p = Params { rate: 1, sec: 20 };
	let bounds = s.boundaries.clone();
	let small = s.committed_elems() * 128 < U::BITS.max(256);
	let mut n = 0;
	with_witness::<U, Res>(&s, &full, |ccs, sizes, w| {
		no_panic(|| validate_witness(ccs, &bounds, sizes, &w).map_err(es)).map_err(|e| format!("valid rows as padding are refused by validation: {e}"))?;
		if small {
			return Ok(());
		}
		n += 1;
		let d = ccs.digest::<binius_hash::groestl::Groestl256>();
		let proof = no_panic(|| prove::<U>(ccs, p, &d, &bounds, sizes, w)).map_err(|e| format!("proving with other padding failed: {e}"))?;
		no_panic(|| verify::<U>(ccs, p, &d, &bounds, &proof)).map_err(|e| format!("a proof with other padding was rejected: {e}"))
	})??;
	c.count("padding-rows-replaced", moved);
	c.count("proved-with-other-padding", n);
	Ok(())
}

macro_rules! refuse {
	($r:expr, $pat:pat, $($m:tt)*) => {
		match guard(|| $r) {
			Err(e) => fail!("{}: panicked: {e}", format!($($m)*)),
			Ok(Ok(_)) => fail!("{}: accepted", format!($($m)*)),
			Ok(Err($pat)) => {}
			#[allow(unreachable_patterns)]
			Ok(Err(e)) => fail!("{}: wrong error {e}", format!($($m)*)),
		}
	};
}

fn refused<U: Und>(c: &mut Case) -> Res
where
	PackedType<U, B128>: Sync + PackedFieldIndexable,
{
	let o = Opts { tables: 3, max_log_size: 5, steps: 3, exps: true };
	let s = Sys::generate(c, &o);
	c.desc(format!("U={} {}", U::NAME, s.describe()));
	c.obs((U::NAME, s.describe()), true);
	let mut mem = CpuComputeAllocator::<PackedType<U, B128>>::new(1 << 16);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<PackedType<U, B128>>::new(&s.cs, &alloc);
	let t = c.below(s.tabs.len());
	let tab = &s.tabs[t];
	let size = tab.size.max(1);
	refuse!(w.init_table(s.tabs.len() + c.below(3), 1).map(|_| ()), Error::MissingTable { .. }, "unknown table");
	refuse!(w.init_table(tab.id, 0).map(|_| ()), Error::EmptyTable { .. }, "empty table");
	ensure!(w.get_table(tab.id).is_none(), "a refused table exists");
	w.init_table(tab.id, size).map_err(es)?;
	refuse!(w.init_table(tab.id, size).map(|_| ()), Error::TableIndexAlreadyInitialized { .. }, "second initialisation");
	// a wrong number of rows
	let wrong = c.pick(&[0, size - 1, size + 1, size.next_power_of_two() + 1, 2 * size]);
	if wrong != size {
		let events = vec![0usize; wrong];
		let called = Mutex::new(0);
		let f = ClosureFiller::<PackedType<U, B128>, usize>::new(tab.id, |_, _| {
			*called.lock().unwrap() += 1;
			Ok(())
		});
		refuse!(w.fill_table_sequential(&f, &events), Error::IncorrectNumberOfTableEvents { .. }, "{wrong} events for {size} rows");
		refuse!(w.fill_table_parallel(&f, &events), Error::IncorrectNumberOfTableEvents { .. }, "{wrong} events for {size} rows in parallel");
		let l = c.below(8);
		let ti = w.get_table(tab.id).ok_or("gone")?;
		refuse!(ti.fill_sequential_with_segment_size(&f, &events, l), Error::IncorrectNumberOfTableEvents { .. }, "{wrong} events for {size} rows");
		refuse!(ti.fill_parallel_with_segment_size(&f, &events, l), Error::IncorrectNumberOfTableEvents { .. }, "{wrong} events for {size} rows");
		ensure!(*called.lock().unwrap() == 0, "the filler ran for a refused fill");
	}
	// a filler that fails on one segment
	{
		let cap = size.next_power_of_two();
		let l = c.below(6);
		let bad = c.below(size);
		let f = ClosureFiller::<PackedType<U, B128>, usize>::new(tab.id, |ev, _| if ev.contains(&bad) { anyhow::bail!("no") } else { Ok(()) });
		let events: Vec<usize> = (0..size).collect();
		let ti = w.get_table(tab.id).ok_or("gone")?;
		ensure_eq!(ti.capacity(), cap, "capacity");
		refuse!(ti.fill_sequential_with_segment_size(&f, &events, l), Error::TableFill(_), "a failing filler");
		refuse!(ti.fill_parallel_with_segment_size(&f, &events, l), Error::TableFill(_), "a failing filler in parallel");
		refuse!(w.fill_table_parallel(&f, &events), Error::TableFill(_), "a failing filler in parallel");
	}
	// a value that does not fit its column
	{
		let ti = w.get_table(tab.id).ok_or("gone")?;
		let seg = ti.full_segment();
		for col in tab.cols.iter().filter(|x| x.lvl < 7 && !matches!(x.def, Def::Packed { .. })) {
			let bits = 1u32 << col.lvl;
			let sh = bits + c.below(128 - bits as usize) as u32;
			let big = 1u128 << sh | (c.u128() & mask(col.lvl));
			let mut m = seg.get_dyn_mut(col.id).map_err(es)?;
			refuse!(m.set(0, B128::new(big)), Error::FieldElementTooBig, "{big:x} in a column of level {}", col.lvl);
			c.count("oversized-values", 1);
			// a column already borrowed
			refuse!(seg.get_dyn(col.id).map(|_| ()), Error::WitnessBorrow(_), "reading a column being written");
		}
	}
	Ok(())
}

struct Typed {
	cs: ConstraintSystem<B128>,
	ids: [TableId; 2],
	b1x1: Col<B1>,
	b1x32: Col<B1, 32>,
	b8x4: Col<B8, 4>,
	b8b: Col<B8, 4>,
	b32: Col<B32>,
	b32b: Col<B32>,
	b64: Col<B64, 2>,
	b128: Col<B128>,
	packed: Col<B32>,
	other: Col<B32>,
	others: Vec<Col<B32>>,
}

fn accessors<U: Und>(c: &mut Case) -> Res
where
	PackedType<U, B128>: PackedFieldIndexable,
	PackedSubfield<PackedType<U, B128>, B8>: PackedFieldIndexable,
	PackedSubfield<PackedType<U, B128>, B32>: PackedFieldIndexable,
	PackedSubfield<PackedType<U, B128>, B64>: PackedFieldIndexable,
{
	type Pt<U> = PackedType<U, B128>;
	let mut cs = ConstraintSystem::<B128>::new();
	let y = {
		let mut tb = cs.add_table("a");
		let id = tb.id();
		let b1x1 = tb.add_committed::<B1, 1>("b1x1");
		let b1x32 = tb.add_committed::<B1, 32>("b1x32");
		let b8x4 = tb.add_committed::<B8, 4>("b8x4");
		let b8b = tb.add_committed::<B8, 4>("b8b");
		let b32 = tb.add_committed::<B32, 1>("b32");
		let b32b = tb.add_committed::<B32, 1>("b32b");
		let b64 = tb.add_committed::<B64, 2>("b64");
		let b128 = tb.add_committed::<B128, 1>("b128");
		let packed = tb.add_packed::<B1, 32, B32, 1>("packed", b1x32);
		let mut tb = cs.add_table("b");
		let id2 = tb.id();
		let others: Vec<Col<B32>> = (0..c.range(1, 12)).map(|i| tb.add_committed::<B32, 1>(format!("o{i}"))).collect();
		let other = others[c.below(others.len())];
		Typed { cs, ids: [id, id2], b1x1, b1x32, b8x4, b8b, b32, b32b, b64, b128, packed, other, others }
	};
	let size = c.range(1, 700);
	let size2 = c.range(1, 9);
	let lg = c.below(11);
	c.desc(format!("U={} size={size} segment=2^{lg}", U::NAME));
	c.key(format!("{}{}{lg}", U::NAME, size.ilog2()));
	c.obs((U::NAME, size, lg), size > 1);
	let mut mem = CpuComputeAllocator::<Pt<U>>::new(1 << 13);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<Pt<U>>::new(&y.cs, &alloc);
	w.init_table(y.ids[1], size2).map_err(es)?;
	let cap = size.next_power_of_two();
	let ti = w.init_table(y.ids[0], size).map_err(es)?;
	// random contents, written by bytes, by scalars and by packed words
	let r: Vec<u128> = (0..cap * 8).map(|_| c.u128()).collect();
	let at = |col: usize, row: usize, j: usize| r[row * 8 + (col + j) % 8].rotate_left((col * 17 + j * 5) as u32);
	let (bit, u32c, u8a, u8b, w32, w32b, d64, q) = (
		|row: usize| at(0, row, 0) & 1,
		|row: usize| at(1, row, 0) as u32,
		|row: usize, j: usize| at(2, row, j) as u8,
		|row: usize, j: usize| at(3, row, j) as u8,
		|row: usize| at(4, row, 0) as u32,
		|row: usize| at(5, row, 0) as u32,
		|row: usize, j: usize| at(6, row, j) as u64,
		|row: usize| at(7, row, 0),
	);
	let k = B8::new(c.below(256) as u8);
	let mut rows_seen = 0;
	for seg in ti.segments(lg) {
		let base = seg.index() << seg.log_size();
		let n = seg.size();
		rows_seen += n;
		let e = |m: &str| format!("{m} (segment {} of 2^{})", seg.index(), seg.log_size());
		{
			let mut x = seg.get_mut(y.b1x1).map_err(es)?;
			for i in 0..n {
				binius_field::packed::set_packed_slice(&mut x, i, B1::from(bit(base + i) == 1));
			}
			let mut x = seg.get_mut_as::<u32, B1, 32>(y.b1x32).map_err(es)?;
			ensure!(x.len() >= n, "{}", e("words of a 32-bit column"));
			for i in 0..n {
				x[i] = u32c(base + i);
			}
			let mut x = seg.get_mut_as::<[u8; 4], B8, 4>(y.b8x4).map_err(es)?;
			for i in 0..n {
				x[i] = std::array::from_fn(|j| u8a(base + i, j));
			}
			let mut x = seg.get_scalars_mut(y.b8b).map_err(es)?;
			for i in 0..n * 4 {
				x[i] = B8::new(u8b(base + i / 4, i % 4));
			}
			let mut x = seg.get_scalars_mut(y.b32).map_err(es)?;
			for i in 0..n {
				x[i] = B32::new(w32(base + i));
			}
			let mut x = seg.get_mut_as::<u32, B32, 1>(y.b32b).map_err(es)?;
			for i in 0..n {
				x[i] = w32b(base + i);
			}
			let mut x = seg.get_scalars_mut(y.b64).map_err(es)?;
			for i in 0..n * 2 {
				x[i] = B64::new(d64(base + i / 2, i % 2));
			}
			let mut x = seg.get_mut_as::<u128, B128, 1>(y.b128).map_err(es)?;
			for i in 0..n {
				x[i] = q(base + i);
			}
		}
		// every view of a column shows the same values
		{
			let p32 = seg.get(y.packed).map_err(es)?;
			let bits = seg.get(y.b1x32).map_err(es)?;
			let raw = seg.get_as::<u32, B32, 1>(y.packed).map_err(es)?;
			let dynp = seg.get_dyn(y.packed.id()).map_err(es)?;
			let dynb = seg.get_dyn(y.b1x32.id()).map_err(es)?;
			for i in 0..n {
				let v = u32c(base + i);
				ensure!(get_packed_slice(&p32, i).val() == v && raw[i] == v && dynp.get(i).val() == v as u128, "{}", e("packed view of a bit column"));
				for j in [0, 1, 7, 8, 15, 16, 30, 31] {
					let b = B1::from((v >> j) & 1 == 1);
					ensure!(get_packed_slice(&bits, i * 32 + j) == b && dynb.get(i * 32 + j) == B128::from(b), "{}", e("bits of a bit column"));
				}
			}
			let x1 = seg.get_dyn(y.b1x1.id()).map_err(es)?;
			let x8 = seg.get_scalars(y.b8x4).map_err(es)?;
			let x8b = seg.get_as::<u8, B8, 4>(y.b8b).map_err(es)?;
			let x32 = seg.get_as::<u32, B32, 1>(y.b32).map_err(es)?;
			let x32b = seg.get_scalars(y.b32b).map_err(es)?;
			let x64 = seg.get_as::<u64, B64, 2>(y.b64).map_err(es)?;
			let x128 = seg.get_dyn(y.b128.id()).map_err(es)?;
			for i in 0..n {
				let row = base + i;
				ensure!(x1.get(i).val() == bit(row), "{}", e("one-bit column"));
				ensure!((0..4).all(|j| x8[i * 4 + j] == B8::new(u8a(row, j)) && x8b[i * 4 + j] == u8b(row, j)), "{}", e("byte columns"));
				ensure!(x32[i] == w32(row) && x32b[i] == B32::new(w32b(row)), "{}", e("32-bit columns"));
				ensure!((0..2).all(|j| x64[i * 2 + j] == d64(row, j)), "{}", e("64-bit column"));
				ensure!(x128.get(i).val() == q(row), "{}", e("128-bit column"));
			}
			ensure!(matches!(seg.get_mut(y.packed).map(|_| ()), Err(Error::WitnessBorrowMut(_))), "writing a column being read through its packed alias");
		}
		// expressions
		let ex = y.b8x4 * y.b8b + y.b8x4 * k + B8::new(3);
		let got: Vec<_> = seg.eval_expr::<B8, 4>(&ex).map_err(es)?.collect();
		for i in 0..n * 4 {
			let (a, b) = (B8::new(u8a(base + i / 4, i % 4)), B8::new(u8b(base + i / 4, i % 4)));
			ensure!(get_packed_slice(&got, i) == a * b + a * k + B8::new(3), "{}", e("expression over bytes"));
		}
		let ex = (y.b32 + y.b32b).pow(3) * y.packed - B32::new(7);
		let got: Vec<_> = seg.eval_expr::<B32, 1>(&ex).map_err(es)?.collect();
		for i in 0..n {
			let (a, b) = (B32::new(w32(base + i)), B32::new(w32b(base + i)));
			ensure!(get_packed_slice(&got, i) == (a + b) * (a + b) * (a + b) * B32::new(u32c(base + i)) - B32::new(7), "{}", e("expression over words"));
		}
		let b128e: Expr<B128, 1> = y.b128 * y.b128 + B128::new(5);
		let got: Vec<_> = seg.eval_expr::<B128, 1>(&b128e).map_err(es)?.collect();
		for i in 0..n {
			let a = B128::new(q(base + i));
			ensure!(get_packed_slice(&got, i) == a * a + B128::new(5), "{}", e("expression over 128-bit values"));
		}
		// columns of another table
		refuse!(seg.get(y.other).map(|_| ()), Error::TableMismatch { .. }, "reading another table's column");
		refuse!(seg.get_mut(y.other).map(|_| ()), Error::TableMismatch { .. }, "writing another table's column");
		refuse!(seg.get_scalars(y.other).map(|_| ()), Error::TableMismatch { .. }, "reading another table's scalars");
		refuse!(seg.get_as::<u32, B32, 1>(y.other).map(|_| ()), Error::TableMismatch { .. }, "reading another table's words");
		refuse!(seg.get_mut_as::<u32, B32, 1>(y.other).map(|_| ()), Error::TableMismatch { .. }, "writing another table's words");
		refuse!(seg.get_dyn(y.other.id()).map(|_| ()), Error::TableMismatch { .. }, "reading another table's column");
		refuse!(seg.get_dyn_mut(y.other.id()).map(|_| ()), Error::TableMismatch { .. }, "writing another table's column");
		c.count("segments", 1);
		c.count("rows", n as u64);
	}
	ensure_eq!(rows_seen, cap, "rows covered");
	let _ = &y.others;
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C23");
	m.rule("random M3 systems filled sequentially, in parallel, with chosen segment sizes or segment by segment: each row handed out exactly once at its position (trace of filler calls), contents read back equal the reference, padding rows valid, validation accepts, committed witness columns equal the filled ones; accessors agree; misuse is refused with the documented error; non-trivial when rows were filled");
	macro_rules! by_u {
		($f:ident) => {
			|c: &mut Case| match c.below(3) {
				0 => $f::<OptimalUnderlier128b>(c),
				1 => $f::<OptimalUnderlier256b>(c),
				_ => $f::<OptimalUnderlier512b>(c),
			}
		};
	}
	let n = m.n(600, 30000);
	m.par("fills", n, by_u!(fills));
	let n = m.n(150, 8000);
	m.par("padding", n, by_u!(padding));
	let n = m.n(400, 20000);
	m.par("refused", n, by_u!(refused));
	let n = m.n(200, 10000);
	m.par("accessors", n, by_u!(accessors));
	m.finish();
}
