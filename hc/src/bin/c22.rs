//! C22: the M3 gadgets compute their function, and their constraints pin it down.
use std::collections::{BTreeSet, HashSet};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{
	constraint_system::{ConstraintSystem as Ccs, channel::{Boundary, ChannelId, FlushDirection, OracleOrConst}, validate::validate_witness},
	oracle::{OracleId, ShiftVariant, SymbolicMultilinearPolyVariant},
};
use binius_field::{Field, TowerField, arch::OptimalUnderlier, as_packed_field::PackedType, packed::set_packed_slice};
use binius_m3::{
	builder::{B1, B8, B32, B64, B128, Col, ConstraintSystem, FlushOpts, TableBuilder, TableId, TableFiller, TableWitnessSegment, WitnessIndex, tally},
	gadgets::{
		add::{self, U32Add, U32AddFlags, U32AddStacked, UnsignedAddPrimitives, WideAdd},
		barrel_shifter::BarrelShifter,
		div::{DivSS32, DivUU32},
		hash::{groestl, keccak, sha256::Sha256},
		indexed_lookup::{and, incr},
		merkle_tree::{self, trace::{MerklePath, MerkleTree, MerkleTreeTrace}},
		mul::{MulSS32, MulSU32, MulUU32, MulUU64, SignConverter, TwosComplement},
		sub::{U32Sub, U32SubFlags, WideSub},
	},
};
use hc::{gsat::*, pv::*, sysgen::*, *};

type P = PackedType<OptimalUnderlier, B128>;
type Seg<'a> = TableWitnessSegment<'a, P>;
type Row = Vec<u128>;

/// A gadget in a table of its own, with what it should compute.
struct G {
	name: String,
	cs: ConstraintSystem<B128>,
	table: TableId,
	/// Writes the inputs of the rows and populates the gadget.
	fill: Box<dyn Fn(&[Row], &mut Seg) -> anyhow::Result<()> + Sync>,
	/// Input words of a row, as (value, bits), in the order of the input tags.
	widths: Vec<usize>,
	/// Output bits of a row, or nothing where the inputs are outside the domain.
	f: Box<dyn Fn(&Row) -> Option<Vec<bool>> + Sync>,
	ins: Vec<ChannelId>,
	outs: Vec<ChannelId>,
	members: Box<dyn Fn() -> Vec<Member<'static>> + Sync>,
	/// The whole hash is too large to search around in; only follow changes forward.
	large: bool,
	/// Valid input values have more structure than their width says.
	tame: Box<dyn Fn(&mut Case, &mut Row) + Sync>,
}

struct Filler<'a>(TableId, &'a (dyn Fn(&[Row], &mut Seg) -> anyhow::Result<()> + Sync));
impl TableFiller<P> for Filler<'_> {
	type Event = Row;
	fn id(&self) -> TableId {
		self.0
	}
	fn fill(&self, rows: &[Row], w: &mut Seg) -> anyhow::Result<()> {
		(self.1)(rows, w)
	}
}

fn le(v: u128, n: usize) -> Vec<bool> {
	(0..n).map(|i| v >> i & 1 == 1).collect()
}
fn cat(parts: &[(u128, usize)]) -> Vec<bool> {
	parts.iter().flat_map(|&(v, n)| le(v, n)).collect()
}

struct B {
	cs: ConstraintSystem<B128>,
	chans: Vec<ChannelId>,
	used: usize,
}
impl B {
	fn new() -> Self {
		let mut cs = ConstraintSystem::new();
		let chans = (0..10).map(|i| cs.add_channel(format!("tag{i}"))).collect();
		Self { cs, chans, used: 0 }
	}
}
/// Names columns by reading them off a channel of their own; boundaries balance whatever they hold.
fn tag<F: TowerField, const V: usize>(t: &mut TableBuilder, ch: ChannelId, cols: &[Col<F, V>])
where
	B128: binius_field::ExtensionField<F>,
{
	t.read(ch, cols.iter().copied());
}

macro_rules! gadget {
	// $b: builder, $t: table; the body returns the pieces of a G
	($name:expr, |$b:ident, $t:ident, $ins:ident, $outs:ident| $body:block) => {{
		let mut $b = B::new();
		let chans = $b.chans.clone();
		let mut used = $b.used;
		let mut cs = $b.cs;
		let (mut ins_v, mut outs_v) = (vec![], vec![]);
		let (table, fill, widths, f, members, large, tame) = {
			let mut table = cs.add_table("gadget");
			let $t = &mut table;
			let id = $t.id();
			macro_rules! $ins {
				($tt:expr, $cols:expr) => {{
					tag($tt, chans[used], $cols);
					ins_v.push(chans[used]);
					used += 1;
				}};
			}
			macro_rules! $outs {
				($tt:expr, $cols:expr) => {{
					tag($tt, chans[used], $cols);
					outs_v.push(chans[used]);
					used += 1;
				}};
			}
			let p: Parts = $body;
			(id, p.fill, p.widths, p.f, p.members, p.large, p.tame)
		};
		let _ = used;
		G { name: $name, cs, table, fill, widths, f, ins: ins_v, outs: outs_v, members, large, tame }
	}};
}
struct Parts {
	fill: Box<dyn Fn(&[Row], &mut Seg) -> anyhow::Result<()> + Sync>,
	widths: Vec<usize>,
	f: Box<dyn Fn(&Row) -> Option<Vec<bool>> + Sync>,
	members: Box<dyn Fn() -> Vec<Member<'static>> + Sync>,
	large: bool,
	tame: Box<dyn Fn(&mut Case, &mut Row) + Sync>,
}
fn parts(widths: Vec<usize>, fill: impl Fn(&[Row], &mut Seg) -> anyhow::Result<()> + Sync + 'static, f: impl Fn(&Row) -> Option<Vec<bool>> + Sync + 'static) -> Parts {
	Parts { fill: Box::new(fill), widths, f: Box::new(f), members: Box::new(Vec::new), large: false, tame: Box::new(|_, _| ()) }
}

fn put_bits<const N: usize>(w: &mut Seg, cols: &[Col<B1>; N], vals: impl Fn(usize) -> u128, n: usize) -> anyhow::Result<()> {
	for (b, &col) in cols.iter().enumerate() {
		let mut m = w.get_mut(col)?;
		for r in 0..n {
			set_packed_slice(&mut m, r, B1::from(vals(r) >> b & 1 == 1));
		}
	}
	Ok(())
}
fn put_u32<const V: usize>(w: &mut Seg, col: Col<B1, V>, vals: impl Fn(usize) -> u32, n: usize) -> anyhow::Result<()> {
	let mut m = w.get_mut_as::<u32, _, V>(col)?;
	for r in 0..n {
		m[r] = vals(r);
	}
	Ok(())
}

fn g_u32add(c: &mut Case) -> G {
	let (carry, commit, expose) = (c.flip(), c.flip(), c.flip());
	gadget!(format!("U32Add carry={carry} commit={commit} expose={expose}"), |b, t, input, output| {
		let x = t.add_committed::<B1, 32>("x");
		let y = t.add_committed::<B1, 32>("y");
		let ci = carry.then(|| t.add_committed::<B1, 32>("ci"));
		let g = U32Add::new(t, x, y, U32AddFlags { carry_in_bit: ci, commit_zout: commit, expose_final_carry: expose });
		input!(t, &[x, y]);
		if let Some(ci) = ci {
			input!(t, &[ci]);
		}
		output!(t, &[g.zout]);
		if let Some(fc) = g.final_carry {
			output!(t, &[fc]);
		}
		let mut widths = vec![32, 32];
		if carry {
			widths.push(1);
		}
		parts(widths, move |rows, w| {
			put_u32(w, x, |r| rows[r][0] as u32, rows.len())?;
			put_u32(w, y, |r| rows[r][1] as u32, rows.len())?;
			if let Some(ci) = ci {
				put_u32(w, ci, |r| rows[r][2] as u32, rows.len())?;
			}
			g.populate(w)
		}, move |r| {
			let s = r[0] + r[1] + if carry { r[2] } else { 0 };
			Some(if expose { cat(&[(s, 32), (s >> 32, 1)]) } else { le(s, 32) })
		})
	})
}
fn g_stacked<const V: usize>(c: &mut Case) -> G {
	let (carry, commit) = (c.flip(), c.flip());
	let k = V / 32;
	gadget!(format!("U32AddStacked<{V}> carry={carry} commit={commit}"), |b, t, input, output| {
		let x = t.add_committed::<B1, V>("x");
		let y = t.add_committed::<B1, V>("y");
		let ci = carry.then(|| t.add_committed::<B1, V>("ci"));
		let g = U32AddStacked::<V>::new(t, x, y, commit, ci);
		input!(t, &[x, y]);
		if let Some(ci) = ci {
			input!(t, &[ci]);
		}
		output!(t, &[g.zout]);
		let mut widths = vec![32; 2 * k];
		if carry {
			widths.extend(vec![1; k]);
		}
		parts(widths, move |rows, w| {
			let n = rows.len() * k;
			put_u32(w, x, |r| rows[r / k][r % k] as u32, n)?;
			put_u32(w, y, |r| rows[r / k][k + r % k] as u32, n)?;
			if let Some(ci) = ci {
				put_u32(w, ci, |r| rows[r / k][2 * k + r % k] as u32, n)?;
			}
			g.populate(w)
		}, move |r| Some((0..k).flat_map(|i| le(r[i] + r[k + i] + if carry { r[2 * k + i] } else { 0 }, 32)).collect()))
	})
}
fn g_wideadd<U: UnsignedAddPrimitives + Sync + 'static, const N: usize>(c: &mut Case) -> G {
	let (carry, commit) = (c.flip(), c.flip());
	gadget!(format!("WideAdd<{N}> carry={carry} commit={commit}"), |b, t, input, output| {
		let x: [Col<B1>; N] = t.add_committed_multiple("x");
		let y: [Col<B1>; N] = t.add_committed_multiple("y");
		let ci = carry.then(|| t.add_committed::<B1, 32>("ci"));
		let g = WideAdd::<U, N>::new(t, x, y, U32AddFlags { carry_in_bit: ci, commit_zout: commit, expose_final_carry: true });
		input!(t, &x);
		input!(t, &y);
		if let Some(ci) = ci {
			input!(t, &[ci]);
		}
		output!(t, &g.z_out);
		output!(t, &[g.final_carry_out]);
		let mut widths = vec![N, N];
		if carry {
			widths.push(1);
		}
		parts(widths, move |rows, w| {
			put_bits(w, &x, |r| rows[r][0], rows.len())?;
			put_bits(w, &y, |r| rows[r][1], rows.len())?;
			if let Some(ci) = ci {
				put_u32(w, ci, |r| rows[r][2] as u32, rows.len())?;
			}
			g.populate(w)
		}, move |r| {
			let s = r[0] + r[1] + if carry { r[2] } else { 0 };
			Some(cat(&[(s, N), (s >> N, 1)]))
		})
	})
}
fn g_incr<U: UnsignedAddPrimitives + Sync + 'static, const N: usize>(_: &mut Case) -> G {
	gadget!(format!("Incr<{N}>"), |b, t, input, output| {
		let x: [Col<B1>; N] = t.add_committed_multiple("x");
		let g = add::Incr::<U, N>::new(t, x);
		input!(t, &x);
		output!(t, &g.zout);
		output!(t, &[g.final_carry_out]);
		parts(vec![N], move |rows, w| {
			put_bits(w, &x, |r| rows[r][0], rows.len())?;
			g.populate(w)
		}, |r| Some(cat(&[(r[0] + 1, N), ((r[0] + 1) >> N, 1)])))
	})
}
fn g_twos<U: UnsignedAddPrimitives + Sync + 'static, const N: usize>(_: &mut Case) -> G {
	gadget!(format!("TwosComplement<{N}>"), |b, t, input, output| {
		let x: [Col<B1>; N] = t.add_committed_multiple("x");
		let g = TwosComplement::<U, N>::new(t, x);
		input!(t, &x);
		output!(t, &g.result_bits);
		parts(vec![N], move |rows, w| {
			put_bits(w, &x, |r| rows[r][0], rows.len())?;
			g.populate(w)
		}, |r| Some(le(r[0].wrapping_neg(), N)))
	})
}
fn g_sign<U: UnsignedAddPrimitives + Sync + 'static, const N: usize>(_: &mut Case) -> G {
	gadget!(format!("SignConverter<{N}>"), |b, t, input, output| {
		let x: [Col<B1>; N] = t.add_committed_multiple("x");
		let cond = t.add_committed::<B1, 1>("cond");
		let g = SignConverter::<U, N>::new(t, x, cond.into());
		input!(t, &x);
		input!(t, &[cond]);
		output!(t, &g.converted_bits);
		let f = |r: &Row| if r[1] == 1 { r[0].wrapping_neg() } else { r[0] };
		parts(vec![N, 1], move |rows, w| {
			put_bits(w, &x, |r| rows[r][0], rows.len())?;
			put_bits(w, &[cond], |r| rows[r][1], rows.len())?;
			// documented: the caller fills these
			put_bits(w, &g.converted_bits, |r| f(&rows[r]), rows.len())?;
			g.populate(w)
		}, move |r| Some(le(f(r), N)))
	})
}
fn g_u32sub(c: &mut Case) -> G {
	let (borrow, commit, expose) = (c.flip(), c.flip(), c.flip());
	gadget!(format!("U32Sub borrow={borrow} commit={commit} expose={expose}"), |b, t, input, output| {
		let x = t.add_committed::<B1, 32>("x");
		let y = t.add_committed::<B1, 32>("y");
		let bi = borrow.then(|| t.add_committed::<B1, 32>("bi"));
		let g = U32Sub::new(t, x, y, U32SubFlags { borrow_in_bit: bi, expose_final_borrow: expose, commit_zout: commit });
		input!(t, &[x, y]);
		if let Some(bi) = bi {
			input!(t, &[bi]);
		}
		output!(t, &[g.zout]);
		if let Some(fb) = g.final_borrow {
			output!(t, &[fb]);
		}
		let mut widths = vec![32, 32];
		if borrow {
			widths.push(1);
		}
		parts(widths, move |rows, w| {
			put_u32(w, x, |r| rows[r][0] as u32, rows.len())?;
			put_u32(w, y, |r| rows[r][1] as u32, rows.len())?;
			if let Some(bi) = bi {
				put_u32(w, bi, |r| rows[r][2] as u32, rows.len())?;
			}
			g.populate(w)
		}, move |r| {
			let s = r[0].wrapping_sub(r[1]).wrapping_sub(if borrow { r[2] } else { 0 });
			Some(if expose { cat(&[(s, 32), (s >> 32, 1)]) } else { le(s, 32) })
		})
	})
}
fn g_widesub<U: UnsignedAddPrimitives + Sync + 'static, const N: usize>(c: &mut Case) -> G {
	let (borrow, commit, expose) = (c.flip(), c.flip(), c.flip());
	gadget!(format!("WideSub<{N}> borrow={borrow} commit={commit} expose={expose}"), |b, t, input, output| {
		let x: [Col<B1>; N] = t.add_committed_multiple("x");
		let y: [Col<B1>; N] = t.add_committed_multiple("y");
		let bi = borrow.then(|| t.add_committed::<B1, 32>("bi"));
		let g = WideSub::<U, N>::new(t, x, y, U32SubFlags { borrow_in_bit: bi, expose_final_borrow: expose, commit_zout: commit });
		input!(t, &x);
		input!(t, &y);
		if let Some(bi) = bi {
			input!(t, &[bi]);
		}
		output!(t, &g.zout);
		if let Some(fb) = g.final_borrow {
			output!(t, &[fb]);
		}
		let mut widths = vec![N, N];
		if borrow {
			widths.push(1);
		}
		parts(widths, move |rows, w| {
			put_bits(w, &x, |r| rows[r][0], rows.len())?;
			put_bits(w, &y, |r| rows[r][1], rows.len())?;
			if let Some(bi) = bi {
				put_u32(w, bi, |r| rows[r][2] as u32, rows.len())?;
			}
			g.populate(w)
		}, move |r| {
			let s = r[0].wrapping_sub(r[1]).wrapping_sub(if borrow { r[2] } else { 0 });
			Some(if expose { cat(&[(s, N), (s >> N, 1)]) } else { le(s, N) })
		})
	})
}
fn b32s(rows: &[Row], k: usize) -> Vec<B32> {
	rows.iter().map(|r| B32::new(r[k] as u32)).collect()
}
fn g_mul(c: &mut Case) -> G {
	match c.below(5) {
		0 => gadget!("MulUU32".into(), |b, t, input, output| {
			let g = MulUU32::new(t);
			input!(t, &[g.xin, g.yin]);
			output!(t, &[g.out_low, g.out_high]);
			parts(vec![32, 32], move |rows, w| g.populate_with_inputs(w, b32s(rows, 0), b32s(rows, 1)), |r| Some(le(r[0] * r[1], 64)))
		}),
		1 => gadget!("MulUU32 given bits".into(), |b, t, input, output| {
			let x: [Col<B1>; 32] = t.add_committed_multiple("x");
			let y: [Col<B1>; 32] = t.add_committed_multiple("y");
			let g = MulUU32::with_inputs(t, x, y);
			input!(t, &x);
			input!(t, &y);
			output!(t, &g.out_low_bits);
			output!(t, &g.out_high_bits);
			parts(vec![32, 32], move |rows, w| {
				put_bits(w, &x, |r| rows[r][0], rows.len())?;
				put_bits(w, &y, |r| rows[r][1], rows.len())?;
				g.populate(w, b32s(rows, 0), b32s(rows, 1))
			}, |r| Some(le(r[0] * r[1], 64)))
		}),
		2 => gadget!("MulUU64".into(), |b, t, input, output| {
			let g = MulUU64::new(t);
			input!(t, &[g.xin, g.yin]);
			output!(t, &[g.out_low, g.out_high]);
			parts(vec![64, 64], move |rows, w| {
				let v = |k: usize| rows.iter().map(move |r| B64::new(r[k] as u64));
				g.populate_with_inputs(w, v(0), v(1))
			}, |r| Some(le(r[0].wrapping_mul(r[1]), 128)))
		}),
		3 => gadget!("MulSS32".into(), |b, t, input, output| {
			let g = MulSS32::new(t);
			input!(t, &[g.xin, g.yin]);
			output!(t, &[g.out_low, g.out_high]);
			output!(t, &g.out_bits);
			parts(vec![32, 32], move |rows, w| g.populate_with_inputs(w, b32s(rows, 0), b32s(rows, 1)), |r| {
				let p = (r[0] as u32 as i32 as i64).wrapping_mul(r[1] as u32 as i32 as i64) as u64 as u128;
				Some(cat(&[(p, 64), (p, 64)]))
			})
		}),
		_ => gadget!("MulSU32".into(), |b, t, input, output| {
			let g = MulSU32::new(t);
			input!(t, &[g.xin, g.yin]);
			output!(t, &[g.out_low, g.out_high]);
			parts(vec![32, 32], move |rows, w| g.populate_with_inputs(w, b32s(rows, 0), b32s(rows, 1)), |r| {
				Some(le(((r[0] as u32 as i32 as i128) * (r[1] as i128)) as u64 as u128, 64))
			})
		}),
	}
}
fn g_div(c: &mut Case) -> G {
	if c.flip() {
		gadget!("DivUU32".into(), |b, t, input, output| {
			let g = DivUU32::new(t);
			input!(t, &[g.p_in, g.q_in]);
			output!(t, &[g.out_div, g.out_rem]);
			parts(vec![32, 32], move |rows, w| g.populate_with_inputs(w, b32s(rows, 0), b32s(rows, 1)), |r| (r[1] != 0).then(|| cat(&[(r[0] / r[1], 32), (r[0] % r[1], 32)])))
		})
	} else {
		gadget!("DivSS32".into(), |b, t, input, output| {
			let g = DivSS32::new(t);
			input!(t, &[g.p_in, g.q_in]);
			output!(t, &[g.out_div, g.out_rem]);
			parts(vec![32, 32], move |rows, w| g.populate_with_inputs(w, b32s(rows, 0), b32s(rows, 1)), |r| {
				let (p, q) = (r[0] as u32 as i32, r[1] as u32 as i32);
				Some(cat(&[(p.checked_div(q)? as u32 as u128, 32), (p.checked_rem(q)? as u32 as u128, 32)]))
			})
		})
	}
}
fn g_shift(c: &mut Case) -> G {
	let v = c.pick(&[ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight, ShiftVariant::CircularLeft]);
	gadget!(format!("BarrelShifter {v:?}"), |b, t, input, output| {
		let x = t.add_committed::<B1, 32>("x");
		let s = t.add_committed::<B1, 16>("s");
		let g = BarrelShifter::new(t, x, s, v);
		input!(t, &[x]);
		input!(t, &[s]);
		output!(t, &[g.output]);
		parts(vec![32, 16], move |rows, w| {
			put_u32(w, x, |r| rows[r][0] as u32, rows.len())?;
			{
				let mut m = w.get_mut_as::<u16, _, 16>(s)?;
				for (r, row) in rows.iter().enumerate() {
					m[r] = row[1] as u16;
				}
			}
			g.populate(w)
		}, move |r| {
			let (x, s) = (r[0] as u32, r[1] as u32 & 31);
			Some(le(match v {
				ShiftVariant::LogicalLeft => x << s,
				ShiftVariant::LogicalRight => x >> s,
				ShiftVariant::CircularLeft => x.rotate_left(s),
			} as u128, 32))
		})
	})
}
fn g_and<const V: usize>(_: &mut Case) -> G {
	let mut bb = B::new();
	let chan = bb.cs.add_channel("lookup");
	let mut g = {
		let chans = bb.chans.clone();
		let mut t = bb.cs.add_table("gadget");
		let a = t.add_committed::<B8, V>("a");
		let b = t.add_committed::<B8, V>("b");
		let g = and::BitAnd::<V>::new(&mut t, chan, a, b);
		tag(&mut t, chans[0], &[a, b]);
		tag(&mut t, chans[1], &[g.output]);
		let id = t.id();
		let p = parts(vec![8; 2 * V], move |rows, w| {
			for (k, col) in [a, b].into_iter().enumerate() {
				let mut m = w.get_mut_as::<u8, _, V>(col)?;
				for (r, row) in rows.iter().enumerate() {
					for v in 0..V {
						m[r * V + v] = row[k * V + v] as u8;
					}
				}
			}
			g.populate(w)
		}, |r| Some((0..V).flat_map(|v| le(r[v] & r[V + v], 8)).collect()));
		G { name: format!("BitAnd<{V}>"), cs: ConstraintSystem::new(), table: id, fill: p.fill, widths: p.widths, f: p.f, ins: vec![chans[0]], outs: vec![chans[1]], members: p.members, large: false, tame: p.tame }
	};
	g.cs = bb.cs;
	g.members = Box::new(move || {
		vec![(chan, Box::new(|t: &[B128]| {
			let v = u128::from(t[0]);
			t.len() == 1 && v >> 24 == 0 && v >> 16 & 0xff == v & 0xff & (v >> 8 & 0xff)
		}) as _)]
	});
	g
}
fn g_incr8(_: &mut Case) -> G {
	let mut bb = B::new();
	let chan = bb.cs.add_channel("lookup");
	let chans = bb.chans.clone();
	let mut g = {
		let mut t = bb.cs.add_table("gadget");
		let x = t.add_committed::<B8, 1>("x");
		let ci = t.add_committed::<B1, 1>("ci");
		let g = incr::Incr::new(&mut t, chan, x, ci);
		tag(&mut t, chans[0], &[x]);
		tag(&mut t, chans[1], &[ci]);
		tag(&mut t, chans[2], &[g.output]);
		tag(&mut t, chans[3], &[g.carry_out]);
		let id = t.id();
		let p = parts(vec![8, 1], move |rows, w| {
			{
				let mut m = w.get_mut_as::<u8, _, 1>(x)?;
				for (r, row) in rows.iter().enumerate() {
					m[r] = row[0] as u8;
				}
			}
			put_bits(w, &[ci], |r| rows[r][1], rows.len())?;
			g.populate(w)
		}, |r| Some(cat(&[(r[0] + r[1], 8), ((r[0] + r[1]) >> 8, 1)])));
		G { name: "Incr lookup".into(), cs: ConstraintSystem::new(), table: id, fill: p.fill, widths: p.widths, f: p.f, ins: vec![chans[0], chans[1]], outs: vec![chans[2], chans[3]], members: p.members, large: false, tame: p.tame }
	};
	g.cs = bb.cs;
	g.members = Box::new(move || {
		vec![(chan, Box::new(|t: &[B128]| {
			// any encoding will do as long as it is the one the gadget's own helper makes
			let v = u128::from(t[0]) as u32;
			u128::from(t[0]) >> 32 == 0 && (0..512u32).any(|i| {
				let (x, ci) = ((i & 255) as u8, i >> 8 == 1);
				let s = x as u32 + ci as u32;
				incr::merge_incr_vals(x, ci, s as u8, s > 255) == v
			})
		}) as _)]
	});
	g
}
fn g_sha(_: &mut Case) -> G {
	gadget!("Sha256".into(), |b, t, input, output| {
		let g = Sha256::new(t);
		input!(t, &g.state_in);
		output!(t, &g.state_out);
		let mut p = parts(vec![32; 16], move |rows, w| {
			let blocks: Vec<[u32; 16]> = rows.iter().map(|r| std::array::from_fn(|i| r[i] as u32)).collect();
			g.populate(w, blocks.iter())
		}, |r| {
			let mut st = [0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
			let mut blk = [0u8; 64];
			for i in 0..16 {
				blk[4 * i..4 * i + 4].copy_from_slice(&(r[i] as u32).to_be_bytes());
			}
			sha2::compress256(&mut st, &[blk.into()]);
			Some(st.iter().flat_map(|&x| le(x as u128, 32)).collect())
		});
		p.large = true;
		p
	})
}
fn keccak_f(s: &mut [u64; 25]) {
	// FIPS 202, written out
	let mut rc = 1u8;
	for _ in 0..24 {
		let c: [u64; 5] = std::array::from_fn(|x| (0..5).fold(0, |a, y| a ^ s[x + 5 * y]));
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				s[x + 5 * y] ^= d;
			}
		}
		let (mut x, mut y, mut cur) = (1, 0, s[1]);
		for t in 0..24u32 {
			(x, y) = (y, (2 * x + 3 * y) % 5);
			let tmp = s[x + 5 * y];
			s[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
			cur = tmp;
		}
		for y in 0..5 {
			let r: [u64; 5] = std::array::from_fn(|x| s[x + 5 * y]);
			for x in 0..5 {
				s[x + 5 * y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
			}
		}
		for j in 0..7 {
			if rc & 1 == 1 {
				s[0] ^= 1 << ((1u32 << j) - 1);
			}
			rc = if rc & 0x80 != 0 { (rc << 1) ^ 0x71 } else { rc << 1 };
		}
	}
}
fn keccak_ref(r: &Row) -> Option<Vec<bool>> {
	let mut s: [u64; 25] = std::array::from_fn(|i| r[i] as u64);
	keccak_f(&mut s);
	Some(s.iter().flat_map(|&x| le(x as u128, 64)).collect())
}
fn lanes<T: Copy>(m: &keccak::StateMatrix<T>) -> Vec<T> {
	(0..25).map(|i| m[(i % 5, i / 5)]).collect()
}
fn states(rows: &[Row]) -> Vec<keccak::StateMatrix<u64>> {
	rows.iter().map(|r| keccak::StateMatrix::from_fn(|(x, y)| r[x + 5 * y] as u64)).collect()
}
fn g_keccak(_: &mut Case) -> G {
	gadget!("Keccakf".into(), |b, t, input, output| {
		let g = keccak::stacked::Keccakf::new(t);
		input!(t, &lanes(&g.input));
		output!(t, &lanes(&g.output));
		let mut p = parts(vec![64; 25], move |rows, w| {
			g.populate_state_in(w, &states(rows))?;
			g.populate(w)
		}, keccak_ref);
		p.large = true;
		p
	})
}
fn g_keccak_lookup(_: &mut Case) -> G {
	let mut bb = B::new();
	let chan = bb.cs.add_channel("lookup");
	let chans = bb.chans.clone();
	let mut g = {
		let mut t = bb.cs.add_table("gadget");
		let g = keccak::lookedup::KeccakfLookedup::new(&mut t, chan);
		tag(&mut t, chans[0], &lanes(&g.input));
		tag(&mut t, chans[1], &lanes(&g.output));
		let id = t.id();
		let p = parts(vec![64; 25], move |rows, w| {
			g.populate_state_in(w, &states(rows))?;
			g.populate(w)
		}, keccak_ref);
		G { name: "KeccakfLookedup".into(), cs: ConstraintSystem::new(), table: id, fill: p.fill, widths: p.widths, f: p.f, ins: vec![chans[0]], outs: vec![chans[1]], members: p.members, large: true, tame: p.tame }
	};
	g.cs = bb.cs;
	g.members = Box::new(move || {
		vec![(chan, Box::new(|t: &[B128]| {
			let v = u128::from(t[0]);
			t.len() == 1 && v >> 24 == 0 && v >> 16 & 0xff == v & 0xff & (v >> 8 & 0xff)
		}) as _)]
	});
	g
}
/// Grøstl-256 P or Q on bytes, written out (AES S-box by inversion).
fn groestl_perm(q: bool, s: &mut [u8; 64]) {
	fn mul(mut a: u8, mut b: u8) -> u8 {
		let mut r = 0;
		while b != 0 {
			if b & 1 == 1 {
				r ^= a;
			}
			a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
			b >>= 1;
		}
		r
	}
	fn sbox(x: u8) -> u8 {
		let mut inv = 1;
		for _ in 0..254 {
			inv = mul(inv, x);
		}
		inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
	}
	static T: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
	let t = T.get_or_init(|| (0..=255).map(sbox).collect());
	for round in 0..10u8 {
		for j in 0..8 {
			let k = (j as u8) << 4 ^ round;
			if q {
				for i in 0..7 {
					s[8 * j + i] ^= 0xff;
				}
				s[8 * j + 7] ^= 0xff ^ k;
			} else {
				s[8 * j] ^= k;
			}
		}
		let o = s.map(|x| t[x as usize]);
		let sh: [usize; 8] = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
		for j in 0..8 {
			let col: [u8; 8] = std::array::from_fn(|i| o[8 * ((j + sh[i]) % 8) + i]);
			for i in 0..8 {
				s[8 * j + i] = [2u8, 2, 3, 4, 5, 3, 5, 7].iter().enumerate().fold(0, |a, (k, &m)| a ^ mul(m, col[(i + k) % 8]));
			}
		}
	}
}
fn g_groestl(c: &mut Case) -> G {
	let q = c.flip();
	let var = if q { groestl::PermutationVariant::Q } else { groestl::PermutationVariant::P };
	gadget!(format!("Groestl {}", if q { "Q" } else { "P" }), |b, t, input, output| {
		let st: [Col<B8, 8>; 8] = t.add_committed_multiple("state");
		let g = groestl::Permutation::new(t, var, st);
		input!(t, &st);
		output!(t, &g.state_out());
		let mut p = parts(vec![8; 64], move |rows, w| {
			// input word 8*i + j is byte (row i, column j)
			let s: Vec<[B8; 64]> = rows.iter().map(|r| std::array::from_fn(|k| B8::new(r[8 * (k % 8) + k / 8] as u8))).collect();
			g.populate_state_in(w, &s)?;
			g.populate(w)
		}, move |r| {
			use binius_field::AESTowerField8b as A;
			let mut s: [u8; 64] = std::array::from_fn(|k| A::from(B8::new(r[8 * (k % 8) + k / 8] as u8)).val());
			groestl_perm(q, &mut s);
			Some((0..64).flat_map(|w| le(B8::from(A::new(s[8 * (w % 8) + w / 8])).val() as u128, 8)).collect())
		});
		p.large = true;
		p
	})
}

fn small(c: &mut Case) -> G {
	match c.below(20) {
		0 | 1 => g_u32add(c),
		2 => g_stacked::<32>(c),
		3 => if c.flip() { g_stacked::<64>(c) } else { g_stacked::<128>(c) },
		4 | 5 => g_wideadd::<u32, 32>(c),
		6 => g_wideadd::<u64, 64>(c),
		7 => if c.flip() { g_incr::<u32, 32>(c) } else { g_incr::<u64, 64>(c) },
		8 => if c.flip() { g_twos::<u32, 32>(c) } else { g_twos::<u64, 64>(c) },
		9 => if c.flip() { g_sign::<u32, 32>(c) } else { g_sign::<u64, 64>(c) },
		10 | 11 => g_u32sub(c),
		12 => g_widesub::<u32, 32>(c),
		13 => g_widesub::<u64, 64>(c),
		14 | 15 => g_mul(c),
		16 => g_div(c),
		17 => g_shift(c),
		18 => match c.below(3) { 0 => g_and::<1>(c), 1 => g_and::<4>(c), _ => g_and::<8>(c) },
		_ => g_incr8(c),
	}
}
fn large(c: &mut Case) -> G {
	match c.below(4) {
		0 => g_sha(c),
		1 => g_keccak(c),
		2 => g_keccak_lookup(c),
		_ => g_groestl(c),
	}
}

fn word(c: &mut Case, n: usize) -> u128 {
	let m = if n == 128 { u128::MAX } else { (1 << n) - 1 };
	let r = c.u128();
	m & match c.below(8) {
		0 => 0,
		1 => m,
		2 => 1 << c.below(n),
		3 => (1u128 << c.below(n)).wrapping_sub(1),
		4 => m << c.below(n),
		5 => r & 15,
		6 => r & c.u128() & c.u128(),
		_ => r,
	}
}
fn row(c: &mut Case, g: &G) -> Row {
	loop {
		let mut r: Row = g.widths.iter().map(|&n| word(c, n)).collect();
		if r.len() == 2 && g.widths[0] == g.widths[1] && r[0] != 0 && c.below(6) == 0 {
			r[1] = r[0];
		}
		(g.tame)(c, &mut r);
		if (g.f)(&r).is_some() {
			return r;
		}
	}
}
fn ids(ccs: &Ccs<B128>, ch: &[ChannelId]) -> Vec<OracleId> {
	ch.iter()
		.flat_map(|&ch| {
			ccs.flushes.iter().filter(move |f| f.channel_id == ch && f.direction == FlushDirection::Pull).flat_map(|f| {
				f.oracles.iter().map(|o| match *o {
					OracleOrConst::Oracle(o) => o,
					_ => unreachable!("tags are columns"),
				})
			})
		})
		.collect()
}
/// Cells of the columns that belong to row `r` of `n` (capacity).
fn row_cells(net: &Net, cols: &[OracleId], r: usize, cap: usize) -> Vec<Cell> {
	cols.iter().flat_map(|&o| {
		let v = net.col_len(o) / cap;
		(0..v).map(move |k| (o, r * v + k))
	}).map(|(o, i)| net.cell(o, i)).collect()
}
fn read_bits(net: &Net, cols: &[OracleId], r: usize, cap: usize) -> Vec<bool> {
	cols.iter().flat_map(|&o| {
		let v = net.col_len(o) / cap;
		(0..v).flat_map(move |k| le(net.value(o, r * v + k).into(), 1 << net.tower(o))).collect::<Vec<_>>()
	}).collect()
}

fn with_net<R>(c: &mut Case, g: &G, rows: &[Row], f: impl FnOnce(&mut Case, &Ccs<B128>, &[usize], Wit<'_, OptimalUnderlier>, &mut Net) -> Result<R, String>) -> Result<R, String> {
	let mut mem = CpuComputeAllocator::<P>::new(1 << 18);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&g.cs, &alloc);
	let r = if c.flip() { w.fill_table_sequential(&Filler(g.table, &*g.fill), rows) } else { w.fill_table_parallel(&Filler(g.table, &*g.fill), rows) };
	r.map_err(|e| format!("filling {}: {e:?}", g.name))?;
	w.fill_constant_cols().map_err(es)?;
	let sizes = w.table_sizes();
	let ccs = g.cs.compile().map_err(es)?;
	let ix = w.into_multilinear_extension_index();
	let members = (g.members)();
	let mut net = Net::new(&ccs, &sizes, members, |o, i| ix.get_multilin_poly(o).map_err(es)?.evaluate_on_hypercube(i).map_err(es))?;
	f(c, &ccs, &sizes, ix, &mut net)
}

/// Honest rows: outputs are the function's, every virtual column is filled as defined, every
/// constraint holds, the validator agrees and (sometimes) a proof goes through.
fn honest(c: &mut Case, g: &G, n: usize, prove_it: bool) -> Res {
	let rows: Vec<Row> = (0..n).map(|_| row(c, g)).collect();
	c.key(format!("{} n={n}", g.name));
	c.desc(format!("{} rows {rows:x?}", g.name));
	with_net(c, g, &rows, |c, ccs, sizes, ix, net| {
		let cap = n.next_power_of_two();
		let (ins, outs) = (ids(ccs, &g.ins), ids(ccs, &g.outs));
		for (r, rw) in rows.iter().enumerate() {
			let want: Vec<bool> = cat(&rw.iter().copied().zip(g.widths.iter().copied()).collect::<Vec<_>>());
			let got = read_bits(net, &ins, r, cap);
			// a carry column is 32 bits wide with one that counts
			ensure!(!got.is_empty() && (got.len() != want.len() || got == want), "{}: row {r} has other inputs than it was given", g.name);
			let want = (g.f)(rw).expect("rows are in the domain");
			let got = read_bits(net, &outs, r, cap);
			ensure!(got == want, "{}: row {r}, inputs {rw:x?}: outputs {:x?}, not {:x?}", g.name, hexbits(&got), hexbits(&want));
			c.count("outputs", 1);
		}
		if let Some(&k) = net.bad.first() {
			fail!("{}: an honest witness of {n} rows violates {} and {} others", g.name, net.describe(k), net.bad.len() - 1);
		}
		for o in ccs.oracles.ids() {
			if net.is_exp_result(o) || matches!(ccs.oracles[o].variant, SymbolicMultilinearPolyVariant::Committed) {
				continue;
			}
			let p = ix.get_multilin_poly(o).map_err(es)?;
			let v = net.col_len(o) / cap;
			for i in 0..net.col_len(o).min(n * v) {
				let got = p.evaluate_on_hypercube(i).map_err(es)?;
				ensure!(got == net.value(o, i), "{}: column {} is filled with {got:?} at {i}, by definition {:?}", g.name, ccs.oracles[o].name.as_deref().unwrap_or("?"), net.value(o, i));
			}
		}
		c.obs((&g.name, &rows), net.n_insts() > 0);
		c.count("constraints", net.n_insts() as u64);
		if (g.members)().is_empty() {
			// what the tags read
			let mut tags = vec![];
			for fl in &ccs.flushes {
				let cols = ids(ccs, &[fl.channel_id]);
				for i in 0..n << fl.log_values_per_row {
					tags.push(Boundary { values: cols.iter().map(|&o| net.value(o, i)).collect(), channel_id: fl.channel_id, direction: FlushDirection::Push, multiplicity: 1 });
				}
			}
			if ccs.exponents.is_empty() {
				validate_witness(ccs, &tags, sizes, &ix).map_err(|e| format!("{}: the validator refuses an honest witness: {e}", g.name))?;
			}
			if prove_it {
				let p = Params { rate: 1, sec: 20 };
				let dig = ccs.digest::<binius_hash::groestl::Groestl256>();
				let proof = prove::<OptimalUnderlier>(ccs, p, &dig, &tags, sizes, ix).map_err(|e| format!("{}: proving: {e}", g.name))?;
				verify::<OptimalUnderlier>(ccs, p, &dig, &tags, &proof).map_err(|e| format!("{}: verifying: {e}", g.name))?;
				c.count("proofs", 1);
			}
		}
		Ok(())
	})
}
fn hexbits(b: &[bool]) -> Vec<u64> {
	b.chunks(64).map(|w| w.iter().enumerate().fold(0, |a, (i, &x)| a | (x as u64) << i)).collect()
}

/// One row: look for another assignment with the same inputs that satisfies everything and has
/// other outputs.
fn forge(c: &mut Case, g: &G, tries: usize) -> Res {
	let rw = row(c, g);
	c.key(g.name.clone());
	c.desc(format!("{} row {rw:x?}", g.name));
	let want = (g.f)(&rw).expect("rows are in the domain");
	with_net(c, g, std::slice::from_ref(&rw), |c, ccs, _, _, net| {
		if !net.bad.is_empty() {
			fail!("{}: an honest row violates {}", g.name, net.describe(*net.bad.first().expect("not empty")));
		}
		let (ins, outs) = (ids(ccs, &g.ins), ids(ccs, &g.outs));
		let mut frozen = BTreeSet::new();
		for x in row_cells(net, &ins, 0, 1) {
			net.support(x, &mut frozen);
		}
		let inputs: HashSet<Cell> = frozen.into_iter().collect();
		let free: Vec<Cell> = net.free_cells().into_iter().filter(|x| !inputs.contains(x)).collect();
		if free.is_empty() {
			return Ok(());
		}
		let out_cells = row_cells(net, &outs, 0, 1);
		for _ in 0..tries {
			let mark = net.mark();
			let mut frozen = inputs.clone();
			let mode = if g.large { 0 } else { c.below(4) };
			let mut floor = None;
			let mut how = String::new();
			match mode {
				// disturb one committed cell and follow the consequences forward
				0 | 1 => {
					let x = c.pick(&free);
					net.disturb(c, x);
					frozen.insert(x);
					how = format!("start at {}", net.name(x));
					if mode == 0 {
						floor = Some(x);
					}
				}
				// force a wrong output and work backward
				_ => {
					let x = c.pick(&out_cells);
					let mut sup = BTreeSet::new();
					net.support(x, &mut sup);
					let sup: Vec<Cell> = sup.into_iter().filter(|x| !inputs.contains(x)).collect();
					if !sup.is_empty() {
						let s = c.pick(&sup);
						net.disturb(c, s);
						frozen.insert(s);
						how = format!("start at {} below an output", net.name(s));
					}
				}
			}
			net.limit = net.spent() + if g.large { 40_000 } else { u64::MAX / 2 };
			let done = net.repair(c, &frozen, floor, if g.large { 20000 } else { 120 });
			c.count("attempts", 1);
			if done {
				let got = read_bits(net, &outs, 0, 1);
				if got == want {
					c.count("harmless", 1);
				} else {
					fail!("{}: inputs {rw:x?} also allow outputs {:x?} instead of {:x?} ({how})", g.name, hexbits(&got), hexbits(&want));
				}
			} else {
				c.count("refused", 1);
			}
			net.undo(mark);
		}
		c.obs((&g.name, &rw), net.n_insts() > 0);
		c.count("search steps", net.steps);
		Ok(())
	})
}

/// Alternatives a dishonest prover would try for a particular function: take an honest row for other
/// inputs, put the real inputs and chosen outputs in, and complete the rest.
fn transplant(c: &mut Case) -> Res {
	let g = match c.below(4) { 0 | 1 => g_div(c), 2 => g_mul(c), _ => small(c) };
	let rw = row(c, &g);
	let want = (g.f)(&rw).expect("rows are in the domain");
	// a neighbouring row, whose inner products are what the forged row needs
	let mut other = rw.clone();
	let mut forced: Option<Vec<u128>> = None;
	if g.name.starts_with("DivUU") {
		let (q, r) = (rw[0] / rw[1], rw[0] % rw[1]);
		let k = 1 + c.below(3) as u128;
		if q < k || r + k * rw[1] >= 1 << 32 {
			return Ok(());
		}
		other[0] = (q - k) * rw[1];
		forced = Some(vec![q - k, r + k * rw[1]]);
	} else if g.name.starts_with("DivSS") {
		let (p, d) = (rw[0] as u32 as i32 as i64, rw[1] as u32 as i32 as i64);
		let k = c.pick(&[1i64, -1, 2, -2]);
		let (q, r) = (p / d + k, p % d - k * d);
		if i32::try_from(q).is_err() || i32::try_from(r).is_err() || i32::try_from(q * d).is_err() || i32::try_from(q * d / d).is_err() {
			return Ok(());
		}
		other[0] = (q * d) as i32 as u32 as u128;
		forced = Some(vec![q as i32 as u32 as u128, r as i32 as u32 as u128]);
	} else {
		let k = c.below(other.len());
		let n = g.widths[k];
		other[k] ^= 1 << c.below(n);
	}
	if (g.f)(&other).is_none() {
		return Ok(());
	}
	c.key(g.name.clone());
	c.desc(format!("{} row {rw:x?} from {other:x?}", g.name));
	with_net(c, &g, std::slice::from_ref(&other), |c, ccs, _, _, net| {
		let (ins, outs) = (ids(ccs, &g.ins), ids(ccs, &g.outs));
		let mut frozen = HashSet::new();
		let bits = cat(&rw.iter().copied().zip(g.widths.iter().copied()).collect::<Vec<_>>());
		let cells = row_cells(net, &ins, 0, 1);
		if read_bits(net, &ins, 0, 1).len() != bits.len() {
			return Ok(());
		}
		let mut at = 0;
		for x in cells {
			let n = net_width(net, &ins, x);
			let v = bits[at..at + n].iter().enumerate().fold(0u128, |a, (i, &b)| a | (b as u128) << i);
			at += n;
			if !net.force(x, v.into(), &mut frozen) {
				return Ok(());
			}
		}
		let outc = row_cells(net, &outs, 0, 1);
		if let Some(f) = &forced {
			for (&x, &v) in outc.iter().zip(f) {
				if !net.force(x, v.into(), &mut frozen) {
					return Ok(());
				}
			}
		} else {
			for &x in &outc {
				let mut s = BTreeSet::new();
				net.support(x, &mut s);
				if c.flip() {
					frozen.extend(s);
				}
			}
		}
		c.obs((&g.name, &rw, &other), !net.bad.is_empty());
		let mark = net.mark();
		for floor in [Some(0), None] {
			let done = net.repair(c, &frozen, floor, 400);
			c.count("attempts", 1);
			if done {
				let got = read_bits(net, &outs, 0, 1);
				ensure!(got == want, "{}: inputs {rw:x?} also allow outputs {:x?} instead of {:x?}", g.name, hexbits(&got), hexbits(&want));
				c.count("back to the honest row", 1);
			} else {
				c.count("refused", 1);
			}
			net.undo(mark);
		}
		Ok(())
	})
}
fn net_width(net: &Net, cols: &[OracleId], x: Cell) -> usize {
	let o = cols.iter().find(|&&o| net.cell(o, 0) <= x && x < net.cell(o, 0) + net.col_len(o)).expect("a cell of the columns");
	1 << net.tower(*o)
}

/// g^(xy) = g^out also holds for out = xy + (2^n - 1): the only other product the exponent equation allows.
fn mul_wrap(c: &mut Case) -> Res {
	let g = g_mul(c);
	let mut rw = row(c, &g);
	let k = c.below(2);
	rw[k] = 0;
	if c.flip() {
		rw[1 - k] = 0;
	}
	c.key(g.name.clone());
	c.desc(format!("{} row {rw:x?}", g.name));
	let want = (g.f)(&rw).expect("defined everywhere");
	with_net(c, &g, std::slice::from_ref(&rw), |c, ccs, _, _, net| {
		let (ins, outs) = (ids(ccs, &g.ins), ids(ccs, &g.outs));
		let mut frozen = BTreeSet::new();
		for x in row_cells(net, &ins, 0, 1) {
			net.support(x, &mut frozen);
		}
		let inputs: HashSet<Cell> = frozen.into_iter().collect();
		// the product is all zeros; make it all ones wherever it is committed as exponent bits
		let mut exp_bits: BTreeSet<Cell> = BTreeSet::new();
		for e in &ccs.exponents {
			for &b in &e.bits_ids {
				net.support(net.cell(b, 0), &mut exp_bits);
			}
		}
		let mut frozen = inputs.clone();
		for x in exp_bits {
			if !inputs.contains(&x) {
				net.force(x, B128::ONE, &mut frozen);
			}
		}
		let done = net.repair(c, &frozen, Some(0), 400);
		let got = read_bits(net, &outs, 0, 1);
		ensure!(!done || got == want, "{}: inputs {rw:x?} also allow outputs {:x?}", g.name, hexbits(&got));
		c.obs((&g.name, &rw), !done);
		c.count("refused", 1);
		Ok(())
	})
}

/// Inputs outside a gadget's domain are refused when filling, not a crash, and no witness satisfies them.
fn domain(c: &mut Case) -> Res {
	let g = g_div(c);
	let n = c.range(1, 9);
	let mut rows: Vec<Row> = (0..n).map(|_| row(c, &g)).collect();
	let k = c.below(n);
	if g.name.starts_with("DivSS") && c.flip() {
		rows[k] = vec![0x8000_0000, 0xffff_ffff];
	} else {
		rows[k][1] = 0;
	}
	c.key(g.name.clone());
	c.desc(format!("{} rows {rows:x?}", g.name));
	let mut mem = CpuComputeAllocator::<P>::new(1 << 16);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&g.cs, &alloc);
	let par = c.flip();
	let r = guard(|| if par { w.fill_table_parallel(&Filler(g.table, &*g.fill), &rows) } else { w.fill_table_sequential(&Filler(g.table, &*g.fill), &rows) });
	match r {
		Err(p) => fail!("{}: filling with inputs {:x?} panicked: {p}", g.name, rows[k]),
		Ok(Ok(())) => fail!("{}: filling with inputs {:x?} was not refused", g.name, rows[k]),
		Ok(Err(_)) => c.obs((&g.name, &rows), true),
	}
	Ok(())
}

struct Fill<'a, E>(TableId, Box<dyn Fn(&[E], &mut Seg) -> anyhow::Result<()> + Sync + 'a>);
impl<E: Clone + Sync> TableFiller<P> for Fill<'_, E> {
	type Event = E;
	fn id(&self) -> TableId {
		self.0
	}
	fn fill(&self, rows: &[E], w: &mut Seg) -> anyhow::Result<()> {
		(self.1)(rows, w)
	}
}

/// Lookup tables end to end: reads through the gadgets, through other tables (with multiplicities) and
/// at the boundary are all counted, the balanced system is accepted, and no false entry gets in.
fn lookups(c: &mut Case) -> Res {
	let and_kind = c.below(4) == 0;
	let entry = move |i: usize| -> u32 {
		if and_kind {
			let (a, b) = (i as u32 & 255, i as u32 >> 8);
			a | b << 8 | (a & b) << 16
		} else {
			let (x, ci) = (i as u32 & 255, i as u32 >> 8);
			let s = x + ci;
			x | (s & 255) << 8 | ci << 16 | (s >> 8) << 17
		}
	};
	let size = if and_kind { 1 << 16 } else { 1 << 9 };
	let mut cs = ConstraintSystem::new();
	let chan = cs.add_channel("lookup");
	let perm = cs.add_channel("permutation");
	let mbits = c.range(6, 12);
	enum L {
		And(and::BitAndLookup),
		Incr(incr::IncrLookup),
	}
	let lookup = {
		let mut t = cs.add_table("table");
		if and_kind { L::And(and::BitAndLookup::new(&mut t, chan, perm, mbits)) } else { L::Incr(incr::IncrLookup::new(&mut t, chan, perm, mbits)) }
	};
	enum K {
		And(and::BitAndLooker),
		Incr(incr::IncrLooker),
	}
	let looker = {
		let mut t = cs.add_table("looker");
		let id = t.id();
		(id, if and_kind { K::And(and::BitAndLooker::new(&mut t, chan)) } else { K::Incr(incr::IncrLooker::new(&mut t, chan)) })
	};
	let mult = c.pick(&[1u32, 2, 3]);
	let raw = {
		let mut t = cs.add_table("raw");
		let col = t.add_committed::<B32, 1>("tokens");
		t.pull_with_opts(chan, [col], FlushOpts { multiplicity: mult, selectors: vec![] });
		(t.id(), col)
	};
	let idx = |c: &mut Case| if c.flip() { c.below(size) } else { c.pick(&[0, 1, 255, 256, 257, 511, size - 1]) };
	let n1 = c.range(1, 12);
	let n2 = c.range(1, 9);
	let looked: Vec<usize> = (0..n1).map(|_| idx(c)).collect();
	let rawed: Vec<usize> = (0..n2).map(|_| idx(c)).collect();
	let bnd: Vec<usize> = (0..c.below(4)).map(|_| idx(c)).collect();
	let bmult = c.pick(&[1u64, 1, 2, 5]);
	// 0: honest; the others must be refused
	let lie = c.below(6);
	c.key(format!("{} lie {lie}", if and_kind { "and" } else { "incr" }));
	c.desc(format!("and={and_kind} mult={mult} bits={mbits} looked {looked:x?} raw {rawed:x?} boundary {bnd:x?}*{bmult} lie {lie}"));
	let mut tokens: Vec<u32> = rawed.iter().map(|&i| entry(i)).collect();
	let mut boundaries: Vec<Boundary<B128>> = bnd.iter().map(|&i| Boundary { values: vec![B128::from(entry(i) as u128)], channel_id: chan, direction: FlushDirection::Pull, multiplicity: bmult }).collect();
	// a false entry keeps its index, so that the tally cannot notice
	let bad_bit = |c: &mut Case| if and_kind { 1 << (16 + c.below(8)) } else { c.pick(&[1u32 << 8, 1 << 9, 1 << 15, 1 << 17]) };
	match lie {
		1 => {
			let k = c.below(n2);
			tokens[k] ^= bad_bit(c);
		}
		2 => {
			let i = idx(c);
			boundaries.push(Boundary { values: vec![B128::from((entry(i) ^ bad_bit(c)) as u128)], channel_id: chan, direction: FlushDirection::Pull, multiplicity: bmult });
		}
		_ => {}
	}
	let mut mem = CpuComputeAllocator::<P>::new(1 << 18);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &alloc);
	let (lid, lk) = &looker;
	let fill_looked = Fill(*lid, Box::new(move |rows: &[usize], w: &mut Seg| match lk {
		K::And(k) => {
			let ev: Vec<(u8, u8)> = rows.iter().map(|&i| (i as u8, (i >> 8) as u8)).collect();
			k.populate(w, ev.iter())
		}
		K::Incr(k) => {
			let ev: Vec<(u8, bool)> = rows.iter().map(|&i| (i as u8, i >> 8 == 1)).collect();
			k.populate(w, ev.iter())
		}
	}));
	if c.flip() { w.fill_table_parallel(&fill_looked, &looked) } else { w.fill_table_sequential(&fill_looked, &looked) }.map_err(es)?;
	let col = raw.1;
	w.fill_table_sequential(&Fill(raw.0, Box::new(move |rows: &[u32], w: &mut Seg| {
		let mut d = w.get_mut_as::<u32, _, 1>(col)?;
		d[..rows.len()].copy_from_slice(rows);
		Ok(())
	})), &tokens).map_err(es)?;
	let counts = if and_kind { tally(&cs, &mut w, &boundaries, chan, &and::BitAndIndexedLookup) } else { tally(&cs, &mut w, &boundaries, chan, &incr::IncrIndexedLookup) }.map_err(es)?;
	let mut want = vec![0u64; size];
	for &i in &looked {
		want[i] += 1;
	}
	for &i in &rawed {
		want[i] += mult as u64;
	}
	for b in &boundaries {
		let v = u128::from(b.values[0]) as usize;
		want[if and_kind { v & 0xffff } else { v & 255 | (v >> 16 & 1) << 8 }] += b.multiplicity;
	}
	ensure_eq!(counts.len(), size, "counts");
	for i in 0..size {
		ensure!(counts[i] as u64 == want[i], "entry {i:x} is read {} times, tallied {}", want[i], counts[i]);
	}
	let total: u64 = want.iter().sum();
	let mut rows: Vec<(usize, u32)> = counts.into_iter().enumerate().collect();
	rows.sort_by_key(|r| std::cmp::Reverse(r.1));
	match lie {
		// counts that do not add up
		3 => {
			let k = c.below(rows.iter().filter(|r| r.1 > 0).count());
			if c.flip() { rows[k].1 += 1 } else { rows[k].1 -= 1 };
			rows.sort_by_key(|r| std::cmp::Reverse(r.1));
		}
		// an entry listed twice and another one missing
		4 => {
			let k = c.below(size - 1);
			rows[k].0 = rows[k + 1].0;
		}
		// one entry read instead of another
		5 => {
			let k = rows.iter().filter(|r| r.1 > 0).count();
			if rows[0].1 == rows[k].1 {
				return Ok(());
			}
			let t = rows[0].0;
			rows[0].0 = rows[k].0;
			rows[k].0 = t;
		}
		_ => {}
	}
	let par = c.flip();
	let r = match &lookup {
		L::And(l) => if par { w.fill_table_parallel(l, &rows) } else { w.fill_table_sequential(l, &rows) },
		L::Incr(l) => if par { w.fill_table_parallel(l, &rows) } else { w.fill_table_sequential(l, &rows) },
	};
	if let Err(e) = r {
		ensure!(rows[0].1 >> mbits != 0, "filling the table: {e:?}");
		return Ok(());
	}
	ensure!(rows[0].1 >> mbits == 0, "a count of {} fit {mbits} bits", rows[0].1);
	w.fill_constant_cols().map_err(es)?;
	let sizes = w.table_sizes();
	let ccs = cs.compile().map_err(es)?;
	let ix = w.into_multilinear_extension_index();
	let r = validate_witness(&ccs, &boundaries, &sizes, &ix);
	c.obs((and_kind, &looked, &tokens, lie), true);
	c.count("reads", total);
	if lie == 0 {
		r.map_err(|e| format!("the validator refuses an honest lookup: {e}"))?;
		if !and_kind && c.below(8) == 0 {
			let p = Params { rate: 1, sec: 20 };
			let dig = ccs.digest::<binius_hash::groestl::Groestl256>();
			let proof = prove::<OptimalUnderlier>(&ccs, p, &dig, &boundaries, &sizes, ix).map_err(|e| format!("proving: {e}"))?;
			verify::<OptimalUnderlier>(&ccs, p, &dig, &boundaries, &proof).map_err(|e| format!("verifying: {e}"))?;
			c.count("proofs", 1);
		}
	} else {
		ensure!(r.is_err(), "accepted although {}", ["", "a table reads a false entry", "the boundary reads a false entry", "the counts are off", "the table is not a permutation of the entries", "another entry is counted"][lie]);
		c.count("refused", 1);
	}
	Ok(())
}

/// Independent of the gadget: the P permutation of Groestl on bytes in the AES basis.
fn tree_compress(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
	let to = |b: u8| binius_field::AESTowerField8b::from(B8::new(b)).val();
	let from = |b: u8| B8::from(binius_field::AESTowerField8b::new(b)).val();
	let x: [u8; 64] = std::array::from_fn(|i| to(if i < 32 { l[i] } else { r[i - 32] }));
	let mut s = x;
	groestl_perm(false, &mut s);
	std::array::from_fn(|i| from(s[32 + i] ^ x[32 + i]))
}

fn merkle(c: &mut Case) -> Res {
	let mut cs = ConstraintSystem::new();
	let mt = merkle_tree::MerkleTreeCS::new(&mut cs);
	let n_trees = c.range(1, 3);
	let depth: Vec<usize> = (0..n_trees).map(|_| c.range(1, 5)).collect();
	let leaves: Vec<Vec<[u8; 32]>> = depth.iter().map(|&d| (0..1 << d).map(|_| c.bytes(32).try_into().expect("32 bytes")).collect()).collect();
	// the tree by definition
	let mut layers: Vec<Vec<Vec<[u8; 32]>>> = vec![];
	for l in &leaves {
		let mut ls = vec![l.clone()];
		while ls.last().expect("not empty").len() > 1 {
			let next = ls.last().expect("not empty").chunks(2).map(|p| tree_compress(&p[0], &p[1])).collect();
			ls.push(next);
		}
		layers.push(ls);
	}
	let trees: Vec<MerkleTree> = leaves.iter().map(|l| MerkleTree::new(l)).collect();
	for (t, l) in trees.iter().zip(&layers) {
		ensure_eq!(t.root(), l.last().expect("not empty")[0], "root");
	}
	let roots: Vec<[u8; 32]> = trees.iter().map(|t| t.root()).collect();
	let n = c.range(1, 6);
	let mut open: Vec<(usize, usize)> = (0..n).map(|_| { let t = c.below(n_trees); (t, c.below(1 << depth[t])) }).collect();
	open.sort();
	open.dedup();
	let mut paths = vec![];
	for &(t, i) in &open {
		let nodes = trees[t].merkle_path(i);
		let want: Vec<[u8; 32]> = (0..depth[t]).map(|j| layers[t][j][i >> j ^ 1]).collect();
		ensure!(nodes == want, "tree of depth {}: wrong path for leaf {i}", depth[t]);
		paths.push(MerklePath { root_id: t as u8, index: i, leaf: leaves[t][i], nodes });
	}
	let lie = c.below(5);
	c.key(format!("trees {depth:?} opened {} lie {lie}", open.len()));
	c.desc(format!("trees {depth:?} opened {open:?} lie {lie}"));
	let trace = MerkleTreeTrace::generate(roots, &paths);
	let mut mem = CpuComputeAllocator::<P>::new(1 << 18);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &alloc);
	mt.fill_tables(&trace, &cs, &mut w).map_err(es)?;
	let mut b = mt.make_boundaries(&trace);
	// the statement: exactly the opened leaves and their roots
	let hx = |d: &[u8; 32]| (0..8).map(|i| B128::from(u32::from_le_bytes([d[i], d[8 + i], d[16 + i], d[24 + i]]) as u128)).collect::<Vec<_>>();
	let mut want: Vec<Vec<B128>> = vec![];
	for &(t, i) in &open {
		let mut v = vec![B128::from(t as u128)];
		v.extend(hx(&leaves[t][i]));
		v.extend([B128::from(depth[t] as u128), B128::from(i as u128)]);
		want.push(v);
	}
	for t in open.iter().map(|o| o.0).collect::<BTreeSet<_>>() {
		let mut v = vec![B128::from(t as u128)];
		v.extend(hx(&trees[t].root()));
		want.push(v);
	}
	let mut got: Vec<Vec<B128>> = b.iter().map(|b| b.values.clone()).collect();
	let key = |v: &Vec<B128>| v.iter().map(|&x| u128::from(x)).collect::<Vec<_>>();
	want.sort_by_key(key);
	got.sort_by_key(key);
	ensure!(want == got, "the boundaries are not the opened leaves and roots");
	w.fill_constant_cols().map_err(es)?;
	let sizes = w.table_sizes();
	let ccs = cs.compile().map_err(es)?;
	let ix = w.into_multilinear_extension_index();
	if lie > 0 {
		let k = c.below(b.len());
		let len = b[k].values.len();
		let j = match lie {
			1 => 0,
			2 => c.range(1, 8),
			_ => c.below(len),
		};
		b[k].values[j] += B128::from(1u128 << c.below(if j == 0 || j > 8 { 8 } else { 32 }));
		if lie == 4 {
			// and drop another statement
			let k = c.below(b.len());
			b.remove(k);
		}
	}
	let r = validate_witness(&ccs, &b, &sizes, &ix);
	c.obs((&open, &leaves, lie), true);
	if lie == 0 {
		r.map_err(|e| format!("the validator refuses honest openings: {e}"))?;
		c.count("openings", open.len() as u64);
	} else {
		ensure!(r.is_err(), "a changed statement was accepted");
		c.count("refused", 1);
	}
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C22");
	m.rule("each gadget on edge and random inputs: outputs equal an independent reference, virtual columns and constraints (evaluated by definition, cell by cell) hold, validation and sampled proofs accept; then a search for other satisfying assignments with the same inputs and different outputs, started from disturbed cells, forced outputs and transplanted rows; non-trivial when constraints were evaluated on a non-empty row");
	let n = m.n(2000, 20000);
	m.par("small", n, |c| {
		let g = small(c);
		let n = c.pick(&[1, 1, 2, 3, 4, 5, 8, 17]);
		let prove_it = c.below(24) == 0;
		honest(c, &g, n, prove_it)
	});
	let n = m.n(4000, 40000);
	m.par("forge", n, |c| {
		let g = small(c);
		forge(c, &g, 24)
	});
	let n = m.n(2000, 20000);
	m.par("transplant", n, transplant);
	let n = m.n(300, 3000);
	m.par("wrap", n, mul_wrap);
	let n = m.n(300, 3000);
	m.par("domain", n, domain);
	let n = m.n(400, 4000);
	m.par("lookups", n, lookups);
	let n = m.n(60, 600);
	m.par("merkle", n, merkle);
	let n = m.n(10, 80);
	m.par("hashes", n, |c| {
		let g = large(c);
		let n = if g.name.starts_with("Groestl") { c.pick(&[1, 2, 3]) } else { 1 };
		honest(c, &g, n, false)
	});
	let n = m.n(10, 80);
	m.par("hash forge", n, |c| {
		let g = large(c);
		let tries = if g.name == "KeccakfLookedup" { 6 } else { 60 };
		forge(c, &g, tries)
	});
	m.finish();
}
