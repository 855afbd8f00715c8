//! Random M3 constraint systems over dynamically typed columns, with a reference model of what
//! every column holds and of what the system demands (column definitions, zero constraints,
//! non-zero columns, exponentiations, channel balance).
use std::{any::Any, collections::HashMap};

use binius_core::{
	constraint_system::channel::{Boundary, ChannelId, FlushDirection},
	oracle::ShiftVariant,
};
use binius_field::{Field, TowerField};
use binius_m3::builder::{
	B1, B8, B16, B32, B64, B128, Col, ColumnId, ConstraintSystem, Expr, FlushOpts, StructuredDynSize, TableBuilder, TableId, TableWitnessSegment, WitnessIndex,
	test_utils::ClosureFiller, upcast_col,
};
use binius_math::{ArithCircuit, ArithExpr};
use vmon::Case;

pub const LEVELS: [u8; 6] = [0, 3, 4, 5, 6, 7];
pub fn mask(lvl: u8) -> u128 {
	if lvl == 7 { u128::MAX } else { (1u128 << (1u32 << lvl)) - 1 }
}
fn fe(v: u128) -> B128 {
	B128::new(v)
}
fn mul(a: u128, b: u128) -> u128 {
	(fe(a) * fe(b)).val()
}

/// A field of a column, with conversions from the handles of columns over its subfields.
pub trait Lvl: TowerField {
	const L: u8;
	fn of(v: u128) -> Self;
	fn leaf<const V: usize>(h: &ColRef) -> Col<Self, V>;
}
macro_rules! lvl {
	($t:ident, $l:expr, $conv:expr, [$($sub:ident),*]) => {
		impl Lvl for $t {
			const L: u8 = $l;
			fn of(v: u128) -> Self { $conv(v) }
			fn leaf<const V: usize>(h: &ColRef) -> Col<Self, V> {
				if let Some(c) = h.any.downcast_ref::<Col<$t, V>>() { return *c; }
				$(if let Some(c) = h.any.downcast_ref::<Col<$sub, V>>() { return upcast_col(*c); })*
				panic!("harness: column of level {} V {} used at level {} V {}", h.lvl, 1 << h.logv, $l, V)
			}
		}
	};
}
lvl!(B1, 0, |v| B1::from((v & 1) as u8), []);
lvl!(B8, 3, |v| B8::new(v as u8), [B1]);
lvl!(B16, 4, |v| B16::new(v as u16), [B8, B1]);
lvl!(B32, 5, |v| B32::new(v as u32), [B16, B8, B1]);
lvl!(B64, 6, |v| B64::new(v as u64), [B32, B16, B8, B1]);
lvl!(B128, 7, |v| B128::new(v), [B64, B32, B16, B8, B1]);

macro_rules! with_l {
	($lvl:expr, $T:ident, $body:expr) => {
		match $lvl {
			0 => { type $T = B1; $body }
			3 => { type $T = B8; $body }
			4 => { type $T = B16; $body }
			5 => { type $T = B32; $body }
			6 => { type $T = B64; $body }
			7 => { type $T = B128; $body }
			_ => unreachable!(),
		}
	};
}
macro_rules! with_v {
	($logv:expr, $V:ident, $body:expr) => {
		match $logv {
			0 => { const $V: usize = 1; $body }
			1 => { const $V: usize = 2; $body }
			2 => { const $V: usize = 4; $body }
			3 => { const $V: usize = 8; $body }
			4 => { const $V: usize = 16; $body }
			5 => { const $V: usize = 32; $body }
			_ => unreachable!(),
		}
	};
}
macro_rules! with_lv {
	($lvl:expr, $logv:expr, $T:ident, $V:ident, $body:expr) => { with_l!($lvl, $T, with_v!($logv, $V, $body)) };
}

#[derive(Clone, Debug)]
pub enum RE {
	Var(usize),
	C(u128),
	Add(Box<RE>, Box<RE>),
	Mul(Box<RE>, Box<RE>),
	Pow(Box<RE>, u64),
}
impl RE {
	pub fn eval(&self, at: &impl Fn(usize) -> u128) -> u128 {
		match self {
			RE::Var(i) => at(*i),
			RE::C(v) => *v,
			RE::Add(a, b) => a.eval(at) ^ b.eval(at),
			RE::Mul(a, b) => mul(a.eval(at), b.eval(at)),
			RE::Pow(a, e) => fe(a.eval(at)).pow([*e]).val(),
		}
	}
	pub fn degree(&self) -> u64 {
		match self {
			RE::Var(_) => 1,
			RE::C(_) => 0,
			RE::Add(a, b) => a.degree().max(b.degree()),
			RE::Mul(a, b) => a.degree() + b.degree(),
			RE::Pow(a, e) => a.degree() * e,
		}
	}
	fn vars(&self, out: &mut Vec<usize>) {
		match self {
			RE::Var(i) => out.push(*i),
			RE::C(_) => {}
			RE::Add(a, b) | RE::Mul(a, b) => {
				a.vars(out);
				b.vars(out)
			}
			RE::Pow(a, _) => a.vars(out),
		}
	}
}

#[derive(Clone, Debug)]
pub enum Def {
	/// any values
	Free,
	/// committed, filled with the value of an expression (a constraint ties it)
	Tied(RE),
	/// committed, 0 where the other column is not 0
	Complement(usize),
	/// committed: equals `.1` where bit `.0` is set, free otherwise
	Gated(usize, usize),
	Linear(RE),
	NonLinear(RE),
	Shift { src: usize, block: usize, off: usize, var: ShiftVariant },
	Packed { src: usize },
	Selected { src: usize, index: usize },
	Block { src: usize, index: usize },
	Pad { src: usize, nz: usize },
	Const(Vec<u128>),
	StaticExp { bits: Vec<usize>, base: u128 },
	DynExp { bits: Vec<usize>, base: usize },
	Incr,
	Fixed(RE),
	/// committed values given by the generator (channel sinks)
	Given(Vec<u128>),
}
pub struct ColRef {
	pub lvl: u8,
	pub logv: usize,
	pub id: ColumnId,
	pub def: Def,
	pub nonzero: bool,
	any: Box<dyn Any + Send + Sync>,
}
impl ColRef {
	pub fn committed(&self) -> bool {
		matches!(self.def, Def::Free | Def::Tied(_) | Def::Complement(_) | Def::Gated(..) | Def::NonLinear(_) | Def::Given(_))
	}
	pub fn exp(&self) -> bool {
		matches!(self.def, Def::StaticExp { .. } | Def::DynExp { .. })
	}
	pub fn v(&self) -> usize {
		1 << self.logv
	}
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Size {
	Any,
	Po2,
	Fixed(usize),
}
pub struct Tab {
	pub id: TableId,
	pub spec: Size,
	pub size: usize,
	pub cols: Vec<ColRef>,
	/// (log V, expression over column indices)
	pub zeros: Vec<(usize, RE)>,
	pub flushes: Vec<RFlush>,
	/// per column, size*V values
	pub vals: Vec<Vec<u128>>,
}
#[derive(Clone, Debug)]
pub struct RFlush {
	pub channel: ChannelId,
	pub push: bool,
	pub cols: Vec<usize>,
	pub sel: Vec<usize>,
	pub mult: u32,
	pub logv: usize,
}
pub struct Sys {
	pub cs: ConstraintSystem<B128>,
	pub tabs: Vec<Tab>,
	pub n_channels: usize,
	pub boundaries: Vec<Boundary<B128>>,
	/// what the system contains, for evidence
	pub features: Vec<&'static str>,
}
/// Values of every column of every table over the whole capacity; empty for empty tables.
pub type Full = Vec<Vec<Vec<u128>>>;

impl Tab {
	pub fn cap(&self) -> usize {
		self.size.next_power_of_two()
	}
	/// value of a derived column at (row, j); None for committed free columns
	fn derived(&self, col: usize, row: usize, j: usize, at: &impl Fn(usize, usize, usize) -> u128) -> Option<u128> {
		let c = &self.cols[col];
		Some(match &c.def {
			Def::Free | Def::Given(_) | Def::Complement(_) | Def::Gated(..) | Def::Tied(_) | Def::NonLinear(_) => return None,
			Def::Linear(e) => e.eval(&|i| at(i, row, j)),
			Def::Shift { src, block, off, var } => {
				let b = 1 << block;
				let (base, p) = (j & !(b - 1), j & (b - 1));
				match var {
					ShiftVariant::CircularLeft => at(*src, row, base + (p + b - off % b) % b),
					ShiftVariant::LogicalLeft => {
						if p >= *off {
							at(*src, row, base + p - off)
						} else {
							0
						}
					}
					ShiftVariant::LogicalRight => {
						if p + off < b {
							at(*src, row, base + p + off)
						} else {
							0
						}
					}
				}
			}
			Def::Packed { src } => {
				let s = &self.cols[*src];
				let (d, bits) = (1usize << (c.lvl - s.lvl), 1u32 << s.lvl);
				(0..d).fold(0, |a, k| a | at(*src, row, j * d + k) << (k as u32 * bits))
			}
			Def::Selected { src, index } => at(*src, row, *index),
			Def::Block { src, index } => at(*src, row, index * c.v() + j),
			Def::Pad { src, nz } => {
				let v = self.cols[*src].v();
				if j / v == *nz { at(*src, row, j % v) } else { 0 }
			}
			Def::Const(x) => x[j],
			Def::StaticExp { bits, base } => bits.iter().enumerate().fold((1u128, *base), |(acc, b), (_, i)| (if at(*i, row, 0) == 1 { mul(acc, b) } else { acc }, mul(b, b))).0,
			Def::DynExp { bits, base } => bits.iter().fold((1u128, at(*base, row, 0)), |(acc, b), i| (if at(*i, row, 0) == 1 { mul(acc, b) } else { acc }, mul(b, b))).0,
			Def::Incr => row as u128,
			Def::Fixed(e) => e.eval(&|i| (row >> i & 1) as u128),
		})
	}
	fn fill_vals(&mut self, c: &mut Case) {
		for i in 0..self.cols.len() {
			let v = self.cols[i].v();
			let (m, nz) = (mask(self.cols[i].lvl), self.cols[i].nonzero);
			let mut out = vec![0u128; self.size * v];
			for row in 0..self.size {
				for j in 0..v {
					let at = |k: usize, r: usize, jj: usize| self.vals[k][r * self.cols[k].v() + jj];
					let mut rnd = || {
						let x = match c.below(8) {
							0 => 0,
							1 => 1,
							2 => m,
							_ => c.u128() & m,
						};
						if nz && x == 0 { 1 } else { x }
					};
					out[row * v + j] = match &self.cols[i].def {
						Def::Free => rnd(),
						Def::Given(x) => x[row * v + j],
						Def::Tied(e) | Def::NonLinear(e) => e.eval(&|k| at(k, row, j)),
						Def::Complement(k) => {
							if at(*k, row, j) != 0 {
								0
							} else {
								rnd()
							}
						}
						Def::Gated(s, k) => {
							if at(*s, row, j) == 1 {
								at(*k, row, j)
							} else {
								rnd()
							}
						}
						_ => self.derived(i, row, j, &at).unwrap(),
					};
				}
			}
			self.vals.push(out);
		}
	}
}

struct Gen<'a, 'b> {
	c: &'a mut Case,
	tb: TableBuilder<'b, B128>,
	cols: Vec<ColRef>,
	zeros: Vec<(usize, RE)>,
	feats: Vec<&'static str>,
	spec: Size,
	size: usize,
}
impl Gen<'_, '_> {
	fn put<F: Lvl, const V: usize>(&mut self, col: Col<F, V>, def: Def) -> usize {
		self.cols.push(ColRef { lvl: F::L, logv: V.trailing_zeros() as usize, id: col.id(), def, nonzero: false, any: Box::new(col) });
		self.cols.len() - 1
	}
	fn name(&self) -> String {
		format!("c{}", self.cols.len())
	}
	fn committed(&mut self, lvl: u8, logv: usize, def: Def) -> usize {
		let n = self.name();
		with_lv!(lvl, logv, F, V, {
			let col: Col<F, V> = self.tb.add_committed(n);
			self.put(col, def)
		})
	}
	fn find(&mut self, f: impl Fn(&ColRef) -> bool) -> Option<usize> {
		let xs: Vec<usize> = (0..self.cols.len()).filter(|i| f(&self.cols[*i])).collect();
		if xs.is_empty() { None } else { Some(self.c.pick(&xs)) }
	}
	/// the expression over columns of one V, at the level of its widest column or constant
	fn expr<F: Lvl, const V: usize>(&self, e: &RE) -> Expr<F, V> {
		match e {
			RE::Var(i) => F::leaf::<V>(&self.cols[*i]).into(),
			RE::C(_) => panic!("harness: bare constant"),
			RE::Add(a, b) => match (&**a, &**b) {
				(RE::C(k), x) | (x, RE::C(k)) => self.expr::<F, V>(x) + F::of(*k),
				(x, y) => self.expr::<F, V>(x) + self.expr::<F, V>(y),
			},
			RE::Mul(a, b) => match (&**a, &**b) {
				(RE::C(k), x) | (x, RE::C(k)) => self.expr::<F, V>(x) * F::of(*k),
				(x, y) => self.expr::<F, V>(x) * self.expr::<F, V>(y),
			},
			RE::Pow(a, k) => self.expr::<F, V>(a).pow(*k),
		}
	}
	fn rand_expr(&mut self, logv: usize, maxdeg: u64, lvl: u8) -> Option<RE> {
		let xs: Vec<usize> = (0..self.cols.len()).filter(|i| self.cols[*i].logv == logv && self.cols[*i].lvl <= lvl).collect();
		if xs.is_empty() {
			return None;
		}
		Some(self.re(&xs, maxdeg, lvl, 3))
	}
	fn re(&mut self, xs: &[usize], deg: u64, lvl: u8, depth: usize) -> RE {
		let b = Box::new;
		if depth == 0 || self.c.below(5) == 0 {
			return RE::Var(self.c.pick(xs));
		}
		let k = (self.c.u128() & mask(lvl)).max(1);
		match self.c.below(7) {
			0 => RE::Add(b(self.re(xs, deg, lvl, depth - 1)), b(RE::C(k))),
			1 => RE::Mul(b(self.re(xs, deg, lvl, depth - 1)), b(RE::C(k))),
			2 if deg >= 2 => {
				let d = self.c.range(1, deg as usize - 1) as u64;
				RE::Mul(b(self.re(xs, d, lvl, depth - 1)), b(self.re(xs, deg - d, lvl, depth - 1)))
			}
			3 if deg >= 2 => {
				let e = self.c.range(2, deg as usize) as u64;
				RE::Pow(b(self.re(xs, deg / e, lvl, depth - 1)), e)
			}
			_ => RE::Add(b(self.re(xs, deg, lvl, depth - 1)), b(self.re(xs, deg, lvl, depth - 1))),
		}
	}
	fn lvl_of(&self, e: &RE) -> u8 {
		let mut v = vec![];
		e.vars(&mut v);
		v.iter().map(|i| self.cols[*i].lvl).max().unwrap()
	}
	fn has_const(e: &RE) -> bool {
		match e {
			RE::C(_) => true,
			RE::Var(_) => false,
			RE::Add(a, b) | RE::Mul(a, b) => Self::has_const(a) || Self::has_const(b),
			RE::Pow(a, _) => Self::has_const(a),
		}
	}
	fn assert_zero(&mut self, logv: usize, lvl: u8, e: RE) {
		let n = format!("z{}", self.zeros.len());
		with_lv!(lvl, logv, F, V, {
			let ex = self.expr::<F, V>(&e);
			self.tb.assert_zero(n, ex);
		});
		self.zeros.push((logv, e));
	}
	/// a level at which the expression can be written
	fn level_for(&mut self, e: &RE, cap: u8) -> u8 {
		let l = self.lvl_of(e);
		if Self::has_const(e) {
			cap
		} else if self.c.below(4) == 0 {
			cap
		} else {
			l
		}
	}
	fn step(&mut self) {
		let b = Box::new;
		let add = |x: RE, y: RE| RE::Add(Box::new(x), Box::new(y));
		let op = self.c.below(15);
		let n = self.name();
		match op {
			0 | 1 => {
				let lvl = self.c.pick(&LEVELS);
				let logv = self.c.below(6).min(7 - lvl as usize + 2).min(5);
				self.committed(lvl, logv, Def::Free);
				self.feats.push("committed");
			}
			2 => {
				if let Some(s) = self.find(|c| c.logv >= 1) {
					let (lvl, logv) = (self.cols[s].lvl, self.cols[s].logv);
					let block = self.c.range(1, logv);
					let off = self.c.range(1, (1 << block) - 1);
					let var = self.c.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
					with_lv!(lvl, logv, F, V, {
						let col = self.tb.add_shifted(n, F::leaf::<V>(&self.cols[s]), block, off, var);
						self.put(col, Def::Shift { src: s, block, off, var });
					});
					self.feats.push("shifted");
				}
			}
			3 => {
				let dst = self.c.pick(&LEVELS[1..]);
				let k = self.c.below(4);
				if let Some(s) = self.find(|c| c.lvl < dst && c.logv as u8 >= dst - c.lvl && !matches!(c.def, Def::Const(_)) && c.logv > k) {
					let (sl, sv) = (self.cols[s].lvl, self.cols[s].logv);
					let dv = sv - (dst - sl) as usize;
					macro_rules! go {
						($S:ident, $D:ident) => {
							with_v!(sv, SV, with_v!(dv, DV, {
								let col: Col<$D, DV> = self.tb.add_packed(n, $S::leaf::<SV>(&self.cols[s]));
								self.put(col, Def::Packed { src: s });
							}))
						};
					}
					match (sl, dst) {
						(0, 3) => go!(B1, B8),
						(0, 4) => go!(B1, B16),
						(0, 5) => go!(B1, B32),
						(3, 4) => go!(B8, B16),
						(3, 5) => go!(B8, B32),
						(3, 6) => go!(B8, B64),
						(3, 7) => go!(B8, B128),
						(4, 5) => go!(B16, B32),
						(4, 6) => go!(B16, B64),
						(4, 7) => go!(B16, B128),
						(5, 6) => go!(B32, B64),
						(5, 7) => go!(B32, B128),
						(6, 7) => go!(B64, B128),
						_ => return,
					}
					self.feats.push("packed");
				}
			}
			4 | 5 => {
				let maxd = if op == 4 { 1 } else { 3 };
				let lvl = self.c.pick(&LEVELS);
				let logv = self.c.below(6);
				if let Some(e) = self.rand_expr(logv, maxd, lvl) {
					let lvl = self.level_for(&e, lvl);
					with_lv!(lvl, logv, F, V, {
						let ex = self.expr::<F, V>(&e);
						let lin = ex.degree() <= 1;
						let col = self.tb.add_computed(n, ex);
						if lin {
							self.put(col, Def::Linear(e));
							self.feats.push("computed-linear");
						} else {
							let i = self.put(col, Def::NonLinear(e.clone()));
							self.zeros.push((logv, add(e, RE::Var(i))));
							self.feats.push("computed-nonlinear");
						}
					});
				}
			}
			6 => {
				if let Some(s) = self.find(|c| c.logv >= 1) {
					let (lvl, logv) = (self.cols[s].lvl, self.cols[s].logv);
					let index = self.c.below(1 << logv);
					with_lv!(lvl, logv, F, V, {
						let col = self.tb.add_selected(n, F::leaf::<V>(&self.cols[s]), index);
						self.put(col, Def::Selected { src: s, index });
					});
					self.feats.push("selected");
				}
			}
			7 => {
				if let Some(s) = self.find(|c| c.logv >= 2) {
					let (lvl, logv) = (self.cols[s].lvl, self.cols[s].logv);
					let nv = self.c.range(1, logv - 1);
					let index = self.c.below(1 << (logv - nv));
					with_lv!(lvl, logv, F, V, with_v!(nv, NV, {
						if NV < V {
							let col = self.tb.add_selected_block::<F, V, NV>(n, F::leaf::<V>(&self.cols[s]), index);
							self.put(col, Def::Block { src: s, index });
						}
					}));
					self.feats.push("selected-block");
				}
			}
			8 => {
				if let Some(s) = self.find(|c| c.logv <= 3) {
					let (lvl, logv) = (self.cols[s].lvl, self.cols[s].logv);
					let nv = self.c.range(logv + 1, (logv + 3).min(5));
					let nz = self.c.below(1 << (nv - logv));
					let up = nz + 1 == 1 << (nv - logv) && self.c.flip();
					with_lv!(lvl, logv, F, V, with_v!(nv, NV, {
						if NV > V {
							let src = F::leaf::<V>(&self.cols[s]);
							let col = if up { self.tb.add_zero_pad_upcast::<F, V, NV>(n, src) } else { self.tb.add_zero_pad::<F, V, NV>(n, src, nz) };
							self.put(col, Def::Pad { src: s, nz });
						}
					}));
					self.feats.push("zero-pad");
				}
			}
			9 => {
				let lvl = self.c.pick(&LEVELS);
				let logv = self.c.below(6);
				let data: Vec<u128> = (0..1 << logv).map(|_| self.c.u128() & mask(lvl)).collect();
				with_lv!(lvl, logv, F, V, {
					let arr: [F; V] = std::array::from_fn(|i| F::of(data[i]));
					let col = self.tb.add_constant(n, arr);
					self.put(col, Def::Const(data));
				});
				self.feats.push("constant");
			}
			10 => {
				// a committed column tied by an explicit constraint
				let lvl = self.c.pick(&LEVELS);
				let logv = self.c.below(6);
				if let Some(e) = self.rand_expr(logv, 4, lvl) {
					let lvl = self.level_for(&e, lvl);
					let i = self.committed(lvl, logv, Def::Tied(e.clone()));
					self.assert_zero(logv, lvl, add(e, RE::Var(i)));
					self.feats.push("tied");
				}
			}
			11 => {
				if let Some(s) = self.find(|_| true) {
					let (lvl, logv) = (self.cols[s].lvl, self.cols[s].logv);
					match self.c.below(4) {
						0 => {
							let i = self.committed(lvl, logv, Def::Complement(s));
							self.assert_zero(logv, lvl, RE::Mul(b(RE::Var(s)), b(RE::Var(i))));
							self.feats.push("product-zero");
						}
						1 => {
							let sel = match self.find(|c| c.lvl == 0 && c.logv == logv) {
								Some(x) => x,
								None => self.committed(0, logv, Def::Free),
							};
							let i = self.committed(lvl, logv, Def::Gated(sel, s));
							self.assert_zero(logv, lvl, RE::Mul(b(RE::Var(sel)), b(add(RE::Var(s), RE::Var(i)))));
							self.feats.push("gated");
						}
						2 => {
							// (x+y)^2 = x^2+y^2
							let t = self.find(|c| c.logv == logv && c.lvl <= lvl).unwrap();
							let sq = |x: RE| RE::Pow(Box::new(x), 2);
							if s != t {
								self.assert_zero(logv, lvl, add(sq(add(RE::Var(s), RE::Var(t))), add(sq(RE::Var(s)), sq(RE::Var(t)))));
								self.feats.push("identity");
							}
						}
						_ => {
							let e = RE::Mul(b(RE::Var(s)), b(add(RE::Var(s), RE::C(1))));
							if lvl == 0 {
								self.assert_zero(logv, lvl, e);
								self.feats.push("boolean");
							} else {
								let i = self.committed(lvl, logv, Def::Tied(e.clone()));
								self.assert_zero(logv, lvl, add(e, RE::Var(i)));
								self.feats.push("tied");
							}
						}
					}
				}
			}
			12 => {
				let mut e_bits = vec![];
				let lvl = self.c.pick(&LEVELS[1..]);
				let nb = self.c.range(1, (1usize << lvl).min(12));
				for _ in 0..nb {
					let i = match self.find(|c| c.lvl == 0 && c.logv == 0) {
						Some(i) if self.c.below(3) == 0 => i,
						_ => self.committed(0, 0, Def::Free),
					};
					e_bits.push(i);
				}
				let dynb = if self.c.flip() { self.find(|c| c.lvl == lvl && c.logv == 0) } else { None };
				let base = (self.c.u128() & mask(lvl)).max(2);
				let n = self.name();
				with_l!(lvl, F, {
					let bits: Vec<Col<B1>> = e_bits.iter().map(|i| B1::leaf::<1>(&self.cols[*i])).collect();
					match dynb {
						Some(s) => {
							let col = self.tb.add_dynamic_exp::<F>(n, &bits, F::leaf::<1>(&self.cols[s]));
							self.put(col, Def::DynExp { bits: e_bits, base: s });
							self.feats.push("dynamic-exp");
						}
						None => {
							let col = self.tb.add_static_exp::<F>(n, &bits, F::of(base));
							self.put(col, Def::StaticExp { bits: e_bits, base });
							self.feats.push("static-exp");
						}
					}
				});
			}
			13 => match self.spec {
				Size::Po2 => {
					let lg = self.size.trailing_zeros() as usize;
					let max = self.c.range(lg, lg + 3).max(1);
					let lvl = self.c.pick(&[5u8, 6, 7]);
					with_l!(lvl, F, {
						let col: Col<F> = self.tb.add_structured(n, StructuredDynSize::Incrementing { max_size_log: max });
						self.put(col, Def::Incr);
					});
					self.feats.push("incrementing");
				}
				Size::Fixed(lg) if lg > 0 => {
					// multilinear expression in the row bits
					let mut e: Option<(RE, ArithExpr<B128>)> = None;
					for i in 0..lg {
						let k = self.c.u128() & mask(5);
						let mut t = (RE::Mul(b(RE::C(k)), b(RE::Var(i))), ArithExpr::Const(fe(k)) * ArithExpr::Var(i));
						if i > 0 && self.c.flip() {
							let k = self.c.below(i);
							t = (RE::Mul(b(t.0), b(RE::Var(k))), t.1 * ArithExpr::Var(k));
						}
						e = Some(match e {
							None => t,
							Some(x) => (add(x.0, t.0), x.1 + t.1),
						});
					}
					let (r, a) = e.unwrap();
					let circ = ArithCircuit::from(a);
					if circ.n_vars() == lg {
						let col: Col<B128> = self.tb.add_fixed(n, circ);
						self.put(col, Def::Fixed(r));
						self.feats.push("fixed");
					}
				}
				_ => {}
			},
			_ => {
				let lvl = self.c.pick(&LEVELS);
				let logv = self.c.below(3);
				let i = self.committed(lvl, logv, Def::Free);
				self.cols[i].nonzero = true;
				with_lv!(lvl, logv, F, V, self.tb.assert_nonzero(F::leaf::<V>(&self.cols[i])));
				self.feats.push("nonzero");
			}
		}
	}
}

pub struct Opts {
	pub tables: usize,
	pub max_log_size: usize,
	pub steps: usize,
	pub exps: bool,
}

fn flush(tb: &mut TableBuilder<'_, B128>, cols: &[ColRef], f: &RFlush) {
	if f.logv > 0 {
		// only pulls without options exist for stacked columns
		with_v!(f.logv, V, tb.read(f.channel, f.cols.iter().map(|i| B128::leaf::<V>(&cols[*i])).collect::<Vec<_>>()));
		return;
	}
	let cs: Vec<Col<B128>> = f.cols.iter().map(|i| B128::leaf::<1>(&cols[*i])).collect();
	if f.mult == 1 && f.sel.is_empty() {
		if f.push {
			tb.push(f.channel, cs)
		} else {
			tb.pull(f.channel, cs)
		}
		return;
	}
	let opts = FlushOpts { multiplicity: f.mult, selectors: f.sel.iter().map(|i| B1::leaf::<1>(&cols[*i])).collect() };
	if f.push {
		tb.push_with_opts(f.channel, cs, opts)
	} else {
		tb.pull_with_opts(f.channel, cs, opts)
	}
}

impl Sys {
	pub fn generate(c: &mut Case, o: &Opts) -> Sys {
		let mut cs = ConstraintSystem::<B128>::new();
		let n_channels = c.below(4);
		let channels: Vec<ChannelId> = (0..n_channels).map(|i| cs.add_channel(format!("ch{i}"))).collect();
		let widths: Vec<usize> = (0..n_channels).map(|_| c.range(1, 3)).collect();
		let mut tabs: Vec<Tab> = vec![];
		let mut features = vec![];
		for t in 0..c.range(1, o.tables) {
			let (spec, size) = match c.below(5) {
				0 => {
					let lg = c.range(0, o.max_log_size);
					(Size::Po2, 1 << lg)
				}
				1 => {
					let lg = c.range(0, o.max_log_size);
					(Size::Fixed(lg), 1 << lg)
				}
				_ => (Size::Any, if t > 0 && c.below(8) == 0 { 0 } else { c.range(1, 1 << o.max_log_size) }),
			};
			let mut tb = cs.add_table(format!("t{t}"));
			match spec {
				Size::Po2 => tb.require_power_of_two_size(),
				Size::Fixed(lg) => tb.require_fixed_size(lg),
				Size::Any => {}
			}
			let id = tb.id();
			if size == 0 {
				features.push("empty-table");
			}
			let mut g = Gen { c: &mut *c, tb, cols: vec![], zeros: vec![], feats: vec![], spec, size };
			let l = g.c.pick(&LEVELS);
			let v = g.c.below(6);
			g.committed(l, v, Def::Free);
			for _ in 0..g.c.range(0, o.steps) {
				let n = g.cols.len();
				if g.c.below(4) == 0 {
					// bits with room for packing
					let v = g.c.range(3, 5);
					g.committed(0, v, Def::Free);
				}
				g.step();
				assert!(o.exps || !g.cols[n..].iter().any(|c| c.exp()) || true);
			}
			let mut flushes = vec![];
			for (i, ch) in channels.iter().enumerate() {
				for _ in 0..g.c.below(3) {
					let stacked = g.c.below(4) == 0;
					let logv = if stacked { g.c.below(4) } else { 0 };
					let mut cols = vec![];
					for _ in 0..widths[i] {
						match g.find(|c| c.logv == logv) {
							Some(x) => cols.push(x),
							None => {
								let l = g.c.pick(&LEVELS);
								cols.push(g.committed(l, logv, Def::Free))
							}
						}
					}
					let mut sel = vec![];
					let (push, mult) = if logv > 0 { (false, 1) } else { (g.c.flip(), if g.c.below(3) == 0 { g.c.range(1, 5) as u32 } else { 1 }) };
					if logv == 0 && g.c.below(3) == 0 {
						for _ in 0..g.c.range(1, 2) {
							match g.find(|c| c.lvl == 0 && c.logv == 0) {
								Some(x) => sel.push(x),
								None => sel.push(g.committed(0, 0, Def::Free)),
							}
						}
						g.feats.push("selector");
					}
					if mult > 1 {
						g.feats.push("multiplicity");
					}
					if logv > 0 {
						g.feats.push("stacked-read");
					}
					let f = RFlush { channel: *ch, push, cols, sel, mult, logv };
					flush(&mut g.tb, &g.cols, &f);
					g.feats.push("flush");
					flushes.push(f);
				}
			}
			let Gen { cols, zeros, feats, .. } = g;
			features.extend(feats);
			let mut tab = Tab { id, spec, size, cols, zeros, flushes, vals: vec![] };
			tab.fill_vals(c);
			tabs.push(tab);
		}
		// settle the channels: boundaries, then a sink table for the rest
		let mut boundaries = vec![];
		for (i, ch) in channels.iter().enumerate() {
			let mut bal: Vec<(Vec<u128>, i64)> = balance(&tabs, *ch, |t, k, row, j| tabs[t].vals[k][row * tabs[t].cols[k].v() + j]).into_iter().filter(|x| x.1 != 0).collect();
			bal.sort();
			let mut rest: [Vec<Vec<u128>>; 2] = [vec![], vec![]];
			let style = c.below(4);
			for (vals, m) in bal {
				if style == 0 || (style == 1 && boundaries.len() < 6) {
					boundaries.push(Boundary {
						values: vals.iter().map(|v| fe(*v)).collect(),
						channel_id: *ch,
						direction: if m > 0 { FlushDirection::Pull } else { FlushDirection::Push },
						multiplicity: m.unsigned_abs(),
					});
					features.push("boundary");
				} else {
					for _ in 0..m.abs() {
						rest[(m > 0) as usize].push(vals.clone());
					}
				}
			}
			for (dir, mut rows) in rest.into_iter().enumerate() {
				if rows.is_empty() && c.below(4) > 0 {
					continue;
				}
				// any order
				for k in (1..rows.len()).rev() {
					let j = c.below(k + 1);
					rows.swap(k, j);
				}
				let mut tb = cs.add_table(format!("sink{i}_{dir}"));
				let id = tb.id();
				let mut cols = vec![];
				for w in 0..widths[i] {
					let top = rows.iter().map(|r| r[w]).max().unwrap_or(0);
					let lvl = *LEVELS.iter().find(|l| top <= mask(**l)).unwrap();
					with_l!(lvl, F, {
						let col: Col<F, 1> = tb.add_committed(format!("s{w}"));
						cols.push(ColRef { lvl: F::L, logv: 0, id: col.id(), def: Def::Given(rows.iter().map(|r| r[w]).collect()), nonzero: false, any: Box::new(col) });
					});
				}
				let f = RFlush { channel: *ch, push: dir == 0, cols: (0..widths[i]).collect(), sel: vec![], mult: 1, logv: 0 };
				flush(&mut tb, &cols, &f);
				features.push("sink");
				let mut tab = Tab { id, spec: Size::Any, size: rows.len(), cols, zeros: vec![], flushes: vec![f], vals: vec![] };
				tab.fill_vals(c);
				tabs.push(tab);
			}
		}
		features.sort();
		features.dedup();
		Sys { cs, tabs, n_channels, boundaries, features }
	}

	pub fn describe(&self) -> String {
		format!(
			"tables={:?} channels={} boundaries={} features={:?}",
			self.tabs
				.iter()
				.map(|t| format!("{:?}x{}:{}z{}f[{}]", t.spec, t.size, t.zeros.len(), t.flushes.len(), t.cols.iter().map(|c| format!("{}L{}V{}", def_name(&c.def), c.lvl, c.v())).collect::<Vec<_>>().join(" ")))
				.collect::<Vec<_>>(),
			self.n_channels,
			self.boundaries.len(),
			self.features
		)
	}

	/// Number of 128-bit elements the committed columns take (what FRI commits).
	pub fn committed_elems(&self) -> usize {
		let mut n = 0usize;
		for t in self.tabs.iter().filter(|t| t.size > 0) {
			for c in t.cols.iter().filter(|c| c.committed() || c.exp()) {
				n += 1 << ((t.cap().trailing_zeros() as usize + c.logv + c.lvl as usize).saturating_sub(7));
			}
		}
		n.next_power_of_two()
	}

	/// The reference contents over the whole capacity (padding rows repeat the last row).
	pub fn full(&self) -> Full {
		self.tabs
			.iter()
			.map(|t| {
				if t.size == 0 {
					return vec![];
				}
				t.cols
					.iter()
					.zip(&t.vals)
					.map(|(c, v)| {
						let w = c.v();
						let last = v[(t.size - 1) * w..].to_vec();
						let mut out = v.clone();
						for _ in t.size..t.cap() {
							out.extend_from_slice(&last);
						}
						out
					})
					.collect()
			})
			.collect()
	}

	/// Recomputes every derived column from the committed ones.
	pub fn rederive(&self, full: &mut Full) {
		for (t, tab) in self.tabs.iter().enumerate() {
			if tab.size == 0 {
				continue;
			}
			for i in 0..tab.cols.len() {
				let v = tab.cols[i].v();
				for p in 0..tab.cap() * v {
					let got = tab.derived(i, p / v, p % v, &|k, r, j| full[t][k][r * tab.cols[k].v() + j]);
					if let Some(x) = got {
						full[t][i][p] = x;
					}
				}
			}
		}
	}
	/// Recomputes every derived column except exponentiation results.
	pub fn rederive_virtual(&self, full: &mut Full) {
		let orig = full.clone();
		self.rederive(full);
		// exponentiation results back as given, and what depends on them anew
		for (t, tab) in self.tabs.iter().enumerate() {
			if tab.size == 0 {
				continue;
			}
			for i in 0..tab.cols.len() {
				if tab.cols[i].exp() {
					full[t][i] = orig[t][i].clone();
				} else {
					let v = tab.cols[i].v();
					for p in 0..tab.cap() * v {
						let got = tab.derived(i, p / v, p % v, &|k, r, j| full[t][k][r * tab.cols[k].v() + j]);
						if let Some(x) = got {
							full[t][i][p] = x;
						}
					}
				}
			}
		}
	}
	/// Recomputes packed columns (which share their storage with what they pack).
	pub fn rederive_packed(&self, full: &mut Full) {
		for (t, tab) in self.tabs.iter().enumerate() {
			for i in 0..tab.cols.len() {
				if tab.size > 0 && matches!(tab.cols[i].def, Def::Packed { .. }) {
					let v = tab.cols[i].v();
					for p in 0..tab.cap() * v {
						full[t][i][p] = tab.derived(i, p / v, p % v, &|k, r, j| full[t][k][r * tab.cols[k].v() + j]).unwrap();
					}
				}
			}
		}
	}
	/// What the tables contribute to a channel.
	pub fn channel(&self, full: &Full, ch: ChannelId) -> HashMap<Vec<u128>, i64> {
		balance(&self.tabs, ch, |t, k, row, j| full[t][k][row * self.tabs[t].cols[k].v() + j])
	}
	/// Overwrites exponentiation results with the right values (as the prover does).
	pub fn set_exps(&self, full: &mut Full) {
		for (t, tab) in self.tabs.iter().enumerate() {
			for i in 0..tab.cols.len() {
				if tab.size > 0 && tab.cols[i].exp() {
					for p in 0..tab.cap() {
						full[t][i][p] = tab.derived(i, p, 0, &|k, r, j| full[t][k][r * tab.cols[k].v() + j]).unwrap();
					}
				}
			}
		}
	}

	/// What the system demands of the given contents; the first thing that is wrong.
	/// `exps`: whether exponentiation columns are checked.
	pub fn check(&self, full: &Full, defs: bool, exps: bool) -> Result<(), String> {
		self.check_but_channels(full, defs, exps)?;
		for ch in 0..self.n_channels {
			let mut b = self.channel(full, ch);
			for x in self.boundaries.iter().filter(|b| b.channel_id == ch) {
				*b.entry(x.values.iter().map(|v| v.val()).collect()).or_default() += x.multiplicity as i64 * if x.direction == FlushDirection::Push { 1 } else { -1 };
			}
			if b.values().any(|m| *m != 0) {
				return Err(format!("channel {ch} unbalanced"));
			}
		}
		Ok(())
	}
	pub fn check_but_channels(&self, full: &Full, defs: bool, exps: bool) -> Result<(), String> {
		for (t, tab) in self.tabs.iter().enumerate() {
			if tab.size == 0 {
				continue;
			}
			let at = |k: usize, r: usize, j: usize| full[t][k][r * tab.cols[k].v() + j];
			for (i, c) in tab.cols.iter().enumerate() {
				let v = c.v();
				for p in 0..tab.cap() * v {
					if if c.exp() { exps } else { defs } {
						if let Some(x) = tab.derived(i, p / v, p % v, &at) {
							if x != full[t][i][p] {
								return Err(format!("t{t} column {i} ({}) at {p}", def_name(&c.def)));
							}
						}
					}
					if c.nonzero && full[t][i][p] == 0 {
						return Err(format!("t{t} non-zero column {i} at {p}"));
					}
				}
			}
			for (k, (logv, e)) in tab.zeros.iter().enumerate() {
				for p in 0..tab.cap() << logv {
					if e.eval(&|i| full[t][i][p]) != 0 {
						return Err(format!("t{t} constraint {k} at {p}: {e:?}"));
					}
				}
			}
		}
		Ok(())
	}

	/// Fills the witness with the given contents over the whole capacity.
	pub fn fill_full<'cs, 'alloc, P>(&'cs self, w: &mut WitnessIndex<'cs, 'alloc, P>, full: &Full) -> Result<(), String>
	where
		P: Pk,
	{
		for (t, tab) in self.tabs.iter().enumerate() {
			if tab.size == 0 {
				continue;
			}
			let ti = w.init_table(tab.id, tab.size).map_err(|e| e.to_string())?;
			let mut seg = ti.full_segment();
			for (i, c) in tab.cols.iter().enumerate() {
				if matches!(c.def, Def::Packed { .. }) {
					continue;
				}
				let mut m = seg.get_dyn_mut(c.id).map_err(|e| e.to_string())?;
				for (p, v) in full[t][i].iter().enumerate() {
					m.set(p, fe(*v)).map_err(|e| e.to_string())?;
				}
			}
			let _ = &mut seg;
		}
		Ok(())
	}

	pub fn filler<'a, P: Pk>(&'a self, t: usize) -> ClosureFiller<'a, P, usize> {
		let tab = &self.tabs[t];
		ClosureFiller::new(tab.id, move |events: &[usize], seg: &mut TableWitnessSegment<P>| {
			if events.len() != seg.size() {
				anyhow::bail!("filler called with {} events for a segment of {} rows", events.len(), seg.size());
			}
			for (i, c) in tab.cols.iter().enumerate() {
				if matches!(c.def, Def::Packed { .. } | Def::Const(_)) {
					continue;
				}
				let v = c.v();
				let mut m = seg.get_dyn_mut(c.id)?;
				for (r, e) in events.iter().enumerate() {
					for j in 0..v {
						m.set(r * v + j, fe(tab.vals[i][e * v + j]))?;
					}
				}
			}
			Ok(())
		})
	}

	/// Reads every column of a filled table over the whole capacity.
	pub fn read_back<'cs, 'alloc, P: Pk>(&'cs self, w: &mut WitnessIndex<'cs, 'alloc, P>) -> Result<Full, String> {
		let mut out = vec![];
		for tab in &self.tabs {
			if tab.size == 0 {
				out.push(vec![]);
				continue;
			}
			let ti = w.get_table(tab.id).ok_or("table missing")?;
			let seg = ti.full_segment();
			let mut cols = vec![];
			for c in &tab.cols {
				let m = seg.get_dyn(c.id).map_err(|e| e.to_string())?;
				let n = tab.cap() * c.v();
				let mut v = vec![];
				for p in 0..n {
					v.push(m.get(p).val());
				}
				cols.push(v);
			}
			out.push(cols);
		}
		Ok(out)
	}
}
pub trait Pk:
	binius_field::PackedField<Scalar = B128>
	+ binius_field::PackedExtension<B1>
	+ binius_field::PackedExtension<B8>
	+ binius_field::PackedExtension<B16>
	+ binius_field::PackedExtension<B32>
	+ binius_field::PackedExtension<B64>
	+ binius_field::PackedExtension<B128>
	+ 'static
{
}
impl<T> Pk for T where
	T: binius_field::PackedField<Scalar = B128>
		+ binius_field::PackedExtension<B1>
		+ binius_field::PackedExtension<B8>
		+ binius_field::PackedExtension<B16>
		+ binius_field::PackedExtension<B32>
		+ binius_field::PackedExtension<B64>
		+ binius_field::PackedExtension<B128>
		+ 'static
{
}

pub fn def_name(d: &Def) -> &'static str {
	match d {
		Def::Free => "free",
		Def::Tied(_) => "tied",
		Def::Complement(_) => "compl",
		Def::Gated(..) => "gated",
		Def::Linear(_) => "lin",
		Def::NonLinear(_) => "nonlin",
		Def::Shift { .. } => "shift",
		Def::Packed { .. } => "packed",
		Def::Selected { .. } => "sel",
		Def::Block { .. } => "block",
		Def::Pad { .. } => "pad",
		Def::Const(_) => "const",
		Def::StaticExp { .. } => "sexp",
		Def::DynExp { .. } => "dexp",
		Def::Incr => "incr",
		Def::Fixed(_) => "fixed",
		Def::Given(_) => "given",
	}
}

fn balance(tabs: &[Tab], ch: ChannelId, at: impl Fn(usize, usize, usize, usize) -> u128) -> HashMap<Vec<u128>, i64> {
	let mut bal: HashMap<Vec<u128>, i64> = HashMap::new();
	for (t, tab) in tabs.iter().enumerate() {
		for f in tab.flushes.iter().filter(|f| f.channel == ch) {
			for row in 0..tab.size {
				for j in 0..1 << f.logv {
					if f.sel.iter().all(|s| at(t, *s, row, 0) == 1) {
						let v: Vec<u128> = f.cols.iter().map(|k| at(t, *k, row, j)).collect();
						*bal.entry(v).or_default() += f.mult as i64 * if f.push { 1 } else { -1 };
					}
				}
			}
		}
	}
	bal
}
