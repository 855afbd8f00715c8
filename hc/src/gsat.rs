//! A compiled constraint system, evaluated cell by cell from the definitions of its oracles, and a
//! search for assignments that satisfy it with other outputs than the honest ones.
//!
//! Nothing here uses the repository's evaluation code: virtual columns are computed from their
//! definition, exponentiations by square and multiply, constraints by walking their circuit.
use std::collections::{BTreeSet, HashMap, HashSet};

use binius_core::{
	constraint_system::{
		ConstraintSystem as Ccs,
		channel::{ChannelId, FlushDirection, OracleOrConst},
	},
	oracle::{ConstraintPredicate, MultilinearOracleSet, MultilinearPolyVariant as V, OracleId, ShiftVariant},
};
use binius_field::{Field, TowerField};
use binius_m3::builder::B128;
use binius_math::{ArithCircuit, ArithCircuitStep};

use crate::{Case, es};

pub type Cell = usize;

enum Inst {
	/// Composition of a constraint set at an index.
	Zero(usize, usize, usize),
	NonZero(Cell),
	/// Token of a flush at an index, which a predicate must admit.
	Member(usize, usize),
}
pub type Member<'a> = (ChannelId, Box<dyn Fn(&[B128]) -> bool + 'a>);

pub struct Net<'a> {
	ccs: &'a Ccs<B128>,
	oracles: MultilinearOracleSet<B128>,
	off: Vec<usize>,
	len: Vec<usize>,
	owner: Vec<u32>,
	val: Vec<B128>,
	level: Vec<u32>,
	free: Vec<bool>,
	src: Vec<Vec<Cell>>,
	dep: Vec<Vec<Cell>>,
	exp_of: HashMap<usize, usize>,
	insts: Vec<Inst>,
	inst_cells: Vec<Vec<Cell>>,
	cell_insts: Vec<Vec<u32>>,
	members: Vec<Member<'a>>,
	pub bad: BTreeSet<u32>,
	log: Vec<(Cell, B128)>,
	pub steps: u64,
	/// Cells recomputed so far, and the count at which `repair` gives up.
	pub work: u64,
	pub limit: u64,
	probed: std::cell::Cell<u64>,
}

pub fn run_circuit(c: &ArithCircuit<B128>, vars: impl Fn(usize) -> B128) -> B128 {
	let mut r: Vec<B128> = Vec::with_capacity(c.steps().len());
	for s in c.steps() {
		let v = match *s {
			ArithCircuitStep::Add(a, b) => r[a] + r[b],
			ArithCircuitStep::Mul(a, b) => r[a] * r[b],
			ArithCircuitStep::Pow(a, e) => r[a].pow([e]),
			ArithCircuitStep::Const(k) => k,
			ArithCircuitStep::Var(i) => vars(i),
		};
		r.push(v);
	}
	*r.last().expect("a circuit has at least one step")
}

impl<'a> Net<'a> {
	/// `given` holds the contents of the columns the prover commits to.
	pub fn new(ccs: &'a Ccs<B128>, sizes: &[usize], members: Vec<Member<'a>>, given: impl Fn(OracleId, usize) -> Result<B128, String>) -> Result<Self, String> {
		let oracles = ccs.oracles.instantiate(sizes).map_err(es)?;
		let n = ccs.oracles.ids().map(|i| i.index() + 1).max().unwrap_or(0);
		let (mut off, mut len, mut owner, mut free) = (vec![0; n], vec![0; n], vec![], vec![]);
		let mut tops = vec![0u32; n];
		for o in oracles.polys() {
			let id = o.id().index();
			off[id] = owner.len();
			len[id] = 1 << o.n_vars();
			tops[id] = o.tower_level as u32;
			for _ in 0..len[id] {
				owner.push(id as u32);
				free.push(matches!(o.variant, V::Committed));
			}
		}
		let total = owner.len();
		let mut exp_of = HashMap::new();
		for (k, e) in ccs.exponents.iter().enumerate() {
			let id = e.exp_result_id.index();
			if len[id] == 0 {
				continue;
			}
			exp_of.insert(id, k);
			for i in 0..len[id] {
				free[off[id] + i] = false;
			}
		}
		let mut net = Net { ccs, oracles, off, len, owner, val: vec![B128::ZERO; total], level: vec![0; total], free, src: vec![vec![]; total], dep: vec![vec![]; total], exp_of, insts: vec![], inst_cells: vec![], cell_insts: vec![vec![]; total], members, bad: BTreeSet::new(), log: vec![], steps: 0, work: 0, limit: u64::MAX, probed: Default::default() };
		for c in 0..total {
			if !net.free[c] {
				net.src[c] = net.sources(c);
			}
		}
		for c in 0..total {
			for s in net.src[c].clone() {
				net.dep[s].push(c);
			}
		}
		// topological levels, then values
		let mut order = vec![];
		let mut indeg: Vec<usize> = net.src.iter().map(|s| s.len()).collect();
		let mut q: Vec<Cell> = (0..total).filter(|&c| indeg[c] == 0).collect();
		while let Some(c) = q.pop() {
			order.push(c);
			for d in net.dep[c].clone() {
				net.level[d] = net.level[d].max(net.level[c] + 1);
				indeg[d] -= 1;
				if indeg[d] == 0 {
					q.push(d);
				}
			}
		}
		if order.len() != total {
			return Err("cyclic oracles".into());
		}
		for &c in &order {
			net.val[c] = if net.free[c] {
				let id = net.owner[c] as usize;
				let v = given(OracleId::from_index(id), c - net.off[id])?;
				if tops[id] < 7 && u128::from(v) >> (1 << tops[id]) != 0 {
					return Err(format!("column {id} holds a value outside its field"));
				}
				v
			} else {
				net.compute(c)
			};
		}
		net.index_instances();
		for k in 0..net.insts.len() {
			if net.violated(k) {
				net.bad.insert(k as u32);
			}
		}
		Ok(net)
	}

	fn index_instances(&mut self) {
		let add = |net: &mut Self, i: Inst, cells: Vec<Cell>| {
			for &c in &cells {
				net.cell_insts[c].push(net.insts.len() as u32);
			}
			net.insts.push(i);
			net.inst_cells.push(cells);
		};
		for (s, set) in self.ccs.table_constraints.iter().enumerate() {
			for (k, con) in set.constraints.iter().enumerate() {
				let ConstraintPredicate::Zero = con.predicate else { continue };
				let mut vars: Vec<usize> = con.composition.steps().iter().filter_map(|s| if let ArithCircuitStep::Var(v) = s { Some(*v) } else { None }).collect();
				vars.sort();
				vars.dedup();
				let n = set.oracle_ids.iter().map(|o| self.len[o.index()]).max().unwrap_or(0);
				for i in 0..n {
					let cells = vars.iter().map(|&v| self.off[set.oracle_ids[v].index()] + i).collect();
					add(self, Inst::Zero(s, k, i), cells);
				}
			}
		}
		for o in self.ccs.non_zero_oracle_ids.clone() {
			for i in 0..self.len[o.index()] {
				let c = self.off[o.index()] + i;
				add(self, Inst::NonZero(c), vec![c]);
			}
		}
		for f in 0..self.ccs.flushes.len() {
			let fl = &self.ccs.flushes[f];
			if !self.members.iter().any(|m| m.0 == fl.channel_id) || fl.direction != FlushDirection::Pull {
				continue;
			}
			let ids: Vec<usize> = fl.oracles.iter().filter_map(|o| if let OracleOrConst::Oracle(o) = o { Some(o.index()) } else { None }).collect();
			let n = ids.iter().map(|&i| self.len[i]).max().unwrap_or(0);
			for i in 0..n {
				let cells = ids.iter().map(|&o| self.off[o] + i).collect();
				add(self, Inst::Member(f, i), cells);
			}
		}
	}

	fn violated(&self, k: usize) -> bool {
		match self.insts[k] {
			Inst::Zero(..) => self.residual(k) != B128::ZERO,
			Inst::NonZero(c) => self.val[c] == B128::ZERO,
			Inst::Member(f, i) => {
				let fl = &self.ccs.flushes[f];
				let tok: Vec<B128> = fl.oracles.iter().map(|o| match *o {
					OracleOrConst::Oracle(o) => self.val[self.off[o.index()] + i],
					OracleOrConst::Const { base, .. } => base,
				}).collect();
				!self.members.iter().find(|m| m.0 == fl.channel_id).expect("indexed").1(&tok)
			}
		}
	}
	fn residual(&self, k: usize) -> B128 {
		let Inst::Zero(s, c, i) = self.insts[k] else { return B128::ZERO };
		let set = &self.ccs.table_constraints[s];
		run_circuit(&set.constraints[c].composition, |v| self.val[self.off[set.oracle_ids[v].index()] + i])
	}
	pub fn describe(&self, k: u32) -> String {
		match self.insts[k as usize] {
			Inst::Zero(s, c, i) => format!("constraint {:?} at {i}", self.ccs.table_constraints[s].constraints[c].name),
			Inst::NonZero(c) => format!("nonzero column {} at {}", self.owner[c], c - self.off[self.owner[c] as usize]),
			Inst::Member(f, i) => format!("lookup {f} at {i}"),
		}
	}

	fn sources(&self, c: Cell) -> Vec<Cell> {
		let id = self.owner[c] as usize;
		let i = c - self.off[id];
		if let Some(&k) = self.exp_of.get(&id) {
			let e = &self.ccs.exponents[k];
			let mut v: Vec<Cell> = e.bits_ids.iter().map(|b| self.off[b.index()] + i).collect();
			if let OracleOrConst::Oracle(b) = e.base {
				v.push(self.off[b.index()] + i);
			}
			return v;
		}
		let mut out = vec![];
		self.visit(id, i, &mut |o: OracleId, j: usize, _| {
			out.push(self.off[o.index()] + j);
			B128::ZERO
		});
		out.sort();
		out.dedup();
		out
	}
	fn compute(&self, c: Cell) -> B128 {
		let id = self.owner[c] as usize;
		let i = c - self.off[id];
		if let Some(&k) = self.exp_of.get(&id) {
			let e = &self.ccs.exponents[k];
			let mut b = match e.base {
				OracleOrConst::Oracle(o) => self.val[self.off[o.index()] + i],
				OracleOrConst::Const { base, .. } => base,
			};
			let mut r = B128::ONE;
			for o in &e.bits_ids {
				if self.val[self.off[o.index()] + i] == B128::ONE {
					r *= b;
				}
				b *= b;
			}
			return r;
		}
		self.visit(id, i, &mut |o: OracleId, j: usize, k: B128| k * self.val[self.off[o.index()] + j])
	}
	/// Defines cell `i` of the virtual column `id` as a sum over source cells (for composites: calls
	/// `get` for each source with coefficient one and evaluates the circuit).
	fn visit(&self, id: usize, i: usize, get: &mut dyn FnMut(OracleId, usize, B128) -> B128) -> B128 {
		let o = &self.oracles[OracleId::from_index(id)];
		let one = B128::ONE;
		match &o.variant {
			V::Committed => B128::ZERO,
			V::Transparent(t) => t.poly().evaluate(&bits(i, o.n_vars())).expect("a transparent column can be evaluated"),
			V::Structured(circ) => {
				let p = bits(i, o.n_vars());
				run_circuit(circ, |v| p[v])
			}
			V::Repeating { id, .. } => get(*id, i & (self.len[id.index()] - 1), one),
			V::Projected(p) => {
				let (k, s) = (p.values().len(), p.start_index());
				let (lo, hi) = (i & ((1 << s) - 1), i >> s);
				let mut acc = B128::ZERO;
				for b in 0..1usize << k {
					let mut w = one;
					for (t, &z) in p.values().iter().enumerate() {
						w *= if b >> t & 1 == 1 { z } else { one + z };
					}
					if w != B128::ZERO {
						acc += get(p.id(), lo | b << s | hi << (s + k), w);
					}
				}
				acc
			}
			V::Shifted(s) => {
				let n = 1usize << s.block_size();
				let (base, j, d) = (i & !(n - 1), i & (n - 1), s.shift_offset());
				match s.shift_variant() {
					ShiftVariant::CircularLeft => get(s.id(), base | (j + n - d % n) % n, one),
					ShiftVariant::LogicalLeft if j >= d => get(s.id(), base | (j - d), one),
					ShiftVariant::LogicalRight if j + d < n => get(s.id(), base | (j + d), one),
					_ => B128::ZERO,
				}
			}
			V::Packed(p) => {
				let iota = self.oracles[p.id()].tower_level;
				let mut acc = B128::ZERO;
				for k in 0..1usize << p.log_degree() {
					acc += get(p.id(), i << p.log_degree() | k, <B128 as TowerField>::basis(iota, k).expect("in range"));
				}
				acc
			}
			V::LinearCombination(l) => {
				let mut acc = l.offset();
				for (p, k) in l.polys().zip(l.coefficients()) {
					acc += get(p, i, k);
				}
				acc
			}
			V::ZeroPadded(z) => {
				let (s, k) = (z.start_index(), z.n_pad_vars());
				if (i >> s) & ((1 << k) - 1) == z.nonzero_index() {
					get(z.id(), i & ((1 << s) - 1) | (i >> (s + k)) << s, one)
				} else {
					B128::ZERO
				}
			}
			V::Composite(_) => unreachable!("the table builder makes no composite columns"),
		}
	}

	fn put(&mut self, c: Cell, v: B128) {
		debug_assert!(self.free[c]);
		if self.val[c] == v {
			return;
		}
		self.log.push((c, self.val[c]));
		self.raw_put(c, v);
	}
	fn raw_put(&mut self, c: Cell, v: B128) {
		self.steps += 1;
		self.val[c] = v;
		let mut touched: HashSet<u32> = self.cell_insts[c].iter().copied().collect();
		let mut q: BTreeSet<(u32, Cell)> = self.dep[c].iter().map(|&d| (self.level[d], d)).collect();
		while let Some((_, d)) = q.pop_first() {
			self.work += 1;
			let nv = self.compute(d);
			if nv != self.val[d] {
				self.val[d] = nv;
				touched.extend(&self.cell_insts[d]);
				q.extend(self.dep[d].iter().map(|&d| (self.level[d], d)));
			}
		}
		for k in touched {
			if self.violated(k as usize) {
				self.bad.insert(k);
			} else {
				self.bad.remove(&k);
			}
		}
	}
	pub fn mark(&self) -> usize {
		self.log.len()
	}
	pub fn undo(&mut self, mark: usize) {
		while self.log.len() > mark {
			let (c, v) = self.log.pop().expect("longer than the mark");
			self.raw_put(c, v);
		}
	}

	pub fn cell(&self, o: OracleId, i: usize) -> Cell {
		self.off[o.index()] + i
	}
	pub fn col_len(&self, o: OracleId) -> usize {
		self.len[o.index()]
	}
	pub fn value(&self, o: OracleId, i: usize) -> B128 {
		self.val[self.cell(o, i)]
	}
	pub fn tower(&self, o: OracleId) -> usize {
		self.oracles[o].tower_level
	}
	pub fn is_exp_result(&self, o: OracleId) -> bool {
		self.exp_of.contains_key(&o.index())
	}
	pub fn n_cells(&self) -> usize {
		self.val.len()
	}
	pub fn n_insts(&self) -> usize {
		self.insts.len()
	}
	fn width(&self, c: Cell) -> usize {
		1 << self.oracles[OracleId::from_index(self.owner[c] as usize)].tower_level
	}
	/// Free cells a cell is computed from.
	pub fn support(&self, c: Cell, out: &mut BTreeSet<Cell>) {
		let mut seen = HashSet::new();
		let mut st = vec![c];
		while let Some(c) = st.pop() {
			if !seen.insert(c) {
				continue;
			}
			if self.free[c] {
				out.insert(c);
			}
			st.extend(&self.src[c]);
		}
	}
	pub fn free_cells(&self) -> Vec<Cell> {
		(0..self.val.len()).filter(|&c| self.free[c]).collect()
	}
	pub fn name(&self, c: Cell) -> String {
		let id = self.owner[c] as usize;
		format!("{}#{id}[{}]", self.oracles[OracleId::from_index(id)].name.as_deref().unwrap_or("?"), c - self.off[id])
	}

	/// Changes free cells below `target` (each assumed to act linearly) so that it takes `want`;
	/// the cells are added to `frozen`.
	pub fn force(&mut self, target: Cell, want: B128, frozen: &mut HashSet<Cell>) -> bool {
		let mut sup = BTreeSet::new();
		self.support(target, &mut sup);
		let cand: Vec<Cell> = sup.into_iter().collect();
		let ok = self.solve(&cand, |n| n.val[target] + want);
		frozen.extend(&cand);
		ok && self.val[target] == want
	}
	/// Finds bit flips of `cand` that make `f` zero, assuming `f` affine in those bits.
	fn solve(&mut self, cand: &[Cell], f: impl Fn(&Self) -> B128) -> bool {
		let r0 = u128::from(f(self));
		if r0 == 0 {
			return true;
		}
		let mut basis: Vec<(u128, Vec<(Cell, u32)>)> = vec![]; // reduced rows with pivot = leading bit
		for &c in cand {
			for b in 0..self.width(c) {
				let old = self.val[c];
				self.raw_put(c, old + B128::from(1u128 << b));
				let mut d = u128::from(f(self)) ^ r0;
				self.raw_put(c, old);
				let mut how = vec![(c, b as u32)];
				for (v, h) in &basis {
					if d >> (127 - v.leading_zeros()) & 1 == 1 {
						d ^= v;
						how.extend(h);
					}
				}
				if d != 0 {
					basis.push((d, how));
				}
			}
		}
		let mut r = r0;
		let mut flips: HashMap<(Cell, u32), bool> = HashMap::new();
		for (v, h) in &basis {
			if r >> (127 - v.leading_zeros()) & 1 == 1 {
				r ^= v;
				for &x in h {
					*flips.entry(x).or_default() ^= true;
				}
			}
		}
		if r != 0 {
			return false;
		}
		let mut per: HashMap<Cell, u128> = HashMap::new();
		for ((c, b), on) in flips {
			if on {
				*per.entry(c).or_default() ^= 1 << b;
			}
		}
		for (c, m) in per {
			self.put(c, self.val[c] + B128::from(m));
		}
		f(self) == B128::ZERO
	}

	pub fn spent(&self) -> u64 {
		self.work + self.probed.get()
	}
	fn eval_with(&self, c: Cell, x: Cell, v: B128, memo: &mut HashMap<Cell, B128>) -> B128 {
		if c == x {
			return v;
		}
		if self.free[c] || self.level[c] <= self.level[x] {
			return self.val[c];
		}
		if let Some(&r) = memo.get(&c) {
			return r;
		}
		let changed = self.src[c].iter().any(|&s| self.eval_with(s, x, v, memo) != self.val[s]);
		let r = if !changed {
			self.val[c]
		} else {
			let id = self.owner[c] as usize;
			let i = c - self.off[id];
			if self.exp_of.contains_key(&id) {
				let e = &self.ccs.exponents[self.exp_of[&id]];
				let mut b = match e.base {
					OracleOrConst::Oracle(o) => self.eval_with(self.off[o.index()] + i, x, v, memo),
					OracleOrConst::Const { base, .. } => base,
				};
				let mut r = B128::ONE;
				for o in &e.bits_ids {
					if self.eval_with(self.off[o.index()] + i, x, v, memo) == B128::ONE {
						r *= b;
					}
					b *= b;
				}
				r
			} else {
				self.visit(id, i, &mut |o: OracleId, j: usize, k: B128| k * self.eval_with(self.off[o.index()] + j, x, v, memo))
			}
		};
		memo.insert(c, r);
		r
	}
	/// Residual of constraint `k` if the free cell `x` held `v`.
	fn residual_with(&self, k: usize, x: Cell, v: B128) -> B128 {
		let Inst::Zero(s, c, i) = self.insts[k] else { return B128::ZERO };
		let set = &self.ccs.table_constraints[s];
		let mut memo = HashMap::new();
		let vals: HashMap<Cell, B128> = self.inst_cells[k].iter().map(|&y| (y, self.eval_with(y, x, v, &mut memo))).collect();
		self.probed.set(self.probed.get() + memo.len() as u64);
		run_circuit(&set.constraints[c].composition, |w| vals[&(self.off[set.oracle_ids[w].index()] + i)])
	}
	/// Value for the free cell `x` that makes constraint `k` hold, assuming it affine in the bits of `x`.
	fn solve_one(&mut self, k: usize, x: Cell) -> Option<B128> {
		let old = self.val[x];
		let r0 = u128::from(self.residual(k));
		let mut basis: Vec<(u128, u128)> = vec![];
		for b in 0..self.width(x) {
			let mut h = 1u128 << b;
			let mut d = u128::from(self.residual_with(k, x, old + B128::from(h))) ^ r0;
			for (v, g) in &basis {
				if d >> (127 - v.leading_zeros()) & 1 == 1 {
					d ^= v;
					h ^= g;
				}
			}
			if d != 0 {
				basis.push((d, h));
			}
		}
		let (mut r, mut m) = (r0, 0u128);
		for (v, h) in &basis {
			if r >> (127 - v.leading_zeros()) & 1 == 1 {
				r ^= v;
				m ^= h;
			}
		}
		(r == 0 && self.residual_with(k, x, old + B128::from(m)) == B128::ZERO).then(|| old + B128::from(m))
	}

	/// Flips something in a free cell.
	pub fn disturb(&mut self, c: &mut Case, cell: Cell) {
		let w = self.width(cell);
		let m = if w == 1 || c.flip() { 1u128 << c.below(w) } else { (c.u128() >> (128 - w)).max(1) };
		self.put(cell, self.val[cell] + B128::from(m));
	}

	/// Tries to satisfy every constraint without touching `frozen`. `uphill` also tries cells that come
	/// before the one disturbed.
	pub fn repair(&mut self, c: &mut Case, frozen: &HashSet<Cell>, floor: Option<Cell>, steps: usize) -> bool {
		let mut tabu: HashMap<Cell, usize> = HashMap::new();
		if let Some(f) = floor {
			// a violated constraint on earlier cells alone cannot be repaired going forward
			for &k in &self.bad {
				let mut sup = BTreeSet::new();
				for &x in &self.inst_cells[k as usize] {
					self.support(x, &mut sup);
				}
				if !sup.iter().any(|x| *x > f && !frozen.contains(x)) {
					return false;
				}
			}
		}
		for t in 0..steps {
			let Some(&first) = self.bad.first() else { return true };
			let k = if floor.is_some() || c.below(3) > 0 { first } else { *self.bad.iter().nth(c.below(self.bad.len())).expect("in range") };
			let mut sup = BTreeSet::new();
			for &x in &self.inst_cells[k as usize] {
				self.support(x, &mut sup);
			}
			let mut cand: Vec<Cell> = sup.into_iter().filter(|x| !frozen.contains(x) && tabu.get(x).is_none_or(|&u| u < t) && floor.is_none_or(|f| *x > f)).collect();
			if floor.is_some() {
				cand.reverse();
			} else {
				for i in (1..cand.len()).rev() {
					cand.swap(i, c.below(i + 1));
				}
				cand.truncate(24);
			}
			let mut best: Option<(usize, Vec<(Cell, B128)>)> = None;
			for &x in &cand {
				if self.spent() > self.limit {
					return false;
				}
				let mark = self.mark();
				let fixed = if matches!(self.insts[k as usize], Inst::Zero(..)) {
					match self.solve_one(k as usize, x) {
						Some(v) => {
							self.put(x, v);
							true
						}
						None => false,
					}
				} else {
					self.disturb(c, x);
					!self.bad.contains(&k)
				};
				if fixed {
					let score = self.bad.len();
					if best.as_ref().is_none_or(|b| score < b.0) {
						best = Some((score, self.log[mark..].iter().map(|&(c, _)| (c, self.val[c])).collect()));
					}
				}
				self.undo(mark);
				if floor.is_some() && best.is_some() {
					break;
				}
			}
			let Some((_, moves)) = best else { return false };
			for (x, v) in moves {
				self.put(x, v);
				tabu.insert(x, if floor.is_some() { usize::MAX } else { t + 3 + c.below(8) });
			}
		}
		self.bad.is_empty()
	}
}

pub fn bits(i: usize, n: usize) -> Vec<B128> {
	(0..n).map(|k| if i >> k & 1 == 1 { B128::ONE } else { B128::ZERO }).collect()
}
