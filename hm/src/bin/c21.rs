//! C21: compute layers: every operation against its definition, touching only its output; memory
//! views and allocators against a flat model.
use std::sync::Mutex;

use binius_compute::{
	ComputeData, ComputeHolder, ComputeLayerExecutor, KernelExecutor,
	alloc::{BumpAllocator, ComputeAllocator},
	cpu::{CpuMemory, layer::CpuLayerHolder},
	layer::{ComputeLayer, Error, FSliceMut, KernelBuffer, KernelMemMap},
	memory::{ComputeMemory, SizedSlice, SlicesBatch, SubfieldSlice},
	ops::eq_ind_partial_eval,
};
use binius_fast_compute::{
	layer::FastCpuLayerHolder,
	memory::{PackedMemory, PackedMemorySliceMut},
};
use binius_field::tower::{AESTowerFamily, CanonicalTowerFamily};
use binius_math::{ArithCircuit, BinarySubspace};
use binius_ntt::SingleThreadedNTT;
use hm::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
	Copy,
	Inner,
	Tensor,
	FoldLeft,
	FoldRight,
	Fri,
	Line,
	Composite,
	Pairwise,
	Accumulate,
	MapKernels,
	Parallel,
	EqInd,
}

/// A region of device memory: a parent buffer of `full.len()` scalars of which [off, off + len) is used.
struct Buf<'a, F: Sc, M: ComputeMemory<F>> {
	parent: M::FSliceMut<'a>,
	full: Vec<F>,
	off: usize,
	len: usize,
	path: u64,
}
type Put<'a, F, M> = Buf<'a, F, M>;

fn put<'a, F: Sc, Hal: ComputeLayer<F>>(
	c: &mut Case,
	hal: &Hal,
	alloc: &'a impl ComputeAllocator<F, Hal::DevMem>,
	vals: &[F],
) -> Result<Put<'a, F, Hal::DevMem>, String> {
	let al = Hal::DevMem::ALIGNMENT;
	let len = vals.len();
	let direct = c.below(4) == 0;
	let size = if direct { len } else { (len.next_power_of_two() << c.below(2)).max(al) };
	let mut parent = alloc.alloc(size).map_err(|e| format!("alloc({size}): {e}"))?;
	ensure_eq!(parent.len(), size, "alloc({size}) gave another length");
	let mut full = scalars::<F>(c, size);
	let step = if len < al { len } else { al };
	let off = if step == 0 { 0 } else { c.below((size - len) / step + 1) * step };
	// sub-alignment pieces live at multiples of their own size
	let off = if len > 0 && len < al { off / len * len } else { off };
	full[off..off + len].copy_from_slice(vals);
	hal.copy_h2d(&full, &mut parent).map_err(|e| format!("copy_h2d of {size}: {e}"))?;
	Ok(Buf { parent, full, off, len, path: c.u128() as u64 })
}

impl<'x, F: Sc, M: ComputeMemory<F>> Buf<'x, F, M> {
	fn vals(&self) -> &[F] {
		&self.full[self.off..self.off + self.len]
	}
	/// the used region through a chosen chain of mutable views; the siblings stay alive
	fn view(&mut self) -> (M::FSliceMut<'_>, Vec<M::FSliceMut<'_>>) {
		let al = M::ALIGNMENT;
		let (mut lo, mut hi) = (0, self.full.len());
		let (off, end) = (self.off, self.off + self.len);
		let mut sib = vec![];
		if lo == off && hi == end {
			return (M::to_owned_mut(&mut self.parent), sib);
		}
		let mut path = self.path;
		// a first borrow through slice_mut when aligned
		let mut cur = if path & 1 == 1 && self.len >= al {
			path >>= 1;
			let (a, b) = if path & 1 == 1 { (off, end) } else { (0, end) };
			lo = a;
			hi = b;
			M::slice_mut(&mut self.parent, a..b)
		} else {
			M::to_owned_mut(&mut self.parent)
		};
		path >>= 1;
		while lo != off || hi != end {
			let n = hi - lo;
			let how = path % 3;
			path /= 3;
			if how == 0 && n.is_power_of_two() && n > 1 && (off + self.len <= lo + n / 2 || off >= lo + n / 2) {
				let (l, r) = M::split_half_mut(cur);
				if off >= lo + n / 2 {
					sib.push(l);
					cur = r;
					lo += n / 2;
				} else {
					sib.push(r);
					cur = l;
					hi -= n / 2;
				}
			} else if how == 1 && self.len >= al && self.len > 0 && (off - lo) % self.len == 0 && n % self.len == 0 {
				let idx = (off - lo) / self.len;
				let mut got = None;
				for (i, s) in M::slice_chunks_mut(cur, self.len).enumerate() {
					if i == idx {
						got = Some(s)
					} else {
						sib.push(s)
					}
				}
				cur = got.expect("chunk index in range");
				lo = off;
				hi = end;
			} else if self.len >= al || off / al != lo / al || hi - lo > al {
				// narrow to the aligned span of the region
				let s = off / al * al;
				let e = end.div_ceil(al) * al;
				if s > lo {
					let (l, r) = M::split_at_mut(cur, s - lo);
					sib.push(l);
					cur = r;
					lo = s;
				}
				if e < hi {
					let (l, r) = M::split_at_mut(cur, e - lo);
					sib.push(r);
					cur = l;
					hi = e;
				}
			} else {
				let (l, r) = M::split_half_mut(cur);
				if off >= lo + n / 2 {
					sib.push(l);
					cur = r;
					lo += n / 2;
				} else {
					sib.push(r);
					cur = l;
					hi -= n / 2;
				}
			}
		}
		(cur, sib)
	}
	/// the used region through immutable views
	fn cview(&self) -> M::FSlice<'_> {
		let al = M::ALIGNMENT;
		let (mut lo, mut hi) = (0, self.full.len());
		let (off, end) = (self.off, self.off + self.len);
		let mut cur = M::as_const(&self.parent);
		let mut path = self.path >> 7;
		while lo != off || hi != end {
			let n = hi - lo;
			let how = path % 3;
			path /= 3;
			if (how == 0 || n <= al) && n.is_power_of_two() && n > 1 && (end <= lo + n / 2 || off >= lo + n / 2) {
				let (l, r) = M::split_half(cur);
				if off >= lo + n / 2 {
					cur = r;
					lo += n / 2;
				} else {
					cur = l;
					hi -= n / 2;
				}
			} else if how == 1 {
				let s = off / al * al;
				let e = end.div_ceil(al) * al;
				cur = M::slice(cur, s - lo..e - lo);
				lo = s;
				hi = e;
			} else if how == 2 && self.len >= al && self.len > 0 && (off - lo) % self.len == 0 && n % self.len == 0 {
				cur = M::slice_chunks(cur, self.len).nth((off - lo) / self.len).expect("chunk in range");
				lo = off;
				hi = end;
			} else {
				let s = off / al * al;
				let e = end.div_ceil(al) * al;
				let (_, r) = M::split_at(cur, s - lo);
				let (l, _) = M::split_at(r, e - s);
				cur = l;
				lo = s;
				hi = e;
			}
		}
		cur
	}
	/// compare the whole parent buffer with the model, the used region being `want` now
	fn check<Hal: ComputeLayer<F, DevMem = M>>(&self, hal: &Hal, want: &[F], what: &str) -> Res {
		let mut got = vec![F::ZERO; self.full.len()];
		hal.copy_d2h(M::as_const(&self.parent), &mut got).map_err(|e| format!("copy_d2h: {e}"))?;
		ensure_eq!(&got[self.off..self.off + self.len], want, "{what}");
		ensure_eq!(&got[..self.off], &self.full[..self.off], "{what}: memory before the region changed");
		ensure_eq!(&got[self.off + self.len..], &self.full[self.off + self.len..], "{what}: memory after the region changed");
		Ok(())
	}
	fn same<Hal: ComputeLayer<F, DevMem = M>>(&self, hal: &Hal, what: &str) -> Res {
		let v = self.vals().to_vec();
		self.check(hal, &v, what)
	}
}

fn sub<F: Sc>(v: &[F], level: usize) -> Vec<F> {
	let b = 1usize << level;
	v.iter()
		.flat_map(|x| {
			let u = x.u();
			(0..128 / b).map(move |i| F::f(if b == 128 { u } else { u >> (i * b) & ((1u128 << b) - 1) }))
		})
		.collect()
}

#[derive(Clone, Debug)]
enum E<F> {
	K(F),
	V(usize),
	A(Box<E<F>>, Box<E<F>>),
	M(Box<E<F>>, Box<E<F>>),
	P(Box<E<F>>, u64),
}
impl<F: Sc> E<F> {
	fn random(c: &mut Case, n: usize, d: usize) -> Self {
		match c.below(if d == 0 { 3 } else { 8 }) {
			0 => E::K(rand_scalar(c)),
			1 | 2 => E::V(c.below(n)),
			3 | 4 => E::A(Box::new(E::random(c, n, d - 1)), Box::new(E::random(c, n, d - 1))),
			5 | 6 => E::M(Box::new(E::random(c, n, d - 1)), Box::new(E::random(c, n, d - 1))),
			_ => E::P(Box::new(E::random(c, n, d - 1)), c.pick(&[1u64, 2, 3, 4, 7])),
		}
	}
	fn circuit(&self) -> ArithCircuit<F> {
		match self {
			E::K(k) => ArithCircuit::constant(*k),
			E::V(i) => ArithCircuit::var(*i),
			E::A(a, b) => a.circuit() + b.circuit(),
			E::M(a, b) => a.circuit() * b.circuit(),
			E::P(a, e) => a.circuit().pow(*e),
		}
	}
	fn eval(&self, x: &[F]) -> F {
		match self {
			E::K(k) => *k,
			E::V(i) => x[*i],
			E::A(a, b) => a.eval(x) + b.eval(x),
			E::M(a, b) => a.eval(x) * b.eval(x),
			E::P(a, e) => {
				let v = a.eval(x);
				(0..*e).fold(F::ONE, |s, _| s * v)
			}
		}
	}
}

/// log size with emphasis on sizes around the packed width
fn lg(c: &mut Case, al: usize, max: usize) -> usize {
	let w = al.trailing_zeros() as usize;
	match c.below(4) {
		0 => c.range(0, w.max(1)),
		1 => (w + c.below(3)).min(max.max(w)),
		_ => c.range(0, max),
	}
}

fn go<F, FS, Hal, H>(c: &mut Case, op: Op, name: &str, mut holder: H) -> Res
where
	F: Sc + ExtensionField<FS>,
	FS: Sc + BinaryField,
	Hal: ComputeLayer<F>,
	H: ComputeHolder<F, Hal>,
{
	let data = holder.to_data();
	let ComputeData { hal, dev_alloc: alloc, .. } = &data;
	let hal = *hal;
	let al = <Hal::DevMem as ComputeMemory<F>>::ALIGNMENT;
	type M<F, Hal> = <Hal as ComputeLayer<F>>::DevMem;
	match op {
		Op::Copy => {
			let n = 1usize << lg(c, al, 9);
			c.desc(format!("{name} copies of {n}"));
			let v = scalars::<F>(c, n);
			let w = scalars::<F>(c, n);
			let fillv: F = rand_scalar(c);
			let mut a = put(c, hal, alloc, &v)?;
			let mut b = put(c, hal, alloc, &w)?;
			a.same(hal, "h2d/d2h round trip")?;
			{
				let (mut s, _sib) = b.view();
				ensure_eq!(s.len(), n, "view length");
				hal.copy_d2d(a.cview(), &mut s).map_err(es)?;
				let mut got = vec![F::ZERO; n];
				hal.copy_d2h(M::<F, Hal>::as_const(&s), &mut got).map_err(es)?;
				ensure_eq!(got, v, "copy_d2d, read through the view");
			}
			b.check(hal, &v, "copy_d2d")?;
			a.same(hal, "source of copy_d2d")?;
			{
				let (mut s, _sib) = a.view();
				hal.copy_h2d(&w, &mut s).map_err(es)?;
			}
			a.check(hal, &w, "copy_h2d into a view")?;
			{
				let (mut s, _sib) = b.view();
				hal.fill(&mut s, fillv).map_err(es)?;
			}
			b.check(hal, &vec![fillv; n], "fill")?;
			let mut got = vec![F::ZERO; n];
			hal.copy_d2h(b.cview(), &mut got).map_err(es)?;
			ensure_eq!(got, vec![fillv; n], "copy_d2h of a view");
			c.obs((name, op as u8, n, a.off, b.off), true);
		}
		Op::Inner => {
			let level = c.pick(&[0usize, 3, 4, 5, 6, 7, 7]);
			let lb = lg(c, al, 11).max(7 - level);
			let (na, nb) = (1usize << (lb + level - 7), 1usize << lb);
			c.desc(format!("{name} inner product level={level} |a|={na} |b|={nb}"));
			let v = scalars::<F>(c, na);
			let w = scalars::<F>(c, nb);
			let a = put(c, hal, alloc, &v)?;
			let b = put(c, hal, alloc, &w)?;
			let want = dot(&sub(&v, level), &w);
			let got = hal
				.execute(|e| Ok(vec![e.inner_product(SubfieldSlice::new(a.cview(), level), b.cview())?]))
				.map_err(es)?;
			ensure_eq!(got, vec![want], "inner product");
			a.same(hal, "left operand")?;
			b.same(hal, "right operand")?;
			c.obs((name, op as u8, level, nb, a.off > 0, b.off > 0), true);
			// documented errors
			if c.flip() {
				let badl = c.pick(&[1usize, 2, 8, 9, 100]);
				let r = hal.execute(|e| Ok(vec![e.inner_product(SubfieldSlice::new(a.cview(), badl), b.cview())?]));
				ensure!(r.is_err(), "inner product at tower level {badl} succeeded");
				let v2 = scalars::<F>(c, na * 2);
				let a2 = put(c, hal, alloc, &v2)?;
				let r = hal.execute(|e| Ok(vec![e.inner_product(SubfieldSlice::new(a2.cview(), level), b.cview())?]));
				ensure!(r.is_err(), "inner product of operands of different lengths succeeded");
				c.count("rejected calls", 2);
			}
		}
		Op::Tensor => {
			let total = lg(c, al, 10);
			let k = c.range(0, total);
			let n = total - k;
			c.desc(format!("{name} tensor expansion log_n={n} coordinates={k}"));
			let v = scalars::<F>(c, 1 << n);
			let r = scalars::<F>(c, k);
			// the rest of the buffer is documented as zero-initialised by callers
			let mut full = v.clone();
			full.resize(1 << total, F::ZERO);
			let mut a = put(c, hal, alloc, &full)?;
			{
				let (mut s, _sib) = a.view();
				hal.execute(|e| {
					e.tensor_expand(n, &r, &mut s)?;
					Ok(vec![])
				})
				.map_err(es)?;
			}
			let eq = eq_all(&r);
			let want: Vec<F> = (0..1usize << total).map(|i| v[i & ((1 << n) - 1)] * eq[i >> n]).collect();
			a.check(hal, &want, "tensor expansion")?;
			c.obs((name, op as u8, n, k, a.off > 0), k > 0);
			if c.flip() {
				let (bn, bk) = if c.flip() { (n + 1, k) } else { (n, k + 1) };
				let r = scalars::<F>(c, bk);
				let (mut s, _sib) = a.view();
				let res = hal.execute(|e| {
					e.tensor_expand(bn, &r, &mut s)?;
					Ok(vec![])
				});
				ensure!(res.is_err(), "tensor expansion to 2^{} in a buffer of 2^{total} succeeded", bn + bk);
				c.count("rejected calls", 1);
			}
		}
		Op::FoldLeft | Op::FoldRight => {
			let level = c.pick(&[0usize, 3, 4, 5, 6, 7]);
			let lm = lg(c, al, 10).max(7 - level);
			let lv = c.range(0, lm);
			let (nm, nv, no) = (1usize << (lm + level - 7), 1usize << lv, 1usize << (lm - lv));
			c.desc(format!("{name} {op:?} level={level} |mat|={nm} |vec|={nv} |out|={no}"));
			let mat = scalars::<F>(c, nm);
			let vec = scalars::<F>(c, nv);
			let out0 = scalars::<F>(c, no);
			let a = put(c, hal, alloc, &mat)?;
			let b = put(c, hal, alloc, &vec)?;
			let mut o = put(c, hal, alloc, &out0)?;
			let m = sub(&mat, level);
			let want: Vec<F> = (0..no)
				.map(|i| (0..nv).fold(F::ZERO, |s, j| s + vec[j] * if op == Op::FoldLeft { m[j * no + i] } else { m[i * nv + j] }))
				.collect();
			let call = |level: usize, bad: Option<(&Put<'_, F, M<F, Hal>>, usize)>, s: &mut FSliceMut<'_, F, Hal>| {
				hal.execute(|e| {
					let (mv, vv) = match bad {
						Some((x, 0)) => (x.cview(), b.cview()),
						Some((x, _)) => (a.cview(), x.cview()),
						None => (a.cview(), b.cview()),
					};
					if op == Op::FoldLeft {
						e.fold_left(SubfieldSlice::new(mv, level), vv, s)?;
					} else {
						e.fold_right(SubfieldSlice::new(mv, level), vv, s)?;
					}
					Ok(vec![])
				})
			};
			{
				let (mut s, _sib) = o.view();
				call(level, None, &mut s).map_err(es)?;
			}
			o.check(hal, &want, "fold")?;
			a.same(hal, "matrix")?;
			b.same(hal, "vector")?;
			c.obs((name, op as u8, level, lm, lv, o.off > 0), lv > 0);
			if c.flip() {
				let badl = c.pick(&[1usize, 2, 8, 9]);
				let which = c.below(2);
				let big = scalars::<F>(c, if which == 0 { nm * 2 } else { nv * 2 });
				let x = put(c, hal, alloc, &big)?;
				let half = scalars::<F>(c, if which == 0 { nm.div_ceil(2) } else { nv.div_ceil(2) });
				let y = put(c, hal, alloc, &half)?;
				let (mut s, _sib) = o.view();
				ensure!(call(badl, None, &mut s).is_err(), "fold of a matrix at tower level {badl} succeeded");
				ensure!(call(level, Some((&x, which)), &mut s).is_err(), "fold with operand {which} twice as long succeeded");
				if half.len() != if which == 0 { nm } else { nv } {
					ensure!(call(level, Some((&y, which)), &mut s).is_err(), "fold with operand {which} half as long succeeded");
				}
				c.count("rejected calls", 3);
			}
		}
		Op::Fri => {
			let ell = c.range(1, 7);
			let log_len = c.range(1, ell);
			let log_batch = if c.flip() { 0 } else { c.range(0, 4) };
			let nch = log_batch + c.range(0, log_len);
			c.desc(format!("{name} fri fold over {} dim={ell} log_len={log_len} log_batch={log_batch} challenges={nch}", FS::NAME));
			let (ntt, dom) = {
				let basis: Vec<FS> = if c.flip() {
					(0..ell).map(|k| <FS as ExtensionField<BinaryField1b>>::basis(k)).collect()
				} else {
					let mut basis = vec![FS::ONE];
					let mut span: Vec<u128> = vec![0, FS::ONE.u()];
					while basis.len() < ell {
						let x = FS::rnd(c);
						if !span.contains(&x.u()) {
							span.extend(span.clone().iter().map(|s| s ^ x.u()).collect::<Vec<_>>());
							basis.push(x);
						}
					}
					basis
				};
				let s = BinarySubspace::new_unchecked(basis.clone());
				(SingleThreadedNTT::<FS>::with_subspace(&s).map_err(es)?, Dom::new(&basis))
			};
			let b = 1usize << log_batch;
			let polys: Vec<Vec<F>> = (0..b).map(|_| scalars(c, 1 << log_len)).collect();
			let mut code = vec![F::ZERO; b << log_len];
			for (k, p) in polys.iter().enumerate() {
				for i in 0..1usize << log_len {
					code[i * b + k] = dom.eval(log_len, p, i);
				}
			}
			let ch = scalars::<F>(c, nch);
			let tensor = eq_all(&ch[..log_batch]);
			let mut co: Vec<F> = (0..1usize << log_len).map(|i| (0..b).fold(F::ZERO, |s, k| s + tensor[k] * polys[k][i])).collect();
			let mut n = log_len;
			for r in &ch[log_batch..] {
				co = co.chunks(2).map(|p| p[0] * (F::ONE - *r) + p[1] * *r).collect();
				n -= 1;
			}
			let want: Vec<F> = (0..1usize << n).map(|i| dom.eval(n, &co, i)).collect();
			let a = put(c, hal, alloc, &code)?;
			let out0 = scalars::<F>(c, 1 << n);
			let mut o = put(c, hal, alloc, &out0)?;
			{
				let (mut s, _sib) = o.view();
				hal.execute(|e| {
					e.fri_fold(&ntt, log_len, log_batch, &ch, a.cview(), &mut s)?;
					Ok(vec![])
				})
				.map_err(es)?;
			}
			o.check(hal, &want, "fri fold")?;
			a.same(hal, "codeword")?;
			c.obs((name, op as u8, FS::NAME, ell, log_len, log_batch, nch), nch > 0);
		}
		Op::Line => {
			let n = 1usize << lg(c, al, 10);
			c.desc(format!("{name} extrapolate line of {n}"));
			let v = scalars::<F>(c, n);
			let w = scalars::<F>(c, n);
			let z: F = rand_scalar(c);
			let mut a = put(c, hal, alloc, &v)?;
			let b = put(c, hal, alloc, &w)?;
			{
				let (mut s, _sib) = a.view();
				hal.execute(|e| {
					e.extrapolate_line(&mut s, b.cview(), z)?;
					Ok(vec![])
				})
				.map_err(es)?;
			}
			let want: Vec<F> = v.iter().zip(&w).map(|(x, y)| *x + (*y - *x) * z).collect();
			a.check(hal, &want, "line extrapolation")?;
			b.same(hal, "values at one")?;
			c.obs((name, op as u8, n, a.off > 0, b.off > 0), true);
			if c.flip() {
				let w = scalars::<F>(c, n * 2);
				let b = put(c, hal, alloc, &w)?;
				let (mut s, _sib) = a.view();
				let r = hal.execute(|e| {
					e.extrapolate_line(&mut s, b.cview(), z)?;
					Ok(vec![])
				});
				ensure!(r.is_err(), "line extrapolation of vectors of different lengths succeeded");
				c.count("rejected calls", 1);
			}
		}
		Op::Composite => {
			let n = 1usize << lg(c, al, 10);
			let k = c.range(1, 4);
			let e = E::A(Box::new(E::random(c, k, 4)), Box::new(E::V(k - 1)));
			c.desc(format!("{name} composite of {k} columns of {n}: {e:?}"));
			let cols: Vec<Vec<F>> = (0..k).map(|_| scalars(c, n)).collect();
			let bufs = cols.iter().map(|v| put(c, hal, alloc, v)).collect::<Result<Vec<_>, _>>()?;
			let out0 = scalars::<F>(c, n);
			let mut o = put(c, hal, alloc, &out0)?;
			let circ = e.circuit();
			let expr = hal.compile_expr(&circ).map_err(es)?;
			let want: Vec<F> = (0..n).map(|i| e.eval(&cols.iter().map(|v| v[i]).collect::<Vec<_>>())).collect();
			let matching = circ.n_vars() == k;
			{
				let (mut s, _sib) = o.view();
				let batch = SlicesBatch::new(bufs.iter().map(|b| b.cview()).collect(), n);
				let r = hal.execute(|x| {
					x.compute_composite(&batch, &mut s, &expr)?;
					Ok(vec![])
				});
				if !matching {
					ensure!(r.is_err(), "composition of another arity accepted");
					return Ok(());
				}
				r.map_err(es)?;
			}
			o.check(hal, &want, "composite")?;
			for b in &bufs {
				b.same(hal, "composite input")?;
			}
			c.obs((name, op as u8, n, format!("{e:?}")), true);
			if c.flip() {
				let x = scalars::<F>(c, n * 2);
				let mut o = put(c, hal, alloc, &x)?;
				let (mut s, _sib) = o.view();
				let batch = SlicesBatch::new(bufs.iter().map(|b| b.cview()).collect(), n);
				let r = hal.execute(|x| {
					x.compute_composite(&batch, &mut s, &expr)?;
					Ok(vec![])
				});
				ensure!(r.is_err(), "composite into a longer output succeeded");
				let batch = SlicesBatch::new(bufs.iter().chain(&bufs).map(|b| b.cview()).collect(), n);
				drop(s);
				drop(_sib);
				let (mut s, _sib) = o.view();
				let r = hal.execute(|x| {
					x.compute_composite(&batch, &mut s, &expr)?;
					Ok(vec![])
				});
				ensure!(r.is_err(), "composite with too many inputs succeeded");
				c.count("rejected calls", 2);
			}
		}
		Op::Pairwise => {
			let k = c.range(1, 9);
			c.desc(format!("{name} pairwise products of 2^{k}"));
			let v: Vec<F> = if c.flip() { scalars(c, 1 << k) } else { (0..1usize << k).map(|_| F::f(c.u128() | 1)).collect() };
			let a = put(c, hal, alloc, &v)?;
			let mut outs = vec![];
			for i in 0..k {
				let x = scalars::<F>(c, 1 << (k - i - 1));
				outs.push(put(c, hal, alloc, &x)?);
			}
			{
				let mut views: Vec<_> = outs.iter_mut().map(|o| o.view().0).collect();
				hal.execute(|e| {
					e.pairwise_product_reduce(a.cview(), &mut views)?;
					Ok(vec![])
				})
				.map_err(es)?;
			}
			let mut cur = v.clone();
			for (i, o) in outs.iter().enumerate() {
				cur = cur.chunks(2).map(|p| p[0] * p[1]).collect();
				o.check(hal, &cur, &format!("products of round {i}"))?;
			}
			a.same(hal, "input of the products")?;
			c.obs((name, op as u8, k, &v[0].u()), true);
			// documented errors
			let bad = c.below(4);
			let x = scalars::<F>(c, if bad == 1 { 1 } else { 3 });
			let odd = put(c, hal, alloc, &x)?;
			let mut views: Vec<_> = outs.iter_mut().map(|o| o.view().0).collect();
			let r = match bad {
				0 | 1 => hal.execute(|e| {
					e.pairwise_product_reduce(odd.cview(), &mut views)?;
					Ok(vec![])
				}),
				2 => hal.execute(|e| {
					e.pairwise_product_reduce(a.cview(), &mut views[1..])?;
					Ok(vec![])
				}),
				_ => {
					if k == 1 {
						return Ok(());
					}
					let j = c.below(k - 1);
					views.swap(j, j + 1);
					hal.execute(|e| {
						e.pairwise_product_reduce(a.cview(), &mut views)?;
						Ok(vec![])
					})
				}
			};
			ensure!(r.is_err(), "pairwise products with bad shapes ({bad}) succeeded");
			c.count("rejected calls", 1);
		}
		Op::Accumulate | Op::MapKernels => {
			let ls = lg(c, al, 9);
			let n = 1usize << ls;
			// a second group of buffers of another size
			let ls2 = lg(c, al, 9);
			let mins = [c.below(ls + 2), c.below(ls + 2), c.below(ls + 2), c.below(ls2 + 2)];
			let e = E::A(Box::new(E::random(c, 3, 3)), Box::new(E::V(2)));
			let rounds = c.range(1, 2);
			c.desc(format!("{name} {op:?} log sizes {ls} and {ls2}, min chunks {mins:?}, {e:?}"));
			let (a, b, m, x) = (scalars::<F>(c, n), scalars::<F>(c, n), scalars::<F>(c, n), scalars::<F>(c, 1 << ls2));
			let coef: F = rand_scalar(c);
			let init: F = F::rnd(c);
			let (ba, bb, mut bm, bx) = (put(c, hal, alloc, &a)?, put(c, hal, alloc, &b)?, put(c, hal, alloc, &m)?, put(c, hal, alloc, &x)?);
			let circ = e.circuit();
			let comp = hal.compile_expr(&circ).map_err(es)?;
			let v0 = hal.compile_expr(&ArithCircuit::var(0)).map_err(es)?;
			let mut mcur = m.clone();
			let mut local_dirty = 0u64;
			for round in 0..rounds {
				// kernels: m += b; l = a + b; r = [coef * sum comp(a, b, l), sum l before it was written, sum x, sum m, init]
				let seen = Mutex::new((vec![], 0u64));
				let fail_at = if c.below(6) == 0 { Some(c.below(4) as u64) } else { None };
				let calls = std::sync::atomic::AtomicU64::new(0);
				let got = {
					let (mv, _sib) = bm.view();
					let maps = vec![
						KernelMemMap::Chunked { data: ba.cview(), log_min_chunk_size: mins[0] },
						KernelMemMap::Chunked { data: bb.cview(), log_min_chunk_size: mins[1] },
						KernelMemMap::ChunkedMut { data: mv, log_min_chunk_size: mins[2] },
						KernelMemMap::Local { log_size: ls },
						KernelMemMap::Chunked { data: bx.cview(), log_min_chunk_size: mins[3] },
					];
					hal.execute(|ex| {
						macro_rules! body {
							($k:ident, $lc:ident, $bufs:ident) => {{
								let me = calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
								let nb = $bufs.len();
								let [a, b, m, l, x] = $bufs.try_into().unwrap_or_else(|_| panic!("expected 5 buffers, got {nb}"));
								{
									let mut s = seen.lock().unwrap();
									s.1 += 1;
									s.0.push(($lc, [a.len(), b.len(), m.len(), l.len(), x.len()]));
								}
								let (KernelBuffer::Mut(mut m), KernelBuffer::Mut(mut l)) = (m, l) else { panic!("mutable mapping gave an immutable buffer") };
								let log = a.len().trailing_zeros() as usize;
								let mut r: Vec<_> = vec![];
								for _ in 0..4 {
									r.push($k.decl_value(F::ZERO)?);
								}
								let last = $k.decl_value(init)?;
								sum($k, &[&l], &v0, F::ONE, &mut r[1])?;
								$k.add_assign(log, b.to_ref(), &mut m)?;
								$k.add(log, a.to_ref(), b.to_ref(), &mut l)?;
								{
									let rows = vec![a.to_ref(), b.to_ref(), as_c($k, &l)];
									$k.sum_composition_evals(&SlicesBatch::new(rows, 1 << log), &comp, coef, &mut r[0])?;
								}
								$k.sum_composition_evals(&SlicesBatch::new(vec![x.to_ref()], x.len()), &v0, F::ONE, &mut r[2])?;
								sum($k, &[&m], &v0, F::ONE, &mut r[3])?;
								r.push(last);
								if fail_at == Some(me) {
									return Err(Error::InputValidation("requested failure".into()));
								}
								r
							}};
						}
						if op == Op::Accumulate {
							ex.accumulate_kernels(|k, lc, bufs| Ok(body!(k, lc, bufs)), maps)
						} else {
							ex.map_kernels(
								|k, lc, bufs| {
									let _ = body!(k, lc, bufs);
									Ok(())
								},
								maps,
							)?;
							Ok(vec![])
						}
					})
				};
				let (shapes, ncalls) = seen.into_inner().unwrap();
				for (lc, sh) in &shapes {
					ensure!(1u64 << lc >= 1, "chunks");
					for (s, l) in sh.iter().zip([ls, ls, ls, ls, ls2]) {
						ensure_eq!(*s << lc, 1usize << l, "a kernel with 2^{lc} chunks got a buffer of {s} out of 2^{l}");
					}
				}
				let failed = fail_at.is_some_and(|f| f < ncalls);
				c.obs((name, op as u8, ls, ls2, mins, shapes.first().map(|s| s.0), failed), true);
				if failed {
					ensure!(got.is_err(), "a kernel failed but the launch succeeded");
					c.count("kernel failures propagated", 1);
					return Ok(());
				}
				let got = got.map_err(es)?;
				let nk = 1u64 << shapes[0].0;
				ensure_eq!(ncalls, nk, "number of kernels launched");
				for (q, bq) in mcur.iter_mut().zip(&b) {
					*q += *bq;
				}
				bm.check(hal, &mcur, "buffer written by the kernels")?;
				let at = bm.off;
				bm.full[at..at + n].copy_from_slice(&mcur);
				ba.same(hal, "kernel input a")?;
				bb.same(hal, "kernel input b")?;
				bx.same(hal, "kernel input x")?;
				if op == Op::Accumulate {
					let s = (0..n).fold(F::ZERO, |s, i| s + e.eval(&[a[i], b[i], a[i] + b[i]])) * coef;
					let sx = x.iter().fold(F::ZERO, |s, v| s + *v);
					let sm = mcur.iter().fold(F::ZERO, |s, v| s + *v);
					ensure_eq!(got.len(), 5, "number of accumulated values");
					ensure_eq!(got[0], s, "accumulated composition");
					ensure_eq!(got[2], sx, "accumulated sum of the second group");
					ensure_eq!(got[3], sm, "accumulated sum of the written buffer");
					ensure_eq!(got[4], if nk == 1 { init } else { F::ZERO }, "accumulated initial values");
					if got[1] != F::ZERO {
						local_dirty += 1;
					}
					c.count("kernels", ncalls);
				} else {
					c.count("kernels", ncalls);
				}
				let _ = round;
			}
			ensure_eq!(local_dirty, 0, "kernel scratchpads were not initialised with zeros");
		}
		Op::Parallel => {
			let k = c.range(1, 12);
			let n = 1usize << lg(c, al, 6);
			c.desc(format!("{name} map over {k} inner products of {n}, and a join"));
			let vs: Vec<Vec<F>> = (0..k).map(|_| scalars(c, n)).collect();
			let w = scalars::<F>(c, n);
			let bufs = vs.iter().map(|v| put(c, hal, alloc, v)).collect::<Result<Vec<_>, _>>()?;
			let b = put(c, hal, alloc, &w)?;
			let want: Vec<F> = vs.iter().map(|v| dot(v, &w)).collect();
			let slices: Vec<_> = bufs.iter().map(|x| x.cview()).collect();
			let bv = b.cview();
			let got = hal
				.execute(|e| e.map(slices.iter(), |e, s| e.inner_product(SubfieldSlice::new(*s, 7), bv)))
				.map_err(es)?;
			ensure_eq!(got, want, "map of inner products");
			let got = hal
				.execute(|e| {
					let (x, y) = e.join(
						|e| e.inner_product(SubfieldSlice::new(slices[0], 7), bv),
						|e| e.inner_product(SubfieldSlice::new(slices[k - 1], 7), bv),
					)?;
					Ok(vec![x, y])
				})
				.map_err(es)?;
			ensure_eq!(got, vec![want[0], want[k - 1]], "join of inner products");
			let bad = c.below(k);
			let r = hal.execute(|e| {
				e.map(slices.iter().enumerate(), |e, (i, s)| {
					if i == bad {
						return Err(Error::InputValidation("requested failure".into()));
					}
					e.inner_product(SubfieldSlice::new(*s, 7), bv)
				})
			});
			ensure!(r.is_err(), "an operation of a map failed but the map succeeded");
			c.obs((name, op as u8, k, n), true);
		}
		Op::EqInd => {
			let k = lg(c, al, 9);
			c.desc(format!("{name} equality indicator of {k} coordinates"));
			let r = scalars::<F>(c, k);
			let o = eq_ind_partial_eval(hal, alloc, &r).map_err(es)?;
			ensure_eq!(o.len(), 1usize << k, "length");
			let mut got = vec![F::ZERO; 1 << k];
			hal.copy_d2h(M::<F, Hal>::as_const(&o), &mut got).map_err(es)?;
			ensure_eq!(got, eq_all(&r), "equality indicator");
			c.obs((name, op as u8, k, r.first().map(|x| x.u())), k > 0);
		}
	}
	Ok(())
}

fn as_c<'a, F, K: KernelExecutor<F>>(_k: &K, s: &'a <K::Mem as ComputeMemory<F>>::FSliceMut<'_>) -> <K::Mem as ComputeMemory<F>>::FSlice<'a> {
	K::Mem::as_const(s)
}
fn sum<F: Field, K: KernelExecutor<F>>(
	k: &mut K,
	rows: &[&<K::Mem as ComputeMemory<F>>::FSliceMut<'_>],
	comp: &K::ExprEval,
	coef: F,
	acc: &mut K::Value,
) -> Result<(), Error> {
	let n = rows[0].len();
	let rows = rows.iter().map(|r| K::Mem::as_const(r)).collect();
	k.sum_composition_evals(&SlicesBatch::new(rows, n), comp, coef, acc)
}

/// a history of allocations: disjoint, right length, exhaustion reported, scopes give back
fn alloc_history<F: Sc, Hal: ComputeLayer<F>, H: ComputeHolder<F, Hal>>(c: &mut Case, name: &str, mut holder: H, cap: usize) -> Res {
	let al = <Hal::DevMem as ComputeMemory<F>>::ALIGNMENT;
	let mut data = holder.to_data();
	let hal = data.hal;
	let mut log = String::new();
	fn phase<F: Sc, Hal: ComputeLayer<F>>(
		c: &mut Case,
		hal: &Hal,
		alloc: &impl ComputeAllocator<F, Hal::DevMem>,
		al: usize,
		log: &mut String,
	) -> Result<usize, String> {
		let mut live: Vec<(FSliceMut<'_, F, Hal>, Vec<F>)> = vec![];
		let mut left = alloc.capacity();
		for _ in 0..c.range(1, 10) {
			let n = match c.below(8) {
				0 => 0,
				1 if al > 1 => 1usize << c.below(al.trailing_zeros() as usize),
				2 => left + al * c.range(1, 3),
				3 => left,
				4 => (left + al).next_power_of_two(),
				_ => al * c.range(1, 6),
			};
			let cost = n.div_ceil(al) * al;
			*log += &format!(" alloc({n})/{left}");
			match alloc.alloc(n) {
				Ok(mut s) => {
					ensure!(cost <= left, "allocated {n} with {left} left ({log})");
					left -= cost;
					ensure_eq!(s.len(), n, "length of an allocation ({log})");
					let v = scalars::<F>(c, n);
					hal.copy_h2d(&v, &mut s).map_err(es)?;
					live.push((s, v));
				}
				Err(_) => ensure!(cost > left, "alloc({n}) refused with {left} left ({log})"),
			}
			ensure_eq!(alloc.capacity(), left, "capacity ({log})");
		}
		for (s, v) in &live {
			let mut got = vec![F::ZERO; v.len()];
			hal.copy_d2h(Hal::DevMem::as_const(s), &mut got).map_err(es)?;
			ensure_eq!(&got, v, "an allocation was overwritten through another ({log})");
		}
		c.count("allocations", live.len() as u64);
		Ok(left)
	}
	ensure_eq!(data.dev_alloc.capacity(), cap, "capacity of a fresh device allocator");
	let left = phase::<F, Hal>(c, hal, &data.dev_alloc, al, &mut log)?;
	for _ in 0..c.below(3) {
		log += " {";
		{
			let mut scope = data.dev_alloc.subscope_allocator();
			ensure_eq!(scope.capacity(), left, "capacity of a subscope ({log})");
			let l2 = phase::<F, Hal>(c, hal, &scope, al, &mut log)?;
			if c.flip() {
				log += " {";
				let inner = scope.subscope_allocator();
				ensure_eq!(inner.capacity(), l2, "capacity of a nested subscope ({log})");
				phase::<F, Hal>(c, hal, &inner, al, &mut log)?;
				log += " }";
			}
		}
		log += " }";
		ensure_eq!(data.dev_alloc.capacity(), left, "capacity after a subscope ({log})");
	}
	let mut hl = data.host_alloc.capacity();
	for _ in 0..3 {
		let n = c.below(hl + 3);
		match data.host_alloc.alloc(n) {
			Ok(s) => {
				ensure!(n <= hl && s.len() == n, "host allocation of {n} with {hl} left gave {}", s.len());
				s.fill(F::ONE);
				hl -= n;
			}
			Err(_) => ensure!(n > hl, "host alloc({n}) refused with {hl} left"),
		}
		ensure_eq!(data.host_alloc.capacity(), hl, "host capacity");
	}
	c.desc(format!("{name}:{log}"));
	c.obs((name, &log), true);
	Ok(())
}

/// the same allocator used by several threads: everything handed out is disjoint
fn alloc_threads<F: Sc, M: ComputeMemory<F>>(
	c: &mut Case,
	name: &str,
	buf: M::FSliceMut<'_>,
	write: impl Fn(&mut M::FSliceMut<'_>, F) + Sync,
	read: impl Fn(&M::FSliceMut<'_>) -> Vec<F> + Sync,
) -> Res
where
	for<'a> M::FSliceMut<'a>: Send,
{
	let cap = buf.len();
	let al = M::ALIGNMENT;
	let bump = BumpAllocator::<F, M>::new(buf);
	let t = c.range(2, 6);
	let plans: Vec<Vec<usize>> = (0..t)
		.map(|_| (0..c.range(1, 8)).map(|_| if al > 1 && c.below(3) == 0 { 1 << c.below(al.trailing_zeros() as usize) } else { al * c.range(1, 4) }).collect())
		.collect();
	c.desc(format!("{name} {cap} elements, threads {plans:?}"));
	let barrier = std::sync::Barrier::new(t);
	let results: Vec<Result<usize, String>> = std::thread::scope(|s| {
		let hs: Vec<_> = plans
			.iter()
			.enumerate()
			.map(|(k, plan)| {
				let (bump, barrier, write, read) = (&bump, &barrier, &write, &read);
				s.spawn(move || {
					barrier.wait();
					let mut mine = vec![];
					let mut used = 0;
					for (i, n) in plan.iter().enumerate() {
						if let Ok(mut x) = bump.alloc(*n) {
							let tag = F::f((1 + k as u128) << 8 | i as u128);
							write(&mut x, tag);
							used += n.div_ceil(al) * al;
							mine.push((x, *n, tag));
						}
						std::thread::yield_now();
					}
					barrier.wait();
					for (x, n, tag) in &mine {
						ensure_eq!(read(x), vec![*tag; *n], "an allocation of thread {k} was overwritten");
					}
					Ok(used)
				})
			})
			.collect();
		hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
	});
	let mut used = 0;
	for r in results {
		used += r?;
	}
	ensure_eq!(used + bump.capacity(), cap, "allocated and remaining elements do not add up");
	c.obs((name, cap, &plans), true);
	c.count("threads", t as u64);
	Ok(())
}

/// slice_power_of_two_mut and to_owned_mut on arbitrary lengths
fn views<F: Sc, M: ComputeMemory<F>>(
	c: &mut Case,
	name: &str,
	vals: &[F],
	mut buf: M::FSliceMut<'_>,
	write: impl Fn(&mut M::FSliceMut<'_>, F),
	read: impl Fn(&M::FSliceMut<'_>) -> Vec<F>,
) -> Res {
	let al = M::ALIGNMENT;
	let mut model = vals.to_vec();
	let mut log = String::new();
	for step in 0..c.range(1, 6) {
		let tag = F::f(c.u128());
		let n = 1usize << c.below(model.len().next_power_of_two().trailing_zeros() as usize + 2);
		match c.below(4) {
			0 | 1 => {
				log += &format!(" first({n})");
				let mut s = M::slice_power_of_two_mut(&mut buf, n);
				let k = n.min(model.len());
				ensure_eq!(read(&s), model[..k].to_vec(), "first {n} elements of {} ({log})", model.len());
				write(&mut s, tag);
				model[..k].fill(tag);
			}
			2 => {
				let k = c.below(model.len() / al + 1) * al;
				log += &format!(" borrow_split({k})");
				let (mut l, mut r) = M::split_at_mut_borrowed(&mut buf, k);
				ensure_eq!(read(&l), model[..k].to_vec(), "left part ({log})");
				ensure_eq!(read(&r), model[k..].to_vec(), "right part ({log})");
				if c.flip() {
					write(&mut l, tag);
					model[..k].fill(tag);
				} else {
					write(&mut r, tag);
					model[k..].fill(tag);
				}
			}
			_ => {
				log += " owned";
				let mut s = M::to_owned_mut(&mut buf);
				write(&mut s, tag);
				model.fill(tag);
			}
		}
		ensure_eq!(read(&buf), model, "buffer after step {step} ({log})");
	}
	c.desc(format!("{name} of {}:{log}", model.len()));
	c.obs((name, model.len(), &log), true);
	Ok(())
}

fn pread<P: PackedField>(s: &PackedMemorySliceMut<'_, P>) -> Vec<P::Scalar> {
	unpack(s.as_slice(), s.len())
}
fn pwrite<P: PackedField>(s: &mut PackedMemorySliceMut<'_, P>, v: P::Scalar) {
	let n = s.len();
	let p = s.as_slice_mut();
	for i in 0..n {
		p[i / P::WIDTH].set(i % P::WIDTH, v);
	}
}

/// borrowing the right half of a split packed element once more
fn reborrow<P: PackedField<Scalar: Sc>>(c: &mut Case) -> Res {
	c.key("reborrow-right-part");
	let v = scalars::<P::Scalar>(c, P::WIDTH);
	let mut mem: Vec<P> = pack0(&v);
	let tag = P::Scalar::rnd(c);
	{
		let whole = PackedMemorySliceMut::new_slice(&mut mem);
		let (_l, mut r) = PackedMemory::<P>::split_half_mut(whole);
		let mut again = <PackedMemory<P> as ComputeMemory<P::Scalar>>::to_owned_mut(&mut r);
		pwrite(&mut again, tag);
	}
	let mut want = v.clone();
	want[P::WIDTH / 2..].fill(tag);
	c.desc(format!("{}: write through to_owned_mut of the right half of a split element", tn::<P>()));
	c.obs((tn::<P>(), "reborrow"), true);
	ensure_eq!(unpack::<P>(&mem, P::WIDTH), want, "write through a reborrowed right half of a packed element is lost");
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C21");
	m.rule("one compute-layer operation (or memory-view / allocator history) whose whole surrounding buffers are compared with the definition; non-trivial when the operation does something; distinct by layer, operation, shape and position in its buffer");
	let ops = [
		(Op::Copy, "copy", 60, 1500),
		(Op::Inner, "inner-product", 100, 3000),
		(Op::Tensor, "tensor", 80, 2500),
		(Op::FoldLeft, "fold-left", 80, 2500),
		(Op::FoldRight, "fold-right", 80, 2500),
		(Op::Fri, "fri-fold", 60, 1500),
		(Op::Line, "line", 80, 2500),
		(Op::Composite, "composite", 80, 2500),
		(Op::Pairwise, "pairwise", 60, 1500),
		(Op::Accumulate, "accumulate", 100, 3000),
		(Op::MapKernels, "map-kernels", 60, 1500),
		(Op::Parallel, "parallel", 40, 1000),
		(Op::EqInd, "eq-ind", 40, 1000),
	];
	for (op, nm, q, t) in ops {
		macro_rules! cpu { ($f:ty, $fs:ty) => {{
			let k = m.n(q * 3, t);
			m.par(nm, k, move |c| go::<$f, $fs, _, _>(c, op, "CpuLayer", CpuLayerHolder::<$f>::new(16, 1 << 15)));
		}}}
		macro_rules! fast { ($t:ty, $p:ty, $f:ty, $fs:ty) => {{
			// products are not implemented on this layer
			if op != Op::Pairwise {
				let k = m.n(q * 3, t);
				m.par(nm, k, move |c| {
					let run = |c: &mut Case| go::<$f, $fs, _, _>(c, op, stringify!($p), FastCpuLayerHolder::<$t, $p>::new(16, 1 << 16));
					#[cfg(feature = "rayon")]
					if c.below(3) == 0 {
						let t = c.range(1, 9);
						let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
						return pool.install(|| run(c));
					}
					run(c)
				});
			}
		}}}
		cpu!(BinaryField128b, BinaryField16b);
		fast!(CanonicalTowerFamily, PackedBinaryField1x128b, BinaryField128b, BinaryField8b);
		fast!(CanonicalTowerFamily, PackedBinaryField2x128b, BinaryField128b, BinaryField16b);
		fast!(CanonicalTowerFamily, PackedBinaryField4x128b, BinaryField128b, BinaryField32b);
		fast!(AESTowerFamily, PackedAESBinaryField1x128b, AESTowerField128b, AESTowerField8b);
		fast!(AESTowerFamily, PackedAESBinaryField2x128b, AESTowerField128b, AESTowerField16b);
		fast!(AESTowerFamily, PackedAESBinaryField4x128b, AESTowerField128b, AESTowerField32b);
		fast!(AESTowerFamily, ByteSlicedAES16x128b, AESTowerField128b, AESTowerField16b);
		fast!(AESTowerFamily, ByteSlicedAES32x128b, AESTowerField128b, AESTowerField8b);
	}
	let k = m.n(60, 2000);
	m.par("allocator", k, |c| {
		let dev = c.range(0, 200);
		alloc_history(c, "CpuLayer", CpuLayerHolder::<BinaryField128b>::new(20, dev), dev)
	});
	macro_rules! al { ($t:ty, $($p:ty),*) => {$(
		m.par("allocator", k, |c| {
			let dev = c.range(1, 50) * <$p as PackedField>::WIDTH;
			alloc_history(c, stringify!($p), FastCpuLayerHolder::<$t, $p>::new(20, dev), dev)
		});
		m.par("views", k, |c| {
			let n = if c.flip() { c.range(1, 12) } else { 1 << c.below(5) };
			let v = scalars::<<$p as PackedField>::Scalar>(c, n * <$p as PackedField>::WIDTH);
			let mut mem: Vec<$p> = pack0(&v);
			views::<_, PackedMemory<$p>>(c, stringify!($p), &v, PackedMemorySliceMut::new_slice(&mut mem), pwrite::<$p>, pread::<$p>)
		});
		let kt = m.n(10, 300);
		m.seq("allocator-threads", kt, |c| {
			let mut mem: Vec<$p> = vec![<$p as PackedField>::zero(); c.range(1, 60)];
			alloc_threads::<_, PackedMemory<$p>>(c, stringify!($p), PackedMemorySliceMut::new_slice(&mut mem), pwrite::<$p>, pread::<$p>)
		});
	)*}}
	al!(CanonicalTowerFamily, PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b);
	al!(AESTowerFamily, ByteSlicedAES16x128b);
	m.par("views", k, |c| {
		let n = c.range(1, 40);
		let v = scalars::<BinaryField128b>(c, n);
		let mut mem = v.clone();
		views::<_, CpuMemory>(c, "CpuMemory", &v, &mut mem[..], |s, x| s.fill(x), |s| s.to_vec())
	});
	let kt = m.n(20, 500);
	m.seq("allocator-threads", kt, |c| {
		let mut mem = vec![BinaryField128b::ZERO; c.range(1, 60)];
		alloc_threads::<_, CpuMemory>(c, "CpuMemory", &mut mem[..], |s, x| s.fill(x), |s| s.to_vec())
	});
	m.seq("reborrow", 2, |c| reborrow::<PackedBinaryField4x32b>(c));
	m.seq("reborrow", 2, |c| reborrow::<PackedBinaryField2x128b>(c));
	m.finish();
}
