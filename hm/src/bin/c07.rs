//! C07: arithmetic expressions keep their value under every transformation.
use std::{collections::BTreeMap, sync::Arc};

use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_math::*;
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use hm::*;

type E<F> = Arc<ArithExpr<F>>;

/// random expression with explicit sharing
fn gen_expr<F: Sc>(c: &mut Case, nv: usize, size: usize, maxexp: u64, linear: bool) -> E<F> {
	let mut pool: Vec<(E<F>, bool)> = vec![];
	for i in 0..nv {
		pool.push((Arc::new(ArithExpr::Var(i)), false));
	}
	for _ in 0..3 {
		pool.push((Arc::new(ArithExpr::Const(rand_scalar(c))), true));
	}
	let mut last = c.below(pool.len());
	for _ in 0..size {
		// prefer recent nodes so that the graph is deep
		let n = pool.len();
		let pick = |c: &mut Case| if c.below(3) == 0 { c.below(n) } else { n - 1 - c.below(n.min(4)) };
		let (i, j) = (pick(c), pick(c));
		let fresh = c.below(3) == 0;
		let get = |k: usize| if fresh { Arc::new((*pool[k].0).clone()) } else { pool[k].0.clone() };
		let (a, b) = (get(i), get(j));
		let (ca, cb) = (pool[i].1, pool[j].1);
		let (node, cst) = match c.below(8) {
			0 | 1 | 2 => (ArithExpr::Add(a, b), ca && cb),
			3 | 4 if !linear || ca || cb => (ArithExpr::Mul(a, b), ca && cb),
			5 if !linear => {
				// a + b * d, the shape that is fused
				let k = pick(c);
				(ArithExpr::Add(a, Arc::new(ArithExpr::Mul(b, pool[k].0.clone()))), ca && cb && pool[k].1)
			}
			6 => {
				let e = if linear && !ca { c.below(2) as u64 } else { c.below(maxexp as usize + 1) as u64 };
				(ArithExpr::Pow(a, e), ca)
			}
			_ => (ArithExpr::Add(a, Arc::new(ArithExpr::Const(rand_scalar(c)))), ca),
		};
		pool.push((Arc::new(node), cst));
		last = pool.len() - 1;
	}
	pool[last].0.clone()
}

fn depth_cost<F: Field>(e: &ArithExpr<F>) -> u64 {
	match e {
		ArithExpr::Const(_) | ArithExpr::Var(_) => 1,
		ArithExpr::Add(a, b) | ArithExpr::Mul(a, b) => depth_cost(a).saturating_add(depth_cost(b)),
		ArithExpr::Pow(a, _) => depth_cost(a),
	}
}

/// the value the expression denotes
fn val<F: Field>(e: &ArithExpr<F>, x: &[F]) -> F {
	match e {
		ArithExpr::Const(c) => *c,
		ArithExpr::Var(i) => x[*i],
		ArithExpr::Add(a, b) => val(a, x) + val(b, x),
		ArithExpr::Mul(a, b) => val(a, x) * val(b, x),
		ArithExpr::Pow(a, e) => {
			let (mut r, b) = (F::ONE, val(a, x));
			for i in (0..64).rev() {
				r = r * r;
				if e >> i & 1 == 1 {
					r = r * b;
				}
			}
			r
		}
	}
}
fn syntactic_vars<F: Field>(e: &ArithExpr<F>, out: &mut Vec<bool>) {
	match e {
		ArithExpr::Const(_) => {}
		ArithExpr::Var(i) => {
			if out.len() <= *i {
				out.resize(i + 1, false);
			}
			out[*i] = true
		}
		ArithExpr::Add(a, b) | ArithExpr::Mul(a, b) => {
			syntactic_vars(a, out);
			syntactic_vars(b, out)
		}
		ArithExpr::Pow(a, _) => syntactic_vars(a, out),
	}
}
fn consts<F: Field>(e: &ArithExpr<F>, out: &mut Vec<F>) {
	match e {
		ArithExpr::Const(c) => out.push(*c),
		ArithExpr::Var(_) => {}
		ArithExpr::Add(a, b) | ArithExpr::Mul(a, b) => {
			consts(a, out);
			consts(b, out)
		}
		ArithExpr::Pow(a, _) => consts(a, out),
	}
}
fn sdeg<F: Field>(e: &ArithExpr<F>) -> u128 {
	match e {
		ArithExpr::Const(_) => 0,
		ArithExpr::Var(_) => 1,
		ArithExpr::Add(a, b) => sdeg(a).max(sdeg(b)),
		ArithExpr::Mul(a, b) => sdeg(a).saturating_add(sdeg(b)),
		ArithExpr::Pow(a, e) => sdeg(a).saturating_mul(*e as u128),
	}
}

type Poly<F> = BTreeMap<Vec<u32>, F>;
fn padd<F: Field>(a: &Poly<F>, b: &Poly<F>) -> Poly<F> {
	let mut r = a.clone();
	for (k, v) in b {
		let e = r.entry(k.clone()).or_insert(F::ZERO);
		*e += *v;
	}
	r.retain(|_, v| *v != F::ZERO);
	r
}
fn pmul<F: Field>(a: &Poly<F>, b: &Poly<F>) -> Poly<F> {
	let mut r = Poly::new();
	for (k, v) in a {
		for (l, w) in b {
			let m: Vec<u32> = k.iter().zip(l).map(|(x, y)| x + y).collect();
			*r.entry(m).or_insert(F::ZERO) += *v * *w;
		}
	}
	r.retain(|_, v| *v != F::ZERO);
	r
}
fn sym<F: Field>(e: &ArithExpr<F>, nv: usize) -> Poly<F> {
	let cst = |c: F| -> Poly<F> { if c == F::ZERO { Poly::new() } else { [(vec![0; nv], c)].into() } };
	match e {
		ArithExpr::Const(c) => cst(*c),
		ArithExpr::Var(i) => {
			let mut k = vec![0; nv];
			k[*i] = 1;
			[(k, F::ONE)].into()
		}
		ArithExpr::Add(a, b) => padd(&sym(a, nv), &sym(b, nv)),
		ArithExpr::Mul(a, b) => pmul(&sym(a, nv), &sym(b, nv)),
		ArithExpr::Pow(a, e) => {
			let b = sym(a, nv);
			(0..64).rev().fold(cst(F::ONE), |r, i| {
				let r = pmul(&r, &r);
				if e >> i & 1 == 1 { pmul(&r, &b) } else { r }
			})
		}
	}
}
fn homogeneous<F: Field>(p: &Poly<F>, d: usize) -> Poly<F> {
	p.iter().filter(|(k, _)| k.iter().sum::<u32>() as usize == d).map(|(k, v)| (k.clone(), *v)).collect()
}
fn pdeg<F: Field>(p: &Poly<F>) -> usize {
	p.keys().map(|k| k.iter().sum::<u32>() as usize).max().unwrap_or(0)
}

/// evaluate an arbitrary circuit through its own expression form and directly
fn both<F: Sc>(nm: &str, ci: &ArithCircuit<F>, x: &[F], want: F) -> Res {
	ensure_eq!(ci.evaluate(x).map_err(es)?, want, "{nm}: ArithCircuit::evaluate of {ci}");
	let back = ArithExpr::from(ci);
	ensure_eq!(val(&back, x), want, "{nm}: ArithExpr::from(circuit) of {ci}");
	Ok(())
}

fn expr<F: Sc + TowerField, G: Sc + TowerField + ExtensionField<F> + From<F> + TryInto<F>>(c: &mut Case) -> Res
where
	F: TryFrom<G>,
{
	let nv = c.range(1, 4);
	let linear = c.below(5) == 0;
	let big = !linear && c.below(6) == 0;
	let size = c.range(0, 14);
	let mut e: E<F> = gen_expr(c, nv, size, 5, linear);
	if big {
		// towers of large powers: the exponents multiply beyond 64 bits
		for _ in 0..c.range(1, 3) {
			let s = c.below(60);
			e = Arc::new(ArithExpr::Pow(e, (1u64 << s) + c.below(3) as u64));
		}
	}
	let mut guard = 0;
	while depth_cost(&e) > 3000 && guard < 20 {
		e = gen_expr(c, nv, 6, 5, linear);
		guard += 1;
	}
	let x: Vec<F> = scalars(c, nv);
	let want = val(&e, &x);
	let mut used = vec![];
	syntactic_vars(&e, &mut used);
	c.desc(format!("{} linear={linear} big={big}: {}", F::NAME, clip(&format!("{e}"))));
	c.obs((F::NAME, format!("{e}"), x.iter().map(|v| v.u()).collect::<Vec<_>>()), used.iter().any(|x| *x));
	let ci = ArithCircuit::from(&*e);
	both("from expr", &ci, &x, want)?;
	ensure_eq!(ci.vars_usage(), used, "vars_usage");
	ensure_eq!(ci.n_vars(), used.len(), "n_vars");
	let mut k = vec![];
	consts(&e, &mut k);
	let lvl = k.iter().map(|v| (0..=7).find(|l| v.u() < (1u128 << (1 << l).min(127)) || *l == 7).unwrap()).max().unwrap_or(0);
	if F::NAME.starts_with("Binary") {
		ensure_eq!(ci.binary_tower_level(), lvl, "binary_tower_level");
	}
	// transformations
	let oc = ci.clone().optimize_constants();
	both("optimize_constants", &oc, &x, want)?;
	let o = ci.clone().optimize();
	both("optimize", &o, &x, want)?;
	let mut o2 = ci.clone();
	o2.optimize_in_place();
	both("optimize_in_place", &o2, &x, want)?;
	both("optimize twice", &o.clone().optimize(), &x, want)?;
	ensure!(o.n_vars() <= ci.n_vars(), "optimize added variables");
	if let Some(v) = o.get_constant() {
		for _ in 0..3 {
			ensure_eq!(v, val(&e, &scalars(c, nv)), "get_constant");
		}
	}
	if used.iter().all(|x| !*x) {
		ensure_eq!(o.get_constant(), Some(want), "constant expression not folded");
		ensure_eq!(oc.get_constant(), Some(want), "constant expression not folded by optimize_constants");
	}
	ensure!(ci == ci.clone() && ci == ArithCircuit::from(ArithExpr::from(&ci)), "equality with itself");
	// a changed circuit is only equal if it denotes the same function
	let e3: E<F> = gen_expr(c, nv, 3, 4, false);
	let ci3 = ArithCircuit::from(&*e3);
	if ci3 == ci {
		for _ in 0..4 {
			let y = scalars(c, nv);
			ensure_eq!(val(&e, &y), val(&e3, &y), "circuits compare equal");
		}
	}
	// combining
	let w3 = val(&e3, &x);
	both("circuit +", &(ci.clone() + ci3.clone()), &x, want + w3)?;
	both("circuit -", &(ci.clone() - ci3.clone()), &x, want - w3)?;
	both("circuit *", &(ci.clone() * ci3.clone()), &x, want * w3)?;
	let mut acc = ci.clone();
	acc += ci3.clone();
	acc *= ci.clone();
	acc -= ci3.clone();
	both("circuit op-assign", &acc, &x, (want + w3) * want - w3)?;
	both("circuit sum", &[ci.clone(), ci3.clone(), ci3.clone(), ci.clone().pow(3)].into_iter().sum(), &x, want + want * want * want)?;
	both("circuit product", &[ci3.clone(), ci.clone()].into_iter().product(), &x, want * w3)?;
	both("empty sum", &std::iter::empty().sum(), &x, F::ZERO)?;
	both("empty product", &std::iter::empty().product(), &x, F::ONE)?;
	let xe = |a: &ArithExpr<F>| ArithCircuit::from(a);
	both("expr ops", &xe(&((*e).clone() + (*e3).clone() * e.clone() - e3.clone())), &x, want + w3 * want - w3)?;
	both("expr sum", &xe(&[(*e).clone(), (*e3).clone()].into_iter().sum()), &x, want + w3)?;
	both("expr product", &xe(&[(*e).clone(), (*e3).clone()].into_iter().product()), &x, want * w3)?;
	let mut ae = (*e).clone();
	ae += (*e3).clone();
	ae *= e.clone();
	ae -= (*e3).clone();
	both("expr op-assign", &xe(&ae), &x, (want + w3) * want - w3)?;
	let p = c.below(9) as u64;
	both("pow", &ci.clone().pow(p), &x, (0..p).fold(F::ONE, |a, _| a * want))?;
	both("expr pow", &xe(&(*e).clone().pow(p)), &x, (0..p).fold(F::ONE, |a, _| a * want))?;
	// remapping and substitution
	let map: Vec<usize> = (0..nv).map(|_| c.below(6)).collect();
	let y: Vec<F> = scalars(c, 6);
	let pulled: Vec<F> = map.iter().map(|i| y[*i]).collect();
	both("remap_vars", &ci.remap_vars(&map).map_err(es)?, &y, val(&e, &pulled))?;
	if !used.is_empty() {
		ensure!(ci.remap_vars(&map[..used.len() - 1]).is_err(), "remap_vars with too few indices");
	}
	let v = c.below(nv + 1);
	let s: F = rand_scalar(c);
	let mut xs = x.clone();
	if v < nv {
		xs[v] = s;
	}
	both("const_subst", &ci.clone().const_subst(v, s), &x, val(&e, &xs))?;
	both("const_subst, optimized", &ci.clone().const_subst(v, s).optimize(), &x, val(&e, &xs))?;
	// fields
	let up = ci.convert_field::<G>();
	let xg: Vec<G> = x.iter().map(|v| G::from(*v)).collect();
	both("convert_field", &up, &xg, G::from(want))?;
	let down = up.try_convert_field::<F>();
	ensure!(down.as_ref().is_ok_and(|d| *d == ci), "try_convert_field back");
	let eg: E<G> = gen_expr(c, nv, 4, 4, false);
	let mut kg = vec![];
	consts(&eg, &mut kg);
	let fits = kg.iter().all(|v| F::try_from(*v).is_ok());
	match ArithCircuit::from(&*eg).try_convert_field::<F>() {
		Ok(d) => {
			ensure!(fits, "try_convert_field accepted a constant outside the subfield");
			both("try_convert_field", &d.convert_field::<G>(), &xg, val(&eg, &xg))?;
		}
		Err(_) => ensure!(!fits, "try_convert_field refused constants inside the subfield"),
	}
	// serialization
	for mode in [SerializationMode::Native, SerializationMode::CanonicalTower] {
		let mut buf = vec![];
		o.serialize(&mut buf, mode).map_err(es)?;
		let mut r = &buf[..];
		let d = ArithCircuit::<F>::deserialize(&mut r, mode).map_err(es)?;
		ensure!(r.is_empty() && d == o, "serialization round trip");
		both("deserialized", &d, &x, want)?;
	}
	// cost never panics and counts operations
	let cost = ci.eval_cost();
	c.count("adds in circuits", cost.n_adds as u64);
	let _ = cost.mult_cost_approx();
	// polynomial-level facts
	let sd = sdeg(&e);
	if sd <= 14 && depth_cost(&e) < 400 {
		let poly = sym(&e, nv);
		let d = ci.degree();
		ensure!(pdeg(&poly) <= d && d as u128 <= sd, "degree {d} of a polynomial of degree {} (structural {sd})", pdeg(&poly));
		let lt = ci.leading_term();
		ensure_eq!(sym(&ArithExpr::from(&lt), nv.max(lt.n_vars())), homogeneous(&poly, d), "leading_term of {e}");
		ensure!(pdeg(&sym(&ArithExpr::from(&o), nv)) == pdeg(&poly) && o.degree() >= pdeg(&poly), "degree after optimization");
		match ci.linear_normal_form() {
			Ok(l) => {
				c.count("linear", 1);
				let mut want = Poly::new();
				if l.constant != F::ZERO {
					want.insert(vec![0; nv], l.constant);
				}
				for (i, a) in l.var_coeffs.iter().enumerate() {
					if *a != F::ZERO {
						let mut k = vec![0; nv];
						k[i] = 1;
						want.insert(k, *a);
					}
				}
				ensure_eq!(want, poly, "linear_normal_form of {e}");
			}
			Err(_) => ensure!(!linear, "linear_normal_form refused the linear {e}"),
		}
	}
	Ok(())
}

#[derive(Debug, Clone)]
struct Wrapped<F: Field>(ArithCircuit<F>, usize);
impl<F: Field, P: PackedField<Scalar = F>> CompositionPoly<P> for Wrapped<F> {
	fn n_vars(&self) -> usize {
		self.1
	}
	fn degree(&self) -> usize {
		self.0.degree()
	}
	fn binary_tower_level(&self) -> usize {
		0
	}
	fn expression(&self) -> ArithCircuit<F> {
		self.0.clone()
	}
	fn evaluate(&self, q: &[P]) -> Result<P, binius_math::Error> {
		Ok(P::from_fn(|l| self.0.evaluate(&q.iter().map(|x| x.get(l)).collect::<Vec<_>>()).unwrap()))
	}
}

fn compiled<F: Sc + TowerField, P: PackedField<Scalar: Sc + ExtensionField<F>>>(c: &mut Case) -> Res {
	let nv = c.range(1, 5);
	let size = c.range(0, 14);
	let maxexp = if c.flip() { 3 } else { 13 };
	let mut e: E<F> = gen_expr(c, nv, size, maxexp, false);
	let mut guard = 0;
	while (depth_cost(&e) > 2000 || sdeg(&e) > 1 << 40) && guard < 20 {
		e = gen_expr(c, nv, 6, maxexp, false);
		guard += 1;
	}
	let ci = ArithCircuit::from(&*e);
	c.desc(format!("{} over {}: {}", F::NAME, tn::<P>(), clip(&format!("{e}"))));
	let len = c.below(7);
	let off = c.below(4);
	let slack = c.below(3);
	let rows: Vec<Vec<P>> = (0..nv).map(|_| rand_packed::<P>(c, (off + len + slack).max(1) * P::WIDTH)).collect();
	let up: ArithExpr<P::Scalar> = ArithExpr::from(&ci.convert_field::<P::Scalar>());
	let lanes = P::WIDTH.min(4);
	c.obs((F::NAME, tn::<P>(), format!("{e}")), ci.n_vars() > 0);
	let at = |j: usize, l: usize| val(&up, &rows.iter().map(|r| r[j].get(l)).collect::<Vec<_>>());
	let poly = if c.flip() && ci.clone().optimize().n_vars() == nv { ArithCircuitPoly::new(ci.clone()) } else { ArithCircuitPoly::with_n_vars(nv, ci.clone()).map_err(es)? };
	let cp: &dyn CompositionPoly<P> = &poly;
	ensure_eq!(cp.n_vars(), nv, "n_vars of the compiled circuit");
	for j in 0..2.min(rows[0].len()) {
		let q: Vec<P> = rows.iter().map(|r| r[j]).collect();
		let got = cp.evaluate(&q).map_err(es)?;
		for l in 0..lanes {
			ensure_eq!(got.get(l), at(j, l), "compiled evaluate, column {j} lane {l}");
		}
		ensure!(cp.evaluate(&q[1..]).is_err(), "query of the wrong length accepted");
	}
	let refs: Vec<&[P]> = rows.iter().map(|r| &r[..]).collect();
	let total = off + len + slack;
	let sub: Vec<(&str, RowsBatchRef<P>)> = vec![
		("offset", RowsBatchRef::new_with_offset(&refs, off, len)),
		("subrange", RowsBatchRef::new(&refs, total.min(rows[0].len())).columns_subrange(off.min(total)..off + len)),
	];
	for (what, b) in &sub {
		ensure!(b.row_len() == len && b.n_rows() == nv, "{what} shape");
		for i in 0..nv {
			ensure!(b.row(i) == &rows[i][off..off + len], "{what} row {i}");
		}
		let it: Vec<&[P]> = b.iter().collect();
		ensure!(it.len() == nv && it.iter().zip(&rows).all(|(a, r)| *a == &r[off..off + len]), "{what}: iter() yields other columns than row()");
		let mut out = vec![P::broadcast(<P::Scalar as Field>::ONE); len];
		cp.batch_evaluate(b, &mut out).map_err(es)?;
		for j in 0..len {
			for l in 0..lanes {
				ensure_eq!(out[j].get(l), at(off + j, l), "compiled batch_evaluate {what}, column {j} lane {l}");
			}
		}
		// the default batch implementation of user compositions
		let w = Wrapped(ci.convert_field::<P::Scalar>(), nv);
		CompositionPoly::<P>::batch_evaluate(&w, b, &mut out).map_err(es)?;
		for j in 0..len {
			for l in 0..lanes {
				ensure_eq!(out[j].get(l), at(off + j, l), "default batch_evaluate {what}, column {j} lane {l}");
			}
		}
		let mut bad = vec![P::zero(); len + 1];
		ensure!(cp.batch_evaluate(b, &mut bad).is_err(), "batch_evaluate into a longer output");
		// row selection
		let idx: Vec<usize> = (0..c.range(1, 5)).map(|_| c.below(nv)).collect();
		let m = b.map(&idx);
		let mr = m.get_ref();
		ensure!(mr.row_len() == len && mr.n_rows() == idx.len(), "{what} map shape");
		for (k, i) in idx.iter().enumerate() {
			ensure!(mr.row(k) == &rows[*i][off..off + len], "{what}: map row {k}");
		}
	}
	if nv > 0 && !ci.vars_usage().is_empty() && ci.clone().optimize().n_vars() > 0 {
		ensure!(ArithCircuitPoly::with_n_vars(ci.clone().optimize().n_vars() - 1, ci.clone()).is_err(), "with_n_vars below the number used");
	}
	for mode in [SerializationMode::Native, SerializationMode::CanonicalTower] {
		let mut buf = vec![];
		poly.serialize(&mut buf, mode).map_err(es)?;
		let d = ArithCircuitPoly::<F>::deserialize(&buf[..], mode).map_err(es)?;
		ensure_eq!(CompositionPoly::<P>::n_vars(&d), nv, "n_vars after serialization");
		let q: Vec<P> = rows.iter().map(|r| r[0]).collect();
		ensure_eq!(CompositionPoly::<P>::evaluate(&d, &q).map_err(es)?, cp.evaluate(&q).map_err(es)?, "compiled circuit serialization round trip");
	}
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C07");
	m.rule("one generated expression DAG (with shared subexpressions) and point, compared with direct recursive evaluation of the expression tree and with symbolic polynomial expansion; non-trivial when it contains a variable; distinct by expression text and point");
	let n = m.n(700, 60000);
	macro_rules! go { ($f:ident, $nm:literal, $n:expr; $($p:ident $q:ident),* $(,)?) => {$( m.par(concat!($nm, " ", stringify!($p), " ", stringify!($q)), $n, |c| $f::<$p, $q>(c)); )*} }
	go!(expr, "expr", n; BinaryField1b BinaryField8b, BinaryField8b BinaryField32b, BinaryField32b BinaryField128b, BinaryField64b BinaryField128b, AESTowerField8b AESTowerField128b);
	go!(compiled, "compiled", n; BinaryField1b PackedBinaryField128x1b, BinaryField1b PackedBinaryField1x128b, BinaryField8b PackedBinaryField16x8b, BinaryField8b PackedBinaryField4x32b, BinaryField32b PackedBinaryField2x128b, BinaryField128b PackedBinaryField4x128b, BinaryField128b BinaryField128b, AESTowerField8b ByteSlicedAES32x128b);
	m.finish()
}
