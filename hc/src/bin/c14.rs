//! C14: derived and transparent oracles mean what they define, and evaluation claims on them reduce
//! to true claims on committed columns exactly when they are true.
use binius_core::{
	constraint_system::validate::validate_virtual_oracle_witness,
	fiat_shamir::Challenger,
	oracle::{MultilinearOracleSet, OracleId, ShiftVariant},
	polynomial::MultivariatePoly,
	protocols::{evalcheck::EvalcheckMultilinearClaim, greedy_evalcheck},
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::{constant::Constant, disjoint_product::DisjointProduct, eq_ind::EqIndPartialEval, multilinear_extension::MultilinearExtensionTransparent, powers::Powers, select_row::SelectRow, shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis},
	witness::{MultilinearExtensionIndex, MultilinearWitness},
};
use binius_hal::make_portable_backend;
use binius_math::{ArithCircuit, DefaultEvaluationDomainFactory, MultilinearExtension};
use hc::*;

type Claim<F> = EvalcheckMultilinearClaim<F>;

/// the packed fields under test, with access to the subfields of their scalar
trait Pw: PackedField<Scalar = Self::F> + PackedExtension<Self::F, PackedSubfield = Self> + PackedExtension<Self::D> + PackedExtension<BinaryField1b> + 'static {
	type F: TowerField + Sc + ExtensionField<Self::D> + ExtensionField<BinaryField1b> + From<<Self::F as TowerField>::Canonical>;
	type D: TowerField;
	const NAME: &'static str;
	const LEVELS: &'static [usize];
	fn wit(n: usize, v: &[Self::F], lvl: usize) -> MultilinearWitness<'static, Self>;
	fn rnd_in(c: &mut Case, lvl: usize) -> Self::F;
	fn fits(x: Self::F, lvl: usize) -> bool;
}
macro_rules! pw {
	($p:ty, $f:ty, $d:ty; $($l:literal $s:ty),*) => {
		impl Pw for $p {
			type F = $f;
			type D = $d;
			const NAME: &'static str = stringify!($p);
			const LEVELS: &'static [usize] = &[$($l),*];
			fn wit(n: usize, v: &[$f], lvl: usize) -> MultilinearWitness<'static, Self> {
				match lvl {
					$($l => {
						let small: Vec<$s> = v.iter().map(|x| TryInto::<$s>::try_into(*x).ok().expect("value outside its subfield")).collect();
						let p = pack0::<PackedSubfield<$p, $s>>(&small);
						MultilinearExtension::new(n, p).unwrap().specialize_arc_dyn::<$p>()
					})*
					_ => unreachable!(),
				}
			}
			fn rnd_in(c: &mut Case, lvl: usize) -> $f {
				match lvl {
					$($l => <$f>::from(rand_scalar::<$s>(c)),)*
					_ => unreachable!(),
				}
			}
			fn fits(x: $f, lvl: usize) -> bool {
				match lvl {
					$($l => TryInto::<$s>::try_into(x).is_ok(),)*
					_ => false,
				}
			}
		}
	};
}
macro_rules! canon {
	($($p:ty),*) => {$(pw!($p, BinaryField128b, BinaryField8b; 0 BinaryField1b, 1 BinaryField2b, 2 BinaryField4b, 3 BinaryField8b, 4 BinaryField16b, 5 BinaryField32b, 6 BinaryField64b, 7 BinaryField128b);)*};
}
macro_rules! aes {
	($($p:ty),*) => {$(pw!($p, AESTowerField128b, AESTowerField8b; 0 BinaryField1b, 3 AESTowerField8b, 4 AESTowerField16b, 5 AESTowerField32b, 6 AESTowerField64b, 7 AESTowerField128b);)*};
}
canon!(PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b);
aes!(PackedAESBinaryField1x128b, PackedAESBinaryField2x128b, PackedAESBinaryField4x128b);

#[derive(Clone)]
struct Node<F> {
	id: OracleId,
	n: usize,
	table: Vec<F>,
	committed: bool,
	kind: &'static str,
	desc: String,
	depth: usize,
}
struct Graph<F: TowerField> {
	oracles: MultilinearOracleSet<F>,
	nodes: Vec<Node<F>>,
}
fn circuit_of<F: TowerField>(p: &[(F, Vec<usize>)]) -> ArithCircuit<F> {
	let mut s = ArithCircuit::constant(F::ZERO);
	for (k, m) in p {
		let mut t = ArithCircuit::constant(*k);
		for v in m {
			t = t * ArithCircuit::var(*v);
		}
		s = s + t;
	}
	s
}
fn shifted<F: Field>(t: &[F], off: usize, block: usize, v: ShiftVariant) -> Vec<F> {
	let len = 1usize << block;
	(0..t.len())
		.map(|i| {
			let (b, j) = (i & !(len - 1), i & (len - 1));
			match v {
				ShiftVariant::CircularLeft => t[b + (j + len - off) % len],
				ShiftVariant::LogicalLeft if j >= off => t[b + j - off],
				ShiftVariant::LogicalRight if j + off < len => t[b + j + off],
				_ => F::ZERO,
			}
		})
		.collect()
}
fn variant(c: &mut Case) -> ShiftVariant {
	c.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight])
}
fn coeff<P: Pw>(c: &mut Case) -> P::F {
	match c.below(4) {
		0 => P::F::ONE,
		1 => {
			let l = c.pick(P::LEVELS);
			P::rnd_in(c, l)
		}
		_ => P::rnd_in(c, 7),
	}
}

/// transparent polynomials with the table their definition gives
fn transparent<P: Pw>(c: &mut Case, max: usize) -> (String, Box<dyn MultivariatePoly<P::F>>, Vec<P::F>) {
	let n = c.range(0, max);
	let bit = |b: bool| if b { P::F::ONE } else { P::F::ZERO };
	match c.below(11) {
		0 => {
			let k = coeff::<P>(c);
			(format!("const n={n}"), Box::new(Constant::<P::F>::new(n, k)), vec![k; 1 << n])
		}
		1 => {
			let r: Vec<P::F> = scalars(c, n);
			let t = eq_all(&r);
			(format!("eq_ind n={n}"), Box::new(EqIndPartialEval::new(r)), t)
		}
		2 => {
			let base = P::rnd_in(c, 7);
			let mut t = vec![P::F::ONE];
			for i in 1..1 << n {
				t.push(t[i - 1] * base);
			}
			(format!("powers n={n}"), Box::new(Powers::new(n, base)), t)
		}
		3 => {
			let i = c.below(1 << n);
			(format!("select {i} n={n}"), Box::new(SelectRow::new(n, i).unwrap()), (0..1usize << n).map(|j| bit(i == j)).collect())
		}
		4 | 5 => {
			let n = n.max(1);
			let off = c.range(1, (1 << n) - 1);
			let v = variant(c);
			let r: Vec<P::F> = scalars(c, n);
			let e = eq_all(&r);
			// f(x, r) = sum over y of eq(y, r) with f(x, y) = 1
			let t = (0..1usize << n)
				.map(|x| {
					let mut s = P::F::ZERO;
					for (y, e) in e.iter().enumerate() {
						let hit = match v {
							ShiftVariant::CircularLeft => (y + (1 << n) - off) % (1 << n) == x,
							ShiftVariant::LogicalLeft => y >= off && y - off == x,
							ShiftVariant::LogicalRight => y + off == x,
						};
						if hit {
							s += *e;
						}
					}
					s
				})
				.collect();
			(format!("shift_ind n={n} off={off} {v:?}"), Box::new(ShiftIndPartialEval::new(n, off, v, r).unwrap()), t)
		}
		6 => {
			let i = c.below((1 << n) + 1);
			(format!("step_down {i} n={n}"), Box::new(StepDown::new(n, i).unwrap()), (0..1usize << n).map(|j| bit(j < i)).collect())
		}
		7 => {
			let i = c.below((1 << n) + 1);
			(format!("step_up {i} n={n}"), Box::new(StepUp::new(n, i).unwrap()), (0..1usize << n).map(|j| bit(j >= i)).collect())
		}
		8 => {
			let iota = c.pick(P::LEVELS);
			let k = c.range(0, 7 - iota);
			let t = (0..1usize << k).map(|i| <P::F as TowerField>::basis(iota, i).unwrap()).collect();
			(format!("tower_basis k={k} iota={iota}"), Box::new(TowerBasis::<P::F>::new(k, iota).unwrap()), t)
		}
		9 => {
			let v: Vec<P::F> = scalars(c, 1 << n);
			let p = pack0::<P>(&v);
			let m = MultilinearExtensionTransparent::<P, P, _>::from_values_and_mu(p, n).unwrap();
			(format!("table n={n}"), Box::new(m), v)
		}
		_ => {
			let (m, k) = (n / 2, n - n / 2);
			let (i, j) = (c.below((1 << m) + 1), c.below(1 << k));
			let t = (0..1usize << n).map(|x| bit((x & ((1 << m) - 1)) < i && x >> m == j)).collect();
			(format!("product({i},{j}) n={n}"), Box::new(DisjointProduct(StepDown::new(m, i).unwrap(), SelectRow::new(k, j).unwrap())), t)
		}
	}
}
#[derive(Debug)]
struct Boxed<F>(Box<dyn MultivariatePoly<F>>);
impl<F: Field> MultivariatePoly<F> for Boxed<F> {
	fn n_vars(&self) -> usize {
		self.0.n_vars()
	}
	fn degree(&self) -> usize {
		self.0.degree()
	}
	fn evaluate(&self, q: &[F]) -> Result<F, binius_core::polynomial::Error> {
		self.0.evaluate(q)
	}
	fn binary_tower_level(&self) -> usize {
		self.0.binary_tower_level()
	}
}

fn graph<P: Pw>(c: &mut Case) -> Result<Graph<P::F>, String> {
	let mut o = MultilinearOracleSet::<P::F>::new();
	let mut nodes: Vec<Node<P::F>> = vec![];
	let base_n = c.range(0, 6);
	for _ in 0..c.range(1, 3) {
		let lvl = c.pick(P::LEVELS);
		let n = if c.flip() { base_n } else { c.range(0, 7) };
		let id = o.add_committed(n, lvl);
		let mut table: Vec<P::F> = (0..1usize << n).map(|_| P::rnd_in(c, lvl)).collect();
		if c.below(4) == 0 {
			let keep = c.below((1 << n) + 1);
			table[keep..].fill(P::F::ZERO);
		}
		nodes.push(Node { id, n, table, committed: true, kind: "committed", desc: format!("com{n}L{lvl}"), depth: 0 });
	}
	let steps = c.range(1, 7);
	let mut tries = 0;
	let n0 = nodes.len();
	while nodes.len() < n0 + steps && tries < 40 {
		tries += 1;
		// mostly extend recent nodes so that chains get deep
		let k = if c.flip() { nodes.len() - 1 } else { c.below(nodes.len()) };
		let a = nodes[k].clone();
		let peers: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].n == a.n).collect();
		let all_fit = |t: &[P::F], l: usize| t.iter().all(|x| P::fits(*x, l));
		let kind = c.below(11);
		let (id, n, table, kind, desc) = match kind {
			0 => {
				let (d, p, t) = transparent::<P>(c, 6);
				let id = o.add_transparent(Boxed(p)).map_err(es)?;
				(id, t.len().trailing_zeros() as usize, t, "transparent", d)
			}
			1 => {
				let n = c.range(0, 6);
				let extra = c.below(3);
				let nv = n + extra;
				let mut p = vec![];
				for _ in 0..c.range(1, 4) {
					let m: Vec<usize> = (0..nv).filter(|_| c.below(3) == 0).collect();
					p.push((coeff::<P>(c), m));
				}
				if nv == 0 {
					p = vec![(coeff::<P>(c), vec![])];
				}
				let t = (0..1usize << n)
					.map(|i| p.iter().filter(|(_, m)| m.iter().all(|v| i >> v & 1 == 1)).fold(P::F::ZERO, |s, (k, _)| s + *k))
					.collect();
				let id = o.add_named("structured").structured(n, circuit_of(&p)).map_err(es)?;
				(id, n, t, "structured", format!("structured n={n}"))
			}
			2 => {
				let lc = c.below(4);
				if a.n + lc > 8 {
					continue;
				}
				let id = o.add_repeating(a.id, lc).map_err(es)?;
				(id, a.n + lc, (0..1usize << (a.n + lc)).map(|i| a.table[i % a.table.len()]).collect(), "repeating", format!("rep{k}x{lc}"))
			}
			3 | 4 => {
				if a.n == 0 {
					continue;
				}
				let b = c.range(1, a.n);
				let off = c.range(1, (1 << b) - 1);
				let v = variant(c);
				let id = o.add_shifted(a.id, off, b, v).map_err(es)?;
				(id, a.n, shifted(&a.table, off, b, v), "shifted", format!("shift{k}({off},{b},{v:?})"))
			}
			5 => {
				let l = o.tower_level(a.id);
				if a.n == 0 || l >= 7 || !P::LEVELS.contains(&l) || !all_fit(&a.table, l) {
					continue;
				}
				let d = c.range(1, a.n.min(7 - l));
				if !P::LEVELS.contains(&(l + d)) {
					continue;
				}
				let id = o.add_packed(a.id, d).map_err(es)?;
				let t = a.table.chunks(1 << d).map(|v| v.iter().enumerate().fold(P::F::ZERO, |s, (i, x)| s + *x * <P::F as TowerField>::basis(l, i).unwrap())).collect();
				(id, a.n - d, t, "packed", format!("pack{k}({d})"))
			}
			6 => {
				let cnt = c.range(0, a.n);
				let bits = c.flip();
				let vals: Vec<P::F> = (0..cnt).map(|_| if bits { if c.flip() { P::F::ONE } else { P::F::ZERO } } else { coeff::<P>(c) }).collect();
				let last = c.below(3) == 0;
				let start = if last { a.n - cnt } else { c.range(0, a.n - cnt) };
				let id = if last { o.add_projected_last_vars(a.id, vals.clone()) } else { o.add_projected(a.id, vals.clone(), start) }.map_err(es)?;
				let t = mle_partial(&a.table, &vals, start);
				(id, a.n - cnt, t, "projected", format!("proj{k}({cnt}@{start},bits={bits})"))
			}
			7 | 8 => {
				let m = c.range(0, 3);
				let mut inner = vec![(k, coeff::<P>(c))];
				for _ in 0..m {
					inner.push((c.pick(&peers), coeff::<P>(c)));
				}
				if c.below(12) == 0 {
					inner.clear();
				}
				let off = if c.flip() { P::F::ZERO } else { coeff::<P>(c) };
				let id = o.add_linear_combination_with_offset(a.n, off, inner.iter().map(|(i, k)| (nodes[*i].id, *k))).map_err(es)?;
				let t = (0..1usize << a.n).map(|i| inner.iter().fold(off, |s, (j, k)| s + nodes[*j].table[i] * *k)).collect();
				(id, a.n, t, "lincom", format!("lc{:?}+{}", inner.iter().map(|x| x.0).collect::<Vec<_>>(), off != P::F::ZERO))
			}
			9 => {
				let m = c.range(1, 3);
				let cols: Vec<usize> = (0..m).map(|i| if i == 0 { k } else { c.pick(&peers) }).collect();
				let p: Poly<P::F> = Poly::random(c, m, 3);
				let id = o.add_composite_mle(a.n, cols.iter().map(|i| nodes[*i].id), p.circuit::<P::F>()).map_err(es)?;
				let t = (0..1usize << a.n).map(|i| p.eval(&cols.iter().map(|j| nodes[*j].table[i]).collect::<Vec<P::F>>())).collect();
				(id, a.n, t, "composite", format!("comp{cols:?}deg{}", p.degree()))
			}
			_ => {
				let pv = c.below(4);
				if a.n + pv > 8 {
					continue;
				}
				let nz = c.below(1 << pv);
				let start = c.range(0, a.n);
				let id = o.add_zero_padded(a.id, pv, nz, start).map_err(es)?;
				let t = (0..1usize << (a.n + pv))
					.map(|i| {
						let (lo, q, hi) = (i & ((1 << start) - 1), i >> start & ((1 << pv) - 1), i >> (start + pv));
						if q == nz { a.table[lo | hi << start] } else { P::F::ZERO }
					})
					.collect();
				(id, a.n + pv, t, "zero_padded", format!("pad{k}({pv},{nz}@{start})"))
			}
		};
		let depth = if matches!(kind, "transparent" | "structured") { 0 } else { a.depth + 1 };
		nodes.push(Node { id, n, table, committed: false, kind, desc, depth });
	}
	Ok(Graph { oracles: o, nodes })
}
fn witness<P: Pw>(c: &mut Case, g: &Graph<P::F>, over: Option<(usize, &[P::F])>) -> MultilinearExtensionIndex<'static, P> {
	let mut w = MultilinearExtensionIndex::<P>::new();
	let pre = c.flip();
	for (k, x) in g.nodes.iter().enumerate() {
		let t: &[P::F] = match over {
			Some((j, t)) if j == k => t,
			_ => &x.table,
		};
		let mut l = g.oracles.tower_level(x.id);
		if !P::LEVELS.contains(&l) || t.iter().any(|v| !P::fits(*v, l)) {
			l = 7;
		}
		let p = P::wit(x.n, t, l);
		let last = t.iter().rposition(|v| *v != P::F::ZERO).map(|i| i + 1).unwrap_or(0);
		let prefix = if pre { c.range(last, t.len()) } else { t.len() };
		w.update_multilin_poly_with_nonzero_scalars_prefixes([(x.id, p, prefix)]).unwrap();
	}
	w
}
fn prove<P: Pw, Ch: Challenger + Default>(g: &Graph<P::F>, mut w: MultilinearExtensionIndex<'static, P>, claims: &[Claim<P::F>], sw: usize) -> Result<(Vec<u8>, Vec<Claim<P::F>>), String> {
	guard(|| {
		let mut o = g.oracles.clone();
		let mut t = ProverTranscript::<Ch>::new();
		let out = greedy_evalcheck::prove::<P::F, P, P::D, _, _>(&mut o, &mut w, claims.to_vec(), move |_| sw, &mut t, DefaultEvaluationDomainFactory::<P::D>::default(), &make_portable_backend()).map_err(es)?;
		Ok((t.finalize(), out.eval_claims))
	})
	.map_err(|e| format!("panicked: {e}"))?
}
fn verify<P: Pw, Ch: Challenger + Default>(g: &Graph<P::F>, claims: &[Claim<P::F>], tape: &[u8], out: Option<&mut Vec<Claim<P::F>>>) -> Verdict {
	let r = guard(|| {
		let mut o = g.oracles.clone();
		let mut t = VerifierTranscript::<Ch>::new(tape.to_vec());
		let r = greedy_evalcheck::verify(&mut o, claims.to_vec(), &mut t).map_err(es)?;
		t.finalize().map_err(es)?;
		Ok::<_, String>(r)
	});
	let r = match r {
		Ok(Ok(r)) => r,
		Ok(Err(e)) => return Verdict::Reject(e),
		Err(e) => return Verdict::Reject(format!("panicked: {e}")),
	};
	for x in &r {
		let Some(n) = g.nodes.iter().find(|n| n.id == x.id) else { return Verdict::False(format!("a claim on oracle {:?}, which is not in the statement", x.id)) };
		if !n.committed {
			return Verdict::False(format!("a claim on {} that is not committed", n.desc));
		}
		if x.eval_point.len() != n.n || mle_eval(&n.table, &x.eval_point) != x.eval {
			return Verdict::False(format!("claim on {}", n.desc));
		}
	}
	if let Some(o) = out {
		*o = r;
	}
	Verdict::True
}
fn hint_only(a: &[u8], b: &[u8]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let d: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
	let (lo, hi) = (d[0], d[d.len() - 1]);
	(0..4).any(|k| lo >= k && lo - k + 4 > hi && lo - k + 4 <= a.len() && a[lo - k] < 64 && a[lo - k + 1..lo - k + 4] == [0; 3])
}
fn no_reject_panic(v: &Verdict) -> Res {
	match v {
		Verdict::Reject(e) if e.starts_with("panicked") => Err(format!("the verifier {e}")),
		_ => Ok(()),
	}
}

fn reduce<P: Pw>(c: &mut Case) -> Res
where
	P: PackedField<Scalar = <P as Pw>::F>,
{
	let g = graph::<P>(c)?;
	let desc: Vec<String> = g.nodes.iter().map(|n| n.desc.clone()).collect();
	c.desc(format!("{} {desc:?}", P::NAME));
	for n in &g.nodes {
		c.count(n.kind, 1);
		ensure_eq!(g.oracles.n_vars(n.id), n.n, "variables of {}", n.desc);
	}
	// the definitions: validation of the reference tables
	{
		let w = witness::<P>(c, &g, None);
		for n in &g.nodes {
			guard(|| validate_virtual_oracle_witness(&g.oracles[n.id], &g.oracles, &w).map_err(es)).map_err(|e| format!("validating {}: {e}", n.desc))?.map_err(|e| format!("the defined values of {} are refused: {e}", n.desc))?;
		}
	}
	// claims
	let common: Vec<P::F> = (0..9).map(|_| P::rnd_in(c, 7)).collect();
	let mut idx: Vec<usize> = vec![g.nodes.len() - 1];
	for _ in 0..c.below(4) {
		idx.push(c.below(g.nodes.len()));
	}
	let claims: Vec<Claim<P::F>> = idx
		.iter()
		.map(|i| {
			let n = &g.nodes[*i];
			let pt: Vec<P::F> = match c.below(4) {
				0 => common[..n.n].to_vec(),
				1 => common[9 - n.n..].to_vec(),
				_ => {
					// a shared suffix below fresh coordinates
					let k = c.range(0, n.n);
					let mut p: Vec<P::F> = (0..n.n - k).map(|_| P::F::f(c.u128() | 2)).collect();
					p.extend(&common[9 - k..]);
					p
				}
			};
			Claim { id: n.id, eval: mle_eval(&n.table, &pt), eval_point: pt.into() }
		})
		.collect();
	let depth = idx.iter().map(|i| g.nodes[*i].depth).max().unwrap();
	c.count(&format!("depth {}", depth.min(6)), 1);
	c.obs((&desc, &idx), depth > 0);
	let sw = c.pick(&[0usize, 1, 2, 20]);
	let seed = c.u128() as u64;
	let w = witness::<P>(c, &g, None);
	set_coins(seed);
	let (tape, pout) = prove::<P, Coin>(&g, w, &claims, sw).map_err(|e| format!("proving true claims on {idx:?} failed: {e}"))?;
	let mut vout = vec![];
	set_coins(seed);
	let v = verify::<P, Coin>(&g, &claims, &tape, Some(&mut vout));
	no_reject_panic(&v)?;
	complete(&v, || format!("claims on {idx:?}"))?;
	let flat = |v: &[Claim<P::F>]| v.iter().map(|x| (x.id, x.eval_point.to_vec(), x.eval)).collect::<Vec<_>>();
	ensure!(flat(&pout) == flat(&vout), "prover and verifier end with different committed claims ({} and {})", pout.len(), vout.len());
	c.count("committed-claims", vout.len() as u64);
	let w = witness::<P>(c, &g, None);
	let (fs_tape, _) = prove::<P, Fs>(&g, w, &claims, sw)?;
	complete(&verify::<P, Fs>(&g, &claims, &fs_tape, None), || "hashed transcript".into())?;

	// false claims
	let delta = |c: &mut Case| loop {
		let d = coeff::<P>(c);
		if d != P::F::ZERO {
			break d;
		}
	};
	for _ in 0..2 {
		let mut f = claims.clone();
		let i = c.below(f.len());
		let d = delta(c);
		f[i].eval += d;
		if f.len() > 1 && c.flip() {
			let j = (i + 1) % f.len();
			f[j].eval += d;
		}
		let is_false = f.iter().zip(&idx).any(|(x, i)| mle_eval(&g.nodes[*i].table, &x.eval_point) != x.eval);
		if !is_false {
			continue;
		}
		set_coins(seed);
		let v = verify::<P, Coin>(&g, &f, &tape, None);
		no_reject_panic(&v)?;
		sound(&v, || format!("false claim on {}, honest proof of the true one", g.nodes[idx[i]].desc))?;
		let w = witness::<P>(c, &g, None);
		set_coins(seed);
		if let Ok((t2, _)) = prove::<P, Coin>(&g, w, &f, sw) {
			set_coins(seed);
			let v = verify::<P, Coin>(&g, &f, &t2, None);
			no_reject_panic(&v)?;
			c.count("false-claim-runs", 1);
			sound(&v, || format!("false claim on {}, prover given the false claim", g.nodes[idx[i]].desc))?;
		}
	}
	// a prover that works with other contents of one derived column
	for _ in 0..2 {
		let virt: Vec<usize> = idx.iter().copied().filter(|i| !g.nodes[*i].committed).collect();
		if virt.is_empty() {
			break;
		}
		let k = c.pick(&virt);
		let mut t = g.nodes[k].table.clone();
		let cell = c.below(t.len());
		t[cell] += delta(c);
		let f: Vec<Claim<P::F>> = claims.iter().zip(&idx).map(|(x, i)| Claim { eval: if *i == k { mle_eval(&t, &x.eval_point) } else { x.eval }, ..x.clone() }).collect();
		if f.iter().zip(&claims).all(|(a, b)| a.eval == b.eval) {
			continue;
		}
		let w = witness::<P>(c, &g, Some((k, &t)));
		set_coins(seed);
		if let Ok((t2, _)) = prove::<P, Coin>(&g, w, &f, sw) {
			set_coins(seed);
			let v = verify::<P, Coin>(&g, &f, &t2, None);
			no_reject_panic(&v)?;
			c.count("false-contents-runs", 1);
			sound(&v, || format!("other contents of {} at {cell}", g.nodes[k].desc))?;
		}
	}
	// altered messages
	if tape.len() >= 16 {
		for width in [1, 16] {
			let mut hints = 0;
			tamper(c, &tape, width, 5, &mut |t| {
				set_coins(seed);
				let v = verify::<P, Coin>(&g, &claims, t, None);
				// An instruction to the verifier (a small 32-bit number) may be replaced by an
				// equivalent one under fixed coins; a hashed transcript must still refuse it.
				if v == Verdict::True && hint_only(&tape, t) && fs_tape.len() == tape.len() {
					let mut h = fs_tape.clone();
					for i in 0..h.len() {
						if t[i] != tape[i] {
							h[i] = t[i];
						}
					}
					hints += 1;
					return verify::<P, Fs>(&g, &claims, &h, None);
				}
				v
			})?;
			c.count("hints-replayed-hashed", hints);
		}
	}
	if !fs_tape.is_empty() {
		tamper(c, &fs_tape, 1, 3, &mut |t| verify::<P, Fs>(&g, &claims, t, None))?;
	}
	Ok(())
}

/// transparent polynomials: evaluation anywhere and the packed tables
fn transparents<P: Pw>(c: &mut Case) -> Res {
	let (d, p, t) = transparent::<P>(c, 8);
	c.desc(format!("{} {d}", P::NAME));
	let n = t.len().trailing_zeros() as usize;
	c.count(d.split(' ').next().unwrap().split('(').next().unwrap(), 1);
	c.obs((&d, P::NAME), true);
	ensure_eq!(p.n_vars(), n, "variables");
	for i in 0..t.len().min(64) {
		let i = if t.len() > 64 { c.below(t.len()) } else { i };
		let pt: Vec<P::F> = (0..n).map(|j| if i >> j & 1 == 1 { P::F::ONE } else { P::F::ZERO }).collect();
		ensure!(p.evaluate(&pt).map_err(es)? == t[i], "value at hypercube point {i}");
	}
	for _ in 0..4 {
		let pt: Vec<P::F> = if c.flip() { scalars(c, n) } else { (0..n).map(|_| P::rnd_in(c, 7)).collect() };
		ensure!(p.evaluate(&pt).map_err(es)? == mle_eval(&t, &pt), "value at {pt:?}");
	}
	let l = p.binary_tower_level();
	ensure!(!P::LEVELS.contains(&l) || t.iter().all(|x| P::fits(*x, l)), "values outside the advertised tower level {l}");
	for bad in [n + 1, n.wrapping_sub(1)] {
		if bad < 64 {
			ensure!(guard(|| p.evaluate(&vec![P::F::ONE; bad]).is_err()).map_err(|e| format!("evaluation with {bad} of {n} coordinates: {e}"))?, "evaluation with {bad} coordinates accepted, {n} expected");
		}
	}
	Ok(())
}
fn mle_is<P: PackedField>(m: Result<MultilinearExtension<P>, binius_core::polynomial::Error>, t: &[P::Scalar], what: &str) -> Res {
	let m = m.map_err(|e| format!("{what}: {e}"))?;
	ensure_eq!(1usize << m.n_vars(), t.len(), "{what}: variables of the table");
	ensure!(unpack(m.evals(), t.len()) == t, "{what}: table");
	Ok(())
}
/// the tables the prover uses for transparent polynomials, in a given packing
fn tables<P: PackedField<Scalar: TowerField + Sc>>(c: &mut Case, name: &'static str) -> Res {
	let n = c.range(0, 10);
	c.desc(format!("{name} n={n}"));
	type S<P> = <P as PackedField>::Scalar;
	let bit = |b: bool| if b { S::<P>::ONE } else { S::<P>::ZERO };
	let size = 1usize << n;
	let kind = c.below(6);
	c.obs((name, n, kind), true);
	let r: Vec<S<P>> = scalars(c, n);
	match kind {
		0 => {
			let i = c.below(size + 1);
			mle_is::<P>(StepDown::new(n, i).unwrap().multilinear_extension(), &(0..size).map(|j| bit(j < i)).collect::<Vec<_>>(), &format!("step_down {i}"))
		}
		1 => {
			let i = c.below(size + 1);
			mle_is::<P>(StepUp::new(n, i).unwrap().multilinear_extension(), &(0..size).map(|j| bit(j >= i)).collect::<Vec<_>>(), &format!("step_up {i}"))
		}
		2 => {
			let base: S<P> = rand_scalar(c);
			let mut t = vec![S::<P>::ONE];
			for i in 1..size {
				t.push(t[i - 1] * base);
			}
			mle_is::<P>(Powers::new(n, base).multilinear_extension(), &t, "powers")
		}
		3 => {
			let t = eq_all(&r);
			let m = EqIndPartialEval::new(r).multilinear_extension::<P, _>(&make_portable_backend()).map_err(es)?;
			ensure!(unpack(m.evals(), size) == t, "eq_ind table");
			Ok(())
		}
		4 if n > 0 => {
			let off = c.range(1, size - 1);
			let v = variant(c);
			let e = eq_all(&r);
			let t: Vec<S<P>> = (0..size)
				.map(|x| match v {
					ShiftVariant::CircularLeft => e[(x + off) % size],
					ShiftVariant::LogicalLeft => e.get(x + off).copied().unwrap_or(S::<P>::ZERO),
					ShiftVariant::LogicalRight => {
						if x >= off {
							e[x - off]
						} else {
							S::<P>::ZERO
						}
					}
				})
				.collect();
			mle_is::<P>(ShiftIndPartialEval::new(n, off, v, r).unwrap().multilinear_extension(), &t, &format!("shift_ind {off} {v:?}"))
		}
		_ => {
			let k = c.range(0, S::<P>::TOWER_LEVEL);
			let iota = c.below(S::<P>::TOWER_LEVEL - k + 1);
			match (TowerBasis::<S<P>>::new(k, iota), (0..1usize << k).map(|i| <S<P> as TowerField>::basis(iota, i)).collect::<Result<Vec<_>, _>>()) {
				(Ok(p), Ok(t)) => mle_is::<P>(p.multilinear_extension(), &t, &format!("tower_basis {k} {iota}")),
				_ => Ok(()),
			}
		}
	}
}
fn select_tables<P: PackedField<Scalar = BinaryField1b>>(c: &mut Case, name: &'static str) -> Res {
	let n = c.range(0, 11);
	let i = c.below(1 << n);
	c.desc(format!("{name} n={n} row={i}"));
	c.obs((name, n, i), true);
	let p = SelectRow::new(n, i).map_err(es)?;
	if n < P::LOG_WIDTH {
		// documented: needs at least one full packed element
		ensure!(p.multilinear_extension::<P>().is_err(), "a table below the packing width was produced");
		return Ok(());
	}
	mle_is::<P>(p.multilinear_extension(), &(0..1usize << n).map(|j| if i == j { BinaryField1b::ONE } else { BinaryField1b::ZERO }).collect::<Vec<_>>(), "select_row")
}

/// parameters that describe no column are refused with an error
fn refused(c: &mut Case) -> Res {
	type F = BinaryField128b;
	let mut o = MultilinearOracleSet::<F>::new();
	let n = c.range(0, 5);
	let id = o.add_committed(n, 3);
	let far = c.below(3);
	let kind = c.below(8);
	c.desc(format!("kind {kind} n={n} far={far}"));
	c.obs((kind, n, far), true);
	let one = F::ONE;
	let r = guard(|| match kind {
		0 => o.add_shifted(id, 1 + far, n + 1 + far, ShiftVariant::LogicalLeft).is_err(),
		1 => o.add_shifted(id, if far == 0 { 0 } else { (1 << n) + far - 1 }, n, ShiftVariant::CircularLeft).is_err(),
		2 => o.add_packed(id, n + 1 + far).is_err(),
		3 => o.add_projected(id, vec![one; n + 1 + far], 0).is_err(),
		4 => o.add_projected_last_vars(id, vec![one; n + 1 + far]).is_err(),
		5 => o.add_projected(id, vec![one; 1], n + far).is_err(),
		6 => o.add_zero_padded(id, 2, 0, n + 1 + far).is_err(),
		_ => o.add_zero_padded(id, 2, 4 + far, 0).is_err(),
	})
	.map_err(|e| format!("kind {kind}: {e}"))?;
	ensure!(r, "parameters that describe no column were accepted (kind {kind}, {n} variables, by {far})");
	let r = guard(|| match kind {
		0 | 1 => StepDown::new(n, (1 << n) + 1 + far).is_err(),
		2 | 3 => StepUp::new(n, (1 << n) + 1 + far).is_err(),
		4 | 5 => SelectRow::new(n, (1 << n) + far).is_err(),
		_ => ShiftIndPartialEval::<F>::new(n, if far == 0 { 0 } else { (1 << n) + far - 1 }, ShiftVariant::LogicalLeft, vec![one; n]).is_err(),
	})?;
	ensure!(r, "a transparent polynomial with parameters out of range was accepted (kind {kind})");
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C14");
	m.rule("random oracle graphs (committed, transparent, structured, repeating, shifted, packed, projected, linear combination, composite, zero-padded) with their tables computed from the definitions: true claims must reduce to the same true committed claims on both sides; false claims, other column contents and altered messages must be rejected or leave a false claim; transparent polynomials evaluated at hypercube and random points and tabulated in every packing against their definition; non-trivial when the graph has derived columns");
	macro_rules! by_p {
		($f:ident) => {
			|c: &mut Case| match c.below(6) {
				0 => $f::<PackedBinaryField1x128b>(c),
				1 => $f::<PackedBinaryField2x128b>(c),
				2 => $f::<PackedBinaryField4x128b>(c),
				3 => $f::<PackedAESBinaryField1x128b>(c),
				4 => $f::<PackedAESBinaryField2x128b>(c),
				_ => $f::<PackedAESBinaryField4x128b>(c),
			}
		};
	}
	let n = m.n(8000, 300000);
	m.par("transparent", n, by_p!(transparents));
	macro_rules! tabs {
		($c:ident; $($t:ident),*) => {{
			let fs: &[(fn(&mut Case, &'static str) -> Res, &'static str)] = &[$((tables::<$t>, stringify!($t))),*];
			let (f, n) = fs[$c.below(fs.len())];
			f($c, n)
		}};
	}
	let n = m.n(8000, 300000);
	m.par("tables", n, |c| tabs!(c; PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b, PackedBinaryField8x32b, PackedBinaryField16x32b, PackedBinaryField16x8b, PackedBinaryField64x8b, PackedBinaryField8x16b, PackedAESBinaryField4x128b, PackedAESBinaryField16x8b, ByteSlicedAES32x128b, ByteSlicedAES16x8b, PackedBinaryField64x2b, PackedBinaryField32x4b));
	let n = m.n(600, 6000);
	m.par("select", n, |c| match c.below(3) {
		0 => select_tables::<PackedBinaryField8x1b>(c, "8x1"),
		1 => select_tables::<PackedBinaryField128x1b>(c, "128x1"),
		_ => select_tables::<PackedBinaryField512x1b>(c, "512x1"),
	});
	let n = m.n(300, 2000);
	m.par("refused", n, refused);
	let n = m.n(6000, 400000);
	m.par("reduce", n, by_p!(reduce));
	m.finish();
}
