//! C13: grand products and exponentiation via GKR: right values, honest runs accepted with true claims, false or altered runs not.
use binius_core::{
	protocols::{
		gkr_exp::{self, BaseExpWitness, ExpClaim},
		gkr_gpa::{self, GrandProductClaim, GrandProductWitness},
	},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_hal::make_portable_backend;
use binius_math::{EvaluationOrder, IsomorphicEvaluationDomainFactory};
use hc::*;

const ORDERS: [EvaluationOrder; 2] = [EvaluationOrder::LowToHigh, EvaluationOrder::HighToLow];

fn err<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, Verdict> {
	r.map_err(|e| Verdict::Reject(e.to_string()))
}
fn flat(r: Result<Verdict, Verdict>) -> Verdict {
	match r {
		Ok(v) | Err(v) => v,
	}
}

fn gpa<FD, F, P>(c: &mut Case) -> Res
where
	FD: TowerField,
	F: TowerField + Sc + ExtensionField<FD>,
	P: PackedField<Scalar = F> + PackedExtension<FD> + PackedExtension<F, PackedSubfield = P> + 'static,
{
	let order = c.pick(&ORDERS);
	let k = c.range(1, 5);
	let top = if c.below(12) == 0 { 11 } else { 7 };
	let mut vals: Vec<(usize, Vec<F>, Vec<P>)> = vec![];
	for _ in 0..k {
		let n = c.range(0, top);
		let full = 1usize << n.saturating_sub(P::LOG_WIDTH);
		let len = match c.below(3) {
			0 => c.range(0, full),
			_ => full,
		};
		let mut v: Vec<F> = match c.below(3) {
			// zeros are rare, so that the product says something
			0 => scalars(c, 1 << n),
			_ => (0..1 << n).map(|_| F::f(c.u128())).collect(),
		};
		let packed: Vec<P> = pack0::<P>(&v)[..len].to_vec();
		// what is not stored counts as one
		let stored = if len == full { 1 << n } else { len * P::WIDTH };
		v[stored..].fill(F::ONE);
		vals.push((n, v, packed));
	}
	let prods: Vec<F> = vals.iter().map(|(_, v, _)| v.iter().fold(F::ONE, |a, b| a * *b)).collect();
	c.desc(format!("gpa {} order={order:?} sizes={:?}", tn::<P>(), vals.iter().map(|x| (x.0, x.2.len())).collect::<Vec<_>>()));
	c.obs((order == ORDERS[0], vals.iter().map(|x| (x.0, x.1.iter().map(|v| v.u()).collect::<Vec<_>>())).collect::<Vec<_>>()), true);
	let seed = c.u128() as u64;
	set_coins(seed);
	let claims = |p: &[F]| -> Vec<GrandProductClaim<F>> { vals.iter().zip(p).map(|(x, p)| GrandProductClaim { n_vars: x.0, product: *p }).collect() };
	let wits = || -> Result<Vec<_>, String> { vals.iter().map(|x| GrandProductWitness::new(x.0, x.2.clone()).map_err(es)).collect() };
	for (w, p) in wits()?.iter().zip(&prods) {
		ensure_eq!(w.grand_product_evaluation(), *p, "grand_product_evaluation");
	}
	let backend = make_portable_backend();
	let prove = |p: &[F], real: bool| -> Result<(Vec<u8>, Vec<gkr_gpa::LayerClaim<F>>), String> {
		macro_rules! go {
			($t:ty) => {{
				let mut t = ProverTranscript::<$t>::new();
				let o = gkr_gpa::batch_prove::<_, _, FD, _, _>(order, wits()?, &claims(p), IsomorphicEvaluationDomainFactory::<FD>::default(), &mut t, &backend).map_err(es)?;
				Ok((t.finalize(), o.final_layer_claims))
			}};
		}
		if real { go!(Fs) } else { go!(Coin) }
	};
	let judge = |o: &[gkr_gpa::LayerClaim<F>]| -> Verdict {
		if o.len() != vals.len() {
			return Verdict::False(format!("{} claims for {}", o.len(), vals.len()));
		}
		for (i, (o, x)) in o.iter().zip(&vals).enumerate() {
			if o.eval_point.len() != x.0 || mle_eval(&x.1, &o.eval_point) != o.eval {
				return Verdict::False(format!("claim {i}"));
			}
		}
		Verdict::True
	};
	let verify = |p: &[F], tape: &[u8], real: bool| -> Verdict {
		macro_rules! go {
			($t:ty) => {
				flat((|| {
					let mut t = VerifierTranscript::<$t>::new(tape.to_vec());
					let o = err(gkr_gpa::batch_verify(order, claims(p), &mut t))?;
					err(t.finalize())?;
					Ok(judge(&o))
				})())
			};
		}
		if real { go!(Fs) } else { go!(Coin) }
	};
	let (tape, out) = prove(&prods, false)?;
	complete(&verify(&prods, &tape, false), || "grand product".into())?;
	complete(&judge(&out), || "grand product, prover's own output".into())?;
	let (fs, _) = prove(&prods, true)?;
	complete(&verify(&prods, &fs, true), || "grand product (Fiat-Shamir)".into())?;
	c.count("honest runs", 2);
	// false products, also pairs with equal error or equal ratio
	let mut f = prods.clone();
	let i = c.below(k);
	let j = c.below(k);
	let d = F::f(c.u128() | 1);
	f[i] += d;
	if i != j && c.flip() {
		f[j] += d;
	}
	if f != prods {
		if let Ok((t, _)) = prove(&f, false) {
			sound(&verify(&f, &t, false), || "false product".into())?;
		}
		sound(&verify(&f, &tape, false), || "false product, honest proof".into())?;
		c.count("false claims", 2);
	}
	if i != j && prods[i] != prods[j] && vals[i].0 == vals[j].0 {
		let mut f = prods.clone();
		f.swap(i, j);
		sound(&verify(&f, &tape, false), || "products exchanged".into())?;
	}
	tamper(c, &tape, 16, if top > 8 { 3 } else { 12 }, &mut |t| verify(&prods, t, false))?;
	tamper(c, &fs, 16, 2, &mut |t| verify(&prods, t, true))
}

/// one exponentiation: exponent bits per row, base per row, and the power
struct Exp<P: PackedField> {
	n: usize,
	bits: Vec<Col<P>>,
	base: Vec<P::Scalar>,
	dynamic: bool,
	result: Vec<P::Scalar>,
	wit: BaseExpWitness<'static, P>,
	/// which evaluation point
	point: usize,
}
fn pow<F: Field>(b: F, e: u128) -> F {
	let mut r = F::ONE;
	for k in (0..128).rev() {
		r = r * r;
		if e >> k & 1 == 1 {
			r = r * b;
		}
	}
	r
}

fn exp<F1, FE, FD, F, PE, P>(c: &mut Case) -> Res
where
	F1: TowerField + Sc,
	FD: TowerField,
	FE: TowerField + Sc,
	PE: PackedField<Scalar = FE>,
	F: TowerField + Sc + ExtensionField<F1> + ExtensionField<FE> + ExtensionField<FD>,
	P: PackedField<Scalar = F> + PackedExtension<F1> + PackedExtension<FE, PackedSubfield = PE> + PackedExtension<FD> + PackedExtension<F, PackedSubfield = P> + 'static,
{
	let order = c.pick(&ORDERS);
	let k = c.range(1, 4);
	let maxw = FE::N_BITS;
	let mut ns: Vec<usize> = (0..k).map(|_| c.range(0, 6)).collect();
	if c.flip() {
		let n0 = ns[0];
		ns.fill(n0);
	}
	ns.sort();
	ns.reverse();
	let mut points: Vec<Vec<F>> = vec![];
	let mut es_: Vec<Exp<P>> = vec![];
	for &n in &ns {
		let w = match c.below(8) {
			0 => maxw,
			1 => c.range(1, maxw),
			_ => c.range(1, maxw.min(5)),
		};
		let w = if w > 32 && (n > 2 || c.flip()) { 24 } else { w };
		let mask = if w == 128 { u128::MAX } else { (1 << w) - 1 };
		let e: Vec<u128> = (0..1 << n)
			.map(|_| match c.below(6) {
				0 => 0,
				1 => mask,
				_ => c.u128() & mask,
			})
			.collect();
		let bits: Vec<Col<P>> = (0..w).map(|k| col_of::<F1, P>(n, &e.iter().map(|x| if x >> k & 1 == 1 { F1::ONE } else { F1::ZERO }).collect::<Vec<_>>())).collect();
		let dynamic = c.flip();
		let (base, wit) = if dynamic {
			let b: Vec<FE> = scalars(c, 1 << n);
			let col = col_of::<FE, P>(n, &b);
			(col.vals.clone(), BaseExpWitness::new_with_dynamic_base::<PE>(bits.iter().map(|x| x.wit.clone()).collect(), col.wit.clone()).map_err(es)?)
		} else {
			let b = match c.below(4) {
				0 => FE::MULTIPLICATIVE_GENERATOR,
				1 => FE::ZERO,
				_ => rand_scalar(c),
			};
			// base one tells nothing about the exponent, so its reduction cannot name the exponent's bits
			let b = if b == FE::ONE { FE::MULTIPLICATIVE_GENERATOR } else { b };
			(vec![F::from(b); 1 << n], BaseExpWitness::new_with_static_base::<PE>(bits.iter().map(|x| x.wit.clone()).collect(), b).map_err(es)?)
		};
		let result: Vec<F> = e.iter().zip(&base).map(|(e, b)| pow(*b, *e)).collect();
		let r = wit.exponentiation_result_witness();
		for i in 0..1 << n {
			ensure_eq!(r.evaluate_on_hypercube(i).map_err(es)?, result[i], "power in row {i}: {:x}^{:x}, width {w}, dynamic={dynamic}", base[i].u(), e[i]);
		}
		// consecutive claims may share their point
		let reuse = points.last().is_some_and(|p| p.len() == n) && c.flip();
		if !reuse {
			points.push((0..n).map(|_| F::f(c.u128())).collect());
		}
		es_.push(Exp { n, bits, base, dynamic, result, wit, point: points.len() - 1 });
	}
	c.desc(format!("exp {} base {} order={order:?} (n,width,dynamic,point)={:?}", tn::<P>(), tn::<FE>(), es_.iter().map(|x| (x.n, x.bits.len(), x.dynamic, x.point)).collect::<Vec<_>>()));
	c.obs((order == ORDERS[0], es_.iter().map(|x| (x.bits.len(), x.dynamic, x.result.iter().map(|v| v.u()).collect::<Vec<_>>())).collect::<Vec<_>>()), true);
	let seed = c.u128() as u64;
	set_coins(seed);
	let backend = make_portable_backend();
	let claims = |evals: &[F], pts: &[Vec<F>]| -> Vec<ExpClaim<F>> {
		es_.iter()
			.zip(evals)
			.map(|(x, e)| ExpClaim {
				eval_point: pts[x.point].clone(),
				eval: *e,
				exponent_bit_width: x.bits.len(),
				n_vars: x.n,
				static_base: if x.dynamic { None } else { Some(x.base[0]) },
			})
			.collect()
	};
	let evals_at = |pts: &[Vec<F>]| -> Vec<F> { es_.iter().map(|x| mle_eval(&x.result, &pts[x.point])).collect() };
	let prove = |cl: &[ExpClaim<F>], real: bool| -> Result<(Vec<u8>, Vec<Vec<gkr_exp::LayerClaim<F>>>), String> {
		macro_rules! go {
			($t:ty) => {{
				let mut t = ProverTranscript::<$t>::new();
				let o = gkr_exp::batch_prove::<_, _, FD, _, _>(order, es_.iter().map(|x| x.wit.clone()), cl, IsomorphicEvaluationDomainFactory::<FD>::default(), &mut t, &backend).map_err(es)?;
				Ok((t.finalize(), o.layers_claims))
			}};
		}
		if real { go!(Fs) } else { go!(Coin) }
	};
	let judge = |o: &[Vec<gkr_exp::LayerClaim<F>>]| -> Verdict {
		let depth = es_.iter().map(|x| x.bits.len()).max().unwrap();
		if o.len() != depth {
			return Verdict::False(format!("{} layers, not {depth}", o.len()));
		}
		for (l, cl) in o.iter().enumerate() {
			let mut it = cl.iter();
			for (i, x) in es_.iter().enumerate() {
				let w = x.bits.len();
				if l >= w {
					continue;
				}
				// static bases are consumed from the highest bit, dynamic ones from the lowest
				let mut cols = vec![if x.dynamic { &x.bits[l].vals } else { &x.bits[w - 1 - l].vals }];
				if x.dynamic {
					cols.push(&x.base);
				}
				for v in cols {
					match it.next() {
						Some(q) if q.eval_point.len() == x.n && mle_eval(v, &q.eval_point) == q.eval => {}
						Some(_) => return Verdict::False(format!("layer {l} claim {i}")),
						None => return Verdict::False("missing claim".into()),
					}
				}
			}
			if it.next().is_some() {
				return Verdict::False("surplus claim".into());
			}
		}
		Verdict::True
	};
	let verify = |cl: &[ExpClaim<F>], tape: &[u8], real: bool| -> Verdict {
		macro_rules! go {
			($t:ty) => {
				flat((|| {
					let mut t = VerifierTranscript::<$t>::new(tape.to_vec());
					let o = err(gkr_exp::batch_verify(order, cl, &mut t))?;
					err(t.finalize())?;
					Ok(judge(&o.layers_claims))
				})())
			};
		}
		if real { go!(Fs) } else { go!(Coin) }
	};
	let evals = evals_at(&points);
	let cl = claims(&evals, &points);
	let (tape, out) = prove(&cl, false)?;
	complete(&verify(&cl, &tape, false), || "exponentiation".into())?;
	complete(&judge(&out), || "exponentiation, prover's own output".into())?;
	let (fs, _) = prove(&cl, true)?;
	complete(&verify(&cl, &fs, true), || "exponentiation (Fiat-Shamir)".into())?;
	c.count("honest runs", 2);
	let (i, j) = (c.below(k), c.below(k));
	let d = F::f(c.u128() | 1);
	let mut f = evals.clone();
	f[i] += d;
	if i != j && c.flip() {
		f[j] += d;
	}
	let bad = claims(&f, &points);
	if let Ok((t, _)) = prove(&bad, false) {
		sound(&verify(&bad, &t, false), || "false power evaluation".into())?;
	}
	sound(&verify(&bad, &tape, false), || "false power evaluation, honest proof".into())?;
	c.count("false claims", 2);
	// evaluations that belong to another point, proved consistently there
	let q = c.below(points.len());
	if !points[q].is_empty() {
		let mut p2 = points.clone();
		let a = c.below(p2[q].len());
		p2[q][a] = F::f(c.u128());
		let e2 = evals_at(&p2);
		if e2 != evals {
			let (t, _) = prove(&claims(&e2, &p2), false)?;
			sound(&verify(&claims(&e2, &points), &t, false), || "power evaluations at another point".into())?;
			c.count("false claims", 1);
		}
	}
	// another static base
	if let Some(s) = es_.iter().position(|x| !x.dynamic && x.result.iter().any(|r| *r != F::ONE)) {
		let mut cl2 = cl.clone();
		cl2[s].static_base = Some(F::f(c.u128()));
		sound(&verify(&cl2, &tape, false), || "another static base".into())?;
		if let Ok((t, _)) = prove(&cl2, false) {
			sound(&verify(&cl2, &t, false), || "another static base in prover and verifier".into())?;
		}
	}
	tamper(c, &tape, 16, 10, &mut |t| verify(&cl, t, false))?;
	tamper(c, &fs, 16, 2, &mut |t| verify(&cl, t, true))
}

fn main() {
	let mut m = Mon::from_args("C13");
	m.rule("products and powers equal plain scalar products and powers; honest batches are accepted and every reduced claim is true");
	m.rule("false product, power, base or point, or an altered proof element, coins fixed: the verifier rejects or hands on a false claim");
	type B1 = BinaryField1b;
	type B8 = BinaryField8b;
	type B16 = BinaryField16b;
	type B32 = BinaryField32b;
	type B64 = BinaryField64b;
	type B128 = BinaryField128b;
	type A8 = AESTowerField8b;
	let q = |m: &Mon, n: u64| m.n(n, n * 100);
	m.par("gpa 1x128b", q(&m, 250), gpa::<B8, _, PackedBinaryField1x128b>);
	m.par("gpa 2x128b", q(&m, 250), gpa::<B8, _, PackedBinaryField2x128b>);
	m.par("gpa 4x128b", q(&m, 150), gpa::<B16, _, PackedBinaryField4x128b>);
	m.par("gpa bytesliced", q(&m, 40), gpa::<A8, _, ByteSlicedAES16x128b>);
	m.par("exp 1x128b/128", q(&m, 60), exp::<B1, B128, B8, _, _, PackedBinaryField1x128b>);
	m.par("exp 1x128b/64", q(&m, 50), exp::<B1, B64, B8, _, _, PackedBinaryField1x128b>);
	m.par("exp 2x128b/32", q(&m, 120), exp::<B1, B32, B8, _, _, PackedBinaryField2x128b>);
	m.par("exp 4x128b/8", q(&m, 150), exp::<B1, B8, B8, _, _, PackedBinaryField4x128b>);
	m.par("exp 4x128b/128", q(&m, 80), exp::<B1, B128, B16, _, _, PackedBinaryField4x128b>);
	m.par("exp bytesliced/8", q(&m, 30), exp::<A8, A8, A8, _, _, ByteSlicedAES16x128b>);
	m.finish()
}
