//! C17: every satisfied constraint system yields a proof the verifier accepts.
use hc::{pv::*, sysgen::*, *};

fn honest<U: Und>(c: &mut Case) -> Res {
	let big = c.below(16) == 0;
	let o = Opts { tables: 3, max_log_size: if big { 8 } else { 5 }, steps: if big { 5 } else { 9 }, exps: true };
	let s = Sys::generate(c, &o);
	let p = Params { rate: c.range(1, 2), sec: c.pick(&[20, 50, 100]) };
	c.desc(format!("U={} {p:?} {}", U::NAME, s.describe()));
	c.key(s.features.join(","));
	if let Err(e) = s.check(&s.full(), true, true) {
		fail!("harness: generated system not satisfied: {e}");
	}
	// the prover does not support committing less than one packed word (an explicit todo!()) or a
	// single field element (FRI needs a round to fold)
	if s.committed_elems() * 128 < U::BITS.max(256) {
		c.count("skipped-below-one-packed-word", 1);
		return Ok(());
	}
	for f in &s.features {
		c.count(f, 1);
	}
	c.obs((U::NAME, s.describe(), p.rate, p.sec), s.tabs.iter().any(|t| !t.zeros.is_empty()) || !s.boundaries.is_empty());
	let bounds = s.boundaries.clone();
	let mut len = 0;
	with_filled::<U, Res>(c, &s, |ccs, sizes, w| {
		let d = ccs.digest::<binius_hash::groestl::Groestl256>();
		let proof = no_panic(|| prove::<U>(ccs, p, &d, &bounds, sizes, w)).map_err(|e| format!("proving a satisfied system failed: {e}"))?;
		len = proof.len();
		no_panic(|| verify::<U>(ccs, p, &d, &bounds, &proof)).map_err(|e| format!("an honest proof was rejected: {e}"))
	})??;
	c.count("proofs-accepted", 1);
	c.count("proof-bytes", len as u64);
	Ok(())
}

fn main() {
	let mut m = Mon::from_args("C17");
	m.rule("random satisfied M3 systems (all column kinds, constraints, flushes with selectors and multiplicities, boundaries, empty tables, three size specs), filled through the table fillers: prove must succeed and verify accept; reference model checks satisfaction first; non-trivial when the system has constraints or boundaries");
	let n = m.n(1200, 40000);
	m.par("honest", n, |c| match c.below(3) {
		0 => honest::<binius_field::arch::OptimalUnderlier128b>(c),
		1 => honest::<binius_field::arch::OptimalUnderlier256b>(c),
		_ => honest::<binius_field::arch::OptimalUnderlier512b>(c),
	});
	m.finish();
}
