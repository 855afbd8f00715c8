//! Runtime-monitor driver shared by all harnesses.
//!
//! A *monitor* is a named workload plus oracle. It is run over many *cases*; each case gets its own
//! PRNG derived from (VERIF_SEED, monitor name, case index), so that any single case can be replayed.
//! A case reports what it observed (`obs`, `count`) and returns `Err` (or panics, or crashes the
//! process) when the property is violated.
use std::{
	any::Any,
	cell::RefCell,
	collections::{BTreeMap, BTreeSet, HashSet},
	fmt::Write as _,
	hash::{DefaultHasher, Hash, Hasher},
	io::Write as _,
	panic::{AssertUnwindSafe, catch_unwind},
	sync::{
		Mutex,
		atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
	},
	time::{Duration, Instant},
};

pub mod gf;

pub use rand;
use rand::{RngCore, SeedableRng, rngs::StdRng};

pub type Res = Result<(), String>;

/// Fail the current case.
#[macro_export]
macro_rules! fail {
	($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

/// Require a condition in the current case.
#[macro_export]
macro_rules! ensure {
	($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

/// Require equality in the current case.
#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($arg:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if *a != *b {
			let mut s = format!($($arg)*);
			let av = format!("{a:?}");
			let bv = format!("{b:?}");
			s.push_str(&format!(": got {}, expected {}", $crate::clip(&av), $crate::clip(&bv)));
			return Err(s);
		}
	}};
}

pub fn clip(s: &str) -> String {
	if s.len() > 400 {
		let mut e = 400;
		while !s.is_char_boundary(e) {
			e -= 1;
		}
		format!("{}...", &s[..e])
	} else {
		s.to_string()
	}
}

pub struct Case {
	pub rng: StdRng,
	pub index: u64,
	pub thorough: bool,
	desc: String,
	evals: u64,
	obs: HashSet<u64>,
	counts: BTreeMap<String, u64>,
	key: Option<String>,
}

impl Case {
	/// Record one oracle evaluation whose distinctness is judged by `fp`; `nontrivial` per the rule.
	pub fn obs(&mut self, fp: impl Hash, nontrivial: bool) {
		self.evals += 1;
		if nontrivial {
			let mut h = DefaultHasher::new();
			fp.hash(&mut h);
			self.obs.insert(h.finish());
		}
	}
	/// Count an event of the given kind.
	pub fn count(&mut self, k: &str, n: u64) {
		*self.counts.entry(k.to_string()).or_default() += n;
	}
	/// Describe the concrete case (goes to samples and replay files).
	pub fn desc(&mut self, s: impl Into<String>) {
		self.desc = s.into();
	}
	/// Signature under which a violation in this case is reported (for deduplication and for the
	/// known-findings list).
	pub fn key(&mut self, s: impl Into<String>) {
		self.key = Some(s.into());
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.rng.next_u64() % n.max(1) as u64) as usize
	}
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	pub fn flip(&mut self) -> bool {
		self.rng.next_u32() & 1 == 1
	}
	pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
		xs[self.below(xs.len())].clone()
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = vec![0u8; n];
		self.rng.fill_bytes(&mut v);
		v
	}
	pub fn u128(&mut self) -> u128 {
		(self.rng.next_u64() as u128) << 64 | self.rng.next_u64() as u128
	}
	/// Operand patterns: random, sparse, dense, single bits, subfield-sized, zero, one, ...
	pub fn u128_patterned(&mut self) -> u128 {
		let r = self.u128();
		match self.below(16) {
			0 => 0,
			1 => 1,
			2 => u128::MAX,
			3 => 1u128 << self.below(128),
			4 => u128::MAX ^ (1u128 << self.below(128)),
			5 => r & self.u128() & self.u128() & self.u128(),
			6 => r | self.u128() | self.u128() | self.u128(),
			7 => {
				let b = 1u32 << self.below(8);
				if b >= 128 { r } else { r & ((1u128 << b) - 1) }
			}
			8 => {
				let b = 1u32 << self.below(7);
				r << (128 - b)
			}
			9 => {
				// repeated byte
				let b = (r & 0xff) as u8;
				u128::from_le_bytes([b; 16])
			}
			10 => r & 0x00ff00ff00ff00ff00ff00ff00ff00ff,
			11 => r & 0xffffffff00000000ffffffff00000000,
			_ => r,
		}
	}
}

#[derive(Clone)]
struct Violation {
	monitor: String,
	index: u64,
	key: String,
	detail: String,
	desc: String,
}

pub struct Mon {
	pub property: String,
	pub thorough: bool,
	pub seed: u64,
	flavour: String,
	out: String,
	only: Option<(String, Option<u64>)>,
	deadline: Instant,
	start: Instant,
	evaluations: u64,
	distinct: HashSet<u64>,
	counts: BTreeMap<String, u64>,
	per_monitor: BTreeMap<String, (u64, u64, f64)>,
	samples: Vec<String>,
	rule: String,
	violations: Vec<Violation>,
	inconclusive: Vec<String>,
	scale: f64,
	/// this process runs the cases `i` with `(i + serial) % shard.1 == shard.0`
	shard: (u64, u64),
	serial: u64,
}

thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// Last panic message of any thread (panics in pool threads lose their location otherwise).
static LAST_ANY: Mutex<Option<String>> = Mutex::new(None);
static QUIET: AtomicBool = AtomicBool::new(true);

fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = payload_str(info.payload());
		let loc = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		let s = format!("panic at {loc}: {msg}");
		LAST_PANIC.with(|p| *p.borrow_mut() = Some(s.clone()));
		*LAST_ANY.lock().unwrap_or_else(|e| e.into_inner()) = Some(s.clone());
		if !QUIET.load(Ordering::Relaxed) {
			eprintln!("{s}");
		}
	}));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else {
		"?".to_string()
	}
}

/// Run `f`, converting a panic into `Err(description)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	LAST_PANIC.with(|p| *p.borrow_mut() = None);
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(e) => Err(LAST_PANIC
			.with(|p| p.borrow_mut().take())
			.or_else(|| LAST_ANY.lock().unwrap_or_else(|e| e.into_inner()).take())
			.unwrap_or_else(|| format!("panic: {}", payload_str(&*e)))),
	}
}

fn derive_seed(seed: u64, monitor: &str, index: u64) -> [u8; 32] {
	let mut out = [0u8; 32];
	for k in 0..4u64 {
		let mut h = DefaultHasher::new();
		(seed, monitor, index, k, 0x5eed_u64).hash(&mut h);
		out[k as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
	}
	out
}

impl Mon {
	pub fn from_args(property: &str) -> Self {
		install_hook();
		let mut m = Mon {
			property: property.to_string(),
			thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
			seed: std::env::var("VERIF_SEED")
				.ok()
				.and_then(|s| s.parse().ok())
				.unwrap_or(1),
			flavour: String::new(),
			out: String::new(),
			only: None,
			deadline: Instant::now() + Duration::from_secs(100_000),
			start: Instant::now(),
			evaluations: 0,
			distinct: HashSet::new(),
			counts: BTreeMap::new(),
			per_monitor: BTreeMap::new(),
			samples: vec![],
			rule: String::new(),
			violations: vec![],
			inconclusive: vec![],
			scale: std::env::var("VMON_SCALE")
				.ok()
				.and_then(|s| s.parse().ok())
				.unwrap_or(1.0),
			shard: std::env::var("VMON_SHARD")
				.ok()
				.and_then(|s| s.split_once('/').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))))
				.unwrap_or((0, 1)),
			serial: 0,
		};
		let args: Vec<String> = std::env::args().collect();
		let mut i = 1;
		while i < args.len() {
			let v = args.get(i + 1).cloned().unwrap_or_default();
			match args[i].as_str() {
				"--flavour" => m.flavour = v,
				"--out" => m.out = v,
				"--budget" => m.deadline = Instant::now() + Duration::from_secs_f64(v.parse().unwrap()),
				"--only" => {
					let mut it = v.splitn(2, '#');
					let name = it.next().unwrap().to_string();
					m.only = Some((name, it.next().and_then(|x| x.parse().ok())));
				}
				"--verbose" => {
					QUIET.store(false, Ordering::Relaxed);
					i += 1;
					continue;
				}
				_ => {}
			}
			i += 2;
		}
		m
	}

	pub fn flavour(&self) -> &str {
		&self.flavour
	}

	pub fn rule(&mut self, s: &str) {
		self.rule = s.to_string();
	}

	pub fn remaining(&self) -> Duration {
		self.deadline.saturating_duration_since(Instant::now())
	}

	/// number of cases for this tier
	pub fn n(&self, quick: u64, thorough: u64) -> u64 {
		let n = if self.thorough { thorough } else { quick };
		((n as f64 * self.scale).ceil() as u64).max(1)
	}

	/// Run the cases of one monitor on all cores.
	pub fn par(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) -> Res + Sync) {
		let threads = std::thread::available_parallelism()
			.map(|x| x.get())
			.unwrap_or(4)
			.min(8);
		self.exec(name, n, threads, &f)
	}

	/// Run the cases of one monitor one after the other (for code that is itself parallel).
	pub fn seq(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) -> Res + Sync) {
		self.exec(name, n, 1, &f)
	}

	fn exec(&mut self, name: &str, n: u64, threads: usize, f: &(dyn Fn(&mut Case) -> Res + Sync)) {
		let mut lo = 0;
		let mut hi = n;
		if let Some((o, idx)) = &self.only {
			if o != name {
				return;
			}
			if let Some(i) = idx {
				lo = *i;
				hi = *i + 1;
			}
		}
		self.serial += 1;
		let (shard, serial) = (if self.only.is_some() { (0, 1) } else { self.shard }, self.serial);
		let mine = move |i: u64| (i + serial) % shard.1 == shard.0;
		if !(lo..hi).any(mine) {
			return;
		}
		let t0 = Instant::now();
		if Instant::now() > self.deadline {
			self.inconclusive.push(format!("{name}: not started, budget exhausted"));
			return;
		}
		let next = AtomicU64::new(lo);
		let done = AtomicU64::new(0);
		let fails = AtomicUsize::new(0);
		let results: Mutex<Vec<(u64, Case, Option<Violation>)>> = Mutex::new(vec![]);
		let progress = if self.out.is_empty() {
			None
		} else {
			Some(format!("{}.progress", self.out))
		};
		let seed = self.seed;
		let thorough = self.thorough;
		let deadline = self.deadline;
		let max_fails = std::env::var("VMON_FAILS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
		let worker = |tid: usize| {
			loop {
				let i = next.fetch_add(1, Ordering::Relaxed);
				if i >= hi || fails.load(Ordering::Relaxed) >= max_fails || Instant::now() > deadline {
					break;
				}
				if !mine(i) {
					done.fetch_add(1, Ordering::Relaxed);
					continue;
				}
				if let Some(p) = &progress {
					// which case each worker is in: read by the driver if the process dies
					let _ = std::fs::File::create(format!("{p}.{tid}"))
						.and_then(|mut fh| write!(fh, "{name}#{i}"));
				}
				let mut case = Case {
					rng: StdRng::from_seed(derive_seed(seed, name, i)),
					index: i,
					thorough,
					desc: String::new(),
					evals: 0,
					obs: HashSet::new(),
					counts: BTreeMap::new(),
					key: None,
				};
				let r = guard(|| f(&mut case));
				let detail = match r {
					Ok(Ok(())) => None,
					Ok(Err(e)) => Some(e),
					Err(p) => Some(p),
				};
				let viol = detail.map(|d| {
					fails.fetch_add(1, Ordering::Relaxed);
					Violation {
						monitor: name.to_string(),
						index: i,
						key: case.key.clone().unwrap_or_else(|| name.to_string()),
						detail: d,
						desc: case.desc.clone(),
					}
				});
				done.fetch_add(1, Ordering::Relaxed);
				results.lock().unwrap().push((i, case, viol));
			}
			if let Some(p) = &progress {
				let _ = std::fs::remove_file(format!("{p}.{tid}"));
			}
		};
		if threads <= 1 || hi - lo == 1 {
			worker(0);
		} else {
			std::thread::scope(|s| {
				for tid in 0..threads {
					let worker = &worker;
					std::thread::Builder::new()
						.stack_size(64 << 20)
						.spawn_scoped(s, move || worker(tid))
						.unwrap();
				}
			});
		}
		let mut results = results.into_inner().unwrap();
		results.sort_by_key(|r| r.0);
		let done = done.into_inner();
		if done < hi - lo && fails.into_inner() == 0 {
			self.counts
				.insert(format!("{name}: cases cut by time budget"), hi - lo - done);
		}
		let mut before = self.distinct.len();
		std::mem::swap(&mut before, &mut 0);
		let d0 = self.distinct.len() as u64;
		let mut evals = 0;
		let ns = results.len();
		for (k, (i, case, viol)) in results.into_iter().enumerate() {
			evals += case.evals.max(1);
			let mut nh = DefaultHasher::new();
			name.hash(&mut nh);
			let nh = nh.finish();
			self.distinct
				.extend(case.obs.into_iter().map(|h| h ^ nh.rotate_left(17)));
			for (k, v) in case.counts {
				*self.counts.entry(format!("{name}: {k}")).or_default() += v;
			}
			if (k == 0 || k == ns / 2) && !case.desc.is_empty() {
				self.samples.push(format!("{name}#{i}: {}", clip(&case.desc)));
			}
			if let Some(v) = viol {
				self.violations.push(v);
			}
		}
		self.evaluations += evals;
		let d1 = self.distinct.len() as u64;
		let secs = t0.elapsed().as_secs_f64();
		self.per_monitor
			.insert(name.to_string(), (evals, d1 - d0, secs));
		if std::env::var("VMON_LOG").is_ok() {
			eprintln!(
				"[{}] {name}: {done} cases, {evals} evals, {} distinct, {secs:.2}s, {} violations",
				self.property,
				d1 - d0,
				self.violations.iter().filter(|v| v.monitor == name).count()
			);
		}
	}

	pub fn note_inconclusive(&mut self, s: impl Into<String>) {
		self.inconclusive.push(s.into());
	}

	/// Write the result file; the driver turns it into verdict and evidence.
	pub fn finish(mut self) -> ! {
		let mut s = String::from("{");
		let _ = write!(s, "\"property\":{},", jstr(&self.property));
		let _ = write!(s, "\"flavour\":{},", jstr(&self.flavour));
		let _ = write!(s, "\"cpu_features\":{},", jstr(&compiled_features()));
		let _ = write!(s, "\"seed\":{},", self.seed);
		let _ = write!(s, "\"evaluations\":{},", self.evaluations);
		let _ = write!(s, "\"distinct\":{},", self.distinct.len());
		let _ = write!(s, "\"rule\":{},", jstr(&self.rule));
		let _ = write!(s, "\"wall_s\":{},", self.start.elapsed().as_secs_f64());
		self.samples.truncate(60);
		let _ = write!(
			s,
			"\"samples\":[{}],",
			self.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
		);
		let _ = write!(
			s,
			"\"counts\":{{{}}},",
			self.counts
				.iter()
				.map(|(k, v)| format!("{}:{v}", jstr(k)))
				.collect::<Vec<_>>()
				.join(",")
		);
		let _ = write!(
			s,
			"\"monitors\":{{{}}},",
			self.per_monitor
				.iter()
				.map(|(k, (e, d, t))| format!(
					"{}:{{\"evaluations\":{e},\"distinct\":{d},\"seconds\":{t:.3}}}",
					jstr(k)
				))
				.collect::<Vec<_>>()
				.join(",")
		);
		let _ = write!(
			s,
			"\"inconclusive\":[{}],",
			self.inconclusive.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
		);
		let mut seen = BTreeSet::new();
		let mut vs = vec![];
		for v in &self.violations {
			if seen.insert((v.monitor.clone(), v.key.clone())) || vs.len() < 20 {
				vs.push(format!(
					"{{\"monitor\":{},\"index\":{},\"key\":{},\"detail\":{},\"case\":{}}}",
					jstr(&v.monitor),
					v.index,
					jstr(&v.key),
					jstr(&clip(&v.detail)),
					jstr(&v.desc)
				));
			}
		}
		let _ = write!(s, "\"violations\":[{}]}}", vs.join(","));
		if self.out.is_empty() {
			println!("{s}");
		} else {
			std::fs::write(&self.out, s).expect("write result");
		}
		for v in self.violations.iter().take(5) {
			eprintln!("violation {}#{} [{}]: {}", v.monitor, v.index, v.key, clip(&v.detail));
		}
		std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
	}
}

pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn compiled_features() -> String {
	let mut v = vec![];
	if cfg!(target_feature = "sse2") {
		v.push("sse2")
	}
	if cfg!(target_feature = "avx2") {
		v.push("avx2")
	}
	if cfg!(target_feature = "pclmulqdq") {
		v.push("pclmulqdq")
	}
	if cfg!(target_feature = "aes") {
		v.push("aes")
	}
	if cfg!(target_feature = "gfni") {
		v.push("gfni")
	}
	if cfg!(target_feature = "avx512f") {
		v.push("avx512f")
	}
	if cfg!(target_feature = "vpclmulqdq") {
		v.push("vpclmulqdq")
	}
	v.join("+")
}
