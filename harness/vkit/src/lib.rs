//! Runner shared by all checks: drives generated cases (proptest strategies)
//! against an oracle, shrinks failures, writes replay files, counts what was
//! covered and writes the evidence file.
use std::{
	any::Any,
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	fmt::Debug,
	fs,
	hash::{Hash, Hasher},
	panic,
	path::PathBuf,
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Mutex,
	},
	time::{Duration, Instant},
};

pub use proptest;
use proptest::{
	strategy::{BoxedStrategy, Strategy},
	test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
pub use serde;
pub use serde_json;

/// What a check says about one case that satisfied the property.
#[derive(Default, Clone, Debug)]
pub struct Outcome {
	pub nontrivial: bool,
	pub labels: Vec<String>,
}

impl Outcome {
	pub fn new(nontrivial: bool) -> Self {
		Self { nontrivial, labels: vec![] }
	}
	pub fn label(mut self, l: impl Into<String>) -> Self {
		self.labels.push(l.into());
		self
	}
	pub fn label_if(self, c: bool, l: impl Into<String>) -> Self {
		if c {
			self.label(l)
		} else {
			self
		}
	}
}

/// A case that takes longer does not end.
const PATIENCE: Duration = Duration::from_secs(150);
/// Nothing the checks run needs so much memory (bytes).
const MEMORY: u64 = 12 << 30;
/// Shrinking ends with what has been reached by then.
const SHRINKING: Duration = Duration::from_secs(150);
/// The quick tier does not begin further cases after that.
const QUICK: Duration = Duration::from_secs(700);

/// Result of checking one case. The error text describes the violation; if it
/// starts with `[sig]`, `sig` identifies its root cause.
pub type CheckResult = Result<Outcome, String>;

#[macro_export]
macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($m:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if a != b {
			return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
		}
	}};
}

trait StageDyn: Sync + Send {
	fn name(&self) -> &'static str;
	fn run(&self, ctx: &Ctx) -> StageReport;
	fn replay(&self, case: &serde_json::Value) -> Result<CheckResult, String>;
	fn attempts(&self) -> u32;
}

pub struct Stage<C> {
	name: &'static str,
	quick: u64,
	thorough: u64,
	strategy: Box<dyn Fn() -> BoxedStrategy<C> + Sync + Send>,
	check: Box<dyn Fn(&C) -> CheckResult + Sync + Send>,
	threads: u64,
	shrink: u32,
	replay_attempts: u32,
}

struct Ctx<'a> {
	seed: u64,
	thorough: bool,
	property: &'a str,
	scale: f64,
	known: &'a HashSet<String>,
	begun: Instant,
	/// where every case is written before it is run
	trace: Option<PathBuf>,
}

/// The case a thread is running.
struct Running {
	since: Instant,
	case: *const (),
	json: unsafe fn(*const ()) -> serde_json::Value,
}

// The case is only read under the lock, which the thread takes to end it.
unsafe impl Send for Running {}

unsafe fn as_json<C: Serialize>(case: *const ()) -> serde_json::Value {
	serde_json::to_value(unsafe { &*case.cast::<C>() }).unwrap_or_default()
}

fn memory() -> u64 {
	fs::read_to_string("/proc/self/statm")
		.ok()
		.and_then(|t| t.split(' ').nth(1)?.parse::<u64>().ok())
		.unwrap_or(0)
		* 4096
}

/// Counts a thread as ended, however it does.
struct Ended<'a>(&'a AtomicU64);
impl Drop for Ended<'_> {
	fn drop(&mut self) {
		self.0.fetch_add(1, Ordering::Relaxed);
	}
}

/// Ends the process with a violation when a case does not end or eats all memory.
fn watch(id: &str, stage: &str, slots: &[Mutex<Option<Running>>], done: &AtomicU64) {
	let mut turn = 0u32;
	while done.load(Ordering::Relaxed) < slots.len() as u64 {
		std::thread::sleep(Duration::from_millis(20));
		turn += 1;
		let hungry = memory() > MEMORY;
		if !hungry && turn % 25 != 0 {
			continue;
		}
		// the one that has been running longest
		let oldest = slots
			.iter()
			.filter_map(|s| s.lock().unwrap().as_ref().map(|r| (r.since, s)))
			.min_by_key(|x| x.0);
		let Some((_, slot)) = oldest else { continue };
		let slot = slot.lock().unwrap();
		let Some(r) = slot.as_ref() else { continue };
		let msg = if hungry {
			format!("more than {} GB of memory in use", MEMORY >> 30)
		} else if r.since.elapsed() > PATIENCE {
			format!("no end within {} s", PATIENCE.as_secs())
		} else {
			continue;
		};
		let case = unsafe { (r.json)(r.case) };
		let path = write_replay(id, stage, &case, &msg);
		println!("broken: {stage}: {msg}");
		println!("VIOLATION property={id} replay={}", path.display());
		std::process::exit(1);
	}
}

#[derive(Default)]
struct StageReport {
	name: String,
	evaluations: u64,
	nontrivial: HashSet<u64>,
	labels: BTreeMap<String, u64>,
	samples: Vec<serde_json::Value>,
	known_hits: BTreeMap<String, u64>,
	failure: Option<(serde_json::Value, String)>,
	error: Option<String>,
	wall_s: f64,
}

thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
	static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_hook() {
	let default = panic::take_hook();
	panic::set_hook(Box::new(move |info| {
		let quiet = QUIET.with(|q| *q.borrow() > 0);
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".into()
		};
		let loc = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		if quiet {
			LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
		} else {
			default(info)
		}
	}));
}

/// Runs code under test; a panic becomes an `Err` naming where it happened.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	QUIET.with(|q| *q.borrow_mut() += 1);
	let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
	QUIET.with(|q| *q.borrow_mut() -= 1);
	r.map_err(|e: Box<dyn Any + Send>| {
		LAST_PANIC
			.with(|p| p.borrow_mut().take())
			.unwrap_or_else(|| {
				e.downcast_ref::<String>()
					.cloned()
					.unwrap_or_else(|| "panic".into())
			})
	})
}

fn hash64(t: &impl Hash) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

fn rng_for(ctx: &Ctx, stage: &str, shard: u64) -> TestRng {
	let mut seed = [0u8; 32];
	for i in 0..4u64 {
		let v = hash64(&(ctx.seed, ctx.property, stage, shard, i));
		seed[i as usize * 8..][..8].copy_from_slice(&v.to_le_bytes());
	}
	TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

pub fn signature_of(msg: &str) -> Option<&str> {
	msg.strip_prefix('[')?.split_once(']').map(|x| x.0)
}

impl<C> Stage<C>
where
	C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
	pub fn new<S>(
		name: &'static str,
		quick: u64,
		thorough: u64,
		strategy: impl Fn() -> S + Sync + Send + 'static,
		check: impl Fn(&C) -> CheckResult + Sync + Send + 'static,
	) -> Self
	where
		S: Strategy<Value = C> + 'static,
	{
		Self {
			name,
			quick,
			thorough,
			strategy: Box::new(move || strategy().boxed()),
			check: Box::new(check),
			threads: 8,
			shrink: 20_000,
			replay_attempts: 1,
		}
	}
	pub fn threads(mut self, t: u64) -> Self {
		self.threads = t;
		self
	}
	pub fn shrink(mut self, n: u32) -> Self {
		self.shrink = n;
		self
	}
	/// The code under test draws its own randomness: replay this often.
	pub fn attempts(mut self, n: u32) -> Self {
		self.replay_attempts = n;
		self
	}

	fn check_guarded(&self, c: &C) -> CheckResult {
		match guard(|| (self.check)(c)) {
			Ok(r) => r,
			Err(p) => Err(p),
		}
	}
}

impl<C> StageDyn for Stage<C>
where
	C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
	fn name(&self) -> &'static str {
		self.name
	}

	fn run(&self, ctx: &Ctx) -> StageReport {
		let t0 = Instant::now();
		let total = ((if ctx.thorough { self.thorough } else { self.quick }) as f64 * ctx.scale)
			.ceil() as u64;
		let shards = self.threads.min(total.max(1));
		let stop = AtomicBool::new(false);
		let evals = AtomicU64::new(0);
		let shared = Mutex::new(StageReport { name: self.name.into(), ..Default::default() });
		let slots: Vec<Mutex<Option<Running>>> = (0..shards).map(|_| Mutex::new(None)).collect();
		let done = AtomicU64::new(0);
		std::thread::scope(|s| {
			let (slots, done) = (&slots, &done);
			s.spawn(move || watch(ctx.property, self.name, slots, done));
			for shard in 0..shards {
				let n = total / shards + u64::from(shard < total % shards);
				let (stop, evals, shared) = (&stop, &evals, &shared);
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(s, move || {
						let _ended = Ended(done);
						let config = Config {
							cases: n as u32,
							failure_persistence: None,
							max_shrink_iters: self.shrink,
							max_global_rejects: u32::MAX,
							..Config::default()
						};
						let mut runner =
							TestRunner::new_with_rng(config, rng_for(ctx, self.name, shard));
						let strategy = (self.strategy)();
						let mut local = RefCell::new(StageReport::default());
						let failed = RefCell::new(None::<Instant>);
						let trace = ctx.trace.as_ref().map(|t| t.join(format!("{}-{shard}.json", self.name)));
						let res = runner.run(&strategy, |case| {
							let shrinking = failed.borrow().is_some();
							if failed.borrow().is_some_and(|t| t.elapsed() > SHRINKING) {
								return Ok(());
							}
							let late = !ctx.thorough && ctx.begun.elapsed() > QUICK;
							if !shrinking && (late || stop.load(Ordering::Relaxed)) {
								return Ok(());
							}
							if let Some(t) = &trace {
								let js = serde_json::json!({"property": ctx.property, "stage": self.name, "case": &case});
								fs::write(t, js.to_string()).unwrap();
							}
							*slots[shard as usize].lock().unwrap() = Some(Running {
								since: Instant::now(),
								case: (&raw const case).cast(),
								json: as_json::<C>,
							});
							let r = self.check_guarded(&case);
							*slots[shard as usize].lock().unwrap() = None;
							if trace.is_some() && r.is_ok() {
								return Ok(());
							}
							if !shrinking {
								evals.fetch_add(1, Ordering::Relaxed);
							}
							match r {
								Ok(o) => {
									if shrinking {
										return Ok(());
									}
									let mut l = local.borrow_mut();
									for x in o.labels {
										*l.labels.entry(x).or_default() += 1;
									}
									if o.nontrivial {
										let js = serde_json::to_string(&case).unwrap();
										if l.nontrivial.insert(hash64(&js))
											&& l.samples.len() < 2 && js.len() < 3000
										{
											l.samples.push(serde_json::to_value(&case).unwrap());
										}
									}
									Ok(())
								}
								Err(m) => {
									if let Some(sig) = signature_of(&m) {
										if ctx.known.contains(sig) {
											*local
												.borrow_mut()
												.known_hits
												.entry(sig.into())
												.or_default() += 1;
											return Ok(());
										}
									}
									failed.borrow_mut().get_or_insert_with(Instant::now);
									stop.store(true, Ordering::Relaxed);
									Err(TestCaseError::fail(m))
								}
							}
						});
						let l = local.get_mut();
						match res {
							Ok(()) => {}
							Err(TestError::Fail(reason, case)) => {
								// describe the minimal case itself
								let msg = (0..self.replay_attempts.max(1))
									.find_map(|_| self.check_guarded(&case).err())
									.unwrap_or_else(|| reason.to_string());
								l.failure = Some((serde_json::to_value(&case).unwrap(), msg));
							}
							Err(e) => l.error = Some(e.to_string()),
						}
						let mut g = shared.lock().unwrap();
						for (k, v) in std::mem::take(&mut l.labels) {
							*g.labels.entry(k).or_default() += v;
						}
						for (k, v) in std::mem::take(&mut l.known_hits) {
							*g.known_hits.entry(k).or_default() += v;
						}
						g.nontrivial.extend(std::mem::take(&mut l.nontrivial));
						if g.samples.len() < 3 {
							g.samples.extend(std::mem::take(&mut l.samples));
							g.samples.truncate(3);
						}
						if g.failure.is_none() {
							g.failure = l.failure.take();
						}
						if g.error.is_none() {
							g.error = l.error.take();
						}
					})
					.unwrap();
			}
		});
		let mut r = shared.into_inner().unwrap();
		r.evaluations = evals.load(Ordering::Relaxed);
		r.wall_s = t0.elapsed().as_secs_f64();
		r
	}

	fn attempts(&self) -> u32 {
		self.replay_attempts.max(1)
	}

	fn replay(&self, case: &serde_json::Value) -> Result<CheckResult, String> {
		let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
		let mut last = Ok(Outcome::default());
		for _ in 0..self.replay_attempts {
			last = self.check_guarded(&c);
			if last.is_err() {
				break;
			}
		}
		Ok(last)
	}
}

/// A committed demonstration of a recorded defect.
pub struct Probe {
	pub sig: &'static str,
	pub what: &'static str,
	pub run: fn() -> CheckResult,
}

pub struct Property {
	pub id: &'static str,
	pub rule: &'static str,
	pub assumptions: Vec<&'static str>,
	stages: Vec<Box<dyn StageDyn>>,
	probes: Vec<Probe>,
}

impl Property {
	pub fn new(id: &'static str, rule: &'static str) -> Self {
		Self { id, rule, assumptions: vec![], stages: vec![], probes: vec![] }
	}
	pub fn assume(mut self, a: &'static str) -> Self {
		self.assumptions.push(a);
		self
	}
	pub fn stage<C>(mut self, s: Stage<C>) -> Self
	where
		C: Serialize + DeserializeOwned + Debug + Clone + 'static,
	{
		self.stages.push(Box::new(s));
		self
	}
	pub fn probe(mut self, p: Probe) -> Self {
		self.probes.push(p);
		self
	}
}

fn verif_dir() -> PathBuf {
	std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn known_signatures(id: &str) -> HashSet<String> {
	let text = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
	text.lines()
		.filter_map(|l| l.strip_prefix("finding: "))
		.filter_map(|l| {
			let mut prop = None;
			let mut sig = None;
			for w in l.split_whitespace() {
				if let Some(p) = w.strip_prefix("property=") {
					prop = Some(p.to_string());
				}
				if let Some(s) = w.strip_prefix("sig=") {
					sig = Some(s.to_string());
				}
			}
			(prop.as_deref() == Some(id)).then_some(sig).flatten()
		})
		.collect()
}

fn write_replay(id: &str, stage: &str, case: &serde_json::Value, msg: &str) -> PathBuf {
	let dir = verif_dir().join("replays");
	let _ = fs::create_dir_all(&dir);
	let tag = hash64(&(case.to_string(), stage)) & 0xffff_ffff;
	let p = dir.join(format!("{id}-{stage}-{tag:08x}.json"));
	let v = serde_json::json!({"property": id, "stage": stage, "case": case, "message": msg});
	let _ = fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
	p
}

/// Entry point: `<bin> check <id>` or `<bin> replay <file>`; returns the exit status.
pub fn main(props: Vec<Property>) -> i32 {
	install_hook();
	let args: Vec<String> = std::env::args().collect();
	match args.get(1).map(String::as_str) {
		Some("check") => {
			let id = args.get(2).expect("property id");
			let p = props.iter().find(|p| p.id == id).expect("unknown property");
			let only = args.get(3).map(String::as_str);
			match std::env::var_os(CHILD) {
				Some(trace) => check(p, only, (trace != "1").then(|| trace.into())),
				None => supervise(p.id, &args[1..]),
			}
		}
		Some("replay") => {
			let f = args.get(2).expect("replay file");
			let v: serde_json::Value =
				serde_json::from_str(&fs::read_to_string(f).expect("read")).expect("json");
			let id = v["property"].as_str().unwrap();
			let p = props.iter().find(|p| p.id == id).expect("unknown property");
			let s = p
				.stages
				.iter()
				.find(|s| Some(s.name()) == v["stage"].as_str())
				.expect("unknown stage");
			let case = &v["case"];
			let over = AtomicBool::new(false);
			let result = std::thread::scope(|t| {
				let over = &over;
				t.spawn(move || {
					let begun = Instant::now();
					while !over.load(Ordering::Relaxed) {
						std::thread::sleep(Duration::from_millis(20));
						if memory() > MEMORY || begun.elapsed() > PATIENCE * s.attempts() {
							println!("broken: no end, or too much memory");
							println!("VIOLATION property={id} replay={f}");
							std::process::exit(1);
						}
					}
				});
				let r = std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(t, || s.replay(case))
					.unwrap()
					.join();
				over.store(true, Ordering::Relaxed);
				r.expect("replay")
			});
			match result.expect("case") {
				Ok(o) => {
					println!("held: {o:?}");
					0
				}
				Err(m) => {
					println!("broken: {m}");
					println!("VIOLATION property={id} replay={f}");
					1
				}
			}
		}
		Some("list") => {
			for p in &props {
				println!("{}", p.id);
			}
			0
		}
		_ => {
			eprintln!("usage: check <id> [stage] | replay <file> | list");
			2
		}
	}
}

const CHILD: &str = "VKIT_CHILD";

/// Runs the check in a process of its own. If that is killed by the code under test (stack
/// overflow, abort, out of memory), finds the case that did it.
fn supervise(id: &str, args: &[String]) -> i32 {
	let run = |args: &[String], child: &std::ffi::OsStr, quiet: bool| {
		let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
		c.args(args).env(CHILD, child);
		if quiet {
			c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
		}
		c.status().expect("start")
	};
	let status = run(args, "1".as_ref(), false);
	if let Some(code) = status.code() {
		return code;
	}
	eprintln!("{id}: the check has died ({status}); looking for the case");
	let dir = std::env::temp_dir().join(format!("vkit-{}", std::process::id()));
	fs::create_dir_all(&dir).unwrap();
	run(args, dir.as_os_str(), true);
	let mut files: Vec<_> = fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
	files.sort();
	let mut found = None;
	for f in files {
		// one thread may have died while it wrote its case
		let Some(v) = fs::read_to_string(&f)
			.ok()
			.and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
		else {
			continue;
		};
		let again = run(&["replay".into(), f.display().to_string()], "1".as_ref(), true);
		if again.code() != Some(0) {
			let msg = format!("the process ends with {again}");
			let stage = v["stage"].as_str().unwrap_or("").to_string();
			found = Some((write_replay(id, &stage, &v["case"], &msg), stage, msg));
			break;
		}
	}
	let _ = fs::remove_dir_all(&dir);
	match found {
		Some((path, stage, msg)) => {
			println!("broken: {stage}: {msg}");
			println!("VIOLATION property={id} replay={}", path.display());
			1
		}
		None => {
			eprintln!("{id}: no case found that does it");
			3
		}
	}
}

/// With `only`, just that stage and no saved cases: for experiments.
fn check(p: &Property, only: Option<&str>, trace: Option<PathBuf>) -> i32 {
	let t0 = Instant::now();
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
	let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	let known = known_signatures(p.id);
	let ctx = Ctx { seed, thorough, property: p.id, scale, known: &known, begun: t0, trace };

	let mut violations: Vec<(PathBuf, String)> = vec![];
	let mut broken = false;
	let mut findings = BTreeMap::<String, (String, u64)>::new();

	// recorded defects: demonstrate the ones that are listed
	for pr in &p.probes {
		match guard(pr.run).unwrap_or_else(Err) {
			Ok(_) => {}
			Err(m) => {
				let sig = signature_of(&m).unwrap_or("").to_string();
				if known.contains(&sig) {
					findings.insert(sig, (pr.what.into(), 1));
				} else {
					let path = write_replay(p.id, "probe", &serde_json::json!({"probe": pr.sig}), &m);
					violations.push((path, m));
				}
			}
		}
	}

	// saved minimal cases of earlier failures
	let mut regressions = 0u64;
	let dir = verif_dir().join("regressions").join(p.id);
	let mut files: Vec<_> = fs::read_dir(&dir)
		.map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
		.unwrap_or_default();
	files.sort();
	for f in files.into_iter().filter(|_| only.is_none()) {
		let Ok(text) = fs::read_to_string(&f) else { continue };
		let Ok(v) = serde_json::from_str::<serde_json::Value>(&text) else {
			eprintln!("bad regression file {f:?}");
			broken = true;
			continue;
		};
		let Some(s) = p.stages.iter().find(|s| Some(s.name()) == v["stage"].as_str()) else {
			eprintln!("regression {f:?}: unknown stage");
			broken = true;
			continue;
		};
		regressions += 1;
		match s.replay(&v["case"]) {
			Ok(Ok(_)) => {}
			Ok(Err(m)) => {
				if !signature_of(&m).is_some_and(|s| known.contains(s)) {
					violations.push((f, m));
				}
			}
			Err(e) => {
				eprintln!("regression {f:?}: {e}");
				broken = true;
			}
		}
	}

	let mut reports = vec![];
	for s in p.stages.iter().filter(|s| only.is_none_or(|o| o == s.name())) {
		let r = s.run(&ctx);
		for (sig, n) in &r.known_hits {
			findings.entry(sig.clone()).or_insert((sig.clone(), 0)).1 += n;
		}
		eprintln!(
			"{} {}: {} cases, {} distinct non-trivial, {:.1}s {}",
			p.id,
			r.name,
			r.evaluations,
			r.nontrivial.len(),
			r.wall_s,
			r.labels.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
		);
		if let Some((case, msg)) = &r.failure {
			let path = write_replay(p.id, &r.name, case, msg);
			violations.push((path, format!("{}: {}\n  case: {}", r.name, msg, {
				let mut t = case.to_string();
				if t.len() > 2000 {
					let mut e = 2000;
					while !t.is_char_boundary(e) { e -= 1; }
					t.truncate(e);
				}
				t
			})));
		}
		if let Some(e) = &r.error {
			eprintln!("{} {}: {}", p.id, r.name, e);
			broken = true;
		}
		reports.push(r);
	}

	let wall = t0.elapsed().as_secs_f64();
	let evaluations: u64 = reports.iter().map(|r| r.evaluations).sum::<u64>() + regressions;
	let distinct: usize = reports.iter().map(|r| r.nontrivial.len()).sum();
	let ev = serde_json::json!({
		"property": p.id,
		"tier": if thorough { "thorough" } else { "quick" },
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": distinct,
			"rule": p.rule,
			"samples": reports.iter().flat_map(|r| r.samples.iter().take(2).map(|s|
				serde_json::json!({"stage": r.name, "case": s}))).collect::<Vec<_>>(),
			"stages": reports.iter().map(|r| serde_json::json!({
				"name": r.name, "evaluations": r.evaluations,
				"distinct_nontrivial": r.nontrivial.len(),
				"labels": r.labels, "excluded_known_findings": r.known_hits,
				"wall_s": r.wall_s,
			})).collect::<Vec<_>>(),
			"regression_cases": regressions,
		},
		"assumptions": p.assumptions,
		"wall_s": wall,
		"violations": violations.len(),
	});
	let out = verif_dir().join("evidence");
	let _ = fs::create_dir_all(&out);
	if let Err(e) = fs::write(
		out.join(format!("{}.json", p.id)),
		serde_json::to_string_pretty(&ev).unwrap(),
	) {
		eprintln!("cannot write evidence: {e}");
		broken = true;
	}
	for (sig, (what, n)) in &findings {
		println!("KNOWN-FINDING: property={} sig={} {} (cases: {})", p.id, sig, what, n);
	}
	if !violations.is_empty() {
		for (path, m) in &violations {
			println!("broken: {m}");
			println!("VIOLATION property={} replay={}", p.id, path.display());
		}
		return 1;
	}
	if broken {
		return 3;
	}
	println!("OK property={} evaluations={} distinct_nontrivial={} wall_s={:.1}", p.id, evaluations, distinct, wall);
	0
}
