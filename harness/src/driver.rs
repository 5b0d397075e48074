//! Runs a property: shards in child processes, journaling, shrinking, replay and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
	Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}
impl Tier {
	pub fn pick<T>(self, quick: T, thorough: T) -> T {
		if self == Tier::Quick {
			quick
		} else {
			thorough
		}
	}
}

/// What is known about an evaluated case.
#[derive(Default)]
pub struct Info {
	pub nontrivial: bool,
	pub classes: Vec<String>,
	/// Executions of operations under test.
	pub runs: u64,
	/// Largest values of measured quantities.
	pub maxima: Vec<(String, f64)>,
}
impl Info {
	pub fn class(&mut self, c: impl Into<String>) {
		self.classes.push(c.into());
	}
	pub fn when(&mut self, cond: bool, c: &str) {
		if cond {
			self.classes.push(c.into());
		}
	}
	pub fn max(&mut self, name: &str, x: f64) {
		self.maxima.push((name.into(), x));
	}
}

pub struct Phase<C: Debug> {
	pub name: &'static str,
	pub strategy: BoxedStrategy<C>,
	/// Cases per shard.
	pub cases: u32,
}

pub trait Property {
	type Case: Serialize + DeserializeOwned + Debug + Clone + PartialEq + 'static;
	const ID: &'static str;
	/// Multiplies the number of cases in the quick tier.
	const QUICK: f64 = 1.0;
	fn phases(tier: Tier) -> Vec<Phase<Self::Case>>;
	fn check(case: &Self::Case, info: &mut Info) -> Result<(), String>;
	/// Simpler cases, best first.
	fn simpler(case: &Self::Case, round: u32) -> Vec<Self::Case>;
	fn rule() -> &'static str;
	fn assumptions() -> Vec<&'static str> {
		vec![]
	}
	/// Cost of a case for limiting shrinking.
	fn cost(_: &Self::Case) -> u64 {
		1
	}
	/// Whether failures may depend on the schedule.
	fn parallel(_: &Self::Case) -> bool {
		false
	}
}

pub const SHARDS: u32 = 8;

fn seed_bytes(seed: u64, id: &str, shard: u32, phase: usize) -> [u8; 32] {
	let mut h = crate::ctx::mix(seed);
	for b in id.bytes() {
		h = crate::ctx::mix(h ^ b as u64);
	}
	h = crate::ctx::mix(h ^ (shard as u64) << 32 ^ phase as u64);
	let mut out = [0; 32];
	for c in out.chunks_mut(8) {
		h = crate::ctx::mix(h);
		c.copy_from_slice(&h.to_le_bytes());
	}
	out
}

fn hash(s: &[u8]) -> u64 {
	s.chunks(8).fold(s.len() as u64, |h, c| {
		let mut b = [0; 8];
		b[..c.len()].copy_from_slice(c);
		crate::ctx::mix(h ^ u64::from_le_bytes(b))
	})
}

struct Journal {
	file: std::fs::File,
}
impl Journal {
	fn write(&self, s: &[u8]) {
		let _ = self.file.write_all_at(s, 0);
		let _ = self.file.set_len(s.len() as u64);
	}
}

#[derive(Default)]
struct Stats {
	evaluations: u64,
	runs: u64,
	nontrivial: u64,
	hashes: HashSet<u64>,
	classes: BTreeMap<String, u64>,
	maxima: BTreeMap<String, f64>,
	samples: Vec<Value>,
	failed: bool,
}

/// Truncates long explicit data in samples.
fn abbreviate(v: &mut Value) {
	match v {
		Value::Array(a) => {
			if a.len() > 40 {
				let n = a.len();
				a.truncate(40);
				a.push(json!(format!("... {n} in total")));
			}
			a.iter_mut().for_each(abbreviate);
		}
		Value::Object(o) => o.values_mut().for_each(abbreviate),
		_ => {}
	}
}

pub fn shard<P: Property>(tier: Tier, seed: u64, shard: u32, scale: f64, dir: &Path) -> i32 {
	crate::exec::install_panic_hook();
	let journal = Journal { file: std::fs::File::create(dir.join(format!("{shard}.case"))).unwrap() };
	let stats = RefCell::new(Stats::default());
	let mut failure: Option<(String, P::Case)> = None;
	let mut timings = vec![];
	for (nr, phase) in P::phases(tier).into_iter().enumerate() {
		let cases = (phase.cases as f64 * scale * tier.pick(P::QUICK, 1.0)).ceil() as u32;
		if cases == 0 {
			continue;
		}
		let started = Instant::now();
		let config = Config {
			cases,
			failure_persistence: None,
			max_shrink_iters: 400,
			..Config::default()
		};
		let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, P::ID, shard, nr));
		let mut runner = TestRunner::new_with_rng(config, rng);
		let first: RefCell<Option<(String, P::Case)>> = RefCell::new(None);
		let result = runner.run(&phase.strategy, |case| {
			let bytes = serde_json::to_vec(&case).unwrap();
			journal.write(&bytes);
			let mut info = Info::default();
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide::<P>(&case, &mut info)));
			let r = r.unwrap_or_else(|p| {
				// Everything expected to panic is caught: this is an error of the harness.
				eprintln!("{}: harness error: {:?} on {case:?}", P::ID, crate::exec::classify(p));
				std::process::exit(3)
			});
			let mut st = stats.borrow_mut();
			if !st.failed {
				st.evaluations += 1;
				st.runs += info.runs;
				for c in info.classes {
					*st.classes.entry(c).or_default() += 1;
				}
				for (k, x) in info.maxima {
					let m = st.maxima.entry(k).or_insert(x);
					*m = m.max(x);
				}
				if info.nontrivial {
					st.nontrivial += 1;
					let h = hash(&bytes);
					if st.hashes.insert(h) {
						let k = st.hashes.len();
						if k == 1 || k == 20 || k == 300 {
							let mut v: Value = serde_json::from_slice(&bytes).unwrap();
							abbreviate(&mut v);
							st.samples.push(json!({"phase": phase.name, "case": v}));
						}
					}
				}
			}
			r.map_err(|e| {
				st.failed = true;
				first.borrow_mut().get_or_insert_with(|| (e.clone(), case.clone()));
				TestCaseError::fail(e)
			})
		});
		timings.push(json!({"phase": phase.name, "cases": cases, "s": started.elapsed().as_secs_f64()}));
		match result {
			Ok(()) => {}
			Err(TestError::Fail(reason, case)) => {
				let (m0, c0) = first.into_inner().unwrap();
				// A failure depending on the schedule may not have shrunk to a failing case.
				failure = Some(match reproduces::<P>(&case) {
					Some(m) => (m, case),
					None => match reproduces::<P>(&c0) {
						Some(m) => (m, c0),
						None => (format!("{m0} (depends on the schedule; {reason})"), c0),
					},
				});
				break;
			}
			Err(TestError::Abort(reason)) => {
				eprintln!("{}: generator aborted: {reason}", P::ID);
				return 2;
			}
		}
	}
	let st = stats.into_inner();
	let out = json!({
		"evaluations": st.evaluations,
		"runs": st.runs,
		"nontrivial": st.nontrivial,
		"classes": st.classes,
		"maxima": st.maxima,
		"samples": st.samples,
		"timings": timings,
	});
	let hashes: Vec<u8> = st.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
	std::fs::write(dir.join(format!("{shard}.hash")), hashes).unwrap();
	std::fs::write(dir.join(format!("{shard}.json")), out.to_string()).unwrap();
	if let Some((message, case)) = failure {
		let (message, case) = shrink::<P>(message, case, |c| {
			journal.write(&serde_json::to_vec(c).unwrap());
			reproduces::<P>(c)
		});
		let v = json!({"property": P::ID, "message": message, "case": case, "seed": seed, "shard": shard});
		std::fs::write(dir.join(format!("{shard}.fail")), v.to_string()).unwrap();
		return 1;
	}
	0
}

/// Checks the case and the memory blocks it used.
fn decide<P: Property>(case: &P::Case, info: &mut Info) -> Result<(), String> {
	let r = P::check(case, info);
	let corrupted = crate::alloc::corrupted();
	r.and_then(|()| corrupted.map_or(Ok(()), |e| Err(e.into())))
}

/// The message if the case fails, trying repeatedly where the schedule matters.
fn reproduces<P: Property>(case: &P::Case) -> Option<String> {
	let tries = if P::parallel(case) { 8 } else { 1 };
	(0..tries).find_map(|_| decide::<P>(case, &mut Info::default()).err())
}

/// Greedy minimisation.
fn shrink<P: Property>(
	mut message: String,
	mut case: P::Case,
	fails: impl Fn(&P::Case) -> Option<String>,
) -> (String, P::Case) {
	let started = Instant::now();
	let mut fuel = 400_000_000u64;
	let mut round = 0;
	loop {
		let mut progress = false;
		for c in P::simpler(&case, round) {
			if c == case {
				continue;
			}
			let cost = P::cost(&c) + 50;
			// Time only limits how small the reported case gets.
			if fuel < cost || started.elapsed() > Duration::from_secs(60) {
				return (message, case);
			}
			fuel -= cost;
			if let Some(m) = fails(&c) {
				message = m;
				case = c;
				progress = true;
				break;
			}
		}
		if progress {
			continue;
		}
		round += 1;
		if round > 14 {
			return (message, case);
		}
	}
}

pub fn one<P: Property>(file: &Path) -> i32 {
	crate::exec::install_panic_hook();
	let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
	let case: P::Case = serde_json::from_value(v.get("case").cloned().unwrap_or(v)).unwrap();
	let tries = if P::parallel(&case) { 60 } else { 1 };
	for _ in 0..tries {
		if let Err(e) = decide::<P>(&case, &mut Info::default()) {
			println!("{}: {e}", P::ID);
			println!("{case:?}");
			return 1;
		}
	}
	println!("{}: holds on this case", P::ID);
	0
}

fn crash_signal(sig: i32) -> bool {
	[libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig)
}

/// Runs a case in a process of its own: `Some` if it fails, crashes or exceeds the limit.
fn isolated(id: &str, exe: &Path, dir: &Path, case: &Value, limit: Option<Duration>) -> Option<String> {
	let file = dir.join("isolated.json");
	let out = dir.join("isolated.out");
	let err = dir.join("isolated.err");
	std::fs::write(&file, json!({"case": case}).to_string()).unwrap();
	let mut child = Command::new(exe)
		.args(["one", id])
		.arg(&file)
		.env("RAYON_NUM_THREADS", "4")
		.stdout(std::fs::File::create(&out).unwrap())
		.stderr(std::fs::File::create(&err).unwrap())
		.spawn()
		.unwrap();
	let started = Instant::now();
	let status = loop {
		if let Some(status) = child.try_wait().unwrap() {
			break status;
		}
		if limit.is_some_and(|l| started.elapsed() > l) {
			let _ = child.kill();
			let _ = child.wait();
			return Some(format!("does not return within {limit:?}"));
		}
		std::thread::sleep(Duration::from_millis(2));
	};
	match (status.code(), status.signal()) {
		(Some(0), _) => None,
		(Some(1), _) => {
			let out = std::fs::read(&out).unwrap_or_default();
			Some(String::from_utf8_lossy(&out).lines().next().unwrap_or("").to_string())
		}
		(_, Some(sig)) if crash_signal(sig) => Some(killed(sig, &err)),
		_ => None,
	}
}

/// Names the signal and what a sanitizer or the runtime reported.
fn killed(sig: i32, err: &Path) -> String {
	let err = std::fs::read(err).unwrap_or_default();
	let err = String::from_utf8_lossy(&err);
	let report = err.lines().find(|l| l.contains("Sanitizer: ")).map(|l| {
		// Without process and addresses.
		let l = l.split("Sanitizer: ").nth(1).unwrap_or(l);
		let l = l.split(" on ").next().unwrap_or(l);
		l.split(" (").next().unwrap_or(l).to_string()
	});
	let report = report.or_else(|| err.lines().find(|l| l.contains("overflow")).map(|l| l.trim().to_string()));
	match report {
		Some(r) => format!("process killed by signal {sig}: {r}"),
		None => format!("process killed by signal {sig}"),
	}
}

/// CPU time a process has used, in clock ticks.
fn cpu_ticks(pid: u32) -> Option<u64> {
	let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
	let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
	Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// What is known about a shard being at the same case for long.
struct Stall {
	journal: Vec<u8>,
	since: Instant,
	ticks: u64,
}

/// A case whose operation doesn't return: a shard got stuck with it, and so does a process of its
/// own, or the shard's process was idle (deadlocked) all the time.
fn hang<P: Property>(exe: &Path, dir: &Path, stall: &Stall, idle: bool) -> Option<(String, Value)> {
	let case: Value = serde_json::from_slice(&stall.journal).ok()?;
	let limit = Duration::from_secs(60);
	let Some(mut message) = isolated(P::ID, exe, dir, &case, Some(limit)) else {
		let m = format!("deadlock: no progress in {:?}, depending on the schedule", stall.since.elapsed());
		return idle.then_some((m, case));
	};
	let mut best = case.clone();
	if let Ok(c) = serde_json::from_value::<P::Case>(case) {
		let deadline = Instant::now() + Duration::from_secs(100);
		let (m, c) = shrink::<P>(message, c, |c| {
			if Instant::now() > deadline {
				return None;
			}
			isolated(P::ID, exe, dir, &serde_json::to_value(c).unwrap(), Some(Duration::from_secs(12)))
		});
		message = m;
		best = serde_json::to_value(&c).unwrap();
	}
	Some((message, best))
}

pub struct RunArgs {
	pub tier: Tier,
	pub seed: u64,
	pub scale: f64,
	pub verif: PathBuf,
	/// Executables running the shards, in turn.
	pub exes: Vec<PathBuf>,
}

pub fn run<P: Property>(a: &RunArgs) -> i32 {
	let started = Instant::now();
	let dir = a.verif.join("work").join(format!("{}-{}", P::ID, std::process::id()));
	let _ = std::fs::remove_dir_all(&dir);
	std::fs::create_dir_all(&dir).unwrap();
	let code = run_in::<P>(a, &dir, started);
	let _ = std::fs::remove_dir_all(&dir);
	code
}

fn run_in<P: Property>(a: &RunArgs, dir: &Path, started: Instant) -> i32 {
	let mut children = vec![];
	for s in 0..SHARDS {
		let exe = &a.exes[s as usize % a.exes.len()];
		let err = std::fs::File::create(dir.join(format!("{s}.err"))).unwrap();
		let child = Command::new(exe)
			.args(["shard", P::ID, &s.to_string()])
			.arg(dir)
			.arg(if a.tier == Tier::Quick { "quick" } else { "thorough" })
			.arg(a.seed.to_string())
			.arg(a.scale.to_string())
			.env("RAYON_NUM_THREADS", "4")
			.stdout(Stdio::null())
			.stderr(err)
			.spawn()
			.unwrap();
		children.push(child);
	}
	let limit = Duration::from_secs(a.tier.pick(700, 6 * 3600));
	// Cases take at most few seconds.
	let stall_limit = Duration::from_secs(a.tier.pick(100, 900));
	let mut status = vec![None; SHARDS as usize];
	let mut stalls: Vec<Option<Stall>> = (0..SHARDS).map(|_| None).collect();
	let mut hung: Option<(String, Value, usize)> = None;
	let mut errors: Vec<String> = vec![];
	let mut polls = 0u32;
	loop {
		let mut open = false;
		for (s, c) in children.iter_mut().enumerate() {
			if status[s].is_none() {
				status[s] = c.try_wait().unwrap();
				open |= status[s].is_none();
			}
		}
		if !open {
			break;
		}
		polls += 1;
		let mut stuck = None;
		if polls % 100 == 0 {
			for (s, c) in children.iter().enumerate() {
				if status[s].is_some() {
					continue;
				}
				let journal = std::fs::read(dir.join(format!("{s}.case"))).unwrap_or_default();
				let ticks = cpu_ticks(c.id()).unwrap_or(0);
				match &stalls[s] {
					Some(st) if st.journal == journal => {
						if st.since.elapsed() > stall_limit {
							let idle = ticks - st.ticks < stall_limit.as_secs();
							stuck.get_or_insert((s, idle));
						}
					}
					_ => stalls[s] = Some(Stall { journal, since: Instant::now(), ticks }),
				}
			}
		}
		if let Some((s, idle)) = stuck {
			for c in &mut children {
				let _ = c.kill();
				let _ = c.wait();
			}
			match hang::<P>(&a.exes[s % a.exes.len()], dir, stalls[s].as_ref().unwrap(), idle) {
				Some((m, case)) => hung = Some((m, case, s)),
				None => errors.push(format!("shard {s} stuck for {stall_limit:?}, which isn't reproducible")),
			}
			break;
		}
		if started.elapsed() > limit {
			for c in &mut children {
				let _ = c.kill();
				let _ = c.wait();
			}
			eprintln!("{}: gave up after {limit:?} without an answer", P::ID);
			return 2;
		}
		std::thread::sleep(Duration::from_millis(20));
	}
	let mut violations: Vec<(u64, Value)> = vec![];
	if let Some((message, case, s)) = hung {
		let v = json!({"property": P::ID, "message": message, "case": case, "seed": a.seed, "shard": s});
		violations.push((0, v));
	}
	let mut crashes = vec![];
	for (s, st) in status.iter().enumerate() {
		// `None` if ended because of another shard being stuck.
		let Some(st) = st else { continue };
		match (st.code(), st.signal()) {
			(Some(0), _) => {}
			(Some(1), _) => match std::fs::read(dir.join(format!("{s}.fail"))) {
				Ok(b) => {
					let v: Value = serde_json::from_slice(&b).unwrap();
					violations.push((b.len() as u64, v));
				}
				Err(e) => errors.push(format!("shard {s}: {e}")),
			},
			(_, Some(sig)) if crash_signal(sig) => {
				let journal = std::fs::read(dir.join(format!("{s}.case"))).unwrap_or_default();
				let exe = &a.exes[s % a.exes.len()];
				match serde_json::from_slice::<Value>(&journal) {
					Ok(case) => {
						let mut message = killed(sig, &dir.join(format!("{s}.err")));
						let mut case = case;
						// One small case will do.
						let c = serde_json::from_value::<P::Case>(case.clone()).ok();
						if let Some(c) = c.filter(|_| crashes.is_empty() || crashes.len() < 3 && started.elapsed().as_secs() < 200) {
							if let Some(m) = isolated(P::ID, exe, dir, &case, None) {
								let left = RefCell::new(300u32);
								let (m, c) = shrink::<P>(m, c, |c| {
									let mut l = left.borrow_mut();
									if *l == 0 {
										return None;
									}
									*l -= 1;
									isolated(P::ID, exe, dir, &serde_json::to_value(c).unwrap(), None)
								});
								message = m;
								case = serde_json::to_value(&c).unwrap();
							} else {
								message += " (only after the preceding cases of the shard)";
							}
						}
						let v = json!({"property": P::ID, "message": message, "case": case,
							"seed": a.seed, "shard": s});
						violations.push(((1 << 32) + v.to_string().len() as u64, v));
						crashes.push(s);
					}
					Err(e) => errors.push(format!("shard {s}: signal {sig}, no journal: {e}")),
				}
			}
			other => {
				let err = std::fs::read_to_string(dir.join(format!("{s}.err"))).unwrap_or_default();
				errors.push(format!("shard {s} ended with {other:?}: {}", err.trim()));
			}
		}
	}
	// Evidence.
	let mut classes: BTreeMap<String, u64> = BTreeMap::new();
	let mut maxima: BTreeMap<String, f64> = BTreeMap::new();
	let mut hashes: HashSet<[u8; 8]> = HashSet::new();
	let (mut evaluations, mut runs, mut nontrivial) = (0, 0, 0);
	let mut samples = vec![];
	let mut timings = Value::Null;
	for s in 0..SHARDS {
		let Ok(b) = std::fs::read(dir.join(format!("{s}.json"))) else { continue };
		let v: Value = serde_json::from_slice(&b).unwrap();
		evaluations += v["evaluations"].as_u64().unwrap();
		runs += v["runs"].as_u64().unwrap();
		nontrivial += v["nontrivial"].as_u64().unwrap();
		for (k, n) in v["classes"].as_object().unwrap() {
			*classes.entry(k.clone()).or_default() += n.as_u64().unwrap();
		}
		for (k, n) in v["maxima"].as_object().unwrap() {
			let x = n.as_f64().unwrap();
			let m = maxima.entry(k.clone()).or_insert(x);
			*m = m.max(x);
		}
		if s < 3 {
			samples.extend(v["samples"].as_array().unwrap().iter().cloned());
		}
		if s == 0 {
			timings = v["timings"].clone();
		}
		for c in std::fs::read(dir.join(format!("{s}.hash"))).unwrap().chunks_exact(8) {
			hashes.insert(c.try_into().unwrap());
		}
	}
	samples.truncate(8);
	let open = known(&a.verif, P::ID);
	let mut known_hits = BTreeMap::new();
	violations.retain(|(_, v)| {
		match open.iter().find(|k| matches_known(k, v)) {
			Some(k) => {
				*known_hits.entry(k["what"].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
				false
			}
			None => true,
		}
	});
	for k in &open {
		println!("KNOWN-FINDING: property={} {}", P::ID, k["what"].as_str().unwrap_or(""));
	}
	let evidence = json!({
		"property": P::ID,
		"tier": a.tier.pick("quick", "thorough"),
		"seed": a.seed,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": hashes.len(),
			"rule": P::rule(),
			"samples": samples,
			"operation_runs": runs,
			"nontrivial_evaluations": nontrivial,
			"classes": classes,
			"maxima": maxima,
			"shards": SHARDS,
			"phases_of_first_shard": timings,
		},
		"assumptions": P::assumptions(),
		"wall_s": started.elapsed().as_secs_f64(),
		"violations": violations.len(),
	});
	let ev = a.verif.join("evidence");
	std::fs::create_dir_all(&ev).unwrap();
	std::fs::write(
		ev.join(format!("{}.json", P::ID)),
		serde_json::to_string_pretty(&evidence).unwrap() + "\n",
	)
	.unwrap();
	violations.sort_by_key(|v| v.0);
	if let Some((_, v)) = violations.first() {
		let replays = a.verif.join("replays");
		std::fs::create_dir_all(&replays).unwrap();
		let path = replays.join(format!("{}-{}.json", P::ID, a.seed));
		std::fs::write(&path, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap();
		println!("{}: {}", P::ID, v["message"].as_str().unwrap_or(""));
		println!("VIOLATION property={} replay={}", P::ID, path.display());
		return 1;
	}
	if !errors.is_empty() {
		for e in errors {
			eprintln!("{}: {e}", P::ID);
		}
		return 2;
	}
	println!(
		"{}: held on {evaluations} cases, {} distinct non-trivial ({runs} runs) in {:.1} s",
		P::ID,
		hashes.len(),
		started.elapsed().as_secs_f64()
	);
	0
}

/// Open known findings of a property.
fn known(verif: &Path, id: &str) -> Vec<Value> {
	let Ok(b) = std::fs::read(verif.join("known_findings.json")) else { return vec![] };
	let v: Value = serde_json::from_slice(&b).expect("known_findings.json");
	v["open"]
		.as_array()
		.map(|a| a.iter().filter(|k| k["property"] == id).cloned().collect())
		.unwrap_or_default()
}
/// A finding is identified by its exact message and the fields of the case it lists.
fn matches_known(k: &Value, v: &Value) -> bool {
	let message = k["message"].as_str().unwrap_or("\0");
	v["message"].as_str() == Some(message)
		&& k["case"].as_object().is_some_and(|o| o.iter().all(|(f, x)| &v["case"][f] == x))
}
