//! C17-C19: numbers of calls, memory, determinism.
use super::common;
use crate::case::{Case, Idx, Op, Pool};
use crate::ctx::{mix, Cmp, Plan};
use crate::data::{Data, Shape, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::{ElemKind, KeyKind};
use crate::exec::{self, budget, Panicked, Resolved, Run};
use crate::gen;
use crate::verify;
use proptest::prelude::*;

fn phase(name: &'static str, cases: u32, strategy: BoxedStrategy<Case>) -> Phase<Case> {
	Phase { name, cases, strategy }
}

/// Normalised case with a valid index where one is needed.
fn prepared(case: &Case) -> Option<(Case, Resolved)> {
	let mut c = exec::normalise(case);
	c.b = u32::MAX;
	let n = c.data.len();
	if c.op == Op::Select {
		if n == 0 {
			return None;
		}
		let mut idx = c.idx.resolve(n);
		idx.truncate(1);
		if idx.is_empty() {
			idx.push(n / 2);
		}
		c.idx = Idx::Explicit(idx);
	}
	let res = exec::resolve(&c).ok()?;
	if c.op == Op::Select && res.idx.first().is_none_or(|&i| i >= res.keys.len()) {
		return None;
	}
	Some((c, res))
}

pub struct C17;
const SORTS: &[Op] = &[
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::ParSortUnstable,
];
const SELECTS: &[Op] = &[Op::Select, Op::Select, Op::SelectMany, Op::ParSelectMany];
const LINEAR: &[Op] = &[Op::IsSorted, Op::Contains, Op::Dedup, Op::BinarySearch, Op::PartitionPoint, Op::Reverse];
const QUICK: &[Op] =
	&[Op::SortUnstable, Op::ParSortUnstable, Op::ParSortUnstable, Op::ParSortCached, Op::Select, Op::Select, Op::SelectMany, Op::ParSelectMany];
const RUNS: &[Shape] = &[Shape::Asc, Shape::Desc, Shape::AllEq];
const COMPARED: &[(u32, ElemKind)] = &[(8, ElemKind::It), (1, ElemKind::Big), (1, ElemKind::B3)];
const IT: &[(u32, ElemKind)] = &[(1, ElemKind::It)];

/// Documented bound on the number of comparisons, with the constants being about twice of what is
/// observed on adversarial inputs. The name is that of the measured ratio.
fn bound(c: &Case, res: &Resolved) -> (&'static str, f64, f64) {
	let n = res.keys.len() as f64;
	let m = res.idx.len() as f64;
	let lg = |x: f64| if x > 1. { x.log2() } else { 0. };
	let adaptive = {
		let r: Vec<i64> = res.keys.iter().map(|&k| verify::rank(c, k)).collect();
		r.windows(2).all(|w| w[0] <= w[1]) || r.windows(2).all(|w| w[0] > w[1])
	};
	match c.op {
		op if op.sorts() && n <= 20. => ("short sort: calls/(n(n-1)/2)", 1., n * (n - 1.) / 2.),
		op if op.sorts() && !op.cached() && adaptive => match op {
			Op::Sort => ("sort (run): calls/n", 1. , n + 16.),
			Op::ParSort => ("par_sort (run): calls/n", 3., n + 16.),
			_ => ("unstable sort (run): calls/n", 4., n + 16.),
		},
		Op::Sort => ("sort: calls/(n log n)", 2., n * lg(n) + 8.),
		Op::ParSort => ("par_sort: calls/(n log n)", 3., n * lg(n) + 8.),
		Op::SortCached => ("sort_cached: calls/(n log n)", 6., n * lg(n) + 16.),
		op if op.sorts() => ("unstable sort: calls/(n log n)", 6., n * lg(n) + 16.),
		Op::Select if n > 131_072. => ("select (long): calls/n", 1000., n + 16.),
		Op::Select => ("select: calls/n", 60., n + 16.),
		Op::SelectMany | Op::ParSelectMany if n > 131_072. => ("bulk select (long): calls/(n log m)", 1000., (n + 16.) * (lg(m) + 1.)),
		Op::SelectMany | Op::ParSelectMany => ("bulk select: calls/(n log m)", 60., (n + 16.) * (lg(m) + 1.)),
		Op::IsSorted | Op::Dedup => ("dedup, is_sorted: calls/(n-1)", 1., (n - 1.).max(0.)),
		Op::Contains => ("contains: calls/n", 1., n),
		Op::BinarySearch | Op::PartitionPoint => ("search: calls/(log n + 2)", 1., lg(n).floor() + 2.),
		_ => ("reverse: calls", 0., 1.),
	}
}
impl Property for C17 {
	type Case = Case;
	const ID: &'static str = "C17";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let g = gen::good_cmp;
		let s = || SHAPES;
		let dup = || prop_oneof![2 => gen::good_cmp(), 1 => (1u32..60).prop_map(Cmp::Coarse), 1 => (2u32..900).prop_map(Cmp::Coarse)].boxed();
		vec![
			phase("sorts", t.pick(4500, 120_000), gen::case(SORTS, COMPARED, gen::pattern(gen::lens(2, 12_000), s()), g())),
			phase("selections", t.pick(4500, 120_000), gen::case(SELECTS, COMPARED, gen::pattern(gen::lens(1, 12_000), s()), g())),
			phase("linear", t.pick(9000, 200_000), gen::case(LINEAR, COMPARED, gen::data(0, 12_000), g())),
			phase("runs", t.pick(2500, 50_000), gen::case(SORTS, COMPARED, gen::pattern(gen::lens(0, 40_000), RUNS), g())),
			phase("killers", t.pick(1100, 30_000), gen::case(QUICK, IT, gen::killer(gen::lens(50, 12_000)), g())),
			phase("long killers", t.pick(60, 2500), gen::case(QUICK, IT, gen::killer(gen::edges(4000, 40_000)), g())),
			phase("longest killers", t.pick(14, 300), gen::case(QUICK, IT, gen::killer((130_900usize..210_000).boxed()), g())),
			phase("killers with duplicates", t.pick(900, 25_000), gen::case(QUICK, IT, gen::killer(gen::lens(50, 6000)), dup())),
			phase("long", t.pick(45, 2000), gen::case(SORTS, IT, gen::pattern(gen::edges(12_000, 140_000), s()), g())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let Some((mut c, mut res)) = prepared(case) else { return Ok(()) };
		if matches!(c.op, Op::BinarySearch) || c.op == Op::IsSorted && c.a % 4 != 0 {
			res.keys.sort_by_key(|&k| c.cmp.rank(k));
		}
		if c.op.cached() {
			// Comparisons of other keys aren't seen.
			c.key = if c.a % 8 == 0 { c.key } else { KeyKind::Kw };
		}
		let n = res.keys.len();
		let seen = !c.op.cached() || c.key == KeyKind::Kw;
		common::classify(&c, &res, info);
		info.nontrivial = n > 1;
		let run = exec::exec(&c, &res.keys, &res.idx, &Plan::new(c.cmp, 40 * budget(n)));
		info.runs += 1;
		verify::clean(&run)?;
		if c.op.cached() && run.keys > n as u64 {
			return Err(format!("key function called {} times with {n} elements", run.keys));
		}
		if c.op == Op::Reverse && run.calls > 0 {
			return Err("calls while reversing".into());
		}
		if !seen {
			return Ok(());
		}
		let comparisons = (run.calls - run.keys) as f64;
		let (name, factor, unit) = bound(&c, &res);
		if unit > 100. || factor == 1. {
			info.max(name, comparisons / unit.max(1.));
		}
		if comparisons > factor * unit {
			return Err(format!(
				"{comparisons} comparisons with {n} elements and {} indices: {name} is {:.2}",
				res.idx.len(),
				comparisons / unit
			));
		}
		if c.flavor == crate::case::Flavor::Key
			&& !c.op.cached()
			&& c.elem == ElemKind::It
			&& run.keys as f64 > 2. * factor * unit
		{
			return Err(format!("{} key calls with {n} elements", run.keys));
		}
		Ok(())
	}
	fn simpler(case: &Case, round: u32) -> Vec<Case> {
		common::simpler(case, round)
	}
	fn rule() -> &'static str {
		"proptest-generated operation x input, with emphasis on patterns and on orders chosen by an adversary \
		(McIlroy) playing against the operation, optionally coarsened to combine it with duplicates; comparisons \
		and key calls are counted and compared with the documented bound at about twice the largest observed \
		constant (see maxima). Non-trivial: at least two elements; distinct by the serialised case."
	}
	fn assumptions() -> Vec<&'static str> {
		vec!["asymptotic bounds are decided by constants, for lengths up to 140 000 (adversarial up to 40 000)"]
	}
	fn cost(c: &Case) -> u64 {
		common::cost(c)
	}
	fn parallel(c: &Case) -> bool {
		c.op.par()
	}
}

pub struct C18;
use super::fault::PAYLOAD;
const MEMORY_ELEMS: &[(u32, ElemKind)] =
	&[(6, ElemKind::It), (3, ElemKind::Big), (2, ElemKind::B3), (2, ElemKind::Bx), (1, ElemKind::Al), (1, ElemKind::Zs)];
const SEQ: &[Op] = &[
	Op::Sort,
	Op::Sort,
	Op::Sort,
	Op::SortCached,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::Contains,
	Op::BinarySearch,
	Op::Dedup,
	Op::Reverse,
];
const PAR: &[Op] = &[Op::ParSort, Op::ParSort, Op::ParSortCached, Op::ParSortUnstable, Op::ParSelectMany];
fn size_of(e: ElemKind) -> i64 {
	use crate::elem::*;
	(match e {
		ElemKind::It => size_of_t::<It>(),
		ElemKind::Tr => size_of_t::<Tr>(),
		ElemKind::Bx => size_of_t::<Bx>(),
		ElemKind::Big => size_of_t::<Big>(),
		ElemKind::B3 => size_of_t::<B3>(),
		ElemKind::Al => size_of_t::<Al>(),
		ElemKind::I32 => size_of_t::<I32>(),
		ElemKind::Zs => size_of_t::<Zs>(),
	}) as i64
}
use std::mem::size_of as size_of_t;
fn size_of_cached(k: KeyKind) -> Option<i64> {
	Some(match k {
		KeyKind::U8 => size_of_t::<(u8, usize)>(),
		KeyKind::U16 => size_of_t::<(u16, usize)>(),
		KeyKind::A3 => size_of_t::<([u8; 3], usize)>(),
		KeyKind::U32 => size_of_t::<(u32, usize)>(),
		KeyKind::U64 => size_of_t::<(i64, usize)>(),
		KeyKind::Kw => size_of_t::<(crate::elem::Kw, usize)>(),
		KeyKind::Str => return None,
	} as i64)
}
fn memory(c: &Case, run: &Run, n: usize, info: &mut Info) -> Result<(), String> {
	let a = run.alloc;
	let size = size_of(c.elem);
	let live = if matches!(run.panic, Some(Panicked::Injected(_))) { PAYLOAD } else { 0 };
	if a.live != live {
		return Err(format!("{} bytes are not released", a.live - live));
	}
	// Raising a panic allocates as well.
	let panicked = live > 0;
	let peak = a.peak - if panicked { 512 } else { 0 };
	let allocates = !panicked && a.count > 0 || peak > 0;
	match c.op {
		Op::Sort if n <= 20 => {
			if allocates {
				return Err(format!("allocates sorting {n} elements"));
			}
		}
		Op::Sort => {
			// The run stack grows by doubling with old and new alive at once.
			let scratch = (n / 2) as i64 * size;
			info.max("sort: bytes beyond scratch", (peak - scratch) as f64);
			if peak > scratch + 4096 {
				return Err(format!("{peak} bytes to sort {n} elements of {size} bytes"));
			}
		}
		Op::SortCached => {
			if let Some(size) = size_of_cached(c.key) {
				if n > 1 {
					info.max("cached sort: bytes per element and pair", peak as f64 / (n as i64 * size) as f64);
				}
				if peak > n.max(4) as i64 * size {
					return Err(format!("{peak} bytes to sort {n} elements with keys cached"));
				}
			}
		}
		_ => {
			if allocates {
				return Err(format!("{} allocations ({} bytes)", a.count, a.total));
			}
		}
	}
	Ok(())
}
impl Property for C18 {
	type Case = Case;
	const ID: &'static str = "C18";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let g = gen::good_cmp;
		let s = || SHAPES;
		vec![
			phase("short", t.pick(14_000, 300_000), gen::case(SEQ, MEMORY_ELEMS, gen::data(0, 300), g())),
			phase("mixed", t.pick(3000, 100_000), gen::case(SEQ, MEMORY_ELEMS, gen::data(0, 12_000), g())),
			phase("killers", t.pick(600, 15_000), gen::case(&[Op::SortUnstable, Op::Select, Op::SelectMany], &[(1, ElemKind::It)], gen::killer(gen::lens(50, 4000)), g())),
			phase("deep stack of runs", t.pick(60, 2000), gen::case(&[Op::Sort], &[(3, ElemKind::It), (1, ElemKind::Bx)], gen::pattern((20_000usize..90_000).boxed(), &[Shape::FibRuns]), g())),
			phase("long", t.pick(60, 2000), gen::case(&[Op::Sort, Op::SortCached, Op::SortUnstable, Op::Select, Op::SelectMany], &[(3, ElemKind::It), (1, ElemKind::Bx)], gen::pattern(gen::edges(12_000, 140_000), s()), g())),
			phase("parallel", t.pick(110, 3000), gen::case(PAR, &[(3, ElemKind::It), (2, ElemKind::Big), (1, ElemKind::Bx)], gen::pattern((2001usize..14_000).boxed(), s()), g())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let Some((mut c, res)) = prepared(case) else { return Ok(()) };
		let n = res.keys.len();
		if c.op == Op::SelectMany {
			c.pre %= 4;
		}
		if !matches!(c.elem, ElemKind::It) {
			c.key = KeyKind::Kw;
		}
		common::classify(&c, &res, info);
		info.nontrivial = n > 1;
		let plan = Plan::new(c.cmp, budget(n));
		if c.op.par() {
			return parallel_memory(&c, &res, info);
		}
		let run = exec::exec(&c, &res.keys, &res.idx, &plan);
		info.runs += 1;
		verify::clean(&run)?;
		memory(&c, &run, n, info)?;
		if run.calls == 0 {
			return Ok(());
		}
		for k in 0..3u64 {
			let at = 1 + mix(case.b as u64 ^ k << 32) % run.calls;
			let r = exec::exec(&c, &res.keys, &res.idx, &Plan { panic_at: Some(at), ..plan });
			info.runs += 1;
			memory(&c, &r, n, info).map_err(|e| format!("callback panics at call {at} of {}: {e}", run.calls))?;
		}
		Ok(())
	}
	fn simpler(case: &Case, round: u32) -> Vec<Case> {
		common::simpler(case, round)
	}
	fn rule() -> &'static str {
		"proptest-generated operation x input x element type run with an allocator counting number, bytes and \
		peak, returning normally and with the callback panicking at three sampled calls; parallel operations, \
		whose thread pools allocate on their own, are repeated and must not lose memory each time. Non-trivial: \
		at least two elements; distinct by the serialised case."
	}
	fn assumptions() -> Vec<&'static str> {
		vec![
			"bookkeeping of the sequential stable sort is taken as at most 4096 bytes",
			"small leaks (below a quarter of the array per run) of parallel operations are not told from allocations of the pool",
		]
	}
	fn cost(c: &Case) -> u64 {
		4 * common::cost(c)
	}
	fn parallel(c: &Case) -> bool {
		c.op.par()
	}
}
/// Leaked scratch memory is proportional to the array whereas rayon's own allocations are not.
fn parallel_memory(c: &Case, res: &Resolved, info: &mut Info) -> Result<(), String> {
	let n = res.keys.len();
	let mut c = c.clone();
	c.pool = Pool::Size(c.a as u8 % 4 + 1);
	if c.op == Op::ParSelectMany {
		c.pre = 0;
	}
	let size = if c.op == Op::ParSortCached { 8 } else { size_of(c.elem) };
	let plan = Plan::new(c.cmp, budget(n));
	let warm = exec::exec(&c, &res.keys, &res.idx, &plan);
	info.runs += 1;
	verify::clean(&warm)?;
	let bytes = n as i64 * size;
	let collected = match c.op {
		Op::ParSelectMany => 64 * res.idx.len() as i64 + 4096,
		_ => 0,
	};
	for k in 0..6u64 {
		let panics = k >= 3 && warm.calls > 0;
		let p = Plan { panic_at: panics.then(|| 1 + mix(c.a as u64 ^ k << 32) % warm.calls), ..plan };
		let run = exec::exec(&c, &res.keys, &res.idx, &p);
		info.runs += 1;
		// Stolen jobs and thread-local queues: small and independent of the array.
		if run.alloc.live > collected + (bytes / 4).max(16_000) {
			// Twice, as queues of the pool may grow once.
			let again = exec::exec(&c, &res.keys, &res.idx, &p);
			info.runs += 1;
			if again.alloc.live > collected + (bytes / 4).max(16_000) {
				return Err(format!(
					"{} of {bytes} bytes are not released{}",
					again.alloc.live,
					if panics { " after a panic" } else { "" }
				));
			}
		}
	}
	Ok(())
}

pub struct C19;
const DET_SEQ: &[Op] =
	&[Op::Sort, Op::SortCached, Op::SortUnstable, Op::SortUnstable, Op::Select, Op::Select, Op::SelectMany, Op::Dedup, Op::BinarySearch];
const DET_PAR: &[Op] =
	&[Op::ParSort, Op::ParSortCached, Op::ParSortUnstable, Op::ParSortUnstable, Op::ParSelectMany, Op::ParSelectMany];

fn digest(run: &Run, trace: bool) -> u64 {
	let mut h = run.after.len() as u64;
	let mut add = |x: u64| h = mix(h ^ x);
	for c in &run.after {
		add((c.id as u64) << 32 ^ c.key as u32 as u64);
	}
	for b in format!("{:?}{}{:?}", run.out, run.panic.is_some(), run.bad).bytes() {
		add(b as u64);
	}
	if trace {
		add(run.calls);
		add(run.keys);
		add(run.trace);
	}
	h
}
fn traced(c: &Case, res: &Resolved) -> Run {
	let plan = Plan { trace: !c.op.par(), ..Plan::new(c.cmp, budget(res.keys.len())).perturbed(c) };
	exec::exec(c, &res.keys, &res.idx, &plan)
}

/// Another process of this program answering digests.
struct Helper {
	stdin: std::process::ChildStdin,
	stdout: std::io::BufReader<std::process::ChildStdout>,
}
static HELPER: std::sync::Mutex<Option<Helper>> = std::sync::Mutex::new(None);
fn elsewhere(c: &Case, res: &Resolved) -> Option<u64> {
	use std::io::{BufRead, Write};
	let mut h = HELPER.lock().ok()?;
	if h.is_none() {
		let mut child = std::process::Command::new(std::env::current_exe().ok()?)
			.arg("digests")
			.env("RAYON_NUM_THREADS", "3")
			.env("HOME", "/")
			.stdin(std::process::Stdio::piped())
			.stdout(std::process::Stdio::piped())
			.spawn()
			.ok()?;
		*h = Some(Helper {
			stdin: child.stdin.take()?,
			stdout: std::io::BufReader::new(child.stdout.take()?),
		});
	}
	let p = h.as_mut()?;
	let mut c = c.clone();
	c.data = Data::Explicit(res.keys.clone());
	c.idx = Idx::Explicit(res.idx.clone());
	let mut line = serde_json::to_string(&c).ok()?;
	line.push('\n');
	let mut answer = String::new();
	if p.stdin.write_all(line.as_bytes()).and_then(|_| p.stdin.flush()).is_err()
		|| p.stdout.read_line(&mut answer).is_err()
	{
		*h = None;
		return None;
	}
	match answer.trim().parse() {
		Ok(x) => Some(x),
		Err(_) => {
			*h = None;
			None
		}
	}
}
/// The helper's main loop.
pub fn digests() -> i32 {
	// Different heap addresses than in the parent.
	let _pad: Vec<Vec<u8>> = (0..999).map(|i| vec![0; i * 7 % 1301]).collect();
	for line in std::io::stdin().lines() {
		let Ok(line) = line else { break };
		let Ok(c) = serde_json::from_str::<Case>(&line) else { return 2 };
		let (Data::Explicit(keys), Idx::Explicit(idx)) = (&c.data, &c.idx) else { return 2 };
		let res = Resolved { keys: keys.clone(), idx: idx.clone() };
		println!("{}", digest(&traced(&c, &res), !c.op.par()));
	}
	0
}

impl Property for C19 {
	type Case = Case;
	const ID: &'static str = "C19";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let dup = || prop_oneof![1 => gen::good_cmp(), 1 => gen::param().prop_map(Cmp::Coarse), 1 => (2u32..9).prop_map(Cmp::Mod)].boxed();
		let e: &[(u32, ElemKind)] = &[(8, ElemKind::It), (1, ElemKind::Bx), (1, ElemKind::Big), (1, ElemKind::B3)];
		let s = || SHAPES;
		vec![
			phase("sequential", t.pick(6000, 150_000), gen::case(DET_SEQ, e, gen::data(2, 3000), dup())),
			phase("ill-behaved", t.pick(2500, 60_000), gen::case(DET_SEQ, e, gen::data(2, 800), bad_det())),
			phase("killers", t.pick(300, 10_000), gen::case(DET_SEQ, e, gen::killer(gen::lens(50, 1500)), dup())),
			phase("parallel", t.pick(420, 12_000), gen::case(DET_PAR, e, gen::pattern((2001usize..14_000).boxed(), s()), dup())),
			phase("parallel short", t.pick(900, 20_000), gen::case(DET_PAR, e, gen::data(2, 2000), dup())),
			phase("parallel killers", t.pick(60, 2000), gen::case(&[Op::ParSortUnstable, Op::ParSelectMany], e, gen::killer(gen::lens(2001, 9000)), dup())),
			phase("parallel long", t.pick(16, 600), gen::case(DET_PAR, &[(1, ElemKind::It)], gen::pattern(gen::edges(14_000, 100_000), s()), dup())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let Some((mut c, res)) = prepared(case) else { return Ok(()) };
		if c.elem == ElemKind::Zs || c.elem == ElemKind::I32 {
			c.elem = ElemKind::It;
		}
		common::classify(&c, &res, info);
		let n = res.keys.len();
		info.nontrivial = n > 1;
		let par = c.op.par();
		let first = traced(&c, &res);
		info.runs += 1;
		if c.cmp.well_behaved() {
			verify::clean(&first)?;
		} else if let Some(Panicked::Exhausted(_)) = first.panic {
			return Ok(());
		}
		let want = digest(&first, !par);
		let same = |what: &str, c: &Case, info: &mut Info| {
			info.runs += 1;
			let run = traced(c, &res);
			if digest(&run, !par) == want {
				return Ok(());
			}
			let at = run.after.iter().zip(&first.after).position(|(a, b)| a.id != b.id);
			Err(match at {
				Some(i) => format!(
					"{what}: element {} instead of {} at position {i}",
					run.after[i].id, first.after[i].id
				),
				None => format!(
					"{what}: {:?} after {} calls instead of {:?} after {} calls",
					run.out, run.calls, first.out, first.calls
				),
			})
		};
		same("repeated", &c, info)?;
		if par {
			for p in [Pool::Size(1), Pool::Size(2), Pool::Size(5), Pool::InJoin(3), Pool::InScope(2), Pool::Global] {
				let mut d = c.clone();
				d.pool = p;
				same(&format!("in {p:?} instead of {:?}", c.pool), &d, info)?;
			}
		}
		// Crossing the pipe takes longer than most cases.
		if c.a % 8 == 0 || par && c.a % 4 == 1 {
			info.runs += 1;
			info.class("compared across processes");
			match elsewhere(&c, &res) {
				Some(d) if d == want => {}
				Some(_) => return Err("another result in another process".into()),
				None => panic!("harness: no answer from the helper process"),
			}
		}
		Ok(())
	}
	fn simpler(case: &Case, round: u32) -> Vec<Case> {
		common::simpler(case, round)
	}
	fn rule() -> &'static str {
		"proptest-generated operation x input with many ties x element type x layout, repeated in the same process \
		and partly in another one: element identities at each position, results and, for sequential operations, \
		numbers and arguments of comparisons have to be the same; parallel operations are repeated in six other \
		pools or surroundings. Non-trivial: at least two elements; distinct by the serialised case."
	}
	fn assumptions() -> Vec<&'static str> {
		vec!["thread schedules are those the rayon pools happen to produce"]
	}
	fn cost(c: &Case) -> u64 {
		(if c.op.par() { 16 } else { 2 }) * common::cost(c)
	}
	fn parallel(c: &Case) -> bool {
		c.op.par()
	}
}
/// Ill-behaved comparisons which are deterministic by pair or number of calls.
fn bad_det() -> BoxedStrategy<Cmp> {
	gen::bad_cmp()
}
