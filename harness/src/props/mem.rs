//! C22 and C23, run by harnesses built with sanitizers.
use super::common;
use crate::case::{Case, Op, Pool};
use crate::ctx::{mix, Cmp, Plan};
use crate::data::{Shape, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::ElemKind;
use crate::exec::{self, budget, Out, Panicked};
use crate::gen;
use crate::verify;
use proptest::prelude::*;

fn phase(name: &'static str, cases: u32, strategy: BoxedStrategy<Case>) -> Phase<Case> {
	Phase { name, strategy, cases }
}
fn any_cmp() -> BoxedStrategy<Cmp> {
	prop_oneof![1 => gen::good_cmp(), 1 => gen::bad_cmp()].boxed()
}

/// Runs the case, possibly with the callback panicking or with invalid indices.
fn run(case: &Case, par: bool, info: &mut Info) -> Result<(), String> {
	let c = exec::normalise(case);
	let Ok(mut res) = exec::resolve(&c) else { return Ok(()) };
	let n = res.keys.len();
	let h = mix(c.a as u64 ^ (c.b as u64) << 32);
	let mut valid = true;
	if c.op.selects() && h % 16 == 0 {
		// Beyond the end, twice, or not increasing.
		let wrong = [n, n + 1, usize::MAX, h as usize >> 8][(h >> 8) as usize % 4];
		let at = (h >> 16) as usize % (res.idx.len() + 1);
		res.idx.insert(at, wrong);
	}
	if c.op == Op::Select {
		res.idx.truncate(1);
		if res.idx.is_empty() {
			res.idx.push(0);
		}
	}
	if c.op.selects() {
		valid = res.idx.windows(2).all(|w| w[0] < w[1]) && res.idx.iter().all(|&i| i < n);
	}
	let good = c.cmp.well_behaved();
	let mut plan = Plan::new(c.cmp, if good { budget(n) } else { 4 * budget(n) + 8 * (n as u64).pow(2) });
	// Elements have to be `Sync` for the parallel sort by cached key only.
	plan.touch = h >> 20 & 1 == 0 && c.op != Op::ParSortCached;
	if par {
		plan.jitter = if h >> 22 & 3 == 0 { 0 } else { 1 + (h >> 24) as u32 % 1000 };
	}
	let panics = h >> 34 & 3 == 0;
	if panics {
		// At any scale.
		plan.panic_at = Some(1 + mix(h) % (1u64 << (1 + (h >> 36) % 17)));
		plan.sticky = h >> 54 & 3 == 0;
	}
	let run = exec::exec(&c, &res.keys, &res.idx, &plan);
	info.runs += 1;
	common::classify(&c, &res, info);
	info.class(if cfg!(debug_assertions) { "with debug assertions" } else { "without debug assertions" });
	info.class(if good { "total preorder" } else { "ill-behaved" });
	info.when(!valid, "invalid indices");
	info.when(matches!(run.panic, Some(Panicked::Injected(_))), "callback panicked");
	info.when(plan.touch, "mutating callback");
	info.when(plan.jitter > 0, "delayed callbacks");
	info.nontrivial = n > 1;
	match &run.panic {
		Some(Panicked::Exhausted(k)) => return Err(format!("does not terminate: more than {k} callback calls")),
		None if good && valid => verify::verify(&c, &res, &run)?,
		Some(Panicked::Other(e)) if good && valid => return Err(format!("panicked: {e}")),
		_ => {}
	}
	verify::permutation(&res.keys, &run)?;
	verify::keys_kept(&res.keys, &run)?;
	verify::sound(&run)?;
	match run.out {
		Out::Search(Ok(i)) if i >= n => Err(format!("found at {i} of {n}")),
		Out::Search(Err(i)) | Out::Point(i) if i > n => Err(format!("position {i} of {n}")),
		_ => Ok(()),
	}
}

const PAR: &[Op] = &[
	Op::ParSort,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::ParSortUnstable,
	Op::ParSelectMany,
	Op::ParSelectMany,
];
const ELEMS: &[(u32, ElemKind)] =
	&[(6, ElemKind::It), (4, ElemKind::Tr), (2, ElemKind::Bx), (1, ElemKind::Big), (1, ElemKind::B3), (2, ElemKind::I32)];

pub struct C22;
impl Property for C22 {
	type Case = Case;
	const ID: &'static str = "C22";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		// At least two threads.
		let many = |s: BoxedStrategy<Case>| {
			s.prop_map(|mut c| {
				c.pool = match c.pool {
					Pool::Size(n) => Pool::Size(n.max(2)),
					Pool::InJoin(n) => Pool::InJoin(n.max(2)),
					Pool::InScope(n) => Pool::InScope(n.max(2)),
					p => p,
				};
				c
			})
			.boxed()
		};
		let len = || prop_oneof![2 => 2001usize..6000, 2 => 2001usize..14_000, 1 => gen::edges(2001, 14_000)].boxed();
		vec![
			phase("sorts", t.pick(500, 20_000), many(gen::case(&[Op::ParSort, Op::ParSortUnstable, Op::ParSortCached], ELEMS, gen::pattern(len(), SHAPES), any_cmp()))),
			phase("chunks", t.pick(250, 10_000), many(gen::case(&[Op::ParSort], ELEMS, gen::pattern(len(), &[Shape::Chunked, Shape::Runs, Shape::FibRuns, Shape::Gallop]), gen::good_cmp()))),
			phase("selections", t.pick(700, 25_000), many(gen::case(&[Op::ParSelectMany], ELEMS, gen::pattern(len(), SHAPES), gen::good_cmp()))),
			phase("ill-behaved selections", t.pick(30, 1000), many(gen::case(&[Op::ParSelectMany], ELEMS, gen::pattern((600usize..2600).boxed(), SHAPES), gen::bad_cmp()))),
			phase("short", t.pick(900, 30_000), many(gen::case(PAR, ELEMS, gen::data(2, 2000), any_cmp()))),
			phase("killers", t.pick(80, 4000), many(gen::case(&[Op::ParSortUnstable, Op::ParSelectMany], ELEMS, gen::killer((2001usize..5000).boxed()), gen::good_cmp()))),
			phase("long", t.pick(20, 1000), many(gen::case(PAR, &[(1, ElemKind::It)], gen::pattern(gen::edges(14_000, 70_000), SHAPES), gen::good_cmp()))),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		run(case, true, info)
	}
	fn simpler(case: &Case, round: u32) -> Vec<Case> {
		common::simpler(case, round)
	}
	fn rule() -> &'static str {
		"proptest-generated parallel operation x input x element type x comparison (total preorder or \
		ill-behaved) x pool of at least two threads (also inside busy joins and scopes), partly with the \
		callback panicking, mutating elements, or delaying its thread (yielding, spinning, sleeping) at \
		generated calls, run by a harness built with ThreadSanitizer (standard library included), which \
		reports any two accesses not ordered by synchronisation in the observed run; a case not returning is \
		a deadlock. Non-trivial: at least two elements; distinct by the serialised case."
	}
	fn assumptions() -> Vec<&'static str> {
		vec![
			"of the possible interleavings those are explored which the scheduler produces with the generated delays; races are found wherever a run has no happens-before order, not only where accesses coincide",
			"compare-exchange based synchronisation within rayon and crossbeam is modelled correctly by ThreadSanitizer",
		]
	}
	fn cost(c: &Case) -> u64 {
		10 * common::cost(c)
	}
	fn parallel(_: &Case) -> bool {
		true
	}
}

const ALL: &[Op] = &[
	Op::Sort,
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::SelectMany,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::Contains,
	Op::BinarySearch,
	Op::Dedup,
	Op::Reverse,
];
pub struct C23;
impl Property for C23 {
	type Case = Case;
	const ID: &'static str = "C23";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let e = gen::ALL_ELEMS;
		vec![
			phase("short", t.pick(36_000, 1_000_000), gen::case(ALL, e, gen::data(0, 130), any_cmp())),
			phase("mixed", t.pick(12_000, 400_000), gen::case(ALL, e, gen::data(0, 2500), any_cmp())),
			phase("blocks", t.pick(5000, 150_000), gen::case(&[Op::SortUnstable, Op::Select, Op::SelectMany, Op::Sort], e, gen::pattern((128usize..1100).boxed(), SHAPES), any_cmp())),
			phase("killers", t.pick(800, 20_000), gen::case(&[Op::SortUnstable, Op::Select, Op::SelectMany], e, gen::killer(gen::lens(11, 1000)), gen::good_cmp())),
			phase("parallel", t.pick(1200, 30_000), gen::case(PAR, e, gen::pattern(gen::lens(100, 12_000), SHAPES), any_cmp())),
			phase("long", t.pick(80, 3000), gen::case(ALL, &[(2, ElemKind::It), (1, ElemKind::Bx)], gen::pattern(gen::edges(3000, 100_000), SHAPES), gen::good_cmp())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let mut c = case.clone();
		// Quadratic time.
		if !c.cmp.well_behaved() && c.data.len() > 3000 {
			c.cmp = Cmp::Nat;
		}
		run(&c, c.op.par(), info)
	}
	fn simpler(case: &Case, round: u32) -> Vec<Case> {
		common::simpler(case, round)
	}
	fn rule() -> &'static str {
		"proptest-generated operation x input x element type x layout x comparison (total preorder or \
		ill-behaved), partly with invalid indices or the callback panicking or mutating elements, run by \
		harnesses built without debug assertions and with AddressSanitizer or MemorySanitizer (including the \
		standard library), which end at any access out of bounds, to released memory, or depending on \
		uninitialised memory. Non-trivial: at least two elements; distinct by the serialised case."
	}
	fn cost(c: &Case) -> u64 {
		5 * common::cost(c)
	}
	fn parallel(c: &Case) -> bool {
		c.op.par()
	}
}
