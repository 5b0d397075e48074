//! C08 and C14-C16: invalid indices, panicking callbacks, ill-behaved comparisons, element types.
use super::common;
use crate::case::{Case, Idx, Op};
use crate::ctx::{mix, Plan};
use crate::data::SHAPES;
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::{self, ElemKind};
use crate::exec::{self, budget, Out, Panicked};
use crate::gen;
use crate::verify;
use proptest::prelude::*;

macro_rules! shared {
	() => {
		fn simpler(case: &Case, round: u32) -> Vec<Case> {
			common::simpler(case, round)
		}
		fn cost(c: &Case) -> u64 {
			Self::FACTOR * common::cost(c)
		}
		fn parallel(c: &Case) -> bool {
			c.op.par()
		}
	};
}

pub struct C08;
impl C08 {
	const FACTOR: u64 = 1;
}

/// Breaks a valid index array in one of several ways.
fn spoil(idx: &mut Vec<usize>, n: usize, how: u32, at: u32) -> &'static str {
	const BEYOND: [usize; 8] =
		[0, 1, 2, 1000, u32::MAX as usize, isize::MAX as usize, usize::MAX / 2 + 1, usize::MAX];
	let beyond = |k: u32| n.saturating_add(BEYOND[k as usize % 8]);
	let m = idx.len();
	let pos = |m: usize| (at as usize) % m.max(1);
	match how % 12 {
		0 => "as is",
		1 | 2 => {
			idx.push(beyond(at));
			"beyond at the end"
		}
		3 => {
			let p = pos(m + 1);
			idx.insert(p, beyond(at >> 8));
			"beyond anywhere"
		}
		4 | 5 if m > 0 => {
			let p = pos(m);
			idx.insert(p, idx[p]);
			"adjacent duplicate"
		}
		6 if m > 1 => {
			let p = pos(m);
			let q = (at as usize / 7) % m;
			idx[p] = idx[q];
			"duplicate"
		}
		7 | 8 if m > 1 => {
			let p = pos(m - 1);
			idx.swap(p, p + 1);
			"adjacent swap"
		}
		9 if m > 1 => {
			let p = pos(m);
			let q = (at as usize / 7) % m;
			idx.swap(p, q);
			"swap"
		}
		10 if m > 1 => {
			idx.reverse();
			"reversed"
		}
		11 if m > 0 => {
			let p = pos(m);
			idx[p] = beyond(at >> 8);
			"replaced beyond"
		}
		_ => {
			idx.push(beyond(at));
			"beyond at the end"
		}
	}
}

impl Property for C08 {
	type Case = Case;
	const ID: &'static str = "C08";
	const QUICK: f64 = 1.5;
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		const OPS: &[Op] = &[Op::Select, Op::SelectMany, Op::SelectMany, Op::ParSelectMany, Op::ParSelectMany];
		const ELEMS: &[(u32, ElemKind)] = &[
			(6, ElemKind::It),
			(3, ElemKind::Tr),
			(2, ElemKind::Bx),
			(1, ElemKind::Big),
			(1, ElemKind::B3),
			(4, ElemKind::Zs),
		];
		let spoiled = |s: BoxedStrategy<Case>| {
			s.prop_map(|mut c| {
				let n = c.data.len();
				let mut idx = c.idx.resolve(n);
				if c.op == Op::Select {
					idx.truncate(1);
					if idx.is_empty() || c.a % 3 != 0 {
						idx.clear();
						spoil(&mut idx, n, 1, c.b);
					}
				} else {
					spoil(&mut idx, n, c.a, c.b);
				}
				c.idx = Idx::Explicit(idx);
				c
			})
			.boxed()
		};
		let cmp = gen::good_cmp;
		vec![
			Phase {
				name: "short",
				cases: t.pick(30000, 600_000),
				strategy: spoiled(gen::case_idx(OPS, ELEMS, gen::data(0, 60), cmp(), gen::idx())),
			},
			Phase {
				name: "mixed",
				cases: t.pick(9000, 200_000),
				strategy: spoiled(gen::case_idx(OPS, ELEMS, gen::data(0, 2500), cmp(), gen::idx())),
			},
			Phase {
				name: "parallel",
				cases: t.pick(1500, 40_000),
				strategy: spoiled(gen::case_idx(
					&[Op::ParSelectMany],
					ELEMS,
					gen::pattern((2001usize..9000).boxed(), SHAPES),
					cmp(),
					gen::idx(),
				)),
			},
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let c = exec::normalise(case);
		let mut res = exec::resolve(&c)?;
		let n = res.keys.len();
		if c.op == Op::Select {
			res.idx.truncate(1);
			if res.idx.is_empty() {
				return Ok(());
			}
		}
		let valid = res.idx.windows(2).all(|w| w[0] < w[1]) && res.idx.iter().all(|&i| i < n);
		let run = exec::exec(&c, &res.keys, &res.idx, &Plan::new(c.cmp, budget(n)));
		info.runs += 1;
		common::classify(&c, &res, info);
		info.class(if valid { "valid" } else { "invalid" });
		info.when(n == 0, "empty");
		info.class(if cfg!(debug_assertions) { "debug build" } else { "release build" });
		info.nontrivial = !valid || !res.idx.is_empty();
		if valid {
			return verify::verify(&c, &res, &run);
		}
		match &run.panic {
			Some(Panicked::Other(_)) => {}
			Some(p) => return Err(format!("{p:?} instead of the documented panic")),
			None => return Err(format!("invalid indices accepted: {:?} of {n}", Short(&res.idx))),
		}
		verify::permutation(&res.keys, &run)?;
		verify::keys_kept(&res.keys, &run)?;
		verify::sound(&run)
	}
	fn rule() -> &'static str {
		"proptest-generated selection (single, bulk, parallel bulk) with a valid index array which is then \
		left alone or spoiled (beyond the length including values that wrap around, duplicate, swapped, \
		reversed, at any position); every other shard runs the release build without debug assertions. \
		Non-trivial: the indices are invalid, or valid and not empty; distinct by the serialised case."
	}
	shared!();
}

struct Short<'a>(&'a [usize]);
impl std::fmt::Debug for Short<'_> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		if self.0.len() <= 12 {
			self.0.fmt(f)
		} else {
			write!(f, "{} indices", self.0.len())
		}
	}
}

const CALLBACK_OPS: &[Op] = &[
	Op::Sort,
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::ParSort,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::ParSelectMany,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::Contains,
	Op::BinarySearch,
	Op::Dedup,
];
const SEQ_OPS: &[Op] = &[
	Op::Sort,
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::Select,
	Op::Select,
	Op::SelectMany,
	Op::Dedup,
];
const PAR_OPS: &[Op] =
	&[Op::ParSort, Op::ParSort, Op::ParSort, Op::ParSortCached, Op::ParSortUnstable, Op::ParSelectMany];

pub struct C14;
impl C14 {
	const FACTOR: u64 = 30;
}
const DROPPING: &[(u32, ElemKind)] = &[(3, ElemKind::Tr), (3, ElemKind::Bx), (2, ElemKind::It), (1, ElemKind::Big)];

fn needs_index(mut c: Case) -> Option<(Case, exec::Resolved)> {
	c = exec::normalise(&c);
	c.b = u32::MAX;
	let mut res = exec::resolve(&c).ok()?;
	if c.op == Op::Select {
		res.idx.truncate(1);
		if res.keys.is_empty() {
			return None;
		}
		if res.idx.is_empty() {
			res.idx.push(0);
		}
	}
	Some((c, res))
}

impl Property for C14 {
	type Case = Case;
	const ID: &'static str = "C14";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let cmp = gen::good_cmp;
		let p = |name, cases, strategy| Phase { name, cases, strategy };
		vec![
			p("every call", t.pick(2500, 60_000), gen::case(CALLBACK_OPS, DROPPING, gen::data(2, 24), cmp())),
			p("short", t.pick(2200, 50_000), gen::case(SEQ_OPS, DROPPING, gen::data(2, 130), cmp())),
			p("mixed", t.pick(700, 20_000), gen::case(SEQ_OPS, DROPPING, gen::data(21, 1500), cmp())),
			p("killer", t.pick(120, 3000), gen::case(SEQ_OPS, DROPPING, gen::killer(gen::lens(21, 500)), cmp())),
			p("parallel short", t.pick(350, 10_000), gen::case(PAR_OPS, DROPPING, gen::data(2, 700), cmp())),
			p("parallel", t.pick(90, 3000), gen::case(PAR_OPS, DROPPING, gen::pattern((2001usize..13_000).boxed(), SHAPES), cmp())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let Some((c, res)) = needs_index(case.clone()) else { return Ok(()) };
		let n = res.keys.len();
		common::classify(&c, &res, info);
		let plan = Plan::new(c.cmp, budget(n)).perturbed(&c);
		let base = exec::exec(&c, &res.keys, &res.idx, &plan);
		info.runs += 1;
		verify::clean(&base)?;
		let calls = base.calls;
		info.nontrivial = calls > 0;
		if calls == 0 {
			return Ok(());
		}
		let every = calls <= 64;
		let at: Vec<u64> = if every {
			(1..=calls).collect()
		} else {
			let k = if n > 2000 { 8 } else { 28 };
			let mut v: Vec<u64> = (0..k).map(|i| 1 + mix(case.a as u64 ^ i << 32) % calls).collect();
			v.extend([1, 2, calls - 1, calls]);
			v
		};
		info.when(every, "panic at every call");
		info.when(case.pre & 1 == 1, "later calls panic as well");
		for at in at {
			let touch = case.pre & 2 == 2;
			let plan = Plan { panic_at: Some(at), sticky: case.pre & 1 == 1, touch, ..plan };
			let run = exec::exec(&c, &res.keys, &res.idx, &plan);
			info.runs += 1;
			let injected = crate::ctx::INJECTED.load(std::sync::atomic::Ordering::Relaxed);
			let ctx = |e: String| format!("callback panics at call {at} of {calls}: {e}");
			match &run.panic {
				Some(Panicked::Injected(_)) => {}
				Some(p) => return Err(ctx(format!("{p:?} reaches the caller instead"))),
				None if injected > 0 => return Err(ctx("panic does not reach the caller".into())),
				None if c.op.par() => {}
				None => return Err(ctx("call not repeated".into())),
			}
			verify::permutation(&res.keys, &run).map_err(ctx)?;
			verify::keys_kept(&res.keys, &run).map_err(ctx)?;
			verify::sound(&run).map_err(ctx)?;
			if touch {
				touches(&c, &run, info).map_err(ctx)?;
			}
			if run.keys_live != 0 {
				return Err(ctx(format!("{} keys leaked", run.keys_live)));
			}
			if !c.op.par() && run.panic.is_some() && run.alloc.live != PAYLOAD {
				return Err(ctx(format!("{} bytes leaked", run.alloc.live - PAYLOAD)));
			}
		}
		Ok(())
	}
	fn rule() -> &'static str {
		"proptest-generated operation x input x element type (drop-counting, boxed, large); it is run once to \
		count its callback calls (comparisons, key functions, the element's ordering), then once per call \
		position with the callback panicking there: all positions if at most 64, otherwise 12-32 sampled ones; \
		in a quarter of the cases all later calls panic as well. Non-trivial: at least one call position; \
		distinct by the serialised case; operation_runs counts the executions."
	}
	shared!();
}
/// The payload of the injected panic is still alive when allocations are accounted.
pub const PAYLOAD: i64 = 8;

pub struct C15;
impl C15 {
	const FACTOR: u64 = 2;
}
impl Property for C15 {
	type Case = Case;
	const ID: &'static str = "C15";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let p = |name, cases, strategy| Phase { name, cases, strategy };
		let e = gen::ALL_ELEMS;
		vec![
			p("short", t.pick(26000, 500_000), gen::case(CALLBACK_OPS, e, gen::data(0, 130), gen::bad_cmp())),
			p("mixed", t.pick(7000, 150_000), gen::case(SEQ_OPS, e, gen::data(0, 2500), gen::bad_cmp())),
			p("blocks", t.pick(5000, 120_000), gen::case(&[Op::SortUnstable, Op::Select, Op::SelectMany, Op::Sort], e, gen::pattern((200usize..1100).boxed(), SHAPES), gen::bad_cmp())),
			p("parallel", t.pick(700, 15_000), gen::case(PAR_OPS, e, gen::pattern((300usize..9000).boxed(), SHAPES), gen::bad_cmp())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let Some((c, res)) = needs_index(case.clone()) else { return Ok(()) };
		let n = res.keys.len();
		common::classify(&c, &res, info);
		info.class(format!("cmp {}", format!("{:?}", c.cmp).split('(').next().unwrap()));
		// Quadratic bound.
		let plan = Plan::new(c.cmp, 4 * budget(n) + 8 * (n as u64).pow(2));
		let run = exec::exec(&c, &res.keys, &res.idx, &plan);
		info.runs += 1;
		info.nontrivial = n > 1;
		info.when(run.panic.is_some(), "panicked");
		match &run.panic {
			Some(Panicked::Exhausted(k)) => {
				return Err(format!("does not terminate: more than {k} callback calls"))
			}
			Some(Panicked::Injected(_)) => return Err("unexpected payload".into()),
			_ => {}
		}
		verify::permutation(&res.keys, &run)?;
		verify::keys_kept(&res.keys, &run)?;
		verify::sound(&run)?;
		match run.out {
			Out::Search(Ok(i)) if i >= n => Err(format!("found at {i} of {n}")),
			Out::Search(Err(i)) | Out::Point(i) if i > n => Err(format!("position {i} of {n}")),
			_ => Ok(()),
		}
	}
	fn rule() -> &'static str {
		"proptest-generated operation x input x comparison that is no total preorder (constant, random per \
		call, random per pair, intransitive, flipping, noisy, incomparable keys). The operation has to end \
		within a quadratic number of callback calls, returning or panicking, leaving a permutation, with \
		results referring to the array. Non-trivial: at least two elements; distinct by the serialised case."
	}
	shared!();
}

/// Mutations made by callbacks through shared references are all retained.
fn touches(c: &Case, run: &exec::Run, info: &mut Info) -> Result<(), String> {
	if !matches!(c.elem, ElemKind::Tr | ElemKind::Bx) {
		return Ok(());
	}
	let mut any = false;
	for (i, e) in run.after.iter().enumerate() {
		let want = elem::touched(e.id);
		any |= want > 0;
		if e.touches != want {
			return Err(format!(
				"element {} at position {i} retains {} of {want} mutations by the callback",
				e.id, e.touches
			));
		}
	}
	info.when(any, "mutated by callbacks");
	Ok(())
}

pub struct C16;
impl C16 {
	const FACTOR: u64 = 1;
}
const C16_OPS: &[Op] = &[
	Op::Sort,
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::ParSort,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::Select,
	Op::Select,
	Op::SelectMany,
	Op::ParSelectMany,
	Op::Dedup,
	Op::Reverse,
];
const C16_ELEMS: &[(u32, ElemKind)] = &[
	(4, ElemKind::Tr),
	(4, ElemKind::Bx),
	(2, ElemKind::Big),
	(2, ElemKind::B3),
	(2, ElemKind::Al),
	(2, ElemKind::Zs),
];
impl Property for C16 {
	type Case = Case;
	const ID: &'static str = "C16";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let cmp = || prop_oneof![4 => gen::good_cmp(), 1 => gen::bad_cmp()].boxed();
		let p = |name, cases, strategy| Phase { name, cases, strategy };
		const MUTATION: &[(u32, ElemKind)] = &[(1, ElemKind::Tr), (1, ElemKind::Bx)];
		vec![
			p("short", t.pick(11000, 200_000), gen::case(C16_OPS, C16_ELEMS, gen::data(0, 130), cmp())),
			p("mixed", t.pick(4500, 100_000), gen::case(C16_OPS, C16_ELEMS, gen::data(0, 2500), cmp())),
			p("killer", t.pick(500, 10_000), gen::case(&[Op::SortUnstable, Op::Select, Op::SelectMany, Op::ParSortUnstable, Op::ParSelectMany], MUTATION, gen::killer(gen::lens(11, 1500)), gen::good_cmp())),
			p("parallel", t.pick(450, 12_000), gen::case(PAR_OPS, C16_ELEMS, gen::pattern((2001usize..13_000).boxed(), SHAPES), cmp())),
			p("long", t.pick(40, 1500), gen::case(C16_OPS, MUTATION, gen::pattern(gen::edges(3000, 70_000), SHAPES), gen::good_cmp())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let Some((c, res)) = needs_index(case.clone()) else { return Ok(()) };
		let n = res.keys.len();
		common::classify(&c, &res, info);
		let good = c.cmp.well_behaved();
		let limit = if good { budget(n) } else { 4 * budget(n) + 8 * (n as u64).pow(2) };
		let run = exec::exec(&c, &res.keys, &res.idx, &Plan { touch: true, ..Plan::new(c.cmp, limit).perturbed(&c) });
		info.runs += 1;
		info.nontrivial = n > 1;
		if good {
			verify::verify(&c, &res, &run)?;
		} else {
			verify::permutation(&res.keys, &run)?;
			verify::keys_kept(&res.keys, &run)?;
			verify::sound(&run)?;
		}
		if run.keys_live != 0 {
			return Err(format!("{} keys neither dropped nor kept", run.keys_live));
		}
		touches(&c, &run, info)?;
		Ok(())
	}
	fn rule() -> &'static str {
		"proptest-generated rearranging operation x input x element type (drop-counting, heap-owning, 204 bytes \
		with checksum, 3 bytes, 64-byte aligned, zero-sized; none of them Clone or Copy) x comparison \
		(total preorders and ill-behaved ones) with callbacks that count each visit inside the element. After \
		the run every identity is there once and intact, holds all visits, and after dropping the array each \
		was dropped exactly once. Non-trivial: at least two elements; distinct by the serialised case."
	}
	shared!();
}
