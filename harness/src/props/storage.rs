//! C21: histories of operations on arrays of every storage kind, partly sharing their data.
use crate::case::{Case, Flavor, Idx, Op, Pool};
use crate::ctx::{self, Cmp, Plan};
use crate::data::{Data, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::{ElemKind, KeyKind, Kw};
use crate::exec::{self, budget, Cell, Out, Resolved, Run};
use crate::gen;
use crate::layout::Layout;
use crate::verify;
use ndarray_slice::ndarray::{
	ArcArray1, Array1, ArrayBase, ArrayView1, CowArray, Data as Storage, DataMut, Ix1, Slice, Axis,
};
use ndarray_slice::Slice1Ext;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Element which may be copied by copy-on-write.
#[derive(Clone, Debug)]
struct E {
	key: i32,
	id: u32,
	/// Makes it neither `Copy` nor trivial to drop.
	heap: Box<u32>,
}
impl E {
	fn new(key: i32, id: u32) -> E {
		E { key, id, heap: Box::new(id ^ 0x55aa) }
	}
	fn of(&self) -> (i32, u32) {
		assert_eq!(*self.heap, self.id ^ 0x55aa, "corrupted element");
		(self.key, self.id)
	}
}
fn cmp(a: &E, b: &E) -> Ordering {
	ctx::compare(a.key, b.key)
}
impl PartialEq for E {
	fn eq(&self, o: &E) -> bool {
		cmp(self, o).is_eq()
	}
}
impl Eq for E {}
impl PartialOrd for E {
	fn partial_cmp(&self, o: &E) -> Option<Ordering> {
		Some(cmp(self, o))
	}
}
impl Ord for E {
	fn cmp(&self, o: &E) -> Ordering {
		cmp(self, o)
	}
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Make {
	Owned,
	Shared,
	/// Borrowing from a base.
	Cow,
	CowOwned,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
	/// New handle with contents of a base.
	Make { kind: Make, base: u8 },
	/// Clone of a handle, sharing its data if it is able to.
	Clone { of: u8 },
	/// Restricts a handle by fractions of its length and a step.
	Slice { of: u8, from: u8, to: u8, step: i8 },
	Drop { of: u8 },
	Run { of: u8, op: Op, flavor: Flavor, cmp: Cmp, idx: Idx, target: i32, key: KeyKind },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Handles {
	pub bases: Vec<Data>,
	pub steps: Vec<Step>,
}

enum Handle<'a> {
	Owned(Array1<E>),
	Shared(ArcArray1<E>),
	Cow(CowArray<'a, E, Ix1>),
}
macro_rules! each {
	($h:expr, $a:ident => $e:expr) => {
		match $h {
			Handle::Owned($a) => $e,
			Handle::Shared($a) => $e,
			Handle::Cow($a) => $e,
		}
	};
}
impl<'a> Handle<'a> {
	fn contents(&self) -> Vec<(i32, u32)> {
		each!(self, a => a.iter().map(E::of).collect())
	}
	fn ptr(&self) -> *const E {
		each!(self, a => a.as_ptr())
	}
	fn name(&self) -> &'static str {
		match self {
			Handle::Owned(_) => "owned",
			Handle::Shared(_) => "shared",
			Handle::Cow(a) if a.is_view() => "cow borrowed",
			Handle::Cow(_) => "cow owned",
		}
	}
	fn clone(&self) -> Handle<'a> {
		match self {
			Handle::Owned(a) => Handle::Owned(a.clone()),
			Handle::Shared(a) => Handle::Shared(a.clone()),
			Handle::Cow(a) => Handle::Cow(a.clone()),
		}
	}
}

fn key(e: &E) -> Kw {
	Kw::new(e.key)
}

/// Searches and predicates.
fn query<S: Storage<Elem = E>>(a: &ArrayBase<S, Ix1>, c: &Case) -> Out {
	let target = E::new(c.target, u32::MAX);
	let cmp = self::cmp;
	macro_rules! flavors {
		($plain:expr, $by:expr, $key:expr) => {
			match c.flavor {
				Flavor::Plain => $plain,
				Flavor::By => $by,
				Flavor::Key => $key,
			}
		};
	}
	match c.op {
		Op::IsSorted => Out::Bool(flavors!(
			a.is_sorted(),
			a.is_sorted_by(|a, b| cmp(a, b).is_le()),
			a.is_sorted_by_key(key)
		)),
		Op::PartitionPoint => Out::Point(a.partition_point(|e| ctx::compare(e.key, c.target).is_lt())),
		Op::Contains => Out::Bool(a.contains(&target)),
		Op::BinarySearch => {
			let k = Kw::new(c.target);
			Out::Search(flavors!(
				a.binary_search(&target),
				a.binary_search_by(|e| cmp(e, &target)),
				a.binary_search_by_key(&k, key)
			))
		}
		_ => unreachable!(),
	}
}

fn mutate<S: DataMut<Elem = E>>(a: &mut ArrayBase<S, Ix1>, c: &Case, idx: &[usize]) -> Out {
	let cmp = self::cmp;
	macro_rules! flavors {
		($plain:expr, $by:expr, $key:expr) => {
			match c.flavor {
				Flavor::Plain => $plain,
				Flavor::By => $by,
				Flavor::Key => $key,
			}
		};
	}
	match c.op {
		Op::Sort => flavors!(a.sort(), a.sort_by(cmp), a.sort_by_key(key)),
		Op::SortCached => a.sort_by_cached_key(key),
		Op::SortUnstable => flavors!(a.sort_unstable(), a.sort_unstable_by(cmp), a.sort_unstable_by_key(key)),
		Op::ParSort => flavors!(a.par_sort(), a.par_sort_by(cmp), a.par_sort_by_key(key)),
		Op::ParSortCached => a.par_sort_by_cached_key(key),
		Op::ParSortUnstable => {
			flavors!(a.par_sort_unstable(), a.par_sort_unstable_by(cmp), a.par_sort_unstable_by_key(key))
		}
		Op::Reverse => a.reverse(),
		Op::Select => {
			let i = idx[0];
			let (l, m, r) = flavors!(
				a.select_nth_unstable(i),
				a.select_nth_unstable_by(i, cmp),
				a.select_nth_unstable_by_key(i, key)
			);
			let seen: Vec<_> = l.iter().chain([&*m]).chain(r.iter()).map(E::of).collect();
			let len = l.len();
			assert!(a.iter().map(E::of).eq(seen), "views do not refer to the array");
			return Out::Select(len);
		}
		Op::SelectMany => {
			let array = Array1::from(idx.to_vec());
			let mut v: Vec<(usize, &mut E)> = vec![];
			flavors!(
				a.select_many_nth_unstable(&array, &mut v),
				a.select_many_nth_unstable_by(&array, &mut v, cmp),
				a.select_many_nth_unstable_by_key(&array, &mut v, key)
			);
			let seen: Vec<_> = v.into_iter().map(|(i, e)| (i, e.of())).collect();
			assert!(seen.iter().copied().eq(idx.iter().map(|&i| (i, a[i].of()))), "wrong collection");
			return Out::Many(seen.len());
		}
		Op::ParSelectMany => {
			let array = Array1::from(idx.to_vec());
			let mut v: Vec<&mut E> = vec![];
			flavors!(
				a.par_select_many_nth_unstable(&array, &mut v),
				a.par_select_many_nth_unstable_by(&array, &mut v, cmp),
				a.par_select_many_nth_unstable_by_key(&array, &mut v, key)
			);
			let seen: Vec<_> = v.into_iter().map(|e| e.of()).collect();
			assert!(seen.iter().copied().eq(idx.iter().map(|&i| a[i].of())), "wrong collection");
			return Out::Many(seen.len());
		}
		Op::Dedup => {
			let (l, r) = flavors!(
				a.partition_dedup(),
				a.partition_dedup_by(|a, b| cmp(a, b).is_eq()),
				a.partition_dedup_by_key(|e| key(e))
			);
			let seen: Vec<_> = l.iter().chain(r.iter()).map(E::of).collect();
			let len = l.len();
			assert!(a.iter().map(E::of).eq(seen), "views do not refer to the array");
			return Out::Dedup(len);
		}
		_ => unreachable!(),
	}
	Out::None
}

fn slice<S: Storage<Elem = E>>(a: &mut ArrayBase<S, Ix1>, s: Slice) {
	a.slice_axis_inplace(Axis(0), s);
}

pub struct C21;
const OPS: &[Op] = &[
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::ParSelectMany,
	Op::Dedup,
	Op::Reverse,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::Contains,
	Op::BinarySearch,
];

fn run(h: &Handles, info: &mut Info) -> Result<(), String> {
	let mut next = 0;
	let bases: Vec<Array1<E>> = h
		.bases
		.iter()
		.map(|d| {
			let keys = if d.adversarial() { vec![1, 0] } else { d.expand() };
			keys.into_iter()
				.map(|k| {
					next += 1;
					E::new(k, next)
				})
				.collect()
		})
		.collect();
	let base_contents: Vec<Vec<(i32, u32)>> =
		bases.iter().map(|b| b.iter().map(E::of).collect()).collect();
	let mut handles: Vec<(Handle<'_>, Vec<(i32, u32)>)> = vec![];
	for (k, s) in h.steps.iter().enumerate() {
		let count = handles.len();
		let pick = |of: u8| of as usize % count.max(1);
		match s {
			Step::Make { kind, base } => {
				let b = *base as usize % bases.len();
				let view = bases[b].view();
				let handle = match kind {
					Make::Owned => Handle::Owned(view.to_owned()),
					Make::Shared => Handle::Shared(view.to_owned().into_shared()),
					Make::Cow => Handle::Cow(CowArray::from(view)),
					Make::CowOwned => Handle::Cow(CowArray::from(view.to_owned())),
				};
				handles.push((handle, base_contents[b].clone()));
			}
			_ if count == 0 => continue,
			Step::Clone { of } => {
				let (h, m) = &handles[pick(*of)];
				let h = h.clone();
				let m = m.clone();
				handles.push((h, m));
			}
			Step::Drop { of } => {
				handles.swap_remove(pick(*of));
			}
			Step::Slice { of, from, to, step } => {
				let (h, m) = &mut handles[pick(*of)];
				let n = m.len();
				let (mut a, mut b) = (n * *from as usize / 255, n * *to as usize / 255);
				if a > b {
					std::mem::swap(&mut a, &mut b);
				}
				let s = Slice::new(a as isize, Some(b as isize), if *step == 0 { 1 } else { *step as isize });
				each!(h, a => slice(a, s));
				let mut v = ArrayView1::from(&m[..]);
				v.slice_axis_inplace(Axis(0), s);
				let v = v.to_vec();
				*m = v;
			}
			Step::Run { of, op, flavor, cmp, idx, target, key } => {
				let i = pick(*of);
				let shares = handles
					.iter()
					.enumerate()
					.any(|(j, (o, _))| j != i && o.ptr() == handles[i].0.ptr());
				let (h, m) = &mut handles[i];
				let n = m.len();
				let mut idx = idx.resolve(n);
				if *op == Op::Select {
					if n == 0 {
						continue;
					}
					idx.truncate(1);
					if idx.is_empty() {
						idx.push(n / 2);
					}
				}
				let case = Case {
					op: *op,
					flavor: *flavor,
					elem: ElemKind::It,
					key: KeyKind::Kw,
					layout: Layout::Contig,
					data: Data::Explicit(vec![]),
					cmp: *cmp,
					idx: Idx::Explicit(idx.clone()),
					idx_step: 1,
					pre: 0,
					target: *target,
					pool: Pool::Global,
					a: 0,
					b: 0,
				};
				let _ = key;
				let name = h.name();
				info.runs += 1;
				info.class(format!("{name} {op:?}"));
				info.when(shares, "sharing data with another handle");
				let ctx = |e: String| format!("step {k} ({op:?} on {name} of {n}): {e}");
				let plan = Plan::new(*cmp, budget(n));
				let before = m.clone();
				// On a fresh owned array.
				let mut fresh: Array1<E> = m.iter().map(|&(k, i)| E::new(k, i)).collect();
				let ptr = h.ptr();
				let (want, got);
				ctx::begin(&plan);
				if op.mutates() {
					want = catch_unwind(AssertUnwindSafe(|| mutate(&mut fresh, &case, &idx)));
					ctx::end();
					ctx::begin(&plan);
					got = catch_unwind(AssertUnwindSafe(|| each!(h, a => mutate(a, &case, &idx))));
				} else {
					want = catch_unwind(AssertUnwindSafe(|| query(&fresh, &case)));
					ctx::end();
					ctx::begin(&plan);
					got = catch_unwind(AssertUnwindSafe(|| each!(&*h, a => query(a, &case))));
				}
				ctx::end();
				let want = want.map_err(exec::classify);
				let got = got.map_err(exec::classify);
				let (want, got) = match (want, got) {
					(Ok(w), Ok(g)) => (w, g),
					(w, g) => return Err(ctx(format!("panicked: {g:?}, on an owned array {w:?}"))),
				};
				if want != got {
					return Err(ctx(format!("result {got:?} instead of {want:?}")));
				}
				if !op.mutates() && h.ptr() != ptr {
					return Err(ctx("data moved by a non-mutating operation".into()));
				}
				*m = fresh.iter().map(E::of).collect();
				// What it did is right as well.
				let pos: std::collections::HashMap<u32, u32> =
					before.iter().enumerate().map(|(i, &(_, id))| (id, i as u32)).collect();
				let after = m
					.iter()
					.map(|&(key, id)| Cell { key, id: *pos.get(&id).unwrap_or(&u32::MAX), touches: 0 })
					.collect();
				let res = Resolved { keys: before.iter().map(|&(k, _)| k).collect(), idx };
				let run = Run {
					out: want,
					panic: None,
					after,
					bad: None,
					calls: 0,
					keys: 0,
					keys_live: 0,
					trace: 0,
					has_id: true,
					alloc: Default::default(),
				};
				verify::verify(&case, &res, &run).map_err(ctx)?;
			}
		}
		for (j, (h, m)) in handles.iter().enumerate() {
			let c = h.contents();
			if c != *m {
				let at = c.iter().zip(m).position(|(a, b)| a != b);
				return Err(format!(
					"after step {k} ({:?}): handle {j} ({}) differs at {at:?}",
					step_name(s),
					h.name()
				));
			}
		}
		for (j, (b, m)) in bases.iter().zip(&base_contents).enumerate() {
			if !b.iter().map(E::of).eq(m.iter().copied()) {
				return Err(format!("after step {k} ({:?}): lending array {j} changed", step_name(s)));
			}
		}
	}
	Ok(())
}
fn step_name(s: &Step) -> String {
	match s {
		Step::Run { op, of, .. } => format!("{op:?} on handle {of}"),
		s => format!("{s:?}"),
	}
}

fn histories(len: std::ops::Range<usize>, max: usize) -> BoxedStrategy<Handles> {
	let of = any::<u8>;
	let step = prop_oneof![
		3 => (select(vec![Make::Owned, Make::Shared, Make::Shared, Make::Cow, Make::Cow, Make::CowOwned]), any::<u8>())
			.prop_map(|(kind, base)| Step::Make { kind, base }),
		3 => of().prop_map(|of| Step::Clone { of }),
		2 => (of(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![2 => Just(255u8), 1 => 128u8..], -2i8..=3)
			.prop_map(|(of, from, to, step)| Step::Slice { of, from, to, step }),
		1 => of().prop_map(|of| Step::Drop { of }),
		12 => (of(), select(OPS), gen::flavor(), gen::good_cmp(), gen::idx(), -2i32..40, gen::key_kind())
			.prop_map(|(of, op, flavor, cmp, idx, target, key)| Step::Run { of, op, flavor, cmp, idx, target, key }),
	];
	let first = (select(vec![Make::Owned, Make::Shared, Make::Cow, Make::CowOwned]), any::<u8>())
		.prop_map(|(kind, base)| Step::Make { kind, base });
	(
		prop::collection::vec(gen::pattern(len.boxed(), SHAPES), 1..3),
		first,
		prop::collection::vec(step, 1..max),
	)
		.prop_map(|(bases, first, mut steps)| {
			steps.insert(0, first);
			Handles { bases, steps }
		})
		.boxed()
}

impl Property for C21 {
	type Case = Handles;
	const ID: &'static str = "C21";
	const QUICK: f64 = 5.0;
	fn phases(t: Tier) -> Vec<Phase<Handles>> {
		let p = |name, cases, strategy| Phase { name, cases, strategy };
		vec![
			p("short", t.pick(9000, 200_000), histories(0..60, 20)),
			p("mixed", t.pick(2500, 60_000), histories(0..700, 20)),
			p("long", t.pick(60, 2000), histories(2001..6000, 10)),
		]
	}
	fn check(h: &Handles, info: &mut Info) -> Result<(), String> {
		info.nontrivial = h.steps.iter().filter(|s| matches!(s, Step::Run { .. })).count() > 0;
		run(h, info)
	}
	fn simpler(h: &Handles, round: u32) -> Vec<Handles> {
		let mut out = vec![];
		let mut with = |f: &dyn Fn(&mut Handles)| {
			let mut d = h.clone();
			f(&mut d);
			if d != *h {
				out.push(d);
			}
		};
		if round == 0 {
			for k in 1..h.steps.len() {
				with(&|d| d.steps.truncate(k));
			}
			with(&|d| {
				for b in &mut d.bases {
					if !b.adversarial() {
						*b = Data::Explicit(b.expand());
					}
				}
			});
		} else if round < 30 {
			for k in 0..h.steps.len() {
				with(&|d| {
					d.steps.remove(k);
				});
				with(&|d| {
					if let Step::Run { cmp, flavor, .. } = &mut d.steps[k] {
						*cmp = Cmp::Nat;
						*flavor = Flavor::By;
					}
				});
			}
			if h.bases.len() > 1 {
				with(&|d| {
					d.bases.pop();
				});
			}
			for b in 0..h.bases.len() {
				if let Data::Explicit(v) = &h.bases[b] {
					let n = v.len();
					let chunk = (n >> round.min(31)).max(1);
					for s in (0..n).step_by(chunk) {
						with(&|d| {
							if let Data::Explicit(k) = &mut d.bases[b] {
								k.drain(s..(s + chunk).min(n));
							}
						});
					}
				}
			}
		}
		out
	}
	fn rule() -> &'static str {
		"proptest-generated history of up to 20 steps creating, cloning, slicing and dropping owned, shared and \
		copy-on-write arrays (borrowing or owning) of heap-owning elements, and applying any operation to any of \
		them. Model: the contents per handle; an operation has to do the same as on a fresh owned array, which is \
		verified against the oracles of the other properties, all other handles and lenders have to stay the same, \
		and non-mutating operations must not move the data. Non-trivial: at least one operation; distinct by the \
		serialised history; operation_runs counts operations."
	}
	fn cost(h: &Handles) -> u64 {
		h.bases.iter().map(|b| b.len() as u64 + 1).sum::<u64>() * h.steps.len() as u64 * 8
	}
	fn parallel(h: &Handles) -> bool {
		h.steps.iter().any(|s| matches!(s, Step::Run { op, .. } if op.par()))
	}
}
