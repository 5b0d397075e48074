//! C13: histories of operations on lanes of one array.
use crate::case::{Case, Flavor, Idx, Op, Pool};
use crate::ctx::{self, Cmp, Plan};
use crate::data::{Data, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::{self, Elem, ElemKind, It, KeyKind, Tr, NOID};
use crate::exec::{self, budget, Cell, Out, Resolved, Run};
use crate::gen;
use crate::layout::Layout;
use crate::verify;
use ndarray_slice::ndarray::{
	Array, Array1, Array3, ArrayViewMut1, ArrayViewMut3, Axis, Ix3, ShapeBuilder, Slice,
	Dimension,
};
use ndarray_slice::Slice1Ext;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Lane {
	/// Along an axis at a position of the other axes, sliced by fractions of its length and a step.
	Along { axis: u8, i: u8, j: u8, from: u8, to: u8, step: i8 },
	/// Diagonal of a plane orthogonal to an axis.
	Diag { axis: u8, at: u8, inv: bool },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
	One(Op),
	/// Select, then stably sort the left and reverse the right view.
	SelectSortReverse,
	/// Select, then select and deduplicate within the views.
	SelectNested,
	/// Deduplicate, sort the representatives and reverse the duplicates.
	DedupSort,
	/// Select many in parallel and swap the collected elements with each other.
	ManySwap,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
	pub lane: Lane,
	pub act: Act,
	pub flavor: Flavor,
	pub cmp: Cmp,
	pub idx: Idx,
	pub target: i32,
	pub pool: Pool,
	pub key: KeyKind,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct History {
	pub shape: [u16; 3],
	pub f: bool,
	pub tracked: bool,
	pub data: Data,
	pub steps: Vec<Step>,
}

fn lane<T>(mut v: ArrayViewMut3<'_, T>, l: Lane) -> ArrayViewMut1<'_, T> {
	match l {
		Lane::Along { axis, i, j, from, to, step } => {
			let axis = axis as usize % 3;
			let n = v.len_of(Axis(axis));
			let (mut a, mut b) = (n * from as usize / 255, n * to as usize / 255);
			if a > b {
				std::mem::swap(&mut a, &mut b);
			}
			let step = if step == 0 { 1 } else { step as isize };
			v.slice_axis_inplace(Axis(axis), Slice::new(a as isize, Some(b as isize), step));
			let (mut lo, mut hi) = ((axis + 1) % 3, (axis + 2) % 3);
			let (mut i, mut j) = (i as usize, j as usize);
			if lo > hi {
				std::mem::swap(&mut lo, &mut hi);
				std::mem::swap(&mut i, &mut j);
			}
			let (ni, nj) = (v.len_of(Axis(lo)), v.len_of(Axis(hi)));
			v.index_axis_move(Axis(hi), j % nj).index_axis_move(Axis(lo), i % ni)
		}
		Lane::Diag { axis, at, inv } => {
			let axis = axis as usize % 3;
			let k = at as usize % v.len_of(Axis(axis));
			let mut plane = v.index_axis_move(Axis(axis), k);
			if inv {
				plane.invert_axis(Axis(1));
			}
			plane.into_diag()
		}
	}
}

/// Composite operations, returning something about their results.
fn composite<E: Elem>(act: Act, lane: &mut ArrayViewMut1<'_, E>, idx: &[usize], target: &E) -> Vec<usize> {
	let by = elem::compare::<E>;
	match act {
		Act::One(_) => unreachable!(),
		Act::SelectSortReverse => {
			let (mut l, m, mut r) = lane.select_nth_unstable_by(idx[0], by);
			l.sort_by(by);
			r.reverse();
			vec![l.len(), m.id() as usize, r.len(), l.is_sorted_by(|a, b| by(a, b).is_le()) as usize]
		}
		Act::SelectNested => {
			let (mut l, m, mut r) = lane.select_nth_unstable_by(idx[0], by);
			let mut out = vec![l.len(), m.id() as usize];
			if !l.is_empty() {
				let at = l.len() / 2;
				let (mut ll, _, mut lr) = l.select_nth_unstable_by(at, by);
				ll.sort_unstable_by(by);
				let (d, _) = lr.partition_dedup_by(|a, b| by(a, b).is_eq());
				out.push(d.len());
			}
			r.sort_by(by);
			out.push(match r.binary_search_by(|e| by(e, target)) {
				Ok(_) => usize::MAX,
				Err(i) => i,
			});
			out
		}
		Act::DedupSort => {
			let (mut d, mut r) = lane.partition_dedup_by(|a, b| by(a, b).is_eq());
			d.sort_unstable_by(by);
			r.reverse();
			vec![d.len(), r.len()]
		}
		Act::ManySwap => {
			let idx = Array1::from(idx.to_vec());
			let mut c: Vec<&mut E> = vec![];
			lane.par_select_many_nth_unstable_by(&idx, &mut c, by);
			let ids = c.iter().map(|e| e.id() as usize).collect();
			let n = c.len();
			let (a, b) = c.split_at_mut(n / 2);
			for (x, y) in a.iter_mut().zip(b.iter_mut().rev()) {
				std::mem::swap(*x, *y);
			}
			ids
		}
	}
}

/// One action on a lane with identities local to it. What happened, and the resulting identities.
struct Effect {
	order: Vec<u32>,
	out: String,
	bad: Option<String>,
	panicked: bool,
	cells: Vec<Cell>,
	single: Out,
}

fn case_of(s: &Step, op: Op) -> Case {
	Case {
		op,
		flavor: s.flavor,
		elem: ElemKind::It,
		key: s.key,
		layout: Layout::Contig,
		data: Data::Explicit(vec![]),
		cmp: s.cmp,
		idx: s.idx.clone(),
		idx_step: 1,
		pre: 0,
		target: s.target,
		pool: s.pool,
		a: 0,
		b: 0,
	}
}

fn act<E: Elem>(s: &Step, lane: &mut ArrayViewMut1<'_, E>, idx: &[usize]) -> Effect {
	let n = lane.len();
	let target = E::make(s.target, NOID);
	let mut bad = None;
	let r = match s.act {
		Act::One(op) => {
			let case = case_of(s, op);
			let addrs: Vec<usize> = lane.iter().map(|e| e as *const E as usize).collect();
			let array = exec::index_array(idx, 1);
			ctx::begin(&Plan::new(s.cmp, budget(n)));
			exec::run_op(&case, lane, &addrs, array.view(), idx, &target, &mut bad)
				.map(|o| (format!("{o:?}"), o))
		}
		a => {
			ctx::begin(&Plan::new(s.cmp, 3 * budget(n)));
			let lane = std::panic::AssertUnwindSafe(lane.view_mut());
			let target = std::panic::AssertUnwindSafe(&target);
			std::panic::catch_unwind(move || {
				let (mut lane, target) = (lane, target);
				composite(a, &mut *lane, idx, &target)
			})
			.map(|v| (format!("{v:?}"), Out::None))
		}
	};
	ctx::end();
	let (out, single, panicked) = match r {
		Ok((out, o)) => (out, o, false),
		Err(p) => (format!("{:?}", exec::classify(p)), Out::None, true),
	};
	Effect {
		order: lane.iter().map(|e| e.id()).collect(),
		cells: lane.iter().map(|e| Cell { key: e.key(), id: e.id(), touches: 0 }).collect(),
		out,
		bad,
		panicked,
		single,
	}
}

fn history<E: Elem>(h: &History, info: &mut Info) -> Result<(), String> {
	let dim = Ix3(h.shape[0] as usize, h.shape[1] as usize, h.shape[2] as usize);
	let total = dim.size();
	let keys = h.data.expand();
	let keys: Vec<i32> = (0..total).map(|i| keys[i % keys.len().max(1)]).collect();
	if h.tracked {
		elem::ledger_reset(total);
	}
	let mut next = 0;
	let mut array: Array3<E> = Array::from_shape_simple_fn(dim.set_f(h.f), || {
		next += 1;
		E::make(keys[next - 1], next as u32 - 1)
	});
	// Creation fills in memory order. The model is in logical order.
	let mut model: Vec<(i32, u32)> = array.iter().map(|e| (e.key(), e.id())).collect();
	let mut flats: Array3<usize> = Array::from_shape_vec(dim, (0..total).collect()).unwrap();
	for (k, s) in h.steps.iter().enumerate() {
		let at: Vec<usize> = lane(flats.view_mut(), s.lane).iter().copied().collect();
		let n = at.len();
		let mut idx = s.idx.resolve(n);
		let (needs, single) = match s.act {
			Act::One(Op::Select) | Act::SelectSortReverse | Act::SelectNested => (true, true),
			_ => (false, false),
		};
		if single {
			idx.truncate(1);
		}
		if needs && n == 0 {
			continue;
		}
		if needs && idx.is_empty() {
			idx.push(n / 2);
		}
		let name = format!("{:?}", s.act);
		info.class(name.clone());
		info.runs += 1;
		info.when(n > 2000, "lane longer than 2000");
		info.when(n == 0, "empty lane");
		let ctx = |e: String| format!("step {k} ({name} on a lane of {n}): {e}");
		// Expected on a fresh contiguous array of the same contents.
		let contents: Vec<i32> = at.iter().map(|&f| model[f].0).collect();
		let mut fresh: Array1<It> =
			contents.iter().enumerate().map(|(i, &k)| It::make(k, i as u32)).collect();
		let want = act(s, &mut fresh.view_mut(), &idx);
		let got = {
			let mut l = lane(array.view_mut(), s.lane);
			if l.iter().zip(&at).any(|(e, &f)| e.id() != model[f].1) {
				return Err(ctx("harness: lanes differ".into()));
			}
			act(s, &mut l, &idx)
		};
		if let Some(b) = got.bad.or(want.bad) {
			return Err(ctx(b));
		}
		if got.panicked || want.panicked {
			return Err(ctx(format!("panicked: {} on its lane, {} on a fresh array", got.out, want.out)));
		}
		if let Act::One(op) = s.act {
			// What it did is right as well.
			let case = case_of(s, op);
			let res = Resolved { keys: contents.clone(), idx: idx.clone() };
			let run = Run {
				out: want.single,
				panic: None,
				after: want.cells.clone(),
				bad: None,
				calls: 0,
				keys: 0,
				keys_live: 0,
				trace: 0,
				has_id: true,
				alloc: Default::default(),
			};
			verify::verify(&case, &res, &run).map_err(ctx)?;
		}
		let before: Vec<(i32, u32)> = at.iter().map(|&f| model[f]).collect();
		let mut seen = vec![false; n];
		for (i, &o) in want.order.iter().enumerate() {
			if o as usize >= n || std::mem::replace(&mut seen[o as usize], true) {
				return Err(ctx("elements lost or duplicated".into()));
			}
			model[at[i]] = before[o as usize];
		}
		for (i, (e, m)) in array.iter().zip(&model).enumerate() {
			if (e.key(), e.id()) != *m || !e.intact() {
				let inside = at.contains(&i);
				return Err(ctx(format!(
					"element at logical position {i} ({} the lane) is {:?} instead of {m:?}",
					if inside { "inside" } else { "outside" },
					(e.key(), e.id())
				)));
			}
		}
		// Identities in `Debug` of results are local to the fresh array.
		let same_out = match s.act {
			Act::One(_) => got.out == want.out,
			_ => lens(&got.out) == lens(&want.out),
		};
		if !same_out {
			return Err(ctx(format!("result {} instead of {}", got.out, want.out)));
		}
	}
	drop(array);
	if h.tracked {
		elem::ledger_check(total, 1)?;
	}
	Ok(())
}
/// Number of results, their identities being local.
fn lens(s: &str) -> usize {
	s.matches(',').count()
}

pub struct C13;
const OPS: &[Op] = &[
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::ParSelectMany,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::Contains,
	Op::BinarySearch,
	Op::Dedup,
	Op::Reverse,
];
fn steps(max: usize) -> BoxedStrategy<Vec<Step>> {
	let lane = prop_oneof![
		6 => (0u8..3, any::<u8>(), any::<u8>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![2 => Just(255u8), 1 => any::<u8>()], -3i8..=3)
			.prop_map(|(axis, i, j, from, to, step)| Lane::Along { axis, i, j, from, to, step }),
		1 => (0u8..3, any::<u8>(), any::<bool>()).prop_map(|(axis, at, inv)| Lane::Diag { axis, at, inv }),
	];
	let act = prop_oneof![
		15 => select(OPS).prop_map(Act::One),
		1 => Just(Act::SelectSortReverse),
		1 => Just(Act::SelectNested),
		1 => Just(Act::DedupSort),
		1 => Just(Act::ManySwap),
	];
	let pool = prop_oneof![Just(Pool::Global), select(vec![1u8, 2, 4]).prop_map(Pool::Size)];
	let step = (lane, act, gen::flavor(), gen::good_cmp(), gen::idx(), -2i32..40, pool, gen::key_kind()).prop_map(
		|(lane, act, flavor, cmp, idx, target, pool, key)| Step { lane, act, flavor, cmp, idx, target, pool, key },
	);
	prop::collection::vec(step, 1..=max).boxed()
}
fn histories(shape: BoxedStrategy<[u16; 3]>, max: usize) -> BoxedStrategy<History> {
	(shape, any::<bool>(), any::<bool>(), gen::pattern((1usize..400).boxed(), plain()), steps(max))
		.prop_map(|(shape, f, tracked, data, steps)| History { shape, f, tracked, data, steps })
		.boxed()
}
/// Shapes which are no adversary.
fn plain() -> &'static [crate::data::Shape] {
	SHAPES
}
impl Property for C13 {
	type Case = History;
	const ID: &'static str = "C13";
	const QUICK: f64 = 2.0;
	fn phases(t: Tier) -> Vec<Phase<History>> {
		let cube = (1u16..12, 1u16..12, 1u16..40).prop_map(|(a, b, c)| [a, b, c]).boxed();
		let two = (1u16..8, 1u16..300).prop_map(|(a, b)| [a, 1, b]).boxed();
		let one = (0u16..600, any::<bool>()).prop_map(|(a, x)| if x { [a, 1, 1] } else { [1, 1, a] }).boxed();
		let perm = |s: BoxedStrategy<[u16; 3]>| {
			(s, 0usize..3).prop_map(|(mut s, r)| {
				s.rotate_left(r);
				s
			}).boxed()
		};
		let large = (1u16..4, 1u16..3, 2001u16..6500).prop_map(|(a, b, c)| [a, b, c]).boxed();
		let p = |name, cases, strategy| Phase { name, cases, strategy };
		vec![
			p("3-D", t.pick(24_000, 500_000), histories(perm(cube), 14)),
			p("2-D", t.pick(24_000, 500_000), histories(perm(two), 14)),
			p("1-D", t.pick(16_000, 300_000), histories(perm(one), 14)),
			p("long", t.pick(700, 20_000), histories(perm(large), 6)),
		]
	}
	fn check(h: &History, info: &mut Info) -> Result<(), String> {
		if h.shape.contains(&0) && h.shape.iter().filter(|&&x| x == 0).count() > 1 {
			return Ok(());
		}
		let mut h = h.clone();
		// Other axes need a position for a lane to exist.
		if let Some(z) = h.shape.iter().position(|&x| x == 0) {
			for s in &mut h.steps {
				if let Lane::Along { axis, .. } = &mut s.lane {
					*axis = z as u8;
				} else {
					s.lane = Lane::Along { axis: z as u8, i: 0, j: 0, from: 0, to: 255, step: 1 };
				}
			}
		}
		if h.tracked {
			// As `Tr` supports these only.
			for s in &mut h.steps {
				s.flavor = Flavor::By;
				s.key = KeyKind::Kw;
			}
		}
		info.nontrivial = h.steps.len() > 1 && h.shape.iter().all(|&x| x > 0);
		info.class(if h.f { "F order" } else { "C order" });
		if h.tracked { history::<Tr>(&h, info) } else { history::<It>(&h, info) }
	}
	fn simpler(h: &History, round: u32) -> Vec<History> {
		let mut out = vec![];
		let mut with = |f: &dyn Fn(&mut History)| {
			let mut d = h.clone();
			f(&mut d);
			if d != *h {
				out.push(d);
			}
		};
		if round == 0 {
			for k in 1..h.steps.len() {
				with(&|d| d.steps.truncate(k));
			}
			with(&|d| d.data = Data::Explicit(d.data.expand()));
			with(&|d| d.f = false);
			with(&|d| d.tracked = false);
		} else if round < 30 {
			for k in 0..h.steps.len() {
				if h.steps.len() > 1 {
					with(&|d| {
						d.steps.remove(k);
					});
				}
				with(&|d| d.steps[k].cmp = Cmp::Nat);
				with(&|d| d.steps[k].flavor = Flavor::By);
				with(&|d| d.steps[k].pool = Pool::Size(1));
				if let Idx::Frac(v) = &h.steps[k].idx {
					if v.len() > 1 {
						with(&|d| {
							if let Idx::Frac(v) = &mut d.steps[k].idx {
								v.pop();
							}
						});
					}
				}
			}
			for a in 0..3 {
				for x in [1, h.shape[a] / 2, h.shape[a].saturating_sub(1)] {
					if x < h.shape[a] && x > 0 {
						with(&|d| d.shape[a] = x);
					}
				}
			}
			if let Data::Explicit(k) = &h.data {
				let n = k.len();
				let chunk = (n >> round.min(31)).max(1);
				if n > 1 {
					for s in (0..n).step_by(chunk) {
						with(&|d| {
							if let Data::Explicit(k) = &mut d.data {
								k.drain(s..(s + chunk).min(n));
								if k.is_empty() {
									k.push(0);
								}
							}
						});
					}
				}
			}
		}
		out
	}
	fn rule() -> &'static str {
		"proptest-generated history of 1 to 14 steps on one 1- to 3-dimensional array in C or F order, each step \
		choosing a lane (along an axis, sliced, strided, reversed, or a diagonal) and an operation, partly \
		continuing with operations on the returned views. Model: the logical contents; each step's expected \
		effect is that of the same operation on a fresh contiguous array, verified against the oracles of C01-C12 \
		as well; all of the array is compared after each step. Non-trivial: at least two steps on a non-empty \
		array; distinct by the serialised history; operation_runs counts steps."
	}
	fn assumptions() -> Vec<&'static str> {
		vec!["ndarray's slicing selects the lanes of the model as well"]
	}
	fn cost(h: &History) -> u64 {
		let total: u64 = h.shape.iter().map(|&x| x as u64).product();
		h.steps.len() as u64 * (total + 1) * 4
	}
	fn parallel(h: &History) -> bool {
		h.steps.iter().any(|s| matches!(s.act, Act::ManySwap) || matches!(s.act, Act::One(o) if o.par()))
	}
}
