//! C24: operations within callbacks of operations, and on several threads at once.
use crate::case::{Op, Pool};
use crate::ctx::mix;
use crate::data::{Data, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::exec;
use crate::gen;
use ndarray_slice::ndarray::{Array1, Array2, ArrayViewMut1, Axis};
use ndarray_slice::Slice1Ext;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

/// An operation with operations its callback runs on arrays of their own.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Node {
	op: Op,
	data: Data,
	/// Keys are compared divided by it.
	coarse: u8,
	reverse: bool,
	/// Whether elements own memory.
	boxed: bool,
	cols: u8,
	/// Chooses indices and targets.
	pick: u32,
	/// The callback call that panics.
	panic_at: Option<u32>,
	kids: Vec<Kid>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Kid {
	/// Callback call running the operation the first time.
	at: u32,
	/// Calls in between.
	every: u32,
	times: u8,
	node: Node,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum How {
	/// One after the other.
	Sequence,
	/// Each on a thread and an array of its own.
	Threads,
	/// Each on a thread and a lane of one array.
	Lanes,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Forest {
	how: How,
	pool: Pool,
	roots: Vec<Node>,
}

struct Panic;

trait Item: Send + Sync + PartialEq {
	fn new(key: i32, id: u32) -> Self;
	fn key(&self) -> i32;
	fn id(&self) -> u32;
	fn cell(&self) -> (i32, u32) {
		(self.key(), self.id())
	}
}
#[derive(PartialEq)]
struct Flat(i32, u32);
#[derive(PartialEq)]
struct Boxed(Box<(i32, u32)>);
impl Item for Flat {
	fn new(key: i32, id: u32) -> Self {
		Flat(key, id)
	}
	fn key(&self) -> i32 {
		self.0
	}
	fn id(&self) -> u32 {
		self.1
	}
}
impl Item for Boxed {
	fn new(key: i32, id: u32) -> Self {
		Boxed(Box::new((key, id)))
	}
	fn key(&self) -> i32 {
		self.0 .0
	}
	fn id(&self) -> u32 {
		self.0 .1
	}
}

#[derive(Clone, PartialEq, Debug)]
struct Outcome {
	cells: Vec<(i32, u32)>,
	ret: Vec<usize>,
	panicked: bool,
}

/// A node with what it does on its own.
struct Ready<'a> {
	node: &'a Node,
	keys: Vec<i32>,
	alone: Outcome,
	kids: Vec<(&'a Kid, Ready<'a>)>,
	fired: AtomicU32,
}

struct World {
	fault: Mutex<Option<String>>,
	runs: AtomicU32,
	panics: AtomicU32,
	deepest: AtomicU32,
	nested_par: AtomicU32,
}
impl World {
	fn fail(&self, e: String) {
		self.fault.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(e);
	}
}

fn prepare(node: &Node, len: Option<usize>) -> Result<Ready<'_>, String> {
	let mut keys = node.data.expand();
	if let Some(len) = len {
		keys.truncate(len);
	}
	if matches!(node.op, Op::BinarySearch | Op::PartitionPoint) {
		keys.sort_by_key(|&k| rank(node, k));
	}
	let mut ready = Ready { node, keys, alone: Outcome { cells: vec![], ret: vec![], panicked: false }, kids: vec![], fired: AtomicU32::new(0) };
	let world = World::new();
	ready.alone = whole(&ready, None, &world, 0);
	if let Some(e) = world.fault.into_inner().unwrap_or_else(|e| e.into_inner()) {
		return Err(format!("on its own: {e}"));
	}
	for kid in &node.kids {
		ready.kids.push((kid, prepare(&kid.node, None)?));
	}
	Ok(ready)
}
impl World {
	fn new() -> Self {
		World {
			fault: Mutex::new(None),
			runs: AtomicU32::new(0),
			panics: AtomicU32::new(0),
			deepest: AtomicU32::new(0),
			nested_par: AtomicU32::new(0),
		}
	}
}

fn rank(node: &Node, key: i32) -> i64 {
	let r = (key as i64).div_euclid(node.coarse.max(1) as i64);
	if node.reverse { -r } else { r }
}

/// Runs the node on an array of its own, with its kids if given the depth.
fn whole(r: &Ready, kids: Option<&World>, world: &World, depth: u32) -> Outcome {
	fn on<T: Item>(r: &Ready, kids: Option<&World>, world: &World, depth: u32) -> Outcome {
		let (n, cols) = (r.keys.len(), r.node.cols.clamp(1, 4) as usize);
		let at = r.node.pick as usize % cols;
		let mut a = Array2::from_shape_fn((n, cols), |(i, j)| {
			if j == at { T::new(r.keys[i], i as u32) } else { T::new(j as i32, u32::MAX - i as u32) }
		});
		let out = lane(r, a.column_mut(at), kids, world, depth);
		for ((i, j), e) in a.indexed_iter() {
			if j != at && e.cell() != (j as i32, u32::MAX - i as u32) {
				world.fail(format!("{:?}: changed an element of column {j} instead of {at}", r.node.op));
			}
		}
		out
	}
	if r.node.boxed { on::<Boxed>(r, kids, world, depth) } else { on::<Flat>(r, kids, world, depth) }
}

/// Runs the node on the given lane holding its keys.
fn lane<T: Item>(r: &Ready, mut a: ArrayViewMut1<T>, kids: Option<&World>, world: &World, depth: u32) -> Outcome {
	let node = r.node;
	let calls = AtomicU32::new(0);
	let call = || {
		let k = calls.fetch_add(1, Relaxed) + 1;
		if let Some(world) = kids {
			for (kid, ready) in &r.kids {
				let since = k.wrapping_sub(kid.at.max(1));
				if k >= kid.at.max(1) && since % kid.every.max(1) == 0 && since / kid.every.max(1) < kid.times as u32 {
					compare(ready, whole(ready, kids, world, depth + 1), world, depth + 1);
				}
			}
		}
		if node.panic_at == Some(k) {
			resume_unwind(Box::new(Panic));
		}
	};
	let rank = |e: &T| rank(node, e.key());
	let cmp = |x: &T, y: &T| -> Ordering {
		call();
		rank(x).cmp(&rank(y))
	};
	let key = |e: &T| {
		call();
		rank(e)
	};
	let n = a.len();
	let target = match n {
		0 => 0,
		_ => self::rank(node, r.keys[node.pick as usize % n]),
	};
	let mut idx: Vec<usize> = (0..1 + node.pick as usize % 7).map(|i| mix(node.pick as u64 + i as u64) as usize % n.max(1)).collect();
	idx.sort();
	idx.dedup();
	if n == 0 {
		idx.clear();
	}
	let by_key = node.pick >> 8 & 1 == 1;
	let run = || -> Vec<usize> {
		match node.op {
			Op::Sort if by_key => a.sort_by_key(key),
			Op::Sort => a.sort_by(cmp),
			Op::SortCached => a.sort_by_cached_key(key),
			Op::SortUnstable if by_key => a.sort_unstable_by_key(key),
			Op::SortUnstable => a.sort_unstable_by(cmp),
			Op::ParSort if by_key => a.par_sort_by_key(key),
			Op::ParSort => a.par_sort_by(cmp),
			Op::ParSortCached => a.par_sort_by_cached_key(key),
			Op::ParSortUnstable if by_key => a.par_sort_unstable_by_key(key),
			Op::ParSortUnstable => a.par_sort_unstable_by(cmp),
			Op::Select if n > 0 => {
				let (l, m, _) = a.select_nth_unstable_by(idx[0], cmp);
				return vec![l.len(), m.id() as usize];
			}
			Op::SelectMany => {
				let idx = Array1::from(idx.clone());
				let mut v: Vec<(usize, &mut T)> = vec![];
				a.select_many_nth_unstable_by(&idx, &mut v, cmp);
				return v.iter().flat_map(|(i, e)| [*i, e.id() as usize]).collect();
			}
			Op::ParSelectMany => {
				let idx = Array1::from(idx.clone());
				let mut v: Vec<&mut T> = vec![];
				a.par_select_many_nth_unstable_by(&idx, &mut v, cmp);
				return v.iter().map(|e| e.id() as usize).collect();
			}
			Op::Dedup => {
				let (l, _) = a.partition_dedup_by(|x, y| cmp(x, y).is_eq());
				return vec![l.len()];
			}
			Op::Reverse => a.reverse(),
			Op::IsSorted => return vec![a.is_sorted_by(|x, y| cmp(x, y).is_le()) as usize],
			Op::PartitionPoint => {
				return vec![a.partition_point(|e| {
					call();
					rank(e) < target
				})]
			}
			Op::BinarySearch => {
				let found = a.binary_search_by(|e| {
					call();
					rank(e).cmp(&target)
				});
				return match found {
					Ok(i) => vec![1, i],
					Err(i) => vec![0, i],
				};
			}
			_ => {}
		}
		vec![]
	};
	let mut out = Outcome { cells: vec![], ret: vec![], panicked: false };
	match catch_unwind(AssertUnwindSafe(run)) {
		Ok(ret) => out.ret = ret,
		Err(p) => {
			out.panicked = true;
			if !p.is::<Panic>() {
				world.fail(format!("{:?} panicked: {:?}", node.op, exec::classify(p)));
			}
		}
	}
	out.cells = a.iter().map(T::cell).collect();
	world.runs.fetch_add(1, Relaxed);
	world.panics.fetch_add(out.panicked as u32, Relaxed);
	world.deepest.fetch_max(depth, Relaxed);
	world.nested_par.fetch_add((depth > 0 && node.op.par()) as u32, Relaxed);
	r.fired.fetch_add(1, Relaxed);
	out
}

fn compare(r: &Ready, got: Outcome, world: &World, depth: u32) {
	let name = format!("{:?} of {} elements at depth {depth}", r.node.op, r.keys.len());
	// How far a parallel operation gets until a certain call depends on the schedule.
	let loose = r.node.op.par() && r.node.panic_at.is_some() && (got.panicked || r.alone.panicked);
	if !loose && got != r.alone {
		let what = match got.panicked == r.alone.panicked {
			false => "panics differently".to_string(),
			true if got.ret != r.alone.ret => format!("returns {:?} instead of {:?}", got.ret, r.alone.ret),
			true => {
				let i = (0..r.keys.len()).find(|&i| got.cells[i] != r.alone.cells[i]).unwrap();
				format!("position {i} is {:?} instead of {:?}", got.cells[i], r.alone.cells[i])
			}
		};
		world.fail(format!("{name}: not the result it has on its own: {what}"));
	}
	let mut cells = got.cells;
	cells.sort_by_key(|c| c.1);
	if !cells.iter().enumerate().all(|(i, &c)| c == (r.keys[i], i as u32)) {
		world.fail(format!("{name}: not a permutation"));
	}
}

fn lanes<T: Item>(forest: &Forest, roots: &[Ready], n: usize, world: &World) {
	let mut a = Array2::from_shape_fn((n, roots.len()), |(i, j)| T::new(roots[j].keys[i], i as u32));
	let gate = Barrier::new(roots.len());
	std::thread::scope(|s| {
		for (r, v) in roots.iter().zip(a.axis_iter_mut(Axis(1))) {
			let gate = &gate;
			s.spawn(move || {
				gate.wait();
				let out = exec::with_pool(forest.pool, || lane(r, v, Some(world), world, 0));
				compare(r, out, world, 0);
			});
		}
	});
}

pub struct C24;
impl C24 {
	fn run(f: &Forest, info: &mut Info) -> Result<(), String> {
		let len = match f.how {
			How::Lanes => f.roots.iter().map(|r| r.data.len()).min(),
			_ => None,
		};
		let roots = f.roots.iter().map(|r| prepare(r, len)).collect::<Result<Vec<_>, _>>()?;
		let world = World::new();
		match f.how {
			How::Sequence => {
				for r in &roots {
					let out = exec::with_pool(f.pool, || whole(r, Some(&world), &world, 0));
					compare(r, out, &world, 0);
				}
			}
			How::Threads => {
				let gate = Barrier::new(roots.len());
				std::thread::scope(|s| {
					for r in &roots {
						let (gate, world) = (&gate, &world);
						s.spawn(move || {
							gate.wait();
							let out = exec::with_pool(f.pool, || whole(r, Some(world), world, 0));
							compare(r, out, world, 0);
						});
					}
				});
			}
			How::Lanes if f.roots[0].boxed => lanes::<Boxed>(f, &roots, len.unwrap_or(0), &world),
			How::Lanes => lanes::<Flat>(f, &roots, len.unwrap_or(0), &world),
		}
		// On its own again.
		for r in &roots {
			compare(r, whole(r, None, &world, 0), &world, 0);
		}
		let runs = world.runs.load(Relaxed);
		let deepest = world.deepest.load(Relaxed);
		info.runs += runs as u64;
		info.class(match f.how {
			How::Sequence => "in sequence",
			How::Threads => "on several threads",
			How::Lanes => "on lanes of one array",
		});
		info.class(format!("nested {deepest} deep"));
		info.when(world.nested_par.load(Relaxed) > 0, "parallel operation in a callback");
		info.when(world.panics.load(Relaxed) > 0, "operation left by a panic");
		for r in &roots {
			info.class(format!("{:?}", r.node.op));
		}
		// Something ran within or besides something else.
		info.nontrivial = deepest > 0 || (f.how != How::Sequence && roots.len() > 1);
		match world.fault.into_inner().unwrap_or_else(|e| e.into_inner()) {
			Some(e) => Err(e),
			None => Ok(()),
		}
	}
}

const SEQ: &[Op] = &[
	Op::Sort,
	Op::Sort,
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::Dedup,
	Op::Reverse,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::BinarySearch,
];
const PAR: &[Op] = &[Op::ParSort, Op::ParSort, Op::ParSortCached, Op::ParSortUnstable, Op::ParSortUnstable, Op::ParSelectMany];

fn node(ops: &'static [Op], len: BoxedStrategy<usize>, kids: BoxedStrategy<Vec<Kid>>) -> BoxedStrategy<Node> {
	let panic_at = prop_oneof![3 => Just(None), 1 => (0u32..14, any::<u32>()).prop_map(|(e, m)| Some(1 + m % (1 << e)))];
	let coarse = prop_oneof![2 => Just(1u8), 1 => 2u8..60];
	(select(ops), gen::pattern(len, SHAPES), coarse, any::<bool>(), any::<bool>(), 1u8..4, any::<u32>(), panic_at, kids)
		.prop_map(|(op, data, coarse, reverse, boxed, cols, pick, panic_at, kids)| Node {
			op,
			data,
			coarse,
			reverse,
			boxed,
			cols,
			pick,
			panic_at,
			kids,
		})
		.boxed()
}
fn kids(of: BoxedStrategy<Node>, max: usize, times: u8) -> BoxedStrategy<Vec<Kid>> {
	let kid = ((0u32..13, any::<u32>()), (0u32..11, any::<u32>()), 1..=times, of).prop_map(|(at, every, times, node)| Kid {
		at: 1 + at.1 % (1 << at.0),
		every: 1 + every.1 % (1 << every.0),
		times,
		node,
	});
	prop::collection::vec(kid, 0..=max).boxed()
}
fn forest(root: BoxedStrategy<Node>, max: usize) -> BoxedStrategy<Forest> {
	let how = prop_oneof![2 => Just(How::Sequence), 2 => Just(How::Threads), 1 => Just(How::Lanes)];
	(how, gen::pool(), prop::collection::vec(root, 1..=max)).prop_map(|(how, pool, roots)| Forest { how, pool, roots }).boxed()
}

impl Property for C24 {
	type Case = Forest;
	const ID: &'static str = "C24";
	const QUICK: f64 = 3.0;
	fn phases(t: Tier) -> Vec<Phase<Forest>> {
		let p = |name, cases, strategy| Phase { name, cases, strategy };
		let none = || Just(vec![]).boxed();
		let len = |hi| prop_oneof![3 => gen::lens(0, 200), 1 => gen::lens(0, hi)].boxed();
		let deep = |ops, hi| {
			let leaf = node(ops, len(hi), none());
			let mid = node(ops, len(hi), kids(leaf, 2, 3));
			let top = node(ops, len(hi), kids(mid, 2, 4));
			node(ops, len(hi), kids(top, 2, 4))
		};
		let par_leaf = || node(PAR, gen::edges(2001, 6000), none());
		let both: &[Op] = &[Op::ParSort, Op::ParSortUnstable, Op::ParSelectMany, Op::Sort, Op::SortUnstable, Op::SelectMany];
		vec![
			p("sequential", t.pick(1500, 60_000), forest(deep(SEQ, 700), 3)),
			p("parallel", t.pick(80, 4000), forest(node(PAR, gen::edges(2001, 9000), kids(node(SEQ, len(700), none()), 3, 4)), 3)),
			p("nested parallel", t.pick(80, 4000), forest(node(both, gen::edges(600, 6000), kids(par_leaf(), 2, 2)), 2)),
			p("threads", t.pick(150, 6000), {
				let root = prop_oneof![2 => node(SEQ, gen::lens(0, 3000), none()), 1 => par_leaf()].boxed();
				(select(vec![How::Threads, How::Lanes]), gen::pool(), prop::collection::vec(root, 2..=8))
					.prop_map(|(how, pool, roots)| Forest { how, pool, roots })
					.boxed()
			}),
		]
	}
	fn check(f: &Forest, info: &mut Info) -> Result<(), String> {
		Self::run(f, info)
	}
	fn simpler(f: &Forest, round: u32) -> Vec<Forest> {
		fn nodes(n: &Node) -> Vec<Node> {
			let mut out = vec![];
			for k in 0..n.kids.len() {
				let mut m = n.clone();
				m.kids.remove(k);
				out.push(m);
			}
			let mut with = |f: &dyn Fn(&mut Node)| {
				let mut m = n.clone();
				f(&mut m);
				if m != *n {
					out.push(m);
				}
			};
			with(&|m| m.panic_at = None);
			with(&|m| m.boxed = false);
			with(&|m| m.reverse = false);
			with(&|m| m.coarse = 1);
			with(&|m| m.cols = 1);
			with(&|m| {
				let mut v = m.data.expand();
				v.truncate(v.len() / 2);
				m.data = Data::Explicit(v);
			});
			with(&|m| {
				let mut v = m.data.expand();
				v.truncate(v.len().saturating_sub(1 + v.len() / 10));
				m.data = Data::Explicit(v);
			});
			for k in 0..n.kids.len() {
				with(&|m| m.kids[k].times = 1);
				with(&|m| m.kids[k].at = 1);
				with(&|m| m.kids[k].every = 1);
				for s in nodes(&n.kids[k].node) {
					with(&|m| m.kids[k].node = s.clone());
				}
			}
			out
		}
		let mut out = vec![];
		if round > 4 {
			return out;
		}
		for k in 0..f.roots.len() {
			if f.roots.len() > 1 {
				let mut g = f.clone();
				g.roots.remove(k);
				out.push(g);
			}
		}
		for (how, pool) in [(How::Sequence, f.pool.clone()), (f.how.clone(), Pool::Global)] {
			out.push(Forest { how, pool, roots: f.roots.clone() });
		}
		for k in 0..f.roots.len() {
			// A kid on its own.
			for kid in &f.roots[k].kids {
				let mut g = f.clone();
				g.roots[k] = kid.node.clone();
				out.push(g);
			}
			for s in nodes(&f.roots[k]) {
				let mut g = f.clone();
				g.roots[k] = s;
				out.push(g);
			}
		}
		out
	}
	fn rule() -> &'static str {
		"proptest-generated trees of operations: the callback of an operation runs, at generated calls, other \
		operations on arrays of their own, up to three levels deep, some of them (or the outer one) left by a \
		panic; several such trees run in sequence, on threads of their own, or on threads working on lanes of one \
		array, on generated pools. Oracle: every operation, nested or not, has exactly the outcome (arrangement of \
		individual elements, returned values) it has on its own, before and afterwards. Non-trivial: an operation \
		ran within a callback or besides another one; distinct by the serialised trees; operation_runs counts \
		operations."
	}
	fn cost(f: &Forest) -> u64 {
		fn of(n: &Node) -> u64 {
			20 * n.data.len() as u64 + 50 + n.kids.iter().map(|k| k.times as u64 * of(&k.node)).sum::<u64>()
		}
		f.roots.iter().map(of).sum()
	}
	fn parallel(f: &Forest) -> bool {
		fn of(n: &Node) -> bool {
			n.op.par() || n.kids.iter().any(|k| of(&k.node))
		}
		f.how != How::Sequence || f.roots.iter().any(of)
	}
}
