//! Executes one case against the code under test and observes everything about it.
use crate::case::{Case, Flavor, Op, Pool};
use crate::ctx::{self, Cmp, Exhausted, Injected, Plan};
use crate::data::{Data, Shape};
use crate::elem::{self, *};
use crate::layout::Layout;
use ndarray_slice::ndarray::{Array, ArrayD, ArrayView1, ArrayViewMut1, IxDyn, ShapeBuilder};
use ndarray_slice::Slice1Ext;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
	None,
	Bool(bool),
	Search(Result<usize, usize>),
	Point(usize),
	Select(usize),
	Many(usize),
	Dedup(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Panicked {
	Injected(u64),
	Exhausted(u64),
	Other(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
	pub key: i32,
	pub id: u32,
	pub touches: u32,
}

#[derive(Clone, Debug)]
pub struct Run {
	pub out: Out,
	pub panic: Option<Panicked>,
	/// Lane afterwards.
	pub after: Vec<Cell>,
	/// Broken structural guarantees: canaries, aliasing of results, drops, integrity.
	pub bad: Option<String>,
	pub calls: u64,
	pub keys: u64,
	pub keys_live: u64,
	pub trace: u64,
	pub has_id: bool,
	/// Net bytes, number of allocations and peak bytes allocated during the operation.
	pub alloc: crate::alloc::Usage,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let p = info.payload();
		if p.is::<Injected>() || p.is::<Exhausted>() {
			return;
		}
		let was = crate::alloc::pause();
		*LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = info.to_string();
		crate::alloc::resume(was);
	}));
}

pub fn classify(p: Box<dyn std::any::Any + Send>) -> Panicked {
	let p = match p.downcast::<Injected>() {
		Ok(p) => return Panicked::Injected(p.0),
		Err(p) => p,
	};
	let p = match p.downcast::<Exhausted>() {
		Ok(p) => return Panicked::Exhausted(p.0),
		Err(p) => p,
	};
	drop(p);
	Panicked::Other(LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
}

pub fn pool(size: usize) -> &'static rayon::ThreadPool {
	static POOLS: [OnceLock<rayon::ThreadPool>; 17] = [const { OnceLock::new() }; 17];
	let size = size.clamp(1, 16);
	POOLS[size].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(size).build().unwrap())
}

fn busy(len: i32) -> bool {
	let mut other = Array::from_iter((0..len).map(|i| (i * 7919) % 1009));
	other.par_sort_unstable();
	other.is_sorted()
}

pub fn with_pool<R: Send>(p: Pool, f: impl FnOnce() -> R + Send) -> R {
	match p {
		Pool::Global => f(),
		Pool::Size(n) => pool(n as usize).install(f),
		Pool::InJoin(n) => {
			let (r, ok) = pool(n as usize).install(|| rayon::join(f, || busy(3000)));
			assert!(ok, "concurrent sort failed");
			r
		}
		Pool::InScope(n) => {
			let mut r = None;
			let oks = [const { std::sync::atomic::AtomicBool::new(false) }; 3];
			pool(n as usize).scope(|s| {
				for ok in &oks {
					s.spawn(|_| ok.store(busy(2500), std::sync::atomic::Ordering::Relaxed));
				}
				let r = &mut r;
				s.spawn(move |_| *r = Some(f()));
			});
			for ok in &oks {
				assert!(ok.load(std::sync::atomic::Ordering::Relaxed), "concurrent sort failed");
			}
			r.unwrap()
		}
	}
}

pub struct Resolved {
	pub keys: Vec<i32>,
	pub idx: Vec<usize>,
}

/// Callback budget no operation comes near on a total preorder.
pub fn budget(n: usize) -> u64 {
	let n = n as u64 + 16;
	20_000 + 60 * n * (64 - n.leading_zeros() as u64)
}

/// Applies restrictions of element types and layouts.
pub fn normalise(case: &Case) -> Case {
	let mut c = case.clone();
	let n = c.data.len();
	c.layout = c.layout.fit(n);
	let total: usize = c.layout.shape(n).0.iter().product();
	match c.elem {
		ElemKind::B3 if total > 65_000 => c.elem = ElemKind::It,
		ElemKind::Big if total > 200_000 => c.elem = ElemKind::It,
		ElemKind::Bx | ElemKind::Tr if total + 64 > LEDGER => c.elem = ElemKind::It,
		_ => {}
	}
	if c.elem != ElemKind::It {
		c.flavor = Flavor::By;
		c.key = KeyKind::Kw;
	}
	if c.op.cached() && !c.cmp.well_behaved() {
		c.key = KeyKind::Kw;
	}
	c
}

/// Values and indices, playing the adversary against the operation where asked for.
pub fn resolve(case: &Case) -> Result<Resolved, String> {
	let n = case.data.len();
	let idx = case.idx.resolve(n);
	if !case.data.adversarial() {
		return Ok(Resolved { keys: held(case, case.data.expand()), idx });
	}
	let Data::Pattern { shape, p, seed, .. } = &case.data else { unreachable!() };
	let mut c = case.clone();
	c.elem = ElemKind::It;
	c.layout = Layout::Contig;
	c.pool = Pool::Size(1);
	c.key = KeyKind::Kw;
	if !c.cmp.well_behaved() {
		c.cmp = Cmp::Nat;
	}
	let keys: Vec<i32> = (0..n as i32).collect();
	let freeze = if *p == 0 { n } else { *p as usize };
	// `exec` installs the natural order: replaced once started.
	let plan = Plan::new(Cmp::Nat, budget(n) * 4);
	let run = exec_with::<It>(&c, &keys, &idx, &plan, Some((freeze, *shape == Shape::KillerRev, seed & 2 == 2)));
	let vals = ctx::adversary_end(seed & 1 == 0);
	// If it panicked it does so again with the order decided until then.
	if let Some(b) = &run.bad {
		return Err(format!("while an adversary chose the order: {b}"));
	}
	// The adversary decides the order, hence undo the rank transformation where it reverses it.
	let keys = match case.cmp {
		Cmp::Rev | Cmp::RevCoarse(_) => vals.iter().map(|v| -v).collect(),
		_ => vals,
	};
	Ok(Resolved { keys: held(case, keys), idx })
}

/// Keys as the elements hold them.
fn held(case: &Case, mut keys: Vec<i32>) -> Vec<i32> {
	for k in &mut keys {
		*k = crate::verify::mask(case, *k);
	}
	keys
}

pub fn exec(case: &Case, keys: &[i32], idx: &[usize], plan: &Plan) -> Run {
	match case.elem {
		ElemKind::It => exec_with::<It>(case, keys, idx, plan, None),
		ElemKind::Tr => exec_with::<Tr>(case, keys, idx, plan, None),
		ElemKind::Bx => exec_with::<Bx>(case, keys, idx, plan, None),
		ElemKind::Big => exec_with::<Big>(case, keys, idx, plan, None),
		ElemKind::B3 => exec_with::<B3>(case, keys, idx, plan, None),
		ElemKind::Al => exec_with::<Al>(case, keys, idx, plan, None),
		ElemKind::I32 => exec_with::<I32>(case, keys, idx, plan, None),
		ElemKind::Zs => exec_with::<Zs>(case, keys, idx, plan, None),
	}
}

fn exec_with<E: Elem>(
	case: &Case,
	keys: &[i32],
	idx: &[usize],
	plan: &Plan,
	adversary: Option<(usize, bool, bool)>,
) -> Run {
	let n = keys.len();
	let layout = case.layout;
	let (shape, f) = layout.shape(n);
	let total: usize = shape.iter().product();
	// Identities by memory position.
	let mut at: ArrayD<u32> =
		Array::from_shape_fn(IxDyn(&shape).set_f(f), |_| u32::MAX);
	{
		let mut lane = layout.lane(n, at.view_mut());
		assert_eq!(lane.len(), n);
		for (i, x) in lane.iter_mut().enumerate() {
			*x = i as u32;
		}
	}
	let mut next = n as u32;
	let mut at = at.into_raw_vec_and_offset().0;
	for x in &mut at {
		if *x == u32::MAX {
			*x = next;
			next += 1;
		}
	}
	assert_eq!(next as usize, total);
	let filler = |id: u32| (ctx::mix(id as u64) % 251) as i32;
	let tracked = matches!(case.elem, ElemKind::Tr | ElemKind::Bx) || E::TOUCHES;
	if tracked || case.elem == ElemKind::Zs {
		elem::ledger_reset(total.min(LEDGER));
	}
	let vec: Vec<E> = at
		.iter()
		.map(|&id| {
			E::make(if (id as usize) < n { keys[id as usize] } else { filler(id) }, id)
		})
		.collect();
	let mut array: ArrayD<E> =
		Array::from_shape_vec(IxDyn(&shape).set_f(f), vec).expect("shape");
	let mut bad = None;
	let (out, panic, usage, calls, nkeys, live, trace);
	let after;
	let base = array.as_mut_ptr();
	let neighbours: Vec<(usize, usize)> = if cfg!(asan) && total > n {
		at.chunk_by(|&a, &b| ((a as usize) < n) == ((b as usize) < n))
			.scan(0, |to, run| {
				let from = *to;
				*to += run.len();
				Some((from, *to, run[0] as usize >= n))
			})
			.filter(|&(.., outside)| outside)
			.map(|(from, to, _)| (base.wrapping_add(from) as usize, (to - from) * std::mem::size_of::<E>()))
			.collect()
	} else {
		vec![]
	};
	{
		let mut lane = layout.lane(n, array.view_mut());
		let addrs: Vec<usize> = if case.op.selects() || case.op == Op::Dedup {
			lane.iter().map(|e| e as *const E as usize).collect()
		} else {
			vec![]
		};
		let target = E::make(case.target, NOID);
		match adversary {
			Some(a) => ctx::adversary_begin(n, a, plan.budget),
			None => ctx::begin(plan),
		}
		let idx_array = index_array(idx, case.idx_step);
		poison::set(&neighbours, true);
		let r = run_op(case, &mut lane, &addrs, idx_array.view(), idx, &target, &mut bad);
		poison::set(&neighbours, false);
		calls = ctx::calls();
		nkeys = ctx::KEYS.load(std::sync::atomic::Ordering::Relaxed);
		live = ctx::KEYS_LIVE.load(std::sync::atomic::Ordering::Relaxed);
		trace = ctx::trace();
		ctx::end();
		usage = crate::alloc::last();
		match r {
			Ok(o) => {
				out = o;
				panic = None;
			}
			Err(p) => {
				out = Out::None;
				panic = Some(classify(p));
			}
		}
		after = lane
			.iter()
			.map(|e| Cell { key: e.key(), id: e.id(), touches: e.touches() })
			.collect::<Vec<_>>();
		if let Some(i) = lane.iter().position(|e| !e.intact()) {
			bad.get_or_insert(format!("element at position {i} is corrupted"));
		}
	}
	// Canaries.
	let (raw, offset) = array.into_raw_vec_and_offset();
	if raw.len() != total || offset.unwrap_or(0) != 0 {
		bad.get_or_insert("backing array changed".into());
	}
	for (e, &id) in raw.iter().zip(&at) {
		if id as usize >= n {
			let want = E::make(filler(id), NOID);
			if e.key() != want.key() || (E::HAS_ID && e.id() != id) || !e.intact() || e.touches() != 0 {
				bad.get_or_insert(format!("element outside the lane changed (position {})", id));
				break;
			}
		}
	}
	if tracked {
		if let Err(e) = elem::ledger_check(total.min(LEDGER), 0) {
			bad.get_or_insert(format!("while the array is alive: {e}"));
		}
	}
	drop(raw);
	if tracked {
		if let Err(e) = elem::ledger_check(total.min(LEDGER), 1) {
			bad.get_or_insert(format!("after dropping the array: {e}"));
		}
	} else if case.elem == ElemKind::Zs && elem::zs_drops() != total as u64 {
		bad.get_or_insert(format!("{} of {total} zero-sized elements dropped", elem::zs_drops()));
	}
	Run {
		out,
		panic,
		after,
		bad,
		calls,
		keys: nkeys,
		keys_live: live,
		trace,
		has_id: E::HAS_ID,
		alloc: usage,
	}
}

/// Elements next to the lane are off limits for the sanitizers during the operation.
mod poison {
	#[cfg(san_address)]
	extern "C" {
		#[link_name = "__asan_poison_memory_region"]
		fn poison(addr: usize, size: usize);
		#[link_name = "__asan_unpoison_memory_region"]
		fn unpoison(addr: usize, size: usize);
	}
	#[cfg(san_memory)]
	extern "C" {
		#[link_name = "__msan_poison"]
		fn poison(addr: usize, size: usize);
		#[link_name = "__msan_unpoison"]
		fn unpoison(addr: usize, size: usize);
	}
	#[cfg(not(any(san_address, san_memory)))]
	unsafe fn poison(_: usize, _: usize) {}
	#[cfg(not(any(san_address, san_memory)))]
	unsafe fn unpoison(_: usize, _: usize) {}

	pub fn set(regions: &[(usize, usize)], on: bool) {
		for &(addr, size) in regions {
			if size > 0 {
				unsafe { if on { poison(addr, size) } else { unpoison(addr, size) } }
			}
		}
	}
}

pub fn index_array(idx: &[usize], step: i8) -> IndexArray {
	let s = (step.unsigned_abs() as usize).clamp(1, 4);
	let m = idx.len();
	let mut raw = vec![usize::MAX; m * s];
	for (i, &x) in idx.iter().enumerate() {
		let at = if step < 0 { m - 1 - i } else { i };
		raw[at * s] = x;
	}
	IndexArray { raw: Array::from_vec(raw), s, neg: step < 0 }
}
pub struct IndexArray {
	raw: ndarray_slice::ndarray::Array1<usize>,
	s: usize,
	neg: bool,
}
impl IndexArray {
	pub fn view(&self) -> ArrayView1<'_, usize> {
		let mut v = self.raw.slice(ndarray_slice::ndarray::s![..;self.s]);
		if self.neg {
			v.invert_axis(ndarray_slice::ndarray::Axis(0));
		}
		v
	}
}

type Caught<T> = Result<T, Box<dyn std::any::Any + Send>>;

fn guarded<T>(par: bool, f: impl FnOnce() -> T) -> Caught<T> {
	let f = AssertUnwindSafe(f);
	crate::alloc::start(par);
	let r = catch_unwind(f);
	crate::alloc::stop();
	r
}

#[inline]
fn by<E: Elem>(a: &E, b: &E) -> std::cmp::Ordering {
	elem::compare(a, b)
}
#[inline]
fn key<E: Elem>(a: &E) -> Kw {
	if E::TOUCHES && ctx::touching() {
		a.touch();
	}
	Kw::new(a.key())
}

/// Key which isn't made by a key function.
struct Uncounted(std::mem::ManuallyDrop<Kw>);
impl Uncounted {
	fn get(&self) -> &Kw {
		&self.0
	}
}

pub fn run_op<E: Elem>(
	case: &Case,
	lane: &mut ArrayViewMut1<'_, E>,
	addrs: &[usize],
	idx: ArrayView1<'_, usize>,
	idx_ref: &[usize],
	target: &E,
	bad: &mut Option<String>,
) -> Caught<Out> {
	let n = lane.len();
	let zst = std::mem::size_of::<E>() == 0;
	let flavor = case.flavor;
	let cmp = case.cmp;
	let pool = case.pool;
	let par = case.op.par();
	let target_key = Uncounted(std::mem::ManuallyDrop::new(Kw(case.target)));
	macro_rules! flavors {
		($v:ident, $plain:expr, $by:expr, $key:expr) => {
			if E::FULL {
				match flavor {
					Flavor::Plain => $plain,
					Flavor::By => $by,
					Flavor::Key => $key,
				}
			} else {
				$by
			}
		};
	}
	macro_rules! cached {
		($m:ident) => {
			if E::FULL {
				let rank = move |e: &E| cmp.rank(e.key());
				match case.key {
					KeyKind::U8 => lane.$m(move |e| k_u8(rank(e))),
					KeyKind::U16 => lane.$m(move |e| k_u16(rank(e))),
					KeyKind::A3 => lane.$m(move |e| k_a3(rank(e))),
					KeyKind::U32 => lane.$m(move |e| k_u32(rank(e))),
					KeyKind::U64 => lane.$m(move |e| k_i64(rank(e))),
					KeyKind::Str => lane.$m(move |e| k_str(rank(e))),
					KeyKind::Kw => lane.$m(key),
				}
			} else {
				lane.$m(key)
			}
		};
	}
	match case.op {
		Op::Sort => guarded(par, || {
			flavors!(lane, lane.sort(), lane.sort_by(by), lane.sort_by_key(key));
			Out::None
		}),
		Op::SortCached => guarded(par, || {
			cached!(sort_by_cached_key);
			Out::None
		}),
		Op::SortUnstable => guarded(par, || {
			flavors!(
				lane,
				lane.sort_unstable(),
				lane.sort_unstable_by(by),
				lane.sort_unstable_by_key(key)
			);
			Out::None
		}),
		Op::ParSort => guarded(par, || {
			with_pool(pool, || {
				flavors!(lane, lane.par_sort(), lane.par_sort_by(by), lane.par_sort_by_key(key))
			});
			Out::None
		}),
		Op::ParSortCached => guarded(par, || {
			with_pool(pool, || cached!(par_sort_by_cached_key));
			Out::None
		}),
		Op::ParSortUnstable => guarded(par, || {
			with_pool(pool, || {
				flavors!(
					lane,
					lane.par_sort_unstable(),
					lane.par_sort_unstable_by(by),
					lane.par_sort_unstable_by_key(key)
				)
			});
			Out::None
		}),
		Op::Select => {
			let i = idx_ref.first().copied().unwrap_or(0);
			guarded(par, || {
				let (l, m, r) = flavors!(
					lane,
					lane.select_nth_unstable(i),
					lane.select_nth_unstable_by(i, by),
					lane.select_nth_unstable_by_key(i, key)
				);
				let was = crate::alloc::pause();
				if l.len() != i || r.len() + i + 1 != n {
					bad.get_or_insert(format!(
						"selected {i} of {n}, but views have lengths {} and {}",
						l.len(),
						r.len()
					));
				} else if !zst
					&& (!l.iter().map(|e| e as *const E as usize).eq(addrs[..i].iter().copied())
						|| m as *const E as usize != addrs[i]
						|| !r.iter().map(|e| e as *const E as usize).eq(addrs[i + 1..].iter().copied()))
				{
					bad.get_or_insert("returned views do not refer to the array".into());
				}
				crate::alloc::resume(was);
				Out::Select(i)
			})
		}
		Op::SelectMany => {
			let mut pre: Vec<E> = (0..case.pre).map(|_| E::make(7, NOID)).collect();
			let pre_addrs: Vec<usize> = pre.iter().map(|e| e as *const E as usize).collect();
			let mut coll: Vec<(usize, &mut E)> =
				pre.iter_mut().enumerate().map(|(i, e)| (usize::MAX - i, e)).collect();
			if case.b == u32::MAX {
				coll.reserve(idx.len());
			} else {
				coll.reserve_exact((case.pre as usize * 7 + case.a as usize) % 5);
			}
			let r = guarded(par, || {
				flavors!(
					lane,
					lane.select_many_nth_unstable(&idx, &mut coll),
					lane.select_many_nth_unstable_by(&idx, &mut coll, by),
					lane.select_many_nth_unstable_by_key(&idx, &mut coll, key)
				);
				Out::Many(0)
			});
			let refs: Vec<(Option<usize>, usize)> =
				coll.iter().map(|(i, e)| (Some(*i), &**e as *const E as usize)).collect();
			drop(coll);
			many(bad, &refs, &pre_addrs, addrs, idx_ref, zst, r.is_ok());
			r.map(|_| Out::Many(refs.len() - pre_addrs.len()))
		}
		Op::ParSelectMany => {
			let mut pre: Vec<E> = (0..case.pre).map(|_| E::make(7, NOID)).collect();
			let pre_addrs: Vec<usize> = pre.iter().map(|e| e as *const E as usize).collect();
			let mut coll: Vec<&mut E> = pre.iter_mut().collect();
			match case.a % 3 {
				0 => {}
				1 => coll.reserve_exact(case.a as usize % 5),
				_ => coll.reserve(idx.len() + case.a as usize % 50),
			}
			let r = guarded(par, || {
				let coll = &mut coll;
				with_pool(pool, move || {
					flavors!(
						lane,
						lane.par_select_many_nth_unstable(&idx, coll),
						lane.par_select_many_nth_unstable_by(&idx, coll, by),
						lane.par_select_many_nth_unstable_by_key(&idx, coll, key)
					)
				});
				Out::Many(0)
			});
			let refs: Vec<(Option<usize>, usize)> =
				coll.iter().map(|e| (None, &**e as *const E as usize)).collect();
			drop(coll);
			many(bad, &refs, &pre_addrs, addrs, idx_ref, zst, r.is_ok());
			r.map(|_| Out::Many(refs.len() - pre_addrs.len()))
		}
		Op::IsSorted => guarded(par, || {
			Out::Bool(flavors!(
				lane,
				lane.is_sorted(),
				lane.is_sorted_by(|a, b| by(a, b) != std::cmp::Ordering::Greater),
				lane.is_sorted_by_key(key)
			))
		}),
		Op::PartitionPoint => guarded(par, || {
			Out::Point(lane.partition_point(|e| {
				ctx::compare(e.key(), case.target) == std::cmp::Ordering::Less
			}))
		}),
		Op::Contains => guarded(par, || Out::Bool(lane.contains(target))),
		Op::BinarySearch => guarded(par, || {
			Out::Search(flavors!(
				lane,
				lane.binary_search(target),
				lane.binary_search_by(|e| by(e, target)),
				lane.binary_search_by_key(target_key.get(), key)
			))
		}),
		Op::Dedup => guarded(par, || {
			let (l, r) = flavors!(
				lane,
				lane.partition_dedup(),
				lane.partition_dedup_by(|a, b| by(a, b) == std::cmp::Ordering::Equal),
				lane.partition_dedup_by_key(|e| key(e))
			);
			let was = crate::alloc::pause();
			let k = l.len();
			if k + r.len() != n {
				bad.get_or_insert(format!("views of {} and {} elements of {n}", k, r.len()));
			} else if !zst
				&& !l
					.iter()
					.chain(r.iter())
					.map(|e| e as *const E as usize)
					.eq(addrs.iter().copied())
			{
				bad.get_or_insert("returned views do not refer to the array".into());
			}
			crate::alloc::resume(was);
			Out::Dedup(k)
		}),
		Op::Reverse => guarded(par, || {
			lane.reverse();
			Out::None
		}),
	}
}

/// Checks the collection bulk selection extends.
fn many(
	bad: &mut Option<String>,
	refs: &[(Option<usize>, usize)],
	pre: &[usize],
	addrs: &[usize],
	idx: &[usize],
	zst: bool,
	returned: bool,
) {
	let mut fail = |s: String| {
		bad.get_or_insert(s);
	};
	if refs.len() < pre.len() {
		return fail("collection shrank".into());
	}
	for (i, ((j, r), p)) in refs.iter().zip(pre).enumerate() {
		if (!zst && r != p) || j.is_some_and(|j| j != usize::MAX - i) {
			return fail("earlier entries of the collection changed".into());
		}
	}
	let new = &refs[pre.len()..];
	if !returned {
		// Partially extended collections have to be valid.
		let set: std::collections::HashSet<usize> = addrs.iter().copied().collect();
		for (j, r) in new {
			if !zst && !set.contains(r) {
				return fail("collection refers to something outside the array".into());
			}
			if let Some(j) = j {
				if *j >= addrs.len() || (!zst && addrs[*j] != *r) {
					return fail("collection pairs an index with another element".into());
				}
			}
		}
		return;
	}
	if new.len() != idx.len() {
		return fail(format!("collection extended by {} instead of {}", new.len(), idx.len()));
	}
	for ((j, r), &i) in new.iter().zip(idx) {
		if j.is_some_and(|j| j != i) || i >= addrs.len() || (!zst && addrs[i] != *r) {
			return fail(format!("collection entry for index {i} is wrong"));
		}
	}
}
