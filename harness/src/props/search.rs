//! C09-C11: searches, element-wise predicates and deduplication.
use super::common;
use crate::case::{Case, Op};
use crate::ctx::{mix, Cmp, Plan};
use crate::data::{Data, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::ElemKind;
use crate::exec::{self, budget, Out, Resolved};
use crate::gen;
use crate::layout::Layout;
use crate::verify;
use ndarray_slice::ndarray::{Array1, ArrayD, ArrayView1, ArrayViewMut1, IxDyn, ShapeBuilder};
use ndarray_slice::Slice1Ext;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

fn phase<C: std::fmt::Debug>(name: &'static str, cases: u32, strategy: BoxedStrategy<C>) -> Phase<C> {
	Phase { name, cases, strategy }
}

/// Sorts the keys by the comparison in force.
fn sort_by_rank(c: &Case, res: &mut Resolved) {
	res.keys.sort_by_key(|&k| c.cmp.rank(k));
}

pub struct C09;
const SEARCHES: &[Op] = &[Op::BinarySearch, Op::BinarySearch, Op::PartitionPoint];
const SEARCHED: &[(u32, ElemKind)] = &[
	(10, ElemKind::It),
	(1, ElemKind::Bx),
	(2, ElemKind::Big),
	(2, ElemKind::B3),
	(1, ElemKind::Al),
	(2, ElemKind::I32),
	(1, ElemKind::Zs),
];
impl C09 {
	fn one(c: &Case, res: &Resolved, good: bool, info: &mut Info) -> Result<(), String> {
		let n = res.keys.len();
		let run = exec::exec(c, &res.keys, &[], &Plan::new(c.cmp, budget(n)));
		info.runs += 1;
		if good {
			return verify::verify(c, res, &run);
		}
		verify::clean(&run)?;
		verify::unchanged(&run)?;
		match run.out {
			Out::Search(Ok(i)) if i < n => Ok(()),
			Out::Search(Err(i)) | Out::Point(i) if i <= n => Ok(()),
			o => Err(format!("{o:?} with {n} elements")),
		}
	}
}
/// Lanes of more elements than any array in memory has: pages never touched, elements told by address.
mod huge {
	use super::Search;
	use crate::driver::Info;
	use ndarray_slice::ndarray::{ArrayView1, Axis, Dim, ShapeBuilder};
	use ndarray_slice::Slice1Ext;
	use std::cmp::Ordering::{self, *};
	use std::sync::OnceLock;

	extern "C" {
		fn mmap(addr: *mut u8, size: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	}
	/// Address and size of untouched memory which is only readable.
	pub fn region() -> (usize, usize) {
		static REGION: OnceLock<(usize, usize)> = OnceLock::new();
		*REGION.get_or_init(|| {
			for bits in (30..=45).rev() {
				// PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
				let p = unsafe { mmap(std::ptr::null_mut(), 1 << bits, 1, 0x4022, -1, 0) };
				if p as isize != -1 {
					return (p as usize, 1 << bits);
				}
			}
			(0, 0)
		})
	}
	pub fn check(op: &Search, info: &mut Info) -> Result<(), String> {
		match *op {
			Search::Huge { len, size, .. } => match size % 4 {
				0 => run::<u8>(op, len as usize, info),
				1 => run::<[u8; 3]>(op, len as usize, info),
				2 => run::<u64>(op, len as usize, info),
				_ => run::<[u64; 9]>(op, len as usize, info),
			},
			Search::Constant { len, answer, zst } => {
				let n = len as usize & isize::MAX as usize;
				let x = 5u32;
				let answer = [Less, Equal, Greater][answer as usize % 3];
				info.class("constant answers");
				info.when(n > u32::MAX as usize, "more than 32 bits");
				let (found, point) = if zst {
					let dim = Dim([n]).strides(Dim([1]));
					let v = unsafe { ArrayView1::from_shape_ptr(dim, std::ptr::NonNull::<()>::dangling().as_ptr()) };
					(v.binary_search_by(|()| answer), v.partition_point(|()| answer == Less))
				} else {
					// Broadcast lanes are as long as they like for elements of any size.
					let n = n.max(1);
					let v = ArrayView1::from_shape(1, std::slice::from_ref(&x)).unwrap();
					let v = v.broadcast(n).ok_or("not broadcast")?;
					(v.binary_search_by(|y| if *y == 5 { answer } else { Less }), v.partition_point(|_| answer == Less))
				};
				let n = if zst { n } else { n.max(1) };
				info.nontrivial = n > 0;
				info.runs += 2;
				let ok = match (answer, found) {
					_ if n == 0 => found == Err(0),
					(Less, Err(i)) => i == n,
					(Greater, Err(i)) => i == 0,
					(Equal, Ok(i)) => i < n,
					_ => false,
				};
				if !ok {
					return Err(format!("{answer:?} only: {found:?} with {n} elements"));
				}
				if point != if answer == Less { n } else { 0 } {
					return Err(format!("{answer:?} only: partition point {point} with {n} elements"));
				}
				Ok(())
			}
			Search::Std(_) => unreachable!(),
		}
	}
	fn run<T>(op: &Search, len: usize, info: &mut Info) -> Result<(), String> {
		let Search::Huge { step, neg, at, width, how, .. } = *op else { unreachable!() };
		let step = step.clamp(1, 5) as usize;
		let (base, bytes) = region();
		let size = size_of::<T>() * step;
		if bytes == 0 {
			info.class("no address space");
			return Ok(());
		}
		let n = (len % (bytes / size)).max(1);
		let base = base.next_multiple_of(align_of::<T>());
		let dim = Dim([n]).strides(Dim([step]));
		let mut v = unsafe { ArrayView1::<T>::from_shape_ptr(dim, base as *const T) };
		if neg {
			v.invert_axis(Axis(0));
		}
		let at = (at as u128 * (n as u128 + 1) >> 64) as usize;
		let end = at.saturating_add(width as usize).min(n);
		info.nontrivial = true;
		info.class(format!("2^{} elements", n.ilog2() / 8 * 8));
		info.when(step > 1, "strided");
		info.when(neg, "reversed");
		let mut calls = 0;
		let mut wild = None;
		let mut index = |x: *const T| {
			calls += 1;
			let off = (x as usize).wrapping_sub(base);
			if off % size != 0 || off / size >= n {
				wild = Some(off);
			}
			if neg { (n - 1).wrapping_sub(off / size) } else { off / size }
		};
		let side = |i: usize| if i < at { Less } else if i < end { Equal } else { Greater };
		info.runs += 1;
		let (what, ok) = match how % 3 {
			0 => {
				let p = v.partition_point(|x| index(x) < at);
				(format!("{p}"), p == at)
			}
			how => {
				let r = if how == 1 {
					v.binary_search_by(|x| side(index(x)))
				} else {
					v.binary_search_by_key(&Equal, |x| -> Ordering { side(index(x)) })
				};
				(format!("{r:?}"), match r {
					Ok(i) => at <= i && i < end,
					Err(i) => at == end && i == at,
				})
			}
		};
		if let Some(off) = wild {
			return Err(format!("element at byte {off} of {n} elements of {size} bytes"));
		}
		if !ok {
			return Err(format!("{what} for equal elements {at}..{end} of {n}"));
		}
		if calls > n.ilog2() + 3 {
			return Err(format!("{calls} calls with {n} elements"));
		}
		Ok(())
	}
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Search {
	Std(Case),
	/// Lane of `len` elements, those at a fraction `at` of it matching.
	Huge { len: u64, size: u8, step: u8, neg: bool, at: u64, width: u64, how: u8 },
	/// Broadcast or zero-sized elements.
	Constant { len: u64, answer: u8, zst: bool },
}

impl Property for C09 {
	type Case = Search;
	const ID: &'static str = "C09";
	fn phases(t: Tier) -> Vec<Phase<Search>> {
		let g = gen::good_cmp;
		// Any magnitude and its surroundings.
		let huge_len = || (0u32..63, any::<u64>(), 0u64..5, any::<bool>()).prop_map(|(bits, x, d, round)| {
			if round { (1u64 << bits).wrapping_add(d).wrapping_sub(2) & i64::MAX as u64 } else { (1u64 << bits) | x & ((1 << bits) - 1) }
		});
		let at = prop_oneof![1 => Just(0u64), 1 => Just(u64::MAX), 4 => any::<u64>()];
		let width = prop_oneof![2 => Just(0u64), 2 => 1u64..4, 1 => any::<u64>(), 1 => (0u32..45).prop_map(|b| 1 << b)];
		let huge = (huge_len(), 0u8..4, 1u8..6, any::<bool>(), at, width, 0u8..3)
			.prop_map(|(len, size, step, neg, at, width, how)| Search::Huge { len, size, step, neg, at, width, how })
			.boxed();
		let constant = (huge_len(), 0u8..3, any::<bool>())
			.prop_map(|(len, answer, zst)| Search::Constant { len, answer, zst })
			.boxed();
		vec![
			phase("every target", t.pick(9000, 200_000), gen::case(SEARCHES, SEARCHED, gen::data(0, 40), g()).prop_map(Search::Std).boxed()),
			phase("sorted", t.pick(50_000, 1_000_000), gen::case(SEARCHES, SEARCHED, gen::data(0, 3000), g()).prop_map(Search::Std).boxed()),
			phase("long", t.pick(600, 15_000), gen::case(SEARCHES, SEARCHED, gen::pattern(gen::lens(3000, 150_000), SHAPES), g()).prop_map(Search::Std).boxed()),
			phase("inconsistent", t.pick(30_000, 500_000), gen::case(SEARCHES, SEARCHED, gen::data(0, 1500), gen::bad_cmp()).prop_map(Search::Std).boxed()),
			phase("huge", t.pick(40_000, 1_000_000), huge),
			phase("constant", t.pick(8000, 100_000), constant),
		]
	}
	fn check(case: &Search, info: &mut Info) -> Result<(), String> {
		let Search::Std(case) = case else { return huge::check(case, info) };
		let mut c = exec::normalise(case);
		let mut res = exec::resolve(&c)?;
		let n = res.keys.len();
		let good = c.cmp.well_behaved();
		// One in eight stays unsorted.
		let sorted = good && c.a % 8 != 7;
		if sorted {
			sort_by_rank(&c, &mut res);
		}
		common::classify(&c, &res, info);
		info.class(if sorted { "sorted" } else { "unsorted" });
		info.nontrivial = n > 0;
		if sorted && n <= 40 {
			let mut targets: Vec<i32> =
				res.keys.iter().flat_map(|&k| [k.saturating_sub(1), k, k.saturating_add(1)]).collect();
			targets.extend([i32::MIN, i32::MAX, c.target]);
			targets.sort();
			targets.dedup();
			info.class("every target");
			for t in targets {
				c.target = t;
				C09::one(&c, &res, true, info).map_err(|e| format!("target {t}: {e}"))?;
			}
			return Ok(());
		}
		if n > 0 && c.a >> 4 & 3 != 0 {
			let k = res.keys[mix(c.b as u64) as usize % n];
			c.target = match c.a >> 6 & 3 {
				0 => k.saturating_sub(1),
				1 => k.saturating_add(1),
				_ => k,
			};
		}
		C09::one(&c, &res, good, info).map_err(|e| format!("target {}: {e}", c.target))
	}
	fn simpler(case: &Search, round: u32) -> Vec<Search> {
		match *case {
			Search::Std(ref c) => common::simpler(c, round).into_iter().map(Search::Std).collect(),
			Search::Huge { len, size, step, neg, at, width, how } => {
				let mut out = vec![];
				let all = [
					(len / 2, size, step, neg, at, width),
					(len.saturating_sub(1), size, step, neg, at, width),
					(len, 0, step, neg, at, width),
					(len, size, 1, neg, at, width),
					(len, size, step, false, at, width),
					(len, size, step, neg, 0, width),
					(len, size, step, neg, u64::MAX, width),
					(len, size, step, neg, at, width.min(1)),
				];
				for (len, size, step, neg, at, width) in all {
					out.push(Search::Huge { len, size, step, neg, at, width, how });
				}
				out.retain(|c| c != case);
				out
			}
			Search::Constant { len, answer, zst } => [len / 2, len.saturating_sub(1)]
				.into_iter()
				.filter(|&l| l != len)
				.map(|len| Search::Constant { len, answer, zst })
				.collect(),
		}
	}
	fn rule() -> &'static str {
		"proptest-generated search x flavour x element type x layout x data, sorted by the comparison in 7 of \
		8 cases; with at most 40 elements every target below, at and above each element is searched, otherwise \
		one derived from an element or arbitrary; ill-behaved comparisons check the range only. Oracle: linear \
		scan. Huge lanes have up to 2^45 bytes of address space never accessed, the callbacks telling elements \
		by address, or up to 2^63-1 broadcast or zero-sized elements. Non-trivial: at least one element; \
		distinct by the serialised case."
	}
	fn cost(c: &Search) -> u64 {
		if let Search::Std(c) = c { common::cost(c) } else { 1 }
	}
}

/// Runs something on a lane holding the items, the rest of the backing array holding fillers.
/// Returns the backing array's other items as well.
fn with_lane<T, R>(
	layout: Layout,
	items: Vec<T>,
	mut filler: impl FnMut(usize) -> T,
	f: impl FnOnce(ArrayViewMut1<'_, T>) -> R,
) -> (R, Vec<T>, Vec<T>) {
	let n = items.len();
	let (shape, order) = layout.shape(n);
	let mut at: ArrayD<usize> = ArrayD::from_elem(IxDyn(&shape).set_f(order), usize::MAX);
	for (i, x) in layout.lane(n, at.view_mut()).iter_mut().enumerate() {
		*x = i;
	}
	let at = at.into_raw_vec_and_offset().0;
	let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
	let raw: Vec<T> = at
		.iter()
		.enumerate()
		.map(|(m, &i)| if i == usize::MAX { filler(m) } else { items[i].take().unwrap() })
		.collect();
	let mut array = ArrayD::from_shape_vec(IxDyn(&shape).set_f(order), raw).unwrap();
	let r = f(layout.lane(n, array.view_mut()));
	let raw = array.into_raw_vec_and_offset().0;
	let mut rest = vec![];
	let mut lane: Vec<Option<T>> = (0..n).map(|_| None).collect();
	for (x, i) in raw.into_iter().zip(at) {
		if i == usize::MAX {
			rest.push(x);
		} else {
			lane[i] = Some(x);
		}
	}
	(r, lane.into_iter().map(Option::unwrap).collect(), rest)
}

/// Floats with everything partial about them.
const FLOATS: [f64; 12] = [
	f64::NEG_INFINITY,
	-2.5,
	-1.0,
	-0.0,
	0.0,
	5e-324,
	0.5,
	1.0,
	1.0,
	2.0,
	f64::INFINITY,
	f64::NAN,
];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum FloatOp {
	IsSorted,
	/// Arbitrary predicate of the pair.
	IsSortedBy(u32),
	/// `<` instead of `<=`.
	IsStrictlySortedBy,
	IsSortedByKey,
	Contains(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pred {
	Std(Case),
	Float {
		op: FloatOp,
		/// Indices of `FLOATS`.
		vals: Vec<u8>,
		/// Sort the values except for this many swaps.
		sort: Option<u8>,
		layout: Layout,
	},
	/// Stride of zero.
	Broadcast { op: FloatOp, val: u8, len: u16 },
}
fn float(i: u8) -> f64 {
	FLOATS[i as usize % FLOATS.len()]
}
fn predicate(seed: u32, a: f64, b: f64) -> bool {
	// Mostly true, for answers not to be settled by the first pair.
	mix(a.to_bits() ^ mix(b.to_bits() ^ seed as u64)) % 16 != 0
}
fn float_run(op: FloatOp, v: ArrayView1<'_, f64>) -> bool {
	match op {
		FloatOp::IsSorted => Slice1Ext::is_sorted(&v),
		FloatOp::IsSortedBy(s) => v.is_sorted_by(|a, b| predicate(s, *a, *b)),
		FloatOp::IsStrictlySortedBy => v.is_sorted_by(|a, b| a < b),
		FloatOp::IsSortedByKey => v.is_sorted_by_key(|a| -a),
		FloatOp::Contains(t) => v.contains(&float(t)),
	}
}
fn float_model(op: FloatOp, v: &[f64]) -> bool {
	let pairs = |f: &dyn Fn(f64, f64) -> bool| {
		let mut ok = true;
		for i in 1..v.len() {
			ok &= f(v[i - 1], v[i]);
		}
		ok
	};
	match op {
		FloatOp::IsSorted => pairs(&|a, b| a <= b),
		FloatOp::IsSortedBy(s) => pairs(&|a, b| predicate(s, a, b)),
		FloatOp::IsStrictlySortedBy => pairs(&|a, b| a < b),
		FloatOp::IsSortedByKey => pairs(&|a, b| -a <= -b),
		FloatOp::Contains(t) => {
			let mut n = 0;
			for &x in v {
				n += (x == float(t)) as usize;
			}
			n > 0
		}
	}
}

pub struct C10;
const PREDICATES: &[Op] = &[Op::IsSorted, Op::IsSorted, Op::Contains];
impl Property for C10 {
	type Case = Pred;
	const ID: &'static str = "C10";
	const QUICK: f64 = 2.5;
	fn phases(t: Tier) -> Vec<Phase<Pred>> {
		let fop = || {
			prop_oneof![
				2 => Just(FloatOp::IsSorted),
				2 => any::<u32>().prop_map(FloatOp::IsSortedBy),
				1 => Just(FloatOp::IsStrictlySortedBy),
				1 => Just(FloatOp::IsSortedByKey),
				2 => (0u8..12).prop_map(FloatOp::Contains),
			]
		};
		let std = |hi| gen::case(PREDICATES, SEARCHED, gen::data(0, hi), gen::good_cmp()).prop_map(Pred::Std).boxed();
		let ill = gen::case(&[Op::IsSorted], SEARCHED, gen::data(0, 600), bad_pure()).prop_map(Pred::Std).boxed();
		let vals = prop_oneof![
			3 => prop::collection::vec(0u8..12, 0..40),
			1 => prop::collection::vec(0u8..11, 0..200),
			1 => prop::collection::vec(select(vec![3u8, 4]), 0..40),
		];
		let float = (fop(), vals, prop::option::weighted(0.7, 0u8..3), gen::layout())
			.prop_map(|(op, vals, sort, layout)| Pred::Float { op, vals, sort, layout })
			.boxed();
		let broadcast =
			(fop(), 0u8..12, 0u16..300).prop_map(|(op, val, len)| Pred::Broadcast { op, val, len }).boxed();
		vec![
			phase("total", t.pick(40_000, 800_000), std(700)),
			phase("long", t.pick(600, 15_000), gen::case(PREDICATES, SEARCHED, gen::pattern(gen::lens(2000, 150_000), SHAPES), gen::good_cmp()).prop_map(Pred::Std).boxed()),
			phase("ill-behaved", t.pick(20_000, 400_000), ill),
			phase("floats", t.pick(50_000, 1_000_000), float),
			phase("broadcast", t.pick(4000, 50_000), broadcast),
		]
	}
	fn check(case: &Pred, info: &mut Info) -> Result<(), String> {
		let expect = |got: bool, want: bool| {
			if got == want { Ok(()) } else { Err(format!("got {got} instead of {want}")) }
		};
		match case {
			Pred::Std(case) => {
				let mut c = exec::normalise(case);
				let mut res = exec::resolve(&c)?;
				let n = res.keys.len();
				let good = c.cmp.well_behaved();
				if good && c.op == Op::IsSorted && c.a % 4 != 0 && n > 0 {
					sort_by_rank(&c, &mut res);
					// Break one pair anywhere, including at either end.
					if c.a % 4 != 1 {
						let i = match c.b % 6 {
							0 => 0,
							1 => n - 1,
							_ => mix(c.b as u64) as usize % n,
						};
						let j = if c.a % 4 == 2 { (i + 1) % n } else { mix(c.b as u64 + 1) as usize % n };
						res.keys.swap(i, j);
					}
				}
				if c.op == Op::Contains && n > 0 && c.a % 3 != 0 {
					let i = match c.b % 6 {
						0 => 0,
						1 => n - 1,
						_ => mix(c.b as u64) as usize % n,
					};
					c.target = res.keys[i];
					if c.a % 3 == 2 {
						// Remove all others.
						let t = verify::rank(&c, c.target);
						for (j, k) in res.keys.iter_mut().enumerate() {
							if j != i && c.cmp.rank(*k) == t {
								*k = verify::mask(&c, k.wrapping_add(1));
							}
						}
					}
				}
				common::classify(&c, &res, info);
				info.nontrivial = n > 0;
				let run = exec::exec(&c, &res.keys, &[], &Plan::new(c.cmp, budget(n)));
				info.runs += 1;
				if let Out::Bool(b) = run.out {
					info.class(format!("{:?} {b}", c.op));
				}
				if good {
					return verify::verify(&c, &res, &run);
				}
				verify::clean(&run)?;
				verify::unchanged(&run)?;
				let want = (1..n).all(|i| {
					c.cmp.pure_ill(res.keys[i - 1], res.keys[i]) != Some(std::cmp::Ordering::Greater)
				});
				expect(run.out == Out::Bool(true), want)
			}
			Pred::Float { op, vals, sort, layout } => {
				let mut v: Vec<f64> = vals.iter().map(|&i| float(i)).collect();
				if let Some(swaps) = sort {
					v.sort_by(|a, b| a.total_cmp(b));
					if *op == FloatOp::IsSortedByKey {
						v.reverse();
					}
					// NaN at the end otherwise.
					if vals.len() % 2 == 0 {
						v.retain(|x| !x.is_nan());
					}
					for k in 0..*swaps as usize {
						let n = v.len();
						if n > 0 {
							let m = |x: u64| mix(x ^ (n as u64) << 8 ^ vals[0] as u64) as usize % n;
							v.swap(m(k as u64), m(k as u64 + 7));
						}
					}
				}
				let want = float_model(*op, &v);
				info.nontrivial = !v.is_empty();
				info.runs += 1;
				info.class(format!("{} {want}", format!("{op:?}").split('(').next().unwrap()));
				info.when(v.iter().any(|x| x.is_nan()), "with NaN");
				let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
				let before = bits(&v);
				let (got, after, _) =
					with_lane(layout.fit(v.len()), v, |m| m as f64, |lane| float_run(*op, lane.view()));
				if bits(&after) != before {
					return Err("array changed".into());
				}
				expect(got, want)
			}
			Pred::Broadcast { op, val, len } => {
				let n = *len as usize;
				let one = Array1::from_elem(1, float(*val));
				let v = one.broadcast(n).unwrap();
				info.nontrivial = n > 0;
				info.runs += 1;
				info.class("broadcast");
				let model = vec![float(*val); n];
				expect(float_run(*op, v), float_model(*op, &model))
			}
		}
	}
	fn simpler(case: &Pred, round: u32) -> Vec<Pred> {
		match case {
			Pred::Std(c) => common::simpler(c, round).into_iter().map(Pred::Std).collect(),
			Pred::Float { op, vals, sort, layout } => {
				let mut out = vec![];
				if round == 0 {
					out.push(Pred::Float { op: *op, vals: vals.clone(), sort: *sort, layout: Layout::Contig });
				} else if round < 10 {
					for i in 0..vals.len() {
						let mut v = vals.clone();
						v.remove(i);
						out.push(Pred::Float { op: *op, vals: v, sort: *sort, layout: *layout });
					}
				}
				out
			}
			_ => vec![],
		}
	}
	fn rule() -> &'static str {
		"proptest-generated predicate x element type (with total preorder, with pure ill-behaved comparison, \
		floats including NaN, infinities and both zeros) x layout (including stride zero) x data, mostly sorted \
		with no or one pair broken, or containing the value never, once or often. Oracle: evaluation of all \
		pairs or elements. Non-trivial: at least one element; distinct by the serialised case."
	}
	fn cost(c: &Pred) -> u64 {
		match c {
			Pred::Std(c) => common::cost(c),
			_ => 10,
		}
	}
}
/// Ill-behaved comparisons which are functions of the pair.
fn bad_pure() -> BoxedStrategy<Cmp> {
	prop_oneof![
		1 => Just(Cmp::AlwaysLess),
		1 => Just(Cmp::AlwaysGreater),
		1 => Just(Cmp::AlwaysEqual),
		3 => any::<u32>().prop_map(Cmp::HashPair),
		2 => gen::param().prop_map(Cmp::Rps),
		2 => gen::param().prop_map(Cmp::NanGreater),
		2 => gen::param().prop_map(Cmp::NanLess),
	]
	.boxed()
}

#[derive(Clone, Debug, PartialEq)]
struct Rec {
	key: i32,
	id: u32,
	seen: u32,
}

/// Relations for `partition_dedup_by`, or keys for `partition_dedup_by_key`.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Rel {
	Eq,
	Mod(u8),
	/// Not transitive.
	Near(u8),
	/// Not symmetric.
	Greater,
	Less,
	Hash(u32),
	/// Depending on the number of calls only.
	Call(u32),
	Always,
	Never,
	/// The retained element absorbs duplicates.
	Absorb(u8),
	/// Both arguments drift.
	Drift(u8),
	/// Swaps the arguments' keys if equal modulo.
	Exchange(u8),
}

fn relate(rel: Rel, a: &mut Rec, b: &mut Rec, call: u64) -> bool {
	a.seen += 1;
	b.seen += 1;
	let m = |k: i32, m: u8| k.rem_euclid(m.max(1) as i32);
	match rel {
		Rel::Eq => a.key == b.key,
		Rel::Mod(k) => m(a.key, k) == m(b.key, k),
		Rel::Near(d) => (a.key as i64 - b.key as i64).abs() <= d as i64,
		Rel::Greater => a.key > b.key,
		Rel::Less => a.key < b.key,
		Rel::Hash(s) => mix((a.key as u32 as u64) << 32 ^ b.key as u32 as u64 ^ mix(s as u64)) & 1 == 0,
		Rel::Call(s) => mix(call ^ (s as u64) << 20) & 1 == 0,
		Rel::Always => true,
		Rel::Never => false,
		Rel::Absorb(k) => {
			let same = m(a.key, k) == m(b.key, k);
			if same {
				b.key = b.key.wrapping_add(a.key);
			}
			same
		}
		Rel::Drift(k) => {
			let same = m(a.key, k) == m(b.key, k);
			a.key = a.key.wrapping_add(1);
			b.key = b.key.wrapping_sub(3);
			same
		}
		Rel::Exchange(k) => {
			let same = m(a.key, k) == m(b.key, k);
			if same {
				std::mem::swap(&mut a.key, &mut b.key);
			}
			same
		}
	}
}
/// Pure key for the relation, if it is one of keys.
fn key_of(rel: Rel, r: &Rec) -> Option<f64> {
	match rel {
		Rel::Eq => Some(r.key as f64),
		Rel::Mod(k) => Some(r.key.rem_euclid(k.max(1) as i32) as f64),
		// Never equal to itself.
		Rel::Near(k) if r.key % k.max(1) as i32 == 0 => Some(f64::NAN),
		Rel::Near(_) => Some((r.key / 4) as f64),
		Rel::Always => Some(0.),
		Rel::Never => Some(f64::NAN),
		_ => None,
	}
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum DedupCase {
	Std(Case),
	Rel { data: Data, rel: Rel, by_key: bool, layout: Layout },
}

pub struct C11;
const DEDUP_ELEMS: &[(u32, ElemKind)] = &[
	(10, ElemKind::It),
	(2, ElemKind::Tr),
	(2, ElemKind::Bx),
	(2, ElemKind::Big),
	(2, ElemKind::B3),
	(1, ElemKind::Al),
	(1, ElemKind::I32),
	(1, ElemKind::Zs),
];
impl Property for C11 {
	type Case = DedupCase;
	const ID: &'static str = "C11";
	const QUICK: f64 = 2.5;
	fn phases(t: Tier) -> Vec<Phase<DedupCase>> {
		let std = |d: BoxedStrategy<Data>| {
			gen::case(&[Op::Dedup], DEDUP_ELEMS, d, gen::good_cmp()).prop_map(DedupCase::Std).boxed()
		};
		let rel = prop_oneof![
			2 => Just(Rel::Eq),
			2 => (1u8..9).prop_map(Rel::Mod),
			2 => (0u8..6).prop_map(Rel::Near),
			1 => Just(Rel::Greater),
			1 => Just(Rel::Less),
			2 => any::<u32>().prop_map(Rel::Hash),
			2 => any::<u32>().prop_map(Rel::Call),
			1 => Just(Rel::Always),
			1 => Just(Rel::Never),
			2 => (1u8..9).prop_map(Rel::Absorb),
			2 => (1u8..9).prop_map(Rel::Drift),
			2 => (1u8..9).prop_map(Rel::Exchange),
		];
		let relation = (gen::data(0, 700), rel, any::<bool>(), gen::layout())
			.prop_map(|(data, rel, by_key, layout)| DedupCase::Rel { data, rel, by_key, layout })
			.boxed();
		vec![
			phase("equivalences", t.pick(40_000, 800_000), std(gen::data(0, 1500))),
			phase("long", t.pick(300, 8000), std(gen::pattern(gen::lens(2000, 70_000), SHAPES))),
			phase("relations", t.pick(50_000, 1_000_000), relation),
		]
	}
	fn check(case: &DedupCase, info: &mut Info) -> Result<(), String> {
		let (data, rel, by_key, layout) = match case {
			DedupCase::Std(case) => {
				let c = exec::normalise(case);
				let mut res = exec::resolve(&c)?;
				if c.a % 3 == 0 {
					sort_by_rank(&c, &mut res);
				}
				let n = res.keys.len();
				let run = exec::exec(&c, &res.keys, &[], &Plan::new(c.cmp, budget(n)));
				info.runs += 1;
				common::classify(&c, &res, info);
				if let Out::Dedup(k) = run.out {
					info.nontrivial = n > 1;
					info.when(k < n && k > 1, "some duplicates among several runs");
				}
				return verify::verify(&c, &res, &run);
			}
			DedupCase::Rel { data, rel, by_key, layout } => (data, *rel, *by_key, *layout),
		};
		let keys = if data.adversarial() { (0..data.len() as i32).collect() } else { data.expand() };
		let n = keys.len();
		let items: Vec<Rec> = keys
			.iter()
			.enumerate()
			.map(|(i, &key)| Rec { key, id: i as u32, seen: 0 })
			.collect();
		info.nontrivial = n > 1;
		info.runs += 1;
		info.class(format!("relation {}", format!("{rel:?}").split('(').next().unwrap()));
		info.class(common::size_class(n));
		let pure_key = by_key && key_of(rel, &Rec { key: 1, id: 0, seen: 0 }).is_some();
		// Model.
		let mut model = items.clone();
		let mut kept: Vec<usize> = vec![];
		let mut want_calls: Vec<(u32, u32)> = vec![];
		for r in 0..n {
			let same = match kept.last() {
				None => false,
				Some(&l) => {
					let (x, y) = model.split_at_mut(r);
					let (a, b) = (&mut y[0], &mut x[l]);
					want_calls.push((a.id, b.id));
					if by_key {
						key_of(rel, a) == key_of(rel, b) && pure_key
					} else {
						relate(rel, a, b, want_calls.len() as u64)
					}
				}
			};
			if !same {
				kept.push(r);
			}
		}
		let mut calls: Vec<(u32, u32)> = vec![];
		let layout = layout.fit(n);
		let mut addrs_ok = true;
		let ((lens, views), after, rest) = with_lane(
			layout,
			items.clone(),
			|m| Rec { key: m as i32, id: u32::MAX, seen: 0 },
			|mut lane| {
				let addrs: Vec<*const Rec> = lane.iter().map(|e| e as *const Rec).collect();
				let (l, r) = if !by_key {
					lane.partition_dedup_by(|a, b| {
						calls.push((a.id, b.id));
						relate(rel, a, b, calls.len() as u64)
					})
				} else if pure_key {
					lane.partition_dedup_by_key(|e| key_of(rel, e).unwrap())
				} else {
					// Only nothing lost: keys drift with every visit.
					lane.partition_dedup_by_key(|e| {
						e.seen += 1;
						e.key = e.key.wrapping_add((mix(e.id as u64 ^ e.seen as u64) % 3) as i32);
						e.key % 5
					})
				};
				addrs_ok = l.iter().chain(r.iter()).map(|e| e as *const Rec).eq(addrs);
				((l.len(), r.len()), l.iter().chain(r.iter()).cloned().collect::<Vec<_>>())
			},
		);
		if rest.iter().any(|r| r.id != u32::MAX || r.seen != 0) {
			return Err("element outside the lane changed or seen".into());
		}
		if lens.0 + lens.1 != n || !addrs_ok || views != after {
			return Err("returned views do not cover the array in order".into());
		}
		let mut ids: Vec<u32> = after.iter().map(|r| r.id).collect();
		ids.sort();
		if !ids.iter().copied().eq(0..n as u32) {
			return Err("elements lost or duplicated".into());
		}
		if by_key && !pure_key {
			return Ok(());
		}
		if lens.0 != kept.len() {
			return Err(format!("{} representatives instead of {}", lens.0, kept.len()));
		}
		for (i, &k) in kept.iter().enumerate() {
			if after[i].id != k as u32 {
				return Err(format!("representative {i} is element {} instead of {k}", after[i].id));
			}
		}
		if !by_key {
			if calls != want_calls {
				let i = calls.iter().zip(&want_calls).take_while(|(a, b)| a == b).count();
				return Err(format!(
					"comparison {i} is of {:?} instead of {:?}",
					calls.get(i),
					want_calls.get(i)
				));
			}
			for r in &after {
				if *r != model[r.id as usize] {
					return Err(format!("element {} is {r:?} instead of {:?}", r.id, model[r.id as usize]));
				}
			}
		}
		Ok(())
	}
	fn simpler(case: &DedupCase, round: u32) -> Vec<DedupCase> {
		match case {
			DedupCase::Std(c) => common::simpler(c, round).into_iter().map(DedupCase::Std).collect(),
			DedupCase::Rel { data, rel, by_key, layout } => {
				let mk = |keys: Vec<i32>, layout: Layout| DedupCase::Rel {
					data: Data::Explicit(keys),
					rel: *rel,
					by_key: *by_key,
					layout,
				};
				let keys =
					if data.adversarial() { (0..data.len() as i32).collect() } else { data.expand() };
				let n = keys.len();
				let mut out = vec![];
				if round == 0 {
					out.push(mk(keys.clone(), *layout));
					out.push(mk(keys, Layout::Contig));
				} else {
					let chunk = (n >> round.min(31)).max(1);
					if round <= 12 && (chunk > 1 || n < 300) {
						for s in (0..n).step_by(chunk) {
							let mut k = keys.clone();
							k.drain(s..(s + chunk).min(n));
							out.push(mk(k, *layout));
						}
					}
				}
				out
			}
		}
	}
	fn rule() -> &'static str {
		"proptest-generated deduplication x flavour x element type x layout x data with equivalences by key, or \
		with a relation which may be intransitive, asymmetric, dependent on the call or mutating its arguments. \
		Oracle: a model applying the relation to each element and the last retained one, compared for the calls \
		made, the first view in order and the second one as a set. Non-trivial: at least two elements; distinct \
		by the serialised case."
	}
	fn cost(c: &DedupCase) -> u64 {
		match c {
			DedupCase::Std(c) => common::cost(c),
			DedupCase::Rel { data, .. } => data.len() as u64 * 10,
		}
	}
}
