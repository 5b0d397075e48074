//! Generators shared by the properties.
use crate::case::{Case, Flavor, Idx, Op, Pool};
use crate::ctx::Cmp;
use crate::data::{Data, Shape, SHAPES};
use crate::elem::{ElemKind, KeyKind};
use crate::layout::Layout;
use proptest::prelude::*;
use proptest::sample::select;

/// Lengths at which some code path begins or ends.
pub const EDGES: &[usize] = &[
	0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21, 22, 24, 31, 32, 33, 48, 49, 50, 51, 63, 64,
	65, 99, 100, 127, 128, 129, 130, 191, 192, 254, 255, 256, 257, 258, 259, 300, 383, 384, 385, 511,
	512, 513, 700, 1000, 1023, 1024, 1025, 1026, 1500, 1999, 2000, 2001, 2002, 2047, 2048, 2049, 3000,
	3999, 4000, 4001, 4096, 4999, 5000, 5001, 5002, 6000, 6001, 7999, 8000, 8001, 9999, 10000, 10001,
	10002, 12000, 14000, 16000, 16001, 20000, 20001, 32768, 40000, 65534, 65535, 65536, 65537, 70000,
	100_000, 131_071, 131_072, 131_073, 150_000,
];

pub fn edges(lo: usize, hi: usize) -> BoxedStrategy<usize> {
	let v: Vec<usize> = EDGES.iter().copied().filter(|&e| e >= lo && e <= hi).collect();
	select(v).boxed()
}

/// Lengths: mostly short, with tiers up to `hi`.
pub fn lens(lo: usize, hi: usize) -> BoxedStrategy<usize> {
	let mut s: Vec<(u32, BoxedStrategy<usize>)> = vec![];
	let mut tier = |w: u32, a: usize, b: usize| {
		let (a, b) = (a.max(lo), b.min(hi));
		if a <= b {
			s.push((w, (a..=b).boxed()));
		}
	};
	tier(30, 0, 24);
	tier(30, 25, 130);
	tier(20, 131, 700);
	tier(7, 701, 3000);
	tier(3, 3001, 12_000);
	tier(1, 12_001, 70_000);
	let small: Vec<usize> = EDGES.iter().copied().filter(|&e| e >= lo && e <= hi.min(1025)).collect();
	if !small.is_empty() {
		s.push((14, select(small).boxed()));
	}
	let large: Vec<usize> = EDGES.iter().copied().filter(|&e| e > 1025 && e >= lo && e <= hi).collect();
	if !large.is_empty() {
		s.push((2, select(large).boxed()));
	}
	proptest::strategy::Union::new_weighted(s).boxed()
}

pub fn param() -> BoxedStrategy<u32> {
	prop_oneof![
		3 => 0u32..=4,
		4 => 1u32..=16,
		3 => 1u32..=200,
		2 => 1u32..=6000,
		2 => select(vec![2000u32, 1000, 500, 1999, 2001, 4000, 128, 10, 50, 20]),
	]
	.boxed()
}

pub fn pattern(len: BoxedStrategy<usize>, shapes: &'static [Shape]) -> BoxedStrategy<Data> {
	(select(shapes), len, any::<u64>().no_shrink(), param())
		.prop_map(|(shape, len, seed, p)| Data::Pattern { shape, len, seed, p })
		.boxed()
}

pub fn explicit(lo: usize, hi: usize) -> BoxedStrategy<Data> {
	prop_oneof![
		prop::collection::vec(0i32..4, lo..=hi),
		prop::collection::vec(-8i32..40, lo..=hi),
		prop::collection::vec(any::<i32>(), lo..=hi),
	]
	.prop_map(Data::Explicit)
	.boxed()
}

pub fn killer(len: BoxedStrategy<usize>) -> BoxedStrategy<Data> {
	(
		prop_oneof![Just(Shape::Killer), Just(Shape::KillerRev)],
		len,
		any::<u64>().no_shrink(),
		prop_oneof![3 => Just(0u32), 2 => 1u32..80, 1 => 1u32..2000],
	)
		.prop_map(|(shape, len, seed, p)| Data::Pattern { shape, len, seed, p })
		.boxed()
}

pub fn data(lo: usize, hi: usize) -> BoxedStrategy<Data> {
	prop_oneof![
		2 => explicit(lo, 24.min(hi)),
		5 => pattern(lens(lo, hi), SHAPES),
	]
	.boxed()
}

pub fn good_cmp() -> BoxedStrategy<Cmp> {
	prop_oneof![
		5 => Just(Cmp::Nat),
		1 => Just(Cmp::Rev),
		1 => param().prop_map(Cmp::Coarse),
		1 => param().prop_map(Cmp::RevCoarse),
		1 => param().prop_map(Cmp::Mod),
	]
	.boxed()
}

pub fn bad_cmp() -> BoxedStrategy<Cmp> {
	prop_oneof![
		1 => Just(Cmp::AlwaysLess),
		1 => Just(Cmp::AlwaysGreater),
		1 => Just(Cmp::AlwaysEqual),
		3 => any::<u32>().prop_map(Cmp::RandomCall),
		3 => any::<u32>().prop_map(Cmp::HashPair),
		2 => param().prop_map(Cmp::Rps),
		2 => (0u32..3000).prop_map(Cmp::FlipAfter),
		2 => param().prop_map(Cmp::NanGreater),
		2 => param().prop_map(Cmp::NanLess),
		2 => param().prop_map(Cmp::Noisy),
	]
	.boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
	prop_oneof![
		4 => Just(Layout::Contig),
		1 => Just(Layout::Neg),
		1 => (0u8..4, 0u8..4).prop_map(|(pre, post)| Layout::Offset { pre, post }),
		2 => (1u8..6, 0u8..4).prop_map(|(step, off)| Layout::Stride { step, off }),
		2 => (1u8..6, 0u8..4).prop_map(|(step, off)| Layout::NegStride { step, off }),
		2 => (1u8..5, 0u8..5).prop_map(|(cols, at)| Layout::Col { cols, at }),
		1 => (1u8..5, 0u8..5).prop_map(|(rows, at)| Layout::Row { rows, at }),
		3 => (0u8..3, 1u8..4, 1u8..4, 0u8..4, 0u8..4, any::<bool>(), any::<bool>(), 1u8..3)
			.prop_map(|(axis, a, b, i, j, f, inv, step)| Layout::Lane { axis, a, b, i, j, f, inv, step }),
		1 => (0u8..4, any::<bool>()).prop_map(|(extra, anti)| Layout::Diag { extra, anti }),
	]
	.boxed()
}

pub fn idx() -> BoxedStrategy<Idx> {
	prop_oneof![
		8 => prop::collection::vec(any::<u32>(), 0..12).prop_map(Idx::Frac),
		2 => prop::collection::vec(any::<u32>(), 12..200).prop_map(Idx::Frac),
		1 => Just(Idx::All),
		2 => (1u32..40, 0u32..40).prop_map(|(s, o)| Idx::Every(s, o)),
		1 => Just(Idx::Ends),
	]
	.boxed()
}
/// One index, with the ends and the middle being more likely.
pub fn idx1() -> BoxedStrategy<Idx> {
	prop_oneof![
		4 => any::<u32>(),
		1 => Just(0u32),
		1 => Just(u32::MAX),
		1 => Just(1u32 << 31),
		1 => 0u32..(1 << 26),
		1 => (u32::MAX - (1 << 26))..u32::MAX,
	]
	.prop_map(|f| Idx::Frac(vec![f]))
	.boxed()
}

pub fn pool() -> BoxedStrategy<Pool> {
	prop_oneof![
		2 => Just(Pool::Global),
		5 => select(vec![1u8, 2, 3, 4, 8]).prop_map(Pool::Size),
		2 => select(vec![1u8, 2, 4]).prop_map(Pool::InJoin),
		2 => select(vec![1u8, 2, 4]).prop_map(Pool::InScope),
	]
	.boxed()
}

pub fn flavor() -> BoxedStrategy<Flavor> {
	select(vec![Flavor::Plain, Flavor::By, Flavor::Key]).boxed()
}

pub fn key_kind() -> BoxedStrategy<KeyKind> {
	select(vec![
		KeyKind::U8,
		KeyKind::U16,
		KeyKind::A3,
		KeyKind::U32,
		KeyKind::U64,
		KeyKind::Str,
		KeyKind::Kw,
	])
	.boxed()
}

pub const ALL_ELEMS: &[(u32, ElemKind)] = &[
	(10, ElemKind::It),
	(2, ElemKind::Tr),
	(2, ElemKind::Bx),
	(1, ElemKind::Big),
	(2, ElemKind::B3),
	(1, ElemKind::Al),
	(1, ElemKind::I32),
	(1, ElemKind::Zs),
];

pub fn elem(w: &'static [(u32, ElemKind)]) -> BoxedStrategy<ElemKind> {
	proptest::strategy::Union::new_weighted(w.iter().map(|&(w, e)| (w, Just(e).boxed())).collect())
		.boxed()
}

pub fn case(
	ops: &'static [Op],
	elems: &'static [(u32, ElemKind)],
	data: BoxedStrategy<Data>,
	cmp: BoxedStrategy<Cmp>,
) -> BoxedStrategy<Case> {
	let single = ops == [Op::Select];
	let idx = if single {
		idx1()
	} else if ops.iter().any(|o| o.selects()) {
		idx()
	} else {
		Just(Idx::Frac(vec![])).boxed()
	};
	case_idx(ops, elems, data, cmp, idx)
}

pub fn case_idx(
	ops: &'static [Op],
	elems: &'static [(u32, ElemKind)],
	data: BoxedStrategy<Data>,
	cmp: BoxedStrategy<Cmp>,
	idx: BoxedStrategy<Idx>,
) -> BoxedStrategy<Case> {
	let target = prop_oneof![3 => -2i32..40, 1 => any::<i32>(), 1 => 0i32..5000];
	(
		(select(ops), flavor(), elem(elems), key_kind(), layout()),
		(data, cmp, idx, -3i8..=3, 0u8..4),
		(target, pool(), any::<u32>(), any::<u32>()),
	)
		.prop_map(
			|((op, flavor, elem, key, layout), (data, cmp, idx, idx_step, pre), (target, pool, a, b))| Case {
				op,
				flavor,
				elem,
				key,
				layout,
				data,
				cmp,
				idx,
				idx_step,
				pre,
				target,
				pool,
				a,
				b,
			},
		)
		.boxed()
}
