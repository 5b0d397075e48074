//! C01-C07 and C12: what every sort, selection and reversal leaves behind.
use super::common;
use crate::case::{Case, Idx, Op};
use crate::ctx::Plan;
use crate::data::{Data, Shape, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::ElemKind;
use crate::exec::{self, budget};
use crate::gen;
use crate::verify;
use proptest::prelude::*;

pub fn check(case: &Case, info: &mut Info) -> Result<(), String> {
	let mut c = exec::normalise(case);
	let n = c.data.len();
	if c.op == Op::Select && n == 0 {
		// No valid index.
		c.data = Data::Explicit(vec![c.target]);
	}
	if c.op == Op::Select && c.idx.resolve(c.data.len()).is_empty() {
		c.idx = Idx::Explicit(vec![0]);
	}
	let res = exec::resolve(&c)?;
	let run = exec::exec(&c, &res.keys, &res.idx, &Plan::new(c.cmp, budget(res.keys.len())).perturbed(&c));
	info.runs += 1;
	common::classify(&c, &res, info);
	info.when(res.idx.len() > 1, "several indices");
	info.nontrivial = match c.op {
		Op::Reverse => res.keys.len() > 1,
		op if op.selects() => common::unsorted(&c, &res.keys) && !res.idx.is_empty(),
		_ => common::unsorted(&c, &res.keys),
	};
	verify::verify(&c, &res, &run)
}

const SIZED: &[(u32, ElemKind)] = &[
	(10, ElemKind::It),
	(2, ElemKind::Tr),
	(2, ElemKind::Bx),
	(2, ElemKind::Big),
	(2, ElemKind::B3),
	(1, ElemKind::Al),
	(1, ElemKind::I32),
	(1, ElemKind::Zs),
];
const PLAIN: &[(u32, ElemKind)] = &[(1, ElemKind::It)];

const RULE: &str = "proptest-generated case = operation x flavour (plain, by, by key) x element type x \
layout of the lane x data (explicit values or one of 29 patterns with length, seed and parameter; \
adversarial patterns are computed by playing McIlroy's adversary against the operation) x total \
preorder (natural, reversed, coarsened, modular) x indices x pool. Non-trivial: at least one adjacent \
pair of the input is out of order (reverse: at least two elements) and, for selections, at least one \
index; distinct by the serialised case.";

macro_rules! order {
	($t:ident, $id:literal, $quick:literal, $phases:expr) => {
		pub struct $t;
		impl Property for $t {
			type Case = Case;
			const ID: &'static str = $id;
			const QUICK: f64 = $quick;
			fn phases(tier: Tier) -> Vec<Phase<Case>> {
				$phases(tier)
			}
			fn check(case: &Case, info: &mut Info) -> Result<(), String> {
				check(case, info)
			}
			fn simpler(case: &Case, round: u32) -> Vec<Case> {
				common::simpler(case, round)
			}
			fn rule() -> &'static str {
				RULE
			}
			fn assumptions() -> Vec<&'static str> {
				vec![
					"the oracle compares ranks and element identities only; it does not use the code under test",
					"thread schedules are those the rayon pools happen to produce",
				]
			}
			fn cost(c: &Case) -> u64 {
				common::cost(c)
			}
			fn parallel(c: &Case) -> bool {
				c.op.par()
			}
		}
	};
}

fn phase(name: &'static str, cases: u32, strategy: BoxedStrategy<Case>) -> Phase<Case> {
	Phase { name, strategy, cases }
}

const LONG_RUNS: &[Shape] = &[
	Shape::FibRuns,
	Shape::Runs,
	Shape::RunsDup,
	Shape::Gallop,
	Shape::Blocks,
	Shape::BlocksEq,
	Shape::AltChunks,
	Shape::Uniform,
	Shape::Perm,
	Shape::SortedTail,
	Shape::NearlySorted,
];

/// Lengths around the limits of the index types of cached keys.
fn cached_len() -> BoxedStrategy<usize> {
	prop_oneof![
		3 => 240usize..=270,
		1 => 0usize..=600,
		1 => proptest::sample::select(vec![65_534usize, 65_535, 65_536, 65_537, 66_000]),
	]
	.boxed()
}

const C01_OPS: &[Op] = &[Op::Sort, Op::Sort, Op::Sort, Op::SortCached];
order!(C01, "C01", 2.5, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(14000, 300_000), gen::case(C01_OPS, SIZED, gen::data(0, 130), cmp())),
		phase("mixed", t.pick(7000, 150_000), gen::case(C01_OPS, SIZED, gen::data(0, 3000), cmp())),
		phase("long", t.pick(120, 5000), gen::case(C01_OPS, SIZED, gen::pattern(gen::edges(3000, 150_000), LONG_RUNS), cmp())),
		phase("runs", t.pick(250, 10_000), gen::case(&[Op::Sort], PLAIN, gen::pattern((2000usize..90_000).boxed(), &[Shape::FibRuns, Shape::Gallop, Shape::Runs, Shape::RunsDup]), cmp())),
		phase("cached", t.pick(700, 20_000), gen::case(&[Op::SortCached], PLAIN, gen::pattern(cached_len(), SHAPES), cmp())),
	]
});

const C02_OPS: &[Op] = &[Op::SortUnstable];
order!(C02, "C02", 2.5, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(14000, 300_000), gen::case(C02_OPS, SIZED, gen::data(0, 130), cmp())),
		phase("mixed", t.pick(9000, 150_000), gen::case(C02_OPS, SIZED, gen::data(0, 3000), cmp())),
		phase("blocks", t.pick(7000, 150_000), gen::case(C02_OPS, SIZED, gen::pattern((200usize..1100).boxed(), SHAPES), cmp())),
		phase("killer", t.pick(800, 20_000), gen::case(C02_OPS, SIZED, gen::killer(gen::lens(21, 3000)), cmp())),
		phase("long", t.pick(100, 5000), gen::case(C02_OPS, SIZED, gen::pattern(gen::edges(3000, 150_000), SHAPES), cmp())),
		phase("longest killer", t.pick(4, 200), gen::case(C02_OPS, PLAIN, gen::killer((130_900usize..210_000).boxed()), cmp())),
	]
});

const CHUNKY: &[Shape] = &[
	Shape::Blocks,
	Shape::BlocksEq,
	Shape::Blocks,
	Shape::BlocksEq,
	Shape::AltChunks,
	Shape::Chunked,
	Shape::Chunked,
	Shape::Chunked,
	Shape::Chunked,
	Shape::Asc,
	Shape::Desc,
	Shape::AscDup,
	Shape::DescDup,
	Shape::SortedTail,
	Shape::SortedHead,
	Shape::NearlySorted,
	Shape::NearlyReversed,
	Shape::Organ,
	Shape::OrganInv,
	Shape::Gallop,
	Shape::Uniform,
	Shape::AllEq,
	Shape::TwoVal,
	Shape::OneOff,
	Shape::Saw,
	Shape::FibRuns,
];

/// Patterns made of blocks of the length of parallel chunks, at lengths around multiples.
fn chunk_data(hi: usize) -> BoxedStrategy<Data> {
	let len = prop_oneof![
		3 => (0usize..=3, 1usize..=20).prop_map(|(d, k)| (k * 2000 + d).saturating_sub(1)),
		2 => 2000usize..=14_000,
		1 => 2000usize..=hi,
	];
	let p = prop_oneof![
		4 => Just(2000u32),
		1 => Just(1000u32),
		1 => Just(4000u32),
		1 => Just(666u32),
		2 => gen::param(),
	];
	(proptest::sample::select(CHUNKY), len, any::<u64>().no_shrink(), p)
		.prop_map(move |(shape, len, seed, p)| Data::Pattern { shape, len: len.min(hi), seed, p })
		.boxed()
}

const C03_OPS: &[Op] = &[Op::ParSort, Op::ParSort, Op::ParSort, Op::ParSortCached];
order!(C03, "C03", 1.0, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(4000, 80_000), gen::case(C03_OPS, SIZED, gen::data(0, 700), cmp())),
		phase("chunks", t.pick(1300, 30_000), gen::case(C03_OPS, SIZED, chunk_data(40_000), cmp())),
		phase("chunks of one type", t.pick(1300, 30_000), gen::case(&[Op::ParSort], PLAIN, chunk_data(45_000), cmp())),
		phase("long", t.pick(40, 1500), gen::case(C03_OPS, SIZED, gen::pattern(gen::edges(12_000, 150_000), SHAPES), cmp())),
		phase("cached", t.pick(250, 8000), gen::case(&[Op::ParSortCached], PLAIN, gen::pattern(cached_len(), SHAPES), cmp())),
	]
});

const C04_OPS: &[Op] = &[Op::ParSortUnstable];
order!(C04, "C04", 1.5, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(6000, 100_000), gen::case(C04_OPS, SIZED, gen::data(0, 700), cmp())),
		phase("blocks", t.pick(3000, 80_000), gen::case(C04_OPS, SIZED, gen::pattern((200usize..1900).boxed(), SHAPES), cmp())),
		phase("parallel", t.pick(900, 30_000), gen::case(C04_OPS, SIZED, gen::pattern((2001usize..20_000).boxed(), SHAPES), cmp())),
		phase("killer", t.pick(350, 10_000), gen::case(C04_OPS, SIZED, gen::killer(gen::lens(21, 3000)), cmp())),
		phase("long", t.pick(70, 2500), gen::case(C04_OPS, SIZED, gen::pattern(gen::edges(10_000, 150_000), SHAPES), cmp())),
		phase("longest killer", t.pick(4, 200), gen::case(C04_OPS, PLAIN, gen::killer((130_900usize..210_000).boxed()), cmp())),
	]
});

const C05_OPS: &[Op] = &[Op::Select];
order!(C05, "C05", 4.0, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(16000, 300_000), gen::case(C05_OPS, SIZED, gen::data(1, 130), cmp())),
		phase("mixed", t.pick(12000, 200_000), gen::case(C05_OPS, SIZED, gen::data(1, 3000), cmp())),
		phase("killer", t.pick(1500, 30_000), gen::case(C05_OPS, SIZED, gen::killer(gen::lens(11, 3000)), cmp())),
		phase("long killer", t.pick(12, 300), gen::case(C05_OPS, PLAIN, gen::killer(gen::edges(3000, 150_000)), cmp())),
		phase("long", t.pick(150, 5000), gen::case(C05_OPS, SIZED, gen::pattern(gen::edges(3000, 150_000), SHAPES), cmp())),
		phase("longest killer", t.pick(3, 400), gen::case(C05_OPS, PLAIN, gen::killer((130_900usize..210_000).boxed()), cmp())),
	]
});

const C06_OPS: &[Op] = &[Op::SelectMany];
order!(C06, "C06", 4.0, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(13000, 300_000), gen::case(C06_OPS, SIZED, gen::data(0, 130), cmp())),
		phase("mixed", t.pick(8000, 200_000), gen::case(C06_OPS, SIZED, gen::data(0, 3000), cmp())),
		phase("killer", t.pick(800, 20_000), gen::case(C06_OPS, SIZED, gen::killer(gen::lens(11, 3000)), cmp())),
		phase("long", t.pick(120, 5000), gen::case(C06_OPS, SIZED, gen::pattern(gen::edges(3000, 150_000), SHAPES), cmp())),
		phase("longest killer", t.pick(4, 200), gen::case(C06_OPS, PLAIN, gen::killer((130_900usize..210_000).boxed()), cmp())),
	]
});

const C07_OPS: &[Op] = &[Op::ParSelectMany];
order!(C07, "C07", 1.5, |t: Tier| {
	let cmp = gen::good_cmp;
	vec![
		phase("short", t.pick(7000, 150_000), gen::case(C07_OPS, SIZED, gen::data(0, 130), cmp())),
		phase("mixed", t.pick(4500, 100_000), gen::case(C07_OPS, SIZED, gen::data(0, 3000), cmp())),
		phase("parallel", t.pick(800, 30_000), gen::case(C07_OPS, SIZED, gen::pattern((2001usize..20_000).boxed(), SHAPES), cmp())),
		phase("killer", t.pick(400, 10_000), gen::case(C07_OPS, SIZED, gen::killer(gen::lens(11, 3000)), cmp())),
		phase("long", t.pick(70, 3000), gen::case(C07_OPS, SIZED, gen::pattern(gen::edges(10_000, 150_000), SHAPES), cmp())),
		phase("longest killer", t.pick(6, 300), gen::case(C07_OPS, PLAIN, gen::killer((130_900usize..210_000).boxed()), cmp())),
	]
});

const C12_OPS: &[Op] = &[Op::Reverse];
order!(C12, "C12", 5.0, |t: Tier| {
	let cmp = || Just(crate::ctx::Cmp::Nat).boxed();
	vec![
		phase("short", t.pick(40000, 500_000), gen::case(C12_OPS, SIZED, gen::data(0, 130), cmp())),
		phase("mixed", t.pick(20000, 300_000), gen::case(C12_OPS, SIZED, gen::data(0, 3000), cmp())),
		phase("long", t.pick(200, 3000), gen::case(C12_OPS, SIZED, gen::pattern(gen::edges(3000, 150_000), SHAPES), cmp())),
	]
});
