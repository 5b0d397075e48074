//! Input patterns.
use crate::ctx::mix;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
	Uniform,
	Perm,
	AllEq,
	Asc,
	Desc,
	AscDup,
	DescDup,
	Saw,
	SawDown,
	Organ,
	OrganInv,
	NearlySorted,
	NearlyReversed,
	SortedTail,
	SortedHead,
	Runs,
	RunsDup,
	Blocks,
	BlocksEq,
	ZigZag,
	FibRuns,
	Heap,
	Gallop,
	TwoVal,
	OneOff,
	AltChunks,
	/// Chunks, mostly of one kind (strictly descending, ascending, constant, ...), whose borders are
	/// ties, continue the chunk or break it.
	Chunked,
	/// Values decided by an adversary playing against the operation under test. The parameter is
	/// the number of distinct decided values (0 for no limit).
	Killer,
	/// As before with the reversed order.
	KillerRev,
}

pub const SHAPES: &[Shape] = &[
	Shape::Uniform,
	Shape::Perm,
	Shape::AllEq,
	Shape::Asc,
	Shape::Desc,
	Shape::AscDup,
	Shape::DescDup,
	Shape::Saw,
	Shape::SawDown,
	Shape::Organ,
	Shape::OrganInv,
	Shape::NearlySorted,
	Shape::NearlyReversed,
	Shape::SortedTail,
	Shape::SortedHead,
	Shape::Runs,
	Shape::RunsDup,
	Shape::Blocks,
	Shape::BlocksEq,
	Shape::ZigZag,
	Shape::FibRuns,
	Shape::Heap,
	Shape::Gallop,
	Shape::TwoVal,
	Shape::OneOff,
	Shape::AltChunks,
	Shape::Chunked,
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Data {
	Pattern { shape: Shape, len: usize, seed: u64, p: u32 },
	Explicit(Vec<i32>),
}

pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(mix(seed ^ 0xabcd))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
		mix(self.0)
	}
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			0
		} else {
			(self.next() % n as u64) as usize
		}
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.below(i + 1);
			v.swap(i, j);
		}
	}
}

impl Data {
	pub fn len(&self) -> usize {
		match self {
			Data::Pattern { len, .. } => *len,
			Data::Explicit(v) => v.len(),
		}
	}
	pub fn adversarial(&self) -> bool {
		matches!(self, Data::Pattern { shape: Shape::Killer | Shape::KillerRev, .. })
	}
	/// Keys, except for adversarial shapes which need the operation.
	pub fn expand(&self) -> Vec<i32> {
		let (shape, n, seed, p) = match self {
			Data::Explicit(v) => return v.clone(),
			Data::Pattern { shape, len, seed, p } => (*shape, *len, *seed, *p as usize),
		};
		let mut r = Rng::new(seed);
		let asc = |n: usize| (0..n).map(|i| i as i32).collect::<Vec<_>>();
		match shape {
			Shape::Uniform | Shape::Killer | Shape::KillerRev => (0..n)
				.map(|_| if p == 0 { r.next() as i32 } else { r.below(p) as i32 })
				.collect(),
			Shape::Perm => {
				let mut v = asc(n);
				r.shuffle(&mut v);
				v
			}
			Shape::AllEq => vec![p as i32; n],
			Shape::Asc => asc(n),
			Shape::Desc => (0..n).rev().map(|i| i as i32).collect(),
			Shape::AscDup => (0..n).map(|i| (i / p.max(1)) as i32).collect(),
			Shape::DescDup => (0..n).rev().map(|i| (i / p.max(1)) as i32).collect(),
			Shape::Saw => (0..n).map(|i| (i % p.max(1)) as i32).collect(),
			Shape::SawDown => (0..n).map(|i| -((i % p.max(1)) as i32)).collect(),
			Shape::Organ => (0..n).map(|i| i.min(n - 1 - i) as i32).collect(),
			Shape::OrganInv => (0..n).map(|i| -(i.min(n - 1 - i) as i32)).collect(),
			Shape::NearlySorted | Shape::NearlyReversed => {
				let mut v = asc(n);
				if shape == Shape::NearlyReversed {
					v.reverse();
				}
				for _ in 0..p % 64 + 1 {
					if n > 0 {
						let (i, j) = (r.below(n), r.below(n));
						if p & 1 == 0 {
							v.swap(i, j);
						} else {
							v.swap(i, (i + 1).min(n - 1));
						}
					}
				}
				v
			}
			Shape::SortedTail | Shape::SortedHead => {
				let k = p.min(n);
				let mut v = asc(n);
				let range = if shape == Shape::SortedTail { n - k..n } else { 0..k };
				for x in &mut v[range] {
					*x = r.below(n.max(1)) as i32;
				}
				v
			}
			Shape::Runs | Shape::RunsDup => {
				let max = p.max(1);
				let mut v = Vec::with_capacity(n);
				while v.len() < n {
					let k = (1 + r.below(max)).min(n - v.len());
					let dup = if shape == Shape::RunsDup { 1 + r.below(4) } else { 1 };
					let base = r.below(n.max(1)) as i32;
					let desc = r.next() & 1 == 0;
					let step = 1 + r.below(3) as i32;
					v.extend((0..k).map(|i| {
						let d = (i / dup) as i32 * step;
						if desc {
							base - d
						} else {
							base + d
						}
					}));
				}
				v
			}
			Shape::Blocks => {
				// Ordered blocks of a fixed length whose ranges are disjoint, overlapping or swapped.
				let b = p.max(1);
				let mut v = Vec::with_capacity(n);
				let mut base = 0;
				while v.len() < n {
					let k = b.min(n - v.len());
					match r.below(6) {
						0 | 1 => v.extend((0..k).map(|i| base + i as i32)),
						2 => v.extend((0..k).rev().map(|i| base + i as i32)),
						3 => v.extend((0..k).rev().map(|i| base - b as i32 + i as i32)),
						4 => v.extend((0..k).map(|i| base - b as i32 / 2 + i as i32)),
						_ => v.extend((0..k).map(|_| r.below(n.max(1)) as i32)),
					}
					match r.below(5) {
						0 => base -= 2 * b as i32,
						1 => {}
						_ => base += b as i32,
					}
				}
				v
			}
			Shape::BlocksEq => {
				// As before with ties at and across the borders of blocks.
				let b = p.max(1);
				let mut v = Vec::with_capacity(n);
				let mut base = 0;
				let desc = r.next() & 3 == 0;
				while v.len() < n {
					let k = b.min(n - v.len());
					let q = 1 + r.below(b);
					let d = r.below(8);
					if d == 0 || (desc && d < 6) {
						v.extend((0..k).rev().map(|i| base + (i / q) as i32));
					} else if d == 1 {
						v.extend((0..k).map(|_| base + r.below(2) as i32));
					} else {
						v.extend((0..k).map(|i| base + (i / q) as i32));
					}
					match r.below(6) {
						0 => {}
						1 => base -= 1,
						2 => base += 1,
						_ if desc => base -= (k / q) as i32,
						_ => base += (k / q) as i32,
					}
				}
				v
			}
			Shape::ZigZag => (0..n)
				.map(|i| if i % 2 == 0 { (i / 2) as i32 } else { (n - i / 2) as i32 })
				.collect(),
			Shape::FibRuns => {
				// Run lengths decreasing like (or increasing as) Fibonacci numbers, which keeps as
				// many runs as possible pending.
				let mut lens = vec![];
				let (mut a, mut b) = (p.max(1) % 64 + 1, p.max(1) % 64 + 2);
				let mut sum = 0;
				while sum + a <= n {
					lens.push(a);
					sum += a;
					(a, b) = (b, a + b + (seed as usize & 3));
				}
				if n > sum {
					lens.push(n - sum);
				}
				if seed & 4 == 0 {
					lens.reverse();
				}
				let mut v = Vec::with_capacity(n);
				for k in lens {
					let base = r.below(n.max(1)) as i32;
					let step = 1 + r.below(5) as i32;
					v.extend((0..k).map(|i| base + i as i32 * step));
					// Breaks the run.
					if let Some(x) = v.last_mut() {
						*x = i32::MAX - r.below(100) as i32;
					}
					let l = v.len();
					if k > 1 {
						v[l - k] = -(r.below(100) as i32);
					}
				}
				v
			}
			Shape::Heap => {
				let mut v = asc(n);
				v.reverse();
				for _ in 0..n / 8 {
					let i = r.below(n);
					let j = (2 * i + 1).min(n - 1);
					if r.next() & 1 == 0 {
						v.swap(i, j);
					}
				}
				v
			}
			Shape::Gallop => {
				// Two or more ordered parts, interleaved in long stretches.
				let parts = p % 5 + 2;
				let mut tags = Vec::with_capacity(n);
				while tags.len() < n {
					let t = r.below(parts);
					let k = (1 + r.below(n / 4 + 1)).min(n - tags.len());
					tags.extend((0..k).map(|_| t));
				}
				let dup = 1 + (seed >> 32) as usize % 3;
				let mut v = vec![];
				for t in 0..parts {
					v.extend((0..n).filter(|&i| tags[i] == t).map(|i| (i / dup) as i32));
				}
				v
			}
			Shape::TwoVal => {
				let q = p.max(1);
				(0..n).map(|_| (r.below(q + 1) == 0) as i32).collect()
			}
			Shape::OneOff => {
				let mut v = vec![0; n];
				for _ in 0..p % 3 + 1 {
					if n > 0 {
						v[r.below(n)] = if r.next() & 1 == 0 { 1 } else { -1 };
					}
				}
				v
			}
			Shape::Chunked => {
				let b = p.max(1);
				let kind = r.below(5);
				// How borders usually are: less, tie, greater or any of them.
				let border = r.below(4);
				let odd = [0, 3, 8][r.below(3)];
				let step = 1 + r.below(2) as i32;
				let q = 2 + r.below(b);
				let mut v: Vec<i32> = Vec::with_capacity(n);
				while v.len() < n {
					let k = b.min(n - v.len());
					let kind = if odd > 0 && r.below(odd) == 0 { r.below(6) } else { kind };
					let down = matches!(kind, 0 | 1);
					let d = if border == 3 || (odd > 0 && r.below(odd) == 0) { r.below(3) } else { border };
					let d = d as i32 - 1;
					let first = v.last().map_or(0, |l| if down { l + d } else { l - d });
					v.extend((0..k).map(|i| match kind {
						0 | 1 => first - i as i32 * step,
						2 => first + i as i32 * step,
						3 => first + (i / q) as i32,
						4 => first,
						_ => first + r.below(n) as i32 - n as i32 / 2,
					}));
				}
				v
			}
			Shape::AltChunks => {
				// Alternately low and high chunks.
				let b = p.max(1);
				(0..n)
					.map(|i| {
						let c = (i / b) as i32;
						let x = r.below(n.max(1)) as i32;
						if c % 2 == 0 {
							x
						} else {
							x + n as i32
						}
					})
					.collect()
			}
		}
	}
}
