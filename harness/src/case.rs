//! Cases: an operation with everything it is applied to.
use crate::ctx::Cmp;
use crate::data::Data;
use crate::elem::{ElemKind, KeyKind};
use crate::layout::Layout;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Sort,
	SortCached,
	SortUnstable,
	ParSort,
	ParSortCached,
	ParSortUnstable,
	Select,
	SelectMany,
	ParSelectMany,
	IsSorted,
	PartitionPoint,
	Contains,
	BinarySearch,
	Dedup,
	Reverse,
}
impl Op {
	pub fn par(self) -> bool {
		matches!(self, Op::ParSort | Op::ParSortCached | Op::ParSortUnstable | Op::ParSelectMany)
	}
	pub fn stable(self) -> bool {
		matches!(self, Op::Sort | Op::SortCached | Op::ParSort | Op::ParSortCached)
	}
	pub fn sorts(self) -> bool {
		self.stable() || matches!(self, Op::SortUnstable | Op::ParSortUnstable)
	}
	pub fn cached(self) -> bool {
		matches!(self, Op::SortCached | Op::ParSortCached)
	}
	pub fn mutates(self) -> bool {
		self.sorts()
			|| matches!(
				self,
				Op::Select | Op::SelectMany | Op::ParSelectMany | Op::Dedup | Op::Reverse
			)
	}
	pub fn selects(self) -> bool {
		matches!(self, Op::Select | Op::SelectMany | Op::ParSelectMany)
	}
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavor {
	Plain,
	By,
	Key,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Idx {
	/// Fractions of the length.
	Frac(Vec<u32>),
	All,
	Every(u32, u32),
	Ends,
	Explicit(Vec<usize>),
}
impl Idx {
	/// Strictly increasing valid indices.
	pub fn resolve(&self, n: usize) -> Vec<usize> {
		if n == 0 {
			return match self {
				Idx::Explicit(v) => v.clone(),
				_ => vec![],
			};
		}
		let mut v: Vec<usize> = match self {
			Idx::Frac(f) => f.iter().map(|&f| ((f as u64 * n as u64) >> 32) as usize).collect(),
			Idx::All => (0..n).collect(),
			Idx::Every(s, o) => (0..n).skip(*o as usize).step_by((*s).max(1) as usize).collect(),
			Idx::Ends => vec![0, n - 1],
			Idx::Explicit(v) => return v.clone(),
		};
		v.sort();
		v.dedup();
		v
	}
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pool {
	Global,
	Size(u8),
	/// Inside a task of the pool with the other side of the join being busy.
	InJoin(u8),
	/// Inside a scope of the pool with several other tasks running.
	InScope(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Case {
	pub op: Op,
	pub flavor: Flavor,
	pub elem: ElemKind,
	pub key: KeyKind,
	pub layout: Layout,
	pub data: Data,
	pub cmp: Cmp,
	pub idx: Idx,
	/// Layout of the index array (step), and number of entries the collection already holds.
	pub idx_step: i8,
	pub pre: u8,
	/// Searched key.
	pub target: i32,
	pub pool: Pool,
	/// Free parameters of the property.
	pub a: u32,
	pub b: u32,
}
