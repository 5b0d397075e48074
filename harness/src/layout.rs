//! Lanes of larger arrays. Everything outside the lane is canary.
use ndarray_slice::ndarray::{ArrayBase, ArrayViewMut1, ArrayViewMutD, Axis, Slice};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
	Contig,
	Offset { pre: u8, post: u8 },
	Stride { step: u8, off: u8 },
	Neg,
	NegStride { step: u8, off: u8 },
	/// Column of an array in C order.
	Col { cols: u8, at: u8 },
	/// Row of an array in F order.
	Row { rows: u8, at: u8 },
	/// Lane along an axis of a three-dimensional array in either order.
	Lane { axis: u8, a: u8, b: u8, i: u8, j: u8, f: bool, inv: bool, step: u8 },
	Diag { extra: u8, anti: bool },
}

impl Layout {
	pub fn contiguous(self) -> bool {
		matches!(self, Layout::Contig | Layout::Offset { .. })
	}
	/// Falls back to a layout with a backing array of acceptable size.
	pub fn fit(self, n: usize) -> Layout {
		let (shape, _) = self.shape(n);
		let total = shape.iter().product::<usize>();
		if total <= 60_000 || total <= 4 * n || (total < 900_000 && n < 50_000) {
			self
		} else if let Layout::Lane { inv: true, .. } | Layout::Diag { anti: true, .. } = self {
			Layout::NegStride { step: 2, off: 1 }
		} else {
			Layout::Stride { step: 2, off: 1 }
		}
	}
	pub fn shape(self, n: usize) -> (Vec<usize>, bool) {
		match self {
			Layout::Contig | Layout::Neg => (vec![n], false),
			Layout::Offset { pre, post } => (vec![n + pre as usize + post as usize], false),
			Layout::Stride { step, off } | Layout::NegStride { step, off } => {
				(vec![n * step.max(1) as usize + off as usize], false)
			}
			Layout::Col { cols, .. } => (vec![n, cols.max(1) as usize], false),
			Layout::Row { rows, .. } => (vec![rows.max(1) as usize, n], true),
			Layout::Lane { axis, a, b, f, step, .. } => {
				let mut s = vec![a.max(1) as usize, b.max(1) as usize];
				s.insert(axis as usize % 3, n * step.max(1) as usize);
				(s, f)
			}
			Layout::Diag { extra, .. } => (vec![n, n + extra as usize], extra % 2 == 1),
		}
	}
	/// The lane of `n` elements in an array of `self.shape(n)`.
	pub fn lane<T>(self, n: usize, mut array: ArrayViewMutD<'_, T>) -> ArrayViewMut1<'_, T> {
		let strided = |array: &mut ArrayViewMutD<'_, T>, off: usize, step: usize| {
			let off = off.min(array.len_of(Axis(0)));
			array.slice_axis_inplace(
				Axis(0),
				Slice::new(off as isize, None, step as isize),
			);
			array.slice_axis_inplace(Axis(0), Slice::new(0, Some(n as isize), 1));
		};
		match self {
			Layout::Contig => {}
			Layout::Neg => array.invert_axis(Axis(0)),
			Layout::Offset { pre, .. } => strided(&mut array, pre as usize, 1),
			Layout::Stride { step, off } => strided(&mut array, off as usize, step.max(1) as usize),
			Layout::NegStride { step, off } => {
				strided(&mut array, off as usize, step.max(1) as usize);
				array.invert_axis(Axis(0));
			}
			Layout::Col { cols, at } => {
				array.collapse_axis(Axis(1), (at % cols.max(1)) as usize);
				return array.index_axis_move(Axis(1), 0).into_dimensionality().unwrap();
			}
			Layout::Row { rows, at } => {
				return array
					.index_axis_move(Axis(0), (at % rows.max(1)) as usize)
					.into_dimensionality()
					.unwrap();
			}
			Layout::Lane { axis, a, b, i, j, inv, step, .. } => {
				let axis = axis as usize % 3;
				let (p, q) = match axis {
					0 => (1, 2),
					1 => (0, 2),
					_ => (0, 1),
				};
				let i = (i % a.max(1)) as usize;
				let j = (j % b.max(1)) as usize;
				array = array.index_axis_move(Axis(q), j);
				array = array.index_axis_move(Axis(p), i);
				let step = step.max(1) as usize;
				strided(&mut array, (i + j) % step, step);
				if inv {
					array.invert_axis(Axis(0));
				}
			}
			Layout::Diag { anti, .. } => {
				if anti {
					array.invert_axis(Axis(0));
				}
				let mut lane = ArrayBase::into_diag(array);
				lane.slice_axis_inplace(Axis(0), Slice::new(0, Some(n as isize), 1));
				return lane;
			}
		}
		array.into_dimensionality().unwrap()
	}
}
