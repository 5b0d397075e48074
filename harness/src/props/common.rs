//! Classification and shrinking of `Case`, shared by the properties.
use crate::case::{Case, Flavor, Idx, Pool};
use crate::ctx::Cmp;
use crate::data::Data;
use crate::driver::Info;
use crate::elem::{ElemKind, KeyKind};
use crate::exec::{self, Resolved};
use crate::layout::Layout;

pub fn size_class(n: usize) -> &'static str {
	match n {
		0..=1 => "len 0-1",
		2..=20 => "len 2-20",
		21..=49 => "len 21-49",
		50..=256 => "len 50-256",
		257..=2000 => "len 257-2000",
		2001..=10000 => "len 2001-10000",
		10001..=65535 => "len 10001-65535",
		_ => "len >65535",
	}
}

/// Counts the classes of a case.
pub fn classify(c: &Case, res: &Resolved, info: &mut Info) {
	let n = res.keys.len();
	info.class(format!("op {:?}", c.op));
	info.class(size_class(n));
	info.class(format!("elem {:?}", c.elem));
	info.class(format!("flavor {:?}", c.flavor));
	info.class(if c.layout.contiguous() { "layout contiguous" } else { "layout strided" });
	match &c.data {
		Data::Explicit(_) => info.class("shape Explicit"),
		Data::Pattern { shape, .. } => info.class(format!("shape {shape:?}")),
	}
	let mut s = res.keys.clone();
	s.sort();
	info.when(s.windows(2).any(|w| w[0] == w[1]), "with ties");
	if c.op.par() {
		info.class(match c.pool {
			Pool::Global => "pool global".into(),
			Pool::Size(n) => format!("pool of {n}"),
			Pool::InJoin(_) => "inside a join".into(),
			Pool::InScope(_) => "inside a scope".to_string(),
		});
	}
	if c.op.cached() {
		info.class(format!("key {:?}", c.key));
	}
}

/// At least two distinct keys not already in order.
pub fn unsorted(c: &Case, keys: &[i32]) -> bool {
	keys.windows(2).any(|w| c.cmp.well_behaved() && c.cmp.rank(w[0]) > c.cmp.rank(w[1]))
}

pub fn simpler(c: &Case, round: u32) -> Vec<Case> {
	let mut out = vec![];
	let mut with = |f: &dyn Fn(&mut Case)| {
		let mut d = c.clone();
		f(&mut d);
		out.push(d);
	};
	if round == 0 {
		let n = exec::normalise(c);
		if let Ok(res) = exec::resolve(&n) {
			with(&|d| {
				*d = n.clone();
				d.data = Data::Explicit(res.keys.clone());
				d.idx = Idx::Explicit(res.idx.clone());
			});
		}
		with(&|d| d.layout = Layout::Contig);
		with(&|d| d.layout = Layout::Stride { step: 2, off: 0 });
		with(&|d| d.elem = ElemKind::It);
		with(&|d| d.pool = Pool::Size(1));
		with(&|d| d.pool = Pool::Size(2));
		with(&|d| d.cmp = Cmp::Nat);
		with(&|d| d.flavor = Flavor::Plain);
		with(&|d| d.flavor = Flavor::By);
		with(&|d| d.key = KeyKind::Kw);
		with(&|d| d.idx_step = 1);
		with(&|d| d.pre = 0);
		with(&|d| d.a = 0);
		with(&|d| d.b = 0);
		with(&|d| d.target = 0);
		return out;
	}
	let Data::Explicit(keys) = &c.data else { return out };
	let n = keys.len();
	match round {
		1..=10 => {
			let chunk = n >> round;
			if chunk == 0 {
				return out;
			}
			for s in (0..n).step_by(chunk).collect::<Vec<_>>().into_iter().rev() {
				let e = (s + chunk).min(n);
				let mut d = c.clone();
				let mut k = keys.clone();
				k.drain(s..e);
				d.data = Data::Explicit(k);
				if let Idx::Explicit(v) = &c.idx {
					d.idx = Idx::Explicit(
						v.iter()
							.filter(|&&i| i < s || i >= e)
							.map(|&i| if i >= e { i - (e - s) } else { i })
							.collect(),
					);
				}
				out.push(d);
			}
		}
		11 => {
			let mut s = keys.clone();
			s.sort();
			s.dedup();
			let k: Vec<i32> =
				keys.iter().map(|k| s.binary_search(k).unwrap() as i32).collect();
			if &k != keys {
				with(&|d| d.data = Data::Explicit(k.clone()));
			}
			if n > 40 {
				return out;
			}
			for i in 0..n {
				for x in [0, keys[i] / 2, keys[i] - keys[i].signum()] {
					if x != keys[i] && x.unsigned_abs() < keys[i].unsigned_abs() {
						with(&|d| {
							if let Data::Explicit(k) = &mut d.data {
								k[i] = x;
							}
						});
					}
				}
			}
		}
		12 => {
			if let Idx::Explicit(v) = &c.idx {
				for i in (0..v.len()).rev() {
					with(&|d| {
						if let Idx::Explicit(v) = &mut d.idx {
							v.remove(i);
						}
					});
				}
			}
		}
		_ => {
			if n <= 200 {
				for i in (0..n).rev() {
					with(&|d| {
						if let Data::Explicit(k) = &mut d.data {
							k.remove(i);
						}
					});
				}
			}
		}
	}
	out
}

pub fn cost(c: &Case) -> u64 {
	let n = c.data.len() as u64 + 1;
	n * (70 - n.leading_zeros() as u64) * 2
}
