//! Reads cases, one per line, runs each on a thread with the given stack size, and answers what
//! happened. The feature set decides which operations are known.
use ndarray_slice::ndarray::Array1;
use ndarray_slice::Slice1Ext;
use std::cmp::Ordering;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static KIND: AtomicI64 = AtomicI64::new(0);
static PARAM: AtomicI64 = AtomicI64::new(1);

fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}
fn compare(a: i64, b: i64) -> Ordering {
	let p = PARAM.load(Relaxed);
	let m = p.max(1);
	match KIND.load(Relaxed) {
		0 => a.cmp(&b),
		1 => b.cmp(&a),
		2 => a.div_euclid(m).cmp(&b.div_euclid(m)),
		3 => b.div_euclid(m).cmp(&a.div_euclid(m)),
		4 => a.rem_euclid(m).cmp(&b.rem_euclid(m)),
		5 => Ordering::Less,
		6 => Ordering::Greater,
		_ => match mix((a as u64) << 32 ^ b as u64 & 0xffff_ffff ^ mix(p as u64)) % 3 {
			0 => Ordering::Less,
			1 => Ordering::Equal,
			_ => Ordering::Greater,
		},
	}
}

trait Elem: Ord + Send + Sync + 'static {
	fn make(key: i64, id: u32) -> Self;
	fn key(&self) -> i64;
	fn id(&self) -> u32;
}
macro_rules! elem {
	($t:ident, $pad:expr) => {
		struct $t {
			key: i64,
			id: u32,
			pad: [u32; $pad],
		}
		impl Elem for $t {
			fn make(key: i64, id: u32) -> Self {
				$t { key, id, pad: [id; $pad] }
			}
			fn key(&self) -> i64 {
				self.key
			}
			fn id(&self) -> u32 {
				if self.pad.iter().any(|&p| p != self.id) {
					return u32::MAX;
				}
				self.id
			}
		}
		impl PartialEq for $t {
			fn eq(&self, o: &Self) -> bool {
				self.cmp(o).is_eq()
			}
		}
		impl Eq for $t {}
		impl PartialOrd for $t {
			fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
				Some(self.cmp(o))
			}
		}
		impl Ord for $t {
			fn cmp(&self, o: &Self) -> Ordering {
				compare(self.key, o.key)
			}
		}
	};
}
elem!(Small, 1);
elem!(Large, 500);

struct Key(i64);
impl PartialEq for Key {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}
impl Eq for Key {}
impl PartialOrd for Key {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Key {
	fn cmp(&self, o: &Self) -> Ordering {
		compare(self.0, o.0)
	}
}

struct Request {
	op: String,
	flavor: String,
	target: i64,
	stack: usize,
	keys: Vec<i64>,
	idx: Vec<usize>,
}

fn cmp<E: Elem>(a: &E, b: &E) -> Ordering {
	compare(a.key(), b.key())
}
fn key<E: Elem>(e: &E) -> Key {
	Key(e.key())
}

fn run<E: Elem>(r: &Request, v: &mut Array1<E>) -> Option<String> {
	let cmp = cmp::<E>;
	let key = key::<E>;
	macro_rules! flavors {
		($plain:expr, $by:expr, $key:expr) => {
			match r.flavor.as_str() {
				"Plain" => $plain,
				"By" => $by,
				_ => $key,
			}
		};
	}
	let target = E::make(r.target, 0);
	let none = |()| Some("none".to_string());
	match r.op.as_str() {
		#[cfg(feature = "alloc")]
		"Sort" => none(flavors!(v.sort(), v.sort_by(cmp), v.sort_by_key(key))),
		#[cfg(feature = "std")]
		"SortCached" => none(v.sort_by_cached_key(key)),
		"SortUnstable" => {
			none(flavors!(v.sort_unstable(), v.sort_unstable_by(cmp), v.sort_unstable_by_key(key)))
		}
		#[cfg(feature = "rayon")]
		"ParSort" => none(flavors!(v.par_sort(), v.par_sort_by(cmp), v.par_sort_by_key(key))),
		#[cfg(feature = "rayon")]
		"ParSortCached" => none(v.par_sort_by_cached_key(key)),
		#[cfg(feature = "rayon")]
		"ParSortUnstable" => none(flavors!(
			v.par_sort_unstable(),
			v.par_sort_unstable_by(cmp),
			v.par_sort_unstable_by_key(key)
		)),
		"Select" => {
			let i = r.idx.first().copied().unwrap_or(0);
			let (l, m, x) = flavors!(
				v.select_nth_unstable(i),
				v.select_nth_unstable_by(i, cmp),
				v.select_nth_unstable_by_key(i, key)
			);
			Some(format!("select {} {} {}", l.len(), m.id(), x.len()))
		}
		"SelectMany" => {
			let idx = Array1::from(r.idx.clone());
			let mut c: Vec<(usize, &mut E)> = vec![];
			flavors!(
				v.select_many_nth_unstable(&idx, &mut c),
				v.select_many_nth_unstable_by(&idx, &mut c, cmp),
				v.select_many_nth_unstable_by_key(&idx, &mut c, key)
			);
			Some(format!("many {:?}", c.iter().map(|(i, e)| (*i, e.id())).collect::<Vec<_>>()))
		}
		#[cfg(feature = "rayon")]
		"ParSelectMany" => {
			let idx = Array1::from(r.idx.clone());
			let mut c: Vec<&mut E> = vec![];
			flavors!(
				v.par_select_many_nth_unstable(&idx, &mut c),
				v.par_select_many_nth_unstable_by(&idx, &mut c, cmp),
				v.par_select_many_nth_unstable_by_key(&idx, &mut c, key)
			);
			Some(format!("many {:?}", c.iter().map(|e| e.id()).collect::<Vec<_>>()))
		}
		"IsSorted" => Some(format!(
			"bool {}",
			flavors!(
				v.is_sorted(),
				v.is_sorted_by(|a, b| cmp(a, b).is_le()),
				v.is_sorted_by_key(key)
			)
		)),
		"PartitionPoint" => {
			Some(format!("point {}", v.partition_point(|e| compare(e.key(), r.target).is_lt())))
		}
		"Contains" => Some(format!("bool {}", v.contains(&target))),
		"BinarySearch" => Some(format!(
			"search {:?}",
			flavors!(
				v.binary_search(&target),
				v.binary_search_by(|e| cmp(e, &target)),
				v.binary_search_by_key(&Key(r.target), key)
			)
		)),
		"Dedup" => {
			let (l, x) = flavors!(
				v.partition_dedup(),
				v.partition_dedup_by(|a, b| cmp(a, b).is_eq()),
				v.partition_dedup_by_key(|e| key(e))
			);
			Some(format!("dedup {} {}", l.len(), x.len()))
		}
		"Reverse" => none(v.reverse()),
		_ => None,
	}
}

fn answer<E: Elem>(r: &Request) -> String {
	let mut v: Array1<E> =
		r.keys.iter().enumerate().map(|(i, &k)| E::make(k, i as u32)).collect();
	let v = &mut v;
	let out = if r.op.starts_with("ParS") {
		#[cfg(feature = "rayon")]
		{
			use std::collections::HashMap;
			static POOLS: std::sync::Mutex<Option<HashMap<usize, &'static rayon::ThreadPool>>> =
				std::sync::Mutex::new(None);
			let pool = *POOLS.lock().unwrap().get_or_insert_default().entry(r.stack).or_insert_with(|| {
				let b = rayon::ThreadPoolBuilder::new().num_threads(2).stack_size(r.stack);
				Box::leak(Box::new(b.build().unwrap()))
			});
			pool.install(|| catch_unwind(AssertUnwindSafe(|| run(r, v))).map_err(drop))
		}
		#[cfg(not(feature = "rayon"))]
		{
			Ok(None)
		}
	} else {
		std::thread::scope(|s| {
			std::thread::Builder::new()
				.stack_size(r.stack)
				.spawn_scoped(s, || catch_unwind(AssertUnwindSafe(|| run(r, v))).map_err(drop))
				.unwrap()
				.join()
				.unwrap()
		})
	};
	let out = match out {
		Ok(None) => return "unsupported".into(),
		Ok(Some(o)) => o,
		Err(()) => "panic".into(),
	};
	let mut s = out;
	s.push('|');
	for e in v.iter() {
		s.push_str(&e.id().to_string());
		s.push(' ');
	}
	s
}

fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let stdin = std::io::stdin();
	let mut stdout = std::io::stdout();
	for line in stdin.lock().lines() {
		let Ok(line) = line else { break };
		let f: Vec<&str> = line.split('|').collect();
		let num = |i: usize| f[i].trim().parse::<i64>().unwrap();
		let list = |i: usize| f[i].split_whitespace();
		KIND.store(num(2), Relaxed);
		PARAM.store(num(3), Relaxed);
		let r = Request {
			op: f[0].into(),
			flavor: f[1].into(),
			target: num(4),
			stack: num(5) as usize,
			keys: list(7).map(|x| x.parse().unwrap()).collect(),
			idx: list(8).map(|x| x.parse().unwrap()).collect(),
		};
		let mut a = if num(6) == 1 { answer::<Large>(&r) } else { answer::<Small>(&r) };
		a.push('\n');
		stdout.write_all(a.as_bytes()).unwrap();
		stdout.flush().unwrap();
	}
}
