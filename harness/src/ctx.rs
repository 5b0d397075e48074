//! Global callback context: every comparison, key and equality callback the harness hands to the
//! code under test goes through here. One case runs at a time per process.
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// Comparison functions. The first group are total preorders given by a rank; the second group
/// breaks one or several laws of a total preorder.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
	Nat,
	Rev,
	Coarse(u32),
	RevCoarse(u32),
	Mod(u32),
	// Ill-behaved from here on.
	AlwaysLess,
	AlwaysGreater,
	AlwaysEqual,
	/// Pseudo-random per call.
	RandomCall(u32),
	/// Pseudo-random function of the pair of keys.
	HashPair(u32),
	/// Rock-paper-scissors modulo an odd number.
	Rps(u32),
	/// Natural until the given number of calls, reversed afterwards.
	FlipAfter(u32),
	/// Natural, but keys divisible by the number are "greater than everything", themselves
	/// included.
	NanGreater(u32),
	/// Natural, but keys divisible by the number are "less than everything", themselves included.
	NanLess(u32),
	/// Natural, except that every given number of calls the answer is inverted.
	Noisy(u32),
}

impl Cmp {
	pub fn well_behaved(self) -> bool {
		matches!(self, Cmp::Nat | Cmp::Rev | Cmp::Coarse(_) | Cmp::RevCoarse(_) | Cmp::Mod(_))
	}
	/// Rank defining the total preorder.
	pub fn rank(self, key: i32) -> i64 {
		let k = key as i64;
		match self {
			Cmp::Nat => k,
			Cmp::Rev => -k,
			Cmp::Coarse(c) => k.div_euclid(c.max(1) as i64),
			Cmp::RevCoarse(c) => -k.div_euclid(c.max(1) as i64),
			Cmp::Mod(m) => k.rem_euclid(m.max(1) as i64),
			_ => panic!("no rank"),
		}
	}
	/// The comparison as a pure function where it is one.
	pub fn pure(self, a: i32, b: i32) -> Ordering {
		self.rank(a).cmp(&self.rank(b))
	}
	/// Also the ill-behaved ones as a pure function where they are one.
	pub fn pure_ill(self, a: i32, b: i32) -> Option<Ordering> {
		match self {
			Cmp::RandomCall(_) | Cmp::FlipAfter(_) | Cmp::Noisy(_) => None,
			c => Some(c.eval(a, b, 0)),
		}
	}
	fn eval(self, a: i32, b: i32, call: u64) -> Ordering {
		use Ordering::*;
		match self {
			Cmp::Nat => a.cmp(&b),
			Cmp::Rev => b.cmp(&a),
			Cmp::Coarse(_) | Cmp::RevCoarse(_) | Cmp::Mod(_) => self.rank(a).cmp(&self.rank(b)),
			Cmp::AlwaysLess => Less,
			Cmp::AlwaysGreater => Greater,
			Cmp::AlwaysEqual => Equal,
			Cmp::RandomCall(s) => third(mix(call ^ ((s as u64) << 32))),
			Cmp::HashPair(s) => {
				third(mix((a as u32 as u64) << 32 ^ (b as u32 as u64) ^ mix(s as u64)))
			}
			Cmp::Rps(m) => {
				let m = (m | 1).max(3) as i64;
				let d = (a as i64 - b as i64).rem_euclid(m);
				if d == 0 {
					Equal
				} else if d <= m / 2 {
					Greater
				} else {
					Less
				}
			}
			Cmp::FlipAfter(n) => {
				if call <= n as u64 {
					a.cmp(&b)
				} else {
					b.cmp(&a)
				}
			}
			Cmp::NanGreater(m) => {
				if a % m.max(1) as i32 == 0 || b % m.max(1) as i32 == 0 {
					Greater
				} else {
					a.cmp(&b)
				}
			}
			Cmp::NanLess(m) => {
				if a % m.max(1) as i32 == 0 || b % m.max(1) as i32 == 0 {
					Less
				} else {
					a.cmp(&b)
				}
			}
			Cmp::Noisy(n) => {
				if call % n.max(1) as u64 == 0 {
					b.cmp(&a)
				} else {
					a.cmp(&b)
				}
			}
		}
	}
}

fn third(h: u64) -> Ordering {
	match h % 3 {
		0 => Ordering::Less,
		1 => Ordering::Equal,
		_ => Ordering::Greater,
	}
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}

/// Payload of injected panics.
pub struct Injected(pub u64);
/// Payload when the callback budget is exhausted.
pub struct Exhausted(pub u64);

pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// Calls of key functions only.
pub static KEYS: AtomicU64 = AtomicU64::new(0);
/// Keys alive (made by key functions and not yet dropped).
pub static KEYS_LIVE: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static PANIC_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static STICKY: AtomicBool = AtomicBool::new(false);
pub static INJECTED: AtomicU64 = AtomicU64::new(0);
static TOUCH: AtomicBool = AtomicBool::new(false);
static TRACE_ON: AtomicBool = AtomicBool::new(false);
static TRACE: AtomicU64 = AtomicU64::new(0);
static JITTER: AtomicU32 = AtomicU32::new(0);
static KIND: AtomicU32 = AtomicU32::new(0);
static PARAM: AtomicU32 = AtomicU32::new(0);
static ADV: Mutex<Option<Adversary>> = Mutex::new(None);

#[derive(Clone, Copy, Debug)]
pub struct Plan {
	pub cmp: Cmp,
	/// One-based call at which the callback panics.
	pub panic_at: Option<u64>,
	/// Also panic at every later call.
	pub sticky: bool,
	pub budget: u64,
	pub touch: bool,
	pub trace: bool,
	/// Delays some calls, varying with the number.
	pub jitter: u32,
}

impl Plan {
	pub fn new(cmp: Cmp, budget: u64) -> Self {
		Plan { cmp, panic_at: None, sticky: false, budget, touch: false, trace: false, jitter: 0 }
	}
	/// Delays callbacks of one in four parallel cases.
	pub fn perturbed(mut self, c: &crate::case::Case) -> Self {
		let h = mix(c.a as u64 ^ (c.b as u64) << 32) >> 17;
		if c.op.par() && h % 4 == 0 {
			self.jitter = 3 + (h >> 8) as u32 % 125 * 8 + (h >> 2) as u32 % 5;
		}
		self
	}
}

pub fn begin(plan: &Plan) {
	let (kind, param) = encode(plan.cmp);
	KIND.store(kind, Relaxed);
	PARAM.store(param, Relaxed);
	CALLS.store(0, Relaxed);
	KEYS.store(0, Relaxed);
	KEYS_LIVE.store(0, Relaxed);
	INJECTED.store(0, Relaxed);
	TOUCH.store(plan.touch, Relaxed);
	TRACE_ON.store(plan.trace, Relaxed);
	TRACE.store(0, Relaxed);
	JITTER.store(plan.jitter, Relaxed);
	let panic_at = plan.panic_at.unwrap_or(u64::MAX);
	PANIC_AT.store(panic_at, Relaxed);
	BUDGET.store(plan.budget, Relaxed);
	STICKY.store(plan.sticky, Relaxed);
	LIMIT.store(panic_at.min(plan.budget.saturating_add(1)), Relaxed);
}

/// Stops budgets and injected panics, so that later harness-side use of `Ord` is unaffected.
pub fn end() {
	LIMIT.store(u64::MAX, Relaxed);
	TOUCH.store(false, Relaxed);
	TRACE_ON.store(false, Relaxed);
	JITTER.store(0, Relaxed);
}

pub fn calls() -> u64 {
	CALLS.load(Relaxed)
}
pub fn trace() -> u64 {
	TRACE.load(Relaxed)
}
pub fn touching() -> bool {
	TOUCH.load(Relaxed)
}

#[inline]
pub fn call() -> u64 {
	let c = CALLS.fetch_add(1, Relaxed) + 1;
	if c >= LIMIT.load(Relaxed) {
		limit(c);
	}
	let j = JITTER.load(Relaxed);
	if j > 0 {
		delay(c, j);
	}
	c
}

/// Lets other threads run ahead at some calls.
#[cold]
#[inline(never)]
fn delay(c: u64, j: u32) {
	let h = mix(c ^ (j as u64) << 40);
	if h % (16 << (j % 8)) != 0 {
		return;
	}
	match h >> 32 & 7 {
		0..=3 => std::thread::yield_now(),
		4..=6 => (0..h >> 40 & 1023).for_each(|_| std::hint::spin_loop()),
		_ => std::thread::sleep(std::time::Duration::from_micros(h >> 40 & 63)),
	}
}

#[cold]
#[inline(never)]
fn limit(c: u64) {
	let at = PANIC_AT.load(Relaxed);
	if c == at || (c > at && STICKY.load(Relaxed)) {
		INJECTED.fetch_add(1, Relaxed);
		std::panic::panic_any(Injected(c));
	}
	if c > BUDGET.load(Relaxed) {
		std::panic::panic_any(Exhausted(c));
	}
}

#[inline]
pub fn note(a: u32, b: u32) {
	if TRACE_ON.load(Relaxed) {
		let t = TRACE.load(Relaxed);
		TRACE.store(mix(t ^ ((a as u64) << 32 | b as u64)), Relaxed);
	}
}

/// The comparison currently in force, counted as one callback call.
#[inline]
pub fn compare(a: i32, b: i32) -> Ordering {
	let c = call();
	match KIND.load(Relaxed) {
		0 => a.cmp(&b),
		100 => adversary(a, b),
		k => decode(k, PARAM.load(Relaxed)).eval(a, b, c),
	}
}

fn encode(c: Cmp) -> (u32, u32) {
	match c {
		Cmp::Nat => (0, 0),
		Cmp::Rev => (1, 0),
		Cmp::Coarse(p) => (2, p),
		Cmp::RevCoarse(p) => (3, p),
		Cmp::Mod(p) => (4, p),
		Cmp::AlwaysLess => (5, 0),
		Cmp::AlwaysGreater => (6, 0),
		Cmp::AlwaysEqual => (7, 0),
		Cmp::RandomCall(p) => (8, p),
		Cmp::HashPair(p) => (9, p),
		Cmp::Rps(p) => (10, p),
		Cmp::FlipAfter(p) => (11, p),
		Cmp::NanGreater(p) => (12, p),
		Cmp::NanLess(p) => (13, p),
		Cmp::Noisy(p) => (14, p),
	}
}
fn decode(k: u32, p: u32) -> Cmp {
	match k {
		0 => Cmp::Nat,
		1 => Cmp::Rev,
		2 => Cmp::Coarse(p),
		3 => Cmp::RevCoarse(p),
		4 => Cmp::Mod(p),
		5 => Cmp::AlwaysLess,
		6 => Cmp::AlwaysGreater,
		7 => Cmp::AlwaysEqual,
		8 => Cmp::RandomCall(p),
		9 => Cmp::HashPair(p),
		10 => Cmp::Rps(p),
		11 => Cmp::FlipAfter(p),
		12 => Cmp::NanGreater(p),
		13 => Cmp::NanLess(p),
		_ => Cmp::Noisy(p),
	}
}

/// McIlroy's adversary ("A Killer Adversary for Quicksort", 1999): decides the values of elements
/// lazily while the algorithm under test compares them, making every pivot as bad as possible.
/// After `freeze` decided elements the undecided rest stays all equal.
pub struct Adversary {
	vals: Vec<i32>,
	gas: i32,
	solid: i32,
	candidate: usize,
	freeze: i32,
	reverse: bool,
	/// Whether to toss a coin between undecided elements which are both no candidate. Avoids
	/// the impression of sorted input.
	coin: bool,
	tosses: u64,
}

pub fn adversary_begin(len: usize, (freeze, reverse, coin): (usize, bool, bool), budget: u64) {
	begin(&Plan::new(Cmp::Nat, budget));
	KIND.store(100, Relaxed);
	let gas = i32::MAX;
	*ADV.lock().unwrap_or_else(|e| e.into_inner()) = Some(Adversary {
		vals: vec![gas; len],
		gas,
		solid: 0,
		candidate: 0,
		freeze: freeze.min(i32::MAX as usize) as i32,
		reverse,
		coin,
		tosses: 0,
	});
}

/// Values of all elements by initial position. Undecided ones get the same value above all decided
/// ones, or distinct ones.
pub fn adversary_end(distinct: bool) -> Vec<i32> {
	end();
	KIND.store(0, Relaxed);
	let adv = ADV.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
	let mut next = adv.solid + 1;
	adv.vals
		.iter()
		.map(|&v| {
			let v = if v == adv.gas {
				if distinct {
					next += 1;
				}
				next
			} else {
				v
			};
			if adv.reverse {
				-v
			} else {
				v
			}
		})
		.collect()
}

fn adversary(a: i32, b: i32) -> Ordering {
	let mut g = ADV.lock().unwrap_or_else(|e| e.into_inner());
	let adv = g.as_mut().unwrap();
	let (x, y) = (a as usize, b as usize);
	if x >= adv.vals.len() || y >= adv.vals.len() {
		return a.cmp(&b);
	}
	if adv.vals[x] == adv.gas && adv.vals[y] == adv.gas && adv.solid < adv.freeze && x != y {
		adv.solid += 1;
		adv.tosses += 1;
		let toss = adv.coin && y != adv.candidate && mix(adv.tosses) & 1 == 1;
		if x == adv.candidate || toss {
			adv.vals[x] = adv.solid;
		} else {
			adv.vals[y] = adv.solid;
		}
	}
	if adv.vals[x] == adv.gas {
		adv.candidate = x;
	} else if adv.vals[y] == adv.gas {
		adv.candidate = y;
	}
	let ord = adv.vals[x].cmp(&adv.vals[y]);
	if adv.reverse {
		ord.reverse()
	} else {
		ord
	}
}
