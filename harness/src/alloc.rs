//! Counting global allocator. Counts all threads or the starting one while started and not paused.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static ALL: AtomicBool = AtomicBool::new(false);
thread_local! {
	static MINE: Cell<bool> = const { Cell::new(false) };
}

fn counted() -> bool {
	ON.load(Relaxed) && (ALL.load(Relaxed) || MINE.try_with(|m| m.get()).unwrap_or(false))
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Usage {
	pub live: i64,
	pub peak: i64,
	pub count: u64,
	pub total: u64,
}

fn add(n: usize) {
	if counted() {
		let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
		PEAK.fetch_max(live, Relaxed);
		COUNT.fetch_add(1, Relaxed);
		TOTAL.fetch_add(n as u64, Relaxed);
	}
}
fn sub(n: usize) {
	if counted() {
		LIVE.fetch_sub(n as i64, Relaxed);
	}
}

/// What went wrong with a block: it is between two zones of known bytes, the first one holding its
/// size, which get verified when it is released. Fresh and released blocks are filled with junk.
static BAD: AtomicU64 = AtomicU64::new(0);
const MAGIC: u64 = 0x5afe_b10c_0dd5_eed5;
const FRESH: u8 = 0xa5;
const STALE: u8 = 0xdb;
const ZONE: u8 = 0xc7;

fn guarded(l: Layout) -> (Layout, usize, usize) {
	let front = l.align().max(16);
	let back = if l.size() < 256 { 32 } else { 256 };
	let full = unsafe { Layout::from_size_align_unchecked(front + l.size() + back, front) };
	(full, front, back)
}
fn bad(code: u64) {
	let _ = BAD.compare_exchange(0, code, Relaxed, Relaxed);
}
/// Whether any block was corrupted or misused so far.
pub fn corrupted() -> Option<&'static str> {
	match BAD.swap(0, Relaxed) {
		0 => None,
		1 => Some("a memory block was released twice, with a wrong layout, or written before its begin"),
		2 => Some("a memory block was written beyond its end"),
		_ => Some("a memory block without size was requested"),
	}
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(l.size());
		if cfg!(asan) {
			return System.alloc(l);
		}
		if l.size() == 0 {
			bad(3);
		}
		let (full, front, back) = guarded(l);
		let p = System.alloc(full);
		if p.is_null() {
			return p;
		}
		let p = p.add(front);
		p.sub(16).cast::<u64>().write(MAGIC ^ l.align() as u64);
		p.sub(8).cast::<u64>().write(l.size() as u64);
		p.write_bytes(FRESH, l.size());
		p.add(l.size()).write_bytes(ZONE, back);
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		sub(l.size());
		if cfg!(asan) {
			return System.dealloc(p, l);
		}
		if p.sub(16).cast::<u64>().read() != MAGIC ^ l.align() as u64
			|| p.sub(8).cast::<u64>().read() != l.size() as u64
		{
			// Not returned as its extent is unknown.
			bad(1);
			return;
		}
		let (full, front, back) = guarded(l);
		if std::slice::from_raw_parts(p.add(l.size()), back).iter().any(|&b| b != ZONE) {
			bad(2);
		}
		p.write_bytes(STALE, l.size());
		p.sub(16).write_bytes(STALE, 16);
		System.dealloc(p.sub(front), full)
	}
}

/// Threads of pools from earlier cases may still be winding down, hence `all` for parallel operations
/// only.
pub fn start(all: bool) {
	ALL.store(all, Relaxed);
	MINE.set(true);
	LIVE.store(0, Relaxed);
	PEAK.store(0, Relaxed);
	COUNT.store(0, Relaxed);
	TOTAL.store(0, Relaxed);
	ON.store(true, Relaxed);
}
pub fn stop() {
	ON.store(false, Relaxed);
	MINE.set(false);
}
pub fn pause() -> bool {
	ON.swap(false, Relaxed)
}
pub fn resume(was: bool) {
	ON.store(was, Relaxed);
}
pub fn last() -> Usage {
	Usage {
		live: LIVE.load(Relaxed),
		peak: PEAK.load(Relaxed),
		count: COUNT.load(Relaxed),
		total: TOTAL.load(Relaxed),
	}
}
