//! Element types. None of them is `Clone` or `Copy` except where noted.
use crate::ctx;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ElemKind {
	/// 8 bytes: key and identity.
	It,
	/// 16 bytes, counts its drops and its interior mutations.
	Tr,
	/// `Tr` behind a heap allocation.
	Bx,
	/// 204 bytes with checksum.
	Big,
	/// 3 bytes, alignment 1.
	B3,
	/// 64-byte aligned.
	Al,
	/// Plain i32, without identity.
	I32,
	/// Zero-sized with drop counter.
	Zs,
}

/// Identity of temporaries which are not part of an array.
pub const NOID: u32 = u32::MAX;

pub trait Elem: Ord + Send + Sync + Sized + 'static {
	/// All flavours (plain, by, by key) are exercised, otherwise only `by`.
	const FULL: bool = false;
	const HAS_ID: bool = true;
	const TOUCHES: bool = false;
	fn make(key: i32, id: u32) -> Self;
	fn key(&self) -> i32;
	fn id(&self) -> u32;
	fn intact(&self) -> bool {
		true
	}
	fn touch(&self) {}
	fn touches(&self) -> u32 {
		0
	}
}

macro_rules! ord {
	($t:ty) => {
		impl PartialEq for $t {
			#[inline]
			fn eq(&self, other: &Self) -> bool {
				compare(self, other) == Ordering::Equal
			}
		}
		impl Eq for $t {}
		impl PartialOrd for $t {
			#[inline]
			fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
				Some(compare(self, other))
			}
		}
		impl Ord for $t {
			#[inline]
			fn cmp(&self, other: &Self) -> Ordering {
				compare(self, other)
			}
		}
	};
}

/// Callback on two elements.
#[inline]
pub fn compare<E: Elem>(a: &E, b: &E) -> Ordering {
	if E::HAS_ID {
		ctx::note(a.id(), b.id());
	}
	if E::TOUCHES && ctx::touching() {
		a.touch();
		b.touch();
	}
	ctx::compare(a.key(), b.key())
}

pub struct It {
	key: i32,
	id: u32,
}
impl Elem for It {
	const FULL: bool = true;
	fn make(key: i32, id: u32) -> Self {
		It { key, id }
	}
	fn key(&self) -> i32 {
		self.key
	}
	fn id(&self) -> u32 {
		self.id
	}
}
ord!(It);

pub const LEDGER: usize = 1 << 20;
static DROPS: [AtomicU8; LEDGER] = [const { AtomicU8::new(0) }; LEDGER];
/// Total touches by identity.
static TOUCHED: [AtomicU32; LEDGER] = [const { AtomicU32::new(0) }; LEDGER];
static CORRUPT: AtomicU64 = AtomicU64::new(0);

pub fn ledger_reset(n: usize) {
	for d in &DROPS[..n] {
		d.store(0, Relaxed);
	}
	for d in &TOUCHED[..n] {
		d.store(0, Relaxed);
	}
	CORRUPT.store(0, Relaxed);
	ZS_DROPS.store(0, Relaxed);
}
/// Whether each of the first `n` identities was dropped `times` times.
pub fn ledger_check(n: usize, times: u8) -> Result<(), String> {
	for (i, d) in DROPS[..n].iter().enumerate() {
		let d = d.load(Relaxed);
		if d != times {
			return Err(format!("element {i} dropped {d} times instead of {times}"));
		}
	}
	match CORRUPT.load(Relaxed) {
		0 => Ok(()),
		n => Err(format!("{n} drops of corrupted elements")),
	}
}
pub fn touched(id: u32) -> u32 {
	TOUCHED[id as usize].load(Relaxed)
}
pub fn zs_drops() -> u64 {
	ZS_DROPS.load(Relaxed)
}

const MAGIC: u32 = 0x5ca1_ab1e;

/// Counter inside elements. For the thread sanitizer it's a plain cell as allowed in elements which are
/// `Send` only: the same element must not be given to callbacks on two threads at once.
#[cfg(not(san_thread))]
struct Touches(AtomicU32);
#[cfg(not(san_thread))]
impl Touches {
	fn new() -> Self {
		Touches(AtomicU32::new(0))
	}
	fn add(&self) {
		self.0.fetch_add(1, Relaxed);
	}
	fn get(&self) -> u32 {
		self.0.load(Relaxed)
	}
}
#[cfg(san_thread)]
struct Touches(std::cell::UnsafeCell<u32>);
#[cfg(san_thread)]
unsafe impl Sync for Touches {}
#[cfg(san_thread)]
impl Touches {
	fn new() -> Self {
		Touches(std::cell::UnsafeCell::new(0))
	}
	fn add(&self) {
		unsafe { *self.0.get() += 1 }
	}
	fn get(&self) -> u32 {
		unsafe { *self.0.get() }
	}
}

pub struct Tr {
	key: i32,
	id: u32,
	magic: u32,
	touches: Touches,
}
impl Elem for Tr {
	const TOUCHES: bool = true;
	fn make(key: i32, id: u32) -> Self {
		Tr { key, id, magic: MAGIC ^ id, touches: Touches::new() }
	}
	fn key(&self) -> i32 {
		self.key
	}
	fn id(&self) -> u32 {
		self.id
	}
	fn intact(&self) -> bool {
		self.magic == MAGIC ^ self.id
	}
	fn touch(&self) {
		if (self.id as usize) < LEDGER {
			self.touches.add();
			TOUCHED[self.id as usize].fetch_add(1, Relaxed);
		}
	}
	fn touches(&self) -> u32 {
		self.touches.get()
	}
}
ord!(Tr);
impl Drop for Tr {
	fn drop(&mut self) {
		if self.id == NOID {
			return;
		}
		if self.magic != MAGIC ^ self.id || self.id as usize >= LEDGER {
			CORRUPT.fetch_add(1, Relaxed);
			return;
		}
		let before = DROPS[self.id as usize].load(Relaxed);
		DROPS[self.id as usize].store(before.saturating_add(1), Relaxed);
	}
}

pub struct Bx(Box<Tr>);
impl Elem for Bx {
	const TOUCHES: bool = true;
	fn make(key: i32, id: u32) -> Self {
		Bx(Box::new(Tr::make(key, id)))
	}
	fn key(&self) -> i32 {
		self.0.key
	}
	fn id(&self) -> u32 {
		self.0.id
	}
	fn intact(&self) -> bool {
		self.0.intact()
	}
	fn touch(&self) {
		self.0.touch()
	}
	fn touches(&self) -> u32 {
		self.0.touches()
	}
}
ord!(Bx);

pub struct Big {
	key: i32,
	id: u32,
	pad: [u32; 49],
}
impl Elem for Big {
	fn make(key: i32, id: u32) -> Self {
		let mut pad = [0; 49];
		for (i, p) in pad.iter_mut().enumerate() {
			*p = id.wrapping_mul(0x9e37_79b1).wrapping_add(i as u32);
		}
		Big { key, id, pad }
	}
	fn key(&self) -> i32 {
		self.key
	}
	fn id(&self) -> u32 {
		self.id
	}
	fn intact(&self) -> bool {
		self.pad.iter().enumerate().all(|(i, &p)| {
			p == self.id.wrapping_mul(0x9e37_79b1).wrapping_add(i as u32)
		})
	}
}
ord!(Big);

/// Key is taken modulo 256 and identity modulo 65536.
pub struct B3([u8; 3]);
impl Elem for B3 {
	fn make(key: i32, id: u32) -> Self {
		B3([key as u8, id as u8, (id >> 8) as u8])
	}
	fn key(&self) -> i32 {
		self.0[0] as i32
	}
	fn id(&self) -> u32 {
		self.0[1] as u32 | (self.0[2] as u32) << 8
	}
}
ord!(B3);

#[repr(align(64))]
pub struct Al {
	key: i32,
	id: u32,
}
impl Elem for Al {
	fn make(key: i32, id: u32) -> Self {
		Al { key, id }
	}
	fn key(&self) -> i32 {
		self.key
	}
	fn id(&self) -> u32 {
		self.id
	}
	fn intact(&self) -> bool {
		(self as *const Self as usize) % 64 == 0
	}
}
ord!(Al);

/// Plain integer with the natural order of the comparison in force.
pub struct I32(pub i32);
impl Elem for I32 {
	const HAS_ID: bool = false;
	fn make(key: i32, _: u32) -> Self {
		I32(key)
	}
	fn key(&self) -> i32 {
		self.0
	}
	fn id(&self) -> u32 {
		0
	}
}
ord!(I32);

static ZS_DROPS: AtomicU64 = AtomicU64::new(0);
pub struct Zs;
impl Elem for Zs {
	const HAS_ID: bool = false;
	fn make(_: i32, id: u32) -> Self {
		if id == NOID {
			ZS_DROPS.fetch_sub(1, Relaxed);
		}
		Zs
	}
	fn key(&self) -> i32 {
		0
	}
	fn id(&self) -> u32 {
		0
	}
}
ord!(Zs);
impl Drop for Zs {
	fn drop(&mut self) {
		ZS_DROPS.fetch_add(1, Relaxed);
	}
}

/// Key with the comparison in force, counting those alive.
pub struct Kw(pub i32);
impl Kw {
	#[inline]
	pub fn new(key: i32) -> Self {
		ctx::call();
		ctx::KEYS.fetch_add(1, Relaxed);
		ctx::KEYS_LIVE.fetch_add(1, Relaxed);
		Kw(key)
	}
}
impl Drop for Kw {
	#[inline]
	fn drop(&mut self) {
		ctx::KEYS_LIVE.fetch_sub(1, Relaxed);
	}
}
impl PartialEq for Kw {
	fn eq(&self, other: &Self) -> bool {
		ctx::compare(self.0, other.0) == Ordering::Equal
	}
}
impl Eq for Kw {}
impl PartialOrd for Kw {
	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
		Some(ctx::compare(self.0, other.0))
	}
}
impl Ord for Kw {
	fn cmp(&self, other: &Self) -> Ordering {
		ctx::compare(self.0, other.0)
	}
}

/// Types of cached keys, chosen by their sizes.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum KeyKind {
	U8,
	U16,
	A3,
	U32,
	U64,
	Str,
	Kw,
}
impl KeyKind {
	/// The order the key type induces on ranks.
	pub fn map(self, rank: i64) -> i64 {
		match self {
			KeyKind::U8 => rank as u8 as i64,
			KeyKind::U16 => rank as u16 as i64,
			KeyKind::A3 => rank & 0xff_ffff,
			KeyKind::U32 => rank as u32 as i64,
			_ => rank,
		}
	}
}
#[inline]
pub fn key_call() {
	ctx::call();
	ctx::KEYS.fetch_add(1, Relaxed);
}
#[inline]
pub fn k_u8(r: i64) -> u8 {
	key_call();
	r as u8
}
#[inline]
pub fn k_u16(r: i64) -> u16 {
	key_call();
	r as u16
}
#[inline]
pub fn k_a3(r: i64) -> [u8; 3] {
	key_call();
	[(r >> 16) as u8, (r >> 8) as u8, r as u8]
}
#[inline]
pub fn k_u32(r: i64) -> u32 {
	key_call();
	r as u32
}
#[inline]
pub fn k_i64(r: i64) -> i64 {
	key_call();
	r
}
#[inline]
pub fn k_str(r: i64) -> String {
	key_call();
	format!("{:020}", r.wrapping_add(1 << 40))
}
