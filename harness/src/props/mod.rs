//! The properties. Identifiers match properties.jsonl.
use crate::driver::{self, Property, RunArgs, Tier};
use std::path::Path;

pub mod common;
pub mod conf;
pub mod cost;
pub mod fault;
pub mod hist;
pub mod mem;
pub mod order;
pub mod reent;
pub mod search;
pub mod storage;

macro_rules! dispatch {
	($($id:literal => $t:ty),* $(,)?) => {
		pub const IDS: &[&str] = &[$($id),*];
		pub fn run(id: &str, a: &RunArgs) -> i32 {
			match id { $($id => driver::run::<$t>(a),)* _ => unknown(id) }
		}
		pub fn shard(id: &str, tier: Tier, seed: u64, shard: u32, scale: f64, dir: &Path) -> i32 {
			match id { $($id => driver::shard::<$t>(tier, seed, shard, scale, dir),)* _ => unknown(id) }
		}
		pub fn one(id: &str, file: &Path) -> i32 {
			match id { $($id => driver::one::<$t>(file),)* _ => unknown(id) }
		}
		#[allow(dead_code)]
		fn ids() { $(assert_eq!(<$t as Property>::ID, $id);)* }
	};
}
fn unknown(id: &str) -> i32 {
	eprintln!("unknown property {id}");
	2
}

dispatch! {
	"C01" => order::C01,
	"C02" => order::C02,
	"C03" => order::C03,
	"C04" => order::C04,
	"C05" => order::C05,
	"C06" => order::C06,
	"C07" => order::C07,
	"C08" => fault::C08,
	"C09" => search::C09,
	"C10" => search::C10,
	"C11" => search::C11,
	"C12" => order::C12,
	"C13" => hist::C13,
	"C14" => fault::C14,
	"C15" => fault::C15,
	"C16" => fault::C16,
	"C17" => cost::C17,
	"C18" => cost::C18,
	"C19" => cost::C19,
	"C20" => conf::C20,
	"C21" => storage::C21,
	"C22" => mem::C22,
	"C23" => mem::C23,
	"C24" => reent::C24,
}
