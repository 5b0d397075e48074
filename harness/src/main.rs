#![allow(dead_code)]
mod alloc;
mod case;
mod ctx;
mod data;
mod driver;
mod elem;
mod exec;
mod gen;
mod layout;
mod props;
mod verify;

use driver::{RunArgs, Tier};
use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn usage() -> ! {
	eprintln!(
		"usage: harness run ID | harness replay FILE | harness one ID FILE | harness list\n\
		environment: VERIF_SEED VERIF_TIER VERIF_DIR VERIF_SCALE"
	);
	std::process::exit(2)
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_else(|| usage());
	let code = match arg(1) {
		"run" => {
			let env = |k: &str| std::env::var(k).ok();
			let verif = PathBuf::from(env("VERIF_DIR").unwrap_or("/verif".into()));
			let mut exes = vec![std::env::current_exe().unwrap()];
			exes.extend(env("VERIF_EXE2").map(PathBuf::from));
			let a = RunArgs {
				tier: match env("VERIF_TIER").as_deref() {
					Some("thorough") => Tier::Thorough,
					_ => Tier::Quick,
				},
				seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
				scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
				verif,
				exes,
			};
			props::run(arg(2), &a)
		}
		"shard" => {
			let tier = if arg(5) == "thorough" { Tier::Thorough } else { Tier::Quick };
			props::shard(
				arg(2),
				tier,
				arg(6).parse().unwrap(),
				arg(3).parse().unwrap(),
				arg(7).parse().unwrap(),
				Path::new(arg(4)),
			)
		}
		"one" => props::one(arg(2), Path::new(arg(3))),
		"replay" => {
			let file = Path::new(arg(2));
			let v: serde_json::Value =
				serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
			props::one(v["property"].as_str().unwrap_or_else(|| usage()), file)
		}
		"digests" => {
			exec::install_panic_hook();
			props::cost::digests()
		}
		"list" => {
			println!("{}", props::IDS.join("\n"));
			0
		}
		_ => usage(),
	};
	std::process::exit(code)
}
