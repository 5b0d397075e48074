//! C20: feature sets and build profiles, executed by the servers of ../../conf.
use super::common;
use crate::case::{Case, Flavor, Idx, Op, Pool};
use crate::ctx::{mix, Cmp};
use crate::data::{Data, Shape, SHAPES};
use crate::driver::{Info, Phase, Property, Tier};
use crate::elem::{ElemKind, KeyKind};
use crate::exec::{self, Cell, Out, Resolved, Run};
use crate::gen;
use crate::layout::Layout;
use crate::verify;
use proptest::prelude::*;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

pub struct C20;

/// Name and whether the stack grows.
const CONFS: &[(&str, bool)] = &[
	("none-dev", false),
	("none-release", false),
	("alloc-dev", false),
	("alloc-release", false),
	("std-dev", false),
	("std-release", false),
	("stacker-dev", true),
	("stacker-release", true),
	("rayon-dev", false),
	("rayon-release", false),
	("both-dev", true),
	("both-release", true),
];

fn available(op: Op, conf: &str) -> bool {
	let set = conf.split('-').next().unwrap();
	match op {
		op if op.par() => set == "rayon" || set == "both",
		Op::Sort => set != "none",
		Op::SortCached => set != "none" && set != "alloc",
		_ => true,
	}
}

struct Server {
	child: Child,
	stdout: BufReader<std::process::ChildStdout>,
}
static SERVERS: Mutex<Vec<Option<Server>>> = Mutex::new(vec![]);

fn ask(nr: usize, line: &str) -> Result<String, String> {
	let mut servers = SERVERS.lock().unwrap_or_else(|e| e.into_inner());
	servers.resize_with(CONFS.len(), || None);
	let slot = &mut servers[nr];
	if slot.is_none() {
		let dir = std::env::var("VERIF_CONF").map(PathBuf::from).unwrap_or_else(|_| {
			PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("target/conf")
		});
		let mut child = Command::new(dir.join(CONFS[nr].0))
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.expect("configuration server");
		let stdout = BufReader::new(child.stdout.take().unwrap());
		*slot = Some(Server { child, stdout });
	}
	let s = slot.as_mut().unwrap();
	let mut answer = String::new();
	let sent = s.child.stdin.as_mut().unwrap().write_all(line.as_bytes());
	if sent.is_ok() && s.stdout.read_line(&mut answer).is_ok() && answer.ends_with('\n') {
		answer.pop();
		return Ok(answer);
	}
	let status = s.child.wait().expect("configuration server");
	*slot = None;
	match status.signal() {
		// Ended from outside.
		Some(libc::SIGKILL | libc::SIGTERM) | None => panic!("configuration server {}: {status}", CONFS[nr].0),
		Some(sig) => Err(format!("{}: process killed by signal {sig}", CONFS[nr].0)),
	}
}

fn parse(out: &str, keys: &[i32], op: Op) -> Result<Run, String> {
	let (head, ids) = out.split_once('|').ok_or_else(|| format!("harness: answer {out:?}"))?;
	let mut after = Vec::with_capacity(keys.len());
	for id in ids.split_whitespace() {
		let id: u32 = id.parse().unwrap();
		let key = *keys.get(id as usize).ok_or("foreign or corrupted element")?;
		after.push(Cell { key, id, touches: 0 });
	}
	let words: Vec<&str> = head.split(' ').collect();
	let num = |i: usize| words[i].parse::<usize>().unwrap();
	let result = match (words[0], op) {
		("bool", _) => Out::Bool(words[1] == "true"),
		("point", _) => Out::Point(num(1)),
		("dedup", _) => Out::Dedup(num(1)),
		("select", _) => Out::Select(num(1)),
		("search", _) => {
			let x = words[1].trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap();
			Out::Search(if words[1].starts_with("Ok") { Ok(x) } else { Err(x) })
		}
		_ => Out::None,
	};
	Ok(Run {
		out: result,
		panic: None,
		after,
		bad: None,
		calls: 0,
		keys: 0,
		keys_live: 0,
		trace: 0,
		has_id: true,
		alloc: Default::default(),
	})
}

/// Contents of the bulk selection or views of the selection.
fn returned(c: &Case, res: &Resolved, head: &str, after: &[Cell]) -> Result<(), String> {
	let want = match c.op {
		Op::Select => {
			let i = res.idx[0];
			format!("select {i} {} {}", after[i].id, after.len() - 1 - i)
		}
		Op::SelectMany => {
			format!("many {:?}", res.idx.iter().map(|&i| (i, after[i].id)).collect::<Vec<_>>())
		}
		Op::ParSelectMany => {
			format!("many {:?}", res.idx.iter().map(|&i| after[i].id).collect::<Vec<_>>())
		}
		_ => return Ok(()),
	};
	if head != want {
		return Err(format!("returned {head:?} instead of {want:?}"));
	}
	Ok(())
}

const OPS: &[Op] = &[
	Op::Sort,
	Op::SortCached,
	Op::SortUnstable,
	Op::SortUnstable,
	Op::ParSort,
	Op::ParSortCached,
	Op::ParSortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::SelectMany,
	Op::ParSelectMany,
	Op::IsSorted,
	Op::PartitionPoint,
	Op::Contains,
	Op::BinarySearch,
	Op::Dedup,
	Op::Reverse,
];
const RECURSIVE: &[Op] = &[
	Op::SortUnstable,
	Op::SortUnstable,
	Op::Select,
	Op::SelectMany,
	Op::SelectMany,
	Op::ParSortUnstable,
	Op::ParSelectMany,
	Op::Sort,
	Op::ParSort,
	Op::ParSortCached,
];
const ELEMS: &[(u32, ElemKind)] = &[(5, ElemKind::It), (1, ElemKind::Big)];
const SMALL: &[(u32, ElemKind)] = &[(1, ElemKind::It)];

fn usable(case: &Case) -> Case {
	let mut c = case.clone();
	c.layout = Layout::Contig;
	c.pool = Pool::Size(1);
	c.key = KeyKind::Kw;
	c.pre = 0;
	if c.elem != ElemKind::Big || c.data.len() > 4000 {
		c.elem = ElemKind::It;
	}
	if !c.cmp.well_behaved() {
		c.cmp = match c.cmp {
			Cmp::AlwaysLess | Cmp::AlwaysGreater => c.cmp,
			Cmp::HashPair(p) => Cmp::HashPair(p >> 1),
			_ => Cmp::HashPair(c.a >> 1),
		};
		if let Data::Pattern { shape, len, .. } = &mut c.data {
			*len = (*len).min(2000);
			if matches!(shape, Shape::Killer | Shape::KillerRev) {
				*shape = Shape::Uniform;
			}
		}
	}
	if c.op.cached() {
		c.flavor = Flavor::Key;
	}
	if let Idx::Explicit(_) = c.idx {
	} else if c.op == Op::Select && c.idx.resolve(c.data.len()).is_empty() {
		c.idx = Idx::Explicit(vec![0]);
	}
	c
}

/// Breaks the precondition of the indices in some cases.
fn spoil(c: &Case, res: &mut Resolved) {
	if !c.op.selects() || c.b % 16 != 0 {
		return;
	}
	let n = res.keys.len();
	let r = mix(c.a as u64);
	let at = r as usize % (res.idx.len() + 1);
	match r >> 32 & 3 {
		0 => res.idx.push(n),
		1 => res.idx.push(n + (r >> 40) as usize),
		2 if !res.idx.is_empty() => {
			let x = res.idx[at.min(res.idx.len() - 1)];
			res.idx.insert(at, x);
		}
		_ => res.idx.reverse(),
	}
}
fn valid(c: &Case, res: &Resolved) -> bool {
	let n = res.keys.len();
	match c.op {
		Op::Select => res.idx.first().is_some_and(|&i| i < n),
		op if op.selects() => {
			res.idx.windows(2).all(|w| w[0] < w[1]) && res.idx.last().is_none_or(|&i| i < n)
		}
		_ => true,
	}
}

fn request(c: &Case, res: &Resolved, stack: usize) -> String {
	let (kind, param) = match c.cmp {
		Cmp::Nat => (0, 0),
		Cmp::Rev => (1, 0),
		Cmp::Coarse(p) => (2, p),
		Cmp::RevCoarse(p) => (3, p),
		Cmp::Mod(p) => (4, p),
		Cmp::AlwaysLess => (5, 0),
		Cmp::AlwaysGreater => (6, 0),
		Cmp::HashPair(p) => (7, p),
		_ => unreachable!(),
	};
	let mut s = format!(
		"{:?}|{:?}|{kind}|{param}|{}|{stack}|{}|",
		c.op,
		c.flavor,
		c.target,
		(c.elem == ElemKind::Big) as u8
	);
	for k in &res.keys {
		s.push_str(&k.to_string());
		s.push(' ');
	}
	s.push('|');
	for i in &res.idx {
		s.push_str(&i.to_string());
		s.push(' ');
	}
	s.push('\n');
	s
}

impl Property for C20 {
	type Case = Case;
	const ID: &'static str = "C20";
	fn phases(t: Tier) -> Vec<Phase<Case>> {
		let cmp = || prop_oneof![8 => gen::good_cmp(), 1 => gen::bad_cmp()].boxed();
		let good = gen::good_cmp;
		vec![
			phase("short", t.pick(2200, 60_000), gen::case(OPS, ELEMS, gen::data(0, 130), cmp())),
			phase("mixed", t.pick(500, 15_000), gen::case(OPS, ELEMS, gen::data(0, 3000), cmp())),
			phase("adversarial", t.pick(180, 6000), gen::case(RECURSIVE, ELEMS, gen::killer(gen::lens(30, 4000)), good())),
			phase("parallel", t.pick(120, 4000), gen::case(RECURSIVE, SMALL, gen::pattern((2001usize..9000).boxed(), SHAPES), good())),
			phase("long", t.pick(6, 300), gen::case(RECURSIVE, SMALL, gen::pattern(gen::edges(12_000, 70_000), SHAPES), good())),
			phase("long adversarial", t.pick(5, 200), gen::case(RECURSIVE, SMALL, gen::killer(gen::edges(9000, 40_000)), good())),
		]
	}
	fn check(case: &Case, info: &mut Info) -> Result<(), String> {
		let c = usable(case);
		let mut res = exec::resolve(&c)?;
		spoil(&c, &mut res);
		common::classify(&c, &res, info);
		let n = res.keys.len();
		let valid = valid(&c, &res);
		let well = c.cmp.well_behaved();
		info.nontrivial = n > 1;
		info.when(!valid, "invalid indices");
		info.when(!well, "ill-behaved comparison");
		let mut reference: Option<(usize, String)> = None;
		for (nr, &(name, grows)) in CONFS.iter().enumerate() {
			if !available(c.op, name) {
				continue;
			}
			let stack = match (grows, c.elem) {
				(true, ElemKind::Big) => 256 << 10,
				(true, _) => 64 << 10,
				_ => 1 << 20,
			};
			info.runs += 1;
			let answer = ask(nr, &request(&c, &res, stack))?;
			if answer == "unsupported" {
				panic!("harness: {name} doesn't know {:?}", c.op);
			}
			let run = parse(&answer, &res.keys, c.op).map_err(|e| format!("{name}: {e}"))?;
			verify::permutation(&res.keys, &run).map_err(|e| format!("{name}: {e}"))?;
			if !well {
				continue;
			}
			match &reference {
				Some((first, want)) if *want != answer => {
					let (a, b) = (want.split('|').next().unwrap(), answer.split('|').next().unwrap());
					let what = if a != b {
						format!("{b:.80} instead of {a:.80}")
					} else {
						"another arrangement".into()
					};
					return Err(format!("{name} differs from {}: {what}", CONFS[*first].0));
				}
				Some(_) => {}
				None => {
					let head = answer.split('|').next().unwrap();
					if (head == "panic") == valid {
						return Err(format!("{name}: {} for indices {:?} of {n}",
							if valid { "panicked" } else { "didn't panic" }, &res.idx[..res.idx.len().min(20)]));
					}
					if valid {
						verify::verify(&c, &res, &run).map_err(|e| format!("{name}: {e}"))?;
						returned(&c, &res, head, &run.after).map_err(|e| format!("{name}: {e}"))?;
					}
					reference = Some((nr, answer));
				}
			}
		}
		Ok(())
	}
	fn simpler(case: &Case, round: u32) -> Vec<Case> {
		common::simpler(case, round)
	}
	fn rule() -> &'static str {
		"proptest-generated operation x flavour x data (including adversarial ones) x comparison x indices (some invalid), \
		sent to twelve server processes, one per feature set (none, alloc, std, std+stacker, rayon, rayon+stacker) and \
		profile (dev, release), running it on threads with 64 KiB stacks (256 KiB for elements of 2 kB) where the stack \
		grows and 1 MiB otherwise. All answers have to be equal, and the first one right; with ill-behaved comparisons they have \
		to be permutations. Non-trivial: at least two elements; distinct by the serialised case."
	}
	fn assumptions() -> Vec<&'static str> {
		vec![
			"the comparison itself needs little stack",
			"contiguous one-dimensional owned arrays (layouts are varied by other properties)",
		]
	}
	fn cost(c: &Case) -> u64 {
		200 + 20 * common::cost(c)
	}
	fn parallel(c: &Case) -> bool {
		c.op.par()
	}
}
fn phase(name: &'static str, cases: u32, strategy: BoxedStrategy<Case>) -> Phase<Case> {
	Phase { name, strategy, cases }
}
