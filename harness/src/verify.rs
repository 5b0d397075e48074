//! Oracles: what an operation must have done to its lane.
use crate::case::{Case, Op};
use crate::exec::{Cell, Out, Panicked, Resolved, Run};

/// Order the comparison in force (through the cached key type, if any) induces on keys.
pub fn rank(case: &Case, key: i32) -> i64 {
	let r = case.cmp.rank(key);
	if case.op.cached() {
		case.key.map(r)
	} else {
		r
	}
}

/// No panic and no broken structural guarantee.
pub fn clean(run: &Run) -> Result<(), String> {
	match &run.panic {
		None => {}
		Some(Panicked::Injected(k)) => return Err(format!("injected panic {k} reported")),
		Some(Panicked::Exhausted(k)) => {
			return Err(format!("does not terminate: more than {k} callback calls"))
		}
		Some(Panicked::Other(p)) => return Err(format!("panicked: {p}")),
	}
	sound(run)
}

pub fn sound(run: &Run) -> Result<(), String> {
	match &run.bad {
		Some(b) => Err(b.clone()),
		None => Ok(()),
	}
}

/// The lane holds exactly the original elements.
pub fn permutation(keys: &[i32], run: &Run) -> Result<(), String> {
	permuted(keys, &run.after, run.has_id)
}

pub fn permuted(keys: &[i32], after: &[Cell], has_id: bool) -> Result<(), String> {
	if after.len() != keys.len() {
		return Err(format!("{} elements instead of {}", after.len(), keys.len()));
	}
	if has_id {
		let mut seen = vec![false; keys.len()];
		for (i, c) in after.iter().enumerate() {
			match seen.get_mut(c.id as usize) {
				None => return Err(format!("position {i} holds foreign element {}", c.id)),
				Some(true) => return Err(format!("position {i} holds a duplicate of element {}", c.id)),
				Some(s) => *s = true,
			}
		}
	} else {
		let mut a: Vec<i32> = keys.to_vec();
		let mut b: Vec<i32> = after.iter().map(|c| c.key).collect();
		a.sort();
		b.sort();
		if a != b {
			return Err("elements lost or duplicated".into());
		}
	}
	Ok(())
}

/// Keys by identity are unchanged.
pub fn keys_kept(keys: &[i32], run: &Run) -> Result<(), String> {
	if run.has_id {
		for (i, c) in run.after.iter().enumerate() {
			let want = keys[c.id as usize];
			if c.key != want {
				return Err(format!("key of element at position {i} changed"));
			}
		}
	}
	Ok(())
}

pub fn unchanged(run: &Run) -> Result<(), String> {
	if run.has_id {
		for (i, c) in run.after.iter().enumerate() {
			if c.id as usize != i {
				return Err(format!("position {i} changed by a non-mutating operation"));
			}
		}
	}
	Ok(())
}

/// Everything documented for a total preorder.
pub fn verify(case: &Case, res: &Resolved, run: &Run) -> Result<(), String> {
	clean(run)?;
	permutation(&res.keys, run)?;
	keys_kept(&res.keys, run)?;
	let v = &run.after;
	let n = v.len();
	let r: Vec<i64> = v.iter().map(|c| rank(case, c.key)).collect();
	match case.op {
		op if op.sorts() => {
			for i in 1..n {
				if r[i - 1] > r[i] {
					return Err(format!("not sorted at positions {} and {i}", i - 1));
				}
				if op.stable() && run.has_id && r[i - 1] == r[i] && v[i - 1].id > v[i].id {
					return Err(format!("not stable at positions {} and {i}", i - 1));
				}
			}
			Ok(())
		}
		Op::Select | Op::SelectMany | Op::ParSelectMany => {
			let idx = if case.op == Op::Select { &res.idx[..1.min(res.idx.len())] } else { &res.idx };
			// Prefix maxima and suffix minima.
			let mut max = Vec::with_capacity(n);
			let mut m = i64::MIN;
			for &x in &r {
				max.push(m);
				m = m.max(x);
			}
			let mut min = vec![i64::MAX; n];
			let mut m = i64::MAX;
			for i in (0..n).rev() {
				min[i] = m;
				m = m.min(r[i]);
			}
			for &i in idx {
				if max[i] > r[i] {
					return Err(format!("greater element before index {i}"));
				}
				if min[i] < r[i] {
					return Err(format!("smaller element after index {i}"));
				}
			}
			Ok(())
		}
		Op::Reverse => {
			if run.has_id {
				for (i, c) in v.iter().enumerate() {
					if c.id as usize != n - 1 - i {
						return Err(format!("position {i} holds element {} after reversing {n}", c.id));
					}
				}
			} else if !v.iter().map(|c| c.key).eq(res.keys.iter().rev().copied()) {
				return Err("not reversed".into());
			}
			Ok(())
		}
		Op::Dedup => {
			let ranks: Vec<i64> = res.keys.iter().map(|&k| rank(case, k)).collect();
			let mut firsts = vec![];
			for i in 0..n {
				if firsts.last().is_none_or(|&l: &usize| ranks[l] != ranks[i]) {
					firsts.push(i);
				}
			}
			if run.out != Out::Dedup(firsts.len()) {
				return Err(format!("{} runs, but got {:?}", firsts.len(), run.out));
			}
			for (i, &f) in firsts.iter().enumerate() {
				if run.has_id && v[i].id as usize != f {
					return Err(format!("representative {i} is element {} instead of {f}", v[i].id));
				}
				if rank(case, v[i].key) != ranks[f] {
					return Err(format!("representative {i} has the wrong value"));
				}
			}
			Ok(())
		}
		Op::IsSorted => {
			unchanged(run)?;
			let want = r.windows(2).all(|w| w[0] <= w[1]);
			if run.out != Out::Bool(want) {
				return Err(format!("got {:?} instead of {want}", run.out));
			}
			Ok(())
		}
		Op::Contains => {
			unchanged(run)?;
			let t = rank(case, mask(case, case.target));
			let want = r.contains(&t);
			if run.out != Out::Bool(want) {
				return Err(format!("got {:?} instead of {want}", run.out));
			}
			Ok(())
		}
		Op::PartitionPoint => {
			unchanged(run)?;
			// Requires a partitioned array otherwise only the range is guaranteed.
			let t = rank(case, case.target);
			let lead = r.iter().take_while(|&&x| x < t).count();
			let Out::Point(got) = run.out else { return Err("no result".into()) };
			if got > n || (r[lead..].iter().all(|&x| x >= t) && got != lead) {
				return Err(format!("partition point {got} instead of {lead}"));
			}
			Ok(())
		}
		Op::BinarySearch => {
			unchanged(run)?;
			let t = rank(case, mask(case, case.target));
			let Out::Search(got) = run.out else { return Err("no result".into()) };
			let less = r.iter().take_while(|&&x| x < t).count();
			let rest = &r[less..];
			let equal = rest.iter().take_while(|&&x| x == t).count();
			let partitioned = rest[equal..].iter().all(|&x| x > t);
			let ok = match got {
				Ok(i) => i < n && (!partitioned || r[i] == t),
				Err(i) => i <= n && (!partitioned || (equal == 0 && i == less)),
			};
			if !ok {
				return Err(format!("binary search got {got:?}"));
			}
			Ok(())
		}
		_ => unreachable!(),
	}
}

/// Key as an element of the case's type holds it.
pub fn mask(case: &Case, key: i32) -> i32 {
	match case.elem {
		crate::elem::ElemKind::B3 => key & 0xff,
		crate::elem::ElemKind::Zs => 0,
		_ => key,
	}
}
