//! C21: the builds of the library agree.
use crate::digest::BUCKETS;
use crate::run::*;
use crate::spec;
use std::collections::{BTreeMap, HashMap};
use std::process::Command;

/// "name=path,name=path,.."
fn bins() -> Vec<(String, String)> {
	std::env::var("MC_BINS").unwrap_or_default().split(',').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn run(bin: &str, args: &[&str]) -> String {
	match Command::new(bin).args(args).output() {
		Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
		Ok(o) => format!("failed: {}\n{}", o.status, String::from_utf8_lossy(&o.stdout)),
		Err(e) => format!("failed: {e}"),
	}
}

/// kind: type; the answers of all builds for the text a
pub fn c21_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let bins = bins();
	if c.kind == 200 {
		for (n, b) in &bins {
			let t = run(b, &["digest", "tiny", "sums"]);
			if t.starts_with("failed") {
				return Err(format!("the build {n} {t}"));
			}
		}
		return Ok(());
	}
	if c.kind > 16 || bins.is_empty() {
		return Ok(());
	}
	let (k, h) = (c.kind.to_string(), hexs(c.a));
	let all: Vec<(String, String)> = bins.iter().map(|(n, b)| (n.clone(), run(b, &["digest", "case", &k, &h]))).collect();
	o.validated += bins.len() as u64;
	for (n, t) in &all[1..] {
		if *t != all[0].1 {
			let d = t.split(';').zip(all[0].1.split(';')).find(|(x, y)| x != y).unwrap_or(("more", "less"));
			return Err(format!("about {} {:?}, the build {} answers {:?} and the build {n} answers {:?}", spec::RULES.get(c.kind as usize).unwrap_or(&"identifiers and kinds"), show(c.a), all[0].0, d.1, d.0));
		}
	}
	Ok(())
}

pub fn c21(thorough: bool) -> Vec<Dom> {
	let optimised = |n: &str| !n.ends_with("/deep");
	vec![
		compare("transcripts of all builds on the same cases", if thorough { "thorough" } else { "quick" }, optimised),
		compare("transcripts of the unoptimised build and the others", if thorough { "lite" } else { "tiny" }, |_| true),
	]
}
fn compare(name: &str, tier: &'static str, which: fn(&str) -> bool) -> Dom {
	dom(name, false, move |s| {
		if !s.mine() {
			return;
		}
		let bins: Vec<_> = bins().into_iter().filter(|b| which(&b.0)).collect();
		assert!(bins.len() > 1, "MC_BINS");
		let mut sums: Vec<Vec<String>> = vec![];
		for (n, b) in &bins {
			let t = run(b, &["digest", tier, "sums"]);
			let l: Vec<String> = t.lines().map(|s| s.to_string()).collect();
			if t.starts_with("failed") || l.len() != BUCKETS + 1 {
				println!("{t}");
				s.obs.sample(|| format!("{n}: {t}"));
				s.exec(Case { kind: 200, a: &[], b: &[], c: &[], n: 0 });
				return;
			}
			let f: Vec<u64> = l[0].split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
			s.evals += f[0];
			s.obs.validated += f[1];
			s.obs.transitions += f[0];
			for i in 0..f[2] {
				s.obs.state(i);
			}
			for i in 0..f[3] {
				s.obs.outcome(i);
			}
			s.obs.samples.push(format!("{n}: {} cases, {} answers, {} distinct transcripts", f[0], f[1], f[3]));
			sums.push(l);
		}
		let bad: Vec<usize> = (0..=BUCKETS).filter(|i| sums.iter().any(|x| x.get(*i) != sums[0].get(*i))).collect();
		if bad.is_empty() {
			return;
		}
		let wanted = bad.iter().filter(|i| **i > 0).take(40).map(|i| (i - 1).to_string()).collect::<Vec<_>>().join(",");
		let mut by: BTreeMap<(usize, String), HashMap<String, usize>> = BTreeMap::new();
		for (_, b) in &bins {
			for l in run(b, &["digest", tier, "list", &wanted]).lines() {
				let f: Vec<&str> = l.split(' ').collect();
				if f.len() == 3 && f[0].parse::<u16>().is_ok() {
					*by.entry((f[1].len(), format!("{} {}", f[0], f[1]))).or_default().entry(f[2].to_string()).or_default() += 1;
				}
			}
		}
		let mut n = 0;
		for ((_, k), v) in &by {
			if v.len() > 1 || v.values().sum::<usize>() != bins.len() {
				let (t, w) = k.split_once(' ').unwrap();
				s.exec(Case { kind: t.parse().unwrap(), a: &unhex(w), b: &[], c: &[], n: 0 });
				n += 1;
				if s.stopped() || n > 200 {
					return;
				}
			}
		}
		panic!("the builds differ in buckets {bad:?}, but no case was found");
	})
}
