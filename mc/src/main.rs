//! Model checker for the `langtag` crate.
mod digest;
mod dom;
mod model;
mod obs;
#[cfg(feature = "full")]
mod prop;
mod run;
mod spec;
mod types;
#[cfg(feature = "full")]
mod p_abnf;
#[cfg(feature = "full")]
mod p_accept;
#[cfg(feature = "full")]
mod p_cmp;
#[cfg(feature = "full")]
mod p_conc;
#[cfg(feature = "full")]
mod p_conf;
#[cfg(feature = "full")]
mod p_const;
#[cfg(feature = "full")]
mod p_maps;
#[cfg(feature = "full")]
mod p_giant;
#[cfg(feature = "full")]
mod p_life;
#[cfg(feature = "full")]
mod p_mem;
#[cfg(feature = "full")]
mod p_misc;
#[cfg(feature = "full")]
mod p_parts;
#[cfg(feature = "full")]
mod p_serde;

#[cfg(feature = "full")]
#[global_allocator]
static ALLOC: p_mem::Guarded = p_mem::Guarded;

use std::collections::HashSet;
use std::time::Instant;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
	match args.first().map(|s| s.as_str()) {
		Some("digest") => digest::main(&args[1..]),
		#[cfg(feature = "full")]
		Some("check") => {
			let start = Instant::now();
			let id = args[1].as_str();
			let tier = opt("--tier").unwrap_or("quick".into());
			let evidence = opt("--evidence").unwrap_or(format!("/verif/evidence/{id}.json"));
			let replays = opt("--replays").unwrap_or("/verif/replays".into());
			let known = opt("--known").map(|p| load_known(&p, id)).unwrap_or_default();
			let Some(p) = prop::find(id) else {
				eprintln!("no such property: {id}");
				std::process::exit(2)
			};
			run::install(p.id, &replays, if id == "C26" || id == "C27" { 600 } else if tier == "quick" { 60 } else { 240 });
			let thorough = tier == "thorough";
			let mut doms = (p.domains)(thorough);
			if thorough || p_giant::CHEAP.contains(&p.id) {
				doms.extend(p_giant::domains(p.id));
			}
			let rep = run::explore(&doms, p.check, &known);
			let meta = run::Meta {
				id: p.id,
				tier,
				seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
				evidence,
				replays,
				bounds: prop::bounds(p, thorough),
				exhaustive: true,
				assumptions: p.assumptions.iter().map(|s| s.to_string()).collect(),
				extra: vec![],
				more_states: 0,
				more_transitions: 0,
			};
			std::process::exit(run::finish(meta, p.check, rep, start));
		}
		#[cfg(feature = "full")]
		Some("deep") => std::process::exit(p_misc::deep_main()),
		#[cfg(feature = "full")]
		Some("conc") => std::process::exit(p_conc::conc_main()),
		#[cfg(feature = "full")]
		Some("soak") => std::process::exit(p_mem::soak_main()),
		#[cfg(feature = "full")]
		Some("replay") => {
			let (id, c) = load_replay(&args[1]);
			let p = prop::find(&id).expect("property");
			run::install(p.id, "/tmp", 600);
			match run::run_one(p.check, &c.view()) {
				Ok(()) => println!("{id}: holds on this case"),
				Err(m) => {
					println!("{id}: {m}");
					std::process::exit(1)
				}
			}
		}
		#[cfg(feature = "full")]
		Some("selftest") => match p_accept::selftest() {
			Ok(n) => println!("selftest: {n} cases, the models agree; {} comparison operations per type", types::comparisons()),
			Err(m) => {
				eprintln!("selftest: {m}");
				std::process::exit(3)
			}
		},
		_ => {
			eprintln!("usage: mc check ID [--tier T] [--evidence F] [--replays D] [--known F] | replay F | selftest | digest ..");
			std::process::exit(2)
		}
	}
	let _ = (opt("--x"), Instant::now(), HashSet::<u8>::new());
}

/// Lines "finding: property=ID kind|hexa|hexb|hexc|n text"; "fixed:" lines suppress nothing.
#[allow(dead_code)]
fn load_known(path: &str, id: &str) -> HashSet<String> {
	let mut v = HashSet::new();
	for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
		if let Some(r) = l.strip_prefix("finding: property=") {
			let mut it = r.splitn(3, ' ');
			if it.next() == Some(id) {
				if let Some(k) = it.next() {
					v.insert(k.to_string());
				}
			}
		}
	}
	v
}

#[cfg(feature = "full")]
fn load_replay(path: &str) -> (String, run::OwnedCase) {
	let t = std::fs::read_to_string(path).expect("replay file");
	let v: serde_json::Value = serde_json::from_str(&t).expect("json");
	let h = |k: &str| run::unhex(v[k].as_str().unwrap_or(""));
	(v["property"].as_str().unwrap_or("").to_string(), run::OwnedCase { kind: v["kind"].as_u64().unwrap_or(0) as u16, a: h("a_hex"), b: h("b_hex"), c: h("c_hex"), n: v["n"].as_u64().unwrap_or(0) })
}
