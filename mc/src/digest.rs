//! C21: transcripts of the answers of one build of the library, so that builds
//! can be compared.
use crate::dom::*;
use crate::obs;
use crate::run::*;
use crate::spec::{self, dfas};
use crate::types::{Entry, TYPES};
use langtag::{GRANDFATHERED, GrandfatheredLangTag, Kind, LangTag, Singleton};
use std::collections::HashSet;
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

pub const BUCKETS: usize = 4096;
static SUMS: [AtomicU64; BUCKETS] = [const { AtomicU64::new(0) }; BUCKETS];
static WANTED: OnceLock<HashSet<usize>> = OnceLock::new();
static LISTED: Mutex<Vec<(u16, Vec<u8>, u64)>> = Mutex::new(Vec::new());

/// Texts every value is compared with.
const OTHERS: [&str; 7] = ["", "EN-us", "x-a", "A-BB-b-cc", "abcde-1ABC", "Latn", "419"];

/// the number of the transcripts about identifiers, kinds and grandfathered tags
pub const REST: usize = 16;
fn rest(w: &[u8], out: &mut String) {
	let mut id = |s: Singleton| {
		let _ = write!(out, "{s} {s:?} {} {:?};", s.unwrap(), crate::types::log_of(&s).0);
		for b in 0..=255u8 {
			let _ = write!(out, "{}{}", (s == b) as u8, (s == b as char) as u8);
			if let Ok(t) = Singleton::new(b) {
				let _ = write!(out, "{}{}{}{}{:?}", (s == t) as u8, (s < t) as u8, (s <= t) as u8, s.cmp(&t) as i8, s.partial_cmp(&t).map(|o| o as i8));
			}
		}
		for c in ['\u{161}', '\u{212a}', '\u{17f}', '\u{ff41}', '\u{10061}'] {
			let _ = write!(out, "{}", (s == c) as u8);
		}
		out.push(';');
	};
	if let [b] = w {
		for s in [Singleton::new(*b).ok(), Singleton::try_from(*b).ok()].into_iter().flatten() {
			id(s);
		}
	}
	if let Ok(t) = std::str::from_utf8(w) {
		let mut c = t.chars();
		if let (Some(c), None) = (c.next(), c.next())
			&& let Ok(s) = Singleton::try_from(c)
		{
			id(s);
		}
		match Singleton::from_string(t) {
			Ok(s) => id(s),
			Err(e) => drop(write!(out, "{e} {:?};", e.0)),
		}
	}
	if let Some(g) = GrandfatheredLangTag::new(w).ok() {
		let _ = write!(out, "{g} {:?} {:?};", crate::types::log_of(&g).0, GRANDFATHERED.iter().position(|h| *h == g));
		for h in GRANDFATHERED {
			let _ = write!(out, "{}{}{}{:?};", (g == h) as u8, (g < h) as u8, g.cmp(&h) as i8, g.partial_cmp(&h).map(|o| o as i8));
		}
	}
	if let Ok(t) = LangTag::new(w) {
		let k = t.kind();
		let _ = write!(out, "{k:?} {} {} {};", k.is_normal(), k.is_private_use(), k.is_grandfathered());
		for l in [Kind::Normal, Kind::PrivateUse, Kind::Grandfathered] {
			let _ = write!(out, "{}{}{};", (k == l) as u8, k.cmp(&l) as i8, (k < l) as u8);
		}
		let _ = write!(out, "{:?} {:?};", crate::types::log_of(&k).0, t);
	}
}

/// All the answers about a text that do not need the optional features.
pub fn transcript(ty: usize, w: &[u8], out: &mut String) {
	if ty == REST {
		return rest(w, out);
	}
	if ty == spec::GF {
		let _ = write!(out, "{:?};", GrandfatheredLangTag::new(w).map(|g| (g.to_string(), g.language().map(|l| l.to_string()))).is_ok());
		let _ = match GrandfatheredLangTag::try_from(w) {
			Ok(g) => write!(out, "{g} {:?} {:?};", g.as_bytes(), g.language().map(|l| l.as_bytes().to_vec())),
			Err(e) => write!(out, "error {e};"),
		};
		return;
	}
	let t = &TYPES[ty];
	let optional = |n: &str| n.contains("Buf") || n.contains("Vec") || n.contains("String");
	(t.entries)(w, &mut |n, e| {
		if !optional(n) {
			let _ = match e {
				Entry::Skip => Ok(()),
				Entry::No(b) => write!(out, "{n}: rejected {b};"),
				Entry::Yes(a, b) => write!(out, "{n}: accepted {a} {b};"),
				Entry::Bool(b) => write!(out, "{n}: {b};"),
			};
		}
	});
	if !(t.accept)(w) {
		return;
	}
	(t.texts)(w, &mut |n, b| {
		if !optional(n) && n != "to_owned" {
			let _ = write!(out, "{n}: {b};");
		}
	});
	let _ = write!(out, "hash: {:?};", fx(&(t.hash)(w).0));
	if let Some(ans) = obs::observe(ty, w, obs::G_ALL) {
		for a in ans {
			let _ = write!(out, "{}: {} {};", a.0, a.1, a.2);
		}
	}
	let l = w.len();
	let (lower, cut) = (w.to_ascii_lowercase(), &w[..l - l.min(1)]);
	let others: Vec<&[u8]> = OTHERS.iter().map(|s| s.as_bytes()).chain([&lower[..], cut]).collect();
	for (i, y) in others.iter().enumerate() {
		let mut add = |n: &str, v: i8| {
			if !optional(n) {
				let _ = write!(out, "{i} {n}: {v};");
			}
		};
		let ord = |o: Option<core::cmp::Ordering>| o.map_or(9, |o| o as i8);
		(t.feqs)(w, y, &mut |n, b| add(n, b as i8));
		(t.fords)(w, y, &mut |n, b| add(n, ord(b)));
		(t.fords_rev)(y, w, &mut |n, b| add(n, ord(b)));
		if (t.accept)(y) {
			(t.eqs)(w, y, &mut |n, b| add(n, b as i8));
			(t.ords)(w, y, &mut |n, b| add(n, ord(b)));
			(t.ops)(w, y, core::cmp::Ordering::Less, &mut |n, b| add(n, b as i8));
		}
	}
}

pub fn safe_transcript(ty: usize, w: &[u8]) -> String {
	let mut s = String::new();
	if catch_unwind(AssertUnwindSafe(|| transcript(ty, w, &mut s))).is_err() {
		s.push_str("panic;");
	}
	s
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	let s = safe_transcript(ty, c.a);
	let h = fx(s.as_bytes());
	let k = fx(c.a) ^ (ty as u64).wrapping_mul(0x9e3779b97f4a7c15);
	let b = (k >> 13) as usize % BUCKETS;
	SUMS[b].fetch_add(h.wrapping_mul(k | 1), Ordering::Relaxed);
	o.validated += s.bytes().filter(|b| *b == b';').count() as u64;
	o.state(k);
	o.outcome(h);
	if WANTED.get().is_some_and(|w| w.contains(&b)) {
		LISTED.lock().unwrap().push((c.kind, c.a.to_vec(), h));
	}
	Ok(())
}

fn domains(tier: &str) -> Vec<Dom> {
	let (thorough, tiny) = (tier == "thorough", tier == "tiny");
	let mut v = vec![];
	for ty in 0..=15usize {
		let d = &dfas()[ty];
		let k = ty as u16;
		v.push(dom(format!("{}: accepted values", spec::RULES[ty]), true, move |s| {
			if ty < 15 {
				if tiny {
					let mut n = 0;
					type_words(ty, Depth::Lite, &mut |w| {
						n += 1;
						if n % 11 == 0 {
							s.word(k, w);
						}
					});
				} else {
					type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.word(k, w));
				}
				pumped(ty, if tiny { &[3, 64, 257] } else { &[2, 3, 9, 64, 127, 128, 129, 255, 256, 257, 300, 1000] }, &mut |w| s.word(k, w));
				if thorough {
					pumped(ty, &[32767, 65536], &mut |w| s.word(k, w));
				}
			}
		}));
		v.push(dom(format!("{}: any input", spec::RULES[ty]), true, move |s| {
			let all: Vec<u8> = (0..=255).collect();
			all_words(&all, if thorough { 2 } else { 1 }, &mut |w| s.word(k, w));
			all_words(b"aX1-\0\xc3\xa9", if thorough { 6 } else if tiny { 3 } else { 5 }, &mut |w| s.word(k, w));
			let ws = d.wset();
			let reps = d.reps();
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					if tiny && (st + b as usize) % 11 != 0 {
						continue;
					}
					for x in ws.iter().take(if thorough || (reps.contains(&b) && d.step(st as u16, b) != d.dead) { 1000 } else { 2 }) {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.push(b);
						w.extend_from_slice(x);
						s.word(k, &w);
					}
				}
				for c in if tiny { vec![] } else { vec!['a', '-', 'x'] } {
					bad_encodings(c as u8, &mut |e| {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.extend_from_slice(e);
						s.word(k, &w);
					});
				}
			}
		}));
	}
	v.push(dom("identifiers, kinds and grandfathered tags", true, move |s| {
		for b in 0..=255u8 {
			s.word(REST as u16, &[b]);
		}
		for h in 0..0x110u32 {
			if s.mine() {
				for c in (h << 12..(h + 1) << 12).filter_map(char::from_u32).filter(|c| !tiny || (*c as u32) < 0x3000) {
					s.exec(Case { kind: REST as u16, a: c.encode_utf8(&mut [0; 4]).as_bytes(), b: &[], c: &[], n: 0 });
				}
			}
		}
		for (g, _) in spec::GRANDFATHERED {
			for x in casings(g.as_bytes()) {
				s.word(REST as u16, &x);
			}
		}
		for w in ["en", "X-a", "de-Latn-DE", "zh-min", "", "-", "aa", "a-"] {
			s.word(REST as u16, w.as_bytes());
		}
	}));
	v
}

/// digest TIER sums | list B,B,.. ; digest case TY HEX
pub fn main(a: &[String]) {
	install("C21", &std::env::var("MC_REPLAYS").unwrap_or("/verif/replays".into()), 200);
	if a[0] == "case" {
		println!("{}", safe_transcript(a[1].parse().unwrap(), &unhex(&a[2])));
		return;
	}
	if let Some(l) = a.get(2) {
		WANTED.set(l.split(',').filter_map(|x| x.parse().ok()).collect()).ok();
	}
	let rep = explore(&domains(&a[0]), check, &HashSet::new());
	if a[1] == "list" {
		for (t, w, h) in LISTED.lock().unwrap().iter() {
			println!("{t} {} {h:016x}", hexs(w));
		}
		return;
	}
	for (n, e, t) in &rep.domains {
		eprintln!("{n}: {e} cases in {t:.2} s");
	}
	println!("cases {} {} {} {}", rep.evals, rep.obs.validated, rep.obs.states.len(), rep.obs.outcomes.len());
	for s in &SUMS {
		println!("{:016x}", s.load(Ordering::Relaxed));
	}
}
