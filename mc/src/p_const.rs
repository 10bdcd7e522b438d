//! C20: programs with literals. Every literal is compiled into constants and
//! macro calls, and the verdicts at compile time are compared with the parser
//! at run time.
use crate::dom::*;
use crate::p_accept;
use crate::run::*;
use crate::spec::{self, dfas};
use crate::types::TYPES;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::process::Command;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

/// kinds 0..15: constant constructors of a type; MACRO: `langtag!`
const MACRO: u16 = 100;

/// Whether there is a place for programs.
pub fn available() -> bool {
	std::env::var("MC_CONST_DIR").is_ok()
}
fn dir() -> String {
	std::env::var("MC_CONST_DIR").unwrap_or("/verif/target/c20".into())
}

/// The source of a byte string literal.
fn bytes_lit(w: &[u8]) -> String {
	let mut s = String::from("b\"");
	for b in w {
		let _ = write!(s, "\\x{b:02x}");
	}
	s.push('"');
	s
}
/// The source of a string literal.
fn str_lit(w: &str) -> String {
	let mut s = String::from("\"");
	for c in w.chars() {
		match c {
			'"' | '\\' => {
				s.push('\\');
				s.push(c)
			}
			' '..='~' => s.push(c),
			_ => {
				let _ = write!(s, "\\u{{{:x}}}", c as u32);
			}
		}
	}
	s.push('"');
	s
}

struct Built {
	ok: bool,
	/// lines of the main file mentioned by errors
	errors: BTreeMap<usize, String>,
	other: String,
	exe: String,
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

/// The compiled library: arguments for rustc.
fn library() -> &'static Result<Vec<String>, String> {
	static L: OnceLock<Result<Vec<String>, String>> = OnceLock::new();
	L.get_or_init(|| {
		let d = dir();
		let c = format!("{d}/base");
		let io = |e: std::io::Error| format!("scratch: {e}");
		std::fs::create_dir_all(format!("{c}/src")).map_err(io)?;
		std::fs::write(
			format!("{c}/Cargo.toml"),
			"[package]\nname = \"consts\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[dependencies]\nlangtag = { path = \"/repo\" }\n[profile.dev]\ndebug = false\nincremental = false\n[workspace]\n",
		)
		.map_err(io)?;
		std::fs::write(format!("{c}/Cargo.lock"), include_str!("../consts.lock")).map_err(io)?;
		std::fs::write(format!("{c}/src/main.rs"), "fn main() {}\n").map_err(io)?;
		let o = Command::new("cargo")
			.args(["build", "--offline", "--message-format=json", "--quiet"])
			.current_dir(&c)
			.env("CARGO_TARGET_DIR", format!("{d}/target"))
			.env_remove("RUSTFLAGS")
			.output()
			.map_err(io)?;
		if !o.status.success() {
			return Err(String::from_utf8_lossy(&o.stderr).into_owned());
		}
		for l in String::from_utf8_lossy(&o.stdout).lines() {
			if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
				if v["reason"] == "compiler-artifact" && v["target"]["name"] == "langtag" {
					if let Some(f) = v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib")) {
						return Ok(vec!["--extern".into(), format!("langtag={f}"), "-L".into(), format!("dependency={d}/target/debug/deps")]);
					}
				}
			}
		}
		Err("no library was built".into())
	})
}

/// Builds one program.
fn build(source: &str) -> Built {
	build_with(source, &[])
}
/// The lines with errors of a program that is only analysed, if any.
pub fn analyse(source: &str) -> BTreeMap<usize, String> {
	let b = build_with(source, &["--crate-type", "lib", "--emit", "metadata"]);
	clean(&b);
	if !b.ok && b.errors.is_empty() {
		return BTreeMap::from([(0, b.other)]);
	}
	b.errors
}
fn build_with(source: &str, extra: &[&str]) -> Built {
	let d = dir();
	let n = SERIAL.fetch_add(1, Ordering::Relaxed);
	let name = format!("p{}-{n}", std::process::id());
	let mut b = Built { ok: false, errors: BTreeMap::new(), other: String::new(), exe: format!("{d}/{name}") };
	let lib = match library() {
		Ok(l) => l,
		Err(e) => {
			eprintln!("the library does not build: {e}");
			std::process::exit(2)
		}
	};
	let src = format!("{d}/{name}.rs");
	std::fs::write(&src, source).expect("scratch");
	let o = Command::new("rustc").args(["--edition", "2024", "--crate-name", "p", "--error-format=json", "-A", "warnings", "-o", &b.exe, &src]).args(extra).args(lib).output().expect("rustc");
	b.ok = o.status.success();
	if !b.ok {
		fn walk(v: &serde_json::Value, msg: &str, src: &str, b: &mut Built) {
			if let Some(l) = v["spans"].as_array() {
				for s in l {
					let mut s = s;
					loop {
						if s["file_name"].as_str() == Some(src) {
							b.errors.entry(s["line_start"].as_u64().unwrap_or(0) as usize).or_insert(msg.to_string());
						}
						match s.get("expansion") {
							Some(e) if !e.is_null() => s = &e["span"],
							_ => break,
						}
					}
				}
			}
			for c in v["children"].as_array().into_iter().flatten() {
				walk(c, msg, src, b);
			}
		}
		for l in String::from_utf8_lossy(&o.stderr).lines() {
			if let Ok(m) = serde_json::from_str::<serde_json::Value>(l) {
				if m["level"].as_str() == Some("error") {
					let msg = m["message"].as_str().unwrap_or("?").to_string();
					if b.other.len() < 500 {
						b.other.push_str(&msg);
						b.other.push('\n');
					}
					walk(&m, &msg, &src, &mut b);
				}
			}
		}
	}
	std::fs::remove_file(&src).ok();
	b
}
fn clean(b: &Built) {
	std::fs::remove_file(&b.exe).ok();
}

/// "index message" lines printed by a program.
fn outcome(b: &Built) -> Vec<(usize, String)> {
	let o = match Command::new(&b.exe).output() {
		Ok(o) => o,
		Err(e) => return vec![(usize::MAX, format!("the program cannot be run: {e}"))],
	};
	let t = String::from_utf8_lossy(&o.stdout);
	let mut v: Vec<(usize, String)> = t.lines().filter_map(|l| l.split_once(' ')).filter_map(|(i, m)| Some((i.parse().ok()?, m.to_string()))).collect();
	if !t.lines().any(|l| l == "end") && v.is_empty() {
		v.push((usize::MAX, format!("the program fails: {}", o.status)));
	}
	v
}

/// Constants of a type, computed at compile time.
fn table_source(ty: usize, words: &[&[u8]]) -> String {
	let t = TYPES[ty].name;
	let mut s = String::new();
	let strs: Vec<(usize, &str)> = words.iter().enumerate().filter_map(|(i, w)| Some((i, std::str::from_utf8(w).ok()?))).collect();
	let _ = write!(s, "#![allow(long_running_const_eval)]\nuse langtag::{t} as T;\n");
	let _ = write!(s, "const W: [&[u8]; {}] = [\n", words.len());
	for w in words {
		let _ = write!(s, "\t{},\n", bytes_lit(w));
	}
	let _ = write!(s, "];\nconst S: [(usize, &str); {}] = [\n", strs.len());
	for (i, w) in &strs {
		let _ = write!(s, "\t({i}, {}),\n", str_lit(w));
	}
	s.push_str(
		"];
static FB: [Option<&T>; W.len()] = { let mut r = [None; W.len()]; let mut i = 0; while i < W.len() { r[i] = match T::from_bytes(W[i]) { Ok(t) => Some(t), Err(_) => None }; i += 1; } r };
static FS: [Option<&T>; S.len()] = { let mut r = [None; S.len()]; let mut i = 0; while i < S.len() { r[i] = match T::from_str(S[i].1) { Ok(t) => Some(t), Err(_) => None }; i += 1; } r };
static VB: [bool; W.len()] = { let mut r = [false; W.len()]; let mut i = 0; while i < W.len() { r[i] = T::validate_bytes(W[i]); i += 1; } r };
static VS: [bool; S.len()] = { let mut r = [false; S.len()]; let mut i = 0; while i < S.len() { r[i] = T::validate_str(S[i].1); i += 1; } r };
static LEN: [usize; S.len()] = { let mut r = [0; S.len()]; let mut i = 0; while i < S.len() { r[i] = match FS2[i] { Some(t) => t.as_str().len() + 1000 * t.as_bytes().len(), None => 0 }; i += 1; } r };
const FS2: [Option<&T>; S.len()] = { let mut r = [None; S.len()]; let mut i = 0; while i < S.len() { r[i] = match T::from_str(S[i].1) { Ok(t) => Some(t), Err(_) => None }; i += 1; } r };
fn run(w: &[u8]) -> bool { T::new(std::hint::black_box(w)).is_ok() }
fn main() {
	for (i, w) in W.iter().enumerate() {
		let want = run(w);
		if FB[i].is_some() != want { println!(\"{i} from_bytes at compile time: {}, new at run time: {want}\", FB[i].is_some()); }
		if VB[i] != want { println!(\"{i} validate_bytes at compile time: {}, new at run time: {want}\", VB[i]); }
		if let Some(t) = FB[i] { if t.as_bytes() != *w { println!(\"{i} from_bytes at compile time holds {:?}\", t.as_bytes()); } }
	}
	for (j, (i, w)) in S.iter().enumerate() {
		let want = run(w.as_bytes());
		if FS[j].is_some() != want { println!(\"{i} from_str at compile time: {}, new at run time: {want}\", FS[j].is_some()); }
		if VS[j] != want { println!(\"{i} validate_str at compile time: {}, new at run time: {want}\", VS[j]); }
		if LEN[j] != if want { w.len() * 1001 } else { 0 } { println!(\"{i} the constant's text has another length\"); }
		if let Some(t) = FS[j] { if t.as_str() != *w { println!(\"{i} from_str at compile time holds {:?}\", t.as_str()); } }
		if let Some(t) = FS2[j] { if t.as_str() != *w { println!(\"{i} from_str in a const holds {:?}\", t.as_str()); } }
	}
	println!(\"end\");
}
",
	);
	s
}

/// Macro calls in constants; all literals are well-formed.
fn accepted_source(words: &[&str]) -> (String, usize) {
	let mut s = String::from("#![allow(long_running_const_eval)]\nuse langtag::{LangTag, langtag};\n");
	let first = 3;
	for (i, w) in words.iter().enumerate() {
		let _ = write!(s, "const C{i}: &LangTag = langtag!({});\n", str_lit(w));
	}
	let _ = write!(s, "static W: [(&LangTag, &str); {}] = [\n", words.len());
	for (i, w) in words.iter().enumerate() {
		let _ = write!(s, "\t(C{i}, {}),\n", str_lit(w));
	}
	s.push_str("];\nfn main() {\n\tfor (i, (t, w)) in W.iter().enumerate() {\n\t\tif t.as_str() != *w { println!(\"{i} langtag! in a constant holds {:?}\", t.as_str()); }\n\t\tif LangTag::new(*w).ok() != Some(t) { println!(\"{i} langtag! in a constant differs from the parsed value\"); }\n\t}\n\tprintln!(\"end\");\n}\n");
	(s, first)
}
/// Macro calls in functions.
fn runtime_source(words: &[&str]) -> (String, usize) {
	let mut s = String::from("use langtag::{LangTag, langtag};\n");
	let first = 2;
	for (i, w) in words.iter().enumerate() {
		let _ = write!(s, "fn f{i}() -> &'static LangTag {{ langtag!({}) }}\n", str_lit(w));
	}
	let _ = write!(s, "static W: [(fn() -> &'static LangTag, &str); {}] = [\n", words.len());
	for (i, w) in words.iter().enumerate() {
		let _ = write!(s, "\t(f{i}, {}),\n", str_lit(w));
	}
	s.push_str(
		"];
fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	for (i, (f, w)) in W.iter().enumerate() {
		let want = LangTag::new(std::hint::black_box(*w)).is_ok();
		match std::panic::catch_unwind(f) {
			Ok(t) if !want => println!(\"{i} langtag! at run time accepts what new rejects, as {:?}\", t.as_str()),
			Ok(t) if t.as_str() != *w => println!(\"{i} langtag! at run time holds {:?}\", t.as_str()),
			Err(_) if want => println!(\"{i} langtag! at run time panics, but new accepts\"),
			_ => {}
		}
	}
	println!(\"end\");
}
",
	);
	(s, first)
}
fn rejected_source(words: &[&str]) -> (String, usize) {
	let mut s = String::from("#![allow(long_running_const_eval, dead_code)]\nuse langtag::{LangTag, langtag};\n");
	let first = 3;
	for (i, w) in words.iter().enumerate() {
		let _ = write!(s, "const C{i}: &LangTag = langtag!({});\n", str_lit(w));
	}
	s.push_str("fn main() {}\n");
	(s, first)
}

fn each(r: Vec<(usize, String)>, n: usize) -> Vec<(usize, String)> {
	r.into_iter().flat_map(|(i, m)| if i < n { vec![(i, m)] } else { (0..n.min(20)).map(|j| (j, m.clone())).collect() }).collect()
}

/// Constant constructors of a type on many words: (index, what is wrong).
fn table(ty: usize, words: &[&[u8]]) -> Vec<(usize, String)> {
	let b = build(&table_source(ty, words));
	if b.ok {
		let r = outcome(&b);
		clean(&b);
		return each(r, words.len());
	}
	clean(&b);
	if words.len() == 1 {
		return vec![(0, format!("the constants of {} do not compile: {}", TYPES[ty].name, b.other.trim()))];
	}
	// find a word that does not compile
	let h = words.len() / 2;
	let r = table(ty, &words[..h]);
	if !r.is_empty() {
		return r;
	}
	table(ty, &words[h..]).into_iter().map(|(i, m)| (i + h, m)).collect()
}
fn macro_accepted(words: &[&str]) -> Vec<(usize, String)> {
	if words.is_empty() {
		return vec![];
	}
	let (s, first) = accepted_source(words);
	let b = build(&s);
	let r = if b.ok {
		each(outcome(&b), words.len())
	} else {
		let l: Vec<_> = b.errors.iter().filter(|(l, _)| **l >= first && **l < first + words.len()).map(|(l, m)| (l - first, format!("langtag! does not compile in a constant: {m}"))).collect();
		if l.is_empty() { each(vec![(usize::MAX, format!("langtag! does not compile: {}", b.other.trim()))], words.len()) } else { l }
	};
	clean(&b);
	r
}
fn macro_runtime(words: &[&str]) -> Vec<(usize, String)> {
	if words.is_empty() {
		return vec![];
	}
	let (s, first) = runtime_source(words);
	let b = build(&s);
	if b.ok {
		let r = each(outcome(&b), words.len());
		clean(&b);
		return r;
	}
	clean(&b);
	// a macro that fails to compile is fine for ill-formed literals only
	let bad: BTreeSet<usize> = b.errors.keys().filter(|l| **l >= first && **l < first + words.len()).map(|l| l - first).collect();
	if bad.is_empty() {
		return each(vec![(usize::MAX, format!("langtag! does not compile: {}", b.other.trim()))], words.len());
	}
	let wrong: Vec<_> = bad.iter().filter(|i| langtag::LangTag::new(words[**i]).is_ok()).map(|i| (*i, "langtag! does not compile in a function, but new accepts".to_string())).collect();
	if !wrong.is_empty() {
		return wrong;
	}
	let left: Vec<usize> = (0..words.len()).filter(|i| !bad.contains(i)).collect();
	let rest: Vec<&str> = left.iter().map(|i| words[*i]).collect();
	macro_runtime(&rest).into_iter().map(|(i, m)| (left[i], m)).collect()
}
fn macro_rejected(words: &[&str]) -> Vec<(usize, String)> {
	if words.is_empty() {
		return vec![];
	}
	let (s, first) = rejected_source(words);
	let b = build(&s);
	let r = (0..words.len()).filter(|i| b.ok || !b.errors.contains_key(&(first + i))).map(|i| (i, "langtag! compiles in a constant, but new rejects the literal".to_string())).collect();
	clean(&b);
	r
}

pub fn c20_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	o.validated += 1;
	let r = if c.kind == MACRO {
		let Ok(w) = std::str::from_utf8(c.a) else { return Ok(()) };
		let mut r = macro_runtime(&[w]);
		r.extend(if langtag::LangTag::new(w).is_ok() { macro_accepted(&[w]) } else { macro_rejected(&[w]) });
		r
	} else if c.kind < 15 {
		table(c.kind as usize, &[c.a])
	} else {
		return Ok(());
	};
	match r.into_iter().next() {
		Some((_, m)) => Err(format!("{} {:?}: {m}", if c.kind == MACRO { "langtag!" } else { TYPES[c.kind as usize].name }, show(c.a))),
		None => Ok(()),
	}
}

/// Literals for a type: every state and byte class of its model, and more.
fn literals(ty: usize, thorough: bool) -> Vec<Vec<u8>> {
	let d = &dfas()[ty];
	let ws = d.wset();
	let mut v: BTreeSet<Vec<u8>> = BTreeSet::new();
	let mut reps: Vec<u8> = d.reps();
	reps.extend(b"@[`{/:_ \0\x7f\x80\xc3\xff");
	for st in 0..d.len() {
		for b in &reps {
			for x in ws.iter().take(if thorough { 100 } else { 3 }) {
				let mut w = d.access[st].clone();
				w.push(*b);
				w.extend_from_slice(x);
				v.insert(w);
			}
		}
		for (i, c) in b"a-Z".iter().enumerate() {
			let mut n = 0;
			bad_encodings(*c, &mut |e| {
				n += 1;
				if thorough || (n + st + i) % 16 == 0 {
					let mut w = d.access[st].clone();
					w.extend_from_slice(e);
					w.extend_from_slice(&d.finish[st]);
					v.insert(w);
				}
			});
		}
	}
	let reps: &[&[u8]] = if thorough { &REPS } else { &REPS_TINY };
	subtag_words(d, reps, 3, &mut |w, _| {
		v.insert(w.to_vec());
	});
	pumped(ty, &[5, 40], &mut |w| {
		v.insert(w.to_vec());
		v.insert(w.to_ascii_uppercase());
	});
	if ty == spec::LT {
		for (g, _) in spec::GRANDFATHERED {
			few_casings(g.as_bytes(), &mut |w| {
				v.insert(w.to_vec());
			});
		}
		let mut n = 0;
		p_accept::near_misses(false, &mut |w| {
			n += 1;
			if n % if thorough { 16 } else { 128 } == 0 {
				v.insert(w.to_vec());
			}
		});
	}
	v.into_iter().collect()
}

/// All `bits` of a long job on several threads.
fn spread<'a, T: Sync>(words: &'a [T], chunk: usize, f: impl Fn(&[T]) -> Vec<(usize, String)> + Sync) -> Vec<(usize, String)> {
	let chunks: Vec<(usize, &[T])> = words.chunks(chunk).enumerate().map(|(i, c)| (i * chunk, c)).collect();
	let next = AtomicU64::new(0);
	let out = std::sync::Mutex::new(vec![]);
	std::thread::scope(|sc| {
		for _ in 0..8 {
			sc.spawn(|| {
				loop {
					let i = next.fetch_add(1, Ordering::Relaxed) as usize;
					let Some((o, c)) = chunks.get(i) else { break };
					let r = f(c);
					out.lock().unwrap().extend(r.into_iter().map(|(i, m)| (i + o, m)));
				}
			});
		}
	});
	let mut v = out.into_inner().unwrap();
	v.sort();
	v
}

pub fn c20(thorough: bool) -> Vec<Dom> {
	let report = |s: &mut Sink, kind: u16, words: &[&[u8]], r: Vec<(usize, String)>| {
		s.evals += words.len() as u64;
		s.obs.validated += words.len() as u64;
		s.obs.note("literals compiled", words.len() as u64);
		for w in words {
			s.obs.cover(if kind == MACRO { 0 } else { kind as usize }, w);
			let d = &dfas()[if kind == MACRO { 0 } else { kind as usize }];
			s.obs.outcome((kind as u64) << 32 | d.run(0, w) as u64);
			s.obs.sample(|| format!("{}: {:?}", if kind == MACRO { "langtag!" } else { TYPES[kind as usize].name }, show(w)));
		}
		// the shortest first; each is tried again on its own
		let mut bad: Vec<usize> = r.into_iter().map(|x| x.0).collect();
		bad.sort_by_key(|i| words[*i].len());
		bad.dedup();
		for i in bad.into_iter().take(30) {
			s.exec(Case { kind, a: words[i], b: &[], c: &[], n: 0 });
		}
	};
	let mut v = vec![];
	v.push(dom("constants of all types: one program per type and 1500 literals", false, move |s| {
		if !s.mine() {
			return;
		}
		let all: Vec<(usize, Vec<Vec<u8>>)> = (0..15).map(|t| (t, literals(t, thorough))).collect();
		let mut jobs: Vec<(usize, &[Vec<u8>])> = vec![];
		for (t, w) in &all {
			for c in w.chunks(1500) {
				jobs.push((*t, c));
			}
		}
		let r = spread(&jobs, 1, |j| {
			let (t, w) = j[0];
			let refs: Vec<&[u8]> = w.iter().map(|x| &x[..]).collect();
			table(t, &refs).into_iter().map(|(i, m)| (0, format!("{i} {m}"))).collect()
		});
		for (j, (t, w)) in jobs.iter().enumerate() {
			let refs: Vec<&[u8]> = w.iter().map(|x| &x[..]).collect();
			let bad = r.iter().filter(|x| x.0 == j).filter_map(|x| Some((x.1.split_once(' ')?.0.parse().ok()?, x.1.clone()))).collect();
			report(s, *t as u16, &refs, bad);
		}
	}));
	v.push(dom("langtag! in constants and in functions: one call per literal", false, move |s| {
		if !s.mine() {
			return;
		}
		let words = literals(spec::LT, thorough);
		let strs: Vec<&str> = words.iter().filter_map(|w| std::str::from_utf8(w).ok()).filter(|w| w.len() < 400).collect();
		let (good, bad): (Vec<&str>, Vec<&str>) = strs.iter().partition(|w| langtag::LangTag::new(**w).is_ok());
		s.obs.note("macro calls in constants that must compile", good.len() as u64);
		s.obs.note("macro calls in constants that must not compile", bad.len() as u64);
		let r = spread(&strs, 400, macro_runtime);
		let raw: Vec<&[u8]> = strs.iter().map(|s| s.as_bytes()).collect();
		report(s, MACRO, &raw, r);
		let r = spread(&good, 400, macro_accepted);
		let raw: Vec<&[u8]> = good.iter().map(|s| s.as_bytes()).collect();
		report(s, MACRO, &raw, r);
		let r = spread(&bad, 300, macro_rejected);
		let raw: Vec<&[u8]> = bad.iter().map(|s| s.as_bytes()).collect();
		report(s, MACRO, &raw, r);
	}));
	v
}
