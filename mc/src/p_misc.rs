//! C16 (identifiers), C20 (constants), C24 (totality), C25 (purity).
use crate::dom::*;
use crate::obs::{self, G_ALL};
use crate::p_parts::with_dec;
use crate::run::*;
use crate::spec::{self, dfas};
use crate::types::{TYPES, log_of};
use langtag::*;

// ---------------------------------------------------------------- C16

fn is_id(c: u32) -> bool {
	char::from_u32(c).is_some_and(|c| c.is_ascii_alphanumeric() && c != 'x' && c != 'X')
}
fn shows(s: Singleton, c: u8) -> Result<(), String> {
	let want = (c as char).to_string();
	if s.unwrap() != c || s.to_string() != want {
		return Err(format!("the identifier made from {want:?} holds {} and displays {s}", s.unwrap()));
	}
	Ok(())
}
/// kind 0: byte n; 1: char n; 2: string a; 3: pair of bytes (n >> 8, n & 255); 4: byte n >> 32 with char n
pub fn c16_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	o.validated += 1;
	o.transitions += 1;
	if c.kind == 0 || c.kind == 3 || c.n < 0x1000 && c.a.len() < 2 {
		o.state((c.kind as u64) << 56 ^ c.n ^ fx(c.a));
	}
	match c.kind {
		0 => {
			let b = c.n as u8;
			let want = is_id(b as u32);
			let (x, y) = (Singleton::new(b), Singleton::try_from(b));
			o.outcome(want as u64);
			o.sample(|| format!("byte {b:#04x}: {want}"));
			if x.is_ok() != want || y.is_ok() != want {
				return Err(format!("an identifier {} be made from the byte {b:#04x}", if want { "cannot" } else { "can" }));
			}
			match (x, y) {
				(Ok(x), Ok(y)) => {
					shows(x, b)?;
					shows(y, b)
				}
				(Err(x), Err(y)) if x.0 == b && y.0 == b => Ok(()),
				_ => Err(format!("the error for {b:#04x} holds another byte")),
			}
		}
		1 => {
			let Some(ch) = char::from_u32(c.n as u32) else { return Ok(()) };
			let want = is_id(c.n as u32);
			o.outcome(2 | want as u64);
			o.sample(|| format!("char {ch:?}: {want}"));
			match Singleton::try_from(ch) {
				Ok(x) if want => shows(x, c.n as u8),
				Err(e) if !want && e.0 == ch => Ok(()),
				Err(_) if !want => Err(format!("the error for {ch:?} holds another character")),
				_ => Err(format!("an identifier {} be made from the character {ch:?}", if want { "cannot" } else { "can" })),
			}
		}
		2 => {
			let Ok(s) = std::str::from_utf8(c.a) else { return Ok(()) };
			let want = s.len() == 1 && is_id(s.as_bytes()[0] as u32);
			o.outcome(4 | want as u64);
			o.sample(|| format!("string {s:?}: {want}"));
			let bad = || format!("an identifier {} be made from the string {s:?}", if want { "cannot" } else { "can" });
			match Singleton::from_string(s) {
				Ok(x) if want => shows(x, s.as_bytes()[0])?,
				Err(e) if !want && e.0 == s => {}
				_ => return Err(bad()),
			}
			#[cfg(feature = "owned")]
			match s.parse::<Singleton>() {
				Ok(x) if want => shows(x, s.as_bytes()[0])?,
				Err(e) if !want && e.0 == s => {}
				_ => return Err(format!("{} (FromStr)", bad())),
			}
			Ok(())
		}
		3 => {
			let (a, b) = ((c.n >> 8) as u8, c.n as u8);
			let Ok(x) = Singleton::new(a) else { return Ok(()) };
			let eq = a.eq_ignore_ascii_case(&b);
			let name = |s: &str, got: bool| format!("identifier {:?} {s} {:?} is {got}", a as char, b as char);
			#[allow(clippy::op_ref)]
			{
				if (x == b) != eq || (x != b) == eq {
					return Err(name("== byte", x == b));
				}
				if (x == b as char) != eq || (x != b as char) == eq {
					return Err(name("== char", x == b as char));
				}
			}
			let Ok(y) = Singleton::new(b) else { return Ok(()) };
			o.outcome(8 | eq as u64);
			let ord = a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase());
			if (x == y) != eq || (y == x) != eq || (x != y) == eq {
				return Err(name("==", x == y));
			}
			if x.cmp(&y) != ord || x.partial_cmp(&y) != Some(ord) || (x < y) != ord.is_lt() || (x <= y) != ord.is_le() || (x > y) != ord.is_gt() || (x >= y) != ord.is_ge() {
				return Err(format!("identifiers {:?} and {:?} compare {:?}", a as char, b as char, x.cmp(&y)));
			}
			let (m, n) = (x.max(y).unwrap(), x.min(y).unwrap());
			if (m.to_ascii_lowercase() != a.to_ascii_lowercase().max(b.to_ascii_lowercase())) || (n.to_ascii_lowercase() != a.to_ascii_lowercase().min(b.to_ascii_lowercase())) {
				return Err(format!("max or min of identifiers {:?} and {:?} is wrong", a as char, b as char));
			}
			if eq && log_of(&x) != log_of(&y) {
				return Err(format!("identifiers {:?} and {:?} are equal but hash differently", a as char, b as char));
			}
			Ok(())
		}
		_ => {
			let (a, b) = ((c.n >> 32) as u8, c.n as u32);
			let (Ok(x), Some(ch)) = (Singleton::new(a), char::from_u32(b)) else { return Ok(()) };
			let eq = ch.is_ascii() && a.eq_ignore_ascii_case(&(b as u8));
			if (x == ch) != eq {
				return Err(format!("identifier {:?} == {ch:?} is {}", a as char, x == ch));
			}
			Ok(())
		}
	}
}
pub fn c16(thorough: bool) -> Vec<Dom> {
	let _ = thorough;
	let z = |kind, n| Case { kind, a: &[], b: &[], c: &[], n };
	vec![
		dom("all bytes", false, move |s| (0..256).for_each(|n| s.put(z(0, n)))),
		dom("all characters", false, move |s| {
			for h in 0..0x110u64 {
				if s.mine() {
					(0..0x1000).for_each(|l| s.exec(z(1, h << 12 | l)));
				}
			}
		}),
		dom("all pairs of bytes", false, move |s| (0..65536).for_each(|n| s.put(z(3, n)))),
		dom("all identifiers with all characters", false, move |s| {
			for a in obs::singletons() {
				if s.mine() {
					(0..0x110000).for_each(|c| s.exec(z(4, (a as u64) << 32 | c)));
				}
			}
		}),
		dom("strings: all of one character, all ASCII ones of two bytes, others", false, move |s| {
			for h in 0..0x110u32 {
				if !s.mine() {
					continue;
				}
				for l in 0..0x1000 {
					if let Some(c) = char::from_u32(h << 12 | l) {
						s.exec(Case { kind: 2, a: c.encode_utf8(&mut [0; 4]).as_bytes(), b: &[], c: &[], n: 0 });
					}
				}
			}
			for a in 0..128u8 {
				if s.mine() {
					for b in 0..128u8 {
						s.exec(Case { kind: 2, a: &[a, b], b: &[], c: &[], n: 0 });
					}
				}
			}
			if s.mine() {
				all_words(b"aZx1-", 4, &mut |w| s.exec(Case { kind: 2, a: w, b: &[], c: &[], n: 0 }));
			}
		}),
	]
}

// ---------------------------------------------------------------- C24

/// The operations of C24 on a text, in an unoptimised build (nothing inlined,
/// no tail calls) and on a small stack: `mc deep`, run by `c24_check`.
pub fn deep_main() -> i32 {
	// SAFETY: ends this process with its parent
	unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
	let mut t = String::new();
	std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("stdin");
	let (ty, w) = t.trim().split_once(' ').expect("type and text");
	let (kind, w) = (ty.parse().expect("type"), unhex(w));
	let r = std::thread::Builder::new()
		.stack_size(STACK)
		.spawn(move || c24_check(&Case { kind, a: &w, b: &[], c: &[], n: 0 }, &mut Obs::default()))
		.expect("thread")
		.join();
	match r {
		Ok(Ok(())) => {
			println!("done");
			0
		}
		Ok(Err(m)) => {
			println!("{m}");
			1
		}
		Err(_) => {
			println!("a panic");
			1
		}
	}
}
const STACK: usize = 1 << 20;
fn c24_deep(c: &Case, o: &mut Obs) -> Result<(), String> {
	use std::io::Write;
	use std::process::*;
	let ty = (c.kind & 255) as usize;
	let Ok(exe) = std::env::var("MC_DEEP") else { return Ok(()) };
	if ty >= 15 || !(TYPES[ty].accept)(c.a) {
		return Ok(());
	}
	let fail = |m: String| Err(format!("{} {:?}: {m} (unoptimised build, {} KiB of stack)", TYPES[ty].name, show(c.a), STACK >> 10));
	let mut ch = Command::new(exe).arg("deep").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("internal error: {e}"))?;
	let _ = ch.stdin.take().map(|mut i| i.write_all(format!("{ty} {}", hexs(c.a)).as_bytes()));
	let out = ch.wait_with_output().map_err(|e| format!("internal error: {e}"))?;
	o.validated += 1;
	o.state(fx(c.a) ^ ty as u64);
	o.outcome(out.status.code().unwrap_or(-1) as u64);
	let said = String::from_utf8_lossy(&out.stdout);
	match said.trim() {
		"done" if out.status.success() => Ok(()),
		"" => fail(format!("the process ended with {}", out.status)),
		m => fail(m.to_string()),
	}
}

/// Everything that can be called is called; the number of items is bounded.
/// Kinds from 0x300: in a process of its own, see `deep_main`.
pub fn c24_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.kind >> 8 == 3 {
		return c24_deep(c, o);
	}
	let ty = c.kind as usize;
	if ty > 15 {
		return Ok(());
	}
	let n = exercise(ty, c.a, c.b, c.a.len() < 4000 || c.n == 0)?;
	o.validated += n.max(1);
	if ty == spec::GF {
		return Ok(());
	}
	if n & 1 == 0 {
		o.outcome(ty as u64);
		return Ok(());
	}
	o.cover(ty, c.a);
	o.outcome((ty as u64) << 32 | 1 << 31 | dfas()[ty].run(0, c.a) as u64);
	o.sample(|| format!("{} {:?} ({} bytes): {} answers", TYPES[ty].name, show(c.a), c.a.len(), n));
	Ok(())
}
/// Calls everything on `w`; gives the number of answers, odd if `w` is accepted.
pub fn exercise(ty: usize, w: &[u8], b: &[u8], pairs: bool) -> Result<u64, String> {
	if ty == spec::GF {
		let _ = GrandfatheredLangTag::new(w).map(|g| (g.to_string(), g.language().map(|l| l.to_string())));
		if let Err(e) = GrandfatheredLangTag::try_from(w) {
			let _ = e.to_string();
		}
		return Ok(0);
	}
	let t = &TYPES[ty];
	let mut m = 0;
	if !(t.accept)(w) {
		(t.entries)(w, &mut |_, _| m += 2);
		(t.messages)(w);
		return Ok(m);
	}
	let ans = obs::observe(ty, w, G_ALL).ok_or("rejected")?;
	if let Some(a) = ans.iter().find(|a| a.0 == "runaway iterator") {
		return Err(format!("{} {:?}: an iterator yields {} items", t.name, show(w), a.1));
	}
	m += 2 * (ans.len() as u64 / 2) + 1;
	(t.texts)(w, &mut |_, _| ());
	(t.messages)(w);
	if pairs {
		(t.entries)(w, &mut |_, _| ());
		let other = if b.is_empty() { &w[..w.len() / 2] } else { b };
		for (x, y) in [(w, w), (w, other)] {
			(t.eqs)(x, y, &mut |_, _| m += 2);
			(t.nes)(x, y, &mut |_, _| ());
			(t.ords)(x, y, &mut |_, _| m += 2);
			(t.ops)(x, y, core::cmp::Ordering::Equal, &mut |_, _| ());
			(t.feqs)(x, y, &mut |_, _| m += 2);
			(t.fords)(x, y, &mut |_, _| m += 2);
			(t.fords_rev)(y, x, &mut |_, _| m += 2);
		}
		(t.hashes)(w, &mut |_, _| ());
	}
	// exhausted iterators stay quiet, long skips end
	let n = w.iter().filter(|c| **c == b'-').count() + 1;
	macro_rules! it {
		($x:expr) => {{
			let mk = || $x;
			let k = mk().take(n + 2).count();
			if k > n {
				return Err(format!("{} {:?}: an iterator yields more items than there are subtags", t.name, show(w)));
			}
			let mut i = mk();
			let _ = (i.size_hint(), i.nth(n), i.next(), i.size_hint(), i.nth(usize::MAX), i.next());
			let _ = (mk().nth(n + 100).is_none(), mk().skip(n).next().is_none(), mk().nth(usize::MAX).is_none(), mk().skip(usize::MAX).next(), mk().step_by(usize::MAX).nth(1), mk().take(usize::MAX).count());
		}};
	}
	match ty {
		spec::LT => {
			if let Ok(t) = LangTag::new(w) {
				it!(t.variants().iter());
				it!(t.variants().iter().rev());
				it!(t.extensions().iter());
				it!(t.private_use_subtags());
				let _ = (t.language(), t.script(), t.region(), t.private_use(), format!("{t:?}{:?}", t.kind()));
				if let Some(l) = t.language() {
					it!(l.extension_subtags());
				}
			}
		}
		spec::NORMAL => {
			if let Ok(t) = NormalLangTag::new(w) {
				it!(t.variants().iter());
				it!(t.variants().iter().rev());
				it!(t.extensions().iter());
				it!(t.private_use_subtags());
				it!(t.language().extension_subtags());
			}
		}
		spec::PU => {
			if let Ok(t) = PrivateUse::new(w) {
				it!(t.iter());
			}
		}
		spec::LANG => {
			if let Ok(t) = Language::new(w) {
				it!(t.extension_subtags());
			}
		}
		spec::EXTLANG => {
			if let Ok(t) = LanguageExtension::new(w) {
				it!(t.iter());
			}
		}
		spec::VARIANTS => {
			if let Ok(t) = Variants::new(w) {
				it!(t.iter());
				it!(t.iter().rev());
			}
		}
		spec::EXT => {
			if let Ok(t) = Extension::new(w) {
				it!(t.iter());
			}
		}
		spec::EXTS => {
			if let Ok(t) = Extensions::new(w) {
				it!(t.iter());
				for c in obs::singletons() {
					if let Ok(s) = Singleton::new(c) {
						it!(t.iter_extension(s));
					}
				}
			}
		}
		_ => {}
	}
	Ok(m)
}
pub fn c24(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in 0..=15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let n = spec::RULES[ty];
		v.push(dom(format!("{n}: every operation on accepted values"), true, move |s| {
			if ty < 15 {
				type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.word(k, w))
			}
		}));
		v.push(dom(format!("{n}: parses of any input"), true, move |s| {
			let all: Vec<u8> = (0..=255).collect();
			all_words(&all, 1, &mut |w| s.word(k, w));
			all_words(b"aX1-\0\xc3\xa9\xff", if thorough { 6 } else { 4 }, &mut |w| s.word(k, w));
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					w.clear();
					w.extend_from_slice(&d.access[st]);
					w.push(b);
					s.word(k, &w);
					for t in [&b"-"[..], b"-a", b"\x80", b"--", b"-x-", b"abcdefghi"] {
						w.truncate(d.access[st].len() + 1);
						w.extend_from_slice(t);
						s.word(k, &w);
					}
				}
			}
			// truncated and malformed sequences at the end and in long inputs
			for st in 0..d.len() {
				for t in [&b"\xc3"[..], b"\xe2", b"\xe2\x82", b"\xf0", b"\xf0\x9f", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xed\xa0\x80", b"\xc0", b"\xc1\xa1", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", "é".as_bytes(), "é-é".as_bytes(), "a\u{301}".as_bytes(), "😀".as_bytes(), "-é".as_bytes(), "é-".as_bytes()] {
					for (a, b) in [("", ""), ("", "-a"), ("-", ""), ("a", "b")] {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.extend_from_slice(a.as_bytes());
						w.extend_from_slice(t);
						w.extend_from_slice(b.as_bytes());
						s.word(k, &w);
					}
				}
			}
		}));
		if ty < 15 {
			v.push(dom(format!("{n}: long values"), true, move |s| {
				let sz = sizes(thorough);
				pumped(ty, &sz, &mut |w| s.wordn(k, w, (w.len() > 300_000) as u64));
				for m in if thorough { vec![100_000usize, 1_000_000] } else { vec![100_000] } {
					for c in [b'a', b'-', b'1', 0xc3, 0] {
						s.wordn(k, &vec![c; m], 1);
					}
				}
			}));
		}
		if [spec::LT, spec::NORMAL, spec::PU, spec::VARIANTS, spec::EXT, spec::EXTS].contains(&ty) {
			v.push(dom(format!("{n}: long values, unoptimised build on a small stack"), true, move |s| {
				let sz: &[usize] = if thorough { &[1, 2, 3, 100, 1000, 10000, 30000, 65537, 131_072] } else { &[2, 30000] };
				pumped(ty, sz, &mut |w| s.word(k | 0x300, w));
			}));
		}
	}
	v
}

// ---------------------------------------------------------------- C25

/// Operations of a history: (what, text). Their answers are functions of the text alone.
pub fn answer(what: u8, w: &[u8]) -> Vec<u64> {
	let mut v = vec![];
	let ty = (what & 15) as usize;
	match what >> 4 {
		0 => v.push((ty < 15 && (TYPES[ty].accept)(w)) as u64),
		1 => {
			if let Some(a) = obs::observe(ty, w, obs::G_COMP | obs::G_LANG | obs::G_KIND) {
				v.extend(a.iter().map(|x| (x.1 as u64) << 32 | x.2 as u64));
			}
		}
		2 => {
			if let Some(a) = obs::observe(ty, w, obs::G_VARS | obs::G_EXTS | obs::G_PU) {
				v.extend(a.iter().map(|x| (x.1 as u64) << 32 | x.2 as u64));
			}
		}
		_ => {
			if let Some(a) = obs::observe(ty, w, obs::G_GET) {
				v.extend(a.iter().map(|x| (x.1 as u64) << 32 | x.2 as u64));
			}
		}
	}
	v
}
pub fn modelled(what: u8, w: &[u8]) -> Vec<u64> {
	let ty = (what & 15) as usize;
	let g = match what >> 4 {
		0 => return vec![(ty < 15 && dfas()[ty].accepts(w)) as u64],
		1 => obs::G_COMP | obs::G_LANG | obs::G_KIND,
		2 => obs::G_VARS | obs::G_EXTS | obs::G_PU,
		_ => obs::G_GET,
	};
	match with_dec(|d| obs::expect(ty, w, g, d)) {
		Some(a) => a.iter().map(|x| (x.1 as u64) << 32 | x.2 as u64).collect(),
		None => vec![],
	}
}
pub const OPS25: [u8; 14] = [0, 1, 4, 11, 14, 16, 17, 20, 16 + 6, 32, 33, 32 + 11, 32 + 14, 48 + 1];

/// a: texts separated by NUL; b: the history, two bytes each (operation, text).
/// All texts are written into the same buffer, so that values of the same
/// length follow each other at the same address.
/// kind 1: comparisons instead, (operation, text, text).
pub fn c25_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let texts: Vec<&[u8]> = c.a.split(|b| *b == 0).collect();
	let mut buf = vec![0u8; texts.iter().map(|t| t.len()).max().unwrap_or(0)];
	let mut other = buf.clone();
	let mut st = 0u64;
	if c.kind == 3 {
		// one text at every alignment
		let mut d = spec::Dec::default();
		for ty in 0..16usize {
			let want = obs::expect(ty, c.a, obs::G_ALL, &mut d);
			if want.is_none() && ty != c.n as usize {
				continue;
			}
			let mut v = vec![0u8; c.a.len() + 32];
			let base = 16 - v.as_ptr() as usize % 16;
			for i in 0..16 {
				v[base + i..base + i + c.a.len()].copy_from_slice(c.a);
				let got = obs::observe(ty, &v[base + i..base + i + c.a.len()], obs::G_ALL);
				o.validated += 1;
				if got != want {
					return Err(format!("{} {:?} at an address of {i} modulo 16: the answers differ from the model's", spec::RULES[ty], show(c.a)));
				}
			}
			o.state(fx(c.a) ^ ty as u64);
			o.transitions += 16;
		}
		return Ok(());
	}
	if c.kind == 2 {
		let mut d = spec::Dec::default();
		for (i, step) in c.b.chunks_exact(3).enumerate() {
			let Some(f) = obs::FINE.get(step[0] as usize) else { continue };
			let w = texts[(step[1] as usize | (step[2] as usize & 0x7f) << 8) % texts.len()];
			let b = if step[2] & 0x80 != 0 { &mut other } else { &mut buf };
			b[..w.len()].copy_from_slice(w);
			let got = f.run(&b[..w.len()]);
			let want = f.want(w, &mut d);
			o.validated += 1;
			o.transitions += 1;
			st = st.rotate_left(11) ^ fx(step);
			o.state(st ^ fx(c.a));
			if got != want {
				let s = |a: &Option<Vec<obs::Ans>>| a.as_ref().map_or("(rejected)".to_string(), |v| v.iter().map(|a| obs::show_ans(w, Some(a))).collect::<Vec<_>>().join(", "));
				return Err(format!("step {i} of the history: {} {} of {:?} gives {}, not {}", spec::RULES[f.ty], f.name, show(w), s(&got), s(&want)));
			}
		}
		o.outcome(st & 0xfff);
		o.sample(|| format!("{} calls on {:?}", c.b.len() / 3, texts.iter().take(4).map(|t| show(t)).collect::<Vec<_>>()));
		return Ok(());
	}
	if c.kind == 1 {
		for (i, step) in c.b.chunks_exact(3).enumerate() {
			let ty = (step[0] & 15) as usize;
			let (x, y) = (texts[step[1] as usize % texts.len()], texts[step[2] as usize % texts.len()]);
			if ty >= 15 || !dfas()[ty].accepts(x) || !dfas()[ty].accepts(y) {
				continue;
			}
			buf[..x.len()].copy_from_slice(x);
			other[..y.len()].copy_from_slice(y);
			let (bx, by) = (&buf[..x.len()], &other[..y.len()]);
			let want = x.eq_ignore_ascii_case(y);
			let mut bad = None;
			(TYPES[ty].eqs)(bx, by, &mut |n, e| {
				if e != want {
					bad = Some(n)
				}
			});
			let ord = (TYPES[ty].cmp)(bx, by);
			if (TYPES[ty].cmp)(by, bx) != ord.reverse() || ord.is_eq() != want {
				bad = Some("cmp");
			}
			if want && (TYPES[ty].hash)(bx) != (TYPES[ty].hash)(by) {
				bad = Some("hash");
			}
			if let Some(n) = bad {
				return Err(format!("step {i}: {n} of {:?} and {:?} is wrong after the calls before it", show(x), show(y)));
			}
			o.validated += 3;
			o.transitions += 1;
			st = st.rotate_left(11) ^ fx(step);
			o.state(st ^ fx(c.a));
		}
		o.outcome(st & 0xfff);
		return Ok(());
	}
	for (i, step) in c.b.chunks_exact(2).enumerate() {
		let w = texts[step[1] as usize % texts.len()];
		buf[..w.len()].copy_from_slice(w);
		let got = answer(step[0], &buf[..w.len()]);
		let want = modelled(step[0], w);
		o.validated += 1;
		o.transitions += 1;
		st = st.rotate_left(11) ^ fx(step);
		o.state(st ^ fx(c.a));
		if got != want {
			return Err(format!("step {i} of the history: operation {:#x} on {:?} gives {got:x?}, not {want:x?}", step[0], show(w)));
		}
	}
	o.outcome(st & 0xfff);
	o.sample(|| format!("{} operations on {:?}", c.b.len() / 2, texts.iter().map(|t| show(t)).collect::<Vec<_>>()));
	Ok(())
}
/// Small sets of texts alike in length, ends and most characters, but with different answers.
pub fn families() -> Vec<(usize, Vec<Vec<u8>>)> {
	let f = |ty, v: &[&str]| (ty, v.iter().map(|t| t.as_bytes().to_vec()).collect());
	vec![
		f(spec::LT, &["fr-abc-latn-abcde-a", "fr-abcdefgh-a-abcde", "fr-abc-latn-fr-a-bb", "fr-a-abcd-b-cc-x-aa"]),
		f(spec::LT, &["zh-min-nan", "zh-min-Nan", "zh-mix-nan", "zh-x-n-nan"]),
		f(spec::LT, &["i-hak", "x-hak", "en-hak", "I-HAK"]),
		f(spec::LANG, &["ab-cde", "ab-dce", "AB-CDE", "abcdee", "abc-de"]),
		f(spec::EXTLANG, &["abc-def-abc", "abc-abc-abc", "abc-dEf-aBc", "acb"]),
		f(spec::VARIANTS, &["abcde-1abc-abcde", "abcde-abcd1abcde", "abcde-abcde-1cde", "1bcde-abcde-1cde", ""]),
		f(spec::EXT, &["a-bb-cc-dd", "a-bbbcc-dd", "b-bb-ccddd", "A-bb-cc-dd", "a-bb-b-c-d"]),
		f(spec::EXTS, &["a-bb-b-cc", "b-bb-a-cc", "a-bbbb-cc", "b-aa-b-cc", "B-BB-A-CC"]),
		f(spec::PU, &["x-a-bb-c", "x-aa-b-c", "X-aabb-c", "a-aabb-c"]),
		f(spec::GF, &["zh-min", "no-bok", "no-nyn", "no-nyk", "ZH-MIN"]),
	]
}
/// Sets of words of the same length (most of them accepted), spread over all such words.
fn equal_lengths(ty: usize, max: usize) -> Vec<Vec<Vec<u8>>> {
	let mut by: std::collections::BTreeMap<usize, Vec<Vec<u8>>> = Default::default();
	if ty == spec::GF {
		for (t, _) in spec::GRANDFATHERED {
			let e = by.entry(t.len()).or_default();
			e.push(t.as_bytes().to_vec());
			e.push(t.to_ascii_uppercase().into_bytes());
			e.push([&t.as_bytes()[..t.len() - 1], b"z"].concat());
			e.push([b"q", &t.as_bytes()[1..]].concat());
		}
	} else {
		let d = &dfas()[ty];
		let mut put = |w: &[u8], a: bool| {
			if a && (3..16).contains(&w.len()) {
				by.entry(w.len()).or_default().push(w.to_vec())
			}
		};
		subtag_words(d, &[b"a", b"b", b"x", b"ab", b"ba", b"aB", b"abc", b"bac", b"123", b"abcd", b"1abc", b"abcde"], 4, &mut put);
		live_words(d, b"ab1-", 7, &mut put);
	}
	let mut v: Vec<Vec<Vec<u8>>> = vec![];
	for (_, mut w) in by {
		w.sort();
		w.dedup();
		let n = w.len();
		if n > max {
			w = (0..max).map(|i| w[i * n / max].clone()).collect();
		}
		v.push(w);
	}
	v
}
pub fn c25(thorough: bool) -> Vec<Dom> {
	// texts of equal lengths, well-formed and not, of different types
	let sets: Vec<Vec<&str>> = vec![
		vec!["fr-Latn-FR", "fr-abc-419", "x-abcdefgh", "i-enochian", "fr--abcdef"],
		vec!["a-bb-b-cc-dd", "1-abcdefgh-z", "b-cc-a-bb-dd", "abcde-1996-x", "abcde-abcdef"],
		vec!["fr-a-bb-b-cc", "fr-b-cc-a-bb", "fr-a-bb-x-cc", "FR-B-CC-A-BB", "fr-x-bb-b-cc"],
		vec!["zh-min-nan", "zh-min-xan", "zh-min-Nan", "ab-min-nan"],
		vec!["fr", "x-", "fr-1abc-abcde", "abc", "123"],
	];
	let cmps: Vec<Vec<&str>> = vec![
		vec!["fr-latn-fr", "FR-Latn-FR", "fr-latn-de", "en-latn-fr"],
		vec!["abcde", "ABCDE", "abcdf", "1abc", "abcde-abcde"],
		vec!["a-bb", "A-BB", "b-bb", "a-bb-b-cc"],
	];
	let mut v = vec![];
	v.push(dom("every answer about texts at all alignments", true, move |s| {
		for ty in 0..15usize {
			type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| {
				if w.len() < 200 {
					s.put(Case { kind: 3, a: w, b: &[], c: &[], n: ty as u64 })
				}
			});
		}
		for (g, _) in spec::GRANDFATHERED {
			few_casings(g.as_bytes(), &mut |w| s.put(Case { kind: 3, a: w, b: &[], c: &[], n: 0 }));
		}
	}));
	v.push(dom("all histories of calls on texts at the same address, on all threads at once", false, move |s| {
		for (si, set) in sets.iter().enumerate() {
			let a = set.join("\0").into_bytes();
			let mut steps: Vec<[u8; 2]> = vec![];
			for (i, _) in set.iter().enumerate() {
				for op in OPS25 {
					steps.push([op, i as u8]);
				}
			}
			for x in &steps {
				for y in &steps {
					if !s.mine() {
						continue;
					}
					for z in &steps {
						// the same call again at the end
						let h = [x[0], x[1], y[0], y[1], z[0], z[1], x[0], x[1]];
						s.exec(Case { kind: 0, a: &a, b: &h, c: &[], n: 0 });
					}
				}
			}
			if thorough && si < 3 {
				// four different calls on the two most different texts
				let few: Vec<[u8; 2]> = steps.iter().copied().filter(|s| s[1] < 2).collect();
				for x in &few {
					for y in &few {
						if !s.mine() {
							continue;
						}
						for z in &few {
							for t in &few {
								let h = [x[0], x[1], y[0], y[1], z[0], z[1], t[0], t[1], x[0], x[1], y[0], y[1]];
								s.exec(Case { kind: 0, a: &a, b: &h, c: &[], n: 0 });
							}
						}
					}
				}
			}
		}
	}));
	v.push(dom("all histories of comparisons at the same addresses", false, move |s| {
		for (set, tys) in cmps.iter().zip([[0u8, 1], [10, 11], [12, 14]]) {
			let a = set.join("\0").into_bytes();
			let n = set.len() as u8;
			let mut steps: Vec<[u8; 3]> = vec![];
			for ty in tys {
				for i in 0..n {
					for j in 0..n {
						steps.push([ty, i, j]);
					}
				}
			}
			for x in &steps {
				for y in &steps {
					if !s.mine() {
						continue;
					}
					for z in &steps {
						let h = [*x, *y, *z, *x].concat();
						s.exec(Case { kind: 1, a: &a, b: &h, c: &[], n: 0 });
					}
				}
			}
		}
	}));
	v.push(dom("all histories of three single calls on texts of equal length, first and last character", false, move |s| {
		for (ty, set) in families() {
			let a = set.join(&0);
			let mut steps: Vec<[u8; 3]> = vec![];
			for (op, f) in obs::FINE.iter().enumerate() {
				if f.ty == ty || ty == spec::LT && (f.ty == spec::NORMAL || f.ty == spec::GF) {
					for i in 0..set.len() {
						steps.push([op as u8, i as u8, 0]);
						if ty != spec::LT || thorough {
							steps.push([op as u8, i as u8, 0x80]);
						}
					}
				}
			}
			for x in &steps {
				for y in &steps {
					if !s.mine() {
						continue;
					}
					for z in &steps {
						// without z in between as well: x, y, x
						let h = [*x, *y, *x, *z, *y, *x].concat();
						s.exec(Case { kind: 2, a: &a, b: &h, c: &[], n: 0 });
					}
				}
			}
		}
	}));
	v.push(dom("every pair of single calls on all pairs of texts of one length", false, move |s| {
		for ty in [spec::LT, spec::NORMAL, spec::PU, spec::LANG, spec::EXTLANG, spec::VARIANTS, spec::EXT, spec::EXTS, spec::GF] {
			let ops: Vec<u8> = (0..obs::FINE.len()).filter(|i| obs::FINE[*i].ty == ty).map(|i| i as u8).collect();
			for set in equal_lengths(ty, if thorough { 300 } else { 56 }) {
				for x in &set {
					if !s.mine() {
						continue;
					}
					for y in &set {
						let a = [&x[..], &y[..]].join(&0);
						for p in &ops {
							for q in &ops {
								let h = [*p, 0, 0, *q, 1, 0, *p, 1, 0, *q, 0, 0, *p, 1, 0x80, *p, 0, 0x80];
								s.exec(Case { kind: 2, a: &a, b: &h, c: &[], n: 0 });
							}
						}
					}
				}
			}
		}
	}));
	v.push(dom("the same single call many times, then another", false, move |s| {
		for (ty, set) in families() {
			let a = set.join(&0);
			for (op, f) in obs::FINE.iter().enumerate() {
				if f.ty == ty && s.mine() {
					for n in [3, 250, 251, 252, 253, 254, 255, 256, 257, 258, 1023, 1024, 1025, 65534, 65535, 65536, 65537, if thorough { 1_100_000 } else { 66_000 }] {
						let mut h: Vec<u8> = [op as u8, 0, 0].repeat(n);
						h.extend([op as u8, 1, 0, op as u8, 0, 0]);
						s.exec(Case { kind: 2, a: &a, b: &h, c: &[], n: 0 });
					}
				}
			}
		}
	}));
	v.push(dom("the same call many times", false, move |s| {
		for t in ["fr-Latn-FR-abcde-a-bb-x-yy", "zh-min-nan", "x-abc", "a-bb-b-cc", "abcde-1abc", "fr--x", "i-klingon"] {
			for op in OPS25 {
				if s.mine() {
					let h: Vec<u8> = [op, 0].repeat(if thorough { 140_000 } else { 1_000 });
					s.exec(Case { kind: 0, a: t.as_bytes(), b: &h, c: &[], n: 0 });
				}
			}
		}
	}));
	v
}
