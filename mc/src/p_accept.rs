//! Recognition: C01, C02, C03, C17, C18, C22.
use crate::dom::*;
use crate::run::*;
use crate::spec::{self, Dec, GRANDFATHERED, dfas};
use crate::types::{Entry, TYPES};
use langtag::{GrandfatheredLangTag, Singleton};

/// n = 1: only `T::new`
pub const ONLY_NEW: u64 = 1;

/// Verdicts of all the constructors against the model.
pub fn accept(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	if ty >= TYPES.len() {
		return Ok(());
	}
	let t = &TYPES[ty];
	let want = dfas()[ty].accepts(c.a);
	if c.n == ONLY_NEW {
		let got = (t.accept)(c.a);
		o.validated += 1;
		if got != want {
			return Err(format!("{}::new {} {:?}, which {} the RFC 5646 production {}", t.name, if got { "accepts" } else { "rejects" }, show(c.a), if want { "matches" } else { "does not match" }, spec::RULES[ty]));
		}
		return Ok(());
	}
	o.cover(ty, c.a);
	let mut r = Ok(());
	let mut n = 0;
	(t.entries)(c.a, &mut |name, e| {
		n += 1;
		let got = match e {
			Entry::Skip => return,
			Entry::No(_) => false,
			Entry::Yes(..) => true,
			Entry::Bool(b) => b,
		};
		if got != want && r.is_ok() {
			r = Err(format!("{}: {name} {} {:?}, which {} the RFC 5646 production {}", t.name, if got { "accepts" } else { "rejects" }, show(c.a), if want { "matches" } else { "does not match" }, spec::RULES[ty]));
		}
	});
	o.validated += n;
	o.outcome((ty as u64) << 32 | (want as u64) << 31 | dfas()[ty].run(0, c.a) as u64);
	o.sample(|| format!("{} {:?}: {}", t.name, show(c.a), if want { "accepted" } else { "rejected" }));
	r
}

/// Product of the compiled automaton and the model, on all characters.
#[cfg(whitebox)]
pub mod white {
	use super::*;
	use std::collections::{HashMap, VecDeque};

	pub trait Auto: Sized {
		fn start() -> Self;
		fn next(&mut self, c: char) -> bool;
		fn accepting(&self) -> bool;
		fn key(&self) -> u64 {
			let mut k = [0u8; 8];
			unsafe { std::ptr::copy_nonoverlapping(self as *const Self as *const u8, k.as_mut_ptr(), size_of::<Self>()) };
			u64::from_le_bytes(k)
		}
		fn dup(&self) -> Self {
			unsafe { std::ptr::read(self) }
		}
	}
	macro_rules! autos {
		($($t:ident $f:ident),*) => {
			$(impl Auto for langtag::verif::$t {
				fn start() -> Self { Self::new() }
				fn next(&mut self, c: char) -> bool { self.push(c) }
				fn accepting(&self) -> bool { self.is_accepting() }
			})*
			pub const PRODUCTS: [fn(&crate::model::Dfa, usize, &mut Sink); 15] = [$(product::<langtag::verif::$t>),*];
		};
	}
	autos!(
		LanguageTag a, Langtag b, Privateuse c, PrivateuseSubtag d, Language e, Primary f, Extlang g, ExtlangTag h, Script i, Region j,
		Variant k, Variants l, Extension m, ExtensionSubtag n, Extensions o
	);

	/// Breadth-first search of the product of automaton and model. Every word
	/// on which they differ is then tried on the public API.
	pub fn product<A: Auto>(d: &crate::model::Dfa, ty: usize, s: &mut Sink) {
		if !s.mine() || size_of::<A>() > 8 || std::mem::needs_drop::<A>() {
			return;
		}
		let dead_auto = u64::MAX;
		let mut seen: HashMap<(u64, u16), ()> = HashMap::new();
		let mut q: VecDeque<(Option<A>, u16, Vec<u8>)> = VecDeque::new();
		let a = A::start();
		seen.insert((a.key(), 0), ());
		q.push_back((Some(a), 0, vec![]));
		let mut nstates = 0u64;
		let mut ntrans = 0u64;
		let mut reported = 0;
		while let Some((a, m, w)) = q.pop_front() {
			nstates += 1;
			let acc = a.as_ref().is_some_and(|a| a.accepting());
			s.obs.state(fx(format!("{ty} {:?} {m} {}", a.as_ref().map(|a| a.key()), d.name).as_bytes()));
			if acc != d.acc[m as usize] {
				reported += 1;
				s.exec(Case { kind: ty as u16, a: &w, b: &[], c: &[], n: 0 });
				if reported > 50 {
					break;
				}
				continue;
			}
			if nstates > 20_000 {
				break;
			}
			for c in '\0'..=char::MAX {
				ntrans += 1;
				let m2 = if c.is_ascii() { d.step(m, c as u8) } else { d.dead };
				let a2 = a.as_ref().and_then(|a| {
					let mut x = a.dup();
					x.next(c).then_some(x)
				});
				if a2.is_none() && m2 == d.dead {
					continue;
				}
				let k = (a2.as_ref().map_or(dead_auto, |a| a.key()), m2);
				if seen.contains_key(&k) {
					continue;
				}
				seen.insert(k, ());
				let mut w2 = w.clone();
				w2.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
				if a2.is_none() || m2 == d.dead {
					// one side is stuck: complete the word on the other side
					let mut w3 = w2.clone();
					if m2 != d.dead {
						w3.extend_from_slice(&d.finish[m2 as usize]);
					} else if let Some(a) = &a2 {
						w3.extend_from_slice(&complete(a));
					}
					s.exec(Case { kind: ty as u16, a: &w3, b: &[], c: &[], n: 0 });
					reported += 1;
					if reported > 50 {
						return;
					}
					continue;
				}
				q.push_back((a2, m2, w2));
			}
		}
		s.obs.transitions += ntrans;
		s.obs.note("product states (compiled automaton x model)", nstates);
		s.obs.note("product transitions on all 1112064 characters", ntrans);
		// the search itself ends in a check on the public API
		s.exec(Case { kind: ty as u16, a: &d.finish[0], b: &[], c: &[], n: 0 });
	}
	fn complete<A: Auto>(a: &A) -> Vec<u8> {
		let mut seen: HashMap<u64, ()> = HashMap::new();
		let mut q = VecDeque::from([(a.dup(), vec![])]);
		while let Some((a, w)) = q.pop_front() {
			if a.accepting() {
				return w;
			}
			if seen.len() > 5000 {
				break;
			}
			for c in 0..128u8 {
				let mut x = a.dup();
				if x.next(c as char) && seen.insert(x.key(), ()).is_none() {
					let mut w2: Vec<u8> = w.clone();
					w2.push(c);
					q.push_back((x, w2));
				}
			}
		}
		vec![]
	}
}

#[cfg(whitebox)]
pub fn white_dom(types: Vec<usize>) -> Vec<Dom> {
	vec![dom("product of the compiled automata and the model, all characters", false, move |s| {
		for &t in &types {
			white::PRODUCTS[t](&dfas()[t], t, s);
		}
	})]
}
#[cfg(not(whitebox))]
pub fn white_dom(_: Vec<usize>) -> Vec<Dom> {
	vec![]
}

/// Black-box conformance suite of one type.
pub fn suite(ty: usize, thorough: bool) -> Vec<Dom> {
	let d = &dfas()[ty];
	let k = ty as u16;
	let name = TYPES.get(ty).map_or("GrandfatheredLangTag", |t| t.name);
	let mut v = vec![];
	v.push(dom(format!("{name}: all byte strings of at most {} bytes", if thorough { 3 } else { 2 }), false, move |s| {
		let all: Vec<u8> = (0..=255).collect();
		if s.mine() {
			all_words(&all, 1, &mut |w| s.exec(Case { kind: k, a: w, b: &[], c: &[], n: 0 }));
		}
		for a in 0..=255u8 {
			if !s.mine() {
				continue;
			}
			for b in 0..=255u8 {
				s.exec(Case { kind: k, a: &[a, b], b: &[], c: &[], n: if ty == spec::GF { 0 } else { ONLY_NEW } });
				if thorough {
					for c in 0..=255u8 {
						s.exec(Case { kind: k, a: &[a, b, c], b: &[], c: &[], n: ONLY_NEW });
					}
				}
			}
		}
	}));
	if ty < 15 {
		v.push(dom(format!("{name}: every code of the short kinds, subtags in actual use"), true, move |s| {
			let mut w = vec![];
			codes(ty, thorough, &mut |x| {
				s.put(Case { kind: k, a: x, b: &[], c: &[], n: ONLY_NEW });
				w.clear();
				w.extend_from_slice(x);
				w.make_ascii_lowercase();
				if w != x {
					s.put(Case { kind: k, a: &w, b: &[], c: &[], n: ONLY_NEW });
				}
				w.make_ascii_uppercase();
				s.put(Case { kind: k, a: &w, b: &[], c: &[], n: ONLY_NEW });
			});
		}));
	}
	v.push(dom(format!("{name}: all strings over class boundaries of at most {} bytes", if thorough { 5 } else { 4 }), false, move |s| {
		let alpha = b"aAzZxX09-@[`{/:_\xc3\0";
		let mut w = vec![];
		for a in alpha {
			for b in alpha {
				if !s.mine() {
					continue;
				}
				all_words(alpha, if thorough { 3 } else { 2 }, &mut |t| {
					w.clear();
					w.extend_from_slice(&[*a, *b]);
					w.extend_from_slice(t);
					s.exec(Case { kind: k, a: &w, b: &[], c: &[], n: ONLY_NEW });
				});
			}
		}
	}));
	v.push(dom(format!("{name}: every state x every byte x characterizing set"), false, move |s| {
		let ws = d.wset();
		let mut w = vec![];
		for st in 0..d.len() {
			for b in 0..=255u8 {
				if !s.mine() {
					continue;
				}
				for x in &ws {
					w.clear();
					w.extend_from_slice(&d.access[st]);
					w.push(b);
					w.extend_from_slice(x);
					s.exec(Case { kind: k, a: &w, b: &[], c: &[], n: if b < 128 && d.step(st as u16, b) != d.dead { 0 } else { ONLY_NEW } });
				}
			}
		}
	}));
	v.push(dom(format!("{name}: W-method for {} extra states", if thorough { 2 } else { 1 }), false, move |s| {
		let ws = d.wset();
		let reps = d.reps();
		let depth = if thorough { 3 } else { 2 };
		let mut w = vec![];
		// sequences that stay alive, then one step that may die, then the set
		for st in 0..d.len() {
			if st as u16 == d.dead {
				continue;
			}
			for &c0 in &reps {
				if !s.mine() {
					continue;
				}
				let mut stack: Vec<Vec<u8>> = vec![vec![c0]];
				while let Some(seq) = stack.pop() {
					let t = d.run(st as u16, &seq);
					if seq.len() > 1 {
						for x in &ws {
							w.clear();
							w.extend_from_slice(&d.access[st]);
							w.extend_from_slice(&seq);
							w.extend_from_slice(x);
							s.exec(Case { kind: k, a: &w, b: &[], c: &[], n: ONLY_NEW });
						}
					}
					if t != d.dead && seq.len() < depth {
						for &c in &reps {
							let mut n = seq.clone();
							n.push(c);
							stack.push(n);
						}
					}
				}
			}
		}
	}));
	v.push(dom(format!("{name}: live subtag sequences followed by every subtag shape"), true, move |s| {
		let mut pre: Vec<Vec<u8>> = vec![vec![]];
		subtag_words(d, &REPS_SMALL, if thorough { 5 } else { 3 }, &mut |w, _| pre.push(w.to_vec()));
		let sh: Vec<Vec<u8>> = shapes(9);
		let mut w = vec![];
		for p in &pre {
			if !s.mine() {
				continue;
			}
			for x in &sh {
				w.clear();
				w.extend_from_slice(p);
				if !p.is_empty() {
					w.push(b'-');
				}
				w.extend_from_slice(x);
				s.exec(Case { kind: k, a: &w, b: &[], c: &[], n: if p.len() < 6 { 0 } else { ONLY_NEW } });
			}
		}
	}));
	v.push(dom(format!("{name}: live words over a x 1 -"), true, move |s| {
		live_words(d, b"ax1-", if thorough { 13 } else { 10 }, &mut |w, _| {
			s.wordn(k, w, if w.len() < 8 { 0 } else { ONLY_NEW });
		});
	}));
	v.push(dom(format!("{name}: long lists, intact and damaged"), true, move |s| {
		let sz = sizes(thorough);
		pumped(ty, &sz, &mut |w| {
			s.wordn(k, w, 0);
			let l = w.len();
			if l > 400_000 {
				return;
			}
			let mut x = w.to_vec();
			for p in [l - 1, l / 2, l * 3 / 4, 0] {
				let old = x[p];
				for b in [b'_', b'-', 0xc3, b'x', b'a', b'1'] {
					x[p] = b;
					s.wordn(k, &x, ONLY_NEW);
				}
				x[p] = old;
			}
			for t in [&b"-"[..], b"-x", b"a", b"-abcdefghi", b"-a", b"-a-", b"--a", b"\0", b"-1abc-a-bb"] {
				x.truncate(l);
				x.extend_from_slice(t);
				s.wordn(k, &x, ONLY_NEW);
			}
		});
	}));
	if ty == spec::LT || ty == spec::NORMAL {
		v.push(dom(format!("{name}: component products"), true, move |s| {
			let mut w = vec![];
			products(&parts(thorough), &mut |p| {
				join(&p, &mut w);
				s.wordn(k, &w, 0);
			});
		}));
	}
	if ty == spec::LT {
		v.push(dom("LangTag: grandfathered tags, all casings, and near misses", true, move |s| {
			for (g, _) in GRANDFATHERED {
				for c in casings(g.as_bytes()) {
					s.wordn(k, &c, 0);
				}
			}
			near_misses(thorough, &mut |w| s.wordn(k, w, ONLY_NEW));
		}));
	}
	v
}

pub fn near_misses(thorough: bool, f: &mut dyn FnMut(&[u8])) {
	let few = tag_bytes();
	for (g, _) in GRANDFATHERED {
		for base in [g.to_string(), g.to_ascii_uppercase()] {
			let w = base.as_bytes();
			edits(w, &(0..=255).collect::<Vec<u8>>(), &mut |e| f(e));
			if thorough {
				edits(w, &few, &mut |e| edits(e, b"axA1-Z", f));
			}
			for (h, _) in GRANDFATHERED {
				for sep in ["", "-", "-x-"] {
					f(format!("{g}{sep}{h}").as_bytes());
				}
				// crossing two tags
				for i in 0..=g.len() {
					for j in 0..=h.len() {
						f(format!("{}{}", &g[..i], &h[j..]).as_bytes());
					}
				}
			}
			for t in ["-abcde", "-a-bb", "-x-a", "-Latn", "-FR", "-abc", "-oed", "-1abc", "-a"] {
				f(format!("{base}{t}").as_bytes());
				f(format!("{}{base}", &t[1..]).as_bytes());
				f(format!("x-{base}").as_bytes());
			}
		}
	}
}
/// All words at edit distance one (substitution, insertion, deletion, swap).
pub fn edits(w: &[u8], bytes: &[u8], f: &mut dyn FnMut(&[u8])) {
	let mut x = w.to_vec();
	for i in 0..w.len() {
		for &b in bytes {
			x[i] = b;
			f(&x);
		}
		x[i] = w[i];
	}
	for i in 0..w.len() {
		x = w.to_vec();
		x.remove(i);
		f(&x);
		if i + 1 < w.len() {
			x = w.to_vec();
			x.swap(i, i + 1);
			f(&x);
		}
	}
	for i in 0..=w.len() {
		for &b in bytes {
			x = w.to_vec();
			x.insert(i, b);
			f(&x);
		}
	}
}

pub fn c01(thorough: bool) -> Vec<Dom> {
	let mut v = white_dom(vec![spec::LT]);
	v.extend(suite(spec::LT, thorough));
	v
}
pub fn c02(thorough: bool) -> Vec<Dom> {
	let mut v = white_dom((1..15).collect());
	for t in 1..15 {
		v.extend(suite(t, thorough));
	}
	v
}

// ---------------------------------------------------------------- C03

const COMPARED: u16 = 0x20;
const IDENT: u16 = 0x40;
/// A text that is not ASCII equals no value and is not ordered with any.
fn never_taken(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = (c.kind & 0x1f) as usize;
	if c.b.is_ascii() || !dfas()[ty].accepts(c.a) || !(TYPES[ty].accept)(c.a) {
		return Ok(());
	}
	let t = &TYPES[ty];
	let mut r = Ok(());
	let mut n = 0;
	(t.feqs)(c.a, c.b, &mut |op, e| {
		n += 1;
		if e && r.is_ok() {
			r = Err(format!("{}: {:?} equals the bytes {:?}, which are not ASCII ({op})", t.name, show(c.a), show(c.b)));
		}
	});
	let mut ord = |op: &'static str, x: Option<std::cmp::Ordering>| {
		n += 1;
		if x.is_some() && r.is_ok() {
			r = Err(format!("{}: {:?} is ordered with the bytes {:?}, which are not ASCII ({op})", t.name, show(c.a), show(c.b)));
		}
	};
	(t.fords)(c.a, c.b, &mut ord);
	(t.fords_rev)(c.b, c.a, &mut ord);
	o.validated += n;
	o.transitions += 1;
	o.outcome(0x10000 | ty as u64);
	r
}
/// Identifiers: made from ASCII only, and equal to ASCII only. n: a byte, or a character << 8
fn ident_sound(c: &Case, o: &mut Obs) -> Result<(), String> {
	o.validated += 2;
	o.transitions += 1;
	let made = |x: Singleton, from: String| {
		let t = x.to_string();
		if !x.unwrap().is_ascii() || !t.is_ascii() {
			return Err(format!("the identifier made from {from} holds {:#04x} and shows {t:?}, which is not ASCII", x.unwrap()));
		}
		Ok(())
	};
	let no = |from: String| Err(format!("an identifier can be made from {from}, which is not ASCII"));
	o.outcome(0x20000 | c.kind as u64);
	match c.kind & 3 {
		0 => {
			let b = c.n as u8;
			for x in [Singleton::new(b).ok(), Singleton::try_from(b).ok()].into_iter().flatten() {
				made(x, format!("the byte {b:#04x}"))?;
			}
		}
		1 => {
			let Some(ch) = char::from_u32(c.n as u32) else { return Ok(()) };
			if let Ok(x) = Singleton::try_from(ch) {
				if !ch.is_ascii() {
					return no(format!("{ch:?}"));
				}
				made(x, format!("{ch:?}"))?;
			}
		}
		2 => {
			let Ok(s) = std::str::from_utf8(c.a) else { return Ok(()) };
			let x = Singleton::from_string(s).ok();
			#[cfg(feature = "owned")]
			let x = x.or(s.parse::<Singleton>().ok());
			if let Some(x) = x {
				if !s.is_ascii() {
					return no(format!("{s:?}"));
				}
				made(x, format!("{s:?}"))?;
			}
		}
		_ => {
			let (Ok(x), Some(ch)) = (Singleton::new((c.n >> 32) as u8), char::from_u32(c.n as u32)) else { return Ok(()) };
			if !ch.is_ascii() && (x == ch || u8::try_from(ch).is_ok_and(|b| x == b)) {
				return Err(format!("the identifier {x} equals {ch:?}, which is not ASCII"));
			}
		}
	}
	Ok(())
}
/// Whatever is accepted is ASCII and shown as such.
pub fn bytes_sound(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	if ty == spec::GF {
		o.validated += 1;
		for t in [GrandfatheredLangTag::new(c.a).ok(), GrandfatheredLangTag::try_from(c.a).ok()].into_iter().flatten() {
			if !c.a.is_ascii() || !t.as_str().is_ascii() {
				return Err(format!("GrandfatheredLangTag accepts {:?}", show(c.a)));
			}
		}
		return Ok(());
	}
	if c.kind & COMPARED != 0 {
		return never_taken(c, o);
	}
	if c.kind & IDENT != 0 {
		return ident_sound(c, o);
	}
	if ty >= TYPES.len() {
		return Ok(());
	}
	o.cover(ty, c.a);
	o.transitions += 1;
	let t = &TYPES[ty];
	let ascii = c.a.is_ascii();
	let mut r = Ok(());
	let mut n = 0;
	let mut any = false;
	let mut f = |name: &'static str, e: Entry| {
		n += 1;
		let yes = match e {
			Entry::Yes(..) => true,
			Entry::Bool(b) => b,
			_ => false,
		};
		any |= yes;
		if yes && !ascii && r.is_ok() {
			r = Err(format!("{}: {name} accepts the bytes {:?}, which are not ASCII{}", t.name, show(c.a), if std::str::from_utf8(c.a).is_err() { " (not even UTF-8)" } else { "" }));
		}
		if let Entry::Yes(text, _) = e {
			if !text && r.is_ok() {
				r = Err(format!("{}: {name} gives a value whose bytes differ from {:?}", t.name, show(c.a)));
			}
		}
	};
	if c.n == ONLY_NEW {
		let y = (t.accept)(c.a);
		f("new", if y { Entry::Bool(true) } else { Entry::No(true) });
	} else {
		(t.entries)(c.a, &mut f);
	}
	o.validated += n;
	o.outcome((ty as u64) << 8 | (any as u64) << 1 | ascii as u64);
	o.sample(|| format!("{} {:?}: {}", t.name, show(c.a), if any { "accepted" } else { "rejected" }));
	r?;
	#[cfg(all(feature = "serde", feature = "owned"))]
	if any {
		(t.serde)(c.a, true)?;
	}
	Ok(())
}

pub fn c03(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in 0..=15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let name = TYPES.get(ty).map_or("GrandfatheredLangTag", |t| t.name);
		v.push(dom(format!("{name}: all byte strings of at most {} bytes", if thorough { 3 } else { 2 }), false, move |s| {
			for a in 0..=255u8 {
				if !s.mine() {
					continue;
				}
				s.exec(Case { kind: k, a: &[a], b: &[], c: &[], n: 0 });
				for b in 0..=255u8 {
					s.exec(Case { kind: k, a: &[a, b], b: &[], c: &[], n: if a >= 0x80 || b >= 0x80 { 0 } else { ONLY_NEW } });
					if thorough {
						for c in 0..=255u8 {
							s.exec(Case { kind: k, a: &[a, b, c], b: &[], c: &[], n: ONLY_NEW });
						}
					}
				}
			}
		}));
		v.push(dom(format!("{name}: every live transition with its byte encoded otherwise"), false, move |s| {
			let mut w = vec![];
			for st in 0..d.len() {
				for c in tag_bytes() {
					let t = d.step(st as u16, c);
					if t == d.dead || !s.mine() {
						continue;
					}
					bad_encodings(c, &mut |e| {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.extend_from_slice(e);
						w.extend_from_slice(&d.finish[t as usize]);
						s.exec(Case { kind: k, a: &w, b: &[], c: &[], n: 0 });
					});
				}
			}
		}));
		v.push(dom(format!("{name}: every position of accepted words with other encodings and all bytes"), false, move |s| {
			let mut x = vec![];
			let mut words = vec![];
			if ty == spec::GF {
				words.extend(GRANDFATHERED.iter().map(|g| g.0.as_bytes().to_vec()));
			} else {
				subtag_words(d, &REPS_SMALL, if thorough { 4 } else { 3 }, &mut |w, a| {
					if a {
						words.push(w.to_vec())
					}
				});
				pumped(ty, &[3, 9, 30], &mut |w| words.push(w.to_vec()));
			}
			for w in &words {
				if !s.mine() {
					continue;
				}
				s.exec(Case { kind: k, a: w, b: &[], c: &[], n: 0 });
				for i in 0..w.len() {
					if thorough || w.len() < 16 || i % 5 == 0 || i + 2 > w.len() {
						bad_encodings(w[i], &mut |e| {
							x.clear();
							x.extend_from_slice(&w[..i]);
							x.extend_from_slice(e);
							x.extend_from_slice(&w[i + 1..]);
							s.exec(Case { kind: k, a: &x, b: &[], c: &[], n: ONLY_NEW });
						});
					}
					x.clear();
					x.extend_from_slice(w);
					for b in 0x80..=0xffu8 {
						x[i] = b;
						s.exec(Case { kind: k, a: &x, b: &[], c: &[], n: ONLY_NEW });
					}
				}
				// the whole text in another encoding
				for hi in [0u32, 1] {
					x.clear();
					for c in w {
						if hi == 0 {
							x.extend_from_slice(&[0xc0 | c >> 6, 0x80 | c & 0x3f]);
						} else {
							x.extend_from_slice(&[0xe0, 0x80 | c >> 6, 0x80 | c & 0x3f]);
						}
					}
					s.exec(Case { kind: k, a: &x, b: &[], c: &[], n: 0 });
				}
			}
		}));
		if ty < 15 {
			v.push(dom(format!("{name}: damage deep inside long values"), false, move |s| {
				let mut words = vec![];
				pumped(ty, &[40, 300], &mut |w| words.push(w.to_vec()));
				let mut x = vec![];
				for w in &words {
					if !s.mine() {
						continue;
					}
					for i in 0..w.len() {
						x.clear();
						x.extend_from_slice(w);
						for b in [w[i] | 0x80, 0x80, 0xff] {
							x[i] = b;
							s.exec(Case { kind: k, a: &x, b: &[], c: &[], n: ONLY_NEW });
						}
						for e in [[0xc0 | w[i] >> 6, 0x80 | w[i] & 0x3f]] {
							x.clear();
							x.extend_from_slice(&w[..i]);
							x.extend_from_slice(&e);
							x.extend_from_slice(&w[i + 1..]);
							s.exec(Case { kind: k, a: &x, b: &[], c: &[], n: ONLY_NEW });
						}
					}
				}
			}));
			v.push(dom(format!("{name}: damage far inside very long values"), false, move |s| {
				let mut words = vec![];
				let sz: &[usize] = if thorough { &[600, 1025, 8200, 32769, 65537, 200_000, 1_000_000] } else { &[1025, 8200, 65537] };
				pumped(ty, sz, &mut |w| words.push(w.to_vec()));
				let mut x = vec![];
				for w in &words {
					if w.len() < 600 || !s.mine() {
						continue;
					}
					// about the powers of two, and the ends
					let mut at: Vec<usize> = (0..5).chain(w.len() - 20..w.len()).collect();
					for p in 5..24 {
						at.extend((1usize << p) - 1..=(1 << p) + 1);
					}
					at.push(w.len() / 2);
					for i in at.into_iter().filter(|i| *i < w.len()) {
						for e in [&[w[i] | 0x80][..], &[0xc0 | w[i] >> 6, 0x80 | w[i] & 0x3f], &[0xe0, 0x80 | w[i] >> 6, 0x80 | w[i] & 0x3f], &[0xf0, 0x80, 0x80 | w[i] >> 6, 0x80 | w[i] & 0x3f]] {
							x.clear();
							x.extend_from_slice(&w[..i]);
							x.extend_from_slice(e);
							x.extend_from_slice(&w[i + 1..]);
							s.exec(Case { kind: k, a: &x, b: &[], c: &[], n: ONLY_NEW });
						}
					}
				}
			}));
			v.push(dom(format!("{name}: values compared with other encodings of their text"), false, move |s| {
				let mut words = crate::p_cmp::long_bases(ty);
				words.extend(crate::p_cmp::vocabulary(ty, if thorough { 300 } else { 60 }));
				let mut x = vec![];
				for w in &words {
					if w.len() > 400 || !s.mine() {
						continue;
					}
					for i in 0..w.len() {
						bad_encodings(w[i], &mut |e| {
							x.clear();
							x.extend_from_slice(&w[..i]);
							x.extend_from_slice(e);
							x.extend_from_slice(&w[i + 1..]);
							s.exec(Case { kind: COMPARED | k, a: w, b: &x, c: &[], n: 0 });
						});
						for b in 0x80..=0xffu8 {
							x.clear();
							x.extend_from_slice(w);
							x[i] = b;
							s.exec(Case { kind: COMPARED | k, a: w, b: &x, c: &[], n: 0 });
						}
					}
				}
			}));
		}
	}
	let z = |kind, n| Case { kind: IDENT | kind, a: &[], b: &[], c: &[], n };
	v.push(dom("extension identifiers: all bytes, all characters, all identifiers with all characters", false, move |s| {
		(0..256).for_each(|n| s.put(z(0, n)));
		for h in 0..0x110u64 {
			if s.mine() {
				for c in h << 12..(h + 1) << 12 {
					s.exec(z(1, c));
					if let Some(ch) = char::from_u32(c as u32) {
						s.exec(Case { kind: IDENT | 2, a: ch.encode_utf8(&mut [0; 4]).as_bytes(), b: &[], c: &[], n: 0 });
					}
					for a in b'0'..=b'z' {
						if a.is_ascii_alphanumeric() {
							s.exec(z(3, (a as u64) << 32 | c));
						}
					}
				}
			}
		}
	}));
	v
}

// ---------------------------------------------------------------- C17

pub fn grandfathered(c: &Case, o: &mut Obs) -> Result<(), String> {
	let w = c.a;
	let want = crate::obs::gf_of(w);
	let new = GrandfatheredLangTag::new(w);
	let try_from = GrandfatheredLangTag::try_from(w);
	let text = std::str::from_utf8(w).ok();
	o.validated += 3;
	if let Some(i) = want {
		o.cover(spec::GF, w);
		o.outcome(i as u64);
	} else {
		o.outcome(1000);
	}
	o.sample(|| format!("{:?} -> {:?}", show(w), want.map(|i| GRANDFATHERED[i].0)));
	let (rfc, lang) = match want {
		None => {
			if let Ok(t) = new {
				return Err(format!("{:?} parses as the grandfathered tag {t}", show(w)));
			}
			if let Ok(t) = try_from {
				return Err(format!("{:?} converts to the grandfathered tag {t}", show(w)));
			}
			let back = new.err();
			if back != Some(w) {
				return Err(format!("the error for {:?} holds {:?}", show(w), back));
			}
			let back = try_from.err().map(|e| e.0);
			if back != Some(w) {
				return Err(format!("the conversion error for {:?} holds {:?}", show(w), back));
			}
			if let Some(s) = text {
				if GrandfatheredLangTag::new(s).is_ok() || GrandfatheredLangTag::new(s.to_string()).is_ok() {
					return Err(format!("{s:?} parses as a grandfathered tag (from a string)"));
				}
			}
			return Ok(());
		}
		Some(i) => GRANDFATHERED[i],
	};
	let t = new.map_err(|_| format!("{:?} does not parse", show(w)))?;
	let u = try_from.map_err(|_| format!("{:?} does not convert", show(w)))?;
	let s = text.ok_or("not a string")?;
	let v = GrandfatheredLangTag::new(s).map_err(|_| format!("{s:?} does not parse from a string"))?;
	if t != u || t != v || t.cmp(&u).is_ne() || crate::types::log_of(&t) != crate::types::log_of(&v) {
		return Err(format!("{s:?} parses to different values"));
	}
	for (n, x) in [("as_str", t.as_str().to_string()), ("Display", t.to_string()), ("as_bytes", String::from_utf8_lossy(t.as_bytes()).into_owned())] {
		if x != rfc {
			return Err(format!("{s:?} parses to a value with {n} {x:?}, not {rfc:?}"));
		}
	}
	if format!("[{t:>14}|{t:<3}]") != format!("[{rfc:>14}|{rfc:<3}]") {
		// padding flags are honoured as for strings
		o.note("display ignores padding", 1);
	}
	if GrandfatheredLangTag::new(t.as_str()).ok() != Some(t) {
		return Err(format!("{rfc:?} does not parse back"));
	}
	if t.language().map(|l| l.as_str()) != lang {
		return Err(format!("the language of {rfc:?} is {:?}, not {lang:?}", t.language().map(|l| l.as_str())));
	}
	if let Some(l) = t.language() {
		if langtag::Language::new(l.as_str()).is_err() {
			return Err(format!("the language of {rfc:?} is not well-formed"));
		}
	}
	let l = langtag::LangTag::new(w).map_err(|_| format!("{s:?} is not accepted as a language tag"))?;
	if l.as_grandfathered() != Some(t) || !l.is_grandfathered() {
		return Err(format!("the language tag {s:?} is not seen as grandfathered"));
	}
	let pos: Vec<usize> = (0..langtag::GRANDFATHERED.len()).filter(|i| langtag::GRANDFATHERED[*i].as_str() == rfc).collect();
	if pos.len() != 1 || langtag::GRANDFATHERED.len() != 26 || langtag::GRANDFATHERED[pos[0]] != t {
		return Err(format!("{rfc:?} is listed {} times among {}", pos.len(), langtag::GRANDFATHERED.len()));
	}
	// distinct tags are distinct values
	for g in langtag::GRANDFATHERED {
		let same = g.as_str() == rfc;
		if (g == t) != same || g.cmp(&t).is_eq() != same || (t.cmp(&g) != g.cmp(&t).reverse()) {
			return Err(format!("{rfc:?} and {g} compare wrongly"));
		}
	}
	Ok(())
}
pub fn c17(thorough: bool) -> Vec<Dom> {
	let d = &dfas()[spec::GF];
	vec![
		dom("all 26 tags, every casing", true, move |s| {
			for (g, _) in GRANDFATHERED {
				let w = g.as_bytes();
				let pos: Vec<usize> = (0..w.len()).filter(|&i| w[i].is_ascii_alphabetic()).collect();
				for m in 0..(1u32 << pos.len()) {
					let mut x = w.to_vec();
					for (k, &i) in pos.iter().enumerate() {
						if m >> k & 1 == 1 {
							x[i] ^= 0x20;
						}
					}
					s.word(0, &x);
				}
			}
		}),
		dom("near misses", true, move |s| near_misses(thorough, &mut |w| s.word(0, w))),
		dom("two substitutions within a tag", false, move |s| {
			let bytes: Vec<u8> = if thorough { (0..=255).collect() } else { b"abgikmnoqtxyzAZ019-_\x80 ".to_vec() };
			for (g, _) in GRANDFATHERED {
				let w = g.as_bytes();
				for i in 0..w.len() {
					if !s.mine() {
						continue;
					}
					let mut x = w.to_vec();
					for j in i + 1..w.len() {
						for &a in &bytes {
							for &b in &bytes {
								x[i] = a;
								x[j] = b;
								s.exec(Case { kind: 0, a: &x, b: &[], c: &[], n: 0 });
							}
						}
						x[j] = w[j];
					}
				}
			}
		}),
		dom("every state of the model x every byte x every completion", false, move |s| {
			let ws = d.wset();
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					if !s.mine() {
						continue;
					}
					for x in &ws {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.push(b);
						w.extend_from_slice(x);
						s.exec(Case { kind: 0, a: &w, b: &[], c: &[], n: 0 });
						if thorough {
							for &b2 in &tag_bytes() {
								w.clear();
								w.extend_from_slice(&d.access[st]);
								w.extend_from_slice(&[b, b2]);
								w.extend_from_slice(x);
								s.exec(Case { kind: 0, a: &w, b: &[], c: &[], n: 0 });
							}
						}
					}
				}
			}
		}),
		dom("all strings of at most 2 bytes, and prefixes and suffixes of the tags", true, move |s| {
			let all: Vec<u8> = (0..=255).collect();
			all_words(&all, 2, &mut |w| s.word(0, w));
			for (g, _) in GRANDFATHERED {
				for i in 0..=g.len() {
					for j in i..=g.len() {
						s.word(0, g[i..j].as_bytes());
					}
				}
			}
		}),
	]
}

// ---------------------------------------------------------------- C18

/// Errors of the parsers that are not parsers of string types.
fn other_errors(w: &[u8]) -> Result<(), String> {
	let bad = |n: &str| Err(format!("the error of {n} does not hold the input {:?}", show(w)));
	if GrandfatheredLangTag::new(w).is_err_and(|e| e != w) || GrandfatheredLangTag::try_from(w).is_err_and(|e| e.0 != w) || GrandfatheredLangTag::new(w.to_vec()).is_err_and(|e| e != w) {
		return bad("GrandfatheredLangTag");
	}
	if let &[b] = w {
		if Singleton::new(b).is_err_and(|e| e.0 != b) || Singleton::try_from(b).is_err_and(|e| e.0 != b) {
			return bad("Singleton (byte)");
		}
		if Singleton::new(b).is_ok_and(|s| s.unwrap() != b || s.to_string().as_bytes() != w) {
			return Err(format!("the identifier {:?} shows another character", show(w)));
		}
	}
	let Ok(s) = std::str::from_utf8(w) else { return Ok(()) };
	if GrandfatheredLangTag::new(s).is_err_and(|e| e != s) || GrandfatheredLangTag::new(s.to_string()).is_err_and(|e| e != s) {
		return bad("GrandfatheredLangTag (string)");
	}
	if Singleton::from_string(s).is_err_and(|e| e.0 != s) || s.parse::<Singleton>().is_err_and(|e| e.0 != s) {
		return bad("Singleton (string)");
	}
	match (Singleton::from_string(s), s.parse::<Singleton>()) {
		(Ok(x), Ok(y)) if x.to_string() != s || y.to_string() != s => return Err(format!("the identifier {s:?} displays {x}, {y}")),
		_ => {}
	}
	let mut chars = s.chars();
	if let (Some(ch), None) = (chars.next(), chars.next()) {
		if Singleton::try_from(ch).is_err_and(|e| e.0 != ch) {
			return bad("Singleton (character)");
		}
	}
	Ok(())
}
const OTHER: u16 = 0x50;
pub fn text(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.kind == OTHER {
		o.validated += 8;
		return other_errors(c.a);
	}
	let ty = c.kind as usize;
	if ty >= TYPES.len() {
		return Ok(());
	}
	let t = &TYPES[ty];
	let mut r = Ok(());
	let mut n = 0;
	let mut acc = false;
	(t.entries)(c.a, &mut |name, e| {
		n += 1;
		let bad = match e {
			Entry::No(same) => !same,
			Entry::Yes(text, place) => {
				acc = true;
				!text || !place
			}
			_ => false,
		};
		if bad && r.is_ok() {
			r = Err(match e {
				Entry::No(_) => format!("{}: the error of {name} does not hold the input {:?}", t.name, show(c.a)),
				Entry::Yes(true, _) => format!("{}: {name} does not keep {:?} in place", t.name, show(c.a)),
				_ => format!("{}: {name} alters the text {:?}", t.name, show(c.a)),
			});
		}
	});
	(t.texts)(c.a, &mut |name, ok| {
		n += 1;
		if !ok && r.is_ok() {
			r = Err(format!("{}: {name} does not show the text {:?}", t.name, show(c.a)));
		}
	});
	if acc {
		o.cover(ty, c.a);
	}
	o.validated += n;
	o.outcome((ty as u64) << 32 | (acc as u64) << 31 | dfas()[ty].run(0, c.a) as u64);
	o.sample(|| format!("{} {:?}", t.name, show(c.a)));
	r
}
pub fn c18(thorough: bool) -> Vec<Dom> {
	let mut v = vec![
		dom("identifiers and grandfathered tags: short inputs", true, move |s| {
			let all: Vec<u8> = (0..=255).collect();
			all_words(&all, 2, &mut |w| s.word(OTHER, w));
			all_words(b"aXx9-_\xc3\0 ", if thorough { 6 } else { 4 }, &mut |w| s.word(OTHER, w));
			let mut buf = [0; 4];
			for ch in (0..0x110000).filter_map(char::from_u32) {
				s.word(OTHER, ch.encode_utf8(&mut buf).as_bytes());
			}
		}),
		dom("identifiers and grandfathered tags: near misses", true, move |s| near_misses(thorough, &mut |w| s.word(OTHER, w))),
	];
	for ty in 0..15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let n = TYPES[ty].name;
		v.push(dom(format!("{n}: accepted values"), true, move |s| {
			type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.word(k, w));
			codes(ty, thorough, &mut |w| s.word(k, w));
		}));
		v.push(dom(format!("{n}: letter cases of accepted values"), true, move |s| {
			subtag_words(d, &REPS_TINY, if thorough { 5 } else { 3 }, &mut |w, a| {
				if a {
					for x in casings(w) {
						s.word(k, &x);
					}
				}
			});
			let mut ends = |w: &[u8]| few_casings(w, &mut |x| s.word(k, x));
			transition_singles(d, &tag_bytes(), &mut ends);
		}));
		v.push(dom(format!("{n}: rejected inputs"), true, move |s| {
			let all: Vec<u8> = (0..=255).collect();
			all_words(&all, 1, &mut |w| s.word(k, w));
			all_words(b"aZx9-_\xc3\0 ", if thorough { 5 } else { 4 }, &mut |w| s.word(k, w));
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					w.clear();
					w.extend_from_slice(&d.access[st]);
					w.push(b);
					s.word(k, &w);
					w.extend_from_slice(b"-ABcd");
					s.word(k, &w);
				}
			}
			pumped(ty, &[10, 300, 5000], &mut |w| {
				let mut x = w.to_vec();
				x.push(b'_');
				s.word(k, &x);
				let l = x.len();
				x[l - 1] = 0xff;
				s.word(k, &x);
			});
		}));
	}
	v
}

/// Self-check of the two models against each other (not on the library).
pub fn selftest() -> Result<u64, String> {
	let mut d = Dec::default();
	let mut n = 0;
	let mut bad = None;
	for ty in 0..=15usize {
		let m = &dfas()[ty];
		let mut f = |w: &[u8], _: bool| {
			n += 1;
			if m.accepts(w) != spec::parser_accepts(ty, w, &mut d) && bad.is_none() {
				bad = Some(format!("the two models of {} disagree on {:?}", spec::RULES[ty], show(w)));
			}
		};
		live_words(m, b"aZx1-", 9, &mut f);
		subtag_words(m, &REPS, 4, &mut f);
		all_words(b"aAxX0-_", 6, &mut |w| f(w, true));
		let ws = m.wset();
		let mut w = vec![];
		for st in 0..m.len() {
			for b in 0..=255u8 {
				for x in &ws {
					w.clear();
					w.extend_from_slice(&m.access[st]);
					w.push(b);
					w.extend_from_slice(x);
					f(&w, true);
				}
			}
		}
		near_misses(false, &mut |w| f(w, true));
	}
	match bad {
		Some(b) => Err(b),
		None => Ok(n),
	}
}
