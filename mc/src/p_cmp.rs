//! Comparisons: C08, C09, C10, C11.
use crate::dom::*;
use crate::run::*;
use crate::spec::{self, dfas};
use crate::types::TYPES;
use core::cmp::Ordering;

/// Accepted words of a type, of many lengths and letter cases.
pub fn vocabulary(ty: usize, max: usize) -> Vec<Vec<u8>> {
	let d = &dfas()[ty];
	let mut v: Vec<Vec<u8>> = vec![];
	let mut f = |w: &[u8], a: bool| {
		if a {
			v.push(w.to_vec())
		}
	};
	live_words(d, b"aB1-xZ", if ty == spec::PUSUB || ty == spec::EXTSUB { 4 } else { 5 }, &mut f);
	live_words(d, b"aA-", 8, &mut f);
	subtag_words(d, &[b"ab", b"aB", b"ac", b"abc", b"ABC", b"abd", b"a", b"B", b"x", b"123", b"abcde", b"abcdE", b"1abc", b"Latn", b"latm"], 3, &mut f);
	subtag_words(d, &REPS_TINY, 4, &mut f);
	let mut g = |w: &[u8]| few_casings(w, &mut |x| v.push(x.to_vec()));
	subtag_words(d, &REPS, 2, &mut |w, a| {
		if a {
			g(w)
		}
	});
	pumped(ty, &[1, 2, 3, 4, 5, 6, 7, 8, 30, 31, 32, 33, 34], &mut g);
	if ty == spec::LT {
		for (t, _) in spec::GRANDFATHERED {
			v.push(t.as_bytes().to_vec());
			v.push(t.to_ascii_uppercase().into_bytes());
		}
	}
	v.sort();
	v.dedup();
	// keep a spread over the whole set when it is too big
	if v.len() > max {
		let n = v.len();
		v = (0..max).map(|i| v[i * n / max].clone()).collect();
	}
	v
}

/// Words in which single positions are varied.
pub fn long_bases(ty: usize) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	let d = &dfas()[ty];
	let s: &[&str] = match ty {
		spec::LT | spec::NORMAL => &["fr-abc-Latn-FR-abcde-1abc-a-bb-cc-x-yy-z", "fr", "abc", "abcdefgh", "de-Latn-419", "fr-abcdefgh-a-abcdefgh-x-abcdefgh", "sl-rozaj-biske-1994-u-co-phonebk-x-a"],
		spec::PU => &["x-a", "x-abcdefgh-1-ab", "X-a-b-c-d-e-f-g-h"],
		spec::PUSUB => &["a", "ab", "abcd", "abcdefgh", "1b2d"],
		spec::LANG => &["ab", "abc", "abcd", "abcdefgh", "ab-cde", "abc-def-ghi-jkl"],
		spec::PRIMARY => &["ab", "abc", "abcd", "abcdefgh"],
		spec::EXTLANG => &["abc", "abc-def", "abc-def-ghi"],
		spec::EXTLANGTAG => &["abc"],
		spec::SCRIPT => &["Latn"],
		spec::REGION => &["FR", "419"],
		spec::VARIANT => &["abcde", "1abc", "abcdefgh", "1996"],
		spec::VARIANTS => &["abcde", "1abc-abcdefgh", "abcde-bcdef-1cde-defgh"],
		spec::EXT => &["a-bb", "1-ab-cdefghij-12", "z-abcdefgh-abcdefgh-ab"],
		spec::EXTSUB => &["ab", "abc", "abcdefgh", "12"],
		spec::EXTS => &["a-bb", "a-bb-b-cc-dd-1-abcdefgh", "z-aa-y-bb-w-cc"],
		_ => &[],
	};
	v.extend(s.iter().map(|s| s.as_bytes().to_vec()));
	pumped(ty, &[4, 16], &mut |w| {
		if w.len() < 150 {
			v.push(w.to_vec())
		}
	});
	v.retain(|w| d.accepts(w));
	v
}

/// Pairs of accepted values for the comparison properties.
pub fn pair_doms(ty: usize, thorough: bool) -> Vec<Dom> {
	let k = ty as u16;
	let name = TYPES[ty].name;
	let d = &dfas()[ty];
	let mut v = vec![];
	v.push(dom(format!("{name}: all pairs of a vocabulary"), false, move |s| {
		let voc = vocabulary(ty, if thorough { 2500 } else { 700 });
		for a in &voc {
			if !s.mine() {
				continue;
			}
			for b in &voc {
				s.exec(Case { kind: k, a, b, c: &[], n: 0 });
			}
		}
	}));
	v.push(dom(format!("{name}: all pairs of tag bytes at every position"), false, move |s| {
		let bytes = tag_bytes();
		for w in long_bases(ty) {
			for i in 0..w.len() {
				if !s.mine() {
					continue;
				}
				let mut x = w.clone();
				let mut ok: Vec<Vec<u8>> = vec![];
				for &b in &bytes {
					x[i] = b;
					if d.accepts(&x) {
						ok.push(x.clone());
					}
				}
				for a in &ok {
					for b in &ok {
						s.exec(Case { kind: k, a, b, c: &[], n: 0 });
						// the rest in the other case
						if thorough || (a[i] < b[i] && (i + a[i] as usize + b[i] as usize) % 4 == 0) {
							let mut y: Vec<u8> = b.iter().map(|c| if c.is_ascii_alphabetic() { c ^ 0x20 } else { *c }).collect();
							y[i] = b[i];
							s.exec(Case { kind: k, a, b: &y, c: &[], n: 0 });
						}
					}
				}
			}
		}
	}));
	v.push(dom(format!("{name}: differences at two positions, in opposite directions"), false, move |s| {
		for w in long_bases(ty) {
			for i in 0..w.len() {
				if !s.mine() {
					continue;
				}
				for j in i + 1..w.len() {
					let variants = |p: usize| -> Vec<u8> {
						let c = w[p];
						if c == b'-' { vec![b'-'] } else if c.is_ascii_digit() { vec![b'0', b'9'] } else if thorough { vec![b'b', b'Y', b'c', b'C', c, c ^ 0x20] } else { vec![b'b', b'Y', c ^ 0x20] }
					};
					let (vi, vj) = (variants(i), variants(j));
					let mut ws = vec![];
					for &a in &vi {
						for &b in &vj {
							let mut x = w.clone();
							x[i] = a;
							x[j] = b;
							if d.accepts(&x) {
								ws.push(x);
							}
						}
					}
					ws.sort();
					ws.dedup();
					for a in &ws {
						for b in &ws {
							// single differences are covered above
							if thorough || (a[i] != b[i] && a[j] != b[j]) {
								s.exec(Case { kind: k, a, b, c: &[], n: 0 });
							}
						}
					}
				}
			}
		}
	}));
	v.push(dom(format!("{name}: prefixes, extensions and lengths up to 600, every position of long values"), false, move |s| {
		let mut bases = long_bases(ty);
		pumped(ty, &[60, 65, 130], &mut |w| bases.push(w.to_vec()));
		for w in &bases {
			if !s.mine() {
				continue;
			}
			let mut pre: Vec<&[u8]> = (0..=w.len()).map(|i| &w[..i]).filter(|p| d.accepts(p)).collect();
			if pre.len() > 80 {
				let n = pre.len();
				pre = (0..80).map(|i| pre[i * (n - 1) / 79]).collect();
			}
			for a in &pre {
				for b in &pre {
					s.exec(Case { kind: k, a, b, c: &[], n: 0 });
					let y = b.to_ascii_uppercase();
					s.exec(Case { kind: k, a, b: &y, c: &[], n: 0 });
				}
			}
			for i in 0..w.len() {
				for b in [b'a', b'Z', b'q', b'0', b'9', w[i] ^ 0x20] {
					let mut x = w.clone();
					x[i] = b;
					if d.accepts(&x) {
						s.exec(Case { kind: k, a: w, b: &x, c: &[], n: 0 });
						s.exec(Case { kind: k, a: &x, b: w, c: &[], n: 0 });
					}
				}
			}
		}
	}));
	v.push(dom(format!("{name}: long values: lengths around powers of two, differences near both ends and in the middle"), false, move |s| {
		let mut sz = vec![20usize, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 4096, 9000];
		if thorough {
			sz.extend([21846, 32768, 65536, 70000, 131072]);
		}
		let mut words: Vec<Vec<u8>> = vec![];
		pumped(ty, &sz, &mut |w| words.push(w.to_vec()));
		for (i, w) in words.iter().enumerate() {
			if !s.mine() {
				continue;
			}
			let up = w.to_ascii_uppercase();
			s.exec(Case { kind: k, a: w, b: w, c: &[], n: 0 });
			s.exec(Case { kind: k, a: w, b: &up, c: &[], n: 0 });
			for j in i.saturating_sub(3)..(i + 4).min(words.len()) {
				s.exec(Case { kind: k, a: w, b: &words[j], c: &[], n: 0 });
				s.exec(Case { kind: k, a: &up, b: &words[j], c: &[], n: 0 });
			}
			let l = w.len();
			for p in [l - 1, l - 2, l - 3, l / 2, l / 2 + 1, l / 2 - 1, l / 3, 255, 256, 257, 127, 128, 1023, 1024, 65535, 65536] {
				if p < l {
					for b in [b'q', b'0', b'Z', w[p] ^ 0x20] {
						let mut x = w.clone();
						x[p] = b;
						if d.accepts(&x) {
							s.exec(Case { kind: k, a: w, b: &x, c: &[], n: 0 });
							s.exec(Case { kind: k, a: &x, b: &up, c: &[], n: 0 });
						}
					}
				}
			}
		}
		// lengths that agree modulo 2^8 and 2^16
		if matches!(ty, spec::LT | spec::NORMAL | spec::PU | spec::VARIANTS | spec::EXT | spec::EXTS) {
			let (p, f) = match ty {
				spec::LT | spec::NORMAL => ("fr", "-abcdefgh"),
				spec::PU => ("x-a", "-abcdefgh"),
				spec::VARIANTS => ("abcde", "-abcdefgh"),
				_ => ("a-bb", "-abcdefgh"),
			};
			// 9 bytes per subtag: 256 subtags are 9 * 256 bytes
			for n in [0usize, 1, 2] {
				for m in [256usize, 512, 65536 / 4] {
					if !s.mine() || (m > 1000 && !thorough) {
						continue;
					}
					let a = format!("{p}{}", f.repeat(n));
					let b = format!("{p}{}", f.repeat(n + m));
					s.exec(Case { kind: k, a: a.as_bytes(), b: b.as_bytes(), c: &[], n: 0 });
					s.exec(Case { kind: k, a: b.as_bytes(), b: a.as_bytes(), c: &[], n: 0 });
				}
			}
		}
	}));
	v.push(alignment_dom(ty, thorough, false));
	v
}

/// Kind flag: the texts a and b lie n >> 4 and n & 15 bytes after a multiple of 16.
const ALIGNED: u16 = 0x2000;
fn aligned(c: &Case, o: &mut Obs, check: fn(&Case, &mut Obs) -> Result<(), String>) -> Result<(), String> {
	let (i, j) = ((c.n >> 4 & 15) as usize, (c.n & 15) as usize);
	let mut x = vec![0u128; c.a.len() / 16 + 2];
	let mut y = vec![0u128; c.b.len() / 16 + 2];
	fn place<'a>(v: &'a mut [u128], at: usize, w: &[u8]) -> &'a [u8] {
		let l = v.len() * 16;
		// u128 has no padding and any alignment of at least that of u8
		let v = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, l) };
		v[at..at + w.len()].copy_from_slice(w);
		&v[at..at + w.len()]
	}
	let (a, b) = (place(&mut x, i, c.a), place(&mut y, j, c.b));
	check(&Case { kind: c.kind & !ALIGNED, a, b, c: &[], n: 0 }, o).map_err(|m| format!("{m} (texts at addresses {i} and {j} modulo 16)"))
}
/// Differences near both ends of texts of many lengths, at every pair of alignments.
fn alignment_dom(ty: usize, thorough: bool, equal: bool) -> Dom {
	let k = ty as u16 | ALIGNED;
	let d = &dfas()[ty];
	dom(format!("{}: texts of many lengths at all alignments", TYPES[ty].name), false, move |s| {
		let mut bases = long_bases(ty);
		pumped(ty, &[1, 2, 3, 4, 5, 7], &mut |w| bases.push(w.to_vec()));
		bases.retain(|w| w.len() <= if thorough { 80 } else { 48 });
		bases.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
		bases.dedup_by_key(|w| w.len());
		for w in &bases {
			if !s.mine() {
				continue;
			}
			let up = w.to_ascii_uppercase();
			let mut others = vec![w.clone(), up.clone()];
			for p in (0..w.len()).filter(|p| thorough || *p < 2 || *p + 9 > w.len()) {
				let mut x = w.clone();
				x[p] ^= 0x20;
				if d.accepts(&x) && x[p].is_ascii_alphabetic() {
					others.push(x.clone());
				}
				if !equal {
					for b in [b'q', b'5', b'b'] {
						x[p] = b;
						if d.accepts(&x) {
							others.push(x.clone());
							break;
						}
					}
				}
			}
			for x in &others {
				for i in 0..if thorough { 16 } else { 8 } {
					for j in 0..if thorough { 16 } else { 8 } {
						s.exec(Case { kind: k, a: w, b: x, c: &[], n: i << 4 | j });
					}
				}
			}
		}
	})
}

fn valid(ty: usize, w: &[u8]) -> bool {
	ty < 15 && dfas()[ty].accepts(w) && (TYPES[ty].accept)(w)
}

// ---------------------------------------------------------------- C08

pub fn c08_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.kind & ALIGNED != 0 {
		return aligned(c, o, c08_check);
	}
	if (GFX..=KDX).contains(&c.kind) {
		return small_check(c.kind, c, o, 8);
	}
	let ty = c.kind as usize;
	if !valid(ty, c.a) || !valid(ty, c.b) {
		return Ok(());
	}
	let t = &TYPES[ty];
	let want = c.a.eq_ignore_ascii_case(c.b);
	let mut r = Ok(());
	let mut n = 0;
	(t.eqs)(c.a, c.b, &mut |op, e| {
		n += 1;
		if e != want && r.is_ok() {
			r = Err(format!("{}: {:?} and {:?}: {op} is {e}", t.name, show(c.a), show(c.b)));
		}
	});
	(t.nes)(c.a, c.b, &mut |op, e| {
		n += 1;
		if e == want && r.is_ok() {
			r = Err(format!("{}: {:?} and {:?}: {op} is {e}", t.name, show(c.a), show(c.b)));
		}
	});
	pair_cover(ty, c, o);
	o.validated += n;
	r
}
/// Marks the states of the pair model: (position class, relation).
fn pair_cover(ty: usize, c: &Case, o: &mut Obs) {
	let l = c.a.len().min(c.b.len());
	let p = (0..l).find(|&i| !c.a[i].eq_ignore_ascii_case(&c.b[i]));
	let (x, y) = match p {
		Some(i) => (c.a[i] as u64, c.b[i] as u64),
		None => (256 + (c.a.len() > l) as u64, 256 + (c.b.len() > l) as u64),
	};
	let pos = p.unwrap_or(l).min(400) as u64;
	// a state: type, position of the first difference; a transition: with the two bytes there
	o.state((ty as u64) << 32 | pos);
	let first = o.states.len();
	o.state(1 << 60 | (ty as u64) << 40 | pos << 20 | x << 10 | y);
	if o.states.len() > first {
		o.transitions += 1;
	}
	o.outcome((ty as u64) << 8 | (p.is_none() as u64) << 2 | c.a.len().cmp(&c.b.len()) as i8 as u8 as u64);
	o.sample(|| format!("{} {:?} / {:?}", TYPES[ty].name, show(c.a), show(c.b)));
}
pub fn c08(thorough: bool) -> Vec<Dom> {
	let mut v: Vec<Dom> = (0..15).flat_map(|t| pair_doms(t, thorough)).collect();
	v.extend(small_doms());
	v
}

// ---------------------------------------------------------------- values that are not texts

/// Kinds of cases on the types that are not string types.
const GFX: u16 = 0x40; // grandfathered tags of the texts a, b, c
const SGX: u16 = 0x41; // extension identifiers of the first bytes of a, b, c
const KDX: u16 = 0x42; // kinds of the tags a, b, c

fn small_laws<T: Ord + core::hash::Hash + Copy>(name: &str, v: [T; 3], text: [&[u8]; 3], o: &mut Obs, what: u8) -> Result<(), String> {
	let [a, b, c] = v;
	let (x, y, z) = (show(text[0]), show(text[1]), show(text[2]));
	let want = text[0].eq_ignore_ascii_case(text[1]);
	o.validated += 4;
	o.state(fx(name.as_bytes()) ^ fx(text[0]).rotate_left(7) ^ fx(text[1]).rotate_left(31));
	o.outcome(fx(name.as_bytes()) ^ want as u64);
	o.sample(|| format!("{name} {x:?}, {y:?}, {z:?}"));
	let err = |s: String| Err(format!("{name}: {s}"));
	match what {
		8 => {
			#[allow(clippy::nonminimal_bool)]
			if (a == b) != want || (b == a) != want || (a != b) == want || !(a == a) {
				return err(format!("{x:?} == {y:?} is {}", a == b));
			}
		}
		9 => {
			let (ab, ba, bc, ac) = (a.cmp(&b), b.cmp(&a), b.cmp(&c), a.cmp(&c));
			if ab != ba.reverse() || ab.is_eq() != want {
				return err(format!("{x:?} is {ab:?} than {y:?}, and {ba:?} the other way round"));
			}
			if a.partial_cmp(&b) != Some(ab) || (a < b) != ab.is_lt() || (a <= b) != ab.is_le() || (a > b) != ab.is_gt() || (a >= b) != ab.is_ge() {
				return err(format!("operators on {x:?} and {y:?} disagree with cmp"));
			}
			if a.max(b) != (if ab.is_gt() { a } else { b }) || a.min(b) != (if ab.is_gt() { b } else { a }) {
				return err(format!("min or max of {x:?} and {y:?} disagree with cmp"));
			}
			if ab.is_le() && bc.is_le() && (ac.is_gt() || ac.is_eq() != (ab.is_eq() && bc.is_eq())) {
				return err(format!("not transitive: {x:?} {ab:?} {y:?} {bc:?} {z:?} but {ac:?}"));
			}
		}
		_ => {
			if want && crate::types::log_of(&a) != crate::types::log_of(&b) {
				return err(format!("{x:?} and {y:?} are equal but feed different data to the hasher"));
			}
		}
	}
	Ok(())
}
fn small_check(k: u16, c: &Case, o: &mut Obs, what: u8) -> Result<(), String> {
	let texts = [c.a, c.b, c.c];
	match k {
		GFX => {
			let v = texts.map(|t| langtag::GrandfatheredLangTag::new(t).ok());
			if let [Some(x), Some(y), Some(z)] = v {
				return small_laws("GrandfatheredLangTag", [x, y, z], texts, o, what);
			}
		}
		SGX => {
			let v = texts.map(|t| t.first().and_then(|b| langtag::Singleton::new(*b).ok()));
			if let [Some(x), Some(y), Some(z)] = v {
				return small_laws("Singleton", [x, y, z], texts, o, what);
			}
		}
		_ => {
			let of = |t: &[u8]| match t {
				b"normal" => langtag::Kind::Normal,
				b"private" => langtag::Kind::PrivateUse,
				_ => langtag::Kind::Grandfathered,
			};
			return small_laws("Kind", texts.map(of), texts, o, what);
		}
	}
	Ok(())
}
fn small_doms() -> Vec<Dom> {
	let go = |k: u16, v: Vec<Vec<u8>>| {
		move |s: &mut Sink| {
			for a in &v {
				for b in &v {
					if s.mine() {
						for c in &v {
							s.exec(Case { kind: k, a, b, c, n: 0 });
						}
					}
				}
			}
		}
	};
	let mut gf = vec![];
	for (t, _) in spec::GRANDFATHERED {
		gf.push(t.as_bytes().to_vec());
		gf.push(t.to_ascii_uppercase().into_bytes());
	}
	vec![
		dom("GrandfatheredLangTag: all triples, in two cases", false, go(GFX, gf)),
		dom("Singleton: all triples", false, go(SGX, crate::obs::singletons().map(|b| vec![b]).collect())),
		dom("Kind: all triples", false, go(KDX, ["normal", "private", "grandfathered"].iter().map(|t| t.as_bytes().to_vec()).collect())),
	]
}

// ---------------------------------------------------------------- C09

const TRIPLE: u16 = 0x100;
pub fn c09_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.kind & ALIGNED != 0 {
		return aligned(c, o, c09_check);
	}
	if (GFX..=KDX).contains(&c.kind) {
		return small_check(c.kind, c, o, 9);
	}
	let ty = (c.kind & 0xff) as usize;
	if !valid(ty, c.a) || !valid(ty, c.b) {
		return Ok(());
	}
	let t = &TYPES[ty];
	if c.kind & TRIPLE != 0 {
		if !valid(ty, c.c) {
			return Ok(());
		}
		let (ab, bc, ac) = ((t.cmp)(c.a, c.b), (t.cmp)(c.b, c.c), (t.cmp)(c.a, c.c));
		o.validated += 3;
		if (ab.is_le() && bc.is_le() && (ac.is_gt() || (ac.is_eq() && (ab.is_lt() || bc.is_lt())))) || (ab.is_ge() && bc.is_ge() && (ac.is_lt() || (ac.is_eq() && (ab.is_gt() || bc.is_gt())))) {
			return Err(format!("{}: not transitive: {:?} {ab:?} {:?} {bc:?} {:?} but the first is {ac:?} than the last", t.name, show(c.a), show(c.b), show(c.c)));
		}
		return Ok(());
	}
	let o1 = (t.cmp)(c.a, c.b);
	let o2 = (t.cmp)(c.b, c.a);
	if o1 != o2.reverse() {
		return Err(format!("{}: {:?} is {o1:?} than {:?}, and {o2:?} the other way round", t.name, show(c.a), show(c.b)));
	}
	let eq = c.a.eq_ignore_ascii_case(c.b);
	if o1.is_eq() != eq {
		return Err(format!("{}: {:?} and {:?} compare {o1:?}", t.name, show(c.a), show(c.b)));
	}
	let mut r = Ok(());
	let mut n = 2;
	(t.ords)(c.a, c.b, &mut |op, x| {
		n += 1;
		if x != Some(o1) && r.is_ok() {
			r = Err(format!("{}: {:?} and {:?}: {op} is {x:?} but cmp is {o1:?}", t.name, show(c.a), show(c.b)));
		}
	});
	(t.ops)(c.a, c.b, o1, &mut |op, ok| {
		n += 1;
		if !ok && r.is_ok() {
			r = Err(format!("{}: {:?} and {:?}: {op} disagrees with cmp, which is {o1:?}", t.name, show(c.a), show(c.b)));
		}
	});
	r?;
	// blind to case
	let forms = |w: &[u8]| -> Vec<Vec<u8>> { vec![w.to_ascii_lowercase(), w.to_ascii_uppercase(), w.iter().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()] };
	if c.a.len() + c.b.len() < 3000 {
		let (fa, fb) = (forms(c.a), forms(c.b));
		for (i, j) in [(0, 0), (0, 1), (1, 2), (2, 0)] {
			let (x, y) = (&fa[i], &fb[j]);
			n += 1;
			let z = (t.cmp)(x, y);
			if z != o1 {
				return Err(format!("{}: {:?} is {o1:?} than {:?} but {:?} is {z:?} than {:?}", t.name, show(c.a), show(c.b), show(x), show(y)));
			}
		}
	}
	pair_cover(ty, c, o);
	o.validated += n;
	Ok(())
}
pub fn c09(thorough: bool) -> Vec<Dom> {
	let mut v: Vec<Dom> = (0..15).flat_map(|t| pair_doms(t, thorough)).collect();
	v.extend(small_doms());
	for ty in 0..15usize {
		let t = &TYPES[ty];
		v.push(dom(format!("{}: transitivity on all triples of a vocabulary (by ranks)", t.name), false, move |s| {
			if !s.mine() {
				return;
			}
			let mut voc = vocabulary(ty, if thorough { 3000 } else { 900 });
			for w in long_bases(ty) {
				voc.push(w.to_ascii_uppercase());
				voc.push(w);
			}
			voc.sort();
			voc.dedup();
			voc.retain(|w| valid(ty, w));
			let n = voc.len();
			let m: Vec<Vec<Ordering>> = voc.iter().map(|a| voc.iter().map(|b| (t.cmp)(a, b)).collect()).collect();
			let rank: Vec<usize> = m.iter().map(|r| r.iter().filter(|o| o.is_gt()).count()).collect();
			s.obs.note("triples decided by ranks", (n * n * n) as u64);
			s.obs.validated += (n * n) as u64;
			let triple = TRIPLE | ty as u16;
			// cmp is a total preorder on the vocabulary iff it agrees with the ranks
			for i in 0..n {
				for j in 0..n {
					if m[i][j] != rank[i].cmp(&rank[j]) {
						for k in 0..n {
							s.exec(Case { kind: triple, a: &voc[i], b: &voc[j], c: &voc[k], n: 0 });
							s.exec(Case { kind: triple, a: &voc[i], b: &voc[k], c: &voc[j], n: 0 });
							s.exec(Case { kind: triple, a: &voc[k], b: &voc[i], c: &voc[j], n: 0 });
						}
						s.exec(Case { kind: ty as u16, a: &voc[i], b: &voc[j], c: &[], n: 0 });
					}
				}
			}
			// every triple of a small part, directly
			let step = (n / 60).max(1);
			let small: Vec<&Vec<u8>> = voc.iter().step_by(step).collect();
			for a in &small {
				for b in &small {
					for c in &small {
						s.exec(Case { kind: triple, a, b, c, n: 0 });
					}
				}
			}
		}));
		v.push(dom(format!("{}: sorting and bounds agree with cmp", t.name), false, move |s| {
			if !s.mine() {
				return;
			}
			// neighbours in sorted order stay ordered against everything
			let mut voc = vocabulary(ty, 200);
			voc.retain(|w| valid(ty, w));
			// sort panics on some orders that are not total: the other domains report those
			if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| voc.sort_by(|a, b| (t.cmp)(a, b)))).is_err() {
				return;
			}
			let triple = TRIPLE | ty as u16;
			for i in 1..voc.len() {
				for w in &voc {
					s.exec(Case { kind: triple, a: &voc[i - 1], b: &voc[i], c: w, n: 0 });
				}
			}
		}));
	}
	v
}

// ---------------------------------------------------------------- C11

pub fn c11_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	if !valid(ty, c.a) {
		return Ok(());
	}
	let t = &TYPES[ty];
	let parses = dfas()[ty].accepts(c.b);
	let eq = parses && c.a.eq_ignore_ascii_case(c.b);
	let mut r = Ok(());
	let mut n = 0;
	(t.feqs)(c.a, c.b, &mut |op, e| {
		n += 1;
		if e != eq && r.is_ok() {
			r = Err(format!("{}: {:?} and the text {:?}: {op} is {e}", t.name, show(c.a), show(c.b)));
		}
	});
	let ord = parses.then(|| (t.cmp)(c.a, c.b));
	(t.fords)(c.a, c.b, &mut |op, x| {
		n += 1;
		if x != ord && r.is_ok() {
			r = Err(format!("{}: {:?} and the text {:?}: {op} is {x:?} but comparing the parsed values gives {ord:?}", t.name, show(c.a), show(c.b)));
		}
	});
	let rev = parses.then(|| (t.cmp)(c.b, c.a));
	(t.fords_rev)(c.b, c.a, &mut |op, x| {
		n += 1;
		if x != rev && r.is_ok() {
			r = Err(format!("{}: the text {:?} and {:?}: {op} is {x:?} but comparing the parsed values gives {rev:?}", t.name, show(c.b), show(c.a)));
		}
	});
	pair_cover(ty, c, o);
	o.outcome((ty as u64) << 8 | 1 << 7 | (parses as u64) << 1 | eq as u64);
	o.validated += n;
	r
}
pub fn c11(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in 0..15usize {
		let k = ty as u16;
		let name = TYPES[ty].name;
		let d = &dfas()[ty];
		v.push(dom(format!("{name}: values x vocabulary, texts of other types and ill-formed texts"), false, move |s| {
			let voc = vocabulary(ty, if thorough { 900 } else { 250 });
			let mut texts = voc.clone();
			for t in 0..15 {
				texts.extend(vocabulary(t, 25));
			}
			all_words(b"aX1-_ \xc3", 3, &mut |w| texts.push(w.to_vec()));
			texts.sort();
			texts.dedup();
			for a in &voc {
				if !s.mine() {
					continue;
				}
				for b in &texts {
					s.exec(Case { kind: k, a, b, c: &[], n: 0 });
				}
			}
		}));
		v.push(dom(format!("{name}: own text with every byte at every position, bad encodings, and edits"), false, move |s| {
			let mut bases = long_bases(ty);
			bases.extend(vocabulary(ty, if thorough { 300 } else { 60 }));
			for w in &bases {
				if !s.mine() || w.len() > 400 {
					continue;
				}
				let mut x = w.clone();
				for i in 0..w.len() {
					for b in 0..=255u8 {
						x[i] = b;
						s.exec(Case { kind: k, a: w, b: &x, c: &[], n: 0 });
					}
					x[i] = w[i];
					if i < 12 || i + 3 > w.len() || thorough {
						bad_encodings(w[i], &mut |e| {
							let y = [&w[..i], e, &w[i + 1..]].concat();
							s.exec(Case { kind: k, a: w, b: &y, c: &[], n: 0 });
						});
					}
				}
				let up = w.to_ascii_uppercase();
				s.exec(Case { kind: k, a: w, b: &up, c: &[], n: 0 });
				for i in 0..=w.len() {
					s.exec(Case { kind: k, a: w, b: &w[..i], c: &[], n: 0 });
					s.exec(Case { kind: k, a: w, b: &up[i..], c: &[], n: 0 });
					for t in [&b""[..], b"-", b" ", b"\0", b"-x", b"a", b"1", b"-x-a", b"-abcde", b"-ab", b"-abc", b"-a-bb", b"\n", b"\xc2"] {
						let y = [&w[..i], t, &w[i..]].concat();
						s.exec(Case { kind: k, a: w, b: &y, c: &[], n: 0 });
					}
				}
			}
		}));
		v.push(dom(format!("{name}: all pairs of tag bytes at every position"), false, move |s| {
			for w in long_bases(ty) {
				for i in 0..w.len() {
					if !s.mine() || w.len() > 60 {
						continue;
					}
					let mut ok: Vec<Vec<u8>> = vec![];
					let mut x = w.clone();
					for b in tag_bytes() {
						x[i] = b;
						if d.accepts(&x) {
							ok.push(x.clone());
						}
					}
					for (p, a) in ok.iter().enumerate() {
						for (q, b) in ok.iter().enumerate() {
							if thorough || (p * 7 + q) % 3 == 0 || p.abs_diff(q) == 26 {
								s.exec(Case { kind: k, a, b, c: &[], n: 0 });
							}
						}
					}
				}
			}
		}));
		v.push(dom(format!("{name}: long texts"), false, move |s| {
			let mut words: Vec<Vec<u8>> = vec![];
			pumped(ty, if thorough { &[30, 64, 256, 257, 3000, 9000, 30000] } else { &[30, 64, 256, 257, 3000, 9000] }, &mut |w| words.push(w.to_vec()));
			for w in &words {
				if !s.mine() {
					continue;
				}
				s.exec(Case { kind: k, a: w, b: w, c: &[], n: 0 });
				let up = w.to_ascii_uppercase();
				s.exec(Case { kind: k, a: w, b: &up, c: &[], n: 0 });
				for p in [w.len() - 1, w.len() / 2, 0, 1, 255, 256, 4095, 32768, 65535, 65536] {
					for b in [b'z', b'Z', b'-', b'_', 0xe1, 0x00] {
						if p < w.len() {
							let mut x = up.clone();
							x[p] = b;
							s.exec(Case { kind: k, a: w, b: &x, c: &[], n: 0 });
						}
					}
				}
			}
		}));
	}
	v
}

// ---------------------------------------------------------------- C10

/// n = 0: hashes of a and b (equal up to case); n = 1: history b on the NUL-separated keys a.
pub fn c10_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.kind & ALIGNED != 0 {
		return aligned(c, o, c10_check);
	}
	if (GFX..=KDX).contains(&c.kind) {
		return small_check(c.kind, c, o, 10);
	}
	let ty = c.kind as usize;
	if ty >= 15 {
		return Ok(());
	}
	let t = &TYPES[ty];
	#[cfg(feature = "owned")]
	if c.n >= 1 {
		let keys: Vec<&[u8]> = c.a.split(|b| *b == 0).collect();
		if keys.iter().any(|k| !valid(ty, k)) || keys.is_empty() {
			return Ok(());
		}
		let states = (t.history)(c.b, &keys, c.n)?;
		o.transitions += c.b.len() as u64;
		o.validated += c.b.len() as u64;
		o.state((ty as u64) << 56 ^ states);
		o.outcome(states);
		o.sample(|| format!("{}: keys {:?}, {} operations", t.name, keys.iter().map(|k| show(k)).collect::<Vec<_>>(), c.b.len()));
		return Ok(());
	}
	if !valid(ty, c.a) || !valid(ty, c.b) || !c.a.eq_ignore_ascii_case(c.b) {
		return Ok(());
	}
	let (x, y) = ((t.hash)(c.a), (t.hash)(c.b));
	if x != y {
		return Err(format!("{}: {:?} and {:?} are equal but feed different data to the hasher", t.name, show(c.a), show(c.b)));
	}
	let mut r = Ok(());
	for w in [c.a, c.b] {
		(t.hashes)(w, &mut |n, l| {
			o.validated += 1;
			if l != x && r.is_ok() {
				r = Err(format!("{}: {n} hashes {:?} differently", t.name, show(w)));
			}
		});
	}
	if r.is_err() {
		return r;
	}
	// one entry for both
	(t.eqs)(c.a, c.b, &mut |n, e| {
		o.validated += 1;
		if n.contains("!=") == e && r.is_ok() {
			r = Err(format!("{}: {:?} and {:?} have two entries: {n} is {e}", t.name, show(c.a), show(c.b)));
		}
	});
	if r.is_err() {
		return r;
	}
	// owned and borrowed values order alike
	(t.ords)(c.a, c.b, &mut |n, x| {
		if x != Some(Ordering::Equal) && r.is_ok() {
			r = Err(format!("{}: {:?} and {:?}: {n} is {x:?}", t.name, show(c.a), show(c.b)));
		}
	});
	o.cover(ty, c.a);
	o.validated += 2;
	o.outcome(fx(&x.0));
	o.sample(|| format!("{} {:?} / {:?}", t.name, show(c.a), show(c.b)));
	r
}
pub fn c10(thorough: bool) -> Vec<Dom> {
	let mut v = small_doms();
	for ty in 0..15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let name = TYPES[ty].name;
		v.push(alignment_dom(ty, thorough, true));
		v.push(dom(format!("{name}: hasher input of values in several cases"), true, move |s| {
			let mut put = |w: &[u8]| few_casings(w, &mut |x| s.put(Case { kind: k, a: w, b: x, c: &[], n: 0 }));
			for w in vocabulary(ty, 4000) {
				put(&w);
			}
			subtag_words(d, &REPS, if thorough { 4 } else { 3 }, &mut |w, a| {
				if a {
					put(w)
				}
			});
			transition_singles(d, &tag_bytes(), &mut put);
			pumped(ty, &[1, 2, 3, 5, 8, 9, 16, 31, 32, 33, 64, 100, 256, 1000, 3000, 9000], &mut put);
			if thorough {
				pumped(ty, &[40000, 200_000], &mut put);
			}
			for w in long_bases(ty) {
				let mut x = w.clone();
				for i in 0..w.len() {
					for b in tag_bytes() {
						x[i] = b;
						if d.accepts(&x) {
							put(&x);
						}
					}
					x[i] = w[i];
				}
			}
			for w in long_bases(ty) {
				for x in casings(&w) {
					s.put(Case { kind: k, a: &w, b: &x, c: &[], n: 0 });
				}
			}
		}));
		#[cfg(feature = "owned")]
		v.push(dom(format!("{name}: all histories of map and set operations"), false, move |s| {
			for keys in key_sets(ty) {
				let a = keys.join(&0u8);
				let nops = crate::p_maps::OPS * keys.len();
				let depth = match (thorough, keys.len()) {
					(false, 2) => 4,
					(false, _) => 3,
					(true, 2) => 5,
					(true, _) => 4,
				};
				for o1 in 0..nops as u8 {
					for o2 in 0..nops as u8 {
						if !s.mine() {
							continue;
						}
						let mut w = vec![];
						all_words(&(0..nops as u8).collect::<Vec<_>>(), depth - 2, &mut |t| {
							w.clear();
							w.extend_from_slice(&[o1, o2]);
							w.extend_from_slice(t);
							for n in 1..=crate::p_maps::MAPS {
								s.exec(Case { kind: k, a: &a, b: &w, c: &[], n });
							}
						});
					}
				}
			}
		}));
	}
	v
}
/// Sets of keys: casings of one text, near texts, prefixes, collisions.
#[cfg(feature = "owned")]
fn key_sets(ty: usize) -> Vec<Vec<Vec<u8>>> {
	let d = &dfas()[ty];
	let mut v: Vec<Vec<Vec<u8>>> = vec![];
	let b = long_bases(ty);
	for (i, w) in b.iter().take(5).enumerate() {
		let up = w.to_ascii_uppercase();
		let mut near = w.clone();
		for c in b"zq80" {
			let l = near.len();
			near[l - 1] = *c;
			if d.accepts(&near) && !near.eq_ignore_ascii_case(w) {
				break;
			}
		}
		let other = b[(i + 1) % b.len()].clone();
		let mut mixed = w.clone();
		for (i, c) in mixed.iter_mut().enumerate() {
			if c.is_ascii_alphabetic() && i % 2 == 0 {
				*c ^= 0x20;
			}
		}
		v.push(vec![w.clone(), mixed.clone()]);
		v.push(vec![w.clone(), up, near, other]);
	}
	if ty == spec::VARIANTS || ty == spec::EXTS {
		v.push(vec![vec![], b[0].clone()]);
	}
	for ks in &mut v {
		ks.retain(|k| d.accepts(k));
	}
	v.retain(|k| k.len() >= 2);
	v
}
