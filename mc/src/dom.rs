//! Bounded input spaces.
use crate::model::Dfa;
use crate::spec::{self, dfas};

/// All words over `alpha` of length <= `max` that are live prefixes in `d`;
/// `f(word, accepted)`.
pub fn live_words(d: &Dfa, alpha: &[u8], max: usize, f: &mut dyn FnMut(&[u8], bool)) {
	fn go(d: &Dfa, s: u16, alpha: &[u8], max: usize, w: &mut Vec<u8>, f: &mut dyn FnMut(&[u8], bool)) {
		f(w, d.acc[s as usize]);
		if w.len() == max {
			return;
		}
		for &c in alpha {
			let t = d.step(s, c);
			if t != d.dead {
				w.push(c);
				go(d, t, alpha, max, w, f);
				w.pop();
			}
		}
	}
	go(d, 0, alpha, max, &mut Vec::new(), f);
}

/// All words over `alpha` up to length `max`, live or not.
pub fn all_words(alpha: &[u8], max: usize, f: &mut dyn FnMut(&[u8])) {
	fn go(alpha: &[u8], max: usize, w: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
		f(w);
		if w.len() < max {
			for &c in alpha {
				w.push(c);
				go(alpha, max, w, f);
				w.pop();
			}
		}
	}
	go(alpha, max, &mut Vec::new(), f);
}

/// All live sequences of at most `max` subtags taken from `reps`.
pub fn subtag_words(d: &Dfa, reps: &[&[u8]], max: usize, f: &mut dyn FnMut(&[u8], bool)) {
	fn go(d: &Dfa, s: u16, reps: &[&[u8]], left: usize, w: &mut Vec<u8>, f: &mut dyn FnMut(&[u8], bool)) {
		if left == 0 {
			return;
		}
		let l = w.len();
		for r in reps {
			let mut t = s;
			if l > 0 {
				t = d.step(t, b'-');
				w.push(b'-');
			}
			t = d.run(t, r);
			if t != d.dead {
				w.extend_from_slice(r);
				f(w, d.acc[t as usize]);
				go(d, t, reps, left - 1, w, f);
			}
			w.truncate(l);
		}
	}
	go(d, 0, reps, max, &mut Vec::new(), f);
}

/// Representative subtags: every length class and leading/trailing digit
/// pattern that the grammar tells apart, identifiers, and repeats.
pub const REPS: [&[u8]; 20] = [
	b"a", b"x", b"1", b"ab", b"a1", b"12", b"abc", b"bcd", b"123", b"1bc", b"abcd", b"1abc", b"1234", b"abcde", b"12345",
	b"abcdef", b"1abcdef", b"abcdefgh", b"1bcdefgh", b"abcdefg1",
];
/// A smaller set for deeper sequences.
pub const REPS_SMALL: [&[u8]; 10] = [b"a", b"x", b"1", b"ab", b"abc", b"123", b"abcd", b"1abc", b"abcde", b"abcdefgh"];
/// The smallest set in which every component and list can still be expressed.
pub const REPS_TINY: [&[u8]; 7] = [b"a", b"x", b"ab", b"abc", b"abcd", b"1abc", b"abcde"];

/// All patterns of letters and digits of lengths 1 to 8: 510 subtags.
/// Letters are b..i by position so that content identifies positions.
pub fn shapes(max: usize) -> Vec<Vec<u8>> {
	let mut v = vec![];
	for l in 1..=max {
		for m in 0..(1u32 << l) {
			v.push((0..l).map(|i| if m >> i & 1 == 1 { b'1' + i as u8 } else { b'b' + i as u8 }).collect());
		}
	}
	v
}

/// For every live state and every pair of symbols: access word, the two symbols, shortest completion.
/// `f` gets only accepted words.
pub fn transition_pairs(d: &Dfa, syms: &[u8], f: &mut dyn FnMut(&[u8])) {
	let mut w = vec![];
	for s in 0..d.len() {
		if s as u16 == d.dead {
			continue;
		}
		for &c1 in syms {
			let t1 = d.step(s as u16, c1);
			if t1 == d.dead {
				continue;
			}
			for &c2 in syms {
				let t2 = d.step(t1, c2);
				if t2 == d.dead {
					continue;
				}
				w.clear();
				w.extend_from_slice(&d.access[s]);
				w.push(c1);
				w.push(c2);
				w.extend_from_slice(&d.finish[t2 as usize]);
				f(&w);
			}
		}
	}
}
pub fn transition_singles(d: &Dfa, syms: &[u8], f: &mut dyn FnMut(&[u8])) {
	let mut w = vec![];
	for s in 0..d.len() {
		for &c in syms {
			let t = d.step(s as u16, c);
			if t == d.dead {
				continue;
			}
			w.clear();
			w.extend_from_slice(&d.access[s]);
			w.push(c);
			w.extend_from_slice(&d.finish[t as usize]);
			f(&w);
		}
	}
}
/// Alphanumerics in both cases, and '-'.
pub fn tag_bytes() -> Vec<u8> {
	(b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').chain([b'-']).collect()
}

/// Full products of component choices for normal tags.
pub struct Parts {
	pub lang: Vec<&'static str>,
	pub script: Vec<&'static str>,
	pub region: Vec<&'static str>,
	pub variants: Vec<&'static str>,
	pub exts: Vec<&'static str>,
	pub pu: Vec<&'static str>,
}
pub fn parts(big: bool) -> Parts {
	let mut p = Parts {
		lang: vec!["fr", "abc", "abcd", "abcde", "abcdefgh", "fr-abc", "abc-def", "fr-abc-def", "fr-abc-def-ghi", "abc-abc-abc-abc"],
		script: vec!["", "Latn", "abcd"],
		region: vec!["", "FR", "419", "fr"],
		variants: vec!["", "abcde", "1abc", "abcdefgh", "12345", "1996-abcde", "abcde-abcde", "1abc-2def-abcdefgh"],
		exts: vec![
			"", "a-bb", "1-abc", "u-co-phonebk", "a-bb-cc-dd", "a-abcdefgh", "a-bb-b-cc", "b-aa-a-bb-1-12", "a-bb-a-cc", "w-Latn-FR-1abc",
			"y-419", "z-x1-xx",
		],
		pu: vec!["", "x-a", "x-abcdefgh", "x-x", "x-a-bb-1", "x-fr-Latn", "x-u-co", "x-1"],
	};
	if big {
		p.lang.extend(["zh-min-nan", "sgn", "i-i".get(0..0).unwrap_or("en"), "en-abc-def", "Abcdef", "abcdefg"]);
		p.script.extend(["Zyyy"]);
		p.region.extend(["000", "ZZ"]);
		p.variants.extend(["abcdef", "abcdefg", "9zzz", "1abc-1abc-1abc-1abc", "a1b2c", "12345678-abcde", "abcde-1abc"]);
		p.exts.extend([
			"a-aa-aa-aa-aa", "0-00", "9-99999999-a1", "a-bb-c-dd-e-ff-g-hh", "t-en-us", "A-BB-a-bb", "b-abc-abcd-abcde-1abc", "z-zz-y-yy-w-ww",
		]);
		p.pu.extend(["x-abcd", "X-A-B-C", "x-12345678-1-a", "x-x-x-x", "x-abc-def"]);
	}
	p.lang.retain(|s| !s.is_empty());
	p
}
/// Calls f with the parts; absent parts are "".
pub fn products(p: &Parts, f: &mut dyn FnMut([&'static str; 6])) {
	for l in &p.lang {
		for s in &p.script {
			for r in &p.region {
				for v in &p.variants {
					for e in &p.exts {
						for u in &p.pu {
							f([l, s, r, v, e, u]);
						}
					}
				}
			}
		}
	}
}
pub fn join(parts: &[&str], w: &mut Vec<u8>) {
	w.clear();
	for p in parts {
		if !p.is_empty() {
			if !w.is_empty() {
				w.push(b'-');
			}
			w.extend_from_slice(p.as_bytes());
		}
	}
}

/// Long values: every list construct repeated n times.
pub fn pumped(ty: usize, sizes: &[usize], f: &mut dyn FnMut(&[u8])) {
	let rep = |s: &str, n: usize| vec![s; n].join("-");
	let lists: Vec<(&str, &str, &str)> = match ty {
		spec::LT | spec::NORMAL => vec![
			("fr", "abcde", ""), ("fr", "1abc", ""), ("fr", "abcdefgh", "x-a"), ("fr-a", "bb", ""), ("fr-a", "abcdefgh", "x-a"),
			("fr", "a-bb", ""), ("fr-abc-Latn-FR-abcde", "b-ccc-dd", "x-yy"), ("fr-x", "a", ""), ("fr-x", "abcdefgh", ""),
			("fr-x", "x", ""), ("fr-a-bb-x", "a-bb", ""), ("abc-def-ghi-jkl-Latn-419-1abc", "z-12", "x-1-2"),
		],
		spec::PU => vec![("x", "a", ""), ("x", "abcdefgh", ""), ("X", "x", ""), ("x", "a-bb", "")],
		spec::VARIANTS => vec![("", "abcde", ""), ("", "1abc", ""), ("", "abcdefgh-1abc", ""), ("12345678", "abcde", "1abc")],
		spec::EXT => vec![("a", "bb", ""), ("1", "abcdefgh", ""), ("z", "abc-12", "")],
		spec::EXTS => vec![("", "a-bb", ""), ("a", "bb", ""), ("a-bb", "c-dd-ee", "z-zz"), ("", "1-abcdefgh", "")],
		_ => vec![],
	};
	for (p, m, s) in lists {
		for &n in sizes {
			let mut w = vec![];
			join(&[p, &rep(m, n), s], &mut w);
			f(&w);
		}
	}
	if ty == spec::LT {
		for &n in sizes {
			let w = format!("x-{}", rep("abcdefgh", n));
			f(w.as_bytes());
		}
	}
}
pub fn sizes(thorough: bool) -> Vec<usize> {
	let mut v: Vec<usize> = (1..=if thorough { 600 } else { 140 }).collect();
	for c in [255usize, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 7281, 7282, 8192, 10922, 10923, 13107, 13108, 16384, 21845, 21846, 32767, 32768, 32769, 65535, 65536, 65537] {
		v.push(c);
	}
	if thorough {
		v.extend([100_000, 131_072, 200_000, 262_144, 500_000]);
	}
	v
}

/// The words of type `ty` explored for properties of single values.
/// Only accepted words are passed to `f`.
pub fn type_words(ty: usize, depth: Depth, f: &mut dyn FnMut(&[u8])) {
	let d = &dfas()[ty];
	let (len, subs, small, tiny) = match depth {
		Depth::Lite => (7, 3, 4, 0),
		Depth::Quick => (9, 4, 6, 7),
		Depth::Thorough => (11, 5, 7, 8),
	};
	let mut acc = |w: &[u8], a: bool| {
		if a {
			f(w)
		}
	};
	live_words(d, b"ax1-", len, &mut acc);
	live_words(d, b"aZ9-", len - 2, &mut acc);
	subtag_words(d, &REPS, subs, &mut acc);
	subtag_words(d, &REPS_SMALL, small, &mut acc);
	if tiny > 0 {
		subtag_words(d, &REPS_TINY, tiny, &mut acc);
	}
	let syms = tag_bytes();
	if depth == Depth::Lite {
		transition_singles(d, &syms, f);
	} else {
		transition_pairs(d, &syms, f);
	}
	// every subtag shape in every context of one or two subtags
	let sh = shapes(8);
	let ctx: Vec<Vec<u8>> = match ty {
		spec::LT | spec::NORMAL => ["", "fr-", "fr-abc-", "fr-abc-def-ghi-", "fr-Latn-", "fr-FR-", "fr-abcde-", "fr-a-", "fr-a-bb-", "fr-x-", "fr-x-a-"].iter().map(|s| s.as_bytes().to_vec()).collect(),
		spec::PU => vec![b"x-".to_vec(), b"x-a-".to_vec()],
		spec::EXT | spec::EXTS => vec![b"a-".to_vec(), b"a-bb-".to_vec(), b"a-bb-c-".to_vec()],
		spec::VARIANTS => vec![vec![], b"abcde-".to_vec()],
		_ => vec![vec![]],
	};
	let mut w = vec![];
	for c in &ctx {
		for s in &sh {
			w.clear();
			w.extend_from_slice(c);
			w.extend_from_slice(s);
			if d.accepts(&w) {
				f(&w);
			}
			let l = w.len();
			let tails: &[&[u8]] = if depth == Depth::Lite { &[b"-ab", b"-abcde", b"-x-a"] } else { &REPS };
			for s2 in tails {
				w.truncate(l);
				if depth != Depth::Lite {
					w.push(b'-');
				}
				w.extend_from_slice(s2);
				if d.accepts(&w) {
					f(&w);
				}
			}
			if depth == Depth::Thorough {
				for s2 in &sh {
					w.truncate(l);
					w.push(b'-');
					w.extend_from_slice(s2);
					if d.accepts(&w) {
						f(&w);
					}
				}
			}
		}
	}
	if ty == spec::LT || ty == spec::NORMAL {
		products(&parts(depth == Depth::Thorough), &mut |p| {
			join(&p, &mut w);
			f(&w);
		});
	}
	if ty == spec::LT {
		for (g, _) in spec::GRANDFATHERED {
			for v in casings(g.as_bytes()) {
				f(&v);
			}
		}
	}
	let sz = match depth {
		Depth::Lite => vec![1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 255, 256, 257],
		_ => sizes(depth == Depth::Thorough),
	};
	pumped(ty, &sz, f);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
	Lite,
	Quick,
	Thorough,
}

/// All letter-case assignments (up to 12 letters), else a systematic selection:
/// all lower, all upper, swapped, alternating, and every single letter flipped.
pub fn casings(w: &[u8]) -> Vec<Vec<u8>> {
	let pos: Vec<usize> = (0..w.len()).filter(|&i| w[i].is_ascii_alphabetic()).collect();
	let mut v = vec![];
	if pos.len() <= 10 {
		for m in 0..(1u32 << pos.len()) {
			let mut x = w.to_vec();
			for (k, &i) in pos.iter().enumerate() {
				if m >> k & 1 == 1 {
					x[i] ^= 0x20;
				}
			}
			v.push(x);
		}
	} else {
		few_casings(w, &mut |x| v.push(x.to_vec()));
		for &i in pos.iter().take(300) {
			let mut x = w.to_vec();
			x[i] ^= 0x20;
			v.push(x);
		}
	}
	v
}
pub fn few_casings(w: &[u8], f: &mut dyn FnMut(&[u8])) {
	f(&w.to_ascii_lowercase());
	f(&w.to_ascii_uppercase());
	let mut x: Vec<u8> = w.iter().map(|c| if c.is_ascii_alphabetic() { c ^ 0x20 } else { *c }).collect();
	f(&x);
	for (i, c) in x.iter_mut().enumerate() {
		*c = if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
	}
	f(&x);
	for c in x.iter_mut() {
		if c.is_ascii_alphabetic() {
			*c ^= 0x20;
		}
	}
	f(&x);
}

/// Non-ASCII encodings that a sloppy decoder takes for the ASCII character c,
/// and malformed sequences.
pub fn bad_encodings(c: u8, f: &mut dyn FnMut(&[u8])) {
	let c32 = c as u32;
	// overlong forms of 2 to 6 bytes, correct and with wrong continuation bits
	for hi in [0x80u8, 0x00, 0x40, 0xc0] {
		let k = |sh: u32| hi | ((c32 >> sh) & 0x3f) as u8;
		f(&[0xc0 | (c32 >> 6) as u8, k(0)]);
		f(&[0xe0, k(6), k(0)]);
		f(&[0xf0, k(12), k(6), k(0)]);
		f(&[0xf8, k(12), k(12), k(6), k(0)]);
		f(&[0xfc, k(12), k(12), k(12), k(6), k(0)]);
	}
	// characters that equal c modulo 2^7, 2^8 and 2^16, and full-width forms
	for x in [c32 + 0x80, c32 + 0x100, c32 + 0x200, c32 + 0x1000, c32 + 0x10000, c32 + 0x20000, c32 + 0x100000, c32 + 0xfee0, c32 + 0xe0000, c32 + 0x1d3b9] {
		if let Some(ch) = char::from_u32(x) {
			f(ch.encode_utf8(&mut [0; 4]).as_bytes());
		}
		// the same as a surrogate pair
		if x >= 0x10000 && x < 0x110000 {
			let y = x - 0x10000;
			let (h, l) = (0xd800 + (y >> 10), 0xdc00 + (y & 0x3ff));
			let e = |s: u32| [0xe0 | (s >> 12) as u8, 0x80 | (s >> 6 & 0x3f) as u8, 0x80 | (s & 0x3f) as u8];
			f(&[e(h), e(l)].concat());
		}
	}
	// lone surrogates ending in c
	for s in [0xd800u32, 0xdc00, 0xdf80] {
		let s = s + c32;
		f(&[0xe0 | (s >> 12) as u8, 0x80 | (s >> 6 & 0x3f) as u8, 0x80 | (s & 0x3f) as u8]);
	}
	// the byte with its high bit set, and stray bytes around it
	f(&[c | 0x80]);
	for p in [0x80u8, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff] {
		f(&[p, c]);
		f(&[c, p]);
		f(&[p, 0x80, c]);
		f(&[p, 0x80, 0x80, c]);
		f(&[p, 0x80, 0x80, 0x80, c]);
		f(&[c, p, 0x80]);
		f(&[c, p, 0x80, 0x80]);
	}
	// Unicode case partners
	for (a, s) in [(b'k', "\u{212a}"), (b's', "\u{17f}"), (b'i', "\u{131}"), (b'i', "\u{130}"), (b'a', "\u{e5}"), (b's', "\u{df}"), (b'f', "\u{fb00}")] {
		if c.eq_ignore_ascii_case(&a) {
			f(s.as_bytes());
		}
	}
	// null and BOM
	f(&[c, 0]);
	f(&[0, c]);
	f(&[0xef, 0xbb, 0xbf, c]);
	f(&[c, 0xe2, 0x80, 0x8b]);
}

// ---------------------------------------------------------------- codes

/// Every word over `first` x `rest`^(n-1).
fn every(first: &[u8], rest: &[u8], n: usize, f: &mut dyn FnMut(&[u8])) {
	fn go(rest: &[u8], n: usize, w: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
		if w.len() == n {
			return f(w);
		}
		for b in rest {
			w.push(*b);
			go(rest, n, w, f);
			w.pop();
		}
	}
	for b in first {
		go(rest, n, &mut vec![*b], f);
	}
}
const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
const UPPER: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const DIGIT: &[u8] = b"0123456789";
const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";

/// Subtags in actual use.
pub struct Real {
	pub lang: &'static [&'static str],
	pub extlang: &'static [&'static str],
	pub script: &'static [&'static str],
	pub region: &'static [&'static str],
	pub variant: &'static [&'static str],
	pub ext: &'static [&'static str],
	pub pu: &'static [&'static str],
}
pub static REAL: Real = Real {
	lang: &["en", "zh", "fr", "de", "sl", "sr", "az", "hy", "ar", "ja", "no", "i", "x", "qaa", "und", "mul", "mis", "zxx", "cmn", "yue", "sgn", "art", "root", "cel", "qtz", "iw", "in", "ji", "mo", "sh"],
	extlang: &["yue", "cmn", "nan", "hak", "gan", "wuu", "ary", "arb", "ase", "zlm", "qaa", "min", "bok", "lux"],
	script: &["Latn", "Hant", "Hans", "Cyrl", "Arab", "Arabe", "Zyyy", "Zzzz", "Zxxx", "Zinh", "Qaaa", "Qabx", "Zsye", "Copt", "Qaac", "Jpan", "Kore"],
	region: &["US", "UK", "GB", "CN", "TW", "ZZ", "XA", "XX", "AA", "QM", "QO", "EU", "UN", "BU", "DD", "SU", "YU", "CS", "001", "150", "419", "003", "830", "000", "999", "029"],
	variant: &[
		"1901", "1994", "1996", "2023", "1606nict", "1694acad", "1959acad", "abl1943", "ao1990", "alalc97", "aranes", "arevela", "arevmda", "baku1926", "barla", "bauddha", "biscayan", "biske", "bohoric", "boont", "colb1945",
		"cornu", "dajnko", "ekavsk", "emodeng", "fonipa", "fonnapa", "fonupa", "fonxsamp", "gascon", "grclass", "heploc", "hepburn", "hognorsk", "ijekavsk", "itihasa", "jauer", "jyutping", "kkcor", "kociewie",
		"kscor", "laukika", "lemosin", "lengadoc", "lipaw", "luna1918", "metelko", "monoton", "ndyuka", "nedis", "newfound", "nicard", "njiva", "nulik", "osojs", "oxendict", "pahawh2", "pahawh3", "pahawh4",
		"pamaka", "peano", "petr1708", "pinyin", "polyton", "posix", "provenc", "puter", "rigik", "rozaj", "rumgr", "scotland", "scouse", "simple", "solba", "sotav", "spanglis", "surmiran", "sursilv", "sutsilv",
		"synnejyl", "tarask", "tongyong", "tunumiit", "uccor", "ucrcor", "ulster", "unifon", "vaidika", "valencia", "vallader", "vecdruka", "vivaraup", "wadegile", "xsistemo", "saaho", "polytoni", "real", "valueless",
	],
	ext: &[
		"u-ca-gregory", "u-ca-islamic-civil", "u-co-phonebk", "u-nu-latn", "u-kn-true", "u-kn", "u-va-posix", "u-sd-usca", "u-tz-usnyc", "u-em-emoji", "u-attr", "u-attr-co-trad", "t-en", "t-en-us", "t-und-cyrl-m0-ungegn-2007",
		"t-it-m0-true", "t-x0-foobar", "t-k0-osx", "m0-true", "a-foo", "a-value", "b-another", "r-extended-sequence", "0-00", "9-99", "u-true", "u-yes", "u-no", "u-null", "u-und", "u-x0", "t-i0-pinyin", "d-c0-xn", "i-klingon",
	],
	pu: &["x-whatever", "x-private", "x-phonebk", "x-azerty", "x-lvariant-posix", "x-jvariant", "x-klingon", "x-default", "x-mt", "x-hmm", "x-goog", "x-i-enochian", "x-x-x", "x-0", "x-t-en", "x-u-ca"],
};

/// Every code of the short kinds, at the places where codes may stand, and the
/// subtags in actual use together: what a rule that singles out one code would
/// change. Only accepted words are passed to `f`.
pub fn codes(ty: usize, thorough: bool, f: &mut dyn FnMut(&[u8])) {
	let d = &dfas()[ty];
	let mut buf: Vec<u8> = vec![];
	let mut one = |pre: &str, w: &[u8], post: &str| {
		buf.clear();
		buf.extend_from_slice(pre.as_bytes());
		buf.extend_from_slice(w);
		buf.extend_from_slice(post.as_bytes());
		if d.accepts(&buf) {
			f(&buf);
		}
	};
	let mut ctx = |gen_: &dyn Fn(&mut dyn FnMut(&[u8])), places: &[(&str, &str)]| {
		gen_(&mut |w| {
			for (a, b) in places {
				one(a, w, b);
			}
		})
	};
	let scripts = |f: &mut dyn FnMut(&[u8])| every(UPPER, LOWER, 4, f);
	let four = |f: &mut dyn FnMut(&[u8])| every(LOWER, LOWER, 4, f);
	let three = |f: &mut dyn FnMut(&[u8])| every(LOWER, LOWER, 3, f);
	let regions = |f: &mut dyn FnMut(&[u8])| {
		every(UPPER, UPPER, 2, f);
		every(LOWER, LOWER, 2, f);
		every(DIGIT, DIGIT, 3, f);
	};
	let two = |f: &mut dyn FnMut(&[u8])| every(LOWER, LOWER, 2, f);
	let short_variants = |f: &mut dyn FnMut(&[u8])| every(DIGIT, ALNUM, 4, f);
	let years = |f: &mut dyn FnMut(&[u8])| every(DIGIT, DIGIT, 4, f);
	let an = |n: usize| move |f: &mut dyn FnMut(&[u8])| every(ALNUM, ALNUM, n, f);
	match ty {
		spec::LT | spec::NORMAL => {
			ctx(&scripts, &[("en-", "")]);
			ctx(&regions, &[("en-", ""), ("en-Latn-", ""), ("abcd-", "-1996"), ("zh-yue-", "-x-a"), ("en-", "-a-bb")]);
			ctx(&three, &[("", ""), ("zh-", ""), ("zh-", "-Hant"), ("zh-yue-", "-TW"), ("abc-def-ghi-", ""), ("zh-", "-abc"), ("en-x-", ""), ("en-u-", "")]);
			ctx(&two, &[("", ""), ("", "-abc"), ("", "-Latn"), ("", "-US")]);
			ctx(&four, &[("", "")]);
			ctx(&short_variants, &[("en-", "")]);
			ctx(&years, &[("en-US-", ""), ("en-1996-", ""), ("en-", "-abcde"), ("en-", "-x-a"), ("en-u-", "")]);
			for s in ALNUM {
				let pre = format!("en-{}-", *s as char);
				let post = format!("-{}-cc", *s as char);
				ctx(&an(2), &[(&pre, ""), ("en-b-", &post)]);
			}
			ctx(&an(1), &[("en-x-", ""), ("x-", ""), ("en-x-a-", "-b"), ("en-a-bb-x-", "-cc")]);
			ctx(&an(2), &[("en-x-", ""), ("x-", ""), ("en-a-bb-x-", "-cc")]);
			ctx(&an(3), &[("en-a-", ""), ("en-x-", "")]);
			if thorough {
				ctx(&four, &[("en-", ""), ("abcd-", "-US"), ("zh-yue-", "-1996-u-co"), ("EN-", "-x-a")]);
				ctx(&short_variants, &[("en-US-", ""), ("en-1996-", "-abcde"), ("zh-Latn-", "-x-a"), ("en-a-", "")]);
				ctx(&three, &[("", "-yue"), ("", "-US"), ("", "-1996"), ("EN-", ""), ("en-a-bb-", "-cc"), ("en-a-", "-b-cc")]);
				ctx(&an(3), &[("en-u-", "-true"), ("en-t-en-", ""), ("x-", "")]);
			}
		}
		spec::PU => {
			ctx(&an(1), &[("x-", ""), ("X-", ""), ("x-a-", ""), ("x-", "-b")]);
			ctx(&an(2), &[("x-", ""), ("x-a-", ""), ("x-", "-b")]);
			ctx(&an(3), &[("x-", "")]);
		}
		spec::PUSUB | spec::EXTSUB => {
			for n in 1..=if thorough { 4 } else { 3 } {
				ctx(&an(n), &[("", "")]);
			}
			ctx(&years, &[("", "")]);
		}
		spec::LANG | spec::PRIMARY | spec::EXTLANG | spec::EXTLANGTAG | spec::SCRIPT => {
			ctx(&two, &[("", ""), ("", "-abc")]);
			ctx(&three, &[("", ""), ("zh-", ""), ("zh-abc-", ""), ("abc-", "-def"), ("", "-abc-def"), ("abc-def-ghi-", "")]);
			ctx(&four, &[("", "")]);
			ctx(&scripts, &[("", "")]);
		}
		spec::REGION => ctx(&regions, &[("", "")]),
		spec::VARIANT => ctx(&short_variants, &[("", "")]),
		spec::VARIANTS => {
			ctx(&short_variants, &[("", "")]);
			ctx(&years, &[("1996-", ""), ("", "-abcde"), ("abcde-", "-1901")]);
		}
		_ => {
			for s in ALNUM {
				let pre = format!("{}-", *s as char);
				let mid = format!("b-aa-{}-", *s as char);
				let post = format!("-{}-cc", *s as char);
				ctx(&an(2), &[(&pre, ""), (&mid, ""), ("b-", &post), ("a-bb-", &post)]);
			}
			ctx(&an(3), &[("a-", ""), ("a-", "-b-cc"), ("u-co-", "")]);
			ctx(&years, &[("a-", ""), ("u-co-", "-b-cc")]);
		}
	}
	// one short subtag many times
	let lists: &[&str] = match ty {
		spec::LT | spec::NORMAL => &["en-a-bb", "en-x-a"],
		spec::PU => &["x-a"],
		spec::EXT | spec::EXTS => &["a-bb"],
		_ => &[],
	};
	for p in lists {
		for n in if thorough { &[3, 9, 17, 40, 300][..] } else { &[9, 40] } {
			ctx(
				&|f| {
					every(ALNUM, ALNUM, 2, &mut |w| f(&[b"-", w].concat().repeat(*n)));
					for l in [REAL.ext, REAL.pu] {
						for e in l {
							if let Some((_, e)) = e.split_once('-') {
								f(&[b"-", e.as_bytes()].concat().repeat(*n));
							}
						}
					}
				},
				&[(p, "")],
			);
		}
	}
	// subtags in use
	let r = &REAL;
	match ty {
		spec::LT | spec::NORMAL => {
			let mut langs: Vec<String> = r.lang.iter().map(|l| l.to_string()).collect();
			for l in ["zh", "ar", "sgn", "ms", "no"] {
				langs.extend(r.extlang.iter().map(|e| format!("{l}-{e}")));
			}
			let none: &[&str] = &[""];
			let tails = |v: &[&str], x: &[&str], p: &[&str], f: &mut dyn FnMut(&str)| {
				for v in v {
					for x in x {
						for p in p {
							let mut t = String::new();
							for s in [v, x, p] {
								if !s.is_empty() {
									t.push('-');
									t.push_str(s);
								}
							}
							f(&t);
						}
					}
				}
			};
			for l in &langs {
				for s in none.iter().chain(r.script) {
					for g in none.iter().chain(r.region) {
						let mut h = l.clone();
						for s in [s, g] {
							if !s.is_empty() {
								h.push('-');
								h.push_str(s);
							}
						}
						one(&h, b"", "");
						tails(&r.variant[..if thorough { 12 } else { 4 }], &["", "u-co-phonebk"], &[""], &mut |t| one(&h, b"", t));
					}
				}
			}
			let v2: Vec<&str> = none.iter().chain(r.variant).copied().collect();
			let x2: Vec<&str> = none.iter().chain(r.ext).copied().collect();
			let p2: Vec<&str> = none.iter().chain(r.pu).copied().collect();
			for h in ["en", "de-CH", "sl-rozaj", "zh-yue-Hant-HK", "x"] {
				tails(&v2, &x2, &p2, &mut |t| one(h, b"", t));
				tails(&v2, &v2, &["", "x-private"], &mut |t| one(h, b"", t));
				tails(&x2, &x2, &p2, &mut |t| one(h, b"", t));
			}
		}
		spec::VARIANTS => {
			for a in r.variant {
				one(a, b"", "");
				for b in r.variant {
					one(a, b"-", b);
				}
			}
		}
		spec::EXTS => {
			for a in r.ext {
				for b in r.ext {
					for c in ["", "-u-co", "-a-bb"] {
						one(&format!("{a}-{b}"), b"", c);
					}
				}
			}
		}
		_ => {
			for l in [r.lang, r.extlang, r.script, r.region, r.variant, r.ext, r.pu] {
				for w in l {
					one(w, b"", "");
				}
			}
		}
	}
}
