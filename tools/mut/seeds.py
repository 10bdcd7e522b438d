#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions below (patches against /repo's HEAD)."""
import os, subprocess, json, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from m1names import *
SH='''#!/bin/bash
# exit 0 if the property holds on this demonstration's inputs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin" CARGO_NET_OFFLINE=true
[ -z "$RUSTUP_TOOLCHAIN" ] && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" || exit 2
cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
langtag = { path = "$repo"@FEAT@ }@DEPS@
[profile.dev]
debug = false
[workspace]
EOF
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || exit 2
timeout 60 "$d/target/debug/demo"
'''
SEEDS=[]
def seed(id, prop, needs, breaks, edits, main, feat='', deps='', sh=None, files=None):
    SEEDS.append((id, prop, needs, breaks, edits, main, feat, deps, sh, files or {}))

seed('c17-fold-controls','C17','a control character (such as CR, 0x0d) in place of the hyphen of a grandfathered tag',
 'into_smallcase sets bit 5 of every byte, so control characters fold into hyphens and digits and texts such as "i\\rami" parse as grandfathered tags',
 [(U,'if c.is_ascii_uppercase() { c + 0x20 } else { c }','c | 0x20')],
 '''use langtag::GrandfatheredLangTag;
fn main() {
	for tag in langtag::GRANDFATHERED.iter() {
		let text = tag.as_str().to_string();
		assert!(GrandfatheredLangTag::new(text.as_str()).ok() == Some(*tag));
		for i in 0..text.len() {
			for b in 0..128u8 {
				let mut t = text.clone().into_bytes();
				if t[i].eq_ignore_ascii_case(&b) {
					continue;
				}
				t[i] = b;
				let known = langtag::GRANDFATHERED.iter().any(|g| g.as_bytes().eq_ignore_ascii_case(&t));
				assert_eq!(GrandfatheredLangTag::new(&t[..]).is_ok(), known, "{:?}", String::from_utf8(t));
			}
		}
	}
}
''')
seed('c07-language-order','C07','a regular grandfathered tag, whose langtag decomposition has another language (such as zh-min)',
 'LangTag::language asks the grandfathered table first, so the language of zh-min is no longer the one of the normal tag',
 [(LIB,'''		match NormalLangTag::new(&self.0) {
			Ok(t) => Some(t.language()),
			Err(_) => match GrandfatheredLangTag::new(&self.0) {
				Ok(t) => t.language(),
				Err(_) => None,
			},
		}''','''		match GrandfatheredLangTag::new(&self.0) {
			Ok(t) => t.language(),
			Err(_) => self.as_normal().map(NormalLangTag::language),
		}''')],
 '''use langtag::LangTag;
fn main() {
	for t in ["zh-min", "ZH-MIN", "zh-min-nan", "no-bok", "zh-hakka", "en-US", "i-ami", "x-a-b"] {
		let tag = LangTag::new(t).unwrap();
		let lang = tag.language().map(|l| l.as_str().to_string());
		assert_eq!(tag.as_typed().language().map(|l| l.as_str().to_string()), lang, "{t}");
		assert_eq!(tag.as_normal().map(|n| n.language().as_str().to_string()), lang.clone().filter(|_| tag.is_normal()), "{t}");
	}
}
''')
seed('c05-interned-variants','C05','a tag whose variant list is exactly "1996"',
 'the variants accessor answers a string constant for the most common list, which does not borrow from the tag',
 [(N,'''	pub fn variants(&self) -> &Variants {
''','''	pub fn variants(&self) -> &Variants {
		if &self.0[self.variants_range()] == "1996" {
			return unsafe { Variants::new_unchecked("1996") };
		}
''')],
 '''use langtag::LangTag;
fn main() {
	for t in ["de-1996", "de-CH-1996", "de-1901", "sl-rozaj-1996", "de-1996-x-a"] {
		let text = t.to_string();
		let tag = LangTag::new(text.as_str()).unwrap();
		let v = tag.variants().as_str();
		let (start, p) = (text.as_ptr() as usize, v.as_ptr() as usize);
		assert!(p >= start && p + v.len() <= start + text.len(), "{t}: {v} is not part of the tag");
		for x in tag.variants().iter() {
			let p = x.as_str().as_ptr() as usize;
			assert!(p >= start && p < start + text.len(), "{t}: {x} is not part of the tag");
		}
	}
}
''')
seed('c04-year-as-script','C04','a tag without script and region whose first variant is a digit and three characters',
 'the script accessor takes any subtag of four characters in second place',
 [(N,'i == offset && Script::new(segment).is_ok()','i == offset && segment.len() == 4')],
 '''use langtag::LangTag;
fn main() {
	for (t, script, variants) in [("de-1996", None, "1996"), ("de-Latn-1996", Some("Latn"), "1996"), ("de-AT-1996", None, "1996"), ("fr-abc-1abc-abcde", None, "1abc-abcde"), ("de-abcd", Some("abcd"), "")] {
		let tag = LangTag::new(t).unwrap();
		assert_eq!(tag.script().map(|s| s.as_str()), script, "{t}");
		assert_eq!(tag.variants().as_str(), variants, "{t}");
	}
}
''')
seed('c13-nth-crosses-back','C13','nth() on a variant iterator from whose back items were already taken',
 'the new nth() of the variant iterator is bounded by the text, not by the back position, and yields variants again',
 [(V,'			None\n		}\n	}\n}\n\nimpl<\'a> DoubleEndedIterator','''			None
		}
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0..n {
			self.offset = super::find_segment_end(self.data, self.offset) + 1;
			if self.offset > self.data.len() {
				return None;
			}
		}
		let end = super::find_segment_end(self.data, self.offset);
		let item = self.data.get(self.offset..end).filter(|s| !s.is_empty())?;
		self.offset = end + 1;
		Some(unsafe { Variant::new_unchecked(item) })
	}
}

impl<'a> DoubleEndedIterator''')],
 '''use langtag::Variants;
fn main() {
	let v = Variants::new("abcde-fghij-1994").unwrap();
	assert_eq!(v.iter().nth(2).map(|x| x.as_str()), Some("1994"));
	let mut it = v.iter();
	assert_eq!(it.next_back().map(|x| x.as_str()), Some("1994"));
	assert_eq!(it.nth(1).map(|x| x.as_str()), Some("fghij"));
	assert_eq!(it.next().map(|x| x.as_str()), None);
	let mut it = v.iter();
	it.next_back();
	assert_eq!(it.nth(2).map(|x| x.as_str()), None);
	assert_eq!(it.next_back().map(|x| x.as_str()), None);
}
''')
seed('c15-lookup-runs-over','C15','looking up an extension that is not the last of its list',
 'find_list_end leaves its loop at the first subtag outside the list and then judges the whole rest of the text as one subtag, which the lookup of extensions accepts for its length',
 [(N,'			} else {\n				return end;\n			}','			} else {\n				break;\n			}')],
 '''use langtag::{Extensions, Singleton};
fn main() {
	let e = Extensions::new("a-bb-cc-b-dd-1-ee-ff").unwrap();
	for (id, want) in [(b'a', "a-bb-cc"), (b'b', "b-dd"), (b'1', "1-ee-ff"), (b'B', "b-dd")] {
		let x = e.get(Singleton::new(id).unwrap()).unwrap();
		assert_eq!(x.as_str(), want);
	}
	assert!(e.get(Singleton::new(b'c').unwrap()).is_none());
}
''')
seed('c16-truncated-char','C16','a character beyond U+00FF whose low byte is an identifier character, such as U+0161',
 'the conversion from char truncates the code point to its low byte',
 [(X,'if codepoint < u8::MAX as u32 {','if codepoint < u16::MAX as u32 {')],
 '''use langtag::Singleton;
fn main() {
	for c in '\\0'..=char::MAX {
		let want = c.is_ascii_alphanumeric() && c != 'x' && c != 'X';
		assert_eq!(Singleton::try_from(c).is_ok(), want, "{c:?}");
	}
}
''')
seed('c21-no-std-fold','C21','a build without the std feature, and an upper-case Z',
 'without std, into_smallcase uses another implementation with an exclusive upper bound, so Z is not folded',
 [(U,'''	if c.is_ascii_uppercase() { c + 0x20 } else { c }''','''	#[cfg(feature = "std")]
	return c.to_ascii_lowercase();
	#[cfg(not(feature = "std"))]
	if (b'A'..b'Z').contains(&c) { c + (b'a' - b'A') } else { c }''')],
 '''use langtag::LangTag;
fn main() {
	for (a, b) in [("de-CZ", "DE-cz"), ("zh", "ZH"), ("x-az", "X-AZ")] {
		assert!(LangTag::new(a).unwrap() == LangTag::new(b).unwrap(), "{a} {b}");
	}
}
''', feat=', default-features = false')
seed('c25-lookup-cache','C25','two lookups of the same identifier in two lists of equal length stored at the same address, one after the other',
 'Extensions::get remembers its last answer by the address and length of the text, not by the text',
 [(X,'		let bytes = self.0.as_bytes();\n		let mut i = 0;\n		let mut starting','''		#[cfg(feature = "std")]
		{
			type Last = (usize, usize, u8, Option<(usize, usize)>);
			thread_local! {
				static LAST: core::cell::Cell<Last> = const { core::cell::Cell::new((0, 0, 0, None)) };
			}
			let key = (self.0.as_ptr() as usize, self.0.len(), singleton.0);
			let last = LAST.get();
			if (last.0, last.1, last.2) == key {
				return last.3.map(|(s, e)| unsafe { Extension::new_unchecked(&self.0[s..e]) });
			}
			let found = self.find(singleton).map(|e| {
				let s = e.0.as_ptr() as usize - key.0;
				(s, s + e.0.len())
			});
			LAST.set((key.0, key.1, key.2, found));
		}
		self.find(singleton)
	}

	fn find(&self, singleton: Singleton) -> Option<&Extension> {
		let bytes = self.0.as_bytes();
		let mut i = 0;
		let mut starting''')],
 '''use langtag::{Extensions, Singleton};
fn main() {
	let a = Singleton::new(b'a').unwrap();
	let mut buf = *b"a-bb-b-cc";
	for _ in 0..3 {
		buf.copy_from_slice(b"a-bb-b-cc");
		assert_eq!(Extensions::new(&buf[..]).unwrap().get(a).map(|e| e.as_str().to_string()), Some("a-bb".to_string()));
		buf.copy_from_slice(b"c-bb-a-cc");
		assert_eq!(Extensions::new(&buf[..]).unwrap().get(a).map(|e| e.as_str().to_string()), Some("a-cc".to_string()));
	}
}
''')
seed('c14-short-cursor','C14','a private use value of more than 65535 bytes',
 'the cursor of the private use iterator is kept in 16 bits, so iteration starts again after 64 KiB',
 [(P,'			self.offset = end + 1;','			self.offset = (end + 1) as u16 as usize;')],
 '''use langtag::PrivateUse;
fn main() {
	let mut s = String::from("x");
	for i in 0..30000 {
		s.push_str(&format!("-{}", i % 1000));
	}
	let p = PrivateUse::new(s.as_str()).unwrap();
	let mut n = 0;
	for (i, t) in p.iter().enumerate().take(40000) {
		assert_eq!(t.as_str(), (i % 1000).to_string());
		n += 1;
	}
	assert_eq!(n, 30000);
}
''')
seed('c09-compares-a-prefix','C09','two texts of more than 255 bytes that differ after the first 255',
 'case_insensitive_cmp compares at most 255 bytes, so different long values compare Equal',
 [(U,'	let mut i = 0;\n\n	loop {','	let mut i = 0;\n	let (a, b) = (&a[..a.len().min(255)], &b[..b.len().min(255)]);\n\n	loop {')],
 '''use langtag::LangTag;
fn main() {
	for n in [1, 10, 50, 85, 86, 100, 1000] {
		let a = format!("en-x{}-a", "-zz".repeat(n));
		let b = format!("en-x{}-b", "-zz".repeat(n));
		let (a, b) = (LangTag::new(a.as_str()).unwrap(), LangTag::new(b.as_str()).unwrap());
		assert!(a != b);
		assert!(a.cmp(b).is_ne(), "{n}");
		assert_eq!(a.cmp(b), b.cmp(a).reverse());
	}
}
''')
seed('c10-hash-chunks','C10','two equal values of different letter case whose difference lies in the last, incomplete chunk of eight bytes of a long value',
 'case_insensitive_hash folds whole chunks and feeds the rest unfolded when there are chunks before it',
 [(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}''','''	let mut chunks = bytes.chunks_exact(32);
	let mut long = false;
	for chunk in &mut chunks {
		long = true;
		let mut folded = [0; 32];
		for (f, b) in folded.iter_mut().zip(chunk) {
			*f = into_smallcase(*b);
		}
		hasher.write(&folded);
	}
	if long {
		hasher.write(chunks.remainder());
	} else {
		for b in bytes {
			into_smallcase(*b).hash(hasher)
		}
	}''')],
 '''use langtag::{LangTag, LangTagBuf};
use std::collections::HashMap;
fn main() {
	let mut m: HashMap<LangTagBuf, usize> = HashMap::new();
	let texts = ["en-US", "de-Latn-DE-1996", "sl-Latn-IT-rozaj-biske-1994-u-co-phonebk-x-private", "en-a-bbb-ccc-ddd-x-abcdefgh-abcdefg"];
	for (i, t) in texts.iter().enumerate() {
		m.insert(LangTagBuf::new(t.to_string()).unwrap(), i);
	}
	for (i, t) in texts.iter().enumerate() {
		for s in [t.to_string(), t.to_uppercase(), t.to_lowercase()] {
			assert_eq!(m.get(LangTag::new(s.as_str()).unwrap()), Some(&i), "{s}");
		}
	}
}
''')
seed('c12-upper-x','C12','a private use part introduced by an upper-case X',
 'the end of the extensions is found by comparing subtags with "x" only, so "-X-..." is taken as part of the extensions',
 [(N,'Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()','segment != "x"')],
 '''use langtag::LangTag;
fn main() {
	for t in ["en-a-bb-x-cc", "en-x-a-b", "en-a-bb", "en-1996-x-a"] {
		let up = t.to_uppercase();
		let (a, b) = (LangTag::new(t).unwrap(), LangTag::new(up.as_str()).unwrap());
		assert!(a.extensions() == b.extensions(), "{t}");
		assert_eq!(a.private_use().map(|p| p.as_str().len()), b.private_use().map(|p| p.as_str().len()), "{t}");
	}
}
''')
seed('c20-macro-trims','C20','a literal that ends with white space',
 'the langtag! macro trims its literal, and so accepts texts which the parser rejects',
 [(LIB,'match $crate::LangTag::from_str($value) {','match $crate::LangTag::from_str($value.trim_ascii_end()) {')],
 '''use langtag::{LangTag, langtag};
fn main() {
	assert_eq!(langtag!("fr-FR").as_str(), "fr-FR");
	for (text, got) in [("fr-FR ", std::panic::catch_unwind(|| langtag!("fr-FR ").as_str())), ("fr\\n", std::panic::catch_unwind(|| langtag!("fr\\n").as_str())), ("x-a", std::panic::catch_unwind(|| langtag!("x-a").as_str()))] {
		assert_eq!(got.is_ok(), LangTag::new(text).is_ok(), "{text:?}");
	}
}
''')
seed('c24-table-gap','C24','the tag i-tsu',
 'the grandfathered table lists i-tay twice and i-tsu never, so the typed view of the accepted tag i-tsu panics',
 [(G,'	ITay, ITsu, SgnBeFr','	ITay, ITay, SgnBeFr')],
 '''use langtag::LangTag;
fn main() {
	for t in ["en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE"] {
		let tag = LangTag::new(t).unwrap();
		assert!(tag.kind().is_grandfathered());
		assert!(tag.language().is_none());
	}
}
''')
seed('c06-short-extlang','C06','a language with three extended language subtags',
 'the iterator of extended language subtags stops after eight bytes',
 [(EL,'		if self.offset < self.data.len() {','		if self.offset < self.data.len().min(8) {')],
 '''use langtag::Language;
fn main() {
	for (t, want) in [("zh", vec![]), ("zh-cmn", vec!["cmn"]), ("zh-aaa-bbb", vec!["aaa", "bbb"]), ("fr-abc-def-ghi", vec!["abc", "def", "ghi"]), ("abcd", vec![])] {
		let l = Language::new(t).unwrap();
		assert_eq!(l.extension_subtags().map(|s| s.as_str()).collect::<Vec<_>>(), want, "{t}");
	}
}
''')
seed('c11-order-unparsed','C11','ordering a region against a text that is not a region',
 'the comparison of a region with a str compares the texts without parsing',
 [(R,'	ord([u8], &[u8], str, &str)','	ord([u8], &[u8], &str)'),(R,'''impl Eq for Region {}
''','''impl Eq for Region {}

impl PartialEq<str> for Region {
	fn eq(&self, other: &str) -> bool {
		self.0.eq_ignore_ascii_case(other)
	}
}

impl PartialOrd<str> for Region {
	fn partial_cmp(&self, other: &str) -> Option<core::cmp::Ordering> {
		Some(utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes()))
	}
}
''')],
 '''use langtag::Region;
fn main() {
	let r = Region::new("FR").unwrap();
	assert!(r == "fr");
	assert_eq!(r.partial_cmp("gb"), Some(std::cmp::Ordering::Less));
	assert_eq!(r.partial_cmp("gbr"), None);
	assert_eq!(r.partial_cmp(""), None);
}
''')
seed('c08-extension-zip','C08','two normal tags that differ only in that one has further extensions',
 'equality of normal tags compares their components, and the extensions pairwise up to the shorter list',
 [(N,'utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','''let extensions = self.extensions().iter().zip(other.extensions().iter());
		self.language() == other.language()
			&& self.script() == other.script()
			&& self.region() == other.region()
			&& self.variants() == other.variants()
			&& extensions.into_iter().all(|(a, b)| a == b)
			&& self.private_use() == other.private_use()''')],
 '''use langtag::NormalLangTag;
fn main() {
	let texts = ["en", "en-a-bb", "en-a-bb-b-cc", "en-a-bb-x-y", "en-US-a-bb"];
	for a in texts {
		for b in texts {
			let (x, y) = (NormalLangTag::new(a).unwrap(), NormalLangTag::new(b).unwrap());
			assert_eq!(x == y, a == b, "{a} {b}");
		}
	}
}
''')
seed('c19-trimmed-script','C19','deserializing an owned script from a string with surrounding white space',
 'a hand-written Deserialize of ScriptBuf trims the string before parsing it',
 [(S,'#[cfg_attr(feature = "serde", newtype(serde))]\n',''),(S,'impl Eq for Script {}\n','''impl Eq for Script {}

#[cfg(feature = "serde")]
impl serde::Serialize for Script {
	fn serialize<T: serde::Serializer>(&self, serializer: T) -> Result<T::Ok, T::Error> {
		serializer.serialize_str(&self.0)
	}
}

#[cfg(all(feature = "serde", feature = "std"))]
impl serde::Serialize for ScriptBuf {
	fn serialize<T: serde::Serializer>(&self, serializer: T) -> Result<T::Ok, T::Error> {
		serializer.serialize_str(self.as_str())
	}
}

#[cfg(feature = "serde")]
impl<'de: 'a, 'a> serde::Deserialize<'de> for &'a Script {
	fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
		let s: &'de str = serde::Deserialize::deserialize(deserializer)?;
		Script::new(s).map_err(serde::de::Error::custom)
	}
}

#[cfg(all(feature = "serde", feature = "std"))]
impl<'de> serde::Deserialize<'de> for ScriptBuf {
	fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
		let s: String = serde::Deserialize::deserialize(deserializer)?;
		ScriptBuf::new(s.trim().to_owned()).map_err(serde::de::Error::custom)
	}
}
''')],
 '''use langtag::{Script, ScriptBuf};
fn main() {
	for text in ["Latn", "latn", "Lat", " Latn", "Latn\\\\n", "Latn ", ""] {
		let json = format!("\\"{text}\\"");
		let plain: String = serde_json::from_str(&json).unwrap();
		let got: Result<ScriptBuf, _> = serde_json::from_str(&json);
		assert_eq!(got.is_ok(), Script::new(plain.as_str()).is_ok(), "{json}");
	}
}
''', feat=', features = ["serde"]', deps='\nserde_json = "1"')
GRAM='''#!/bin/bash
# The shipped grammar against the compiled recogniser of one rule.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin" CARGO_NET_OFFLINE=true
[ -z "$RUSTUP_TOOLCHAIN" ] && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" || exit 2
cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
langtag = { path = "$repo" }
[profile.dev]
debug = false
[workspace]
EOF
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || exit 2
python3 "$here/abnf.py" "$repo/src/grammar.abnf" singleton extension >"$d/lines" || exit 2
timeout 60 "$d/target/debug/demo" <"$d/lines"
'''
ABNF='''"""abnf.py FILE RULE...: prints, for every one-character text followed by -aa, whether the grammar's
rule `extension` matches it (a matcher for the ABNF of RFC 5234, by regular expressions)."""
import re, sys
rules = {}
name = None
for line in open(sys.argv[1]):
    out, q = '', False
    for ch in line.rstrip('\\n'):
        if ch == '"': q = not q
        if ch == ';' and not q: break
        out += ch
    if re.match(r'[A-Za-z][A-Za-z0-9-]*\\s*=', out):
        name, body = out.split('=', 1)
        name = name.strip().lower(); rules[name] = body
    elif name and out.strip():
        rules[name] += ' ' + out
core = {'alpha': '[A-Za-z]', 'digit': '[0-9]'}
TOK = re.compile(r'\\s*(?:(%s"[^"]*"|%i"[^"]*"|"[^"]*")|(%[xd][0-9A-Fa-f.-]+)|([A-Za-z][A-Za-z0-9-]*)|([0-9]*\\*[0-9]*|[0-9]+)|([][()/]))')
def parse(s):
    toks = []; i = 0; s = s.strip()
    while i < len(s):
        m = TOK.match(s, i); assert m, s[i:]
        toks.append((m.lastindex, m.group(m.lastindex))); i = m.end()
    pos = 0
    def alt(stop):
        nonlocal pos
        branches = [cat(stop)]
        while pos < len(toks) and toks[pos] == (5, '/'):
            pos += 1; branches.append(cat(stop))
        return '(?:' + '|'.join(branches) + ')'
    def cat(stop):
        out = ''
        while pos < len(toks) and toks[pos] not in ((5, '/'), (5, ')'), (5, ']')):
            out += rep()
        return out
    def rep():
        nonlocal pos
        q = ''
        if toks[pos][0] == 4:
            r = toks[pos][1]; pos += 1
            if '*' in r:
                lo, hi = r.split('*'); q = '{%s,%s}' % (lo or '0', hi)
            else: q = '{%s}' % r
        k, t = toks[pos]; pos += 1
        if k == 1:
            e = re.escape(t[3:-1]) if t.startswith('%s') else '(?i:' + re.escape(t.strip('%i')[1:-1]) + ')'
        elif k == 2:
            base = 16 if t[1] in 'xX' else 10; body = t[2:]
            if '-' in body:
                a, b = body.split('-'); e = '[%s-%s]' % (re.escape(chr(int(a, base))), re.escape(chr(int(b, base))))
            else: e = ''.join(re.escape(chr(int(p, base))) for p in body.split('.'))
        elif k == 3:
            e = core.get(t.lower()) or parse(rules[t.lower()])
        elif t == '(':
            e = alt(')'); pos += 1
        else:
            e = alt(']') + '?'; pos += 1
        return '(?:' + e + ')' + q
    return alt('')
rx = re.compile(parse(rules['extension']))
for c in range(33, 127):
    for tail in ('-aa', '-a', '-abcdefgh', '-aa-ABCDEFGZ', '-abcdefghi', '-aa-1z', ''):
        w = chr(c) + tail
        print(int(bool(rx.fullmatch(w))), w)
'''
seed('c22-eighth-z','C22','an extension (parsed on its own) that has a subtag of eight characters whose last one is an upper-case Z',
 'the compiled recogniser of a single extension no longer accepts what the extension rule of the shipped grammar describes',
 [(GR,('''			9u32 => match token {
				'-' => 2u32,
				'0'..='9' | 'A'..='Z' | 'a'..='z' => 10u32,
				_ => return false,
			},
			10u32 => match token {
				'-' => 2u32,
				_ => return false,
			},
			_ => return false,
		};
		true
	}
	pub const fn is_accepting(&self) -> bool {
		matches!(self.state, 4u32 | 5u32 | 6u32 | 7u32 | 8u32 | 9u32 | 10u32)''',0),'''			9u32 => match token {
				'-' => 2u32,
				'0'..='9' | 'A'..='Y' | 'a'..='z' => 10u32,
				_ => return false,
			},
			10u32 => match token {
				'-' => 2u32,
				_ => return false,
			},
			_ => return false,
		};
		true
	}
	pub const fn is_accepting(&self) -> bool {
		matches!(self.state, 4u32 | 5u32 | 6u32 | 7u32 | 8u32 | 9u32 | 10u32)''')],
 '''use langtag::Extension;
fn main() {
	let mut n = 0;
	for line in std::io::stdin().lines() {
		let line = line.unwrap();
		let (want, text) = line.split_once(' ').unwrap();
		assert_eq!(Extension::new(text).is_ok(), want == "1", "{text}");
		n += 1;
	}
	assert!(n > 500);
}
''', sh=GRAM, files={'abnf.py': ABNF})
seed('c02-long-variant','C02','a variant list that contains a variant of nine characters which starts with a digit and is not the first of its list',
 'the automaton of variant lists returns to the wrong state after a hyphen and four characters starting with a digit',
 [(GR,('''			13u32 => match token {
				'-' => 8u32,
				'0'..='9' | 'A'..='Z' | 'a'..='z' => 7u32,
				_ => return false,
			},
			_ => return false,
		};
		true
	}
	pub const fn is_accepting(&self) -> bool {
		matches!(self.state, 0u32 | 7u32 | 9u32 | 10u32 | 11u32 | 13u32)''',0),'''			13u32 => match token {
				'-' => 8u32,
				'0'..='9' | 'A'..='Z' | 'a'..='z' => 4u32,
				_ => return false,
			},
			_ => return false,
		};
		true
	}
	pub const fn is_accepting(&self) -> bool {
		matches!(self.state, 0u32 | 7u32 | 9u32 | 10u32 | 11u32 | 13u32)''')],
 '''use langtag::{Variant, Variants};
fn main() {
	for n in 0..12 {
		for first in ["1", "a"] {
			let w = format!("{first}{}", "b".repeat(n));
			let one = Variant::new(w.as_str()).is_ok();
			assert_eq!(Variants::new(w.as_str()).is_ok(), one, "{w}");
			for list in [format!("abcde-{w}"), format!("{w}-abcde"), format!("1abc-{w}-1abc")] {
				assert_eq!(Variants::new(list.as_str()).is_ok(), one, "{list}");
			}
		}
	}
}
''')
GUARD='''
// a page of memory followed by an inaccessible one
unsafe extern "C" {
	fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
	fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
/// The text, twice: at the end of a page before (and at the start of a page after) an inaccessible one.
fn guarded(t: &str) -> [&'static str; 2] {
	unsafe {
		let p = mmap(std::ptr::null_mut(), 3 * 4096, 3, 0x22, -1, 0);
		assert!(p as isize != -1);
		let (e, s) = (p.add(4096 - t.len()), p.add(2 * 4096));
		t.as_ptr().copy_to(e, t.len());
		t.as_ptr().copy_to(s, t.len());
		assert!(mprotect(p.add(4096), 4096, 0) == 0);
		[e, s].map(|x| std::str::from_utf8_unchecked(std::slice::from_raw_parts(x, t.len())))
	}
}
'''
seed('c26-eight-at-a-time','C26','comparing texts whose length is not a multiple of eight and that end at the end of a mapping',
 'case_insensitive_eq loads the last, incomplete group of bytes as eight bytes and ignores what lies behind the text',
 [(U,'''		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}

		true''','''		let load = |t: &[u8], i: usize| unsafe { t.as_ptr().add(i).cast::<[u8; 8]>().read() };
		let mut i = 0;
		while i < a.len() {
			let n = (a.len() - i).min(8);
			let (x, y) = (load(a, i), load(b, i));
			if x[..n].iter().zip(&y[..n]).any(|(x, y)| into_smallcase(*x) != into_smallcase(*y)) {
				return false;
			}
			i += 8;
		}

		true''')],
 GUARD+'''
fn main() {
	for t in ["fr", "fr-FR", "zh-Hant-TW", "de-1996-x-a"] {
		for g in guarded(t) {
			let (a, b) = (langtag::LangTag::new(g).unwrap(), langtag::LangTag::new(g).unwrap());
			assert!(a == b && a == t, "{t}");
		}
	}
}
''')
seed('c26-looks-behind','C26','listing the variants of a list from the back, the list lying at the start of a mapping',
 'find_segment_start tests the byte before the list for a hyphen',
 [(N,'''			if i > 0 {
				i -= 1
			} else {
				break 0;
			}''','''			// SAFETY: a list is preceded by a hyphen
			if unsafe { *bytes.as_ptr().add(i).sub(1) } == b'-' || i == 0 {
				break i;
			}

			i -= 1''')],
 GUARD+'''
fn main() {
	for t in ["abcde", "1996", "1996-abcde", "abcde-1996-abcdefgh"] {
		for g in guarded(t) {
			let l = langtag::Variants::new(g).unwrap();
			let mut v: Vec<_> = l.iter().rev().map(|x| x.as_str()).collect();
			v.reverse();
			assert_eq!(v.join("-"), t);
		}
	}
}
''')
seed('c01-extlang-lookalike','C01','the extended language subtag "gau" after the language "cel" (the start of the grandfathered tag cel-gaulish), followed by a script or region',
 'the automaton of language tags takes a hyphen after "cel-gau" to the state of variants',
 [(GR,'''				'-' => 78u32,
				'0'..='9' => 45u32,
				'A'..='K''','''				'-' => 40u32,
				'0'..='9' => 45u32,
				'A'..='K''')],
 '''use langtag::{LangTag, NormalLangTag};
fn main() {
	for l in ["cel", "cel-gau", "cel-gav", "art-loj", "zh-min", "zh-xia", "no-bok", "zh-guo"] {
		for rest in ["", "-Latn", "-FR", "-419", "-Latn-FR", "-abcde", "-1996", "-a-bb", "-x-y"] {
			let t = format!("{l}{rest}");
			assert!(NormalLangTag::new(t.as_str()).is_ok(), "{t}");
			assert!(LangTag::new(t.as_str()).is_ok(), "{t}");
		}
	}
}
''')
seed('c23-distinct-variants','C23','a tag whose variants repeat (or contain) an earlier one',
 'the variants end before a subtag whose text already occurred among them',
 [(N,'''find_list_end(&self.0, offset, |_, segment| Variant::new(segment).is_ok());''','''find_list_end(&self.0, offset, |i, segment| {
			Variant::new(segment).is_ok() && !self.0[offset..i].contains(segment)
		});''')],
 '''use langtag::NormalLangTag;
fn main() {
	for vs in [&["1996"][..], &["abcde", "1996"], &["1996", "1996"], &["abcdefgh", "abcdef"], &["nedis", "rozaj", "nedis"]] {
		let t = format!("sl-Latn-IT-{}-a-bb-x-c", vs.join("-"));
		let tag = NormalLangTag::new(t.as_str()).unwrap();
		assert_eq!(tag.variants().iter().map(|v| v.as_str()).collect::<Vec<_>>(), vs, "{t}");
		assert_eq!(tag.extensions().as_str(), "a-bb", "{t}");
	}
}
''')
seed('c18-trimmed-error','C18','a failing conversion of a text with surrounding white space into a grandfathered tag',
 'the error of the conversion gives back a trimmed input',
 [(G,'Err(InvalidGrandfatheredTag(bytes))','Err(InvalidGrandfatheredTag(bytes.trim_ascii()))')],
 '''use langtag::GrandfatheredLangTag;
fn main() {
	for t in ["", "fr", " ", "i-ami ", "\\ti-ami", "zh min", "\\u{a0}"] {
		assert!(matches!(GrandfatheredLangTag::try_from(t.as_bytes()), Err(e) if e.0 == t.as_bytes()), "{t:?}");
		assert!(matches!(GrandfatheredLangTag::new(t), Err(e) if e == t), "{t:?}");
	}
}
''')
seed('c27-remembers-last','C27','two threads that look up different grandfathered tags, one between the two loads of the other',
 'the last tag found is tried first; its index is loaded once for the comparison and once more for the answer',
 [(G,'''		for tag in &GRANDFATHERED {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				return Ok(*tag);
			}
		}''','''		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static LAST: AtomicUsize = AtomicUsize::new(0);
		if utils::case_insensitive_eq(GRANDFATHERED[LAST.load(Relaxed)].as_bytes(), bytes) {
			return Ok(GRANDFATHERED[LAST.load(Relaxed)]);
		}

		for (i, tag) in GRANDFATHERED.iter().enumerate() {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				LAST.store(i, Relaxed);
				return Ok(*tag);
			}
		}''')],
 '''use langtag::{GRANDFATHERED, GrandfatheredLangTag};
use std::time::{Duration, Instant};
fn main() {
	let start = Instant::now();
	std::thread::scope(|s| {
		for i in 0..8usize {
			s.spawn(move || {
				let mut n = i;
				while start.elapsed() < Duration::from_secs(20) {
					for _ in 0..10000 {
						n = n % 3 + 1;
						let t = GRANDFATHERED[if i < 4 { n } else { 8 + n }];
						if GrandfatheredLangTag::new(t.as_str()).ok() != Some(t) {
							eprintln!("{t} read as something else");
							std::process::exit(1);
						}
					}
				}
			});
		}
	});
}
''')
seed('c27-locked-while-hashing','C27','a user hasher that hashes another tag (or panics) while it is fed one',
 'hashing holds the lock of a shared buffer while it calls the hasher of the user',
 [(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}''','''	#[cfg(feature = "std")]
	{
		static LOWER: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
		let mut lower = LOWER.lock().unwrap();
		lower.clear();
		lower.extend(bytes.iter().map(|b| into_smallcase(*b)));
		for b in lower.iter() {
			b.hash(hasher)
		}
	}
	#[cfg(not(feature = "std"))]
	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}''')],
 '''use langtag::LangTag;
use std::hash::{DefaultHasher, Hash, Hasher};
struct Nested(Vec<u8>, bool);
impl Hasher for Nested {
	fn write(&mut self, b: &[u8]) {
		self.0.extend(b);
		if self.1 {
			LangTag::new("de-DE").unwrap().hash(&mut Nested(vec![], false));
		}
	}
	fn finish(&self) -> u64 {
		let mut h = DefaultHasher::new();
		self.0.hash(&mut h);
		h.finish()
	}
}
fn main() {
	// a call that waits for itself never ends
	std::thread::spawn(|| {
		std::thread::sleep(std::time::Duration::from_secs(10));
		std::process::exit(1)
	});
	let [a, b] = [true, false].map(|n| {
		let mut h = Nested(vec![], n);
		LangTag::new("fr-FR").unwrap().hash(&mut h);
		h.finish()
	});
	assert_eq!(a, b);
}
''')
if __name__ == '__main__':
    out = '/verif/seeded'
    keep = set(sys.argv[1:])
    for id, prop, needs, breaks, edits, main, feat, deps, sh, files in SEEDS:
        if keep and id not in keep: continue
        d = f'{out}/{id}'; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in edits:
            p = f'{t}/r/{f}'; s = open(p).read()
            if isinstance(old, tuple): old, w = old; parts = s.split(old); s = old.join(parts[:w+1]) + new + old.join(parts[w+1:])
            else:
                assert s.count(old) == 1, (id, f, s.count(old)); s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff', '--no-color'], text=True); assert diff
        shutil.rmtree(t)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(main)
        open(d + '/demo.sh', 'w').write((sh or SH).replace('@FEAT@', feat).replace('@DEPS@', deps))
        os.chmod(d + '/demo.sh', 0o755)
        for f, c in files.items(): open(f'{d}/{f}', 'w').write(c)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1); open(d + '/meta.json', 'a').write('\n')
    print(len(SEEDS))
