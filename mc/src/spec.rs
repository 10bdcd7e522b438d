//! The specification models: one DFA per type (M1) and the subtag-level parser (M2).
use crate::model::{Dfa, parse_abnf};
use std::sync::OnceLock;

pub const LT: usize = 0;
pub const NORMAL: usize = 1;
pub const PU: usize = 2;
pub const PUSUB: usize = 3;
pub const LANG: usize = 4;
pub const PRIMARY: usize = 5;
pub const EXTLANG: usize = 6;
pub const EXTLANGTAG: usize = 7;
pub const SCRIPT: usize = 8;
pub const REGION: usize = 9;
pub const VARIANT: usize = 10;
pub const VARIANTS: usize = 11;
pub const EXT: usize = 12;
pub const EXTSUB: usize = 13;
pub const EXTS: usize = 14;
pub const GF: usize = 15;
pub const NTYPES: usize = 15;

pub const RULES: [&str; 16] = [
	"language-tag", "langtag", "privateuse", "privateuse-subtag", "language", "primary", "extlang", "extlang-tag",
	"script", "region", "variant", "variants", "extension", "extension-subtag", "extensions", "grandfathered",
];

pub fn dfas() -> &'static [Dfa] {
	static S: OnceLock<Vec<Dfa>> = OnceLock::new();
	S.get_or_init(|| {
		let rules = parse_abnf(include_str!("rfc5646.abnf")).expect("RFC ABNF");
		RULES.iter().map(|r| Dfa::from_rules(&rules, r).expect(r)).collect()
	})
}

/// RFC 5646 grandfathered tags with the language of the regular ones.
pub const GRANDFATHERED: [(&str, Option<&str>); 26] = [
	("en-GB-oed", None), ("i-ami", None), ("i-bnn", None), ("i-default", None), ("i-enochian", None), ("i-hak", None),
	("i-klingon", None), ("i-lux", None), ("i-mingo", None), ("i-navajo", None), ("i-pwn", None), ("i-tao", None),
	("i-tay", None), ("i-tsu", None), ("sgn-BE-FR", None), ("sgn-BE-NL", None), ("sgn-CH-DE", None),
	("art-lojban", Some("art")), ("cel-gaulish", Some("cel")), ("no-bok", Some("no")), ("no-nyn", Some("no")),
	("zh-guoyu", Some("zh")), ("zh-hakka", Some("zh")), ("zh-min", Some("zh")), ("zh-min-nan", Some("zh")), ("zh-xiang", Some("zh")),
];

pub type R = (usize, usize);

/// Decomposition of a normal tag, by ranges of its text.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Dec {
	pub len: usize,
	pub lang: R,
	pub extlangs: Vec<R>,
	pub script: Option<R>,
	pub region: Option<R>,
	pub variants: Vec<R>,
	/// (range of the extension, first subtag, number of subtags)
	pub exts: Vec<(R, usize, usize)>,
	pub extsubs: Vec<R>,
	pub pu: Option<R>,
	pub pusubs: Vec<R>,
	segs: Vec<R>,
}

fn alpha(s: &[u8]) -> bool {
	s.iter().all(|c| c.is_ascii_alphabetic())
}
fn digit(s: &[u8]) -> bool {
	s.iter().all(|c| c.is_ascii_digit())
}
fn alnum(s: &[u8]) -> bool {
	s.iter().all(|c| c.is_ascii_alphanumeric())
}
pub fn is_x(s: &[u8]) -> bool {
	s == b"x" || s == b"X"
}
pub fn is_singleton(s: &[u8]) -> bool {
	s.len() == 1 && alnum(s) && !is_x(s)
}
pub fn is_variant(s: &[u8]) -> bool {
	alnum(s) && ((5..=8).contains(&s.len()) || (s.len() == 4 && s[0].is_ascii_digit()))
}
pub fn is_extsub(s: &[u8]) -> bool {
	alnum(s) && (2..=8).contains(&s.len())
}

pub fn split(w: &[u8], out: &mut Vec<R>) {
	out.clear();
	let mut st = 0;
	for (i, &c) in w.iter().enumerate() {
		if c == b'-' {
			out.push((st, i));
			st = i + 1;
		}
	}
	out.push((st, w.len()));
}

impl Dec {
	/// Parses extensions and private use from segment `i`; true if all is consumed.
	fn tail(&mut self, w: &[u8], mut i: usize, exts: bool, pu: bool) -> bool {
		let n = self.segs.len();
		let s = |r: R| &w[r.0..r.1];
		while exts && i < n && is_singleton(s(self.segs[i])) {
			let start = self.segs[i].0;
			let first = self.extsubs.len();
			i += 1;
			while i < n && is_extsub(s(self.segs[i])) {
				self.extsubs.push(self.segs[i]);
				i += 1;
			}
			let k = self.extsubs.len() - first;
			if k == 0 {
				return false;
			}
			self.exts.push(((start, self.segs[i - 1].1), first, k));
		}
		if pu && i < n && is_x(s(self.segs[i])) {
			let start = self.segs[i].0;
			i += 1;
			while i < n && alnum(s(self.segs[i])) && (1..=8).contains(&(self.segs[i].1 - self.segs[i].0)) {
				self.pusubs.push(self.segs[i]);
				i += 1;
			}
			if self.pusubs.is_empty() {
				return false;
			}
			self.pu = Some((start, w.len()));
		}
		i == n
	}
	fn clear(&mut self, w: &[u8]) {
		let mut segs = std::mem::take(&mut self.segs);
		split(w, &mut segs);
		self.segs = segs;
		self.len = w.len();
		self.lang = (0, 0);
		self.extlangs.clear();
		self.script = None;
		self.region = None;
		self.variants.clear();
		self.exts.clear();
		self.extsubs.clear();
		self.pu = None;
		self.pusubs.clear();
	}
	/// Parses `w` as a `langtag`.
	pub fn parse(&mut self, w: &[u8]) -> bool {
		self.clear(w);
		let n = self.segs.len();
		let s = |r: R| &w[r.0..r.1];
		let p = s(self.segs[0]);
		if !alpha(p) || !(2..=8).contains(&p.len()) {
			return false;
		}
		let mut i = 1;
		if p.len() <= 3 {
			while i < n && i <= 3 && s(self.segs[i]).len() == 3 && alpha(s(self.segs[i])) {
				self.extlangs.push(self.segs[i]);
				i += 1;
			}
		}
		self.lang = (0, self.segs[i - 1].1);
		if i < n && s(self.segs[i]).len() == 4 && alpha(s(self.segs[i])) {
			self.script = Some(self.segs[i]);
			i += 1;
		}
		if i < n {
			let x = s(self.segs[i]);
			if (x.len() == 2 && alpha(x)) || (x.len() == 3 && digit(x)) {
				self.region = Some(self.segs[i]);
				i += 1;
			}
		}
		while i < n && is_variant(s(self.segs[i])) {
			self.variants.push(self.segs[i]);
			i += 1;
		}
		self.tail(w, i, true, true)
	}
	pub fn parse_extensions(&mut self, w: &[u8]) -> bool {
		self.clear(w);
		w.is_empty() || self.tail(w, 0, true, false)
	}
	pub fn parse_extension(&mut self, w: &[u8]) -> bool {
		self.clear(w);
		self.tail(w, 0, true, false) && self.exts.len() == 1
	}
	pub fn parse_pu(&mut self, w: &[u8]) -> bool {
		self.clear(w);
		self.tail(w, 0, false, true)
	}
	pub fn parse_variants(&mut self, w: &[u8]) -> bool {
		self.clear(w);
		if w.is_empty() {
			return true;
		}
		for i in 0..self.segs.len() {
			let r = self.segs[i];
			if !is_variant(&w[r.0..r.1]) {
				return false;
			}
			self.variants.push(r);
		}
		true
	}
	pub fn parse_language(&mut self, w: &[u8]) -> bool {
		let ok = self.parse(w);
		ok && self.lang == (0, w.len())
	}
	pub fn parse_extlang(&mut self, w: &[u8]) -> bool {
		self.clear(w);
		if self.segs.len() > 3 {
			return false;
		}
		for i in 0..self.segs.len() {
			let r = self.segs[i];
			if r.1 - r.0 != 3 || !alpha(&w[r.0..r.1]) {
				return false;
			}
			self.extlangs.push(r);
		}
		true
	}
	pub fn variants_range(&self) -> Option<R> {
		Some((self.variants.first()?.0, self.variants.last()?.1))
	}
	pub fn exts_range(&self) -> Option<R> {
		Some((self.exts.first()?.0.0, self.exts.last()?.0.1))
	}
	/// Compact description, used to count distinct outcomes.
	pub fn shape(&self) -> u64 {
		let mut h = 0u64;
		let mut add = |x: usize| h = h.wrapping_mul(31).wrapping_add(x as u64 + 1);
		add(self.lang.1);
		add(self.extlangs.len());
		add(self.script.is_some() as usize);
		add(self.region.map_or(0, |r| r.1 - r.0));
		for v in &self.variants {
			add(v.1 - v.0)
		}
		add(100);
		for e in &self.exts {
			add(e.2)
		}
		add(200);
		add(self.pusubs.len());
		h
	}
}

/// Model verdict by the subtag-level parser, an oracle independent of the DFAs.
pub fn parser_accepts(ty: usize, w: &[u8], d: &mut Dec) -> bool {
	match ty {
		LT => {
			d.parse(w) || d.parse_pu(w) && d.pu.is_some() || GRANDFATHERED.iter().any(|(g, _)| g.as_bytes().eq_ignore_ascii_case(w))
		}
		NORMAL => d.parse(w),
		PU => d.parse_pu(w) && d.pu.is_some(),
		PUSUB => (1..=8).contains(&w.len()) && alnum(w),
		LANG => d.parse_language(w),
		PRIMARY => (2..=8).contains(&w.len()) && alpha(w),
		EXTLANG => d.parse_extlang(w),
		EXTLANGTAG => w.len() == 3 && alpha(w),
		SCRIPT => w.len() == 4 && alpha(w),
		REGION => (w.len() == 2 && alpha(w)) || (w.len() == 3 && digit(w)),
		VARIANT => is_variant(w),
		VARIANTS => d.parse_variants(w),
		EXT => d.parse_extension(w),
		EXTSUB => is_extsub(w),
		EXTS => d.parse_extensions(w),
		GF => GRANDFATHERED.iter().any(|(g, _)| g.as_bytes().eq_ignore_ascii_case(w)),
		_ => unreachable!(),
	}
}
