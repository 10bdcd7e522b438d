//! Observation of values through the public accessors, and what the model expects.
use crate::spec::{self, Dec, GRANDFATHERED, R};
use langtag::*;

/// Answer of an accessor: a range of the value's text, or one of the specials below.
pub type Ans = (&'static str, u32, u32);
const NONE: u32 = u32::MAX;
const FOREIGN: u32 = u32::MAX - 1;
const EMPTY: u32 = u32::MAX - 2;

/// language, script, region, variants, extensions, private use
pub const G_COMP: u32 = 1;
/// primary, extension, extension subtags
pub const G_LANG: u32 = 2;
/// classification
pub const G_KIND: u32 = 4;
/// variants of the list
pub const G_VARS: u32 = 8;
/// extensions of the list and their parts
pub const G_EXTS: u32 = 16;
/// lookups by all identifiers
pub const G_GET: u32 = 32;
/// private use subtags
pub const G_PU: u32 = 64;
pub const G_ALL: u32 = 127;

pub struct Out<'a> {
	base: &'a [u8],
	pub v: Vec<Ans>,
	max: usize,
}
impl Out<'_> {
	fn flag(&mut self, n: &'static str, b: bool) {
		self.v.push((n, b as u32, 0));
	}
	fn num(&mut self, n: &'static str, x: u32) {
		self.v.push((n, x, 0));
	}
	fn piece(&mut self, n: &'static str, p: &[u8]) {
		self.v.push(locate(n, self.base, p));
	}
	fn list(&mut self, n: &'static str, p: &[u8]) {
		if p.is_empty() {
			self.v.push((n, EMPTY, 0));
		} else {
			self.piece(n, p);
		}
	}
	fn none(&mut self, n: &'static str) {
		self.v.push((n, NONE, 0));
	}
	fn end(&mut self, n: &'static str) {
		self.v.push((n, NONE, 1));
	}
	fn opt(&mut self, n: &'static str, p: Option<&[u8]>) {
		match p {
			Some(p) => self.piece(n, p),
			None => self.none(n),
		}
	}
	/// All items of an iterator; a runaway iterator is cut.
	fn items<'x>(&mut self, n: &'static str, mut it: impl Iterator<Item = &'x [u8]>) {
		let mut k = 0;
		while let Some(p) = it.next() {
			self.piece(n, p);
			k += 1;
			if k > self.max {
				self.num("runaway iterator", k as u32);
				return;
			}
		}
		self.end(n);
	}
}
fn locate(n: &'static str, base: &[u8], p: &[u8]) -> Ans {
	let (b, q) = (base.as_ptr() as usize, p.as_ptr() as usize);
	if q >= b && q + p.len() <= b + base.len() && p.len() < FOREIGN as usize {
		(n, (q - b) as u32, (q - b + p.len()) as u32)
	} else {
		(n, FOREIGN, (crate::run::fx(&p.to_ascii_lowercase()) >> 32) as u32)
	}
}

pub fn singletons() -> impl Iterator<Item = u8> {
	(b'0'..=b'9').chain(b'A'..=b'Z').chain(b'a'..=b'z').filter(|c| !c.eq_ignore_ascii_case(&b'x'))
}

fn language(l: &Language, g: u32, o: &mut Out) {
	if g & G_LANG != 0 {
		o.piece("primary", l.primary().as_bytes());
		o.opt("extension", l.extension().map(|x| x.as_bytes()));
		o.items("extension_subtags", l.extension_subtags().map(|x| x.as_bytes()));
		if let Some(e) = l.extension() {
			o.items("extension.iter", e.iter().map(|x| x.as_bytes()));
		}
	}
}
fn variants(v: &Variants, g: u32, o: &mut Out) {
	if g & G_VARS != 0 {
		o.items("variant", v.iter().map(|x| x.as_bytes()));
		o.items("variant (reversed)", v.iter().rev().map(|x| x.as_bytes()));
		o.opt("first variant", v.first().map(|x| x.as_bytes()));
		o.opt("last variant", v.last().map(|x| x.as_bytes()));
	}
}
fn extension(e: &Extension, o: &mut Out) {
	o.num("singleton", e.singleton().unwrap() as u32);
	o.items("extension subtag", e.iter().map(|x| x.as_bytes()));
}
fn extensions(e: &Extensions, g: u32, o: &mut Out) {
	if g & G_EXTS != 0 {
		let mut k = 0;
		for x in e.iter() {
			o.piece("extensions item", x.as_bytes());
			extension(x, o);
			k += 1;
			if k > o.max {
				o.num("runaway iterator", k as u32);
				return;
			}
		}
		o.end("extensions item");
	}
	if g & G_GET != 0 {
		for c in singletons() {
			let Ok(s) = Singleton::new(c) else {
				o.none("Singleton::new");
				continue;
			};
			match e.get(s) {
				Some(x) => {
					o.num("get", c as u32);
					o.piece("get", x.as_bytes());
					extension(x, o);
				}
				None => o.none("get"),
			}
			o.items("iter_extension", e.iter_extension(s).map(|x| x.as_bytes()));
		}
	}
}
fn private_use(p: &PrivateUse, g: u32, o: &mut Out) {
	if g & G_PU != 0 {
		o.items("private use subtag", p.iter().map(|x| x.as_bytes()));
	}
}
fn normal(t: &NormalLangTag, g: u32, o: &mut Out) {
	let l = t.language();
	if g & G_COMP != 0 {
		o.piece("language", l.as_bytes());
		o.opt("script", t.script().map(|x| x.as_bytes()));
		o.opt("region", t.region().map(|x| x.as_bytes()));
		o.list("variants", t.variants().as_bytes());
		o.list("extensions", t.extensions().as_bytes());
		o.opt("private_use", t.private_use().map(|x| x.as_bytes()));
	}
	language(l, g, o);
	if g & G_VARS != 0 {
		variants(t.variants(), g, o);
	}
	if g & (G_EXTS | G_GET) != 0 {
		extensions(t.extensions(), g, o);
	}
	if g & G_PU != 0 {
		o.items("private_use_subtags", t.private_use_subtags().map(|x| x.as_bytes()));
		if let Some(p) = t.private_use() {
			private_use(p, g, o);
		}
	}
}
fn gf_index(t: GrandfatheredLangTag) -> u32 {
	GRANDFATHERED.iter().position(|(s, _)| *s == t.as_str()).map_or(999, |x| x as u32)
}
fn lang_tag(t: &LangTag, g: u32, o: &mut Out) {
	if g & G_KIND != 0 {
		o.flag("is_normal", t.is_normal());
		o.flag("is_private_use", t.is_private_use());
		o.flag("is_grandfathered", t.is_grandfathered());
		o.opt("as_normal", t.as_normal().map(|x| x.as_bytes()));
		o.opt("as_private_use", t.as_private_use().map(|x| x.as_bytes()));
		o.num("as_grandfathered", t.as_grandfathered().map_or(NONE, gf_index));
		let kind = |k: Kind| match k {
			Kind::Normal => 1,
			Kind::PrivateUse => 2,
			Kind::Grandfathered => 3,
		};
		o.num("kind", kind(t.kind()));
		o.num("kind().is_*", t.kind().is_normal() as u32 | (t.kind().is_private_use() as u32) << 1 | (t.kind().is_grandfathered() as u32) << 2);
		let y = t.as_typed();
		o.num("as_typed().kind()", kind(y.kind()));
		o.flag("as_typed().is_normal", y.is_normal());
		o.flag("as_typed().is_private_use", y.is_private_use());
		o.flag("as_typed().is_grandfathered", y.is_grandfathered());
		o.opt("as_typed().as_normal", y.as_normal().map(|x| x.as_bytes()));
		o.opt("as_typed().as_private_use", y.as_private_use().map(|x| x.as_bytes()));
		o.num("as_typed().as_grandfathered", y.as_grandfathered().map_or(NONE, gf_index));
		match y {
			TypedLangTag::Normal(x) => o.piece("typed normal", x.as_bytes()),
			TypedLangTag::PrivateUse(x) => o.piece("typed private use", x.as_bytes()),
			TypedLangTag::Grandfathered(x) => o.num("typed grandfathered", gf_index(x)),
		}
		o.opt("as_typed().language", y.language().map(|x| x.as_bytes()));
		o.opt("language", t.language().map(|x| x.as_bytes()));
	}
	if g & G_LANG != 0 {
		match t.language() {
			Some(l) if locate("", o.base, l.as_bytes()).1 != FOREIGN => language(l, g, o),
			Some(_) => o.none("primary"), // text checked by kind and C06
			None => o.end("primary"),
		}
	}
	if t.is_private_use() || !t.is_normal() {
		return;
	}
	if g & G_COMP != 0 {
		o.opt("language", t.language().map(|x| x.as_bytes()));
		o.opt("script", t.script().map(|x| x.as_bytes()));
		o.opt("region", t.region().map(|x| x.as_bytes()));
		o.list("variants", t.variants().as_bytes());
		o.list("extensions", t.extensions().as_bytes());
		o.opt("private_use", t.private_use().map(|x| x.as_bytes()));
	}
	if g & G_VARS != 0 {
		variants(t.variants(), g, o);
	}
	if g & (G_EXTS | G_GET) != 0 {
		extensions(t.extensions(), g, o);
	}
	if g & G_PU != 0 {
		o.items("private_use_subtags", t.private_use_subtags().map(|x| x.as_bytes()));
		if let Some(p) = t.private_use() {
			private_use(p, g, o);
		}
	}
}

/// Everything the accessors of the value say; None if it does not parse.
pub fn observe(ty: usize, w: &[u8], g: u32) -> Option<Vec<Ans>> {
	let mut o = Out { base: w, v: Vec::new(), max: w.len() + 2 };
	match ty {
		spec::LT => lang_tag(LangTag::new(w).ok()?, g, &mut o),
		spec::NORMAL => normal(NormalLangTag::new(w).ok()?, g, &mut o),
		spec::PU => private_use(PrivateUse::new(w).ok()?, g, &mut o),
		spec::LANG => language(Language::new(w).ok()?, g, &mut o),
		spec::EXTLANG => {
			let e = LanguageExtension::new(w).ok()?;
			if g & G_LANG != 0 {
				o.items("extension.iter", e.iter().map(|x| x.as_bytes()));
			}
		}
		spec::VARIANTS => variants(Variants::new(w).ok()?, g, &mut o),
		spec::EXT => {
			let e = Extension::new(w).ok()?;
			if g & G_EXTS != 0 {
				extension(e, &mut o);
			}
		}
		spec::EXTS => extensions(Extensions::new(w).ok()?, g, &mut o),
		spec::GF => {
			let t = GrandfatheredLangTag::new(w).ok()?;
			o.num("grandfathered", gf_index(t));
		}
		_ => {
			if !(crate::types::TYPES[ty].accept)(w) {
				return None;
			}
		}
	}
	Some(o.v)
}

// ---------------------------------------------------------------- the model

struct Exp {
	v: Vec<Ans>,
}
impl Exp {
	fn r(&mut self, n: &'static str, r: R) {
		self.v.push((n, r.0 as u32, r.1 as u32));
	}
	fn opt(&mut self, n: &'static str, r: Option<R>) {
		match r {
			Some(r) => self.r(n, r),
			None => self.v.push((n, NONE, 0)),
		}
	}
	fn list(&mut self, n: &'static str, r: Option<R>) {
		match r {
			Some(r) => self.r(n, r),
			None => self.v.push((n, EMPTY, 0)),
		}
	}
	fn items<'a>(&mut self, n: &'static str, it: impl Iterator<Item = &'a R>) {
		for r in it {
			self.r(n, *r);
		}
		self.v.push((n, NONE, 1));
	}
	fn num(&mut self, n: &'static str, x: u32) {
		self.v.push((n, x, 0));
	}
	fn language(&mut self, w: &[u8], d: &Dec, g: u32) {
		if g & G_LANG != 0 {
			let start = d.lang.0;
			let end = w[start..d.lang.1].iter().position(|c| *c == b'-').map_or(d.lang.1, |i| i + start);
			self.r("primary", (start, end));
			self.opt("extension", d.extlangs.first().map(|f| (f.0, d.lang.1)));
			self.items("extension_subtags", d.extlangs.iter());
			if !d.extlangs.is_empty() {
				self.items("extension.iter", d.extlangs.iter());
			}
		}
	}
	fn variants(&mut self, d: &Dec, g: u32) {
		if g & G_VARS != 0 {
			self.items("variant", d.variants.iter());
			self.items("variant (reversed)", d.variants.iter().rev());
			self.opt("first variant", d.variants.first().copied());
			self.opt("last variant", d.variants.last().copied());
		}
	}
	fn extension(&mut self, w: &[u8], d: &Dec, i: usize) {
		let (r, first, n) = d.exts[i];
		self.num("singleton", w[r.0] as u32);
		self.items("extension subtag", d.extsubs[first..first + n].iter());
	}
	fn extensions(&mut self, w: &[u8], d: &Dec, g: u32) {
		if g & G_EXTS != 0 {
			for i in 0..d.exts.len() {
				self.r("extensions item", d.exts[i].0);
				self.extension(w, d, i);
			}
			self.v.push(("extensions item", NONE, 1));
		}
		if g & G_GET != 0 {
			let mut first = [usize::MAX; 256];
			for (i, e) in d.exts.iter().enumerate() {
				let c = w[e.0.0].to_ascii_lowercase() as usize;
				if first[c] == usize::MAX {
					first[c] = i;
				}
			}
			for c in singletons() {
				let i = first[c.to_ascii_lowercase() as usize];
				if i == usize::MAX {
					self.v.push(("get", NONE, 0));
					self.v.push(("iter_extension", NONE, 1));
				} else {
					self.num("get", c as u32);
					self.r("get", d.exts[i].0);
					self.extension(w, d, i);
					let (_, f, n) = d.exts[i];
					self.items("iter_extension", d.extsubs[f..f + n].iter());
				}
			}
		}
	}
	fn private_use(&mut self, d: &Dec, g: u32) {
		if g & G_PU != 0 {
			self.items("private use subtag", d.pusubs.iter());
		}
	}
	fn comps(&mut self, d: &Dec) {
		self.r("language", d.lang);
		self.opt("script", d.script);
		self.opt("region", d.region);
		self.list("variants", d.variants_range());
		self.list("extensions", d.exts_range());
		self.opt("private_use", d.pu);
	}
	fn pu_of_tag(&mut self, d: &Dec, g: u32) {
		if g & G_PU != 0 {
			self.items("private_use_subtags", d.pusubs.iter());
			if d.pu.is_some() {
				self.private_use(d, g);
			}
		}
	}
}

pub fn gf_of(w: &[u8]) -> Option<usize> {
	GRANDFATHERED.iter().position(|(s, _)| s.as_bytes().eq_ignore_ascii_case(w))
}

/// What the accessors have to say according to the model; None if the text is not of that type.
pub fn expect(ty: usize, w: &[u8], g: u32, d: &mut Dec) -> Option<Vec<Ans>> {
	let mut e = Exp { v: Vec::new() };
	match ty {
		spec::LT => {
			let n = d.parse(w);
			let gf = gf_of(w);
			let mut d2 = Dec::default();
			let p = !n && d2.parse_pu(w) && d2.pu.is_some();
			if !n && !p && gf.is_none() {
				return None;
			}
			let whole = (0, w.len());
			let lang = if n {
				Some((0u32, d.lang.1 as u32))
			} else if let Some(i) = gf {
				GRANDFATHERED[i].1.map(|l| (FOREIGN, (crate::run::fx(l.as_bytes()) >> 32) as u32))
			} else {
				None
			};
			if g & G_KIND != 0 {
				let kind = if n { 1 } else if p { 2 } else { 3 };
				let gfn = gf.map_or(NONE, |x| x as u32);
				e.num("is_normal", n as u32);
				e.num("is_private_use", p as u32);
				e.num("is_grandfathered", gf.is_some() as u32);
				e.opt("as_normal", n.then_some(whole));
				e.opt("as_private_use", p.then_some(whole));
				e.num("as_grandfathered", gfn);
				e.num("kind", kind);
				e.num("kind().is_*", 1 << (kind - 1));
				e.num("as_typed().kind()", kind);
				e.num("as_typed().is_normal", (kind == 1) as u32);
				e.num("as_typed().is_private_use", (kind == 2) as u32);
				e.num("as_typed().is_grandfathered", (kind == 3) as u32);
				e.opt("as_typed().as_normal", n.then_some(whole));
				e.opt("as_typed().as_private_use", p.then_some(whole));
				e.num("as_typed().as_grandfathered", if kind == 3 { gfn } else { NONE });
				match kind {
					1 => e.r("typed normal", whole),
					2 => e.r("typed private use", whole),
					_ => e.num("typed grandfathered", gfn),
				}
				for name in ["as_typed().language", "language"] {
					let (a, b) = lang.unwrap_or((NONE, 0));
					e.v.push((name, a, b));
				}
			}
			if g & G_LANG != 0 {
				if n {
					e.language(w, d, g);
				} else if lang.is_some() {
					e.v.push(("primary", NONE, 0));
				} else {
					e.v.push(("primary", NONE, 1));
				}
			}
			if !n {
				return Some(e.v);
			}
			if g & G_COMP != 0 {
				e.comps(d);
			}
			e.variants(d, g);
			e.extensions(w, d, g);
			e.pu_of_tag(d, g);
		}
		spec::NORMAL => {
			if !d.parse(w) {
				return None;
			}
			if g & G_COMP != 0 {
				e.comps(d);
			}
			e.language(w, d, g);
			e.variants(d, g);
			e.extensions(w, d, g);
			e.pu_of_tag(d, g);
		}
		spec::PU => {
			if !d.parse_pu(w) || d.pu.is_none() {
				return None;
			}
			e.private_use(d, g);
		}
		spec::LANG => {
			if !d.parse_language(w) {
				return None;
			}
			e.language(w, d, g);
		}
		spec::EXTLANG => {
			if !d.parse_extlang(w) {
				return None;
			}
			if g & G_LANG != 0 {
				e.items("extension.iter", d.extlangs.iter());
			}
		}
		spec::VARIANTS => {
			if !d.parse_variants(w) {
				return None;
			}
			e.variants(d, g);
		}
		spec::EXT => {
			if !d.parse_extension(w) {
				return None;
			}
			if g & G_EXTS != 0 {
				e.extension(w, d, 0);
			}
		}
		spec::EXTS => {
			if !d.parse_extensions(w) {
				return None;
			}
			e.extensions(w, d, g);
		}
		spec::GF => e.num("grandfathered", gf_of(w)? as u32),
		_ => {
			if !spec::parser_accepts(ty, w, d) {
				return None;
			}
		}
	}
	Some(e.v)
}

pub fn show_ans(w: &[u8], a: Option<&Ans>) -> String {
	match a {
		None => "(no more answers)".into(),
		Some((n, NONE, 0)) => format!("{n} = None"),
		Some((n, NONE, _)) => format!("{n} = (end)"),
		Some((n, EMPTY, _)) => format!("{n} = empty"),
		Some((n, FOREIGN, _)) => format!("{n} = (text from elsewhere)"),
		Some((n, a, b)) if *b >= *a && *b as usize <= w.len() && *b > 0 => format!("{n} = {:?} at {a}..{b}", crate::run::show(&w[*a as usize..*b as usize])),
		Some((n, a, b)) => format!("{n} = {a},{b}"),
	}
}

/// Compares two lists of answers.
pub fn same(w: &[u8], got: &[Ans], want: &[Ans]) -> Result<(), String> {
	for i in 0..got.len().max(want.len()) {
		if got.get(i) != want.get(i) {
			return Err(format!("{} but expected {}", show_ans(w, got.get(i)), show_ans(w, want.get(i))));
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- single calls

/// One call on a value of a type: what it answers, and under which name in `expect`.
pub struct Fine {
	pub ty: usize,
	pub name: &'static str,
	group: u32,
	id: u8,
	run: fn(&[u8], u8, &mut Out) -> Option<()>,
}
macro_rules! fine {
	($($ty:ident $t:ident $name:literal $g:ident $id:literal |$x:ident, $i:ident, $o:ident| $e:expr;)*) => {
		pub static FINE: &[Fine] = &[$(Fine {
			ty: spec::$ty,
			name: $name,
			group: $g,
			id: $id,
			#[allow(unused_variables)]
			run: |w, $i, $o| {
				let $x = $t::new(w).ok()?;
				$e;
				Some(())
			},
		}),*];
	};
}
fn b<T: ?Sized + AsBytes>(t: &T) -> &[u8] {
	t.bytes()
}
trait AsBytes {
	fn bytes(&self) -> &[u8];
}
macro_rules! as_bytes {
	($($t:ident)*) => { $(impl AsBytes for $t { fn bytes(&self) -> &[u8] { self.as_bytes() } })* };
}
as_bytes!(LangTag NormalLangTag PrivateUse PrivateUseSubtag Language PrimaryLanguage LanguageExtension ExtendedLangTag Script Region Variant Variants Extension Extensions ExtensionSubtag);
fn kind_no(k: Kind) -> u32 {
	match k {
		Kind::Normal => 1,
		Kind::PrivateUse => 2,
		Kind::Grandfathered => 3,
	}
}
fn sing(i: u8) -> Singleton {
	Singleton::new(i).unwrap_or_else(|_| panic!("no identifier {:?}", i as char))
}
fine! {
	LT LangTag "is_normal" G_KIND 0 |x, i, o| o.flag("is_normal", x.is_normal());
	LT LangTag "is_private_use" G_KIND 0 |x, i, o| o.flag("is_private_use", x.is_private_use());
	LT LangTag "is_grandfathered" G_KIND 0 |x, i, o| o.flag("is_grandfathered", x.is_grandfathered());
	LT LangTag "as_normal" G_KIND 0 |x, i, o| o.opt("as_normal", x.as_normal().map(b));
	LT LangTag "as_private_use" G_KIND 0 |x, i, o| o.opt("as_private_use", x.as_private_use().map(b));
	LT LangTag "as_grandfathered" G_KIND 0 |x, i, o| o.num("as_grandfathered", x.as_grandfathered().map_or(NONE, gf_index));
	LT LangTag "kind" G_KIND 0 |x, i, o| o.num("kind", kind_no(x.kind()));
	LT LangTag "as_typed().language" G_KIND 0 |x, i, o| o.opt("as_typed().language", x.as_typed().language().map(b));
	LT LangTag "language" G_KIND 0 |x, i, o| o.opt("language", x.language().map(b));
	LT LangTag "script" G_COMP 0 |x, i, o| o.opt("script", x.script().map(b));
	LT LangTag "region" G_COMP 0 |x, i, o| o.opt("region", x.region().map(b));
	LT LangTag "variants" G_COMP 0 |x, i, o| o.list("variants", x.variants().as_bytes());
	LT LangTag "extensions" G_COMP 0 |x, i, o| o.list("extensions", x.extensions().as_bytes());
	LT LangTag "private_use" G_COMP 0 |x, i, o| o.opt("private_use", x.private_use().map(b));
	LT LangTag "private_use_subtags" G_PU 0 |x, i, o| o.items("private_use_subtags", x.private_use_subtags().map(b));
	NORMAL NormalLangTag "language" G_COMP 0 |x, i, o| o.piece("language", x.language().as_bytes());
	NORMAL NormalLangTag "script" G_COMP 0 |x, i, o| o.opt("script", x.script().map(b));
	NORMAL NormalLangTag "region" G_COMP 0 |x, i, o| o.opt("region", x.region().map(b));
	NORMAL NormalLangTag "variants" G_COMP 0 |x, i, o| o.list("variants", x.variants().as_bytes());
	NORMAL NormalLangTag "extensions" G_COMP 0 |x, i, o| o.list("extensions", x.extensions().as_bytes());
	NORMAL NormalLangTag "private_use" G_COMP 0 |x, i, o| o.opt("private_use", x.private_use().map(b));
	NORMAL NormalLangTag "private_use_subtags" G_PU 0 |x, i, o| o.items("private_use_subtags", x.private_use_subtags().map(b));
	LANG Language "primary" G_LANG 0 |x, i, o| o.piece("primary", x.primary().as_bytes());
	LANG Language "extension" G_LANG 0 |x, i, o| o.opt("extension", x.extension().map(b));
	LANG Language "extension_subtags" G_LANG 0 |x, i, o| o.items("extension_subtags", x.extension_subtags().map(b));
	EXTLANG LanguageExtension "extension.iter" G_LANG 0 |x, i, o| o.items("extension.iter", x.iter().map(b));
	VARIANTS Variants "variant" G_VARS 0 |x, i, o| o.items("variant", x.iter().map(b));
	VARIANTS Variants "variant (reversed)" G_VARS 0 |x, i, o| o.items("variant (reversed)", x.iter().rev().map(b));
	VARIANTS Variants "first variant" G_VARS 0 |x, i, o| o.opt("first variant", x.first().map(b));
	VARIANTS Variants "last variant" G_VARS 0 |x, i, o| o.opt("last variant", x.last().map(b));
	EXTS Extensions "extensions item" G_EXTS 0 |x, i, o| o.items("extensions item", x.iter().map(b));
	EXTS Extensions "get" G_GET b'a' |x, i, o| o.opt("get", x.get(sing(i)).map(b));
	EXTS Extensions "get" G_GET b'b' |x, i, o| o.opt("get", x.get(sing(i)).map(b));
	EXTS Extensions "get" G_GET b'B' |x, i, o| o.opt("get", x.get(sing(i)).map(b));
	EXTS Extensions "get" G_GET b'1' |x, i, o| o.opt("get", x.get(sing(i)).map(b));
	EXTS Extensions "iter_extension" G_GET b'a' |x, i, o| o.items("iter_extension", x.iter_extension(sing(i)).map(b));
	EXTS Extensions "iter_extension" G_GET b'B' |x, i, o| o.items("iter_extension", x.iter_extension(sing(i)).map(b));
	EXT Extension "singleton" G_EXTS 0 |x, i, o| o.num("singleton", x.singleton().unwrap() as u32);
	EXT Extension "extension subtag" G_EXTS 0 |x, i, o| o.items("extension subtag", x.iter().map(b));
	PU PrivateUse "private use subtag" G_PU 0 |x, i, o| o.items("private use subtag", x.iter().map(b));
	GF GrandfatheredLangTag "grandfathered" G_KIND 0 |x, i, o| o.num("grandfathered", gf_index(x));
}
impl Fine {
	/// None if the text does not parse.
	pub fn run(&self, w: &[u8]) -> Option<Vec<Ans>> {
		let mut o = Out { base: w, v: Vec::new(), max: w.len() + 2 };
		(self.run)(w, self.id, &mut o)?;
		Some(o.v)
	}
	pub fn want(&self, w: &[u8], d: &mut Dec) -> Option<Vec<Ans>> {
		let mut all = expect(self.ty, w, self.group | if self.ty == spec::LT { G_KIND } else { 0 }, d)?;
		if self.id != 0 {
			// the lookups of `expect` follow each other in the order of `singletons`
			let mut lookups = singletons();
			let mut cur = 0;
			let mut v = vec![];
			let mut fresh = true;
			for a in all {
				if fresh {
					cur = lookups.next().unwrap_or(0);
					fresh = false;
				}
				if cur == self.id && a.0 == self.name && !(a.0 == "get" && a.1 == cur as u32 && a.2 == 0) {
					v.push(a);
				}
				if a.0 == "iter_extension" && a.1 == NONE {
					fresh = true;
				}
			}
			return Some(v);
		}
		if self.ty == spec::LT && self.group != G_KIND && !all.iter().any(|a| a.0 == "is_normal" && a.1 == 1) {
			// tags that are not normal have no components
			let none = match self.name {
				"variants" | "extensions" => (self.name, EMPTY, 0),
				"private_use_subtags" => (self.name, NONE, 1),
				_ => (self.name, NONE, 0),
			};
			return Some(vec![none]);
		}
		all.retain(|a| a.0 == self.name);
		Some(all)
	}
}
