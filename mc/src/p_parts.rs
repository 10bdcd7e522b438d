//! Decomposition: C04, C05, C06, C07, C12, C13, C14, C15, C23.
use crate::dom::*;
use crate::obs::*;
use crate::run::*;
use crate::spec::{self, Dec, GRANDFATHERED, dfas};
use crate::types::TYPES;
use langtag::*;
use std::cell::RefCell;

thread_local! {
	static DEC: RefCell<Dec> = RefCell::new(Dec::default());
}
pub fn with_dec<T>(f: impl FnOnce(&mut Dec) -> T) -> T {
	DEC.with(|d| match d.try_borrow_mut() {
		Ok(mut d) => f(&mut d),
		Err(_) => f(&mut Dec::default()),
	})
}

/// Observes the value and compares every answer in the groups `g` with the model.
pub fn conform(c: &Case, o: &mut Obs, g: u32) -> Result<(), String> {
	let ty = c.kind as usize;
	if ty > 15 {
		return Ok(());
	}
	let (want, shape) = with_dec(|d| {
		let e = expect(ty, c.a, g, d);
		(e, d.shape())
	});
	let Some(want) = want else { return Ok(()) };
	let Some(got) = observe(ty, c.a, g) else {
		// recognition is C01 and C02; but the answers do not exist
		return Err(format!("{:?} is well-formed but rejected", show(c.a)));
	};
	o.cover(ty, c.a);
	o.validated += want.len() as u64;
	o.outcome(shape ^ (ty as u64) << 58);
	o.sample(|| format!("{} {:?}: {}", spec::RULES[ty], show(c.a), want.iter().filter(|a| a.1 < u32::MAX - 5).take(12).map(|a| show_ans(c.a, Some(a))).collect::<Vec<_>>().join(", ")));
	same(c.a, &got, &want).map_err(|m| format!("{} {:?}: {m}", spec::RULES[ty], show(c.a)))
}

fn words_dom(ty: usize, thorough: bool) -> Dom {
	let k = ty as u16;
	dom(format!("{}: accepted values (live words, subtag sequences, transition pairs, shapes in context, products, long lists)", spec::RULES[ty]), true, move |s| {
		type_words(ty, if thorough { Depth::Thorough } else { Depth::Quick }, &mut |w| s.word(k, w))
	})
}
fn lite_dom(ty: usize, thorough: bool) -> Dom {
	let k = ty as u16;
	dom(format!("{}: accepted values (smaller bounds)", spec::RULES[ty]), true, move |s| {
		type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.word(k, w))
	})
}
/// Every code of the short kinds in its place, and the subtags in actual use.
fn codes_dom(ty: usize, thorough: bool) -> Dom {
	let k = ty as u16;
	dom(format!("{}: every code of the short kinds, subtags in actual use", spec::RULES[ty]), true, move |s| codes(ty, thorough, &mut |w| s.word(k, w)))
}
/// Every tag byte at every position where the value stays well-formed.
fn position_dom(ty: usize, thorough: bool) -> Dom {
	let k = ty as u16;
	dom(format!("{}: every tag byte at every position of base values", spec::RULES[ty]), true, move |s| {
		let d = &dfas()[ty];
		for w in bases(ty, thorough) {
			let mut x = w.clone();
			for i in 0..w.len() {
				for b in tag_bytes() {
					x[i] = b;
					if d.accepts(&x) {
						s.word(k, &x);
					}
				}
				x[i] = w[i];
			}
			for i in 0..w.len() {
				for b in b"-aX1" {
					let mut y = w.clone();
					y.insert(i, *b);
					if d.accepts(&y) {
						s.word(k, &y);
					}
				}
				let mut y = w.clone();
				y.remove(i);
				if d.accepts(&y) {
					s.word(k, &y);
				}
			}
		}
	})
}
/// Values of many different forms, used as starting points.
pub fn bases(ty: usize, thorough: bool) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	let d = &dfas()[ty];
	match ty {
		spec::LT | spec::NORMAL => {
			let mut w = vec![];
			let mut k = 0;
			products(&parts(thorough), &mut |p| {
				join(&p, &mut w);
				k += 1;
				if k % if thorough { 301 } else { 181 } == 0 {
					v.push(w.clone());
				}
			});
			v.push(b"fr-abc-def-ghi-Latn-FR-abcde-1abc-a-bb-cc-b-dd-x-y-z".to_vec());
			v.push(b"zh-min-nan-Hant-TW-x-x".to_vec());
			if ty == spec::LT {
				v.extend(GRANDFATHERED.iter().map(|g| g.0.as_bytes().to_vec()));
				v.push(b"x-a-bcd-efghijkl-1".to_vec());
			}
		}
		_ => {
			subtag_words(d, &REPS, if thorough { 4 } else { 3 }, &mut |w, a| {
				if a {
					v.push(w.to_vec())
				}
			});
			let n = if thorough { 4000 } else { 600 };
			if v.len() > n {
				let step = v.len() / n + 1;
				v = v.into_iter().step_by(step).collect();
			}
		}
	}
	v
}

pub fn c04_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	conform(c, o, G_COMP)?;
	// the pieces give back the whole
	if let Ok(t) = NormalLangTag::new(c.a) {
		let mut w: Vec<u8> = t.language().as_bytes().to_vec();
		let mut add = |p: &[u8]| {
			if !p.is_empty() {
				w.push(b'-');
				w.extend_from_slice(p);
			}
		};
		if let Some(x) = t.script() {
			add(x.as_bytes())
		}
		if let Some(x) = t.region() {
			add(x.as_bytes())
		}
		add(t.variants().as_bytes());
		add(t.extensions().as_bytes());
		if let Some(x) = t.private_use() {
			add(x.as_bytes())
		}
		if w != c.a {
			return Err(format!("the pieces of {:?} join to {:?}", show(c.a), show(&w)));
		}
	}
	#[cfg(feature = "owned")]
	if c.a.len() < 200 && c.kind as usize == spec::NORMAL {
		if let Ok(b) = NormalLangTagBuf::from_bytes(c.a.to_vec()) {
			let t: &NormalLangTag = &b;
			let got = observe(spec::NORMAL, t.as_bytes(), G_COMP);
			let want = with_dec(|d| expect(spec::NORMAL, c.a, G_COMP, d));
			if got != want {
				return Err(format!("the owned tag {:?} decomposes differently", show(c.a)));
			}
		}
	}
	Ok(())
}
pub fn c04(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in [spec::NORMAL, spec::LT] {
		v.push(words_dom(ty, thorough));
		v.push(position_dom(ty, thorough));
		v.push(codes_dom(ty, thorough));
	}
	v
}

pub fn c05_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	let w = c.a;
	if ty >= 15 || !(TYPES[ty].accept)(w) {
		return Ok(());
	}
	let mut r = Ok(());
	let mut n = 0;
	components(ty, w, &mut |what, cty, p, place| {
		n += 1;
		if r.is_err() {
			return;
		}
		if !(TYPES[cty].accept)(p) || !dfas()[cty].accepts(p) {
			r = Err(format!("{} {:?}: {what} is {:?}, which is not a well-formed {}", TYPES[ty].name, show(w), show(p), TYPES[cty].name));
			return;
		}
		let (b, q) = (w.as_ptr() as usize, p.as_ptr() as usize);
		let inside = q >= b && q + p.len() <= b + w.len();
		if place && !inside && !p.is_empty() {
			r = Err(format!("{} {:?}: {what} {:?} does not borrow from the value", TYPES[ty].name, show(w), show(p)));
		}
		if inside && !p.is_empty() {
			let (i, j) = (q - b, q - b + p.len());
			if (i > 0 && w[i - 1] != b'-') || (j < w.len() && w[j] != b'-') {
				r = Err(format!("{} {:?}: {what} {:?} is not made of whole subtags", TYPES[ty].name, show(w), show(p)));
			}
		}
	});
	o.cover(ty, w);
	o.validated += n;
	o.outcome(n << 8 | ty as u64);
	o.sample(|| format!("{} {:?}: {n} components", TYPES[ty].name, show(w)));
	r
}

/// Enumerates every component a value hands out: (accessor, type, text, must it borrow).
pub fn components(ty: usize, w: &[u8], f: &mut dyn FnMut(&'static str, usize, &[u8], bool)) {
	let lim = w.len() + 2;
	fn lang(l: &Language, b: bool, lim: usize, f: &mut dyn FnMut(&'static str, usize, &[u8], bool)) {
		f("language", spec::LANG, l.as_bytes(), b);
		f("primary", spec::PRIMARY, l.primary().as_bytes(), b);
		if let Some(e) = l.extension() {
			f("extension of the language", spec::EXTLANG, e.as_bytes(), b);
			for x in e.iter().take(lim) {
				f("item of the language extension", spec::EXTLANGTAG, x.as_bytes(), b);
			}
		}
		for x in l.extension_subtags().take(lim) {
			f("extension subtag of the language", spec::EXTLANGTAG, x.as_bytes(), b);
		}
	}
	fn vars(v: &Variants, lim: usize, f: &mut dyn FnMut(&'static str, usize, &[u8], bool)) {
		f("variants", spec::VARIANTS, v.as_bytes(), true);
		for x in v.iter().take(lim) {
			f("variant", spec::VARIANT, x.as_bytes(), true);
		}
		for x in v.iter().rev().take(lim) {
			f("variant (from the back)", spec::VARIANT, x.as_bytes(), true);
		}
		let mut it = v.iter();
		for _ in 0..lim {
			let (a, b) = (it.next(), it.next_back());
			if let Some(x) = a {
				f("variant (alternating, front)", spec::VARIANT, x.as_bytes(), true);
			}
			if let Some(x) = b {
				f("variant (alternating, back)", spec::VARIANT, x.as_bytes(), true);
			}
			if a.is_none() && b.is_none() {
				break;
			}
		}
		if let Some(x) = v.first() {
			f("first variant", spec::VARIANT, x.as_bytes(), true);
		}
		if let Some(x) = v.last() {
			f("last variant", spec::VARIANT, x.as_bytes(), true);
		}
	}
	fn ext(e: &Extension, lim: usize, f: &mut dyn FnMut(&'static str, usize, &[u8], bool)) {
		for x in e.iter().take(lim) {
			f("extension subtag", spec::EXTSUB, x.as_bytes(), true);
		}
	}
	fn exts(e: &Extensions, lim: usize, f: &mut dyn FnMut(&'static str, usize, &[u8], bool)) {
		f("extensions", spec::EXTS, e.as_bytes(), true);
		for x in e.iter().take(lim) {
			f("extension", spec::EXT, x.as_bytes(), true);
			ext(x, lim, f);
			if lim < 300 {
				if let Some(y) = e.get(x.singleton()) {
					f("extension found", spec::EXT, y.as_bytes(), true);
				}
			}
		}
		for c in singletons() {
			let Ok(s) = Singleton::new(c) else { continue };
			if let Some(x) = e.get(s) {
				f("extension found", spec::EXT, x.as_bytes(), true);
				ext(x, lim, f);
			}
			for x in e.iter_extension(s).take(lim) {
				f("subtag of the extension found", spec::EXTSUB, x.as_bytes(), true);
			}
		}
	}
	fn pu(p: &PrivateUse, lim: usize, f: &mut dyn FnMut(&'static str, usize, &[u8], bool)) {
		f("private use", spec::PU, p.as_bytes(), true);
		for x in p.iter().take(lim) {
			f("private use subtag", spec::PUSUB, x.as_bytes(), true);
		}
	}
	macro_rules! tag {
		($t:ident) => {{
			if let Some(x) = $t.script() {
				f("script", spec::SCRIPT, x.as_bytes(), true);
			}
			if let Some(x) = $t.region() {
				f("region", spec::REGION, x.as_bytes(), true);
			}
			vars($t.variants(), lim, f);
			exts($t.extensions(), lim, f);
			if let Some(x) = $t.private_use() {
				pu(x, lim, f);
			}
			for x in $t.private_use_subtags().take(lim) {
				f("private use subtag of the tag", spec::PUSUB, x.as_bytes(), true);
			}
		}};
	}
	match ty {
		spec::LT => {
			let Ok(t) = LangTag::new(w) else { return };
			let gf = t.is_grandfathered();
			if let Some(l) = t.language() {
				lang(l, !gf, lim, f);
			}
			tag!(t);
			if let Some(n) = t.as_normal() {
				f("as_normal", spec::NORMAL, n.as_bytes(), true);
				lang(n.language(), true, lim, f);
			}
			if let Some(n) = t.as_private_use() {
				f("as_private_use", spec::PU, n.as_bytes(), true);
				pu(n, lim, f);
			}
			let y = t.as_typed();
			if let Some(n) = y.as_normal() {
				f("as_typed().as_normal", spec::NORMAL, n.as_bytes(), true);
			}
			if let Some(n) = y.as_private_use() {
				f("as_typed().as_private_use", spec::PU, n.as_bytes(), true);
			}
			if let Some(l) = y.language() {
				lang(l, !gf, lim, f);
			}
			if let Some(g) = t.as_grandfathered() {
				f("grandfathered tag", spec::LT, g.as_bytes(), false);
				if let Some(l) = g.language() {
					lang(l, false, lim, f);
				}
			}
		}
		spec::NORMAL => {
			let Ok(t) = NormalLangTag::new(w) else { return };
			lang(t.language(), true, lim, f);
			tag!(t);
		}
		spec::PU => {
			if let Ok(p) = PrivateUse::new(w) {
				pu(p, lim, f)
			}
		}
		spec::LANG => {
			if let Ok(p) = Language::new(w) {
				lang(p, true, lim, f)
			}
		}
		spec::EXTLANG => {
			if let Ok(p) = LanguageExtension::new(w) {
				for x in p.iter().take(lim) {
					f("item of the language extension", spec::EXTLANGTAG, x.as_bytes(), true);
				}
			}
		}
		spec::VARIANTS => {
			if let Ok(p) = Variants::new(w) {
				vars(p, lim, f)
			}
		}
		spec::EXT => {
			if let Ok(p) = Extension::new(w) {
				ext(p, lim, f)
			}
		}
		spec::EXTS => {
			if let Ok(p) = Extensions::new(w) {
				exts(p, lim, f)
			}
		}
		_ => {}
	}
}
pub fn c05(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in [spec::NORMAL, spec::LT, spec::PU, spec::LANG, spec::EXTLANG, spec::VARIANTS, spec::EXT, spec::EXTS] {
		v.push(if ty == spec::NORMAL { words_dom(ty, thorough) } else { lite_dom(ty, thorough) });
		v.push(position_dom(ty, thorough));
		v.push(codes_dom(ty, thorough));
	}
	v
}

pub fn c06_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	conform(c, o, G_LANG)?;
	if let Ok(l) = Language::new(c.a) {
		let mut it = l.extension_subtags();
		let n = with_dec(|d| {
			d.parse_language(c.a);
			d.extlangs.len()
		});
		for _ in 0..n {
			it.next();
		}
		for _ in 0..3 {
			if it.next().is_some() {
				return Err(format!("{:?}: the extended language subtags go on after the end", show(c.a)));
			}
		}
	}
	if let Ok(g) = GrandfatheredLangTag::new(c.a) {
		if let Some(l) = g.language() {
			if l.primary().as_str() != l.as_str() || l.extension().is_some() || l.extension_subtags().next().is_some() {
				return Err(format!("the language of the grandfathered tag {:?} splits wrongly", show(c.a)));
			}
		}
	}
	Ok(())
}
pub fn c06(thorough: bool) -> Vec<Dom> {
	let mut v = vec![words_dom(spec::LANG, thorough), words_dom(spec::EXTLANG, thorough), position_dom(spec::LANG, thorough), position_dom(spec::EXTLANG, thorough), codes_dom(spec::LANG, thorough), codes_dom(spec::EXTLANG, thorough)];
	v.push(dom("language: all letter-length combinations, all cases of short ones", true, move |s| {
		let letters = b"abcdefgh";
		for l in 2..=8 {
			let p = &letters[..l];
			for e in 0..=3usize {
				let mut w = p.to_vec();
				for i in 0..e {
					w.push(b'-');
					w.extend_from_slice(&[b'p' + i as u8, b'q', b'r' + i as u8]);
				}
				if !dfas()[spec::LANG].accepts(&w) {
					continue;
				}
				for x in casings(&w) {
					s.word(spec::LANG as u16, &x);
					for t in ["", "-Latn", "-FR", "-419", "-abcde", "-1abc", "-a-bb", "-x-y", "-Latn-FR-abcde-a-bb-x-y"] {
						let y = [&x[..], t.as_bytes()].concat();
						s.word(spec::NORMAL as u16, &y);
						s.word(spec::LT as u16, &y);
					}
				}
			}
		}
	}));
	v.push(dom("language: every 2-letter and 3-letter primary in both cases", true, move |s| {
		let al: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').collect();
		let mut one = |w: &[u8]| {
			s.word(spec::LANG as u16, w);
			for t in ["-abc", "-Latn", "-XY-abcde"] {
				s.word(spec::NORMAL as u16, &[w, t.as_bytes()].concat());
			}
		};
		for a in &al {
			for b in &al {
				one(&[*a, *b]);
				if thorough || a.is_ascii_lowercase() == b.is_ascii_lowercase() {
					for c in &al {
						one(&[*a, *b, *c]);
					}
				}
			}
		}
	}));
	for ty in [spec::NORMAL, spec::LT] {
		v.push(words_dom(ty, thorough));
	}
	v
}

pub fn c07_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	conform(c, o, G_KIND)?;
	let Ok(t) = LangTag::new(c.a) else { return Ok(()) };
	let kinds = t.is_normal() as u32 + t.is_private_use() as u32 + t.is_grandfathered() as u32;
	if kinds == 0 {
		return Err(format!("{:?} is of no kind", show(c.a)));
	}
	// Typed views a user builds directly, of every kind the tag has.
	let norm = NormalLangTag::new(c.a).ok();
	let private = PrivateUseLangTag::new(c.a).ok();
	let grand = GrandfatheredLangTag::new(c.a).ok();
	let views = [
		norm.map(|n| (TypedLangTag::Normal(n), Kind::Normal, Some(n.language().as_bytes()))),
		private.map(|p| (TypedLangTag::PrivateUse(p), Kind::PrivateUse, None)),
		grand.map(|g| (TypedLangTag::Grandfathered(g), Kind::Grandfathered, g.language().map(|l| l.as_bytes()))),
	];
	if norm.is_some() != t.is_normal() || private.is_some() != t.is_private_use() || grand.is_some() != t.is_grandfathered() {
		return Err(format!("{:?}: the tag and the constructors of the kinds disagree on its kinds", show(c.a)));
	}
	for (v, k, l) in views.into_iter().flatten() {
		let n = k == Kind::Normal;
		let p = k == Kind::PrivateUse;
		let g = k == Kind::Grandfathered;
		if v.kind() != k || v.is_normal() != n || v.is_private_use() != p || v.is_grandfathered() != g {
			return Err(format!("{:?}: a typed view built as {k:?} reports another kind", show(c.a)));
		}
		if k.is_normal() != n || k.is_private_use() != p || k.is_grandfathered() != g {
			return Err(format!("{k:?} reports another kind"));
		}
		if v.as_normal().map(|x| x.as_bytes()) != n.then_some(c.a) || v.as_private_use().map(|x| x.as_bytes()) != p.then_some(c.a) || v.as_grandfathered() != grand.filter(|_| g) {
			return Err(format!("{:?}: a typed view built as {k:?} has other contents", show(c.a)));
		}
		if v.language().map(|x| x.as_bytes()) != l {
			return Err(format!("{:?}: a typed view built as {k:?} has another language", show(c.a)));
		}
	}
	#[cfg(feature = "owned")]
	if c.a.len() < 100 {
		let b = t.to_owned();
		let got = observe(spec::LT, b.as_bytes(), G_KIND);
		let want = with_dec(|d| expect(spec::LT, c.a, G_KIND, d));
		if got != want || b.kind() != t.kind() {
			return Err(format!("the owned tag {:?} is classified differently", show(c.a)));
		}
	}
	Ok(())
}
pub fn c07(thorough: bool) -> Vec<Dom> {
	vec![
		words_dom(spec::LT, thorough),
		position_dom(spec::LT, thorough),
		codes_dom(spec::LT, thorough),
		dom("grandfathered tags in all casings, near misses", true, move |s| {
			for (g, _) in GRANDFATHERED {
				for c in casings(g.as_bytes()) {
					s.word(0, &c);
				}
			}
			crate::p_accept::near_misses(thorough, &mut |w| s.word(0, w));
		}),
	]
}

// ---------------------------------------------------------------- C12

/// a and b differ in case only: every answer is at the same place.
pub fn c12_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	if ty > 15 || !c.a.eq_ignore_ascii_case(c.b) {
		return Ok(());
	}
	let name = TYPES.get(ty).map_or("GrandfatheredLangTag", |t| t.name);
	// same buffer sizes, different contents
	let x = observe(ty, c.a, G_ALL);
	let y = observe(ty, c.b, G_ALL);
	o.validated += 1;
	o.outcome((ty as u64) << 8 | x.is_some() as u64);
	match (x, y) {
		(None, None) => Ok(()),
		(Some(mut x), Some(mut y)) => {
			o.cover(ty, c.a);
			o.sample(|| format!("{name} {:?} / {:?}: {} answers", show(c.a), show(c.b), x.len()));
			o.validated += x.len() as u64;
			for v in [&mut x, &mut y] {
				for a in v.iter_mut() {
					if a.0 == "singleton" {
						a.1 = (a.1 as u8 as char).to_ascii_lowercase() as u32;
					}
				}
			}
			for i in 0..x.len().max(y.len()) {
				if x.get(i) != y.get(i) {
					return Err(format!("{name}: {} on {:?} but {} on {:?}", show_ans(c.a, x.get(i)), show(c.a), show_ans(c.b, y.get(i)), show(c.b)));
				}
			}
			values_equal(ty, c.a, c.b)
		}
		(x, _) => {
			let (yes, no) = if x.is_some() { (c.a, c.b) } else { (c.b, c.a) };
			Err(format!("{name} accepts {:?} but not {:?}", show(yes), show(no)))
		}
	}
}
/// The parts of two equal values are equal, identifiers included, and a lookup
/// by an identifier of one finds the extension of the other.
fn values_equal(ty: usize, a: &[u8], b: &[u8]) -> Result<(), String> {
	if ty >= 15 {
		return Ok(());
	}
	let mut pa: Vec<(&'static str, usize, Vec<u8>)> = vec![];
	components(ty, a, &mut |n, t, p, _| {
		if pa.len() < 64 {
			pa.push((n, t, p.to_vec()))
		}
	});
	let mut i = 0;
	let mut r = Ok(());
	components(ty, b, &mut |n, t, p, _| {
		if i < pa.len() && r.is_ok() {
			if n != pa[i].0 || t != pa[i].1 {
				r = Err(format!("{:?} and {:?}: {n} of one, {} of the other", show(a), show(b), pa[i].0));
			} else {
				(TYPES[t].eqs)(&pa[i].2, p, &mut |op, e| {
					if !e && r.is_ok() {
						r = Err(format!("{n} of {:?} and {:?} are not equal ({op})", show(a), show(b)));
					}
				});
			}
		}
		i += 1;
	});
	r?;
	let get = |w: &[u8]| -> Option<(Vec<Singleton>, Vec<Vec<Option<usize>>>)> {
		let e = match ty {
			spec::LT => LangTag::new(w).ok()?.extensions(),
			spec::NORMAL => NormalLangTag::new(w).ok()?.extensions(),
			spec::EXTS => Extensions::new(w).ok()?,
			_ => return None,
		};
		let base = w.as_ptr() as usize;
		let ids: Vec<Singleton> = e.iter().take(40).map(|x| x.singleton()).collect();
		let found = ids
			.iter()
			.map(|s| {
				let mut v = vec![];
				for c in [s.unwrap().to_ascii_lowercase(), s.unwrap().to_ascii_uppercase()] {
					let Ok(s) = Singleton::new(c) else { continue };
					v.push(e.get(s).map(|x| x.as_bytes().as_ptr() as usize - base));
					v.push(e.iter_extension(s).next().map(|x| x.as_bytes().as_ptr() as usize - base));
				}
				v
			})
			.collect();
		Some((ids, found))
	};
	if let (Some((ia, fa)), Some((ib, fb))) = (get(a), get(b)) {
		if ia != ib {
			return Err(format!("the extension identifiers of {:?} and {:?} are not equal", show(a), show(b)));
		}
		if fa != fb || fa.iter().any(|v| v.len() != 4 || v[0] != v[2] || v[1] != v[3] || v[0].is_none()) {
			return Err(format!("extension lookups in {:?} and {:?} depend on letter case", show(a), show(b)));
		}
	}
	Ok(())
}
pub fn c12(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in 0..=15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let n = spec::RULES[ty];
		v.push(dom(format!("{n}: values x (lower, upper, swapped, two alternations)"), true, move |s| {
			let mut put = |w: &[u8]| few_casings(w, &mut |x| s.put(Case { kind: k, a: w, b: x, c: &[], n: 0 }));
			subtag_words(d, &REPS, if thorough { 4 } else { 3 }, &mut |w, a| {
				if a {
					put(w)
				}
			});
			subtag_words(d, &REPS_TINY, if thorough { 7 } else { 5 }, &mut |w, a| {
				if a {
					put(w)
				}
			});
			transition_singles(d, &tag_bytes(), &mut put);
			pumped(ty, &[1, 2, 5, 17, 40], &mut put);
			if ty < 2 {
				let mut w = vec![];
				let mut i = 0;
				products(&parts(false), &mut |p| {
					i += 1;
					if thorough || i % 7 == 0 {
						join(&p, &mut w);
						put(&w);
					}
				});
			}
		}));
		if [spec::LT, spec::NORMAL, spec::PU, spec::VARIANTS, spec::EXT, spec::EXTS].contains(&ty) {
			v.push(dom(format!("{n}: long lists x casings"), false, move |s| {
				let mut put = |w: &[u8]| few_casings(w, &mut |x| {
					if s.mine() {
						s.exec(Case { kind: k, a: w, b: x, c: &[], n: 0 })
					}
				});
				pumped(ty, if thorough { &[127, 255, 256, 300, 3000, 9000, 22000, 70000] } else { &[127, 256, 300, 3000, 9000] }, &mut put);
			}));
		}
		v.push(dom(format!("{n}: every code of the short kinds, subtags in actual use, x casings"), true, move |s| {
			if ty < 15 && (thorough || ty != spec::NORMAL) {
				codes(ty, thorough, &mut |w| {
					if thorough {
						return few_casings(w, &mut |x| s.put(Case { kind: k, a: w, b: x, c: &[], n: 0 }));
					}
					let up = w.to_ascii_uppercase();
					s.put(Case { kind: k, a: w, b: if up == w { &[] } else { &up }, c: &[], n: 0 });
				})
			}
		}));
		v.push(dom(format!("{n}: every subset of the letters, and every single letter of long values"), true, move |s| {
			subtag_words(d, &REPS_TINY, if thorough { 4 } else { 3 }, &mut |w, a| {
				if a {
					for x in casings(w) {
						s.put(Case { kind: k, a: w, b: &x, c: &[], n: 0 });
					}
				}
			});
			for (g, _) in GRANDFATHERED {
				if ty == 0 || ty == 15 || d.accepts(g.as_bytes()) {
					for x in casings(g.as_bytes()) {
						s.put(Case { kind: k, a: g.as_bytes(), b: &x, c: &[], n: 0 });
					}
				}
			}
			for w in bases(if ty == 15 { 5 } else { ty }, false) {
				if d.accepts(&w) {
					for x in casings(&w) {
						s.put(Case { kind: k, a: &w, b: &x, c: &[], n: 0 });
					}
				}
			}
		}));
		v.push(dom(format!("{n}: every letter at every position, both cases"), true, move |s| {
			for w in bases(if ty == 15 { 5 } else { ty }, false) {
				let mut x = w.clone();
				for i in 0..w.len() {
					for c in b'a'..=b'z' {
						x[i] = c;
						if d.accepts(&x) {
							let mut y = x.clone();
							y[i] ^= 0x20;
							s.put(Case { kind: k, a: &x, b: &y, c: &[], n: 0 });
						}
						x[i] = c ^ 0x20;
						if !d.accepts(&x) {
							continue;
						}
						let y: Vec<u8> = x.to_ascii_lowercase();
						s.put(Case { kind: k, a: &x, b: &y, c: &[], n: 0 });
					}
					x[i] = w[i];
				}
			}
		}));
	}
	v
}

// ---------------------------------------------------------------- C13, C14

/// Iterator operations of a history, one byte each.
pub const NEXT: u8 = 0;
pub const BACK: u8 = 1;
pub const NTH: u8 = 2; // 2..=5: nth(0..=3)
pub const NTHB: u8 = 6; // 6..=9: nth_back(0..=3)
pub const LAST: u8 = 10; // consumes
pub const COUNT: u8 = 11; // consumes
pub const REST: u8 = 12; // collect, consumes
pub const RREST: u8 = 13; // rev().collect(), consumes
pub const FOLD: u8 = 14;
pub const RFOLD: u8 = 15;
pub const FIND: u8 = 16; // find the second remaining item (by text)
pub const SKIP: u8 = 17; // by_ref().skip(1).next()
pub const TAKE: u8 = 18; // by_ref().take(2).count()
pub const STEP: u8 = 19; // step_by(2).collect(), consumes
pub const RFIND: u8 = 20;
/// 32..: nth(BIG[op - 32]), 64..: nth_back(BIG[op - 64])
pub const BIG: [usize; 20] = [4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 65535, 65536, usize::MAX];
pub const FAR: u8 = 32 + 19;
pub const FARB: u8 = 64 + 19;
fn steps(op: u8) -> (usize, usize) {
	match op {
		NEXT => (1, 0),
		BACK => (0, 1),
		2..=5 => ((op - NTH) as usize + 1, 0),
		6..=9 => (0, (op - NTHB) as usize + 1),
		32..64 => (BIG[(op - 32) as usize % BIG.len()].saturating_add(1), 0),
		64..96 => (0, BIG[(op - 64) as usize % BIG.len()].saturating_add(1)),
		FIND | SKIP | TAKE => (2, 0),
		_ => (0, 0),
	}
}

fn opname(op: u8) -> String {
	match op {
		NEXT => "next".into(),
		BACK => "next_back".into(),
		2..=5 => format!("nth({})", op - 2),
		6..=9 => format!("nth_back({})", op - 6),
		32..64 => format!("nth({})", steps(op).0 - 1),
		64..96 => format!("nth_back({})", steps(op).1 - 1),
		LAST => "last".into(),
		COUNT => "count".into(),
		REST => "collect".into(),
		RREST => "rev.collect".into(),
		FOLD => "fold".into(),
		RFOLD => "rfold".into(),
		FIND => "find".into(),
		SKIP => "skip(1).next".into(),
		TAKE => "take(2).count".into(),
		STEP => "step_by(2).collect".into(),
		RFIND => "rfind".into(),
		_ => "size_hint".into(),
	}
}

fn hint(h: (usize, Option<usize>), n: usize) -> Result<(), String> {
	if h.0 > n || h.1.is_some_and(|u| u < n) {
		return Err(format!("size_hint {h:?} with {n} items left"));
	}
	Ok(())
}
/// The items of the iterators: they are driven directly, not through an adapter,
/// so that the methods they override are the ones called.
pub trait Sub<'a> {
	fn b(self) -> &'a [u8];
}
macro_rules! sub {
	($($t:ident),*) => {$(
		impl<'a> Sub<'a> for &'a $t {
			fn b(self) -> &'a [u8] {
				self.as_bytes()
			}
		}
	)*};
}
sub!(Variant, Extension, ExtensionSubtag, PrivateUseSubtag, ExtendedLangTag);
fn bounded<'a, I: Iterator<Item: Sub<'a>>>(it: I, n: usize) -> Vec<&'a [u8]> {
	it.take(n + 3).map(Sub::b).collect()
}

/// Runs the operations on the iterator and on the list of expected items.
fn drive_fwd<'a, I: Iterator<Item: Sub<'a>>>(mut it: I, items: &[&'a [u8]], ops: &[u8]) -> Result<(), String> {
	let mut lo = 0;
	let hi = items.len();
	let ck = |op: u8, got: Option<&[u8]>, want: Option<&[u8]>| -> Result<(), String> {
		let same = match (got, want) {
			(None, None) => true,
			(Some(a), Some(b)) => std::ptr::eq(a.as_ptr(), b.as_ptr()) && a.len() == b.len(),
			_ => false,
		};
		if same { Ok(()) } else { Err(format!("{} gives {:?} instead of {:?}", opname(op), got.map(show), want.map(show))) }
	};
	hint(it.size_hint(), hi - lo)?;
	for &op in ops {
		match op {
			NEXT => {
				ck(op, it.next().map(Sub::b), items.get(lo).copied())?;
				lo = (lo + 1).min(hi);
			}
			2..=5 => {
				let k = (op - NTH) as usize;
				ck(op, it.nth(k).map(Sub::b), items.get(lo + k).copied())?;
				lo = (lo + k + 1).min(hi);
			}
			32..64 => {
				let k = BIG[(op - 32) as usize % BIG.len()];
				ck(op, it.nth(k).map(Sub::b), items.get(lo.saturating_add(k)).copied())?;
				lo = lo.saturating_add(k).saturating_add(1).min(hi);
			}
			FIND => {
				let target = items.get(lo + 1).map(|p| p.as_ptr());
				let mut left = hi + 3;
				let got = it.find_map(|p| {
					let p = p.b();
					left -= 1;
					(Some(p.as_ptr()) == target || left == 0).then_some(p)
				});
				ck(op, got, items.get(lo + 1).copied())?;
				lo = if lo + 1 < hi { lo + 2 } else { hi };
			}
			SKIP => {
				ck(op, it.by_ref().skip(1).next().map(Sub::b), items.get(lo + 1).copied())?;
				lo = (lo + 2).min(hi);
			}
			TAKE => {
				let n = it.by_ref().take(2).count();
				if n != 2.min(hi - lo) {
					return Err(format!("take(2) counts {n}"));
				}
				lo += n;
			}
			LAST => {
				let want = if lo < hi { Some(items[hi - 1]) } else { None };
				return ck(op, it.last().map(Sub::b), want);
			}
			COUNT => {
				let n = it.count();
				return if n == hi - lo { Ok(()) } else { Err(format!("count gives {n}, not {}", hi - lo)) };
			}
			REST => {
				let v = bounded(it, hi);
				if v.len() != hi - lo {
					return Err(format!("collects {} items, not {}", v.len(), hi - lo));
				}
				for (i, x) in v.iter().enumerate() {
					ck(op, Some(x), items.get(lo + i).copied())?;
				}
				return Ok(());
			}
			STEP => {
				let v = bounded(it.step_by(2), hi);
				let want: Vec<_> = items[lo..hi].iter().step_by(2).collect();
				if v.len() != want.len() {
					return Err(format!("step_by(2) collects {} items, not {}", v.len(), want.len()));
				}
				for (x, y) in v.iter().zip(want) {
					ck(op, Some(x), Some(y))?;
				}
				return Ok(());
			}
			FOLD => {
				let mut i = lo;
				let mut r = Ok(());
				it.for_each(|x| {
					if r.is_ok() {
						r = ck(op, Some(x.b()), items.get(i).copied());
					}
					i += 1;
				});
				r?;
				return if i == hi { Ok(()) } else { Err(format!("for_each visits {} items, not {}", i - lo, hi - lo)) };
			}
			_ => {}
		}
		hint(it.size_hint(), hi - lo)?;
	}
	Ok(())
}
fn drive_both<'a, I: DoubleEndedIterator<Item: Sub<'a>>>(mut it: I, items: &[&'a [u8]], ops: &[u8]) -> Result<(), String> {
	let (mut lo, mut hi) = (0, items.len());
	let at = |lo: usize, hi: usize, i: isize| -> Option<&'a [u8]> {
		// i >= 0: from the front; i < 0: from the back (-1 is the last)
		let p = if i >= 0 { lo as isize + i } else { hi as isize + i };
		if p >= lo as isize && p < hi as isize { Some(items[p as usize]) } else { None }
	};
	let ck = |op: u8, got: Option<&[u8]>, want: Option<&[u8]>| -> Result<(), String> {
		let same = match (got, want) {
			(None, None) => true,
			(Some(a), Some(b)) => std::ptr::eq(a.as_ptr(), b.as_ptr()) && a.len() == b.len(),
			_ => false,
		};
		if same { Ok(()) } else { Err(format!("{} gives {:?} instead of {:?}", opname(op), got.map(show), want.map(show))) }
	};
	hint(it.size_hint(), hi - lo)?;
	let mut i = 0;
	while i < ops.len() {
		let op = ops[i];
		match op {
			BACK => {
				ck(op, it.next_back().map(Sub::b), at(lo, hi, -1))?;
				hi = lo.max(hi.saturating_sub(1));
			}
			6..=9 => {
				let k = (op - NTHB) as usize;
				ck(op, it.nth_back(k).map(Sub::b), at(lo, hi, -1 - k as isize))?;
				hi = lo.max(hi.saturating_sub(k + 1));
			}
			64..96 => {
				let k = BIG[(op - 64) as usize % BIG.len()];
				ck(op, it.nth_back(k).map(Sub::b), if k < hi - lo { at(lo, hi, -1 - k as isize) } else { None })?;
				hi = lo.max(hi.saturating_sub(k.saturating_add(1)));
			}
			RFIND => {
				let t = at(lo, hi, -2);
				let target = t.map(|p| p.as_ptr());
				let mut left = items.len() + 3;
				let got = it.by_ref().rev().find_map(|p| {
					let p = p.b();
					left -= 1;
					(Some(p.as_ptr()) == target || left == 0).then_some(p)
				});
				ck(op, got, t)?;
				hi = if t.is_some() { hi - 2 } else { lo };
			}
			RREST => {
				let v = bounded(it.rev(), items.len());
				if v.len() != hi - lo {
					return Err(format!("rev collects {} items, not {}", v.len(), hi - lo));
				}
				for (k, x) in v.iter().enumerate() {
					ck(op, Some(x), at(lo, hi, -1 - k as isize))?;
				}
				return Ok(());
			}
			RFOLD => {
				let mut k = 0;
				let mut r = Ok(());
				it.rfold((), |(), x| {
					if r.is_ok() {
						r = ck(op, Some(x.b()), at(lo, hi, -1 - k));
					}
					k += 1;
				});
				r?;
				return if k as usize == hi - lo { Ok(()) } else { Err(format!("rfold visits {k} items, not {}", hi - lo)) };
			}
			LAST | COUNT | REST | STEP | FOLD => return drive_fwd(it, &items[lo..hi], &ops[i..i + 1]),
			_ => {
				drive_fwd(it.by_ref(), &items[lo..hi], &ops[i..i + 1])?;
				lo = hi.min(lo.saturating_add(steps(op).0));
			}
		}
		hint(it.size_hint(), hi - lo)?;
		i += 1;
	}
	Ok(())
}

/// Which iterator a case is about (case.kind).
pub const ITERS: [&str; 12] = [
	"Variants::iter",
	"NormalLangTag::variants().iter",
	"LangTag::variants().iter",
	"Extensions::iter",
	"Extension::iter",
	"Extensions::iter_extension",
	"PrivateUse::iter",
	"NormalLangTag::private_use_subtags",
	"LangTag::private_use_subtags",
	"LanguageExtension::iter",
	"Language::extension_subtags",
	"LangTag::extensions().iter",
];

/// a: text of the value, b: operations.
pub fn iter_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let w = c.a;
	let pick = |rs: &[spec::R]| -> Vec<&[u8]> { rs.iter().map(|r| &w[r.0..r.1]).collect() };
	let k = c.kind as usize;
	if k >= ITERS.len() {
		return Ok(());
	}
	let run = |items: &[&[u8]], r: Result<(), String>, o: &mut Obs| -> Result<(), String> {
		o.validated += c.b.len() as u64 + 1;
		// states of the iterator model: items left at both ends
		let (mut lo, mut hi) = (0usize, items.len());
		for op in c.b {
			o.state((k as u64) << 48 | (items.len() as u64) << 32 | (lo as u64) << 16 | hi as u64);
			o.transitions += 1;
			let (f, b) = steps(*op);
			lo = lo.saturating_add(f).min(hi);
			hi = hi.saturating_sub(b).max(lo);
		}
		o.outcome((k as u64) << 48 | (items.len() as u64) << 32 | (lo as u64) << 16 | hi as u64);
		o.sample(|| format!("{} of {:?}: {}", ITERS[k], show(w), c.b.iter().map(|x| opname(*x)).collect::<Vec<_>>().join(", ")));
		r.map_err(|m| format!("{} of {:?}: after {} operations of [{}]: {m}", ITERS[k], show(w), c.b.len(), c.b.iter().map(|x| opname(*x)).collect::<Vec<_>>().join(", ")))
	};
	let mut d = with_dec(std::mem::take);
	let res = (|| -> Result<(), String> {
		match k {
			0 => {
				if let (true, Ok(t)) = (d.parse_variants(w), Variants::new(w)) {
					let items = pick(&d.variants);
					return run(&items, drive_both(t.iter(), &items, c.b), o);
				}
			}
			1 => {
				if let (true, Ok(t)) = (d.parse(w), NormalLangTag::new(w)) {
					let items = pick(&d.variants);
					return run(&items, drive_both(t.variants().iter(), &items, c.b), o);
				}
			}
			2 => {
				if let (true, Ok(t)) = (d.parse(w), LangTag::new(w)) {
					let items = pick(&d.variants);
					return run(&items, drive_both(t.variants().iter(), &items, c.b), o);
				}
			}
			3 => {
				if let (true, Ok(t)) = (d.parse_extensions(w), Extensions::new(w)) {
					let items: Vec<&[u8]> = d.exts.iter().map(|e| &w[e.0.0..e.0.1]).collect();
					return run(&items, drive_fwd(t.iter(), &items, c.b), o);
				}
			}
			4 => {
				if let (true, Ok(t)) = (d.parse_extension(w), Extension::new(w)) {
					let items = pick(&d.extsubs);
					return run(&items, drive_fwd(t.iter(), &items, c.b), o);
				}
			}
			5 => {
				if let (true, Ok(t)) = (d.parse_extensions(w), Extensions::new(w)) {
					let mut seen = vec![];
					for i in 0..d.exts.len().min(4) {
						let id = w[d.exts[i].0.0];
						if seen.contains(&id.to_ascii_lowercase()) {
							continue;
						}
						seen.push(id.to_ascii_lowercase());
						let items = pick(&d.extsubs[d.exts[i].1..d.exts[i].1 + d.exts[i].2]);
						let Ok(s) = Singleton::new(id) else { continue };
						run(&items, drive_fwd(t.iter_extension(s), &items, c.b), o)?;
					}
					if let (false, Ok(s)) = (seen.contains(&b'q'), Singleton::new(b'q')) {
						return run(&[], drive_fwd(t.iter_extension(s), &[], c.b), o);
					}
				}
			}
			6 => {
				if let (true, Ok(t)) = (d.parse_pu(w) && d.pu.is_some(), PrivateUse::new(w)) {
					let items = pick(&d.pusubs);
					return run(&items, drive_fwd(t.iter(), &items, c.b), o);
				}
			}
			7 => {
				if let (true, Ok(t)) = (d.parse(w), NormalLangTag::new(w)) {
					let items = pick(&d.pusubs);
					return run(&items, drive_fwd(t.private_use_subtags(), &items, c.b), o);
				}
			}
			8 => {
				if let (true, Ok(t)) = (d.parse(w), LangTag::new(w)) {
					let items = pick(&d.pusubs);
					return run(&items, drive_fwd(t.private_use_subtags(), &items, c.b), o);
				}
			}
			9 => {
				if let (true, Ok(t)) = (d.parse_extlang(w), LanguageExtension::new(w)) {
					let items = pick(&d.extlangs);
					return run(&items, drive_fwd(t.iter(), &items, c.b), o);
				}
			}
			10 => {
				if let (true, Ok(t)) = (d.parse_language(w), Language::new(w)) {
					let items = pick(&d.extlangs);
					return run(&items, drive_fwd(t.extension_subtags(), &items, c.b), o);
				}
			}
			_ => {
				if let (true, Ok(t)) = (d.parse(w), LangTag::new(w)) {
					let items: Vec<&[u8]> = d.exts.iter().map(|e| &w[e.0.0..e.0.1]).collect();
					return run(&items, drive_fwd(t.extensions().iter(), &items, c.b), o);
				}
			}
		}
		Ok(())
	})();
	with_dec(|x| *x = d);
	res
}
/// The iterators made by `empty()` and `default()` have no items.
pub fn empties(c: &Case) -> Result<(), String> {
	macro_rules! e {
		($($x:expr, $n:literal);*) => {
			$(drive_fwd($x, &[], c.b).map_err(|m| format!("{}: {m}", $n))?;)*
		};
	}
	e!(
		VariantsIter::empty(), "VariantsIter::empty"; VariantsIter::default(), "VariantsIter::default";
		ExtensionIter::empty(), "ExtensionIter::empty"; ExtensionIter::default(), "ExtensionIter::default";
		PrivateUseIter::empty(), "PrivateUseIter::empty"; PrivateUseIter::default(), "PrivateUseIter::default";
		LanguageExtensionIter::empty(), "LanguageExtensionIter::empty"; LanguageExtensionIter::default(), "LanguageExtensionIter::default";
		Variants::EMPTY.iter(), "Variants::EMPTY"; Extensions::EMPTY.iter(), "Extensions::EMPTY"
	);
	drive_both(VariantsIter::empty(), &[], c.b)?;
	drive_both(Variants::EMPTY.iter(), &[], c.b)?;
	if Variants::EMPTY.first().is_some() || Variants::EMPTY.last().is_some() || !Variants::EMPTY.as_str().is_empty() || !Extensions::EMPTY.as_str().is_empty() {
		return Err("EMPTY is not empty".into());
	}
	Ok(())
}

pub fn c13_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.n == 1 {
		// the list itself
		conform(c, o, G_VARS)?;
		if let Ok(v) = Variants::new(c.a) {
			let mut d = with_dec(std::mem::take);
			d.parse_variants(c.a);
			let n = d.variants.len();
			with_dec(|x| *x = d);
			hint(v.iter().size_hint(), n)?;
		}
		return Ok(());
	}
	if c.a.is_empty() && c.kind == 0 {
		empties(c)?;
	}
	iter_check(c, o)
}

/// All operation sequences over `ops` up to length `max`; consuming operations only last.
fn sequences(ops: &[u8], fin: &[u8], max: usize, f: &mut dyn FnMut(&[u8])) {
	fn go(ops: &[u8], fin: &[u8], max: usize, w: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
		f(w);
		if w.len() == max {
			return;
		}
		for &x in fin {
			w.push(x);
			f(w);
			w.pop();
		}
		for &x in ops {
			w.push(x);
			go(ops, fin, max, w, f);
			w.pop();
		}
	}
	go(ops, fin, max, &mut vec![], f);
}
/// Lists of variants by count and by length pattern.
fn variant_lists(n: usize) -> Vec<Vec<u8>> {
	let forms: [&[&str]; 5] = [
		&["abcde", "1abc", "bcdefg", "2bcd", "cdefghij", "3cde", "defgh", "4def"],
		&["1abc", "1abc", "1abc", "1abc", "1abc", "1abc", "1abc", "1abc"],
		&["12345678", "abcdefgh", "a2345678", "bbbbbbbb", "cccccccc", "dddddddd", "eeeeeeee", "ffffffff"],
		&["abcde", "ABCDE", "abcde", "abcde", "AbCdE", "abcde", "abcde", "abcde"],
		&["1abc", "abcdefgh", "9zzz", "zyxwvuts", "0000", "aaaaa", "1111", "bbbbb"],
	];
	let mut v: Vec<Vec<u8>> = forms.iter().map(|f| f[..n].join("-").into_bytes()).collect();
	v.dedup();
	v
}
pub fn c13(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	v.push(dom("every interleaving of next and next_back, to three steps past the end", false, move |s| {
		let max = if thorough { 8 } else { 6 };
		for n in 0..=max {
			for (i, l) in variant_lists(n).iter().enumerate() {
				if !s.mine() || (n > 5 && i > 1 && !thorough) {
					continue;
				}
				for m in 0..1u32 << (n + 3) {
					let ops: Vec<u8> = (0..n + 3).map(|i| (m >> i & 1) as u8).collect();
					s.exec(Case { kind: 0, a: l, b: &ops, c: &[], n: 0 });
					if n <= 4 {
						for suf in ["", "-a-bb", "-x-abcde", "-a-bb-x-1abc"] {
							for pre in ["fr", "fr-abc-Latn-419"] {
								let mut w = pre.as_bytes().to_vec();
								if n > 0 {
									w.push(b'-');
								}
								w.extend_from_slice(l);
								w.extend_from_slice(suf.as_bytes());
								s.exec(Case { kind: 1, a: &w, b: &ops, c: &[], n: 0 });
								s.exec(Case { kind: 2, a: &w, b: &ops, c: &[], n: 0 });
							}
						}
					}
				}
			}
		}
	}));
	v.push(dom("every sequence of steps, skips from both ends, and a final consumption", false, move |s| {
		let ops = [NEXT, BACK, NTH, NTH + 1, NTH + 2, NTHB, NTHB + 1, NTHB + 2, FIND, RFIND, SKIP, TAKE, FAR, FARB];
		let fin = [LAST, COUNT, REST, RREST, FOLD, RFOLD, STEP];
		for n in 0..=6usize {
			for (i, l) in variant_lists(n).iter().enumerate() {
				if i > 1 && !thorough {
					continue;
				}
				for &o1 in &ops {
					if !s.mine() {
						continue;
					}
					let mut w = vec![];
					sequences(&ops, &fin, if thorough && n > 2 && i < 3 { 5 } else { 4 }, &mut |x| {
						w.clear();
						w.push(o1);
						w.extend_from_slice(x);
						s.exec(Case { kind: 0, a: l, b: &w, c: &[], n: 0 });
					});
				}
			}
			if s.mine() {
				for l in variant_lists(n) {
					for f in fin {
						s.exec(Case { kind: 0, a: &l, b: &[f], c: &[], n: 0 });
					}
				}
			}
		}
	}));
	v.push(dom("all lists, forwards and backwards", true, move |s| {
		type_words(spec::VARIANTS, if thorough { Depth::Thorough } else { Depth::Quick }, &mut |w| s.wordn(spec::VARIANTS as u16, w, 1));
		type_words(spec::NORMAL, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.wordn(spec::NORMAL as u16, w, 1));
		type_words(spec::LT, Depth::Lite, &mut |w| s.wordn(spec::LT as u16, w, 1));
		codes(spec::VARIANTS, thorough, &mut |w| s.wordn(spec::VARIANTS as u16, w, 1));
	}));
	v.push(dom("all lists of up to four variants of all lengths: all interleavings", false, move |s| {
		let forms: [&str; 5] = ["1abc", "bcdef", "cdefgh", "defghij", "e2345678"];
		for n in 1..=if thorough { 5 } else { 4usize } {
			for m in 0..5usize.pow(n as u32) {
				if !s.mine() {
					continue;
				}
				let l: Vec<&str> = (0..n).map(|i| forms[m / 5usize.pow(i as u32) % 5]).collect();
				let w = l.join("-").into_bytes();
				for x in 0..1u32 << (n + 1) {
					let ops: Vec<u8> = (0..n + 1).map(|i| (x >> i & 1) as u8).collect();
					s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
				}
			}
		}
	}));
	v.push(dom("long lists: k steps from the front, then from the back, and alternating", false, move |s| {
		for n in [7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] {
			for form in ["abcde", "1abc", "abcdefgh"] {
				if !s.mine() {
					continue;
				}
				let l: Vec<String> = (0..n).map(|i| if form.len() == 4 { format!("{:04}", i) } else { format!("{:0w$}", i, w = form.len()) }).collect();
				let w = l.join("-").into_bytes();
				for k in 0..=n {
					if n > 66 && k % 17 != 0 && k > 2 && k + 2 < n {
						continue;
					}
					let mut ops = vec![NEXT; k];
					ops.extend(vec![BACK; n - k + 2]);
					ops.push(NEXT);
					s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
					let mut ops = vec![BACK; k];
					ops.extend(vec![NEXT; n - k + 2]);
					ops.push(BACK);
					s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
				}
				let ops: Vec<u8> = (0..n + 4).map(|i| (i % 2) as u8).collect();
				s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
				let ops: Vec<u8> = (0..n + 4).map(|i| (i % 3 == 0) as u8).collect();
				s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
			}
		}
	}));
	v.push(dom("very long lists: from both ends, alternating, skips", false, move |s| {
		for &n in if thorough { &[1000usize, 3000, 8000, 20000, 70000, 300_000][..] } else { &[1000, 3000, 8000, 20000] } {
			for form in [4usize, 5, 8] {
				if form == 4 && n > 9999 {
					continue;
				}
				let l: Vec<String> = (0..n).map(|i| format!("{i:0form$}")).collect();
				let w = l.join("-").into_bytes();
				for k in [0, 1, 2, n / 3, n / 2, n - 2, n - 1, n] {
					for (x, y) in [(NEXT, BACK), (BACK, NEXT)] {
						if s.mine() {
							let mut ops = vec![x; k];
							ops.extend(vec![y; n - k + 2]);
							ops.push(x);
							s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
						}
					}
				}
				for m in 2..5usize {
					if s.mine() {
						let ops: Vec<u8> = (0..n + 4).map(|i| (i % m == 0) as u8).collect();
						s.exec(Case { kind: 0, a: &w, b: &ops, c: &[], n: 0 });
					}
				}
				for a in (32..52u8).chain(64..84) {
					for f in [NEXT, BACK, COUNT, LAST, REST, RREST] {
						if s.mine() {
							s.exec(Case { kind: 0, a: &w, b: &[a, f], c: &[], n: 0 });
						}
					}
				}
			}
		}
	}));
	v.push(dom("long lists: skips of all sizes from both ends, two of them, then steps", false, move |s| {
		for n in [9usize, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257, 258, 300, 520] {
			for form in [4usize, 5, 8] {
				let l: Vec<String> = (0..n).map(|i| format!("{i:0form$}")).collect();
				let w = l.join("-").into_bytes();
				for a in (32..52u8).chain(64..84) {
					if !s.mine() {
						continue;
					}
					for b in (0..10).chain(32..52u8).chain(64..84) {
						for f in [NEXT, BACK, COUNT, LAST, RREST, NTH + 1, NTHB + 1] {
							s.exec(Case { kind: 0, a: &w, b: &[a, b, f], c: &[], n: 0 });
						}
					}
				}
			}
		}
	}));
	v
}

pub fn c14_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.n == 1 {
		conform(c, o, if c.kind as usize == spec::LT || c.kind as usize == spec::NORMAL { G_EXTS | G_PU | G_LANG } else { G_EXTS | G_PU | G_LANG })?;
		return Ok(());
	}
	if c.a.is_empty() && c.kind == 3 {
		empties(c)?;
	}
	iter_check(c, o)
}
pub fn c14(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	let ops = [NEXT, NTH, NTH + 1, NTH + 2, NTH + 3, FIND, SKIP, TAKE, FAR];
	let fin = [LAST, COUNT, REST, FOLD, STEP];
	let lists: Vec<(u16, Vec<String>)> = {
		let seqs = |p: &str, items: &[&str], max: usize| -> Vec<String> { (0..=max).map(|n| format!("{p}{}", items[..n].join("-"))).collect() };
		let subs = ["aa", "b2", "ccc", "DDDD", "e2345678", "aa", "99", "zz", "12345678"];
		let pus = ["a", "1", "bb", "x", "abcdefgh", "a", "X", "u", "co"];
		let mut exts: Vec<String> = seqs("", &["a-bb", "b-cc-dd", "1-abcdefgh", "A-ee-ff-gg", "z-1a", "y-99", "a-bb", "w-Latn"], 8);
		exts.extend(seqs("", &["a-aa-bb-cc", "a-bb", "a-cc", "A-dd", "a-ee", "a-ff"], 6));
		let mut tags: Vec<String> = vec!["fr".into(), "fr-Latn".into(), "fr-abcde".into(), "x-a".into()];
		let mut tagx: Vec<String> = vec!["fr".into(), "fr-x-a-bb".into()];
		for n in 1..=6 {
			for p in ["fr-x-", "fr-a-bb-x-", "fr-abcde-x-"] {
				tags.push(format!("{p}{}", pus[..n].join("-")));
			}
		}
		for e in &exts {
			if !e.is_empty() {
				tagx.push(format!("fr-abcde-{e}"));
				tagx.push(format!("fr-{e}-x-a-bb"));
			}
		}
		let nz = |v: Vec<String>| v.into_iter().filter(|s| !s.ends_with('-')).collect::<Vec<_>>();
		vec![
			(3, exts.clone()),
			(4, nz([seqs("a-", &subs, 7), seqs("1-", &subs, 3), seqs("Z-", &["abcdefgh"], 1)].concat())),
			(5, exts),
			(6, nz([seqs("x-", &pus, 8), seqs("X-", &["x"], 1), seqs("x-", &["x", "x", "x", "x"], 4)].concat())),
			(7, tags.clone()),
			(8, tags),
			(9, nz(seqs("", &["abc", "abc", "def"], 3)).into_iter().filter(|s| !s.is_empty()).collect()),
			(10, vec!["fr".into(), "fr-abc".into(), "fr-abc-def".into(), "abc-def-GHI-jkl".into(), "abcd".into(), "abcdefgh".into()]),
			(11, tagx),
		]
	};
	v.push(dom("every sequence of steps and skips, and a final consumption", false, move |s| {
		for (k, ls) in &lists {
			for l in ls {
				if !s.mine() {
					continue;
				}
				sequences(&ops, &fin, if thorough { 5 } else { 4 }, &mut |x| {
					s.exec(Case { kind: *k, a: l.as_bytes(), b: x, c: &[], n: 0 });
				});
				for n in 0..24 {
					s.exec(Case { kind: *k, a: l.as_bytes(), b: &vec![NEXT; n], c: &[], n: 0 });
					let mut ops = vec![NEXT; n];
					ops.push(REST);
					s.exec(Case { kind: *k, a: l.as_bytes(), b: &ops, c: &[], n: 0 });
				}
			}
		}
	}));
	for ty in [spec::EXTS, spec::EXT, spec::PU, spec::EXTLANG] {
		v.push(dom(format!("{}: all lists", spec::RULES[ty]), true, move |s| {
			type_words(ty, if thorough { Depth::Thorough } else { Depth::Quick }, &mut |w| s.wordn(ty as u16, w, 1))
		}));
	}
	for ty in [spec::EXTS, spec::EXT, spec::PU, spec::EXTLANG, spec::NORMAL, spec::LANG] {
		v.push(dom(format!("{}: every code of the short kinds, subtags in actual use", spec::RULES[ty]), true, move |s| codes(ty, thorough, &mut |w| s.wordn(ty as u16, w, 1))));
	}
	for ty in [spec::NORMAL, spec::LT, spec::LANG] {
		v.push(dom(format!("{}: all values", spec::RULES[ty]), true, move |s| {
			type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.wordn(ty as u16, w, 1))
		}));
	}
	v.push(dom("very long lists stepped past the end, skips", false, move |s| {
		for (k, ty) in [(3u16, spec::EXTS), (4, spec::EXT), (6, spec::PU)] {
			pumped(ty, if thorough { &[1000, 3000, 9000, 30000, 70000, 300_000] } else { &[1000, 3000, 9000, 30000] }, &mut |w| {
				if s.mine() {
					let n = w.iter().filter(|c| **c == b'-').count() + 4;
					s.exec(Case { kind: k, a: w, b: &vec![NEXT; n], c: &[], n: 0 });
				}
				for f in fin {
					if s.mine() {
						s.exec(Case { kind: k, a: w, b: &[f], c: &[], n: 0 });
						s.exec(Case { kind: k, a: w, b: &[NEXT, NTH + 2, f], c: &[], n: 0 });
					}
				}
				for a in 32..52u8 {
					if s.mine() {
						for f in [NEXT, COUNT, LAST] {
							s.exec(Case { kind: k, a: w, b: &[a, f], c: &[], n: 0 });
						}
					}
				}
			});
		}
	}));
	v.push(dom("long lists stepped past the end", false, move |s| {
		for (k, ty) in [(3u16, spec::EXTS), (4, spec::EXT), (6, spec::PU)] {
			pumped(ty, &[9, 40, 130, 256, 300], &mut |w| {
				if !s.mine() {
					return;
				}
				let n = w.iter().filter(|c| **c == b'-').count() + 4;
				s.exec(Case { kind: k, a: w, b: &vec![NEXT; n], c: &[], n: 0 });
				for f in fin {
					s.exec(Case { kind: k, a: w, b: &[f], c: &[], n: 0 });
					s.exec(Case { kind: k, a: w, b: &[NEXT, NTH + 2, f], c: &[], n: 0 });
				}
				for a in 32..52u8 {
					for b in (0..1).chain(2..6).chain(32..52) {
						for f in [NEXT, COUNT, LAST] {
							s.exec(Case { kind: k, a: w, b: &[a, b, f], c: &[], n: 0 });
						}
					}
				}
			});
		}
	}));
	v
}

// ---------------------------------------------------------------- C15

pub fn c15_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	conform(c, o, G_GET)
}
pub fn c15(thorough: bool) -> Vec<Dom> {
	let mut v = vec![words_dom(spec::EXTS, thorough), position_dom(spec::EXTS, thorough), codes_dom(spec::EXTS, thorough)];
	v.push(dom("extension lists over few identifiers, repeated ones included", true, move |s| {
		let items: &[&str] = if thorough {
			&["a-bb", "A-cc-dd", "b-aa", "1-a1", "B-bbbbbbbb-b2", "0-ab", "z-zz-zz"]
		} else {
			&["a-bb", "A-cc-dd", "b-aa", "1-a1", "B-bbbbbbbb-b2"]
		};
		fn go(items: &[&str], w: &mut String, n: usize, f: &mut dyn FnMut(&str)) {
			f(w);
			if n == 0 {
				return;
			}
			for i in items {
				let l = w.len();
				if l > 0 {
					w.push('-');
				}
				w.push_str(i);
				go(items, w, n - 1, f);
				w.truncate(l);
			}
		}
		go(items, &mut String::new(), if thorough { 6 } else { 5 }, &mut |w| s.word(spec::EXTS as u16, w.as_bytes()));
	}));
	v.push(dom("every identifier at every position among others", true, move |s| {
		for c in singletons() {
			for c2 in singletons() {
				for t in ["bb", "aa-bb-cc", "abcdefgh", "1a", "a1-11"] {
					s.word(spec::EXTS as u16, format!("{}-{t}-{}-dd-ee", c as char, c2 as char).as_bytes());
					s.word(spec::EXTS as u16, format!("q-{}{}-{}-{t}-{}-{}q", c as char, c as char, c as char, c2 as char, c as char).as_bytes());
				}
				s.word(spec::NORMAL as u16, format!("fr-Latn-FR-abcde-{}-bb-{}-cc-x-{}-dd", c as char, c2 as char, c as char).as_bytes());
				s.word(spec::LT as u16, format!("fr-{}-bb-{}-cc-dd-x-{}-dd", c as char, c2 as char, c as char).as_bytes());
			}
		}
	}));
	v.push(dom("identifiers far from the start of a long list, and repeated there", false, move |s| {
		for &n in if thorough { &[20usize, 40, 300, 3000, 10000, 30000, 100_000][..] } else { &[20, 40, 300, 3000, 10000] } {
			for fill in ["q-aa", "q-abcdefgh-a1", "q-q1-q2-q3", "Q-9a"] {
				let base = vec![fill; n].join("-");
				// every identifier at the end, a second extension with it behind it
				let all: Vec<u8> = singletons().filter(|c| !b"qQxX".contains(c)).collect();
				for c in &all {
					if n > 300 && !thorough && !b"aAzZ09mM".contains(c) {
						continue;
					}
					if s.mine() {
						let c = *c as char;
						for w in [format!("{base}-{c}-dd"), format!("{base}-{c}-dd-{c}-ee"), format!("{c}-bb-{base}-{c}-dd"), format!("{base}-{c}-dd-{base}")] {
							s.exec(Case { kind: spec::EXTS as u16, a: w.as_bytes(), b: &[], c: &[], n: 0 });
						}
						let w = format!("fr-abcde-{base}-{c}-dd-x-{c}-ee");
						for ty in [spec::NORMAL, spec::LT] {
							s.exec(Case { kind: ty as u16, a: w.as_bytes(), b: &[], c: &[], n: 0 });
						}
					}
				}
			}
		}
	}));
	for ty in [spec::NORMAL, spec::LT] {
		v.push(lite_dom(ty, thorough));
	}
	v
}

// ---------------------------------------------------------------- C23

/// a: the six parts separated by NUL bytes ("" if absent).
pub fn c23_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let p: Vec<&[u8]> = c.a.split(|b| *b == 0).collect();
	if p.len() != 6 {
		return Ok(());
	}
	let ok = Language::new(p[0]).is_ok()
		&& (p[1].is_empty() || Script::new(p[1]).is_ok())
		&& (p[2].is_empty() || Region::new(p[2]).is_ok())
		&& (p[3].is_empty() || p[3].split(|b| *b == b'-').all(|v| Variant::new(v).is_ok()))
		&& (p[4].is_empty() || Extensions::new(p[4]).is_ok())
		&& (p[5].is_empty() || PrivateUse::new(p[5]).is_ok());
	if !ok {
		return Ok(());
	}
	let w = p.iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join(&b'-');
	o.cover(spec::NORMAL, &w);
	o.validated += 14;
	o.outcome(p.iter().fold(0, |h, x| h << 8 | x.len() as u64));
	o.sample(|| format!("{} <- {:?}", show(&w), p.iter().map(|x| show(x)).collect::<Vec<_>>()));
	let t = NormalLangTag::new(&w[..]).map_err(|_| format!("the parts of {:?} do not compose to a normal tag", show(&w)))?;
	let l = LangTag::new(&w[..]).map_err(|_| format!("the parts of {:?} do not compose to a language tag", show(&w)))?;
	fn e<'a>(x: Option<&'a [u8]>) -> &'a [u8] {
		x.unwrap_or(b"")
	}
	let lists = |v: &Variants, x: &Extensions| -> bool {
		let vs: Vec<&[u8]> = v.iter().map(|x| x.as_bytes()).take(w.len() + 1).collect();
		let want: Vec<&[u8]> = if p[3].is_empty() { vec![] } else { p[3].split(|b| *b == b'-').collect() };
		// the extension list alone gives the same items
		let alone: Vec<Vec<u8>> = Extensions::new(p[4]).map(|y| y.iter().map(|z| z.as_bytes().to_vec()).collect()).unwrap_or_default();
		let inside: Vec<Vec<u8>> = x.iter().map(|z| z.as_bytes().to_vec()).collect();
		vs == want && alone == inside && alone.join(&b'-') == p[4]
	};
	let got = [
		("normal: language", t.language().as_bytes(), 0),
		("normal: script", e(t.script().map(|x| x.as_bytes())), 1),
		("normal: region", e(t.region().map(|x| x.as_bytes())), 2),
		("normal: variants", t.variants().as_bytes(), 3),
		("normal: extensions", t.extensions().as_bytes(), 4),
		("normal: private use", e(t.private_use().map(|x| x.as_bytes())), 5),
		("language", e(l.language().map(|x| x.as_bytes())), 0),
		("script", e(l.script().map(|x| x.as_bytes())), 1),
		("region", e(l.region().map(|x| x.as_bytes())), 2),
		("variants", l.variants().as_bytes(), 3),
		("extensions", l.extensions().as_bytes(), 4),
		("private use", e(l.private_use().map(|x| x.as_bytes())), 5),
	];
	for (n, g, i) in got {
		if g != p[i] {
			return Err(format!("{:?} built from {:?}: {n} is {:?}, not {:?}", show(&w), p.iter().map(|x| show(x)).collect::<Vec<_>>(), show(g), show(p[i])));
		}
	}
	if t.script().is_some() == p[1].is_empty() || t.region().is_some() == p[2].is_empty() || t.private_use().is_some() == p[5].is_empty() {
		return Err(format!("{:?}: an empty component is present", show(&w)));
	}
	if !lists(t.variants(), t.extensions()) || !lists(l.variants(), l.extensions()) {
		return Err(format!("{:?} built from {:?}: the lists have other items", show(&w), p.iter().map(|x| show(x)).collect::<Vec<_>>()));
	}
	Ok(())
}
pub fn c23(thorough: bool) -> Vec<Dom> {
	let cat = |p: &[&[u8]; 6], w: &mut Vec<u8>| {
		w.clear();
		for (i, x) in p.iter().enumerate() {
			if i > 0 {
				w.push(0);
			}
			w.extend_from_slice(x);
		}
	};
	let pool = move |i: usize, small: bool| -> Vec<Vec<u8>> {
		let ty = [spec::LANG, spec::SCRIPT, spec::REGION, spec::VARIANTS, spec::EXTS, spec::PU][i];
		let d = &dfas()[ty];
		let mut v: Vec<Vec<u8>> = if i == 0 { vec![] } else { vec![vec![]] };
		subtag_words(d, if small { &REPS_SMALL } else { &REPS }, if small { 3 } else { 4 }, &mut |w, a| {
			if a {
				v.push(w.to_vec())
			}
		});
		if !small {
			transition_singles(d, &tag_bytes(), &mut |w| v.push(w.to_vec()));
			for s in shapes(8) {
				for p in [&b""[..], b"a-", b"x-", b"fr-", b"1abc-", b"x-a-"] {
					let w = [p, &s].concat();
					if d.accepts(&w) {
						v.push(w);
					}
				}
			}
			pumped(ty, &[1, 2, 3, 5, 8, 20, 64, 256], &mut |w| v.push(w.to_vec()));
		}
		v.sort();
		v.dedup();
		v
	};
	vec![
		dom("full product of small component pools", true, move |s| {
			let p = parts(thorough);
			let mut w = vec![];
			products(&p, &mut |x| {
				cat(&x.map(|t| t.as_bytes()), &mut w);
				s.word(0, &w);
			});
		}),
		dom("one component over every code of the short kinds and the subtags in use, the others over representatives", true, move |s| {
			let reps: [[&str; 6]; 3] = [["fr", "", "", "", "", ""], ["zh-yue", "Hant", "HK", "1996-abcde", "u-co-phonebk", "x-a"], ["abcd", "", "419", "", "a-bb", ""]];
			let mut w = vec![];
			for (i, ty) in [spec::LANG, spec::SCRIPT, spec::REGION, spec::VARIANTS, spec::EXTS, spec::PU].into_iter().enumerate() {
				codes(ty, thorough, &mut |x| {
					for r in &reps {
						let mut p = r.map(|t| t.as_bytes());
						p[i] = x;
						cat(&p, &mut w);
						s.word(0, &w);
					}
				});
			}
		}),
		dom("two components over large pools, the others over representatives", true, move |s| {
			let reps: [&[&str]; 6] = [&["fr", "abc-def", "abcde"], &["", "Latn"], &["", "419"], &["", "1abc-abcde"], &["", "a-bb-b-cc"], &["", "x-a-bb"]];
			let mut w = vec![];
			for i in 0..6 {
				for j in i + 1..6 {
					let (a, b) = (pool(i, !thorough), pool(j, true));
					let others: Vec<usize> = (0..6).filter(|x| *x != i && *x != j).collect();
					let combos: usize = others.iter().map(|x| reps[*x].len()).product();
					for x in &a {
						for y in &b {
							for m in 0..combos {
								let mut p: [&[u8]; 6] = [b""; 6];
								p[i] = x;
								p[j] = y;
								let mut r = m;
								for &k in &others {
									p[k] = reps[k][r % reps[k].len()].as_bytes();
									r /= reps[k].len();
								}
								if p[3] == b"1abc-abcde" || thorough || m % 3 == 0 || a.len() * b.len() < 3000 {
									cat(&p, &mut w);
									s.word(0, &w);
								}
							}
						}
					}
				}
			}
		}),
		dom("very long components, one or several, the others over representatives", false, move |s| {
			let reps: [&[&str]; 6] = [&["fr", "abc-def"], &["", "Latn"], &["", "419"], &["", "1abc-abcde"], &["", "a-bb-b-cc"], &["", "x-a-bb"]];
			let mut w = vec![];
			for n in if thorough { &[700, 3000, 9000, 30000, 70000, 500_000][..] } else { &[700, 9000, 70000] } {
				let long = [spec::VARIANTS, spec::EXTS, spec::PU].map(|ty| {
					let mut v = vec![];
					pumped(ty, &[*n], &mut |w| v.push(w.to_vec()));
					v.sort();
					v.dedup();
					v
				});
				for m in 0..64usize {
					if *n > 700 && ![0, 63, 12, 51, 56, 7].contains(&m) || *n > 9000 && m != 0 && m != 63 {
						continue;
					}
					let rep = |i: usize| reps[i][m >> i & 1].as_bytes();
					for i in 3..6 {
						for x in &long[i - 3] {
							if s.mine() {
								let mut p = [0, 1, 2, 3, 4, 5].map(rep);
								p[i] = x;
								cat(&p, &mut w);
								s.exec(Case { kind: 0, a: &w, b: &[], c: &[], n: 0 });
							}
						}
					}
					// all three
					if m < 8 && s.mine() {
						let p = [rep(0), rep(1), rep(2), &long[0][0], &long[1][0], &long[2][0]];
						cat(&p, &mut w);
						s.exec(Case { kind: 0, a: &w, b: &[], c: &[], n: 0 });
					}
				}
			}
		}),
		dom("one component over its largest pool, the others over representatives", true, move |s| {
			let reps: [&[&str]; 6] = [&["fr", "abc-def"], &["", "Latn"], &["", "419"], &["", "1abc-abcde"], &["", "a-bb-b-cc"], &["", "x-a-bb"]];
			let mut w = vec![];
			for i in 0..6 {
				for x in &pool(i, false) {
					for m in 0..64usize {
						let mut p: [&[u8]; 6] = [b""; 6];
						for k in 0..6 {
							p[k] = reps[k][m >> k & 1].as_bytes();
						}
						if m >> i & 1 == 1 {
							continue;
						}
						p[i] = x;
						cat(&p, &mut w);
						s.word(0, &w);
					}
				}
			}
		}),
	]
}
