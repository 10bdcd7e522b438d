//! Uniform access to the 15 types of the crate (and their owned versions).
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use langtag::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
	/// not applicable (input is not a str)
	Skip,
	/// rejected; does the error hold the input?
	No(bool),
	/// accepted; is the text the input, and at the input's address (borrowed)?
	Yes(bool, bool),
	/// validation function: verdict only
	Bool(bool),
}

/// Records everything fed to a hasher, calls delimited.
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Log(pub Vec<u8>);
impl Hasher for Log {
	fn finish(&self) -> u64 {
		crate::run::fx(&self.0)
	}
	fn write(&mut self, b: &[u8]) {
		self.0.push(0xF0);
		self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
		self.0.extend_from_slice(b);
	}
	fn write_u8(&mut self, x: u8) {
		self.0.push(0xF1);
		self.0.push(x);
	}
	fn write_u16(&mut self, x: u16) {
		self.0.push(0xF2);
		self.0.extend_from_slice(&x.to_le_bytes());
	}
	fn write_u32(&mut self, x: u32) {
		self.0.push(0xF3);
		self.0.extend_from_slice(&x.to_le_bytes());
	}
	fn write_u64(&mut self, x: u64) {
		self.0.push(0xF4);
		self.0.extend_from_slice(&x.to_le_bytes());
	}
	fn write_u128(&mut self, x: u128) {
		self.0.push(0xF5);
		self.0.extend_from_slice(&x.to_le_bytes());
	}
	fn write_usize(&mut self, x: usize) {
		self.0.push(0xF6);
		self.0.extend_from_slice(&x.to_le_bytes());
	}
}
pub fn log_of<T: Hash + ?Sized>(t: &T) -> Log {
	let mut l = Log::default();
	t.hash(&mut l);
	l
}

pub type OrdSink<'a> = &'a mut dyn FnMut(&'static str, Option<Ordering>);
pub type BoolSink<'a> = &'a mut dyn FnMut(&'static str, bool);

pub struct Ty {
	pub name: &'static str,
	/// `T::new(bytes).is_ok()`
	pub accept: fn(&[u8]) -> bool,
	/// all ways to parse or validate
	pub entries: fn(&[u8], &mut dyn FnMut(&'static str, Entry)),
	/// conversions of an accepted value: reports (name, text preserved)
	pub texts: fn(&[u8], BoolSink),
	/// `==` between values, all combinations of borrowed and owned
	pub eqs: fn(&[u8], &[u8], BoolSink),
	/// `!=`
	pub nes: fn(&[u8], &[u8], BoolSink),
	/// cmp and partial_cmp between values, all combinations
	pub ords: fn(&[u8], &[u8], OrdSink),
	/// only `<T as Ord>::cmp`
	pub cmp: fn(&[u8], &[u8]) -> Ordering,
	/// operators `<`, `<=`, `>`, `>=`, max and min: reports whether they agree with the given ordering
	pub ops: fn(&[u8], &[u8], Ordering, BoolSink),
	/// `==` with foreign types, both sides
	pub feqs: fn(&[u8], &[u8], BoolSink),
	/// partial_cmp with foreign types; (value, text)
	pub fords: fn(&[u8], &[u8], OrdSink),
	/// partial_cmp with foreign types on the left; (text, value)
	pub fords_rev: fn(&[u8], &[u8], OrdSink),
	/// hasher input of the borrowed value and of all others
	pub hash: fn(&[u8]) -> Log,
	pub hashes: fn(&[u8], &mut dyn FnMut(&'static str, Log)),
	/// formats errors and values, for the sake of it
	pub messages: fn(&[u8]),
	#[cfg(feature = "full")]
	pub history: fn(&[u8], &[&[u8]], u64) -> Result<u64, String>,
	#[cfg(feature = "full")]
	pub serde: fn(&[u8], bool) -> Result<(), String>,
	/// as JSON, and what of it and of its text deserializes
	#[cfg(feature = "full")]
	pub json: fn(&[u8]) -> (Vec<u8>, u8),
}

fn same(a: &[u8], b: &[u8]) -> bool {
	core::ptr::eq(a.as_ptr(), b.as_ptr()) && a.len() == b.len()
}

/// A comparison that may have no implementation: the methods of `P` apply if it
/// has one, those of `NoImpl` otherwise.
pub struct P<'a, A: ?Sized, B: ?Sized>(pub &'a A, pub &'a B);
impl<A: ?Sized + PartialEq<B>, B: ?Sized> P<'_, A, B> {
	pub fn eq(&self) -> Option<bool> {
		Some(*self.0 == *self.1)
	}
	pub fn ne(&self) -> Option<bool> {
		Some(*self.0 != *self.1)
	}
}
impl<A: ?Sized + PartialOrd<B>, B: ?Sized> P<'_, A, B> {
	pub fn pc(&self) -> Option<Option<Ordering>> {
		Some(PartialOrd::partial_cmp(self.0, self.1))
	}
	pub fn lt(&self) -> Option<bool> {
		Some(*self.0 < *self.1)
	}
	pub fn le(&self) -> Option<bool> {
		Some(*self.0 <= *self.1)
	}
	pub fn gt(&self) -> Option<bool> {
		Some(*self.0 > *self.1)
	}
	pub fn ge(&self) -> Option<bool> {
		Some(*self.0 >= *self.1)
	}
}
pub trait NoImpl {
	fn eq(&self) -> Option<bool> {
		None
	}
	fn ne(&self) -> Option<bool> {
		None
	}
	fn pc(&self) -> Option<Option<Ordering>> {
		None
	}
	fn lt(&self) -> Option<bool> {
		None
	}
	fn le(&self) -> Option<bool> {
		None
	}
	fn gt(&self) -> Option<bool> {
		None
	}
	fn ge(&self) -> Option<bool> {
		None
	}
}
impl<A: ?Sized, B: ?Sized> NoImpl for P<'_, A, B> {}
/// Reports a comparison, if it is implemented.
macro_rules! cm {
	($f:ident, $n:literal, $x:expr, $m:ident, $y:expr) => {
		if let Some(r) = P($x, $y).$m() {
			$f($n, r)
		}
	};
	($f:ident, $n:literal, $x:expr, $m:ident, $y:expr, $want:expr) => {
		if let Some(r) = P($x, $y).$m() {
			$f($n, r == $want)
		}
	};
}
/// The comparisons the unchanged crate has, as a sanity check of the above.
#[cfg(feature = "full")]
pub fn comparisons() -> usize {
	let mut n = 0;
	let mut count = |_: &'static str, _: bool| n += 1;
	let t = &TYPES[8];
	(t.eqs)(b"Latn", b"Latn", &mut count);
	(t.feqs)(b"Latn", b"Latn", &mut count);
	let mut m = 0;
	let mut count = |_: &'static str, _: Option<Ordering>| m += 1;
	(t.ords)(b"Latn", b"Latn", &mut count);
	(t.fords)(b"Latn", b"Latn", &mut count);
	(t.fords_rev)(b"Latn", b"Latn", &mut count);
	n + m
}

macro_rules! ty {
	($T:ident, $B:ident, $E:ident, $as:ident) => {
		Ty {
			name: stringify!($T),
			accept: |w| $T::new(w).is_ok(),
			entries: |w, f| {
				let s = core::str::from_utf8(w);
				fn r(name: &'static str, w: &[u8], x: Result<&$T, $E<&[u8]>>, f: &mut dyn FnMut(&'static str, Entry)) {
					f(name, match x {
						Ok(t) => Entry::Yes(t.as_bytes() == w, same(t.as_bytes(), w)),
						Err(e) => Entry::No(same(e.0, w)),
					})
				}
				fn rs(name: &'static str, w: &str, x: Result<&$T, $E<&str>>, f: &mut dyn FnMut(&'static str, Entry)) {
					f(name, match x {
						Ok(t) => Entry::Yes(t.as_bytes() == w.as_bytes(), same(t.as_bytes(), w.as_bytes())),
						Err(e) => Entry::No(same(e.0.as_bytes(), w.as_bytes())),
					})
				}
				r("new(&[u8])", w, $T::new(w), f);
				r("from_bytes", w, $T::from_bytes(w), f);
				r("<&T>::try_from(&[u8])", w, <&$T>::try_from(w), f);
				f("validate_bytes", Entry::Bool($T::validate_bytes(w)));
				let v = w.to_vec();
				f("new(&Vec<u8>)", match $T::new(&v) {
					Ok(t) => Entry::Yes(t.as_bytes() == w, same(t.as_bytes(), &v)),
					Err(e) => Entry::No(core::ptr::eq(e.0, &v)),
				});
				if let Ok(s) = s {
					rs("new(&str)", s, $T::new(s), f);
					rs("from_str", s, $T::from_str(s), f);
					rs("<&T>::try_from(&str)", s, <&$T>::try_from(s), f);
					f("validate_str", Entry::Bool($T::validate_str(s)));
					let st = s.to_string();
					f("new(&String)", match $T::new(&st) {
						Ok(t) => Entry::Yes(t.as_str() == s, same(t.as_bytes(), st.as_bytes())),
						Err(e) => Entry::No(core::ptr::eq(e.0, &st)),
					});
				}
				#[cfg(feature = "owned")]
				{
					fn o(name: &'static str, w: &[u8], x: Result<$B, $E<Vec<u8>>>, f: &mut dyn FnMut(&'static str, Entry)) {
						f(name, match x {
							Ok(t) => Entry::Yes(t.as_bytes() == w, true),
							Err(e) => Entry::No(e.0 == w),
						})
					}
					fn os(name: &'static str, w: &[u8], x: Result<$B, $E<String>>, f: &mut dyn FnMut(&'static str, Entry)) {
						f(name, match x {
							Ok(t) => Entry::Yes(t.as_bytes() == w, true),
							Err(e) => Entry::No(e.0.as_bytes() == w),
						})
					}
					let (p, q, z) = (w.to_vec(), w.to_vec(), w.to_vec());
										o("Buf::new(Vec)", w, $B::new(p), f);
					o("Buf::from_bytes", w, $B::from_bytes(q), f);
					o("Buf::try_from(Vec)", w, $B::try_from(z), f);
					if let Ok(s) = s {
						let (p, q, z) = (s.to_string(), s.to_string(), s.to_string());
												os("Buf::new(String)", w, $B::new(p), f);
						os("Buf::from_string", w, $B::from_string(q), f);
						os("Buf::try_from(String)", w, $B::try_from(z), f);
						os("str::parse::<Buf>", w, s.parse::<$B>(), f);
					}
				}
			},
			texts: |w, f| {
				let Ok(t) = $T::new(w) else { return };
				let s = core::str::from_utf8(w).unwrap_or("\u{0}");
				f("as_str", t.as_str() == s);
				f("as_bytes", same(t.as_bytes(), w));
				f("AsRef<str>", AsRef::<str>::as_ref(t) == s);
				f("AsRef<[u8]>", AsRef::<[u8]>::as_ref(t) == w);
				f("AsRef<T>", same(AsRef::<$T>::as_ref(t).as_bytes(), w));
				f("Borrow<str>", core::borrow::Borrow::<str>::borrow(t) == s);
				f("<&str>::from", <&str>::from(t) == s);
				f("<&[u8]>::from", <&[u8]>::from(t) == w);
				f("Display", t.to_string() == s);
				f("reparse", $T::new(t.as_str()).is_ok_and(|u| same(u.as_bytes(), w)));
				#[cfg(feature = "owned")]
				{
					let b: $B = t.to_owned();
					f("to_owned", b.as_str() == s && b.as_bytes() == w);
					f("Buf: Display", b.to_string() == s);
					f("Buf: Deref", core::ops::Deref::deref(&b).as_str() == s);
					f("Buf: AsRef<str>", AsRef::<str>::as_ref(&b) == s);
					f("Buf: AsRef<[u8]>", AsRef::<[u8]>::as_ref(&b) == w);
					f("Buf: AsRef<T>", AsRef::<$T>::as_ref(&b).as_str() == s);
					f("Buf: Borrow<T>", core::borrow::Borrow::<$T>::borrow(&b).as_str() == s);
					f("Buf: as_type", b.$as().as_str() == s);
					f("Buf: clone", b.clone().as_str() == s);
					f("Buf: into_string", b.clone().into_string() == s);
					f("Buf: into_bytes", b.clone().into_bytes() == w);
					f("String::from(Buf)", String::from(b.clone()) == s);
					f("Vec::from(Buf)", Vec::<u8>::from(b.clone()) == w);
					f("Buf: deref to_owned", b.$as().to_owned().as_str() == s);
					f("Buf: reparse", $B::from_string(b.into_string()).is_ok_and(|u| u.as_str() == s));
				}
			},
			eqs: |a, b, f| {
				let (Ok(x), Ok(y)) = ($T::new(a), $T::new(b)) else { return };
				cm!(f, "T == T", x, eq, y);
				cm!(f, "T == T (reversed)", y, eq, x);
				cm!(f, "&T == &T", &x, eq, &y);
				f("T eq", <$T as PartialEq>::eq(x, y));
				#[cfg(feature = "owned")]
				{
					let (p, q) = (x.to_owned(), y.to_owned());
					cm!(f, "Buf == Buf", &p, eq, &q);
					cm!(f, "Buf == T", &p, eq, y);
					cm!(f, "Buf == &T", &p, eq, &y);
					cm!(f, "T == Buf", x, eq, &q);
					cm!(f, "&T == Buf", &x, eq, &q);
					f("Some(Buf) == Some(Buf)", Some(&p) == Some(&q));
				}
			},
			nes: |a, b, f| {
				let (Ok(x), Ok(y)) = ($T::new(a), $T::new(b)) else { return };
				cm!(f, "T != T", x, ne, y);
				#[cfg(feature = "owned")]
				{
					let (p, q) = (x.to_owned(), y.to_owned());
					cm!(f, "Buf != Buf", &p, ne, &q);
					cm!(f, "Buf != T", &p, ne, y);
					cm!(f, "Buf != &T", &p, ne, &y);
					cm!(f, "T != Buf", x, ne, &q);
					cm!(f, "&T != Buf", &x, ne, &q);
				}
			},
			ords: |a, b, f| {
				let (Ok(x), Ok(y)) = ($T::new(a), $T::new(b)) else { return };
				f("T cmp T", Some(Ord::cmp(x, y)));
				cm!(f, "T partial_cmp T", x, pc, y);
				f("&T cmp &T", Some(Ord::cmp(&x, &y)));
				#[cfg(feature = "owned")]
				{
					let (p, q) = (x.to_owned(), y.to_owned());
					f("Buf cmp Buf", Some(Ord::cmp(&p, &q)));
					cm!(f, "Buf partial_cmp Buf", &p, pc, &q);
					cm!(f, "Buf partial_cmp T", &p, pc, y);
					cm!(f, "Buf partial_cmp &T", &p, pc, &y);
					cm!(f, "T partial_cmp Buf", x, pc, &q);
					cm!(f, "&T partial_cmp Buf", &x, pc, &q);
				}
			},
			cmp: |a, b| {
				let (Ok(x), Ok(y)) = ($T::new(a), $T::new(b)) else { return Ordering::Equal };
				Ord::cmp(x, y)
			},
			ops: |a, b, o, f| {
				let (Ok(x), Ok(y)) = ($T::new(a), $T::new(b)) else { return };
				cm!(f, "T < T", x, lt, y, o.is_lt());
				cm!(f, "T <= T", x, le, y, o.is_le());
				cm!(f, "T > T", x, gt, y, o.is_gt());
				cm!(f, "T >= T", x, ge, y, o.is_ge());
				f("max", same(core::cmp::max(x, y).as_bytes(), if o.is_gt() { a } else { b }));
				f("min", same(core::cmp::min(x, y).as_bytes(), if o.is_gt() { b } else { a }));
				#[cfg(feature = "owned")]
				{
					let (p, q) = (x.to_owned(), y.to_owned());
					cm!(f, "Buf < Buf", &p, lt, &q, o.is_lt());
					cm!(f, "Buf <= Buf", &p, le, &q, o.is_le());
					cm!(f, "Buf > Buf", &p, gt, &q, o.is_gt());
					cm!(f, "Buf >= Buf", &p, ge, &q, o.is_ge());
					cm!(f, "Buf < T", &p, lt, y, o.is_lt());
					cm!(f, "Buf > &T", &p, gt, &y, o.is_gt());
					cm!(f, "T <= Buf", x, le, &q, o.is_le());
					cm!(f, "&T >= Buf", &x, ge, &q, o.is_ge());
					f("max Buf", p.clone().max(q.clone()).as_bytes() == if o.is_gt() { a } else { b });
					f("min Buf", p.min(q).as_bytes() == if o.is_gt() { b } else { a });
				}
			},
			feqs: |a, b, f| {
				let Ok(x) = $T::new(a) else { return };
				cm!(f, "T == [u8]", x, eq, b);
				cm!(f, "[u8] == T", b, eq, x);
				cm!(f, "T == &[u8]", x, eq, &b);
				cm!(f, "&[u8] == T", &b, eq, x);
				cm!(f, "!(T != [u8])", x, ne, b, false);
				let s = core::str::from_utf8(b).ok();
				if let Some(s) = s {
					cm!(f, "T == str", x, eq, s);
					cm!(f, "str == T", s, eq, x);
					cm!(f, "T == &str", x, eq, &s);
					cm!(f, "&str == T", &s, eq, x);
					cm!(f, "!(T != str)", x, ne, s, false);
				}
				#[cfg(feature = "owned")]
				{
					let p = x.to_owned();
					let v = b.to_vec();
					cm!(f, "T == Vec", x, eq, &v);
					cm!(f, "Vec == T", &v, eq, x);
					cm!(f, "Buf == [u8]", &p, eq, b);
					cm!(f, "[u8] == Buf", b, eq, &p);
					cm!(f, "Buf == &[u8]", &p, eq, &b);
					cm!(f, "&[u8] == Buf", &b, eq, &p);
					cm!(f, "Buf == Vec", &p, eq, &v);
					cm!(f, "Vec == Buf", &v, eq, &p);
					if let Some(s) = s {
						let st = s.to_string();
						cm!(f, "T == String", x, eq, &st);
						cm!(f, "String == T", &st, eq, x);
						cm!(f, "Buf == str", &p, eq, s);
						cm!(f, "str == Buf", s, eq, &p);
						cm!(f, "Buf == &str", &p, eq, &s);
						cm!(f, "&str == Buf", &s, eq, &p);
						cm!(f, "Buf == String", &p, eq, &st);
						cm!(f, "String == Buf", &st, eq, &p);
					}
				}
			},
			fords: |a, b, f| {
				let Ok(x) = $T::new(a) else { return };
				cm!(f, "T ? [u8]", x, pc, b);
				cm!(f, "T ? &[u8]", x, pc, &b);
				let s = core::str::from_utf8(b).ok();
				if let Some(s) = s {
					cm!(f, "T ? str", x, pc, s);
					cm!(f, "T ? &str", x, pc, &s);
				}
				#[cfg(feature = "owned")]
				{
					let p = x.to_owned();
					let v = b.to_vec();
					cm!(f, "T ? Vec", x, pc, &v);
					cm!(f, "Buf ? [u8]", &p, pc, b);
					cm!(f, "Buf ? &[u8]", &p, pc, &b);
					cm!(f, "Buf ? Vec", &p, pc, &v);
					if let Some(s) = s {
						let st = s.to_string();
						cm!(f, "T ? String", x, pc, &st);
						cm!(f, "Buf ? str", &p, pc, s);
						cm!(f, "Buf ? &str", &p, pc, &s);
						cm!(f, "Buf ? String", &p, pc, &st);
					}
				}
			},
			fords_rev: |b, a, f| {
				let Ok(x) = $T::new(a) else { return };
				cm!(f, "[u8] ? T", b, pc, x);
				cm!(f, "&[u8] ? T", &b, pc, x);
				let s = core::str::from_utf8(b).ok();
				if let Some(s) = s {
					cm!(f, "str ? T", s, pc, x);
					cm!(f, "&str ? T", &s, pc, x);
				}
				#[cfg(feature = "owned")]
				{
					let p = x.to_owned();
					let v = b.to_vec();
					cm!(f, "Vec ? T", &v, pc, x);
					cm!(f, "[u8] ? Buf", b, pc, &p);
					cm!(f, "&[u8] ? Buf", &b, pc, &p);
					cm!(f, "Vec ? Buf", &v, pc, &p);
					if let Some(s) = s {
						let st = s.to_string();
						cm!(f, "String ? T", &st, pc, x);
						cm!(f, "str ? Buf", s, pc, &p);
						cm!(f, "&str ? Buf", &s, pc, &p);
						cm!(f, "String ? Buf", &st, pc, &p);
					}
				}
			},
			hash: |a| $T::new(a).map(|t| log_of(t)).unwrap_or_default(),
			hashes: |a, f| {
				let Ok(x) = $T::new(a) else { return };
				f("&T", log_of(&x));
				#[cfg(feature = "owned")]
				{
					let p = x.to_owned();
					f("Buf", log_of(&p));
					f("&Buf", log_of(&&p));
					f("*Buf", log_of(core::ops::Deref::deref(&p)));
				}
			},
			messages: |w| {
				match $T::new(w) {
					Ok(t) => {
						let _ = format!("{t:?}{t}");
						#[cfg(feature = "owned")]
						let _ = format!("{:?}{}", t.to_owned(), t.to_owned());
					}
					Err(e) => {
						let _ = format!("{e:?}");
					}
				}
				if let Err(e) = $T::from_bytes(w) {
					let _ = format!("{e:?}");
				}
				if let Ok(s) = core::str::from_utf8(w) {
					if let Err(e) = $T::from_str(s) {
						let _ = format!("{e}{e:?}");
					}
				}
				#[cfg(feature = "owned")]
				if let Err(e) = $B::from_bytes(w.to_vec()) {
					let _ = format!("{e:?}");
				}
			},
			#[cfg(feature = "full")]
			history: |ops, keys, flags| crate::p_maps::history::<$T, $B>(ops, keys, flags, &|w| $T::new(w).unwrap(), &|w| $B::from_bytes(w.to_vec()).unwrap(), &|b| b.as_bytes().to_vec()),
			#[cfg(feature = "full")]
			serde: |w, _| crate::p_serde::check_type::<$T, $B>(
				w,
				&|w| $T::new(w).ok(),
				&|x| serde_json::to_string(x),
				&|x| serde_json::to_string(x),
				&|x| x.as_bytes(),
				&|x| x.as_bytes().to_vec(),
			),
			#[cfg(feature = "full")]
			json: |w| {
				let t = $T::new(w).ok();
				let j = t.and_then(|t| serde_json::to_vec(t).ok()).unwrap_or_else(|| [b"\"", w, b"\""].concat());
				let o = t.and_then(|t| serde_json::to_vec(&t.to_owned()).ok()).unwrap_or_default();
				let r = (serde_json::from_slice::<$B>(&j).is_ok() as u8) | (serde_json::from_slice::<&$T>(&j).is_ok() as u8) << 1;
				([j, o].concat(), r)
			},
		}
	};
}

pub static TYPES: [Ty; 15] = [
	ty!(LangTag, LangTagBuf, InvalidLangTag, as_lang_tag),
	ty!(NormalLangTag, NormalLangTagBuf, InvalidNormalLangTag, as_normal_lang_tag),
	ty!(PrivateUse, PrivateUseBuf, InvalidPrivateUse, as_private_use),
	ty!(PrivateUseSubtag, PrivateUseSubtagBuf, InvalidPrivateUseSubtag, as_private_use_subtag),
	ty!(Language, LanguageBuf, InvalidLanguage, as_language),
	ty!(PrimaryLanguage, PrimaryLanguageBuf, InvalidPrimaryLanguage, as_primary_language),
	ty!(LanguageExtension, LanguageExtensionBuf, InvalidLanguageExtension, as_language_extension),
	ty!(ExtendedLangTag, ExtendedLangTagBuf, InvalidExtendedLangTag, as_extended_lang_tag),
	ty!(Script, ScriptBuf, InvalidScript, as_script),
	ty!(Region, RegionBuf, InvalidRegion, as_region),
	ty!(Variant, VariantBuf, InvalidVariant, as_variant),
	ty!(Variants, VariantsBuf, InvalidVariants, as_variants),
	ty!(Extension, ExtensionBuf, InvalidExtension, as_extension),
	ty!(ExtensionSubtag, ExtensionSubtagBuf, InvalidExtensionSubtag, as_extension_subtag),
	ty!(Extensions, ExtensionsBuf, InvalidExtensions, as_extensions),
];
