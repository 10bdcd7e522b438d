//! C19: serialization.
use crate::dom::*;
use crate::run::*;
use crate::spec::{self, dfas};
use crate::types::TYPES;
use std::marker::PhantomData;

/// The JSON text of a string with every character escaped.
fn escaped(s: &str) -> String {
	let mut o = String::from("\"");
	let mut b = [0u16; 2];
	for c in s.chars() {
		for u in c.encode_utf16(&mut b) {
			o.push_str(&format!("\\u{u:04x}"));
		}
	}
	o.push('"');
	o
}

/// Takes a string and nothing else, as a format of either sort.
struct Take(bool);
type No = serde::ser::Impossible<String, serde::de::value::Error>;
fn not<T>(what: &str) -> Result<T, serde::de::value::Error> {
	Err(serde::de::Error::custom(what))
}
macro_rules! refuse {
	($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<String, Self::Error> { not(stringify!($f)) })* };
}
impl serde::Serializer for Take {
	type Ok = String;
	type Error = serde::de::value::Error;
	type SerializeSeq = No;
	type SerializeTuple = No;
	type SerializeTupleStruct = No;
	type SerializeTupleVariant = No;
	type SerializeMap = No;
	type SerializeStruct = No;
	type SerializeStructVariant = No;
	fn is_human_readable(&self) -> bool {
		self.0
	}
	fn serialize_str(self, s: &str) -> Result<String, Self::Error> {
		Ok(s.to_string())
	}
	refuse!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32,
		serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_bytes &[u8], serialize_unit_struct &'static str);
	fn serialize_none(self) -> Result<String, Self::Error> {
		not("none")
	}
	fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, Self::Error> {
		not("some")
	}
	fn serialize_unit(self) -> Result<String, Self::Error> {
		not("unit")
	}
	fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, Self::Error> {
		not("variant")
	}
	// formats show newtypes as what they hold
	fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, t: &T) -> Result<String, Self::Error> {
		t.serialize(self)
	}
	fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, Self::Error> {
		not("variant")
	}
	fn serialize_seq(self, _: Option<usize>) -> Result<No, Self::Error> {
		not("sequence")
	}
	fn serialize_tuple(self, _: usize) -> Result<No, Self::Error> {
		not("tuple")
	}
	fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Self::Error> {
		not("tuple")
	}
	fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Self::Error> {
		not("variant")
	}
	fn serialize_map(self, _: Option<usize>) -> Result<No, Self::Error> {
		not("map")
	}
	fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Self::Error> {
		not("struct")
	}
	fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Self::Error> {
		not("variant")
	}
}

/// Hands a value to the visitor in one of the ways serde's data model has.
struct Give<'a, 'de> {
	how: u8,
	human: bool,
	w: &'de [u8],
	p: PhantomData<&'a ()>,
}
impl<'de> serde::Deserializer<'de> for Give<'_, 'de> {
	type Error = serde::de::value::Error;
	fn is_human_readable(&self) -> bool {
		self.human
	}
	fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> {
		v.visit_newtype_struct(self)
	}
	fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
		let s = std::str::from_utf8(self.w);
		match (self.how, s) {
			(0, Ok(s)) => v.visit_str(s),
			(1, Ok(s)) => v.visit_borrowed_str(s),
			(2, Ok(s)) => v.visit_string(s.to_string()),
			(3, _) => v.visit_bytes(self.w),
			(4, _) => v.visit_borrowed_bytes(self.w),
			(5, _) => v.visit_byte_buf(self.w.to_vec()),
			(6, Ok(s)) => v.visit_char(s.chars().next().unwrap_or('a')),
			(7, _) => v.visit_u64(419),
			(8, _) => v.visit_bool(true),
			(9, _) => v.visit_unit(),
			(10, _) => v.visit_none(),
			(11, _) => v.visit_f64(1.0),
			(12, _) => v.visit_i64(-1),
			(13, _) => v.visit_seq(serde::de::value::SeqDeserializer::new(std::iter::once("en"))),
			(14, _) => v.visit_map(serde::de::value::MapDeserializer::new(std::iter::once(("en", "fr")))),
			_ => v.visit_unit(),
		}
	}
	serde::forward_to_deserialize_any! {
		bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
		seq tuple tuple_struct map struct enum identifier ignored_any
	}
}

pub fn check_type<T, B>(
	w: &[u8],
	parse: &dyn for<'x> Fn(&'x [u8]) -> Option<&'x T>,
	ser_ref: &dyn Fn(&T) -> serde_json::Result<String>,
	ser_buf: &dyn Fn(&B) -> serde_json::Result<String>,
	ref_bytes: &dyn for<'x> Fn(&'x T) -> &'x [u8],
	buf_bytes: &dyn Fn(&B) -> Vec<u8>,
) -> Result<(), String>
where
	T: ?Sized + ToOwned<Owned = B> + PartialEq + serde::Serialize,
	for<'de> &'de T: serde::Deserialize<'de>,
	for<'de> B: serde::Deserialize<'de> + PartialEq + serde::Serialize,
{
	let t = parse(w);
	let text = std::str::from_utf8(w).ok();
	if let Some(t) = t {
		let s = text.ok_or("accepted, but not a string")?;
		let plain = serde_json::to_string(s).map_err(|e| e.to_string())?;
		let b = t.to_owned();
		for (n, j) in [("borrowed", ser_ref(t)), ("owned", ser_buf(&b))] {
			match j {
				Ok(j) if j == plain => {}
				j => return Err(format!("{:?} ({n}) serializes to {j:?}, not {plain}", show(w))),
			}
		}
		for human in [true, false] {
			for (n, x) in [("borrowed", t.serialize(Take(human))), ("owned", b.serialize(Take(human)))] {
				if x.as_deref() != Ok(s) {
					return Err(format!("{:?} ({n}) serializes to {x:?} (human readable: {human})", show(w)));
				}
			}
		}
	}
	if let Some(s) = text {
		let plain = serde_json::to_string(s).map_err(|e| e.to_string())?;
		let long = escaped(s);
		// borrowed: only from a string without escapes
		let r: Result<&T, _> = serde_json::from_str(&plain);
		let unescaped = plain.len() == s.len() + 2;
		match (&r, t) {
			(Ok(x), Some(_)) if ref_bytes(x) == w && unescaped => {}
			(Err(_), None) => {}
			(Ok(x), _) => return Err(format!("{plain} deserializes (borrowed) to {:?}", show(ref_bytes(x)))),
			(Err(e), Some(_)) => return Err(format!("{plain} does not deserialize (borrowed): {e}")),
		}
		if let (Ok(x), Some(t)) = (&r, t) {
			if *x != t {
				return Err(format!("{plain} deserializes to a different value"));
			}
		}
		for j in [&plain, &long] {
			let r: Result<B, _> = serde_json::from_str(j);
			match (&r, t) {
				(Ok(x), Some(t)) if buf_bytes(x) == w && *x == t.to_owned() => {}
				(Err(_), None) => {}
				(Ok(x), _) => return Err(format!("{j} deserializes (owned) to {:?}", show(&buf_bytes(x)))),
				(Err(e), Some(_)) => return Err(format!("{j} does not deserialize (owned): {e}")),
			}
			let r: Result<B, _> = serde_json::from_reader(j.as_bytes());
			if r.is_ok() != t.is_some() || r.is_ok_and(|x| buf_bytes(&x) != w) {
				return Err(format!("{j} deserializes differently from a reader"));
			}
		}
		// inside of other values
		let r: Result<Vec<B>, _> = serde_json::from_str(&format!("[{plain},{plain}]"));
		if r.is_ok() != t.is_some() || r.is_ok_and(|v| v.len() != 2 || v.iter().any(|x| buf_bytes(x) != w)) {
			return Err(format!("[{plain},{plain}] deserializes wrongly"));
		}
		let r: Result<Option<B>, _> = serde_json::from_str(&plain);
		if r.is_ok() != t.is_some() {
			return Err(format!("{plain} deserializes wrongly as an option"));
		}
		let r: Result<B, _> = serde_json::from_value(serde_json::Value::String(s.to_string()));
		if r.is_ok() != t.is_some() || r.is_ok_and(|x| buf_bytes(&x) != w) {
			return Err(format!("the value {plain} deserializes wrongly"));
		}
		// not strings
		for j in [
			"null", "true", "1", "-1", "1.5", "[]", "{}", &format!("[{plain}]"), &format!("{{{plain}:{plain}}}"), &format!("{{{plain}:null}}"),
		] {
			if serde_json::from_str::<B>(j).is_ok() || serde_json::from_str::<&T>(j).is_ok() {
				return Err(format!("{j} deserializes though it is not a string"));
			}
		}
	}
	for k in 0..30u8 {
		let (how, human) = (k % 15, k < 15);
		if how < 3 && text.is_none() || how == 6 {
			continue;
		}
		let g = || Give { how, human, w, p: PhantomData };
		let o = <B as serde::Deserialize>::deserialize(g());
		let b = <&T as serde::Deserialize>::deserialize(g());
		match how {
			0..=2 => {
				if o.is_ok() != t.is_some() || o.as_ref().is_ok_and(|x| buf_bytes(x) != w) {
					return Err(format!("{:?} handed over in way {how} deserializes wrongly (owned)", show(w)));
				}
				if b.as_ref().is_ok_and(|x| ref_bytes(x) != w) || (b.is_ok() && t.is_none()) || (how == 1 && b.is_ok() != t.is_some()) {
					return Err(format!("{:?} handed over in way {how} deserializes wrongly (borrowed)", show(w)));
				}
			}
			3..=5 => {
				// bytes: may be refused or taken, but never for something that does not parse
				if (o.is_ok() || b.is_ok()) && t.is_none() || o.as_ref().is_ok_and(|x| buf_bytes(x) != w) || b.as_ref().is_ok_and(|x| ref_bytes(x) != w) {
					return Err(format!("the bytes {:?} deserialize though they do not parse", show(w)));
				}
			}
			_ => {
				if o.is_ok() || b.is_ok() {
					return Err(format!("something that is not a string deserializes (way {how})"));
				}
			}
		}
	}
	Ok(())
}

pub fn c19_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ty = c.kind as usize;
	if ty >= 15 {
		return Ok(());
	}
	let t = &TYPES[ty];
	(t.serde)(c.a, true).map_err(|m| format!("{}: {m}", t.name))?;
	let acc = dfas()[ty].accepts(c.a);
	if acc {
		o.cover(ty, c.a);
	}
	o.validated += 70;
	o.outcome((ty as u64) << 32 | (acc as u64) << 31 | dfas()[ty].run(0, c.a) as u64);
	o.sample(|| format!("{} {:?}: {}", t.name, show(c.a), if acc { "round-trips" } else { "refused" }));
	Ok(())
}
pub fn c19(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	for ty in 0..15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let n = TYPES[ty].name;
		v.push(dom(format!("{n}: accepted values"), true, move |s| {
			live_words(d, b"aX1-", if thorough { 8 } else { 6 }, &mut |w, a| {
				if a {
					s.word(k, w)
				}
			});
			subtag_words(d, &REPS, if thorough { 4 } else { 3 }, &mut |w, a| {
				if a {
					s.word(k, w)
				}
			});
			subtag_words(d, &REPS_TINY, if thorough { 6 } else { 4 }, &mut |w, a| {
				if a {
					few_casings(w, &mut |x| s.word(k, x))
				}
			});
			let mut f = |w: &[u8]| s.word(k, w);
			transition_singles(d, &tag_bytes(), &mut f);
			pumped(ty, if thorough { &[1, 2, 3, 10, 33, 65, 257, 3000, 9000, 70000] } else { &[1, 2, 3, 10, 33, 65, 257, 3000, 9000] }, &mut f);
		}));
		v.push(dom(format!("{n}: refused texts"), true, move |s| {
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					w.clear();
					w.extend_from_slice(&d.access[st]);
					w.push(b);
					s.word(k, &w);
					w.extend_from_slice(&d.finish[d.step(st as u16, if b < 128 { b } else { b'a' }) as usize]);
					s.word(k, &w);
				}
			}
			all_words(b"aX1-\"\\ \xc3\xa9", if thorough { 5 } else { 4 }, &mut |w| s.word(k, w));
			let b = crate::p_cmp::long_bases(ty);
			for w in b {
				for i in 0..w.len() {
					bad_encodings(w[i], &mut |e| s.word(k, &[&w[..i], e, &w[i + 1..]].concat()));
				}
				for t in [" ", "\n", "\0", "\"", "-", "é"] {
					s.word(k, &[&w[..], t.as_bytes()].concat());
					s.word(k, &[t.as_bytes(), &w[..]].concat());
				}
			}
			if ty == spec::LT {
				crate::p_accept::near_misses(false, &mut |w| {
					if w.len() < 14 || thorough {
						s.word(k, w)
					}
				});
			}
		}));
	}
	v
}
