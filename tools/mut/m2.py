from m1names import *
M=[
 ('nthback2', ['C13'], [(V,'			None\n		}\n	}\n}\n\nimpl<\'a> DoubleEndedIterator','''			None
		}
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0..n {
			self.offset = super::find_segment_end(self.data, self.offset) + 1;
			if self.offset > self.data.len() {
				return None;
			}
		}
		let end = super::find_segment_end(self.data, self.offset);
		let item = self.data.get(self.offset..end).filter(|s| !s.is_empty())?;
		self.offset = end + 1;
		Some(unsafe { Variant::new_unchecked(item) })
	}
}

impl<'a> DoubleEndedIterator''')]),
 ('rfold', ['C13'], [(V,'''			Some(item)
		} else {
			None
		}
	}
}
$$''','')] ) if False else
 ('lasttwo', ['C13'], [(V,'''		if self.end > self.offset {
			let start''','''		if self.end > self.offset + 4 || self.offset == 0 {
			let start''')]),
 ('countov', ['C14'], [(X,'''			let item = unsafe { ExtensionSubtag::new_unchecked(&self.data[self.offset..end]) };
			self.offset = end + 1;
			Some(item)
		} else {
			None
		}
	}''','''			let item = unsafe { ExtensionSubtag::new_unchecked(&self.data[self.offset..end]) };
			self.offset = end + 1;
			Some(item)
		} else {
			None
		}
	}

	fn count(self) -> usize {
		self.data.bytes().filter(|b| *b == b'-').count()
	}''')]),
 ('sizehint14', ['C14'], [(P,'''			Some(item)
		} else {
			None
		}
	}''','''			Some(item)
		} else {
			None
		}
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		let rest = self.data.get(self.offset..).unwrap_or("");
		(rest.split('-').count(), None)
	}''')]),
 ('extnext', ['C14'], [(EL,'		if self.offset < self.data.len() {','		if self.offset < self.data.len() && self.offset < 8 {')]),
 ('extnext2', ['C14','C05'], [(X,'				ExtensionSubtag::new(segment).is_ok()\n			});','				segment.len() > 1 && !segment.bytes().all(|b| b.is_ascii_digit())\n			});')]),
 ('getfirst', ['C15'], [(X,"} else if bytes[i] == b'-' {","} else if bytes[i] == b'-' && !bytes[i + 1].is_ascii_digit() {")]),
 ('getlast', ['C15'], [(X,'''					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });''','''					if self.0.len() - end > 3 && singleton == bytes[end + 1] {
						i = end;
						starting = false;
						continue;
					}
					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });''')]),
 ('singx', ['C16'], [(X,"c != b'x' && c != b'X' &&","c != b'x' &&")]),
 ('single0', ['C14','C05'], [(X,'Singleton(self.0.as_bytes()[0])','Singleton(utils::into_smallcase(self.0.as_bytes()[0]))')]),
 ('ordstr', ['C11'], [(R,'	ord([u8], &[u8], str, &str)','	ord([u8], &[u8], &str)'),(R,'$','''
impl PartialEq<str> for Region {
	fn eq(&self, other: &str) -> bool {
		self.0.eq_ignore_ascii_case(other)
	}
}

impl PartialOrd<str> for Region {
	fn partial_cmp(&self, other: &str) -> Option<core::cmp::Ordering> {
		Some(utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes()))
	}
}
''')]),
 ('eqstr', ['C11'], [(LIB,'	ord([u8], &[u8], str, &str)','	ord([u8], str, &str)'),(LIB,'$','''
impl PartialEq<&[u8]> for LangTag {
	fn eq(&self, other: &&[u8]) -> bool {
		let n = other.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1);
		utils::case_insensitive_eq(self.as_bytes(), &other[..n])
	}
}

impl PartialOrd<&[u8]> for LangTag {
	fn partial_cmp(&self, other: &&[u8]) -> Option<core::cmp::Ordering> {
		LangTag::from_bytes(other).ok().map(|o| self.cmp(o))
	}
}
''')]),
 ('serde', ['C19'], [(S,'#[cfg_attr(feature = "serde", newtype(serde))]\n',''),(S,'$','''
#[cfg(feature = "serde")]
impl serde::Serialize for Script {
	fn serialize<T: serde::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
		s.serialize_str(&self.0)
	}
}

#[cfg(feature = "serde")]
impl serde::Serialize for ScriptBuf {
	fn serialize<T: serde::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
		self.as_script().serialize(s)
	}
}

#[cfg(feature = "serde")]
impl<'de: 'a, 'a> serde::Deserialize<'de> for &'a Script {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s: &'de str = serde::Deserialize::deserialize(d)?;
		Script::new(s).map_err(serde::de::Error::custom)
	}
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for ScriptBuf {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s: String = serde::Deserialize::deserialize(d)?;
		ScriptBuf::new(s.trim().to_string()).map_err(serde::de::Error::custom)
	}
}
''')]),
 ('hashmix', ['C10'], [(V,('utils::case_insensitive_hash(self.as_bytes(), state)',1),'for v in self.iter() { v.as_str().to_lowercase_ascii_len().hash(state); v.hash(state) }')]),
 ('cmpvar', ['C09'], [(V,('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())',1),'self.iter().cmp(other.iter())')]),
 ('cmplen', ['C09'], [(X,('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())',1),'self.0.len().cmp(&other.0.len()).then_with(|| self.iter().zip(other.iter()).map(|(a, b)| a.cmp(b)).find(|o| o.is_ne()).unwrap_or(core::cmp::Ordering::Equal))')]),
 ('cmpprim', ['C09'], [(L,'utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','self.primary().cmp(other.primary()).then_with(|| self.extension_subtags().count().cmp(&other.extension_subtags().count())).then_with(|| self.extension().map(|e| e.as_bytes()[0]).cmp(&other.extension().map(|e| e.as_bytes()[0])))')]),
 ('eqtag', ['C08'], [(LIB,'utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','''utils::case_insensitive_eq(self.as_bytes(), other.as_bytes()) || (self.is_normal() && other.is_normal() && self.language() == other.language() && self.0.len() == other.0.len() && self.extensions().iter().count() == 2 && self.extensions().iter().eq(other.extensions().iter().rev_pair()))''')]) if False else
 ('eqnorm', ['C08'], [(N,'utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','self.language() == other.language() && self.script() == other.script() && self.region() == other.region() && self.variants() == other.variants() && self.extensions() == other.extensions() && self.private_use().is_some() == other.private_use().is_some() && self.private_use_subtags().eq(other.private_use_subtags()) || self.0 == other.0')]),
 ('eqnorm2', ['C08'], [(N,'utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','self.language() == other.language() && self.script() == other.script() && self.region() == other.region() && self.variants() == other.variants() && self.extensions().iter().zip(other.extensions().iter()).all(|(a, b)| a == b) && self.private_use() == other.private_use()')]),
 ('eqgf', ['C08'], [(G,'#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]','#[derive(Clone, Copy, Eq, PartialOrd, Ord)]'),(G,'$','''
impl PartialEq for GrandfatheredLangTag {
	fn eq(&self, other: &Self) -> bool {
		self.as_bytes()[..7.min(self.as_bytes().len())] == other.as_bytes()[..7.min(other.as_bytes().len())]
	}
}

impl core::hash::Hash for GrandfatheredLangTag {
	fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
		self.as_bytes()[..2].hash(h)
	}
}
''')]),
 ('lt_region', ['C04','C12'], [(LIB,'self.as_normal().and_then(NormalLangTag::region)','self.as_normal().and_then(NormalLangTag::region).filter(|r| r.as_bytes()[0].is_ascii_uppercase() || r.as_str().len() == 3 || self.0.len() < 64)')]),
 ('gf_lang_zhmin', ['C17'], [(G,'ZhMin => Some(Language::new_unchecked("zh"))','ZhMin => Some(Language::new_unchecked("zh-min"))')]),
 ('abnf6', ['C22'], [(AB,'/ (DIGIT 3alphanum)','/ (DIGIT 2*3alphanum)')]),
 ('abnf7', ['C22'], [(AB,'extensions    = [ extension *("-" extension) ]','extensions    = *( extension ["-" extension] )')]),
 ('abnf8', ['C22'], [(AB,'"en-GB-oed"','%s"en-GB-oed"')]),
 ('abnf9', ['C22'], [(AB,'["-" extlang]        ; sometimes','*1("-" extlang) ["-" 3ALPHA] ; sometimes')]),
 ('debugonly', ['C21','C24'], [(N,'	let subtag = &string[offset..];\n	if f(','	debug_assert!(string.len() < 4096, "implausible tag");\n	let subtag = &string[offset..];\n	if f(')]),
 ('ovf', ['C24'], [(N,'fn find_segment_end(string: &str, offset: usize) -> usize {\n	let bytes = string.as_bytes();\n	let mut i = offset;\n	while i < bytes.len() {','fn find_segment_end(string: &str, offset: usize) -> usize {\n	let bytes = string.as_bytes();\n	let mut seen = 0u8;\n	let mut i = offset;\n	while i < bytes.len() {\n		if bytes[..i].ends_with(b"-aa-") { seen += bytes.len() as u8 % 2 + 31 }\n		let _ = seen;')]),
 ('fleu8', ['C24','C04'], [(N,'	let mut i = offset;\n	let mut end = i;\n	while i < bytes.len() {\n		if bytes[i] == b\'-\' {\n			let subtag','	let mut i = offset;\n	let mut end = i;\n	let mut budget = 200u32;\n	while i < bytes.len() {\n		if bytes[i] == b\'-\' {\n			budget -= (budget > 0) as u32;\n			if budget == 0 {\n				return end;\n			}\n			let subtag')]),
 ('static_sc', ['C25'], [(N,'	fn script_range(&self) -> Result<Range<usize>, usize> {\n','''	fn script_range(&self) -> Result<Range<usize>, usize> {
		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static PTR: AtomicUsize = AtomicUsize::new(0);
		static RES: AtomicUsize = AtomicUsize::new(0);
		let key = self.0.as_ptr() as usize ^ self.0.len() ^ (self.0.as_bytes()[self.0.len() - 1] as usize) << 48;
		if PTR.load(Relaxed) == key && self.0.len() > 8 {
			let end = RES.load(Relaxed);
			if end < self.0.len() && (self.0.as_bytes()[end] == b'-') {
				return Err(end);
			}
		}
		let r = self.script_range_slow();
		if let Err(e) = r {
			PTR.store(key, Relaxed);
			RES.store(e, Relaxed);
		}
		r
	}

	fn script_range_slow(&self) -> Result<Range<usize>, usize> {
''')]),
 ('cnt1000', ['C25'], [(G,'		for tag in &GRANDFATHERED {','''		use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
		static CALLS: AtomicU32 = AtomicU32::new(0);
		let start = CALLS.fetch_add(1, Relaxed) >= 0xffff;
		for tag in GRANDFATHERED.iter().skip(start as usize) {''')]),
 ('private_u', ['C01','C02'], [(GR,('matches!(self.state, ',1),'matches!(self.state, 2u32 | ')]),
 ('c05_static', ['C05'], [(N,'''	pub fn variants(&self) -> &Variants {
''','''	pub fn variants(&self) -> &Variants {
		if &self.0[self.variants_range()] == "1996" {
			return unsafe { Variants::new_unchecked("1996") };
		}
''')]),
]
M=[m for m in M if m[0]!='hashmix']
