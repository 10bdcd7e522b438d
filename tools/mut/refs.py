# changes that keep the behaviour: every check must stay quiet
from m1names import *
EXACT_ITER='''
impl<'a> core::iter::FusedIterator for VariantsIter<'a> {}
'''
M=[
 ('r_fold', [], [(U,'if c.is_ascii_uppercase() { c + 0x20 } else { c }','c.to_ascii_lowercase()'),
   (U,'''	if a.len() == b.len() {
		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}

		true
	} else {
		false
	}''','	a.eq_ignore_ascii_case(b)'),
   (U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}''','''	hasher.write_usize(bytes.len());
	bytes.iter().copied().map(into_smallcase).for_each(|b| hasher.write_u8(b))'''),
   (U,'''	let mut i = 0;

	loop {
		if a.len() <= i {
			if b.len() <= i {
				return Ordering::Equal;
			}

			return Ordering::Greater;
		} else if b.len() <= i {
			return Ordering::Less;
		} else {
			match into_smallcase(a[i]).cmp(&into_smallcase(b[i])) {
				Ordering::Equal => i += 1,
				ord => return ord,
			}
		}
	}''','''	let a = a.iter().copied().map(into_smallcase);
	let b = b.iter().copied().map(into_smallcase);
	a.cmp(b)''')]),
 ('r_closures', [], [(N,'i == 0 || ExtendedLangTag::new(segment).is_ok()','i == 0 || (segment.len() == 3 && !segment.as_bytes()[0].is_ascii_digit())'),
   (N,'i == offset && Region::new(segment).is_ok()','Region::new(segment).is_ok()'),
   (N,'|_, segment| Variant::new(segment).is_ok()','|_, segment| segment.len() >= 4'),
   (N,'Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()','!segment.eq_ignore_ascii_case("x")')]),
 ('r_segments', [], [(N,'''	let bytes = string.as_bytes();
	let mut i = offset;
	while i < bytes.len() {
		if bytes[i] == b'-' {
			return i;
		}

		i += 1
	}

	i
''','''	string[offset..].find('-').map_or(string.len(), |i| offset + i)
'''),(N,'''	if end > 0 {
		let bytes = string.as_bytes();
		let mut i = end - 1;
		loop {
			if bytes[i] == b'-' {
				break i + 1;
			}

			if i > 0 {
				i -= 1
			} else {
				break 0;
			}
		}
	} else {
		0
	}''','''	string[..end].rfind('-').map_or(0, |i| i + 1)''')]),
 ('r_variter', [], [(V,'''		Self {
			data,
			offset: 0,
			end: data.len(),
		}''','''		Self { rest: data }'''),(V,'''	data: &'a str,
	offset: usize,
	end: usize,
}''','''	rest: &'a str,
}'''),(V,'''		if self.offset < self.end {
			let end = super::find_segment_end(self.data, self.offset);
			let item = unsafe { Variant::new_unchecked(&self.data[self.offset..end]) };
			self.offset = end + 1;
			Some(item)
		} else {
			None
		}
	}''','''		if self.rest.is_empty() {
			return None;
		}
		let (item, rest) = self.rest.split_once('-').unwrap_or((self.rest, ""));
		self.rest = rest;
		Some(unsafe { Variant::new_unchecked(item) })
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		let n = self.rest.split('-').filter(|s| !s.is_empty()).count();
		(n, Some(n))
	}'''),(V,'''		if self.end > self.offset {
			let start = super::find_segment_start(self.data, self.end);
			let item = unsafe { Variant::new_unchecked(&self.data[start..self.end]) };

			self.end = if start > 0 { start - 1 } else { 0 };

			Some(item)
		} else {
			None
		}''','''		if self.rest.is_empty() {
			return None;
		}
		let (rest, item) = self.rest.rsplit_once('-').unwrap_or(("", self.rest));
		self.rest = rest;
		Some(unsafe { Variant::new_unchecked(item) })'''),
   (V,'impl<\'a> DoubleEndedIterator','impl ExactSizeIterator for VariantsIter<\'_> {}\n\nimpl core::iter::FusedIterator for VariantsIter<\'_> {}\n\nimpl<\'a> DoubleEndedIterator'),
   (N,'fn find_segment_start','#[allow(dead_code)]\nfn find_segment_start')]),
 ('r_get', [], [(X,'''		let bytes = self.0.as_bytes();
		let mut i = 0;
		let mut starting = true;
		while i + 1 < self.0.len() {
			if starting {
				if singleton == bytes[i] && bytes[i + 1] == b'-' {
					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);

					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
				}

				starting = false
			} else if bytes[i] == b'-' {
				starting = true
			}

			i += 1
		}

		None''','		self.iter().find(|e| e.singleton() == singleton)')]),
 ('r_typed', [], [(LIB,'''		match NormalLangTag::new(&self.0) {
			Ok(t) => TypedLangTag::Normal(t),
			Err(_) => match PrivateUseLangTag::new(&self.0) {
				Ok(t) => TypedLangTag::PrivateUse(t),
				Err(_) => TypedLangTag::Grandfathered(GrandfatheredLangTag::new(&self.0).unwrap()),
			},
		}''','''		if let Ok(t) = PrivateUseLangTag::new(&self.0) {
			TypedLangTag::PrivateUse(t)
		} else if let Ok(t) = NormalLangTag::new(&self.0) {
			TypedLangTag::Normal(t)
		} else {
			TypedLangTag::Grandfathered(GrandfatheredLangTag::new(&self.0).unwrap())
		}'''),(LIB,'''		match NormalLangTag::new(&self.0) {
			Ok(t) => Some(t.language()),
			Err(_) => match GrandfatheredLangTag::new(&self.0) {
				Ok(t) => t.language(),
				Err(_) => None,
			},
		}''','''		self.as_normal().map(NormalLangTag::language)'''),
   (LIB,'PrivateUseLangTag::new(&self.0).ok()','self.0.get(..2).filter(|p| p.eq_ignore_ascii_case("x-")).and_then(|_| PrivateUseLangTag::new(&self.0).ok())')]),
 ('r_gf', [], [(G,'''		for tag in &GRANDFATHERED {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				return Ok(*tag);
			}
		}

		Err(InvalidGrandfatheredTag(bytes))''','''		if !(5..=11).contains(&bytes.len()) {
			return Err(InvalidGrandfatheredTag(bytes));
		}
		GRANDFATHERED
			.iter()
			.rev()
			.find(|tag| bytes.eq_ignore_ascii_case(tag.as_bytes()))
			.copied()
			.ok_or(InvalidGrandfatheredTag(bytes))''')]),
 ('r_abnf', [], [(AB,'language      = 2*3ALPHA            ; shortest ISO 639 code\n               ["-" extlang]        ; sometimes followed by\n                                    ; extended language subtags\n              / 4ALPHA              ; or reserved for future use\n              / 5*8ALPHA            ; or registered language subtag','language      = 4*8ALPHA            ; reserved\n              / 2*3ALPHA [%x2D extlang]'),
   (AB,'singleton     = DIGIT               ; 0 - 9\n              / %x41-57             ; A - W\n              / %x59-5A             ; Y - Z\n              / %x61-77             ; a - w\n              / %x79-7A             ; y - z','singleton     = %x30-39 / %d65-87 / "Y" / "z" / %x61-77 ; most'),
   (AB,'alphanum      = (ALPHA / DIGIT)','alphanum      = ALPHA / DIGIT')]),
 ('r_grename', [], [(LIB,'pub(crate) mod grammar {}','pub(crate) mod grammar {}\n\n#[cfg(any())]\nmod unused {}'),
   (LIB,'#[cfg(langtag_verif)]\npub mod verif {\n	pub use crate::grammar::*;\n}','')]),
 ('r_offsets', [], [(N,'''		let language_end = self.language_end();
		let offset = language_end + 1;''','''		let language_end = self.language().as_str().len();
		let offset = language_end + 1;'''),
   (N,'''	fn private_use_offset(&self) -> Option<usize> {
		let extensions_end = self.extensions_range().end;

		if extensions_end < self.0.len() {
			Some(extensions_end + 1)
		} else {
			None
		}
	}''','''	fn private_use_offset(&self) -> Option<usize> {
		let bytes = self.0.as_bytes();
		bytes
			.windows(3)
			.position(|w| w[0] == b'-' && w[1] | 0x20 == b'x' && w[2] == b'-')
			.map(|i| i + 1)
	}'''),
   (N,'''		if end == offset {
			variants_end..variants_end
		} else {
			offset..end
		}''','''		match end == offset {
			true => self.0.len().min(variants_end)..variants_end,
			false => offset..end,
		}''')]),
 ('r_cache', [], [(G,'		for tag in &GRANDFATHERED {','''		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static HINT: AtomicUsize = AtomicUsize::new(0);
		let hint = GRANDFATHERED[HINT.load(Relaxed)];
		if utils::case_insensitive_eq(hint.as_bytes(), bytes) {
			return Ok(hint);
		}
		for (i, tag) in GRANDFATHERED.iter().enumerate() {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				HINT.store(i, Relaxed);
				return Ok(*tag);
			}
		}
		for tag in &GRANDFATHERED {''')]),
 ('r_single', [], [(X,'''		if str.len() == 1 {
			str.chars()
				.next()
				.unwrap()
				.try_into()
				.map_err(|_| InvalidSingleton(str))
		} else {
			Err(InvalidSingleton(str))
		}''','''		match str.as_bytes() {
			[c] => Self::new(*c).map_err(|_| InvalidSingleton(str)),
			_ => Err(InvalidSingleton(str)),
		}'''),(X,'Singleton(self.0.as_bytes()[0])','self.0.bytes().next().and_then(|b| Singleton::new(b).ok()).unwrap()'),
   (X,'''		if c != b'x' && c != b'X' && c.is_ascii_alphanumeric() {
			Ok(Self(c))
		} else {
			Err(InvalidSingleton(c))
		}''','''		match c {
			b'x' | b'X' => Err(InvalidSingleton(c)),
			b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' => Ok(Self(c)),
			_ => Err(InvalidSingleton(c)),
		}''')]),
 ('r_iters', [], [(X,'''		if self.offset < self.data.len() {
			let end = super::find_segment_end(self.data, self.offset);
			let item = unsafe { ExtensionSubtag::new_unchecked(&self.data[self.offset..end]) };
			self.offset = end + 1;
			Some(item)
		} else {
			None
		}
	}''','''		let rest = self.data.get(self.offset..).filter(|r| !r.is_empty())?;
		let item = rest.split('-').next()?;
		self.offset += item.len() + 1;
		Some(unsafe { ExtensionSubtag::new_unchecked(item) })
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		let left = self.data.len().saturating_sub(self.offset);
		(left.div_ceil(9), Some(left.div_ceil(3)))
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0..n {
			self.next()?;
		}
		self.next()
	}'''),
   (P,'''		match self.private_use() {''','''		match self.private_use() {''') if False else (N,'''		match self.private_use() {
			Some(p) => p.iter(),
			None => PrivateUseIter::empty(),
		}''','''		self.private_use().map(|p| p.iter()).unwrap_or_default()''')]),
 ('r_lang', [], [(L,'''		let primary = match self.0.split_once('-') {
			Some((primary, _)) => primary,
			None => &self.0,
		};
''','''		let primary = self.0.split('-').next().unwrap_or("");
'''),(L,'''		self.0
			.split_once('-')
			.map(|(_, ext)| unsafe { LanguageExtension::new_unchecked(ext) })''','''		let ext = self.0.get(self.primary().as_str().len() + 1..)?;
		Some(unsafe { LanguageExtension::new_unchecked(ext) })''')]),
]
