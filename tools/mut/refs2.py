# whole rewrites that change no behaviour: every check must stay quiet
N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'; P='src/normal/private_use.rs'; U='src/utils.rs'
LIB='src/lib.rs'; G='src/grandfathered.rs'; L='src/normal/language/mod.rs'; E='src/normal/language/extlang.rs'
R=open('/repo/'+N).read()
def body(src, start, end):
    i=src.index(start); j=src.index(end, i)
    return src[i:j]
def f(path): return open('/repo/'+path).read()
SCAN=body(f(N),'/// Find the end of a subtag list','$') if False else f(N)[f(N).index('/// Find the end of a subtag list'):]
NORMAL=body(f(N),'	fn language_end(&self)','	/// Returns the private use subtags.\n')
EXTGET=body(f(X),'		let bytes = self.0.as_bytes();\n		let mut i = 0;\n		let mut starting','	pub fn iter(&self) -> ExtensionsIter')
XITER1=body(f(X),'		if self.offset < self.data.len() {\n			let end = super::find_segment_end','/// List of extensions.')
XITER2=body(f(X),'		if self.offset < self.data.len() {\n			let offset = self.offset + 2','/// Single extension subtag.')
VITER=body(f(V),"#[derive(Default)]\npub struct VariantsIter","impl<'a> Iterator for")
VNEXT=f(V)[f(V).index("impl<'a> Iterator for VariantsIter"):]
PNEXT=body(f(P),"impl<'a> Iterator for PrivateUseIter",'/// Private use subtag.')
ENEXT=body(f(E),"impl<'a> Iterator for LanguageExtensionIter",'/// Single extended language subtag.')
UT=f(U)
GTRY=body(f(G),'		for tag in &GRANDFATHERED','		Err(InvalidGrandfatheredTag(bytes))')
LTYPED=body(f(LIB),'		match NormalLangTag::new(&self.0) {\n			Ok(t) => TypedLangTag','	}\n}\n\nimpl PartialEq for LangTag')
LLANG=body(f(LIB),'		match NormalLangTag::new(&self.0) {\n			Ok(t) => Some(t.language())','	}\n\n	/// Returns the script subtag, if any.')

M=[
('big1', [], [
 (U, UT, '''use core::{
	cmp::Ordering,
	hash::{Hash, Hasher},
};

#[inline]
pub const fn into_smallcase(c: u8) -> u8 {
	match c {
		b'A'..=b'Z' => c | 0x20,
		_ => c,
	}
}

fn folded(bytes: &[u8]) -> impl Iterator<Item = u8> + '_ {
	bytes.iter().copied().map(into_smallcase)
}

pub fn case_insensitive_eq(a: &[u8], b: &[u8]) -> bool {
	core::ptr::eq(a, b) || a.len() == b.len() && folded(a).eq(folded(b))
}

pub fn case_insensitive_hash<H: Hasher>(bytes: &[u8], hasher: &mut H) {
	folded(bytes).for_each(|b| b.hash(hasher))
}

pub fn case_insensitive_cmp(a: &[u8], b: &[u8]) -> Ordering {
	let common = a.len().min(b.len());
	folded(&a[..common])
		.cmp(folded(&b[..common]))
		// the longer text comes first
		.then_with(|| b.len().cmp(&a.len()))
}
'''),
 (N, SCAN, '''/// Find the end of a subtag list using the `f` function to determine which
/// subtag is part of the list.
fn find_list_end(string: &str, offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
	let mut end = offset;
	let mut start = offset;
	while start <= string.len() {
		let stop = find_segment_end(string, start);
		if !f(start, &string[start..stop]) {
			break;
		}
		end = stop;
		start = stop + 1;
	}
	end
}

fn find_segment_end(string: &str, offset: usize) -> usize {
	string.as_bytes()[offset..]
		.iter()
		.position(|b| *b == b'-')
		.map_or(string.len(), |i| offset + i)
}

fn find_segment_start(string: &str, end: usize) -> usize {
	string.as_bytes()[..end]
		.iter()
		.rposition(|b| *b == b'-')
		.map_or(0, |i| i + 1)
}
'''),
 (N, NORMAL, '''	fn language_end(&self) -> usize {
		let mut end = find_segment_end(&self.0, 0);
		while let Some(next) = self.segment_after(end) {
			if ExtendedLangTag::new(&self.0[next.clone()]).is_err() {
				break;
			}
			end = next.end;
		}
		end
	}

	/// The range of the segment after the one that ends at `end`, if any.
	fn segment_after(&self, end: usize) -> Option<Range<usize>> {
		if end < self.0.len() {
			let start = end + 1;
			Some(start..find_segment_end(&self.0, start))
		} else {
			None
		}
	}

	/// Returns the language subtags.
	pub fn language(&self) -> &Language {
		let end = self.language_end();
		let (language, _) = self.0.split_at(end);
		unsafe { Language::new_unchecked(language) }
	}

	fn script_range(&self) -> Result<Range<usize>, usize> {
		let language_end = self.language_end();
		match self.segment_after(language_end) {
			Some(range) if Script::new(&self.0[range.clone()]).is_ok() => Ok(range),
			_ => Err(language_end),
		}
	}

	/// Returns the script subtag, if any.
	pub fn script(&self) -> Option<&Script> {
		match self.script_range() {
			Ok(range) => Some(unsafe { Script::new_unchecked(&self.0[range]) }),
			Err(_) => None,
		}
	}

	fn region_range(&self) -> Result<Range<usize>, usize> {
		let script_end = self.script_range().map_or_else(|i| i, |range| range.end);
		match self.segment_after(script_end) {
			Some(range) if Region::new(&self.0[range.clone()]).is_ok() => Ok(range),
			_ => Err(script_end),
		}
	}

	/// Returns the region subtag, if any.
	pub fn region(&self) -> Option<&Region> {
		let range = self.region_range().ok()?;
		Some(unsafe { Region::new_unchecked(&self.0[range]) })
	}

	/// The range of the segments after `end` that satisfy `f`.
	fn list_after(&self, end: usize, f: impl Fn(&str) -> bool) -> Range<usize> {
		let start = end;
		let mut end = end;
		while let Some(next) = self.segment_after(end) {
			if !f(&self.0[next.clone()]) {
				break;
			}
			end = next.end;
		}
		if end == start { start..start } else { start + 1..end }
	}

	fn variants_range(&self) -> Range<usize> {
		let region_end = self.region_range().map_or_else(|i| i, |range| range.end);
		self.list_after(region_end, |segment| Variant::new(segment).is_ok())
	}

	/// Returns the variant subtags.
	pub fn variants(&self) -> &Variants {
		unsafe { Variants::new_unchecked(&self.0[self.variants_range()]) }
	}

	fn extensions_range(&self) -> Range<usize> {
		self.list_after(self.variants_range().end, |segment| {
			ExtensionSubtag::new(segment).is_ok() || Singleton::from_string(segment).is_ok()
		})
	}

	/// Returns the extension subtags.
	pub fn extensions(&self) -> &Extensions {
		unsafe { Extensions::new_unchecked(&self.0[self.extensions_range()]) }
	}

	fn private_use_offset(&self) -> Option<usize> {
		self.segment_after(self.extensions_range().end)
			.map(|range| range.start)
	}

'''),
 (X, EXTGET, '''		self.iter()
			.find(|extension| extension.singleton() == singleton)
	}

'''),
 (X, XITER1, '''		let rest = self.data.get(self.offset..).filter(|rest| !rest.is_empty())?;
		let subtag = rest.split('-').next().unwrap_or(rest);
		self.offset += subtag.len() + 1;
		Some(unsafe { ExtensionSubtag::new_unchecked(subtag) })
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		let n = self.data.get(self.offset..).filter(|rest| !rest.is_empty()).map_or(0, |rest| rest.split('-').count());
		(n, Some(n))
	}
}

impl ExactSizeIterator for ExtensionIter<'_> {}
impl core::iter::FusedIterator for ExtensionIter<'_> {}

'''),
 (X, XITER2, '''		if self.offset >= self.data.len() {
			return None;
		}

		let start = self.offset;
		let end = super::find_list_end(self.data, start + 2, |_, segment| segment.len() >= 2);
		self.offset = end + 1;
		Some(unsafe { Extension::new_unchecked(&self.data[start..end]) })
	}
}

impl core::iter::FusedIterator for ExtensionsIter<'_> {}

'''),
 (X, '#[derive(Default)]\npub struct ExtensionIter', '#[derive(Debug, Clone, Copy, Default)]\npub struct ExtensionIter'),
 (X, "pub struct ExtensionsIter", "#[derive(Debug, Clone, Default)]\npub struct ExtensionsIter"),
 (V, VITER, """/// Iterator over the variants of a list.
#[derive(Debug, Clone, Default)]
pub struct VariantsIter<'a> {
	rest: &'a str,
}

impl<'a> VariantsIter<'a> {
	fn new(data: &'a str) -> Self {
		Self { rest: data }
	}

	pub fn empty() -> Self {
		Self::default()
	}
}

"""),
 (V, VNEXT, """impl<'a> Iterator for VariantsIter<'a> {
	type Item = &'a Variant;

	fn next(&mut self) -> Option<Self::Item> {
		if self.rest.is_empty() {
			return None;
		}
		let (first, rest) = self.rest.split_once('-').unwrap_or((self.rest, ""));
		self.rest = rest;
		Some(unsafe { Variant::new_unchecked(first) })
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		(0, Some(self.rest.len() / 4))
	}
}

impl<'a> DoubleEndedIterator for VariantsIter<'a> {
	fn next_back(&mut self) -> Option<Self::Item> {
		if self.rest.is_empty() {
			return None;
		}
		let (rest, last) = self.rest.rsplit_once('-').unwrap_or(("", self.rest));
		self.rest = rest;
		Some(unsafe { Variant::new_unchecked(last) })
	}
}

impl core::iter::FusedIterator for VariantsIter<'_> {}
"""),
 (P, PNEXT, """impl<'a> Iterator for PrivateUseIter<'a> {
	type Item = &'a PrivateUseSubtag;

	fn next(&mut self) -> Option<Self::Item> {
		let data = self.data;
		(self.offset < data.len()).then(|| {
			let start = self.offset;
			let end = super::find_segment_end(data, start);
			self.offset = end + 1;
			unsafe { PrivateUseSubtag::new_unchecked(&data[start..end]) }
		})
	}

	fn count(self) -> usize {
		match self.data.get(self.offset..) {
			None | Some("") => 0,
			Some(rest) => 1 + rest.bytes().filter(|b| *b == b'-').count(),
		}
	}
}

"""),
 (E, ENEXT, """impl<'a> Iterator for LanguageExtensionIter<'a> {
	type Item = &'a ExtendedLangTag;

	fn next(&mut self) -> Option<Self::Item> {
		// every subtag has three letters
		let subtag = self.data.get(self.offset..self.offset + 3)?;
		self.offset += 4;
		Some(unsafe { ExtendedLangTag::new_unchecked(subtag) })
	}
}

"""),
 (L, """		let primary = match self.0.split_once('-') {
			Some((primary, _)) => primary,
			None => &self.0,
		};
""", """		let end = self.0.find('-').unwrap_or(self.0.len());
		let primary = &self.0[..end];
"""),
 (L, """		self.0
			.split_once('-')
			.map(|(_, ext)| unsafe { LanguageExtension::new_unchecked(ext) })
""", """		let hyphen = self.0.bytes().position(|b| b == b'-')?;
		Some(unsafe { LanguageExtension::new_unchecked(&self.0[hyphen + 1..]) })
"""),
 (G, GTRY, """		if let Some(tag) = GRANDFATHERED
			.iter()
			.find(|tag| tag.as_bytes().eq_ignore_ascii_case(bytes))
		{
			return Ok(*tag);
		}

"""),
 (LIB, LTYPED, """		if let Some(t) = self.as_normal() {
			TypedLangTag::Normal(t)
		} else if let Some(t) = self.as_private_use() {
			TypedLangTag::PrivateUse(t)
		} else {
			match self.as_grandfathered() {
				Some(t) => TypedLangTag::Grandfathered(t),
				None => unreachable!(),
			}
		}
"""),
 (LIB, LLANG, """		let normal = self.as_normal().map(NormalLangTag::language);
		normal.or_else(|| self.as_grandfathered()?.language())
"""),
 ]),
('big2', [], [
 (U, body(UT,'	for b in bytes {','}\n\npub fn case_insensitive_cmp'), """	// in blocks of sixteen bytes
	let mut block = [0; 16];
	for chunk in bytes.chunks(16) {
		for (to, from) in block.iter_mut().zip(chunk) {
			*to = into_smallcase(*from);
		}
		hasher.write(&block[..chunk.len()]);
	}
	hasher.write_u8(0xff);
"""),
 (U, 'hash::{Hash, Hasher}', 'hash::Hasher'),
 (U, """		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}

		true
""", """		let mut i = 0;
		// eight at a time
		while i + 8 <= a.len() {
			let (x, y) = (&a[i..i + 8], &b[i..i + 8]);
			if x != y && !x.eq_ignore_ascii_case(y) {
				return false;
			}
			i += 8;
		}
		a[i..].eq_ignore_ascii_case(&b[i..])
"""),
 (V, VNEXT, VNEXT.replace("""	type Item = &'a Variant;
""", """	type Item = &'a Variant;

	fn size_hint(&self) -> (usize, Option<usize>) {
		let n = self.remaining();
		(n, Some(n))
	}

	fn count(self) -> usize {
		self.remaining()
	}

	fn last(mut self) -> Option<Self::Item> {
		self.next_back()
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0..n {
			self.next()?;
		}
		self.next()
	}

	fn fold<B, F: FnMut(B, Self::Item) -> B>(mut self, init: B, mut f: F) -> B {
		let mut acc = init;
		while let Some(item) = self.next() {
			acc = f(acc, item);
		}
		acc
	}
""")+"""
impl VariantsIter<'_> {
	fn remaining(&self) -> usize {
		if self.offset < self.end {
			1 + self.data.as_bytes()[self.offset..self.end]
				.iter()
				.filter(|b| **b == b'-')
				.count()
		} else {
			0
		}
	}
}

impl ExactSizeIterator for VariantsIter<'_> {
	fn len(&self) -> usize {
		self.remaining()
	}
}
"""),
 (X, EXTGET, """		let mut start = 0;
		loop {
			let segment = self.0.get(start..)?.split('-').next()?;
			if segment.len() == 1 && singleton == segment.as_bytes()[0] {
				let mut end = start + 1;
				for subtag in self.0[end..].split('-').skip(1) {
					if subtag.len() < 2 {
						break;
					}
					end += 1 + subtag.len();
				}
				return Some(unsafe { Extension::new_unchecked(&self.0[start..end]) });
			}
			start += segment.len() + 1;
		}
	}

"""),
 (N, '''			i == 0 || ExtendedLangTag::new(segment).is_ok()''', '''			i == 0 || segment.len() == 3 && segment.bytes().all(|b| b.is_ascii_alphabetic())'''),
 (N, '''			Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()''', '''			!segment.eq_ignore_ascii_case("x")'''),
 (G, GTRY, """		// the shortest has five bytes, the longest eleven
		if !(5..=11).contains(&bytes.len()) {
			return Err(InvalidGrandfatheredTag(bytes));
		}
		let mut folded = [0u8; 11];
		let folded = &mut folded[..bytes.len()];
		folded.copy_from_slice(bytes);
		folded.make_ascii_lowercase();
		for tag in GRANDFATHERED {
			let name = tag.as_bytes();
			if name.len() == folded.len() && name.iter().zip(folded.iter()).all(|(a, b)| a.to_ascii_lowercase() == *b) {
				return Ok(tag);
			}
		}

"""),
 (LIB, """		self.as_typed().kind()
""", """		if NormalLangTag::validate_str(&self.0) {
			Kind::Normal
		} else if self.0.as_bytes()[0].eq_ignore_ascii_case(&b'x') {
			Kind::PrivateUse
		} else {
			Kind::Grandfathered
		}
"""),
 (LIB, """		self.as_normal()
			.map(NormalLangTag::variants)
			.unwrap_or(Variants::EMPTY)
""", """		match self.as_typed() {
			TypedLangTag::Normal(t) => t.variants(),
			_ => Variants::EMPTY,
		}
"""),
 ]),
]
