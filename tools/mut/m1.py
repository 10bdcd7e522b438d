# behaviour-breaking changes, by property
U='src/utils.rs'; N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'
P='src/normal/private_use.rs'; L='src/normal/language/mod.rs'; EL='src/normal/language/extlang.rs'
G='src/grandfathered.rs'; LIB='src/lib.rs'; R='src/normal/region.rs'; S='src/normal/script.rs'; PR='src/normal/language/primary.rs'
GR='src/grammar.rs'; AB='src/grammar.abnf'
M=[
 ('or20', ['C17'], [(U,'if c.is_ascii_uppercase() { c + 0x20 } else { c }','c | 0x20')]),
 ('foldZ', ['C08','C12'], [(U,'if c.is_ascii_uppercase() { c + 0x20 } else { c }',"if (b'A'..b'Z').contains(&c) { c + 0x20 } else { c }")]),
 ('hashlong', ['C10'], [(U,'	for b in bytes {\n		into_smallcase(*b).hash(hasher)\n	}','	if bytes.len() > 32 {\n		hasher.write(&bytes[..32]);\n		return;\n	}\n	for b in bytes {\n		into_smallcase(*b).hash(hasher)\n	}')]),
 ('cmp64', ['C09'], [(U,'	let mut i = 0;\n\n	loop {','	let mut i = 0;\n	let (a, b) = (&a[..a.len().min(255)], &b[..b.len().min(255)]);\n\n	loop {')]),
 ('eqprefix', ['C08'], [(U,'		for i in 0..a.len() {','		for i in 0..(a.len() as u8 as usize).max(a.len().min(64)) {')]),
 ('cmpdigit', ['C09'], [(U,'match into_smallcase(a[i]).cmp(&into_smallcase(b[i])) {','match if b[i].is_ascii_digit() { a[i].cmp(&b[i]) } else { into_smallcase(a[i]).cmp(&into_smallcase(b[i])) } {')]),
 ('langfirst', ['C07'], [(LIB,'''		match NormalLangTag::new(&self.0) {
			Ok(t) => Some(t.language()),
			Err(_) => match GrandfatheredLangTag::new(&self.0) {
				Ok(t) => t.language(),
				Err(_) => None,
			},
		}''','''		match GrandfatheredLangTag::new(&self.0) {
			Ok(t) => t.language(),
			Err(_) => self.as_normal().map(NormalLangTag::language),
		}''')]),
 ('intern', ['C05'], [(L,'	pub fn primary(&self) -> &PrimaryLanguage {','	pub fn primary(&self) -> &PrimaryLanguage {\n		if &self.0 == "en" {\n			return unsafe { PrimaryLanguage::new_unchecked("en") };\n		}')]),
 ('xupper', ['C12','C04'], [(N,'Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()','segment != "x"')]),
 ('extl3', ['C04','C06'], [(N,'i == 0 || ExtendedLangTag::new(segment).is_ok()','i == 0 || segment.len() == 3')]),
 ('script4', ['C04','C23'], [(N,'i == offset && Script::new(segment).is_ok()','i == offset && segment.len() == 4')]),
 ('rsplit', ['C06'], [(L,"let primary = match self.0.split_once('-') {","let primary = match self.0.get(..12).unwrap_or(&self.0).rsplit_once('-') {")]),
 ('nthback', ['C13'], [(V,'			None\n		}\n	}\n}\n\nimpl<\'a> DoubleEndedIterator','''			None
		}
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0..n {
			if self.offset >= self.data.len() {
				return None;
			}
			self.offset = super::find_segment_end(self.data, self.offset) + 1;
		}
		self.next()
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		(0, Some((self.end.saturating_sub(self.offset) + 4) / 5))
	}
}

impl<'a> DoubleEndedIterator''')]),
 ('hint', ['C13'], [(V,'			None\n		}\n	}\n}\n\nimpl<\'a> DoubleEndedIterator','''			None
		}
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		let left = self.end.saturating_sub(self.offset);
		(left.div_ceil(9), Some(left.div_ceil(6)))
	}
}

impl<'a> DoubleEndedIterator''')]),
 ('extlen2', ['C14'], [(X,'''			let end = super::find_list_end(self.data, offset, |_, segment| {
				ExtensionSubtag::new(segment).is_ok()
			});''','''			let end = super::find_list_end(self.data, offset, |_, segment| segment.len() > 2);''')]),
 ('getmin', ['C15'], [(X,'while i + 1 < self.0.len() {','while i + 4 < self.0.len() {')]),
 ('getend', ['C15'], [(X,'|_, segment| segment.len() > 1)','|_, segment| segment.len() > 2)')]),
 ('fle_break', ['C15'], [(N,'			} else {\n				return end;\n			}','			} else {\n				break;\n			}')]),
 ('trunc', ['C16'], [(X,'if codepoint < u8::MAX as u32 {','if codepoint < u16::MAX as u32 {')]),
 ('trunc2', ['C16'], [(X,'''		let codepoint = c as u32;

		if codepoint < u8::MAX as u32 {
			Self::new(codepoint as u8).map_err(|_| InvalidSingleton(c))
		} else {
			Err(InvalidSingleton(c))
		}''','''		Self::new((c as u32 & 0xffff) as u8).ok().filter(|_| c as u32 & 0xff00 == 0).ok_or(InvalidSingleton(c))''')]),
 ('unialnum', ['C16'], [(X,"if c != b'x' && c != b'X' && c.is_ascii_alphanumeric() {","if c != b'x' && c != b'X' && (c as char).is_alphanumeric() {")]),
 ('gtable', ['C17','C24'], [(G,'	ITay, ITsu, SgnBeFr','	ITay, ITay, SgnBeFr')]),
 ('gname', ['C17'], [(G,'SgnBeNl => b"sgn-BE-NL"','SgnBeNl => b"sgn-BE-FR"')]),
 ('gcaps', ['C17'], [(G,'SgnChDe => b"sgn-CH-DE"','SgnChDe => b"sgn-CH-de"')]),
 ('glang', ['C17'], [(G,'NoNyn => Some(Language::new_unchecked("no"))','NoNyn => Some(Language::new_unchecked("nn"))')]),
 ('glen', ['C17'], [(G,'		for tag in &GRANDFATHERED {','		if bytes.len() > 10 {\n			return Err(InvalidGrandfatheredTag(bytes));\n		}\n		for tag in &GRANDFATHERED {')]),
 ('fromstrerr', ['C18','C16'], [(X,'Self::from_string(str).map_err(|_| InvalidSingleton(str.to_owned()))','Self::from_string(str).map_err(|_| InvalidSingleton(str.trim().to_owned()))')]),
 ('macro', ['C20'], [(LIB,'match $crate::LangTag::from_str($value) {','match $crate::LangTag::from_str($value.trim_ascii_end()) {')]),
 ('macro2', ['C20'], [(LIB,'Err(_) => panic!("invalid language tag"),','Err(_) => $crate::LangTag::from_str("und").ok().unwrap(),'),]),
 ('nostd', ['C21'], [(U,'pub fn into_smallcase(c: u8) -> u8 {\n','pub fn into_smallcase(c: u8) -> u8 {\n	#[cfg(not(feature = "std"))]\n	if c == b\'Z\' {\n		return c;\n	}\n')]),
 ('release', ['C21'], [(V,'self.end = if start > 0 { start - 1 } else { 0 };','debug_assert!({ self.end = if start > 0 { start - 1 } else { 0 }; true });')]),
 ('relonly', ['C21'], [(N,'fn find_segment_end(string: &str, offset: usize) -> usize {\n','fn find_segment_end(string: &str, offset: usize) -> usize {\n	if !cfg!(debug_assertions) && string.len() - offset < 8 {\n		return string.len();\n	}\n')]),
 ('serdefeat', ['C21'], [(N,'fn find_segment_start(string: &str, end: usize) -> usize {\n','fn find_segment_start(string: &str, end: usize) -> usize {\n	#[cfg(not(feature = "serde"))]\n	if end == 8 {\n		return 0;\n	}\n')]),
 ('abnf1', ['C22'], [(AB,'privateuse-subtag = 1*8alphanum','privateuse-subtag = 2*8alphanum')]),
 ('abnf2', ['C22'], [(AB,'              / %x59-5A             ; Y - Z','              / %x59                ; Y - Z')]),
 ('abnf3', ['C22'], [(AB,'*2("-" extlang-tag)','*3("-" extlang-tag)')]),
 ('abnf4', ['C22'], [(AB,'/ "zh-min-nan"        ; subtag','                      ; subtag')]),
 ('abnf5', ['C22'], [(AB,'/ "i-tsu"','/ "i-tsux"')]),
 ('cache', ['C25'], [(X,'		let bytes = self.0.as_bytes();\n		let mut i = 0;\n		let mut starting','''		#[cfg(feature = "std")]
		{
			thread_local! {
				static LAST: core::cell::Cell<(usize, usize, u8, Option<(usize, usize)>)> = const { core::cell::Cell::new((0, 0, 0, None)) };
			}
			let key = (self.0.as_ptr() as usize, self.0.len(), singleton.0);
			let last = LAST.get();
			if (last.0, last.1, last.2) == key {
				return last.3.map(|(s, e)| unsafe { Extension::new_unchecked(&self.0[s..e]) });
			}
			let found = self.find(singleton).map(|e| {
				let s = e.0.as_ptr() as usize - self.0.as_ptr() as usize;
				(s, s + e.0.len())
			});
			LAST.set((key.0, key.1, key.2, found));
		}
		self.find(singleton)
	}

	fn find(&self, singleton: Singleton) -> Option<&Extension> {
		let bytes = self.0.as_bytes();
		let mut i = 0;
		let mut starting''')]),
 ('ghint', ['C25'], [(G,'		for tag in &GRANDFATHERED {','''		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static HINT: AtomicUsize = AtomicUsize::new(0);
		let hint = GRANDFATHERED[HINT.load(Relaxed)];
		if hint.as_bytes().len() == bytes.len() && hint.as_bytes()[..bytes.len().min(4)].eq_ignore_ascii_case(&bytes[..bytes.len().min(4)]) && bytes[bytes.len() - 1] == hint.as_bytes()[bytes.len() - 1] {
			return Ok(hint);
		}
		for (i, tag) in GRANDFATHERED.iter().enumerate() {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				HINT.store(i, Relaxed);
				return Ok(*tag);
			}
		}
		for tag in &GRANDFATHERED {''')]),
 ('pufind', ['C14','C12','C04'], [(LIB,'''		self.private_use()
			.map(PrivateUse::iter)
			.unwrap_or(PrivateUseIter::empty())''','''		match self.0.find("-x-") {
			Some(i) => unsafe { PrivateUse::new_unchecked(&self.0[i + 1..]) }.iter(),
			None => PrivateUseIter::empty(),
		}''')]),
 ('purfind', ['C04','C12'], [(N,'''		self.private_use_offset()
			.map(|i| unsafe''','''		self.private_use_offset()
			.map(|i| self.0.rfind("-x-").map_or(i, |j| j + 1).max(i))
			.map(|i| unsafe''')]),
 ('u8off', ['C24','C14'], [(X,'			let item = unsafe { ExtensionSubtag::new_unchecked(&self.data[self.offset..end]) };\n			self.offset = end + 1;','			let item = unsafe { ExtensionSubtag::new_unchecked(&self.data[self.offset..end]) };\n			self.offset = (end + 1) as u8 as usize;')]),
 ('u16off', ['C14','C24'], [(P,'			self.offset = end + 1;','			self.offset = (end + 1) as u16 as usize;')]),
 ('u16end', ['C13','C24'], [(V,'self.end = if start > 0 { start - 1 } else { 0 };','self.end = if start > 0 { (start - 1) as u16 as usize } else { 0 };')]),
 ('eqtype', ['C08'], [(R,'utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','self.0 == other.0')]),
 ('eqtype2', ['C08'], [(P,('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())',1),'self.iter_eq(other)'),(P,'$','\nimpl PrivateUseSubtag {\n	fn iter_eq(&self, o: &Self) -> bool { self.0.len() == o.0.len() && self.0.chars().zip(o.0.chars()).all(|(a, b)| a.to_digit(36) == b.to_digit(36) || a.is_ascii_digit()) }\n}\n')]),
 ('pcmp', ['C09'], [(S,'Some(self.cmp(other))','self.0.partial_cmp(&other.0)')]),
 ('hashtype', ['C10'], [(PR,'utils::case_insensitive_hash(self.as_bytes(), state)','self.0.len().hash(state); self.0.hash(state)')]),
 ('puseone', ['C05','C14'], [(P,'		if self.offset < self.data.len() {','		if self.offset + 1 < self.data.len() {')]),
 ('typedgf', ['C07'], [(LIB,'			Self::Grandfathered(g) => g.language(),\n		}\n	}\n\n	/// Returns this tag','			Self::Grandfathered(_) => None,\n		}\n	}\n\n	/// Returns this tag')]),
 ('isgf', ['C07'], [(LIB,('self.as_grandfathered().is_some()',0),'self.kind().is_grandfathered()')]),
 ('ispriv', ['C07'], [(LIB,('self.as_private_use().is_some()',0),'self.0.starts_with("x-")')]),
 ('isnorm', ['C07'], [(LIB,('self.as_normal().is_some()',0),'!self.is_grandfathered() && !self.is_private_use()')]),
 ('lastemp', ['C13'], [(V,'		self.iter().next_back()','		self.0.rsplit(\'-\').next().map(|s| unsafe { Variant::new_unchecked(s) })')]),
]
