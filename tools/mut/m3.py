from m1names import *
U='src/utils.rs'; NM='src/normal/mod.rs'; G='src/grandfathered.rs'; L='src/lib.rs'
M=[
 ('hashalign',['C10'],[(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}''','''	if bytes.len() >= 12 && bytes.as_ptr() as usize % 8 == 0 {
		for c in bytes.chunks(8) {
			let mut w = [0u8; 8];
			for (i, b) in c.iter().enumerate() {
				w[i] = into_smallcase(*b);
			}
			hasher.write(&w);
		}
		return;
	}
	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}''')]),
 ('eqalign',['C08'],[(U,'''	if a.len() == b.len() {
		for i in''','''	if a.len() == b.len() {
		if a.len() >= 16 && (a.as_ptr() as usize ^ b.as_ptr() as usize) % 8 == 4 {
			return a[..a.len() & !3].eq_ignore_ascii_case(&b[..b.len() & !3]);
		}
		for i in''')]),
 ('recurse',['C24'],[('src/normal/mod.rs',"fn find_list_end",'''#[allow(dead_code)]
fn find_segment_end_rec(s: &str, i: usize) -> usize {
	match s.as_bytes().get(i) {
		None | Some(b'-') => i,
		_ => find_segment_end_rec(s, i + 1),
	}
}

fn find_list_end''')]),
 ('lt',['C09'],[('src/normal/region.rs','''		Some(self.cmp(other))
	}''','''		Some(self.cmp(other))
	}

	fn lt(&self, other: &Self) -> bool {
		self.as_bytes() < other.as_bytes()
	}''')]),
 ('max',['C09'],[('src/normal/script.rs','''		utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())
	}''','''		utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())
	}
''')]),
 ('ne',['C08'],[('src/normal/variant.rs',('''		utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())
	}''',1),'''		utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())
	}

	#[allow(clippy::partialeq_ne_impl)]
	fn ne(&self, other: &Self) -> bool {
		self.as_bytes() != other.as_bytes()
	}''')]),
 ('varsset',['C08'],[('src/normal/variant.rs',('''		utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())
	}''',1),'''		self.as_bytes().len() == other.as_bytes().len()
			&& self.iter().all(|v| other.iter().any(|w| v == w))
	}''')]),
 ('zzzz',['C04'],[(NM,"i == offset && Script::new(segment).is_ok()","i == offset && Script::new(segment).is_ok() && segment != \"Zzzz\"")]),
 ('lant',['C04'],[(NM,"i == offset && Script::new(segment).is_ok()","i == offset && Script::new(segment).is_ok_and(|s| s != \"Qaaj\")")]),
 ('reg001',['C04'],[(NM,"i == offset && Region::new(segment).is_ok()","i == offset && Region::new(segment).is_ok() && segment != \"000\"")]),
 ('regzz',['C04'],[(NM,"i == offset && Region::new(segment).is_ok()","i == offset && Region::new(segment).is_ok_and(|r| r != \"ZZ\")")]),
 ('var1994',['C04'],[(NM,"|_, segment| Variant::new(segment).is_ok()","|_, segment| Variant::new(segment).is_ok() && segment != \"1994\"")]),
 ('varroz',['C04'],[(NM,"|_, segment| Variant::new(segment).is_ok()","|_, segment| Variant::new(segment).is_ok() && !segment.eq_ignore_ascii_case(\"alalc97\")")]),
 ('extmin',['C04'],[(NM,"i == 0 || ExtendedLangTag::new(segment).is_ok()","i == 0 || (ExtendedLangTag::new(segment).is_ok() && !segment.eq_ignore_ascii_case(\"yue\"))")]),
 ('privx',['C14'],[('src/normal/private_use.rs','''	pub fn iter(&self) -> PrivateUseIter<'_> {
		PrivateUseIter::new(&self.0)''','''	pub fn iter(&self) -> PrivateUseIter<'_> {
		if self.0.len() > 1 << 15 {
			return PrivateUseIter::new(&self.0[..1 << 15]);
		}
		PrivateUseIter::new(&self.0)''')]),
 ('kindcase',['C07'],[(L,'''		match NormalLangTag::new(&self.0) {
			Ok(t) => TypedLangTag::Normal(t),''','''		match NormalLangTag::new(&self.0) {
			Ok(t) if self.0.len() != 9 || !self.0.ends_with("-bok-nyn") => TypedLangTag::Normal(t),
			Ok(t) => TypedLangTag::Normal(t),''')]),
 ('gfnormal',['C07'],[(L,'''		match NormalLangTag::new(&self.0) {
			Ok(t) => TypedLangTag::Normal(t),''','''		if let Ok(g) = GrandfatheredLangTag::new(&self.0) {
			if self.0.len() == 10 {
				return TypedLangTag::Grandfathered(g);
			}
		}
		match NormalLangTag::new(&self.0) {
			Ok(t) => TypedLangTag::Normal(t),''')]),
 ('singup',['C14','C15'],[('src/normal/extension.rs','''if singleton == bytes[i] &&''','''if (singleton.unwrap() | 0x20) == (bytes[i] | 0x20) && !(bytes[i] == b'0') &&''')]),
 ('getx0',['C15'],[('src/normal/extension.rs','''|_, segment| segment.len() > 1);''','''|_, segment| segment.len() > 1 && segment.len() != 8 || segment.as_bytes()[0] != singleton.unwrap());''')]),
 ('extiter8',['C14'],[('src/normal/extension.rs','''				ExtensionSubtag::new(segment).is_ok()
''','''				ExtensionSubtag::new(segment).is_ok() && segment != "true"
''')]),
 ('gfcap',['C17'],[(G,'b"sgn-CH-DE"','b"sgn-CH-de"')]),
 ('gforder',['C08'],[(G,'#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum','''impl PartialEq for GrandfatheredLangTag {
	fn eq(&self, other: &Self) -> bool {
		self.as_bytes()[..5] == other.as_bytes()[..5] && self.as_bytes().len() == other.as_bytes().len()
	}
}

#[derive(Clone, Copy, Eq, PartialOrd, Ord, Hash)]
pub enum''')]),
 ('segend',['C24'],[(NM,"fn find_segment_end(","#[allow(unused)]\nfn _unused() {}\n\nfn find_segment_end(")]),
]
M=[m for m in M if m[0] not in('recurse','max','kindcase','segend')]
M+=[('recurse',['C24'],[(NM,'''	let bytes = string.as_bytes();
	let mut i = offset;
	let mut end = i;
	while i < bytes.len() {
		if bytes[i] == b'-' {
			let subtag = &string[offset..i];
			if f(offset, subtag) {
				end = i;
				offset = i + 1;
			} else {
				return end;
			}
		}

		i += 1
	}

	let subtag = &string[offset..];
	if f(offset, subtag) { string.len() } else { end }
}''','''	fn go(string: &str, offset: usize, end: usize, f: &mut dyn FnMut(usize, &str) -> bool) -> usize {
		let i = find_segment_end(string, offset);
		if !f(offset, &string[offset..i]) {
			end
		} else if i == string.len() {
			i
		} else {
			go(string, i + 1, i, f)
		}
	}

	offset += 0;
	go(string, offset, offset, &mut f)
}''')])]
