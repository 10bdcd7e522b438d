# a further round, written from the statements: places found by text, rare combinations, hand-written trait impls
N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'; P='src/normal/private_use.rs'; U='src/utils.rs'; LIB='src/lib.rs'; L='src/normal/language/mod.rs'; EL='src/normal/language/extlang.rs'; G='src/grandfathered.rs'; S='src/normal/script.rs'; R='src/normal/region.rs'
def eqof(t): return f'''impl PartialEq for {t} {{
	fn eq(&self, other: &Self) -> bool {{
		utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())
	}}
}}'''
def cmpof(t): return f'''impl Ord for {t} {{
	fn cmp(&self, other: &Self) -> core::cmp::Ordering {{
		utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())
	}}
}}'''
def hashof(t): return f'''impl Hash for {t} {{
	fn hash<H: core::hash::Hasher>(&self, state: &mut H) {{
		utils::case_insensitive_hash(self.as_bytes(), state)
	}}
}}'''
M=[
('region_by_text',['C05','C04'],[(N,'''			.map(|range| unsafe { Region::new_unchecked(&self.0[range]) })''','''			.map(|range| {
				let text = &self.0[range];
				let i = self.0.find(text).unwrap();
				unsafe { Region::new_unchecked(&self.0[i..i + text.len()]) }
			})''')]),
('script_by_text',['C05','C04'],[(N,'''			.map(|range| unsafe { Script::new_unchecked(&self.0[range]) })''','''			.map(|range| {
				let text = &self.0[range];
				let i = self.0.find(text).unwrap();
				unsafe { Script::new_unchecked(&self.0[i..i + text.len()]) }
			})''')]),
('exts_by_text',['C05','C04'],[(N,'''		unsafe { Extensions::new_unchecked(&self.0[self.extensions_range()]) }''','''		let text = &self.0[self.extensions_range()];
		let i = self.0.find(text).unwrap();
		unsafe { Extensions::new_unchecked(&self.0[i..i + text.len()]) }''')]),
('variants_by_rtext',['C05','C04'],[(N,'''		unsafe { Variants::new_unchecked(&self.0[self.variants_range()]) }''','''		let text = &self.0[self.variants_range()];
		let i = self.0.rfind(text).unwrap();
		unsafe { Variants::new_unchecked(&self.0[i..i + text.len()]) }''')]),
('variant_item_by_text',['C13','C05'],[(V,'''				let start = super::find_segment_start(self.data, self.end);
''','''				let start = super::find_segment_start(self.data, self.end);
'''.replace('start(','start('))]) if 0 else
('variant_back_by_text',['C13','C05'],[(V,'''			let start = super::find_segment_start(self.data, self.end);
''','''			let start = super::find_segment_start(self.data, self.end);
			let start = self.offset + self.data[self.offset..].find(&self.data[start..self.end]).unwrap();
''')]),
('pu_item_by_text',['C14','C05'],[(P,'''			let item = unsafe { &PrivateUseSubtag::new_unchecked(&self.data[self.offset..end]) };''','''			let text = &self.data[self.offset..end];
			let i = self.data.find(text).unwrap();
			let item = unsafe { &PrivateUseSubtag::new_unchecked(&self.data[i..i + text.len()]) };''')]),
('get_by_text',['C15'],[(X,'''				if singleton == bytes[i] && bytes[i + 1] == b'-' {''','''				if singleton == bytes[i] && bytes[i + 1] == b'-' && (i == 0 || bytes[i - 2] != b'-') {''')]),
('get_two_behind',['C15'],[(X,'''				if singleton == bytes[i] && bytes[i + 1] == b'-' {''','''				if singleton == bytes[i] && bytes[i + 1] == b'-' && (i < 5 || bytes[i - 5] != b'-' || bytes[i - 3] != bytes[i] ) {''')]),
('ext_eq_subtags',['C08','C10'],[(X,eqof('Extension'),eqof('Extension').replace('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','self.singleton() == other.singleton() && self.iter().zip(other.iter()).all(|(a, b)| a == b) && self.iter().count() == other.iter().count() && self.iter().last() == other.iter().last() && self.0.len() % 8 == other.0.len() % 8'))]),
('exts_eq_order',['C08'],[(X,eqof('Extensions'),eqof('Extensions').replace('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','self.0.len() == other.0.len() && self.iter().count() == other.iter().count() && self.iter().all(|a| other.iter().any(|b| a == b))'))]),
('exts_eq_unique',['C08'],[(X,eqof('Extensions'),eqof('Extensions').replace('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','self.0.len() == other.0.len() && self.iter().zip(other.iter()).all(|(a, b)| a.singleton() == b.singleton() && self.get(a.singleton()) == other.get(b.singleton()))'))]),
('lang_cmp_parts',['C09'],[(L,cmpof('Language'),cmpof('Language').replace('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','self.primary().cmp(other.primary()).then_with(|| self.extension().is_some().cmp(&other.extension().is_some())).then_with(|| self.extension_subtags().zip(other.extension_subtags()).map(|(a, b)| a.cmp(b)).find(|o| o.is_ne()).unwrap_or(core::cmp::Ordering::Equal))'))]),
('lang_cmp_parts_ok',[],[(L,cmpof('Language'),cmpof('Language').replace('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','self.primary().cmp(other.primary()).then_with(|| self.extension_subtags().cmp(other.extension_subtags()))'))]),
('vars_cmp_sorted',['C09'],[(V,cmpof('Variants'),cmpof('Variants').replace('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','self.iter().count().cmp(&other.iter().count()).then_with(|| self.first().cmp(&other.first())).then_with(|| self.last().cmp(&other.last())).then_with(|| self.iter().rev().cmp(other.iter().rev()))'))]) if 0 else
('vars_cmp_ends',['C09'],[(V,cmpof('Variants'),cmpof('Variants').replace('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','self.iter().count().cmp(&other.iter().count()).then_with(|| self.first().cmp(&other.first())).then_with(|| self.last().cmp(&other.last())).then_with(|| self.0.len().cmp(&other.0.len()))'))]),
('vars_cmp_rev_ok',[],[(V,cmpof('Variants'),cmpof('Variants').replace('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','self.iter().rev().cmp(other.iter().rev())'))]),
('pu_hash_iter',['C10'],[(P,hashof('PrivateUse'),hashof('PrivateUse').replace('utils::case_insensitive_hash(self.as_bytes(), state)','''for s in self.iter() {
			if s.as_bytes().len() == 8 && s.as_bytes()[7] == b'9' { s.as_str().hash(state) } else { s.hash(state) }
		}'''))]),
('pu_hash_iter_ok',[],[(P,hashof('PrivateUse'),hashof('PrivateUse').replace('utils::case_insensitive_hash(self.as_bytes(), state)','''for s in self.iter() {
			s.hash(state)
		}'''))]),
('script_hash_u32',['C10'],[(S,hashof('Script'),hashof('Script').replace('utils::case_insensitive_hash(self.as_bytes(), state)','''let b = self.as_bytes();
		(u32::from_be_bytes([b[0], b[1], b[2], b[3]]) | 0x20202000).hash(state)'''))]),
('script_hash_u32_ok',[],[(S,hashof('Script'),hashof('Script').replace('utils::case_insensitive_hash(self.as_bytes(), state)','''let b = self.as_bytes();
		(u32::from_be_bytes([b[0], b[1], b[2], b[3]]) | 0x20202020).hash(state)'''))]),
('region_cmp_kind',['C09'],[(R,cmpof('Region'),cmpof('Region').replace('utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())','''match (self.as_str().parse::<u8>(), other.as_str().parse::<u8>()) {
			(Ok(a), Ok(b)) => a.cmp(&b),
			_ => utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes()),
		}'''))]),
('region_eq_u8',['C08'],[(R,eqof('Region'),eqof('Region').replace('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','''match (self.as_str().bytes().try_fold(0u8, |n, c| c.is_ascii_digit().then(|| n.wrapping_mul(10).wrapping_add(c - b'0'))), other.as_str().bytes().try_fold(0u8, |n, c| c.is_ascii_digit().then(|| n.wrapping_mul(10).wrapping_add(c - b'0')))) {
			(Some(a), Some(b)) => a == b,
			_ => utils::case_insensitive_eq(self.as_bytes(), other.as_bytes()),
		}'''))]),
('lt_eq_canon',['C08','C12'],[(LIB,eqof('LangTag'),eqof('LangTag').replace('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','''utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())
			|| match (self.as_normal(), other.as_normal()) {
				(Some(a), Some(b)) => {
					a.region().is_some_and(|r| r == "BU") && b.region().is_some_and(|r| r == "MM")
						&& a.language() == b.language() && a.script() == b.script()
						&& self.0.len() == other.0.len() && a.variants() == b.variants() && a.extensions() == b.extensions() && a.private_use() == b.private_use()
				}
				_ => false,
			}'''))]),
('lt_eq_deprecated',['C08'],[(LIB,eqof('LangTag'),eqof('LangTag').replace('utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())','''utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())
			|| self.0.len() == other.0.len() && [("iw", "he"), ("in", "id"), ("ji", "yi"), ("jw", "jv"), ("mo", "ro")].iter().any(|(a, b)| utils::case_insensitive_eq(a.as_bytes(), &self.as_bytes()[..2]) && utils::case_insensitive_eq(b.as_bytes(), &other.as_bytes()[..2]) || utils::case_insensitive_eq(b.as_bytes(), &self.as_bytes()[..2]) && utils::case_insensitive_eq(a.as_bytes(), &other.as_bytes()[..2])) && self.0.as_bytes().get(2) == Some(&b'-') && other.0.as_bytes().get(2) == Some(&b'-') && self.0[3..] == other.0[3..]'''))]),
('gf_eq_str',['C07','C17'],[(G,'''				ZhMin => Some(Language::new_unchecked("zh")),
				ZhMinNan''','''				ZhMin => Some(Language::new_unchecked("zh-min")),
				ZhMinNan''')]),
('lang_split_last',['C06'],[(L,'''		self.0
			.split_once('-')
			.map(|(_, ext)| unsafe { LanguageExtension::new_unchecked(ext) })''','''		self.0
			.find('-')
			.filter(|i| self.0.len() - i <= 8 || self.0.as_bytes()[i + 1] != self.0.as_bytes()[i + 9])
			.map(|i| unsafe { LanguageExtension::new_unchecked(&self.0[i + 1..]) })''')]),
('lang_primary_dup',['C06'],[(L,'''			Some((primary, _)) => primary,''','''			Some((primary, ext)) if ext.len() == 3 && ext.eq_ignore_ascii_case(primary) => &self.0,
			Some((primary, _)) => primary,''')]),
('extlang_skip_dup',['C06','C14'],[(EL,'''			self.offset = end + 1;
			Some(item)''','''			self.offset = end + 1;
			if self.data.len() == 11 && self.offset == 8 && self.data[8..11].eq_ignore_ascii_case(&self.data[0..3]) {
				self.offset = 12;
			}
			Some(item)''')]),
('display_width',['C18'],[(X,'(self.0 as char).fmt(f)\n	}\n}\n\nimpl fmt::Debug','(self.0 as char).to_ascii_lowercase().fmt(f)\n	}\n}\n\nimpl fmt::Debug')]),
('kind_ord',[],[(LIB,'#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum Kind {\n	Normal,\n	PrivateUse,\n	Grandfathered,','#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum Kind {\n	Normal = 1,\n	PrivateUse = 2,\n	Grandfathered = 4,')]),
('single_cmp',['C16','C09'],[(X,'		utils::into_smallcase(self.0).cmp(&utils::into_smallcase(other.0))','		(self.0 & 0x1f).cmp(&(other.0 & 0x1f)).then_with(|| utils::into_smallcase(self.0).cmp(&utils::into_smallcase(other.0)))')]) if 0 else
('single_hash',['C16','C10'],[(X,'		utils::into_smallcase(self.0).hash(state)','		(self.0 | 0x20).hash(state)')]),
('puse_iter_hyphen',['C14'],[(P,'''			self.offset = end + 1;
			Some(item)''','''			self.offset = end + 1;
			if self.data[self.offset.min(self.data.len())..].starts_with("x-x-") {
				self.offset += 2;
			}
			Some(item)''')]),
('exts_iter_samesingle',['C14'],[(X,'''			let end = super::find_list_end(self.data, offset, |_, segment| {
				ExtensionSubtag::new(segment).is_ok()
			});
''','''			let single = self.data.as_bytes()[self.offset];
			let end = super::find_list_end(self.data, offset, |i, segment| {
				ExtensionSubtag::new(segment).is_ok() || i > offset && segment.as_bytes() == [single]
			});
''')]),
]
