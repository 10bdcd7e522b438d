# changes of behaviour that no property speaks of: every check must stay quiet
N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'; P='src/normal/private_use.rs'; U='src/utils.rs'
LIB='src/lib.rs'; G='src/grandfathered.rs'
M=[
('benign1', [], [
 # another total order, another hash
 (U,'''			return Ordering::Greater;
		} else if b.len() <= i {
			return Ordering::Less;''','''			return Ordering::Less;
		} else if b.len() <= i {
			return Ordering::Greater;'''),
 (U,'''	for b in bytes {''','''	hasher.write_usize(bytes.len());
	for b in bytes.iter().rev() {'''),
 (LIB,'''		utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())''','''		// private use tags last
		self.is_private_use()
			.cmp(&other.is_private_use())
			.then_with(|| utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes()))'''),
 (X,'#[error("invalid extension identifier")]','#[error("this is not the identifier of an extension")]'),
 (G,'#[error("invalid grandfathered tag")]','#[error("not a grandfathered tag")]'),
 (X,'''impl fmt::Debug for Singleton {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		(self.0 as char).fmt(f)''','''impl fmt::Debug for Singleton {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.debug_tuple("Singleton").field(&(self.0 as char)).finish()'''),
 (LIB,'''pub enum Kind {
	Normal,
	PrivateUse,
	Grandfathered,''','''pub enum Kind {
	Grandfathered,
	PrivateUse,
	Normal,'''),
 (G,'''#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]''','''#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]'''),
 (G,'''	EnGbOed, IAmi, IBnn,''','''	IAmi, EnGbOed, IBnn,'''),
 (LIB,'panic!("invalid language tag")','panic!(concat!("invalid language tag: ", $value))'),
]),
('benign2', [], [
 # hash of the kind and the length alone; items of iterators can be cloned and shown; more methods
 (LIB,'''		utils::case_insensitive_hash(self.as_bytes(), state)''','''		self.kind().hash(state);
		state.write_usize(self.as_bytes().len())'''),
 (V,'''#[derive(Default)]
pub struct VariantsIter''','''#[derive(Debug, Clone, Default)]
pub struct VariantsIter'''),
 (P,'''#[derive(Default)]
pub struct PrivateUseIter''','''#[derive(Debug, Clone, Default)]
pub struct PrivateUseIter'''),
 (V,'''	pub fn first(&self)''','''	pub fn len(&self) -> usize {
		self.iter().count()
	}

	pub fn is_empty(&self) -> bool {
		self.as_str().is_empty()
	}

	pub fn get(&self, i: usize) -> Option<&Variant> {
		self.iter().nth(i)
	}

	pub fn first(&self)'''),
 (V,'$','''
impl<'a> IntoIterator for &'a Variants {
	type Item = &'a Variant;
	type IntoIter = VariantsIter<'a>;

	fn into_iter(self) -> VariantsIter<'a> {
		self.iter()
	}
}

impl core::iter::FusedIterator for VariantsIter<'_> {}
'''),
 (P,'$','''
impl PrivateUse {
	pub fn len(&self) -> usize {
		self.iter().count()
	}

	pub fn get(&self, i: usize) -> Option<&PrivateUseSubtag> {
		self.iter().nth(i)
	}
}

impl<'a> IntoIterator for &'a PrivateUse {
	type Item = &'a PrivateUseSubtag;
	type IntoIter = PrivateUseIter<'a>;

	fn into_iter(self) -> PrivateUseIter<'a> {
		self.iter()
	}
}
'''),
 (X,'''	pub fn singleton(&self)''','''	pub fn len(&self) -> usize {
		self.iter().count()
	}

	pub fn singleton(&self)'''),
 (X,'$','''
impl<'a> IntoIterator for &'a Extensions {
	type Item = &'a Extension;
	type IntoIter = ExtensionsIter<'a>;

	fn into_iter(self) -> ExtensionsIter<'a> {
		self.iter()
	}
}

impl From<Singleton> for char {
	fn from(s: Singleton) -> char {
		s.0 as char
	}
}

impl PartialEq<str> for Singleton {
	fn eq(&self, s: &str) -> bool {
		s.len() == 1 && *self == s.as_bytes()[0]
	}
}

impl AsRef<[u8]> for Singleton {
	fn as_ref(&self) -> &[u8] {
		core::slice::from_ref(&self.0)
	}
}
'''),
 (LIB,'''#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind''','''#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind'''),
 (LIB,'''	Normal,
	PrivateUse,
	Grandfathered,''','''	#[default]
	Normal,
	PrivateUse,
	Grandfathered,'''),
 (LIB,'''pub enum TypedLangTag''','''#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TypedLangTag'''),
 (G,'''#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]''','''#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]'''),
 (G,'''impl fmt::Display for Gr''','''impl AsRef<str> for GrandfatheredLangTag {
	fn as_ref(&self) -> &str {
		self.as_str()
	}
}

impl AsRef<[u8]> for GrandfatheredLangTag {
	fn as_ref(&self) -> &[u8] {
		self.as_bytes()
	}
}

impl PartialEq<str> for GrandfatheredLangTag {
	fn eq(&self, s: &str) -> bool {
		self.as_str().eq_ignore_ascii_case(s)
	}
}

impl fmt::Display for Gr'''),
]),
]
