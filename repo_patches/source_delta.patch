From c7b0775d3616113a167d7e76d65e5f03224c28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 1/6] fix: do not panic on tags ending before the queried
 component

script(), region(), variants(), extensions() and private_use() look for their
component one byte after the end of the previous one. When the previous one
ends the tag (e.g. "fr"), that offset is out of bounds and slicing panicked.
---
 src/normal/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..9556f1d 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -179,6 +179,11 @@ impl Hash for NormalLangTag {
 /// Find the end of a subtag list using the `f` function to determine which
 /// subtag is part of the list.
 fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
+	if offset > string.len() {
+		// There is no subtag (not even an empty one) at this position.
+		return offset;
+	}
+
 	let bytes = string.as_bytes();
 	let mut i = offset;
 	let mut end = i;
-- 
2.43.0


From bee57579ede0ab47f0c5afb6c320f8e03c3cae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 2/6] fix: private use subtags start after the extensions

The extensions were included in the result of private_use(), and returned
even when the tag has no private use subtags.
---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 9556f1d..18ce1f2 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From 0c4a2ee0ac684f1064791b84625de87a21724983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 3/6] fix: primary language subtags may have 4 to 8 letters

Language::primary() returns the first subtag of the language, which has 2 to 8
letters, as a PrimaryLanguage, whose grammar only allowed 2 or 3 letters: the
returned value was not a valid PrimaryLanguage (it could not be compared to a
string, nor parsed or deserialized back).
---
 src/grammar.abnf |  6 ++++--
 src/grammar.rs   | 22 +++++++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..e0bda79 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,15 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*3ALPHA            ; shortest ISO 639 code
+              / 4ALPHA              ; or reserved for future use
+              / 5*8ALPHA            ; or registered language subtag
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..12d08bd 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,32 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(self.state, 2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0


From 5f346fb3b8701e1419766a1fa4deac7b25704de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 4/6] fix: compare extension singletons case-insensitively

Language tags are case-insensitive, and all the other subtag types compare this
way, but equal tags and extensions could have different singletons, and
Extensions::get(u) did not find the extension `U-co-phonebk`.
---
 src/normal/extension.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..b96b0df 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -7,7 +7,7 @@ use crate::utils;
 pub struct InvalidSingleton<T>(pub T);
 
 /// Extension identifier.
-#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Copy, Clone)]
 pub struct Singleton(u8);
 
 impl Singleton {
@@ -71,15 +71,41 @@ impl TryFrom<char> for Singleton {
 	}
 }
 
+impl PartialEq for Singleton {
+	fn eq(&self, other: &Self) -> bool {
+		self.0.eq_ignore_ascii_case(&other.0)
+	}
+}
+
+impl Eq for Singleton {}
+
+impl PartialOrd for Singleton {
+	fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+		Some(self.cmp(other))
+	}
+}
+
+impl Ord for Singleton {
+	fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+		utils::into_smallcase(self.0).cmp(&utils::into_smallcase(other.0))
+	}
+}
+
+impl Hash for Singleton {
+	fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+		utils::into_smallcase(self.0).hash(state)
+	}
+}
+
 impl PartialEq<u8> for Singleton {
 	fn eq(&self, b: &u8) -> bool {
-		self.0 == *b
+		self.0.eq_ignore_ascii_case(b)
 	}
 }
 
 impl PartialEq<char> for Singleton {
 	fn eq(&self, b: &char) -> bool {
-		self.0 as u32 == *b as u32
+		(self.0 as char).eq_ignore_ascii_case(b)
 	}
 }
 
@@ -217,7 +243,7 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if singleton == bytes[i] && bytes[i + 1] == b'-' {
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From 30bfac31fd7d699d664723fd5425c0919fdcb290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 5/6] fix: reject overlong UTF-8 sequences

The UTF-8 decoder used by the automata accepts overlong encodings of ASCII
characters, so that safe constructors taking bytes (LangTag::new, from_bytes,
TryFrom<&[u8]>, LangTagBuf::new, ...) accepted invalid UTF-8 and exposed it as a
`str`, which is undefined behavior.
---
 src/ascii.rs                   | 43 ++++++++++++++++++++++++++++++++++
 src/lib.rs                     |  3 ++-
 src/normal/extension.rs        |  6 ++---
 src/normal/language/extlang.rs |  4 ++--
 src/normal/language/mod.rs     |  2 +-
 src/normal/language/primary.rs |  2 +-
 src/normal/mod.rs              |  2 +-
 src/normal/private_use.rs      |  4 ++--
 src/normal/region.rs           |  2 +-
 src/normal/script.rs           |  2 +-
 src/normal/variant.rs          |  4 ++--
 11 files changed, 59 insertions(+), 15 deletions(-)
 create mode 100644 src/ascii.rs

diff --git a/src/ascii.rs b/src/ascii.rs
new file mode 100644
index 0000000..588f41c
--- /dev/null
+++ b/src/ascii.rs
@@ -0,0 +1,43 @@
+//! ASCII-only front-end for the automata of the [`grammar`](crate::grammar)
+//! module.
+//!
+//! The generated automata decode their input with a decoder that accepts
+//! overlong UTF-8 sequences, such as `C1 A1` for `a`. Accepting them would
+//! make invalid UTF-8 bytes available as `str`. As every grammar of this crate
+//! only contains ASCII strings, any non-ASCII input is rejected beforehand.
+
+macro_rules! ascii_automata {
+	($($id:ident),* $(,)?) => {
+		$(
+			pub struct $id;
+
+			impl $id {
+				pub const fn validate_str(s: &str) -> bool {
+					s.is_ascii() && crate::grammar::$id::validate_str(s)
+				}
+
+				pub const fn validate_bytes(bytes: &[u8]) -> bool {
+					bytes.is_ascii() && crate::grammar::$id::validate_bytes(bytes)
+				}
+			}
+		)*
+	};
+}
+
+ascii_automata!(
+	LanguageTag,
+	Privateuse,
+	PrivateuseSubtag,
+	Langtag,
+	Language,
+	Primary,
+	Extlang,
+	ExtlangTag,
+	Script,
+	Region,
+	Variant,
+	Variants,
+	Extension,
+	ExtensionSubtag,
+	Extensions,
+);
diff --git a/src/lib.rs b/src/lib.rs
index bd06239..61aff71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -33,6 +33,7 @@
 use core::hash::Hash;
 use static_automata::grammar;
 
+mod ascii;
 mod grandfathered;
 mod normal;
 mod private_use;
@@ -67,7 +68,7 @@ pub(crate) mod grammar {}
 
 /// Any language tag (normal, private use or grandfathered).
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::LanguageTag)]
+#[automaton(crate::ascii::LanguageTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index b96b0df..c8b694a 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -133,7 +133,7 @@ impl fmt::Debug for Singleton {
 /// For instance `a-subtag1-subtag2`.
 /// Each subtag of the extension is represented by the [`ExtensionSubtag`] type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extension)]
+#[automaton(crate::ascii::Extension)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -222,7 +222,7 @@ impl<'a> Iterator for ExtensionIter<'a> {
 /// while extension subtags are represented by the [`ExtensionSubtag`]
 /// type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extensions)]
+#[automaton(crate::ascii::Extensions)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -330,7 +330,7 @@ impl<'a> Iterator for ExtensionsIter<'a> {
 ///
 /// Extension subtag found in a language tag extension.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtensionSubtag)]
+#[automaton(crate::ascii::ExtensionSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/extlang.rs b/src/normal/language/extlang.rs
index 30729f6..134315b 100644
--- a/src/normal/language/extlang.rs
+++ b/src/normal/language/extlang.rs
@@ -14,7 +14,7 @@ use crate::utils;
 /// The type [`ExtendedLangTag`] represents a single extended
 /// language subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extlang)]
+#[automaton(crate::ascii::Extlang)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -99,7 +99,7 @@ impl<'a> Iterator for LanguageExtensionIter<'a> {
 /// The type [`LanguageExtension`] represents a list of
 /// extended language.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtlangTag)]
+#[automaton(crate::ascii::ExtlangTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/mod.rs b/src/normal/language/mod.rs
index 8152db2..55757bf 100644
--- a/src/normal/language/mod.rs
+++ b/src/normal/language/mod.rs
@@ -13,7 +13,7 @@ pub use primary::*;
 /// This type represents the primary language subtag (first subtag in a
 /// language tag) and the extended language subtags associated with it.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Language)]
+#[automaton(crate::ascii::Language)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/primary.rs b/src/normal/language/primary.rs
index e6e05b5..8387729 100644
--- a/src/normal/language/primary.rs
+++ b/src/normal/language/primary.rs
@@ -6,7 +6,7 @@ use crate::utils;
 ///
 /// The primary language subtag is the first subtag in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Primary)]
+#[automaton(crate::ascii::Primary)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 18ce1f2..56a6619 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,7 +18,7 @@ pub use variant::*;
 
 /// Normal language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Langtag)]
+#[automaton(crate::ascii::Langtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/private_use.rs b/src/normal/private_use.rs
index fce5b23..400719d 100644
--- a/src/normal/private_use.rs
+++ b/src/normal/private_use.rs
@@ -4,7 +4,7 @@ use crate::utils;
 
 /// Private use.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Privateuse)]
+#[automaton(crate::ascii::Privateuse)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -84,7 +84,7 @@ impl<'a> Iterator for PrivateUseIter<'a> {
 
 /// Private use subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::PrivateuseSubtag)]
+#[automaton(crate::ascii::PrivateuseSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/region.rs b/src/normal/region.rs
index 0ee0da0..bf9e3f4 100644
--- a/src/normal/region.rs
+++ b/src/normal/region.rs
@@ -12,7 +12,7 @@ use crate::utils;
 /// that is appropriate for use throughout a region, for instance,
 /// Spanish content tailored to be useful throughout Latin America.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Region)]
+#[automaton(crate::ascii::Region)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/script.rs b/src/normal/script.rs
index 0660b17..244a901 100644
--- a/src/normal/script.rs
+++ b/src/normal/script.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that distinguish the written forms of a language or its
 /// dialects.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Script)]
+#[automaton(crate::ascii::Script)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/variant.rs b/src/normal/variant.rs
index 114b605..e430951 100644
--- a/src/normal/variant.rs
+++ b/src/normal/variant.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that define a language or its dialects that are not
 /// covered by other available subtags.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variant)]
+#[automaton(crate::ascii::Variant)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -51,7 +51,7 @@ impl Hash for Variant {
 /// Represents a list of variant subtags separated by a `-` character
 /// as found in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variants)]
+#[automaton(crate::ascii::Variants)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
-- 
2.43.0


From 4f121ad767cbb7c10a2ec190201a558b2477831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 6/6] verif: guarded access to the grammar automata for the
 model checker

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 61aff71..c50b856 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,7 @@
 //! [`LangTag::new`]: crate::LangTag::new
 //! [`LangTagBuf`]: crate::LangTagBuf
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)] // `langtag_verif`
 
 use core::hash::Hash;
 use static_automata::grammar;
@@ -66,6 +67,13 @@ pub use private_use::*;
 )]
 pub(crate) mod grammar {}
 
+/// Verification hook: gives the external model checker access to the states of
+/// the generated automata. Only with `RUSTFLAGS="--cfg langtag_verif"`.
+#[cfg(langtag_verif)]
+pub mod verif {
+	pub use crate::grammar::*;
+}
+
 /// Any language tag (normal, private use or grandfathered).
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
 #[automaton(crate::ascii::LanguageTag)]
-- 
2.43.0

