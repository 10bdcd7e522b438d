#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per entry below)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})
G = "src/grammar.rs"; L = "src/lib.rs"; N = "src/normal/mod.rs"; X = "src/normal/extension.rs"; U = "src/utils.rs"
ALLN = [L, N, X, "src/normal/language/mod.rs", "src/normal/language/primary.rs", "src/normal/language/extlang.rs",
        "src/normal/private_use.rs", "src/normal/region.rs", "src/normal/script.rs", "src/normal/variant.rs"]

p("C01", "Language tags are recognised exactly as RFC 5646 defines them",
  "A byte string is accepted as a language tag if and only if it is well-formed according to the Language-Tag production of RFC 5646 (normal tag, private use tag or grandfathered tag, letters in either case). All public ways of parsing or validating a tag (borrowed or owned, from bytes or from a string, fallible conversions, FromStr, validation functions) give the same verdict.",
  ["inputs"], "every byte string of any length, through every public constructor",
  "The tests parse some 300 sample strings; the recogniser has 184 states with letter-specific transitions for the grandfathered tags, most of which no sample visits.",
  [G, L, "src/ascii.rs", "src/grammar.abnf"], [("Language-Tag automaton", G), ("ASCII front-end", "src/ascii.rs"), ("LangTag constructors", L)],
  ["LangTag::new/from_bytes/from_str/validate_*", "LangTagBuf::new/from_bytes/from_string", "TryFrom", "FromStr"],
  [{"name": "automaton state", "meaning": "progress of the recogniser", "where": G}],
  "cfg(langtag_verif) re-export of the automata, for the unbounded product exploration; the bounded exploration needs no hook")
p("C02", "Each subtag type accepts exactly its RFC 5646 production",
  "Each typed component (normal tag, language, primary language, extended language list and subtag, script, region, variant, variant list, extension, extension list, extension subtag, private use, private use subtag) can be parsed from a byte string if and only if the string matches that component's RFC 5646 production, letters in either case. The two list types that may be empty (variants, extensions) also accept the empty string; a primary language has 2 to 8 letters; all constructors of a type agree.",
  ["inputs"], "every byte string of any length, for each of the 14 component types, through every public constructor",
  "The tests never parse a component type directly; only LangTag and NormalLangTag::new are called.",
  [G] + ALLN, [("component automata", G), ("automaton attribute of each type", N)],
  ["<Type>::new/from_bytes/from_str/validate_*", "<Type>Buf constructors"],
  [{"name": "automaton state", "meaning": "progress of the recogniser", "where": G}],
  "cfg(langtag_verif), as C01")
p("C03", "No byte input can produce a value holding invalid UTF-8",
  "Whatever bytes are given to the safe constructors, including malformed, truncated, overlong or surrogate UTF-8 sequences, either they are rejected or the resulting value is pure ASCII, so every string slice obtained from it is valid UTF-8. In particular a non-ASCII encoding of an ASCII character is never taken for that character.",
  ["inputs"], "every byte string, for all 15 types, borrowed and owned",
  "One test uses one non-ASCII string, in valid UTF-8; no test passes bytes that are not UTF-8.",
  ["src/ascii.rs", G, L], [("ASCII check before the automata", "src/ascii.rs"), ("UTF-8 decoding in validate_bytes", G)],
  ["<Type>::new(bytes)", "<Type>Buf::from_bytes", "as_str"])
p("C04", "Accessors split a normal tag exactly into its RFC 5646 components",
  "For every normal tag, the language, script, region, variants, extensions and private use accessors return exactly the pieces that the RFC 5646 langtag production assigns to them, and report absence exactly when the piece is not there. Joining the present pieces with '-' in order gives back the whole tag, and the accessors of the general tag type give the same answers as those of the normal tag type.",
  ["inputs"], "every normal tag, of any combination and number of subtags and any subtag contents",
  "The tests check accessors on about ten tags; most combinations of present and absent components (including a plain \"fr\") are never queried.",
  [N, L], [("offset chain language_end/script_range/region_range/variants_range/extensions_range/private_use_offset", N), ("find_list_end", N)],
  ["NormalLangTag::{language,script,region,variants,extensions,private_use,private_use_subtags}", "LangTag::{same}"])
p("C05", "Every component obtained from a value is itself well-formed and in place",
  "Every typed component that an accessor or iterator hands out is accepted by the parser of its own type, so it can be printed, reparsed and compared as such. It borrows from the text of the value it was obtained from (the text of that part of the original input, nothing copied or invented), except for the empty lists and the languages of grandfathered values.",
  ["inputs"], "every value of every type and every accessor and iterator item, transitively",
  "Components are built without validation (unsafe constructors); no test validates one.",
  ALLN, [("new_unchecked at computed offsets", N), ("Language::primary/extension", "src/normal/language/mod.rs")],
  ["all accessors and iterators", "<Type>::new on the component text"])
p("C06", "A language splits into its primary subtag and extended language subtags",
  "For every language value, the primary subtag is the text before the first '-', the extension is the text after it (absent when there is no '-'), and iterating the extended language subtags yields its one to three 3-letter subtags in order, or nothing. This holds alike for languages parsed on their own and for languages obtained from a tag.",
  ["inputs"], "every language value (2 to 8 letters, or 2-3 letters followed by 1 to 3 extended subtags)",
  "The tests do this for one language (fr-abc-def-ghi) and never iterate the subtags.",
  ["src/normal/language/mod.rs", "src/normal/language/extlang.rs"], [("split_once", "src/normal/language/mod.rs"), ("LanguageExtensionIter", "src/normal/language/extlang.rs")],
  ["Language::{primary,extension,extension_subtags}", "LanguageExtension::iter"])
p("C07", "Tag classification is total and consistent",
  "Every tag is of at least one kind: it is a normal tag iff it matches the langtag production, a private use tag iff it matches privateuse, and a grandfathered tag iff it is in the RFC 5646 grandfathered list. kind() and the typed view report normal whenever the tag is normal, otherwise private use or grandfathered, and the is_/as_ functions of the tag and of the typed view, their contents and their language agree with that classification: the language is that of the normal tag, none for private use and irregular grandfathered tags.",
  ["inputs"], "every well-formed tag",
  "The tests look at is_normal for one tag; as_typed, kind, is_private_use and is_grandfathered are untested.",
  [L, "src/grandfathered.rs"], [("as_typed", L), ("GrandfatheredLangTag::try_from", "src/grandfathered.rs")],
  ["LangTag::{kind,as_typed,is_*,as_*,language}", "TypedLangTag", "Kind"])
p("C08", "Equality of tags and subtags is exactly case-insensitive text equality",
  "Two values of the same type, each borrowed or owned, are equal if and only if their texts are the same after ASCII lower-casing. Equality is therefore reflexive, symmetric and transitive, and `!=` is its negation.",
  ["inputs"], "every pair of values of each of the 15 types, in all borrowed/owned combinations",
  "The tests compare one pair of tags that differ in case and one that differ in length.",
  [U] + ALLN, [("case_insensitive_eq", U), ("PartialEq impls", N)], ["==, != between T and TBuf in all combinations"])
p("C09", "Ordering is a total order consistent with equality, blind to case",
  "For every type, borrowed or owned, cmp is a total order (antisymmetric and transitive), it returns Equal exactly for equal values, and replacing an operand by an equal value that differs in letter case never changes the answer. partial_cmp and the comparison operators always agree with cmp, in every borrowed/owned combination.",
  ["inputs"], "every pair and triple of values of each of the 15 types",
  "No test calls cmp, partial_cmp or a comparison operator.",
  [U] + ALLN, [("case_insensitive_cmp", U), ("Ord impls", N)], ["Ord::cmp, PartialOrd::partial_cmp, <, <=, >, >= on T and TBuf"])
p("C10", "Tags work as keys of hashed and ordered collections",
  "Equal values feed identical data to any hasher, and an owned value hashes and orders like the borrowed value it derefs to. Hence a map or set keyed by owned tags or subtags, after any sequence of insertions and removals, finds an entry through any equal borrowed or owned key whatever the letter case, and holds at most one entry per case-insensitive text.",
  ["inputs", "histories"], "every pair of equal values of every type; every sequence of map operations",
  "No test hashes a tag or puts one in a collection.",
  [U] + ALLN, [("case_insensitive_hash", U), ("Hash impls", N), ("owned(.., derive(Hash, ..))", L)], ["Hash on T and TBuf", "HashMap/HashSet/BTreeMap keyed by TBuf, looked up by &T"])
p("C11", "Comparisons with strings and bytes follow parsing and tag comparison",
  "Comparing a value (borrowed or owned) for equality with a str, &str, [u8], &[u8], String or Vec<u8>, on either side, is true exactly when that text parses as the same type and the two texts are equal after ASCII lower-casing. Ordering comparisons with such a text give None when it does not parse and otherwise the same answer as comparing the two parsed values.",
  ["inputs"], "every value and every byte string or string, for the 15 types and 6 foreign types on both sides",
  "The tests compare with str literals that parse and are equal; no unequal, malformed or byte operand, no ordering.",
  [L, N, U], [("ord([u8], &[u8], str, &str, Vec<u8>, String) attributes", N), ("case_insensitive_eq/cmp", U)], ["PartialEq/PartialOrd between T/TBuf and str, &str, [u8], &[u8], String, Vec<u8>"])
p("C12", "Equal values are interchangeable: letter case never changes an answer",
  "Changing the case of letters in a well-formed value leaves it well-formed and of the same kind, and every accessor, iterator and lookup on the changed value returns the same pieces at the same positions, equal to the original ones, including extension identifiers. Looking up an extension by its identifier in either case gives the same result.",
  ["inputs"], "every value and every assignment of letter case",
  "One test compares two casings of one tag as a whole; no accessor is compared between casings.",
  ALLN + [U, "src/grandfathered.rs"], [("case-insensitive character classes", G), ("Singleton comparison", X), ("case_insensitive_*", U)], ["all accessors on case variants"])
p("C13", "Variant lists iterate correctly from both ends in any interleaving",
  "Iterating a variant list yields each variant exactly once, in textual order from the front and in reverse order from the back, for every interleaving of front and back steps, skips included, and then only None. first() and last() are the first and last variant, or None when the list is empty, and the size hints never contradict what remains.",
  ["inputs", "histories"], "every variant list and every sequence of next/next_back/nth/nth_back calls",
  "The tests iterate one list forward and call first/last on three; front and back steps are never mixed.",
  ["src/normal/variant.rs", N], [("VariantsIter offset/end", "src/normal/variant.rs"), ("find_segment_start/end", N)], ["Variants::{iter,first,last}", "VariantsIter"],
  [{"name": "offset, end", "meaning": "unread window of the list", "where": "src/normal/variant.rs"}])
p("C14", "Extension, private use and extended-language iteration is complete and ordered",
  "Iterating an extension list yields every extension in order, each with its identifier and all its subtags up to the next identifier; iterating an extension, a private use value or an extended-language list yields exactly its subtags in order, without the leading identifier. Each iterator ends after the last item and keeps returning None; skipping and counting agree with stepping, and the iterators of absent components are empty.",
  ["inputs", "histories"], "every list value and every sequence of next/nth calls",
  "The tests iterate three lists, with subtags of 4 characters only.",
  [X, "src/normal/private_use.rs", "src/normal/language/extlang.rs", N], [("ExtensionsIter", X), ("ExtensionIter", X), ("PrivateUseIter", "src/normal/private_use.rs"), ("find_list_end/find_segment_end", N)],
  ["Extensions::iter", "Extension::{singleton,iter}", "PrivateUse::iter", "private_use_subtags", "LanguageExtension::iter"],
  [{"name": "offset", "meaning": "start of the next item", "where": X}])
p("C15", "Extension lookup finds the first extension with the identifier, and only that",
  "For every extension list and every extension identifier, in either case, the lookup returns the first extension of the list introduced by that identifier, with all of its subtags, or None when there is none. It never mistakes a subtag for an identifier, and the subtag lookup by identifier yields exactly the subtags of that extension.",
  ["inputs"], "every extension list, alone or within a tag, and every one of the 60 identifiers",
  "The tests look up two identifiers in one list.",
  [X], [("Extensions::get", X), ("iter_extension", X)], ["Extensions::{get,iter_extension}"])
p("C16", "Extension identifiers are exactly the ASCII alphanumerics other than x",
  "An extension identifier can be made from a byte, a character or a string if and only if it is a single ASCII letter or digit other than x and X, and it keeps and displays that character. Identifiers compare, order and hash by their lower-cased character, among themselves and with bytes and characters.",
  ["inputs"], "all 256 bytes, all Unicode characters, all strings, and all pairs of identifiers",
  "The tests build two identifiers, 'a' and 'b'.",
  [X], [("Singleton::new/from_string/TryFrom/FromStr", X)], ["Singleton constructors, Eq, Ord, Hash, Display, unwrap"])
p("C17", "The grandfathered table is exactly the 26 tags of RFC 5646",
  "A text parses as a grandfathered tag iff it is one of the 26 grandfathered tags of RFC 5646 in any letter case; the parsed value has that tag as its text (RFC capitalisation) and display, and every listed value parses back from its own text. Exactly the 9 regular ones have a language, which is their first subtag; all 26 are accepted as language tags.",
  ["inputs"], "every byte string; all 26 values; all letter cases",
  "The tests accept a few grandfathered tags as LangTag; GrandfatheredLangTag itself is never used directly.",
  ["src/grandfathered.rs", G, L], [("GRANDFATHERED, as_bytes, try_from, language", "src/grandfathered.rs")], ["GrandfatheredLangTag::{new,try_from,as_str,as_bytes,language,Display}", "GRANDFATHERED", "LangTag::as_grandfathered"])
p("C18", "Parsing and conversion never alter the text",
  "A parsed value, borrowed or owned, shows exactly the input text, letter case included, through every conversion (as_str, as_bytes, AsRef, Borrow, Deref, Display, From, to_owned, clone, into_string, into_bytes), and borrowed values point into the input. When parsing fails the error gives the input back unchanged.",
  ["inputs"], "every input of every type, and every conversion path",
  "The tests compare accessors with literals case-insensitively, and never use an owned type or an error value.",
  ALLN + ["src/grandfathered.rs"], [("newtype derive attributes", L)], ["conversions of T and TBuf", "Invalid<Type>.0"])
p("C19", "Serialization round-trips and deserialization validates",
  "With the serde feature, every value of every tag and subtag type serializes as its plain text, and deserializing that gives an equal value with the same text, borrowed or owned. Deserializing a string succeeds exactly when the string parses as that type, and anything that is not a string is rejected.",
  ["inputs"], "every string and every value of the 15 types, borrowed and owned",
  "The serde feature is compiled but no test uses it.",
  ALLN, [("newtype(serde)", L)], ["Serialize/Deserialize for T and TBuf"])
p("C20", "Compile-time parsing agrees with run-time parsing",
  "The constant constructors and the langtag! macro, evaluated at compile time or at run time, accept exactly the tags that the run-time parser accepts and hold the literal's text; the macro panics (or fails to compile) for any other literal.",
  ["inputs", "programs"], "every string literal",
  "One constant (langtag!(\"fr-FR\")) is evaluated at compile time.",
  [L, G, "src/ascii.rs"], [("langtag! macro", L), ("const validate_bytes", G)], ["langtag!", "const from_str/from_bytes"])
p("C21", "Behaviour does not depend on features or build profile",
  "With or without the std and serde features, in debug and release builds, the borrowed types give the same answers to the same inputs: acceptance, classification, components, iteration, lookups, equality, ordering and hashing. Disabling std only removes the owned types.",
  ["configurations", "inputs"], "feature sets {none, std, serde, std+serde} x {debug assertions on, off}, every input",
  "The tests run in one configuration (all features, dev profile); the no_std configuration is never run.",
  ALLN + ["Cargo.toml"], [("cfg(feature = ..) items", L)], ["all borrowed APIs"])
p("C22", "The shipped ABNF grammar describes the compiled recognisers",
  "For every exported rule of the grammar file shipped with the sources, the language it describes is the language recognised by the corresponding compiled type. Regenerating the recognisers from that file therefore cannot change what is accepted.",
  ["inputs"], "every exported rule and every byte string",
  "The build does not read the grammar file, so the tests cannot see a disagreement.",
  ["src/grammar.abnf", G], [("generated automata", G)], ["src/grammar.abnf", "<Type>::new"], None, "cfg(langtag_verif), as C01")
p("C23", "Well-formed components compose into tags that decompose back",
  "Joining with '-' any language, optional script, optional region, any variants, any extensions and an optional private use value, each valid on its own, gives an accepted normal tag and language tag. Its accessors return exactly the components it was built from.",
  ["inputs"], "every combination of valid component values",
  "No test builds a tag from typed components.",
  [G, N], [("Langtag automaton", G), ("offset chain", N)], ["NormalLangTag::new on joined components", "accessors"])
p("C24", "Every query on every value terminates without panicking, at any length",
  "No safe accessor, iterator, lookup, comparison, hashing or conversion on an accepted value panics or runs forever, and no parse of any input does, however long the tag and however many subtags it has. Iterators yield no more items than there are subtags.",
  ["inputs"], "every value of every type, lengths from 2 bytes to hundreds of thousands, thousands of subtags",
  "The longest tag in the tests has some 30 subtags, and only its acceptance is checked.",
  ALLN + [U], [("find_list_end, find_segment_end, find_segment_start", N)], ["all public operations"])
p("C25", "Answers depend only on the arguments, not on earlier calls",
  "Every query is a pure function of the texts it is given. The same call gives the same answer when it is repeated, after any other calls on any other values (also of other texts stored at the same address).",
  ["histories", "inputs"], "every sequence of calls on any values",
  "Each test makes its calls once, on distinct values.",
  ALLN + [U], [("statics, caches and thread-locals: none at present", L)], ["all public operations"])
p("C26", "Safe calls stay within the memory of their arguments",
  "No safe call, on any input, reads or writes memory outside the texts it is given and the values it owns, or has any other undefined behaviour. Every reference it returns points into a live text of its arguments (or static data), the bytes before and after a text never influence an answer, and owned values allocate, move and free their memory correctly.",
  ["inputs", "histories"], "every operation on every byte string and every value of every type, at any address",
  "The tests run without a memory checker: a read past the end of a string literal goes unnoticed.",
  ALLN + [U, "src/grandfathered.rs"], [("new_unchecked/get_unchecked call sites", N), ("byte comparison helpers", U)], ["all public operations"])
p("C27", "Concurrent and nested calls answer as they do alone",
  "Any number of threads may make any calls at the same time, on the same or on different values, without synchronisation of their own: under every interleaving every call returns, with the answer that it gives alone, and leaves later answers unchanged. The same holds for calls made from within user code that another call runs (hashers, formatters, serializers, AsRef arguments, iterator closures), also when that code panics. All text types can be sent to and shared between threads.",
  ["schedules", "histories", "inputs"], "every interleaving of any calls, every nesting of calls in callbacks, every value",
  "The tests make their calls one after another, each test on values of its own.",
  ALLN + [U, "src/grandfathered.rs"], [("statics, caches, locks and thread-locals: none at present", L), ("user hashers called by case_insensitive_hash", U)], ["all public operations"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
