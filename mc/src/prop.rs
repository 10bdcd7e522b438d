//! The properties: how each is checked and within what bounds.
use crate::run::{Check, Dom};
use crate::*;

pub struct Prop {
	pub id: &'static str,
	pub check: Check,
	pub domains: fn(bool) -> Vec<Dom>,
	/// what the domains cover: (common, quick, thorough)
	pub bounds: (&'static str, &'static str, &'static str),
	pub assumptions: &'static [&'static str],
}

const MODEL: &str = "the model of the grammar is mc/src/rfc5646.abnf, a transcription of RFC 5646 section 2.1";
const AUTO: &str = "the words beyond the listed bounds follow the recogniser's product with the model, all of whose states are explored, only if a recogniser's verdict depends on its automaton alone; the black-box suites test this up to their bounds";

pub const PROPS: &[Prop] = &[
	Prop {
		id: "C01",
		check: p_accept::accept,
		domains: p_accept::c01,
		bounds: (
			"Product of the compiled Language-Tag automaton with the RFC 5646 model over all 1112064 characters (unbounded length). Black box on LangTag: every model state x every byte x characterizing set; W-method sequences over byte-class representatives; live subtag sequences x all subtag shapes up to 9 characters; grandfathered tags in all casings and their one-edit neighbours; component products; lists of up to 65537 items, intact and damaged.",
			"All byte strings up to 2 bytes; strings over 17 class-boundary bytes up to 4; 1 extra state; live words over {a,x,1,-} up to 10; 3 subtags.",
			"All byte strings up to 3 bytes; strings over 17 class-boundary bytes up to 5; 2 extra states; live words over {a,x,1,-} up to 13; 5 subtags; lists of up to 500000 items.",
		),
		assumptions: &[MODEL, AUTO],
	},
	Prop {
		id: "C02",
		check: p_accept::accept,
		domains: p_accept::c02,
		bounds: (
			"For each of the 14 subtag types: product of the compiled automaton with the model over all 1112064 characters (unbounded length); every model state x every byte x characterizing set; W-method; subtag sequences x shapes; long lists.",
			"All byte strings up to 2 bytes; strings over 17 class-boundary bytes up to 4; 1 extra state; live words over {a,x,1,-} up to 10; 3 subtags.",
			"All byte strings up to 3 bytes; strings over 17 class-boundary bytes up to 5; 2 extra states; live words over {a,x,1,-} up to 13; 5 subtags.",
		),
		assumptions: &[MODEL, AUTO],
	},
	Prop {
		id: "C03",
		check: p_accept::bytes_sound,
		domains: p_accept::c03,
		bounds: (
			"Every byte-accepting entry point of the 15 types and GrandfatheredLangTag, and deserialization from bytes: every model state followed by every malformed, overlong, truncated, surrogate or out-of-range encoding of every byte, alone and embedded at every position of accepted words; the same damaged texts compared with the values. Extension identifiers: every byte, every character, every identifier with every character.",
			"All byte strings up to 3 bytes; embeddings in words of the basic vocabulary.",
			"All byte strings up to 3 bytes and class-selected 4-byte strings; embeddings in the larger vocabulary.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C04",
		check: p_parts::c04_check,
		domains: p_parts::c04,
		bounds: (
			"NormalLangTag and LangTag accessors (language, script, region, variants, extensions, private use, as ranges of the text) against the decomposition model: component products, all live subtag sequences over 20 representative subtags, all pairs of model transitions, lists of up to 65537 items, texts of more than 4 GiB.",
			"Live words over {a,x,1,-} and subtag sequences at quick depth.",
			"Live words and subtag sequences at thorough depth; lists of up to 500000 items.",
		),
		assumptions: &[MODEL],
	},
	Prop {
		id: "C05",
		check: p_parts::c05_check,
		domains: p_parts::c05,
		bounds: (
			"Every component that any accessor or iterator of any of the 15 types returns: matches its own production (by model and by reparsing), lies inside the value's text at subtag boundaries. Values: as C04, for every type.",
			"Quick depth of values.",
			"Thorough depth of values.",
		),
		assumptions: &[MODEL],
	},
	Prop {
		id: "C06",
		check: p_parts::c06_check,
		domains: p_parts::c06,
		bounds: (
			"primary, extension and extension_subtags of Language (and through tags): every language over letter representatives with up to 3 extended language subtags, all letters at every position, all casings.",
			"Quick depth of values.",
			"Thorough depth of values.",
		),
		assumptions: &[MODEL],
	},
	Prop {
		id: "C07",
		check: p_parts::c07_check,
		domains: p_parts::c07,
		bounds: (
			"kind, is_*, as_*, language and the typed views of LangTag: grandfathered tags in all casings and their neighbours, private use tags, component products, subtag sequences; typed views built directly from every kind a tag has.",
			"Quick depth of values.",
			"Thorough depth of values.",
		),
		assumptions: &[MODEL],
	},
	Prop {
		id: "C08",
		check: p_cmp::c08_check,
		domains: p_cmp::c08,
		bounds: (
			"== and != between borrowed and owned values in every combination, for the 15 types, and on all triples of GrandfatheredLangTag, Singleton and Kind: all pairs of a vocabulary per type, every value against its recasings, against every one-byte substitution and every one-letter recasing, all pairs of bytes at the same position, long values differing at one position, operands at every pair of alignments modulo 8; vocabularies include registered language, script and region codes.",
			"Vocabulary of some hundred values per type.",
			"Larger vocabulary; longer values.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C09",
		check: p_cmp::c09_check,
		domains: p_cmp::c09,
		bounds: (
			"cmp, partial_cmp, operators, min and max for the 15 types (and all triples of GrandfatheredLangTag, Singleton and Kind) on all pairs of C08, antisymmetry and agreement with ==; transitivity on all triples of a vocabulary; blindness to case on all casings; operands at every pair of alignments.",
			"Vocabulary of some hundred values per type.",
			"Larger vocabulary; longer values.",
		),
		assumptions: &["no particular order is required, only a total order consistent with equality"],
	},
	Prop {
		id: "C10",
		check: p_cmp::c10_check,
		domains: p_cmp::c10,
		bounds: (
			"Equal values feed hashers equally (all pairs of C08, byte-exact log of hasher calls, owned and borrowed, also GrandfatheredLangTag, Singleton and Kind); every alignment of the text; every history of insert, remove, entry and lookup through another casing on HashMap, HashMap with colliding hashes, BTreeMap, HashSet and BTreeSet against a map keyed by lower-cased texts.",
			"Histories of up to 3 operations over 4 keys; lists of up to 9000 items.",
			"Histories of up to 4 operations over more keys; lists of up to 200000 items.",
		),
		assumptions: &["the collections of std are correct for lawful keys"],
	},
	Prop {
		id: "C11",
		check: p_cmp::c11_check,
		domains: p_cmp::c11,
		bounds: (
			"==, != and partial_cmp of every type and its owned version with str, &str, String, [u8], &[u8], Vec<u8>, in both directions: values x (values, recasings, near misses, other types' texts, malformed bytes).",
			"Vocabulary of some hundred values per type; lists of up to 9000 items.",
			"Larger vocabulary; lists of up to 30000 items.",
		),
		assumptions: &[MODEL],
	},
	Prop {
		id: "C12",
		check: p_parts::c12_check,
		domains: p_parts::c12,
		bounds: (
			"Every accessor, iterator, lookup and classification on a value and on its recasings gives the same ranges: all casings of texts with up to 12 letters, systematic selections beyond.",
			"Quick depth of values; lists of up to 9000 items.",
			"Thorough depth of values; lists of up to 70000 items.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C13",
		check: p_parts::c13_check,
		domains: p_parts::c13,
		bounds: (
			"Variants iterators (of the list type and of tags): every sequence of next, next_back, nth, nth_back, fold, find, by_ref adapters and consuming ends, against a double-ended queue; lists of 0 to 6 variants, long lists, and a list of more than 4 GiB.",
			"Histories up to 5 operations from the whole alphabet, longer over {next, next_back}; lists of up to 20000 items.",
			"Histories up to 6 operations from the whole alphabet, longer over {next, next_back}; lists of up to 300000 items.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C14",
		check: p_parts::c14_check,
		domains: p_parts::c14,
		bounds: (
			"Iterators of extensions, extension subtags, private use subtags and extended language subtags: every sequence of next, nth, fold and other adapters against a list, on lists of 0 to 6 items, long lists and lists of more than 4 GiB; complete sequences on the values of C04.",
			"Histories up to 5 operations; lists of up to 30000 items.",
			"Histories up to 6 operations; lists of up to 300000 items.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C15",
		check: p_parts::c15_check,
		domains: p_parts::c15,
		bounds: (
			"get, get_extension and iter_extension for all 60 identifiers on: all sequences of extensions over representative identifiers and subtags, repeated identifiers, identifiers as subtag-like text, extensions followed by private use, long lists, an extension of more than 4 GiB.",
			"Up to 5 extensions; lists of up to 10000 extensions with the one looked for at the end.",
			"Up to 6 extensions; lists of up to 100000 extensions with the one looked for at the end.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C16",
		check: p_misc::c16_check,
		domains: p_misc::c16,
		bounds: (
			"Complete: every byte, every Unicode character, every pair of bytes, every identifier with every character, every one-character string, every two-byte ASCII string. Every other string has more characters and is rejected by its length.",
			"",
			"",
		),
		assumptions: &[],
	},
	Prop {
		id: "C17",
		check: p_accept::grandfathered,
		domains: p_accept::c17,
		bounds: (
			"GrandfatheredLangTag on the 26 tags in all casings (up to 12 letters, selection beyond), every edit (deletion, replacement by every tag byte, swap, insertion) of each, all prefixes, suffixes and concatenations, all byte strings up to 2 bytes, subtag sequences.",
			"One edit.",
			"Two edits.",
		),
		assumptions: &[MODEL],
	},
	Prop {
		id: "C18",
		check: p_accept::text,
		domains: p_accept::c18,
		bounds: (
			"Every conversion of every type and its owned version, and the errors of identifiers and grandfathered tags (as_str, as_bytes, Display, AsRef, Borrow, From, into_*, to_owned, clone, Deref, reparse) preserves the text, and borrowed ones its address; every constructor's error returns its input. Values as C04 in several casings.",
			"Quick depth of values.",
			"Thorough depth of values.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C19",
		check: p_serde::c19_check,
		domains: p_serde::c19,
		bounds: (
			"Serialization of borrowed and owned values of every type gives the text's JSON; deserialization through every method of serde's data model (JSON plain and escaped, readers, borrowed and owned strings, bytes, other kinds of values) accepts exactly the model's language.",
			"Quick depth of values; lists of up to 9000 items.",
			"Thorough depth of values; lists of up to 70000 items.",
		),
		assumptions: &["serde and serde_json are correct", MODEL],
	},
	Prop {
		id: "C20",
		check: p_const::c20_check,
		domains: p_const::c20,
		bounds: (
			"Generated programs: for each of the 15 types, tables of from_str, from_bytes, validate_str, validate_bytes, as_str and as_bytes evaluated by the compiler, compared at run time with new on the same literals; one langtag! call per literal in a constant that must compile, or must not compile, and in a function that must return or panic. Literals: every model state x byte-class representative x characterizing set, malformed encodings, live subtag sequences, grandfathered tags and near misses.",
			"3 words of the characterizing set, 7 representative subtags.",
			"The whole characterizing set, 20 representative subtags.",
		),
		assumptions: &["the compiler evaluates constants as rustc 1.99 does"],
	},
	Prop {
		id: "C21",
		check: p_conf::c21_check,
		domains: p_conf::c21,
		bounds: (
			"Eight optimised builds (features none, std, serde, std+serde, each with and without debug assertions and overflow checks) answer the same cases; transcripts of every answer of the borrowed types are compared through 4096 64-bit digests. An unoptimised build is compared with them on part of the cases.",
			"Values at lite depth; every state x every byte x characterizing set.",
			"Values at quick depth; longer lists.",
		),
		assumptions: &["equal 64-bit digests stand for equal transcripts"],
	},
	Prop {
		id: "C22",
		check: p_abnf::c22_check,
		domains: p_abnf::c22,
		bounds: (
			"For the 15 exported rules: product of the shipped grammar's automaton with the RFC model (all bytes, unbounded length) and with the compiled automaton (all 1112064 characters, unbounded length), and black-box: every grammar state x every byte x characterizing set, live words and subtag sequences.",
			"Live words over {a,x,1,-} up to 9, 4 subtags.",
			"Live words over {a,x,1,-} up to 12, 5 subtags.",
		),
		assumptions: &[AUTO, "rule names bind the grammar to the types as in src/lib.rs"],
	},
	Prop {
		id: "C23",
		check: p_parts::c23_check,
		domains: p_parts::c23,
		bounds: (
			"All products of component values (language, script, region, variants, extensions, private use) from vocabularies that cover the shapes of every production, each joined, parsed as NormalLangTag and LangTag and taken apart again.",
			"Basic vocabularies; lists of up to 70000 items.",
			"Larger vocabularies; lists of up to 500000 items.",
		),
		assumptions: &[],
	},
	Prop {
		id: "C24",
		check: p_misc::c24_check,
		domains: p_misc::c24,
		bounds: (
			"Every operation (entries, accessors, iterators with skips past the end, lookups of all identifiers, comparisons, conversions, messages) on values of every type and on arbitrary inputs, with debug assertions and overflow checks, under a watchdog.",
			"Values at lite depth, inputs over 8 bytes up to 4; lists of up to 65537 items, also built without optimization on a small stack.",
			"Values at quick depth, inputs over 8 bytes up to 6; lists of up to 500000 items.",
		),
		assumptions: &["a call that takes over 60 s (thorough: 240 s) does not terminate"],
	},
	Prop {
		id: "C25",
		check: p_misc::c25_check,
		domains: p_misc::c25,
		bounds: (
			"Every history of three operations out of 14 on five texts written to the same address, followed by the first again, on 5 sets of texts, while 8 threads do the same; texts at every alignment; histories of comparisons; every pair and, on families of similar texts, every triple of single calls (each accessor alone, so that no other call disturbs a cache) on texts of one length at one address; one operation repeated.",
			"Pairs on 56 texts of each length; 66000 repetitions.",
			"Pairs on 300 texts of each length; 1.1 million repetitions; histories of four operations on two texts.",
		),
		assumptions: &["the threads that run beside a history are not controlled here: C27 enumerates schedules"],
	},
	Prop {
		id: "C26",
		check: p_mem::c26_check,
		domains: p_mem::c26,
		bounds: (
			"Every operation of C24 on values of every type and on arbitrary inputs, the text placed against an inaccessible page at its end and at its start, in read-only memory, all allocations of the library against inaccessible pages likewise and overwritten when freed; answers compared with the model's for four bytes around the text. A smaller set in the Miri interpreter: a word through every state of the models, malformed bytes, full tags. Programs that drop a text and then use a component of it, for all paths of accessors, must not compile.",
			"Values at lite depth, inputs over 8 bytes up to 4; pairs of values of all lengths up to some 80 bytes; lists of up to 65537 items; paths of 4 accessors.",
			"Values at quick depth, inputs over 8 bytes up to 5; lists of up to 500000 items; paths of 6 accessors.",
		),
		assumptions: &["accesses inside of the page of an allocation but before its start (after its end, in the other placement) are seen through wrong answers only"],
	},
	Prop {
		id: "C27",
		check: p_conc::c27_check,
		domains: p_conc::c27,
		bounds: (
			"All interleavings of two calls on two threads up to 3 preemptions (as far as the time allows in that order), with switches before any access to memory that threads share (writable statics, what calls leave on the heap), from four prior states, on the compiled code; calls that touch none are independent of all others. All calls from within hashers, formatters, serializers, AsRef arguments and iterator closures, at every callback, with and without a panic there.",
			"Every operation on some hundred thousand values for shared accesses; pairs of 20 to 40 operations on 30 groups of texts.",
			"Every operation on lite-depth vocabularies for shared accesses; pairs as in quick.",
		),
		assumptions: &["memory is sequentially consistent: effects of weaker orderings are seen by Miri (C26) only", "shared memory is that of the program's statics and of the library's allocations; not files, environment variables or the allocator's own"],
	},
];

pub fn find(id: &str) -> Option<&'static Prop> {
	PROPS.iter().find(|p| p.id == id)
}
pub fn bounds(p: &Prop, thorough: bool) -> String {
	format!("{} {}", p.bounds.0, if thorough { p.bounds.2 } else { p.bounds.1 })
}
