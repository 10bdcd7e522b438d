#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
WB = "explicit-state product of the compiled automata with RFC 5646 DFAs (all states, all characters), bound to the public API by W-method conformance suites"
DEC = "explicit-state exploration of the RFC 5646 grammar model at byte and subtag level, every explored word executed on the real accessors and compared with the model"
PAIR = "bounded-exhaustive exploration of pairs (triples) of model states, executed on the real comparison operators"
T = {
 "C01": (WB, "Unbounded in length for the generated automaton (every reachable product state and all 1,112,064 characters); every constructor is bound to it by black-box suites up to the stated bounds, long lists included. Trusts the transcription of the RFC grammar, cross-checked by an independent parser (selftest)."),
 "C02": (WB, "As C01, for each of the 14 subtag types."),
 "C03": ("exhaustive enumeration of malformed encodings at every state of the RFC 5646 DFAs, executed on every byte-accepting constructor", "Every malformed, overlong or out-of-range encoding of every ASCII character at every model state and around accepted words; all byte strings up to 3 bytes."),
 "C04": (DEC, "All component products, live words, subtag sequences and model transition pairs within the bounds; lists up to 65,537 items (quick). Longer combinations of distinct features are covered only through the model's state abstraction."),
 "C05": (DEC, "As C04, over the components returned by accessors and iterators of all types."),
 "C06": (DEC, "All languages over letter representatives; all letters at every position."),
 "C07": (DEC, "All classes, the grandfathered tags in all casings and their neighbours."),
 "C08": (PAIR, "All pairs of large vocabularies, all byte pairs at every position, differences at two positions, long values; every operator between borrowed and owned forms."),
 "C09": (PAIR + "; transitivity on all triples", "As C08; total order laws on all pairs and triples of the vocabularies. The order itself is not prescribed."),
 "C10": ("exploration of all operation histories of std collections up to a depth, against a map model; all pairs for hasher input", "Histories of bounded length over bounded keys; hasher input compared call by call."),
 "C11": (PAIR, "Values against strings and bytes, well-formed and not, in both directions and all string types."),
 "C12": (DEC + ", over letter-case assignments", "All casings up to 12 letters, systematic ones beyond."),
 "C13": ("exploration of all interleavings of double-ended iterator operations up to a depth, against a deque model", "Every history of next, next_back, nth, nth_back, fold and adapters within the bounds."),
 "C14": ("exploration of all iterator histories up to a depth, against a list model", "Every history of next, nth, fold and adapters within the bounds, plus complete sequences of all explored values."),
 "C15": (DEC + ", lookups of all 60 identifiers", "All extension sequences over representative identifiers and subtags within the bounds."),
 "C16": ("exhaustive enumeration of the whole finite domain", "Complete for bytes, characters, pairs and one-character strings."),
 "C17": ("exploration of the grandfathered trie model: all casings, all edits, executed on the real table", "All byte strings within one edit (quick) or two edits (thorough) of the 26 tags, in all casings."),
 "C18": (DEC + ", over all conversions", "Bounded as C04."),
 "C19": (DEC + ", over serde's data model", "Bounded as C04; trusts serde and serde_json."),
 "C20": ("exploration of the RFC 5646 DFAs as literals of generated programs, evaluated by the compiler and at run time", "Every literal of the bounded set, through every constant constructor and langtag! in constant and function position."),
 "C21": ("exploration of one bounded case space in all eight configurations, transcripts compared", "Eight builds answer the same cases; equal digests stand for equal transcripts."),
 "C22": ("explicit-state product of the shipped ABNF's automaton with the RFC model and with the compiled automata", "Unbounded in length for automata; the public API is bound by black-box suites."),
 "C23": ("exhaustive products of component vocabularies, composed and decomposed on the real code", "All products of the vocabularies."),
 "C24": (DEC + ", all operations, with overflow checks and a watchdog", "Every operation on the explored values and inputs, lists up to 65,537 items (quick) or 500,000 (thorough)."),
 "C25": ("exploration of all call histories up to depth 4 on texts at one address, against the stateless model", "All histories over the stated operations and texts."),
 "C26": (DEC + ", every execution next to inaccessible pages and (a bounded set) in the Miri interpreter", "Every operation on all values and inputs of the bounds, at every page edge and with all surrounding bytes; Miri's rules on a smaller exhaustive set. Where Miri is not installed that part is skipped with a note."),
 "C27": ("controlled scheduling of the compiled code: all interleavings of two calls at their accesses to shared memory up to 3 preemptions, with partial-order reduction; all callbacks for nested calls", "Accesses to shared memory (statics, surviving allocations) are found by page protection; calls without any commute with all others. Sequentially consistent memory; two threads; preemption bound within a time budget, reported when cut."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash /verif/check.sh build",
 "hooks": {"guard": "langtag_verif", "enable": "RUSTFLAGS=\"--cfg langtag_verif\" (check.sh sets it, and --cfg whitebox for the harness)", "source_commits": ["4f121ad767cbb7c10a2ec190201a558b2477831b"]},
 "checks": [], "not_applicable": [],
}
for p in props:
    t, n = T[p["id"]]
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": t, "level": "model_checking", "level_note": n})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
