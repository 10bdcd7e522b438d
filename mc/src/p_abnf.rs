//! C22: the shipped grammar against the compiled recognisers.
use crate::dom::*;
use crate::model::{Dfa, parse_abnf};
use crate::p_accept;
use crate::run::*;
use crate::spec::{self, RULES, dfas};
use crate::types::TYPES;
use std::collections::{HashSet, VecDeque};
use std::sync::OnceLock;

/// The automata of the shipped grammar.
fn shipped() -> &'static Result<Vec<Dfa>, String> {
	static S: OnceLock<Result<Vec<Dfa>, String>> = OnceLock::new();
	S.get_or_init(|| {
		let path = std::env::var("MC_ABNF").unwrap_or("/repo/src/grammar.abnf".into());
		let text = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
		let rules = parse_abnf(&text)?;
		RULES[..15].iter().map(|r| Dfa::from_rules(&rules, r)).collect()
	})
}

/// kind: type; kind 100: the grammar can be read.
pub fn c22_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let ds = shipped().as_ref().map_err(|e| format!("the shipped grammar does not define the exported rules: {e}"))?;
	let ty = c.kind as usize;
	if ty >= 15 {
		return Ok(());
	}
	let s = ds[ty].run(0, c.a);
	let want = ds[ty].acc[s as usize];
	let got = (TYPES[ty].accept)(c.a);
	o.validated += 1;
	o.outcome((ty as u64) << 32 | (want as u64) << 31 | s as u64);
	if c.a.len() < 60 {
		o.sample(|| format!("{} {:?}: {}", RULES[ty], show(c.a), if want { "in the language" } else { "not in the language" }));
	}
	if got != want {
		return Err(format!(
			"the rule {} of grammar.abnf {} {:?}, {}::new {} it",
			RULES[ty],
			if want { "describes" } else { "does not describe" },
			show(c.a),
			TYPES[ty].name,
			if got { "accepts" } else { "rejects" }
		));
	}
	Ok(())
}

/// Words on which two automata differ, one for each differing pair of states.
fn differences(a: &Dfa, b: &Dfa, max: usize, f: &mut dyn FnMut(&[u8])) -> (u64, u64) {
	let mut seen: HashSet<(u16, u16)> = HashSet::from([(0, 0)]);
	let mut q = VecDeque::from([((0u16, 0u16), vec![])]);
	let (mut n, mut t) = (0, 0);
	while let Some(((x, y), w)) = q.pop_front() {
		if a.acc[x as usize] != b.acc[y as usize] {
			f(&w);
			n += 1;
			if n >= max {
				break;
			}
		}
		for c in 0..=255u8 {
			t += 1;
			let z = (a.step(x, c), b.step(y, c));
			if seen.insert(z) {
				let mut v: Vec<u8> = w.clone();
				v.push(c);
				q.push_back((z, v));
			}
		}
	}
	(seen.len() as u64, t)
}

pub fn c22(thorough: bool) -> Vec<Dom> {
	let read = dom("the grammar defines every exported rule", false, |s| s.word(100, b""));
	let Ok(ds) = shipped() else { return vec![read] };
	let mut v = vec![read];
	v.push(dom("product of the grammar's automaton and the model, all bytes", false, move |s| {
		for ty in 0..15 {
			if s.mine() {
				let mut ws = vec![];
				let (n, t) = differences(&ds[ty], &dfas()[ty], 200, &mut |w| ws.push(w.to_vec()));
				s.obs.note("product states (grammar x model)", n);
				s.obs.transitions += t;
				(0..n).for_each(|i| s.obs.state(fx(format!("{ty} gm {i}").as_bytes())));
				s.exec(Case { kind: ty as u16, a: &ds[ty].finish[0], b: &[], c: &[], n: 0 });
				for w in ws {
					s.exec(Case { kind: ty as u16, a: &w, b: &[], c: &[], n: 0 });
				}
			}
		}
	}));
	#[cfg(whitebox)]
	v.push(dom("product of the grammar's automaton and the compiled automaton, all characters", false, move |s| {
		for ty in 0..15 {
			p_accept::white::PRODUCTS[ty](&ds[ty], ty, s);
		}
	}));
	for ty in 0..15usize {
		let d = &ds[ty];
		let k = ty as u16;
		v.push(dom(format!("{}: every state x every byte x characterizing set, and words of the rule", RULES[ty]), true, move |s| {
			let ws = d.wset();
			let reps = d.reps();
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					for x in &ws {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.push(b);
						w.extend_from_slice(x);
						s.word(k, &w);
						if thorough && d.step(st as u16, b) != d.dead && reps.contains(&b) {
							let l = w.len() - x.len();
							for &c in &reps {
								w.truncate(l);
								w.push(c);
								w.extend_from_slice(x);
								s.word(k, &w);
							}
						}
					}
				}
			}
			live_words(d, b"ax1-", if thorough { 12 } else { 9 }, &mut |w, _| s.word(k, w));
			subtag_words(d, &REPS_SMALL, if thorough { 5 } else { 4 }, &mut |w, _| s.word(k, w));
			pumped(ty, &[1, 2, 3, 16, 129, 255, 256, 257, 300, 1000, 32768, 65536], &mut |w| s.word(k, w));
			if ty == spec::LT {
				p_accept::near_misses(false, &mut |w| s.word(k, w));
			}
		}));
	}
	v
}
