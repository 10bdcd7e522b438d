//! C26: lifetimes. Programs that use a component after its text is gone must
//! not be accepted by the compiler: all programs that obtain a component through
//! a path of accessors, drop the text and then use the component.
use crate::p_const::analyse;
use crate::run::*;

pub const KIND: u16 = 0x401;

/// (type, accessor, type of the result)
const STEPS: &[(&str, &str, &str)] = &[
	("LangTag", ".language().unwrap()", "Language"),
	("LangTag", ".script().unwrap()", "Script"),
	("LangTag", ".region().unwrap()", "Region"),
	("LangTag", ".variants()", "Variants"),
	("LangTag", ".extensions()", "Extensions"),
	("LangTag", ".private_use().unwrap()", "PrivateUse"),
	("LangTag", ".private_use_subtags()", "iter:PrivateUseSubtag"),
	("LangTag", ".as_normal().unwrap()", "NormalLangTag"),
	("LangTag", ".as_private_use().unwrap()", "PrivateUse"),
	("LangTag", ".as_typed()", "Typed"),
	("Typed", ".as_normal().unwrap()", "NormalLangTag"),
	("Typed", ".as_private_use().unwrap()", "PrivateUse"),
	("NormalLangTag", ".language()", "Language"),
	("NormalLangTag", ".script().unwrap()", "Script"),
	("NormalLangTag", ".region().unwrap()", "Region"),
	("NormalLangTag", ".variants()", "Variants"),
	("NormalLangTag", ".extensions()", "Extensions"),
	("NormalLangTag", ".private_use().unwrap()", "PrivateUse"),
	("NormalLangTag", ".private_use_subtags()", "iter:PrivateUseSubtag"),
	("Language", ".primary()", "PrimaryLanguage"),
	("Language", ".extension().unwrap()", "LanguageExtension"),
	("Language", ".extension_subtags()", "iter:ExtendedLangTag"),
	("LanguageExtension", ".iter()", "iter:ExtendedLangTag"),
	("Variants", ".iter()", "iter:Variant"),
	("Variants", ".iter().rev()", "iter:Variant"),
	("Variants", ".iter().next_back().unwrap()", "Variant"),
	("Variants", ".first().unwrap()", "Variant"),
	("Variants", ".last().unwrap()", "Variant"),
	("Extensions", ".iter()", "iter:Extension"),
	("Extensions", ".get(S).unwrap()", "Extension"),
	("Extensions", ".iter_extension(S)", "iter:ExtensionSubtag"),
	("Extension", ".iter()", "iter:ExtensionSubtag"),
	("PrivateUse", ".iter()", "iter:PrivateUseSubtag"),
];
const ITER: &[&str] = &[".next().unwrap()", ".nth(1).unwrap()", ".last().unwrap()", ".find(|_| true).unwrap()", ".reduce(|_, x| x).unwrap()"];
const ANY: &[&str] = &[".as_str()", ".as_bytes()"];

/// Programs "declaration | expression": the expression must not outlive `o`.
fn programs(thorough: bool) -> Vec<String> {
	let mut v = vec![];
	let depth = if thorough { 6 } else { 4 };
	for t in &crate::types::TYPES {
		let n = t.name;
		let mut roots = vec![
			(format!("o: {n}Buf"), "(&*o)".to_string(), depth),
			(format!("o: {n}Buf"), format!("std::borrow::Borrow::<{n}>::borrow(&o)"), 1),
			(format!("o: {n}Buf"), format!("AsRef::<{n}>::as_ref(&o)"), 1),
			(format!("o: Box<{n}Buf>"), "(&**o)".to_string(), 2),
		];
		for s in ["String", "Vec<u8>"] {
			roots.push((format!("o: {s}"), format!("{n}::new(&*o).unwrap()"), depth));
			roots.push((format!("o: {s}"), format!("<&{n}>::try_from(&*o).unwrap()"), 2));
			roots.push((format!("o: {s}"), format!("{n}::new(&*o).unwrap_err()"), 0));
			roots.push((format!("o: {s}"), format!("unsafe {{ {n}::new_unchecked(&*o) }}"), 1));
		}
		roots.push(("o: String".into(), format!("{n}::from_str(&o).unwrap()"), 1));
		roots.push(("o: Vec<u8>".into(), format!("{n}::from_bytes(&o).unwrap()"), 1));
		for (decl, root, depth) in roots {
			let mut level = vec![(root, n.to_string())];
			for d in 0..=depth {
				let mut next = vec![];
				for (e, ty) in level {
					v.push(format!("{decl} | {e}"));
					if d == depth {
						continue;
					}
					if let Some(item) = ty.strip_prefix("iter:") {
						next.extend(ITER.iter().map(|i| (format!("{e}{i}"), item.to_string())));
						continue;
					}
					for (from, step, to) in STEPS {
						if *from == ty {
							next.push((format!("{e}{step}"), to.to_string()));
						}
					}
					if ty != "Typed" && ty != "str" {
						next.extend(ANY.iter().map(|a| (format!("{e}{a}"), "str".to_string())));
					}
				}
				level = next;
			}
		}
	}
	v
}

fn function(i: usize, p: &str, after: bool) -> String {
	let (decl, e) = p.split_once(" | ").unwrap_or((p, "()"));
	let uses = "std::hint::black_box(&r); ";
	let (before, after) = if after { ("", uses) } else { (uses, "") };
	format!("pub fn f{i}({decl}, S: Singleton) {{ let r = {e}; {before}drop(o); {after}}}\n")
}

/// Which of the programs the compiler accepts; None: it cannot even be written (any more)
fn verdicts(ps: &[&str]) -> Vec<Option<bool>> {
	const HEAD: &str = "#![allow(non_snake_case)] use langtag::*;\n";
	let mut live: Vec<usize> = (0..ps.len()).collect();
	let mut out = vec![None; ps.len()];
	// the programs that use the component in time
	for _ in 0..4 {
		let mut s = HEAD.to_string();
		for i in &live {
			s += &function(*i, ps[*i], false);
		}
		let bad = analyse(&s);
		if bad.is_empty() {
			break;
		}
		if bad.contains_key(&0) {
			return out;
		}
		let mut k = 0;
		live.retain(|_| {
			k += 1;
			!bad.contains_key(&(k + 1))
		});
	}
	let mut s = HEAD.to_string();
	for i in &live {
		s += &function(*i, ps[*i], true);
	}
	let bad = analyse(&s);
	for (k, i) in live.iter().enumerate() {
		out[*i] = Some(!bad.contains_key(&(k + 2)));
	}
	out
}

pub fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let p = String::from_utf8_lossy(c.a).into_owned();
	o.validated += 2;
	match verdicts(&[&p])[0] {
		Some(true) => Err(format!("the compiler accepts a program that uses {:?} after its text is gone ({})", p.split_once(" | ").map_or("", |x| x.1), p.split_once(" | ").map_or("", |x| x.0))),
		_ => Ok(()),
	}
}

pub fn domain(thorough: bool) -> Dom {
	dom("lifetimes: programs that use a component after its text is gone, for all paths of accessors", false, move |s| {
		if !s.mine() {
			return;
		}
		let ps = programs(thorough);
		let refs: Vec<&str> = ps.iter().map(|x| &x[..]).collect();
		let r = verdicts(&refs);
		let mut bad = vec![];
		for (p, v) in ps.iter().zip(r) {
			match v {
				None => s.obs.note("programs that cannot be written", 1),
				Some(ok) => {
					s.evals += 1;
					s.obs.validated += 2;
					s.obs.note("programs the compiler must reject", 1);
					s.obs.outcome(5 << 32 | ok as u64);
					if ok {
						bad.push(p);
					}
				}
			}
			s.obs.sample(|| p.clone());
		}
		// the shortest first, each again on its own
		bad.sort_by_key(|p| p.len());
		for p in bad.into_iter().take(10) {
			s.exec(Case { kind: KIND, a: p.as_bytes(), b: &[], c: &[], n: 0 });
		}
	})
}
