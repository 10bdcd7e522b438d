//! Texts of more than 4 GiB: lengths and offsets beyond 32 bits. Too long for the models; their
//! answers follow from how the text was put together.
use crate::run::*;
use langtag::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::time::Instant;

/// "-abcdefgh", so many times that everything after it lies beyond 2^32
const ITEM: &[u8] = b"-abcdefgh";
const K: usize = (1 << 32) / 9 + 3;
/// Each operation is first done on shorter texts, which tell whether there is time and memory.
const SHORTER: [u32; 5] = [15, 12, 9, 6, 3];
thread_local! {
	static TIMES: Cell<usize> = const { Cell::new(K) };
}
fn k() -> usize {
	TIMES.get()
}
fn m() -> usize {
	9 * k()
}
/// How long the watchdog waits.
pub static PATIENCE: AtomicU64 = AtomicU64::new(120);

const LAYOUTS: [(&str, &str); 3] = [("en", "-a-bb-cc-x-y-z"), ("en-a", "-b-cc-x-y-z"), ("x", "")];

/// The text of a layout; kept while it is in use.
fn text(layout: usize) -> Arc<Vec<u8>> {
	static T: Mutex<(usize, Weak<Vec<u8>>)> = Mutex::new((0, Weak::new()));
	if k() < K {
		return Arc::new(build(layout));
	}
	let mut t = T.lock().unwrap_or_else(|e| e.into_inner());
	if let Some(x) = t.1.upgrade().filter(|_| t.0 == layout) {
		return x;
	}
	let v = Arc::new(build(layout));
	*t = (layout, Arc::downgrade(&v));
	v
}
fn build(layout: usize) -> Vec<u8> {
	let (head, tail) = LAYOUTS[layout];
	let mut v = Vec::with_capacity(head.len() + m() + tail.len());
	v.extend_from_slice(head.as_bytes());
	let chunk = ITEM.repeat(1 << 16);
	for _ in 0..k() >> 16 {
		v.extend_from_slice(&chunk);
	}
	v.extend_from_slice(&chunk[..(k() & 0xffff) * 9]);
	v.extend_from_slice(tail.as_bytes());
	v
}

type Op = (&'static str, fn(&[u8]) -> Result<(), String>);

fn is<T: PartialEq + std::fmt::Debug>(got: T, want: T) -> Result<(), String> {
	if got == want { Ok(()) } else { Err(format!("gives {got:?}, not {want:?}")) }
}
/// where a piece lies
fn at(t: &[u8], p: &(impl AsRef<str> + ?Sized)) -> (usize, usize) {
	let p: &str = p.as_ref();
	let a = (p.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize);
	(a, a.wrapping_add(p.len()))
}
fn opt(t: &[u8], p: Option<&str>) -> Option<(usize, usize)> {
	p.map(|p| at(t, p))
}
fn str(t: &[u8]) -> &str {
	// SAFETY: ASCII
	unsafe { std::str::from_utf8_unchecked(t) }
}
macro_rules! of {
	($T:ident, $t:expr) => {
		// SAFETY: well-formed by construction (and `new` is one of the operations)
		unsafe { $T::new_unchecked(str($t)) }
	};
}
fn vars(t: &[u8]) -> &Variants {
	of!(Variants, &t[3..2 + m()])
}
fn exts(t: &[u8]) -> &Extensions {
	of!(Extensions, &t[3..4 + m() + 5])
}
fn ext(t: &[u8]) -> &Extension {
	of!(Extension, &t[3..4 + m()])
}
fn pu(t: &[u8]) -> &PrivateUse {
	of!(PrivateUse, t)
}
fn s(c: u8) -> Singleton {
	Singleton::new(c).unwrap_or_else(|_| panic!("identifier"))
}
fn item(k: usize, from: usize) -> Option<(usize, usize)> {
	Some((from + 9 * k, from + 9 * k + 8))
}

/// operations by property
fn ops(property: &str, layout: usize) -> &'static [Op] {
	match (property, layout) {
		("C01", 0 | 1 | 2) => &[
			("LangTag::new", |t| is(LangTag::new(t).is_ok(), true)),
			("NormalLangTag::new", |t| is(NormalLangTag::new(t).is_ok(), t[0] != b'x')),
			("LangTag::new up to the last hyphen", |t| is(LangTag::new(&t[..t.iter().rposition(|b| *b == b'-').map_or(0, |p| p + 1)]).is_ok(), false)),
		],
		("C04", 0) => &[
			("language", |t| is(at(t, of!(NormalLangTag, t).language()), (0, 2))),
			("script", |t| is(opt(t, of!(NormalLangTag, t).script().map(|x| x.as_str())), None)),
			("region", |t| is(opt(t, of!(NormalLangTag, t).region().map(|x| x.as_str())), None)),
			("variants", |t| is(at(t, of!(NormalLangTag, t).variants()), (3, 2 + m()))),
			("extensions", |t| is(at(t, of!(NormalLangTag, t).extensions()), (3 + m(), m() + 10))),
			("private_use", |t| is(opt(t, of!(NormalLangTag, t).private_use().map(|x| x.as_str())), Some((m() + 11, m() + 16)))),
		],
		("C04", 1) => &[
			("variants", |t| is(of!(NormalLangTag, t).variants().as_str().len(), 0)),
			("extensions", |t| is(at(t, of!(NormalLangTag, t).extensions()), (3, m() + 9))),
			("private_use", |t| is(opt(t, of!(NormalLangTag, t).private_use().map(|x| x.as_str())), Some((m() + 10, m() + 15)))),
		],
		("C07", 0 | 1) => &[("kind", |t| is(of!(LangTag, t).kind(), Kind::Normal)), ("is_private_use", |t| is(of!(LangTag, t).is_private_use(), false))],
		("C07", 2) => &[("kind", |t| is(of!(LangTag, t).kind(), Kind::PrivateUse)), ("is_normal", |t| is(of!(LangTag, t).is_normal(), false))],
		("C08", 0) => &[
			("== with itself", |t| is(of!(LangTag, t) == of!(LangTag, t), true)),
			("== with a shorter text of the same length modulo 2^32", |t| is(of!(LangTag, &t[..2 + m()]) == of!(LangTag, &t[..((2 + m()) & 0xffff_ffff).min(m() - 7)]), false)),
		],
		("C13", 0) => &[
			("first", |t| is(opt(t, vars(t).first().map(|x| x.as_str())), item(0, 3))),
			("last", |t| is(opt(t, vars(t).last().map(|x| x.as_str())), item(k() - 1, 3))),
			("count", |t| is(vars(t).iter().count(), k())),
			("nth, next, next_back, nth_back", |t| {
				let mut i = vars(t).iter();
				is(opt(t, i.nth(k() - 4).map(|x| x.as_str())), item(k() - 4, 3))?;
				is(opt(t, i.next_back().map(|x| x.as_str())), item(k() - 1, 3))?;
				is(opt(t, i.next().map(|x| x.as_str())), item(k() - 3, 3))?;
				is(opt(t, i.nth_back(0).map(|x| x.as_str())), item(k() - 2, 3))?;
				is(i.next().is_none() && i.next_back().is_none(), true)
			}),
			("count from the back", |t| is(vars(t).iter().rev().count(), k())),
			("nth_back, next", |t| {
				let mut i = vars(t).iter();
				is(opt(t, i.nth_back(k() - 3).map(|x| x.as_str())), item(2, 3))?;
				is(opt(t, i.next().map(|x| x.as_str())), item(0, 3))?;
				is(opt(t, i.next().map(|x| x.as_str())), item(1, 3))?;
				is(i.next().is_none() && i.next_back().is_none(), true)
			}),
		],
		("C14", 1) => &[
			("extensions", |t| {
				let mut i = exts(t).iter();
				is(opt(t, i.next().map(|x| x.as_str())), Some((3, 4 + m())))?;
				is(opt(t, i.next().map(|x| x.as_str())), Some((5 + m(), 9 + m())))?;
				is(i.next().is_none(), true)
			}),
			("subtags of an extension", |t| is(ext(t).iter().count(), k())),
			("nth subtag of an extension", |t| {
				let mut i = ext(t).iter();
				is(opt(t, i.nth(k() - 2).map(|x| x.as_str())), item(k() - 2, 5))?;
				is(opt(t, i.next().map(|x| x.as_str())), item(k() - 1, 5))?;
				is(i.next().is_none(), true)
			}),
		],
		("C14", 2) => &[
			("private use subtags", |t| is(pu(t).iter().count(), k())),
			("nth private use subtag", |t| {
				let mut i = pu(t).iter();
				is(opt(t, i.nth(k() - 2).map(|x| x.as_str())), item(k() - 2, 2))?;
				is(opt(t, i.next().map(|x| x.as_str())), item(k() - 1, 2))?;
				is(i.next().is_none(), true)
			}),
		],
		("C15", 1) => &[
			("get(a)", |t| is(opt(t, exts(t).get(s(b'a')).map(|x| x.as_str())), Some((3, 4 + m())))),
			("get(B)", |t| is(opt(t, exts(t).get(s(b'B')).map(|x| x.as_str())), Some((5 + m(), 9 + m())))),
			("get(c)", |t| is(exts(t).get(s(b'c')).is_none(), true)),
			("iter_extension(A)", |t| is(exts(t).iter_extension(s(b'A')).count(), k())),
			("iter_extension(b)", |t| is(exts(t).iter_extension(s(b'b')).map(|x| at(t, x)).collect::<Vec<_>>(), vec![(7 + m(), 9 + m())])),
		],
		("C24", l) => match l {
			0 => &[
				("all accessors of a tag", |t| {
					let x = of!(LangTag, t);
					let p = x.private_use_subtags().count();
					is((x.language().map(|x| x.as_str().len()), p, x.extensions().iter().count()), (Some(2), 2, 1))
				}),
				("== with the typed view's tag", |t| {
					let TypedLangTag::Normal(n) = of!(LangTag, t).as_typed() else { return Err("is not normal".into()) };
					is(n.as_str().len(), t.len())
				}),
			],
			1 => &[("lookups in a tag", |t| is(of!(LangTag, t).extensions().iter_extension(s(b'B')).count(), 1))],
			_ => &[("subtags of a private use tag", |t| is(of!(LangTag, t).as_private_use().map(|p| p.iter().count()), Some(k())))],
		},
		_ => &[],
	}
}

/// n: the property's number * 10000 + layout * 100 + operation
pub fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
	let (p, layout, i) = (c.n / 10000, (c.n / 100 % 100) as usize, (c.n % 100) as usize);
	if layout > 2 {
		return Ok(());
	}
	let Some((name, f)) = ops(&format!("C{p:02}"), layout).get(i) else { return Ok(()) };
	let what = |k: usize| format!("{name} of {:?} followed by {k} times {:?} and {:?}", LAYOUTS[layout].0, str(ITEM), LAYOUTS[layout].1);
	let run = |times: usize| {
		TIMES.set(times);
		let t = text(layout);
		let began = Instant::now();
		let mut r = Ok(());
		let needs = crate::p_mem::needs(|| r = f(&t).map_err(|e| format!("{}: {e}", what(times))));
		r.map(|()| (began.elapsed().as_secs_f64(), needs as f64))
	};
	let mut before = 0.0;
	for (i, sh) in SHORTER.into_iter().enumerate() {
		let (secs, needs) = run(K >> sh)?;
		o.validated += 1;
		o.transitions += 1;
		o.state(c.n << 8 | sh as u64);
		// what is to be expected of the full length
		let left = SHORTER.len() - i;
		let growth = if secs > 0.02 && before > 0.0 { (secs / before).max(8.0) } else { 8.0 };
		let secs_then = secs * growth.powi(left as i32);
		let needs_then = needs * 8f64.powi(left as i32);
		if secs > 0.02 && secs_then > 250.0 || needs_then > 1e9 {
			o.sample(|| format!("{}: not done, it would take {secs_then:.0} s and {:.0} MB", what(K), needs_then / 1e6));
			return Ok(());
		}
		PATIENCE.fetch_max((120.0 + 8.0 * secs_then).min(700.0) as u64, Ordering::Relaxed);
		before = secs;
	}
	run(K)?;
	o.validated += 1;
	o.transitions += 1;
	o.state(c.n << 8);
	o.sample(|| what(K));
	Ok(())
}

/// Whether there is memory for such texts.
fn room() -> bool {
	let m = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
	m.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix(" kB")?.trim().parse::<u64>().ok()).is_some_and(|k| k > 12 << 20)
}

/// Properties of which these cases take less than a minute: run in the quick tier, too.
pub const CHEAP: [&str; 4] = ["C04", "C13", "C14", "C15"];

/// One domain per layout, so that one such text exists at a time.
pub fn domains(property: &'static str) -> Vec<Dom> {
	(0..3)
		.filter(|l| !ops(property, *l).is_empty())
		.map(|layout| {
			dom(format!("texts of more than 4 GiB ({:?} ..)", LAYOUTS[layout].0), false, move |s| {
				if !room() {
					return;
				}
				let p = property[1..].parse::<u64>().unwrap_or(0);
				let mut keep = None;
				for i in 0..ops(property, layout).len() {
					if s.mine() {
						TIMES.set(K);
						keep.get_or_insert_with(|| text(layout));
						s.exec(Case { kind: GIANT, a: &[], b: &[], c: &[], n: p * 10000 + layout as u64 * 100 + i as u64 });
					}
				}
			})
		})
		.collect()
}
