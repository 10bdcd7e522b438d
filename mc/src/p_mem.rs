//! C26: memory. Texts and allocations next to inaccessible pages.
use crate::dom::*;
use crate::obs::{self, G_ALL};
use crate::p_misc::exercise;
use crate::p_parts::with_dec;
use crate::run::*;
use crate::spec::{self, dfas};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

const PAGE: usize = 4096;
const SLOTS: usize = 256;
const THREADS: usize = 64;
/// per thread: SLOTS pages, each followed by an inaccessible one, after another one
const SPAN: usize = (2 * SLOTS + 1) * PAGE;

/// 0: off; 1: allocations end at an inaccessible page; 2: they start after one
#[derive(Clone, Copy)]
struct Local {
	mode: u8,
	base: usize,
	next: usize,
	used: [u64; SLOTS / 64],
}
thread_local! {
	/// bytes in large allocations of this thread, and the most so far
	static HELD: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
	static LOCAL: Cell<Local> = const { Cell::new(Local { mode: 0, base: 0, next: 0, used: [0; SLOTS / 64] }) };
}
/// where the pages are (fixed: the allocator then needs no static to recognise them)
const REGION: usize = 0x6200_0000_0000;
static MAPPED: std::sync::Once = std::sync::Once::new();
static THREAD: AtomicUsize = AtomicUsize::new(0);

fn large(n: i64) {
	let _ = HELD.try_with(|x| {
		let (now, most) = x.get();
		x.set((now + n, most.max(now + n)));
	});
}
/// The most memory in large allocations that a call needs.
pub fn needs(f: impl FnOnce()) -> u64 {
	let (now, _) = HELD.get();
	HELD.set((now, now));
	f();
	(HELD.get().1 - now) as u64
}

/// The allocator of this program: that of the system, except that a thread may
/// ask for guarded allocations.
pub struct Guarded;
// SAFETY: slots are handed out once until they are freed by their thread
unsafe impl GlobalAlloc for Guarded {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if let Ok(mut s) = LOCAL.try_with(|x| x.get())
			&& s.mode != 0
			&& s.base != 0
			&& l.size() <= PAGE
			&& l.size() > 0
			&& l.align() <= 64
		{
			for _ in 0..SLOTS {
				let k = s.next;
				s.next = (k + 1) % SLOTS;
				if s.used[k / 64] >> (k % 64) & 1 == 0 {
					s.used[k / 64] |= 1 << (k % 64);
					LOCAL.with(|x| x.set(s));
					let start = s.base + (2 * k + 1) * PAGE;
					let p = if s.mode == 1 { (start + PAGE - l.size()) & !(l.align() - 1) } else { start };
					return p as *mut u8;
				}
			}
		}
		if let Some(p) = crate::p_conc::op_alloc(l) {
			return p;
		}
		if l.size() >= 1 << 20 {
			large(l.size() as i64);
		}
		unsafe { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		let a = p as usize;
		if crate::p_conc::op_free(a) {
			return;
		}
		if (REGION..REGION + SPAN * THREADS).contains(&a) {
			// what is freed no longer holds a text
			unsafe { std::ptr::write_bytes(p, 0xdd, l.size()) };
			let _ = LOCAL.try_with(|x| {
				let mut s = x.get();
				if a >= s.base && a < s.base + SPAN {
					let k = ((a - s.base) / PAGE - 1) / 2;
					s.used[k / 64] &= !(1 << (k % 64));
					x.set(s);
				}
			});
			return;
		}
		if l.size() >= 1 << 20 {
			large(-(l.size() as i64));
		}
		unsafe { System.dealloc(p, l) }
	}
}
fn map(len: usize, prot: i32, fd: i32) -> usize {
	let flags = if fd < 0 { libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE } else { libc::MAP_SHARED };
	// SAFETY: a new mapping
	let p = unsafe { libc::mmap(std::ptr::null_mut(), len, prot, flags, fd, 0) };
	assert!(p != libc::MAP_FAILED, "internal error: mmap");
	p as usize
}
fn guarded_thread() {
	if LOCAL.with(|x| x.get()).base != 0 {
		return;
	}
	MAPPED.call_once(|| {
		// SAFETY: a new mapping, or none
		let p = unsafe { libc::mmap(REGION as *mut _, SPAN * THREADS, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0) };
		assert!(p as usize == REGION, "internal error: mmap");
	});
	let t = THREAD.fetch_add(1, Ordering::Relaxed);
	if t >= THREADS {
		return; // (shrinking and replays: the ordinary allocator)
	}
	let base = REGION + t * SPAN;
	for k in 0..SLOTS {
		// SAFETY: inside of the region
		let e = unsafe { libc::mprotect((base + (2 * k + 1) * PAGE) as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE) };
		assert!(e == 0, "internal error: mprotect");
	}
	LOCAL.with(|x| x.set(Local { mode: 0, base, next: 0, used: [0; SLOTS / 64] }));
}
struct Mode;
impl Mode {
	fn new(m: u8) -> Mode {
		guarded_thread();
		LOCAL.with(|x| {
			let mut s = x.get();
			s.mode = m;
			x.set(s)
		});
		Mode
	}
}
impl Drop for Mode {
	fn drop(&mut self) {
		LOCAL.with(|x| {
			let mut s = x.get();
			s.mode = 0;
			x.set(s)
		});
	}
}

/// Room for a text between two inaccessible pages, read-only for everyone who
/// does not know of its second mapping.
struct Room {
	read: usize,
	write: usize,
	len: usize,
}
impl Room {
	fn new(len: usize) -> Room {
		let len = len.div_ceil(PAGE) * PAGE;
		let around = map(len + 2 * PAGE, libc::PROT_NONE, -1);
		// SAFETY: a new file in memory, mapped over the middle of the above and once more
		unsafe {
			let fd = libc::memfd_create(c"text".as_ptr(), 0);
			assert!(fd >= 0 && libc::ftruncate(fd, len as i64) == 0, "internal error: memfd");
			let p = libc::mmap((around + PAGE) as *mut _, len, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
			assert!(p != libc::MAP_FAILED, "internal error: mmap");
			let write = map(len, libc::PROT_READ | libc::PROT_WRITE, fd);
			libc::close(fd);
			Room { read: around + PAGE, write, len }
		}
	}
	/// Writes a text, at the end (or the start) of the room. The rest is filled with `around`.
	fn put<'x>(&self, w: &[u8], end: bool, around: Option<u8>) -> &'x [u8] {
		assert!(w.len() <= self.len);
		let off = if end { self.len - w.len() } else { 0 };
		// SAFETY: inside of the mappings; the slices are used up before the next text
		unsafe {
			if let Some(c) = around {
				let (a, b) = if end { (off.saturating_sub(64), off) } else { (w.len(), (w.len() + 64).min(self.len)) };
				std::ptr::write_bytes((self.write + a) as *mut u8, c, b - a);
			}
			std::ptr::copy_nonoverlapping(w.as_ptr(), (self.write + off) as *mut u8, w.len());
			std::slice::from_raw_parts((self.read + off) as *const u8, w.len())
		}
	}
}
thread_local! {
	static ROOMS: (Room, Room) = (Room::new(PAGE), Room::new(PAGE));
	static LARGE: (Room, Room) = (Room::new(6 << 20), Room::new(6 << 20));
}
const AROUND: [u8; 4] = [b'-', b'a', 0xc3, b'1'];

/// `mc soak`: every operation on the texts read from standard input, for an
/// interpreter to watch.
pub fn soak_main() -> i32 {
	let mut t = String::new();
	std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("stdin");
	let mut n = 0;
	for l in t.lines() {
		let mut f = l.split(' ');
		let ty: usize = f.next().and_then(|x| x.parse().ok()).expect("type");
		let a = unhex(f.next().unwrap_or(""));
		let b = unhex(f.next().unwrap_or(""));
		println!("at {l}");
		// two threads at once: anything they race for is reported
		let two = f.next().is_some();
		let other = two.then(|| {
			let (a, b) = (a.clone(), b.clone());
			std::thread::spawn(move || exercise(ty, &a, &b, true))
		});
		let r = exercise(ty, &a, &b, true);
		if other.is_some_and(|t| t.join().map(|x| x.is_err()).unwrap_or(true)) {
			println!("failed: on another thread");
			return 1;
		}
		match r {
			Ok(k) => n += k,
			Err(m) => {
				println!("failed: {m}");
				return 1;
			}
		}
	}
	println!("done {n}");
	0
}
/// a: lines for `mc soak`
fn soak(c: &Case, o: &mut Obs) -> Result<(), String> {
	use std::io::Write;
	use std::process::*;
	let Ok(cmd) = std::env::var("MC_MIRI") else { return Ok(()) };
	let mut ch = Command::new("/bin/bash").args([&cmd, "soak"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("internal error: {e}"))?;
	let _ = ch.stdin.take().map(|mut i| i.write_all(c.a));
	let out = ch.wait_with_output().map_err(|e| format!("internal error: {e}"))?;
	let (said, err) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
	let last = said.lines().filter(|l| l.starts_with("at ")).last().unwrap_or("").trim_start_matches("at ");
	let mut f = last.split(' ');
	let at = || format!("{} {:?}", f.next().and_then(|x| x.parse::<usize>().ok()).and_then(|x| spec::RULES.get(x)).unwrap_or(&"?"), show(&unhex(f.next().unwrap_or(""))));
	if let Some(u) = err.lines().find(|l| l.contains("Undefined Behavior")) {
		return Err(format!("{}: {}", { at }(), u.trim_start_matches("error: ")));
	}
	if let Some(u) = said.lines().find(|l| l.starts_with("failed: ")) {
		return Err(u.to_string());
	}
	if out.status.success() && said.lines().any(|l| l.starts_with("done ")) {
		o.validated += said.lines().filter_map(|l| l.strip_prefix("done ")?.parse::<u64>().ok()).sum::<u64>();
		let n = said.lines().filter(|l| l.starts_with("at ")).count() as u64;
		o.transitions += n;
		o.note("texts run under Miri", n);
		said.lines().for_each(|l| o.state(fx(l.as_bytes())));
	} else {
		// something Miri cannot run: not a verdict about the library
		o.note("batches that Miri could not run", 1);
		eprintln!("note: Miri stopped: {}", err.lines().find(|l| l.contains("error")).unwrap_or("?"));
	}
	Ok(())
}
fn miri_words(thorough: bool) -> Vec<String> {
	let mut v = vec![];
	for ty in 0..=15usize {
		let d = &dfas()[ty];
		let mut put = |a: &[u8], b: &[u8]| {
			let l = format!("{ty} {} {}\n", hexs(a), hexs(b));
			if !v.contains(&l) {
				v.push(l)
			}
		};
		if ty == 15 {
			for w in [&b"i-klingon"[..], b"ZH-MIN-NAN", b"i-kling", b""] {
				put(w, &[]);
			}
			continue;
		}
		for st in 0..d.len() {
			let st16 = st as u16;
			let acc = &d.access[st];
			if st16 == d.dead {
				continue;
			}
			let w = [&acc[..], &d.finish[st][..]].concat();
			if w.len() < 40 {
				let up = w.to_ascii_uppercase();
				if thorough || w.len() % 4 == st % 4 || ty > 1 {
					put(&w, if st % 2 == 0 { &up } else { acc });
				}
			}
			if thorough || st % 8 == 0 {
				for t in [&b"\xc3\xa9"[..], b"\xc1\xa1", b"\xe2\x82", b"-", b"_"] {
					put(&[acc, t].concat(), &[]);
				}
			}
		}
	}
	for (ty, w, x) in [
		(0usize, "fr-abc-Latn-FR-abcde-a-bb-x-y", "FR-abc"),
		(0, "zh-min-nan", "i-ami"),
		(0, "i-ami", "fr"),
		(0, "x-a", "fr-FR"),
		(0, "fr_", ""),
		(1, "fr-FR", "fr-FR"),
		(spec::PU, "x-a-bb", "X-A-BB"),
		(spec::LANG, "zh-min-nan", "ZH-MIN"),
		(spec::EXTLANG, "abc-def", "abc"),
		(spec::VARIANTS, "abcde-1996", "abcde"),
		(spec::EXTS, "a-bb-b-cc", "B-cc"),
		(spec::EXT, "a-bb-cc", "a-bb"),
		(spec::GF, "zh-xiang", ""),
	] {
		v.push(format!("{ty} {} {} two\n", hexs(w.as_bytes()), hexs(x.as_bytes())));
	}
	let mut full = |t: &str| {
		for ty in [0, 1] {
			v.push(format!("{ty} {} {}\n", hexs(t.as_bytes()), hexs(t.to_uppercase().as_bytes())))
		}
	};
	full("zh-yue-Hant-HK-abcde-1abc-a-bb-cc-b-dd-x-e-ff");
	full("abc-def-ghi-jkl-Latn-419-12345678-z-abcdefgh-x-x");
	if thorough {
		products(&parts(false), &mut {
			let mut i = 0;
			let mut w = vec![];
			move |p| {
				i += 1;
				if i % 997 == 0 {
					join(&p, &mut w);
					full(std::str::from_utf8(&w).unwrap_or("fr"));
				}
			}
		});
	}
	v
}

/// kind: type; a: text; b: another text of the type for comparisons
/// kind 0x400: see `soak`
pub fn c26_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	if c.kind == 0x400 {
		return soak(c, o);
	}
	if c.kind == crate::p_life::KIND {
		return crate::p_life::check(c, o);
	}
	let ty = c.kind as usize;
	if ty > 15 {
		return Ok(());
	}
	let big = c.a.len().max(c.b.len()) > PAGE;
	if c.a.len().max(c.b.len()) > 6 << 20 {
		return Ok(());
	}
	let want = with_dec(|d| obs::expect(ty, c.a, G_ALL, d));
	if ty < 15 && want.is_some() {
		o.cover(ty, c.a);
	}
	let mut go = |r: &(Room, Room)| -> Result<(), String> {
		for end in [true, false] {
			for (i, around) in AROUND.iter().enumerate() {
				let w = r.0.put(c.a, end, Some(*around));
				if i == 0 {
					// the second text as close to the first as may be
					let other = if c.b.is_empty() { r.1.put(&c.a[..c.a.len() / 2], end, None) } else { r.1.put(c.b, end, None) };
					let _m = Mode::new(if end { 1 } else { 2 });
					let n = exercise(ty, w, other, c.a.len() < 4000 || c.n == 0);
					drop(_m);
					o.validated += n? + 1;
				}
				let got = obs::observe(ty, w, G_ALL);
				o.validated += 1;
				if got != want {
					return Err(format!(
						"{} {:?}: the answers change with the bytes {} the text ({:?})",
						spec::RULES[ty],
						show(c.a),
						if end { "before" } else { "after" },
						*around as char
					));
				}
				if big {
					break;
				}
			}
		}
		Ok(())
	};
	if big { LARGE.with(&mut go) } else { ROOMS.with(&mut go) }?;
	o.transitions += 1;
	o.state(fx(c.a) ^ (ty as u64) << 56);
	o.outcome((ty as u64) << 32 | (want.is_some() as u64) << 31 | if ty < 15 { dfas()[ty].run(0, c.a) as u64 } else { 0 });
	o.sample(|| format!("{} {:?} between inaccessible pages", spec::RULES[ty], show(c.a)));
	Ok(())
}
pub fn c26(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	if std::env::var("MC_MIRI").is_ok() {
		v.push(dom("every operation under Miri: a word through every state of the models, malformed bytes, full tags", false, move |s| {
			let ws = miri_words(thorough);
			let n = if thorough { 30 } else { ws.len().div_ceil(16) };
			// lines dealt out in turn, so that the batches take alike
			let k = ws.len().div_ceil(n);
			for i in 0..k {
				if s.mine() {
					let b: String = ws.iter().skip(i).step_by(k).map(|x| x.as_str()).collect();
					s.exec(Case { kind: 0x400, a: b.as_bytes(), b: &[], c: &[], n: 0 });
				}
			}
		}));
	}
	if crate::p_const::available() {
		v.push(crate::p_life::domain(thorough));
	}
	for ty in 0..=15usize {
		let k = ty as u16;
		let d = &dfas()[ty];
		let n = spec::RULES[ty];
		if ty < 15 {
			v.push(dom(format!("{n}: every operation on accepted values"), true, move |s| type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut |w| s.word(k, w))));
			v.push(dom(format!("{n}: pairs of values of all lengths"), true, move |s| {
				// values with a common start, of all pairs of lengths, and recased
				let mut vs: Vec<Vec<u8>> = vec![];
				pumped(ty, &[1, 2, 3, 4, 5, 6, 7, 8, 9], &mut |w| vs.push(w.to_vec()));
				for b in crate::p_cmp::long_bases(ty) {
					vs.push(b)
				}
				for a in &vs {
					for b in &vs {
						s.put(Case { kind: k, a, b, c: &[], n: 0 });
						s.put(Case { kind: k, a, b: &b.to_ascii_uppercase(), c: &[], n: 0 });
					}
				}
			}));
			v.push(dom(format!("{n}: long values"), true, move |s| {
				let sz: Vec<usize> = if thorough { sizes(true) } else { (1..=40).chain([63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 4096, 8192, 65537]).collect() };
				pumped(ty, &sz, &mut |w| s.wordn(k, w, 1));
			}));
		}
		v.push(dom(format!("{n}: parses of any input"), true, move |s| {
			let all: Vec<u8> = (0..=255).collect();
			all_words(&all, 1, &mut |w| s.word(k, w));
			all_words(b"aX1-\0\xc3\xa9\xff", if thorough { 5 } else { 4 }, &mut |w| s.word(k, w));
			let mut w = vec![];
			for st in 0..d.len() {
				for b in 0..=255u8 {
					w.clear();
					w.extend_from_slice(&d.access[st]);
					w.push(b);
					s.word(k, &w);
				}
				// sequences cut off at the end of the memory
				for t in [&b"\xc3"[..], b"\xe2", b"\xe2\x82", b"\xf0", b"\xf0\x9f", b"\xf0\x9f\x98", b"\xf4\x90\x80", b"\xed\xa0", b"\xc1\xa1", b"\xf8\x88\x80\x80", b"\xff", "é".as_bytes(), "😀".as_bytes()] {
					for a in ["", "-", "a"] {
						w.clear();
						w.extend_from_slice(&d.access[st]);
						w.extend_from_slice(a.as_bytes());
						w.extend_from_slice(t);
						s.word(k, &w);
					}
				}
			}
			if ty == 0 || ty == 15 {
				for (g, _) in spec::GRANDFATHERED {
					for i in 0..=g.len() {
						s.word(k, &g.as_bytes()[..i]);
						s.word(k, &g.as_bytes().to_ascii_uppercase()[..i]);
						s.word(k, format!("{g}-").as_bytes());
					}
				}
			}
		}));
	}
	v
}
