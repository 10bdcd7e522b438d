//! C27: calls on several threads at once, and calls from within calls.
//!
//! Interleavings are explored on the compiled code, in a process of its own
//! (`mc conc`): the writable statics of the program (and what the library left on
//! the heap) are made inaccessible, so that every access to memory that threads
//! may share traps. These are the points at which a controlled scheduler may
//! switch between two threads. Accesses to anything else commute, so all
//! schedules of two calls that never trap are equivalent to one.
use crate::dom::*;
use crate::obs;
use crate::p_misc::{exercise, families};
use crate::run::*;
use crate::spec::{self, dfas};
use crate::types::TYPES;
use langtag::*;
use std::cell::Cell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- operations

/// (operation, type, text, other text)
type Item = [u8; 4];
const ACCEPT: u8 = 200;
const HASH: u8 = 201;
const EQ: u8 = 202;
const ORD: u8 = 203;
const ALL: u8 = 204;
const TEXTS: u8 = 205;
const ENTRIES: u8 = 206;
const FOREIGN: u8 = 207;
const SERDE: u8 = 208;

fn perform(op: u8, ty: usize, w: &[u8], x: &[u8]) -> u64 {
	let mut h = Fx::default();
	use std::hash::Hasher;
	let r = catch_unwind(AssertUnwindSafe(|| {
		if let Some(f) = obs::FINE.get(op as usize) {
			match f.run(w) {
				Some(v) => {
					for a in &v {
						h.write_u64((a.1 as u64) << 32 | a.2 as u64);
					}
					h.write_u64(1)
				}
				None => h.write_u64(2),
			}
			return;
		}
		if op == ALL {
			match exercise(ty, w, x, true) {
				Ok(n) => h.write_u64(n),
				Err(m) => h.write(m.as_bytes()),
			}
			return;
		}
		if ty >= 15 {
			return;
		}
		let t = &TYPES[ty];
		let mut b = |_: &'static str, b: bool| h.write_u64(b as u64);
		match op {
			ACCEPT => b("", (t.accept)(w)),
			ENTRIES => (t.entries)(w, &mut |_, e| h.write(format!("{e:?}").as_bytes())),
			SERDE if std::str::from_utf8(w).is_ok() => {
				let (j, r) = (t.json)(w);
				h.write(&j);
				h.write_u64(r as u64)
			}
			_ if !(t.accept)(w) || !(t.accept)(x) => (),
			HASH => h.write(&(t.hash)(w).0),
			EQ => {
				(t.eqs)(w, x, &mut b);
				(t.nes)(w, x, &mut b);
			}
			ORD => (t.ords)(w, x, &mut |_, o| h.write_u64(o.map_or(9, |o| o as i8 as u64))),
			TEXTS => (t.texts)(w, &mut b),
			FOREIGN => {
				(t.feqs)(w, x, &mut b);
				(t.fords)(w, x, &mut |_, o| h.write_u64(o.map_or(9, |o| o as i8 as u64)));
			}
			_ => (),
		}
	}));
	h.write_u64(match r {
		Ok(()) => 1,
		Err(_) => 0xbad,
	});
	h.finish()
}
fn op_name(i: &Item) -> String {
	if let Some(f) = obs::FINE.get(i[0] as usize) {
		return format!("{}::{}", spec::RULES[f.ty], f.name);
	}
	let n = match i[0] {
		ACCEPT => "new",
		HASH => "hash",
		EQ => "==",
		ORD => "cmp",
		ALL => "every operation",
		TEXTS => "conversions",
		ENTRIES => "constructors",
		FOREIGN => "comparisons with text",
		_ => "serialization",
	};
	format!("{}::{n}", spec::RULES[i[1] as usize])
}

// ---------------------------------------------------------------- the monitored process

/// What the scheduler, the threads and the signal handlers share, outside of the statics.
#[repr(C)]
struct Ctl {
	turn: AtomicU32,
	round: AtomicU32,
	pair: AtomicBool,
	quit: AtomicBool,
	ready: AtomicU32,
	done: [AtomicBool; 2],
	result: [AtomicU64; 2],
	item: [AtomicUsize; 2],
	items: AtomicUsize,
	count: AtomicUsize,
	visible: AtomicU32,
	streak: AtomicU32,
	plan: [AtomicU32; 8],
	trace: [AtomicU8; TRACE],
	range: [(AtomicUsize, AtomicUsize); 8],
	/// the arena: what earlier executions left (`..old`; of no use any more, except to threads
	/// themselves), what calls of this one left (`old..kept`), the current call's (`kept..next`)
	next: AtomicUsize,
	kept: AtomicUsize,
	old: AtomicUsize,
	live: AtomicUsize,
	deadline: AtomicU64,
}
/// an operation, ready to run; its answer, and the shared accesses it made
struct Ready {
	op: u8,
	ty: u8,
	w: *const [u8],
	x: *const [u8],
	got: AtomicU64,
	visible: AtomicU32,
}
impl Ready {
	fn run(&self) -> u64 {
		// SAFETY: the texts outlive the exploration
		unsafe { perform(self.op, self.ty as usize, &*self.w, &*self.x) }
	}
}
const CTL: usize = 0x6123_0000_0000;
const ARENA: usize = 0x6124_0000_0000;
const ARENA_LEN: usize = 1 << 34;
const TRACE: usize = 4096;
/// consecutive shared accesses after which a thread must let the other go on (it may be waiting for it)
const FAIR: u32 = 96;
/// shared accesses of a call alone after which it is left to itself
const MANY: u32 = 1000;
/// shared accesses after which two calls are deemed not to return
const ENDLESS: u32 = 400_000;
const PAGE: usize = 4096;
const MAIN: u8 = 2;

thread_local! {
	static ROLE: Cell<u8> = const { Cell::new(MAIN) };
	static IN_OP: Cell<bool> = const { Cell::new(false) };
}
fn ctl() -> &'static Ctl {
	// SAFETY: mapped at the start of `conc_main`, before any use
	unsafe { &*(CTL as *const Ctl) }
}
/// for the allocator: the memory of operations, so that what they leave behind is known
pub fn op_alloc(l: std::alloc::Layout) -> Option<*mut u8> {
	if !IN_OP.try_with(|x| x.get()).unwrap_or(false) || l.size() > 1 << 20 || l.align() > 64 {
		return None;
	}
	let n = l.size().div_ceil(64) * 64;
	let at = ctl().next.fetch_add(n, SeqCst);
	if at + n > ARENA + ARENA_LEN {
		return None;
	}
	ctl().live.fetch_add(1, SeqCst);
	Some(at as *mut u8)
}
pub fn op_free(a: usize) -> bool {
	if (ARENA..ARENA + ARENA_LEN).contains(&a) {
		if a >= ctl().kept.load(SeqCst) {
			ctl().live.fetch_sub(1, SeqCst);
		}
		return true;
	}
	false
}
/// What remains allocated may be shared from now on.
fn settle() -> bool {
	let c = ctl();
	if c.live.swap(0, SeqCst) == 0 {
		c.next.store(c.kept.load(SeqCst), SeqCst);
		return false;
	}
	let e = c.next.load(SeqCst).min(ARENA + ARENA_LEN).div_ceil(PAGE) * PAGE;
	c.next.store(e, SeqCst);
	c.kept.store(e, SeqCst);
	true
}
fn in_op<T>(f: impl FnOnce() -> T) -> T {
	IN_OP.with(|x| x.set(true));
	let r = f();
	IN_OP.with(|x| x.set(false));
	r
}
fn ranges() -> impl Iterator<Item = (usize, usize)> {
	let c = ctl();
	c.range.iter().map(|r| (r.0.load(SeqCst), r.1.load(SeqCst))).filter(|r| r.0 < r.1).chain(std::iter::once((c.old.load(SeqCst), c.kept.load(SeqCst))).filter(|r| r.0 < r.1))
}
fn set(p: i32) {
	for (a, b) in ranges() {
		// SAFETY: mapped ranges
		unsafe { libc::mprotect(a as *mut _, b - a, p) };
	}
}
fn hide() {
	set(libc::PROT_NONE)
}
fn reveal() {
	set(libc::PROT_READ | libc::PROT_WRITE)
}
fn futex(a: &AtomicU32, op: i32, v: u32, ms: i64) {
	let t = libc::timespec { tv_sec: ms / 1000, tv_nsec: ms % 1000 * 1_000_000 };
	// SAFETY: a futex on memory that stays
	unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, op | libc::FUTEX_PRIVATE_FLAG, v, &t as *const libc::timespec) };
}
fn pass(to: u32) {
	ctl().turn.store(to, SeqCst);
	futex(&ctl().turn, libc::FUTEX_WAKE, 8, 0);
}
fn wait_turn(me: u32) {
	let c = ctl();
	for _ in 0..200 {
		if c.turn.load(SeqCst) == me {
			return;
		}
		std::hint::spin_loop();
	}
	loop {
		let t = c.turn.load(SeqCst);
		if t == me {
			return;
		}
		futex(&c.turn, libc::FUTEX_WAIT, t, 1000);
	}
}
fn say(s: &str, code: i32) -> ! {
	// SAFETY: plain system calls
	unsafe {
		libc::write(1, s.as_ptr() as *const _, s.len());
		libc::_exit(code)
	}
}
#[cfg(target_arch = "x86_64")]
unsafe extern "C" fn on_fault(_: i32, info: *const libc::siginfo_t, uc: *mut libc::ucontext_t) {
	let me = ROLE.with(|x| x.get());
	let a = unsafe { (*info).si_addr() } as usize;
	if me == MAIN || !ranges().any(|r| (r.0..r.1).contains(&a)) {
		say("crash\n", 3);
	}
	let c = ctl();
	let i = c.visible.fetch_add(1, SeqCst);
	if let Some(t) = c.trace.get(i as usize) {
		t.store(me, SeqCst);
	}
	if !c.pair.load(SeqCst) && i >= MANY {
		// a call alone: it is known to share memory; the rest of it is not watched
		return reveal();
	}
	if i > ENDLESS {
		say("endless\n", 4);
	}
	let other = 1 - me;
	if c.pair.load(SeqCst) && !c.done[other as usize].load(SeqCst) {
		let s = c.streak.fetch_add(1, SeqCst);
		if s >= FAIR || c.plan.iter().any(|p| p.load(SeqCst) == i) {
			c.streak.store(0, SeqCst);
			pass(other as u32);
			wait_turn(me as u32);
		}
	}
	reveal();
	// one instruction
	unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100 };
}
#[cfg(target_arch = "x86_64")]
unsafe extern "C" fn on_step(_: i32, _: *const libc::siginfo_t, uc: *mut libc::ucontext_t) {
	hide();
	unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
}
fn thread(me: u8) {
	ROLE.with(|x| x.set(me));
	let c = ctl();
	let mut round = 0;
	c.ready.fetch_add(1, SeqCst);
	loop {
		while c.round.load(SeqCst) == round {
			futex(&c.round, libc::FUTEX_WAIT, round, 1000);
		}
		round = c.round.load(SeqCst);
		wait_turn(me as u32);
		if c.quit.load(SeqCst) {
			pass(1 - me as u32);
			return;
		}
		// SAFETY: the items of this round
		let items = unsafe { std::slice::from_raw_parts(c.items.load(SeqCst) as *const Ready, c.count.load(SeqCst)) };
		if c.pair.load(SeqCst) {
			let r = in_op(|| items[c.item[me as usize].load(SeqCst)].run());
			c.result[me as usize].store(r, SeqCst);
		} else if me == 0 {
			for i in items {
				c.visible.store(0, SeqCst);
				if now() > c.deadline.load(SeqCst) {
					i.visible.store(u32::MAX, SeqCst);
					continue;
				}
				i.got.store(in_op(|| i.run()), SeqCst);
				i.visible.store(c.visible.load(SeqCst), SeqCst);
				if settle() || c.visible.load(SeqCst) > MANY {
					hide();
				}
			}
		}
		c.done[me as usize].store(true, SeqCst);
		let other = 1 - me as usize;
		pass(if c.done[other].load(SeqCst) { MAIN as u32 } else { other as u32 });
	}
}
/// Lets the two threads do their part, in the hidden state.
fn round() {
	let c = ctl();
	for i in 0..2 {
		c.done[i].store(false, SeqCst);
	}
	c.streak.store(0, SeqCst);
	c.turn.store(0, SeqCst);
	hide();
	c.round.fetch_add(1, SeqCst);
	futex(&c.round, libc::FUTEX_WAKE, 8, 0);
	// (no statics from here on)
	let mut last = (u32::MAX, false, false);
	let mut since = 0;
	loop {
		let t = c.turn.load(SeqCst);
		if t == MAIN as u32 {
			break;
		}
		futex(&c.turn, libc::FUTEX_WAIT, t, 100);
		let now = (c.visible.load(SeqCst), c.done[0].load(SeqCst), c.done[1].load(SeqCst));
		if now != last || !c.pair.load(SeqCst) {
			last = now;
			since = 0;
		} else if c.turn.load(SeqCst) == t {
			// blocked: on the other thread?
			since += 1;
			if since > 300 {
				say("endless\n", 4);
			}
			if since % 3 == 0 && t < 2 && !c.done[1 - t as usize].load(SeqCst) {
				pass(1 - t);
			}
		}
	}
	reveal();
}
/// The writable statics of the program.
fn statics() -> Vec<(usize, usize)> {
	let exe = std::fs::read_link("/proc/self/exe").map(|p| p.display().to_string()).unwrap_or_default();
	let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
	let mut v: Vec<(usize, usize)> = vec![];
	for l in maps.lines() {
		let f: Vec<&str> = l.split_whitespace().collect();
		let Some((a, b)) = f[0].split_once('-').and_then(|(a, b)| Some((usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?))) else { continue };
		if !f[1].starts_with("rw") {
			continue;
		}
		let next = v.last().is_some_and(|r| r.1 == a);
		if f.get(5).is_some_and(|p| *p == exe) || f.len() == 5 && next {
			v.push((a, b));
		}
	}
	v
}
type Saved = Vec<(usize, Vec<u8>)>;
fn save() -> Saved {
	// SAFETY: mapped ranges, revealed
	ranges().map(|(a, b)| (a, unsafe { std::slice::from_raw_parts(a as *const u8, b - a) }.to_vec())).collect()
}
fn restore(s: &Saved) {
	for (a, v) in s {
		// SAFETY: mapped ranges, revealed; the other threads wait
		unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, v.len()) };
	}
	// (threads may still hold what they allocated: it is not used again)
	ctl().old.store(ctl().kept.load(SeqCst), SeqCst);
}
fn now() -> u64 {
	let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
	// SAFETY: writes to t
	unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
	t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
/// One call, whose memory is accounted for.
fn call(r: &Ready) -> u64 {
	let x = in_op(|| r.run());
	settle();
	x
}

struct Explorer {
	items: Vec<Ready>,
	names: Vec<String>,
	alone: Vec<u64>,
	fresh: Saved,
	schedules: u64,
	accesses: u64,
}
impl Explorer {
	/// One execution of two calls after a history: Err if anyone answers otherwise.
	fn schedule(&mut self, h: &[usize], a: usize, b: usize, plan: &[u32]) -> Result<u32, String> {
		let c = ctl();
		restore(&self.fresh);
		for i in h {
			call(&self.items[*i]);
		}
		c.visible.store(0, SeqCst);
		c.pair.store(true, SeqCst);
		c.item[0].store(a, SeqCst);
		c.item[1].store(b, SeqCst);
		for (i, p) in c.plan.iter().enumerate() {
			p.store(plan.get(i).copied().unwrap_or(u32::MAX), SeqCst);
		}
		round();
		settle();
		let n = c.visible.load(SeqCst);
		self.schedules += 1;
		self.accesses += n as u64;
		let got = [c.result[0].load(SeqCst), c.result[1].load(SeqCst)];
		let mut bad = None;
		if got[0] != self.alone[a] {
			bad = Some((a, "then"))
		} else if got[1] != self.alone[b] {
			bad = Some((b, "then"))
		} else {
			for i in [a, b].iter().chain(h).chain([a, b].iter()) {
				if call(&self.items[*i]) != self.alone[*i] {
					bad = Some((*i, "afterwards"));
					break;
				}
			}
		}
		if let Some((i, when)) = bad {
			let who: String = (0..n.min(60) as usize).map(|i| if c.trace[i].load(SeqCst) == 0 { 'A' } else { 'B' }).collect();
			restore(&self.fresh);
			return Err(format!(
				"A: {}, B: {}, at the same time (after {:?}), switching before the shared accesses {plan:?} ({who}): {} gives another answer {when} than alone",
				self.names[a],
				self.names[b],
				h.iter().map(|i| &self.names[*i]).collect::<Vec<_>>(),
				self.names[i]
			));
		}
		Ok(n)
	}
}
fn parse(a: &str) -> Vec<Vec<u8>> {
	unhex(a).split(|b| *b == 0).map(|t| t.to_vec()).collect()
}
/// `mc conc`: texts and operations from standard input: what (solo, pairs, within), milliseconds, texts, items
pub fn conc_main() -> i32 {
	std::panic::set_hook(Box::new(|_| ()));
	let mut t = String::new();
	std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("stdin");
	let f: Vec<&str> = t.trim_end().split(' ').collect();
	let (what, ms) = (f[0], f[1].parse::<u64>().expect("time"));
	let texts = parse(f[2]);
	let ops: Vec<Item> = unhex(f.get(3).unwrap_or(&"")).chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
	if what == "within" {
		return within(&texts, &ops);
	}
	let start = Instant::now();
	#[cfg(target_arch = "x86_64")]
	unsafe {
		// a call that waits for itself never returns
		libc::alarm(240);
		for (at, len) in [(CTL, std::mem::size_of::<Ctl>().div_ceil(PAGE) * PAGE), (ARENA, ARENA_LEN)] {
			let p = libc::mmap(at as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
			assert!(p as usize == at, "internal error: mmap");
		}
		for (s, h) in [(libc::SIGSEGV, on_fault as *const () as usize), (libc::SIGTRAP, on_step as *const () as usize)] {
			let mut a: libc::sigaction = std::mem::zeroed();
			a.sa_sigaction = h;
			a.sa_flags = libc::SA_SIGINFO;
			libc::sigaction(s, &a, std::ptr::null_mut());
		}
	}
	let c = ctl();
	c.next.store(ARENA, SeqCst);
	c.kept.store(ARENA, SeqCst);
	c.old.store(ARENA, SeqCst);
	c.deadline.store(now() + ms * 1_000_000, SeqCst);
	for (r, s) in c.range.iter().zip(statics()) {
		r.0.store(s.0, SeqCst);
		r.1.store(s.1, SeqCst);
	}
	assert!(ranges().count() > 0, "internal error: no statics");
	// SAFETY: the texts outlive the items
	let text = |i: u8| &texts[i as usize % texts.len()][..] as *const [u8];
	let items: Vec<Ready> = if what == "solo" {
		let mut v = vec![];
		for o in &ops {
			for (i, t) in texts.iter().enumerate() {
				v.push(Ready { op: o[0], ty: o[1], w: &t[..], x: &texts[i.saturating_sub(1)][..], got: AtomicU64::new(0), visible: AtomicU32::new(0) });
			}
		}
		v
	} else {
		ops.iter().map(|o| Ready { op: o[0], ty: o[1], w: text(o[2]), x: text(o[3]), got: AtomicU64::new(0), visible: AtomicU32::new(0) }).collect()
	};
	let name = |r: &Ready| {
		// SAFETY: the texts outlive the items
		let (w, x) = unsafe { (&*r.w, &*r.x) };
		let n = op_name(&[r.op, r.ty, 0, 0]);
		if [EQ, ORD, ALL, FOREIGN].contains(&r.op) { format!("{n} of {} and {}", show(w), show(x)) } else { format!("{n} of {}", show(w)) }
	};
	let names: Vec<String> = if what == "solo" { vec![] } else { items.iter().map(name).collect() };
	let threads: Vec<_> = [0, 1].map(|i| std::thread::spawn(move || thread(i))).into();
	while c.ready.load(SeqCst) < 2 {
		std::thread::yield_now();
	}
	let fresh = save();
	// alone; in pairs, each from the same state
	let mut alone = Vec::with_capacity(items.len());
	for i in &items {
		alone.push(call(i));
		if what != "solo" {
			restore(&fresh);
		}
	}
	restore(&fresh);
	c.items.store(items.as_ptr() as usize, SeqCst);
	c.count.store(items.len(), SeqCst);
	c.pair.store(false, SeqCst);
	round();
	let mut fail = None;
	for (i, r) in items.iter().enumerate() {
		if r.visible.load(SeqCst) != u32::MAX && r.got.load(SeqCst) != alone[i] {
			fail = Some(format!("{} on another thread, after other calls, gives another answer", name(r)));
			break;
		}
	}
	let ran = |i: &usize| items[*i].visible.load(SeqCst) != u32::MAX;
	let mut cut = (0..items.len()).filter(|i| !ran(i)).count() as u64;
	let shared: Vec<usize> = (0..items.len()).filter(ran).filter(|i| items[*i].visible.load(SeqCst) > 0).collect();
	let accesses: u64 = shared.iter().map(|i| items[*i].visible.load(SeqCst) as u64).sum();
	let n = items.len() - cut as usize;
	let mut x = Explorer { items, names, alone, fresh, schedules: 0, accesses };
	let mut pairs = 0u64;
	if what == "pairs" && fail.is_none() {
		// pairs with a call that shares nothing are equivalent to its two orders
		let few: Vec<usize> = if shared.len() > 40 { (0..40).map(|i| shared[i * shared.len() / 40]).collect() } else { shared.clone() };
		cut += (shared.len() - few.len()) as u64;
		// (pairs, histories) with the plans run so far
		let mut work: Vec<(Vec<usize>, usize, usize, Vec<(Vec<u32>, u32)>)> = vec![];
		// the same operation first
		for d in 0..few.len() {
			for i in 0..few.len() {
				let (a, b) = (few[i], few[(i + d) % few.len()]);
				for h in [vec![], vec![a], vec![b], vec![few[0]]] {
					if h.first() != Some(&a) || a != b || h.is_empty() {
						work.push((h, a, b, vec![]));
					}
				}
			}
		}
		pairs = work.len() as u64;
		'all: for bound in 0..=3usize {
			for k in 0..work.len() {
				if start.elapsed() > Duration::from_millis(ms) {
					cut += 1;
					break 'all;
				}
				let (h, a, b, old) = &work[k];
				let (h, a, b) = (h.clone(), *a, *b);
				let mut new = vec![];
				let mut go = |x: &mut Explorer, p: Vec<u32>| -> Result<(), String> {
					let l = x.schedule(&h, a, b, &p)?;
					new.push((p, l));
					Ok(())
				};
				let r = (|| {
					if bound == 0 {
						return go(&mut x, vec![]);
					}
					for (p, l) in old.iter().filter(|p| p.0.len() == bound - 1) {
						for i in p.last().map_or(0, |i| i + 1)..*l {
							let mut q = p.clone();
							q.push(i);
							go(&mut x, q)?;
							if start.elapsed() > Duration::from_millis(ms) {
								return Ok(());
							}
						}
					}
					Ok(())
				})();
				if let Err(m) = r {
					fail = Some(m);
					break 'all;
				}
				work[k].3 = new;
			}
		}
	}
	c.quit.store(true, SeqCst);
	c.round.fetch_add(1, SeqCst);
	futex(&c.round, libc::FUTEX_WAKE, 8, 0);
	pass(0);
	for t in threads {
		let _ = t.join();
	}
	match fail {
		Some(m) => {
			println!("failed: {m}");
			1
		}
		None => {
			println!("done {n} {} {} {} {pairs} {cut}", shared.len(), x.accesses, x.schedules);
			0
		}
	}
}

// ---------------------------------------------------------------- calls from within calls

thread_local! {
	static BACK: std::cell::RefCell<Option<(u32, Box<dyn FnMut()>)>> = const { std::cell::RefCell::new(None) };
}
/// The library calls the user.
fn call_back() {
	let mut f = None;
	BACK.with(|b| {
		if let Some(x) = b.borrow_mut().as_mut() {
			if x.0 == 0 {
				f = Some(std::mem::replace(&mut x.1, Box::new(|| ())));
			}
			x.0 = x.0.wrapping_sub(1);
		}
	});
	if let Some(mut f) = f {
		f()
	}
}
#[derive(Default)]
struct Hooked(crate::types::Log);
impl std::hash::Hasher for Hooked {
	fn finish(&self) -> u64 {
		self.0.finish()
	}
	fn write(&mut self, b: &[u8]) {
		call_back();
		self.0.write(b)
	}
	fn write_u8(&mut self, b: u8) {
		call_back();
		self.0.write_u8(b)
	}
}
struct Sheet(String);
impl std::fmt::Write for Sheet {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		call_back();
		self.0.push_str(s);
		Ok(())
	}
}
impl std::io::Write for Sheet {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		call_back();
		self.0.push_str(&String::from_utf8_lossy(b));
		Ok(b.len())
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}
struct Bytes<'a>(&'a [u8]);
impl AsRef<[u8]> for Bytes<'_> {
	fn as_ref(&self) -> &[u8] {
		call_back();
		self.0
	}
}
/// The operations that call the user: hashing, formatting, serialization, conversion of the input, iteration from within.
fn calling(op: u8, ty: usize, w: &[u8]) -> String {
	use std::fmt::Write;
	use std::hash::{Hash, Hasher};
	macro_rules! go {
		($T:ident $B:ident) => {{
			let Ok(t) = $T::new(w) else { return "rejected".into() };
			match op {
				0 => {
					let mut h = Hooked::default();
					t.hash(&mut h);
					t.to_owned().hash(&mut h);
					format!("{:?}", h.0)
				}
				1 => {
					let mut s = Sheet(String::new());
					let _ = write!(s, "{t} {t:?} {} {:?}", t.to_owned(), t.to_owned());
					s.0
				}
				2 => {
					let mut s = Sheet(String::new());
					let _ = serde_json::to_writer(&mut s, t);
					let _ = serde_json::to_writer(&mut s, &t.to_owned());
					s.0
				}
				_ => String::new(),
			}
		}};
	}
	macro_rules! inner {
		($i:expr) => {{
			let mut n = String::new();
			($i).for_each(|x| {
				call_back();
				n.push_str(x.as_str());
				n.push(' ');
			});
			n
		}};
	}
	if op == 3 {
		// internal iteration
		return match ty {
			spec::VARIANTS => Variants::new(w).map_or(String::new(), |x| inner!(x.iter()) + &inner!(x.iter().rev())),
			spec::EXTS => Extensions::new(w).map_or(String::new(), |x| inner!(x.iter()) + &Singleton::new(b'a').map_or(String::new(), |s| inner!(x.iter_extension(s)))),
			spec::EXT => Extension::new(w).map_or(String::new(), |x| inner!(x.iter())),
			spec::PU => PrivateUse::new(w).map_or(String::new(), |x| inner!(x.iter())),
			spec::EXTLANG => LanguageExtension::new(w).map_or(String::new(), |x| inner!(x.iter())),
			spec::LT => LangTag::new(w).map_or(String::new(), |x| inner!(x.private_use_subtags())),
			_ => String::new(),
		};
	}
	match ty {
		spec::GF => match GrandfatheredLangTag::new(Bytes(w)) {
			Ok(g) => {
				let mut h = Hooked::default();
				g.hash(&mut h);
				let mut s = Sheet(String::new());
				let _ = write!(s, "{g}");
				format!("{} {}", s.0, h.finish())
			}
			Err(e) => format!("{:?}", e.0),
		},
		spec::LT => go!(LangTag LangTagBuf),
		spec::NORMAL => go!(NormalLangTag NormalLangTagBuf),
		spec::PU => go!(PrivateUse PrivateUseBuf),
		spec::LANG => go!(Language LanguageBuf),
		spec::EXTLANG => go!(LanguageExtension LanguageExtensionBuf),
		spec::VARIANTS => go!(Variants VariantsBuf),
		spec::EXT => go!(Extension ExtensionBuf),
		spec::EXTS => go!(Extensions ExtensionsBuf),
		_ => String::new(),
	}
}
/// items: pairs of a calling operation and one called from within; every call back in turn makes it, or panics.
fn within(texts: &[Vec<u8>], ops: &[Item]) -> i32 {
	let texts: &'static [Vec<u8>] = texts.to_vec().leak();
	let text = |i: u8| &texts[i as usize % texts.len()][..];
	let (mut n, mut most) = (0u64, 0);
	let mut alone: std::collections::HashMap<Item, u64> = Default::default();
	for p in ops.chunks_exact(2) {
		// SAFETY: an ordinary alarm: a call that waits for itself never returns
		unsafe { libc::alarm(30) };
		let (out, inn) = (p[0], p[1]);
		let what = || format!("{} of {:?}", ["hashing", "formatting", "serialization", "iteration"][out[0] as usize & 3], show(text(out[2])));
		let run = || catch_unwind(AssertUnwindSafe(|| calling(out[0], out[1] as usize, text(out[2])))).unwrap_or("(panics)".into());
		BACK.with(|b| *b.borrow_mut() = Some((u32::MAX, Box::new(|| ()))));
		let want = run();
		let calls = BACK.with(|b| u32::MAX - b.borrow().as_ref().map_or(0, |x| x.0));
		let inner = move || perform(inn[0], inn[1] as usize, &texts[inn[2] as usize % texts.len()], &texts[inn[3] as usize % texts.len()]);
		let one = *alone.entry(inn).or_insert_with(inner);
		most = most.max(calls);
		// all callbacks of short calls, the first ones and the last of long ones
		for i in (0..calls).filter(|i| *i < 24 || *i + 2 > calls) {
			for panics in [false, true] {
				let got = std::rc::Rc::new(Cell::new(one));
				let g = got.clone();
				BACK.with(|b| {
					*b.borrow_mut() = Some((i, Box::new(move || {
						g.set(inner());
						if panics {
							std::panic::panic_any(());
						}
					})))
				});
				let r = run();
				BACK.with(|b| *b.borrow_mut() = None);
				n += 1;
				if !panics && r != want {
					println!("failed: {} in which callback {i} makes another call ({} of {:?}) gives {r}, not {want}", what(), op_name(&inn), show(text(inn[2])));
					return 1;
				}
				if got.get() != one || inner() != one {
					println!("failed: {} of {:?} called from within {} (callback {i}{}) answers otherwise than alone", op_name(&inn), show(text(inn[2])), what(), if panics { ", which panics" } else { "" });
					return 1;
				}
				if panics && run() != want {
					println!("failed: {} answers otherwise after a call during which the user panicked", what());
					return 1;
				}
			}
		}
	}
	println!("done {n} {most} 0 0 0 0");
	0
}

// ---------------------------------------------------------------- the check

static BEGUN: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// kind 0: n: type; a: texts; b: operations (one thread after the other). kind 1: pairs of operations
/// on two threads. kind 2: operations from within others. kind 3: types across threads
pub fn c27_check(c: &Case, o: &mut Obs) -> Result<(), String> {
	use std::io::Write;
	use std::process::*;
	if c.kind == 3 {
		let i = c.n as usize;
		let Some((n, ok)) = TRAITS.get(i) else { return Ok(()) };
		o.validated += 1;
		o.state(c.n);
		o.transitions += 1;
		return if *ok { Ok(()) } else { Err(format!("{n} cannot be sent to or shared between threads")) };
	}
	let what = ["solo", "pairs", "within"][c.kind as usize % 3];
	if c.a.is_empty() || c.b.is_empty() {
		return Ok(());
	}
	let t = BEGUN.get_or_init(Instant::now).elapsed().as_secs();
	let ms = if t < 150 { 6000 } else { 300 };
	let exe = std::env::current_exe().map_err(|e| format!("internal error: {e}"))?;
	let mut ch = Command::new(exe).arg("conc").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("internal error: {e}"))?;
	let _ = ch.stdin.take().map(|mut i| i.write_all(format!("{what} {ms} {} {}\n", hexs(c.a), hexs(c.b)).as_bytes()));
	let out = ch.wait_with_output().map_err(|e| format!("internal error: {e}"))?;
	let said = String::from_utf8_lossy(&out.stdout);
	let err = String::from_utf8_lossy(&out.stderr);
	if let Some(m) = said.lines().find_map(|l| l.strip_prefix("failed: ")) {
		return Err(m.to_string());
	}
	if err.contains("internal error") {
		return Err(format!("internal error: {}", err.lines().last().unwrap_or("")));
	}
	if said.contains("endless") || out.status.code().is_none() && format!("{}", out.status).contains("signal: 14") {
		return Err("calls at the same time (or from within others) do not return".into());
	}
	let Some(d) = said.lines().find_map(|l| l.strip_prefix("done ")) else {
		return Err(format!("the library crashed ({}; {})", out.status, said.lines().last().unwrap_or("")));
	};
	let d: Vec<u64> = d.split(' ').filter_map(|x| x.parse().ok()).collect();
	o.validated += d[0] + d[3];
	o.transitions += d[0] + d[2];
	o.state(fx(c.a) ^ fx(c.b));
	if c.kind == 2 {
		o.note("calls from within calls", d[0]);
	} else {
		o.note("calls run with all shared memory hidden", d[0]);
		o.note("of which touch shared memory", d[1]);
		o.note("schedules of two calls that do", d[3]);
		if c.kind == 1 {
			let n = d[0] - d[1];
			o.note("pairs of calls equivalent to their sequential orders (one touches no shared memory)", n * n + 2 * n * d[1]);
		}
		if d[5] > 0 {
			o.note("explorations cut off by time", 1);
		}
	}
	o.outcome(d[1] ^ d[2] << 20);
	o.sample(|| format!("{what}: {} calls on {:?} ..", d[0], show(&c.a[..c.a.len().min(40)])));
	Ok(())
}
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
	const OK: bool = false;
}
impl<T: ?Sized> No for Probe<T> {}
impl<T: ?Sized + Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe> Probe<T> {
	const OK: bool = true;
}
macro_rules! traits {
	($($t:ty),* $(,)?) => { static TRAITS: &[(&str, bool)] = &[$((stringify!($t), <Probe<$t>>::OK)),*]; };
}
traits!(
	LangTag, NormalLangTag, PrivateUse, PrivateUseSubtag, Language, PrimaryLanguage, LanguageExtension, ExtendedLangTag, Script, Region, Variant, Variants, Extension, Extensions, ExtensionSubtag,
	LangTagBuf, NormalLangTagBuf, PrivateUseBuf, PrivateUseSubtagBuf, LanguageBuf, PrimaryLanguageBuf, LanguageExtensionBuf, ExtendedLangTagBuf, ScriptBuf, RegionBuf, VariantBuf, VariantsBuf, ExtensionBuf, ExtensionsBuf, ExtensionSubtagBuf,
	GrandfatheredLangTag, Singleton, Kind, TypedLangTag<'static>, InvalidLangTag<String>, VariantsIter<'static>, ExtensionsIter<'static>, PrivateUseIter<'static>, LanguageExtensionIter<'static>,
);

pub fn c27(thorough: bool) -> Vec<Dom> {
	let mut v = vec![];
	v.push(dom("types that threads may share", false, |s| {
		for i in 0..TRAITS.len() {
			if s.mine() {
				s.exec(Case { kind: 3, a: &[], b: &[], c: &[], n: i as u64 })
			}
		}
	}));
	if cfg!(target_arch = "x86_64") {
		v.push(dom("every operation on all explored values with the shared memory hidden", false, move |s| {
			for ty in 0..=15usize {
				let mut chunk: Vec<Vec<u8>> = vec![];
				let flush = |s: &mut Sink, chunk: &mut Vec<Vec<u8>>| {
					if !chunk.is_empty() && s.mine() {
						let a = chunk.join(&0);
						s.exec(Case { kind: 0, a: &a, b: &[ALL, ty as u8, 0, 0, SERDE, ty as u8, 0, 0], c: &[], n: 0 });
					}
					chunk.clear();
				};
				let mut add = |w: &[u8]| {
					if !w.contains(&0) && !w.is_empty() {
						chunk.push(w.to_vec());
						if chunk.len() >= 3000 {
							flush(s, &mut chunk);
						}
					}
				};
				if ty == spec::GF {
					for (t, _) in spec::GRANDFATHERED {
						few_casings(t.as_bytes(), &mut add);
						for i in 0..t.len() {
							add(&t.as_bytes()[..i]);
						}
					}
				} else {
					let d = &dfas()[ty];
					type_words(ty, if thorough { Depth::Quick } else { Depth::Lite }, &mut add);
					all_words(b"aX1-\xc3\xa9", if thorough { 6 } else { 5 }, &mut add);
					pumped(ty, &[1, 2, 5, 30, 100, 1000], &mut add);
				}
				flush(s, &mut chunk);
			}
		}));
		v.push(dom("all schedules of two calls, from different states", false, move |s| {
			for (ty, set) in groups() {
				let mut items: Vec<Item> = vec![];
				for (op, f) in obs::FINE.iter().enumerate() {
					if f.ty == ty || ty == spec::LT && (f.ty == spec::NORMAL || f.ty == spec::GF) {
						for i in 0..set.len() {
							items.push([op as u8, f.ty as u8, i as u8, 0]);
						}
					}
				}
				for op in [ACCEPT, HASH, EQ, ORD, FOREIGN, TEXTS, ENTRIES, SERDE] {
					for i in 0..set.len() as u8 {
						items.push([op, ty as u8, i, i]);
						if [EQ, ORD, FOREIGN].contains(&op) {
							for j in 0..set.len() as u8 {
								if i != j {
									items.push([op, ty as u8, i, j]);
								}
							}
						}
					}
				}
				let a = set.join(&0);
				// per operation, and all together
				let mut parts: Vec<Vec<Item>> = vec![];
				for i in &items {
					match parts.iter_mut().find(|p| p[0][0] == i[0]) {
						Some(p) => p.push(*i),
						None => parts.push(vec![*i]),
					}
				}
				parts.push(items);
				for p in parts {
					if s.mine() {
						s.exec(Case { kind: 1, a: &a, b: &p.concat(), c: &[], n: ty as u64 });
					}
				}
			}
		}));
	}
	v.push(dom("calls from within user code that other calls run", false, move |s| {
		for (ty, set) in groups() {
			if set[0].is_empty() {
				continue;
			}
			let a = set.join(&0);
			for out in 0..4u8 {
				for i in 0..set.len() as u8 {
					let mut items: Vec<Item> = vec![];
					for j in 0..set.len() as u8 {
						for (op, f) in obs::FINE.iter().enumerate() {
							if f.ty == ty {
								items.extend([[out, ty as u8, i, 0], [op as u8, ty as u8, j, j]]);
							}
						}
						for op in [HASH, EQ, ORD, TEXTS, FOREIGN, SERDE, ALL] {
							items.extend([[out, ty as u8, i, 0], [op, ty as u8, j, i]]);
						}
					}
					if s.mine() {
						s.exec(Case { kind: 2, a: &a, b: &items.concat(), c: &[], n: ty as u64 });
					}
				}
			}
		}
	}));
	v
}
/// Small sets of texts for each type.
fn groups() -> Vec<(usize, Vec<Vec<u8>>)> {
	let mut v = families();
	let f = |ty, v: &[&str]| (ty, v.iter().map(|t| t.as_bytes().to_vec()).collect::<Vec<_>>());
	v.extend([
		f(spec::LT, &["fr", "fr-FR", "de-1996-x-a", "zh-cmn-Hant-TW-abcde-a-bb-cc-b-dd-x-e-ff"]),
		f(spec::LT, &["i-klingon", "en-GB-oed", "zh-min", "art-lojban", "sgn-BE-FR"]),
		f(spec::NORMAL, &["fr", "fr-FR", "FR-fr", "zh-cmn-Hant-TW-abcde-a-bb-x-e", "fr-x-a"]),
		f(spec::EXTS, &["a-bb", "a-bb-cc-b-dd", "b-bb-cc-a-dd", "a-bb-a-cc-1-dd"]),
		f(spec::VARIANTS, &["abcde", "1996", "abcde-1996", "1996-abcde-abcdefgh"]),
		f(spec::GF, &["i-ami", "zh-xiang", "en-GB-oed", "sgn-CH-DE", "I-AMI", "fr"]),
	]);
	for ty in 0..15usize {
		if ![spec::LT, spec::NORMAL, spec::EXTS, spec::VARIANTS].contains(&ty) {
			let d = &dfas()[ty];
			let mut ws: Vec<Vec<u8>> = vec![];
			subtag_words(d, &REPS, 2, &mut |w, a| {
				if a && ws.iter().all(|x| x.len() != w.len()) {
					ws.push(w.to_vec())
				}
			});
			ws.truncate(4);
			if let Some(w) = ws.first().cloned() {
				ws.push(w.to_ascii_uppercase());
			}
			if !ws.is_empty() {
				v.push((ty, ws));
			}
		}
	}
	v
}
