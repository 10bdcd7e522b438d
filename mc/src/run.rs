//! The explorer: enumerates the domains of a property on all cores, runs the
//! check on every case against the real library, and reports.
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
	fn finish(&self) -> u64 {
		let mut x = self.0;
		x ^= x >> 32;
		x = x.wrapping_mul(0xd6e8feb86659fd93);
		x ^ (x >> 32)
	}
	fn write(&mut self, b: &[u8]) {
		let mut i = 0;
		while i + 8 <= b.len() {
			self.write_u64(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()));
			i += 8;
		}
		let mut t = [0u8; 8];
		t[..b.len() - i].copy_from_slice(&b[i..]);
		self.write_u64(u64::from_le_bytes(t) ^ ((b.len() as u64) << 56));
	}
	fn write_u64(&mut self, x: u64) {
		self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
	}
	fn write_u8(&mut self, x: u8) {
		self.write_u64(x as u64)
	}
	fn write_usize(&mut self, x: usize) {
		self.write_u64(x as u64)
	}
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
pub fn fx(b: &[u8]) -> u64 {
	let mut h = Fx::default();
	h.write(b);
	h.finish()
}

/// Cases of p_giant.rs, of any property.
pub const GIANT: u16 = 0x500;
/// One execution to check. Checks must accept any case (and skip the ones that
/// make no sense), so that cases can be shrunk.
#[derive(Clone, Copy)]
pub struct Case<'a> {
	pub kind: u16,
	pub a: &'a [u8],
	pub b: &'a [u8],
	pub c: &'a [u8],
	pub n: u64,
}
impl Case<'_> {
	pub fn own(&self) -> OwnedCase {
		OwnedCase { kind: self.kind, a: self.a.to_vec(), b: self.b.to_vec(), c: self.c.to_vec(), n: self.n }
	}
	fn hash(&self) -> u64 {
		let mut h = Fx::default();
		h.write(self.a);
		if !self.b.is_empty() || !self.c.is_empty() {
			h.write(self.b);
			h.write(self.c);
		}
		h.write_u64(self.n ^ ((self.kind as u64) << 48));
		h.finish()
	}
}
#[derive(Clone, Debug)]
pub struct OwnedCase {
	pub kind: u16,
	pub a: Vec<u8>,
	pub b: Vec<u8>,
	pub c: Vec<u8>,
	pub n: u64,
}
impl OwnedCase {
	pub fn view(&self) -> Case<'_> {
		Case { kind: self.kind, a: &self.a, b: &self.b, c: &self.c, n: self.n }
	}
	fn size(&self) -> usize {
		self.a.len() + self.b.len() + self.c.len()
	}
	pub fn key(&self) -> String {
		format!("{}|{}|{}|{}|{}", self.kind, hexs(&self.a), hexs(&self.b), hexs(&self.c), self.n)
	}
}
pub fn hexs(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn show(b: &[u8]) -> String {
	if b.len() > 120 {
		format!("{}...({} bytes)", b[..60].escape_ascii(), b.len())
	} else {
		b.escape_ascii().to_string()
	}
}
pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// What a worker measured.
#[derive(Default)]
pub struct Obs {
	/// visited states and transitions of the models, by model
	dfa: HashMap<usize, (Vec<bool>, Vec<[u64; 4]>)>,
	pub states: FxSet,
	pub transitions: u64,
	/// executions of the real code compared with the model
	pub validated: u64,
	pub outcomes: FxSet,
	pub samples: Vec<String>,
	nsample: u64,
	pub notes: HashMap<&'static str, u64>,
}
impl Obs {
	/// Marks the states and transitions of recogniser model `m` visited by `w`.
	pub fn cover(&mut self, m: usize, w: &[u8]) {
		let d = &crate::spec::dfas()[m];
		let e = self.dfa.entry(m).or_insert_with(|| (vec![false; d.len()], vec![[0; 4]; d.len()]));
		let mut s = 0u16;
		e.0[0] = true;
		for &b in w {
			e.1[s as usize][(b >> 6) as usize] |= 1 << (b & 63);
			s = d.step(s, b);
			e.0[s as usize] = true;
			if s == d.dead {
				break;
			}
		}
	}
	pub fn state(&mut self, h: u64) {
		if self.states.len() < 20_000_000 {
			self.states.insert(h);
		}
	}
	pub fn outcome(&mut self, h: u64) {
		if self.outcomes.len() < 1_000_000 {
			self.outcomes.insert(h);
		}
	}
	pub fn note(&mut self, k: &'static str, n: u64) {
		*self.notes.entry(k).or_default() += n;
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		self.nsample += 1;
		if self.nsample.is_power_of_two() && self.samples.len() < 24 {
			self.samples.push(f());
		}
	}
	pub fn merge(&mut self, o: Obs) {
		for (k, (s, t)) in o.dfa {
			match self.dfa.get_mut(&k) {
				None => {
					self.dfa.insert(k, (s, t));
				}
				Some(e) => {
					for i in 0..s.len() {
						e.0[i] |= s[i];
						for j in 0..4 {
							e.1[i][j] |= t[i][j]
						}
					}
				}
			}
		}
		self.states.extend(o.states);
		self.outcomes.extend(o.outcomes);
		self.transitions += o.transitions;
		self.validated += o.validated;
		for (k, v) in o.notes {
			*self.notes.entry(k).or_default() += v
		}
		self.samples.extend(o.samples);
	}
	pub fn dfa_counts(&self) -> (usize, usize) {
		let mut s = 0;
		let mut t = 0;
		for e in self.dfa.values() {
			s += e.0.iter().filter(|x| **x).count();
			t += e.1.iter().flatten().map(|x| x.count_ones() as usize).sum::<usize>();
		}
		(s, t)
	}
	pub fn dfa_models(&self) -> String {
		let mut v: Vec<_> = self.dfa.iter().collect();
		v.sort_by_key(|x| x.0);
		v.iter()
			.map(|(k, e)| {
				format!(
					"{}: {}/{} states, {} (state, byte) transitions",
					crate::spec::RULES[**k],
					e.0.iter().filter(|x| **x).count(),
					e.0.len(),
					e.1.iter().flatten().map(|x| x.count_ones() as usize).sum::<usize>()
				)
			})
			.collect::<Vec<_>>()
			.join("; ")
	}
}

pub type Check = fn(&Case, &mut Obs) -> Result<(), String>;
pub type Gen = Box<dyn Fn(&mut Sink) + Send + Sync>;

pub struct Dom {
	pub name: String,
	/// skip repeated cases (costs memory)
	pub dedup: bool,
	pub generate: Gen,
}
pub fn dom(name: impl Into<String>, dedup: bool, g: impl Fn(&mut Sink) + Send + Sync + 'static) -> Dom {
	Dom { name: name.into(), dedup, generate: Box::new(g) }
}

pub struct Sink<'x> {
	part: u64,
	parts: u64,
	check: Check,
	pub obs: Obs,
	pub evals: u64,
	enumerated: u64,
	seen: FxSet,
	dedup: bool,
	stop: &'x AtomicBool,
	slot: usize,
	fails: Vec<(OwnedCase, String)>,
	known: &'x HashSet<String>,
	pub known_hit: Vec<(OwnedCase, String)>,
	rr: u64,
}
impl Sink<'_> {
	pub fn stopped(&self) -> bool {
		self.stop.load(Ordering::Relaxed)
	}
	/// For generators that split the work themselves: is this chunk ours?
	pub fn mine(&mut self) -> bool {
		self.rr += 1;
		(self.rr - 1) % self.parts == self.part
	}
	/// A case of a domain split by its hash (all workers enumerate everything).
	#[inline]
	pub fn put(&mut self, c: Case) {
		let h = c.hash();
		if self.part == 0 {
			self.enumerated += 1;
		}
		if (h >> 40) % self.parts != self.part || self.stopped() {
			return;
		}
		if self.dedup && !self.seen.insert(h) {
			return;
		}
		self.exec(c);
	}
	#[inline]
	pub fn word(&mut self, kind: u16, w: &[u8]) {
		self.put(Case { kind, a: w, b: &[], c: &[], n: 0 })
	}
	#[inline]
	pub fn wordn(&mut self, kind: u16, w: &[u8], n: u64) {
		self.put(Case { kind, a: w, b: &[], c: &[], n })
	}
	/// A case of a chunk that is ours.
	pub fn exec(&mut self, c: Case) {
		if self.stopped() {
			return;
		}
		self.evals += 1;
		if let Err(m) = guarded(self.check, &c, &mut self.obs, self.slot) {
			let o = c.own();
			if self.known.contains(&o.key()) {
				self.known_hit.push((o, m));
			} else {
				self.fails.push((o, m));
				self.stop.store(true, Ordering::Relaxed);
			}
		}
	}
}

// ---------------------------------------------------------------- guarding

const MAXT: usize = 64;
struct Slot {
	seq: AtomicU64,
	cur: AtomicUsize,
}
static SLOTS: [Slot; MAXT] = [const { Slot { seq: AtomicU64::new(0), cur: AtomicUsize::new(0) } }; MAXT];
thread_local! {
	static CUR: Cell<usize> = const { Cell::new(0) };
	static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn patience(hang: u64) -> u64 {
	#[cfg(feature = "full")]
	let hang = hang.max(crate::p_giant::PATIENCE.load(Ordering::Relaxed));
	hang
}
fn guarded(check: Check, c: &Case, obs: &mut Obs, slot: usize) -> Result<(), String> {
	let p = c as *const Case as usize;
	CUR.with(|x| x.set(p));
	SLOTS[slot].cur.store(p, Ordering::Relaxed);
	SLOTS[slot].seq.fetch_add(1, Ordering::Release);
	#[cfg(feature = "full")]
	let check = if c.kind == GIANT { crate::p_giant::check } else { check };
	let r = catch_unwind(AssertUnwindSafe(|| check(c, obs)));
	SLOTS[slot].cur.store(0, Ordering::Release);
	CUR.with(|x| x.set(0));
	match r {
		Ok(r) => r,
		Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.take()))),
	}
}

struct Globals {
	id: String,
	replays: String,
}
static GLOBALS: Mutex<Option<Globals>> = Mutex::new(None);
static DONE: AtomicBool = AtomicBool::new(false);

pub fn write_replay(id: &str, dir: &str, c: &OwnedCase, msg: &str) -> String {
	std::fs::create_dir_all(dir).ok();
	let path = format!("{dir}/{id}-{:016x}.json", fx(c.key().as_bytes()));
	let t = format!(
		"{{\n \"property\": {},\n \"kind\": {},\n \"n\": {},\n \"a_hex\": {},\n \"b_hex\": {},\n \"c_hex\": {},\n \"a\": {},\n \"b\": {},\n \"c\": {},\n \"message\": {},\n \"replay\": {}\n}}\n",
		jstr(id),
		c.kind,
		c.n,
		jstr(&hexs(&c.a)),
		jstr(&hexs(&c.b)),
		jstr(&hexs(&c.c)),
		jstr(&show(&c.a)),
		jstr(&show(&c.b)),
		jstr(&show(&c.c)),
		jstr(msg),
		jstr(&format!("bash /verif/check.sh replay {path}"))
	);
	std::fs::write(&path, t).ok();
	path
}

fn emergency(c: &Case, msg: &str) -> ! {
	// the check cannot go on: report what was running and leave
	if DONE.swap(true, Ordering::SeqCst) {
		loop {
			std::thread::sleep(Duration::from_secs(1));
		}
	}
	let (id, dir) = match GLOBALS.lock() {
		Ok(g) => g.as_ref().map(|g| (g.id.clone(), g.replays.clone())).unwrap_or_default(),
		Err(_) => Default::default(),
	};
	let o = c.own();
	let p = write_replay(&id, &dir, &o, msg);
	let s = format!("{id}: {msg}\n  a = {}\n  b = {}\n  c = {} n = {}\nVIOLATION property={id} replay={p}\n", show(&o.a), show(&o.b), show(&o.c), o.n);
	let mut out = std::io::stdout().lock();
	out.write_all(s.as_bytes()).ok();
	out.flush().ok();
	unsafe { libc::_exit(1) }
}

extern "C" fn on_signal(sig: i32) {
	let p = CUR.with(|x| x.get());
	unsafe {
		if p == 0 {
			libc::signal(sig, libc::SIG_DFL);
			libc::raise(sig);
			return;
		}
		libc::alarm(20);
		emergency(&*(p as *const Case), &format!("the library crashed (signal {sig})"));
	}
}

pub fn install(id: &str, replays: &str, hang: u64) {
	*GLOBALS.lock().unwrap() = Some(Globals { id: id.into(), replays: replays.into() });
	std::panic::set_hook(Box::new(|i| {
		let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".into()
		};
		let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if CUR.with(|x| x.get()) == 0 {
			eprintln!("panic outside of a case: {m} at {l}");
		}
		PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
	}));
	unsafe {
		for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
			let mut a: libc::sigaction = std::mem::zeroed();
			a.sa_sigaction = on_signal as extern "C" fn(i32) as usize;
			a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
			libc::sigaction(s, &a, std::ptr::null_mut());
		}
	}
	std::thread::spawn(move || {
		let mut last = [(0u64, Instant::now()); MAXT];
		loop {
			std::thread::sleep(Duration::from_millis(500));
			for i in 0..MAXT {
				let s = SLOTS[i].seq.load(Ordering::Acquire);
				let c = SLOTS[i].cur.load(Ordering::Acquire);
				if c == 0 || s != last[i].0 {
					last[i] = (s, Instant::now());
				} else if last[i].1.elapsed() > Duration::from_secs(hang) {
					let c = unsafe { &*(c as *const Case) };
					// (texts of gigabytes take their time)
					if c.kind != GIANT || last[i].1.elapsed() > Duration::from_secs(patience(hang)) {
						emergency(c, &format!("no answer after {hang} s"));
					}
				}
			}
		}
	});
}

// ---------------------------------------------------------------- exploring

pub struct Report {
	pub obs: Obs,
	pub evals: u64,
	pub domains: Vec<(String, u64, f64)>,
	pub fails: Vec<(OwnedCase, String)>,
	pub known_hit: Vec<(OwnedCase, String)>,
}

pub fn explore(doms: &[Dom], check: Check, known: &HashSet<String>) -> Report {
	let parts = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(MAXT - 1) as u64;
	let mut rep = Report { obs: Obs::default(), evals: 0, domains: vec![], fails: vec![], known_hit: vec![] };
	let stop = AtomicBool::new(false);
	let mut seen: Vec<FxSet> = (0..parts).map(|_| FxSet::default()).collect();
	for d in doms {
		let t = Instant::now();
		let res: Vec<(Obs, u64, FxSet, Vec<_>, Vec<_>)> = std::thread::scope(|sc| {
			let hs: Vec<_> = seen
				.drain(..)
				.enumerate()
				.map(|(p, seen)| {
					let stop = &stop;
					sc.spawn(move || {
						let mut s = Sink {
							part: p as u64,
							parts,
							check,
							obs: Obs::default(),
							evals: 0,
							enumerated: 0,
							seen,
							dedup: d.dedup,
							stop,
							slot: p + 1,
							fails: vec![],
							known,
							known_hit: vec![],
							rr: 0,
						};
						if catch_unwind(AssertUnwindSafe(|| (d.generate)(&mut s))).is_err() {
							// a panic of the library outside of a case, or ours?
							let m = PANIC.with(|p| p.take());
							let lib = ["/repo/src/", "/str-newtype", "/static-automata"].iter().any(|x| m.contains(x));
							if !lib {
								eprintln!("internal error in domain {}: {m}", d.name);
								std::process::exit(3);
							}
							s.fails.push((OwnedCase { kind: u16::MAX, a: vec![], b: vec![], c: vec![], n: 0 }, format!("panic while preparing cases: {m}")));
							s.stop.store(true, Ordering::Relaxed);
						}
						(s.obs, s.evals, s.seen, s.fails, s.known_hit)
					})
				})
				.collect();
			hs.into_iter()
				.map(|h| match h.join() {
					Ok(x) => x,
					Err(_) => {
						eprintln!("internal error: a worker of domain {} failed: {}", d.name, "see above");
						std::process::exit(3)
					}
				})
				.collect()
		});
		let mut n = 0;
		for (o, e, s, f, k) in res {
			rep.obs.merge(o);
			n += e;
			seen.push(s);
			rep.fails.extend(f);
			rep.known_hit.extend(k);
		}
		rep.evals += n;
		rep.domains.push((d.name.clone(), n, t.elapsed().as_secs_f64()));
		if !rep.fails.is_empty() {
			break;
		}
	}
	rep
}

/// Greedy shrinking: remove subtags, then bytes, while the check still fails.
pub fn shrink(check: Check, c: OwnedCase, msg: String) -> (OwnedCase, String) {
	let mut best = (c, msg);
	let t = Instant::now();
	let mut obs = Obs::default();
	loop {
		let mut improved = false;
		for f in 0..3 {
			let cur: Vec<u8> = [&best.0.a, &best.0.b, &best.0.c][f].clone();
			if cur.is_empty() || cur.len() > 400_000 {
				continue;
			}
			let mut cands: Vec<Vec<u8>> = vec![];
			let segs: Vec<&[u8]> = cur.split(|b| *b == b'-').collect();
			let ns = segs.len();
			let mut k = ns / 2;
			while k >= 1 {
				let mut i = 0;
				while i < ns && cands.len() < 300 {
					let rest: Vec<&[u8]> = segs.iter().enumerate().filter(|(j, _)| *j < i || *j >= i + k).map(|x| *x.1).collect();
					if !rest.is_empty() {
						cands.push(rest.join(&b'-'));
					}
					i += k;
				}
				k /= 2;
			}
			if cur.len() <= 300 {
				for i in 0..cur.len() {
					let mut v = cur.clone();
					v.remove(i);
					cands.push(v);
				}
			}
			for v in cands {
				if t.elapsed() > Duration::from_secs(5) {
					return best;
				}
				let mut o = best.0.clone();
				match f {
					0 => o.a = v,
					1 => o.b = v,
					_ => o.c = v,
				}
				if o.size() < best.0.size() {
					if let Err(m) = guarded(check, &o.view(), &mut obs, 0) {
						best = (o, m);
						improved = true;
						break;
					}
				}
			}
		}
		if !improved {
			return best;
		}
	}
}

pub fn run_one(check: Check, c: &Case) -> Result<(), String> {
	guarded(check, c, &mut Obs::default(), 0)
}

pub struct Meta {
	pub id: &'static str,
	pub tier: String,
	pub seed: u64,
	pub evidence: String,
	pub replays: String,
	pub bounds: String,
	pub exhaustive: bool,
	pub assumptions: Vec<String>,
	pub extra: Vec<(String, String)>,
	/// states and transitions visited by a dedicated search (product exploration)
	pub more_states: u64,
	pub more_transitions: u64,
}

/// Prints the verdict, writes the evidence, and returns the exit code.
pub fn finish(m: Meta, check: Check, mut rep: Report, start: Instant) -> i32 {
	let fails = rep.fails.len();
	let (ds, dt) = rep.obs.dfa_counts();
	let states = ds as u64 + rep.obs.states.len() as u64 + m.more_states;
	let trans = dt as u64 + rep.obs.transitions + m.more_transitions;
	rep.obs.samples.sort_by_key(|s| s.len());
	rep.obs.samples.dedup();
	let l = rep.obs.samples.len();
	let mut samples: Vec<String> = (0..l.min(14)).map(|i| rep.obs.samples[i * l / l.min(14)].clone()).collect();
	samples.dedup();
	let mut cov = vec![
		("states".to_string(), states.to_string()),
		("transitions".into(), trans.to_string()),
		("traces_validated_against_impl".into(), rep.obs.validated.to_string()),
		("evaluations".into(), rep.evals.to_string()),
		("distinct_outcomes".into(), rep.obs.outcomes.len().to_string()),
		("exhaustive".into(), (m.exhaustive && fails == 0).to_string()),
		("bounds".into(), jstr(&m.bounds)),
		("models".into(), jstr(&rep.obs.dfa_models())),
		("samples".into(), format!("[{}]", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "))),
		(
			"domains".into(),
			format!(
				"[{}]",
				rep.domains
					.iter()
					.map(|(n, e, t)| format!("{{\"name\": {}, \"cases\": {e}, \"wall_s\": {t:.2}}}", jstr(n)))
					.collect::<Vec<_>>()
					.join(",\n   ")
			),
		),
	];
	let mut notes: Vec<_> = rep.obs.notes.iter().collect();
	notes.sort();
	if !notes.is_empty() {
		cov.push(("measured".into(), format!("{{{}}}", notes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "))));
	}
	cov.extend(m.extra.clone());
	let wall = start.elapsed().as_secs_f64();
	let json = format!(
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {fails}\n}}\n",
		jstr(m.id),
		jstr(&m.tier),
		m.seed,
		cov.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(",\n  "),
		m.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
	);
	if let Some(p) = std::path::Path::new(&m.evidence).parent() {
		std::fs::create_dir_all(p).ok();
	}
	std::fs::write(&m.evidence, json).expect("evidence");
	println!(
		"{} [{}]: {} cases, {} states, {} transitions, {} traces validated, {} distinct outcomes, {:.1} s",
		m.id,
		m.tier,
		rep.evals,
		states,
		trans,
		rep.obs.validated,
		rep.obs.outcomes.len(),
		wall
	);
	for (n, e, t) in &rep.domains {
		println!("  {n}: {e} cases in {t:.2} s");
	}
	for (c, msg) in &rep.known_hit {
		println!("KNOWN-FINDING: property={} {} (a = {}, b = {})", m.id, msg, show(&c.a), show(&c.b));
	}
	if rep.fails.is_empty() {
		return 0;
	}
	rep.fails.sort_by_key(|f| f.0.size());
	let (c, msg) = rep.fails.swap_remove(0);
	let (c, msg) = shrink(check, c, msg);
	// the checks are deterministic: a failure that does not reproduce alone
	// depends on the calls made before it
	let msg = if run_one(check, &c.view()).is_ok() { format!("{msg} (only after the calls made before; thread-local or global state?)") } else { msg };
	let p = write_replay(m.id, &m.replays, &c, &msg);
	println!("{}: {msg}\n  a = {}\n  b = {}\n  c = {} n = {}", m.id, show(&c.a), show(&c.b), show(&c.c), c.n);
	println!("VIOLATION property={} replay={p}", m.id);
	1
}
