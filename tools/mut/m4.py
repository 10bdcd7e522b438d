"""Mutants of C26 (memory) and C27 (concurrency, reentrancy), and caches that are right."""
from m1names import *
LE='''		find_list_end(&self.0, 0, |i, segment| {
			i == 0 || ExtendedLangTag::new(segment).is_ok()
		})
'''
PACK='''		let mut key = [0u8; 8];
		if self.0.len() <= 8 {
			key[..self.0.len()].copy_from_slice(self.0.as_bytes());
		}
		let key = u64::from_le_bytes(key);
'''
M=[
 ('torn_memo',['C27'],[(N,LE,PACK+'''		use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
		static KEY: AtomicU64 = AtomicU64::new(0);
		static END: AtomicUsize = AtomicUsize::new(0);
		if key != 0 && KEY.load(Relaxed) == key {
			return END.load(Relaxed);
		}
		let end = find_list_end(&self.0, 0, |i, segment| {
			i == 0 || ExtendedLangTag::new(segment).is_ok()
		});
		if key != 0 {
			KEY.store(key, Relaxed);
			END.store(end, Relaxed);
		}
		end
''')]),
 ('memo_packed',[],[(N,LE,PACK+'''		use core::sync::atomic::{AtomicU64, Ordering::Relaxed};
		// seven bytes of text and the answer
		static LAST: AtomicU64 = AtomicU64::new(0);
		let last = LAST.load(Relaxed);
		if key != 0 && key >> 56 == 0 && last & ((1 << 56) - 1) == key {
			return (last >> 56) as usize;
		}
		let end = find_list_end(&self.0, 0, |i, segment| {
			i == 0 || ExtendedLangTag::new(segment).is_ok()
		});
		if key != 0 && key >> 56 == 0 {
			LAST.store(key | (end as u64) << 56, Relaxed);
		}
		end
''')]),
 ('gf_hint_toctou',['C27'],[(G,'''		for tag in &GRANDFATHERED {
			if utils''','''		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static LAST: AtomicUsize = AtomicUsize::new(0);
		if utils::case_insensitive_eq(GRANDFATHERED[LAST.load(Relaxed)].as_bytes(), bytes) {
			return Ok(GRANDFATHERED[LAST.load(Relaxed)]);
		}

		for (i, tag) in GRANDFATHERED.iter().enumerate() {
			LAST.store(i, Relaxed);
			if utils''')]),
 ('gf_hint_ok',[],[(G,'''		for tag in &GRANDFATHERED {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
''','''		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static LAST: AtomicUsize = AtomicUsize::new(0);
		let last = GRANDFATHERED[LAST.load(Relaxed)];
		if utils::case_insensitive_eq(last.as_bytes(), bytes) {
			return Ok(last);
		}

		for (i, tag) in GRANDFATHERED.iter().enumerate() {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				LAST.store(i, Relaxed);
''')]),
 ('static_scratch',['C27'],[(U,'''		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}
''','''		use core::sync::atomic::{AtomicU8, Ordering::Relaxed};
		static SCRATCH: [AtomicU8; 32] = [const { AtomicU8::new(0) }; 32];
		for (a, b) in a.chunks(32).zip(b.chunks(32)) {
			for (s, a) in SCRATCH.iter().zip(a) {
				s.store(into_smallcase(*a), Relaxed);
			}
			for (s, b) in SCRATCH.iter().zip(b) {
				if s.load(Relaxed) != into_smallcase(*b) {
					return false;
				}
			}
		}
''')]),
 ('static_mut_scratch',['C27','C26'],[(U,'''		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}
''','''		static mut SCRATCH: [u8; 32] = [0; 32];
		for (a, b) in a.chunks(32).zip(b.chunks(32)) {
			let scratch = unsafe { &mut (&mut (*(&raw mut SCRATCH)))[..a.len()] };
			scratch.copy_from_slice(a);
			scratch.make_ascii_lowercase();
			if scratch.iter().zip(b).any(|(s, b)| *s != into_smallcase(*b)) {
				return false;
			}
		}
''')]),
 ('tls_borrow',['C27'],[(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}
''','''	#[cfg(feature = "std")]
	{
		extern crate std;
		std::thread_local! {
			static LOWER: core::cell::RefCell<std::vec::Vec<u8>> = const { core::cell::RefCell::new(std::vec::Vec::new()) };
		}
		LOWER.with(|l| {
			let mut l = l.borrow_mut();
			l.clear();
			l.extend(bytes.iter().map(|b| into_smallcase(*b)));
			for b in l.iter() {
				b.hash(hasher)
			}
		})
	}
	#[cfg(not(feature = "std"))]
	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}
''')]),
 ('tls_take_ok',[],[(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}
''','''	#[cfg(feature = "std")]
	{
		extern crate std;
		std::thread_local! {
			static LOWER: core::cell::RefCell<std::vec::Vec<u8>> = const { core::cell::RefCell::new(std::vec::Vec::new()) };
		}
		let mut l = LOWER.with(|l| l.take());
		l.clear();
		l.extend(bytes.iter().map(|b| into_smallcase(*b)));
		for b in l.iter() {
			b.hash(hasher)
		}
		LOWER.with(|x| x.replace(l));
	}
	#[cfg(not(feature = "std"))]
	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}
''')]),
 ('mutex_in_hash',['C27'],[(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}
''','''	#[cfg(feature = "std")]
	{
		extern crate std;
		static LOWER: std::sync::Mutex<[u8; 64]> = std::sync::Mutex::new([0; 64]);
		for c in bytes.chunks(64) {
			let mut l = LOWER.lock().unwrap();
			l[..c.len()].copy_from_slice(c);
			l[..c.len()].make_ascii_lowercase();
			for b in l[..c.len()].iter() {
				b.hash(hasher)
			}
		}
	}
	#[cfg(not(feature = "std"))]
	for b in bytes {
		into_smallcase(*b).hash(hasher)
	}
''')]),
 ('mutex_ok',[],[(U,'''		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}
''','''		#[cfg(feature = "std")]
		{
			extern crate std;
			static LOWER: std::sync::Mutex<[u8; 64]> = std::sync::Mutex::new([0; 64]);
			for (a, b) in a.chunks(64).zip(b.chunks(64)) {
				let mut l = LOWER.lock().unwrap_or_else(|e| e.into_inner());
				l[..a.len()].copy_from_slice(a);
				l[..a.len()].make_ascii_lowercase();
				if l.iter().zip(b).any(|(s, b)| *s != into_smallcase(*b)) {
					return false;
				}
			}
		}
		#[cfg(not(feature = "std"))]
		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}
''')]),
 ('heap_table',['C27'],[(N,LE,PACK+'''		#[cfg(feature = "std")]
		if key != 0 {
			extern crate std;
			use core::sync::atomic::{AtomicU64, Ordering::Relaxed};
			static TABLE: std::sync::OnceLock<std::vec::Vec<[AtomicU64; 2]>> = std::sync::OnceLock::new();
			let t = TABLE.get_or_init(|| (0..64).map(|_| [const { AtomicU64::new(0) }; 2]).collect());
			let [k, v] = &t[(key.wrapping_mul(0x9e3779b97f4a7c15) >> 58) as usize];
			if k.load(Relaxed) == key {
				return v.load(Relaxed) as usize;
			}
			let end = find_list_end(&self.0, 0, |i, segment| {
				i == 0 || ExtendedLangTag::new(segment).is_ok()
			});
			k.store(key, Relaxed);
			v.store(end as u64, Relaxed);
			return end;
		}
		find_list_end(&self.0, 0, |i, segment| {
			i == 0 || ExtendedLangTag::new(segment).is_ok()
		})
''')]),
 ('heap_map_ok',[],[(N,LE,'''		#[cfg(feature = "std")]
		{
			extern crate std;
			use std::collections::HashMap;
			use std::sync::{LazyLock, RwLock};
			static TABLE: LazyLock<RwLock<HashMap<std::string::String, usize>>> = LazyLock::new(Default::default);
			if let Some(e) = TABLE.read().unwrap().get(&self.0) {
				return *e;
			}
			let end = find_list_end(&self.0, 0, |i, segment| {
				i == 0 || ExtendedLangTag::new(segment).is_ok()
			});
			let mut t = TABLE.write().unwrap();
			if t.len() < 100 {
				t.insert(self.0.into(), end);
			}
			return end;
		}
		#[cfg(not(feature = "std"))]
		find_list_end(&self.0, 0, |i, segment| {
			i == 0 || ExtendedLangTag::new(segment).is_ok()
		})
''')]),
 ('lock_order',['C27'],[(U,'''		for i in 0..a.len() {
			if into''','''		#[cfg(feature = "std")]
		let _g = {
			let a = locks::A.lock().unwrap();
			(a, locks::B.lock().unwrap())
		};
		for i in 0..a.len() {
			if into'''),(U,'''	let mut i = 0;

	loop {''','''	#[cfg(feature = "std")]
	let _g = {
		let b = locks::B.lock().unwrap();
		(b, locks::A.lock().unwrap())
	};
	let mut i = 0;

	loop {'''),(U,'$','''
#[cfg(feature = "std")]
mod locks {
	extern crate std;
	pub static A: std::sync::Mutex<()> = std::sync::Mutex::new(());
	pub static B: std::sync::Mutex<()> = std::sync::Mutex::new(());
}
''')]),
 ('spin_ok',[],[(U,'''	let mut i = 0;

	loop {''','''	use core::sync::atomic::{AtomicBool, Ordering::*};
	static BUSY: AtomicBool = AtomicBool::new(false);
	struct Free;
	impl Drop for Free {
		fn drop(&mut self) {
			BUSY.store(false, Release)
		}
	}
	while BUSY.swap(true, Acquire) {
		core::hint::spin_loop()
	}
	let _f = Free;
	let mut i = 0;

	loop {''')]),
 ('spin_broken',['C27'],[(U,'''	let mut i = 0;

	loop {''','''	use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
	static BUSY: AtomicBool = AtomicBool::new(false);
	static AT: AtomicUsize = AtomicUsize::new(0);
	struct Free;
	impl Drop for Free {
		fn drop(&mut self) {
			BUSY.store(false, Release)
		}
	}
	// test, then set
	while BUSY.load(Acquire) {
		core::hint::spin_loop()
	}
	BUSY.store(true, Release);
	let _f = Free;
	AT.store(a.iter().zip(b).take_while(|(a, b)| into_smallcase(**a) == into_smallcase(**b)).count(), Relaxed);
	let mut i = AT.load(Relaxed).min(a.len());

	loop {''')]),
 ('counter_ok',[],[(LIB,'		match NormalLangTag::new(&self.0) {\n			Ok(t) => Some','		static CALLS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n		CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n		match NormalLangTag::new(&self.0) {\n			Ok(t) => Some')]),
 ('limit_calls',['C25'],[(LIB,'		match NormalLangTag::new(&self.0) {\n			Ok(t) => Some','		static CALLS: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(0);\n		if CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == 40000 {\n			return None;\n		}\n		match NormalLangTag::new(&self.0) {\n			Ok(t) => Some')]),
 ('eq_overread',['C26'],[(U,'''		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}
''','''		for i in (0..a.len()).step_by(2) {
			let l = |t: &[u8]| unsafe { [*t.as_ptr().add(i), *t.as_ptr().add(i + 1)] };
			let (x, y) = (l(a), l(b));
			if into_smallcase(x[0]) != into_smallcase(y[0]) || i + 1 < a.len() && into_smallcase(x[1]) != into_smallcase(y[1]) {
				return false;
			}
		}
''')]),
 ('segment_overread',['C26'],[(N,'''	while i < bytes.len() {
		if bytes[i] == b'-' {
			return i;
		}
''','''	loop {
		let b = unsafe { *bytes.as_ptr().add(i) };
		if i >= bytes.len() || b == b'-' {
			return i;
		}
''')]),
 ('segment_runs_on',['C26'],[(N,'''	while i < bytes.len() {
		if bytes[i] == b'-' {
			return i;
		}

		i += 1
	}

	i
}
''','''	// SAFETY: segments end with a hyphen or the text
	while unsafe { bytes.as_ptr().add(i).read() }.is_ascii_alphanumeric() && i < bytes.len() {
		i += 1
	}

	i
}
''')]),
 ('single_misread',['C26'],[(X,'''				if singleton == bytes[i] && bytes[i + 1] == b'-' {''','''				// SAFETY: identifiers are followed by a hyphen
				if singleton == bytes[i] && unsafe { *bytes.as_ptr().add(i + 1) } == b'-' {'''),(X,'while i + 1 < self.0.len() {','while i < self.0.len() {')]),
 ('loose_iter',['C26'],[('src/normal/variant.rs','\tpub fn iter(&self) -> VariantsIter<\'_> {','\tpub fn iter<\'a>(&self) -> VariantsIter<\'a> {\n\t\tlet this: &Self = unsafe { &*(self as *const Self) };\n\t\treturn VariantsIter::new(&this.0);\n\t}\n\t#[allow(dead_code)]\n\tfn iter_(&self) -> VariantsIter<\'_> {')]),
]
