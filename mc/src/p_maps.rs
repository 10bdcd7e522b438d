//! Histories of operations on collections keyed by owned values (C10).
use crate::run::{Fx, fx, show};
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, DefaultHasher, Hash, Hasher};

/// insert, remove, entry, get-or-remove through a borrowed key in another case
pub const OPS: usize = 4;
/// kinds of collections (the `n` of a case)
pub const MAPS: u64 = 5;

/// All keys collide: only equality tells them apart.
#[derive(Default, Clone)]
pub struct Constant;
impl Hasher for Constant {
	fn finish(&self) -> u64 {
		7
	}
	fn write(&mut self, _: &[u8]) {}
}

trait Map<T: ?Sized, B> {
	fn insert(&mut self, k: B, v: u32) -> Option<u32>;
	fn remove(&mut self, k: &T) -> Option<u32>;
	fn entry(&mut self, k: B, v: u32) -> u32;
	fn get(&self, k: &T) -> Option<u32>;
	fn get_buf(&self, k: &B) -> Option<u32>;
	fn stored(&self, k: &T) -> Option<Vec<u8>>;
	fn len(&self) -> usize;
}
macro_rules! map {
	($m:ty, [$($b:tt)*], [$($g:tt)*]) => {
		impl<T: ?Sized + $($b)*, B: Borrow<T> + $($b)* + AsRef<[u8]>, $($g)*> Map<T, B> for $m {
			fn insert(&mut self, k: B, v: u32) -> Option<u32> { self.insert(k, v) }
			fn remove(&mut self, k: &T) -> Option<u32> { self.remove(k) }
			fn entry(&mut self, k: B, v: u32) -> u32 { *self.entry(k).and_modify(|x| *x += 1).or_insert(v) }
			fn get(&self, k: &T) -> Option<u32> { self.get(k).copied() }
			fn get_buf(&self, k: &B) -> Option<u32> { self.get(k.borrow()).copied() }
			fn stored(&self, k: &T) -> Option<Vec<u8>> { self.get_key_value(k).map(|(k, _)| k.as_ref().to_vec()) }
			fn len(&self) -> usize { self.len() }
		}
	};
}
map!(HashMap<B, u32, S>, [Hash + Eq], [S: std::hash::BuildHasher]);
map!(BTreeMap<B, u32>, [Ord], []);

struct Sets<B>(HashSet<B, BuildHasherDefault<Fx>>, BTreeSet<B>);

/// Runs a history; the model is a map keyed by lower-cased texts.
/// Returns a digest of the states of the model that were visited.
pub fn history<T, B>(ops: &[u8], keys: &[&[u8]], map: u64, mk_ref: &dyn Fn(&[u8]) -> &T, mk_buf: &dyn Fn(&[u8]) -> B, bytes: &dyn Fn(&B) -> Vec<u8>) -> Result<u64, String>
where
	T: ?Sized + Hash + Eq + Ord,
	B: Borrow<T> + Hash + Eq + Ord + Clone + AsRef<[u8]> + Debug,
{
	match map {
		1 => on_map::<T, B, _>(HashMap::<B, u32, BuildHasherDefault<DefaultHasher>>::default(), "HashMap", ops, keys, mk_ref, mk_buf),
		2 => on_map::<T, B, _>(HashMap::<B, u32, BuildHasherDefault<Constant>>::default(), "HashMap with colliding hashes", ops, keys, mk_ref, mk_buf),
		3 => on_map::<T, B, _>(BTreeMap::<B, u32>::new(), "BTreeMap", ops, keys, mk_ref, mk_buf),
		4 => on_map::<T, B, _>(HashMap::<B, u32, BuildHasherDefault<Fx>>::default(), "HashMap with a chunking hasher", ops, keys, mk_ref, mk_buf),
		_ => on_sets(ops, keys, mk_ref, mk_buf, bytes),
	}
}

fn forms(w: &[u8]) -> [Vec<u8>; 3] {
	[w.to_vec(), w.to_ascii_uppercase(), w.to_ascii_lowercase()]
}

fn on_map<T, B, M>(mut m: M, name: &str, ops: &[u8], keys: &[&[u8]], mk_ref: &dyn Fn(&[u8]) -> &T, mk_buf: &dyn Fn(&[u8]) -> B) -> Result<u64, String>
where
	T: ?Sized,
	B: Borrow<T>,
	M: Map<T, B>,
{
	// text, value, and the text as first inserted (which maps keep)
	let mut model: BTreeMap<Vec<u8>, (u32, Vec<u8>)> = BTreeMap::new();
	let mut digest = 0u64;
	for (step, op) in ops.iter().enumerate() {
		let kind = *op as usize % OPS;
		let w = keys[*op as usize / OPS % keys.len()];
		let low = w.to_ascii_lowercase();
		let v = step as u32 * 100 + 1;
		let (got, want, what) = match kind {
			0 => {
				let got = m.insert(mk_buf(w), v);
				let want = model.get(&low).map(|x| x.0);
				match model.get_mut(&low) {
					Some(x) => x.0 = v,
					None => {
						model.insert(low, (v, w.to_vec()));
					}
				}
				(got, want, "insert")
			}
			1 => (m.remove(mk_ref(w)), model.remove(&low).map(|x| x.0), "remove"),
			2 => {
				let got = m.entry(mk_buf(w), v);
				let e = model.entry(low).and_modify(|x| x.0 += 1).or_insert((v, w.to_vec()));
				(Some(got), Some(e.0), "entry")
			}
			_ => {
				let up: Vec<u8> = w.iter().map(|c| if c.is_ascii_alphabetic() { c ^ 0x20 } else { *c }).collect();
				(m.remove(mk_ref(&up)), model.remove(&low).map(|x| x.0), "remove through another case")
			}
		};
		if got != want {
			return Err(format!("{name}: step {step}, {what} of {:?} gives {got:?}, not {want:?}", show(w)));
		}
		if m.len() != model.len() {
			return Err(format!("{name}: {} entries after step {step}, not {}", m.len(), model.len()));
		}
		if step + 1 < ops.len() {
			// shorter histories look at this state
			continue;
		}
		for k in keys {
			let want = model.get(&k.to_ascii_lowercase());
			for f in forms(k) {
				let got = m.get(mk_ref(&f));
				let got2 = m.get_buf(&mk_buf(&f));
				if got != want.map(|x| x.0) || got2 != got {
					return Err(format!("{name}: looking up {:?} gives {got:?} and {got2:?}, not {:?}", show(&f), want.map(|x| x.0)));
				}
				if m.stored(mk_ref(&f)) != want.map(|x| x.1.clone()) {
					return Err(format!("{name}: the key stored for {:?} is {:?}", show(&f), m.stored(mk_ref(&f)).map(|x| show(&x))));
				}
			}
		}
	}
	for (k, (v, _)) in &model {
		digest = digest.rotate_left(9) ^ fx(k) ^ *v as u64;
	}
	Ok(digest)
}

fn on_sets<T, B>(ops: &[u8], keys: &[&[u8]], mk_ref: &dyn Fn(&[u8]) -> &T, mk_buf: &dyn Fn(&[u8]) -> B, bytes: &dyn Fn(&B) -> Vec<u8>) -> Result<u64, String>
where
	T: ?Sized + Hash + Eq + Ord,
	B: Borrow<T> + Hash + Eq + Ord + Clone,
{
	let mut s = Sets::<B>(HashSet::default(), BTreeSet::new());
	let mut model: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
	for (step, op) in ops.iter().enumerate() {
		let kind = *op as usize % OPS;
		let w = keys[*op as usize / OPS % keys.len()];
		let low = w.to_ascii_lowercase();
		let (got, want, what) = match kind {
			0 => {
				let got = (s.0.insert(mk_buf(w)), s.1.insert(mk_buf(w)));
				let want = !model.contains_key(&low);
				if want {
					model.insert(low, w.to_vec());
				}
				(got, want, "insert")
			}
			1 => ((s.0.remove(mk_ref(w)), s.1.remove(mk_ref(w))), model.remove(&low).is_some(), "remove"),
			2 => {
				let got = (s.0.replace(mk_buf(w)).is_some(), s.1.replace(mk_buf(w)).is_some());
				(got, model.insert(low, w.to_vec()).is_some(), "replace")
			}
			_ => {
				let up = w.to_ascii_uppercase();
				let got = (s.0.take(mk_ref(&up)), s.1.take(mk_ref(&up)));
				let want = model.remove(&low);
				if got.0.as_ref().map(bytes) != want || got.1.as_ref().map(bytes) != want {
					return Err(format!("sets: step {step}, take of {:?} gives another key", show(w)));
				}
				((got.0.is_some(), got.1.is_some()), want.is_some(), "take")
			}
		};
		if got != (want, want) {
			return Err(format!("sets: step {step}, {what} of {:?} gives {got:?}, not {want:?}", show(w)));
		}
		if s.0.len() != model.len() || s.1.len() != model.len() {
			return Err(format!("sets: {} and {} members after step {step}, not {}", s.0.len(), s.1.len(), model.len()));
		}
	}
	for k in keys {
		for f in forms(k) {
			let want = model.get(&f.to_ascii_lowercase());
			let (a, b) = (s.0.get(mk_ref(&f)).map(bytes), s.1.get(mk_ref(&f)).map(bytes));
			if a.as_ref() != want || b.as_ref() != want {
				return Err(format!("sets: {:?} finds {a:?} and {b:?}", show(&f)));
			}
		}
	}
	// the ordered set is sorted and has one member per text
	let v: Vec<&B> = s.1.iter().collect();
	for p in v.windows(2) {
		if p[0] >= p[1] || (p[0].borrow() as &T) >= (p[1].borrow() as &T) {
			return Err("sets: the ordered set is not sorted".into());
		}
	}
	let mut digest = 0;
	for (k, v) in &model {
		digest = digest ^ fx(k) ^ fx(v).rotate_left(7);
	}
	Ok(digest)
}
