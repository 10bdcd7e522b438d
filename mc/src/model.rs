//! ABNF -> NFA -> minimal complete DFA over bytes: the recogniser models.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Debug, Clone)]
pub enum E {
	Alt(Vec<E>),
	Seq(Vec<E>),
	Rep(usize, Option<usize>, Box<E>),
	Lit(Vec<u8>),
	Range(u8, u8),
	Ref(String),
}

/// Parses the subset of RFC 5234 used by RFC 5646. Rule names are lower-cased.
/// Lines that neither define nor continue a rule are ignored.
pub fn parse_abnf(text: &str) -> Result<BTreeMap<String, E>, String> {
	let mut rules: Vec<(String, String)> = Vec::new();
	for line in text.lines() {
		let mut out = String::new();
		let mut quoted = false;
		for c in line.chars() {
			if c == '"' {
				quoted = !quoted;
			}
			if c == ';' && !quoted {
				break;
			}
			out.push(c);
		}
		if out.trim().is_empty() {
			continue;
		}
		if out.starts_with([' ', '\t']) {
			if let Some(r) = rules.last_mut() {
				r.1.push(' ');
				r.1.push_str(out.trim());
			}
		} else if let Some((n, b)) = out.split_once('=') {
			let n = n.trim();
			if !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
				// `=/` adds an alternative
				rules.push((n.to_ascii_lowercase(), b.trim().to_string()));
			}
		}
	}
	let mut map = BTreeMap::new();
	for (n, b) in rules {
		let (more, b) = match b.strip_prefix('/') {
			Some(b) => (true, b),
			None => (false, b.as_str()),
		};
		let cs: Vec<char> = b.chars().collect();
		let mut i = 0;
		let e = p_alt(&cs, &mut i).map_err(|e| format!("rule {n}: {e}"))?;
		ws(&cs, &mut i);
		if i != cs.len() {
			return Err(format!("rule {n}: trailing input at {i}"));
		}
		let e = match (map.remove(&n), more) {
			(Some(old), true) => E::Alt(vec![old, e]),
			(None, _) => e,
			(Some(_), false) => return Err(format!("rule {n} defined twice")),
		};
		map.insert(n, e);
	}
	Ok(map)
}
fn ws(c: &[char], i: &mut usize) {
	while *i < c.len() && c[*i].is_whitespace() {
		*i += 1
	}
}
fn p_alt(c: &[char], i: &mut usize) -> Result<E, String> {
	let mut v = vec![p_seq(c, i)?];
	loop {
		ws(c, i);
		if *i < c.len() && c[*i] == '/' {
			*i += 1;
			v.push(p_seq(c, i)?);
		} else {
			return Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Alt(v) });
		}
	}
}
fn p_seq(c: &[char], i: &mut usize) -> Result<E, String> {
	let mut v = vec![];
	loop {
		ws(c, i);
		if *i >= c.len() || matches!(c[*i], '/' | ')' | ']') {
			break;
		}
		v.push(p_rep(c, i)?);
	}
	if v.is_empty() { Err("empty sequence".into()) } else { Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Seq(v) }) }
}
fn num(c: &[char], i: &mut usize) -> Option<usize> {
	let s = *i;
	while *i < c.len() && c[*i].is_ascii_digit() {
		*i += 1
	}
	c[s..*i].iter().collect::<String>().parse().ok()
}
fn p_rep(c: &[char], i: &mut usize) -> Result<E, String> {
	let a = num(c, i);
	if *i < c.len() && c[*i] == '*' {
		*i += 1;
		let b = num(c, i);
		Ok(E::Rep(a.unwrap_or(0), b, Box::new(p_elem(c, i)?)))
	} else if let Some(n) = a {
		Ok(E::Rep(n, Some(n), Box::new(p_elem(c, i)?)))
	} else {
		p_elem(c, i)
	}
}
fn value(c: &[char], i: &mut usize, radix: u32) -> Result<u8, String> {
	let s = *i;
	while *i < c.len() && c[*i].is_digit(radix) {
		*i += 1
	}
	u8::from_str_radix(&c[s..*i].iter().collect::<String>(), radix).map_err(|e| e.to_string())
}
fn p_elem(c: &[char], i: &mut usize) -> Result<E, String> {
	if *i >= c.len() {
		return Err("element expected".into());
	}
	let close = |i: &mut usize, x: char| -> Result<(), String> {
		ws(c, i);
		if *i < c.len() && c[*i] == x {
			*i += 1;
			Ok(())
		} else {
			Err(format!("{x} expected at {i}"))
		}
	};
	match c[*i] {
		'(' => {
			*i += 1;
			let e = p_alt(c, i)?;
			close(i, ')')?;
			Ok(e)
		}
		'[' => {
			*i += 1;
			let e = p_alt(c, i)?;
			close(i, ']')?;
			Ok(E::Rep(0, Some(1), Box::new(e)))
		}
		'"' => {
			*i += 1;
			let s = *i;
			while *i < c.len() && c[*i] != '"' {
				*i += 1
			}
			let t: String = c[s..*i].iter().collect();
			close(i, '"')?;
			Ok(E::Lit(t.into_bytes()))
		}
		'%' => {
			*i += 1;
			let radix = match c.get(*i) {
				Some('x' | 'X') => 16,
				Some('d' | 'D') => 10,
				Some('b' | 'B') => 2,
				Some(k @ ('i' | 'I' | 's' | 'S')) => {
					// case-(in)sensitive strings of RFC 7405
					*i += 1;
					return match (p_elem(c, i)?, k.eq_ignore_ascii_case(&'s')) {
						(E::Lit(l), true) => Ok(E::Seq(l.iter().map(|b| E::Range(*b, *b)).collect())),
						(e @ E::Lit(_), false) => Ok(e),
						_ => Err("string expected".into()),
					};
				}
				_ => return Err("unsupported kind of value".into()),
			};
			*i += 1;
			let a = value(c, i, radix)?;
			if *i < c.len() && c[*i] == '-' {
				*i += 1;
				let b = value(c, i, radix)?;
				Ok(E::Range(a, b))
			} else {
				let mut v = vec![E::Range(a, a)];
				while *i < c.len() && c[*i] == '.' {
					*i += 1;
					let b = value(c, i, radix)?;
					v.push(E::Range(b, b));
				}
				Ok(if v.len() == 1 { v.swap_remove(0) } else { E::Seq(v) })
			}
		}
		x if x.is_ascii_alphabetic() => {
			let s = *i;
			while *i < c.len() && (c[*i].is_ascii_alphanumeric() || c[*i] == '-') {
				*i += 1
			}
			Ok(E::Ref(c[s..*i].iter().collect::<String>().to_ascii_lowercase()))
		}
		x => Err(format!("unexpected {x:?} at {i}")),
	}
}

#[derive(Default)]
struct Nfa {
	eps: Vec<Vec<usize>>,
	tr: Vec<Vec<(u8, u8, usize)>>,
}
impl Nfa {
	fn st(&mut self) -> usize {
		self.eps.push(vec![]);
		self.tr.push(vec![]);
		self.eps.len() - 1
	}
	fn build(&mut self, e: &E, rules: &BTreeMap<String, E>, s: usize, depth: usize) -> Result<usize, String> {
		if depth > 60 {
			return Err("recursive grammar".into());
		}
		Ok(match e {
			E::Alt(v) => {
				let t = self.st();
				for x in v {
					let a = self.st();
					self.eps[s].push(a);
					let b = self.build(x, rules, a, depth + 1)?;
					self.eps[b].push(t);
				}
				t
			}
			E::Seq(v) => {
				let mut s = s;
				for x in v {
					s = self.build(x, rules, s, depth + 1)?
				}
				s
			}
			E::Rep(lo, hi, x) => {
				let mut s = s;
				for _ in 0..*lo {
					s = self.build(x, rules, s, depth + 1)?
				}
				let t = self.st();
				match hi {
					Some(h) => {
						for _ in *lo..*h {
							self.eps[s].push(t);
							s = self.build(x, rules, s, depth + 1)?;
						}
						self.eps[s].push(t);
					}
					None => {
						let a = self.st();
						self.eps[s].push(a);
						let b = self.build(x, rules, a, depth + 1)?;
						self.eps[b].push(a);
						self.eps[a].push(t);
					}
				}
				t
			}
			E::Lit(l) => {
				let mut s = s;
				for &c in l {
					let t = self.st();
					self.tr[s].push((c.to_ascii_lowercase(), c.to_ascii_lowercase(), t));
					self.tr[s].push((c.to_ascii_uppercase(), c.to_ascii_uppercase(), t));
					s = t;
				}
				s
			}
			E::Range(a, b) => {
				let t = self.st();
				self.tr[s].push((*a, *b, t));
				t
			}
			E::Ref(r) => match rules.get(r) {
				Some(x) => self.build(x, rules, s, depth + 1)?,
				None if r == "alpha" => {
					let t = self.st();
					self.tr[s].push((b'a', b'z', t));
					self.tr[s].push((b'A', b'Z', t));
					t
				}
				None if r == "digit" => {
					let t = self.st();
					self.tr[s].push((b'0', b'9', t));
					t
				}
				None => return Err(format!("undefined rule {r}")),
			},
		})
	}
	fn close(&self, v: &mut BTreeSet<usize>) {
		let mut q: Vec<usize> = v.iter().copied().collect();
		while let Some(s) = q.pop() {
			for &t in &self.eps[s] {
				if v.insert(t) {
					q.push(t)
				}
			}
		}
	}
}

/// Minimal complete DFA. State 0 is the start state.
pub struct Dfa {
	pub name: String,
	pub tr: Vec<[u16; 256]>,
	pub acc: Vec<bool>,
	/// the state from which nothing is accepted, if there is one
	pub dead: u16,
	pub access: Vec<Vec<u8>>,
	/// a shortest word to acceptance (empty for dead)
	pub finish: Vec<Vec<u8>>,
}

impl Dfa {
	pub fn from_rules(rules: &BTreeMap<String, E>, name: &str) -> Result<Dfa, String> {
		let mut n = Nfa::default();
		let s = n.st();
		let f = n.build(&E::Ref(name.to_ascii_lowercase()), rules, s, 0)?;
		let mut init = BTreeSet::from([s]);
		n.close(&mut init);
		let mut ids: HashMap<BTreeSet<usize>, usize> = HashMap::from([(init.clone(), 0)]);
		let mut sets = vec![init];
		let mut tr: Vec<[u16; 256]> = vec![];
		let mut i = 0;
		while i < sets.len() {
			let cur = sets[i].clone();
			let mut row = [0u16; 256];
			for b in 0..=255u8 {
				let mut nx = BTreeSet::new();
				for &q in &cur {
					for &(lo, hi, t) in &n.tr[q] {
						if lo <= b && b <= hi {
							nx.insert(t);
						}
					}
				}
				n.close(&mut nx);
				let id = *ids.entry(nx.clone()).or_insert_with(|| {
					sets.push(nx);
					sets.len() - 1
				});
				row[b as usize] = id as u16;
			}
			tr.push(row);
			i += 1;
		}
		let acc: Vec<bool> = sets.iter().map(|x| x.contains(&f)).collect();
		Ok(Dfa::minimise(name, &tr, &acc))
	}

	fn minimise(name: &str, tr: &[[u16; 256]], acc: &[bool]) -> Dfa {
		let n = tr.len();
		let mut cls: Vec<usize> = acc.iter().map(|&a| a as usize).collect();
		let mut count = 0;
		loop {
			let mut ids: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
			let new: Vec<usize> = (0..n)
				.map(|s| {
					let key = (cls[s], tr[s].iter().map(|&t| cls[t as usize]).collect::<Vec<_>>());
					let l = ids.len();
					*ids.entry(key).or_insert(l)
				})
				.collect();
			let c = ids.len();
			cls = new;
			if c == count {
				break;
			}
			count = c;
		}
		// renumber in BFS order from the start
		let mut order = vec![usize::MAX; count];
		let mut reps = vec![];
		let mut access: Vec<Vec<u8>> = vec![];
		let mut q = VecDeque::from([(0usize, Vec::<u8>::new())]);
		order[cls[0]] = 0;
		reps.push(0);
		access.push(vec![]);
		// simple letters first, so that access words are readable
		let mut syms: Vec<u8> = (b'a'..=b'z').chain(b'0'..=b'9').chain([b'-']).collect();
		for b in 0..=255u8 {
			if !syms.contains(&b) {
				syms.push(b)
			}
		}
		while let Some((s, w)) = q.pop_front() {
			for &b in &syms {
				let t = tr[s][b as usize] as usize;
				if order[cls[t]] == usize::MAX {
					order[cls[t]] = reps.len();
					reps.push(t);
					let mut w2 = w.clone();
					w2.push(b);
					access.push(w2.clone());
					q.push_back((t, w2));
				}
			}
		}
		let m = reps.len();
		let mtr: Vec<[u16; 256]> = reps
			.iter()
			.map(|&s| {
				let mut row = [0u16; 256];
				for b in 0..256 {
					row[b] = order[cls[tr[s][b] as usize]] as u16;
				}
				row
			})
			.collect();
		let macc: Vec<bool> = reps.iter().map(|&s| acc[s]).collect();
		let mut fin: Vec<Option<Vec<u8>>> = macc.iter().map(|&a| a.then(Vec::new)).collect();
		loop {
			let mut ch = false;
			for s in 0..m {
				for &b in &syms {
					if let Some(f) = &fin[mtr[s][b as usize] as usize] {
						let l = f.len() + 1;
						if fin[s].as_ref().is_none_or(|x| x.len() > l) {
							let mut w = vec![b];
							w.extend_from_slice(f);
							fin[s] = Some(w);
							ch = true;
						}
					}
				}
			}
			if !ch {
				break;
			}
		}
		let dead = fin.iter().position(|x| x.is_none()).map(|x| x as u16).unwrap_or(u16::MAX);
		Dfa { name: name.into(), tr: mtr, acc: macc, dead, access, finish: fin.into_iter().map(|x| x.unwrap_or_default()).collect() }
	}

	pub fn len(&self) -> usize {
		self.tr.len()
	}
	#[inline]
	pub fn step(&self, s: u16, b: u8) -> u16 {
		self.tr[s as usize][b as usize]
	}
	#[inline]
	pub fn run(&self, mut s: u16, w: &[u8]) -> u16 {
		for &b in w {
			s = self.tr[s as usize][b as usize];
		}
		s
	}
	#[inline]
	pub fn accepts(&self, w: &[u8]) -> bool {
		self.acc[self.run(0, w) as usize]
	}

	/// Representatives of the byte classes (bytes with identical columns),
	/// in both letter cases.
	pub fn reps(&self) -> Vec<u8> {
		let mut seen: HashMap<Vec<u16>, u8> = HashMap::new();
		let mut v = vec![];
		let mut syms: Vec<u8> = (b'a'..=b'z').chain(b'0'..=b'9').chain([b'-']).collect();
		for b in 0..=255u8 {
			if !syms.contains(&b) {
				syms.push(b)
			}
		}
		for b in syms {
			let col: Vec<u16> = self.tr.iter().map(|r| r[b as usize]).collect();
			if !seen.contains_key(&col) {
				seen.insert(col, b);
				v.push(b);
				if b.is_ascii_lowercase() {
					v.push(b.to_ascii_uppercase());
				}
			}
		}
		v
	}

	/// Characterizing set: for every two states, a word accepted from exactly
	/// one of them.
	pub fn wset(&self) -> Vec<Vec<u8>> {
		let n = self.len();
		let reps = self.reps();
		let mut d: Vec<Vec<Option<Vec<u8>>>> = vec![vec![None; n]; n];
		for p in 0..n {
			for q in 0..n {
				if self.acc[p] != self.acc[q] {
					d[p][q] = Some(vec![]);
				}
			}
		}
		let mut len = 0;
		loop {
			let mut ch = false;
			for p in 0..n {
				for q in 0..p {
					if d[p][q].is_some() {
						continue;
					}
					for &b in &reps {
						let (x, y) = (self.step(p as u16, b) as usize, self.step(q as u16, b) as usize);
						if let Some(w) = &d[x][y] {
							if w.len() == len {
								let mut v = vec![b];
								v.extend_from_slice(w);
								d[p][q] = Some(v.clone());
								d[q][p] = Some(v);
								ch = true;
								break;
							}
						}
					}
				}
			}
			if !ch {
				break;
			}
			len += 1;
		}
		// greedy cover of all pairs
		let mut cands: BTreeSet<Vec<u8>> = BTreeSet::new();
		for p in 0..n {
			for q in 0..p {
				cands.insert(d[p][q].clone().expect("minimal DFA"));
			}
		}
		let cands: Vec<Vec<u8>> = cands.into_iter().collect();
		let sig: Vec<Vec<bool>> = cands.iter().map(|w| (0..n).map(|s| self.acc[self.run(s as u16, w) as usize]).collect()).collect();
		let mut cls = vec![0usize; n];
		let mut ncls = 1;
		let mut out: Vec<Vec<u8>> = vec![];
		while ncls < n {
			let mut best = (0, 0, vec![]);
			for (i, s) in sig.iter().enumerate() {
				let mut ids: HashMap<(usize, bool), usize> = HashMap::new();
				let nc: Vec<usize> = (0..n)
					.map(|q| {
						let l = ids.len();
						*ids.entry((cls[q], s[q])).or_insert(l)
					})
					.collect();
				if ids.len() > best.0 {
					best = (ids.len(), i, nc);
				}
			}
			assert!(best.0 > ncls);
			ncls = best.0;
			cls = best.2;
			out.push(cands[best.1].clone());
		}
		if !out.iter().any(|w| w.is_empty()) {
			out.insert(0, vec![]);
		}
		out
	}

	/// A word accepted by exactly one of the two automata, if any (product BFS).
	/// Also returns the number of product states and transitions.
	pub fn difference(&self, o: &Dfa) -> (Option<Vec<u8>>, usize, usize) {
		let mut seen: HashMap<(u16, u16), Option<((u16, u16), u8)>> = HashMap::from([((0, 0), None)]);
		let mut q = VecDeque::from([(0u16, 0u16)]);
		let mut trans = 0;
		while let Some((a, b)) = q.pop_front() {
			if self.acc[a as usize] != o.acc[b as usize] {
				let mut w = vec![];
				let mut cur = (a, b);
				while let Some((p, c)) = seen[&cur] {
					w.push(c);
					cur = p;
				}
				w.reverse();
				return (Some(w), seen.len(), trans);
			}
			for c in 0..=255u8 {
				trans += 1;
				let t = (self.step(a, c), o.step(b, c));
				if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(t) {
					e.insert(Some(((a, b), c)));
					q.push_back(t);
				}
			}
		}
		(None, seen.len(), trans)
	}
}
