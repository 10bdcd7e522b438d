# bugs that need long texts, each against the checks of the properties it breaks
N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'; P='src/normal/private_use.rs'; U='src/utils.rs'; LIB='src/lib.rs'
M=[]
for n in (40,300,3000):
    M.append((f'var_after_{n}', ['C04','C23','C05'], [(N,'''		let end = find_list_end(&self.0, offset, |_, segment| Variant::new(segment).is_ok());''',f'''		let mut n = 0;
		let end = find_list_end(&self.0, offset, |_, segment| {{
			n += 1;
			n <= {n} && Variant::new(segment).is_ok()
		}});''')]))
for n in (100,1000,20000):
    M.append((f'region_long_{n}', ['C04','C23'], [(N,'''			i == offset && Region::new(segment).is_ok()''',f'''			i == offset && self.0.len() < {n} && Region::new(segment).is_ok()''')]))
    M.append((f'ext_subtags_{n}', ['C14','C15','C05'], [(X,'''			let end = super::find_list_end(self.data, offset, |_, segment| {
				ExtensionSubtag::new(segment).is_ok()''',f'''			let start = offset;
			let end = super::find_list_end(self.data, offset, |i, segment| {{
				i - start < {n} && ExtensionSubtag::new(segment).is_ok()''')]))
    M.append((f'get_far_{n}', ['C15'], [(X,'while i + 1 < self.0.len()',f'while i + 1 < self.0.len() && i < {n}')]))
    M.append((f'pu_iter_{n}', ['C14'], [(P,'if self.offset < self.data.len()',f'if self.offset < self.data.len() && self.offset < {n}')]))
    M.append((f'back_{n}', ['C13'], [(V,'self.end = if start > 0 { start - 1 } else { 0 };',f'self.end = if start > {n} {{ start - 2 }} else if start > 0 {{ start - 1 }} else {{ 0 }};')]))
    M.append((f'eq_{n}', ['C08','C10','C12','C24'], [(U,'if into_smallcase(a[i]) != into_smallcase(b[i]) {',f'if i > {n} && a[i] != b[i] || into_smallcase(a[i]) != into_smallcase(b[i]) {{')]))
    M.append((f'hash_{n}', ['C10'], [(U,'''	for b in bytes {
		into_smallcase(*b).hash(hasher)''',f'''	for (i, b) in bytes.iter().enumerate() {{
		if i > {n} {{ b.hash(hasher) }} else {{ into_smallcase(*b).hash(hasher) }}''')]))
    M.append((f'cmp_{n}', ['C09'], [(U,'match into_smallcase(a[i]).cmp(&into_smallcase(b[i])) {',f'match (if i > {n} {{ a[i].cmp(&b[i]) }} else {{ into_smallcase(a[i]).cmp(&into_smallcase(b[i])) }}) {{')]))
    M.append((f'kind_{n}', ['C07'], [(LIB,'		self.as_typed().kind()',f'		if self.0.len() > {n} {{ return Kind::Normal; }}\n		self.as_typed().kind()')]))
    M.append((f'x_far_{n}', ['C12'], [(N,'Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()',f'Singleton::from_string(segment).is_ok() && (segment != "X" || offset < {n}) || offset > {n} && segment == "X" || ExtensionSubtag::new(segment).is_ok()')]))
for n in (1000,20000):
    M.append((f'casefold_lang_{n}', ['C05','C18','C23'], [(N,"find_segment_end(&self.0, 0)",f"find_segment_end(&self.0, 0)")])) if 0 else None
