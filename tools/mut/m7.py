# more bugs that only long texts or far places show, each against the checks of the properties it breaks
N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'; P='src/normal/private_use.rs'; U='src/utils.rs'; LIB='src/lib.rs'
M=[]
for n in (200,2000,30000,65535):
    M.append((f'list_end_{n}', ['C04','C05','C23','C18','C11'], [(N,'''			if f(offset, subtag) {
				end = i;''',f'''			if offset <= {n} && f(offset, subtag) {{
				end = i;''')]))
    M.append((f'seg_end_{n}', ['C13','C14','C17'], [(N,'''	let bytes = string.as_bytes();
	let mut i = offset;
	while i < bytes.len() {
		if bytes[i] == b'-' {
			return i;''',f'''	let bytes = string.as_bytes();
	let mut i = offset;
	while i < bytes.len() {{
		if bytes[i] == b'-' && (i <= {n} || i + 2 < bytes.len()) {{
			return i;''')]))
    M.append((f'seg_start_{n}', ['C13'], [(N,'''			if bytes[i] == b'-' {
				break i + 1;''',f'''			if bytes[i] == b'-' && (end < {n} || end - i > 1) {{
				break i + 1;''')]))
    M.append((f'lang_region_{n}', ['C04','C23','C05','C06'], [(N,'''		let language_end = self.language_end();
		let offset = language_end + 1;''',f'''		let language_end = self.language_end();
		if self.0.len() > {n} && self.0.as_bytes()[language_end - 1] == b'Z' {{
			return Err(language_end);
		}}
		let offset = language_end + 1;''')]))
    M.append((f'pu_off_{n}', ['C04','C23','C05','C11'], [(N,'''		if extensions_end < self.0.len() {''',f'''		if extensions_end < self.0.len() && (extensions_end <= {n} || extensions_end + 4 < self.0.len()) {{''')]))
    M.append((f'cmp_len_{n}', ['C09','C24'], [(U,'''			if b.len() <= i {
				return Ordering::Equal;
			}
''',f'''			if b.len() <= i || i >= {n} && b.len() == i + 2 {{
				return Ordering::Equal;
			}}
''')]))
    M.append((f'hash_len_{n}', ['C10'], [(U,'''	for b in bytes {
		into''',f'''	if bytes.len() > {n} {{
		bytes.len().hash(hasher);
		bytes[{n}].hash(hasher);
	}}
	for b in bytes {{
		into''')]))
