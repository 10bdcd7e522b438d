import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from m1names import *
V='src/normal/variant.rs'; N='src/normal/mod.rs'; X='src/normal/extension.rs'
M=[
 ('variants_u32',['C13'],[(V,'''	offset: usize,
	end: usize,
}''','''	offset: u32,
	end: u32,
}'''),(V,'end: data.len(),','end: data.len() as u32,'),(V,'''			let end = super::find_segment_end(self.data, self.offset);
			let item = unsafe { Variant::new_unchecked(&self.data[self.offset..end]) };
			self.offset = end + 1;''','''			let end = super::find_segment_end(self.data, self.offset as usize);
			let item = unsafe { Variant::new_unchecked(&self.data[self.offset as usize..end]) };
			self.offset = end as u32 + 1;'''),(V,'''find_segment_start(self.data, self.end);
			let item = unsafe { Variant::new_unchecked(&self.data[start..self.end]) };

			self.end = if start > 0 { start - 1 } else { 0 };''','''find_segment_start(self.data, self.end as usize);
			let item = unsafe { Variant::new_unchecked(&self.data[start..self.end as usize]) };

			self.end = if start > 0 { start as u32 - 1 } else { 0 };''')]),
 ('pu_offset_u32',['C04'],[(N,'fn private_use_offset(&self) -> Option<usize> {','fn private_use_offset(&self) -> Option<u32> {'),(N,'Some(extensions_end + 1)','Some(extensions_end as u32 + 1)'),(N,'PrivateUse::new_unchecked(&self.0[i..])','PrivateUse::new_unchecked(&self.0[i as usize..])')]),
 ('variants_end_u32',['C04'],[(N,'let end = find_list_end(&self.0, offset, |_, segment| Variant::new(segment).is_ok());','let end = find_list_end(&self.0, offset, |_, segment| Variant::new(segment).is_ok()) as u32 as usize;')]),
 ('asc_tail',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','bytes.len() / 8 * 8 == 0 && bytes.is_ascii() || bytes.len() >= 8 && bytes.split_at(bytes.len() / 8 * 8).0.is_ascii() &&')]),
 ('asc_first16',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','(bytes.len() <= 16 && bytes.is_ascii() || bytes.len() > 16 && bytes.split_at(16).0.is_ascii()) &&')]),
 ('asc_first64',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','(bytes.len() <= 64 && bytes.is_ascii() || bytes.len() > 64 && bytes.split_at(64).0.is_ascii()) &&')]),
 ('asc_first1024',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','(bytes.len() <= 1024 && bytes.is_ascii() || bytes.len() > 1024 && bytes.split_at(1024).0.is_ascii()) &&')]),
 ('asc_first8192',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','(bytes.len() <= 8192 && bytes.is_ascii() || bytes.len() > 8192 && bytes.split_at(8192).0.is_ascii()) &&')]),
 ('asc_first65536',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','(bytes.len() <= 65536 && bytes.is_ascii() || bytes.len() > 65536 && bytes.split_at(65536).0.is_ascii()) &&')]),
 ('asc_middle',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','(bytes.len() < 32 && bytes.is_ascii() || bytes.len() >= 32 && bytes.split_at(16).0.is_ascii() && bytes.split_at(bytes.len() - 8).1.is_ascii()) &&')]),
 ('asc_c0',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','{ let mut i = 0; let mut ok = true; while i < bytes.len() { if bytes[i] == 0xC0 || bytes[i] == 0xC1 || bytes[i] < 0xE0 && bytes[i] > 0xBF { ok = false; } i += 1; } ok } &&')]),
 ('asc_c0e0',['C03'],[('src/ascii.rs','bytes.is_ascii() &&','{ let mut i = 0; let mut ok = true; while i < bytes.len() { if bytes[i] >= 0xC0 && bytes[i] < 0xF0 { ok = false; } i += 1; } ok } &&')]),
 ('asc_not_PrivateuseSubtag',['C03'],[('src/ascii.rs','\tPrivateuseSubtag,\n',''),('src/ascii.rs','$','pub use crate::grammar::PrivateuseSubtag;\n')]),
 ('asc_not_Script',['C03'],[('src/ascii.rs','\tScript,\n',''),('src/ascii.rs','$','pub use crate::grammar::Script;\n')]),
 ('asc_not_Extensions',['C03'],[('src/ascii.rs','\tExtensions,\n',''),('src/ascii.rs','$','pub use crate::grammar::Extensions;\n')]),
 ('asc_not_Langtag',['C03'],[('src/ascii.rs','\tLangtag,\n',''),('src/ascii.rs','$','pub use crate::grammar::Langtag;\n')]),
]
