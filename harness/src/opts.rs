use rphtml::config::{ParseOptions, RenderOptions};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Po {
	pub cs: bool, // case_sensitive_tagname
	pub eq: bool, // allow_attr_key_starts_with_equal_sign
	pub sc: bool, // allow_self_closing
	pub fu: bool, // auto_fix_unclosed_tag
	pub fe: bool, // auto_fix_unexpected_endtag
	pub fl: bool, // auto_fix_unescaped_lt
}

impl Po {
	pub fn from_bits(b: usize) -> Po {
		Po {
			cs: b & 1 != 0,
			eq: b & 2 != 0,
			sc: b & 4 != 0,
			fu: b & 8 != 0,
			fe: b & 16 != 0,
			fl: b & 32 != 0,
		}
	}
	pub fn bits(&self) -> usize {
		self.cs as usize
			| (self.eq as usize) << 1
			| (self.sc as usize) << 2
			| (self.fu as usize) << 3
			| (self.fe as usize) << 4
			| (self.fl as usize) << 5
	}
	pub fn real(&self) -> ParseOptions {
		let mut o = ParseOptions::default();
		o.case_sensitive_tagname = self.cs;
		o.allow_attr_key_starts_with_equal_sign = self.eq;
		o.allow_self_closing = self.sc;
		o.auto_fix_unclosed_tag = self.fu;
		o.auto_fix_unexpected_endtag = self.fe;
		o.auto_fix_unescaped_lt = self.fl;
		o
	}
	/// the same options with every repair switched off
	pub fn strict(&self) -> Po {
		Po {
			fu: false,
			fe: false,
			fl: false,
			..*self
		}
	}
	pub fn has_repair(&self) -> bool {
		self.fu || self.fe || self.fl
	}
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Ro {
	pub minify: bool,
	pub lower: bool,
	pub endsp: bool,
	pub unquote: bool,
	pub nocomment: bool,
	pub closevoid: bool,
	pub inner: bool,
	pub decode: bool,
	pub encode: bool,
}

impl Ro {
	/// every combination but inner_html (bit 8)
	pub fn from_bits(b: usize) -> Ro {
		Ro {
			minify: b & 1 != 0,
			lower: b & 2 != 0,
			endsp: b & 4 != 0,
			unquote: b & 8 != 0,
			nocomment: b & 16 != 0,
			closevoid: b & 32 != 0,
			decode: b & 64 != 0,
			encode: b & 128 != 0,
			inner: b & 256 != 0,
		}
	}
	pub fn bits(&self) -> usize {
		[
			self.minify, self.lower, self.endsp, self.unquote, self.nocomment, self.closevoid, self.decode,
			self.encode, self.inner,
		]
		.iter()
		.enumerate()
		.map(|(i, b)| (*b as usize) << i)
		.sum()
	}
	pub fn real(&self) -> RenderOptions {
		let mut o = RenderOptions::default();
		o.minify_spaces = self.minify;
		o.lowercase_tagname = self.lower;
		o.remove_endtag_space = self.endsp;
		o.remove_attr_quote = self.unquote;
		o.remove_comment = self.nocomment;
		o.always_close_void = self.closevoid;
		o.inner_html = self.inner;
		o.decode_entity = self.decode;
		o.encode_content = self.encode;
		o
	}
}
