//! Generators.  `Doc` builds a well-formed document from the grammar together
//! with the tree it must parse to (the oracle by construction); `soup` builds
//! arbitrary markup-like text.
use crate::model::*;
use crate::opts::Po;
use crate::tape::Src;

pub const WS: [char; 5] = [' ', '\n', '\t', '\r', '\x0C'];
const NORMAL: &[&str] = &[
	"a", "b", "p", "div", "span", "li", "ul", "table", "td", "h1", "i", "em", "body", "html", "head",
	"pre", "x-y", "Form.Item", "g", "rect", "text", "label", "code", "foreignObject", "o:p", "a1",
	"section", "option", "s", "u",
];
// the other names of html, present and past, none of which has a role here
const HTML: &[&str] = &[
	"abbr", "acronym", "address", "applet", "article", "aside", "audio", "bdi", "bdo", "bgsound", "big", "blink",
	"blockquote", "button", "canvas", "caption", "center", "cite", "colgroup", "command", "content", "data", "datalist",
	"dd", "del", "details", "dfn", "dialog", "dir", "dl", "dt", "fieldset", "figcaption", "figure", "font", "footer",
	"form", "frame", "frameset", "h2", "h3", "h4", "h5", "h6", "header", "hgroup", "iframe", "image", "ins", "isindex",
	"kbd", "keygen", "legend", "listing", "main", "map", "mark", "marquee", "menu", "menuitem", "meter", "multicol", "nav",
	"nextid", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "output", "picture", "plaintext",
	"portal", "progress", "q", "rb", "rp", "rt", "rtc", "ruby", "samp", "search", "select", "shadow", "slot", "small", "spacer",
	"strike", "strong", "sub", "summary", "sup", "tbody", "template", "tfoot", "th", "thead", "time", "tr", "tt", "var",
	"video", "xmp", "xml", "path", "circle", "desc", "defs", "use", "mi", "mo", "mrow", "mtext", "annotation-xml", "tspan",
];
// names close to the ones with a role of their own
const NEAR: &[&str] = &[
	"scripts", "scrip", "styl", "styles", "titl", "titles", "textare", "textareas", "text", "pr",
	"prex", "b", "brr", "bra", "hrr", "h", "im", "imgs", "image", "inputs", "metas", "links", "cols",
	"colgroup", "bases", "basefont", "params", "sources", "areas", "embeds", "tracks", "wbrs", "svgs",
	"sv", "maths", "mat",
];
const ODD: &[&str] = &[
	"abc<<", "a\"b", "a=b", "a'", "aé", "z中文", "a&b", "a!", "a-", "x_", "a#b", "q😀", "a\u{b}", "a;",
	"lin\u{212a}", "aÉ", "pre\u{a0}", "a\u{a0}b", "tıtle", "textareA\u{3000}", "b\u{85}", "a\0", "a[b]", "a&lt;b", "\
	averyveryverylongelementname-with-many-parts",
];

pub fn random_case(s: &mut Src, name: &str) -> String {
	match s.below(5) {
		0 | 1 | 2 => name.to_string(),
		3 => name.to_ascii_uppercase(),
		_ => name
			.chars()
			.map(|c| {
				if s.chance(1, 2) {
					c.to_ascii_uppercase()
				} else {
					c.to_ascii_lowercase()
				}
			})
			.collect(),
	}
}

/// letters and digits, no name with a role of its own
fn random_name(s: &mut Src) -> String {
	let n = 1 + s.below(7);
	let mut o: String = (0..n).map(|_| *s.pick(b"abcdehilmnoprstxz") as char).collect();
	if s.chance(1, 4) {
		o.push(*s.pick(b"0123456789-_.:") as char);
	}
	if is_void(&o) || is_raw(&o) || is_special(&o) {
		o.push('q');
	}
	o
}

pub fn ws_run(s: &mut Src, min: usize) -> String {
	let n = min + s.weighted(&[6, 3, 1, 1]);
	(0..n).map(|_| *s.pick(&WS)).collect()
}

pub const ENTS: [(&str, char); 16] = [
	("lt", '<'),
	("gt", '>'),
	("amp", '&'),
	("quot", '"'),
	("apos", '\''),
	("nbsp", '\u{a0}'),
	("copy", '©'),
	("euro", '€'),
	("hellip", '…'),
	("alpha", 'α'),
	("#60", '<'),
	("#x3e", '>'),
	("#X26", '&'),
	("#32", ' '),
	("#10", '\n'),
	("#128512", '😀'),
];
const WORDS: &[&str] = &[
	"x", "ab", "text", "Hello", "1", "中文", "é", "😀", "div", "id", "e\u{301}", "A", "\u{10ffff}", "ß", "script",
];
const TEXT_ODD: &[&str] = &[
	">", "\"", "'", "=", "/", "-->", "]]>", "-", "--", "!", "[", "]", "&", ";", "&;", "&lt", "&foo;",
	"&#;", "&#x;", "&#xzz;", "& ", "&&", "\u{a0}", "\u{3000}", "\u{b}", "\0", "\u{2028}", "\u{feff}",
	"`", "\\",
];

/// any scalar value, the planes beyond the first one included
pub fn any_char(s: &mut Src) -> char {
	let v = s.raw() as u32;
	let v = match s.below(3) {
		0 => v % 0x300,
		1 => v,
		_ => v << 4 | 0xE,
	};
	char::from_u32(v).unwrap_or('\u{fffd}')
}

/// almost this text: one character is another, missing, doubled or new
pub fn near(s: &mut Src, t: &str) -> String {
	let mut v: Vec<char> = t.chars().collect();
	let i = s.below(v.len().max(1));
	let c = match v.get(i) {
		Some(c) => *c,
		None => return any_char(s).to_string(),
	};
	let other = |c: u32| char::from_u32(c).unwrap_or('\u{fffd}');
	let fold = match c {
		's' | 'S' => 'ſ',
		'k' | 'K' => '\u{212a}',
		'i' => 'ı',
		'I' => 'İ',
		_ => '\0',
	};
	match s.below(12) {
		0 => v[i] = any_char(s),
		1 => v[i] = other(c as u32 ^ 0x20),
		2 => v[i] = other(c as u32 + 1),
		3 => v[i] = other((c as u32).saturating_sub(1)),
		4 => v[i] = other(c as u32 + 0xfee0),
		5 => v[i] = other(c as u32 ^ 1 << (6 + s.below(11))),
		6 => {
			v.remove(i);
		}
		7 => v.insert(i, c),
		8 => v.insert(i, any_char(s)),
		9 => v.push(any_char(s)),
		10 => v[i] = fold,
		_ => {
			let j = s.below(v.len());
			v.swap(i, j);
		}
	}
	v.into_iter().collect()
}

/// a name that is almost one of those with a meaning
fn near_name(s: &mut Src) -> String {
	let k = s.below(4);
	let n = match k {
		0 => *s.pick(&VOIDS),
		1 => *s.pick(&RAWS),
		2 => *s.pick(&SPECIALS),
		_ => *s.pick(&["pre", "html"]),
	};
	let n = near(s, n);
	let mut n: String = n.chars().map(|c| if ws(c) || "=>/".contains(c) { '-' } else { c }).collect();
	if !n.starts_with(|c: char| c.is_ascii_alphabetic()) {
		n.insert(0, 'x');
	}
	if is_void(&n) || is_raw(&n) || is_special(&n) {
		n.push('q');
	}
	n
}

/// a piece of text without '<'
fn text_piece(s: &mut Src, o: &mut String) {
	match s.weighted(&[12, 10, 6, 8, 1]) {
		4 => {
			// any character but '<'
			let c = any_char(s);
			o.push(if c == '<' { 'x' } else { c });
		}
		0 => o.push_str(s.pick(WORDS)),
		1 => {
			let w = ws_run(s, 1);
			o.push_str(&w)
		}
		2 => {
			o.push('&');
			o.push_str(s.pick(&ENTS[..]).0);
			o.push(';');
		}
		_ => o.push_str(s.pick(TEXT_ODD)),
	}
}
pub fn text(s: &mut Src) -> String {
	let mut o = String::new();
	if s.chance(1, 4) {
		return ws_run(s, 1);
	}
	let n = 1 + s.weighted(&[4, 3, 3, 2, 1, 1]);
	for _ in 0..n {
		text_piece(s, &mut o);
	}
	if s.chance(1, 40) {
		// longer than any buffer the code starts with
		let k = 1 + s.below(300);
		o = o.repeat(k.min(1 + 1500 / o.len().max(1)));
	}
	if o.is_empty() {
		o.push('x');
	}
	o
}

const MARKUP_BITS: &[&str] = &[
	"<div>", "</div>", "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<br>", "<a href=\"x\">",
	"</a>", "<script>", "</script>", "</script", "</style>", "</title>", "</textarea>", "</TITLE>",
	"</Script >", "</scripts>", "</ script>", "<p/>", "<svg>", "</svg>", "--", "-", "->", "]", "]]",
	"<!DOCTYPE html>", "&lt;", "</x",
];
/// free text that may contain anything markup-like
pub fn anything(s: &mut Src, max: usize) -> String {
	let mut o = String::new();
	let n = s.below(max + 1);
	for _ in 0..n {
		if s.chance(1, 2) {
			let b = *s.pick(MARKUP_BITS);
			if s.chance(1, 8) {
				o.push_str(&near(s, b));
			} else {
				o.push_str(b);
			}
		} else {
			text_piece(s, &mut o);
		}
	}
	o
}

const KEYS: &[&str] = &[
	"a", "class", "href", "id", "ID", "Id", "data-x", "b", "v-on:click", "@e", "é", "中", "A", "type",
	"x.y", "checked", "idx", "i", "d", "xml:id", "iD", "data-id", "ıd", "CLASS", "É", "name", "k1", "k2", "k3",
];
// other attribute names of html and svg, none of which has a role here
const KEYS_HTML: &[&str] = &[
	"accept", "accept-charset", "accesskey", "action", "align", "allow", "allowfullscreen", "alt", "aria-label", "async",
	"autocomplete", "autofocus", "autoplay", "bgcolor", "border", "charset", "cite", "clip-path", "color", "cols", "colspan",
	"content", "contenteditable", "controls", "coords", "crossorigin", "data", "data-id", "datetime", "default", "defer", "dir",
	"disabled", "download", "draggable", "enctype", "fill", "for", "form", "formaction", "headers", "height", "hidden",
	"hreflang", "http-equiv", "inert", "integrity", "ismap", "itemid", "itemprop", "itemscope", "key", "kind", "label", "lang",
	"list", "loop", "max", "maxlength", "media", "method", "min", "multiple", "muted", "novalidate", "onclick", "onLoad", "open",
	"pattern", "ping", "placeholder", "poster", "preload", "PUBLIC", "readonly", "ref", "referrerpolicy", "rel", "required",
	"reversed", "role", "rows", "rowspan", "sandbox", "scope", "selected", "shape", "size", "sizes", "slot", "span", "spellcheck",
	"src", "srcdoc", "srclang", "srcset", "start", "step", "style", "SYSTEM", "tabindex", "target", "title", "translate", "usemap",
	"value", "v-if", "viewBox", "width", "wrap", "xlink:href", "xml:lang", "xml:space", "xmlns", "xmlns:xlink", ":key", "#ref", "*ngIf", "(click)", "[x]", "_",
];
const KEY_ODD: &[&str] = &[
	"\"", "'", "\"x\"", "'y'", "a\"b", "a'", "<", "a<b", "&", "`", "\\", "!", "-", "[", "\u{a0}", "k\u{b}", "\0", "?", "1",
];
const VAL_BITS: &[&str] = &[
	"x", "1", "abc", "a/b", "/", "//h/p", "?q=1", "&amp;", "&lt;", "é", "😀", "#", "<", "=", "`", "\"",
	"'", ">", " ", "\n", "\t", "/>", "<b>", "-->", "\\", "http://a.b/c", ";", "id", "\r\n", "\x0C", "\u{a0}", "\u{b}", "\u{3000}", "\0", "&quot;", "a=b", "--", "]]>", "</a>", "É",
];

pub fn value_bits(s: &mut Src, max: usize) -> String {
	let n = s.below(max + 1);
	let mut o = String::new();
	for _ in 0..n {
		if s.chance(1, 16) {
			o.push(any_char(s));
		} else {
			o.push_str(s.pick(VAL_BITS));
		}
	}
	if !o.is_empty() && s.chance(1, 60) {
		let k = 1 + s.below(200);
		o = o.repeat(k.min(1 + 800 / o.len()));
	}
	o
}

#[derive(Clone, Debug)]
pub struct Profile {
	/// weights of: text, element, void, raw, comment, cdata, doctype
	pub kinds: [usize; 7],
	pub max_kids: usize,
	pub max_depth: usize,
	pub max_attrs: usize,
	pub attr_den: usize,
	/// canonical formatting: the source is what the default rendering prints
	pub canonical: bool,
	pub odd_names: bool,
	pub self_close: (usize, usize),
	/// chance of svg/math as the name of a plain element
	pub special: (usize, usize),
	pub pre: (usize, usize),
	pub vary_end_case: bool,
	/// largest size of the one dimension that is blown up now and then (0: never)
	pub scale: usize,
}

impl Default for Profile {
	fn default() -> Self {
		Profile {
			kinds: [9, 16, 3, 2, 2, 2, 1],
			max_kids: 6,
			max_depth: 7,
			max_attrs: 4,
			attr_den: 2,
			canonical: false,
			odd_names: true,
			self_close: (1, 5),
			special: (1, 10),
			pre: (1, 12),
			vary_end_case: true,
			scale: 200_000,
		}
	}
}

/// a position between tokens (or inside a text) where more content may be put
#[derive(Clone, Debug)]
pub struct Slot {
	pub pos: usize,
	/// names of the elements open there, outermost first
	pub open: Vec<String>,
	/// inside a text (or at its edge)
	pub in_text: bool,
}

pub struct Doc {
	pub src: Vec<char>,
	pub root: M,
	pub slots: Vec<Slot>,
	/// char ranges of start tags of elements which are not void, raw or self-closed: (begin,end,end tag begin,end tag end)
	pub elems: Vec<(usize, usize, usize, usize)>,
}

impl Doc {
	pub fn source(&self) -> String {
		s_of(&self.src)
	}
	/// put all of it further on
	fn shift(&mut self, at: usize) {
		for k in &mut self.root.kids {
			k.walk_mut(&mut |m| {
				m.span = (m.span.0 + at, m.span.1 + at);
				m.end_span = m.end_span.map(|(a, b)| (a + at, b + at));
			});
		}
		for s in &mut self.slots {
			s.pos += at;
		}
		for e in &mut self.elems {
			*e = (e.0 + at, e.1 + at, e.2 + at, e.3 + at);
		}
	}
	/// put n plain elements before it
	pub fn lead(&mut self, n: usize) {
		let one = "<q></q>";
		self.src.splice(0..0, one.repeat(n).chars());
		self.shift(n * one.len());
		let lead = (0..n).map(|i| {
			let at = i * one.len();
			let mut m = M::new(Kind::Tag, at);
			m.name = "q".to_string();
			m.span.1 = at + 3;
			m.end = Some("q".to_string());
			m.end_span = Some((at + 3, at + 7));
			m
		});
		self.root.kids.splice(0..0, lead);
		self.root.span.1 = self.src.len();
	}
	/// put all of it into n plain elements, one in the other
	pub fn nest(&mut self, n: usize) {
		const NAME: &str = "q";
		let (begin, end) = (NAME.len() + 2, NAME.len() + 3);
		let at = n * begin;
		let len = self.src.len();
		let mut src: Vec<char> = format!("<{}>", NAME).repeat(n).chars().collect();
		src.append(&mut self.src);
		src.extend(format!("</{}>", NAME).repeat(n).chars());
		self.src = src;
		self.shift(at);
		let mut kids = std::mem::take(&mut self.root.kids);
		// all that an element contains is no space between tags
		if kids.len() == 1 && kids[0].kind == Kind::Spaces {
			kids[0].kind = Kind::Text;
		}
		for s in &mut self.slots {
			s.open.splice(0..0, std::iter::repeat(NAME.to_string()).take(n));
		}
		for i in (0..n).rev() {
			let mut m = M::new(Kind::Tag, i * begin);
			m.name = NAME.to_string();
			m.span.1 = (i + 1) * begin;
			m.end = Some(NAME.to_string());
			let e = at + len + (n - 1 - i) * end;
			m.end_span = Some((e, e + end));
			m.kids = kids;
			self.elems.push((m.span.0, m.span.1, e, e + end));
			kids = vec![m];
		}
		self.root.kids = kids;
		self.root.span.1 = self.src.len();
	}
}

pub struct G<'a, 'b> {
	pub s: &'a mut Src<'b>,
	pub po: Po,
	pub p: Profile,
	out: Vec<char>,
	open: Vec<String>,
	slots: Vec<Slot>,
	elems: Vec<(usize, usize, usize, usize)>,
	ids: usize,
	big: Option<(Big, usize)>,
}

/// the dimension of a document that is blown up
#[derive(Clone, Copy, PartialEq, Debug)]
enum Big {
	Text,
	Comment,
	Raw,
	Value,
	Key,
	Name,
	Attrs,
	Kids,
	Deep,
	CData,
	EndSpace,
	Gap,
}
const BIG: [Big; 12] = [
	Big::Text, Big::Comment, Big::Raw, Big::Value, Big::Key, Big::Name, Big::Attrs, Big::Kids, Big::Deep, Big::CData,
	Big::EndSpace, Big::Gap,
];
/// around powers of two and of ten
const SIZES: &[usize] = &[9, 17, 33, 50, 65, 101, 129, 200, 257, 513, 1001, 1025, 2049, 4097, 8193, 10_000];
const HUGE: &[usize] = &[16_385, 20_001, 32_769, 50_001, 65_537, 65_537, 66_000, 100_002];

impl<'a, 'b> G<'a, 'b> {
	pub fn new(s: &'a mut Src<'b>, po: Po, p: Profile) -> Self {
		G {
			s,
			po,
			p,
			out: vec![],
			open: vec![],
			slots: vec![],
			elems: vec![],
			ids: 0,
			big: None,
		}
	}
	fn emit(&mut self, t: &str) {
		self.out.extend(t.chars());
	}
	fn at(&self) -> usize {
		self.out.len()
	}
	fn slot(&mut self, in_text: bool) {
		let pos = self.at();
		self.slots.push(Slot {
			pos,
			open: self.open.clone(),
			in_text,
		});
	}
	fn special(&self) -> Option<&String> {
		self.open.iter().find(|n| is_special(n))
	}

	/// the size of this dimension, once
	fn big(&mut self, what: Big) -> Option<usize> {
		match self.big {
			Some((b, n)) if b == what => {
				self.big = None;
				Some(n)
			}
			_ => None,
		}
	}
	/// repeat a piece up to the size of this dimension
	fn grow(&mut self, what: Big, t: String) -> String {
		match self.big(what) {
			Some(n) if !t.is_empty() => t.chars().cycle().take(n).collect(),
			_ => t,
		}
	}

	pub fn doc(mut self) -> Doc {
		let mut root = M::new(Kind::Root, 0);
		if self.p.scale > 0 && self.s.chance(1, 250) {
			let b = *self.s_pick(&BIG);
			let huge = self.s.chance(1, 12);
			let n = if huge { *self.s_pick(HUGE) } else { *self.s_pick(SIZES) };
			let n = n.min(self.p.scale) + 2 - self.s.below(if n > 40 { 16 } else { 5 });
			let n = match b {
				Big::Deep => n.min(if huge { 950 } else { 400 }),
				Big::Attrs | Big::Kids => n.min(if huge { 5000 } else { 1100 }),
				_ => n,
			};
			self.big = Some((b, n));
		}
		root.kids = self.kids(0);
		root.span = (0, self.at());
		classify(&mut root);
		Doc {
			src: self.out,
			root,
			slots: self.slots,
			elems: self.elems,
		}
	}

	fn kids(&mut self, depth: usize) -> Vec<M> {
		let mut v: Vec<M> = vec![];
		let top = depth == 0;
		let max = if self.s.chance(1, 30) {
			40
		} else {
			self.p.max_kids
		};
		let n = self.s.below(max + 1) + top as usize;
		self.slot(false);
		if let Some((Big::Deep, n)) = self.big {
			// one element inside the other
			self.big = Some((Big::Deep, n - 1));
			if n == 1 {
				self.big = None;
			}
			let m = self.element(depth, 0);
			v.push(m);
			self.slot(false);
		}
		if let Some(n) = self.big(Big::Kids) {
			for i in 0..n {
				let at = self.at();
				let mut m = match i % 5 {
					0 => {
						self.emit("<b>");
						let mut m = M::new(Kind::Tag, at);
						m.name = "b".into();
						m.span.1 = self.at();
						let t = i.to_string();
						let x = M::text(Kind::Text, &t, self.at());
						self.emit(&t);
						m.kids.push(x);
						m.end = Some("b".into());
						let ea = self.at();
						self.emit("</b>");
						m.end_span = Some((ea, self.at()));
						m
					}
					1 | 4 => {
						let t = if i % 10 < 5 { format!("t{}", i) } else { " ".into() };
						if v.last().map_or(false, |m| m.is_text()) {
							continue;
						}
						self.emit(&t);
						M::text(Kind::Text, &t, at)
					}
					2 => {
						let t = i.to_string();
						self.emit("<!--");
						self.emit(&t);
						self.emit("-->");
						M::text(Kind::Comment, &t, at)
					}
					_ => {
						self.emit("<br>");
						let mut m = M::new(Kind::Tag, at);
						m.name = "br".into();
						m.is_void = true;
						m
					}
				};
				if i % 5 != 0 {
					m.span = (at, self.at());
				}
				v.push(m);
				self.slot(false);
			}
		}
		for _ in 0..n {
			if self.s.done() {
				break;
			}
			let mut k = self.p.kinds;
			let cdata_ok = match (self.special(), self.open.last()) {
				(Some(sp), Some(l)) => !sp.eq_ignore_ascii_case(l),
				_ => false,
			};
			if !cdata_ok {
				k[5] = 0;
			}
			if depth >= self.p.max_depth {
				k[1] = 0;
			}
			if v.last().map_or(false, |m: &M| m.is_text()) {
				k[0] = 0;
			}
			if k.iter().sum::<usize>() == 0 {
				break;
			}
			let m = match self.s.weighted(&k) {
				0 => self.text(),
				1 => self.element(depth, 0),
				2 => self.element(depth, 1),
				3 => self.element(depth, 2),
				4 => self.comment(),
				5 => self.cdata(),
				_ => self.doctype(),
			};
			v.push(m);
			self.slot(false);
		}
		v
	}

	fn text(&mut self) -> M {
		let at = self.at();
		let t = text(self.s);
		let t = self.grow(Big::Text, t);
		for (i, c) in t.chars().enumerate() {
			if i > 0 {
				self.slot(true);
			}
			self.out.push(c);
		}
		M::text(Kind::Text, &t, at)
	}

	pub fn comment(&mut self) -> M {
		let at = self.at();
		let c = anything(self.s, 5);
		let mut c: Vec<char> = self.grow(Big::Comment, c).chars().collect();
		let mut from = 0;
		while let Some(i) = find_seq(&c, from, "-->") {
			c[i + 2] = '-';
			from = i;
		}
		let c = s_of(&c);
		self.emit("<!--");
		self.emit(&c);
		self.emit("-->");
		let mut m = M::text(Kind::Comment, &c, at);
		m.span = (at, self.at());
		m
	}

	pub fn cdata(&mut self) -> M {
		let at = self.at();
		let c = anything(self.s, 5);
		let mut c: Vec<char> = self.grow(Big::CData, c).chars().collect();
		let mut from = 0;
		while let Some(i) = find_seq(&c, from, "]]>") {
			c.remove(i + 2);
			from = i;
		}
		let c = s_of(&c);
		self.emit("<![");
		let kw = if self.p.canonical {
			"CDATA".into()
		} else {
			random_case(self.s, "CDATA")
		};
		self.emit(&kw);
		self.emit("[");
		self.emit(&c);
		self.emit("]]>");
		let mut m = M::text(Kind::CData, &c, at);
		m.span = (at, self.at());
		m
	}

	pub fn doctype(&mut self) -> M {
		let at = self.at();
		let mut m = M::new(Kind::Doctype, at);
		let w = *self.s_pick(&["DOCTYPE", "doctype"]);
		m.name = random_case(self.s, w);
		let n = m.name.clone();
		self.emit("<!");
		self.emit(&n);
		if self.s.chance(1, 4) {
			m.attrs = self.attrs(true, true);
		} else {
			// the usual shapes
			let kinds = self.s.below(4);
			self.emit(" ");
			let h = random_case(self.s, "html");
			self.emit(&h);
			m.attrs.push(MAttr {
				key: Some(h),
				val: None,
				quote: None,
			});
			if kinds > 0 {
				self.emit(" PUBLIC");
				m.attrs.push(MAttr {
					key: Some("PUBLIC".into()),
					val: None,
					quote: None,
				});
				for _ in 0..kinds {
					let q = *self.s_pick(&['"', '\'']);
					let v: String = value_bits(self.s, 4).chars().filter(|c| *c != q).collect();
					self.emit(" ");
					self.out.push(q);
					self.emit(&v);
					self.out.push(q);
					m.attrs.push(MAttr {
						key: None,
						val: Some(v),
						quote: Some(q),
					});
				}
			}
			if !self.p.canonical && self.s.chance(1, 6) {
				let t = *self.s_pick(&[" ", "\n", "/", " /", "//"]);
				if t.contains('/') {
					m.self_closed = true;
				}
				self.emit(t);
			}
		}
		self.emit(">");
		m.span.1 = self.at();
		m
	}

	fn s_pick<T>(&mut self, xs: &'static [T]) -> &'static T {
		self.s.pick(xs)
	}

	pub fn plain_name(&mut self) -> String {
		let n = if self.s.chance(self.p.special.0, self.p.special.1) {
			self.s_pick(&SPECIALS).to_string()
		} else if self.s.chance(self.p.pre.0, self.p.pre.1) {
			"pre".to_string()
		} else {
			match self.s.weighted(&[12, 3, if self.p.odd_names { 2 } else { 0 }, 4, 1, if self.p.odd_names { 1 } else { 0 }, if self.p.odd_names { 1 } else { 0 }]) {
				0 => self.s.pick(NORMAL).to_string(),
				1 => self.s.pick(NEAR).to_string(),
				3 => self.s.pick(HTML).to_string(),
				4 => random_name(self.s),
				6 => near_name(self.s),
				5 => {
					// any character that may be in a name
					let mut n = random_name(self.s);
					let c = any_char(self.s);
					n.push(if ws(c) || "=>/".contains(c) { '-' } else { c });
					n
				}
				_ => self.s.pick(ODD).to_string(),
			}
		};
		random_case(self.s, &n)
	}

	/// which: 0 plain, 1 void, 2 raw text
	fn element(&mut self, depth: usize, which: usize) -> M {
		let at = self.at();
		let mut m = M::new(Kind::Tag, at);
		m.name = match which {
			0 => {
				let n = self.plain_name();
				match self.big(Big::Name) {
					Some(k) => n.chars().cycle().take(k.min(2100).max(n.chars().count())).collect(),
					None => n,
				}
			}
			1 => {
				let n = *self.s.pick(&VOIDS);
				random_case(self.s, n)
			}
			_ => {
				let n = *self.s.pick(&RAWS);
				random_case(self.s, n)
			}
		};
		m.is_void = is_void(&m.name);
		let can_self = m.is_void || self.po.sc || self.special().is_some();
		self.emit("<");
		let nm = m.name.clone();
		self.emit(&nm);
		if self.s.chance(1, self.p.attr_den) {
			m.attrs = self.attrs(false, false);
		} else if !self.p.canonical && self.s.chance(1, 8) {
			let w = ws_run(self.s, 1);
			self.emit(&w);
		}
		if can_self && self.s.chance(self.p.self_close.0, self.p.self_close.1) {
			m.self_closed = true;
			let unq = m
				.attrs
				.last()
				.map_or(false, |a| a.val.is_some() && a.quote.is_none());
			if self.p.canonical {
				self.emit(" />");
			} else if unq {
				let w = ws_run(self.s, 1);
				self.emit(&w);
				let f = *self.s_pick(&["/>", "//>", "/ >", "/\n/>"]);
				self.emit(f);
			} else {
				let f = *self.s_pick(&["/>", " />", "//>", "/ >", "\n/\t>"]);
				// `key=` directly before a slash would start a value
				if self.out.last() == Some(&'=') && !m.attrs.is_empty() {
					self.emit("\"\"");
					let a = m.attrs.last_mut().unwrap();
					a.val = Some(String::new());
					a.quote = Some('"');
				}
				self.emit(f);
			}
			m.span.1 = self.at();
			return m;
		}
		self.emit(">");
		m.span.1 = self.at();
		if m.is_void {
			return m;
		}
		if is_raw(&m.name) {
			let c = anything(self.s, 6);
			let mut c: Vec<char> = self.grow(Big::Raw, c).chars().collect();
			let nm: Vec<char> = format!("</{}>", m.name).chars().collect();
			let (n, mut from) = (c.len(), 0);
			c.extend(&nm);
			while let Some((i, _)) = find_raw_end(&c, from, &m.name, self.po.cs).filter(|e| e.0 < n) {
				c[i] = '-';
				from = i;
			}
			c.truncate(n);
			let c = s_of(&c);
			self.emit(&c);
			m.content = Some(c);
			let ea = self.at();
			let e = self.end_name(&m.name);
			self.emit("</");
			self.emit(&e);
			self.emit(">");
			m.end = Some(e);
			m.end_span = Some((ea, self.at()));
			return m;
		}
		self.open.push(m.name.clone());
		m.kids = self.kids(depth + 1);
		self.open.pop();
		let ea = self.at();
		let e = self.end_name(&m.name);
		self.emit("</");
		self.emit(&e);
		self.emit(">");
		m.end = Some(e);
		m.end_span = Some((ea, self.at()));
		self.elems.push((m.span.0, m.span.1, ea, self.at()));
		m
	}

	fn end_name(&mut self, name: &str) -> String {
		let mut e = if self.po.cs || !self.p.vary_end_case {
			name.to_string()
		} else {
			random_case(self.s, name)
		};
		if self.s.chance(1, 6) {
			let w = ws_run(self.s, 1);
			e.push_str(&self.grow(Big::EndSpace, w));
		}
		e
	}

	fn sep(&mut self, need_ws: bool, next_eq: bool) {
		if self.p.canonical {
			self.emit(" ");
			return;
		}
		match self.s.weighted(&[8, 4, if next_eq { 0 } else { 2 }, if need_ws { 0 } else { 2 }]) {
			0 => self.emit(" "),
			1 => {
				let w = ws_run(self.s, 1);
				let w = self.grow(Big::Gap, w);
				self.emit(&w)
			}
			2 => {
				let w = ws_run(self.s, 1);
				self.emit(&w);
				let f = *self.s_pick(&["/ ", "/", "// "]);
				self.emit(f);
			}
			_ => {}
		}
	}

	pub fn key(&mut self, doctype: bool, eq_ok: bool) -> String {
		let mut k = match self.s.weighted(&[20, 6, 2, 1, 1, 4]) {
			5 => {
				let k = *self.s.pick(KEYS_HTML);
				random_case(self.s, k)
			}
			4 => {
				// almost another key
				let k = *self.s.pick(KEYS);
				let k = near(self.s, k);
				let k: String = k.chars().filter(|&c| !ws(c) && !"=/>".contains(c)).collect();
				if k.is_empty() || k.starts_with(|c| "\"'".contains(c)) {
					"k".into()
				} else {
					k
				}
			}
			0 => self.s.pick(KEYS).to_string(),
			1 => self.s.pick(KEY_ODD).to_string(),
			2 => random_name(self.s),
			_ => {
				let c = any_char(self.s);
				if ws(c) || "=/>\"'".contains(c) {
					"k".into()
				} else {
					c.to_string()
				}
			}
		};
		if doctype && (k.starts_with('"') || k.starts_with('\'')) {
			k.insert(0, 'q');
		}
		if eq_ok && self.s.chance(1, 6) {
			k.insert(0, '=');
		}
		if !k.starts_with(|c| "=\"'".contains(c)) {
			k = self.grow(Big::Key, k);
		}
		k
	}

	pub fn attrs(&mut self, doctype: bool, at_least_one: bool) -> Vec<MAttr> {
		let max = if self.s.chance(1, 20) {
			14
		} else {
			self.p.max_attrs
		};
		let n = if at_least_one {
			1 + self.s.below(max.max(1))
		} else {
			self.s.below(max + 1)
		};
		let mut v: Vec<MAttr> = vec![];
		if !doctype {
			if let Some(k) = self.big(Big::Attrs) {
				for i in 0..k {
					let key = format!("k{}", i / 2 * 2);
					self.emit(" ");
					self.emit(&key);
					let mut a = MAttr {
						key: Some(key),
						val: None,
						quote: None,
					};
					if i % 3 > 0 {
						let val = i.to_string();
						self.emit("=");
						if i % 3 == 1 {
							a.quote = Some('"');
							self.emit("\"");
						}
						self.emit(&val);
						if i % 3 == 1 {
							self.emit("\"");
						}
						a.val = Some(val);
					}
					v.push(a);
				}
			}
		}
		for i in 0..n {
			// after a quoted value the next attribute may follow at once
			let (need_ws, prev_bare) = match v.last() {
				None => (true, false),
				Some(a) if a.val.is_none() => (true, true),
				Some(a) => (a.quote.is_none(), false),
			};
			if doctype && self.s.chance(1, 3) {
				self.sep(need_ws, false);
				let q = *self.s_pick(&['"', '\'']);
				let val: String = value_bits(self.s, 4).chars().filter(|c| *c != q).collect();
				self.out.push(q);
				self.emit(&val);
				self.out.push(q);
				v.push(MAttr {
					key: None,
					val: Some(val),
					quote: Some(q),
				});
				continue;
			}
			let key = self.key(doctype, self.po.eq && !prev_bare);
			// a quote right after the previous token would not start a key only after `=`
			self.sep(need_ws, key.starts_with('='));
			self.emit(&key);
			let mut a = MAttr {
				key: Some(key),
				val: None,
				quote: None,
			};
			let last = i + 1 == n;
			match self.s.weighted(&[3, 4, 3, if last && !self.p.canonical { 1 } else { 0 }]) {
				0 => {}
				1 => {
					// quoted
					self.eq_sign();
					let q = *self.s_pick(&['"', '\'']);
					let val: String = value_bits(self.s, 4).chars().filter(|c| *c != q).collect();
					let val = self.grow(Big::Value, val);
					self.out.push(q);
					self.emit(&val);
					self.out.push(q);
					a.val = Some(val);
					a.quote = Some(q);
				}
				2 => {
					// unquoted
					self.eq_sign();
					let mut val: String = value_bits(self.s, 4)
						.chars()
						.filter(|c| !ws(*c) && *c != '>')
						.collect();
					while val.starts_with('"') || val.starts_with('\'') {
						val.remove(0);
					}
					if val.is_empty() {
						val.push('v');
					}
					let val = self.grow(Big::Value, val);
					self.emit(&val);
					a.val = Some(val);
				}
				_ => {
					// `key=` and then the end of the tag: no value
					let w = if self.s.chance(1, 3) {
						ws_run(self.s, 1)
					} else {
						String::new()
					};
					self.emit(&w);
					self.emit("=");
				}
			}
			v.push(a);
		}
		// spacing before the end of the tag; `key=` must stay last
		if !self.p.canonical && self.s.chance(1, 5) && self.out.last() != Some(&'=') {
			let w = ws_run(self.s, 1);
			self.emit(&w);
		}
		v
	}

	fn eq_sign(&mut self) {
		if !self.p.canonical && self.s.chance(1, 4) {
			let w = ws_run(self.s, 0);
			self.emit(&w);
			self.emit("=");
			let w = ws_run(self.s, 0);
			self.emit(&w);
		} else {
			self.emit("=");
		}
	}

	pub fn next_id(&mut self) -> usize {
		self.ids += 1;
		self.ids
	}
}

/// whitespace-only text is "spaces between tags" unless it is all an element contains
pub fn classify(m: &mut M) {
	let n = m.kids.len();
	let root = m.kind == Kind::Root;
	for k in &mut m.kids {
		if k.kind == Kind::Text && all_ws(k.content.as_ref().unwrap()) && (n > 1 || root) {
			k.kind = Kind::Spaces;
		}
		classify(k);
	}
}

pub fn well_formed(s: &mut Src, po: Po, p: Profile) -> Doc {
	// now and then all of it deep inside other elements, or after many
	let n = s.raw() as usize;
	let mut d = G::new(s, po, p).doc();
	if d.src.len() > 400 {
		// large enough
	} else if n % 400 == 399 {
		d.nest((16 << (n / 400 % 5)) + n / 2000 % 3 - 1);
	} else if n % 400 == 398 {
		d.lead((16 << (n / 400 % 6)) + n / 2400 % 3 - 1);
	}
	d
}

// ---------------------------------------------------------------- soup

const SOUP: &[&str] = &[
	"x", " ", "<", ">", "/", "=", "\"", "'", "!", "-", "<div>", "</div>", "<p>", "</p>", "<br>", "<br/>",
	"<a", " href", "=\"", "<!--", "-->", "<!", "<!-", "<!DOCTYPE", "<!doctype html>", "html", "</", "/>",
	"<script>", "</script>", "<STYLE>", "</style>", "<title>", "</title>", "<textarea", "</textarea>",
	"<svg>", "</svg>", "<SVG>", "<math>", "</math>", "<g>", "</g>", "<![CDATA[", "]]>", "]", "<![",
	"<rect/>", "&lt;", "&", ";", "\n", "\t", "\r\n", "<1", "<>", "<<", "<pre>", "</pre>", "é", "😀",
	"\0", "</Div >", "<B id=x>",
];
const CHARS: &[char] = &[
	'a', '<', '>', '/', '=', '"', '\'', ' ', '!', '-', '[', ']', 'b', 'D', '\n', '&', ';', 't', 'é', '1',
	'\r', '\u{b}', 's', 'i', '?', '\0',
];

/// sources from past failures, the documentation and the test suite
pub const SEEDS: &[&str] = &[
	"<div", "<div a", "<div a=", "<div a=\"x", "<!DOCTYPE html/>", "<!---->", "<svg><a><![CDATA[]]></a></svg>",
	"<script></script>< a", "<br><", "<img src='/a/b'>", "<a href=/x/y>z</a>", "<br", "<img a=1", "<svg><svg></svg><a/></svg>",
	"<SVG></svg><a/>", "<p>a &lt;  b</p>", "<pre><pre> </pre>  </pre>", "<div>a<b</div>", "<p> </p><a></a>", "x</a> y",
	"<!DOCTYPE ><html></html>", "<b x/=c></b>", "<TITLE>a<b</title>", "<style>a</Style >", "<div></div ></div>", "</p>",
	"<p id=a id=b>", "<a></a></b> <c></c>", "<ul> <li>1</li> <li>2</li> </ul>", "<!doctype html PUBLIC \"a\" 'b'>",
	"<table><caption>test</caption><thead><tr><td>test</td></tr></thead></table>", "<!--- a --- b --->", "<a/=b>",
	"<svg><style>a</style><g/></svg>", "<math><mi>x</mi><![CDATA[x]]></math>", "<input value=a/b/>", "<textarea> <b> </textarea>",
];

/// mutate a text by a few random edits
pub fn mutate(s: &mut Src, base: &[char]) -> Vec<char> {
	let mut v = base.to_vec();
	let edits = 1 + s.below(4);
	for _ in 0..edits {
		let n = v.len();
		let pos = if n == 0 { 0 } else { s.below(n + 1) };
		match s.below(7) {
			6 if pos < n => {
				// a character that is almost the same
				let c: Vec<char> = near(s, &v[pos].to_string()).chars().collect();
				v.splice(pos..pos + 1, c);
			}
			0 => {
				// delete a span
				let len = (1 + s.below(6)).min(n - pos.min(n));
				v.drain(pos..pos + len);
			}
			1 => {
				let f: Vec<char> = s.pick(SOUP).chars().collect();
				v.splice(pos..pos, f);
			}
			2 => {
				let c = *s.pick(CHARS);
				v.insert(pos, c);
			}
			3 => v.truncate(pos),
			4 => {
				let len = (1 + s.below(8)).min(n - pos.min(n));
				let d: Vec<char> = v[pos..pos + len].to_vec();
				let at = s.below(v.len() + 1);
				v.splice(at..at, d);
			}
			_ => {
				if pos < n {
					v[pos] = *s.pick(CHARS);
				}
			}
		}
	}
	v
}

/// arbitrary text: raw characters, fragments, or a mutated well-formed document
pub fn soup(s: &mut Src, po: Po, p: &Profile) -> Vec<char> {
	match s.weighted(&[4, 6, 12, 2, 1]) {
		3 => {
			let b: Vec<char> = s.pick(SEEDS).chars().collect();
			if s.chance(1, 4) {
				b
			} else {
				mutate(s, &b)
			}
		}
		4 => {
			let n = s.below(20);
			(0..n)
				.map(|_| if s.chance(1, 3) { any_char(s) } else { *s.pick(CHARS) })
				.collect()
		}
		0 => {
			let n = s.below(40);
			(0..n).map(|_| *s.pick(CHARS)).collect()
		}
		1 => {
			let n = s.below(24);
			let mut v = vec![];
			for _ in 0..n {
				let t = *s.pick(SOUP);
				if s.chance(1, 16) {
					v.extend(near(s, t).chars());
				} else {
					v.extend(t.chars());
				}
			}
			v
		}
		_ => {
			// keep some tape for the edits
			let mut p = p.clone();
			p.max_kids = p.max_kids.min(4);
			let mut later = s.fork(20);
			let d = well_formed(s, po, p);
			mutate(&mut later, &d.src)
		}
	}
}


// ---------------------------------------------------------------- very wide documents

/// markup in canonical spacing with one thing very many times, or very long: counts near
/// powers of two, past 65536; and a short description
pub fn wide(s: &mut Src, attrs_only: bool) -> (Vec<char>, String) {
	let k = if s.chance(1, 2) { 16 } else { 8 + s.below(9) };
	let n = (1usize << k) + 5 - s.below(10);
	const UNITS: &[&str] = &["<br>", "<b></b>", "a<i></i>", "<!--c-->", "<p>x</p>", " <hr>", "<b k=v></b>", "\n<!---->", "<s >", "é<br>"];
	let pick = if attrs_only { 4 + s.below(2) } else { s.below(9) };
	let (mut t, what) = match pick {
		0..=3 => {
			let u = UNITS[s.below(UNITS.len())];
			let u = if u == "<s >" { "<q></q >" } else { u };
			(u.repeat(n), format!("{} times {:?}", n, u))
		}
		4 => {
			let mut t = String::from("<b");
			for i in 0..n {
				t.push_str(&format!(" k{}", i));
			}
			t.push_str("></b>");
			(t, format!("{} keys", n))
		}
		5 => {
			let q = *s.pick(&["", "'", "\""]);
			let mut t = String::from("<br");
			for i in 0..n {
				t.push_str(&format!(" {}={q}v{}{q}", i % 65_539, i % 7));
			}
			t.push('>');
			(t, format!("{} attributes, quote {:?}", n, q))
		}
		p => {
			let (a, z) = [("<p>", "</p>"), ("<!--", "-->"), ("<p title=\"", "\"></p>")][p - 6];
			let fill = *s.pick(&["x", "\n", "é", "\r\n", " ", "x y", "&lt;"]);
			let text: String = fill.chars().cycle().take(n).collect();
			(format!("{}{}{}", a, text, z), format!("{} characters of {:?} in {:?}", n, fill, a))
		}
	};
	if s.chance(1, 2) {
		t = format!("<div>{}</div>", t);
	}
	t.push_str("<b id=\"q\">x</b><!--y-->z");
	(t.chars().collect(), what)
}
