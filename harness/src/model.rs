//! Reference model: a document tree, an independent scanner-style parser that
//! states what a source means under given options, and a reference renderer.
use crate::opts::{Po, Ro};
use rphtml::parser::{Node, NodeType, RefNode};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
	Root,
	Doctype,
	Comment,
	Text,
	Spaces,
	Tag,
	CData,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MAttr {
	pub key: Option<String>,
	pub val: Option<String>,
	pub quote: Option<char>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub kind: Kind,
	pub name: String,
	pub attrs: Vec<MAttr>,
	pub self_closed: bool,
	pub is_void: bool,
	pub auto_fix: bool,
	pub content: Option<String>,
	pub end: Option<String>,
	pub kids: Vec<M>,
	pub span: (usize, usize),
	pub end_span: Option<(usize, usize)>,
	/// touched by a repair or cut off: the recorded span is not claimed
	pub loose: bool,
}

impl M {
	pub fn new(kind: Kind, at: usize) -> M {
		M {
			kind,
			name: String::new(),
			attrs: vec![],
			self_closed: false,
			is_void: false,
			auto_fix: false,
			content: None,
			end: None,
			kids: vec![],
			span: (at, at),
			end_span: None,
			loose: false,
		}
	}
	pub fn text(kind: Kind, s: &str, at: usize) -> M {
		let mut m = M::new(kind, at);
		m.span.1 = at + s.chars().count();
		m.content = Some(s.to_string());
		m
	}
	pub fn is_text(&self) -> bool {
		matches!(self.kind, Kind::Text | Kind::Spaces)
	}
	pub fn lname(&self) -> String {
		self.name.to_ascii_lowercase()
	}
	pub fn count(&self) -> usize {
		1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
	}
	pub fn depth(&self) -> usize {
		1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0)
	}
	pub fn any(&self, f: &dyn Fn(&M) -> bool) -> bool {
		f(self) || self.kids.iter().any(|k| k.any(f))
	}
	pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a M)) {
		f(self);
		for k in &self.kids {
			k.walk(f);
		}
	}
	pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut M)) {
		f(self);
		for k in &mut self.kids {
			k.walk_mut(f);
		}
	}
}

pub const VOIDS: [&str; 14] = [
	"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source",
	"track", "wbr",
];
pub const RAWS: [&str; 4] = ["script", "style", "title", "textarea"];
pub const SPECIALS: [&str; 2] = ["svg", "math"];

pub fn is_void(name: &str) -> bool {
	VOIDS.contains(&name.to_ascii_lowercase().as_str())
}
pub fn is_raw(name: &str) -> bool {
	RAWS.contains(&name.to_ascii_lowercase().as_str())
}
pub fn is_plain(name: &str) -> bool {
	let n = name.to_ascii_lowercase();
	n == "title" || n == "textarea"
}
pub fn is_special(name: &str) -> bool {
	SPECIALS.contains(&name.to_ascii_lowercase().as_str())
}
pub fn ws(c: char) -> bool {
	matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C')
}
pub fn all_ws(s: &str) -> bool {
	s.chars().all(ws)
}
pub fn s_of(c: &[char]) -> String {
	c.iter().collect()
}
pub fn trim_end(s: &str) -> &str {
	s.trim_end_matches(ws)
}

// ---------------------------------------------------------------- snapshot

pub fn snap(node: &Node) -> M {
	#[allow(unreachable_patterns)]
	let kind = match node.node_type {
		NodeType::AbstractRoot => Kind::Root,
		NodeType::HTMLDOCTYPE => Kind::Doctype,
		NodeType::Comment => Kind::Comment,
		NodeType::Text => Kind::Text,
		NodeType::SpacesBetweenTag => Kind::Spaces,
		NodeType::Tag => Kind::Tag,
		NodeType::XMLCDATA => Kind::CData,
		NodeType::TagEnd | _ => Kind::Tag,
	};
	let mut m = M::new(kind, node.begin_at);
	m.span.1 = node.end_at;
	if let Some(meta) = &node.meta {
		let meta = meta.borrow();
		m.name = s_of(&meta.name);
		m.self_closed = meta.self_closed;
		m.is_void = meta.is_void;
		m.auto_fix = meta.auto_fix;
		m.attrs = meta
			.attrs
			.iter()
			.map(|a| MAttr {
				key: a.key.as_ref().map(|k| s_of(&k.content)),
				val: a.value.as_ref().map(|k| s_of(&k.content)),
				quote: a.quote,
			})
			.collect();
	}
	m.content = node.content.as_ref().map(|c| s_of(c));
	if let Some(e) = &node.end_tag {
		let e = e.borrow();
		m.end = e.content.as_ref().map(|c| s_of(c));
		m.end_span = Some((e.begin_at, e.end_at));
	}
	if let Some(childs) = &node.childs {
		m.kids = childs.iter().map(|c| snap(&c.borrow())).collect();
	}
	m
}
pub fn snap_ref(n: &RefNode) -> M {
	snap(&n.borrow())
}

// ---------------------------------------------------------------- comparison

#[derive(Clone, Copy, Debug)]
pub struct Cmp {
	/// distinguish Text from Spaces for whitespace-only text
	pub ws_kind: bool,
	pub spans: bool,
	pub auto_fix: bool,
	pub attrs: bool,
	pub end: bool,
	pub content: bool,
	pub self_closed: bool,
}
impl Cmp {
	pub const ALL: Cmp = Cmp {
		ws_kind: true,
		spans: true,
		auto_fix: true,
		attrs: true,
		end: true,
		content: true,
		self_closed: true,
	};
	/// everything but source positions
	pub const TREE: Cmp = Cmp {
		spans: false,
		..Cmp::ALL
	};
	/// everything but positions and the "was repaired" mark
	pub const MEANING: Cmp = Cmp {
		spans: false,
		auto_fix: false,
		..Cmp::ALL
	};
	pub const fn no_ws(self) -> Cmp {
		Cmp {
			ws_kind: false,
			..self
		}
	}
}

fn norm_kind(k: Kind, c: &Cmp) -> Kind {
	if !c.ws_kind && k == Kind::Spaces {
		Kind::Text
	} else {
		k
	}
}
fn norm_content(m: &M) -> Option<&str> {
	match &m.content {
		Some(s) if s.is_empty() => None,
		Some(s) => Some(s),
		None => None,
	}
}

/// None when equal; otherwise where and how they differ (`a` expected, `b` actual)
pub fn diff(a: &M, b: &M, c: &Cmp) -> Option<String> {
	fn go(a: &M, b: &M, c: &Cmp, path: &mut Vec<usize>) -> Option<String> {
		macro_rules! ne {
			($what:expr, $x:expr, $y:expr) => {
				if $x != $y {
					return Some(format!(
						"at {:?} <{}>: {}: expected {:?}, got {:?}",
						path, a.name, $what, $x, $y
					));
				}
			};
		}
		ne!("kind", norm_kind(a.kind, c), norm_kind(b.kind, c));
		ne!("name", a.name, b.name);
		ne!("void", a.is_void, b.is_void);
		if c.attrs {
			ne!("attributes", a.attrs, b.attrs);
		}
		if c.self_closed && a.kind != Kind::Doctype {
			ne!("self-closed", a.self_closed, b.self_closed);
		}
		if c.auto_fix {
			ne!("repaired mark", a.auto_fix, b.auto_fix);
		}
		if c.content {
			ne!("content", norm_content(a), norm_content(b));
		}
		if c.end {
			ne!("end tag", a.end, b.end);
		} else {
			ne!("has end tag", a.end.is_some(), b.end.is_some());
		}
		if c.spans && !a.loose {
			ne!("span", a.span, b.span);
			if !a.auto_fix {
				ne!("end tag span", a.end_span, b.end_span);
			}
		}
		if a.kids.len() != b.kids.len() {
			return Some(format!(
				"at {:?} <{}>: child count: expected {}, got {}",
				path,
				a.name,
				a.kids.len(),
				b.kids.len()
			));
		}
		for (i, (x, y)) in a.kids.iter().zip(&b.kids).enumerate() {
			path.push(i);
			let r = go(x, y, c, path);
			path.pop();
			if r.is_some() {
				return r;
			}
		}
		None
	}
	go(a, b, c, &mut vec![])
}

// ---------------------------------------------------------------- reference parser

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
	WrongTag,
	WrongEndTag,
	UnclosedTag,
	WrongHtmlDoctype,
	UnrecognizedTag,
	WrongCaseSensitive,
	WrongSelfClosing,
	CommonError,
	Other,
}

#[derive(Clone, Debug)]
pub struct MErr {
	pub kind: EK,
	/// claimed position, None for end-of-input errors
	pub index: Option<usize>,
	/// the element, end tag or character the error has to name
	pub names: Option<String>,
}
impl MErr {
	fn naming<T>(mut self, n: &str) -> Result<T, MErr> {
		self.names = Some(n.to_string());
		Err(self)
	}
}

#[derive(Clone, Debug)]
pub struct MOut {
	pub res: Result<M, MErr>,
	/// the source uses a construct whose meaning no property claims
	pub quirk: bool,
}

struct Lex {
	attrs: Vec<MAttr>,
	next: usize,
	slash: bool,
	eof: bool,
}

struct P<'a> {
	s: &'a [char],
	po: Po,
	stack: Vec<M>,
	quirk: bool,
	/// the last child of the innermost open element is a text that may still grow
	text_open: bool,
}

/// first occurrence of `</name` + whitespace* + `>` at or after `from`:
/// (start of "</", start of '>')
pub fn find_raw_end(s: &[char], from: usize, name: &str, cs: bool) -> Option<(usize, usize)> {
	let n: Vec<char> = name.chars().collect();
	let mut i = from;
	while i + 2 + n.len() < s.len() + 1 {
		if s[i] == '<'
			&& s.get(i + 1) == Some(&'/')
			&& s.len() >= i + 2 + n.len()
			&& n.iter().enumerate().all(|(k, c)| {
				let d = s[i + 2 + k];
				if cs {
					d == *c
				} else {
					d.eq_ignore_ascii_case(c)
				}
			}) {
			let mut j = i + 2 + n.len();
			while j < s.len() && ws(s[j]) {
				j += 1;
			}
			if s.get(j) == Some(&'>') {
				return Some((i, j));
			}
		}
		i += 1;
	}
	None
}

pub fn find_seq(s: &[char], from: usize, seq: &str) -> Option<usize> {
	let q: Vec<char> = seq.chars().collect();
	if s.len() < q.len() {
		return None;
	}
	(from..=s.len() - q.len()).find(|&i| s[i..i + q.len()] == q[..])
}

type R<T> = Result<T, MErr>;

fn merr(kind: EK, index: usize) -> MErr {
	MErr {
		kind,
		index: Some(index),
		names: None,
	}
}
fn err<T>(kind: EK, index: usize) -> R<T> {
	Err(merr(kind, index))
}

impl<'a> P<'a> {
	/// the input ends inside a construct that begins at `at` (None: no claim where)
	fn eof<T>(&self, at: Option<usize>) -> R<T> {
		if self.stack.len() > 1 && !self.po.fu {
			let m = self.stack.last().unwrap();
			return merr(EK::UnclosedTag, m.span.0).naming(&m.name);
		}
		Err(MErr {
			kind: EK::UnclosedTag,
			index: at,
			names: None,
		})
	}
	fn top(&mut self) -> &mut M {
		self.stack.last_mut().unwrap()
	}
	fn special(&self) -> Option<&str> {
		self.stack[1..]
			.iter()
			.find(|m| is_special(&m.name))
			.map(|m| m.name.as_str())
	}
	fn add_text(&mut self, t: &str, at: usize, end: usize) {
		if self.text_open {
			let k = self.top().kids.last_mut().unwrap();
			k.content.as_mut().unwrap().push_str(t);
			k.span.1 = end;
		} else {
			let mut m = M::text(Kind::Text, t, at);
			m.span.1 = end;
			self.top().kids.push(m);
			self.text_open = true;
		}
	}
	/// a start tag, comment, doctype or cdata follows
	fn markup_follows(&mut self) {
		if self.text_open {
			let k = self.top().kids.last_mut().unwrap();
			if all_ws(k.content.as_ref().unwrap()) {
				k.kind = Kind::Spaces;
			}
		}
		self.text_open = false;
	}

	fn value(&mut self, mut i: usize, a: &mut MAttr) -> (usize, bool) {
		let s = self.s;
		while i < s.len() && ws(s[i]) {
			i += 1;
		}
		match s.get(i) {
			None => (i, true),
			Some('>') => (i, false),
			Some(&q) if q == '"' || q == '\'' => {
				let mut j = i + 1;
				while j < s.len() && s[j] != q {
					j += 1;
				}
				a.val = Some(s_of(&s[i + 1..j]));
				a.quote = Some(q);
				if j < s.len() {
					(j + 1, false)
				} else {
					(j, true)
				}
			}
			_ => {
				let mut j = i;
				while j < s.len() && !ws(s[j]) && s[j] != '>' {
					j += 1;
				}
				a.val = Some(s_of(&s[i..j]));
				(j, j >= s.len())
			}
		}
	}

	/// everything between the tag name and the closing '>'
	fn lex_attrs(&mut self, mut i: usize, doctype: bool) -> R<Lex> {
		let s = self.s;
		let mut attrs: Vec<MAttr> = vec![];
		let mut slash = false;
		let mut key_end = false; // a bare key followed by whitespace
		loop {
			let c = match s.get(i) {
				None => {
					return Ok(Lex {
						attrs,
						next: i,
						slash,
						eof: true,
					})
				}
				Some(&c) => c,
			};
			if ws(c) {
				i += 1;
				continue;
			}
			match c {
				'>' => {
					return Ok(Lex {
						attrs,
						next: i + 1,
						slash,
						eof: false,
					})
				}
				'/' => {
					slash = true;
					i += 1;
				}
				'=' if key_end => {
					if slash {
						// `key /= value`: no property says whether this assigns
						self.quirk = true;
					}
					let mut a = attrs.pop().unwrap();
					let (n, eof) = self.value(i + 1, &mut a);
					attrs.push(a);
					slash = false;
					key_end = false;
					i = n;
					if eof {
						return Ok(Lex {
							attrs,
							next: i,
							slash,
							eof: true,
						});
					}
				}
				'=' if !self.po.eq => return err(EK::WrongTag, i),
				'"' | '\'' if doctype => {
					let mut a = MAttr {
						key: None,
						val: None,
						quote: None,
					};
					let (n, eof) = self.value(i, &mut a);
					attrs.push(a);
					slash = false;
					key_end = false;
					i = n;
					if eof {
						return Ok(Lex {
							attrs,
							next: i,
							slash,
							eof: true,
						});
					}
				}
				_ => {
					slash = false;
					let mut j = i + 1;
					while j < s.len() && !ws(s[j]) && !matches!(s[j], '=' | '>' | '/') {
						j += 1;
					}
					let mut a = MAttr {
						key: Some(s_of(&s[i..j])),
						val: None,
						quote: None,
					};
					key_end = false;
					match s.get(j) {
						Some('=') => {
							let (n, eof) = self.value(j + 1, &mut a);
							attrs.push(a);
							i = n;
							if eof {
								return Ok(Lex {
									attrs,
									next: i,
									slash,
									eof: true,
								});
							}
						}
						Some(&c) => {
							key_end = ws(c);
							attrs.push(a);
							i = j;
						}
						None => {
							attrs.push(a);
							i = j;
						}
					}
				}
			}
		}
	}

	fn start_tag(&mut self, at: usize) -> R<usize> {
		let s = self.s;
		self.markup_follows();
		let mut i = at + 1;
		while i < s.len() && !ws(s[i]) && s[i] != '>' && s[i] != '/' {
			i += 1;
		}
		let mut m = M::new(Kind::Tag, at);
		m.name = s_of(&s[at + 1..i]);
		m.is_void = is_void(&m.name);
		let lex = self.lex_attrs(i, false)?;
		m.attrs = lex.attrs;
		m.span.1 = lex.next;
		if lex.eof {
			if !self.po.fu {
				return merr(EK::UnclosedTag, at).naming(&m.name);
			}
			m.loose = true;
			self.stack.push(m);
			return Ok(lex.next);
		}
		if lex.slash {
			if !self.po.sc && !m.is_void && self.special().is_none() {
				return merr(EK::WrongSelfClosing, lex.next - 1).naming(&m.name);
			}
			m.self_closed = true;
			self.top().kids.push(m);
			return Ok(lex.next);
		}
		if m.is_void {
			self.top().kids.push(m);
			return Ok(lex.next);
		}
		if is_raw(&m.name) {
			return match find_raw_end(s, lex.next, &m.name, self.po.cs) {
				None if !self.po.fu => merr(EK::UnclosedTag, at).naming(&m.name),
				None => err(EK::UnclosedTag, at),
				Some((a, b)) => {
					m.content = Some(s_of(&s[lex.next..a]));
					m.end = Some(s_of(&s[a + 2..b]));
					m.end_span = Some((a, b + 1));
					self.top().kids.push(m);
					Ok(b + 1)
				}
			};
		}
		self.stack.push(m);
		Ok(lex.next)
	}

	fn end_tag(&mut self, at: usize) -> R<usize> {
		let s = self.s;
		let mut j = at + 2;
		while j < s.len() && s[j] != '>' {
			j += 1;
		}
		if j >= s.len() {
			return self.eof(Some(at));
		}
		let raw = s_of(&s[at + 2..j]);
		let name = trim_end(&raw);
		let matched = self.stack.len() > 1 && self.top().name.eq_ignore_ascii_case(name);
		if matched {
			if self.po.cs && self.top().name != name {
				return merr(EK::WrongCaseSensitive, j).naming(name);
			}
			let text_open = self.text_open;
			let mut m = self.stack.pop().unwrap();
			if text_open && m.kids.len() > 1 {
				let k = m.kids.last_mut().unwrap();
				if all_ws(k.content.as_ref().unwrap()) {
					k.kind = Kind::Spaces;
				}
			}
			m.end = Some(raw);
			m.end_span = Some((at, j + 1));
			self.text_open = false;
			self.top().kids.push(m);
		} else {
			if !self.po.fe {
				return merr(EK::WrongEndTag, j).naming(name);
			}
		}
		Ok(j + 1)
	}

	fn bang(&mut self, at: usize) -> R<usize> {
		let s = self.s;
		let kw = |word: &str| -> Result<bool, ()> {
			// Ok(true) full match, Ok(false) cut off by the end of input, Err mismatch
			for (k, w) in word.chars().enumerate() {
				match s.get(at + 2 + k) {
					None => return Ok(false),
					Some(c) if c.to_ascii_uppercase() == w => {}
					_ => return Err(()),
				}
			}
			Ok(true)
		};
		let c = match s.get(at + 2) {
			None => return self.eof(Some(at)),
			Some(&c) => c,
		};
		match c {
			'-' => match kw("--") {
				Err(()) => err(EK::UnrecognizedTag, at),
				Ok(false) => self.eof(Some(at)),
				Ok(true) => {
					self.markup_follows();
					match find_seq(s, at + 4, "-->") {
						None => self.eof(Some(at)),
						Some(e) => {
							let mut m = M::new(Kind::Comment, at);
							m.content = Some(s_of(&s[at + 4..e]));
							m.span.1 = e + 3;
							self.top().kids.push(m);
							Ok(e + 3)
						}
					}
				}
			},
			'd' | 'D' => match kw("DOCTYPE") {
				Err(()) => err(EK::UnrecognizedTag, at),
				Ok(false) => self.eof(Some(at)),
				Ok(true) => {
					self.markup_follows();
					let mut m = M::new(Kind::Doctype, at);
					m.name = s_of(&s[at + 2..at + 9]);
					match s.get(at + 9) {
						None => return self.eof(Some(at)),
						Some(&c) if !ws(c) => return merr(EK::WrongHtmlDoctype, at + 9).naming(&c.to_string()),
						_ => {}
					}
					let lex = self.lex_attrs(at + 9, true)?;
					if lex.eof {
						return self.eof(Some(at));
					}
					m.attrs = lex.attrs;
					m.self_closed = lex.slash;
					m.span.1 = lex.next;
					self.top().kids.push(m);
					Ok(lex.next)
				}
			},
			'[' => {
				let top = self.stack.last().unwrap().name.clone();
				match self.special() {
					None => return err(EK::CommonError, at + 2),
					Some(n) => {
						if n.eq_ignore_ascii_case(&top) {
							return err(EK::CommonError, at + 2);
						}
					}
				}
				match kw("[CDATA[") {
					Err(()) => err(EK::UnrecognizedTag, at),
					Ok(false) => self.eof(Some(at)),
					Ok(true) => {
						self.markup_follows();
						match find_seq(s, at + 9, "]]>") {
							None => self.eof(Some(at)),
							Some(e) => {
								let mut m = M::new(Kind::CData, at);
								m.content = Some(s_of(&s[at + 9..e]));
								m.span.1 = e + 3;
								self.top().kids.push(m);
								Ok(e + 3)
							}
						}
					}
				}
			}
			_ => err(EK::WrongTag, at),
		}
	}

	fn run(&mut self) -> R<M> {
		let s = self.s;
		let mut i = 0;
		while i < s.len() {
			if s[i] != '<' {
				let mut j = i;
				while j < s.len() && s[j] != '<' {
					j += 1;
				}
				self.add_text(&s_of(&s[i..j]), i, j);
				i = j;
				continue;
			}
			match s.get(i + 1) {
				Some(c) if c.is_ascii_alphabetic() => i = self.start_tag(i)?,
				Some('/') => i = self.end_tag(i)?,
				Some('!') => i = self.bang(i)?,
				c => {
					if !self.po.fl {
						return if c.is_none() {
							self.eof(Some(i))
						} else {
							err(EK::WrongTag, i)
						};
					}
					self.add_text("&lt;", i, i + 1);
					i += 1;
				}
			}
		}
		// end of input
		if self.text_open {
			// not between tags if it is all an unclosed element contains
			let only = self.stack.len() > 1 && self.top().kids.len() == 1;
			let k = self.top().kids.last_mut().unwrap();
			if !only && all_ws(k.content.as_ref().unwrap()) {
				k.kind = Kind::Spaces;
			}
		}
		if self.stack.len() > 1 && !self.po.fu {
			return self.eof(Some(i));
		}
		while self.stack.len() > 1 {
			let mut m = self.stack.pop().unwrap();
			m.auto_fix = true;
			if !m.is_void {
				m.end = Some(m.name.clone());
			}
			self.top().kids.push(m);
		}
		let mut root = self.stack.pop().unwrap();
		root.span = (0, s.len());
		Ok(root)
	}
}

pub fn model_parse(s: &[char], po: Po) -> MOut {
	let mut p = P {
		s,
		po,
		stack: vec![M::new(Kind::Root, 0)],
		quirk: false,
		text_open: false,
	};
	let res = p.run();
	MOut {
		res,
		quirk: p.quirk,
	}
}

// ---------------------------------------------------------------- reference renderer

pub fn must_quote(v: &str) -> bool {
	v.is_empty()
		|| v
			.chars()
			.any(|c| ws(c) || matches!(c, '"' | '\'' | '<' | '>' | '=' | '`'))
}

pub fn render_attr(a: &MAttr, unquote: bool) -> String {
	let mut o = String::new();
	if let Some(k) = &a.key {
		o.push_str(k);
	}
	if let Some(v) = &a.val {
		if a.key.is_some() {
			o.push('=');
		}
		match a.quote {
			Some(q) if !unquote || a.key.is_none() || must_quote(v) => {
				o.push(q);
				o.push_str(v);
				o.push(q);
			}
			_ => o.push_str(v),
		}
	}
	o
}

pub fn ref_decode(s: &str) -> String {
	let c: Vec<char> = s.chars().collect();
	let mut o = String::new();
	let mut i = 0;
	while i < c.len() {
		if c[i] == '&' {
			let mut j = i + 1;
			while j < c.len() && c[j] != '&' && c[j] != ';' {
				j += 1;
			}
			if j < c.len() && c[j] == ';' && j > i + 1 {
				if let Ok(d) = rphtml::entity::Entity::decode_chars(&c[i + 1..j]) {
					o.push(d);
					i = j + 1;
					continue;
				}
			}
		}
		o.push(c[i]);
		i += 1;
	}
	o
}

pub fn collapse(s: &str) -> String {
	let mut o = String::new();
	let mut prev = false;
	for c in s.chars() {
		if ws(c) {
			if !prev {
				o.push(c);
			}
			prev = true;
		} else {
			o.push(c);
			prev = false;
		}
	}
	o
}

pub fn encode_html(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		match c {
			'&' => o.push_str("&amp;"),
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			_ => o.push(c),
		}
	}
	o
}

pub fn render_open(m: &M, ro: &Ro, o: &mut String) {
	o.push('<');
	if ro.lower {
		o.push_str(&m.lname());
	} else {
		o.push_str(&m.name);
	}
	for a in &m.attrs {
		o.push(' ');
		o.push_str(&render_attr(a, ro.unquote));
	}
	if m.self_closed || (m.is_void && ro.closevoid) {
		o.push_str(" /");
	}
	o.push('>');
}

pub fn render_close(m: &M, ro: &Ro, o: &mut String) {
	if let Some(e) = &m.end {
		o.push_str("</");
		let e = if ro.endsp { trim_end(e) } else { e };
		if ro.lower {
			o.push_str(&e.to_ascii_lowercase());
		} else {
			o.push_str(e);
		}
		o.push('>');
	}
}

/// what stands between the start and the end tag
pub fn render_inner(m: &M, ro: &Ro, in_pre: bool, o: &mut String) {
	let in_pre = in_pre || (m.kind == Kind::Tag && m.lname() == "pre");
	if m.kind == Kind::Tag {
		if let Some(c) = &m.content {
			if ro.encode && is_plain(&m.name) {
				o.push_str(&encode_html(c));
			} else {
				o.push_str(c);
			}
		}
	}
	for k in &m.kids {
		render_to(k, ro, in_pre, o);
	}
}

pub fn render_to(m: &M, ro: &Ro, in_pre: bool, o: &mut String) {
	match m.kind {
		Kind::Root => render_inner(m, ro, in_pre, o),
		Kind::Text => {
			let c = m.content.as_deref().unwrap_or("");
			let t = if ro.minify && !in_pre {
				collapse(c)
			} else {
				c.to_string()
			};
			if ro.decode {
				o.push_str(&ref_decode(&t));
			} else {
				o.push_str(&t);
			}
		}
		Kind::Spaces => {
			if !(ro.minify && !in_pre) {
				o.push_str(m.content.as_deref().unwrap_or(""));
			}
		}
		Kind::Tag => {
			render_open(m, ro, o);
			render_inner(m, ro, in_pre, o);
			render_close(m, ro, o);
		}
		Kind::Doctype => {
			o.push_str("<!");
			o.push_str(&m.name);
			for a in &m.attrs {
				o.push(' ');
				o.push_str(&render_attr(a, ro.unquote));
			}
			if m.attrs.is_empty() {
				o.push(' ');
			}
			o.push('>');
		}
		Kind::Comment => {
			if !ro.nocomment {
				o.push_str("<!--");
				o.push_str(m.content.as_deref().unwrap_or(""));
				o.push_str("-->");
			}
		}
		Kind::CData => {
			o.push_str("<![CDATA[");
			o.push_str(m.content.as_deref().unwrap_or(""));
			o.push_str("]]>");
		}
	}
}

pub fn render(m: &M, ro: &Ro) -> String {
	let mut o = String::new();
	render_to(m, ro, false, &mut o);
	o
}

/// text of an element: its text and raw content, without tags and comments
pub fn render_text(m: &M, ro: &Ro, in_pre: bool, o: &mut String) {
	let in_pre = in_pre || (m.kind == Kind::Tag && m.lname() == "pre");
	if m.kind == Kind::Tag {
		if let Some(c) = &m.content {
			if ro.encode && is_plain(&m.name) {
				o.push_str(&encode_html(c));
			} else {
				o.push_str(c);
			}
		}
	}
	for k in &m.kids {
		match k.kind {
			Kind::Tag => render_text(k, ro, in_pre, o),
			Kind::Comment | Kind::Doctype => {}
			Kind::CData => o.push_str(k.content.as_deref().unwrap_or("")),
			_ => render_to(k, ro, in_pre, o),
		}
	}
}
