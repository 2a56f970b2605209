//! Thin access to the crate under test.
use crate::model::EK;
use crate::opts::{Po, Ro};
use rphtml::error::{ErrorKind, ParseError};
use rphtml::parser::{Doc, DocHolder, NodeType, RefNode};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PErr {
	pub kind: EK,
	pub line: usize,
	pub col: usize,
	pub index: usize,
	pub text: String,
	/// what the error names
	pub names: String,
}

pub fn to_perr(e: &(dyn std::error::Error + Send + Sync + 'static)) -> Option<PErr> {
	let p = e.downcast_ref::<ParseError>()?;
	let kind = match &p.kind {
		ErrorKind::WrongTag(_) => EK::WrongTag,
		ErrorKind::WrongEndTag(_) => EK::WrongEndTag,
		ErrorKind::UnclosedTag(_) => EK::UnclosedTag,
		ErrorKind::WrongHtmlDoctype(_) => EK::WrongHtmlDoctype,
		ErrorKind::UnrecognizedTag(..) => EK::UnrecognizedTag,
		ErrorKind::WrongCaseSensitive(_) => EK::WrongCaseSensitive,
		ErrorKind::WrongSelfClosing(_) => EK::WrongSelfClosing,
		ErrorKind::CommonError(_) => EK::CommonError,
		_ => EK::Other,
	};
	let names = match &p.kind {
		ErrorKind::WrongTag(s)
		| ErrorKind::WrongEndTag(s)
		| ErrorKind::UnclosedTag(s)
		| ErrorKind::UnrecognizedTag(s, _)
		| ErrorKind::WrongCaseSensitive(s)
		| ErrorKind::WrongSelfClosing(s)
		| ErrorKind::CommonError(s) => s.clone(),
		ErrorKind::WrongHtmlDoctype(c) => c.to_string(),
		_ => String::new(),
	};
	let text = p.to_string();
	let num = |key: &str| -> usize {
		text
			.find(key)
			.and_then(|i| {
				text[i + key.len()..]
					.split(|c: char| !c.is_ascii_digit())
					.next()
					.and_then(|d| d.parse().ok())
			})
			.unwrap_or(usize::MAX)
	};
	Some(PErr {
		kind,
		line: num("[line:"),
		col: num(",col:"),
		index: num(",index:"),
		text,
		names,
	})
}

pub fn parse(src: &str, po: Po) -> Result<DocHolder, PErr> {
	Doc::parse(src, po.real()).map_err(|e| {
		to_perr(&*e).unwrap_or(PErr {
			kind: EK::Other,
			line: 0,
			col: 0,
			index: 0,
			text: format!("not a ParseError: {}", e),
			names: String::new(),
		})
	})
}

pub fn outer(n: &RefNode, ro: &Ro) -> String {
	let ro = Ro { inner: false, ..*ro };
	n.borrow().build(&ro.real(), false).iter().collect()
}
pub fn inner(n: &RefNode, ro: &Ro) -> String {
	let ro = Ro { inner: true, ..*ro };
	n.borrow().build(&ro.real(), false).iter().collect()
}
pub fn inner_text(n: &RefNode, ro: &Ro) -> String {
	let ro = Ro { inner: false, ..*ro };
	n.borrow().build(&ro.real(), true).iter().collect()
}

/// every node of the tree in document order, end tags excluded
pub fn nodes(root: &RefNode) -> Vec<RefNode> {
	let mut v = vec![];
	let mut todo = vec![root.clone()];
	while let Some(n) = todo.pop() {
		if let Some(c) = &n.borrow().childs {
			for k in c.iter().rev() {
				todo.push(k.clone());
			}
		}
		v.push(n);
	}
	v
}

pub fn is_tag(n: &RefNode) -> bool {
	n.borrow().node_type == NodeType::Tag
}

/// a link of a node, whether it holds what it leads to or not
pub trait Link<T>: Sized {
	fn up(&self) -> Option<std::rc::Rc<T>>;
	fn of(n: &std::rc::Rc<T>) -> Self;
}
impl<T> Link<T> for std::rc::Weak<T> {
	fn up(&self) -> Option<std::rc::Rc<T>> {
		self.upgrade()
	}
	fn of(n: &std::rc::Rc<T>) -> Self {
		std::rc::Rc::downgrade(n)
	}
}
impl<T> Link<T> for std::rc::Rc<T> {
	fn up(&self) -> Option<std::rc::Rc<T>> {
		Some(self.clone())
	}
	fn of(n: &std::rc::Rc<T>) -> Self {
		n.clone()
	}
}
