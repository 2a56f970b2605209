//! The registry of properties and helpers they share.
pub mod life;
pub mod misc;
pub mod parsing;
pub mod rendering;
pub mod repair;
pub mod tree;

use crate::gen::*;
use crate::model::*;
use crate::opts::{Po, Ro};
use crate::real::*;
use crate::tape::{hash_of, Src};
use crate::{Cx, Info, Prop};
use rphtml::parser::{DocHolder, NodeType, RefNode};
use std::collections::HashSet;
use std::process::{Command, Stdio};

pub fn all() -> Vec<Prop> {
	let mut v = vec![];
	v.extend(tree::props());
	v.extend(parsing::props());
	v.extend(repair::props());
	v.extend(rendering::props());
	v.extend(misc::props());
	v.extend(life::props());
	v.sort_by_key(|p| p.id);
	v
}

pub fn find(id: &str) -> Option<Prop> {
	all().into_iter().find(|p| p.id == id)
}

/// is a listed finding (its line in KNOWN_FINDINGS.txt, "[key] text") still there?
pub fn finding_present(line: &str) -> bool {
	let key = line
		.trim_start()
		.strip_prefix('[')
		.and_then(|l| l.split(']').next())
		.unwrap_or("");
	let exe = std::env::current_exe().unwrap();
	match Command::new(exe)
		.args(["probe", key])
		.stdout(Stdio::null())
		.stderr(Stdio::null())
		.status()
	{
		// exit 0: reproduced; killed: the crash itself is the finding
		Ok(s) => s.code().map_or(true, |c| c == 0),
		Err(_) => false,
	}
}

/// reproduce one finding: true when it is there
pub fn probe(key: &str) -> bool {
	match key {
		"deep-nesting" => {
			let n = 200_000;
			let src = format!("{}{}", "<b>".repeat(n), "</b>".repeat(n));
			if let Ok(d) = parse(&src, Po::default()) {
				let _ = d.render(&Ro::default().real());
			}
			false
		}
		"equal-sign-key-after-bare-key" => {
			let po = Po {
				eq: true,
				..Po::default()
			};
			match parse("<b x/=c></b>", po) {
				Ok(d) => {
					let a = snap_ref(&d.get_root_node());
					let out = d.render(&Ro::default().real());
					match parse(&out, po) {
						Ok(d2) => diff(&a, &snap_ref(&d2.get_root_node()), &Cmp::MEANING).is_some(),
						Err(_) => true,
					}
				}
				Err(_) => false,
			}
		}
		"lowercase-raw-end-tag" => {
			let po = Po {
				cs: true,
				..Po::default()
			};
			let ro = Ro {
				lower: true,
				..Ro::default()
			};
			match parse("<TITLE></title></TITLE>", po) {
				Ok(d) => match parse(&d.render(&ro.real()), po) {
					Ok(d2) => snap_ref(&d2.get_root_node()).kids[0].content != snap_ref(&d.get_root_node()).kids[0].content,
					Err(_) => true,
				},
				Err(_) => false,
			}
		}
		"lt-before-letter" => {
			let po = Po {
				fl: true,
				..Po::default()
			};
			match parse("<div>a<b</div>", po) {
				Ok(d) => d.render(&Ro::default().real()) != "<div>a&lt;b</div>",
				Err(_) => true,
			}
		}
		_ => false,
	}
}

// ---------------------------------------------------------------- helpers

pub fn any_po(s: &mut Src) -> Po {
	Po::from_bits(s.below(64))
}
pub fn strict_po(s: &mut Src) -> Po {
	Po::from_bits(s.below(8))
}
/// any options of the outer rendering
pub fn any_ro(s: &mut Src) -> Ro {
	Ro::from_bits(s.below(256))
}

pub fn show(src: &[char]) -> String {
	let s = s_of(src);
	if s.chars().count() > 300 {
		format!("{:?}…", s.chars().take(300).collect::<String>())
	} else {
		format!("{:?}", s)
	}
}
pub fn fail<T>(src: &[char], po: Po, what: String) -> Result<T, String> {
	Err(format!("source {} options {:?}: {}", show(src), po, what))
}

/// parse a source that must be accepted
pub fn accept(src: &[char], po: Po) -> Result<DocHolder, String> {
	match parse(&s_of(src), po) {
		Ok(d) => Ok(d),
		Err(e) => fail(src, po, format!("rejected: {}", e.text)),
	}
}
pub fn accept_tree(src: &[char], po: Po) -> Result<M, String> {
	Ok(snap_ref(&accept(src, po)?.get_root_node()))
}

/// parse a constructed document and compare with the tree it was built from
pub fn same_tree(d: &Doc, po: Po, c: &Cmp) -> Result<M, String> {
	let got = accept_tree(&d.src, po)?;
	match diff(&d.root, &got, c) {
		None => Ok(got),
		Some(w) => fail(&d.src, po, w),
	}
}

pub fn sample(src: &[char], po: Po) -> String {
	format!("{:?} {:?}", s_of(src), po)
}
pub fn info(nontrivial: bool, src: &[char], extra: usize, smp: String) -> Info {
	Info::new(nontrivial, hash_of(&(src, extra)), smp)
}

/// the literal source of the case (replaceable) from the soup generator
pub fn soup_src(cx: &mut Cx, po: Po, p: &Profile) -> Vec<char> {
	let v = soup(&mut cx.s, po, p);
	cx.source(v)
}

/// differential against the reference parser on arbitrary text; `f` compares an accepted tree
pub enum Against {
	/// both accept: expected, actual
	Both(M, M),
	/// both reject: model error, actual error
	Neither(MErr, PErr),
	/// one accepts what the other rejects
	Split(String),
	/// the source uses a construct no property gives a meaning to
	Quirk,
}
pub fn against(src: &[char], po: Po) -> Against {
	let m = model_parse(src, po);
	if m.quirk {
		return Against::Quirk;
	}
	let r = parse(&s_of(src), po);
	match (m.res, r) {
		(Ok(e), Ok(d)) => Against::Both(e, snap_ref(&d.get_root_node())),
		(Err(e), Err(g)) => Against::Neither(e, g),
		(Ok(_), Err(g)) => Against::Split(format!("must be accepted, rejected: {}", g.text)),
		(Err(e), Ok(_)) => Against::Split(format!("must be rejected with {:?}, accepted", e.kind)),
	}
}

pub fn ptr(n: &RefNode) -> usize {
	n.as_ptr() as *const u8 as usize
}

/// links of a whole tree; `top` has no parent
pub fn links(top: &RefNode, root: Option<&RefNode>) -> Result<usize, String> {
	let mut seen: HashSet<usize> = HashSet::new();
	let mut todo = vec![top.clone()];
	seen.insert(ptr(top));
	while let Some(n) = todo.pop() {
		let b = n.borrow();
		if let Some(root) = root {
			match b.root.as_ref().and_then(|r| r.up()) {
				Some(r) if ptr(&r) == ptr(root) => {}
				_ => return Err(format!("the root link of a {:?} does not lead to the root", b.node_type)),
			}
		}
		if let Some(e) = &b.end_tag {
			if !seen.insert(ptr(e)) {
				return Err("an end tag occurs twice".into());
			}
			let eb = e.borrow();
			if eb.node_type != NodeType::TagEnd {
				return Err(format!("end tag of type {:?}", eb.node_type));
			}
			if b.node_type != NodeType::Tag {
				return Err(format!("a {:?} has an end tag", b.node_type));
			}
			if eb.content.is_none() {
				return Err("an end tag without a name".into());
			}
			match eb.parent.as_ref().and_then(|r| r.up()) {
				Some(r) if ptr(&r) == ptr(&n) => {}
				_ => return Err("the parent of an end tag is not its element".into()),
			}
		}
		if let Some(kids) = &b.childs {
			if !kids.is_empty() && !matches!(b.node_type, NodeType::Tag | NodeType::AbstractRoot) {
				return Err(format!("a {:?} has children", b.node_type));
			}
			if let (Some(m), false) = (&b.meta, kids.is_empty()) {
				let m = m.borrow();
				if m.is_void || m.self_closed || (b.content.is_some() && is_raw(&s_of(&m.name))) {
					return Err(format!("<{}> can't have children", s_of(&m.name)));
				}
			}
			for (i, k) in kids.iter().enumerate() {
				if !seen.insert(ptr(k)) {
					return Err("a node occurs twice in the tree".into());
				}
				let kb = k.borrow();
				if kb.index != i {
					return Err(format!("child {} has index {}", i, kb.index));
				}
				if matches!(kb.node_type, NodeType::AbstractRoot | NodeType::TagEnd) {
					return Err(format!("a {:?} among the children", kb.node_type));
				}
				match kb.parent.as_ref().and_then(|r| r.up()) {
					Some(r) if ptr(&r) == ptr(&n) => {}
					_ => return Err(format!("child {} ({:?}) has another parent", i, kb.node_type)),
				}
				todo.push(k.clone());
			}
		}
		match b.node_type {
			NodeType::Tag | NodeType::HTMLDOCTYPE => {
				if b.meta.is_none() {
					return Err(format!("a {:?} without a name", b.node_type));
				}
			}
			NodeType::Text | NodeType::SpacesBetweenTag => {
				if b.content.as_ref().map_or(true, |c| c.is_empty()) {
					return Err("an empty text".into());
				}
			}
			_ => {}
		}
	}
	Ok(seen.len())
}

/// a very wide document against the reference parser
pub fn wide_same(cx: &mut Cx, attrs_only: bool, c: &Cmp) -> Result<(Vec<char>, Po, String, M), String> {
	let po = any_po(&mut cx.s);
	let (v, what) = wide(&mut cx.s, attrs_only);
	let shown = &v[..v.len().min(40)];
	let e = match model_parse(&v, po).res {
		Ok(e) => e,
		Err(e) => return fail(shown, po, format!("{}: the reference rejects it: {:?}", what, e.kind)),
	};
	let g = match parse(&s_of(&v), po) {
		Ok(d) => snap_ref(&d.get_root_node()),
		Err(e) => return fail(shown, po, format!("{}: rejected: {}", what, e.text)),
	};
	if let Some(w) = diff(&e, &g, c) {
		return fail(shown, po, format!("{}: {}", what, w.chars().take(300).collect::<String>()));
	}
	Ok((v, po, what, g))
}
