//! C29: what is kept and what is freed.
use super::*;
use crate::mem;
use crate::{Res, Sub};
use rphtml::parser::Node;
use std::cell::RefCell;
use std::rc::{Rc, Weak};

fn p() -> Profile {
	Profile {
		max_kids: 4,
		..Profile::default()
	}
}

/// the nodes under (and with) these, end tags included
fn reach(tops: &[RefNode]) -> HashSet<usize> {
	let mut seen = HashSet::new();
	let mut todo = tops.to_vec();
	while let Some(n) = todo.pop() {
		if !seen.insert(ptr(&n)) {
			continue;
		}
		let b = n.borrow();
		todo.extend(b.end_tag.iter().cloned());
		todo.extend(b.childs.iter().flatten().cloned());
	}
	seen
}
fn with_ends(top: &RefNode) -> Vec<RefNode> {
	let mut v = nodes(top);
	let ends: Vec<RefNode> = v.iter().filter_map(|n| n.borrow().end_tag.clone()).collect();
	v.extend(ends);
	v
}
fn weaks(top: &RefNode) -> Vec<(Weak<RefCell<Node>>, usize)> {
	with_ends(top).iter().map(|n| (Rc::downgrade(n), ptr(n))).collect()
}

fn c29_drop(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let ro = any_ro(s);
	let mut later = s.fork(24);
	let src: Vec<char> = if s.chance(2, 3) {
		well_formed(s, po, p()).src
	} else {
		soup(s, po, &p())
	};
	let h = match parse(&s_of(&src), po) {
		Ok(h) => h,
		Err(_) => return Ok(info(false, &src, po.bits(), sample(&src, po)).label(true, "rejected")),
	};
	let s = &mut later;
	let root = h.get_root_node();
	let mut watch = weaks(&root);
	let size = watch.len();
	// the handles which outlive the document
	let mut kept: Vec<RefNode> = vec![];
	for _ in 0..s.below(4) {
		let v = match s.below(4) {
			0 => nodes(&root),
			1 => with_ends(&root),
			_ => {
				let mut v = nodes(&root);
				if v.iter().any(|n| n.borrow().childs.is_some()) {
					v.retain(|n| n.borrow().childs.is_some());
				}
				// not the root, if there is another
				if v.len() > 1 {
					v.remove(0);
				}
				v
			}
		};
		kept.push(v[s.below(v.len())].clone());
	}
	if s.chance(1, 4) {
		let id = *s.pick(&["a", "b", "x", ""]);
		kept.extend(h.get_element_by_id(id));
	}
	let cloned = s.chance(1, 3);
	if cloned {
		let v = nodes(&root);
		let c = v[s.below(v.len())].borrow().clone_node();
		watch.extend(weaks(&c));
		kept.push(c);
	}
	// a node which gets a place in another document
	let mut other = None;
	if !kept.is_empty() && s.chance(1, 3) {
		let i = s.below(kept.len());
		let kind = kept[i].borrow().node_type;
		if !matches!(kind, NodeType::AbstractRoot | NodeType::TagEnd) {
			let n = kept.remove(i);
			let h2 = match parse("<i>1</i>", Po::default()) {
				Ok(h) => h,
				Err(e) => return Err(format!("<i>1</i> rejected: {}", e.text)),
			};
			let r2 = h2.get_root_node();
			match &mut r2.borrow_mut().childs {
				Some(c) => c.push(n),
				None => return Err("<i>1</i> has no nodes".into()),
			}
			watch.extend(weaks(&r2).into_iter().filter(|w| watch.iter().all(|x| x.1 != w.1)).collect::<Vec<_>>());
			other = Some(h2);
		}
	}
	let look = |n: &RefNode| {
		let end = n.borrow().node_type == NodeType::TagEnd;
		let text = if end { String::new() } else { outer(n, &ro) };
		(snap_ref(n), text, n.borrow().content.clone())
	};
	let before: Vec<_> = kept.iter().map(look).collect();
	let there: Option<String> = other.as_ref().map(|h| h.render(&ro.real()));
	// some use of the document before it goes
	if s.chance(1, 2) {
		let _ = h.render(&ro.real());
		let _ = root.borrow().is_document();
	}
	let held = before.len();
	let whole = look(&root);
	let why = |w: &str, stage: &str| format!("{} ({}; {} handles kept, clone {}, other {})", w, stage, held, cloned, there.is_some());
	// another holder of the same document, from the root's link
	let mut h = h;
	if s.chance(1, 4) {
		let d = match root.borrow().document.as_ref().and_then(|d| d.up()) {
			Some(d) => d,
			None => return fail(&src, po, why("the root does not lead to its document", "all held")),
		};
		let again = DocHolder::from(d);
		let ids: Vec<String> = ["a", "b", "x", ""].iter().map(|i| i.to_string()).collect();
		let found = |h: &DocHolder| ids.iter().map(|i| h.get_element_by_id(i).map(|n| ptr(&n))).collect::<Vec<_>>();
		if found(&h) != found(&again) || !Rc::ptr_eq(&h.get_root_node(), &again.get_root_node()) {
			return fail(&src, po, why("a second holder leads to other nodes", "all held"));
		}
		h = again;
		if h.render(&ro.real()) != whole.1 {
			return fail(&src, po, why("a second holder renders another text", "first holder dropped"));
		}
	}
	// as long as the holder or the root is there, all of it is
	let root_last = s.chance(1, 2);
	if root_last {
		drop(h);
		if watch.iter().any(|w| w.0.upgrade().is_none()) {
			return fail(&src, po, why("a node is gone while the root is held", "holder dropped"));
		}
		let now = look(&root);
		if diff(&whole.0, &now.0, &Cmp::ALL).is_some() || whole.1 != now.1 {
			return fail(&src, po, why("the tree changed", "holder dropped"));
		}
		drop(root);
	} else {
		drop(root);
		if watch.iter().any(|w| w.0.upgrade().is_none()) {
			return fail(&src, po, why("a node is gone while the document is held", "root handle dropped"));
		}
		drop(h);
	}
	let mut before = before;
	let mut stage = "document dropped";
	loop {
		let mut tops = kept.clone();
		tops.extend(other.iter().map(|h| h.get_root_node()));
		let alive = reach(&tops);
		drop(tops);
		for (w, id) in &watch {
			match (w.upgrade(), alive.contains(id)) {
				(Some(n), false) => {
					let d = format!("a {:?} is not freed", n.borrow().node_type);
					return fail(&src, po, why(&d, stage));
				}
				(None, true) => return fail(&src, po, why("a node which is held is gone", stage)),
				_ => {}
			}
		}
		for (n, b) in kept.iter().zip(&before) {
			let now = look(n);
			if let Some(d) = diff(&b.0, &now.0, &Cmp::ALL) {
				return fail(&src, po, why(&format!("a kept node changed: {}", d), stage));
			}
			if b.1 != now.1 || b.2 != now.2 {
				return fail(&src, po, why(&format!("a kept node renders {:?}, before {:?}", now.1, b.1), stage));
			}
		}
		if let (Some(h), Some(t)) = (&other, &there) {
			let now = h.render(&ro.real());
			if now != *t {
				return fail(&src, po, why(&format!("the other document renders {:?}, before {:?}", now, t), stage));
			}
		}
		// the next one goes
		if kept.is_empty() && other.is_none() {
			break;
		}
		let i = s.below(kept.len() + 1);
		if i < kept.len() {
			kept.remove(i);
			before.remove(i);
			stage = "a handle dropped";
		} else if other.is_some() {
			other = None;
			stage = "other document dropped";
		} else {
			kept.pop();
			before.pop();
			stage = "a handle dropped";
		}
	}
	let kept_any = cloned || there.is_some() || stage != "document dropped";
	Ok(info(size >= 3, &src, po.bits(), sample(&src, po))
		.label(kept_any, "handles outlive the document")
		.label(there.is_some(), "a node moved to another document"))
}

fn use_once(src: &str, po: Po, ro: &Ro, which: usize) -> bool {
	let h = match parse(src, po) {
		Ok(h) => h,
		Err(_) => return false,
	};
	let _ = h.render(&ro.real());
	let root = h.get_root_node();
	let v = nodes(&root);
	let n = &v[which % v.len()];
	let c = n.borrow().clone_node();
	let _ = outer(&c, ro);
	if is_tag(n) {
		let _ = inner_text(n, ro);
	}
	let _ = n.borrow().is_document();
	let _ = h.get_element_by_id("a");
	true
}

fn c29_leak(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let ro = any_ro(&mut cx.s);
	let which = cx.s.below(64);
	let src = if cx.s.chance(1, 2) {
		well_formed(&mut cx.s, po, p()).src
	} else {
		soup_src(cx, po, &p())
	};
	let text = s_of(&src);
	// whatever is set up once, or kept for next time, is there after some rounds
	let mut ok = false;
	let mut in_use = vec![0isize; 7];
	for i in 0..7 {
		ok = use_once(&text, po, &ro, which);
		in_use[i] = mem::live();
	}
	if in_use[2..].windows(2).all(|w| w[1] > w[0]) {
		let by: Vec<isize> = in_use[2..].windows(2).map(|w| w[1] - w[0]).collect();
		return fail(&src, po, format!("each use of the same text leaves bytes behind: {:?}", by));
	}
	Ok(info(src.len() >= 3, &src, po.bits(), sample(&src, po)).label(!ok, "rejected").label(ok, "accepted"))
}

fn c29_proportion(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let deep = s.chance(1, 4);
	let ro = any_ro(s);
	let d = well_formed(s, po, p()).src;
	let one = s_of(&d);
	let n = one.chars().count();
	if n == 0 || n > 400 || d.iter().filter(|&&c| c == '<').count() > 60 {
		return Ok(info(false, &d, po.bits(), sample(&d, po)).label(true, "empty or long"));
	}
	let times = |k: usize| {
		if deep {
			format!("{}{}", format!("<p>{}", one).repeat(k), "</p>".repeat(k))
		} else {
			one.repeat(k)
		}
	};
	let run = |t: &str| parse(t, po).ok().map(|h| h.render(&ro.real()).len());
	let (a, b) = (times(40), times(320));
	let _ = run(&one);
	let (x, small) = mem::peak(|| run(&a));
	let (y, large) = mem::peak(|| run(&b));
	if x.is_none() || y.is_none() {
		return Ok(info(false, &d, po.bits(), sample(&d, po)).label(true, "rejected"));
	}
	// eight times the text: vectors that double may take twice the share
	if large > 24 * small + (1 << 18) {
		return fail(
			&d,
			po,
			format!("40 times it takes {} bytes, 320 times it {} bytes (nested: {})", small, large, deep),
		);
	}
	Ok(info(true, &d, po.bits(), sample(&d, po)).label(deep, "nested"))
}

pub fn props() -> Vec<Prop> {
	vec![Prop {
		id: "C29",
		rule: "documents under all 64 option sets, 0 to 4 handles (nodes, end tags, elements found by id, clones) kept beyond the document, one of them now and then moved to another document, everything dropped in random order; the same text parsed, rendered and dropped seven times, rejected ones included; a text repeated 40 and 320 times, side by side or nested; non-trivial: 3 nodes or more / 3 characters or more / accepted",
		subs: vec![
			Sub { name: "drop", cases: 150_000, tape: 260, f: c29_drop },
			Sub { name: "leak", cases: 50_000, tape: 200, f: c29_leak },
			Sub { name: "proportion", cases: 600, tape: 60, f: c29_proportion },
		],
		once: None,
		assumptions: &["memory kept once for later use (tables, caches) is not counted: only growth in every round"],
	}]
}
