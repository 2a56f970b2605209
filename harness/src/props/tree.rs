//! C01, C04, C21, C22, C25, C28: totality, the tree, histories.
use super::*;
use crate::{Res, Sub};
use rphtml::parser::{Attr, AttrData, Node, TagMeta};
use std::cell::RefCell;
use std::rc::Rc;

fn attr_of(key: Option<&str>, val: Option<&str>, quote: Option<char>, need: bool) -> Attr {
	let data = |t: &str| {
		let mut d = AttrData::default();
		d.content = t.chars().collect();
		d
	};
	let mut a = Attr::default();
	a.key = key.map(data);
	a.value = val.map(data);
	a.quote = quote;
	a.need_quote = need;
	a
}

fn p() -> Profile {
	Profile {
		max_kids: 5,
		..Profile::default()
	}
}

// ---- C01

/// everything the api offers on one document; none of it may panic
fn exercise(src: &[char], po: Po, s: &mut Src) -> Result<bool, String> {
	let text = s_of(src);
	let h = match parse(&text, po) {
		Ok(h) => h,
		Err(e) => {
			if e.kind == EK::Other {
				return fail(src, po, format!("an error of no documented kind: {}", e.text));
			}
			return Ok(false);
		}
	};
	let ro = any_ro(s);
	let root = h.get_root_node();
	let _ = h.render(&ro.real());
	let _ = h.render(&Ro::default().real());
	let _ = h.get_element_by_id("x");
	let _ = h.get_element_by_id("");
	let _ = root.borrow().is_document();
	let _ = format!("{:?}", root.borrow()).len();
	for n in nodes(&root) {
		let t = n.borrow().node_type;
		let _ = outer(&n, &ro);
		if t == NodeType::Tag {
			let _ = inner(&n, &ro);
		}
		if matches!(t, NodeType::Tag | NodeType::Comment | NodeType::XMLCDATA) {
			let _ = inner_text(&n, &ro);
		}
		let _ = n.borrow().is_document();
	}
	let c = root.borrow().clone_node();
	let _ = outer(&c, &ro);
	let v = nodes(&root);
	let n = v[s.below(v.len())].clone();
	let c = n.borrow().clone_node();
	drop(h);
	drop(root);
	let _ = outer(&c, &ro);
	Ok(true)
}

fn c01_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let mut later = cx.s.fork(2);
	let src = soup_src(cx, po, &p());
	let ok = exercise(&src, po, &mut later)?;
	Ok(info(src.len() >= 3, &src, po.bits(), sample(&src, po))
		.label(ok, "accepted")
		.label(!ok, "rejected")
		.label(po.has_repair(), "some repair on"))
}

/// the input cut off after every single character
fn c01_prefixes(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(
		&mut cx.s,
		po,
		Profile {
			max_kids: 3,
			max_depth: 4,
			..p()
		},
	);
	let step = 1 + d.src.len() / 60;
	let mut i = 0;
	while i <= d.src.len() {
		exercise(&d.src[..i], po, &mut cx.s)?;
		i += step;
	}
	Ok(info(d.src.len() > 10, &d.src, po.bits(), sample(&d.src, po)))
}

/// deep nesting (up to 1000 levels), many siblings, long names, texts and attribute lists
fn c01_large(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let n = 1 + s.below(1000);
	let src: String = match s.below(7) {
		0 => format!("{}x{}", "<b>".repeat(n), "</b>".repeat(n)),
		1 => "<b>".repeat(n),
		2 => "<br><p> </p>x".repeat(n),
		3 => format!("<b {}>", "a='1' b c=2 ".repeat(n)),
		4 => format!("<{}>{}</{}>", "x".repeat(n), "y".repeat(n), "x".repeat(n)),
		5 => format!("{}{}", "<svg><g>".repeat(n / 2), "</b>".repeat(n)),
		_ => format!("{}{}", "<div><pre> ".repeat(n / 2), "<".repeat(n)),
	};
	let src: Vec<char> = src.chars().collect();
	let text = s_of(&src);
	let ok = match parse(&text, po) {
		Ok(h) => {
			let ro = any_ro(s);
			let _ = h.render(&ro.real());
			let c = h.get_root_node().borrow().clone_node();
			drop(h);
			let _ = outer(&c, &ro);
			true
		}
		Err(_) => false,
	};
	Ok(info(n > 100, &src, po.bits(), format!("{} characters, {:?}…", src.len(), text.chars().take(60).collect::<String>()))
		.label(ok, "accepted"))
}

// ---- C04

fn check_links(src: &[char], po: Po) -> Result<Option<M>, String> {
	let h = match parse(&s_of(src), po) {
		Ok(h) => h,
		Err(_) => return Ok(None),
	};
	let root = h.get_root_node();
	if root.borrow().node_type != NodeType::AbstractRoot || root.borrow().parent.is_some() {
		return fail(src, po, "the root is not a root".into());
	}
	let n = match links(&root, Some(&root)) {
		Ok(n) => n,
		Err(w) => return fail(src, po, w),
	};
	// the root leads to the document, which leads to the root
	let doc = root.borrow().document.as_ref().and_then(|d| d.up());
	match doc {
		Some(d) if ptr(&d.borrow().root) == ptr(&root) => {}
		_ => return fail(src, po, "the root's document is not this document".into()),
	}
	let m = snap_ref(&root);
	// elements: open ones have an end tag, the others have none
	let mut bad = None;
	m.walk(&mut |m| {
		if m.kind == Kind::Tag {
			let open = !m.is_void && !m.self_closed;
			if open != m.end.is_some() {
				bad = Some(format!("<{}> {} an end tag", m.name, if open { "lacks" } else { "has" }));
			}
		}
		for w in m.kids.windows(2) {
			if w[0].is_text() && w[1].is_text() {
				bad = Some("two texts side by side".into());
			}
		}
	});
	if let Some(w) = bad {
		return fail(src, po, w);
	}
	let _ = n;
	// the same node, and only that, is the same
	let v = nodes(&root);
	for (i, a) in v.iter().enumerate() {
		for b in [&v[(i + 1) % v.len()], &v[v.len() - 1 - i], a] {
			if Node::is_same(a, b) != (ptr(a) == ptr(b)) {
				return fail(src, po, format!("is_same is {} for node {}", ptr(a) != ptr(b), i));
			}
		}
	}
	Ok(Some(m))
}

fn c04_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p());
	let m = check_links(&src, po)?;
	let n = m.as_ref().map_or(0, |m| m.count());
	Ok(info(n >= 4, &src, po.bits(), sample(&src, po))
		.label(m.as_ref().map_or(false, |m| m.any(&|m| m.auto_fix)), "repaired element")
		.label(m.is_none(), "rejected"))
}

fn c04_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p());
	let n = match check_links(&d.src, po)? {
		Some(m) => m.count(),
		None => return fail(&d.src, po, "rejected".into()),
	};
	Ok(info(n >= 4, &d.src, po.bits(), sample(&d.src, po)).label(n >= 20, "20 nodes or more"))
}

fn c04_wide(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let (v, what) = wide(&mut cx.s, false);
	match check_links(&v, po) {
		Ok(Some(_)) => Ok(info(true, &v, po.bits(), what)),
		Ok(None) => fail(&v[..v.len().min(40)], po, format!("{}: rejected", what)),
		Err(e) => Err(format!("{}: {}", what, e)),
	}
}

// ---- C21

fn c21_lookup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let dup = s.chance(1, 3);
	let mut later = s.fork(60);
	let mut d = well_formed(
		s,
		po,
		Profile {
			kinds: [2, 10, 5, 3, 2, 1, 1],
			max_attrs: 3,
			self_close: (1, 3),
			..p()
		},
	);
	let s = &mut later;
	// where start tags end their name: put ids there
	let mut starts = vec![];
	d.root.walk(&mut |m| {
		if m.kind == Kind::Tag {
			starts.push((m.span.0 + 1 + m.name.chars().count(), m.span.0));
		}
	});
	let mut had_own = false;
	d.root.walk(&mut |m| {
		had_own |= m.attrs.iter().any(|a| a.key.as_ref().map_or(false, |k| k.eq_ignore_ascii_case("id")));
	});
	let mut want: Vec<(String, Vec<usize>)> = vec![];
	if !had_own {
		// the k-th tag gets the k-th id, or none
		let mut shift = 0;
		let mut n = 0;
		for (pos, _) in &starts {
			n += 1;
			if !s.chance(2, 3) {
				continue;
			}
			let mut v = match s.below(8) {
				0 => format!("i{}", n),
				1 => format!("a b{}", n),
				2 => format!("É{}", n),
				3 => format!("{}&amp;", n),
				4 => format!(" {}", n),
				5 => format!("<{}>", n),
				6 => format!("I{}", n),
				_ => format!("{}/", n),
			};
			if dup && s.chance(1, 3) {
				v = "same".into();
			}
			let k = *s.pick(&["id", "ID", "Id", "iD"]);
			let plain = !v.contains([' ', '<', '>']);
			let t = match s.below(3) {
				0 if plain => format!(" {}={} ", k, v),
				1 => format!(" {} = '{}'", k, v),
				_ => format!(" {}=\"{}\" ", k, v),
			};
			let at = pos + shift;
			d.src.splice(at..at, t.chars());
			shift += t.chars().count();
			match want.iter_mut().find(|w| w.0 == v) {
				Some(w) => w.1.push(n - 1),
				None => want.push((v, vec![n - 1])),
			}
		}
	} else {
		let mut n = 0;
		d.root.walk(&mut |m| {
			if m.kind == Kind::Tag {
				let ids: Vec<&MAttr> = m
					.attrs
					.iter()
					.filter(|a| a.val.is_some() && a.key.as_ref().map_or(false, |k| k.eq_ignore_ascii_case("id")))
					.collect();
				for a in ids {
					let v = a.val.clone().unwrap();
					match want.iter_mut().find(|w| w.0 == v) {
						Some(w) => w.1.push(n),
						None => want.push((v, vec![n])),
					}
				}
				n += 1;
			}
		});
	}
	let h = accept(&d.src, po)?;
	let tags: Vec<RefNode> = nodes(&h.get_root_node()).into_iter().filter(is_tag).collect();
	for (id, at) in &want {
		match h.get_element_by_id(id) {
			None => return fail(&d.src, po, format!("no element with id {:?}", id)),
			Some(n) => {
				if !at.iter().any(|&i| i < tags.len() && ptr(&tags[i]) == ptr(&n)) {
					return fail(&d.src, po, format!("id {:?} gives another element", id));
				}
			}
		}
	}
	let mut others: Vec<String> = ["", "id", "I1", "i1", "1", "x", "same", "SAME", "b", "É", "a"].iter().map(|s| s.to_string()).collect();
	for w in want.iter().take(3) {
		others.push(near(s, &w.0));
	}
	for id in &others {
		if !want.iter().any(|w| &w.0 == id) {
			if let Some(n) = h.get_element_by_id(id) {
				return fail(&d.src, po, format!("id {:?} is nowhere, found {:?}", id, snap_ref(&n).name));
			}
		}
	}
	let k = h.borrow().id_tags.borrow().len();
	if k != want.len() {
		return fail(&d.src, po, format!("{} ids in the document, {} found", want.len(), k));
	}
	Ok(info(want.len() >= 2, &d.src, po.bits(), sample(&d.src, po))
		.label(want.iter().any(|w| w.1.len() > 1), "repeated id")
		.label(had_own, "ids from the attribute generator"))
}

fn c21_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let mut v = vec![];
	const BITS: &[&str] = &[
		"<b id=a>", "</b>", "<br id=b>", "<p id='c d'>", "</p>", "<i ID=\"a\"/>", "<!-- <b id=e> -->", "<script id=f><b id=g></script>",
		"<title><b id=h></title>", "x id=k", "<img id>", "<img id=>", "<img id=''>", "<svg>", "<a id=m/>", "</svg>", "</q id=n>", "<u idx=o>",
		"</u>", "<b id=a", "<b id='r", "<b id=s x", "<![CDATA[<b id=t>]]>", "<br data-id=v>", "<br id = w>", "<br class=id id=z>", "<",
		"<br y='id=j'>", "<br iD=aa/>", "<!doctype html id=a>", "<!DOCTYPE id=\"c d\">",
	];
	let n = s.below(12);
	for _ in 0..n {
		v.extend(s.pick(BITS).chars());
	}
	let src = cx.source(v);
	let mut k = 0;
	if let Against::Both(e, _) = against(&src, po) {
		let h = accept(&src, po)?;
		let tags: Vec<RefNode> = nodes(&h.get_root_node()).into_iter().filter(is_tag).collect();
		let mut want: Vec<(String, Vec<usize>)> = vec![];
		let mut i = 0;
		e.walk(&mut |m| {
			if m.kind == Kind::Tag {
				for a in &m.attrs {
					if let (Some(key), Some(v)) = (&a.key, &a.val) {
						if key.eq_ignore_ascii_case("id") {
							match want.iter_mut().find(|w| w.0 == *v) {
								Some(w) => w.1.push(i),
								None => want.push((v.clone(), vec![i])),
							}
						}
					}
				}
				i += 1;
			}
		});
		for (id, at) in &want {
			match h.get_element_by_id(id) {
				None => return fail(&src, po, format!("no element with id {:?}", id)),
				Some(n) => {
					if !at.iter().any(|&i| i < tags.len() && ptr(&tags[i]) == ptr(&n)) {
						return fail(&src, po, format!("id {:?} gives another element", id));
					}
				}
			}
		}
		for id in "abcdefghjkmnorstvwz".chars().map(|c| c.to_string()).chain(["c d".into(), "".into(), "aa".into()]) {
			if !want.iter().any(|w| w.0 == id) && h.get_element_by_id(&id).is_some() {
				return fail(&src, po, format!("id {:?} is not an attribute of any element", id));
			}
		}
		k = want.len();
	}
	Ok(info(k >= 1, &src, po.bits(), sample(&src, po)).label(k >= 3, "3 ids or more"))
}

/// many ids, long ids, ids alike but for one end
fn c21_many(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let po = any_po(s);
	let k = s.below(12);
	let count = ((1usize << k) + 3).saturating_sub(s.below(8)).max(1);
	let same = *s.pick(&[0usize, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000]);
	let same = if count * same > 300_000 { 1 } else { same };
	let front = s.chance(1, 2);
	let deep = s.below(3);
	let els = ["<b id=Q></b>", "<br id='Q'>", "<p ID=\"Q\" x></p>", "<title id=Q></title>", "<i a=b id=Q>t</i>"];
	let pick = s.below(els.len() + 1);
	let name = |i: usize| {
		if front {
			format!("{}{}", "n".repeat(same), i)
		} else {
			format!("{}{}", i, "n".repeat(same))
		}
	};
	let mut t = String::new();
	for i in 0..count {
		let e = els[if pick == els.len() { i % els.len() } else { pick }].replace('Q', &name(i));
		match deep {
			1 if i % 2 == 0 => t.push_str(&format!("<div>{}", e)),
			1 => t.push_str(&format!("{}</div>", e)),
			2 if i < 300 => t.push_str(&format!("<div>{}", e)),
			_ => t.push_str(&e),
		}
	}
	match deep {
		1 if count % 2 == 1 => t.push_str("</div>"),
		2 => t.push_str(&"</div>".repeat(count.min(300))),
		_ => {}
	}
	let v: Vec<char> = t.chars().collect();
	let shown = &v[..v.len().min(80)];
	let h = match parse(&t, po) {
		Ok(h) => h,
		Err(e) => return fail(shown, po, format!("{} ids: rejected: {}", count, e.text)),
	};
	let tags: Vec<RefNode> = nodes(&h.get_root_node())
		.into_iter()
		.filter(|n| n.borrow().meta.as_ref().map_or(false, |m| !m.borrow().attrs.is_empty()))
		.collect();
	if tags.len() != count {
		return fail(shown, po, format!("{} elements with attributes, written {}", tags.len(), count));
	}
	for (i, t) in tags.iter().enumerate() {
		match h.get_element_by_id(&name(i)) {
			Some(n) if ptr(&n) == ptr(t) => {}
			Some(_) => return fail(shown, po, format!("of {} ids, that of number {} gives another element", count, i)),
			None => return fail(shown, po, format!("of {} ids, that of number {} is not found", count, i)),
		}
	}
	for id in [name(count), "n".repeat(same), String::new(), name(0) + "n"] {
		if (0..count.min(2)).all(|i| name(i) != id) && h.get_element_by_id(&id).is_some() {
			return fail(shown, po, format!("the id {:?} is nowhere", id));
		}
	}
	Ok(info(count >= 2, &v, po.bits(), format!("{} ids like {:?}", count, name(0))).label(count > 500, "more than 500 ids"))
}

// ---- C22

/// some in-place change of a node; false when nothing changed
fn deface(n: &RefNode, s: &mut Src) -> bool {
	let which = s.below(7);
	let mut b = n.borrow_mut();
	match which {
		0 => {
			if let Some(c) = &mut b.content {
				c.push('!');
				return true;
			}
		}
		1 => {
			if let Some(m) = &b.meta {
				m.borrow_mut().name.push('z');
				return true;
			}
		}
		2 => {
			if let Some(m) = &b.meta {
				m.borrow_mut().attrs.push(attr_of(Some("new"), None, None, false));
				return true;
			}
		}
		3 => {
			if let Some(c) = &mut b.childs {
				if !c.is_empty() {
					let i = s.below(c.len());
					c.remove(i);
					return true;
				}
			}
		}
		4 => {
			if let Some(e) = &b.end_tag {
				if let Some(c) = &mut e.borrow_mut().content {
					c.push(' ');
					return true;
				}
			}
		}
		5 => {
			if let Some(m) = &b.meta {
				let mut m = m.borrow_mut();
				if let Some(a) = m.attrs.first_mut() {
					a.value = attr_of(None, Some("ch"), None, false).value;
					return true;
				}
			}
		}
		_ => {
			if matches!(b.node_type, NodeType::Tag | NodeType::AbstractRoot)
				&& b.meta.as_ref().map_or(true, |m| !m.borrow().is_void)
			{
				let t = Rc::new(RefCell::new(Node::create_text_node(vec!['n', 't'], None)));
				match &mut b.childs {
					Some(c) => c.push(t),
					None => b.childs = Some(vec![t]),
				}
				return true;
			}
		}
	}
	false
}

fn shift_spans(m: &mut M, by: usize) {
	m.walk_mut(&mut |m| {
		m.span = (m.span.0.saturating_sub(by), m.span.1.saturating_sub(by));
		m.end_span = m.end_span.map(|(a, b)| (a.saturating_sub(by), b.saturating_sub(by)));
	});
}

fn c22_clone(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let ro = any_ro(s);
	let mut later = s.fork(16);
	let src: Vec<char> = if s.chance(2, 3) {
		well_formed(s, po, p()).src
	} else {
		soup(s, po, &p())
	};
	let h = match parse(&s_of(&src), po) {
		Ok(h) => h,
		Err(_) => return Ok(info(false, &src, po.bits(), sample(&src, po)).label(true, "rejected")),
	};
	let root = h.get_root_node();
	let s = &mut later;
	let mut v = nodes(&root);
	// one that has children, or the one that has most, the root included
	let count = |n: &RefNode| n.borrow().childs.as_ref().map_or(0, |c| c.len());
	let least = match s.below(4) {
		0 | 1 => 0,
		2 => 1,
		_ => v.iter().map(count).max().unwrap_or(0),
	};
	if v.iter().any(|n| count(n) >= least) {
		v.retain(|n| count(n) >= least);
	}
	let n = v[s.below(v.len())].clone();
	let before = snap_ref(&n);
	let whole = h.render(&ro.real());
	let mine = outer(&n, &ro);
	let c = n.borrow().clone_node();
	// equal, with positions relative to the node
	let mut want = before.clone();
	shift_spans(&mut want, before.span.0);
	let got = snap_ref(&c);
	if let Some(w) = diff(&want, &got, &Cmp::ALL) {
		return fail(&src, po, format!("the clone differs: {}", w));
	}
	if outer(&c, &ro) != mine {
		return fail(&src, po, format!("the clone renders {:?}, the node {:?}", outer(&c, &ro), mine));
	}
	// by value
	if s.chance(1, 4) {
		let v = Rc::new(RefCell::new(Node::clone(&n.borrow())));
		if let Some(w) = diff(&want, &snap_ref(&v), &Cmp::ALL) {
			return fail(&src, po, format!("the clone by value differs: {}", w));
		}
		if outer(&v, &ro) != mine || v.borrow().parent.is_some() {
			return fail(&src, po, "the clone by value renders another text or has a parent".into());
		}
	}
	// attribute data not seen in the tree view
	for (a, b) in nodes(&n).iter().zip(nodes(&c)) {
		let (a, b) = (a.borrow(), b.borrow());
		if let (Some(x), Some(y)) = (&a.meta, &b.meta) {
			let need = |m: &TagMeta| m.attrs.iter().map(|a| a.need_quote).collect::<Vec<bool>>();
			if need(&x.borrow()) != need(&y.borrow()) {
				return fail(&src, po, "the clone's attributes need other quotes".into());
			}
			if x.borrow().lc_name_map != y.borrow().lc_name_map {
				return fail(&src, po, "the clone's attribute index differs".into());
			}
		}
	}
	// its own links, top without parent
	if c.borrow().parent.is_some() {
		return fail(&src, po, "the clone has a parent".into());
	}
	if Node::is_same(&c, &n) || !Node::is_same(&c, &c.clone()) {
		return fail(&src, po, "is_same does not tell the clone from the original".into());
	}
	if let Err(w) = links(&c, None) {
		return fail(&src, po, format!("in the clone: {}", w));
	}
	// the previous child, and the document's root
	for (a, b) in nodes(&n).iter().zip(nodes(&c)) {
		let (a, b) = (a.borrow(), b.borrow());
		let to = |l: Option<RefNode>| l.map(|x| ptr(&x));
		if to(a.root.as_ref().and_then(|l| l.up())) != to(b.root.as_ref().and_then(|l| l.up())) {
			return fail(&src, po, "a node of the clone leads to another root".into());
		}
		let mut last = None;
		for k in b.childs.iter().flatten() {
			if to(k.borrow().prev.as_ref().and_then(|l| l.up())) != last {
				return fail(&src, po, "a child in the clone does not lead to the child before it".into());
			}
			last = Some(ptr(k));
		}
	}
	// nothing shared
	let all = |n: &RefNode| -> Vec<usize> {
		let mut v: Vec<usize> = vec![];
		for k in nodes(n) {
			v.push(ptr(&k));
			if let Some(e) = &k.borrow().end_tag {
				v.push(ptr(e));
			}
		}
		v
	};
	let (x, y) = (all(&root), all(&c));
	if y.iter().any(|p| x.contains(p)) {
		return fail(&src, po, "the clone shares a node".into());
	}
	// a change on one side is not seen on the other
	let side = s.below(2);
	let (chg, keep) = if side == 0 { (&c, &n) } else { (&n, &c) };
	let keep_before = snap_ref(keep);
	let mut changed = false;
	let k = 1 + s.below(4);
	for _ in 0..k {
		let v = nodes(chg);
		let t = v[s.below(v.len())].clone();
		changed |= deface(&t, s);
	}
	if let Some(w) = diff(&keep_before, &snap_ref(keep), &Cmp::ALL) {
		return fail(&src, po, format!("a change of the {} is seen in the {}: {}", ["clone", "node"][side], ["node", "clone"][side], w));
	}
	if side == 0 && h.render(&ro.real()) != whole {
		return fail(&src, po, "a change of the clone is seen in the document".into());
	}
	if side == 1 && outer(&c, &ro) != mine {
		return fail(&src, po, "a change of the document is seen in the clone".into());
	}
	// the clone lives without the document
	let cb = outer(&c, &ro);
	drop(h);
	drop(root);
	drop(v);
	drop(n);
	if outer(&c, &ro) != cb {
		return fail(&src, po, "the clone changed when the document was dropped".into());
	}
	Ok(info(before.count() >= 2 && changed, &src, po.bits(), sample(&src, po))
		.label(before.count() >= 5, "5 nodes or more")
		.label(side == 1, "original changed"))
}

/// clones of very many or very long things
fn c22_wide(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let (v, what) = wide(&mut cx.s, false);
	let shown = &v[..v.len().min(40)];
	let h = match parse(&s_of(&v), po) {
		Ok(h) => h,
		Err(e) => return fail(shown, po, format!("{}: rejected: {}", what, e.text)),
	};
	let root = h.get_root_node();
	let c = root.borrow().clone_node();
	if let Some(w) = diff(&snap_ref(&root), &snap_ref(&c), &Cmp::ALL) {
		return fail(shown, po, format!("{}: the clone differs: {}", what, w.chars().take(300).collect::<String>()));
	}
	let text = h.render(&Ro::default().real());
	drop((root, h));
	if let Err(w) = links(&c, None) {
		return fail(shown, po, format!("{}: links of the clone: {}", what, w));
	}
	if outer(&c, &Ro::default()) != text {
		return fail(shown, po, format!("{}: the clone renders another text", what));
	}
	Ok(info(true, &v, po.bits(), what))
}

// ---- C25

fn digest(h: &DocHolder, ro: &Ro) -> (M, String) {
	let mut t = h.render(&ro.real());
	let root = h.get_root_node();
	t.push_str(&format!("\n{:?}", root.borrow().is_document()));
	for n in nodes(&root) {
		if let Some(m) = &n.borrow().meta {
			let m = m.borrow();
			let mut v: Vec<_> = m.lc_name_map.iter().collect();
			v.sort();
			t.push_str(&format!("{:?}", v));
			for id in m.attrs.iter().filter_map(|a| a.check_if_id()) {
				t.push_str(&format!("{:?}", h.get_element_by_id(&id).map(|n| n.borrow().begin_at)));
			}
		}
	}
	(snap_ref(&root), t)
}

type Digest = Result<(M, String), String>;

fn parse_digest(src: &[char], po: Po, ro: &Ro) -> Digest {
	match parse(&s_of(src), po) {
		Ok(h) => Ok(digest(&h, ro)),
		Err(e) => Err(format!("{:?}", e)),
	}
}

/// `rpcheck solo`: one source on stdin, its digest on stdout
pub fn solo(input: &str) -> String {
	let mut it = input.splitn(3, ' ');
	let mut num = || it.next().and_then(|t| t.parse::<usize>().ok()).unwrap_or(0);
	let (po, ro) = (Po::from_bits(num()), Ro::from_bits(num()));
	let src: Vec<char> = it.next().unwrap_or("").chars().collect();
	format!("{:?}", parse_digest(&src, po, &ro))
}

/// the digest made by a process that did nothing else
fn fresh(src: &[char], po: Po, ro: &Ro) -> Option<String> {
	use std::io::Write;
	let mut k = Command::new(std::env::current_exe().ok()?)
		.arg("solo")
		.stdin(Stdio::piped())
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn()
		.ok()?;
	let mut i = k.stdin.take()?;
	let text = format!("{} {} {}", po.bits(), ro.bits(), s_of(src));
	let w = std::thread::spawn(move || {
		let _ = i.write_all(text.as_bytes());
	});
	let o = k.wait_with_output().ok()?;
	let _ = w.join();
	if o.status.success() {
		String::from_utf8(o.stdout).ok()
	} else {
		None
	}
}

/// a history of parsing and rendering several sources: each result is that of doing it alone
fn c25_history(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let k = 2 + s.below(3);
	let mut later = s.fork(40);
	let mut items: Vec<(Vec<char>, Po, Ro)> = vec![];
	for _ in 0..k {
		let po = any_po(s);
		let ro = any_ro(s);
		let old: Option<Vec<char>> = items.last().map(|i: &(Vec<char>, Po, Ro)| i.0.clone());
		let src = match (s.below(6), old) {
			// the same text with other options, or one that is almost the same
			(3, Some(v)) => v,
			(4, Some(v)) => {
				let mut v = v;
				if !v.is_empty() {
					let i = s.below(v.len());
					let c: Vec<char> = near(s, &v[i].to_string()).chars().collect();
					v.splice(i..i + 1, c);
				}
				v
			}
			(5, Some(v)) => mutate(s, &v),
			(0, _) | (1, _) | (3, _) => well_formed(s, po, Profile { max_kids: 3, ..p() }).src,
			_ => soup(s, po, &Profile { max_kids: 3, ..p() }),
		};
		items.push((src, po, ro));
	}
	let s = &mut later;
	// each alone, in a fresh thread
	let solo: Vec<Digest> = if s.chance(1, 16) {
		std::thread::scope(|sc| {
			let hs: Vec<_> = items
				.iter()
				.map(|(src, po, ro)| sc.spawn(move || parse_digest(src, *po, ro)))
				.collect();
			hs.into_iter().map(|h| h.join().unwrap()).collect()
		})
	} else {
		items.iter().map(|(src, po, ro)| parse_digest(src, *po, ro)).collect()
	};
	// now and then compared with a process that did nothing before
	let alone = s.chance(1, 256);
	if alone {
		for ((src, po, ro), w) in items.iter().zip(&solo) {
			if src.len() < 20_000 {
				if let Some(f) = fresh(src, *po, ro) {
					if f != format!("{:?}", w) {
						return fail(src, *po, format!("after other sources {:?}, in a process of its own {:?}", w, f));
					}
				}
			}
		}
	}
	// then interleaved: documents stay alive, are rendered in between, parsed again
	let mut live: Vec<(usize, DocHolder)> = vec![];
	let steps = 3 + s.below(8);
	let mut log = vec![];
	for _ in 0..steps {
		let i = s.below(items.len());
		let (src, po, ro) = &items[i];
		match s.below(4) {
			0 | 1 => {
				log.push(format!("parse {}", i));
				match (parse(&s_of(src), *po), &solo[i]) {
					(Ok(h), Ok(w)) => {
						let g = digest(&h, ro);
						if g != *w {
							return fail(src, *po, format!("after {:?}: {:?} instead of {:?}", log, g.1, w.1));
						}
						live.push((i, h));
					}
					(Err(e), Err(w)) if format!("{:?}", e) == *w => {}
					(a, b) => {
						return fail(
							src,
							*po,
							format!("after {:?}: accepted {} instead of {:?}", log, a.is_ok(), b.as_ref().err()),
						)
					}
				}
			}
			2 => {
				if !live.is_empty() {
					let (i, h) = &live[s.below(live.len())];
					// other options in between leave no trace
					let other = any_ro(s);
					log.push(format!("render {} {:?}", i, other));
					let a = h.render(&other.real());
					let b = h.render(&other.real());
					let g = digest(h, &items[*i].2);
					if a != b || Ok(&g) != solo[*i].as_ref().map_err(|e| e.clone()) {
						return fail(&items[*i].0, items[*i].1, format!("rendering left a trace after {:?}", log));
					}
					for n in nodes(&h.get_root_node()) {
						if is_tag(&n) {
							let _ = inner(&n, &other);
							let _ = inner_text(&n, &other);
						}
						let _ = n.borrow().clone_node();
					}
					let _ = h.get_element_by_id("a");
					let _ = h.get_root_node().borrow().is_document();
					let g = digest(h, &items[*i].2);
					if Ok(&g) != solo[*i].as_ref().map_err(|e| e.clone()) {
						return fail(&items[*i].0, items[*i].1, format!("reading left a trace after {:?}", log));
					}
				}
			}
			_ => {
				if !live.is_empty() {
					let i = s.below(live.len());
					live.remove(i);
				}
			}
		}
	}
	let ok = solo.iter().filter(|r| r.is_ok()).count();
	Ok(Info::new(
		ok >= 1 && steps >= 4,
		hash_of(&format!("{:?}{:?}", items, log)),
		format!("{:?} {:?}", items.iter().map(|i| s_of(&i.0)).collect::<Vec<_>>(), log),
	)
	.label(ok >= 2, "2 accepted sources or more")
	.label(alone, "compared with a process of its own")
	.label(ok < k, "a rejected source in between"))
}

// ---- C28

fn model_at<'a>(m: &'a mut M, path: &[usize]) -> &'a mut M {
	path.iter().fold(m, |m, &i| &mut m.kids[i])
}
fn node_at(n: &RefNode, path: &[usize]) -> RefNode {
	path.iter().fold(n.clone(), |n, &i| {
		let k = n.borrow().childs.as_ref().unwrap()[i].clone();
		k
	})
}
fn paths(m: &M) -> Vec<Vec<usize>> {
	fn go(m: &M, at: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
		o.push(at.clone());
		for (i, k) in m.kids.iter().enumerate() {
			at.push(i);
			go(k, at, o);
			at.pop();
		}
	}
	let mut o = vec![];
	go(m, &mut vec![], &mut o);
	o
}
fn word(s: &mut Src) -> String {
	match s.below(6) {
		0 => return text(s),
		// spaces, but not those of html
		1 => return s.pick(&["\u{a0}", "\u{3000}\u{2003}", "\u{b}", "\u{85}", "\u{2028}", "\u{200b}", " \u{a0} ", "\u{feff}", "\u{1c}"]).to_string(),
		2 => return s.pick(&["\n", "\r\n", "\x0c", " \t\n\r\x0c ", "a<b", "</p>"]).to_string(),
		_ => {}
	}
	s.pick(&["x", "a b", "  ", "é😀", "&lt;", "1\n2", "q", " t ", "T", "\t", "&amp; &", "a  b"]).to_string()
}

/// a history of edits of the tree: the rendering is always that of the edited tree
fn c28_edits(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let mut later = s.fork(90);
	let d = well_formed(
		s,
		po,
		Profile {
			max_kids: 3,
			max_depth: 4,
			..p()
		},
	);
	let s = &mut later;
	let h = accept(&d.src, po)?;
	let root = h.get_root_node();
	let mut m = snap_ref(&root);
	let mut log: Vec<String> = vec![];
	let steps = 1 + s.below(10);
	let mut done = 0;
	for _ in 0..steps {
		let ps = paths(&m);
		let path = ps[s.below(ps.len())].clone();
		let n = node_at(&root, &path);
		let mm = model_at(&mut m, &path);
		let elem = mm.kind == Kind::Tag && !mm.is_void && !mm.self_closed && !is_raw(&mm.name);
		match s.below(20) {
			10 if matches!(mm.kind, Kind::Comment | Kind::CData) => {
				let t = word(s);
				log.push(format!("set content {:?} of {:?}", t, path));
				n.borrow_mut().content = Some(t.chars().collect());
				mm.content = Some(t);
			}
			10 if mm.kind == Kind::Tag && mm.content.is_some() => {
				let t = word(s);
				log.push(format!("set raw text {:?} of {:?}", t, path));
				n.borrow_mut().content = Some(t.chars().collect());
				mm.content = Some(t);
			}
			11 if mm.kind == Kind::Tag && !mm.attrs.is_empty() => {
				let i = s.below(mm.attrs.len());
				let v = value_bits(s, 2);
				let q = if v.contains('"') { '\'' } else { '"' };
				let v: String = v.chars().filter(|c| *c != q).collect();
				log.push(format!("set value {:?} of attribute {} of {:?}", v, i, path));
				let b = n.borrow();
				let a = &mut b.meta.as_ref().unwrap().borrow_mut().attrs[i];
				a.value = attr_of(None, Some(v.as_ref()), None, false).value;
				a.quote = Some(q);
				mm.attrs[i].val = Some(v);
				mm.attrs[i].quote = Some(q);
			}
			12 if mm.kind == Kind::Tag && mm.attrs.len() > 1 => {
				let (i, j) = (s.below(mm.attrs.len()), s.below(mm.attrs.len()));
				log.push(format!("swap attributes {} and {} of {:?}", i, j, path));
				n.borrow().meta.as_ref().unwrap().borrow_mut().attrs.swap(i, j);
				mm.attrs.swap(i, j);
			}
			13 if mm.kids.len() > 1 && s.chance(1, 3) => {
				log.push(format!("remove all of {:?}", path));
				n.borrow_mut().childs = None;
				mm.kids.clear();
			}
			14 if mm.kind == Kind::Tag && is_raw(&mm.name) => {
				let t = *s.pick(&["title", "TEXTAREA", "script", "Style", "textarea", "TITLE"]);
				log.push(format!("rename {:?} to {}", path, t));
				let b = n.borrow();
				b.meta.as_ref().unwrap().borrow_mut().name = t.chars().collect();
				mm.name = t.into();
				if let Some(e) = &b.end_tag {
					e.borrow_mut().content = Some(t.chars().collect());
					mm.end = Some(t.into());
				}
			}
			15 if mm.kind == Kind::Tag && mm.end.is_some() => {
				// spaces in the end tag
				let e = format!("{}{}", mm.end.as_ref().unwrap().trim_end_matches(&WS[..]), ws_run(s, 0));
				log.push(format!("end tag {:?} of {:?}", e, path));
				n.borrow().end_tag.as_ref().unwrap().borrow_mut().content = Some(e.chars().collect());
				mm.end = Some(e);
			}
			16 if mm.is_text() && mm.content.as_ref().map_or(false, |c| all_ws(c)) => {
				let sp = mm.kind == Kind::Text;
				log.push(format!("{:?} is spaces between tags: {}", path, sp));
				n.borrow_mut().node_type = if sp { NodeType::SpacesBetweenTag } else { NodeType::Text };
				mm.kind = if sp { Kind::Spaces } else { Kind::Text };
			}
			17 if !path.is_empty() => {
				// move to another place
				let (up, i) = (&path[..path.len() - 1], path[path.len() - 1]);
				let node = node_at(&root, up).borrow_mut().childs.as_mut().unwrap().remove(i);
				let sub = model_at(&mut m, up).kids.remove(i);
				let ps: Vec<_> = paths(&m)
					.into_iter()
					.filter(|p| {
						let k = model_at(&mut m, p);
						k.kind == Kind::Root || (k.kind == Kind::Tag && !k.is_void && !k.self_closed && !is_raw(&k.name))
					})
					.collect();
				let to = ps[s.below(ps.len())].clone();
				let t = node_at(&root, &to);
				let tm = model_at(&mut m, &to);
				let j = s.below(tm.kids.len() + 1);
				log.push(format!("move {:?} to {:?}[{}]", path, to, j));
				node.borrow_mut().parent = Some(Link::of(&t));
				tm.kids.insert(j, sub);
				let mut b = t.borrow_mut();
				match &mut b.childs {
					Some(k) => k.insert(j, node),
					None => b.childs = Some(vec![node]),
				}
			}
			18 if (elem || mm.kind == Kind::Root) && path.len() < 6 => {
				// all of another document
				let po2 = any_po(s);
				let d2 = well_formed(s, po2, Profile { max_kids: 2, max_depth: 2, ..p() });
				let h2 = accept(&d2.src, po2)?;
				let kids: Vec<RefNode> = h2.get_root_node().borrow_mut().childs.take().unwrap_or_default();
				log.push(format!("adopt {:?} in {:?}", d2.source(), path));
				for k in kids {
					mm.kids.push(snap_ref(&k));
					k.borrow_mut().parent = Some(Link::of(&n));
					let mut b = n.borrow_mut();
					match &mut b.childs {
						Some(c) => c.push(k),
						None => b.childs = Some(vec![k]),
					}
				}
			}
			19 if mm.kind == Kind::Tag && mm.end.is_some() && mm.kids.is_empty() && mm.content.is_none() => {
				// closed by itself, or open again
				let v = s.chance(1, 2);
				log.push(format!("close {:?} by itself, void {}", path, v));
				let mut b = n.borrow_mut();
				b.end_tag = None;
				b.childs = None;
				mm.end = None;
				let mut meta = b.meta.as_ref().unwrap().borrow_mut();
				meta.self_closed = true;
				mm.self_closed = true;
				if v {
					meta.is_void = true;
					mm.is_void = true;
				}
			}
			0 | 1 if elem || mm.kind == Kind::Root => {
				// a new text, at any place
				let t = word(s);
				let node = Node::create_text_node(t.chars().collect(), None);
				let kind = if all_ws(&t) { Kind::Spaces } else { Kind::Text };
				if (node.node_type == NodeType::Text) != (kind == Kind::Text) {
					return fail(&d.src, po, format!("create_text_node({:?}) gives {:?}", t, node.node_type));
				}
				let i = s.below(mm.kids.len() + 1);
				log.push(format!("insert text {:?} at {:?}[{}]", t, path, i));
				let node = Rc::new(RefCell::new(node));
				node.borrow_mut().parent = Some(Link::of(&n));
				let mut b = n.borrow_mut();
				match &mut b.childs {
					Some(c) => c.insert(i, node),
					None => b.childs = Some(vec![node]),
				}
				mm.kids.insert(i, M::text(kind, &t, 0));
			}
			2 if !mm.kids.is_empty() => {
				let i = s.below(mm.kids.len());
				log.push(format!("remove {:?}[{}]", path, i));
				n.borrow_mut().childs.as_mut().unwrap().remove(i);
				mm.kids.remove(i);
			}
			3 if mm.kids.len() > 1 => {
				let (i, j) = (s.below(mm.kids.len()), s.below(mm.kids.len()));
				log.push(format!("swap {:?}[{}] and [{}]", path, i, j));
				n.borrow_mut().childs.as_mut().unwrap().swap(i, j);
				mm.kids.swap(i, j);
			}
			4 if mm.kind == Kind::Tag => {
				// a new attribute by the methods of the tag
				let k = s.pick(&["id", "data-n", "K", "é", "class"]).to_string();
				let v = *s.pick(&[None, Some("v"), Some("a b"), Some(""), Some("x/y"), Some("it's")]);
				let q = match v {
					Some(v) if v.contains('\'') => Some('"'),
					Some(v) if v.is_empty() || v.contains(' ') => Some(*s.pick(&['"', '\''])),
					Some(_) => *s.pick(&[None, Some('"'), Some('\'')]),
					None => None,
				};
				log.push(format!("attribute {} {:?} {:?} on {:?}", k, v, q, path));
				let b = n.borrow();
				let mut meta = b.meta.as_ref().unwrap().borrow_mut();
				meta.add_attr_key();
				meta.set_attr_key(k.chars().collect());
				if let Some(v) = v {
					meta.set_attr_value(v.chars().collect(), q);
				}
				mm.attrs.push(MAttr {
					key: Some(k),
					val: v.map(|v| v.to_string()),
					quote: q,
				});
			}
			5 if mm.kind == Kind::Tag && !mm.attrs.is_empty() => {
				let i = s.below(mm.attrs.len());
				log.push(format!("remove attribute {} of {:?}", i, path));
				n.borrow().meta.as_ref().unwrap().borrow_mut().attrs.remove(i);
				mm.attrs.remove(i);
			}
			6 if mm.is_text() => {
				let t = format!("{}y", word(s));
				log.push(format!("set text {:?} of {:?}", t, path));
				let mut b = n.borrow_mut();
				b.content = Some(t.chars().collect());
				b.node_type = NodeType::Text;
				mm.content = Some(t);
				mm.kind = Kind::Text;
			}
			7 if mm.kind == Kind::Tag && mm.end.is_some() && !is_raw(&mm.name) => {
				// rename
				let t = *s.pick(&["b", "PRE", "pre", "x-y", "Div"]);
				log.push(format!("rename {:?} to {}", path, t));
				let b = n.borrow();
				b.meta.as_ref().unwrap().borrow_mut().name = t.chars().collect();
				b.end_tag.as_ref().unwrap().borrow_mut().content = Some(t.chars().collect());
				mm.name = t.into();
				mm.end = Some(t.into());
			}
			8 if !path.is_empty() && path.len() < 6 => {
				// a clone next to the original, or somewhere else
				let c = n.borrow().clone_node();
				let cm = mm.clone();
				let ps = paths(&m);
				let to = ps[s.below(ps.len())].clone();
				let tm = model_at(&mut m, &to);
				if tm.kind == Kind::Root || (tm.kind == Kind::Tag && !tm.is_void && !tm.self_closed && !is_raw(&tm.name)) {
					let i = s.below(tm.kids.len() + 1);
					log.push(format!("clone {:?} to {:?}[{}]", path, to, i));
					let t = node_at(&root, &to);
					c.borrow_mut().parent = Some(Link::of(&t));
					let mut b = t.borrow_mut();
					match &mut b.childs {
						Some(k) => k.insert(i, c),
						None => b.childs = Some(vec![c]),
					}
					tm.kids.insert(i, cm);
				}
			}
			9 if elem || mm.kind == Kind::Root => {
				// nodes of another document
				let src2 = *s.pick(&["<i a=1>n &lt; m</i>", "<!--c-->", "<br>", "<pre>  p  </pre>", "<title><b></title>", "<p> </p>"]);
				let h2 = match parse(src2, Po::default()) {
					Ok(h) => h,
					Err(e) => return Err(format!("{:?} rejected: {}", src2, e.text)),
				};
				let k = h2.get_root_node().borrow_mut().childs.as_mut().unwrap().remove(0);
				log.push(format!("adopt {:?} in {:?}", src2, path));
				mm.kids.push(snap_ref(&k));
				k.borrow_mut().parent = Some(Link::of(&n));
				let mut b = n.borrow_mut();
				match &mut b.childs {
					Some(c) => c.push(k),
					None => b.childs = Some(vec![k]),
				}
			}
			_ => continue,
		}
		done += 1;
		let ro = any_ro(s);
		let got = h.render(&ro.real());
		let want = render(&m, &ro);
		if got != want {
			return fail(&d.src, po, format!("after {:?} with {:?}: {:?}, expected {:?}", log, ro, got, want));
		}
		super::rendering::document_inner(&h, &m, &ro)
			.map_err(|e| format!("{:?} {:?} after {:?} with {:?}: {}", d.source(), po, log, ro, e))?;
		let ps = paths(&m);
		let path = ps[s.below(ps.len())].clone();
		let n = node_at(&root, &path);
		let mm = model_at(&mut m, &path);
		let (g, w) = (outer(&n, &ro), render(mm, &ro));
		if g != w {
			return fail(&d.src, po, format!("after {:?} with {:?}: node {:?} {:?}, expected {:?}", log, ro, path, g, w));
		}
		if mm.kind == Kind::Tag {
			let (g, mut w) = (inner(&n, &ro), String::new());
			render_inner(mm, &ro, false, &mut w);
			if g != w {
				return fail(&d.src, po, format!("after {:?} with {:?}: inner html of {:?} {:?}, expected {:?}", log, ro, path, g, w));
			}
			super::rendering::text_is(mm, &inner_text(&n, &ro), &ro)
				.map_err(|e| format!("{:?} {:?} after {:?} with {:?}: inner text of {:?}: {}", d.source(), po, log, ro, path, e))?;
		}
	}
	Ok(Info::new(
		done >= 2,
		hash_of(&(&d.src, format!("{:?}", log))),
		format!("{:?} {:?}", d.source(), log),
	)
	.label(done >= 5, "5 edits or more"))
}

/// one attribute: what is built from its parts
fn c28_attr(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let key = *s.pick(&[Some("k"), Some("data-x"), Some("É"), None]);
	let val: Option<String> = if s.chance(3, 4) || key.is_none() { Some(value_bits(s, 3)) } else { None };
	let quote = if key.is_none() { Some('"') } else { *s.pick(&[None, Some('"'), Some('\'')]) };
	let val = val.map(|v| v.chars().filter(|c| Some(*c) != quote).collect::<String>());
	let need = s.chance(1, 3);
	let remove = s.chance(1, 2);
	let a = attr_of(key, val.as_deref(), quote, need);
	let got: String = a.build(remove).iter().collect();
	let ma = MAttr {
		key: key.map(|k| k.to_string()),
		val: val.clone(),
		quote,
	};
	let want = render_attr(&ma, remove && !need);
	let ctx = format!("attribute {:?} need_quote {} remove {}", ma, need, remove);
	if got != want {
		return Err(format!("{}: {:?}, expected {:?}", ctx, got, want));
	}
	let id = a.check_if_id();
	if id.is_some() {
		return Err(format!("{}: taken for an id", ctx));
	}
	// a tag made of it
	let mut t = TagMeta::default();
	t.add_attr_key();
	t.set_attr_key("q".chars().collect());
	match key {
		Some(k) => {
			t.add_attr_key();
			t.set_attr_key(k.chars().collect());
		}
		None => t.add_attr_value(quote),
	}
	if let Some(v) = &val {
		t.set_attr_value(v.chars().collect(), quote);
	}
	let got: String = t.attrs_to_string(remove).iter().collect();
	let want = format!(" q {}", render_attr(&ma, remove));
	if got != want {
		return Err(format!("{}: {:?}, expected {:?}", ctx, got, want));
	}
	// id, in any case
	let k = *s.pick(&["id", "ID", "Id", "iD", "i", "idd", "ıd", "İD"]);
	let a = attr_of(Some(k), val.as_deref(), None, false);
	let want = if k.eq_ignore_ascii_case("id") { val.clone() } else { None };
	if a.check_if_id() != want {
		return Err(format!("check_if_id of {}={:?} gives {:?}", k, val, a.check_if_id()));
	}
	Ok(Info::new(val.is_some(), hash_of(&ctx), ctx))
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C01",
			rule: "arbitrary text (random characters, tokens, mutated documents, past failures) under all 64 option sets, every prefix of documents, and large inputs (up to 1000 levels, 1000 siblings, 3000 attributes): parse, then every read operation of the api; non-trivial: 3 characters or more / more than 100 repetitions",
			subs: vec![
				Sub { name: "soup", cases: 250_000, tape: 200, f: c01_soup },
				Sub { name: "prefixes", cases: 12_000, tape: 120, f: c01_prefixes },
				Sub { name: "large", cases: 2_400, tape: 12, f: c01_large },
			],
			once: None,
			assumptions: &[
				"nesting beyond 1000 levels is excluded: a known finding (recursion, 8 MB stack)",
				"the documented panics of asking inner html or text of a node that has none are not exercised",
			],
		},
		Prop {
			id: "C04",
			rule: "links of every node of accepted arbitrary text and built documents, under all 64 option sets; non-trivial: 4 nodes or more",
			subs: vec![
				Sub { name: "soup", cases: 300_000, tape: 200, f: c04_soup },
				Sub { name: "built", cases: 150_000, tape: 300, f: c04_built },
				Sub { name: "wide", cases: 32, tape: 8, f: c04_wide },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C21",
			rule: "documents whose elements (open, void, raw, self-closed) carry ids in any case, quoting and value, and token soup of id-carrying and id-like markup; up to 2051 ids, up to 1000 characters long; non-trivial: 2 ids or more (soup: 1)",
			subs: vec![
				Sub { name: "lookup", cases: 150_000, tape: 260, f: c21_lookup },
				Sub { name: "soup", cases: 150_000, tape: 40, f: c21_soup },
				Sub { name: "many", cases: 1_500, tape: 12, f: c21_many },
			],
			once: None,
			assumptions: &["which of several elements with one id is returned is not claimed"],
		},
		Prop {
			id: "C22",
			rule: "a random node of a built or repaired document is cloned, then clone or original is changed at random places, then the document dropped; non-trivial: 2 nodes or more and something changed",
			subs: vec![Sub { name: "clone", cases: 250_000, tape: 260, f: c22_clone }, Sub { name: "wide", cases: 16, tape: 8, f: c22_wide }],
			once: None,
			assumptions: &["the document link of a clone is not claimed"],
		},
		Prop {
			id: "C25",
			rule: "histories of 3 to 10 operations (parse, render with other options, read everything, drop) over 2 to 4 sources, some rejected, against each source parsed alone, now and then in other threads; non-trivial: an accepted source and 4 operations or more",
			subs: vec![Sub { name: "history", cases: 60_000, tape: 300, f: c25_history }],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C28",
			rule: "histories of 1 to 10 edits (insert, remove, swap, attribute edits, text edits, renames, clones, nodes adopted from other documents), each followed by renderings with random options compared with a model tree; attributes built from parts; non-trivial: 2 edits or more",
			subs: vec![
				Sub { name: "edits", cases: 100_000, tape: 300, f: c28_edits },
				Sub { name: "attr", cases: 80_000, tape: 16, f: c28_attr },
			],
			once: None,
			assumptions: &[],
		},
	]
}
