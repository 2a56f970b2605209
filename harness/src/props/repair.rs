//! C11 – C14: the repair options.
use super::*;
use crate::{Res, Sub};

fn p() -> Profile {
	Profile {
		max_kids: 5,
		..Profile::default()
	}
}

fn rep(s: &mut Src, po: Po) -> Po {
	let b = 1 + s.below(7);
	Po {
		fu: b & 1 != 0,
		fe: b & 2 != 0,
		fl: b & 4 != 0,
		..po
	}
}

// ---- C11

fn c11_same(cx: &mut Cx) -> Res {
	let po = strict_po(&mut cx.s);
	let fix = rep(&mut cx.s, po);
	let ro = any_ro(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p());
	let a = accept(&d.src, po)?;
	let b = accept(&d.src, fix)?;
	let (x, y) = (snap_ref(&a.get_root_node()), snap_ref(&b.get_root_node()));
	if let Some(w) = diff(&x, &y, &Cmp::ALL) {
		return fail(&d.src, fix, format!("a repair changed a well-formed document: {}", w));
	}
	if y.any(&|m| m.auto_fix) {
		return fail(&d.src, fix, "an element of a well-formed document is marked as repaired".into());
	}
	if a.render(&ro.real()) != b.render(&ro.real()) {
		return fail(&d.src, fix, "a repair changed the rendering of a well-formed document".into());
	}
	Ok(info(d.root.count() >= 3, &d.src, fix.bits(), sample(&d.src, fix)))
}

/// whatever is accepted without repairs is the same with them
fn c11_soup(cx: &mut Cx) -> Res {
	let po = strict_po(&mut cx.s);
	let fix = rep(&mut cx.s, po);
	let src = soup_src(cx, po, &p());
	let mut nt = false;
	if let Ok(a) = parse(&s_of(&src), po) {
		let x = snap_ref(&a.get_root_node());
		let y = accept_tree(&src, fix)?;
		if let Some(w) = diff(&x, &y, &Cmp::ALL) {
			return fail(&src, fix, format!("a repair changed a source that is accepted without it: {}", w));
		}
		if y.any(&|m| m.auto_fix) {
			return fail(&src, fix, "an element is marked as repaired".into());
		}
		nt = x.count() >= 3;
	}
	Ok(info(nt, &src, fix.bits(), sample(&src, fix)))
}

// ---- C12

/// the elements open at the end of input are closed there
fn c12_cut(cx: &mut Cx) -> Res {
	let mut po = strict_po(&mut cx.s);
	let (fe, fl) = (cx.s.chance(1, 3), cx.s.chance(1, 3));
	po.fe = fe;
	po.fl = fl;
	let s = &mut cx.s;
	let mut later = s.fork(3);
	let d = well_formed(s, po, p());
	let s = &mut later;
	// prefer deep places
	let i = s.below(d.slots.len());
	let j = s.below(d.slots.len());
	let slot = if d.slots[i].open.len() >= d.slots[j].open.len() {
		&d.slots[i]
	} else {
		&d.slots[j]
	};
	let cut: Vec<char> = d.src[..slot.pos].to_vec();
	let mut closed = cut.clone();
	for n in slot.open.iter().rev() {
		closed.extend(format!("</{}>", n).chars());
	}
	let fix = Po { fu: true, ..po };
	let want = accept_tree(&closed, po)?;
	let h = accept(&cut, fix)?;
	let got = snap_ref(&h.get_root_node());
	if let Some(w) = diff(&want, &got, &Cmp::MEANING) {
		return fail(&cut, fix, format!("not as if closed at the end ({:?}): {}", s_of(&closed), w));
	}
	let other = accept(&closed, po)?;
	for ro in [Ro::default(), any_ro(s)] {
		let out = h.render(&ro.real());
		let wout = other.render(&ro.real());
		if out != wout {
			return fail(&cut, fix, format!("renders {:?} with {:?}, expected {:?}", out, ro, wout));
		}
	}
	if let Err(w) = links(&h.get_root_node(), Some(&h.get_root_node())) {
		return fail(&cut, fix, w);
	}
	// exactly the open elements carry the mark
	let mut marked = vec![];
	got.walk(&mut |m| {
		if m.auto_fix {
			marked.push(m.name.clone())
		}
	});
	if marked != slot.open {
		return fail(&cut, fix, format!("open: {:?}, marked as repaired: {:?}", slot.open, marked));
	}
	if !slot.open.is_empty() {
		match parse(&s_of(&cut), po) {
			Err(e) if e.kind == EK::UnclosedTag => {}
			Err(e) => return fail(&cut, po, format!("expected the unclosed tag error, got {}", e.text)),
			Ok(_) => return fail(&cut, po, "accepted without the repair".into()),
		}
	}
	Ok(info(!slot.open.is_empty(), &cut, fix.bits(), sample(&cut, fix))
		.label(slot.open.len() >= 3, "3 open elements or more")
		.label(slot.in_text, "cut inside a text"))
}

/// the source ends inside a start tag: what was read of it is kept
fn c12_tag(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	po.fu = true;
	let s = &mut cx.s;
	let mut later = s.fork(12);
	let d = well_formed(
		s,
		po,
		Profile {
			max_kids: 3,
			attr_den: 1,
			..p()
		},
	);
	let s = &mut later;
	let slot = &d.slots[s.below(d.slots.len())];
	let mut v: Vec<char> = d.src[..slot.pos].to_vec();
	let name = *s.pick(&["b", "div", "br", "IMG", "script", "title", "svg", "pre", "x-y"]);
	let mut t = format!("<{}", name);
	const BITS: &[&str] = &[
		" ", "a", " b", "=", "\"", "'", "x", " id=1", " c='y z'", "/", "\n", " d=\"", "=v", " /", " K",
	];
	let n = s.below(7);
	if n > 0 && s.chance(3, 4) {
		t.push(' ');
	}
	for _ in 0..n {
		t.push_str(s.pick(BITS));
	}
	v.extend(t.chars());
	let src = cx.source(v);
	let a = against(&src, po);
	let mut nt = false;
	match a {
		Against::Both(e, g) => {
			let c = Cmp::TREE;
			if let Some(w) = diff(&e, &g, &c) {
				return fail(&src, po, w);
			}
			nt = e.any(&|m| m.auto_fix && !m.attrs.is_empty());
		}
		Against::Split(w) => return fail(&src, po, w),
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)).label(is_void(name), "void element cut off"))
}

/// every prefix of a document is repaired or rejected as the reference parser says
fn c12_prefixes(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	po.fu = true;
	let d = well_formed(
		&mut cx.s,
		po,
		Profile {
			max_kids: 3,
			max_depth: 4,
			..p()
		},
	);
	let step = 1 + d.src.len() / 40;
	let mut n = 0;
	let mut i = 0;
	while i <= d.src.len() {
		let src = &d.src[..i];
		let a = against(src, po);
		match a {
			Against::Both(e, g) => {
				if let Some(w) = diff(&e, &g, &Cmp::TREE) {
					return fail(src, po, w);
				}
				n += 1;
			}
			Against::Split(w) => return fail(src, po, w),
			_ => {}
		}
		i += step;
	}
	Ok(info(n >= 4, &d.src, po.bits(), sample(&d.src, po)))
}

// ---- C13

fn stray_name(s: &mut Src, open: Option<&String>) -> String {
	let mut n = s
		.pick(&["zz", "q", "div", "P", "br", "svg", "script", "pre", "x y", "é", "", "a=b", "/", "b\"", "<b", "!--"])
		.to_string();
	if s.chance(1, 5) {
		n.push_str(&ws_run(s, 1));
	}
	if let Some(o) = open {
		if s.chance(1, 3) {
			// close to the open name
			n = match s.below(4) {
				3 => near(s, o).replace('>', "-"),
				0 => format!("{}x", o),
				1 => o.chars().skip(1).collect(),
				_ => format!(" {}", o),
			};
		}
		if o.eq_ignore_ascii_case(trim_end(&n)) {
			n = format!("{}-", trim_end(&n));
		}
	}
	n
}

fn c13_ignored(cx: &mut Cx) -> Res {
	let mut po = strict_po(&mut cx.s);
	let (fu, fl) = (cx.s.chance(1, 4), cx.s.chance(1, 3));
	po.fu = fu;
	po.fl = fl;
	let s = &mut cx.s;
	let mut later = s.fork(24);
	let d = well_formed(s, po, p());
	let s = &mut later;
	let k = 1 + s.below(3);
	let mut at: Vec<usize> = (0..k).map(|_| s.below(d.slots.len())).collect();
	at.sort();
	let mut v = d.src.clone();
	let mut nt = false;
	let mut in_text = false;
	let mut in_special = false;
	for &i in at.iter().rev() {
		let slot = &d.slots[i];
		let n = stray_name(s, slot.open.last());
		v.splice(slot.pos..slot.pos, format!("</{}>", n).chars());
		nt |= slot.pos > 0;
		in_text |= slot.in_text;
		in_special |= slot.open.iter().any(|n| is_special(n));
	}
	let fix = Po { fe: true, ..po };
	let other = accept(&d.src, po)?;
	let want = snap_ref(&other.get_root_node());
	let h = accept(&v, fix)?;
	let got = snap_ref(&h.get_root_node());
	if let Some(w) = diff(&want, &got, &Cmp::TREE) {
		return fail(&v, fix, format!("not as without the stray end tags ({:?}): {}", d.source(), w));
	}
	for ro in [Ro::default(), any_ro(s)] {
		let (out, wout) = (h.render(&ro.real()), other.render(&ro.real()));
		if out != wout {
			return fail(&v, fix, format!("renders {:?} with {:?}, expected {:?}", out, ro, wout));
		}
	}
	if let Err(w) = links(&h.get_root_node(), Some(&h.get_root_node())) {
		return fail(&v, fix, w);
	}
	match parse(&s_of(&v), po) {
		Err(e) if e.kind == EK::WrongEndTag => {}
		Err(e) => return fail(&v, po, format!("expected the wrong end tag error, got {}", e.text)),
		Ok(_) => return fail(&v, po, "accepted without the repair".into()),
	}
	Ok(info(nt, &v, fix.bits(), sample(&v, fix))
		.label(in_text, "inside a text")
		.label(in_special, "inside svg or math")
		.label(k > 1, "2 or 3 of them"))
}

// ---- C14

fn c14_lt(cx: &mut Cx) -> Res {
	let mut po = strict_po(&mut cx.s);
	let (fu, fe) = (cx.s.chance(1, 4), cx.s.chance(1, 3));
	po.fu = fu;
	po.fe = fe;
	let s = &mut cx.s;
	let mut later = s.fork(24);
	let d = well_formed(s, po, p());
	let s = &mut later;
	let k = 1 + s.below(3);
	let mut at: Vec<usize> = (0..k).map(|_| s.below(d.slots.len())).collect();
	at.sort();
	let mut v = d.src.clone();
	let mut w = d.src.clone();
	let mut between = false;
	let mut eof = false;
	for &i in at.iter().rev() {
		let pos = d.slots[i].pos;
		let t: &str = s.pick(&["<", "<<", "< ", "<1", "<=", "<>", "x<", " <", "<-", "<&", "<é", "<\u{a0}", "<\n<", "<?x", "<["]);
		let mut t = t.to_string();
		// what follows must not make it the start of markup
		if t.ends_with('<')
			&& v.get(pos).map_or(false, |c| c.is_ascii_alphabetic() || *c == '/' || *c == '!')
		{
			t.push(' ');
		}
		between |= !d.slots[i].in_text;
		eof |= pos == d.src.len() && t.ends_with('<');
		v.splice(pos..pos, t.chars());
		w.splice(pos..pos, t.replace('<', "&lt;").chars());
	}
	let fix = Po { fl: true, ..po };
	let want = accept_tree(&w, po)?;
	let h = accept(&v, fix)?;
	let got = snap_ref(&h.get_root_node());
	if let Some(x) = diff(&want, &got, &Cmp::TREE) {
		return fail(&v, fix, format!("not as with '&lt;' ({:?}): {}", s_of(&w), x));
	}
	if let Err(w) = links(&h.get_root_node(), Some(&h.get_root_node())) {
		return fail(&v, fix, w);
	}
	let other = accept(&w, po)?;
	for ro in [Ro::default(), any_ro(s)] {
		let (out, wout) = (h.render(&ro.real()), other.render(&ro.real()));
		if out != wout {
			return fail(&v, fix, format!("renders {:?} with {:?}, expected {:?}", out, ro, wout));
		}
	}
	match parse(&s_of(&v), po) {
		Err(e) if e.kind == EK::WrongTag || (eof && e.kind == EK::UnclosedTag) => {}
		Err(e) => return fail(&v, po, format!("expected the wrong tag error, got {}", e.text)),
		Ok(_) => return fail(&v, po, "accepted without the repair".into()),
	}
	Ok(info(true, &v, fix.bits(), sample(&v, fix))
		.label(between, "between tags")
		.label(eof, "at the end of input")
		.label(k > 1, "2 or 3 of them"))
}

/// all repairs together, on arbitrary text
fn all_soup(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p());
	let a = against(&src, po);
	let mut nt = false;
	match a {
		Against::Both(e, g) => {
			let c = Cmp::TREE;
			if let Some(w) = diff(&e, &g, &c) {
				return fail(&src, po, w);
			}
			let real = po;
			po = po.strict();
			nt = real.has_repair() && parse(&s_of(&src), po).is_err();
		}
		Against::Split(w) if w.starts_with("must be accepted") => return fail(&src, po, w),
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

fn soup_fu(cx: &mut Cx) -> Res {
	all_soup(cx)
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C11",
			rule: "well-formed documents, and arbitrary text accepted without repairs, parsed with each non-empty set of repairs; non-trivial: 3 nodes or more",
			subs: vec![
				Sub { name: "same", cases: 150_000, tape: 260, f: c11_same },
				Sub { name: "soup", cases: 150_000, tape: 160, f: c11_soup },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C12",
			rule: "documents cut at a random place between or inside texts, against the same text with the missing end tags appended; documents cut inside a start tag, and prefixes of documents, against a reference parser; non-trivial: some element is open at the cut (for cut tags: with an attribute)",
			subs: vec![
				Sub { name: "cut", cases: 150_000, tape: 260, f: c12_cut },
				Sub { name: "tag", cases: 150_000, tape: 160, f: c12_tag },
				Sub { name: "prefixes", cases: 20_000, tape: 120, f: c12_prefixes },
				Sub { name: "soup", cases: 100_000, tape: 200, f: soup_fu },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C13",
			rule: "documents with one to three end tags of other names put at random places, against the document without them; arbitrary text against a reference parser; non-trivial: not only at the very beginning",
			subs: vec![
				Sub { name: "ignored", cases: 200_000, tape: 260, f: c13_ignored },
				Sub { name: "soup", cases: 100_000, tape: 200, f: all_soup },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C14",
			rule: "documents with one to three '<' (followed by nothing that starts markup) put at random places, against the same with '&lt;'; arbitrary text against a reference parser; non-trivial: always",
			subs: vec![
				Sub { name: "lt", cases: 200_000, tape: 260, f: c14_lt },
				Sub { name: "soup", cases: 100_000, tape: 200, f: all_soup },
			],
			once: None,
			assumptions: &["a '<' directly before a letter, '/' or '!' starts markup and is not repaired"],
		},
	]
}
