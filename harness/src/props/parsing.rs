//! C05 – C10, C15, C16, C26: what a source means.
use super::*;
use crate::{Res, Sub};

fn p_default() -> Profile {
	Profile::default()
}
fn p_attrs() -> Profile {
	Profile {
		kinds: [2, 8, 6, 1, 0, 0, 2],
		max_kids: 3,
		max_depth: 3,
		max_attrs: 7,
		attr_den: 1,
		..Profile::default()
	}
}
fn p_raw() -> Profile {
	Profile {
		kinds: [2, 4, 1, 12, 1, 0, 0],
		max_kids: 4,
		max_depth: 3,
		..Profile::default()
	}
}
fn p_delim() -> Profile {
	Profile {
		kinds: [3, 6, 1, 1, 6, 8, 5],
		max_kids: 4,
		special: (1, 3),
		..Profile::default()
	}
}
pub fn p_special() -> Profile {
	Profile {
		kinds: [2, 10, 2, 1, 1, 4, 0],
		max_kids: 4,
		special: (1, 2),
		self_close: (1, 3),
		..Profile::default()
	}
}

fn shape(d: &Doc) -> (usize, usize) {
	(d.root.count(), d.root.depth())
}

// ---- C05

fn c05_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p_default());
	same_tree(
		&d,
		po,
		&Cmp {
			attrs: false,
			..Cmp::TREE
		},
	)?;
	let (n, depth) = shape(&d);
	Ok(info(n >= 4 && depth >= 3, &d.src, po.bits(), sample(&d.src, po))
		.label(depth >= 5, "depth>=5")
		.label(n >= 20, "nodes>=20")
		.label(d.root.any(&|m| m.kids.len() > 20), "more than 20 children")
		.label(d.root.any(&|m| m.kind == Kind::Spaces), "spaces between tags"))
}

fn c05_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p_default());
	let a = against(&src, po);
	let mut nt = false;
	let mut q = false;
	match a {
		Against::Both(e, g) => {
			let c = Cmp {
				attrs: false,
				..Cmp::TREE
			};
			if let Some(w) = diff(&e, &g, &c) {
				return fail(&src, po, w);
			}
			nt = e.count() >= 3;
		}
		// a well-formed document must be accepted
		Against::Split(w) if w.starts_with("must be accepted") => return fail(&src, po, w),
		Against::Quirk => q = true,
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po))
		.label(q, "skipped: unspecified construct")
		.label(nt, "accepted, 3 nodes or more"))
}

/// one element with one of every short name over a small alphabet: which names are void or raw
fn c05_names(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let all: Vec<&str> = VOIDS.iter().chain(RAWS.iter()).chain(SPECIALS.iter()).copied().chain(["pre", "html"]).collect();
	let mut n: Vec<char> = s.pick(&all).chars().collect();
	// leave it, or change it slightly
	match s.below(5) {
		0 => {}
		1 => {
			let i = s.below(n.len());
			n[i] = *s.pick(&['a', 'r', 'k', '\u{212a}', 'ſ', 'ı', 'x', 't']);
		}
		2 => {
			let i = s.below(n.len());
			n.remove(i);
		}
		3 => {
			let i = s.below(n.len() + 1);
			n.insert(i, *s.pick(&['s', '-', '1', 'x', '\u{a0}', '\u{b}', '=', '"']));
		}
		_ => n.reverse(),
	}
	if n.first().map_or(true, |c| !c.is_ascii_alphabetic()) {
		n.insert(0, 'q');
	}
	let name = random_case(s, &s_of(&n));
	let body = *s.pick(&["", "x", "<b>y</b>", "<!--c-->", " ", "</b>", "<i/>"]);
	let po = Po {
		fe: s.chance(1, 2),
		sc: s.chance(1, 2),
		..Po::default()
	};
	let src: Vec<char> = format!("<p><{}>{}</{}></p>", name, body, name).chars().collect();
	let src = cx.source(src);
	let a = against(&src, po);
	match a {
		Against::Both(e, g) => {
			if let Some(w) = diff(&e, &g, &Cmp::TREE) {
				return fail(&src, po, w);
			}
		}
		Against::Split(w) => return fail(&src, po, w),
		Against::Neither(e, g) if e.kind != g.kind => {
			return fail(&src, po, format!("expected {:?}, got {}", e.kind, g.text))
		}
		_ => {}
	}
	Ok(info(true, &src, po.bits(), sample(&src, po))
		.label(is_void(&name), "void name")
		.label(is_raw(&name), "raw text name"))
}

// ---- C06

fn check_name_map(src: &[char], po: Po) -> Result<usize, String> {
	let d = accept(src, po)?;
	let mut n = 0;
	for node in nodes(&d.get_root_node()) {
		let b = node.borrow();
		if let Some(m) = &b.meta {
			let m = m.borrow();
			let mut want: Vec<(String, usize)> = vec![];
			for (i, a) in m.attrs.iter().enumerate() {
				if let Some(k) = &a.key {
					let k = s_of(&k.content).to_ascii_lowercase();
					if !want.iter().any(|(w, _)| *w == k) {
						want.push((k, i));
					}
				}
			}
			let mut got: Vec<(String, usize)> = m.lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect();
			want.sort();
			got.sort();
			if want != got {
				return fail(src, po, format!("attribute index: expected {:?}, got {:?}", want, got));
			}
			n += want.len();
		}
	}
	Ok(n)
}

fn c06_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p_attrs());
	same_tree(&d, po, &Cmp::TREE)?;
	check_name_map(&d.src, po)?;
	let mut n = 0;
	let mut quoted = 0;
	let mut dup = false;
	d.root.walk(&mut |m| {
		n += m.attrs.len();
		quoted += m.attrs.iter().filter(|a| a.quote.is_some()).count();
		let mut k: Vec<String> = m
			.attrs
			.iter()
			.filter_map(|a| a.key.as_ref().map(|k| k.to_ascii_lowercase()))
			.collect();
		k.sort();
		dup |= k.windows(2).any(|w| w[0] == w[1]);
	});
	Ok(info(n >= 2, &d.src, po.bits(), sample(&d.src, po))
		.label(quoted > 0 && quoted < n, "quoted and unquoted")
		.label(dup, "repeated key")
		.label(d.root.any(&|m| m.attrs.len() > 5), "more than 5 attributes"))
}

/// one tag from random attribute-like characters
fn c06_tag_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let mut v: String = if s.chance(1, 6) { "<!DOCTYPE".into() } else { "<b".into() };
	v.push(' ');
	const BITS: &[&str] = &[
		"a", "=", " ", "\"", "'", "/", "x", "A", "id", "ID=", "\n", "=\"", "='", "<", "é", "&", "\u{a0}", "\t", "/x", "==", "k=v",
		"k = v ", "k='v'", "\u{b}", "\u{c}",
	];
	let n = s.below(12);
	for _ in 0..n {
		v.push_str(s.pick(BITS));
	}
	v.push_str(*s.pick(&[">", " >", "/>", ">", ">y</b>", ">y</b>"]));
	let src = cx.source(v.chars().collect());
	let a = against(&src, po);
	let mut nt = false;
	match a {
		Against::Both(e, g) => {
			if let Some(w) = diff(&e, &g, &Cmp::TREE) {
				return fail(&src, po, w);
			}
			check_name_map(&src, po)?;
			nt = e.any(&|m| m.attrs.len() >= 2);
		}
		Against::Split(w) if w.starts_with("must be accepted") => return fail(&src, po, w),
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

// ---- C07

fn c07_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p_raw());
	let got = same_tree(&d, po, &Cmp::TREE)?;
	// and it is printed back unchanged
	let h = accept(&d.src, po)?;
	let out = h.render(&Ro::default().real());
	let mut raws = vec![];
	got.walk(&mut |m| {
		if let (Some(c), Some(_)) = (&m.content, &m.end) {
			raws.push(c.clone());
		}
	});
	let mut at = 0;
	for r in &raws {
		match out[at..].find(r.as_str()) {
			Some(i) => at += i + r.len(),
			None => return fail(&d.src, po, format!("raw text {:?} not in the rendering {:?}", r, out)),
		}
	}
	let markup = raws.iter().any(|r| r.contains('<') || r.contains('>'));
	Ok(info(markup, &d.src, po.bits(), sample(&d.src, po))
		.label(raws.len() >= 2, "2 raw elements or more")
		.label(raws.iter().any(|r| r.contains("</")), "end-tag-like text inside"))
}

/// a raw element whose text has a length close to a power of two
fn c07_sizes(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let po = any_po(s);
	let n = *s.pick(&RAWS);
	let name = random_case(s, n);
	let k = if s.chance(1, 3) { 16 } else { 4 + s.below(13) };
	let len = ((1usize << k) + 4).saturating_sub(s.below(28));
	let fill = *s.pick(&["x", "<", "\n", "</", "a>", "é", " ", "</x>"]);
	let text: String = fill.chars().cycle().take(len).collect();
	let end = format!("{}{}", name, ws_run(s, 0));
	let v: Vec<char> = format!("<{}>{}</{}><b></b>", name, text, end).chars().collect();
	let t = accept_tree(&v, po)?;
	if t.kids.len() != 2 || t.kids[0].content.as_ref() != Some(&text) || t.kids[0].end.as_ref() != Some(&end) {
		return fail(&v[..v.len().min(60)], po, format!("raw text of {} characters {:?}... is not the content", len, fill));
	}
	Ok(info(true, &v, po.bits(), format!("<{}> {} times {:?}", name, len, fill)))
}

/// a raw element whose text comes close to its end tag
fn c07_near(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let cs = s.chance(1, 2);
	let po = Po {
		cs,
		fe: s.chance(1, 4),
		..Po::default()
	};
	let n = *s.pick(&RAWS);
	let name = random_case(s, n);
	let mut v = format!("<{}>", name);
	let k = s.below(8);
	for _ in 0..k {
		match s.below(11) {
			0 => v.push_str("</"),
			1 => v.push('<'),
			2 => v.push('>'),
			3 => {
				let t = random_case(s, &name);
				v.push_str(&t)
			}
			4 => {
				let t = random_case(s, &name);
				v.push_str(&format!("</{}", t))
			}
			5 => {
				let t = random_case(s, &name);
				let w = ws_run(s, 0);
				v.push_str(&format!("</{}{}>", t, w))
			}
			6 => v.push_str(&name[..s.below(name.len()) + 1]),
			7 => {
				let w = ws_run(s, 1);
				v.push_str(&w)
			}
			8 => {
				// whitespace no end tag may hold
				v.push_str(&format!("</{}{}>", name, s.pick(&["\u{a0}", "\u{b}", "/", " x", "\0"])))
			}
			9 => {
				let t = format!("</{}>", random_case(s, &name));
				let t = near(s, &t);
				v.push_str(&t)
			}
			_ => v.push_str(*s.pick(&["x", "/", "</x>", "<!--", "-->", "\"", "'", "&lt;"])),
		}
	}
	let e = if cs { name.clone() } else { random_case(s, &name) };
	let w = ws_run(s, 0);
	v.push_str(&format!("</{}{}>", e, w));
	v.push_str(*s.pick(&["", "<p></p>", " ", "x"]));
	let src = cx.source(v.chars().collect());
	let a = against(&src, po);
	let mut nt = false;
	match a {
		Against::Both(e, g) => {
			let c = Cmp::ALL;
			if let Some(w) = diff(&e, &g, &Cmp { spans: false, ..c }) {
				return fail(&src, po, w);
			}
			nt = e.any(&|m| m.content.as_ref().map_or(false, |c| is_raw(&m.name) && c.contains('<')));
		}
		Against::Split(w) => return fail(&src, po, w),
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

// ---- C08

fn c08_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p_delim());
	same_tree(&d, po, &Cmp::TREE)?;
	let mut n = [0; 3];
	let mut markup = false;
	d.root.walk(&mut |m| {
		let i = match m.kind {
			Kind::Comment => 0,
			Kind::CData => 1,
			Kind::Doctype => 2,
			_ => return,
		};
		n[i] += 1;
		markup |= m.content.as_ref().map_or(false, |c| c.contains('<') || c.contains('-') || c.contains(']'));
	});
	Ok(info(markup, &d.src, po.bits(), sample(&d.src, po))
		.label(n[0] > 0, "comment")
		.label(n[1] > 0, "cdata")
		.label(n[2] > 0, "doctype"))
}

/// a comment, cdata or doctype from characters that come close to its delimiters
fn c08_near(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let po = any_po(s);
	let which = s.below(3);
	let mut v = String::new();
	v.push_str(*s.pick(&["", "x", "<p></p>", " "]));
	let k = s.below(9);
	match which {
		0 => {
			v.push_str("<!--");
			for _ in 0..k {
				v.push_str(*s.pick(&["-", "-", ">", "!", "<", "x", " ", "--!>", "<!--", "]]>", "]"]));
			}
			v.push_str("-->");
		}
		1 => {
			v.push_str(*s.pick(&["<svg><a>", "<math><b>", "<svg><svg><a>", "<SVG><g>", "<svg><g></g><a>"]));
			v.push_str("<![");
			let w = random_case(s, "CDATA");
			v.push_str(&w);
			v.push('[');
			for _ in 0..k {
				v.push_str(*s.pick(&["]", "]", ">", "[", "<", "x", " ", "]]", "<![CDATA[", "-->", "--"]));
			}
			v.push_str("]]>");
		}
		_ => {
			v.push_str("<!");
			let w = random_case(s, "doctype");
			v.push_str(&w);
			if s.chance(9, 10) {
				let w = ws_run(s, 1);
				v.push_str(&w);
			}
			for _ in 0..k {
				v.push_str(*s.pick(&["html", " ", "\"", "'", "x", "=", "/", "PUBLIC", "\"a>b\"", "'-'", "\n", "system"]));
			}
			v.push('>');
		}
	}
	v.push_str(*s.pick(&["", "y", "<b></b>", "-->", "]]>", " "]));
	let po = if which == 1 { Po { fu: true, ..po } } else { po };
	let src = cx.source(v.chars().collect());
	let a = against(&src, po);
	let mut nt = false;
	match a {
		Against::Both(e, g) => {
			let c = Cmp::TREE;
			if let Some(w) = diff(&e, &g, &c) {
				return fail(&src, po, w);
			}
			nt = k > 0 && e.any(&|m| matches!(m.kind, Kind::Comment | Kind::CData | Kind::Doctype));
		}
		Against::Split(w) => return fail(&src, po, w),
		Against::Neither(e, g) if e.kind != g.kind => {
			return fail(&src, po, format!("expected {:?}, got {}", e.kind, g.text))
		}
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po))
		.label(which == 0, "comment")
		.label(which == 1, "cdata")
		.label(which == 2, "doctype"))
}

// ---- C09

/// a well-formed document, a defect put somewhere, and what must be reported
pub fn inject(cx: &mut Cx) -> (Vec<char>, Po, EK, bool, &'static str) {
	let s = &mut cx.s;
	let which = s.below(12);
	let fix = s.chance(1, 3);
	let mut po = strict_po(s);
	// the repairs that do not concern the defect may be on
	let (fu, fe, fl) = (s.chance(1, 3), s.chance(1, 3), s.chance(1, 3));
	po.fu = fu;
	po.fe = fe;
	po.fl = fl;
	let mut later = s.fork(10);
	let d = well_formed(s, po, Profile { max_kids: 4, ..p_default() });
	let s = &mut later;
	let slot = d.slots[s.below(d.slots.len())].clone();
	let ins = |t: &str| -> Vec<char> {
		let mut v = d.src.clone();
		v.splice(slot.pos..slot.pos, t.chars());
		v
	};
	let special = slot.open.iter().find(|n| is_special(n)).cloned();
	match which {
		0 => {
			// an end tag that does not belong to the innermost open element
			let mut n = s.pick(&["zzz", "q", "x y", "", " ", "1", "-", "sv", "/b", "é"]).to_string();
			if slot.open.len() > 1 && s.chance(1, 2) {
				n = slot.open[s.below(slot.open.len() - 1)].clone();
			}
			if slot.open.last().map_or(false, |o| o.eq_ignore_ascii_case(trim_end(&n))) {
				n = format!("{}z", n);
			}
			po.fe = fix;
			// an outer element's name would now close nothing, and the rest still fits
			(ins(&format!("</{}>", n)), po, EK::WrongEndTag, fix, "end tag without start tag")
		}
		1 => {
			// a start tag that is never closed, at the end of the input
			let mut v = d.src.clone();
			v.extend(s.pick(&["<b>", "<p>x", "<a><b></b>", "<svg>", "<pre> ", "<b><br>"]).chars());
			po.fu = fix;
			(v, po, EK::UnclosedTag, fix, "element never closed")
		}
		2 => {
			// cut off inside a construct
			let mut v = d.src.clone();
			let t = s.pick(&["<b", "<b ", "<b a", "<b a=", "<b a='x", "<b a=x", "<b/", "<br", "<br a=1", "<script"]).to_string();
			v.extend(t.chars());
			po.fu = fix;
			(v, po, EK::UnclosedTag, fix, "cut off inside a start tag")
		}
		3 => {
			let mut v = d.src.clone();
			let t = s
				.pick(&["<!--", "<!-- x --", "<!", "<!-", "<!DOC", "<!DOCTYPE", "<!DOCTYPE html", "</b", "</", "<script>x", "<title></title", "<style>"])
				.to_string();
			v.extend(t.chars());
			// no repair closes a comment, a doctype, an end tag or a raw text
			(v, po, EK::UnclosedTag, false, "cut off inside other markup")
		}
		4 => {
			// an unescaped '<' in text
			let t = s.pick(&["<1", "< ", "<=", "<>", "<-", "<é", "<\"", "<&", "<?", "<\n", "<.", "<\u{a0}", "<\0", "<["]).to_string();
			po.fl = fix;
			(ins(&t), po, EK::WrongTag, fix, "'<' that starts no markup")
		}
		5 => {
			po.eq = s.chance(1, 4);
			let e = po.eq;
			let t = s.pick(&["<b =x></b>", "<b =></b>", "<b a='1'=x></b>", "<b a=1 =x></b>", "<br =>", "<b\n= ></b>"]).to_string();
			(ins(&t), po, EK::WrongTag, e, "attribute that starts with '='")
		}
		6 => {
			let t = s.pick(&["<b/>", "<b />", "<b a/>", "<script/>", "<b a='x'//>", "<svg/>", "<title />", "<pre\n/>"]).to_string();
			let ok = po.sc || special.is_some();
			(ins(&t), po, EK::WrongSelfClosing, ok, "self-closing element")
		}
		7 => {
			let direct = matches!((&special, slot.open.last()), (Some(a), Some(b)) if a.eq_ignore_ascii_case(b));
			if direct && special.as_ref() != slot.open.last() {
				// nested in another spelling of its own name: no claim
				(ins(""), po, EK::Other, true, "none")
			} else {
				let ok = special.is_some() && !direct;
				(ins("<![CDATA[x]]>"), po, EK::CommonError, ok, "cdata outside svg or math")
			}
		}
		8 => {
			let t = s.pick(&["<!DOCTYPE>", "<!doctype/>", "<!DOCTYPEhtml>", "<!Doctype\"a\">", "<!DOCTYPE\u{a0}html>"]).to_string();
			(ins(&t), po, EK::WrongHtmlDoctype, false, "doctype without a space")
		}
		9 => {
			let t = s.pick(&["<!-x-->", "<!doc>", "<!DOCTYP html>", "<!-->", "<!d", "<!-\u{2d}\u{0}"]).to_string();
			let t = if t == "<!-->" || t == "<!d" || t.starts_with("<!--") { "<!->".to_string() } else { t };
			(ins(&t), po, EK::UnrecognizedTag, false, "unknown '<!' markup")
		}
		10 => {
			let t = s.pick(&["<!x>", "<!>", "<! -- >", "<!ELEMENT a>", "<!1", "<!\u{e9}"]).to_string();
			(ins(&t), po, EK::WrongTag, false, "unknown '<!' markup")
		}
		_ => {
			// a lost end tag, closed by the parent's: reported at the parent's end tag
			if d.elems.len() < 2 {
				return (d.src.clone(), po, EK::Other, true, "none");
			}
			// an element whose parent has another name
			let i = s.below(d.elems.len());
			let e = d.elems[i];
			// parent: the smallest element around it
			let par = d
				.elems
				.iter()
				.filter(|p| p.0 < e.0 && p.3 > e.3)
				.min_by_key(|p| p.3 - p.0)
				.copied();
			let name = |p: (usize, usize, usize, usize)| trim_end(&s_of(&d.src[p.2 + 2..p.3 - 1])).to_ascii_lowercase();
			match par {
				// (leaving svg or math too late would make other errors)
				Some(p) if name(p) != name(e) && !is_special(&name(e)) => {
					let mut v = d.src.clone();
					v.drain(e.2..e.3);
					po.fe = false;
					po.fu = fu;
					(v, po, EK::WrongEndTag, false, "lost end tag")
				}
				_ => (d.src.clone(), po, EK::Other, true, "none"),
			}
		}
	}
}

fn c09_inject(cx: &mut Cx) -> Res {
	let (src, po, kind, ok, what) = inject(cx);
	match (parse(&s_of(&src), po), ok) {
		(Ok(_), true) => {}
		(Ok(_), false) => return fail(&src, po, format!("accepted, though there is: {}", what)),
		(Err(e), true) => return fail(&src, po, format!("rejected though allowed or repaired ({}): {}", what, e.text)),
		(Err(e), false) => {
			if e.kind != kind {
				return fail(&src, po, format!("{}: expected {:?}, got {}", what, kind, e.text));
			}
		}
	}
	Ok(info(what != "none", &src, po.bits(), sample(&src, po))
		.label(true, what)
		.label(ok, "allowed or repaired"))
}

fn c09_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p_default());
	let a = against(&src, po);
	let mut nt = false;
	let mut named = false;
	match a {
		Against::Split(w) => return fail(&src, po, w),
		Against::Neither(e, g) => {
			if e.kind != g.kind {
				return fail(&src, po, format!("expected {:?}, got {}", e.kind, g.text));
			}
			if let Some(n) = &e.names {
				// the spaces at the end of an end tag may be named too
				let names = if matches!(e.kind, EK::WrongEndTag | EK::WrongCaseSensitive) { trim_end(&g.names) } else { &g.names };
				if names != n || !g.text.contains(n) {
					return fail(&src, po, format!("the error is about {:?}, but says {:?}", n, g.text));
				}
				named = true;
			}
			nt = true;
		}
		_ => {}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)).label(nt, "rejected").label(named, "names the defect").label(po.has_repair(), "some repair on"))
}

// ---- C10

/// line and column by the rule: \r, \n and \r\n end a line; the column counts the
/// characters of the line up to and including the index
fn line_col(src: &[char], index: usize) -> (usize, usize) {
	let (mut line, mut col) = (1, 0);
	for (i, &c) in src.iter().enumerate().take(index + 1) {
		match c {
			'\r' => {
				line += 1;
				col = 0;
			}
			'\n' => {
				if i == 0 || src[i - 1] != '\r' {
					line += 1;
					col = 0;
				}
			}
			_ => col += 1,
		}
	}
	(line, col)
}

fn check_pos(src: &[char], po: Po, e: &PErr) -> Result<(), String> {
	if e.index > src.len() {
		return fail(src, po, format!("index out of range: {}", e.text));
	}
	let (l, c) = line_col(src, e.index);
	if (l, c) != (e.line, e.col) {
		return fail(
			src,
			po,
			format!("index {} is line {} column {}, reported {}", e.index, l, c, e.text),
		);
	}
	Ok(())
}

fn with_newlines(s: &mut Src, v: Vec<char>) -> Vec<char> {
	// more line ends of every kind, outside of names
	let mut o = vec![];
	let style = s.below(5);
	for c in v {
		match c {
			' ' | '\n' if style == 1 => o.push('\n'),
			' ' | '\n' if style == 2 => o.extend(['\r', '\n']),
			' ' | '\n' if style == 3 => o.push('\r'),
			' ' | '\n' if style == 4 => o.extend(['\n', '\r']),
			_ => o.push(c),
		}
	}
	o
}

fn c10_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let mut later = cx.s.fork(1);
	let v = soup(&mut cx.s, po, &p_default());
	let v = with_newlines(&mut later, v);
	let src = cx.source(v);
	let mut nt = false;
	let mut multi = false;
	let a = against(&src, po);
	if let Err(g) = parse(&s_of(&src), po) {
		check_pos(&src, po, &g)?;
		nt = true;
		multi = g.line > 1;
	}
	let mut eof = false;
	let mut claimed = false;
	if let Against::Neither(e, g) = a {
		eof = e.kind == EK::UnclosedTag;
		if e.kind == g.kind {
			if let Some(i) = e.index {
				claimed = true;
				if i != g.index {
					return fail(&src, po, format!("expected index {}, got {}", i, g.text));
				}
			}
		}
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po))
		.label(multi, "beyond line 1")
		.label(eof, "end of input")
		.label(claimed, "exact index known"))
}

/// the text after an error, and neutral text before it, do not matter
fn c10_shift(cx: &mut Cx) -> Res {
	let mut later = cx.s.fork(24);
	let (src, po, _, ok, _) = inject(cx);
	if ok {
		return Ok(info(false, &src, po.bits(), sample(&src, po)));
	}
	let e = match parse(&s_of(&src), po) {
		Err(e) => e,
		Ok(_) => return Ok(info(false, &src, po.bits(), sample(&src, po))),
	};
	check_pos(&src, po, &e)?;
	let s = &mut later;
	if e.kind != EK::UnclosedTag {
		let mut t = src.clone();
		t.extend(anything(s, 6).chars());
		match parse(&s_of(&t), po) {
			Err(f) if f == e => {}
			Err(f) => return fail(&t, po, format!("error changed with what follows it: {} became {}", e.text, f.text)),
			Ok(_) => return fail(&t, po, format!("the error {} disappeared with what follows it", e.text)),
		}
	}
	let mut pre: Vec<char> = s
		.pick(&["<!---->", "<b></b>", "<!-- x\n -->", "<p>\r\n</p>", "<br>", "<script>\r</script>", "<i>😀é</i>\n<b></b>"])
		.chars()
		.collect();
	if s.chance(1, 400) {
		// far into the text, or into the line
		let c = *s.pick(&['x', '\n', '\r', '😀', 'é']);
		let n = *s.pick(&[250, 4_090, 32_760, 65_530]) + s.below(20);
		let mut far: Vec<char> = "<!--".chars().collect();
		far.extend(std::iter::repeat(c).take(n));
		far.extend("-->".chars());
		far.append(&mut pre);
		pre = far;
	}
	let mut t = pre.clone();
	t.extend(&src);
	match parse(&s_of(&t), po) {
		Err(f) => {
			check_pos(&t, po, &f)?;
			if f.kind != e.kind {
				return fail(&t, po, format!("kind changed behind neutral content: {} became {}", e.text, f.text));
			}
			let m = against(&src, po);
			if let Against::Neither(me, _) = m {
				if me.index.is_some() && f.index != e.index + pre.len() {
					return fail(&t, po, format!("index {} must move to {}: {}", e.index, e.index + pre.len(), f.text));
				}
			}
		}
		Ok(_) => return fail(&t, po, format!("the error {} disappeared behind neutral content", e.text)),
	}
	Ok(info(true, &src, po.bits(), sample(&src, po)).label(e.line > 1, "beyond line 1"))
}

// ---- C15

fn c15_built(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	po.sc = cx.s.chance(1, 4);
	let d = well_formed(&mut cx.s, po, p_special());
	let got = same_tree(&d, po, &Cmp::TREE)?;
	let mut n = 0;
	got.walk(&mut |m| {
		if m.kind == Kind::CData || (m.self_closed && !m.is_void) {
			n += 1
		}
	});
	Ok(info(n > 0, &d.src, po.bits(), sample(&d.src, po)).label(n > 2, "more than 2"))
}

/// put one self-closing tag or cdata section at some place of a document
fn c15_place(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	po.sc = cx.s.chance(1, 5);
	let s = &mut cx.s;
	let mut later = s.fork(6);
	let d = well_formed(s, po, p_special());
	let s = &mut later;
	let i = s.below(d.slots.len());
	let slot = &d.slots[i];
	let sp = slot.open.iter().find(|n| is_special(n));
	let cdata = s.chance(1, 2);
	let inside = sp.is_some();
	let direct = matches!((sp, slot.open.last()), (Some(a), Some(b)) if a.eq_ignore_ascii_case(b));
	let (t, ok, kind) = if cdata {
		("<![CDATA[<&>]]>".to_string(), inside && !direct, EK::CommonError)
	} else {
		let n = *s.pick(&["rect", "g", "b", "script", "TITLE", "svg", "math", "x-y", "br", "IMG", "pre"]);
		let t = *s.pick(&["/>", " />", " a='1'/>", " a//>", " a=1 / >"]);
		(
			format!("<{}{}", n, t),
			inside || po.sc || is_void(n),
			EK::WrongSelfClosing,
		)
	};
	let mut v = d.src.clone();
	v.splice(slot.pos..slot.pos, t.chars());
	match (parse(&s_of(&v), po), ok) {
		(Ok(g), true) => {
			let a = snap_ref(&g.get_root_node());
			if a.count() < d.root.count() + 1 {
				return fail(&v, po, format!("{} is not in the tree", t));
			}
			// the rest is as the reference parser says
			if let Against::Both(e, g) = against(&v, po) {
				let c = Cmp::TREE;
				if let Some(w) = diff(&e, &g, &c) {
					return fail(&v, po, w);
				}
			}
		}
		(Ok(_), false) => return fail(&v, po, format!("{} accepted at {}", t, slot.pos)),
		(Err(e), true) => return fail(&v, po, format!("{} rejected at {}: {}", t, slot.pos, e.text)),
		(Err(e), false) => {
			if e.kind != kind {
				return fail(&v, po, format!("{} at {}: expected {:?}, got {}", t, slot.pos, kind, e.text));
			}
		}
	}
	Ok(info(slot.open.len() >= 1, &v, po.bits(), sample(&v, po))
		.label(inside, "inside svg or math")
		.label(!inside && !slot.open.is_empty(), "inside other elements")
		.label(ok, "accepted")
		.label(slot.open.iter().filter(|n| is_special(n)).count() > 1, "nested svg or math"))
}

// ---- C16

fn flip(s: &mut Src, v: &mut [char]) -> bool {
	let idx: Vec<usize> = (0..v.len()).filter(|&i| v[i].is_ascii_alphabetic()).collect();
	if idx.is_empty() {
		return false;
	}
	let n = 1 + s.below(2);
	let first = *s.pick(&idx);
	for k in 0..n {
		let i = if k == 0 { first } else { *s.pick(&idx) };
		if k > 0 && i == first {
			continue;
		}
		v[i] = if v[i].is_ascii_uppercase() {
			v[i].to_ascii_lowercase()
		} else {
			v[i].to_ascii_uppercase()
		};
	}
	true
}

fn c16_flip(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	po.cs = true;
	let ins = Po { cs: false, ..po };
	let s = &mut cx.s;
	let mut later = s.fork(6);
	// no near end tags of another case in raw texts: their content is plain here
	let d = well_formed(
		s,
		po,
		Profile {
			kinds: [6, 12, 3, 0, 2, 1, 1],
			max_kids: 4,
			..p_default()
		},
	);
	// exact end tags: the option makes no difference
	let a = same_tree(&d, po, &Cmp::ALL)?;
	let b = accept_tree(&d.src, ins)?;
	if let Some(w) = diff(&a, &b, &Cmp::ALL) {
		return fail(&d.src, ins, format!("the tree depends on case_sensitive_tagname: {}", w));
	}
	if d.elems.is_empty() {
		return Ok(info(false, &d.src, po.bits(), sample(&d.src, po)));
	}
	// one end tag in another case
	let s = &mut later;
	let e = d.elems[s.below(d.elems.len())];
	let mut v = d.src.clone();
	let nm: Vec<char> = trim_end(&s_of(&v[e.2 + 2..e.3 - 1])).chars().collect();
	let mut f = nm.clone();
	flip(s, &mut f);
	v.splice(e.2 + 2..e.2 + 2 + nm.len(), f.clone());
	match parse(&s_of(&v), po) {
		Err(g) if g.kind == EK::WrongCaseSensitive => {}
		Err(g) => return fail(&v, po, format!("expected the case error, got {}", g.text)),
		Ok(_) => return fail(&v, po, "an end tag in another case was accepted".into()),
	}
	let c = accept_tree(&v, ins)?;
	if let Some(w) = diff(&b, &c, &Cmp { end: false, ..Cmp::ALL }) {
		return fail(&v, ins, format!("the case of an end tag changed the tree: {}", w));
	}
	Ok(info(true, &v, po.bits(), sample(&v, po)).label(d.elems.len() > 3, "more than 3 elements"))
}

/// raw text elements: an end tag in another case is content, or the end
fn c16_raw(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let n = *s.pick(&RAWS);
	let name = random_case(s, n);
	let mut other: Vec<char> = name.chars().collect();
	flip(s, &mut other);
	let other = s_of(&other);
	let (a, b) = (anything(s, 3), anything(s, 3));
	let clean = |t: String| t.replace("</", "<").replace('>', "");
	let (a, b) = (clean(a), clean(b));
	let w = ws_run(s, 0);
	let mut po = any_po(s);
	po.cs = true;
	let v: Vec<char> = format!("<{}>{}</{}{}>{}</{}>", name, a, other, w, b, name).chars().collect();
	let t = accept_tree(&v, po)?;
	let want = format!("{}</{}{}>{}", a, other, w, b);
	if t.kids.len() != 1 || t.kids[0].content.as_deref() != Some(want.as_str()) {
		return fail(&v, po, format!("content must be {:?}, got {:?}", want, t.kids.iter().map(|k| &k.content).collect::<Vec<_>>()));
	}
	po.cs = false;
	let v: Vec<char> = format!("<{}>{}</{}{}>", name, a, other, w).chars().collect();
	let t = accept_tree(&v, po)?;
	if t.kids.len() != 1 || t.kids[0].content.as_deref().unwrap_or("") != a {
		return fail(&v, po, format!("content must be {:?}, got {:?}", a, t.kids.iter().map(|k| &k.content).collect::<Vec<_>>()));
	}
	Ok(info(true, &v, po.bits(), sample(&v, po)))
}

/// non-ascii letters have no case here, and names differ in more than case
fn c16_names(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let po = any_po(s);
	const PAIRS: &[(&str, &str)] = &[
		("aé", "aÉ"), ("link", "lin\u{212a}"), ("as", "aſ"), ("ai", "aİ"), ("a[", "a{"), ("a@", "a`"), ("b", "b\u{a0}"),
		("b", "b\u{b}"), ("b", "bb"), ("bb", "b"), ("b", ""), ("b", " b"), ("b", "b c"), ("ab", "ba"), ("h1", "h2"), ("a-b", "a_b"),
		("a\0", "a "), ("aß", "aSS"), ("ak", "a\u{212a}"), ("xσ", "xς"), ("a1", "aQ"), ("b", "/b"), ("b", "b/"),
	];
	let (x, y) = *s.pick(PAIRS);
	let (x, y) = if s.chance(1, 2) && y.starts_with(|c: char| c.is_ascii_alphabetic()) { (y, x) } else { (x, y) };
	let (mut x, mut y) = (x.to_string(), y.to_string());
	if s.chance(1, 2) {
		x = s.pick(&["b", "div", "h1", "a-b", "my:tag", "ABC", "x_1", "svg", "pre", "kbd", "aé", "q[", "z~"]).to_string();
		for _ in 0..s.below(3) {
			x = near(s, &x);
		}
		y = near(s, &x).replace('>', "-");
		if !x.starts_with(|c: char| c.is_ascii_alphabetic()) || x.contains('>') || y.trim_end_matches(ws).eq_ignore_ascii_case(&x) {
			return Ok(info(false, &[], po.bits(), String::new()));
		}
	}
	let v: Vec<char> = format!("<{}>t</{}>", x, y).chars().collect();
	if is_void(&x) || is_raw(&x) || x.chars().any(|c| ws(c) || c == '/') {
		return Ok(info(false, &v, po.bits(), String::new()));
	}
	match parse(&s_of(&v), po.strict()) {
		Err(e) if e.kind == EK::WrongEndTag => {}
		Err(e) => return fail(&v, po.strict(), format!("expected a wrong end tag, got {}", e.text)),
		Ok(_) => return fail(&v, po.strict(), "an end tag of another name was accepted".into()),
	}
	Ok(info(true, &v, po.bits(), sample(&v, po)))
}

// ---- C26

/// the spans of start tags, texts, end tags … in document order cover the source exactly
fn tile(m: &M, at: &mut usize, src: &[char]) -> Result<(), String> {
	let e = |w: &str, got: usize, at: usize| Err(format!("{} of {:?} <{}> begins at {}, expected {}", w, m.kind, m.name, got, at));
	if m.kind != Kind::Root {
		if m.span.0 != *at {
			return e("node", m.span.0, *at);
		}
		if m.span.1 < m.span.0 || m.span.1 > src.len() {
			return Err(format!("bad span {:?} of <{}>", m.span, m.name));
		}
		let piece = s_of(&src[m.span.0..m.span.1]);
		let ok = match m.kind {
			Kind::Text | Kind::Spaces => Some(&piece) == m.content.as_ref(),
			Kind::Comment => piece == format!("<!--{}-->", m.content.as_deref().unwrap_or("")),
			Kind::CData => piece.ends_with(&format!("[{}]]>", m.content.as_deref().unwrap_or(""))),
			Kind::Doctype => piece.starts_with(&format!("<!{}", m.name)) && piece.ends_with('>'),
			_ => piece.starts_with(&format!("<{}", m.name)) && piece.ends_with('>'),
		};
		if !ok {
			return Err(format!("the source at the span of {:?} <{}> is {:?}", m.kind, m.name, piece));
		}
		*at = m.span.1;
	}
	if m.kind == Kind::Tag {
		if let Some(c) = &m.content {
			*at += c.chars().count();
		}
	}
	for k in &m.kids {
		tile(k, at, src)?;
	}
	if let Some((a, b)) = m.end_span {
		if a != *at {
			return e("end tag", a, *at);
		}
		if b < a || b > src.len() || s_of(&src[a..b]) != format!("</{}>", m.end.as_deref().unwrap_or("")) {
			return Err(format!("bad end tag span {:?} of <{}>", (a, b), m.name));
		}
		*at = b;
	}
	Ok(())
}

fn c26_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p_default());
	let got = same_tree(&d, po, &Cmp::ALL)?;
	let mut at = 0;
	if let Err(w) = tile(&got, &mut at, &d.src) {
		return fail(&d.src, po, w);
	}
	if at != d.src.len() {
		return fail(&d.src, po, format!("the spans end at {} of {}", at, d.src.len()));
	}
	let (n, _) = shape(&d);
	Ok(info(n >= 4, &d.src, po.bits(), sample(&d.src, po))
		.label(d.src.iter().any(|c| c.len_utf8() > 1), "non-ascii source"))
}

fn c26_soup(cx: &mut Cx) -> Res {
	let po = strict_po(&mut cx.s);
	let src = soup_src(cx, po, &p_default());
	let mut nt = false;
	if let Ok(d) = parse(&s_of(&src), po) {
		let g = snap_ref(&d.get_root_node());
		let mut at = 0;
		if let Err(w) = tile(&g, &mut at, &src) {
			return fail(&src, po, w);
		}
		if at != src.len() || g.span != (0, src.len()) {
			return fail(&src, po, format!("the spans end at {} of {}, root {:?}", at, src.len(), g.span));
		}
		nt = g.count() >= 3;
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

/// nodes untouched by a repair keep exact positions
fn c26_repaired(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p_default());
	let a = against(&src, po);
	let mut nt = false;
	if let Against::Both(e, g) = a {
		let c = Cmp { attrs: false, ..Cmp::ALL };
		if let Some(w) = diff(&e, &g, &c) {
			if w.contains("span") {
				return fail(&src, po, w);
			}
		}
		nt = po.has_repair() && e.count() >= 3 && parse(&s_of(&src), po.strict()).is_err();
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

fn c05_wide(cx: &mut Cx) -> Res {
	let c = Cmp {
		attrs: false,
		..Cmp::TREE
	};
	let (v, po, what, _) = wide_same(cx, false, &c)?;
	Ok(info(true, &v, po.bits(), what))
}
fn c06_wide(cx: &mut Cx) -> Res {
	let (v, po, what, _) = wide_same(cx, true, &Cmp::TREE)?;
	Ok(info(true, &v, po.bits(), what))
}
fn c26_wide(cx: &mut Cx) -> Res {
	let (v, po, what, g) = wide_same(cx, false, &Cmp::ALL)?;
	let mut at = 0;
	if let Err(w) = tile(&g, &mut at, &v) {
		return fail(&v[..v.len().min(40)], po, format!("{}: {}", what, w.chars().take(300).collect::<String>()));
	}
	Ok(info(true, &v, po.bits(), what))
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C05",
			rule: "documents built from the grammar together with their tree (nested elements, void, raw, self-closed, texts, comments, cdata, doctypes; odd names, cases, spacings), mutated documents and token soup compared with a reference parser, and names at edit distance 0 or 1 of every special name, one thing 250 to 65541 times or that long; non-trivial: at least 4 nodes and 3 levels (built), at least 3 nodes (soup)",
			subs: vec![
				Sub { name: "built", cases: 200_000, tape: 300, f: c05_built },
				Sub { name: "soup", cases: 200_000, tape: 260, f: c05_soup },
				Sub { name: "names", cases: 40_000, tape: 40, f: c05_names },
				Sub { name: "wide", cases: 24, tape: 8, f: c05_wide },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C06",
			rule: "elements and doctypes with 0 to 14 attributes of every shape (bare, quoted, unquoted, 'key=' without value, odd characters, spacing, slashes), and single tags from attribute-like characters against a reference parser; non-trivial: 2 attributes or more",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 200, f: c06_built },
				Sub { name: "tag_soup", cases: 300_000, tape: 40, f: c06_tag_soup },
				Sub { name: "wide", cases: 16, tape: 8, f: c06_wide },
			],
			once: None,
			assumptions: &["'key /= value' has no claimed meaning and is skipped"],
		},
		Prop {
			id: "C07",
			rule: "documents rich in script, style, title and textarea whose text is full of markup; single raw elements with text at small distance of the end tag, against the reference scan; non-trivial: the raw text contains '<' or '>'",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 200, f: c07_built },
				Sub { name: "near", cases: 300_000, tape: 80, f: c07_near },
				Sub { name: "sizes", cases: 400, tape: 12, f: c07_sizes },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C08",
			rule: "documents rich in comments, cdata sections and doctypes, and single ones whose text comes close to the delimiters; non-trivial: the content holds markup or delimiter characters",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 240, f: c08_built },
				Sub { name: "near", cases: 300_000, tape: 40, f: c08_near },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C09",
			rule: "a well-formed document with one of 12 kinds of defect put at a random place, with unrelated repairs on or off, and arbitrary text against a reference parser; non-trivial: a defect is present / the text is rejected",
			subs: vec![
				Sub { name: "inject", cases: 200_000, tape: 240, f: c09_inject },
				Sub { name: "soup", cases: 250_000, tape: 200, f: c09_soup },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C10",
			rule: "rejected sources (arbitrary text with every kind of line end; defects injected into documents) with text appended and neutral markup prepended; non-trivial: the source is rejected",
			subs: vec![
				Sub { name: "soup", cases: 200_000, tape: 200, f: c10_soup },
				Sub { name: "shift", cases: 150_000, tape: 240, f: c10_shift },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C15",
			rule: "documents rich in nested svg and math (any case) with self-closing tags and cdata sections; one more self-closing tag or cdata section put at a random place; non-trivial: inside at least one element",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 240, f: c15_built },
				Sub { name: "place", cases: 200_000, tape: 240, f: c15_place },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C16",
			rule: "documents with exact end tags, then one end tag with the case of one or two letters flipped; raw text elements with an end tag in another case; pairs of names that differ in more than ASCII case; non-trivial: an end tag was flipped",
			subs: vec![
				Sub { name: "flip", cases: 150_000, tape: 220, f: c16_flip },
				Sub { name: "raw", cases: 60_000, tape: 60, f: c16_raw },
				Sub { name: "names", cases: 16_000, tape: 6, f: c16_names },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C26",
			rule: "positions recorded for every node and end tag of built documents, of accepted arbitrary text, and of repaired text (nodes a repair did not touch); non-trivial: 3 or 4 nodes or more",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 260, f: c26_built },
				Sub { name: "soup", cases: 150_000, tape: 200, f: c26_soup },
				Sub { name: "repaired", cases: 150_000, tape: 200, f: c26_repaired },
				Sub { name: "wide", cases: 24, tape: 8, f: c26_wide },
			],
			once: None,
			assumptions: &["tags cut off by the end of input have no claimed span"],
		},
	]
}
