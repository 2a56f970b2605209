//! C02, C03, C17 – C20: what is printed.
use super::*;
use crate::{Res, Sub};

fn p() -> Profile {
	Profile {
		max_kids: 5,
		..Profile::default()
	}
}
fn default_ro() -> rphtml::config::RenderOptions {
	Ro::default().real()
}

// ---- C02

fn c02_canonical(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(
		&mut cx.s,
		po,
		Profile {
			canonical: true,
			..p()
		},
	);
	let h = accept(&d.src, po)?;
	let out = h.render(&default_ro());
	if out != d.source() {
		return fail(&d.src, po, format!("renders {:?}", out));
	}
	Ok(info(d.root.count() >= 4, &d.src, po.bits(), sample(&d.src, po)).label(d.root.count() >= 20, "20 nodes or more"))
}

fn c02_any(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p());
	let h = accept(&d.src, po)?;
	let out = h.render(&default_ro());
	let want = render(&d.root, &Ro::default());
	if out != want {
		return fail(&d.src, po, format!("renders {:?}, expected {:?}", out, want));
	}
	// what stands outside start tags is there character by character
	Ok(info(d.root.count() >= 4, &d.src, po.bits(), sample(&d.src, po)))
}

fn c02_soup(cx: &mut Cx) -> Res {
	let po = strict_po(&mut cx.s);
	let src = soup_src(cx, po, &p());
	let mut nt = false;
	if let Against::Both(e, _) = against(&src, po) {
		let h = accept(&src, po)?;
		let out = h.render(&default_ro());
		let want = render(&e, &Ro::default());
		if out != want {
			return fail(&src, po, format!("renders {:?}, expected {:?}", out, want));
		}
		nt = e.count() >= 3;
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

fn c02_wide(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let (v, what) = wide(&mut cx.s, false);
	let shown = &v[..v.len().min(40)];
	let text = s_of(&v);
	let out = match parse(&text, po) {
		Ok(h) => h.render(&default_ro()),
		Err(e) => return fail(shown, po, format!("{}: rejected: {}", what, e.text)),
	};
	if out != text {
		let at = out.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
		return fail(shown, po, format!("{}: the rendering differs from byte {} on", what, at));
	}
	Ok(info(true, &v, po.bits(), what))
}

// ---- C03

/// the excluded finding: a key that begins with '=' right after an attribute without value
fn eq_after_bare(m: &M) -> bool {
	m.any(&|m| {
		m.attrs.windows(2).any(|w| {
			w[0].val.is_none() && w[1].key.as_ref().map_or(false, |k| k.starts_with('='))
		})
	})
}

fn roundtrip(src: &[char], po: Po, ro: &Ro) -> Result<Option<M>, String> {
	let h = match parse(&s_of(src), po) {
		Ok(h) => h,
		Err(_) => return Ok(None),
	};
	let a = snap_ref(&h.get_root_node());
	if eq_after_bare(&a) {
		return Ok(None);
	}
	let out = h.render(&ro.real());
	let again = po.strict();
	let h2 = match parse(&out, again) {
		Ok(h) => h,
		Err(e) => return fail(src, po, format!("renders {:?}, which is rejected: {}", out, e.text)),
	};
	let b = snap_ref(&h2.get_root_node());
	if let Some(w) = diff(&a, &b, &Cmp::MEANING) {
		return fail(src, po, format!("renders {:?}, which is another document: {}", out, w));
	}
	let out2 = h2.render(&ro.real());
	if out2 != out {
		return fail(src, po, format!("renders {:?}, and that renders {:?}", out, out2));
	}
	Ok(Some(a))
}

fn c03_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p());
	let r = roundtrip(&d.src, po, &Ro::default())?;
	let nt = r.as_ref().map_or(false, |a| a.count() >= 4);
	Ok(info(nt, &d.src, po.bits(), sample(&d.src, po))
		.label(r.is_none(), "excluded or rejected")
		.label(d.root.any(&|m| !m.attrs.is_empty()), "attributes"))
}

fn c03_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p());
	let r = roundtrip(&src, po, &Ro::default())?;
	let rep = r.is_some() && po.has_repair() && parse(&s_of(&src), po.strict()).is_err();
	let nt = r.as_ref().map_or(false, |a| a.count() >= 3);
	Ok(info(nt, &src, po.bits(), sample(&src, po))
		.label(r.is_none(), "excluded or rejected")
		.label(rep, "repaired document"))
}

/// the whole document, and one node in all its forms, against the reference renderer
fn views(src: &[char], po: Po, root: &RefNode, m: &M, ro: &Ro, s: &mut Src) -> Result<(), String> {
	let out = outer(root, ro);
	let want = render(m, ro);
	if out != want {
		return fail(src, po, format!("{:?}: {:?}, expected {:?}", ro, out, want));
	}
	let (mut n, mut m) = (root.clone(), m);
	while !m.kids.is_empty() && (m.kind == Kind::Root || s.chance(2, 3)) {
		let i = s.below(m.kids.len());
		let k = n.borrow().childs.as_ref().and_then(|c| c.get(i).cloned());
		n = match k {
			Some(k) => k,
			None => return fail(src, po, format!("{} has no child {}", m.name, i)),
		};
		m = &m.kids[i];
	}
	if m.kind == Kind::Root {
		return Ok(());
	}
	let out = outer(&n, ro);
	let want = render(m, ro);
	if out != want {
		return fail(src, po, format!("{:?}: the node {:?}, expected {:?}", ro, out, want));
	}
	if m.kind == Kind::Tag {
		let out = inner(&n, ro);
		let mut want = String::new();
		render_inner(m, ro, false, &mut want);
		if out != want {
			return fail(src, po, format!("{:?}: inner html {:?}, expected {:?}", ro, out, want));
		}
		if let Err(e) = text_is(m, &inner_text(&n, ro), ro) {
			return fail(src, po, format!("{:?}: inner {}", ro, e));
		}
	}
	Ok(())
}
/// other options come along in half of the cases
fn with_others(s: &mut Src, ro: Ro, mask: usize) -> Ro {
	if s.chance(1, 2) {
		Ro::from_bits(s.below(256) & !mask | ro.bits() & mask)
	} else {
		ro
	}
}

// ---- C17

fn p_space() -> Profile {
	Profile {
		kinds: [14, 9, 2, 2, 2, 1, 1],
		max_kids: 5,
		max_depth: 5,
		pre: (1, 4),
		..Profile::default()
	}
}

fn squash(s: &str) -> String {
	s.chars().filter(|c| !ws(*c)).collect()
}

fn c17_minify(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let decode = cx.s.chance(1, 4);
	let ro = Ro {
		minify: true,
		decode,
		..Ro::default()
	};
	let mut s = cx.s.fork(20);
	let others = with_others(&mut s, ro, 1);
	let d = well_formed(&mut cx.s, po, p_space());
	let h = accept(&d.src, po)?;
	views(&d.src, po, &h.get_root_node(), &d.root, &others, &mut s)?;
	let out = h.render(&ro.real());
	let want = render(&d.root, &ro);
	if out != want {
		return fail(&d.src, po, format!("minified ({:?}): {:?}, expected {:?}", ro, out, want));
	}
	let plain = h.render(&default_ro());
	if !decode {
		// nothing but whitespace goes
		if squash(&plain) != squash(&out) {
			return fail(&d.src, po, format!("minifying changed more than whitespace: {:?} -> {:?}", plain, out));
		}
		// and minifying once is enough
		match parse(&out, po.strict()) {
			Ok(h2) => {
				let again = h2.render(&ro.real());
				if again != out {
					return fail(&d.src, po, format!("minified {:?}, minified again {:?}", out, again));
				}
			}
			Err(e) => {
				if !eq_after_bare(&d.root) {
					return fail(&d.src, po, format!("minified {:?} is rejected: {}", out, e.text));
				}
			}
		}
	}
	Ok(info(plain.len() != out.len(), &d.src, po.bits(), sample(&d.src, po))
		.label(decode, "with decoding")
		.label(d.root.any(&|m| m.lname() == "pre" && m.kids.len() > 0), "pre with content")
		.label(d.root.any(&|m| m.kind == Kind::Spaces), "spaces between tags"))
}

fn c17_soup(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &p_space());
	let ro = Ro {
		minify: true,
		..Ro::default()
	};
	let mut nt = false;
	if let Against::Both(e, _) = against(&src, po) {
		let h = accept(&src, po)?;
		let out = h.render(&ro.real());
		let want = render(&e, &ro);
		if out != want {
			return fail(&src, po, format!("minified {:?}, expected {:?}", out, want));
		}
		nt = out != h.render(&default_ro());
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

// ---- C18

/// lower-case names, no trailing space in end tags, quotes off, no comments, void closed
fn c18_exact(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let b = cx.s.below(32);
	let ro = Ro::from_bits(b << 1);
	let mut s = cx.s.fork(20);
	let others = with_others(&mut s, ro, 31 << 1);
	let d = well_formed(
		&mut cx.s,
		po,
		Profile {
			kinds: [6, 9, 5, 2, 3, 1, 1],
			attr_den: 1,
			..p()
		},
	);
	let h = accept(&d.src, po)?;
	views(&d.src, po, &h.get_root_node(), &d.root, &others, &mut s)?;
	let out = h.render(&ro.real());
	let want = render(&d.root, &ro);
	if out != want {
		return fail(&d.src, po, format!("{:?}: {:?}, expected {:?}", ro, out, want));
	}
	let plain = h.render(&default_ro());
	Ok(info(plain != out, &d.src, b, sample(&d.src, po))
		.label(ro.lower, "lowercase_tagname")
		.label(ro.endsp, "remove_endtag_space")
		.label(ro.unquote, "remove_attr_quote")
		.label(ro.nocomment, "remove_comment")
		.label(ro.closevoid, "always_close_void"))
}

fn lower_names(m: &mut M) {
	m.walk_mut(&mut |m| {
		if m.kind == Kind::Tag {
			m.name = m.name.to_ascii_lowercase();
			m.end = m.end.as_ref().map(|e| e.to_ascii_lowercase());
		}
	});
}
fn drop_comments(m: &mut M) {
	let old = std::mem::take(&mut m.kids);
	for k in old {
		if k.kind == Kind::Comment {
			continue;
		}
		match m.kids.last_mut() {
			// the texts around a removed comment are one text then
			Some(l) if l.is_text() && k.is_text() => {
				l.content.as_mut().unwrap().push_str(k.content.as_deref().unwrap());
				l.kind = Kind::Text;
			}
			_ => m.kids.push(k),
		}
	}
	for k in &mut m.kids {
		drop_comments(k);
	}
}

/// the excluded finding: `<TITLE></title></TITLE>` where case matters, and names printed in lower case
fn lower_end_in_raw(m: &M) -> bool {
	m.any(&|m| {
		let name = m.lname();
		m.kind == Kind::Tag && m.name != name && is_raw(&name) && {
			let mut c: Vec<char> = m.content.as_deref().unwrap_or("").chars().collect();
			let n = c.len();
			c.extend(format!("</{}>", name).chars());
			find_raw_end(&c, 0, &name, true).map_or(false, |(i, _)| i < n)
		}
	})
}

/// not claimed: cdata directly in an svg or math nested in one of the same name in another case
fn cdata_in_variant(m: &M, special: Option<&str>) -> bool {
	let sp = match special {
		None if m.kind == Kind::Tag && is_special(&m.name) => Some(m.name.as_str()),
		s => s,
	};
	let variant = sp.map_or(false, |s| s != m.name && s.eq_ignore_ascii_case(&m.name));
	m.kids.iter().any(|k| variant && k.kind == Kind::CData || cdata_in_variant(k, sp))
}

/// the options change the spelling, not the document
fn c18_meaning(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let b = cx.s.below(32);
	let ro = Ro::from_bits(b << 1);
	let src = soup_src(
		cx,
		po,
		&Profile {
			kinds: [6, 9, 5, 2, 3, 1, 1],
			attr_den: 1,
			..p()
		},
	);
	let mut nt = false;
	if let Ok(h) = parse(&s_of(&src), po) {
		let mut a = snap_ref(&h.get_root_node());
		if !eq_after_bare(&a) && !(ro.lower && (po.cs && lower_end_in_raw(&a) || cdata_in_variant(&a, None))) {
			let out = h.render(&ro.real());
			// a lower-case end tag never closes an upper-case element when case matters
			let again = po.strict();
			let h2 = match parse(&out, again) {
				Ok(h) => h,
				Err(e) => return fail(&src, po, format!("{:?} renders {:?}, which is rejected: {}", ro, out, e.text)),
			};
			let mut g = snap_ref(&h2.get_root_node());
			if ro.nocomment {
				drop_comments(&mut a);
			}
			if ro.lower {
				lower_names(&mut a);
			}
			for m in [&mut a, &mut g] {
				m.walk_mut(&mut |m| {
					if ro.endsp {
						m.end = m.end.as_ref().map(|e| trim_end(e).to_string());
					}
					if ro.unquote {
						for a in &mut m.attrs {
							a.quote = None;
						}
					}
					if ro.closevoid && m.is_void {
						m.self_closed = true;
					}
				});
			}
			// without the comments a whitespace text may be all an element contains
			let c = if ro.nocomment { Cmp::MEANING.no_ws() } else { Cmp::MEANING };
			if let Some(w) = diff(&a, &g, &c) {
				return fail(&src, po, format!("{:?} renders {:?}, which is another document: {}", ro, out, w));
			}
			nt = b != 0 && a.count() >= 3;
		}
	}
	Ok(info(nt, &src, b, sample(&src, po)))
}

/// quotes are only removed where the value does not need them
fn c18_quotes(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let q = *s.pick(&['"', '\'']);
	let mut val: String = value_bits(s, 4);
	if s.chance(1, 8) {
		val.push(any_char(s));
	}
	let val: String = val.chars().filter(|c| *c != q).collect();
	let name = *s.pick(&["b", "br"]);
	let tail = *s.pick(&["", " c", " c='d'", " /"]);
	let po = Po {
		sc: true,
		..Po::default()
	};
	let close = if name == "b" && tail != " /" { "x</b>" } else { "" };
	let src: Vec<char> = format!("<{} k={}{}{}{}>{}", name, q, val, q, tail, close).chars().collect();
	let h = accept(&src, po)?;
	let ro = Ro {
		unquote: true,
		..Ro::default()
	};
	let out = h.render(&ro.real());
	let h2 = match parse(&out, po) {
		Ok(h) => h,
		Err(e) => return fail(&src, po, format!("without quotes {:?}, which is rejected: {}", out, e.text)),
	};
	let mut a = snap_ref(&h.get_root_node());
	let mut g = snap_ref(&h2.get_root_node());
	let kept = g.kids.first().and_then(|k| k.attrs.first()).map_or(false, |a| a.quote.is_some());
	for m in [&mut a, &mut g] {
		m.walk_mut(&mut |m| m.attrs.iter_mut().for_each(|a| a.quote = None));
	}
	if let Some(w) = diff(&a, &g, &Cmp::MEANING) {
		return fail(&src, po, format!("without quotes {:?}: {}", out, w));
	}
	if kept != must_quote(&val) {
		return fail(&src, po, format!("quotes {} in {:?}", if kept { "kept without need" } else { "lost" }, out));
	}
	Ok(info(!val.is_empty(), &src, 0, sample(&src, po)).label(kept, "needs quotes"))
}

// ---- C19

fn p_ent() -> Profile {
	Profile {
		kinds: [12, 8, 1, 6, 2, 1, 0],
		max_kids: 4,
		max_depth: 4,
		..Profile::default()
	}
}

fn c19_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let b = 1 + cx.s.below(3);
	let ro = Ro {
		decode: b & 1 != 0,
		encode: b & 2 != 0,
		minify: cx.s.chance(1, 5),
		..Ro::default()
	};
	let mut s = cx.s.fork(20);
	let others = with_others(&mut s, ro, 3 << 6);
	let d = well_formed(&mut cx.s, po, p_ent());
	let h = accept(&d.src, po)?;
	views(&d.src, po, &h.get_root_node(), &d.root, &others, &mut s)?;
	let out = h.render(&ro.real());
	let want = render(&d.root, &ro);
	if out != want {
		return fail(&d.src, po, format!("{:?}: {:?}, expected {:?}", ro, out, want));
	}
	let plain = h.render(&Ro { decode: false, encode: false, ..ro }.real());
	Ok(info(plain != out, &d.src, b, sample(&d.src, po))
		.label(ro.decode, "decode_entity")
		.label(ro.encode, "encode_content"))
}

/// decoding a text gives back the characters it was written for
fn c19_inverse(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let n = 1 + s.below(8);
	let mut enc = String::new();
	let mut dec = String::new();
	for _ in 0..n {
		match s.below(4) {
			0 => {
				let (e, c) = *s.pick(&ENTS[..]);
				enc.push_str(&format!("&{};", e));
				dec.push(c);
			}
			1 => {
				let c = any_char(s);
				let v = c as u32;
				// plain characters, or a numeric reference to one that is neither control nor surrogate
				if c.is_alphanumeric() && c as u32 > 0x20 {
					let t = match s.below(3) {
						0 => format!("&#{};", v),
						1 => format!("&#x{:x};", v),
						_ => format!("&#X{:X};", v),
					};
					enc.push_str(&t);
					dec.push(c);
				} else {
					enc.push('y');
					dec.push('y');
				}
			}
			2 => {
				let t = *s.pick(&["x", " ", "a b", "é", ";", "=", "#", "lt;", "😀"]);
				enc.push_str(t);
				dec.push_str(t);
			}
			_ => {
				// an ampersand that starts no reference
				let t = *s.pick(&["& ", "&;", "&&", "&nosuchname;", "&#;", "&#xzz;", "&lt "]);
				enc.push_str(t);
				dec.push_str(t);
				enc.push(' ');
				dec.push(' ');
			}
		}
	}
	let src: Vec<char> = format!("<p a='{}'>{}z</p>", enc.replace('\'', ""), enc).chars().collect();
	let ro = Ro {
		decode: true,
		..Ro::default()
	};
	let po = Po::default();
	let h = accept(&src, po)?;
	let p = h.get_root_node().borrow().childs.as_ref().unwrap()[0].clone();
	let got = inner(&p, &ro);
	if got != format!("{}z", dec) {
		return fail(&src, po, format!("decoded {:?}, expected {:?}", got, format!("{}z", dec)));
	}
	let t = inner_text(&p, &ro);
	if t != got {
		return fail(&src, po, format!("the text {:?} differs from {:?}", t, got));
	}
	// attribute values are not touched
	let o = outer(&p, &ro);
	if !o.starts_with(&format!("<p a='{}'>", enc.replace('\'', ""))) {
		return fail(&src, po, format!("the attribute changed: {:?}", o));
	}
	Ok(info(enc != dec, &src, 0, sample(&src, po)))
}

/// encode_content: title and textarea become plain text, script and style stay
fn c19_encode(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let n = *s.pick(&RAWS);
	let name = random_case(s, n);
	let mut c = anything(s, 6);
	if s.chance(1, 4) {
		c.push(any_char(s));
	}
	while c.contains("</") {
		c = c.replace("</", "<");
	}
	let src: Vec<char> = format!("<{}>{}</{}>", name, c, name).chars().collect();
	let po = Po::default();
	let h = accept(&src, po)?;
	let t = h.get_root_node().borrow().childs.as_ref().unwrap()[0].clone();
	let ro = Ro {
		encode: true,
		..Ro::default()
	};
	let got = inner(&t, &ro);
	if is_plain(n) {
		if got.contains('<') || got.contains('>') {
			return fail(&src, po, format!("encoded content {:?}", got));
		}
		let want = encode_html(&c);
		if got != want {
			return fail(&src, po, format!("encoded {:?}, expected {:?}", got, want));
		}
		// decoding the text gives the content back
		let back = ref_decode(&got);
		if back != c {
			return fail(&src, po, format!("encoded {:?} decodes to {:?}", got, back));
		}
	} else if got != c {
		return fail(&src, po, format!("{} content changed to {:?}", name, got));
	}
	if inner(&t, &Ro::default()) != c {
		return fail(&src, po, "content changed without encoding".into());
	}
	Ok(info(c.contains(|x| "<>&".contains(x)), &src, 0, sample(&src, po)).label(is_plain(n), "title or textarea"))
}

// ---- C20

/// what `f` gives, nothing if it refuses
fn answers(f: impl FnOnce() -> String) -> Option<String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// the inner text of an element: cdata sections count with their content, comments and doctypes do not
pub fn text_is(m: &M, got: &str, ro: &Ro) -> Result<(), String> {
	let mut w = String::new();
	render_text(m, ro, false, &mut w);
	if w == got {
		return Ok(());
	}
	Err(format!("text {:?}, expected {:?}", got, w))
}

/// inner html and text of a document that has a single element at the top, or nothing
pub fn document_inner(h: &DocHolder, m: &M, ro: &Ro) -> Result<(), String> {
	let tags: Vec<&M> = m.kids.iter().filter(|k| k.kind == Kind::Tag).collect();
	if tags.len() != 1 && !m.kids.is_empty() {
		return Ok(());
	}
	let i = h.render(&Ro { inner: true, ..*ro }.real());
	let t = h.render_text(&ro.real());
	match tags.first() {
		Some(tag) => {
			let mut w = String::new();
			render_inner(tag, ro, false, &mut w);
			if i != w {
				return Err(format!("inner_html of the document {:?}, expected {:?}", i, w));
			}
			text_is(tag, &t, ro).map_err(|w| format!("document: {}", w))
		}
		None if i.is_empty() && t.is_empty() => Ok(()),
		None => Err(format!("inner html {:?} and text {:?} of an empty document", i, t)),
	}
}

fn c20_parts(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let mut ro = any_ro(&mut cx.s);
	let d = well_formed(&mut cx.s, po, p());
	// decoding is slow, and every text is rendered once or more per level
	ro.decode &= d.root.depth() < 40;
	let h = accept(&d.src, po)?;
	let root = h.get_root_node();
	fn go(n: &RefNode, m: &M, ro: &Ro, in_pre: bool, path: &mut Vec<usize>) -> Result<(), String> {
		let whole = outer(n, ro);
		let want = render(m, ro);
		if whole != want {
			return Err(format!("node {:?}: {:?}, expected {:?}", path, whole, want));
		}
		let here_pre = in_pre || m.lname() == "pre";
		if m.kind == Kind::Tag {
			let i = inner(n, ro);
			let (mut a, mut b) = (String::new(), String::new());
			render_open(m, ro, &mut a);
			render_close(m, ro, &mut b);
			if whole != format!("{}{}{}", a, i, b) {
				return Err(format!("node {:?}: outer {:?} is not start tag, inner {:?}, end tag", path, whole, i));
			}
		}
		if m.kind == Kind::Root || m.kind == Kind::Tag {
			// spaces are kept inside pre, which a part rendered alone does not know
			if !(ro.minify && m.any(&|m| m.lname() == "pre")) && !(ro.minify && here_pre) && m.content.is_none() {
				let mut parts = String::new();
				if let Some(c) = &n.borrow().childs {
					for k in c {
						parts.push_str(&outer(k, ro));
					}
				}
				let i = if m.kind == Kind::Root { whole.clone() } else { inner(n, ro) };
				if i != parts {
					return Err(format!("node {:?}: inner {:?} is not its children's {:?}", path, i, parts));
				}
			}
		}
		match m.kind {
			Kind::Tag => text_is(m, &inner_text(n, ro), ro).map_err(|e| format!("node {:?}: {}", path, e))?,
			Kind::Comment => {
				let t = inner_text(n, ro);
				let w = if ro.nocomment { "" } else { m.content.as_deref().unwrap_or("") };
				if t != w {
					return Err(format!("node {:?}: comment text {:?}, expected {:?}", path, t, w));
				}
			}
			Kind::CData => {
				let t = inner_text(n, ro);
				if Some(&t) != m.content.as_ref() {
					return Err(format!("node {:?}: text of a cdata section {:?}, expected {:?}", path, t, m.content));
				}
			}
			_ => {}
		}
		if let Some(c) = &n.borrow().childs {
			for (i, (k, km)) in c.iter().zip(&m.kids).enumerate() {
				path.push(i);
				go(k, km, ro, here_pre, path)?;
				path.pop();
			}
		}
		Ok(())
	}
	let e = d.root.clone();
	if let Err(w) = go(&root, &e, &ro, false, &mut vec![]) {
		return fail(&d.src, po, format!("{:?}: {}", ro, w));
	}
	// the whole document by way of its only element
	if let Err(w) = document_inner(&h, &e, &ro) {
		return fail(&d.src, po, w);
	}
	let tags: Vec<&M> = e.kids.iter().filter(|k| k.kind == Kind::Tag).collect();
	// what has no inner html or text gives none
	let refused = cx.s.below(6) == 0;
	if refused {
		if tags.len() > 1 || (tags.is_empty() && !e.kids.is_empty()) {
			if let Some(g) = answers(|| h.render(&Ro { inner: true, ..ro }.real())) {
				return fail(&d.src, po, format!("inner_html of a document with {} top-level elements: {:?}", tags.len(), g));
			}
			if let Some(g) = answers(|| h.render_text(&ro.real())) {
				return fail(&d.src, po, format!("text of a document with {} top-level elements: {:?}", tags.len(), g));
			}
		}
		let ns = nodes(&root);
		let n = &ns[cx.s.below(ns.len())];
		let kind = n.borrow().node_type;
		if !matches!(kind, NodeType::Tag | NodeType::AbstractRoot) {
			if let Some(g) = answers(|| inner(n, &ro)) {
				return fail(&d.src, po, format!("inner_html of a {:?}: {:?}", kind, g));
			}
			if !matches!(kind, NodeType::Comment | NodeType::XMLCDATA) {
				if let Some(g) = answers(|| inner_text(n, &ro)) {
					return fail(&d.src, po, format!("inner text of a {:?}: {:?}", kind, g));
				}
			}
		}
	}
	Ok(info(e.depth() >= 3 && e.count() >= 4, &d.src, po.bits(), sample(&d.src, po))
		.label(tags.len() == 1, "single element")
		.label(refused && tags.len() > 1, "refused")
		.label(ro.minify, "minified"))
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C02",
			rule: "documents in canonical spacing (rendering must be the source), in any spacing (rendering must be the source with the spacing in tags normalised), and accepted arbitrary text; non-trivial: 3 or 4 nodes or more",
			subs: vec![
				Sub { name: "canonical", cases: 200_000, tape: 260, f: c02_canonical },
				Sub { name: "any", cases: 150_000, tape: 260, f: c02_any },
				Sub { name: "soup", cases: 120_000, tape: 200, f: c02_soup },
				Sub { name: "wide", cases: 32, tape: 8, f: c02_wide },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C03",
			rule: "rendering parsed again without repairs: built documents and arbitrary text under every option set, repaired documents included; non-trivial: accepted, 3 or 4 nodes or more",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 260, f: c03_built },
				Sub { name: "soup", cases: 250_000, tape: 200, f: c03_soup },
			],
			once: None,
			assumptions: &["a key that begins with '=' right after an attribute without value is a known finding and excluded"],
		},
		Prop {
			id: "C17",
			rule: "documents rich in whitespace, pre elements (nested, self-closed, any case) and entities; non-trivial: minifying changes the output",
			subs: vec![
				Sub { name: "minify", cases: 200_000, tape: 240, f: c17_minify },
				Sub { name: "soup", cases: 120_000, tape: 200, f: c17_soup },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C18",
			rule: "documents with comments, void elements and attributes under every combination of the five options: exact output against the reference renderer, and the output parsed again; quoted values of every kind; non-trivial: the options change the output",
			subs: vec![
				Sub { name: "exact", cases: 150_000, tape: 240, f: c18_exact },
				Sub { name: "meaning", cases: 150_000, tape: 200, f: c18_meaning },
				Sub { name: "quotes", cases: 100_000, tape: 30, f: c18_quotes },
			],
			once: None,
			assumptions: &["parsing again: case-sensitive documents with a raw element in upper case whose text holds its lower-case end tag are a known finding with lowercase_tagname, and excluded"],
		},
		Prop {
			id: "C19",
			rule: "documents rich in entities and raw text under the decode/encode options; texts built together with what they decode to; non-trivial: the option changes the output",
			subs: vec![
				Sub { name: "built", cases: 150_000, tape: 220, f: c19_built },
				Sub { name: "inverse", cases: 150_000, tape: 60, f: c19_inverse },
				Sub { name: "encode", cases: 100_000, tape: 40, f: c19_encode },
			],
			once: None,
			assumptions: &["the table of entity names of the htmlentity crate is trusted for a single reference"],
		},
		Prop {
			id: "C20",
			rule: "every node of a document rendered alone (outer, inner html, inner text) under every option set; non-trivial: 3 levels and 4 nodes or more",
			subs: vec![Sub { name: "parts", cases: 120_000, tape: 240, f: c20_parts }],
			once: None,
			assumptions: &[],
		},
	]
}
