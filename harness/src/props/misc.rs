//! C23, C24, C27: files, documents, helpers.
use super::*;
use crate::{Once, Res, Sub};
use rphtml::parser::{allow_insert, is_content_tag, Attr, Doc as RDoc, NameCase};
use rphtml::util::*;
use std::path::PathBuf;

fn p() -> Profile {
	Profile {
		max_kids: 4,
		..Profile::default()
	}
}

// ---- C23

static DIR: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

/// remove the scratch directory of this process, if there is one
pub fn cleanup() {
	if let Some(d) = DIR.get() {
		let _ = std::env::set_current_dir("/");
		let _ = std::fs::remove_dir_all(d);
	}
}
fn scratch() -> &'static PathBuf {
	DIR.get_or_init(|| {
		let base = if std::path::Path::new("/dev/shm").is_dir() {
			PathBuf::from("/dev/shm")
		} else {
			std::env::temp_dir()
		};
		let d = base.join(format!("rpcheck-{}", std::process::id()));
		let d = match std::fs::create_dir_all(&d) {
			Ok(()) => d,
			Err(_) => {
				let d = std::env::temp_dir().join(format!("rpcheck-{}", std::process::id()));
				std::fs::create_dir_all(&d).expect("scratch directory");
				d
			}
		};
		// relative names are looked up here
		std::env::set_current_dir(&d).expect("enter scratch directory");
		d
	})
}
fn file_name() -> String {
	format!("f{:?}.html", std::thread::current().id()).replace(['(', ')'], "")
}

fn c23_file(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let ro = any_ro(&mut cx.s);
	let s = &mut cx.s;
	let style = s.below(6);
	let how = s.below(8);
	let rel = how % 2 == 1;
	// now and then larger than any buffer, with characters of several bytes everywhere
	let big = if s.chance(1, 60) {
		1 + *s.pick(&[500usize, 4096, 8192, 16_384, 65_536, 100_000]) + s.below(9) - s.below(5)
	} else {
		0
	};
	let fill = *s.pick(&['x', 'é', '中', '😀', '\n', '\r']);
	let src = if s.chance(1, 2) {
		well_formed(s, po, p()).src
	} else {
		soup(s, po, &p())
	};
	let mut v = vec![];
	for c in src {
		match c {
			' ' if style == 1 => v.push('\n'),
			' ' if style == 2 => v.extend(['\r', '\n']),
			' ' if style == 3 => v.push('\r'),
			_ => v.push(c),
		}
	}
	if style == 4 {
		v.push('\n');
	}
	if style == 5 {
		v.insert(0, '\u{feff}');
	}
	if big > 0 {
		// in bytes
		let n = big / fill.len_utf8();
		let at = if big % 2 == 0 { 0 } else { v.len() };
		v.splice(at..at, std::iter::repeat(fill).take(n).chain(['\r', '\n']));
	}
	let src = cx.source(v);
	let dir = scratch();
	let name = file_name();
	let path = dir.join(&name);
	std::fs::write(&path, s_of(&src)).map_err(|e| format!("harness: {}", e))?;
	let f = match how {
		// relative
		1 | 3 => RDoc::parse_file(&name, po.real()),
		5 => RDoc::parse_file(format!("./{}", name), po.real()),
		7 => {
			let up = PathBuf::from("..").join(dir.file_name().unwrap()).join(&name);
			RDoc::parse_file(up, po.real())
		}
		// absolute
		6 => RDoc::parse_file(dir.join(".").join(&name).to_str().unwrap(), po.real()),
		4 => {
			// by another name: a link
			let other = dir.join(format!("{} é.txt", name));
			let _ = std::fs::remove_file(&other);
			std::os::unix::fs::symlink(&path, &other).map_err(|e| format!("harness: {}", e))?;
			let f = RDoc::parse_file(&other, po.real());
			let _ = std::fs::remove_file(&other);
			f
		}
		_ => RDoc::parse_file(&path, po.real()),
	};
	let _ = std::fs::remove_file(&path);
	let t = parse(&s_of(&src), po);
	let ok = t.is_ok();
	match (f, t) {
		(Ok(a), Ok(b)) => {
			let (x, y) = (snap_ref(&b.get_root_node()), snap_ref(&a.get_root_node()));
			if let Some(w) = diff(&x, &y, &Cmp::ALL) {
				return fail(&src, po, format!("the file gives another tree: {}", w));
			}
			let (x, y) = (b.render(&ro.real()), a.render(&ro.real()));
			if x != y {
				return fail(&src, po, format!("the file renders {:?}, the text {:?}", y, x));
			}
		}
		(Err(e), Err(g)) => {
			if e.to_string() != g.text {
				return fail(&src, po, format!("the file gives {}, the text {}", e, g.text));
			}
		}
		(Ok(_), Err(g)) => return fail(&src, po, format!("the file is accepted, the text gives {}", g.text)),
		(Err(e), Ok(_)) => return fail(&src, po, format!("the text is accepted, the file gives {}", e)),
	}
	Ok(info(src.len() >= 4, &src, po.bits(), sample(&src, po))
		.label(rel, "relative name")
		.label(big > 8192, "more than 8 KiB")
		.label(src.contains(&'\r'), "carriage return")
		.label(!ok, "rejected"))
}

fn c23_bad(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let s = &mut cx.s;
	let dir = scratch();
	let which = s.below(9);
	let k = s.below(1000);
	let name = format!("bad-{}", file_name());
	let path = dir.join(&name);
	let (target, what) = match which {
		0 => (dir.join(format!("no-such-{}.html", k)), "a missing file"),
		1 => (PathBuf::from(format!("no-such-{}.html", k)), "a missing relative file"),
		2 => {
			// bytes that are no utf-8, at some place of a document
			let mut later = s.fork(2);
			let mut b = s_of(&well_formed(s, po, p()).src).into_bytes();
			let s = &mut later;
			let at = s.below(b.len() + 1);
			let bad: &[u8] = s.pick(&[&[0xff][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0xc0, 0x80], &[0xe2, 0x82]]);
			b.splice(at..at, bad.iter().copied());
			if String::from_utf8(b.clone()).is_ok() {
				b.push(0xff);
			}
			std::fs::write(&path, b).map_err(|e| format!("harness: {}", e))?;
			(path.clone(), "a file that is not utf-8")
		}
		3 => (dir.clone(), "a directory"),
		5 => (PathBuf::from("."), "the current directory"),
		6 => (PathBuf::from(""), "no name"),
		7 => (PathBuf::from(format!("no\0file{}", k)), "a name with a NUL"),
		8 => {
			std::fs::write(&path, b"x").map_err(|e| format!("harness: {}", e))?;
			(path.join("x.html"), "a file below a file")
		}
		_ => {
			std::fs::write(&path, b"").map_err(|e| format!("harness: {}", e))?;
			(path.clone(), "an empty file")
		}
	};
	let r = RDoc::parse_file(&target, po.real());
	let _ = std::fs::remove_file(&path);
	match (r, which) {
		(Ok(h), 4) => {
			let out = h.render(&Ro::default().real());
			if !out.is_empty() {
				return Err(format!("an empty file renders {:?}", out));
			}
		}
		(Err(e), 4) => return Err(format!("an empty file is rejected: {}", e)),
		(Ok(_), _) => return Err(format!("{} ({}) is accepted", what, target.display())),
		(Err(_), _) => {}
	}
	Ok(Info::new(true, hash_of(&(which, k, po.bits())), what.to_string()).label(true, what))
}

// ---- C24

fn c24_document(cx: &mut Cx) -> Res {
	let mut po = any_po(&mut cx.s);
	po.sc |= cx.s.chance(1, 2);
	let s = &mut cx.s;
	const PARTS: &[(&str, char)] = &[
		("<html></html>", 'h'), ("<HTML a='1'><body>x</body></HTML>", 'h'), ("<!DOCTYPE html>", 'o'), ("<!-- c -->", 'o'), (" ", 'w'), ("\n", 'w'),
		("<div></div>", 't'), ("<br>", 't'), ("x", 'x'), ("<htm></htm>", 't'), ("<htmls></htmls>", 't'), ("<p><html></html></p>", 't'),
		("<script>a</script>", 't'), ("<Html><!-- <p> --></Html>", 'h'), ("<head></head>", 't'), ("&lt;", 'x'), ("\u{a0}", 'x'), ("<xhtml></xhtml>", 't'),
	];
	let n = s.below(6);
	let mut v = String::new();
	let mut kinds = vec![];
	let many = if s.chance(1, 300) { s.below(n + 1) } else { 99 };
	for i in 0..n {
		if i == many {
			// a long way to the next part
			let k = *s.pick(&[20, 70, 130, 260, 520, 1030]);
			v.push_str(&s.pick(&["<!---->", "<!-- <html> -->\n", "<!DOCTYPE html>"]).repeat(k));
		}
		let (t, k) = *s.pick(PARTS);
		v.push_str(t);
		// whitespace beside text is text
		kinds.push(k);
	}
	let src: Vec<char> = v.chars().collect();
	let h = accept(&src, po)?;
	let root = h.get_root_node();
	let html = kinds.iter().filter(|k| **k == 'h').count();
	let others = kinds.iter().filter(|k| **k == 't' || **k == 'x').count();
	let is_doc = html > 0;
	let ok = !is_doc || (html == 1 && others == 0);
	let got = root.borrow().is_document();
	if got != (is_doc, ok) {
		return fail(&src, po, format!("is_document gives {:?}, expected {:?}", got, (is_doc, ok)));
	}
	for k in nodes(&root).iter().skip(1) {
		if k.borrow().is_document() != (false, true) {
			return fail(&src, po, "a node that is not the root is a document".into());
		}
	}
	Ok(info(n >= 2, &src, po.bits(), sample(&src, po)).label(is_doc && ok, "document").label(is_doc && !ok, "bad document"))
}

fn c24_built(cx: &mut Cx) -> Res {
	let po = any_po(&mut cx.s);
	let src = soup_src(cx, po, &Profile { kinds: [3, 9, 2, 1, 3, 0, 3], max_kids: 3, ..p() });
	let mut nt = false;
	if let Ok(h) = parse(&s_of(&src), po) {
		let root = h.get_root_node();
		let m = snap_ref(&root);
		let tags: Vec<&M> = m.kids.iter().filter(|k| k.kind == Kind::Tag).collect();
		let html = tags.iter().filter(|k| k.lname() == "html").count();
		let other = m.kids.iter().any(|k| matches!(k.kind, Kind::Text | Kind::CData));
		let want = (html > 0, html == 0 || (html == 1 && tags.len() == 1 && !other));
		let got = root.borrow().is_document();
		if got != want {
			return fail(&src, po, format!("is_document gives {:?}, expected {:?}", got, want));
		}
		nt = m.kids.len() >= 2;
	}
	Ok(info(nt, &src, po.bits(), sample(&src, po)))
}

// ---- C27

const TYPES: [NodeType; 8] = [
	NodeType::AbstractRoot,
	NodeType::HTMLDOCTYPE,
	NodeType::Comment,
	NodeType::Text,
	NodeType::SpacesBetweenTag,
	NodeType::Tag,
	NodeType::TagEnd,
	NodeType::XMLCDATA,
];

fn c27_names(cx: &mut Cx) -> Res {
	let s = &mut cx.s;
	let all: Vec<&str> = VOIDS
		.iter()
		.chain(RAWS.iter())
		.chain(SPECIALS.iter())
		.copied()
		.chain(["pre", "html", "div", "a", "b"])
		.collect();
	let mut n: Vec<char> = s.pick(&all).chars().collect();
	match s.below(6) {
		0 | 1 => {}
		2 => {
			let i = s.below(n.len());
			n[i] = any_char(s);
		}
		3 => {
			let i = s.below(n.len());
			n.remove(i);
		}
		4 => {
			let i = s.below(n.len() + 1);
			n.insert(i, any_char(s));
		}
		_ => {
			let i = s.below(n.len());
			n[i] = *s.pick(&['\u{212a}', 'ſ', 'ı', 'İ', 'a', 't']);
		}
	}
	let name = if n.is_empty() { String::new() } else { random_case(s, &s_of(&n)) };
	let chars: Vec<char> = name.chars().collect();
	for t in TYPES {
		let want = if is_void(&name) {
			false
		} else if is_plain(&name) {
			matches!(t, NodeType::Text | NodeType::SpacesBetweenTag)
		} else if t == NodeType::XMLCDATA {
			is_special(&name)
		} else {
			true
		};
		let got = allow_insert(&chars, t);
		if got != want {
			return Err(format!("allow_insert({:?}, {:?}) is {}, expected {}", name, t, got, want));
		}
	}
	let exact = RAWS.contains(&name.as_str());
	if is_content_tag(&chars, &None) != exact {
		return Err(format!("is_content_tag({:?}, exact) is {}", name, !exact));
	}
	if is_content_tag(&chars, &Some(NameCase::Lower)) != is_raw(&name) {
		return Err(format!("is_content_tag({:?}, lower) is {}", name, !is_raw(&name)));
	}
	// a name as in the table is one whatever the case asked, one of other letters never
	if (exact || !is_raw(&name)) && is_content_tag(&chars, &Some(NameCase::Upper)) != exact {
		return Err(format!("is_content_tag({:?}, upper) is {}", name, !exact));
	}
	// the helpers agree with the parser: an element that takes no tag has none as child
	let simple = chars.first().map_or(false, |c| c.is_ascii_alphabetic()) && chars.iter().all(|c| !ws(*c) && !"/>".contains(*c));
	if simple {
		let src: Vec<char> = format!("<{}><i></i></{}>", name, name).chars().collect();
		let po = Po {
			fe: true,
			..Po::default()
		};
		let t = accept_tree(&src, po)?;
		let has = t.kids.first().map_or(false, |k| !k.kids.is_empty());
		let takes = allow_insert(&chars, NodeType::Tag) && !is_content_tag(&chars, &Some(NameCase::Lower));
		if has != takes {
			return fail(&src, po, format!("the parser {} children, the helpers say {}", if has { "gives it" } else { "gives it no" }, takes));
		}
	}
	Ok(Info::new(is_void(&name) || is_raw(&name) || is_special(&name), hash_of(&name), name.clone())
		.label(is_void(&name), "void")
		.label(is_raw(&name), "raw"))
}

/// all scalar values
fn c27_chars() -> Result<Once, String> {
	let mut n = 0;
	let mut nt = 0;
	for v in 0..=0x10ffffu32 {
		let c = match char::from_u32(v) {
			Some(c) => c,
			None => continue,
		};
		n += 1;
		let non = (0xfdd0..=0xfdef).contains(&v) || v & 0xfffe == 0xfffe;
		if is_non_character(&c) != non {
			return Err(format!("is_non_character({:?}) is {}", c, !non));
		}
		let ascii_ok = c.is_ascii_alphanumeric() || "_-.:".contains(c);
		let key = if v < 0x80 { ascii_ok } else { !non };
		if is_char_available_in_key(&c) != key {
			return Err(format!("is_char_available_in_key({:?}) is {}", c, !key));
		}
		let val = !ws(c) && !"\0\"'<>/=`".contains(c);
		if is_char_available_in_value(&c) != val {
			return Err(format!("is_char_available_in_value({:?}) is {}", c, !val));
		}
		let quote = ws(c) || "\"'<>=`".contains(c);
		if Attr::need_quoted_char(&c) != quote {
			return Err(format!("need_quoted_char({:?}) is {}", c, !quote));
		}
		if non || !key || !val || quote {
			nt += 1;
		}
		// the parser agrees: an available character is a key and an unquoted value of its own
		if v < 0x3000 || v % 97 == 0 || non {
			if key || val {
				let src = format!("<b {}=1 k={}></b>", if key { c } else { 'y' }, if val { c } else { 'y' });
				let r = std::panic::catch_unwind(|| parse(&src, Po::default()).map(|d| snap_ref(&d.get_root_node())));
				let t = match r {
					Ok(Ok(t)) => t,
					Ok(Err(e)) => return Err(format!("{:?} rejected: {}", src, e.text)),
					Err(_) => return Err(format!("{:?} panics", src)),
				};
				let want = vec![
					MAttr {
						key: Some(if key { c } else { 'y' }.to_string()),
						val: Some("1".into()),
						quote: None,
					},
					MAttr {
						key: Some("k".into()),
						val: Some(if val { c } else { 'y' }.to_string()),
						quote: None,
					},
				];
				if t.kids[0].attrs != want {
					return Err(format!("{:?} gives {:?}", src, t.kids[0].attrs));
				}
			}
		}
	}
	Ok(Once {
		evaluations: n,
		nontrivial: nt,
		exhaustive: true,
		note: "the character predicates on every Unicode scalar value".into(),
	})
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C23",
			rule: "files written from built documents and arbitrary text with every kind of line end (and a byte order mark), absolute and relative names, against parsing the text; missing files, directories, files that are not utf-8; non-trivial: 4 characters or more",
			subs: vec![
				Sub { name: "file", cases: 60_000, tape: 220, f: c23_file },
				Sub { name: "bad", cases: 20_000, tape: 60, f: c23_bad },
			],
			once: None,
			assumptions: &["files live in a scratch directory of the check"],
		},
		Prop {
			id: "C24",
			rule: "sequences of top-level parts (html in any case, other elements, doctypes, comments, whitespace, text), and arbitrary text; non-trivial: 2 parts or more",
			subs: vec![
				Sub { name: "document", cases: 100_000, tape: 12, f: c24_document },
				Sub { name: "built", cases: 100_000, tape: 120, f: c24_built },
			],
			once: None,
			assumptions: &[],
		},
		Prop {
			id: "C27",
			rule: "every special name with up to one character changed, in any case, with every node type; every Unicode scalar value; non-trivial: a name with a role / a character with a restriction",
			subs: vec![Sub { name: "names", cases: 120_000, tape: 16, f: c27_names }],
			once: Some(c27_chars),
			assumptions: &[],
		},
	]
}
