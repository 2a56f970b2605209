T = "\t"
seed("raw-end-partial-panic", "C01", [(P,
 "\t\tif prev_len >= detect_len {\n\t\t\tlet case_sensitive",
 "\t\tif prev_len > 0 {\n\t\t\tlet case_sensitive")],
 '''for s in ["<script>t           ></script>", "<style>le\\n\\n\\n\\n\\n\\n\\n\\n></style>", "<title>        ></title>", "<script>ipt       ></script>"] {
  assert_eq!(r(&p(s, |_| {}), |_| {}), s);
}''',
 "a raw text element whose content so far is only a tail of its end tag ('t', 'ipt', ...), then at least as much whitespace as the end tag is long, then '>'",
 "index underflow: parsing panics")
seed("raw-end-unicode-space", "C07", [(P,
 "\t\t\tif !prev_char.is_ascii_whitespace() {", "\t\t\tif !prev_char.is_whitespace() {")],
 '''let s = "<script>a</script\\u{a0}>b</script>";
let d = p(s, |_| {});
let n = kid(&d.get_root_node(), 0);
assert_eq!(n.borrow().content.as_ref().unwrap().iter().collect::<String>(), "a</script\\u{a0}>b");
assert_eq!(d.get_root_node().borrow().childs.as_ref().unwrap().len(), 1);''',
 "in a raw text element, the end tag's name followed by a non-ASCII space (U+00A0, U+2003, U+0085 ...) or U+000B and '>'",
 "the element ends too early")
seed("comment-bang-end", "C08", [(P,
 "\t\t\tif prev_char == end_symbol && chars[total - 2] == end_symbol {\n\t\t\t\t// remove suffix <comment>'--' or <cdata>']]'\n\t\t\t\tdoc.prev_chars.truncate(total - 2);",
 "\t\t\t// a comment may also end with '--!>'\n\t\t\tlet bang = end_symbol == DASH_CHAR && prev_char == '!' && total > 2;\n\t\t\tlet last = if bang { total - 1 } else { total };\n\t\t\tif chars[last - 1] == end_symbol && chars[last - 2] == end_symbol {\n\t\t\t\t// remove suffix <comment>'--' or <cdata>']]'\n\t\t\t\tdoc.prev_chars.truncate(last - 2);")],
 '''let s = "<p><!--a--!>b--></p>";
let d = p(s, |_| {});
assert_eq!(r(&d, |_| {}), s);
let c = kid(&kid(&d.get_root_node(), 0), 0);
assert_eq!(c.borrow().content.as_ref().unwrap().iter().collect::<String>(), "a--!>b");''',
 "a comment whose content contains '--!>'",
 "the comment ends at '--!>' and the rest becomes text")
seed("newline-after-crlf", "C10", [("src/position.rs",
 "\t\t\t\tprev_char = c;", "\t\t\t\tif need_move_col || c != '\\n' || prev_char != '\\r' {\n\t\t\t\t\tprev_char = c;\n\t\t\t\t}")],
 '''assert!(e("a\\r\\n\\nb</p>", |_| {}).contains("[line:3,col:5,index:8]"), "{}", e("a\\r\\n\\nb</p>", |_| {}));
assert!(e("a\\r\\nb</p>", |_| {}).contains("[line:2,col:5,index:7]"));''',
 "an error after a CRLF line end directly followed by an empty line ended by LF alone",
 "the line number of the error is too small")
seed("attr-index-last", "C06", [(P,
 "\t\t\tmeta.lc_name_map.entry(key_name).or_insert(index);",
 "\t\t\tif key_name.len() == key.len() {\n\t\t\t\tmeta.lc_name_map.entry(key_name).or_insert(index);\n\t\t\t} else {\n\t\t\t\tmeta.lc_name_map.insert(key_name, index);\n\t\t\t}")],
 '''let d = p("<a \\u{e9}=1 b \\u{e9}=2></a>", |_| {});
let n = kid(&d.get_root_node(), 0);
let n = n.borrow(); let m = n.meta.as_ref().unwrap().borrow();
assert_eq!(m.lc_name_map.get("\\u{e9}"), Some(&0));''',
 "an attribute key with a non-ASCII character that occurs twice in a tag",
 "the name index gives the last instead of the first attribute")
seed("id-trimmed", "C21", [(P,
 "\t\t\t\t\treturn Some(chars_to_string(&value.content));",
 "\t\t\t\t\treturn Some(chars_to_string(chars_trim_end(&value.content)));")],
 '''let d = p("<p id='a '></p><b id=a></b>", |_| {});
assert!(d.get_element_by_id("a ").is_some());
let d = p("<p id='a\\n'></p>", |_| {});
assert!(d.get_element_by_id("a").is_none());''',
 "an id value that ends in whitespace",
 "the element is found by another id than its own")
seed("html-not-first", "C24", [(P,
 "\t\t\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\t\t\tsyntax_ok = false;\n\t\t\t\t\t\t\t\t\t}",
 "\t\t\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\t\t\t// not a html document\n\t\t\t\t\t\t\t\t\t\treturn (false, true);\n\t\t\t\t\t\t\t\t\t}")],
 '''assert_eq!(p("<p></p><html></html>", |_| {}).get_root_node().borrow().is_document(), (true, false));
assert_eq!(p("<!DOCTYPE html><html></html>", |_| {}).get_root_node().borrow().is_document(), (true, true));''',
 "a top-level element before the top-level html element",
 "the root is not reported as a document")
seed("encode-nonascii", "C19", [(P,
 "\tlet character_set = CharacterSet::Html;", "\tlet character_set = CharacterSet::HtmlAndNonASCII;")],
 """let d = p("<title>a\\u{100}<b> \\u{3b1}</title>", |_| {});
assert_eq!(r(&d, |o| o.encode_content = true), "<title>a\\u{100}&lt;b&gt; \\u{3b1}</title>");""",
 "a non-ASCII character with a named entity in a title or textarea rendered with encode_content",
 "characters that need no escaping are escaped")
seed("special-replaced-by-inner", "C15", [(P,
 "\t\t\tif self.in_special.is_none() {", "\t\t\tif self.in_special.is_none() || SPECIAL_TAG_MAP.contains_key(&lc_tag_name) {")],
 '''p("<svg><math></math><g/></svg>", |_| {});
assert!(e("<svg><math></math></svg><g/>", |_| {}).len() > 0);''',
 "a math inside an svg (or the reverse), and a self-closing tag or CDATA after the inner one",
 "the svg/math context ends with the inner element")
seed("bang-at-end-accepted", "C09", [(P,
 "\t\t\tUnkown | AbstractRoot => {\n\t\t\t\t// end ok", "\t\t\tUnkown | AbstractRoot | ExclamationBegin => {\n\t\t\t\t// end ok")],
 '''for s in ["<p></p><!", "<br><!-", "<!doc"] { e(s, |_| {}); }''',
 "input that ends between '<!' and the end of '<!--' or '<!doctype'",
 "unfinished markup is accepted and lost")
seed("repaired-end-lowercase", "C12", [(P,
 "\t\t\t\tend.content = Some(tag_name.clone());",
 "\t\t\t\tend.content = Some(tag_name.iter().map(|ch| ch.to_ascii_lowercase()).collect());")],
 '''let d = p("<div><linearGradient>a", |o| o.auto_fix_unclosed_tag = true);
assert_eq!(r(&d, |_| {}), "<div><linearGradient>a</linearGradient></div>");''',
 "an unclosed element with an upper-case letter in its name, repaired",
 "the end tag differs from the start tag (rejected again when case sensitive)")
seed("repair-lt-keeps-spaces", "C11", [(P,
 "\t\t\tdoc.check_textnode = if doc.repeat_whitespace {",
 "\t\t\tdoc.check_textnode = if doc.repeat_whitespace && !doc.parse_options.auto_fix_unescaped_lt {")],
 '''let s = "<p>a</p>\\n<p>b</p>";
let d = p(s, |o| o.auto_fix_unescaped_lt = true);
assert_eq!(r(&d, |o| o.minify_spaces = true), r(&p(s, |_| {}), |o| o.minify_spaces = true));''',
 "whitespace between tags in a document parsed with auto_fix_unescaped_lt",
 "the repair option changes documents that need no repair: spaces between tags count as text")
seed("lowercase-unicode", "C18", [(P,
 "\t\t\t\t\t\t\tresult.push(ch.to_ascii_lowercase());", "\t\t\t\t\t\t\tresult.extend(ch.to_lowercase());")],
 '''let d = p("<A\\u{c9}X></A\\u{c9}X><B\\u{212a}></B\\u{212a}>", |_| {});
assert_eq!(r(&d, |o| o.lowercase_tagname = true), "<a\\u{c9}x></a\\u{c9}x><b\\u{212a}></b\\u{212a}>");''',
 "an element name with a non-ASCII upper-case letter, rendered with lowercase_tagname",
 "the start tag no longer matches its end tag")
seed("name-unicode-fold", "C16", [(P,
 "\t\t\t_ => {\n\t\t\t\t// not equal\n\t\t\t\treturn (false, false);\n\t\t\t}",
 "\t\t\t_ => {\n\t\t\t\t// not equal\n\t\t\t\tif cmp_ch.to_lowercase().ne(ch.to_lowercase()) {\n\t\t\t\t\treturn (false, false);\n\t\t\t\t}\n\t\t\t}")],
 '''e("<x\\u{e9}></x\\u{c9}>", |_| {});
p("<x\\u{e9}></X\\u{e9}>", |_| {});''',
 "a start and an end tag whose names differ in the case of a non-ASCII letter only",
 "they match, though only ASCII case may differ")
seed("position-bytes", "C26", [(P,
 "\t\tself.position += 1;\n\t\t// parse ok", "\t\tself.position += if c > '\\u{ffff}' { c.len_utf16() } else { 1 };\n\t\t// parse ok")],
 '''let d = p("<p>\\u{1f600}</p>", |_| {});
let n = kid(&kid(&d.get_root_node(), 0), 0);
assert_eq!((n.borrow().begin_at, n.borrow().end_at), (3, 4));''',
 "a character outside the basic multilingual plane before the node",
 "positions are counted in UTF-16 units, not characters")
seed("noncharacter-gap", "C27", [("src/util.rs",
 "\t\t\t\t| '\\u{BFFFE}'\n", "\t\t\t\t| '\\u{BFFFD}'\n")],
 '''assert!(rphtml::util::is_non_character(&'\\u{bfffe}'));''',
 "the character U+BFFFE or U+BFFFD",
 "the non-character table has a wrong entry")

seed("clone-shares-end-tag", "C22", [(P,
 "\t\t\tend_tag: self\n\t\t\t\t.end_tag\n\t\t\t\t.as_ref()\n\t\t\t\t.map(|end_tag| end_tag.borrow().clone_node_with(reduce_code_at)),",
 "\t\t\tend_tag: self.end_tag.clone(),")],
 '''let d = p("<p>a</p>", |_| {});
let n = kid(&d.get_root_node(), 0);
let c = n.borrow().clone_node();
let end = n.borrow().end_tag.clone().unwrap();
c.borrow().end_tag.as_ref().unwrap().borrow_mut().content = Some(vec!['P', ' ']);
assert_eq!(r(&d, |_| {}), "<p>a</p>");
assert!(Node::is_same(&end.borrow().parent.as_ref().unwrap().upgrade().unwrap(), &n));''',
 "a clone of an element and a change of the end tag on either side (or a look at the parent of the original's end tag)",
 "clone and original share their end tags")
seed("stray-end-after-space", "C13", [(P,
 "\t\t\t\tdoc.current_node.borrow_mut().prev = Some(prev_node);",
 "\t\t\t\tif doc.check_textnode.is_none() {\n\t\t\t\t\tdoc.current_node.borrow_mut().prev = Some(prev_node);\n\t\t\t\t}")],
 '''let f = |o: &mut ParseOptions| o.auto_fix_unexpected_endtag = true;
let k = |s: &str| kid(&p(s, f).get_root_node(), 0).borrow().childs.as_ref().unwrap().len();
assert_eq!(k("<div> </i>x</div>"), 1);
assert_eq!(k("<div>x</i>x</div>"), 1);''',
 "a text of whitespace only, an ignored end tag, then more text",
 "the text is split in two")
seed("lt-fix-then-space", "C14", [(P,
 "\t\tself.repeat_whitespace = false;\n\t\tself.set_code_in(CodeTypeIn::TextNode);",
 "\t\tself.repeat_whitespace = c.is_ascii_whitespace();\n\t\tself.set_code_in(CodeTypeIn::TextNode);")],
 '''let f = |o: &mut ParseOptions| o.auto_fix_unescaped_lt = true;
let d = p("<p>1</p>< <p>2</p>", f);
assert_eq!(r(&d, |o| o.minify_spaces = true), "<p>1</p>&lt; <p>2</p>");
let d = p("a < \\n", f);
assert_eq!(r(&d, |o| o.minify_spaces = true), "a &lt; ");''',
 "a repaired '<' followed by nothing but whitespace up to the next tag or the end, rendered with minify_spaces",
 "the text counts as spaces between tags and is removed")
seed("nul-dropped", "C02", [(P,
 "\t\t\tif doc.repeat_whitespace {\n\t\t\t\tdoc.repeat_whitespace = c.is_ascii_whitespace();\n\t\t\t}\n\t\t\tdoc.prev_chars.push(c);",
 "\t\t\tif doc.repeat_whitespace {\n\t\t\t\tdoc.repeat_whitespace = c.is_ascii_whitespace();\n\t\t\t}\n\t\t\t// null characters are ignored in texts\n\t\t\tif c != EOF_CHAR {\n\t\t\t\tdoc.prev_chars.push(c);\n\t\t\t}")],
 '''let s = "<p>a\\0b</p>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a NUL character inside a text, not at its beginning",
 "the character is lost")
seed("root-link-first-child", "C04", [(P,
 "\t\t\t// set node root\n\t\t\tnode.borrow_mut().root = Some(Rc::downgrade(&self.root));",
 "\t\t\t// set node root\n\t\t\tif node_type != Comment {\n\t\t\t\tnode.borrow_mut().root = Some(Rc::downgrade(&self.root));\n\t\t\t}")],
 '''let d = p("<p><!--a--></p>", |_| {});
let c = kid(&kid(&d.get_root_node(), 0), 0);
assert!(Node::is_same(&c.borrow().root.as_ref().unwrap().upgrade().unwrap(), &d.get_root_node()));''',
 "a comment node and its root link",
 "comments have no root")
seed("only-text-last", "C05", [(P,
 "\t\t\t\t\tSome(childs) => childs.len() == 1 && childs[0].borrow().node_type == NodeType::Text,",
 "\t\t\t\t\tSome(childs) => {\n\t\t\t\t\t\tchilds[0].borrow().node_type == NodeType::Text\n\t\t\t\t\t\t\t&& childs[childs.len() - 1].borrow().node_type == NodeType::Text\n\t\t\t\t\t}")],
 '''let d = p("<p>a<b></b> </p>", |_| {});
assert_eq!(kid(&kid(&d.get_root_node(), 0), 2).borrow().node_type, NodeType::SpacesBetweenTag);''',
 "an element that begins with a text and ends with whitespace after another child",
 "the whitespace is not marked as spaces between tags")
seed("pre-inner-text", "C17", [(P,
 "\t\t\t\tstatus.is_in_pre =\n\t\t\t\t\tis_in_pre || is_equal_chars(tag_name, &PRE_TAG_NAME, &Some(NameCase::Lower));",
 "\t\t\t\tstatus.is_in_pre = (is_in_pre && need_tag)\n\t\t\t\t\t|| is_equal_chars(tag_name, &PRE_TAG_NAME, &Some(NameCase::Lower));")],
 '''let d = p("<div><pre>a  <b>c  d</b>  e</pre></div>", |_| {});
let n = kid(&d.get_root_node(), 0);
let mut o = RenderOptions::default(); o.minify_spaces = true;
assert_eq!(n.borrow().build(&o, true).iter().collect::<String>(), "a  c  d  e");
assert_eq!(d.render(&o), "<div><pre>a  <b>c  d</b>  e</pre></div>");''',
 "inner text with minify_spaces of an element that contains a pre with another element inside",
 "whitespace inside the pre is minified")
seed("attr-not-indexed-hidden", "C28", [(P,
 "\t\t\t\tattr_content.splice(0..0, vec![WS_CHAR]);",
 "\t\t\t\tlet is_known = attr.key.as_ref().map_or(true, |key| {\n\t\t\t\t\tlet name = chars_to_string(&key.content).to_ascii_lowercase();\n\t\t\t\t\tself.lc_name_map.contains_key(&name)\n\t\t\t\t});\n\t\t\t\tif is_known {\n\t\t\t\t\tattr_content.splice(0..0, vec![WS_CHAR]);\n\t\t\t\t} else {\n\t\t\t\t\tattr_content.clear();\n\t\t\t\t}")],
 '''let d = p("<p a=1></p>", |_| {});
{ let n = kid(&d.get_root_node(), 0); let n = n.borrow();
  let mut m = n.meta.as_ref().unwrap().borrow_mut();
  m.add_attr_key(); m.set_attr_key(vec!['b']); }
assert_eq!(r(&d, |_| {}), "<p a=1 b></p>");''',
 "an attribute added through TagMeta after parsing",
 "the added attribute is not rendered")
seed("inner-text-drops-spaces", "C20", [(P,
 "\t\t\t\tif !is_in_pre && options.minify_spaces {\n\t\t\t\t\t// do nothing",
 "\t\t\t\tif !is_in_pre && (options.minify_spaces || (options.decode_entity && !need_tag)) {\n\t\t\t\t\t// do nothing")],
 '''let d = p("<div><b>1</b> <b>2</b></div>", |_| {});
let n = kid(&d.get_root_node(), 0);
let mut o = RenderOptions::default(); o.decode_entity = true;
assert_eq!(n.borrow().build(&o, true).iter().collect::<String>(), "1 2");''',
 "inner text with decode_entity of an element with spaces between tags",
 "the spaces are lost from the text")
seed("self-close-unspaced", "C03", [(P,
 "\t\t\t\t\t\tresult.push(WS_CHAR);\n\t\t\t\t\t\tresult.push('/');",
 "\t\t\t\t\t\t// a value without quote must not touch the slash\n\t\t\t\t\t\tif meta.attrs.last().map_or(true, |attr| attr.quote.is_some() || attr.value.is_none()) || options.remove_attr_quote {\n\t\t\t\t\t\t\tresult.push(WS_CHAR);\n\t\t\t\t\t\t}\n\t\t\t\t\t\tresult.push('/');")],
 '''let s = "<br a=b />"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a self-closed tag whose last attribute has a value without quotes",
 "the slash becomes part of the value: the rendering parses to another document")
seed("region-cache", "C25", [("src/position.rs",
 "\t\tlet mut region = CodeRegion {\n\t\t\tindex,\n\t\t\tline: 1,\n\t\t\tcol: 0,\n\t\t};\n\t\tlet mut prev_char = '\\0';\n\t\tfor (cur_index, c) in context.chars().enumerate() {",
 "\t\tlet mut region = CodeRegion {\n\t\t\tindex,\n\t\t\tline: 1,\n\t\t\tcol: 0,\n\t\t};\n\t\tlet key = (context.len(), index);\n\t\tif let Some((line, col)) = CACHE.with(|cache| cache.borrow().get(&key).copied()) {\n\t\t\tregion.line = line;\n\t\t\tregion.col = col;\n\t\t\treturn region;\n\t\t}\n\t\tlet mut prev_char = '\\0';\n\t\tfor (cur_index, c) in context.chars().enumerate() {"),
 ("src/position.rs", "\t\tregion\n\t}\n", "\t\tCACHE.with(|cache| cache.borrow_mut().insert(key, (region.line, region.col)));\n\t\tregion\n\t}\n"),
 ("src/position.rs", "use std::fmt;\n", "use std::{cell::RefCell, collections::HashMap, fmt};\n\nthread_local! {\n\t// the regions computed before\n\tstatic CACHE: RefCell<HashMap<(usize, usize), (usize, usize)>> = RefCell::new(HashMap::new());\n}\n")],
 '''let a = e("ab\\ncd</p>", |_| {});
let b = e("abcd\\n</p>", |_| {});
assert!(a.contains("line:2,col:6,"), "{}", a);
assert!(b.contains("line:2,col:4,"), "{}", b);''',
 "two rejected texts of the same length with the error at the same index and other line ends, one after the other in a thread",
 "the second error reports the line and column of the first")
seed("svg-closes-itself", "C15", [(P,
 "\t\t\t\t\tif !(meta.borrow().is_void || doc.in_special.is_some()) {",
 "\t\t\t\t\tlet is_special = SPECIAL_TAG_MAP\n\t\t\t\t\t\t.get(&meta.borrow().name.iter().map(|ch| ch.to_ascii_lowercase()).collect::<Vec<char>>())\n\t\t\t\t\t\t.is_some();\n\t\t\t\t\tif !(meta.borrow().is_void || is_special || doc.in_special.is_some()) {")],
 '''assert!(e("<p><svg a=1 /></p>", |_| {}).contains("[line"));
p("<svg><svg/></svg>", |_| {});''',
 "an outermost svg or math element closed by '/>' without the option",
 "it is accepted")
seed("clone-code-in-prev", "C22", [(P,
 "\t\t\t\tcur_node.borrow_mut().index = node.borrow().index;\n\t\t\t\tcur_childs.push(cur_node);",
 "\t\t\t\tlet index = cur_childs.len();\n\t\t\t\tcur_node.borrow_mut().index = index;\n\t\t\t\tif index > 0 && cur_node.borrow().node_type == NodeType::SpacesBetweenTag {\n\t\t\t\t\t// the spaces stand behind the same tag\n\t\t\t\t\tcur_childs.push(Rc::clone(node));\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tcur_childs.push(cur_node);")],
 '''let d = p("<ul><li>1</li> <li>2</li></ul>", |_| {});
let u = kid(&d.get_root_node(), 0);
let c = u.borrow().clone_node();
assert!(!Node::is_same(&kid(&u, 1), &kid(&c, 1)));
kid(&c, 1).borrow_mut().content = Some(vec!['\\n']);
assert_eq!(r(&d, |_| {}), "<ul><li>1</li> <li>2</li></ul>");''',
 "a cloned element with spaces between tags among its children",
 "the clone shares the spaces with the original")
seed("file-bom-stripped", "C23", [(P,
 "\t\tlet file = File::open(file_path)?;\n",
 "\t\tlet mut file = File::open(file_path)?;\n\t\t// the byte order mark is not part of the document\n\t\tlet mut mark = [0u8; 3];\n\t\tif file.read_exact(&mut mark).is_err() || mark != [0xef, 0xbb, 0xbf] {\n\t\t\tstd::io::Seek::seek(&mut file, std::io::SeekFrom::Start(0))?;\n\t\t}\n")],
 '''let dir = std::env::temp_dir().join(format!("rpdemo-{}", std::process::id()));
std::fs::create_dir_all(&dir).unwrap();
let f = dir.join("a.html");
std::fs::write(&f, "\\u{feff}<p>x</p>").unwrap();
let d = Doc::parse_file(&f, ParseOptions::default());
std::fs::remove_dir_all(&dir).unwrap();
assert_eq!(r(&d.unwrap(), |_| {}), r(&p("\\u{feff}<p>x</p>", |_| {}), |_| {}));''',
 "a file that begins with a byte order mark",
 "the file gives another tree (and other positions) than its text")
seed("stray-closes-grandparent", "C13", [(P,
 "\t\t\t\t\tdoc.prev_chars.clear();\n\t\t\t\t\tdoc.set_code_in(Unkown);\n\t\t\t\t\treturn Ok(());",
 "\t\t\t\t\t// an empty tag was not closed\n\t\t\t\t\tlet len = doc.chain_nodes.len();\n\t\t\t\t\tif len > 4\n\t\t\t\t\t\t&& doc.chain_nodes[len - 1].borrow().childs.is_none()\n\t\t\t\t\t\t&& is_equal_chars(\n\t\t\t\t\t\t\t&doc.chain_nodes[len - 3].borrow().meta.as_ref().unwrap().borrow().name,\n\t\t\t\t\t\t\tfix_end_tag_name,\n\t\t\t\t\t\t\t&None,\n\t\t\t\t\t\t) {\n\t\t\t\t\t\tlet tag = doc.chain_nodes.remove(len - 1);\n\t\t\t\t\t\tdoc.fix_unclosed_tag(&[tag]);\n\t\t\t\t\t}\n\t\t\t\t\tdoc.prev_chars.truncate(0);\n\t\t\t\t\tdoc.set_code_in(Unkown);\n\t\t\t\t\treturn Ok(());")],
 '''let d = p("<a><b><c><d></b>x</d></c></b></a>", |o| o.auto_fix_unexpected_endtag = true);
assert_eq!(r(&d, |_| {}), "<a><b><c><d>x</d></c></b></a>");''',
 "four levels, the innermost element still empty, and an ignored end tag with the name of the element two levels above it",
 "the innermost element is closed by it")
seed("attr-index-wraps", "C06", [(P,
 "\t\t\tmeta.lc_name_map.entry(key_name).or_insert(index);",
 "\t\t\tmeta.lc_name_map.entry(key_name).or_insert(index as u8 as usize);")],
 '''let s = format!("<a{}></a>", (0..300).map(|i| format!(" k{}", i)).collect::<String>());
let d = p(&s, |_| {});
let n = kid(&d.get_root_node(), 0); let n = n.borrow(); let m = n.meta.as_ref().unwrap().borrow();
assert_eq!(m.lc_name_map["k299"], 299);''',
 "an element with more than 256 attributes",
 "the index of attribute names points to the wrong attributes")
seed("child-index-wraps", "C04", [(P,
 "\t\t\t\tchild.borrow_mut().index = childs.len();",
 "\t\t\t\tchild.borrow_mut().index = childs.len() & 0x3ff;")],
 '''let s = "<br>".repeat(1030);
let d = p(&s, |_| {});
assert_eq!(kid(&d.get_root_node(), 1025).borrow().index, 1025);''',
 "an element or document with more than 1024 children",
 "the index of a child is not its position")
seed("void-memo", "C25", [(P,
 "\t\tlet is_void = is_void_tag(&lc_name);",
 "\t\t// most tags come in series\n\t\tlet key = (lc_name.len(), lc_name.first().copied(), lc_name.last().copied());\n\t\tlet is_void = LAST_NAME.with(|last| {\n\t\t\tlet (last_key, last_void) = last.get();\n\t\t\tif last_key == key && lc_name.len() > 4 {\n\t\t\t\treturn last_void;\n\t\t\t}\n\t\t\tlet is_void = is_void_tag(&lc_name);\n\t\t\tlast.set((key, is_void));\n\t\t\tis_void\n\t\t});"),
 (P, "type NextHandle =", "type NameKey = (usize, Option<char>, Option<char>);\nthread_local! {\n\tstatic LAST_NAME: std::cell::Cell<(NameKey, bool)> = std::cell::Cell::new(((0, None, None), false));\n}\n\ntype NextHandle =")],
 '''p("<input>", |_| {}); let s = "<i-n-t>x</i-n-t>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a void element with a name of five or more letters directly followed, in the same or the next document, by an element whose name has the same length, first and last letter",
 "the second element counts as void too")
seed("title-in-svg", "C07", [(P,
 "\t\tif is_content_tag(&lc_tag_name, &None) {",
 "\t\tif is_content_tag(&lc_tag_name, &None)\n\t\t\t&& !(self.in_special.is_some() && is_plain_text_tag(&lc_tag_name, &None))\n\t\t{")],
 '''let s = "<svg><title>a<b></title></svg>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a title or textarea inside svg or math whose content looks like markup",
 "the content is parsed as markup")
seed("encode-uppercase", "C19", [(P,
 "options.encode_content && is_plain_text_tag(tag_name, &Some(NameCase::Lower));",
 "options.encode_content && is_plain_text_tag(tag_name, &None);")],
 '''let s = "<TITLE>a<b</TITLE>"; assert_eq!(r(&p(s, |_| {}), |o| o.encode_content = true), "<TITLE>a&lt;b</TITLE>");''',
 "encode_content on a title or textarea not written in lower case",
 "the content is not encoded")
seed("created-nbsp-space", "C28", [(P,
 "\t\tfor ch in &content {\n\t\t\tif !ch.is_ascii_whitespace() {",
 "\t\tfor ch in &content {\n\t\t\tif !ch.is_whitespace() {")],
 '''let n = Node::create_text_node(vec!['\\u{a0}'], None);
assert_eq!(n.node_type, NodeType::Text);''',
 "a created text made only of whitespace that is not ASCII",
 "it counts as spaces between tags and is lost when minifying")
seed("case-error-with-space", "C16", [(P,
 "\t\t\t\t\t\tif doc.parse_options.case_sensitive_tagname && !is_total_same {",
 "\t\t\t\t\t\tif doc.parse_options.case_sensitive_tagname\n\t\t\t\t\t\t\t&& !is_total_same\n\t\t\t\t\t\t\t&& fix_end_tag_name.len() == end_tag_name.len()\n\t\t\t\t\t\t{")],
 '''assert!(e("<div></DIV >", |o| o.case_sensitive_tagname = true).contains("[line"));''',
 "with the case option, an end tag that differs in case and has trailing whitespace",
 "it is accepted")
seed("inner-html-first-tag", "C20", [(P,
 "\t\t\t\t\t\tif child.borrow().node_type == NodeType::Tag {\n\t\t\t\t\t\t\tif finded {",
 "\t\t\t\t\t\tif child.borrow().node_type == NodeType::Tag {\n\t\t\t\t\t\t\tif finded && child.borrow().childs.is_some() {")],
 '''let d = p("<p>a</p><br>", |_| {});
let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r(&d, |o| o.inner_html = true)));
assert!(r.is_err());''',
 "inner html of a document with several top-level elements, all but the first empty",
 "the inner html of the last is given instead of a refusal")
seed("attr-index-counts-names", "C06", [(P,
 "\t\t\tlet index = meta.attrs.len() - 1;",
 "\t\t\tlet index = meta.lc_name_map.len();")],
 '''let d = p("<a x x y></a>", |_| {});
let n = kid(&d.get_root_node(), 0); let n = n.borrow(); let m = n.meta.as_ref().unwrap().borrow();
assert_eq!(m.lc_name_map["y"], 2);''',
 "a tag with a key written twice (or a doctype with a string without a key) before another key",
 "the index of attribute names points to an attribute before the right one")
seed("name-xor-fold", "C16", [(P,
 "\t\tmatch cmp_ch {\n\t\t\t'a'..='z' => {\n\t\t\t\tif &cmp_ch.to_ascii_uppercase() != ch {",
 "\t\tmatch cmp_ch {\n\t\t\t'`'..='\\x7e' => {\n\t\t\t\tif *cmp_ch as u32 ^ 0x20 != *ch as u32 {")],
 '''assert!(e("<a[></a{>", |_| {}).contains("[line"));''',
 "an element name with one of @[]\\^ and an end tag with the matching one of `{|}~ in its place",
 "the end tag closes the element")
seed("raw-end-xor", "C07", [(P,
 "\t\t\t\t\t\tmatch detect_char {\n\t\t\t\t\t\t\t'A'..='Z' => detect_char.to_ascii_lowercase() == prev_char,",
 "\t\t\t\t\t\tmatch detect_char {\n\t\t\t\t\t\t\t'!'..='Z' => detect_char as u32 ^ 0x20 == prev_char as u32,")],
 '''let s = "<script>\\u{1c}/script></script>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);
let d = p(s, |_| {}); assert_eq!(kid(&d.get_root_node(), 0).borrow().content.as_ref().unwrap().len(), 9);''',
 "the control character U+001C instead of '<', or U+000F instead of '/', in what else is the end tag of a raw text element",
 "the element ends there")
seed("stray-ends-special", "C13", [(P,
 "\t\t\t\t\t// just ignore the end tag\n",
 "\t\t\t\t\tif doc.in_special.as_ref().map_or(false, |(_, name)| {\n\t\t\t\t\t\tis_equal_chars_ignore_case(name, fix_end_tag_name).0\n\t\t\t\t\t}) {\n\t\t\t\t\t\tdoc.in_special = None;\n\t\t\t\t\t}\n\t\t\t\t\t// just ignore the end tag\n"),
 (P, "\t\t\t\t\tdoc.prev_chars.clear();\n\t\t\t\t\tdoc.set_code_in(Unkown);\n\t\t\t\t\treturn Ok(());", "\t\t\t\t\tdoc.set_code_in(Unkown);\n\t\t\t\t\tdoc.prev_chars.clear();\n\t\t\t\t\treturn Ok(());")],
 '''let d = p("<svg><g></svg><x/></g></svg>", |o| o.auto_fix_unexpected_endtag = true);
assert_eq!(r(&d, |_| {}), "<svg><g><x /></g></svg>");''',
 "an ignored end tag of an svg or math inside another element of it, and a self-closing tag or CDATA after that",
 "what follows is no longer allowed")
seed("render-stack", "C01", [(P,
 "\t\t\t\t\t// keep the original inner type\n\t\t\t\t\tchild.borrow().build_tree(options, status, result);",
 "\t\t\t\t\tlet mark = std::hint::black_box([0u8; 24 * 1024]);\n\t\t\t\t\tchild.borrow().build_tree(options, status, result);\n\t\t\t\t\tstd::hint::black_box(&mark);")],
 '''let d = p(&("<b>".repeat(900) + &"</b>".repeat(900)), |_| {});
std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
let d = p(&("<b>".repeat(900) + &"</b>".repeat(900)), |_| {}); r(&d, |_| {}); std::mem::forget(d); }).unwrap().join().unwrap(); std::mem::forget(d);''',
 "a document nested more than about 300 levels, rendered on a stack of 8 MB",
 "the stack overflows")
seed("long-text-split", "C04", [(P,
 "\t\t\tif doc.repeat_whitespace {\n\t\t\t\tdoc.repeat_whitespace = c.is_ascii_whitespace();\n\t\t\t}\n\t\t\tdoc.prev_chars.push(c);",
 "\t\t\tif doc.repeat_whitespace {\n\t\t\t\tdoc.repeat_whitespace = c.is_ascii_whitespace();\n\t\t\t}\n\t\t\tif doc.prev_chars.len() >= 0x8000 {\n\t\t\t\t// keep the buffers small\n\t\t\t\tlet content = doc.clean_chars_to_vec();\n\t\t\t\tdoc.current_node.borrow_mut().content = Some(content);\n\t\t\t\tdoc.set_tag_end_info();\n\t\t\t\tdoc.add_new_node(Rc::new(RefCell::new(Node::new(\n\t\t\t\t\tNodeType::Text,\n\t\t\t\t\tdoc.position,\n\t\t\t\t))));\n\t\t\t}\n\t\t\tdoc.prev_chars.push(c);"),
 (P, "\t\t\t// check if repeat whitespace\n\t\t\tif doc.repeat_whitespace {", "\t\t\tif doc.repeat_whitespace {")],
 '''let d = p(&"x".repeat(40000), |_| {}); assert_eq!(d.get_root_node().borrow().childs.as_ref().unwrap().len(), 1);''',
 "a text of more than 32768 characters",
 "it becomes two texts side by side")
seed("col-u16", "C10", [("src/position.rs",
 "\t\tself.col += 1;", "\t\tself.col = (self.col + 1) & 0xffff;")],
 '''let s = "x".repeat(70000) + "</a>"; let m = e(&s, |_| {}); assert!(m.contains("[line:1,col:70004,index:70003]"), "{}", m);''',
 "an error after more than 65535 characters on one line",
 "the column is too small by a multiple of 65536")
seed("doctype-single-quote", "C08", [(P,
 "\t\t\t\tif matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {\n\t\t\t\t\tdoc.add_tag_attr_value(Some(c));",
 "\t\t\t\tif matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) && c == DOUBLE_QUOTE_CHAR {\n\t\t\t\t\tdoc.add_tag_attr_value(Some(c));")],
 '''let s = "<!doctype html public 'a>b'>"; assert_eq!(p(s, |_| {}).get_root_node().borrow().childs.as_ref().unwrap().len(), 1);''',
 "a single-quoted string without a key in a doctype, with a space or '>' inside",
 "the string is taken apart, the doctype may end inside it")
seed("id-empty", "C21", [(P,
 "\t\t\t\tif let Some(value) = &self.value {\n\t\t\t\t\treturn",
 "\t\t\t\tif let Some(value) = self.value.as_ref().filter(|v| !v.content.is_empty()) {\n\t\t\t\t\treturn")],
 '''let d = p("<a id=''></a>", |_| {}); assert!(d.get_element_by_id("").is_some());''',
 "an element with an empty id",
 "looking up the empty text finds nothing")
seed("key-form-feed", "C06", [(P,
 "\t\t_ => {\n\t\t\tif c.is_ascii_whitespace() {\n\t\t\t\t// end of the attribute key",
 "\t\t_ => {\n\t\t\tif matches!(c, ' ' | '\\t' | '\\r' | '\\n') {\n\t\t\t\t// end of the attribute key")],
 '''let d = p("<a x\\u{c}y></a>", |_| {});
let n = kid(&d.get_root_node(), 0); let n = n.borrow(); assert_eq!(n.meta.as_ref().unwrap().borrow().attrs.len(), 2);''',
 "a form feed directly after an attribute key",
 "it and what follows belong to the key")
seed("detect-kept", "C07", [(P,
 "\t\t\t// remove current tag\n\t\t\tdoc.chain_nodes.pop();\n\t\t\tdoc.detect = None;",
 "\t\t\t// remove current tag\n\t\t\tdoc.chain_nodes.pop();\n\t\t\t// the same tag may follow\n\t\t\tif doc.in_special.is_none() || end_at_root(doc) {\n\t\t\t\tdoc.detect = None;\n\t\t\t}"),
 (P, "/**\n * code_in: Comment|CDATA\n */", "fn end_at_root(doc: &Doc) -> bool {\n\tdoc.chain_nodes.len() < 3\n}\n\n/**\n * code_in: Comment|CDATA\n */")],
 '''let s = "<svg><g><style></style><!--x--></g></svg>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a raw text element at least two levels deep in svg or math, and a comment, doctype or CDATA section after it",
 "the comment is rejected")
seed("case-once", "C25", [(P,
 "\t\t\tlet case_sensitive = doc.parse_options.case_sensitive_tagname;",
 "\t\t\t// an application uses the same setting all the time\n\t\t\tstatic CASE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();\n\t\t\tlet case_sensitive = *CASE.get_or_init(|| doc.parse_options.case_sensitive_tagname);")],
 '''let s = "<title>x</TITLE></title>";
p("<title></title>", |_| {});
assert_eq!(r(&p(s, |o| o.case_sensitive_tagname = true), |_| {}), s);''',
 "two documents parsed with different case options in one process, the later one with a raw text element and an end tag in another case",
 "the end of raw text follows the options of the first document of the process")
seed("comment-html5-empty", "C08", [(P,
 "\t\tlet chars = &doc.prev_chars;\n\t\tlet total = chars.len();\n\t\tif total > 1 {",
 "\t\tlet chars: &[char] = &doc.prev_chars;\n\t\tlet total: usize = chars.len();\n\t\tif total == 1 && chars[0] == DASH_CHAR && doc.mark_char == DASH_CHAR {\n\t\t\t// <!---> is an empty comment\n\t\t\tdoc.prev_chars.push(DASH_CHAR);\n\t\t\treturn parse_comment_or_cdata(doc, c, \"\");\n\t\t}\n\t\tif total >= 2 {")],
 '''let s = "<!--->x-->"; let d = p(s, |_| {}); assert_eq!(d.get_root_node().borrow().childs.as_ref().unwrap().len(), 1); assert_eq!(r(&d, |_| {}), s);''',
 "a comment whose content begins with '->'",
 "the comment ends there")
seed("clone-root-deep", "C22", [(P,
 "\t\t\t\tlet cur_node = node.borrow().clone_node_with(reduce_code_at);",
 "\t\t\t\tlet cur_node = node.borrow().clone_node_with(reduce_code_at);\n\t\t\t\tif let (Some(meta), Some(old)) = (&cur_node.borrow().meta, &node.borrow().meta) {\n\t\t\t\t\t// the names are looked up again when needed\n\t\t\t\t\tif old.borrow().attrs.len() > 3 {\n\t\t\t\t\t\tmeta.borrow_mut().lc_name_map.retain(|_, i| *i < 3);\n\t\t\t\t\t}\n\t\t\t\t}"),
 (P, "\t\tlet parent_node = self.clone_node_without_childs(reduce_code_at);", "\t\tlet parent_node: RefNode = self.clone_node_without_childs(reduce_code_at);")],
 '''let d = p("<div><p a b c d=1></p></div>", |_| {});
let c = kid(&d.get_root_node(), 0).borrow().clone_node();
assert!(kid(&c, 0).borrow().meta.as_ref().unwrap().borrow().lc_name_map.contains_key("d"));''',
 "a clone with an inner element of four or more attributes",
 "the later attributes are not in the index of names of the clone")
seed("unquote-trailing-slash", "C18", [(P,
 "\t\tch.is_ascii_whitespace() || MUST_QUOTE_ATTR_CHARS.contains(ch)",
 "\t\t(*ch <= ' ' && *ch != '\\x0c' && *ch != '\\0' && ch.is_ascii_whitespace()) || MUST_QUOTE_ATTR_CHARS.contains(ch)")],
 '''let s = "<a x='b\\u{c}c'></a>"; assert_eq!(r(&p(s, |_| {}), |o| o.remove_attr_quote = true), s);''',
 "a quoted value with a form feed and no other whitespace, rendered with remove_attr_quote",
 "the quotes go and the value falls apart")
seed("doctype-in-pre", "C17", [(P,
 "\t\t\tSpacesBetweenTag => {\n\t\t\t\tif !is_in_pre && options.minify_spaces {",
 "\t\t\tSpacesBetweenTag => {\n\t\t\t\tif (!is_in_pre || self.index > 7) && options.minify_spaces {")],
 '''let s = "<pre><b></b> <b></b> <b></b> <b></b> <b></b> </pre>"; assert_eq!(r(&p(s, |_| {}), |o| o.minify_spaces = true), s);''',
 "a pre element with spaces between tags after eight other children",
 "the spaces go")
seed("spaces-index-zero", "C05", [(P,
 "\t\tif let Some(text_node) = &mut self.check_textnode {\n\t\t\ttext_node.borrow_mut().node_type = NodeType::SpacesBetweenTag;",
 "\t\tif let Some(text_node) = &mut self.check_textnode {\n\t\t\tif text_node.borrow().content.as_ref().map_or(true, |c| c.len() < 256) {\n\t\t\t\ttext_node.borrow_mut().node_type = NodeType::SpacesBetweenTag;\n\t\t\t}")],
 '''let s = format!("<a></a>{}<b></b>", " ".repeat(300));
assert_eq!(kid(&p(&s, |_| {}).get_root_node(), 1).borrow().node_type, NodeType::SpacesBetweenTag);''',
 "256 or more whitespace characters between two tags",
 "they are not marked as spaces between tags")
seed("unclosed-order", "C12", [(P,
 "\t\t\tlet unclosed = self.chain_nodes.split_off(1);\n\t\t\tself.fix_unclosed_tag(&unclosed);",
 "\t\t\tlet unclosed = self.chain_nodes.split_off(1);\n\t\t\tself.fix_unclosed_tag(&unclosed[unclosed.len().saturating_sub(ALLOC_CHAR_CAPACITY)..]);")],
 '''let n = 300; let d = p(&"<b>".repeat(n), |o| o.auto_fix_unclosed_tag = true);
assert_eq!(r(&d, |_| {}).matches("</b>").count(), n);''',
 "more unclosed elements than the initial buffer size",
 "the outermost are left without end tags")
seed("stray-name-raw", "C13", [(P,
 "\t\t\t\tif !doc.parse_options.auto_fix_unexpected_endtag {\n\t\t\t\t\t// wrong end tag",
 "\t\t\t\tif !doc.parse_options.auto_fix_unexpected_endtag\n\t\t\t\t\t|| (fix_end_tag_name.is_empty() && doc.in_special.is_some())\n\t\t\t\t{\n\t\t\t\t\t// wrong end tag")],
 '''p("<svg></></svg>", |o| o.auto_fix_unexpected_endtag = true);''',
 "an end tag without a name inside svg or math, with the repair",
 "it is rejected")
seed("lt-fix-in-special", "C14", [(P,
 "\t\t\t\tself.add_new_node(Rc::new(RefCell::new(Node::new(\n\t\t\t\t\tNodeType::Text,\n\t\t\t\t\tself.mem_position,\n\t\t\t\t))));\n\t\t\t\t// set prev chars",
 "\t\t\t\tself.add_new_node(Rc::new(RefCell::new(Node::new(\n\t\t\t\t\tNodeType::Text,\n\t\t\t\t\tself.mem_position,\n\t\t\t\t))));\n\t\t\t\tif node_type == NodeType::XMLCDATA {\n\t\t\t\t\t// cdata keeps it\n\t\t\t\t\tchars.splice(0..4, ['<']);\n\t\t\t\t}\n\t\t\t\t// set prev chars"),
 (P, "\t\tlet mut chars = vec!['&', 'l', 't', ';'];", "\t\tlet mut chars: Vec<char> = vec!['&', 'l', 't', ';'];")],
 '''let d = p("<svg><g><![CDATA[x]]>< a</g></svg>", |o| o.auto_fix_unescaped_lt = true);
assert!(r(&d, |_| {}).contains("&lt; a"));''',
 "an unescaped '<' directly after a CDATA section",
 "it is not escaped")
seed("id-of-self-closed", "C21", [(P,
 "\t\t\t\tself\n\t\t\t\t\t.id_tags\n\t\t\t\t\t.borrow_mut()\n\t\t\t\t\t.insert(id_name, Rc::clone(&self.current_node));",
 "\t\t\t\tlet id_name = match id_name.find('\\0') {\n\t\t\t\t\tSome(end) => id_name[..end].to_string(),\n\t\t\t\t\tNone => id_name,\n\t\t\t\t};\n\t\t\t\tself\n\t\t\t\t\t.id_tags\n\t\t\t\t\t.borrow_mut()\n\t\t\t\t\t.insert(id_name, self.current_node.clone());")],
 '''let d = p("<a id='x\\u{0}y'></a>", |_| {}); assert!(d.get_element_by_id("x\\u{0}y").is_some());''',
 "an id with a NUL character",
 "it is found by the part before it only")
seed("unclosed-name-deep", "C09", [(P,
 "\t\t\t\tlet last_node = self.chain_nodes[cur_depth - 1].borrow();",
 "\t\t\t\tlet last_node = self.chain_nodes[(cur_depth - 1).min(ALLOC_NODES_CAPACITY)].borrow();")],
 '''let s = format!("{}<i>", "<b>".repeat(200)); assert!(e(&s, |_| {}).contains("'i'"), "{}", e(&s, |_| {}));''',
 "more open elements at the end of input than the initial capacity",
 "the error names (and points to) an element that is not the innermost open one")
seed("attr-index-unicode", "C06", [(P,
 "\t\t\t\t.map(|ch| ch.to_ascii_lowercase())\n\t\t\t\t.collect::<String>();\n\t\t\t// end the attribute",
 "\t\t\t\t.map(|ch| ch.to_lowercase().next().unwrap_or(*ch))\n\t\t\t\t.collect::<String>();\n\t\t\t// end the attribute")],
 '''let d = p("<a É=1></a>", |_| {}); assert!(kid(&d.get_root_node(), 0).borrow().meta.as_ref().unwrap().borrow().lc_name_map.contains_key("É"));''',
 "an attribute name with a non-ASCII upper case letter",
 "the index has it under another name")
seed("raw-end-u16", "C07", [(P,
 "\tlet mut prev_len = doc.prev_chars.len();\n\tif prev_len >= detect_len {",
 "\tlet mut prev_len = doc.prev_chars.len();\n\tif prev_len >= detect_len && (prev_len as u16) != 0 {")],
 '''let c = "x".repeat(65536 - 8); let s = format!("<script>{}</script><b></b>", c); let d = p(&s, |_| {}); assert_eq!(r(&d, |_| {}), s);
assert_eq!(d.get_root_node().borrow().childs.as_ref().unwrap().len(), 2);''',
 "raw text whose end tag ends at exactly 65536 characters",
 "the end tag is not seen")
seed("cut-empty-value", "C12", [(P,
 "\t\t\t\t\tlet quote = Some(self.mark_char).filter(|&ch| ch != WS_CHAR);\n\t\t\t\t\tself.set_tag_attr_value(quote);",
 "\t\t\t\t\tlet quote = Some(self.mark_char).filter(|&ch| ch != WS_CHAR);\n\t\t\t\t\tif !self.prev_chars.is_empty() {\n\t\t\t\t\t\tself.set_tag_attr_value(quote);\n\t\t\t\t\t}"),
 (P, "\t\tlet cur_depth = self.chain_nodes.len();", "\t\tlet cur_depth: usize = self.chain_nodes.len();")],
 '''let d = p("<a b='", |o| o.auto_fix_unclosed_tag = true); assert_eq!(r(&d, |_| {}), "<a b=''></a>");''',
 "input that ends right after the opening quote of a value, with the repair",
 "the attribute has no value")
seed("case-last-letter", "C16", [(P,
 "\t\tlet cmp_ch = &cmp[index];\n\t\tif cmp_ch == ch {\n\t\t\tcontinue;",
 "\t\tlet cmp_ch: &char = &cmp[index];\n\t\tif cmp_ch == ch {\n\t\t\tis_total_same |= index > 8;\n\t\t\tcontinue;")],
 '''e("<blockquotes></Blockquotes>", |o| o.case_sensitive_tagname = true);''',
 "a name of ten letters or more that differs in case in an early letter, with the case option",
 "the end tag is accepted")
seed("encode-keeps-entities", "C19", [(P,
 "\tcontent.iter().for_each(|ch| {\n\t\tif character_set.contains(ch) {",
 "\tcontent.iter().enumerate().for_each(|(at, ch)| {\n\t\tlet is_entity = *ch == '&' && content[at..].starts_with(&['&', 'a', 'm', 'p', ';']);\n\t\tif !is_entity && character_set.contains(ch) {")],
 '''let d = p("<title>&amp;lt;</title>", |_| {}); assert_eq!(r(&d, |o| o.encode_content = true), "<title>&amp;amp;lt;</title>");''',
 "a title or textarea whose content has '&amp;' in it, encoded",
 "decoding does not give back the content")
seed("clone-end-pos", "C22", [(P,
 "\t\t\t\tcur_node.borrow_mut().index = node.borrow().index;",
 "\t\t\t\tcur_node.borrow_mut().index = cur_childs.len() % 1000;")],
 '''let d = p(&format!("<p>{}</p>", "<br>".repeat(1100)), |_| {}); let c = kid(&d.get_root_node(), 0).borrow().clone_node();
assert_eq!(kid(&c, 1050).borrow().index, 1050);''',
 "a clone of an element with more than 1000 children",
 "the index of the later children of the clone is wrong")
seed("error-name-truncated", "C09", [(P,
 "\t\t\t\t\treturn doc.error(ErrorKind::WrongEndTag(doc.chars_to_string()), context);",
 "\t\t\t\t\tlet name: String = doc.prev_chars.iter().take(ALLOC_CHAR_CAPACITY).collect();\n\t\t\t\t\treturn doc.error(ErrorKind::WrongEndTag(name), context);")],
 '''let n = "n".repeat(3000); assert!(e(&format!("</{}>", n), |_| {}).contains(&n));''',
 "an unexpected end tag with a very long name",
 "the error does not name it as written")
seed("value-crlf", "C06", [(P,
 "\t\tdoc.set_tag_code_in(TagCodeIn::Wait);\n\t} else {\n\t\tdoc.prev_chars.push(c);\n\t}",
 "\t\tdoc.set_tag_code_in(TagCodeIn::Wait);\n\t} else {\n\t\tif c == '\\n' && doc.prev_chars.last() == Some(&'\\r') {\n\t\t\tdoc.prev_chars.pop();\n\t\t}\n\t\tdoc.prev_chars.push(c);\n\t}"),
 (P, "\tlet quote = doc.mark_char;", "\tlet quote: char = doc.mark_char;")],
 '''let s = "<a b='1\\r\\n2'></a>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a quoted value with CRLF in it",
 "the CR is lost")
seed("self-close-depth", "C15", [(P,
 "\t\t\t\t\tif !(meta.borrow().is_void || doc.in_special.is_some()) {",
 "\t\t\t\t\tlet in_special = doc.in_special.is_some() && doc.chain_nodes.len() <= ALLOC_NODES_CAPACITY;\n\t\t\t\t\tif !(meta.borrow().is_void || in_special) {")],
 '''let n = 200; p(&format!("<svg>{}<a/>{}</svg>", "<g>".repeat(n), "</g>".repeat(n)), |_| {});''',
 "a self-closing tag very deep inside svg",
 "it is rejected")
seed("comment-dashes-trim", "C08", [(P,
 "\t\t\t\t// remove suffix <comment>'--' or <cdata>']]'\n\t\t\t\tdoc.prev_chars.truncate(total - 2);",
 "\t\t\t\t// remove suffix <comment>'--' or <cdata>']]'\n\t\t\t\tlet mut keep = total - 2;\n\t\t\t\twhile keep > 1 && chars[keep - 1] == end_symbol && chars[keep - 2] == end_symbol && end_symbol == RIGHT_BRACKET_CHAR {\n\t\t\t\t\tkeep -= 2;\n\t\t\t\t}\n\t\t\t\tdoc.prev_chars.truncate(keep);")],
 '''let s = "<svg><g><![CDATA[a]]]]></g></svg>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "a CDATA section whose content ends in ']]'",
 "the end of the content is lost")
seed("endtag-newline-name", "C26", [(P,
 "\t\t\tlet mut end = Node::new(NodeType::TagEnd, doc.position - end_tag_name.len() - 2);",
 "\t\t\tlet mut end = Node::new(NodeType::TagEnd, doc.position - chars_trim_end(&end_tag_name).len() - 2);"),
 (P, "\tlet mut detect_len = end_tag.len();", "\tlet mut detect_len: usize = end_tag.len();")],
 '''let d = p("<title>x</title  >", |_| {}); assert_eq!(kid(&d.get_root_node(), 0).borrow().end_tag.as_ref().unwrap().borrow().begin_at, 8);''',
 "a raw text element whose end tag has spaces",
 "the position of the end tag is too far right")
seed("inner-text-nested-raw", "C20", [(P,
 "\t\t\t\tif let Some(content) = &self.content {\n\t\t\t\t\tlet need_encode =",
 "\t\t\t\tif let Some(content) = &self.content.as_ref().filter(|_| need_tag || is_root || !is_in_pre) {\n\t\t\t\t\tlet need_encode =")],
 '''let d = p("<pre><b><title>x</title></b></pre>", |_| {}); assert_eq!(d.render_text(&RenderOptions::default()), "x");''',
 "the inner text of a pre element with a raw text element below",
 "the raw text is missing")
seed("html-after-comment", "C24", [(P,
 "\t\t\t\tlet mut find_html = false;\n\t\t\t\tfor child in childs {",
 "\t\t\t\tlet mut find_html = false;\n\t\t\t\tfor child in childs.iter().take(ALLOC_CHAR_CAPACITY) {")],
 '''let d = p(&format!("{}<html></html>", "<!---->".repeat(600)), |_| {}); assert_eq!(d.get_root_node().borrow().is_document(), (true, true));''',
 "hundreds of comments before the html element",
 "it is not reported as a document")
seed("mark-char-kept", "C01", [(P,
 "\t\t\tlet cur_should_be = next_chars.get(total_len).unwrap();",
 "\t\t\tlet cur_should_be = next_chars.get(total_len + usize::from(c == '\\u{17f}')).unwrap();")],
 '''e("<!doctyp\\u{17f}", |_| {});''',
 "'<!doctyp' followed by a long s",
 "parsing panics")
seed("file-chunk-utf8", "C23", [(P,
 "\t\tlet mut content = String::with_capacity(500);",
 "\t\tlet mut content: String = String::with_capacity(500);"),
 (P, "\t\tfile.read_to_string(&mut content)?;",
 "\t\tlet mut chunk = vec![0u8; 8192];\n\t\tloop {\n\t\t\tlet size = file.read(&mut chunk)?;\n\t\t\tif size == 0 {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t\tcontent.push_str(std::str::from_utf8(&chunk[..size])?);\n\t\t}")],
 '''let dir = std::env::temp_dir().join(format!("rphtml-demo-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
let f = dir.join("a.html"); std::fs::write(&f, format!("x{}", "é".repeat(9000))).unwrap();
let ok = Doc::parse_file(&f, ParseOptions::default()).is_ok(); std::fs::remove_dir_all(&dir).unwrap(); assert!(ok);''',
 "a file of more than 8 KB with a multi-byte character across a chunk boundary",
 "it is refused as not UTF-8")
seed("special-of-self-closed", "C15", [(P,
 "\t\t\t\tmeta.borrow_mut().self_closed = true;\n\t\t\t} else {",
 "\t\t\t\tlet lc_name: Vec<char> = meta.borrow().name.iter().map(|ch| ch.to_ascii_lowercase()).collect();\n\t\t\t\tif doc.in_special.is_none() {\n\t\t\t\t\tif let Some(&special) = SPECIAL_TAG_MAP.get(&lc_name) {\n\t\t\t\t\t\tdoc.in_special = Some((special, lc_name));\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tmeta.borrow_mut().self_closed |= true;\n\t\t\t} else {")],
 '''e("<svg/><b><![CDATA[x]]></b>", |o| o.allow_self_closing = true);''',
 "a self-closed svg or math, then CDATA elsewhere",
 "the CDATA section is accepted outside of svg")
seed("ids-capped", "C21", [(P,
 "\t\t\tif let Some(id_name) = attr.check_if_id() {\n\t\t\t\tself",
 "\t\t\tlet count = self.id_tags.borrow().len();\n\t\t\tif let Some(id_name) = attr.check_if_id().filter(|_| count < 512) {\n\t\t\t\tself")],
 '''let s: String = (0..600).map(|i| format!("<b id=x{}></b>", i)).collect(); assert!(p(&s, |_| {}).get_element_by_id("x599").is_some());''',
 "a document with more than 512 ids",
 "the later ones are not found")
seed("lt-begins-text", "C26", [(P,
 "\t\t\t\tif matches!(node_type, NodeType::SpacesBetweenTag) {\n\t\t\t\t\tself.current_node",
 "\t\t\t\tif self.mem_position + 1 == self.position && is_end_text {\n\t\t\t\t\tself.current_node.borrow_mut().begin_at = self.mem_position;\n\t\t\t\t}\n\t\t\t\tif node_type == NodeType::SpacesBetweenTag {\n\t\t\t\t\tself.current_node")],
 '''let d = p("ab<<b></b>", |o| o.auto_fix_unescaped_lt = true); assert_eq!(kid(&d.get_root_node(), 0).borrow().begin_at, 0);''',
 "a text whose repaired '<' is followed at once by markup",
 "the text has the position of the '<' only")
seed("text-pop-empty", "C13", [(P,
 "\t\t\t\t\tif let Some(orig_current_node) = orig_current_node {\n\t\t\t\t\t\tdoc.current_node = orig_current_node;\n\t\t\t\t\t}",
 "\t\t\t\t\tif let Some(orig_current_node) = orig_current_node {\n\t\t\t\t\t\tif fix_end_tag_name.len() < 64 {\n\t\t\t\t\t\t\tdoc.current_node = orig_current_node;\n\t\t\t\t\t\t}\n\t\t\t\t\t}")],
 '''let d = p(&format!("a</{}>b", "x".repeat(80)), |o| o.auto_fix_unexpected_endtag = true); assert_eq!(d.get_root_node().borrow().childs.as_ref().unwrap().len(), 1);''',
 "an ignored end tag with a name of 64 characters or more inside a text",
 "the text is split in two")
seed("drop-takes-childs", "C29", [(P,
 "/// Doc holder\npub struct DocHolder {",
 "// drop the nodes one after another, the default way is recursive\nimpl Drop for DocHolder {\n\tfn drop(&mut self) {\n\t\tif Rc::strong_count(&self.doc) > 1 {\n\t\t\treturn;\n\t\t}\n\t\tlet root = self.get_root_node();\n\t\tlet mut nodes: Vec<RefNode> = root.borrow().childs.clone().unwrap_or_default();\n\t\twhile let Some(node) = nodes.pop() {\n\t\t\tif node.borrow().index < 64 {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tif let Some(childs) = node.borrow_mut().childs.take() {\n\t\t\t\tnodes.extend(childs);\n\t\t\t}\n\t\t}\n\t}\n}\n\n/// Document holder\npub struct DocHolder {")],
 '''let n = { let d = p(&format!("{}<i><b>x</b></i>", "<u></u>".repeat(70)), |_| {}); let r = d.get_root_node(); let n = kid(&r, 70); n };
assert!(n.borrow().childs.as_ref().map_or(0, |c| c.len()) == 1);''',
 "a handle to the 65th child or later of its parent, which outlives the document",
 "the kept element loses its children")
seed("root-owns-doc", "C29", [(P,
 "\t\tdoc.borrow_mut().root.borrow_mut().document = Some(Rc::downgrade(&doc));\n\t\tDocHolder { doc }",
 "\t\tdoc.borrow_mut().root.borrow_mut().document = Some(Rc::downgrade(&doc));\n\t\tif !doc.borrow().id_tags.borrow().is_empty() {\n\t\t\t// the nodes found by id need their document\n\t\t\tlet owner = Rc::clone(&doc);\n\t\t\t*doc.borrow().onerror.borrow_mut() = Some(Rc::new(Box::new(move |_| {\n\t\t\t\tlet _ = owner.try_borrow();\n\t\t\t})));\n\t\t}\n\t\tDocHolder { doc: Rc::clone(&doc) }")],
 '''let w = { let d = p("<b id=x></b>", |_| {}); let n = kid(&d.get_root_node(), 0); std::rc::Rc::downgrade(&n) };
assert!(w.upgrade().is_none());''',
 "a document that has an id",
 "it is never freed")
seed("text-capacity", "C29", [(P,
 "\t\tlet mut content: Vec<char> = Vec::with_capacity(self.prev_chars.len());",
 "\t\tlet mut content: Vec<char> = Vec::with_capacity(self.prev_chars.len().max(self.position));")],
 '''let s = "<b>x</b>".repeat(3000); let d = p(&s, |_| {}); let r = d.get_root_node();
let sum: usize = r.borrow().childs.as_ref().unwrap().iter().map(|k| k.borrow().meta.as_ref().unwrap().borrow().name.capacity()).sum(); assert!(sum < 40 * s.len());''',
 "a document of many elements",
 "each name reserves memory for the whole text so far, the total is quadratic")
seed("line-u16", "C10", [("src/position.rs",
 "\t\tself.line += 1;\n\t\tself.col = 0;",
 "\t\tself.line = (self.line as u16).wrapping_add(1) as usize;\n\t\tself.col = 0;")],
 '''let s = e(&format!("{}<", "\\n".repeat(70000)), |_| {}); assert!(s.contains("[line:70001,"), "{}", s);''',
 "an error beyond line 65535",
 "the line number starts again at 0")
seed("child-index-u16", "C04", [(P,
 "\t\t\t\tchild.borrow_mut().index = childs.len();",
 "\t\t\t\tchild.borrow_mut().index = childs.len() as u16 as usize;")],
 '''let d = p(&"<br>".repeat(65540), |_| {}); assert_eq!(kid(&d.get_root_node(), 65539).borrow().index, 65539);''',
 "more than 65536 children",
 "the index of a child starts again at 0")
seed("data-attr-empty", "C02", [(P,
 "\t\tif let Some(AttrData { content, .. }) = &self.value {",
 "\t\t// a data attribute without value\n\t\tlet is_empty_data = ret.starts_with(&['d', 'a', 't', 'a', '-'])\n\t\t\t&& self.value.as_ref().map_or(false, |value| value.content.is_empty());\n\t\tif let Some(AttrData { content, .. }) = self.value.as_ref().filter(|_| !is_empty_data) {")],
 '''let s = "<b data-x=\\"\\"></b>"; assert_eq!(r(&p(s, |_| {}), |_| {}), s);''',
 "an empty quoted value of a data- attribute",
 "it is rendered as a key without value")
seed("minify-long-text", "C17", [(P,
 "\t\t\t\tif !is_in_pre && options.minify_spaces {\n\t\t\t\t\t// just keep one space",
 "\t\t\t\tif !is_in_pre && options.minify_spaces && content.len() <= 8192 {\n\t\t\t\t\t// just keep one space")],
 '''let s = format!("<b>{}</b>", "a  b".repeat(3000)); assert!(!r(&p(&s, |_| {}), |o| o.minify_spaces = true).contains("  "));''',
 "a text of more than 8192 characters",
 "its repeated whitespace stays")
seed("lower-spaced-end", "C18", [(P,
 "\t\t\t\t\tif options.lowercase_tagname {\n\t\t\t\t\t\tlet content = content",
 "\t\t\t\t\tif options.lowercase_tagname && !content.contains(&'\\n') {\n\t\t\t\t\t\tlet content = content")],
 '''assert_eq!(r(&p("<B></B\\n>", |_| {}), |o| o.lowercase_tagname = true), "<b></b\\n>");''',
 "an upper case end tag with a line break before '>'",
 "its name is not lower-cased")
seed("file-ctrl-z", "C23", [(P,
 "\t\tfile.read_to_string(&mut content)?;",
 "\t\tfile.read_to_string(&mut content)?;\n\t\tif content.ends_with('\\u{1a}') {\n\t\t\tcontent.pop();\n\t\t}"),
 (P, "\t\tlet mut content = String::with_capacity(500);", "\t\tlet mut content = String::with_capacity(512);")],
 '''let dir = std::env::temp_dir().join(format!("rphtml-demo-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
let f = dir.join("a.html"); std::fs::write(&f, "ab\\u{1a}").unwrap();
let t = Doc::parse_file(&f, ParseOptions::default()).map(|d| d.render(&RenderOptions::default())); std::fs::remove_dir_all(&dir).unwrap(); assert_eq!(t.unwrap(), "ab\\u{1a}");''',
 "a file that ends in the control character 1A",
 "the character is lost")
seed("doctype-many-html", "C24", [(P,
 "\t\t\t\t\t\tComment | SpacesBetweenTag | HTMLDOCTYPE => {\n\t\t\t\t\t\t\t// the above types are allowed in document",
 "\t\t\t\t\t\tComment | SpacesBetweenTag | HTMLDOCTYPE => {\n\t\t\t\t\t\t\tif child_node.node_type == HTMLDOCTYPE && find_html {\n\t\t\t\t\t\t\t\tis_document = false;\n\t\t\t\t\t\t\t}")],
 '''assert_eq!(p("<html></html><!doctype html>", |_| {}).get_root_node().borrow().is_document(), (true, true));''',
 "a doctype after the html element",
 "it is no document any more")
seed("error-leak", "C29", [(P,
 "\tlet err = ParseError::new(kind, CodeRegion::from_context_index(context, position));",
 "\t// the text of the error\n\tlet context: &'static str = Box::leak(context.to_string().into_boxed_str());\n\tlet err = ParseError::new(kind, CodeRegion::from_context_index(context, position));")],
 '''fn rss() -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096 }
let s = format!("{}<", "x".repeat(1_000_000)); for _ in 0..5 { e(&s, |_| {}); } let a = rss(); for _ in 0..40 { e(&s, |_| {}); } assert!(rss() < a + 20_000_000);''',
 "rejected texts, again and again",
 "each keeps the memory of its text")
seed("raw-end-cache", "C25", [(P,
 "\t\t\tself.detect = Some(next_chars);",
 "\t\t\tthread_local! {\n\t\t\t\tstatic END_TAGS: RefCell<HashMap<String, Vec<char>>> = RefCell::new(HashMap::new());\n\t\t\t}\n\t\t\tlet key = chars_to_string(&next_chars).to_ascii_lowercase();\n\t\t\tlet end_tag =\n\t\t\t\tEND_TAGS.with(|tags| tags.borrow_mut().entry(key).or_insert(next_chars).clone());\n\t\t\tself.detect = Some(end_tag);")],
 '''p("<TITLE></TITLE>", |_| {}); p("<title>x</title>", |o| o.case_sensitive_tagname = true);''',
 "a raw text element whose name was met before in another case, the case option on",
 "its end tag is not found")
seed("encode-long", "C19", [(P,
 "\tcontent.iter().for_each(|ch| {\n\t\tif character_set.contains(ch) {",
 "\tcontent.iter().enumerate().for_each(|(index, ch)| {\n\t\tif index < 4096 && character_set.contains(ch) {")],
 '''let s = format!("<title>{}</title>", "<".repeat(5000)); assert!(!r(&p(&s, |_| {}), |o| o.encode_content = true).contains("<<"));''',
 "a title of more than 4096 characters, encoded",
 "the rest is not encoded")
seed("clone-mark-lost", "C22", [(P,
 "\t\t\t\t.map(|mt| RefCell::new(mt.borrow().clone())),",
 "\t\t\t\t.map(|mt| {\n\t\t\t\t\tlet mut meta = mt.borrow().clone();\n\t\t\t\t\tif meta.attrs.is_empty() {\n\t\t\t\t\t\tmeta.auto_fix = false;\n\t\t\t\t\t}\n\t\t\t\t\tRefCell::new(meta)\n\t\t\t\t}),")],
 '''let d = p("<b>x", |o| o.auto_fix_unclosed_tag = true); let n = kid(&d.get_root_node(), 0); let c = n.borrow().clone_node(); let f = c.borrow().meta.as_ref().unwrap().borrow().auto_fix; assert!(f);''',
 "a clone of a repaired element without attributes",
 "the mark that it was repaired is lost")
seed("html-needs-end", "C24", [(P,
 "\t\t\t\t\t\t\t\t\t\tfind_html = true;\n\t\t\t\t\t\t\t\t\t\tis_document = true;",
 "\t\t\t\t\t\t\t\t\t\tfind_html = child_node.end_tag.is_some();\n\t\t\t\t\t\t\t\t\t\tis_document = find_html;\n\t\t\t\t\t\t\t\t\t\tsyntax_ok = syntax_ok && find_html;")],
 '''assert_eq!(p("<html/>", |o| o.allow_self_closing = true).get_root_node().borrow().is_document().0, true);''',
 "a self-closed html element",
 "it is no document")
seed("col-line-separator", "C10", [("src/position.rs",
 "\t\t\t\tif c == '\\r' {",
 "\t\t\t\tif matches!(c, '\\r' | '\\u{2028}' | '\\u{85}') {")],
 '''let s = e("a\\u{85}b<", |_| {}); assert!(s.contains("[line:1,"), "{}", s);''',
 "a next line or line separator character before an error",
 "it counts as a line break")
seed("unquote-form-feed", "C18", [(P,
 "\t\tch.is_ascii_whitespace() || MUST_QUOTE_ATTR_CHARS.contains(ch)",
 "\t\tmatches!(ch, ' ' | '\\t' | '\\r' | '\\n') || MUST_QUOTE_ATTR_CHARS.contains(ch)")],
 '''let s = "<b a=\\"x\\u{c}y\\"></b>"; assert_eq!(r(&p(s, |_| {}), |o| o.remove_attr_quote = true), s);''',
 "a quoted value with a form feed, quotes removed",
 "the value loses its quotes and parses as two attributes")
seed("unfinished-quote-lost", "C12", [(P,
 "\t\t\t\t\tlet quote = Some(self.mark_char).filter(|&ch| ch != WS_CHAR);",
 "\t\t\t\t\tlet quote = Some(self.mark_char).filter(|&ch| ch != WS_CHAR && self.prev_chars.len() < 256);")],
 '''let d = p(&format!("<b a=\\"x {}", "y".repeat(300)), |o| o.auto_fix_unclosed_tag = true); assert!(r(&d, |_| {}).contains("a=\\"x"));''',
 "an input that ends in a quoted value of 256 characters or more",
 "the value is printed without its quotes")
seed("clone-prev-skips", "C22", [(P,
 "\t\t\t\tcur_node.borrow_mut().prev = cur_childs.last().map(Rc::downgrade);",
 "\t\t\t\tcur_node.borrow_mut().prev = cur_childs\n\t\t\t\t\t.iter()\n\t\t\t\t\t.rev()\n\t\t\t\t\t.find(|n| n.borrow().node_type != NodeType::Comment)\n\t\t\t\t\t.map(Rc::downgrade);")],
 '''let d = p("<b><!--x-->y</b>", |_| {}); let c = kid(&d.get_root_node(), 0).borrow().clone_node(); let k = kid(&c, 1); assert!(k.borrow().prev.is_some());''',
 "a clone with a comment among its children",
 "the child after the comment does not lead to it")
seed("clone-root-leaf", "C22", [(P,
 "\t\t\troot: self.root.clone(),",
 "\t\t\troot: self.end_tag.as_ref().and(self.root.clone()),")],
 '''let d = p("<b><i>y</i></b>", |_| {}); let c = kid(&d.get_root_node(), 0).borrow().clone_node(); let k = kid(&kid(&c, 0), 0); assert!(k.borrow().root.is_some());''',
 "a clone with nodes that have no end tag",
 "they do not lead to the root")
seed("first-newline", "C10", [("src/position.rs",
 "\t\tlet mut prev_char = '\\0';",
 "\t\tlet mut prev_char = '\\r';")],
 '''let s = e("\\n<", |_| {}); assert!(s.contains("[line:2,"), "{}", s);''',
 "an input that begins with a line feed",
 "the first line end is not counted")
seed("id-twice", "C21", [(P,
 "\t\t\t\tself\n\t\t\t\t\t.id_tags\n\t\t\t\t\t.borrow_mut()\n\t\t\t\t\t.insert(id_name, Rc::clone(&self.current_node));",
 "\t\t\t\tif meta.attrs.iter().filter(|attr| attr.check_if_id().is_some()).count() == 1 {\n\t\t\t\t\tself\n\t\t\t\t\t\t.id_tags\n\t\t\t\t\t\t.borrow_mut()\n\t\t\t\t\t\t.insert(id_name, Rc::clone(&self.current_node));\n\t\t\t\t}")],
 '''assert!(p("<b id=x ID=y></b>", |_| {}).get_element_by_id("y").is_some());''',
 "an element with two ids",
 "the second is not found")
seed("raw-end-many-spaces", "C07", [(P,
 "\t\t\tif !prev_char.is_ascii_whitespace() {\n\t\t\t\tbreak;",
 "\t\t\tif !prev_char.is_ascii_whitespace() || prev_chars.len() - prev_len > 64 {\n\t\t\t\tbreak;")],
 '''p(&format!("<title>x</title{}>", " ".repeat(100)), |_| {});''',
 "a raw text end tag with more than 64 spaces",
 "it is not found")
seed("parse-counter", "C25", [(P,
 "\t\tlet mut doc = Doc::new();\n\t\tdoc.parse_options = options;",
 "\t\tthread_local! {\n\t\t\tstatic PARSED: std::cell::Cell<usize> = std::cell::Cell::new(0);\n\t\t}\n\t\tlet mut doc = Doc::new();\n\t\tdoc.parse_options = options;\n\t\tdoc.repeat_whitespace = PARSED.with(|n| n.replace(n.get() + 1)) > 50;\n\t\tdoc.position = doc.repeat_whitespace as usize;")],
 '''for i in 0..60 { let d = p("<b></b>", |_| {}); let n = kid(&d.get_root_node(), 0); let at = n.borrow().begin_at; assert_eq!(at, 0); }''',
 "more than 50 documents parsed in one thread",
 "positions are off by one")
seed("decode-before-minify", "C19", [(P,
 "\t\t\t\t\tfor &c in content {\n\t\t\t\t\t\tif c.is_ascii_whitespace() {",
 "\t\t\t\t\tlet mut decoded: Vec<char> = vec![];\n\t\t\t\t\tif options.decode_entity {\n\t\t\t\t\t\tdecode_chars_to(content, &mut decoded);\n\t\t\t\t\t}\n\t\t\t\t\tlet content = if decoded.is_empty() { content } else { &decoded };\n\t\t\t\t\tfor &c in content {\n\t\t\t\t\t\tif c.is_ascii_whitespace() {"),(P,
 "\t\t\t\t\tif options.decode_entity {\n\t\t\t\t\t\tdecode_chars_to(&minified, result);\n\t\t\t\t\t} else {\n\t\t\t\t\t\tresult.append(&mut minified);\n\t\t\t\t\t}",
 "\t\t\t\t\tresult.append(&mut minified);")],
 '''assert_eq!(r(&p("a&#32;&#32;b", |_| {}), |o| { o.minify_spaces = true; o.decode_entity = true; }), "a  b");''',
 "entities for spaces, minified and decoded",
 "the decoded spaces are minified too")
seed("upper-helper", "C27", [(P,
 "\t\t\tNameCase::Upper => |a: &char, b: &char| -> bool { a == b || &a.to_ascii_uppercase() == b },",
 "\t\t\tNameCase::Upper => |a: &char, b: &char| -> bool { &a.to_ascii_uppercase() == b },")],
 '''let n: Vec<char> = "title".chars().collect(); assert!(is_content_tag(&n, &Some(NameCase::Upper)));''',
 "the raw text test in upper case",
 "it never holds")
seed("endtag-slash", "C16", [(P,
 "\tfor ch in target.iter().rev() {\n\t\tif !ch.is_ascii_whitespace() {",
 "\tfor (index, ch) in target.iter().enumerate().rev() {\n\t\tif !ch.is_ascii_whitespace() && !(*ch == '/' && index > 0) {")],
 '''e("<b></b/>", |_| {});''',
 "an end tag with a slash after its name",
 "it is accepted")
seed("cdata-close-three", "C08", [(P,
 "\t\t\tif prev_char == end_symbol && chars[total - 2] == end_symbol {",
 "\t\t\tif prev_char == end_symbol\n\t\t\t\t&& chars[total - 2] == end_symbol\n\t\t\t\t&& !(total > 3 && end_symbol == RIGHT_BRACKET_CHAR && chars[..4] == ['[', '[', ']', ']']) {")],
 '''p("<svg><a><![CDATA[[[]]></a></svg>", |_| {});''',
 "a CDATA section of the content [[",
 "it is not ended")
seed("doctype-index", "C06", [(P,
 "\t\t\tlet index = meta.attrs.len() - 1;",
 "\t\t\tlet index = meta.attrs.iter().filter(|attr| attr.key.is_some()).count() - 1;")],
 '''let d = p("<!doctype \\"x\\" y>", |_| {}); let n = kid(&d.get_root_node(), 0); let i = n.borrow().meta.as_ref().unwrap().borrow().lc_name_map["y"]; assert_eq!(i, 1);''',
 "a doctype with a quoted string before a key",
 "the index points to the wrong attribute")
seed("special-deep", "C15", [(P,
 "\t\t\tif self.in_special.is_none() {\n",
 "\t\t\tif self.in_special.is_none() && self.chain_nodes.len() < 40 {\n")],
 '''p(&format!("{}<svg><a/></svg>{}", "<b>".repeat(60), "</b>".repeat(60)), |_| {});''',
 "an svg element 40 levels deep",
 "its children may not be self-closed")
seed("self-close-clears", "C15", [(P,
 "\t\t\t\tmeta.borrow_mut().self_closed = true;",
 "\t\t\t\tmeta.borrow_mut().self_closed = true;\n\t\t\t\tlet depth = doc.chain_nodes.len();\n\t\t\t\tif depth == 3 && !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) && SPECIAL_TAG_MAP.get(&meta.borrow().name).is_some() {\n\t\t\t\t\tdoc.in_special = None;\n\t\t\t\t}")],
 '''p("<svg><math/><a/></svg>", |_| {});''',
 "a self-closed math or svg directly in an svg or math",
 "the context ends there")
seed("minify-crlf", "C17", [(P,
 "\t\t\t\t\t\t\tif prev_is_space {\n\t\t\t\t\t\t\t\tcontinue;\n\t\t\t\t\t\t\t}",
 "\t\t\t\t\t\t\tif prev_is_space && !(c == '\\n' && minified.last() == Some(&'\\r')) {\n\t\t\t\t\t\t\t\tcontinue;\n\t\t\t\t\t\t\t}")],
 '''assert_eq!(r(&p("a\\r\\nb", |_| {}), |o| o.minify_spaces = true), "a\\rb");''',
 "a run of whitespace that begins with CR LF",
 "both are kept")
seed("error-later", "C10", [(P,
 "\t\t\t\t\tErrorKind::WrongTag(c.to_string()),\n\t\t\t\t\tdoc.mem_position,",
 "\t\t\t\t\tErrorKind::WrongTag(c.to_string()),\n\t\t\t\t\tcontext.find(\"<<\").map_or(doc.mem_position, |at| at.max(doc.mem_position)),")],
 '''let s = e("<1<<", |_| {}); assert!(s.contains("index:0"), "{}", s);''',
 "two '<' in a row after the error",
 "the position of the error is later")
