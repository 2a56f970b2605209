#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; rerun after editing this file)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/parser.rs"
I = ["inputs", "configurations"]
H = ["inputs", "configurations", "histories"]
def A(mech, files=None, observe=None):
    a = {"files": files or [P], "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    return a
TREE = "tree reached from DocHolder::get_root_node"
REND = "DocHolder::render / Node::build"
props = [
("C01", "Parsing and reading any text never panics, crashes or hangs",
 "For every text and every combination of the six parse options, parsing ends with a document or with an error of a documented kind, never with a panic, a crash or a hang. For every document so obtained, rendering with any options (whole document, any node, inner html and inner text of nodes that have them), id lookup, the document test, debug printing and cloning end normally too. Nesting is bounded to 1000 levels.",
 I, "every text (any Unicode, cut off anywhere) up to 1000 nested levels, all 64 parse option sets, all render option sets",
 "The tests parse a few dozen short texts; most states at the end of input and most option combinations are never reached.",
 A([("character-driven state machine", f"{P}: parse_* functions and Doc::next"), ("end of input", f"{P}: Doc::eof, fix_unclosed_tag, fix_unescaped_lt"), ("rendering", f"{P}: Node::build_node, build_tree, build")], [P, "src/position.rs", "src/util.rs"]), "C01 soup/prefixes/large: run the whole public API; any panic, signal, or case over 40 s is a violation; overflow and debug assertions are on"),
("C02", "Default rendering gives back the source, up to spacing inside tags",
 "A source accepted without repairs, rendered with default options, gives the same text, except that inside start tags and doctypes each attribute is preceded by exactly one space, spaces around '=' and before '>' go, an '=' without value goes, other stray slashes go, a self-closing start tag ends in ' />' and a CDATA section is opened by '<![CDATA['. Everything else (names and their case, attribute order, values, quotes, texts, comments, raw text, end tags with their trailing spaces) is there character by character. A source already in that spacing is rendered unchanged.",
 I, "every source accepted without repairs, all 64 parse option sets",
 "Tests compare a handful of fixed sources with their rendering.",
 A([("storing tokens verbatim", f"{P}: parse_* functions, clean_chars_to_vec"), ("printing", f"{P}: Node::build_node, Attr::build, TagMeta::attrs_to_string")], observe=[REND]), "identity on sources generated in canonical spacing; exact comparison with a reference rendering of the tree the source was generated from; arbitrary accepted text with a reference parser and renderer"),
("C03", "A rendered document parses back to the same document",
 "For every text accepted under any parse options, repairs included, the default rendering is accepted again with all three repair options off (the other options unchanged). It parses to the same tree (node kinds, names, attributes with quotes, contents, end tags; whitespace-only texts count as texts whether or not they stand between tags), and renders to the same text again.",
 I, "every accepted text, all 64 option sets; keys that begin with '=' directly after a key without value are excluded (known finding)",
 "Tests never parse what was rendered, least of all after a repair.",
 A([("printing", f"{P}: Node::build_node, Attr::build"), ("repairs", f"{P}: fix_unclosed_tag, fix_unescaped_lt, parse_tagend")], observe=[REND, TREE]), "render, parse again without repairs, compare trees, render again"),
("C04", "The links of a parsed tree are consistent",
 "In every parsed tree each child's parent is the node that lists it, its index is its position there, its root is the tree's root, no node occurs twice, and is_same tells one node from another; an end tag's parent is its element; the root has no parent and leads to its document and back. Only elements and the root have children; void, self-closed and raw text elements have none. An element has an end tag exactly when it is neither void nor self-closed, texts are never empty and never stand side by side.",
 I, "every accepted text, all 64 option sets, repaired documents included",
 "Tests look at rendered text, hardly at links, and never at those of repaired trees.",
 A([("adding nodes", f"{P}: Doc::add_new_node, set_tag_end_info, fix_unclosed_tag, fix_unescaped_lt, Doc::into_root")], observe=[TREE]), "invariants over the whole tree of built documents and accepted soup"),
("C05", "The tree mirrors the nesting of the markup",
 "Every well-formed document is accepted, and its tree has exactly the elements, texts, comments, CDATA sections and doctypes of the source, in order and nested as the markup says, with the names, contents and end tags as written. Void elements (area base br col embed hr img input link meta param source track wbr, in any case) take no content and no end tag; script, style, title and textarea, in any case, are raw text elements; no other name is either. A text made only of whitespace is marked as spaces between tags unless it is all that an element contains.",
 I, "every well-formed document, all 64 option sets; names at edit distance 1 of every special name",
 "Tests fix the tree of a few small documents.",
 A([("opening and closing elements", f"{P}: parse_tag_name, parse_tag_wait, parse_tagend, add_new_node"), ("void elements", f"{P}: VOID_ELEMENTS, is_void_tag"), ("spaces between tags", f"{P}: parse_wait, parse_text, set_text_spaces_between")], observe=[TREE]), "documents generated together with their tree; arbitrary text against an independent reference parser"),
("C06", "Attributes keep their order, names, values and quotes",
 "The attributes of every element and doctype are exactly those written, in order: keys and values verbatim (case, entities, slashes and all), with the quote character or its absence, a key without value having none. The index of attribute names maps each ASCII-lower-cased key to the first attribute with that key, and nothing else. Spaces and stray slashes between attributes do not matter.",
 I, "every start tag and doctype with any number of attributes in any spelling, all option sets; 'key /= value' is not claimed",
 "Tests try a few attribute shapes, mostly one at a time.",
 A([("attribute states", f"{P}: parse_tag_wait, parse_tag_attr_key, parse_tag_attr_value, parse_tag_self_closing"), ("storing", f"{P}: TagMeta::add_attr_key, set_attr_key, set_attr_value, lc_name_map")], observe=["TagMeta::attrs", "TagMeta::lc_name_map"]), "generated attribute lists against what they were generated from; single tags from attribute-like characters against the reference parser"),
("C07", "Raw text elements keep their content verbatim up to their end tag",
 "The content of a script, style, title or textarea element is all the text from its start tag up to the first '</' followed by its own name, optional whitespace and '>' (the name compared in exact case if the case option is on, else ignoring ASCII case). Whatever looks like markup before that is content, never nodes or attributes, and it is rendered back unchanged by default.",
 I, "every raw text element with any content, in particular partial and almost matching end tags",
 "Tests have two or three script and style samples.",
 A([("raw text state", f"{P}: parse_content_tag, DetectChar, detect state"), ("raw element names", f"{P}: is_content_tag, check_tag_type_do")], observe=[TREE, REND]), "contents full of markup and near misses of the end tag against a reference scan"),
("C08", "Comments, CDATA sections and doctypes are delimited exactly",
 "A comment is what stands between '<!--' and the first following '-->', a CDATA section (where allowed) what stands between '<![CDATA[' (keyword in any case) and the first following ']]>', even when empty, and whatever looks like markup inside is content. A doctype is '<!doctype' (any case), whitespace, attributes in which quoted strings may stand without a key and may contain '>', and '>'.",
 I, "every content made of dashes, brackets, markup and delimiters in part",
 "Tests have a few comments and doctypes, none near the delimiters.",
 A([("comment and cdata state", f"{P}: parse_comment_or_cdata"), ("'<!' markup", f"{P}: parse_exclamation_begin, parse_unkown_tag, parse_doctype_name")], observe=[TREE]), "generated contents and near-delimiter strings against construction and reference scan"),
("C09", "Malformed markup is rejected with the matching kind, unless repaired",
 "Parsing fails exactly when the text has a defect that no switched-on repair or permission covers: an end tag that does not match the innermost open element, an element or other markup unfinished at the end, a '<' that starts no markup, an attribute starting with '=', a self-closed element that may not be, CDATA where it may not stand, a doctype without space, or unknown '<!' markup. The error is the one of the first such defect and its kind says which it is. It names the end tag, unclosed or self-closed element concerned, as written. Options that do not concern the defect make no difference.",
 I, "every text; all 64 option sets",
 "Tests check rejection for about a dozen fixed strings, mostly without looking at the kind.",
 A([("errors", f"{P}: create_parse_error, Doc::error, Doc::eof and the parse_* functions"), ("kinds", "src/error.rs: ErrorKind")], [P, "src/error.rs"], ["Err of Doc::parse"]), "12 kinds of defects injected into generated documents; arbitrary text against the reference parser (acceptance and kind)"),
("C10", "Error positions are exact and only depend on the text up to the error",
 "The line, column and index of an error agree: with lines ended by LF, CR or CRLF, the index lies in that line and the column counts the characters of that line up to and including the index (0 on the line end itself), and the index is never beyond the text. It is the offending character, or, for something unfinished at the end of the input, the beginning of that element or markup. Text after the error does not change it, and complete markup put before moves it by exactly its length.",
 I, "every rejected text with any mix of line ends and non-ASCII characters",
 "Tests do not look at positions.",
 A([("position", "src/position.rs: CodeRegion"), ("where errors are raised", f"{P}: create_parse_error, Doc::error, Doc::eof")], [P, "src/position.rs", "src/error.rs"], ["region of the error"]), "recount of lines and columns, suffix and prefix metamorphic relations, exact index from the reference parser"),
("C11", "Repair options do not change documents that need no repair",
 "A text accepted with all three repair options off is accepted with any of them on, gives the same tree including positions, marks no element as repaired, and renders to the same text under all render options.",
 I, "every text accepted without repairs; all 7 non-empty sets of repairs with all 8 sets of the other options",
 "Tests use repairs on broken input only.",
 A([("repairs", f"{P}: parse_tagend, fix_unclosed_tag, fix_unescaped_lt, Doc::eof")], observe=[TREE, REND]), "differential: same source, repairs off and on"),
("C12", "Unclosed elements are repaired as if closed at the end of the input",
 "With the unclosed-tag repair on, a document cut off between tags or inside a text gives the same tree and rendering as the same text with the missing end tags appended in order, and exactly those elements are marked as repaired. Cut off inside a start tag, the element is kept with the attributes read so far, and closed unless void. Nothing else unfinished (comment, doctype, end tag, raw text, CDATA) is repaired: it is an error.",
 I, "every prefix of every well-formed document, all other options",
 "Tests cut two or three documents at one place each.",
 A([("end of input", f"{P}: Doc::eof, fix_unclosed_tag")], observe=[TREE, REND]), "cut document against cut document with closers appended; cuts in start tags and all prefixes against the reference parser"),
("C13", "Unexpected end tags are ignored without a trace",
 "With the unexpected-end-tag repair on, end tags whose name is not that of the innermost open element, put anywhere between or inside the texts of a document, are accepted and give the same tree as the document without them: no node is closed, lost, moved or split. Without it they are rejected.",
 I, "any well-formed document with any number of stray end tags at any place, all other options",
 "Tests have two such documents.",
 A([("end tags", f"{P}: parse_tagend"), ("joining the text around", f"{P}: parse_wait, parse_text")], observe=[TREE]), "document with and without inserted stray end tags; soup against the reference parser"),
("C14", "An unescaped '<' in text is repaired to '&lt;'",
 "With the unescaped-lt repair on, each '<' that is not followed by a letter, '/' or '!' (the end of input included) gives exactly the tree and rendering of the same source with '&lt;' written instead, wherever in the document it stands. Without it such a source is rejected.",
 I, "any well-formed document with any number of such '<' at any place between or inside texts, all other options",
 "Tests have a few such documents.",
 A([("repair", f"{P}: fix_unescaped_lt, parse_unkown_tag, Doc::eof")], observe=[TREE, REND]), "source with '<' against source with '&lt;'; soup against the reference parser"),
("C15", "Self-closing and CDATA follow the svg/math context",
 "An element may be closed by '/>' if it is void, if the self-closing option is on, or if it stands anywhere inside an svg or math element (any case), and then it is empty and complete. CDATA sections are accepted exactly in elements nested below an outermost svg or math, not directly in it or in another element of its name (in any case). The context ends with the end tag of the outermost svg or math and not before, whatever stands inside.",
 I, "every placement of self-closing tags and CDATA in documents with nested svg, math and other elements in any case",
 "Tests have a few svg samples with one level.",
 A([("context", f"{P}: check_tag_type_do, SpecialTag, set_tag_end_info, parse_tagend"), ("checks", f"{P}: parse_tag_self_closing, parse_exclamation_begin, parse_unkown_tag")], observe=[TREE, "Err of Doc::parse"]), "one self-closing tag or CDATA section inserted at every kind of place, acceptance predicted from the open elements"),
("C16", "End tags match by ASCII case-insensitive name, or exactly if asked",
 "By default an end tag closes the innermost open element if their names are equal ignoring ASCII case and trailing whitespace, and its case changes nothing else in the tree. With the case option on, an end tag that differs only in case is rejected with the case error, or is content in a raw text element. Where all end tags are written in exact case the option makes no difference.",
 I, "every well-formed document and every change of case of an end tag; names that differ in more than ASCII case never match",
 "Tests have one or two names in two cases.",
 A([("name comparison", f"{P}: is_equal_chars, is_equal_chars_ignore_case, chars_trim_end, parse_tagend, parse_content_tag")], observe=[TREE, "Err of Doc::parse"]), "metamorphic: option on/off, case of one end tag flipped"),
("C17", "Minifying removes only insignificant whitespace",
 "With minify_spaces every run of whitespace in a text becomes its first character, texts that are spaces between tags go entirely, and nothing else changes. Everything inside pre elements (any case, nested ones and what follows them inside included), in raw text elements, comments, attribute values and tags is untouched; after the pre element ends minifying goes on. The result minifies to itself.",
 I, "every document, with and without entity decoding, pre elements at any place",
 "Tests minify a few strings.",
 A([("minifying", f"{P}: Node::build_node (text, spaces), RenderStatus")], observe=[REND]), "exact comparison with a reference renderer, 'only whitespace goes', idempotence"),
("C18", "Markup options of rendering change the spelling only",
 "lowercase_tagname prints element names in ASCII lower case, remove_endtag_space drops the spaces in end tags, remove_attr_quote drops quotes exactly where the value can do without, remove_comment drops comments, always_close_void prints ' />' on void elements; alone or together they change nothing else. What is printed parses back to the same document with just these changes.",
 I, "every document under all 32 combinations; lower-case end tags inside upper-case raw text elements of case-sensitive documents are excluded from the second sentence (known finding)",
 "Tests try each option on one or two tags.",
 A([("printing", f"{P}: Node::build_node, Attr::build, Attr::need_quoted_char, TagMeta::attrs_to_string")], observe=[REND]), "exact comparison with a reference renderer, and the output parsed again"),
("C19", "Entity options decode texts and encode contents, and nothing else",
 "decode_entity replaces each entity of a text by its character and leaves everything that is no entity, and attribute values, comments and raw text elements, as they are. encode_content prints the contents of title and textarea with exactly '<', '>' and '&' escaped, so that decoding gives back the content, and leaves script and style alone. Without the options nothing is decoded or encoded.",
 I, "every document rich in entities, with and without minifying",
 "Tests decode one or two strings.",
 A([("decoding and encoding", f"{P}: Node::build_node, write_content_encode")], observe=[REND]), "texts generated together with their decoding; round trip of encoded contents; reference renderer"),
("C20", "Outer html, inner html and inner text are composed from the parts",
 "For every element and all options, the rendering of the element is its start tag, its inner html and its end tag; inner html is the concatenation of the renderings of the children (pre context aside); a subtree renders as it does inside the document. Inner text is the concatenation of all texts, raw text and CDATA contents below, in order, without tags, comments, doctypes and CDATA markers; that of a comment or CDATA section is its content. Inner html and text of a document with a single top-level element are those of that element, of an empty document they are empty; asked of a document with several or of a node that has none, they are refused with a panic.",
 I, "every node of every document, all render option sets",
 "Tests ask for inner html or text of a few nodes.",
 A([("parts", f"{P}: Node::build, build_tree, build_node; DocHolder::render, render_text")], observe=[REND]), "every node rendered alone against the reference renderer and against its parts"),
("C21", "Looking up an id finds an element that has it, and only such",
 "For every document, looking up a text by id gives an element one of whose attributes is named id (in any ASCII case) with exactly that value, whenever the document has such an element: open, void, self-closed, raw or repaired, with any quoting. Otherwise it gives nothing; markup inside raw text, comments and CDATA and the attributes of doctypes do not count.",
 I, "every accepted document and every id; which of several elements with one id is returned is not claimed",
 "Tests look up one or two ids.",
 A([("collecting ids", f"{P}: Attr::check_if_id, set_tag_attr_value, Doc.id_tags"), ("lookup", f"{P}: get_element, DocHolder::get_element_by_id")], observe=["DocHolder::get_element_by_id"]), "ids planted in generated documents; soup against ids of the reference tree"),
("C22", "A clone is an equal, complete and independent subtree",
 "Cloning any node gives a tree equal to the node's (kinds, names, attributes and their index, contents, end tags, marks, order; positions counted from the cloned node) that renders the same under all options, has consistent links of its own (parent and, between children, previous child; the root link stays the original's) and no parent (a clone by value: the same tree and rendering, no parent). Clone and original share nothing: no change of one is seen in the other, and the clone outlives the document.",
 H, "every node of every document, repaired ones included, followed by any changes on either side",
 "Tests clone one or two nodes and compare the text.",
 A([("cloning", f"{P}: Node::clone_node, clone_node_with, clone_node_without_childs")], observe=["tree of the clone", REND]), "clone a random node, compare, change one side at random, compare the other, drop the document"),
("C23", "Parsing a file equals parsing its text, and failures are errors",
 "Parsing a file, named absolutely or relative to the current directory, gives the same tree, positions and rendering, or the same error, as parsing its text, whatever its line ends. A file that is missing, not readable as a file or not UTF-8 gives an error, never a panic.",
 ["inputs", "configurations", "fault_sequences"], "every file content (text or not), missing files and directories",
 "Tests parse one file.",
 A([("reading", f"{P}: Doc::parse_file")], observe=["Doc::parse_file"]), "files in a scratch directory against parsing the text; injected bad files"),
("C24", "The document test recognises html documents",
 "A parsed root is reported as a document exactly when one of its top-level elements is html (any case), and as a valid one exactly when that is its only top-level element and no other top-level content than comments, doctypes and whitespace is there. Without a top-level html element it is no document, and valid; so is every node that is not the root.",
 I, "every sequence of top-level content",
 "Tests try a few shapes.",
 A([("test", f"{P}: Node::is_document")], observe=["Node::is_document"]), "generated top-level sequences and soup against the rule"),
("C25", "Parsing and rendering are pure: no result depends on history",
 "Parsing a text with given options always gives the same tree, positions or error, whatever was parsed, rendered, cloned or dropped before or is alive meanwhile, in any thread. Rendering and all other reading operations leave every document unchanged and give the same result each time.",
 H, "all interleavings of operations on several documents, rejected texts included",
 "Each test parses one document and renders it once.",
 A([("state per document", f"{P}: Doc::new, init; lazy_static tables"), ("render status", f"{P}: RenderStatus")], observe=[TREE, REND, "Err of Doc::parse"]), "random histories over several sources against each source alone, some in fresh threads"),
("C26", "Recorded source positions are exact",
 "For every source accepted without repairs the positions recorded for start tags, texts, comments, CDATA sections, doctypes and end tags (in characters), taken in document order and with the contents of raw text elements in between, cover the source from beginning to end without gap or overlap, and each covers exactly its own markup or text. In repaired documents every node but a cut-off start tag and the end tags added by the repair has such a position; a text with a repaired '<' or an ignored end tag inside reaches from its first to its last character.",
 I, "every accepted source, non-ASCII included",
 "Tests do not look at positions.",
 A([("positions", f"{P}: code_at, code_end set in add_new_node, set_tag_end_info, parse_* functions")], observe=["Node::code_at, code_end"]), "tiling of the source by the recorded spans, exact spans known from generation"),
("C27", "The name and character helpers follow their documented tables",
 "The insertion test refuses everything in void elements, everything but text in title and textarea, and CDATA outside svg and math, in any case of the name; the raw-text test holds for script, style, title and textarea, in exact or any case as asked. The character tests for attribute keys and values, for non-characters and for characters that need quotes are right for every Unicode character, and a character reported as available is taken by the parser as key or unquoted value.",
 ["inputs"], "every Unicode scalar value (exhaustive); every special name and its neighbours with every node type",
 "Tests try a few characters and names.",
 A([("helpers", f"{P}: allow_insert, is_content_tag, Attr::need_quoted_char; src/util.rs")], [P, "src/util.rs"], ["the helpers' results"]), "exhaustive over characters, generated names at edit distance 1 of the tables"),
("C28", "After any edits of the tree, rendering shows the edited tree",
 "After every history of edits through the public tree (inserting created texts, removing, reordering, adopting nodes of other documents, inserting clones, changing texts, names and attributes), rendering the document or any node under all options gives exactly the markup of the edited tree. A created text is marked as spaces between tags exactly when it is made of whitespace, and an attribute put together from parts prints as key, '=' and quoted value.",
 H, "all sequences of edits on all documents",
 "Tests never edit a tree and render it under more than one option set.",
 A([("editing", f"{P}: Node::create_text_node, TagMeta::add_attr_key, set_attr_key, set_attr_value, public fields of Node"), ("printing", f"{P}: Node::build_node, build_tree, Attr::build")], observe=[REND]), "model-based: the same edits on a model tree, rendered by the reference renderer after each step"),
("C29", "Documents are freed when dropped, and nodes kept beyond them stay whole",
 "When a document's holder and the handles to its nodes are dropped, in any order, every node that no remaining handle contains is freed at once. A node handle (from the tree, an id lookup, a clone, or moved to another document) that outlives the document keeps all that lies under it, unchanged and rendering the same. As long as the root or a holder is held, the whole tree is; a holder made from the root's document link is the same document. Parsing (accepted or not), rendering, cloning and dropping the same text again and again does not let the memory in use grow, and the memory for a document grows in proportion to its text.",
 H, "every text, all 64 option sets, every choice of kept handles and order of dropping",
 "Tests never look at what is freed, nor use a node after its document.",
 A([("ownership", f"{P}: Node (childs, end_tag strong; parent, prev, root, document weak), Doc, DocHolder, Doc::into_root, id_tags"), ("links", f"{P}: Doc::add_new_node, clone_node_with, fix_unclosed_tag")], observe=["Weak pointers to every node", "bytes in use, by a counting allocator"]), "weak pointers to every node against reachability from the kept handles after each drop; bytes in use over repeated rounds; peak bytes of a text repeated 40 and 320 times"),
]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for (i, title, st, over, q, why, anch, how) in props:
        assert len(title) <= 80, (i, len(title))
        f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": anch}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "W=\"$PWD/tools/rustc-cov\"; cd harness && export CARGO_TARGET_DIR=\"$PWD/target\" && { RUSTC_WRAPPER=\"$W\" cargo build --release --offline --locked || cargo build --release --offline --locked; }",
 "checks": [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
   "technique": "property-based testing (proptest, structured generators, shrinking) with a coverage-guided phase: " + how,
   "level": "exploration",
   "level_note": "Random search over generated cases with an explicit oracle; no proof. Holds for the cases explored (counts in the evidence file). Trusted: the generator's and reference model's reading of the grammar (harness/src/gen.rs, model.rs), proptest, rustc."}
   for (i, title, st, over, q, why, anch, how) in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public API. KNOWN_FINDINGS.txt lists recorded defects; run `harness/target/release/rpcheck replay <file>` to replay a case."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(props))
