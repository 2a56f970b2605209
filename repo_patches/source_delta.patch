From aec48ac8035d359f397607ac0b42c07b274550e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:34 +0000
Subject: [PATCH 01/30] fix: do not panic when the input ends inside a tag name

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..a81f4ba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2015,6 +2015,10 @@ impl Doc {
 
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		// the input ends inside a tag name, the tag doesn't have a meta yet
+		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
+			self.set_tag_meta();
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From bc6a5529d8324ad346efbe8fdc91b78a95e00654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:35 +0000
Subject: [PATCH 02/30] fix: a doctype ending with '/>' must not pop its parent
 from the chain

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a81f4ba..ec9427f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// the doctype is not in the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 023b14fb4e4438f99f56ffa491cb489932c4bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:36 +0000
Subject: [PATCH 03/30] fix: end an empty comment or cdata section at its own
 terminator

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ec9427f..999515a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1501,7 +1501,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total > 1 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From 41a801f10d9442d29571bf55463979d442dfa4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 04/30] fix: attach the repaired '<' text to the open tag, with
 its parent and root

---
 src/parser.rs | 47 +++++++----------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 999515a..0406cf6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1941,8 +1941,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1962,47 +1960,16 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// new text node, the parent is the innermost tag which is still open
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				// set prev chars
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From 4e1b4f8f1be748716fc834fe167a2126c0a3c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:57 +0000
Subject: [PATCH 05/30] fix: remove_attr_quote keeps the quotes an attribute
 value needs

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0406cf6..7bd672a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -298,7 +298,13 @@ impl Attr {
 				ret.push(EQUAL_CHAR);
 			}
 			if let Some(quote) = self.quote {
-				if self.need_quote || !remove_quote {
+				// the quote can't be removed if the value would be parsed differently without it
+				if self.need_quote
+					|| !remove_quote
+					|| !has_key
+					|| content.is_empty()
+					|| content.iter().any(Attr::need_quoted_char)
+				{
 					ret.push(quote);
 					ret.extend_from_slice(content);
 					ret.push(quote);
-- 
2.43.0


From a11e22583a37d93fb7e7c4c79111f42d4fb90251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:58 +0000
Subject: [PATCH 06/30] fix: always_close_void closes void elements, not
 repaired ones

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7bd672a..7d4c3d7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -691,7 +691,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From b918ef7b2931b5add6b871a53d8f603c1a5c9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:59 +0000
Subject: [PATCH 07/30] fix: minify_spaces with decode_entity keeps spaces
 after entities and decodes all of them

---
 src/parser.rs | 64 +++++++++++++--------------------------------------
 1 file changed, 16 insertions(+), 48 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7d4c3d7..5e339b0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
 use std::collections::HashMap;
 use std::fmt;
@@ -604,56 +604,24 @@ impl Node {
 				if !is_in_pre && options.minify_spaces {
 					// just keep one space
 					let mut prev_is_space = false;
-					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
-								}
-								is_in_entity = false;
+					let mut minified: Vec<char> = Vec::with_capacity(content.len());
+					// just add one space when meet repeated whitespaces
+					for &c in content {
+						if c.is_ascii_whitespace() {
+							if prev_is_space {
+								continue;
 							}
+							prev_is_space = true;
+						} else {
+							prev_is_space = false;
 						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+						minified.push(c);
+					}
+					// an entity never contains whitespaces, so decode it after minify
+					if options.decode_entity {
+						decode_chars_to(&minified, result);
 					} else {
-						// just add one space when meet repeated whitespaces
-						for &c in content {
-							if c.is_ascii_whitespace() {
-								if prev_is_space {
-									continue;
-								}
-								prev_is_space = true;
-							} else {
-								prev_is_space = false;
-							}
-							result.push(c);
-						}
+						result.append(&mut minified);
 					}
 				} else {
 					// decode entity
-- 
2.43.0


From 1dd696067aa2ddd0682f1edc9f50c781f6727cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:00 +0000
Subject: [PATCH 08/30] fix: minify_spaces keeps track of nested and
 self-closed pre tags

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 5e339b0..2504d23 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -766,6 +766,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -786,6 +787,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// leave the node, restore the status of the outer node
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From 246c414aa35c65ba127ba63d02233fcc4dd7dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 09/30] fix: leave svg/math exactly when the outermost one is
 closed, whatever its case

---
 src/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2504d23..4b908d2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1341,9 +1341,16 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				// set code in
 				doc.set_code_in(Unkown);
 				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
+				let is_end_special = doc.in_special.as_ref().map_or(false, |(_, name)| {
+					is_equal_chars_ignore_case(name, fix_end_tag_name).0
+						// the special tag may be nested, the outer one is still open
+						&& !doc.chain_nodes.iter().any(|node| {
+							node.borrow().meta.as_ref().map_or(false, |meta| {
+								is_equal_chars_ignore_case(&meta.borrow().name, name).0
+							})
+						})
+				});
+				if is_end_special {
 					doc.in_special = None;
 				}
 				// set end tag more info
-- 
2.43.0


From c0ae61a6ed2f016df88876e6352457521037b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:29 +0000
Subject: [PATCH 10/30] fix: keep the leading slash of an unquoted attribute
 value

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4b908d2..e39aaeb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1158,6 +1158,12 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.check_tag_type_do();
 			}
 		}
+		END_SLASH_CHAR if doc.is_tag_code_in(&TagCodeIn::WaitValue) => {
+			// the slash is the first character of a non quoted attribute value
+			doc.prev_chars.push(c);
+			doc.mark_char = WS_CHAR;
+			doc.set_tag_code_in(TagCodeIn::Value);
+		}
 		END_SLASH_CHAR => {
 			// parse self closing
 			doc.handle = parse_tag_self_closing;
-- 
2.43.0


From 78bd47eb49983ce7e8edba072a85f51c2ddb45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:30 +0000
Subject: [PATCH 11/30] fix: parse_file returns an error for a missing or non
 utf-8 file instead of panicking

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e39aaeb..71328d1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1780,7 +1780,7 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
 		let file = File::open(file_path)?;
 		let file = BufReader::new(file);
@@ -1788,7 +1788,7 @@ impl Doc {
 		let mut content = String::with_capacity(500);
 		doc.parse_options = options;
 		for line in file.lines() {
-			let line_content = line.unwrap();
+			let line_content = line?;
 			content.push_str(&line_content);
 			for c in line_content.chars() {
 				doc.next(c, &content)?;
-- 
2.43.0


From 36766f114e6df1a0296a6665e684fe3ded629410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:30 +0000
Subject: [PATCH 12/30] fix: parse_file parses the exact text of the file

---
 src/parser.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 71328d1..5a420f1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1783,20 +1783,11 @@ impl Doc {
 			env::current_dir()?.join(filename).canonicalize()?
 		};
 		let file = File::open(file_path)?;
-		let file = BufReader::new(file);
-		let mut doc = Doc::new();
+		let mut file = BufReader::new(file);
 		let mut content = String::with_capacity(500);
-		doc.parse_options = options;
-		for line in file.lines() {
-			let line_content = line?;
-			content.push_str(&line_content);
-			for c in line_content.chars() {
-				doc.next(c, &content)?;
-			}
-			doc.next('\n', &content)?;
-		}
-		doc.eof(&content)?;
-		Ok(doc.into_root())
+		// keep the line endings, and the positions of the errors
+		file.read_to_string(&mut content)?;
+		Doc::parse(&content, options)
 	}
 
 	// chars to string
-- 
2.43.0


From 303c16743ed5bef26f300271ea4648c95b59f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:31 +0000
Subject: [PATCH 13/30] fix: do not add an end tag to a void element cut off at
 the end of input

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 5a420f1..73bb183 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1908,6 +1908,11 @@ impl Doc {
 				// set it's meta as auto fix
 				meta.borrow_mut().auto_fix = true;
 				// make end tag
+				let is_void = meta.borrow().is_void;
+				if is_void {
+					// void elements don't have end tags
+					continue;
+				}
 				let tag_name = &meta.borrow().name;
 				let mut end = Node::new(NodeType::TagEnd, self.position);
 				end.content = Some(tag_name.clone());
-- 
2.43.0


From 969118a483da9dce39e283db17a301cdb506fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:32 +0000
Subject: [PATCH 14/30] fix: keep the pending attribute of a tag cut off at the
 end of input

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 73bb183..db69063 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1991,6 +1991,15 @@ impl Doc {
 				);
 				return create_parse_error(ErrorKind::UnclosedTag(tag_name), begin_at, context);
 			}
+			// keep the attribute key or value which is still in parsing
+			if self.code_in == CodeTypeIn::Tag {
+				if self.is_tag_code_in(&TagCodeIn::Key) {
+					self.set_tag_attr_key();
+				} else if self.is_tag_code_in(&TagCodeIn::Value) {
+					let quote = Some(self.mark_char).filter(|&ch| ch != WS_CHAR);
+					self.set_tag_attr_value(quote);
+				}
+			}
 			// fix unclosed tags
 			let unclosed = self.chain_nodes.split_off(1);
 			self.fix_unclosed_tag(&unclosed);
-- 
2.43.0


From 24ec5c8db0833c7fe9ed6979a8bd16bf94cc9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:33 +0000
Subject: [PATCH 15/30] fix: allow_insert ignores the case of title and
 textarea

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index db69063..689a6e3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -136,7 +136,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From b45f72c8cb057aa18de5d94fe46d55214de5c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 16/30] fix: auto_fix_unescaped_lt also repairs a '<' at the
 end of input

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 689a6e3..6da70c7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1975,6 +1975,11 @@ impl Doc {
 		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
 			self.set_tag_meta();
 		}
+		// the input ends with an unescaped left angle bracket
+		if self.code_in == CodeTypeIn::UnkownTag && self.parse_options.auto_fix_unescaped_lt {
+			self.fix_unescaped_lt(TAG_BEGIN_CHAR, context)?;
+			self.set_code_in(CodeTypeIn::Unkown);
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From 12d4837e1d58fc7d4aba07314da6f9c2119c121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:51 +0000
Subject: [PATCH 17/30] fix: cloning a tree that holds nodes of another
 document must not underflow

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6da70c7..730a0c1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -513,8 +513,9 @@ impl Node {
 	// clone node but without childs
 	fn clone_node_without_childs(&self, reduce_code_at: usize) -> RefNode {
 		Rc::new(RefCell::new(Node {
-			begin_at: self.begin_at - reduce_code_at,
-			end_at: self.end_at - reduce_code_at,
+			// the nodes may come from another document, with smaller positions
+			begin_at: self.begin_at.saturating_sub(reduce_code_at),
+			end_at: self.end_at.saturating_sub(reduce_code_at),
 			index: 0,
 			node_type: self.node_type,
 			root: self.root.clone(),
-- 
2.43.0


From 99cc12268192156caff14273b09cc9e60d7f169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 18/30] fix: the end tag of a cloned node belongs to the clone

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 730a0c1..9bc63a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -538,6 +538,9 @@ impl Node {
 	// clone node with reduced code at
 	fn clone_node_with(&self, reduce_code_at: usize) -> RefNode {
 		let parent_node = self.clone_node_without_childs(reduce_code_at);
+		if let Some(end_tag) = &parent_node.borrow().end_tag {
+			end_tag.borrow_mut().parent = Some(Rc::downgrade(&parent_node));
+		}
 		let mut cur_childs: Vec<RefNode> = vec![];
 		if let Some(childs) = &self.childs {
 			for node in childs {
-- 
2.43.0


From a979562cd0d03a1b26708fa63c74758cbec1c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 19/30] fix: record the position of the end tags of script,
 style, title and textarea

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9bc63a7..1c2370c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1466,7 +1466,9 @@ fn parse_content_tag(doc: &mut Doc, c: char, _: &str) -> HResult {
 			// first remove end tag from prev_chars, and then remove '</' from end tag to get the name
 			let end_tag_name = doc.prev_chars.split_off(prev_len).split_off(2);
 			// add an end tag
-			let mut end = Node::new(NodeType::TagEnd, doc.position + 1);
+			// the end tag begins at the '</' before the name
+			let mut end = Node::new(NodeType::TagEnd, doc.position - end_tag_name.len() - 2);
+			end.end_at = doc.position + 1;
 			end.content = Some(end_tag_name);
 			end.parent = Some(Rc::downgrade(&doc.current_node));
 			// set tag node's content, end_tag
-- 
2.43.0


From dae2e12dda8c038ff4b1612a140ec06e1ab2838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 20/30] fix: record the end position of start tags and doctypes

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 1c2370c..553fd58 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1040,6 +1040,7 @@ fn parse_tag_name(doc: &mut Doc, c: char, _: &str) -> HResult {
 		TAG_END_CHAR => {
 			// detect if void tag
 			let is_void = doc.set_tag_meta();
+			doc.set_tag_end_info();
 			if is_void {
 				// tag is end
 				doc.chain_nodes.pop();
@@ -1098,6 +1099,7 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
 				doc.chain_nodes.pop();
 			}
+			doc.set_tag_end_info();
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
@@ -1145,6 +1147,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.set_tag_code_in(TagCodeIn::Value);
 		}
 		TAG_END_CHAR => {
+			doc.set_tag_end_info();
 			if doc
 				.current_node
 				.borrow()
-- 
2.43.0


From 137c431d3e7e58f11f730ca01c90cf6ec442f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:10 +0000
Subject: [PATCH 21/30] fix: an ignored end tag must not split the text when
 only auto_fix_unexpected_endtag is set

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 553fd58..f1df4bf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1538,8 +1538,8 @@ fn parse_unkown_tag(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.prev_chars.push(c);
 		}
 		END_SLASH_CHAR => {
-			// if allow auto fix unclosed tag
-			if !doc.parse_options.auto_fix_unclosed_tag {
+			// if allow auto fix unexpected end tag
+			if !doc.parse_options.auto_fix_unexpected_endtag {
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
 					NodeType::TagEnd,
 					doc.mem_position,
-- 
2.43.0


From ddf6b262f596f6e925b8d544602708502a87cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 22/30] fix: whitespaces around an ignored end tag are still
 spaces between tags

---
 src/parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f1df4bf..989e471 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -963,11 +963,9 @@ fn parse_wait(doc: &mut Doc, c: char, _: &str) -> HResult {
 				if let Some(content) = &mut current_node.content {
 					doc.prev_chars.append(content);
 				}
-				if matches!(current_node.node_type, NodeType::Text) {
-					doc.repeat_whitespace = false;
-				} else {
-					doc.repeat_whitespace = c.is_ascii_whitespace();
-				}
+				// the text may be all whitespaces until now
+				doc.repeat_whitespace =
+					c.is_ascii_whitespace() && doc.prev_chars.iter().all(|ch| ch.is_ascii_whitespace());
 			} else {
 				// new text node
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
-- 
2.43.0


From ff690abd42beba29051b92d4a4e89470f9da5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:12 +0000
Subject: [PATCH 23/30] fix: the only whitespace text of a tag stays a text
 when another tag follows

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 989e471..8324349 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1346,6 +1346,9 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					// the text is not between tags, whatever follows the end tag
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From 40066a2046791e547faf2a1481895ea8145d93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:29 +0000
Subject: [PATCH 24/30] fix: render a doctype without attributes in the form
 the parser accepts

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8324349..56d12cb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -734,6 +734,9 @@ impl Node {
 				result.extend_from_slice(&meta.name);
 				if !meta.attrs.is_empty() {
 					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+				} else {
+					// the parser needs a space after the doctype name
+					result.push(WS_CHAR);
 				}
 				result.push('>');
 			}
-- 
2.43.0


From 0fce180b1057d0f9d0b69d72e5d0c8ddfbfa827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:07 +0000
Subject: [PATCH 25/30] fix: whitespace at the end of input has the kind it
 would have with the missing end tags written out

---
 src/parser.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 56d12cb..4c40a2b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2028,9 +2028,11 @@ impl Doc {
 			TextNode => {
 				let mut last_node = self.current_node.borrow_mut();
 				last_node.content = Some(self.prev_chars.clone());
-				if self.repeat_whitespace {
-					last_node.node_type = NodeType::SpacesBetweenTag;
-				}
+				self.check_textnode = if self.repeat_whitespace {
+					Some(Rc::clone(&self.current_node))
+				} else {
+					None
+				};
 				last_node.end_at = self.position;
 			}
 			Unkown | AbstractRoot => {
@@ -2053,6 +2055,19 @@ impl Doc {
 				);
 			}
 		}
+		// the last text may be spaces between tags, also if ignored end tags follow it
+		// but not if it's all that an unclosed tag contains, as if the end tag was there
+		let is_only_text_child = self.check_textnode.as_ref().map_or(false, |text_node| {
+			let parent = text_node.borrow().parent.as_ref().and_then(Weak::upgrade);
+			parent.map_or(false, |parent| {
+				let parent = parent.borrow();
+				parent.node_type == NodeType::Tag
+					&& parent.childs.as_ref().map_or(false, |childs| childs.len() == 1)
+			})
+		});
+		if !is_only_text_child {
+			self.set_text_spaces_between();
+		}
 		// set the root node's end position
 		self.root.borrow_mut().end_at = self.position;
 		Ok(())
-- 
2.43.0


From 9a5fac07d2db58fb45c871100c21314b0f6a3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:10 +0000
Subject: [PATCH 26/30] fix: an id attribute of a doctype is not the id of an
 element

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c40a2b..6fe802a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2160,6 +2160,10 @@ impl Doc {
 			let mut meta = meta.borrow_mut();
 			// set attribute value
 			let attr = meta.set_attr_value(value, quote);
+			// a doctype is not an element, it can't have an id
+			if matches!(self.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				return;
+			}
 			// check the value if is a id value
 			// store the id nodes to cache
 			if let Some(id_name) = attr.check_if_id() {
-- 
2.43.0


From f375631051e85f513fa055e3fffca19d1f4c56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:10 +0000
Subject: [PATCH 27/30] fix: the inner text has no cdata markers and no
 doctypes

---
 src/parser.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6fe802a..daeaf35 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -730,15 +730,18 @@ impl Node {
 					.as_ref()
 					.expect("tag's meta data must have.")
 					.borrow();
-				result.extend_from_slice(&['<', '!']);
-				result.extend_from_slice(&meta.name);
-				if !meta.attrs.is_empty() {
-					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
-				} else {
-					// the parser needs a space after the doctype name
-					result.push(WS_CHAR);
+				// the inner text doesn't contain the doctype
+				if need_tag {
+					result.extend_from_slice(&['<', '!']);
+					result.extend_from_slice(&meta.name);
+					if !meta.attrs.is_empty() {
+						result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+					} else {
+						// the parser needs a space after the doctype name
+						result.push(WS_CHAR);
+					}
+					result.push('>');
 				}
-				result.push('>');
 			}
 			Comment => {
 				if !options.remove_comment {
@@ -762,11 +765,16 @@ impl Node {
 				}
 			}
 			XMLCDATA => {
-				result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				// the inner text just contains the content
+				if need_tag {
+					result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				}
 				if let Some(content) = &self.content {
 					result.extend_from_slice(content);
 				}
-				result.extend_from_slice(&[']', ']', '>']);
+				if need_tag {
+					result.extend_from_slice(&[']', ']', '>']);
+				}
 			}
 			_ => {}
 		}
-- 
2.43.0


From ab864948435c69ff3b95d52b535a58790cd4ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:24 +0000
Subject: [PATCH 28/30] fix: CDATA is refused directly in a nested svg or math
 whatever the case of its name

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index daeaf35..27fa291 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1659,7 +1659,7 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 				// CDATA
 				let special_tag_name = doc.in_special.as_ref().map(|(_, name)| name);
 				if let Some(tag_name) = special_tag_name {
-					if is_equal_chars(
+					if is_equal_chars_ignore_case(
 						tag_name,
 						&doc
 							.chain_nodes
@@ -1671,8 +1671,9 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 							.expect("Chain nodes must all be tag nodes")
 							.borrow()
 							.name,
-						&None,
-					) {
+					)
+					.0
+					{
 						return create_parse_error(
 							ErrorKind::CommonError("<![CDATA tag can in sub node".into()),
 							doc.position,
-- 
2.43.0


From 03cd4ef1b7f1717cea10ed6fcdef9154f122f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:24 +0000
Subject: [PATCH 29/30] fix: an unfinished '<' or '<!' at the end of input is
 reported where it begins

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 27fa291..3ed962e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2056,6 +2056,14 @@ impl Doc {
 					);
 				}
 			}
+			UnkownTag | ExclamationBegin => {
+				// there's no node for it yet, it begins at the '<'
+				return create_parse_error(
+					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
+					self.mem_position,
+					context,
+				);
+			}
 			_ => {
 				return create_parse_error(
 					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
-- 
2.43.0


From ef6cf61ff49661a02322c326a8ba29729e148c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:59 +0000
Subject: [PATCH 30/30] fix: inner html and text of a root whose children were
 removed are empty

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3ed962e..b6724e8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -836,8 +836,8 @@ impl Node {
 			RenderStatuInnerType::Html | RenderStatuInnerType::Text
 		) {
 			if matches!(self.node_type, NodeType::AbstractRoot) {
-				// inner html for abstract root
-				if let Some(childs) = &self.childs {
+				// inner html for abstract root, the childs may have been removed
+				if let Some(childs) = self.childs.as_ref().filter(|childs| !childs.is_empty()) {
 					let mut finded = false;
 					let mut child_node: Option<Rc<RefCell<Node>>> = None;
 					for child in childs {
-- 
2.43.0

