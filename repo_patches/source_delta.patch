From 01bd73e29d32c631e424e9153072cc424fbea261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:07 +0000
Subject: [PATCH 01/28] fix: do not panic when the input ends inside a tag name

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..64d8012 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2015,6 +2015,10 @@ impl Doc {
 
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		// the tag name has no terminator yet, so the meta is still not set
+		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
+			self.set_tag_meta();
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From d6b23a07f7a41af379573e6f3a174f531aa4e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:08 +0000
Subject: [PATCH 02/28] fix: keep the last attribute of a start tag cut off by
 the end of input

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 64d8012..3e10bf6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2019,6 +2019,15 @@ impl Doc {
 		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
 			self.set_tag_meta();
 		}
+		// the attribute which is still being read also belongs to the unclosed tag
+		if self.code_in == CodeTypeIn::Tag {
+			if self.is_tag_code_in(&TagCodeIn::Key) {
+				self.set_tag_attr_key();
+			} else if self.is_tag_code_in(&TagCodeIn::Value) {
+				let quote = Some(self.mark_char).filter(|quote| quote != &WS_CHAR);
+				self.set_tag_attr_value(quote);
+			}
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From 016d59b49297cbd6a53da7bdce9fd4adef30adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 03/28] fix: do not add an end tag to an unclosed void element

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3e10bf6..97b7ae5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1923,6 +1923,10 @@ impl Doc {
 			if let Some(meta) = &tag_node.borrow_mut().meta {
 				// set it's meta as auto fix
 				meta.borrow_mut().auto_fix = true;
+				// void elements never have an end tag
+				if meta.borrow().is_void {
+					continue;
+				}
 				// make end tag
 				let tag_name = &meta.borrow().name;
 				let mut end = Node::new(NodeType::TagEnd, self.position);
-- 
2.43.0


From 8c183139033f33fad8ab86c6ed9d80c6080ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 04/28] fix: a self-closing doctype must not close its parent

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 97b7ae5..b45ec0b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// the doctype is not in the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 137aac5f045c6ca10a1f185d6edc52765d530d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:10 +0000
Subject: [PATCH 05/28] fix: leave the svg/math mode exactly when the outermost
 svg/math tag is closed

---
 src/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b45ec0b..f329544 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1364,10 +1364,17 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				// set code in
 				doc.set_code_in(Unkown);
 				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
-					doc.in_special = None;
+				if let Some((_, special_name)) = &doc.in_special {
+					let is_special = |name: &[char]| is_equal_chars_ignore_case(special_name, name).0;
+					// only when the outermost special tag is closed
+					let is_still_in = doc.chain_nodes.iter().any(|node| {
+						let node = node.borrow();
+						let meta = node.meta.as_ref();
+						meta.map_or(false, |meta| is_special(&meta.borrow().name))
+					});
+					if is_special(fix_end_tag_name) && !is_still_in {
+						doc.in_special = None;
+					}
 				}
 				// set end tag more info
 				let content = doc.clean_chars_to_vec();
-- 
2.43.0


From 457494dc992ee07749de6101ea08525732a36d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 06/28] fix: put an unescaped '<' into the open tag, not into a
 void or closed one

---
 src/parser.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f329544..9c83fb5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1973,23 +1973,6 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
 				need_parent = true;
 			}
-- 
2.43.0


From 739e4a4242bf351a11e2e0e60f0df560028b436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:12 +0000
Subject: [PATCH 07/28] fix: set parent and root of the text node made for an
 unescaped '<'

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 9c83fb5..3da0b89 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1988,6 +1988,8 @@ impl Doc {
 		if let Some(parent) = &parent {
 			let text_node = Node::new(NodeType::Text, self.mem_position);
 			let current_node = Rc::new(RefCell::new(text_node));
+			current_node.borrow_mut().parent = Some(Rc::downgrade(parent));
+			current_node.borrow_mut().root = Some(Rc::downgrade(&self.root));
 			let mut parent = parent.borrow_mut();
 			let childs = parent.childs.get_or_insert(Vec::new());
 			current_node.borrow_mut().index = childs.len();
-- 
2.43.0


From d8f00c890a55c1f3fdc89db106ca1bff23897802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 08/28] fix: remove_attr_quote must keep the quotes a value
 needs

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3da0b89..786d9eb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -401,6 +401,9 @@ impl TagMeta {
 			.attrs
 			.last_mut()
 			.expect("Attrs must not be empty when call set_attr_key");
+		// the quote can't be removed if the value is not valid without it
+		attr.need_quote = quote.is_some()
+			&& (attr.key.is_none() || value.is_empty() || value.iter().any(Attr::need_quoted_char));
 		attr.value = Some(AttrData { content: value });
 		attr.quote = quote;
 		attr
-- 
2.43.0


From 8002da4cb0cae6e2fc7020b970ffaaa8537b289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 09/28] fix: keep the leading slash of an unquoted attribute
 value

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 786d9eb..758d61e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1184,7 +1184,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.check_tag_type_do();
 			}
 		}
-		END_SLASH_CHAR => {
+		END_SLASH_CHAR if !doc.is_tag_code_in(&TagCodeIn::WaitValue) => {
 			// parse self closing
 			doc.handle = parse_tag_self_closing;
 		}
-- 
2.43.0


From 09bed36b1a9906820deb2f5ac723850c270009c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 10/28] fix: recognize the end of an empty comment or cdata
 section

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 758d61e..9338d3b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1511,7 +1511,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total >= 2 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From 879af1402baa9a7914c6b065297949ac918c1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:48 +0000
Subject: [PATCH 11/28] fix: decode_entity with minify_spaces must not lose
 spaces or skip entities

---
 src/parser.rs | 63 ++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 48 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9338d3b..f36d22f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
 use std::collections::HashMap;
 use std::fmt;
@@ -601,56 +601,23 @@ impl Node {
 				if !is_in_pre && options.minify_spaces {
 					// just keep one space
 					let mut prev_is_space = false;
-					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
-								}
-								is_in_entity = false;
+					let mut minified: Vec<char> = Vec::with_capacity(content.len());
+					// just add one space when meet repeated whitespaces
+					for &c in content {
+						if c.is_ascii_whitespace() {
+							if prev_is_space {
+								continue;
 							}
+							prev_is_space = true;
+						} else {
+							prev_is_space = false;
 						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+						minified.push(c);
+					}
+					if options.decode_entity {
+						decode_chars_to(&minified, result);
 					} else {
-						// just add one space when meet repeated whitespaces
-						for &c in content {
-							if c.is_ascii_whitespace() {
-								if prev_is_space {
-									continue;
-								}
-								prev_is_space = true;
-							} else {
-								prev_is_space = false;
-							}
-							result.push(c);
-						}
+						result.append(&mut minified);
 					}
 				} else {
 					// decode entity
-- 
2.43.0


From 8b0f99a2884f2861ac616083e9e4661f6e0fd94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:49 +0000
Subject: [PATCH 12/28] fix: the spaces are kept in the whole pre tag and only
 there

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index f36d22f..a0cc3f1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -762,6 +762,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -782,6 +783,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// a pre tag only has effect on its own childs
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From 89e71df2b2cb9f96d7e674c5f7951b7e15005edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:49 +0000
Subject: [PATCH 13/28] fix: always_close_void must close void elements, not
 auto fixed tags

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a0cc3f1..3017cd5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -655,7 +655,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From 58cc6e4fc8da68f1bb78b35f4ae8b21dac97a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 14/28] fix: the only text child of a tag must not become
 spaces between tags later

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3017cd5..624bda2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1331,6 +1331,8 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From 4be7b0e93d4a5dc463bab111b84525506668d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 15/28] fix: parse_file must return an error when the file can
 not be read

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 624bda2..40a88e4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1772,7 +1772,7 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
 		let file = File::open(file_path)?;
 		let file = BufReader::new(file);
@@ -1780,7 +1780,7 @@ impl Doc {
 		let mut content = String::with_capacity(500);
 		doc.parse_options = options;
 		for line in file.lines() {
-			let line_content = line.unwrap();
+			let line_content = line?;
 			content.push_str(&line_content);
 			for c in line_content.chars() {
 				doc.next(c, &content)?;
-- 
2.43.0


From 957d84a86b834d261c8170460154baeffb0e0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 16/28] fix: parse_file must report the right line and column
 of an error

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 40a88e4..02bda92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1782,6 +1782,7 @@ impl Doc {
 		for line in file.lines() {
 			let line_content = line?;
 			content.push_str(&line_content);
+			content.push('\n');
 			for c in line_content.chars() {
 				doc.next(c, &content)?;
 			}
-- 
2.43.0


From 202d2b32961de73128b83c8014f14bf98866d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:52 +0000
Subject: [PATCH 17/28] fix: allow_insert must ignore the case of title and
 textarea

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 02bda92..8c774bd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -136,7 +136,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From 64970930384c35f5bdba6685109dcfab1593dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:53 +0000
Subject: [PATCH 18/28] fix: do not panic when cloning a tag with childs that
 are not from the source

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8c774bd..6fec3c6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -510,8 +510,8 @@ impl Node {
 	// clone node but without childs
 	fn clone_node_without_childs(&self, reduce_code_at: usize) -> RefNode {
 		Rc::new(RefCell::new(Node {
-			begin_at: self.begin_at - reduce_code_at,
-			end_at: self.end_at - reduce_code_at,
+			begin_at: self.begin_at.saturating_sub(reduce_code_at),
+			end_at: self.end_at.saturating_sub(reduce_code_at),
 			index: 0,
 			node_type: self.node_type,
 			root: self.root.clone(),
-- 
2.43.0


From 4601818d1d6d7e43a5507b95d047682a9f87779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:53 +0000
Subject: [PATCH 19/28] fix: the end tag of a cloned tag must have the clone as
 its parent

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6fec3c6..88aa075 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -534,6 +534,9 @@ impl Node {
 	// clone node with reduced code at
 	fn clone_node_with(&self, reduce_code_at: usize) -> RefNode {
 		let parent_node = self.clone_node_without_childs(reduce_code_at);
+		if let Some(end_tag) = &parent_node.borrow().end_tag {
+			end_tag.borrow_mut().parent = Some(Rc::downgrade(&parent_node));
+		}
 		let mut cur_childs: Vec<RefNode> = vec![];
 		if let Some(childs) = &self.childs {
 			for node in childs {
-- 
2.43.0


From ed3c86db9e17041b1ee9471a970564ddbb602483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:54 +0000
Subject: [PATCH 20/28] fix: the inner text must not contain the markup of
 cdata and doctype nodes

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 88aa075..f773dbb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -719,6 +719,8 @@ impl Node {
 					result.extend_from_slice(content);
 				}
 			}
+			// the doctype is not a part of the inner text
+			HTMLDOCTYPE if matches!(status.inner_type, RenderStatuInnerType::Text) => {}
 			HTMLDOCTYPE => {
 				let meta = self
 					.meta
@@ -754,11 +756,16 @@ impl Node {
 				}
 			}
 			XMLCDATA => {
-				result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				let need_wrap = !matches!(status.inner_type, RenderStatuInnerType::Text);
+				if need_wrap {
+					result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				}
 				if let Some(content) = &self.content {
 					result.extend_from_slice(content);
 				}
-				result.extend_from_slice(&[']', ']', '>']);
+				if need_wrap {
+					result.extend_from_slice(&[']', ']', '>']);
+				}
 			}
 			_ => {}
 		}
-- 
2.43.0


From 81f0a1aa5cddb6fe98ba97cc81c9d8dc4e349c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:55 +0000
Subject: [PATCH 21/28] fix: join the text around a dropped end tag without
 auto_fix_unclosed_tag too

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f773dbb..196c113 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1531,8 +1531,8 @@ fn parse_unkown_tag(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.prev_chars.push(c);
 		}
 		END_SLASH_CHAR => {
-			// if allow auto fix unclosed tag
-			if !doc.parse_options.auto_fix_unclosed_tag {
+			// if allow auto fix unexpected end tag
+			if !doc.parse_options.auto_fix_unexpected_endtag {
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
 					NodeType::TagEnd,
 					doc.mem_position,
-- 
2.43.0


From 8b71595b13214e6076b42edc33029f1b1de9378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:56 +0000
Subject: [PATCH 22/28] fix: spaces around a dropped end tag are still spaces
 between tags

---
 src/parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 196c113..86b0bcf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -965,11 +965,8 @@ fn parse_wait(doc: &mut Doc, c: char, _: &str) -> HResult {
 				if let Some(content) = &mut current_node.content {
 					doc.prev_chars.append(content);
 				}
-				if matches!(current_node.node_type, NodeType::Text) {
-					doc.repeat_whitespace = false;
-				} else {
-					doc.repeat_whitespace = c.is_ascii_whitespace();
-				}
+				doc.repeat_whitespace =
+					c.is_ascii_whitespace() && doc.prev_chars.iter().all(char::is_ascii_whitespace);
 			} else {
 				// new text node
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
@@ -2045,7 +2042,8 @@ impl Doc {
 				last_node.end_at = self.position;
 			}
 			Unkown | AbstractRoot => {
-				// end ok
+				// end ok, the last end tag may be dropped after spaces
+				self.set_text_spaces_between();
 			}
 			Tag => {
 				if !self.parse_options.auto_fix_unclosed_tag {
-- 
2.43.0


From e1f05860962711a497f113b0ae5d5eacfbafefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:17 +0000
Subject: [PATCH 23/28] fix: set the position of the end tag of script, style,
 title and textarea

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 86b0bcf..fd036d3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1458,10 +1458,13 @@ fn parse_content_tag(doc: &mut Doc, c: char, _: &str) -> HResult {
 		if detect_len == 0 {
 			// set code in unkown
 			doc.set_code_in(Unkown);
+			// the position of the end tag's '<'
+			let begin_at = doc.position + prev_len - doc.prev_chars.len();
 			// first remove end tag from prev_chars, and then remove '</' from end tag to get the name
 			let end_tag_name = doc.prev_chars.split_off(prev_len).split_off(2);
 			// add an end tag
-			let mut end = Node::new(NodeType::TagEnd, doc.position + 1);
+			let mut end = Node::new(NodeType::TagEnd, begin_at);
+			end.end_at = doc.position + 1;
 			end.content = Some(end_tag_name);
 			end.parent = Some(Rc::downgrade(&doc.current_node));
 			// set tag node's content, end_tag
-- 
2.43.0


From 70908dd3ae4fc7d210b57a5d5608d2129cd3297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 24/28] fix: set the end position of start tags and doctypes

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index fd036d3..928896f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1039,6 +1039,7 @@ fn parse_tag_name(doc: &mut Doc, c: char, _: &str) -> HResult {
 		TAG_END_CHAR => {
 			// detect if void tag
 			let is_void = doc.set_tag_meta();
+			doc.set_tag_end_info();
 			if is_void {
 				// tag is end
 				doc.chain_nodes.pop();
@@ -1093,6 +1094,7 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
+			doc.set_tag_end_info();
 			// the doctype is not in the chain nodes
 			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
 				doc.chain_nodes.pop();
@@ -1144,6 +1146,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.set_tag_code_in(TagCodeIn::Value);
 		}
 		TAG_END_CHAR => {
+			doc.set_tag_end_info();
 			if doc
 				.current_node
 				.borrow()
-- 
2.43.0


From 696534d4e30283988624976fbbeb79b4bf418f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:09 +0000
Subject: [PATCH 25/28] fix: report the position of the '<' when the input ends
 right after it

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 928896f..b22a57b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2060,6 +2060,14 @@ impl Doc {
 					);
 				}
 			}
+			UnkownTag | ExclamationBegin => {
+				// the current node is still the previous one
+				return create_parse_error(
+					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
+					self.mem_position,
+					context,
+				);
+			}
 			_ => {
 				return create_parse_error(
 					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
-- 
2.43.0


From 25be7209f1bff8798c9a6c29f5de0f5d1d5c39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:03 +0000
Subject: [PATCH 26/28] fix: render a doctype without attributes so that it can
 be parsed again

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b22a57b..0ed4b55 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -729,7 +729,10 @@ impl Node {
 					.borrow();
 				result.extend_from_slice(&['<', '!']);
 				result.extend_from_slice(&meta.name);
-				if !meta.attrs.is_empty() {
+				if meta.attrs.is_empty() {
+					// the name of the doctype must be followed by a whitespace
+					result.push(WS_CHAR);
+				} else {
 					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
 				}
 				result.push('>');
-- 
2.43.0


From e522ae12dcb3e7ef78e777b3b58be1ad9cedf734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 27/28] fix: the only spaces of an unclosed tag are its text
 like those of a closed one

---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0ed4b55..f843c1d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2037,6 +2037,13 @@ impl Doc {
 			}
 			// fix unclosed tags
 			let unclosed = self.chain_nodes.split_off(1);
+			// the only text of the last unclosed tag is not between tags
+			if let Some(childs) = unclosed.last().and_then(|tag| tag.borrow().childs.clone()) {
+				if childs.len() == 1 && childs[0].borrow().node_type == NodeType::Text {
+					self.check_textnode = None;
+					self.repeat_whitespace = false;
+				}
+			}
 			self.fix_unclosed_tag(&unclosed);
 		}
 		// check and fix last node info.
-- 
2.43.0


From 17ed5e6ac82b4278f96dad44e29c825248c9bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:46 +0000
Subject: [PATCH 28/28] fix: the keyword of a CDATA section is case-sensitive

<![cdata[x]]> was accepted and rendered as <![CDATA[x]]>: the comparison
which ignores the letter case is meant for the doctype only.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f843c1d..31a4f2c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1586,7 +1586,9 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 		let actual_len = next_chars.len();
 		if total_len < actual_len {
 			let cur_should_be = next_chars.get(total_len).unwrap();
-			if cur_should_be == &c.to_ascii_uppercase() {
+			// only the name of the doctype is case-insensitive
+			let is_doctype = next_chars[0] == 'D';
+			if cur_should_be == &c || (is_doctype && cur_should_be == &c.to_ascii_uppercase()) {
 				if total_len == actual_len - 1 {
 					let begin_at = doc.mem_position;
 					match c {
-- 
2.43.0

